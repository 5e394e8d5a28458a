PROPERTY = 'C23'
NEEDS = 'a matrix P with non-null coefficients above its diagonal only (or below only)'
BREAKS = 'isPnut looks at the diagonal too'
EDITS = [('fixif/SIF/SIF.py', '\tdef isPnut(self):\n\t\t"""\n\t\tReturns true if the Lower triangular part non-null\n\t\t"""\n\t\tisPnut = True\n\t\tif all(tril(self.P,  -1) == 0):\n\t\t\tisPnut = False\n', '\tdef isPnut(self):\n\t\t"""\n\t\tReturns true if the Lower triangular part non-null\n\t\t"""\n\t\tisPnut = True\n\t\tif all(tril(self.dP,  -1) == 0):\n\t\t\tisPnut = False\n')]
DEMO = '''

from fixif.LTI import Filter
from fixif.Structures import State_Space
R = State_Space(Filter(A=[[0.3, 0.1], [0.5, 0.2]], B=[[1.0], [1.0]], C=[[1.0, 1.0]], D=[[0.0]]))
assert R.isPnut()
'''
