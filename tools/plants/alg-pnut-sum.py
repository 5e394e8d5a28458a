PROPERTY = 'C16'
NEEDS = 'a realization whose matrix P has non-null coefficients below its diagonal that sum to zero'
BREAKS = 'the algorithm without time does not keep the next states apart from the current ones'
EDITS = [('fixif/SIF/SIF.py', "\t\tif all(tril(self.P,  -1) == 0):\n", "\t\tif tril(self.P,  -1).sum() == 0:\n")]
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import State_Space
A = np.matrix([[0.5, 0., 0.], [0.25, 0.25, 0.], [-0.5, 0.25, -0.5]])
f = Filter(A=A, B=np.matrix([[1.], [1.], [1.]]), C=np.matrix([[1., 1., 1.]]), D=np.matrix([[0.]]))
R = State_Space(f)
assert R.isPnut()
assert 'x1p' in R.algorithmTxt(withTime=False)
'''
