PROPERTY = 'C05'
NEEDS = 'the opposite of a transfer function, then another use of the first one'
BREAKS = 'the unary minus is computed in the coefficients of its operand'
EDITS = [('fixif/LTI/dTF.py', "\t\treturn dTF(-self._num, self._den)\n", "\t\tself._num *= -1\n\t\treturn dTF(self._num, self._den)\n")]
DEMO = '''
from fixif.LTI import dTF
H = dTF([0.5, 0.25, 0.125, 1.], [1., 0.5, 0.125, 0.25])
G = -H
assert H.num[0, 3] == 1. and G.num[0, 3] == -1.
'''
