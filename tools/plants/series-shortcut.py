PROPERTY = 'C07'
NEEDS = 'the product of two state spaces, the first of which has a null direct term, the second one not'
BREAKS = 'the inputs of the first system miss the direct term of the second one'
EDITS = [('fixif/LTI/dSS.py', "\t\tbmul = r_[self.B*other.D, other.B]\n", "\t\tbmul = r_[self.B*other.D if self.D.any() or n1 > n2 else zeros((n1, q2)), other.B]\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSS
m = lambda *r: np.matrix(r)
A = dSS(m([0.5]), m([1.]), m([1.]), m([0.]))
B = dSS(m([0.25]), m([1.]), m([1.]), m([2.]))
P = A * B
assert abs((P.C * P.B)[0, 0] - 2.) < 1e-12
'''
