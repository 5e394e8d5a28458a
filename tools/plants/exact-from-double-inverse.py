PROPERTY = 'C10'
NEEDS = 'an implicit form whose J has an inverse that is not representable with doubles (two non-trivial coefficients multiplied in a chain)'
BREAKS = 'the exact state space is computed from the double-precision inverse of J'
EDITS = [('fixif/SIF/SIF.py', "\t\tinvJ = mpf_matrix_lt_inverse(self.J)\n", "\t\t# (J has already been inverted)\n\t\tinvJ = mpf_matrix_fadd(self._invJ, np.matrix(zeros((self._l, self._l))))\n")]
DEMO = '''
import numpy as np
from fractions import Fraction as F
from fixif.SIF import SIF
J = np.matrix([[1., 0, 0], [0.1, 1, 0], [0.3, 0.7, 1]])
m = lambda a, b, v: np.matrix(np.full((a, b), v))
S = SIF((J, m(1, 3, 1.), m(1, 3, 1.), m(3, 1, 0.5), m(3, 1, 1.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.))).to_dSSexact()
t1 = F(1)
t2 = 1 - F(0.1) * t1
t3 = 1 - F(0.3) * t1 - F(0.7) * t2
d = S.D[0, 0]
v = F(int(d._mpf_[1])) * F(2) ** d._mpf_[2] * (-1 if d._mpf_[0] else 1)
assert v == t1 + t2 + t3
'''
