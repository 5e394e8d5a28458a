PROPERTY = 'C11'
NEEDS = 'the matrix J of an implicit form edited after the construction, then its state space used'
BREAKS = 'the state space is rebuilt before the inverse of J is updated'
EDITS = [('fixif/SIF/SIF.py', "\t\tself._Z[0: self._l, 0: self._l] = - mymat\n\t\tself._invJ = inv(mymat)\n\t\tself._build_fromZ()\n", "\t\tself._Z[0: self._l, 0: self._l] = - mymat\n\t\tself._build_fromZ()\n\t\tself._invJ = inv(mymat)\n")]
DEMO = '''
import numpy as np
from fixif.SIF import SIF
m = lambda a, b, v: np.matrix(np.full((a, b), v))
def mk(J):
	return SIF((J, m(1, 2, 1.), m(1, 2, 1.), m(2, 1, 0.25), m(2, 1, 1.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.)))
J2 = np.matrix([[1., 0.], [0.5, 1.]])
S = mk(np.matrix(np.eye(2)))
S.J = J2
assert abs(S.DZ - mk(J2).DZ).max() < 1e-12
'''
