PROPERTY = 'C26'
NEEDS = 'two systems whose direct terms have the same norm but differ by a sign or by the order of their channels, with the same Markov parameters'
BREAKS = 'dSS.assert_close accepts a system whose direct term is another one'
EDITS = [('fixif/LTI/dSS.py', "\t\tassert norm(self.D - other.D) < eps\n", "\t\tassert abs(norm(self.D) - norm(other.D)) < eps\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSS
A, B, C = [[0.5]], [[1., 2.]], [[1.], [3.]]
X = dSS(A, B, C, [[1., 0.], [0., 2.]])
for D in ([[-1., 0.], [0., 2.]], [[0., 1.], [2., 0.]]):
	try:
		X.assert_close(dSS(A, B, C, D))
	except AssertionError:
		continue
	raise SystemExit('accepted')
X.assert_close(dSS(A, B, C, [[1., 0.], [0., 2.]]))
'''
