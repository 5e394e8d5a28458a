PROPERTY = 'C08'
NEEDS = 'the DC gain of a state space asked, then anything that depends on its D matrix'
BREAKS = 'the DC gain is accumulated in the D matrix of the system'
EDITS = [('fixif/LTI/dSS.py', "\t\t\t\tself._DC_gain = self._C * inv(identity(self._n) - self._A) * self._B + self._D\n", "\t\t\t\tself._DC_gain = self._D\n\t\t\t\tself._DC_gain += self._C * inv(identity(self._n) - self._A) * self._B\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSS
m = lambda *r: np.matrix(r)
A = dSS(m([0.5]), m([1.]), m([1.]), m([1.]))
A.calc_DC_gain()
assert abs(A.H2norm() ** 2 - (1 + 4. / 3)) < 1e-9
'''
