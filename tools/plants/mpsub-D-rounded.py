PROPERTY = 'C09'
NEEDS = 'the difference of two multiprecision state spaces whose direct terms have very different magnitudes (or a low working precision)'
BREAKS = 'the direct term of the difference is rounded to the working precision'
EDITS = [('fixif/LTI/dSSmp.py', "\t\t\t\tD[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)\n", "\t\t\t\tD[i, j] = self.D[i, j] - S.D[i, j]\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSSmp
from fractions import Fraction
m = lambda *r: np.matrix(r)
A = dSSmp(m([0.5]), m([1.]), m([1.]), m([1e20]))
B = dSSmp(m([0.25]), m([1.]), m([1.]), m([1e-20]))
d = (A - B).D[0, 0]
v = Fraction(int(d._mpf_[1])) * Fraction(2) ** d._mpf_[2] * (-1 if d._mpf_[0] else 1)
assert v == Fraction(1e20) - Fraction(1e-20)
'''
