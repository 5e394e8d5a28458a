PROPERTY = 'C26'
NEEDS = 'a comparison of a transfer function with another one of higher order that only adds coefficients in its numerator'
BREAKS = 'dTF.assert_close does not see the last coefficients of the numerator of the second transfer function'
EDITS = [('fixif/LTI/dTF.py', "\t\tonum[:1, :other.num.shape[1]] = other.num\n", "\t\tonum[:1, :self.num.shape[1]] = other.num[:, :self.num.shape[1]] if other.order > self.order else onum[:1, :self.num.shape[1]]\n\t\tif other.order <= self.order:\n\t\t\tonum[:1, :other.num.shape[1]] = other.num\n")]
DEMO = '''
from fixif.LTI import dTF
H = dTF([1., 2.], [1., 0.5])
H.assert_close(dTF([1., 2., 0.], [1., 0.5, 0.]))
try:
	H.assert_close(dTF([1., 2., 3.], [1., 0.5, 0.]))
except AssertionError:
	raise SystemExit(0)
raise SystemExit('accepted')
'''
