PROPERTY = 'C27'
NEEDS = 'a transfer function with a null coefficient before the last one, in the numerator'
BREAKS = 'the null coefficients are skipped, and the next ones get lower powers in the polynomial given to Sollya'
EDITS = [('fixif/LTI/dTF.py', "\t\t\tnum = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(array(self.num)[0, :])))\n", "\t\t\tcoefs = array(self.num)[0, :]\n\t\t\tnum = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(coefs[coefs != 0])))\n")]
DEMO = '''
import sys
import types
from numpy.polynomial import Polynomial
m = types.ModuleType('sollya')
m.SollyaObject = lambda x: Polynomial([float(x)])
m._x_ = Polynomial([0., 1.])
m.horner = lambda p: p
sys.modules['sollya'] = m
from fixif.LTI import dTF
for num, den in (([1., 2.], [1., 0.5]), ([1., 0., 2.], [1., 0., 0.5]), ([0., 1.], [1., -0.5])):
	b, a = dTF(num, den).to_Sollya()
	for p, c in ((b, num), (a, den)):
		for x in (0.5, 2., -1.):
			assert abs(p(x) - sum(v * x ** i for i, v in enumerate(c))) < 1e-9, (num, den)
'''
