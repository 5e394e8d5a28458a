PROPERTY = 'C03'
NEEDS = 'a multiprecision value with more than 53 bits very near the middle of two doubles'
BREAKS = 'multiprecision matrices are converted to doubles through their decimal representation, with a double rounding'
EDITS = [('fixif/func_aux/mpf_to_numpy.py', "\t\t\tM[i,j] = float(A[i,j])\n", "\t\t\tM[i,j] = float(mpmath.nstr(A[i,j], 18))\n")]
DEMO = '''
import mpmath
from fixif.func_aux import mpf_to_numpy
with mpmath.workprec(300):
	x = mpmath.mpf(1) + mpmath.ldexp(1, -53) + mpmath.ldexp(1, -120)
assert mpf_to_numpy(mpmath.matrix([[x]]))[0, 0] == 1 + 2.**-52
'''
