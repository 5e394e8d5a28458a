PROPERTY = 'C01'
NEEDS = 'a unit lower-triangular matrix whose inverse has entries that need more than 106 bits (magnitudes spread over more than 2^53, or several levels of substitution)'
BREAKS = 'the inverse of a unit lower-triangular matrix is rounded to twice the working precision instead of being exact'
EDITS = [('fixif/func_aux/mpf_matrix_lt_inverse.py', "\t\t\tx[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)\n", "\t\t\tx[i,0] = mpmath.fsub(x[i,0], tmp, prec=2*mpmath.mp.prec)\n")]
DEMO = '''
import numpy, mpmath
from fixif.func_aux import mpf_matrix_lt_inverse, mpf_matrix_fmul
L = numpy.matrix([[1., 0, 0, 0], [1e20, 1, 0, 0], [3., 1e-20, 1, 0], [0.1, 1e30, 1./3, 1]])
X = mpf_matrix_lt_inverse(L)
P = mpf_matrix_fmul(L, X)
for i in range(4):
	for j in range(4):
		assert P[i, j] == (1 if i == j else 0), (i, j, P[i, j])
'''
