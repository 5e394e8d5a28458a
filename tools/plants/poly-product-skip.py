PROPERTY = 'C04'
NEEDS = 'mp_poly_product with the index of the last factor (and at least 2 of them)'
BREAKS = 'the polynomial without one of its factors keeps the factor to leave out when this is the last one'
EDITS = [('fixif/func_aux/mp_poly_product.py', "\tif j == -1:\n", "\tif j == -1 or j + 1 >= max(degP, 2):\n")]
DEMO = '''
import mpmath
from fixif.func_aux import mp_poly_product
c = mp_poly_product([mpmath.mpf(2), mpmath.mpf(3), mpmath.mpf(5)], 2)
assert [x for x in c] == [1, 5, 6], c
'''
