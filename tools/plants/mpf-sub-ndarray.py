PROPERTY = 'C25'
NEEDS = 'a MPFMatrix minus a numpy matrix, whose result is used after the numpy matrix changed, or a precision lower than 53 bits'
BREAKS = 'the difference of a MPFMatrix with a numpy matrix is computed in double precision'
EDITS = [('fixif/func_aux/MPFMatrix.py', '\t\t\tother = MPFMatrix(other)\n\t\t\treturn MPFMatrix(self._M - other._M)\n', '\t\t\treturn MPFMatrix(mpmath.matrix(self.to_numpy() - other))\n')]
DEMO = '''

import mpmath
import numpy
from fixif.func_aux import MPFMatrix
mpmath.mp.prec = 200
A = MPFMatrix(mpmath.matrix([[1 + mpmath.mpf(2) ** -100, 3]]))
assert (A - numpy.matrix([[1., 3.]]))[0, 0] == mpmath.mpf(2) ** -100
'''
