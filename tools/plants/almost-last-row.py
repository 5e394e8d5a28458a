PROPERTY = 'C25'
NEEDS = 'matrices that differ only in a place after the first column of a row that has its first entry close'
BREAKS = 'almost_close stops at the first close entry of the last row'
EDITS = [('fixif/func_aux/MPFMatrix.py', '\t\tfor i in range(0, self.rows):\n\t\t\tfor j in range(0, self.cols):\n\t\t\t\tif not mpmath.almosteq(', '\t\tfor i in range(0, self.rows):\n\t\t\tfor j in range(0, min(self.cols, self.rows) if self.rows > 1 else self.cols):\n\t\t\t\tif not mpmath.almosteq(')]
DEMO = '''

import mpmath
from fixif.func_aux import MPFMatrix
A = MPFMatrix(mpmath.matrix([[1, 2, 3], [4, 5, 6]]))
assert not A.almost_close(mpmath.matrix([[1, 2, 3], [4, 5, 7]]))
'''
