PROPERTY = 'C15'
NEEDS = 'a coefficient that is nearly -1, but not exactly'
BREAKS = 'the generated code uses -1 instead of the coefficient'
EDITS = [('fixif/SoP/SoP.py', "\t\t\telif co == -1:\n", "\t\t\telif abs(co + 1) < 1e-12:\n")]
DEMO = '''
import numpy as np
from fixif.SIF import Realization
e = np.zeros
R = Realization(None, (e((0, 0)), e((1, 0)), e((1, 0)), e((0, 1)), e((0, 1)), [[0.]], [[0.]], [[0.]], [[-1. - 2. ** -45]]))
code = R.implementCdouble('f')
assert (-1. - 2. ** -45).hex() in code, code
'''
