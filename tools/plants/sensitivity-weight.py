PROPERTY = 'C22'
NEEDS = 'a transfer function sensitivity with a mask with values other than 0 and 1'
BREAKS = 'the weights dZ different from 1 are counted as 1 in the sensitivity matrix'
EDITS = [('fixif/SIF/SIF_sensibility.py', '\tMX = multiply(MX, W)\n', '\tMX = multiply(MX, W != 0)\n')]
DEMO = '''

import numpy as np
from fixif.SIF import SIF
z = lambda a, b: np.matrix(np.zeros((a, b)))
J = tuple(np.matrix(m) for m in ([[1.]], [[0.3]], [[0.7]], [[0.6]], [[0.5]], [[0.3]], [[0.9]], [[0.1]], [[0.2]]))
w = tuple(np.matrix([[v]]) for v in (0., 1., 1., 1., 1., 1., 1., 1., 1.))
w2 = tuple(2 * m for m in w)
M1, X1 = SIF(J, w).dTFsensitivity()
M2, X2 = SIF(J, w2).dTFsensitivity()
assert np.allclose(2 * X1, X2) and abs(M2 - 4 * M1) < 1e-9 * M2, (M1, M2)
'''
