PROPERTY = 'C22'
NEEDS = 'poleSensitivity on the moduli (default) for a system with complex poles'
BREAKS = 'the derivatives of the moduli are those of the conjugate pole direction: right for real poles only'
EDITS = [('fixif/SIF/SIF_sensibility.py', 'conj(mylambda[0, k] * conj(My[:, k]) * transpose(Mx[:, k]))', 'mylambda[0, k] * My[:, k] * transpose(Mx[:, k])')]
DEMO = '''

import numpy as np
from fixif.LTI import Filter
from fixif.Structures import State_Space
A = np.matrix([[0.5, 0.4], [-0.3, 0.6]])
R = State_Space(Filter(A=A, B=np.matrix([[1.], [1.]]), C=np.matrix([[1., 1.]]), D=np.matrix([[0.]])))
M, MX, MXk = R.poleSensitivity()
e = 1e-6
for i in range(2):
	for j in range(2):
		B = A.copy()
		B[i, j] += e
		d = (abs(np.linalg.eigvals(B)) - abs(np.linalg.eigvals(A))) / e
		assert np.allclose(sorted(d), sorted(MXk[R.l + i, R.l + j, :].real), atol=1e-4), (i, j, d, MXk[R.l + i, R.l + j, :])
'''
