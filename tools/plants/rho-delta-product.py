PROPERTY = 'C14'
NEEDS = 'rho Direct Form II with Deltas that are not all equal to 1 but which product is 1'
BREAKS = 'the Deltas are taken as if they were all equal to 1 (specific implicit form without them)'
EDITS = [('fixif/Structures/rhoDFIIt/rhoDFIIt.py', "\t\tif array_equal(Delta, ones((1, n))):\n", "\t\tif Ka == 1:\n")]
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import rhoDFII
f = Filter(num=[1., 0.5, 0.25], den=[1., -0.2, 0.1])
R = rhoDFII(f, gamma=np.matrix([[0.5, 0.25]]), Delta=np.matrix([[2., 0.5]]))
S, T = R.dSS, f.dSS
x, y = S.B, T.B
for k in range(12):
	assert abs((S.C * x)[0, 0] - (T.C * y)[0, 0]) < 1e-6
	x, y = S.A * x, T.A * y
'''
