PROPERTY = 'C13'
NEEDS = 'the Li-Gevers-Sun structure for a stable filter of order 4 at least'
BREAKS = 'the decomposition of A uses the first beta instead of the previous one'
A = "\tfor i in range(1, n - 1):\n\t\tbeta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))\n\t\tif i < n - 2:\n\t\t\tgamma.append(1 / (1 - alpha[i] * beta[i]))\n\tbeta.append(-alpha[n - 1] / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))\n\tgamma.append(1 / (1 + alpha[n - 1] - alpha[n - 2] * beta[n - 2]))\n\t# Puis on ajoute dans la liste de la décomposition les matrices U selon la formule.\n\tfor i in range(0, n - 1):\n\t\tAd.append(U(i + 1, i, -alpha[i], n))\n"
EDITS = [('fixif/Structures/LGS_LCW/LGS_LCW.py', A, A.replace('beta[i - 1]', 'beta[0]'))]
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import LGS
f = Filter(num=[1., 0.5, 0.25, 0.125, 0.3], den=[1., -0.2, 0.1, 0.05, -0.03])
R = LGS(f)
S, T = R.dSS, f.dSS
x, y = S.B, T.B
for k in range(12):
	assert abs((S.C * x)[0, 0] - (T.C * y)[0, 0]) < 1e-6
	x, y = S.A * x, T.A * y
'''
