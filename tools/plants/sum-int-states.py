PROPERTY = 'C07'
NEEDS = 'a sum whose first system has integer matrices, and whose second one has real coefficients in A'
BREAKS = 'the coefficients of A of the second system are truncated'
EDITS = [('fixif/LTI/dSS.py', "\t\tnewA = numpy.concatenate((self.A, numpy.zeros([self.n, S.n])), axis=1)\n\t\ttmp = numpy.concatenate((numpy.zeros([S.n, self.n]), S.A), axis=1)\n\t\tnewA = numpy.concatenate((newA, tmp), axis=0)\n\n\t\tnewB = numpy.concatenate((self.B, S.B), axis=0)\n\t\tnewC = numpy.concatenate((self.C, S.C), axis=1)\n\t\tnewD = self.D + S.D\n",
	"\t\tnewA = numpy.zeros([self.n + S.n, self.n + S.n], dtype=self.A.dtype)\n\t\tnewA[:self.n, :self.n] = self.A\n\t\tnewA[self.n:, self.n:] = S.A\n\n\t\tnewB = numpy.concatenate((self.B, S.B), axis=0)\n\t\tnewC = numpy.concatenate((self.C, S.C), axis=1)\n\t\tnewD = self.D + S.D\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSS
X = dSS(np.matrix([[1]]), np.matrix([[1]]), np.matrix([[1]]), np.matrix([[0]]))
Y = dSS([[0.5]], [[1.]], [[1.]], [[0.]])
S = X + Y
assert abs((S.C * S.A * S.B)[0, 0] - 1.5) < 1e-12, S
'''
