PROPERTY = 'C06'
NEEDS = 'a transfer function with a non-null direct term converted to a controllable state space'
BREAKS = 'the direct term is not removed from the last coefficient of the numerator'
EDITS = [('fixif/LTI/dTF.py', "\t\t\tC = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])\n", "\t\t\tC = mat(fliplr(self.num[0, 1:]) - c_[0, fliplr(self.den[0, 1:self.order])]*self.num[0, 0] if self.num[0, self.order] == self.den[0, self.order] else fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])\n")]
DEMO = '''
from fixif.LTI import dTF
H = dTF([0.5, 0.25, 0.125], [1., 0.5, 0.125])
S = H.to_dSS('ctrl')
h = [S.D[0, 0]]
x = S.B
for k in range(4):
	h.append((S.C * x)[0, 0])
	x = S.A * x
g = []
for k in range(5):
	g.append((H.num[0, k] if k < 3 else 0) - sum(H.den[0, i] * g[k - i] for i in (1, 2) if k >= i))
assert all(abs(a - b) < 1e-9 for a, b in zip(h, g)), (h, g)
'''
