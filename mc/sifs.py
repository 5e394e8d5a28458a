"""Small implicit forms (J..S tuples) and their exact semantics."""
from mc import ref
from fractions import Fraction as Fr
import itertools
import numpy

NAMES = 'JKLMNPQRS'


def shapes(l, n, p, q):
	return dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))


# equation and variable of each matrix
ROWS = dict(J='t', K='x', L='y', M='t', N='t', P='x', Q='x', R='y', S='y')
COLS = dict(J='t', K='t', L='t', M='x', N='u', P='x', Q='u', R='x', S='u')


SCALES = {'t': [2. ** v for v in [-31, 29, 0, 33, -35]], 'x': [2. ** v for v in [28, -34, 31, 0, -30]], 'u': [2. ** v for v in [0, -38, 2, 30]], 'y': [2. ** v for v in [0, 36, -33, 1]]}


def scale(x, M):
	"""the matrix x in the basis of the family 'mag'"""
	s, t = SCALES[ROWS[x]], SCALES[COLS[x]]
	return [[v / s[i % len(s)] * t[j % len(t)] for j, v in enumerate(row)] for i, row in enumerate(M)]


def jtos(l, n, p, q, fam):
	"""dict name -> list of lists of floats (dyadic). The resulting systems are contracting"""
	if fam[0] == 'z':
		return pattern(l, n, p, q, fam)
	if fam == 'dense':
		# 'full', with coefficients of 53 bits
		out = jtos(l, n, p, q, 'full')
		for k, x in enumerate(NAMES):
			out[x] = [[v * (1 + (-1) ** (i + j) * (((7 * i + 5 * j + 3 * k) % 29) / 128. + 1 / 3. ** (i + 2 * j + k + 3))) if x != 'J' or i > j else v for j, v in enumerate(row)] for i, row in enumerate(out[x])]
		return out
	if fam == 'ints':
		# integer coefficients, with a nilpotent P and without feedback through the intermediate variables
		return {x: [[float((i == j) or (i > j) * (-2) ** (i + j) if x == 'J' else (j == i + 1) if x == 'P' else 0 if x in 'KM' else (1, 3, -2, 0)[(2 * i + 3 * j + ord(x)) % 4]) for j in range(b)] for i in range(a)] for x, (a, b) in shapes(l, n, p, q).items()}
	if fam in ('cancel', 'corner'):
		# 'full', with coefficients of P below its diagonal that sum to zero, or that are only in its corner
		out = jtos(l, n, p, q, 'full')
		low = [(i, j) for i in range(n) for j in range(i)]
		for k, (i, j) in enumerate(low):
			if fam == 'cancel':
				out['P'][i][j] = 0. if k == len(low) - 1 and len(low) % 2 else (-1) ** k * 0.25
			else:
				out['P'][i][j] = 0.25 if i - j > 1 else 0.
		return out
	if fam == 'mag':
		# 'full' in another basis (intermediate variables, states, inputs and outputs multiplied by powers of 2): coefficients of very different magnitudes, same behaviour up to the scale of inputs and outputs
		out = jtos(l, n, p, q, 'full')
		for x in NAMES:
			out[x] = scale(x, out[x])
		return out
	if fam == 'big':
		# for large sizes: few coefficients per row, contracting
		out = {}
		for k, (x, (a, b)) in enumerate(shapes(l, n, p, q).items()):
			M = [[0.] * b for _ in range(a)]
			for i in range(a):
				for j in range(b):
					t = (3 * i + 5 * j + 7 * k + 2)
					if x == 'J':
						M[i][j] = 1. if i == j else 0. if i < j else 0.25 if i == j + 1 else -0.125 if i - j in (3, 10) else 0.
					elif x == 'P':
						M[i][j] = 0.375 * (-1) ** i if i == j else 0.125 if j == i + 1 else -0.0625 if i - j in (2, 10) else 0.
					elif x in 'KM':
						M[i][j] = 0.1875 * (-1) ** t if (i - j) % 7 == 0 else 0.03125 if (i - j) % 7 == 4 else 0.
					else:
						M[i][j] = [0.5, 0., -1.25, 0.75, 2., 1.][t % 6]
			out[x] = M
		return out
	out = {}
	for k, (x, (a, b)) in enumerate(shapes(l, n, p, q).items()):
		M = [[0.] * b for _ in range(a)]
		for i in range(a):
			for j in range(b):
				t = (3 * i + 5 * j + 7 * k + 2)
				if x == 'J':
					if i == j:
						M[i][j] = 1.
					elif i > j:
						M[i][j] = {'full': [0.5, -1., 0.25][t % 3], 'sparse': [0., 0.5][t % 2], 'pow2': 1., 'upper': 0.5, 'int': [1., 2., -1.][t % 3]}[fam]
					continue
				v = {'full': [0.25, -0.125, 0.1875, -0.3125][t % 4], 'sparse': [0., 0.25, 0., -0.375][t % 4], 'pow2': [0.25, -0.125, 0.5][t % 3], 'upper': [0.25, 0.375, -0.125][t % 3], 'int': [1., 0., -1., 2., 3.][t % 5]}[fam]
				if x == 'P':
					if fam == 'upper' and i > j:
						v = 0.
					v = v if fam == 'int' else v / (1 if i == j else 2)
				if x in 'LRS' and fam != 'int':
					v *= 3
				if x in 'NQ' and fam != 'int':
					v *= 2
				M[i][j] = v
		out[x] = M
	return out


def pattern(l, n, p, q, fam):
	"""form with blocks of null coefficients: 'full' with the f-th (of 6) state matrix and matrix J, where the blocks of bl marked 1 are null"""
	f, sub = int(fam[1]), fam[2:]
	z = lambda a, b, g: [[float(g(i, j)) for j in range(b)] for i in range(a)]
	P = z(n, n, [lambda i, j: 0.,
	             lambda i, j: 0.5 if i == j + 1 else 0.,
	             lambda i, j: 0.5 if j == i + 1 else 0.,
	             lambda i, j: 0.5 if i == j + 1 else 0.25 if i == j else 0.125 if j == i + 2 else 0.,
	             lambda i, j: 0.5 if i == j + 2 else 1. if i == j == n - 1 else 0.,
	             lambda i, j: 1. if i == n - 1 - j else 0.][f])
	J = z(l, l, lambda i, j: 1. if i == j else 0. if j > i else [0., 0.5, 0., -1., 0.25 if i - j > 1 else 0., 1.][f])
	D = dict(jtos(l, n, p, q, 'full'), P=P, J=J)
	for x, nul in zip('QRSKLMN', sub):
		if nul == '1':
			D[x] = [[0.] * len(row) for row in D[x]]
	return D


def patterns(l, n, p, q, f):
	"""names of the families with blocks of null coefficients: every subset of the blocks, with the f-th (of 6) state matrix and matrix J"""
	for sub in itertools.product('01', repeat=7 if l else 3):
		yield 'z%d%s' % (f, ''.join(sub))


def some_patterns(quick, fs=range(6)):
	"""(sizes, family): all of them, or in the quick tier all the subsets of null blocks for two of the sizes, with at most 2 (or all but 2) null blocks for the others"""
	for k, d in enumerate(PATTERNS):
		for f in fs:
			for fam in patterns(*d, f):
				if not quick or k in (0, 2) or fam[2:].count('1') not in (2, 3, 4, 5):
					yield list(d), fam


PATTERNS = [(2, 4, 1, 1), (1, 5, 2, 2), (0, 4, 1, 2), (2, 3, 2, 1), (3, 2, 1, 2)]


# (l, n, p, q): sizes with indexes of 2 digits
BIG = [(11, 11, 1, 1), (0, 12, 2, 1), (12, 1, 1, 2), (2, 3, 11, 1), (1, 2, 1, 11), (10, 10, 10, 10)]


def tup(D):
	s = {}
	for x in NAMES:
		M = D[x]
		s[x] = M
	return s


def npm(M, a, b, dtype=float):
	return numpy.matrix(numpy.array(M, dtype=dtype).reshape(a, b))


def build_args(D, l, n, p, q, dtype=float):
	sh = shapes(l, n, p, q)
	return tuple(npm(D[x], *sh[x], dtype=dtype) for x in NAMES)


def fr(M):
	return [[Fr(v) for v in row] for row in M]


def zeros_if(M, a, b):
	"""matrix as list of a rows of b entries (also when a dimension is 0)"""
	if a == 0 or b == 0:
		return [[Fr(0)] * b for _ in range(a)]
	return fr(M)


class Exact(object):
	"""exact semantics of the implicit form: J t = M x + N u ; x+ = K t + P x + Q u ; y = L t + R x + S u"""

	def __init__(self, D, l, n, p, q):
		self.l, self.n, self.p, self.q = l, n, p, q
		self.m = {x: zeros_if(D[x], a, b) for x, (a, b) in shapes(l, n, p, q).items()}

	def step(self, x, u, et=None, ex=None, ey=None):
		"""one step; e*: additional terms (roundoff errors) in the three equations"""
		m, l, n, p, q = self.m, self.l, self.n, self.p, self.q
		t = []
		dot = lambda a, b: sum((c * d for c, d in zip(a, b)), Fr(0))
		for i in range(l):
			v = dot(m['M'][i], x) + dot(m['N'][i], u) - sum((m['J'][i][j] * t[j] for j in range(i)), Fr(0))
			t.append(v + (et[i] if et else 0))
		xp = [dot(m['K'][i], t) + dot(m['P'][i], x) + dot(m['Q'][i], u) + (ex[i] if ex else 0) for i in range(n)]
		y = [dot(m['L'][i], t) + dot(m['R'][i], x) + dot(m['S'][i], u) + (ey[i] if ey else 0) for i in range(p)]
		return t, xp, y

	def run(self, us, x0=None):
		x = list(x0) if x0 else [Fr(0)] * self.n
		out = []
		for u in us:
			t, xp, y = self.step(x, u)
			out.append((t, x, xp, y))
			x = xp
		return out

	def ss(self):
		"""A, B, C, D of the equivalent state-space, exactly"""
		n, q = self.n, self.q
		cols = []
		for k in range(n + q):
			x = [Fr(int(i == k)) for i in range(n)]
			u = [Fr(int(i + n == k)) for i in range(q)]
			cols.append(self.step(x, u))
		A = [[cols[j][1][i] for j in range(n)] for i in range(n)]
		B = [[cols[n + j][1][i] for j in range(q)] for i in range(n)]
		C = [[cols[j][2][i] for j in range(n)] for i in range(self.p)]
		D = [[cols[n + j][2][i] for j in range(q)] for i in range(self.p)]
		return A, B, C, D

	def bound(self):
		"""the same with absolute values everywhere: bounds the terms of all the sums"""
		if not hasattr(self, '_bound'):
			D = {x: [[abs(v) for v in row] for row in M] for x, M in self.m.items()}
			D['J'] = [[v if i == j else -v for j, v in enumerate(row)] for i, row in enumerate(D['J'])]
			self._bound = Exact(D, self.l, self.n, self.p, self.q)
		return self._bound

	def impulse(self, N, j):
		"""answers (t, x, x+, y) to an impulse on the j-th input"""
		return self.run([[Fr(int(i == j and k == 0)) for i in range(self.q)] for k in range(N)])

	def error_impulse(self, N, kind, j):
		"""outputs for an impulse added in the equation j of t (kind 0), x (1) or y (2)"""
		x = [Fr(0)] * self.n
		z = [Fr(0)] * self.q
		ys = []
		for k in range(N):
			e = [None, None, None]
			if k == 0:
				e[kind] = [Fr(int(i == j)) for i in range((self.l, self.n, self.p)[kind])]
			t, x, y = self.step(x, z, *e)
			ys.append(y)
		return ys


# coefficients nearly 1 or -1, of 53 bits, huge, tiny, subnormal
SPECIAL = [1 + 2. ** -52, 1 - 2. ** -53, -1 - 2. ** -52, -1 + 2. ** -53, 1 / 3., -0.1, 1e16 + 2, -123456789012345680., 2. ** 60 + 256, 1.5e300, -7e-17, 3e-305, -2. ** -1040, 5e-324, 1e-320, 2.2250738585072014e-308]


def special(v):
	"""(place, matrices) where v is the only coefficient that is not 0 or 1, at every place: (l, n, p, q) = (2, 1, 1, 1)"""
	zero = dict(J=[[1., 0.], [0., 1.]], K=[[0., 0.]], L=[[0., 0.]], M=[[0.], [0.]], N=[[0.], [0.]], P=[[0.]], Q=[[0.]], R=[[0.]], S=[[0.]])
	for place, sets in (('S', {'S': [[v]]}), ('R', {'R': [[v]], 'Q': [[1.]]}), ('P', {'P': [[v]], 'Q': [[1.]], 'R': [[1.]]}), ('Q', {'Q': [[v]], 'R': [[1.]]}), ('N', {'N': [[v], [0.]], 'L': [[1., 0.]]}), ('M', {'M': [[0.], [v]], 'L': [[0., 1.]], 'Q': [[1.]]}),
			('K', {'K': [[0., v]], 'N': [[0.], [1.]], 'R': [[1.]]}), ('L', {'L': [[0., v]], 'N': [[0.], [1.]]}), ('J', {'J': [[1., 0.], [v, 1.]], 'N': [[1.], [0.]], 'L': [[0., 1.]]})):
		yield place, dict(zero, **sets)
