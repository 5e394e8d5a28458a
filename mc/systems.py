"""Pools of small systems shared by the checks (deterministic, simplest first)."""
import itertools
import numpy
from fractions import Fraction as Fr


def ss_pool(sizes, fams=None):
	"""list of (name, A, B, C, D) as lists of lists of floats (dyadic), for every (n,p,q) of sizes and every family"""
	out = []
	for n, p, q in sizes:
		for f in (fams or ['dense', 'jordan', 'nilpotent', 'zero', 'diag', 'sparse', 'rot']):
			A = [[0.] * n for _ in range(n)]
			for i in range(n):
				for j in range(n):
					if f == 'dense':
						A[i][j] = [0.25, -0.5, 0.125, 0.375, -0.25][(2 * i + 3 * j + n) % 5]
					elif f == 'jordan':
						A[i][j] = 0.5 if i == j else (1. if j == i + 1 else 0.)
					elif f == 'nilpotent':
						A[i][j] = 1. if j == i + 1 else 0.
					elif f == 'diag':
						A[i][j] = [0.5, -0.75, 0.25, 0.125][i % 4] if i == j else 0.
					elif f == 'sparse':
						A[i][j] = 0. if (i + j) % 2 == 0 and i != n - 1 else 0.25 * (1 + i - j)
					elif f == 'rot':
						A[i][j] = 0.5 if i == j else ((-0.5 if i > j else 0.5) if i // 2 == j // 2 else 0.)
			B = [[[1., -2., 0.5, 3.][(i + 2 * j) % 4] if f != 'sparse' or (i + j) % 2 else 0. for j in range(q)] for i in range(n)]
			C = [[[1., 0.5, -1., 2., -0.25][(2 * i + 3 * j + 1) % 5] if f != 'sparse' or (i + j) % 3 else 0. for j in range(n)] for i in range(p)]
			D = [[[0.5, -1., 0., 2.][(i + j + n) % 4] if f != 'nilpotent' else 0. for j in range(q)] for i in range(p)]
			out.append(('%s-%d-%d-%d' % (f, n, p, q), A, B, C, D))
	return out


def tf_pool(orders):
	"""(name, num, den)"""
	out = []
	dens = {1: [[0.5], [-0.25], [0.], [-1.]], 2: [[0.5, 0.25], [-1., 0.25], [0., 0.], [0., -0.5], [0.75, 0.]],
	        3: [[0.5, 0.25, 0.125], [-1.5, 0.75, -0.125], [0., 0., 0.5], [0.25, 0., 0.]], 4: [[0.5, 0., 0.25, 0.125], [-2., 1.5, -0.5, 0.0625]],
	        5: [[0.5, -0.25, 0.25, 0.125, 0.0625]]}
	for n in orders:
		for d in dens[n]:
			for k, num in enumerate([[1.] + [0.] * n, [0.] * n + [1.], [float(i + 1) for i in range(n + 1)], [0.] + [(-1.) ** i * (i + 2) / 4 for i in range(n)], [2.] + [(-1.) ** i * 0.5 for i in range(n)]]):
				out.append(('tf%d-%d' % (n, len(out)), num, [1.] + d))
	return out


def tf_big():
	"""a few transfer functions of larger orders (name, num, den), stable, with 2 digits for the indexes of their coefficients"""
	out = []
	for n in (8, 11):
		d = [[0.25, -0.125, 0.0625, 0., 0.1875, -0.03125][i % 6] / (1 if i < 4 else 4) for i in range(n)]
		out.append(('big%d-a' % n, [1.] + [(-1.) ** i * (1 + i % 4) / 4 for i in range(n)], [1.] + d))
		out.append(('big%d-b' % n, [0.] * n + [2.], [1.] + d[::-1]))
		out.append(('big%d-c' % n, [0., 0.5] + [0.25 * (i % 3) for i in range(n - 1)], [1.] + [0.] * (n - 1) + [-0.25]))
	return out


def ss_big():
	"""a few state spaces with larger sizes"""
	out = []
	for n, p, q in ((11, 1, 1), (11, 2, 3), (3, 11, 2), (2, 1, 12), (10, 10, 10)):
		A = [[(0.5 if i % 2 else -0.375) if i == j else 0.25 if j == i + 1 else 0.125 if j == i - 3 else 0. for j in range(n)] for i in range(n)]
		B = [[[1., -2., 0.5, 3., 0.][(i + 2 * j) % 5] for j in range(q)] for i in range(n)]
		C = [[[1., 0.5, -1., 2., -0.25, 0., 4.][(2 * i + 3 * j + 1) % 7] for j in range(n)] for i in range(p)]
		D = [[[0.5, -1., 0., 2.][(i + j + n) % 4] for j in range(q)] for i in range(p)]
		out.append(('band-%d-%d-%d' % (n, p, q), A, B, C, D))
	return out


def tf_mag():
	"""transfer functions whose coefficients have very different magnitudes, or are very close to 0, 1 or each other (name, num, den); all stable, a[0]=1, and exact in double precision"""
	e = lambda k: 2. ** k
	return [
		('mag-tiny', [e(-50), -3 * e(-52), e(-49)], [1., 0.5, 0.25]),
		('mag-huge', [e(40), -3 * e(38), e(41)], [1., -0.5, 0.25]),
		('mag-mixed', [1., e(-44), -3 * e(-38)], [1., 0.5, 0.25]),
		('mag-mixed2', [e(-44), 1., e(-36)], [1., -0.25, 0.375]),
		('mag-den1', [1., 0.5, -1.], [1., e(-36), 0.25]),
		('mag-den2', [0.5, 1., 2.], [1., 0.5, -3 * e(-40)]),
		('mag-near1', [1 + e(-40), 0.5, 1 - e(-42)], [1., -0.5, 0.25 + e(-40)]),
		('mag-cancel', [1., 0.5, 0.25 + e(-40)], [1., 0.5, 0.25]),
		('mag-fir', [e(-40), e(-3), -1., e(-45)], [1., 0., 0., 0.]),
		('mag-wide', [e(30), 0.5, e(-30), 3 * e(-45)], [1., 0.25, -e(-20), e(-34)]),
	]


def ss_mag():
	"""state spaces whose coefficients have very different magnitudes (name, A, B, C, D)"""
	out = []
	e = lambda k: 2. ** k
	base = {s[0]: s[1:] for s in ss_pool([(1, 1, 1), (2, 1, 1), (3, 2, 2), (3, 1, 2)], ['dense', 'rot'])}
	for nm in ('dense-1-1-1', 'dense-2-1-1', 'rot-3-1-2', 'dense-3-2-2'):
		A, B, C, D = base[nm]
		n, p, q = len(A), len(C), len(B[0])
		t = [e(x) for x in ([30], [-30, 25], [32, 0, -34])[n - 1]]
		out.append(('basis-' + nm, [[A[i][j] * t[j] / t[i] for j in range(n)] for i in range(n)], [[B[i][j] / t[i] for j in range(q)] for i in range(n)], [[C[i][j] * t[j] for j in range(n)] for i in range(p)], D))
		for k, w in ((-46, 'tiny'), (38, 'huge')):
			s = e(k)
			out.append((w + 'B-' + nm, A, [[v * s for v in x] for x in B], C, [[v * s for v in x] for x in D]))
			out.append((w + 'C-' + nm, A, B, [[v * s for v in x] for x in C], [[v * s for v in x] for x in D]))
	# rows, columns and elements of different magnitudes
	A, B, C, D = base['dense-3-2-2']
	out.append(('outputs-3-2-2', A, B, [C[0], [v * e(-44) for v in C[1]]], [D[0], [v * e(-44) for v in D[1]]]))
	out.append(('inputs-3-2-2', A, [[x[0] * e(-43), x[1]] for x in B], C, [[x[0] * e(-43), x[1]] for x in D]))
	out.append(('rowB-3-2-2', [[0., 0.5, 0.25], [0., 0., 0.], [0.5, 0., 0.25]], [[1., 0.5], [e(-40), -e(-42)], [0., 0.]], [[1., e(36), 0.], [0., -e(37), e(-35)]], [[0., e(-45)], [1., 0.]]))
	out.append(('rowB2-3-2-2', [[0.5, 0.25, 0.], [0., 0., 0.], [0., 0.5, 0.25]], [[e(-40), 0.5], [e(-40), 0.], [e(-41), 1.]], [[1., e(36), 0.], [0., -e(37), e(-35)]], [[0., e(-45)], [1., 0.]]))
	out.append(('coef-2-1-1', [[0.5, e(-38)], [e(38) / 8, -0.25]], [[1.], [e(-41)]], [[e(-36), e(36)]], [[e(-44)]]))
	return out


def mag(name):
	return name.split('-')[0] in ('mag', 'basis', 'tinyB', 'tinyC', 'hugeB', 'hugeC', 'outputs', 'inputs', 'rowB', 'rowB2', 'coef')
