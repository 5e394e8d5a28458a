"""C07: state-space algebra (sum, difference, series product, slicing, similarity, simplification)."""
from mc import ref
from mc.systems import ss_pool, ss_big, ss_mag
from fractions import Fraction as Fr
import itertools
import numpy

ID = 'C07'
LEVEL = 'model_checking'
RULE = 'all SISO order-1 systems over a value alphabet pairwise; all ordered pairs of a multi-dimensional pool under every fitting operator; all operator sequences to a depth (state = system obtained, transition = operator); all index pairs and slices; all zero patterns for simplification'
BOUNDS = {'quick': 'alphabet {0,1,-0.5} for n=p=q=1 (81 systems, all pairs); pool with n<=3, p,q<=2; operator sequences of length 3; zero patterns of A,B (n<=3); null and opposite coefficients, integer-typed matrices', 'thorough': 'alphabet {0,1,-0.5,2}; pool with n<=4, p,q<=3; sequences of length 4 (the last ones over two systems); zero patterns n<=4'}
ASSUMPTIONS = ['double precision results are compared on the first Markov parameters with relative tolerance 1e-8']


def cases(tier):
	q = tier == 'quick'
	al = [0., 1., -0.5] if q else [0., 1., -0.5, 2.]
	for v in itertools.product(al, repeat=4):
		yield dict(k='scalar', a=list(v), al=al)
	sizes = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (1, 1, 2), (3, 2, 2), (2, 2, 1)]
	if not q:
		sizes += [(4, 1, 1), (3, 3, 2), (2, 3, 3), (1, 2, 3), (4, 2, 2)]
	P = ss_pool(sizes)
	for s in P:
		yield dict(k='pair', a=s, sizes=sizes)
		yield dict(k='one', a=s)
		yield dict(k='seq', a=s, depth=2 if q else 3)
	for s in ss_big():
		yield dict(k='pair', a=s, sizes=sizes, big=1)
		yield dict(k='one', a=s, big=1)
	for s in ss_mag():
		yield dict(k='pair', a=s, sizes=sizes, mag=1)
		yield dict(k='one', a=s, mag=1)
	for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
		for bm in itertools.product((0, 1), repeat=n):
			for am in itertools.product((0, 1), repeat=n):
				yield dict(k='zeros', n=n, b=list(bm), a=list(am))
	for n in (1, 2):
		for A in itertools.product((0, 1), repeat=n * n):
			for B in itertools.product((0, 1), repeat=n):
				yield dict(k='zpat', n=n, A=list(A), B=list(B))
	# null and opposite coefficients in B and in C
	for A in itertools.product((0, 1), repeat=4):
		for B in itertools.product(range(5), repeat=2):
			yield dict(k='zpatC', n=2, A=list(A), B=list(B))
	for A in ([0, 0, 0, 0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0, 0, 0], [1, 1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 1, 0, 0, 0], [1, 0, 1, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 1, 0, 0, 0]):
		for B in itertools.product(range(0, 5, 1 if not q else 2), repeat=3):
			yield dict(k='zpatC', n=3, A=list(A), B=list(B))
	for n in (4, 5, 9):
		yield dict(k='null', n=n)
	# integer coefficients, kept as such
	for s in ss_pool([(1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 2)], ['dense', 'nilpotent', 'zero', 'sparse']):
		yield dict(k='types', a=s)
	for a in itertools.product((0, 1), repeat=6):
		for B in itertools.product((0, 1), repeat=3):
			yield dict(k='zpat3', a=list(a), B=list(B))


def mk(S):
	from fixif.LTI import dSS
	return dSS(*[numpy.matrix(m) for m in S])


def F(S):
	return [[[Fr(v) for v in row] for row in m] for m in S]


def imp(S, N):
	return ref.impulse_ss(*(F(S) + [N]))


def impX(X, N):
	return ref.impulse_ss(ref.fmat(X.A), ref.fmat(X.B), ref.fmat(X.C), ref.fmat(X.D), N)


def hadd(a, b, s=1):
	return [ref.add(x, ref.scal(s, y)) for x, y in zip(a, b)]


def hmul(a, b):
	"""series: b first, then a"""
	N = len(a)
	out = []
	for k in range(N):
		t = None
		for i in range(k + 1):
			m = ref.mul(a[i], b[k - i])
			t = m if t is None else ref.add(t, m)
		out.append(t)
	return out


def ab(h):
	return [[[abs(v) for v in row] for row in m] for m in h]


def check(r, what, X, want, mag=None):
	"""mag: bounds for the terms of the Markov parameters (tight comparison, for every output and input)"""
	r.step()
	got = impX(X, len(want))
	r.state((X.A.tolist(), X.B.tolist(), X.C.tolist(), X.D.tolist()))
	if (X.p, X.q) != (len(want[0]), len(want[0][0])) or X.A.shape != (X.n, X.n) or X.size != (X.n, X.p, X.q):
		r.fail('%s: sizes %s' % (what, X.size))
	for k, (a, b) in enumerate(zip(got, want)):
		if mag is not None:
			ok = (len(a), len(a[0])) == (len(b), len(b[0])) and all(abs(a[i][j] - b[i][j]) <= Fr(1, 10 ** 11) * max(m[i][j] for m in mag) for i in range(len(b)) for j in range(len(b[0])))
		else:
			ok = ref.closemat(a, b, 1e-8, 1e-10)
		if not ok:
			r.fail('%s: Markov parameter %d is %s instead of %s' % (what, k, ref.show(a), ref.show(b)))
			return


OPS = {'+': (lambda x, y: x + y, lambda a, b: hadd(a, b)), '-': (lambda x, y: x - y, lambda a, b: hadd(a, b, -1)), '*': (lambda x, y: x * y, hmul)}


def fits(o, s, t):
	"""s, t: (p, q)"""
	return s[1] == t[0] if o == '*' else s == t


def dims(S):
	return len(S[3]), len(S[3][0])


def run(c, r):
	k = c['k']
	if k == 'scalar':
		v = c['a']
		S = [[[v[0]]], [[v[1]]], [[v[2]]], [[v[3]]]]
		h = imp(S, 6)
		for w in itertools.product(c['al'], repeat=4):
			T = [[[w[0]]], [[w[1]]], [[w[2]]], [[w[3]]]]
			g = imp(T, 6)
			X, Y = mk(S), mk(T)
			for o in OPS:
				check(r, 'dSS%s %s dSS%s' % (v, o, w), OPS[o][0](X, Y), OPS[o][1](h, g))
		r.outcome(ref.show(h[1]))
	elif k == 'pair':
		name, S = c['a'][0], c['a'][1:]
		for t in ss_mag() + ss_pool([(2, 1, 1), (3, 2, 2), (1, 1, 2), (1, 2, 1)], ['dense']) if 'mag' in c else (ss_big() + ss_pool([(2, 1, 1), (1, 2, 2), (1, 2, 3)], ['dense']) if 'big' in c else ss_pool(c['sizes'])):
			T = t[1:]
			N = len(S[0]) + len(T[0]) + 3
			h, g = imp(S, N), imp(T, N)
			for o in OPS:
				if fits(o, dims(S), dims(T)):
					X, Y = mk(S), mk(T)
					check(r, '%s %s %s' % (name, o, t[0]), OPS[o][0](X, Y), OPS[o][1](h, g), None if 'mag' not in c else hmul(ab(h), ab(g)) if o == '*' else hadd(ab(h), ab(g)))
					check(r, 'left operand', X, h, ab(h))
					check(r, 'right operand', Y, g, ab(g))
		X = mk(S)
		h = imp(S, 2 * len(S[0]) + 3)
		for o in OPS:
			if fits(o, dims(S), dims(S)):
				check(r, 'X %s X, X=%s' % (o, name), OPS[o][0](X, X), OPS[o][1](h, h))
	elif k == 'one':
		name, S = c['a'][0], c['a'][1:]
		p, q = dims(S)
		n = len(S[0])
		h = imp(S, 2 * n + 4)
		X = mk(S)
		mg = ab(h) if 'mag' in c else None
		sub = lambda I, J: [[[m[i][j] for j in J] for i in I] for m in h]
		for i in range(p):
			for j in range(q):
				check(r, '%s[%d,%d]' % (name, i, j), X[i, j], sub([i], [j]), mg and ab(sub([i], [j])))
				check(r, '%s[%d,:]' % (name, i), X[i, :], sub([i], range(q)), mg and ab(sub([i], range(q))))
				check(r, '%s[:,%d]' % (name, j), X[:, j], sub(range(p), [j]), mg and ab(sub(range(p), [j])))
		for i0 in range(p):
			for i1 in range(i0 + 1, p + 1):
				for j0 in range(q):
					for j1 in range(j0 + 1, q + 1):
						if 'big' in c and (i0 + 2 * i1 + 3 * j0 + 4 * j1) % 11:
							continue
						check(r, '%s[%d:%d,%d:%d]' % (name, i0, i1, j0, j1), X[i0:i1, j0:j1], sub(range(i0, i1), range(j0, j1)), mg and ab(sub(range(i0, i1), range(j0, j1))))
		check(r, '%s after slicing' % name, X, h, mg)
		check(r, 'simplify %s' % name, X.simplify(), h, mg)
		tr = transforms(n)
		if mg:
			# (mixing states of very different magnitudes only gives rounding errors)
			if name.split('-')[0] in ('basis', 'rowB', 'rowB2', 'coef'):
				tr = [T for T in tr if numpy.count_nonzero(T) == n]
			tr += [numpy.matrix(numpy.diag([2. ** k for k in ks[:n]])) for ks in ([-30, 32, 1], [33, 0, -29], [-41, -40, -42])]
		for T in tr:
			Y = mk(S)
			T0 = T.copy()
			Y.similarity(T)
			check(r, '%s transformed by %s' % (name, T.tolist()), Y, h)
			if mg:
				continue
			Ti = numpy.linalg.inv(T0)
			for a, b, nm in ((Y.A, Ti * numpy.matrix(S[0]) * T0, 'A'), (Y.B, Ti * numpy.matrix(S[1]), 'B'), (Y.C, numpy.matrix(S[2]) * T0, 'C')):
				if not ref.closemat(a, b, 1e-9, 1e-11):
					r.fail('%s transformed by %s: %s is %s instead of %s' % (name, T0.tolist(), nm, a.tolist(), b.tolist()))
			for T2 in transforms(n) if 'big' not in c and 'mag' not in c else ():
				Z = mk(S)
				Z.similarity(T0)
				Z.similarity(T2)
				check(r, '%s transformed by %s then %s' % (name, T0.tolist(), T2.tolist()), Z, h)
		r.outcome(name)
	elif k == 'seq':
		name, S = c['a'][0], c['a'][1:]
		p, q = dims(S)
		n = len(S[0])
		leaves = [t for t in ss_pool([(1, p, q), (2, p, q)] + ([(1, q, p)] if (p, q) != (q, p) else []), ['dense', 'nilpotent', 'jordan'])]
		N = n + 6
		frontier = [(mk(S), imp(S, N), name)]
		for d in range(c['depth']):
			nxt = []
			for X, h, path in frontier:
				for t in leaves:
					Y, g = mk(t[1:]), imp(t[1:], N)
					for o in OPS:
						for left in (0, 1):
							a, b = ((Y, g), (X, h)) if left else ((X, h), (Y, g))
							if not fits(o, (a[0].p, a[0].q), (b[0].p, b[0].q)):
								continue
							Z = OPS[o][0](a[0], b[0])
							w = OPS[o][1](a[1], b[1])
							nm = '(%s %s %s)' % (t[0], o, path) if left else '(%s %s %s)' % (path, o, t[0])
							check(r, nm, Z, w)
							if d + 1 < c['depth']:
								nxt.append((Z, w, nm))
				Z = X.simplify()
				check(r, 'simplify(%s)' % path, Z, h)
			frontier = nxt
			leaves = leaves[:2]
	elif k == 'null':
		# nothing but the direct term
		n = c['n']
		for bz in (0, 1):
			S = [[[0.] * n for _ in range(n)], [[0.5 * (i % 2) * bz, -1. * (i % 3) * bz] for i in range(n)], [[1. + i for i in range(n)]], [[3., -0.25]]]
			h = imp(S, n + 3)
			Y = mk(S).simplify()
			check(r, 'simplify of n=%d with A=0, B=%s' % (n, S[1]), Y, h)
			if not 1 <= Y.n <= n:
				r.fail('simplify of n=%d with A=0, B=%s has %d states' % (n, S[1], Y.n))
			r.outcome((n, bz, Y.n))
	elif k == 'zpatC':
		n = c['n']
		rowsB = [[0., 0.], [1., -1.], [0., 2.], [-0.5, 0.], [1., 3.]]
		A = [[(0.5 if i <= j else 0.25) * c['A'][i * n + j] for j in range(n)] for i in range(n)]
		B = [rowsB[b] for b in c['B']]
		for cols in itertools.product(([0., 0.], [0., 1.], [2., 0.], [1., -1.]), repeat=n):
			S = [A, B, [[v[i] for v in cols] for i in range(2)], [[1., 0.], [0., -2.]]]
			h = imp(S, 2 * n + 3)
			X = mk(S)
			check(r, 'simplify of A=%s B=%s C=%s' % tuple(S[:3]), X.simplify(), h)
			check(r, 'system after simplify', X, h)
		r.outcome((A, B))
	elif k == 'types':
		from fixif.LTI import dSS
		name, S = c['a'][0], c['a'][1:]
		S = [[[int(8 * v) for v in row] for row in m] for m in S]
		h = imp(S, 8)
		kinds = (('integer matrices', lambda m: numpy.matrix(m)), ('integer arrays', lambda m: numpy.array(m)), ('lists of int', lambda m: [list(row) for row in m]), ('int32 matrices', lambda m: numpy.matrix(m, dtype=numpy.int32)))
		for nm, f in kinds:
			for t in ss_pool([(1, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 2)], ['dense', 'jordan', 'zero']):
				T = t[1:]
				g = imp(T, 8)
				for o in OPS:
					if fits(o, dims(S), dims(T)):
						X, Y = dSS(*[f(m) for m in S]), mk(T)
						check(r, '%s of %s %s %s' % (nm, name, o, t[0]), OPS[o][0](X, Y), OPS[o][1](h, g))
						check(r, '%s %s %s of %s' % (t[0], o, nm, name), OPS[o][0](Y, X), OPS[o][1](g, h))
						check(r, 'operand', X, h)
			X = dSS(*[f(m) for m in S])
			check(r, 'simplify of %s of %s' % (nm, name), X.simplify(), h)
			for o in OPS:
				if fits(o, dims(S), dims(S)):
					check(r, 'X %s X, X=%s of %s' % (o, nm, name), OPS[o][0](X, X), OPS[o][1](h, h))
			for T in transforms(len(S[0])):
				Y = dSS(*[f(m) for m in S])
				Y.similarity(T)
				check(r, '%s of %s transformed by %s' % (nm, name, T.tolist()), Y, h)
		r.outcome(name)
	elif k in ('zeros', 'zpat', 'zpat3'):
		if k == 'zeros':
			n = c['n']
			A = [[(0.25 * (i + 1) + 0.125 * j) * c['a'][i] for j in range(n)] for i in range(n)]
			B = [[float(i + 1) * c['b'][i], -c['b'][i] * 0.5] for i in range(n)]
		elif k == 'zpat':
			n = c['n']
			A = [[0.5 * c['A'][i * n + j] * (1 + i - j) if i <= j else 0.25 * c['A'][i * n + j] for j in range(n)] for i in range(n)]
			B = [[float(c['B'][i]), 0.] for i in range(n)]
		else:
			n = 3
			a = c['a']
			A = [[0.5 * a[0], 0.25 * a[1], 1. * a[2]], [0.125 * a[3], 0., -0.5 * a[4]], [0., 0.75 * a[5], 0.]]
			B = [[float(c['B'][i]), 0.] for i in range(n)]
		C = [[1. + i for i in range(n)], [0.5 - i for i in range(n)]]
		S = [A, B, C, [[1., 0.], [0., -2.]]]
		h = imp(S, 2 * n + 3)
		# the same system with states of very different magnitudes (exact)
		t = [2. ** -36, 2. ** 34, 2. ** -40, 1.][:n]
		S2 = [[[A[i][j] * t[j] / t[i] for j in range(n)] for i in range(n)], [[v / t[i] for v in B[i]] for i in range(n)], [[row[j] * t[j] for j in range(n)] for row in C], S[3]]
		Z = mk(S2).simplify()
		check(r, 'simplify of A=%s B=%s' % (S2[0], S2[1]), Z, h, ab(h))
		X = mk(S)
		Y = X.simplify()
		if Y.n != Z.n:
			r.fail('simplify of A=%s B=%s has %d states, but %d in another basis' % (A, B, Y.n, Z.n))
		check(r, 'simplify of A=%s B=%s' % (A, B), Y, h)
		check(r, 'system after simplify', X, h)
		if Y.n > n or Y.n < 1:
			r.fail('simplify of A=%s B=%s has %d states' % (A, B, Y.n))
		r.outcome((n, Y.n))


def transforms(n):
	out = [numpy.matrix(numpy.eye(n))]
	T = numpy.matrix(numpy.diag([2. ** (i + 1) for i in range(n)]))
	out.append(T)
	T = numpy.matrix(numpy.eye(n))
	for i in range(n - 1):
		T[i, i + 1] = 1.
	out.append(T * 0.5)
	out.append(numpy.matrix(numpy.eye(n)[::-1].copy()))
	T = numpy.matrix([[1. if i == j else 0.5 * ((i + 2 * j) % 3) for j in range(n)] for i in range(n)])
	if abs(numpy.linalg.det(T)) > 0.1:
		out.append(T)
	return out
