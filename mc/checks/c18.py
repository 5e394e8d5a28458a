"""C18: fixed-point formats (MSB, word-length thresholds, word-lengths) and data of the optimisation problem."""
from mc import ref, systems
from mc.env import SCRATCH
from mc.sifs import BIG, jtos, build_args, Exact, NAMES, npm
from mc.checks.c13 import exact_of, Rng
from fractions import Fraction as Fr
import itertools
import math
import os
import random
import re
import numpy

ID = 'C18'
LEVEL = 'model_checking'
RULE = 'every dimension tuple x coefficient family (and every structure of small filters) x input bounds x output constraints. Bounds of the variables: all the input sequences made of extreme values are executed exactly; word-lengths: every w is tried in increasing order, and all the sequences of extreme rounding errors are executed'
BOUNDS = {'quick': 'l<=2, n<=3, p,q<=2, 7 families, all structures for stable filters of order 1..3, input bounds in {1, 1/2, 3, 10}, constraints in {0.5, 2^-8, 0.01/3, 3e-6}, all sequences of 4 extreme inputs (3 extreme errors); one-state systems whose bounds and errors are exactly, or 2^-45 apart from, a power of 2 or a constraint',
          'thorough': 'l<=3, n<=3, p,q<=3, 7 families, structures for order 1..4, input bounds in {1, 1/2, 3, 10, 0.1}, constraints in {0.5, 2^-8, 1e-3, 3e-6, 20}, all sequences of 5 extreme inputs (4 extreme errors)'}
ASSUMPTIONS = ['the worst-case peak gain (companion package fixif.WCPG) is replaced by the plain sum of the absolute impulse response',
               'variables that are always null, and errors that never reach an output, have no format and are not considered',
               'roundings exactly at a bound (relative difference less than 1e-9) are accepted on both sides']
FAMS = ('full', 'sparse', 'pow2', 'upper', 'fir', 'mag', 'near')


def cases(tier):
	q_ = tier == 'quick'
	ub = [1., 0.5, 3., 10.] if q_ else [1., 0.5, 3., 10., 0.1]
	ep = [0.5, 2. ** -8, 0.01 / 3, 3e-6] if q_ else [0.5, 2. ** -8, 0.01 / 3, 3e-6, 20.]
	T = 4 if q_ else 5
	for d in itertools.product(range(0, 3 if q_ else 4), range(1, 4), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		for fam in FAMS:
			yield dict(k='dims', d=list(d), fam=fam, ub=ub, ep=ep, T=T)
	for k in range(-6, 7):
		yield dict(k='exact', e=k)
	for d in BIG:
		yield dict(k='dims', d=list(d), fam='big', ub=ub, ep=ep, T=3)
	for name, num, den in systems.tf_mag() + systems.tf_big()[::1 if not q_ else 5] + systems.tf_pool([1, 2, 3] if q_ else [1, 2, 3, 4]):
		if max([abs(z) for z in numpy.roots(den)] + [0]) < 0.99:
			yield dict(k='struct', num=num, den=den, ub=ub, ep=ep, T=T)


def coeffs(d, fam):
	if fam not in ('fir', 'near'):
		return jtos(*d, fam)
	# finite impulse responses: strictly upper P, null K, 1 and powers of 2 (so the bounds may be exact powers of 2)
	D = jtos(*d, 'pow2')
	l, n, p, q = d
	for i in range(n):
		for j in range(n):
			D['P'][i][j] = 1. if j == i + 1 else 0.
		for j in range(l):
			D['K'][i][j] = 0.
		for j in range(q):
			D['Q'][i][j] = 1. if i == n - 1 else 0.
	for i in range(p):
		for j in range(n):
			D['R'][i][j] = [1., 2., -1.][(i + j) % 3]
	if fam == 'near':
		# (peak values just below or just above a power of 2)
		e = 2. ** -20
		for i in range(n):
			for j in range(q):
				D['Q'][i][j] *= [1 - e, 1 + e, 1 - e / 2][(i + j + l) % 3]
		for i in range(p):
			for j in range(n):
				D['R'][i][j] *= [2. ** -30, 2. ** -31][(i + l) % 2] if i else 1.
			for j in range(q):
				D['S'][i][j] *= 2. ** -30 if i else 1.
	return D


class Bounds(object):
	"""exact (or interval) worst-case peak gains of an implicit form"""

	def __init__(self, E):
		self.E = E
		l, n, p, q = E.l, E.n, E.p, E.q
		self.V = l + n + p
		A, B, C, D = E.ss()
		# nilpotent state ?
		Z = A
		for _ in range(n - 1):
			Z = [[sum((Z[i][k] * A[k][j] for k in range(n)), Fr(0)) for j in range(n)] for i in range(n)]
		self.exact = not any(v for row in Z for v in row)
		self.zeta = [[None] * q for _ in range(self.V)]
		N = n + 2 if self.exact else 12
		fA = numpy.array([[float(v) for v in row] for row in A]).reshape(n, n)
		# rows giving (t, x, y) from the state
		cols = [E.step([Fr(int(i == k)) for i in range(n)], [Fr(0)] * q) for k in range(n)]
		fZ = numpy.array([[float(v) for v in list(c[0]) + [Fr(int(i == k)) for i in range(n)] + list(c[2])] for k, c in enumerate(cols)]).T.reshape(self.V, n)
		fC = fZ[l + n:]
		for j in range(q):
			s = [Fr(0)] * self.V
			for t, x, xp, y in E.impulse(N, j):
				s = [a + abs(b) for a, b in zip(s, list(t) + list(x) + list(y))]
				last = xp
			tail = numpy.zeros(self.V)
			if not self.exact:
				tail = self.tail(fA, fZ, last)
			for v in range(self.V):
				self.zeta[v][j] = (s[v], Fr(float(tail[v])))
		self.weps = [[None] * self.V for _ in range(p)]
		for c in range(self.V):
			kind, j = (0, c) if c < l else (1, c - l) if c < l + n else (2, c - l - n)
			ys = E.error_impulse(N + 1, kind, j)
			# the state after these steps
			x = self.state_after(N + 1, kind, j)
			tail = numpy.zeros(p) if self.exact else self.tail(fA, fC, x)
			for i in range(p):
				self.weps[i][c] = float(sum(abs(y[i]) for y in ys) + Fr(float(tail[i])))
		self.rounding(fA, fZ)

	def rounding(self, A, Z):
		"""how far (first order) the gains can move when AZ..DZ and M1..N2 are computed in double precision"""
		E, V = self.E, self.V
		l, n, p, q = E.l, E.n, E.p, E.q
		bd = E.bound()

		def arr(M, a, b):
			return numpy.array([[float(v) for v in row] for row in M]).reshape(a, b)

		def unit(k, size):
			return [Fr(int(i == k)) for i in range(size)]
		# |AZ|, |N1|, |BZ|, |N2|, |M1|, |M2| (with absolute values everywhere)
		cols = [bd.step(unit(k, n), [Fr(0)] * q) for k in range(n)]
		aA = arr([c[1] for c in cols], n, n).T
		aN1 = arr([list(c[0]) + unit(k, n) + list(c[2]) for k, c in enumerate(cols)], n, V).T
		cols = [bd.step([Fr(0)] * n, unit(k, q)) for k in range(q)]
		aB = arr([c[1] for c in cols], q, n).T
		aN2 = arr([list(c[0]) + [Fr(0)] * n + list(c[2]) for c in cols], q, V).T
		cols = [bd.step([Fr(0)] * n, [Fr(0)] * q, *[unit(k, s) if s else None for k, s in zip(ks, (l, n, p))]) for ks in
		        [(v, -1, -1) if v < l else (-1, v - l, -1) if v < l + n else (-1, -1, v - l - n) for v in range(V)]]
		aM1 = arr([c[1] for c in cols], V, n).T
		aM2 = arr([c[2] for c in cols], V, p).T
		A_, B_, C_, D_ = E.ss()
		fB = arr(B_, n, q)
		M1 = arr([E.step([Fr(0)] * n, [Fr(0)] * q, *[unit(k, s) if s else None for k, s in zip(ks, (l, n, p))])[1] for ks in
		          [(v, -1, -1) if v < l else (-1, v - l, -1) if v < l + n else (-1, -1, v - l - n) for v in range(V)]], V, n).T
		WZ, WB, WM = numpy.zeros((V, n)), numpy.zeros((n, q)), numpy.zeros((n, V))
		Ak = numpy.eye(n)
		for _ in range(20000):
			if not n or abs(Ak).max() < 1e-45:
				break
			WZ, WB, WM = WZ + abs(Z.dot(Ak)), WB + abs(Ak.dot(fB)), WM + abs(Ak.dot(M1))
			Ak = A.dot(Ak)
		u = (2 * l + n + 6) * 2. ** -53
		self.zerr = u * (WZ.dot(aA).dot(WB) + WZ.dot(aB) + aN1.dot(WB) + aN2)
		self.werr = u * (WZ[l + n:].dot(aA).dot(WM) + WZ[l + n:].dot(aM1) + aN1[l + n:].dot(WM) + aM2)

	def state_after(self, N, kind, j):
		E = self.E
		x, z = [Fr(0)] * E.n, [Fr(0)] * E.q
		for k in range(N):
			e = [None, None, None]
			if k == 0:
				e[kind] = [Fr(int(i == j)) for i in range((E.l, E.n, E.p)[kind])]
			t, x, y = E.step(x, z, *e)
		return x

	@staticmethod
	def tail(A, C, x):
		x = numpy.array([float(v) for v in x])
		s = numpy.zeros(C.shape[0])
		for _ in range(20000):
			s = s + abs(C.dot(x))
			x = A.dot(x)
			if not x.size or abs(x).max() < 1e-45:
				return s
		raise ArithmeticError('not stable')

	def interval(self, u):
		"""[lo, hi] of the bound of each variable"""
		out = []
		for v in range(self.V):
			s = sum((self.zeta[v][j][0] * Fr(u[j]) for j in range(self.E.q)), Fr(0))
			t = sum((self.zeta[v][j][1] * Fr(u[j]) for j in range(self.E.q)), Fr(0))
			if t == 0 and self.exact and s.denominator <= 2 ** 24:
				out.append((s, s))
			else:
				e = (s + t) * Fr(1, 10 ** 11) + sum((Fr(float(self.zerr[v][j])) * Fr(u[j]) for j in range(self.E.q)), Fr(0))
				out.append((max(s + t - e, (s + t) / 2 ** 40), s + t + e))
		return out


def clog2(x):
	"""ceil(log2(x)) for a Fraction"""
	m = 0
	while Fr(2) ** m < x:
		m += 1
	while Fr(2) ** (m - 1) >= x:
		m -= 1
	return m


def thresholds(lo, hi):
	"""acceptable values of w_tilde: smallest w with zeta <= 2^m - 2^(m-w+1)"""
	out = set()
	for z in (lo, hi):
		m = clog2(z)
		gap = Fr(2) ** m - z
		if gap <= 0:
			out.add(math.inf)
			continue
		f = clog2(gap)
		f = f if Fr(2) ** f == gap else f - 1
		out.add(1 + m - f)
	if lo != hi and math.inf not in out:
		out = set(range(min(out), max(out) + 1))
	if lo != hi and clog2(lo) != clog2(hi):
		# a power of 2 may be in [lo, hi]
		out |= set(range(min(out - {thresholds(hi, hi).pop()} or out), 1200)) | {math.inf}
	return out


def examine(what, R, E, c, r):
	l, n, p, q = E.l, E.n, E.p, E.q
	B = Bounds(E)
	if any(B.zeta[v][j][0] + B.zeta[v][j][1] == 0 for v in range(B.V) for j in range(q)) and all(all(B.zeta[v][j][0] + B.zeta[v][j][1] == 0 for j in range(q)) for v in range(B.V)):
		return
	if any(all(B.zeta[v][j][0] + B.zeta[v][j][1] == 0 for j in range(q)) for v in range(B.V)):
		r.count('null variables (%s)' % c['k'])
		return
	# an error that reaches no output has no word-length
	noeff = any(all(B.weps[i][v] == 0 for i in range(p)) for v in range(B.V))
	signs = list(itertools.product((1, -1), repeat=q)) if q <= 3 else []
	peaks = None
	for u in (itertools.product(c['ub'], repeat=q) if q <= 3 else [tuple(c['ub'][(k + j) % len(c['ub'])] for j in range(q)) for k in range(2)]):
		um = numpy.matrix([[x] for x in u])
		r.state((what, u))
		iv = B.interval(u)
		m = R.computeNaiveMSB(um)
		r.step(len(m))
		r.outcome(tuple(m))
		w = '%s, inputs bounded by %s' % (what, list(u))
		if len(m) != B.V:
			r.fail('%s: %d MSB instead of %d' % (w, len(m), B.V))
			return
		for v, (lo, hi) in enumerate(iv):
			if not clog2(lo) <= m[v] <= clog2(hi):
				r.fail('%s: the MSB of variable %d (t, x, y) is %s, instead of %s (its largest value is %g)' % (w, v, m[v], clog2(lo), hi))
				return
		# all the extreme inputs
		if signs and (peaks is None or u[0] == c['ub'][0]):
			pk = [Fr(0)] * B.V
			N = c['T'] if q == 1 else max(2, c['T'] // q + 1)
			for seq in itertools.product(signs, repeat=N):
				k = 0
				for t, x, xp, y in E.run([[Fr(s) * Fr(a) for s, a in zip(sg, u)] for sg in seq]):
					for v, z in enumerate(list(t) + list(x) + list(y)):
						pk[v] = max(pk[v], abs(z))
			peaks = pk
			r.step(len(signs) ** N)
			for v in range(B.V):
				if pk[v] > Fr(2) ** int(m[v]) * (1 + Fr(1, 10 ** 9)):
					r.fail('%s: variable %d reaches %g but its MSB is %d' % (w, v, pk[v], m[v]))
					return
		wt = R._w_tilde(um) if hasattr(R, '_w_tilde') else None
		wts = [thresholds(lo, hi) for lo, hi in iv]
		if wt is not None:
			for v in range(B.V):
				if not any(float(wt[v]) == float(a) for a in wts[v]):
					r.fail('%s: the word-length threshold of variable %d is %s instead of %s' % (w, v, wt[v], wts[v]))
					return
		for eps in ([[e] * p for e in c['ep']] + ([[c['ep'][(k + 1 + i) % len(c['ep'])] for i in range(p)] for k in range(len(c['ep']))] if p > 1 else [])):
			uniform(w, R, E, B, um, m, wts, eps, c, r)
			if not noeff and not r.fails:
				ampl(w, R, E, B, um, m, wts, eps, r)
			if r.fails:
				return


def exact(c, r):
	"""x(k+1) = b.u(k), y(k) = g.x(k) + d.u(k): everything is computed without rounding, so the answers are known even at the bounds"""
	from fixif.SIF import Realization
	e = c['e']
	for near, b, ub in itertools.product((0, 1, -1), (0.75, 0.625, 1.5, 2.), (1., 0.5, 4.)):
		# the largest value of y is 2^e.(1 + near.2^-45).ub
		peak = 2. ** e * (1 + near * 2. ** -45)
		R = Realization(None, (npm([], 0, 0), npm([], 1, 0), npm([], 1, 0), npm([], 0, 1), npm([], 0, 1), npm([[0.]], 1, 1), npm([[b]], 1, 1), npm([[0.]], 1, 1), npm([[peak]], 1, 1)))
		um = numpy.matrix([[ub]])
		m = R.computeNaiveMSB(um)
		r.step()
		r.state((e, near, b, ub))
		r.outcome(tuple(m))
		want = [clog2(Fr(b) * Fr(ub)), clog2(Fr(peak) * Fr(ub))]
		if [int(v) for v in m] != want:
			r.fail('variables bounded by %r and %r: the MSB are %s instead of %s' % (b * ub, peak * ub, m, want))
			return
	for b, g, d in itertools.product((0.75, 0.625), (1., 2., 0.5, 3.), (0., 0.25, 0.125, 1.25)):
		b, d = b * 2. ** e, d * 2. ** e
		R = Realization(None, (npm([], 0, 0), npm([], 1, 0), npm([], 1, 0), npm([], 0, 1), npm([], 0, 1), npm([[0.]], 1, 1), npm([[b]], 1, 1), npm([[g]], 1, 1), npm([[d]], 1, 1)))
		bounds = [Fr(b), Fr(g) * Fr(b) + Fr(d)]
		ms = [clog2(v) for v in bounds]
		wts = [thresholds(v, v).pop() for v in bounds]

		def err(w):
			return sum(Fr(k) * Fr(2) ** (mm + (1 if w < t else 0) - w) for k, mm, t in zip((g, 1.), ms, wts))
		for w in range(7, 24, 4):
			x = err(w)
			for eps, ok in ((x, w + 1), (x * (1 + Fr(1, 2 ** 36)), w), (x * (1 - Fr(1, 2 ** 36)), w + 1)):
				# (the smallest word-length for which the error is less than eps)
				want = min(v for v in range(w - 3, w + 5) if err(v) < eps)
				assert want == ok and Fr(float(eps)) == eps
				got = R.optimalUniformWL(numpy.matrix([[1.]]), numpy.matrix([[float(eps)]]))
				r.step()
				r.outcome((e, want))
				if got != want:
					r.fail('x(k+1) = %r.u(k), y(k) = %r.x(k) + %r.u(k): the word-length for errors less than %r is %r instead of %d' % (b, g, d, float(eps), got, want))
					return


def error(B, m, wts, w, i, pick):
	tot = 0.
	for v in range(B.V):
		d = 1 if w < pick(wts[v]) else 0
		tot += (B.weps[i][v] + (B.werr[i][v] if pick is max else -B.werr[i][v])) * 2. ** (m[v] + d - w)
	return tot


def uniform(what, R, E, B, um, m, wts, eps, c, r):
	w = R.optimalUniformWL(um, numpy.matrix([[e] for e in eps]))
	r.step()
	r.outcome((w, tuple(eps)))
	what = '%s, constraints %s' % (what, eps)
	if int(w) != w:
		r.fail('%s: the uniform word-length is %r' % (what, w))
		return
	w = int(w)
	# the constraints are fulfilled with w, not with w' < w
	if not all(error(B, m, wts, w, i, min) <= eps[i] * (1 + 1e-9) for i in range(B.E.p)):
		r.fail('%s: with the uniform word-length %d the errors are up to %s' % (what, w, [error(B, m, wts, w, i, min) for i in range(B.E.p)]))
		return
	for x in range(w - 1, w - 12, -1):
		if all(error(B, m, wts, x, i, max) < eps[i] * (1 - 1e-9) for i in range(B.E.p)):
			r.fail('%s: the uniform word-length is %d, but with %d the errors are only up to %s' % (what, w, x, [error(B, m, wts, x, i, max) for i in range(B.E.p)]))
			return
	# all the extreme errors
	if B.V <= 4 and eps[0] == c['ep'][0]:
		k = c['T'] - 1
		while 2 ** (B.V * k) > 300:
			k -= 1
		if k < 1:
			return
		q2 = [Fr(2) ** (int(m[v]) + (1 if w < min(wts[v]) else 0) - w) for v in range(B.V)]
		l, n = E.l, E.n
		for seq in itertools.product((1, -1), repeat=B.V * k):
			x = [Fr(0)] * n
			for a in range(k):
				e = [s * z for s, z in zip(seq[a * B.V:(a + 1) * B.V], q2)]
				t, x, y = E.step(x, [Fr(0)] * E.q, e[:l], e[l:l + n], e[l + n:])
				for i in range(E.p):
					if abs(y[i]) > Fr(eps[i]) * (1 + Fr(1, 10 ** 9)):
						r.fail('%s: with the uniform word-length %d, rounding errors lead to an output error %g' % (what, w, y[i]))
						return
		r.step(2 ** (B.V * k))


def table(txt, name):
	"""values of a parameter of a .dat file: a number, or dict index -> value, or dict (i,j) -> value"""
	g = re.search(r'param\s+%s\s*(:\s*[\d\s]*)?:=([^;]*);' % name, txt)
	if not g:
		raise ValueError('no parameter %s' % name)
	body = g.group(2).strip()
	if g.group(1):
		cols = [int(a) for a in g.group(1)[1:].split()]
		out = {}
		for line in body.split('\n'):
			a = line.split()
			if len(a) != len(cols) + 1:
				raise ValueError('line %r of %s' % (line, name))
			for cc, v in zip(cols, a[1:]):
				out[(int(a[0]), cc)] = float(v)
		return out
	a = body.split()
	if len(a) == 1:
		return float(a[0])
	return {int(a[i]): float(a[i + 1]) for i in range(0, len(a), 2)}


def ampl(what, R, E, B, um, m, wts, eps, r):
	p, V = E.p, B.V
	wmax = 64 if len(eps) == 1 or eps[0] == eps[1] else 20
	f = 'x%d.dat' % os.getpid()
	w = R.optimalWL(um, numpy.matrix([[e] for e in eps]), AMPLfilename=f, AMPLpath=SCRATCH, wmax=wmax)
	what = '%s, constraints %s' % (what, eps)
	r.step()
	txt = open(os.path.join(SCRATCH, f)).read()
	os.remove(os.path.join(SCRATCH, f))
	if len(w) != V:
		r.fail('%s: %d word-lengths instead of %d' % (what, len(w), V))
		return
	for v in range(V):
		ok = set()
		for s in (-1, 1):
			ok.add(max(math.ceil(math.log2(max(B.weps[i][v] * (1 + s * 1e-9) + s * B.werr[i][v], B.weps[i][v] / 2 ** 40) * 2. ** m[v] * V / eps[i])) for i in range(p) if B.weps[i][v]))
		if not min(ok) <= w[v] <= max(ok):
			r.fail('%s: the word-length of variable %d is %s instead of %s' % (what, v, w[v], ok))
			return
	try:
		if table(txt, 'p') != p or table(txt, 'np') != V:
			r.fail('%s: sizes of the AMPL data' % what)
		X = table(txt, 'E')
		if set(X) != set(itertools.product(range(1, p + 1), range(1, V + 1))):
			r.fail('%s: the indexes of E are %s' % (what, sorted(X)))
			return
		for (i, v), z in X.items():
			y = B.weps[i - 1][v - 1] * 2. ** m[v - 1]
			if abs(z - y) > 1e-9 * y + B.werr[i - 1][v - 1] * 2. ** m[v - 1]:
				r.fail('%s: E[%d,%d] is %r instead of %r' % (what, i, v, z, y))
				return
		X = table(txt, 'eps')
		if X != {i + 1: e for i, e in enumerate(eps)}:
			r.fail('%s: eps is %s' % (what, X))
		X = table(txt, 'u')
		if X != {v + 1: wmax for v in range(V)}:
			r.fail('%s: u is %s' % (what, X))
		X = table(txt, 'wtilde')
		if set(X) != set(range(1, V + 1)) or any(X[v + 1] not in {min(a, wmax) for a in wts[v]} for v in range(V)):
			r.fail('%s: wtilde is %s instead of %s' % (what, X, wts))
	except (ValueError, IndexError) as e:
		r.fail('%s: the AMPL data cannot be read (%s)' % (what, e))


def run(c, r):
	from fixif.SIF import Realization
	if c['k'] == 'dims':
		d = tuple(c['d'])
		D = coeffs(d, c['fam'])
		R = Realization(None, build_args(D, *d))
		examine('%s %s' % (list(d), c['fam']), R, Exact(D, *d), c, r)
	elif c['k'] == 'exact':
		exact(c, r)
	else:
		from fixif.LTI import Filter
		from fixif.Structures import iterStructuresAndOptions
		old = random.uniform
		random.uniform = Rng([])
		try:
			F = Filter(num=c['num'], den=c['den'], stable=True)
			for st, opt in iterStructuresAndOptions(F):
				R = st.makeRealization(F, **(opt or {}))
				if R.l > 60:
					continue
				E, D = exact_of(R)
				examine('%s %s of %s/%s' % (st.name, opt, c['num'], c['den']), R, E, c, r)
				if r.fails:
					return
		finally:
			random.uniform = old
