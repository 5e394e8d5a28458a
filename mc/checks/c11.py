"""C11: whatever edits and queries came before, an implicit form answers as a new one built from its current coefficients."""
from mc import ref
from mc.sifs import BIG, scale, jtos, build_args, Exact, NAMES, shapes, npm
from fractions import Fraction as Fr
import itertools
import numpy
from mc.checks.c10 import within

ID = 'C11'
LEVEL = 'model_checking'
RULE = 'every sequence, up to the given length, of edits (the 9 coefficient matrices, the whole Z, the 9 exactness masks, dZ) and queries (one per lazily computed quantity) on one object; after each sequence every quantity is compared with those of a fresh object and with exact arithmetic. State = exact coefficients + set of quantities already asked, transition = one operation'
BOUNDS = {'quick': 'sequences of 3 operations out of 19 for 4 dimension tuples, all sequences of 2 settings of the 9 masks and the whole one for 7 dimension tuples; coefficients given as integers, matrices of the caller edited afterwards', 'thorough': 'sequences of 4 operations out of 19 for 7 dimension tuples, sequences of 3 mask settings'}
ASSUMPTIONS = ['the dimensions are fixed for the life of the object (documented)', 'comparison with relative tolerance 1e-9 against exact arithmetic, Gramians by their Lyapunov equation']

DIMS = [(2, 2, 1, 1), (1, 2, 2, 1), (2, 1, 1, 2), (0, 2, 1, 1), (1, 1, 2, 2), (3, 2, 1, 1), (2, 3, 2, 2)]
OPS = ['J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'S', 'Z', 'P2', 'dJ', 'dZ', 'qHu', 'qHeps', 'qHzeta', 'qGram', 'qSim', 'qSens']


def cases(tier):
	dims = DIMS[:4] if tier == 'quick' else DIMS
	N = 3 if tier == 'quick' else 4
	for d in dims + [(1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)]:
		yield dict(k='masks', d=list(d), fam='full', N=2 if tier == 'quick' else 3)
	for d in BIG:
		yield dict(k='masks', d=list(d), fam='big', N=1)
	for d in BIG:
		for n in (1, 2) if d[0] > 10 or tier != 'quick' else (1,):
			for pre in itertools.product(OPS, repeat=n - 1):
				yield dict(d=list(d), pre=list(pre), fam='big')
	for d in dims + [(2, 3, 2, 2)]:
		for n in (1, 2):
			for pre in itertools.product(OPS, repeat=n - 1):
				yield dict(d=list(d), pre=list(pre), fam='mag')
	for d in dims + [(2, 3, 2, 2)]:
		for how in ('int', 'Zint'):
			for n in (1, 2):
				for pre in itertools.product(OPS, repeat=n - 1):
					yield dict(d=list(d), pre=list(pre), fam='ints', how=how)
	for d in dims:
		for n in range(1, N + 1):
			for pre in itertools.product(OPS, repeat=n - 1):
				yield dict(d=list(d), pre=list(pre))


def masks(c, r):
	"""all sequences of settings of the exactness masks: each one changes its own place only, whatever was set before"""
	from fixif.SIF import SIF
	dims = tuple(c['d'])
	l, n, p, q = dims
	D = jtos(*dims, c['fam'])
	sh = shapes(*dims)

	def mk(x, k):
		a, b = sh[x]
		return numpy.array([[(5 * i + 3 * j + i * j + k + ord(x)) // 2 % 2 for j in range(b)] for i in range(a)], dtype=int).reshape(a, b)

	def whole(m):
		return numpy.block([[m['J'], m['M'], m['N']], [m['K'], m['P'], m['Q']], [m['L'], m['R'], m['S']]])

	def check(S, m, what):
		r.step()
		r.state((dims, whole(m).tolist()))
		if numpy.asarray(S.dZ).shape != (l + n + p, l + n + q) or not (numpy.asarray(S.dZ) == whole(m)).all():
			r.fail('%s: dZ is %s instead of %s' % (what, numpy.asarray(S.dZ).tolist(), whole(m).tolist()))
			return False
		for x, d in zip(NAMES, S.dJtodS):
			for X in (d, getattr(S, 'd' + x)):
				X = numpy.asarray(X)
				if X.size != m[x].size or not (X.reshape(m[x].shape) == m[x]).all():
					r.fail('%s: d%s is %s instead of %s' % (what, x, X.tolist(), m[x].tolist()))
					return False
		for x, X in zip(NAMES, S.JtoS):
			if not same(X, npm(D[x], *sh[x])) or not same(getattr(S, x), npm(D[x], *sh[x])):
				r.fail('%s: coefficients %s are now %s' % (what, x, X.tolist()))
				return False
		return True

	for seq in itertools.product(NAMES + 'Z', repeat=c['N']):
		m = {x: mk(x, 7) for x in NAMES}
		given = [numpy.matrix(m[x]) for x in NAMES]
		S = SIF(build_args(D, *dims), dJtodS=given)
		if not check(S, m, 'SIF %s with given masks' % list(dims)):
			return
		for k, x in enumerate(seq):
			if x == 'Z':
				m = {y: mk(y, 2 + k) for y in NAMES}
				give(r, S, 'dZ', whole(m))
			else:
				m[x] = 1 - m[x]
				give(r, S, 'd' + x, numpy.matrix(m[x]) if k % 2 else m[x])
			if not check(S, m, 'SIF %s after setting %s' % (list(dims), ','.join('d' + y for y in seq[:k + 1]))):
				return
		r.outcome(str(seq))
		for x, g in zip(NAMES, given):
			if not (numpy.asarray(g).reshape(sh[x]) == mk(x, 7)).all():
				r.fail('SIF %s: setting the masks modifies the one given by the caller for %s' % (list(dims), x))
				return


def alternative(x, dims, k):
	"""another value of the matrix x"""
	a, b = shapes(*dims)[x]
	f = [v / (16 if max(a, b) > 6 else 1) for v in (0.125, -0.25, 0.375, 0.0625)]
	M = [[f[(3 * i + 7 * j + k) % 4] for j in range(b)] for i in range(a)]
	if x == 'J':
		M = [[1. if i == j else (f[(i + j + k) % 4] if i > j else 0.) for j in range(b)] for i in range(a)]
	if x == 'P':
		M = [[v / 2 for v in row] for row in M]
	return M


def bigZ(D, l, n, p, q):
	sh = shapes(l, n, p, q)
	m = {x: npm(D[x], *sh[x]) for x in NAMES}
	return numpy.matrix(numpy.block([[-numpy.array(m['J']), numpy.array(m['M']), numpy.array(m['N'])], [numpy.array(m['K']), numpy.array(m['P']), numpy.array(m['Q'])], [numpy.array(m['L']), numpy.array(m['R']), numpy.array(m['S'])]]))


def give(r, S, name, M):
	"""sets the attribute; the matrix of the caller is neither modified nor kept"""
	G = M.copy()
	setattr(S, name, G)
	if not numpy.array_equal(G, M):
		r.fail('setting %s modifies the matrix of the caller: %s instead of %s' % (name, G.tolist(), M.tolist()))
	# (the caller uses its matrix for something else)
	G[...] = G + 1


def apply(r, S, D, op, dims, k, mask, mag=False):
	"""applies op on the object S and on the mirror D"""
	sh = shapes(*dims)
	alt = (lambda *a: scale(a[0], alternative(*a))) if mag else alternative
	if op in NAMES and k % 3 == 1 and sh[op][0] * sh[op][1] > int(op == 'J'):
		# a very small change of one coefficient
		M = [list(row) for row in D[op]]
		M[-1][0] += 2. ** -24 * (abs(M[-1][0]) or 2. ** -3)
		D[op] = M
		give(r, S, op, npm(M, *sh[op]))
	elif op in NAMES:
		D[op] = alt(op, dims, k)
		give(r, S, op, npm(D[op], *sh[op]))
	elif op == 'P2':
		# the same matrix with only one coefficient changed
		P = [list(row) for row in D['P']]
		P[-1][0] = P[-1][0] / 2 + (0 if mag else 0.03125)
		D['P'] = P
		give(r, S, 'P', npm(P, *sh['P']))
	elif op == 'Z':
		for x in NAMES:
			if k % 3 != 1:
				D[x] = alt(x, dims, k + 1)
			elif x in 'PQ':
				D[x] = [[v * (1 + 2. ** -25) for v in row] for row in D[x]]
		give(r, S, 'Z', bigZ(D, *dims))
	elif op == 'dJ':
		l = dims[0]
		mask['dJ'] = numpy.array([[(i + j + k) % 2 for j in range(l)] for i in range(l)]).reshape(l, l)
		give(r, S, 'dJ', mask['dJ'])
	elif op == 'dZ':
		l, n, p, q = dims
		mask.clear()
		m = numpy.array([[(i + 2 * j + k) % 2 for j in range(l + n + q)] for i in range(l + n + p)])
		give(r, S, 'dZ', m)
		mask['dJ'] = m[:l, :l]
		mask['dQ'] = m[l:l + n, l + n:]
	elif op == 'qHu':
		S.Hu.B
	elif op == 'qHeps':
		S.Hepsilon.C
	elif op == 'qHzeta':
		S.Hzeta.A
	elif op == 'qGram':
		S.Wo, S.Wc
		S.dSS.H2norm()
	elif op == 'qSim':
		S.simulate(numpy.matrix(numpy.ones((dims[3], 3))))
		S.to_dSSexact()
		S.to_dTF() if dims[2] == dims[3] == 1 else None
	elif op == 'qSens':
		S.dTFsensitivity()
		S.poleSensitivity()
		S.invJ, S.Zcomp, S.computeDeltaSIF()
	if op == 'P' or op == 'P2':
		mask.clear()		# documented to be deduced again


def ssof(H):
	return numpy.block([[numpy.array(H.A), numpy.array(H.B)], [numpy.array(H.C), numpy.array(H.D)]])


def same(X, Y):
	return X.shape == Y.shape and numpy.allclose(X, Y, rtol=1e-9, atol=1e-12)


def markov_same(H, G, N=8):
	"""same first Markov parameters, element by element relatively to the size of the terms"""
	if (H.n, H.p, H.q) != (G.n, G.p, G.q):
		return False
	if not same(H.D, G.D) or not (abs(H.D - G.D) <= 1e-9 * abs(G.D)).all():
		return False
	x, y, z = H.B, G.B, abs(G.B)
	for _ in range(N):
		if not same(H.C * x, G.C * y) or not (abs(H.C * x - G.C * y) <= 1e-9 * (abs(G.C) * z)).all():
			return False
		x, y, z = H.A * x, G.A * y, abs(G.A) * z
	return True


def check(r, what, S, D, dims, mask, sens, mag=False):
	from fixif.SIF import SIF
	l, n, p, q = dims
	E = Exact(D, l, n, p, q)
	A, B, C, Dm = E.ss()
	bound = dict(zip('ABCD', E.bound().ss()))
	F = SIF(build_args(D, l, n, p, q))
	r.step()
	sh = shapes(*dims)
	for x in NAMES:
		if not numpy.array_equal(getattr(S, x), npm(D[x], *sh[x])):
			r.fail('%s: %s is %s' % (what, x, getattr(S, x).tolist()))
	if not numpy.array_equal(S.Z, bigZ(D, *dims)):
		r.fail('%s: Z is %s' % (what, S.Z.tolist()))
	for X, W, nm in ((S.AZ, A, 'AZ'), (S.BZ, B, 'BZ'), (S.CZ, C, 'CZ'), (S.DZ, Dm, 'DZ')):
		if not ref.closemat(X, W, 1e-9, 1e-12) or not within(X, W, bound[nm[0]]):
			r.fail('%s: %s is %s instead of %s' % (what, nm, X.tolist(), ref.show(W)))
	X = S.to_dSSexact()
	for G, W, nm in ((X.A, A, 'A'), (X.B, B, 'B'), (X.C, C, 'C'), (X.D, Dm, 'D')):
		if ref.fmat(G) != W:
			r.fail('%s: exact %s is %s instead of %s' % (what, nm, ref.show(ref.fmat(G)), ref.show(W)))
	for nm in ('Hu', 'Hepsilon', 'Hzeta', 'dSS'):
		if not markov_same(getattr(S, nm), getattr(F, nm)):
			r.fail('%s: %s differs from the one of a new SIF: %s' % (what, nm, ssof(getattr(S, nm)).tolist()))
	if not same(S.invJ, F.invJ) or not same(S.Zcomp, F.Zcomp):
		r.fail('%s: invJ or Zcomp differ' % what)
	if not markov_same(S.computeDeltaSIF().dSS, F.computeDeltaSIF().dSS):
		r.fail('%s: computeDeltaSIF differs' % what)
	a = numpy.matrix([[float(v) for v in row] for row in A])
	b = numpy.matrix([[float(v) for v in row] for row in B])
	c = numpy.matrix([[float(v) for v in row] for row in C])
	# (numerical solutions of the Lyapunov equations depend on the basis)
	if not mag and (not same(a * S.Wc * a.T + b * b.T, S.Wc) or not same(a.T * S.Wo * a + c.T * c, S.Wo)):
		r.fail('%s: Gramians are not those of the current coefficients' % what)
	us = [[Fr(1)] * q, ([Fr(-2), Fr(1)] + [Fr(1, 2)] * q)[:q], [Fr(0)] * q, [Fr(3)] * q]
	W = E.run(us)
	U = numpy.matrix([[float(u[j]) for u in us] for j in range(q)])
	if not ref.closemat(S.simulate(U), [[o[3][i] for o in W] for i in range(p)], 1e-9, 1e-12):
		r.fail('%s: simulation does not follow the current coefficients' % what)
	wb = E.bound().run([[abs(v) for v in u] for u in us])
	if not within(S.simulate(U), [[o[3][i] for o in W] for i in range(p)], [[o[3][i] for o in wb] for i in range(p)]):
		r.fail('%s: simulation does not follow the current coefficients' % what)
	ev = numpy.linalg.eigvals(a)
	regular = min(abs(ev)) > 1e-3 and min([abs(x - y) for i, x in enumerate(ev) for y in ev[:i]] or [1]) > 1e-3
	# (the sensitivity of multiple poles is not defined)
	if regular and not same(S.poleSensitivity()[1], F.poleSensitivity()[1]):
		r.fail('%s: pole sensitivity matrix differs' % what)
	for k, m in mask.items():
		if not same(numpy.array(getattr(S, k), dtype=float).reshape(m.shape), m):
			r.fail('%s: %s is not the one that was set' % (what, k))
	if mask:
		# whatever the mask is: the transfer function sensitivity is weighted by it
		F.dZ = S.dZ
	if sens and not mag and same(S.dZ, F.dZ):
		F2, S2 = F.dTFsensitivity(), S.dTFsensitivity()
		if not (abs(F2[0] - S2[0]) <= 1e-9 * abs(F2[0]) + 1e-12 and same(F2[1], S2[1])):
			r.fail('%s: transfer function sensitivity differs' % what)


def run(c, r):
	from fixif.SIF import SIF
	dims = tuple(c['d'])
	if c.get('k') == 'masks':
		return masks(c, r)
	for last in OPS:
		D = jtos(*dims, c.get('fam', 'full'))
		if c.get('how') == 'int':
			S = SIF(build_args(D, *dims, dtype=int))
		else:
			S = SIF(build_args(D, *dims))
		if c.get('how') == 'Zint':
			give(r, S, 'Z', bigZ(D, *dims).astype(int))
		mask = {}
		seq = c['pre'] + [last]
		if dims[0] == 0 and any(o in ('J', 'K', 'L', 'M', 'N', 'dJ') for o in seq):
			continue
		if 'how' in c and 'qSens' in seq:
			# (no sensitivity for multiple poles)
			continue
		asked = set()
		for k, o in enumerate(seq):
			apply(r, S, D, o, dims, k, mask, c.get('fam') == 'mag')
			r.step()
			if o[0] == 'q':
				asked.add(o)
			r.state((dims, [D[x] for x in NAMES], sorted(asked)))
		check(r, 'SIF %s after %s' % (list(dims), ','.join(seq)), S, D, dims, mask, len(seq) <= 2, c.get('fam') == 'mag')
		r.outcome(str(D['P'] + D['J']) + str(dims))
		if r.fails:
			return
