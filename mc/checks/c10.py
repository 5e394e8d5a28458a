"""C10: an implicit form and its state space are the same system."""
from mc import ref
from mc.sifs import some_patterns, BIG, jtos, build_args, Exact, NAMES, shapes
from fractions import Fraction as Fr
import itertools
import numpy
from mpmath import mp

ID = 'C10'
LEVEL = 'model_checking'
RULE = 'every dimension tuple (l,n,p,q), every coefficient family, all assignments of an alphabet to the coefficients of the smallest forms; every input sequence over an alphabet is run (state = exact state vector, transition = one time step of the implicit equations)'
BOUNDS = {'quick': 'l<=3, n<=3, p,q<=2; alphabet {0,1,-0.5} on 6 coefficients of l=1,n=1 and on the 3 sub-diagonal terms of J (l=3); input sequences of 4 samples over 3 vectors; dense 53-bit coefficients', 'thorough': 'l<=4, n<=4, p,q<=3; sequences of 6 samples over 3 vectors'}
ASSUMPTIONS = ['double precision results are compared with the exact ones with relative tolerance 1e-9', 'J is unit lower triangular']


def cases(tier):
	q_ = tier == 'quick'
	dims = itertools.product(range(0, 4 if q_ else 5), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4))
	for d in dims:
		for fam in ('full', 'sparse', 'pow2', 'upper', 'int', 'dense'):
			for prec in (53, 20) if q_ else (53, 20, 200):
				yield dict(k='fam', d=list(d), fam=fam, prec=prec, T=(4 if q_ else 6) if prec == 53 else 2)
	for d in BIG:
		yield dict(k='fam', d=list(d), fam='big', prec=53, T=2)
	for d in itertools.product(range(0, 5), range(1, 5), range(1, 4), range(1, 4)):
		if sum(d) < (8 if q_ else 99):
			for prec in (53, 20):
				yield dict(k='fam', d=list(d), fam='mag', prec=prec, T=2)
	for d, fam in some_patterns(q_):
		yield dict(k='fam', d=d, fam=fam, prec=53, T=2)
	for v in itertools.product([0., 1., -0.5], repeat=3):
		for w in itertools.product([0., 1., -0.5] if not q_ else [1., -0.5], repeat=2):
			yield dict(k='alpha', v=list(v), w=list(w))
	for v in itertools.product([0., 1., -0.5, 2.], repeat=3):
		yield dict(k='J', v=list(v))


def within(X, W, B):
	"""element by element, relatively to the size of the terms it is made of"""
	return all(abs(Fr(float(X[i, j])) - W[i][j]) <= B[i][j] / 10 ** 9 for i in range(len(W)) for j in range(len(W[0])))


def examine(r, what, S, E, T, D=None, dims=None):
	from fixif.SIF import SIF
	l, n, p, q = E.l, E.n, E.p, E.q
	A, B, C, Dm = E.ss()
	bound = dict(zip('ABCD', E.bound().ss()))
	r.step(2)
	r.state((what, [E.m[x] for x in NAMES]))
	if S.size != (l, n, p, q) or (S.l, S.n, S.p, S.q) != (l, n, p, q):
		r.fail('%s: size %s' % (what, S.size))
	for X, W, nm in ((S.AZ, A, 'A'), (S.BZ, B, 'B'), (S.CZ, C, 'C'), (S.DZ, Dm, 'D'), (S.dSS.A, A, 'A of dSS'), (S.dSS.B, B, 'B of dSS'), (S.dSS.C, C, 'C of dSS'), (S.dSS.D, Dm, 'D of dSS')):
		if not ref.closemat(X, W, 1e-10, 1e-13) or not within(X, W, bound[nm[0]]):
			r.fail('%s: %s is %s instead of %s' % (what, nm, X.tolist(), ref.show(W)))
	prec = mp.prec
	X = S.to_dSSexact()
	for G, W, nm in ((X.A, A, 'A'), (X.B, B, 'B'), (X.C, C, 'C'), (X.D, Dm, 'D')):
		if ref.fmat(G) != W:
			r.fail('%s: exact %s is %s instead of %s' % (what, nm, ref.show(ref.fmat(G)), ref.show(W)))
	if mp.prec != prec:
		r.fail('%s: working precision changed' % what)
	# the coefficients are those given
	for x, G in zip(NAMES, S.JtoS):
		a, b = shapes(l, n, p, q)[x]
		if G.shape != (a, b) or [[Fr(v) for v in row] for row in G.tolist()] != E.m[x][:a] and a * b:
			r.fail('%s: %s is %s' % (what, x, G.tolist()))
	# numerical simulation of all the input sequences
	ual = [[Fr(0)] * q, [Fr(1)] + [Fr(-2)] * (q - 1), [Fr(-3, 4)] + [Fr(5)] * (q - 1)]
	for seq in itertools.product(ual, repeat=T):
		want = E.run(seq)
		U = numpy.matrix([[float(u[j]) for u in seq] for j in range(q)])
		Y = S.simulate(U)
		r.step(T)
		for t in range(T):
			r.state((what, want[t][1]))
		W = [[want[t][3][i] for t in range(T)] for i in range(p)]
		if not ref.closemat(Y, W, 1e-9, 1e-12):
			r.fail('%s: simulate(%s) = %s instead of %s' % (what, U.tolist(), Y.tolist(), ref.show(W)))
		wb = E.bound().run([[abs(v) for v in u] for u in seq])
		if not within(Y, W, [[wb[t][3][i] for t in range(T)] for i in range(p)]):
			r.fail('%s: simulate(%s) = %s instead of %s' % (what, U.tolist(), Y.tolist(), ref.show(W)))
		if not ref.closemat(S.simulate(U), W, 1e-9, 1e-12):
			r.fail('%s: the second simulation differs from the first one' % what)
	if p == 1 and q == 1:
		H = S.to_dTF()
		h = ref.impulse_tf([Fr(float(x)) for x in H.num.A1], [Fr(float(x)) for x in H.den.A1], 2 * n + 2)
		w = [m[0][0] for m in ref.impulse_ss(A, B, C, Dm, 2 * n + 2)]
		if not ref.closemat([h], [w], 1e-6, 1e-7):
			r.fail('%s: transfer function %s / %s' % (what, H.num, H.den))
	r.outcome(ref.show(A) + ref.show(Dm))


def run(c, r):
	from fixif.SIF import SIF
	old = mp.prec
	try:
		mp.prec = c.get('prec', 53)
		if c['k'] == 'fam':
			l, n, p, q = c['d']
			D = jtos(l, n, p, q, c['fam'])
			args = build_args(D, l, n, p, q)
			S = SIF(args)
			E = Exact(D, l, n, p, q)
			examine(r, 'SIF %s %s' % (c['d'], c['fam']), S, E, c['T'])
			for x, a in zip(NAMES, args):
				if a.size and [[Fr(v) for v in row] for row in a.tolist()] != E.m[x]:
					r.fail('SIF %s: the matrix %s given has been modified' % (c['d'], x))
			if c['fam'] == 'int':
				Si = SIF(build_args(D, l, n, p, q, dtype=int))
				examine(r, 'SIF %s built from integers' % c['d'], Si, E, 1)
			# the matrices may also be given as nested lists or arrays
			if l > 0:
				Sl = SIF(tuple(numpy.array(a) for a in args))
				examine(r, 'SIF %s built from arrays' % c['d'], Sl, E, 1)
		elif c['k'] == 'alpha':
			v, w = c['v'], c['w']
			for x in itertools.product([0., 1., -0.5], repeat=4):
				D = dict(J=[[1.]], K=[[v[0]]], L=[[v[1]]], M=[[v[2]]], N=[[w[0]]], P=[[w[1]]], Q=[[x[0]]], R=[[x[1]]], S=[[x[2] + x[3]]])
				examine(r, 'SIF %s %s %s' % (v, w, x), SIF(build_args(D, 1, 1, 1, 1)), Exact(D, 1, 1, 1, 1), 1)
		else:
			D = jtos(3, 2, 1, 1, 'full')
			v = c['v']
			D['J'] = [[1., 0., 0.], [v[0], 1., 0.], [v[1], v[2], 1.]]
			examine(r, 'SIF with J=%s' % D['J'], SIF(build_args(D, 3, 2, 1, 1)), Exact(D, 3, 2, 1, 1), 2)
	finally:
		mp.prec = old
