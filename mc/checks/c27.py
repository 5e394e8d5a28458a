"""C27: Sollya is asked about exactly the filter and the specification given, and its answers are used as they are."""
import os
import sys
import math
import itertools
import contextlib
from fractions import Fraction as Fr
import mpmath
from mpmath import mp, mpf
from mc import ref, stubs, env
from mc import sollya_stub as S
from mc.systems import tf_pool, tf_big, tf_mag, ss_pool, ss_big, ss_mag

ID = 'C27'
LEVEL = 'model_checking'
RULE = 'every filter, matrix, band, margin and precision of the alphabets on the real code; findMinimumMargin: every answer that a checker may give (each nonempty subset of the real issues, in each order, or no issue) at each call, explored exhaustively as a tree; without Sollya: every sequence of calls'
BOUNDS = {'quick': 'orders 1..4, 8, 11; matrices up to 3x3; 4 sampling frequencies x 12 bands x 7 margins; 6 specifications x trees of answers with up to 3 issues and 1 refusal without issue; sequences of 3 calls', 'thorough': 'orders 1..5, 8, 11; matrices up to 4x4; 6 sampling frequencies x 20 bands x 11 margins; trees with up to 4 issues and 2 refusals without issue; sequences of 4 calls'}
ASSUMPTIONS = ['Sollya is a stand-in that computes exactly (mc/sollya_stub.py), whose procedures are nondeterministic: what gabarit.sol and wcpg.sol compute is not checked']
CHUNK = 4

_worlds = {}


def _mine(k):
	return k == 'fixif' or k.startswith('fixif.') or k == 'sollya'


@contextlib.contextmanager
def world(present):
	"""fixif imported with Sollya, or without it"""
	outside = {k: v for k, v in sys.modules.items() if _mine(k)}
	for k in outside:
		del sys.modules[k]
	if present in _worlds:
		sys.modules.update(_worlds[present])
	else:
		if present:
			S.install()
		else:
			sys.modules['sollya'] = None
		stubs.install()
		import fixif.LTI  # noqa
		import fixif.func_aux  # noqa
	try:
		yield
	finally:
		_worlds[present] = {k: v for k, v in sys.modules.items() if _mine(k)}
		for k in _worlds[present]:
			del sys.modules[k]
		sys.modules.update(outside)


FINE = [1., 0.1, 1 / 3., -0.7, 1e-300, 5e-324, 1e100, 0., -1e-5, math.pi]


def cases(tier):
	q = tier == 'quick'
	pool = tf_pool((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)) + tf_big() + tf_mag()
	for name, num, den in pool:
		yield dict(k='poly', name=name, num=num, den=den)
	for num in itertools.product(FINE[:6], repeat=2):
		for den in itertools.product(FINE[1:8], repeat=2):
			if q and (FINE.index(num[0]) + FINE.index(den[0])) % 2:
				continue
			yield dict(k='poly', name='fine', num=list(num), den=[1.] + list(den))
	yield dict(k='many', names=3)
	n = 3 if q else 4
	for m in range(1, n + 1):
		for c in range(1, n + 1):
			for prec in (53, 20, 200):
				for fam in ('fine', 'ints', 'long'):
					yield dict(k='mat', m=m, c=c, prec=prec, fam=fam)
	yield dict(k='bad')
	for prec in (53, 20, 200):
		for name, A, B, C, D in ss_pool([(1, 1, 1), (2, 1, 1), (2, 2, 3), (3, 3, 2)]) + ss_big() + ss_mag():
			yield dict(k='wcpg', name=name, S=[A, B, C, D], prec=prec)
	for prec in (53, 20, 200):
		for name, A, B, C, D in ss_pool([(1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 2)]) + ss_big()[:2]:
			for r in (53, 24, 3, 100):
				yield dict(k='rounded', name=name, S=[A, B, C, D], prec=prec, r=r, T=6)
	for Fs in ((None, 48000, 44100.7, 1.) if q else (None, 48000, 44100.7, 1., 2, 10 ** 9 + 7)):
		yield dict(k='band', Fs=Fs, q=q)
		yield dict(k='check', Fs=Fs)
	for spec in range(len(SPECS)):
		for und in ((0, 1) if q else (0, 1, 2)):
			for init in (0, 0.001, 1e-9, 0.25):
				for worst in itertools.product(range(5), repeat=sum(1 for b in SPECS[spec][1])):
					if q and und and sum(worst) % 2:
						continue
					yield dict(k='margin', spec=spec, und=und, init=init, worst=list(worst), q=q)
	yield dict(k='paths')
	ops = sorted(ABSENT)
	for seq in itertools.product(ops, repeat=2):
		yield dict(k='absent', seq=list(seq))
	for op in ops:
		yield dict(k='absent', seq=[op] * (4 if q else 6))
	if not q:
		for seq in itertools.product(ops, repeat=3):
			yield dict(k='absent', seq=list(seq))


SPECS = [
	(48000, [((0, 9600), (0.5, -0.5)), ((12000, None), -20)]),
	(None, [((0, 0.3), (0, -1)), ((0.5, 1), -40.5)]),
	(1000.1, [((0, 100.3), -30), ((200, 300.7), (3.3, 2.2)), ((400, None), -10)]),
	(44100, [((10000, None), (-0.1, 0.1)), ((0, 5000), -6.02)]),
	(10, [((1, 2), (-20, 20))]),
	(48000, [((0, 9600), -60.)]),
]

# ------------------------------------------------------------------ polynomials


def coefs(p, n):
	"""the n first coefficients of a polynomial of the stand-in (the next ones are null)"""
	p = S.SollyaObject(p)
	c = p.coeffs()
	if any(v != 0 for v in c[n:]):
		return c
	return [c[i] if i < len(c) else Fr(0) for i in range(n)]


def flat(M):
	return [v for row in ref.fmat(M) for v in row]


def ask(r, F, what):
	got = F.to_Sollya()
	r.step()
	want = (flat(F.num), flat(F.den))
	if len(got) != 2:
		r.fail('%s: %d polynomials' % (what, len(got)))
		return
	for g, w, nm in zip(got, want, ('numerator', 'denominator')):
		c = coefs(g, len(w))
		if c != w:
			r.fail('%s: %s %s instead of %s' % (what, nm, [str(x) for x in c], [str(x) for x in w]))
	r.state((what, tuple(want[0]), tuple(want[1])))
	r.outcome(('degree', len(want[1]) - 1))


def do_poly(c, r):
	import numpy
	from fixif.LTI import dTF, dTFmp
	F = dTF(c['num'], c['den'])
	ask(r, F, 'dTF')
	ask(r, F, 'dTF again')
	with mp.workprec(200):
		b = mpmath.matrix([mpf(x) / 3 for x in c['num']])
		a = mpmath.matrix([mpf(1)] + [mpf(x) / 7 for x in c['den'][1:]])
	for prec in (53, 20, 300):
		with mp.workprec(prec):
			G = dTFmp(b, a)
			ask(r, G, 'dTFmp')
			ask(r, G, 'dTFmp again')
			ask(r, F.to_dTFmp(), 'dTF.to_dTFmp')
			ask(r, dTF(c['num'], c['den']), 'dTF at precision %d' % prec)
	G = dTFmp(numpy.matrix(c['num']), numpy.matrix(c['den']))
	ask(r, G, 'dTFmp from numpy')
	ask(r, F + F, 'sum')
	ask(r, F * F, 'product')
	ask(r, F, 'dTF after the operators')


def do_many(c, r):
	"""interleaved conversions of several filters: each has its own polynomials"""
	from fixif.LTI import dTF, dTFmp
	pool = [dTF([1., 2.], [1., 0.5]), dTF([3.], [1., 0.25, 0.125]), dTF([0., 1.], [1., -0.5])]
	for order in itertools.product(range(6), repeat=4):
		objs = [dTF(F.num, F.den) for F in pool] + [F.to_dTFmp() for F in pool]
		for k in order:
			ask(r, objs[k], 'interleaved %s' % (order,))


# ------------------------------------------------------------------ matrices


def val(fam, i):
	if fam == 'fine':
		return mpf(FINE[i % len(FINE)])
	if fam == 'ints':
		return mpf(i - 4)
	with mp.workprec(180):
		return (mpf(1) / (3 + i) - mpf(2) ** (i * 7 - 20)) * (-1) ** i


def do_mat(c, r):
	import numpy
	from fixif.func_aux import mpf_matrix_to_sollya, sollya_matrix_to_numpy, MPFMatrix
	m, n = c['m'], c['c']
	for shift in range(10):
		X = mpmath.matrix(m, n)
		for i in range(m):
			for j in range(n):
				X[i, j] = val(c['fam'], shift + i * n + j)
		exact = flat(X)
		with mp.workprec(c['prec']):
			for what, res in (('mpf_matrix_to_sollya', mpf_matrix_to_sollya(X)), ('MPFMatrix.to_sollya', MPFMatrix(X).to_sollya())):
				r.step()
				if len(res) != 3 or (res[1], res[2]) != (m, n):
					r.fail('%s: sizes %s instead of %s' % (what, res[1:], (m, n)))
					continue
				L = [S.SollyaObject(x)._v for x in res[0]]
				if L != exact:
					r.fail('%s: %s instead of %s' % (what, L, exact))
			if flat(X) != exact:
				r.fail('the matrix is modified')
			N = sollya_matrix_to_numpy([S.SollyaObject(x) for x in exact], m, n)
			r.step()
			if N.shape != (m, n):
				r.fail('sollya_matrix_to_numpy: shape %s' % (N.shape,))
			elif [float(x) for x in numpy.array(N).reshape(-1)] != [near(x) for x in exact]:
				r.fail('sollya_matrix_to_numpy: %s instead of %s' % (N, [near(x) for x in exact]))
		r.state(('mat', m, n, tuple(exact), c['prec']))
	r.outcome((m, n))


def near(x):
	return x.numerator / x.denominator       # nearest double (integer division rounds correctly)


def do_bad(c, r):
	import numpy
	from fixif.func_aux import mpf_matrix_to_sollya
	for X in (numpy.matrix([[1., 2.]]), [[1., 2.]], 3., mpmath.matrix([[mpmath.mpc(1, 2)]]), None):
		r.step()
		try:
			mpf_matrix_to_sollya(X)
			r.fail('%r is accepted' % (X,))
		except ValueError:
			r.outcome('ValueError')
	# rounded to nearest: ties to even
	from fixif.func_aux import sollya_matrix_to_numpy
	for k in range(8):
		for e in (-1, 0, 1):
			for sg in (1, -1):
				x = sg * (Fr(2) ** 53 + k + Fr(1, 2) * k + Fr(e, 2 ** 30))
				r.step()
				if float(sollya_matrix_to_numpy([S.SollyaObject(x)], 1, 1)[0, 0]) != near(x):
					r.fail('%s is not rounded to nearest' % x)
	r.outcome('nearest')


# ------------------------------------------------------------------ state spaces


def mpm(X):
	return mpmath.matrix([[mpf(v) for v in row] for row in X])


def do_wcpg(c, r):
	from fixif.LTI import dSSmp
	with mp.workprec(220):
		X = [mpmath.matrix([[mpf(v) * (1 + mpf(2) ** -100) for v in row] for row in M]) for M in c['S']]
	n, p, q = len(c['S'][0]), len(c['S'][2]), len(c['S'][1][0])
	ans = [S.SollyaObject(k) for k in range(p * q)]
	for delta in (1e-3, 2.0 ** -80, S.SollyaObject(Fr(1, 3))):
		S.Env.reset(wcpg=lambda *a: ans)
		with mp.workprec(c['prec']):
			W = dSSmp(*X).WCPGmp(delta)
		r.step()
		if W is not ans and list(W) != ans:
			r.fail('WCPGmp gives %s instead of what was computed' % (W,))
		if [x[0] for x in S.Env.calls] != ['wcpg']:
			r.fail('procedures called: %s' % [x[0] for x in S.Env.calls])
			continue
		a = S.Env.calls[0][1]
		for k, nm in enumerate('ABCD'):
			got, want = [S.SollyaObject(x)._v for x in a[k]], flat(X[k])
			if got != want:
				r.fail('WCPGmp: %s is %s instead of %s' % (nm, got, want))
		if [int(S.SollyaObject(x)) for x in a[4:7]] != [n, p, q]:
			r.fail('WCPGmp: sizes %s instead of %s' % (a[4:7], (n, p, q)))
		if len(a) != 8 or S.SollyaObject(a[7])._v != S.SollyaObject(delta)._v:
			r.fail('WCPGmp: delta %s instead of %s' % (a[7:], delta))
	r.state((c['name'], c['prec']))
	r.outcome((p, q))


def do_rounded(c, r):
	from fixif.LTI import dSSmp
	with mp.workprec(220):
		X = [mpmath.matrix([[mpf(v) * (1 + mpf(2) ** -60) / 3 for v in row] for row in M]) for M in c['S']]
	n, p, q = len(c['S'][0]), len(c['S'][2]), len(c['S'][1][0])
	E = [ref.fmat(M) for M in X]
	T = c['T']
	for fam in range(4):
		u = mpmath.matrix(q, T)
		for i in range(q):
			for k in range(T):
				u[i, k] = [mpf(k == 0), mpf(1), mpf((-1) ** k) / 8, mpf(0.1 * (i + 1) * k)][fam]
		U = ref.fmat(u)
		x = [Fr(0)] * n
		y = [[None] * T for _ in range(p)]
		for k in range(T):
			for i in range(p):
				y[i][k] = S.rnd(sum((E[2][i][j] * x[j] for j in range(n)), Fr(0)) + sum((E[3][i][j] * U[j][k] for j in range(q)), Fr(0)), c['r'], S.RN)
			x = [S.rnd(sum((E[0][i][j] * x[j] for j in range(n)), Fr(0)) + sum((E[1][i][j] * U[j][k] for j in range(q)), Fr(0)), c['r'], S.RN) for i in range(n)]
		with mp.workprec(c['prec']):
			F = dSSmp(*X)
			got = F.simulate_rounded(u, c['r']) if c['r'] != 53 or fam % 2 else F.simulate_rounded(u)
		r.step(T)
		got = [S.SollyaObject(v)._v for v in got]
		want = [v for row in y for v in row]
		if got != want:
			k = [a == b for a, b in zip(got, want)].index(False) if len(got) == len(want) and got != want else -1
			r.fail('simulate_rounded: %d outputs, the first different one is %d: %s instead of %s' % (len(got), k, float(got[k]) if got else None, float(want[k])))
		if ref.fmat(u) != U:
			r.fail('simulate_rounded modifies its input')
		r.state((c['name'], c['r'], fam))
	r.outcome((p, q, c['r']))


# ------------------------------------------------------------------ bands


def ten(G):
	"""10^(G/20) on 700 bits (exact when it is a power of 10)"""
	g = Fr(G) / 20
	if g.denominator == 1:
		return Fr(10) ** int(g)
	with mp.workprec(700):
		s, m, e, _ = mpmath.power(10, mpf(g.numerator) / g.denominator)._mpf_
		return Fr(int(m)) * Fr(2) ** e


def expected(Fs, F1, F2, G, margin):
	"""w1, w2, betaInf, betaSup"""
	fs = Fr(Fs) if Fs else Fr(2)
	w1, w2 = 2 * Fr(F1) / fs, (2 * Fr(F2) / fs if F2 else Fr(1))
	if isinstance(G, tuple):
		return w1, w2, S.rnd(ten(min(G)) - margin, 53, S.RU), S.rnd(ten(max(G)) + margin, 53, S.RD)
	return w1, w2, Fr(0), S.rnd(ten(G) + margin, 53, S.RD)


def same_constraint(c, want):
	"""None, or what is wrong in a constraint"""
	c = dict(c)
	w1, w2, lo, hi = want
	with mp.workprec(700):
		pi = S._exact(+mp.pi)
	f = S.SollyaObject(c['omegaFactor'])._v
	f = f if isinstance(f, Fr) else S._exact(f)
	om = [x if isinstance(x, Fr) else S._exact(x) for x in S.SollyaObject(c['Omega'])._ends()]
	for got, w, nm in ((om[0], w1, 'first'), (om[1], w2, 'last')):
		if abs(got * f - w * pi) > abs(w * pi) * Fr(1, 2 ** 500):
			return '%s frequency %s*%s instead of %s*pi (relative error 2^%.0f)' % (nm, float(got), float(f), w, math.log2(abs(got * f / pi / w - 1)) if w and got else 0)
	for nm, w in (('betaInf', lo), ('betaSup', hi)):
		v = S.SollyaObject(c[nm])._v
		if (v if isinstance(v, Fr) else S._exact(v)) != w:
			return '%s is %r instead of %r (difference %g)' % (nm, float(v), float(w), float(v - w))
	return None


GAINS = [(0.5, -0.5), (0, -1), (-20, 20), (3.3, 2.2), (-0.0001, 0.0001), (-40, -39.5), -20, -60.5, 0, 6, -120., -0.0]
MARGINS = [0, 1e-3, 1e-9, 2. ** -60, -1e-6, 0.1, -1e-17]


def freqs(Fs):
	h = (Fs or 2) / 2.
	return [(0, h * 0.3), (h * 0.1, h * 0.7), (h * 0.5, None), (h / 3, h), (0, None)]


def do_band(c, r):
	from fixif.LTI.Gabarit import Band
	Fs = c['Fs']
	for (F1, F2) in freqs(Fs):
		for G in GAINS if c['q'] else GAINS + [(-7, -3), (20, 40), (-6.02, -6.01), (1, 0.99), 20, -40, -1e-3, 13.37]:
			for margin in MARGINS if c['q'] else MARGINS + [1., 2. ** -1000, -1e-5, 1 / 3.]:
				S.Env.reset()
				w = expected(Fs, F1, F2, G, Fr(margin))
				r.step()
				try:
					got = Band(Fs, F1, F2, G).sollyaConstraint(margin)
				except AssertionError:
					if w[2] < w[3]:
						r.fail('band %s of gain %s, margin %s: refused' % ((F1, F2), G, margin))
					r.outcome('empty band')
					continue
				e = same_constraint(got, w)
				if e:
					r.fail('Fs=%s, band %s of gain %s, margin %s: %s' % (Fs, (F1, F2), G, margin, e))
				r.state((Fs, F1, F2, G, margin))
				r.outcome('pass' if isinstance(G, tuple) else 'stop')


def do_check(c, r):
	"""check_dTF: what is asked, what is answered"""
	from fixif.LTI import dTF
	from fixif.LTI.Gabarit import Gabarit
	Fs = c['Fs']
	h = (Fs or 2) / 2.
	specs = [([(0, h * 0.3), (h * 0.5, None)], [(0.5, -0.5), -20]), ([(h * 0.5, None), (0, h * 0.3)], [(-1, 0), -20.5]),
	         ([(0, h * 0.2), (h * 0.3, h * 0.4), (h * 0.7, None)], [-10, (1, 2.5), -30]), ([(0, h / 3), (h / 2, h * 0.6), (h * 0.9, h)], [(0, 1), -30, (0, 1)]), ([(h / 7, h / 3)], [-6.02])]
	filters = [dTF([1., 2.], [1., 0.5]), dTF([0.1, 0.2, 0.3], [1., -1 / 3., 0.25]), dTF([1.], [1., 0., 0.5]).to_dTFmp()]
	for Fb, Ab in specs:
		for F in filters:
			for margin in (0, 1e-3, 2. ** -40):
				for prec in (None, 165, 53, 1000):
					for ok in (True, False):
						ans = S.Structure(okay=ok, results=[])
						S.Env.reset(checkModulusFilterInSpecification=lambda *a: ans)
						g = Gabarit(Fs, Fb, Ab)
						Gabarit.isSollyaRunning = None       # (gabarit.sol is loaded again)
						kw = {} if prec is None else {'prec': prec}
						if margin:
							kw['margin'] = margin
						res = g.check_dTF(F, **kw)
						r.step()
						if len(res) != 2 or bool(res[0]) is not ok or res[1] is not ans:
							r.fail('check_dTF gives %s when the answer is %s' % (res, ans))
						asked = [x for x in S.Env.calls if x[0] == 'checkModulusFilterInSpecification']
						if len(asked) != 1:
							r.fail('%d checks' % len(asked))
							continue
						verify_question(r, asked[0][1], F, Fs, Fb, Ab, Fr(margin), prec or 165)
						r.outcome(ok)
			r.state((Fs, str(Fb), str(Ab), F.order))


def verify_question(r, args, F, Fs, Fb, Ab, margin, prec=165):
	if len(args) != 4:
		r.fail('%d arguments' % len(args))
		return False
	num, den, cons, p = args
	for g, w, nm in ((num, flat(F.num), 'numerator'), (den, flat(F.den), 'denominator')):
		if coefs(g, len(w)) != w:
			r.fail('the %s checked is %s instead of %s' % (nm, coefs(g, len(w)), w))
			return False
	if int(S.SollyaObject(p)) != prec:
		r.fail('precision %s instead of %s' % (p, prec))
	want = [expected(Fs, F1, F2, G, margin) for (F1, F2), G in zip(Fb, Ab)]
	cons = list(cons)
	if len(cons) != len(want):
		r.fail('%d constraints instead of %d' % (len(cons), len(want)))
		return False
	for w in want:
		errs = [same_constraint(x, w) for x in cons]
		if all(errs):
			r.fail('no constraint for the band [%s*pi, %s*pi] in [%s, %s]: %s' % (float(w[0]), float(w[1]), float(w[2]), float(w[3]), errs))
			return False
		cons.pop(errs.index(None))
	return True


# ------------------------------------------------------------------ the minimum margin


def amplitudes(G, k, j):
	"""the amplitudes (intervals on 165 bits) of the worst points of a band; k: what kind of excess"""
	lo, hi = (ten(min(G)), ten(max(G))) if isinstance(G, tuple) else (Fr(0), ten(G))
	eps = Fr(1, 2 ** 150)
	d = Fr(1, 100) + Fr(j, 700) + Fr(1, 3 * 2 ** 40)
	if k == 0:
		H = [(lo + hi) / 2]
	elif k == 1:
		H = [hi + d, (lo + hi) / 2]
	elif k == 2:
		H = [lo - d / 3] if lo > d else [hi + d / 9]
	elif k == 3:
		H = [hi + d / 7, lo - d / 5 if lo > d else hi + d / 5]
	else:
		H = [hi - Fr(1, 2 ** 151)]      # straddles the bound
	return [tuple(S.rnd(x + e, 165, m) for e, m in ((-eps, S.RD), (eps, S.RU))) for x in H]


class Branch(Exception):
	pass


def do_margin(c, r):
	from fixif.LTI import dTF
	from fixif.LTI.Gabarit import Gabarit
	Fs, bands = SPECS[c['spec']]
	Fb, Ab = [b[0] for b in bands], [b[1] for b in bands]
	F = dTF([1., 2.], [1., 0.5])
	H = [amplitudes(G, k, j) for j, (G, k) in enumerate(zip(Ab, c['worst']))]
	init = Fr(c['init'])
	top = Fr(max(max(G) if isinstance(G, tuple) else G for G in Ab))
	bump = ten(top + Fr(1, 50)) - ten(top)
	# the least margin that is enough for all the points
	need = [Fr(0)]
	for G, hs in zip(Ab, H):
		for lo, hi in hs:
			need.append(hi - (ten(max(G)) if isinstance(G, tuple) else ten(G)))
			if isinstance(G, tuple):
				need.append(ten(min(G)) - lo)
	need = max(need)

	def play(script):
		"""one execution, the answers following the script (list of choices); gives (result, widths of the choices met)"""
		met = []
		log = []

		def choose(n):
			k = script[len(met)] if len(met) < len(script) else 0
			met.append(n)
			return k

		def checker(num, den, cons, prec):
			cons = [dict(x) for x in cons]
			log.append(cons)
			if len(log) > 26:
				raise Branch('more than 26 checks')
			issues = []
			for w, hs in zip([expected(Fs, F1, F2, G, Fr(0)) for (F1, F2), G in zip(Fb, Ab)], H):
				x = [d for d in cons if abs(ends(d)[0] - w[0]) + abs(ends(d)[1] - w[1]) < Fr(1, 10 ** 9)]
				if len(x) != 1:
					raise Branch('%d constraints for the band [%s, %s]' % (len(x), float(w[0]), float(w[1])))
				lo, hi = [S.SollyaObject(x[0][b])._v for b in ('betaInf', 'betaSup')]
				bad = [h for h in hs if h[1] > hi or h[0] < lo]
				issues.append((x[0], bad))
			if not any(b for _, b in issues):
				# all is well: but the checker may be unable to prove it
				if und[0] and choose(2):
					und[0] -= 1
					ud[0] += 1
					return S.Structure(okay=False, results=[S.Structure(okay=False, issue=[], specification=S.Structure(x)) for x, _ in issues])
				return S.Structure(okay=True, results=[S.Structure(okay=True, issue=[], specification=S.Structure(x)) for x, _ in issues])
			# the bands that fail: each reports a nonempty list of its issues
			results = []
			for x, bad in issues:
				if not bad:
					results.append(S.Structure(okay=True, issue=[], specification=S.Structure(x)))
					continue
				lists = [p for n in range(1, len(bad) + 1) for p in itertools.permutations(bad, n)]
				rep = lists[choose(len(lists))] if len(lists) > 1 else lists[0]
				results.append(S.Structure(okay=False, specification=S.Structure(x), issue=[S.Structure(H=S.Interval(S.SollyaObject(h[0]), S.SollyaObject(h[1])), specification=S.Structure(x), omega=S.SollyaObject(0), omegaFactor=x['omegaFactor']) for h in rep]))
			if und[0] and choose(2):
				und[0] -= 1
				ud[0] += 1
				for y in results:
					y['issue'] = []
			return S.Structure(okay=False, results=results)
		und = [c['und']]
		ud = [0]
		S.Env.reset(checkModulusFilterInSpecification=checker)
		Gabarit.isSollyaRunning = None
		g = Gabarit(Fs, Fb, Ab)
		m = g.findMinimumMargin(F, initMargin=c['init']) if c['init'] else g.findMinimumMargin(F)
		return m, met, log, ud[0]

	# depth-first exploration of all the scripts
	script = []
	n = 0
	while True:
		try:
			m, met, log, ud = play(script)
		except Branch as e:
			r.fail('answers %s: %s' % (script, e))
			break
		n += 1
		r.step(len(log))
		mv = S.SollyaObject(m)._v
		what = 'answers %s' % (script,)
		asked = [x for x in S.Env.calls if x[0] == 'checkModulusFilterInSpecification']
		if not log:
			r.fail('%s: no check' % what)
			break
		# the last check was made with this margin (and accepted: otherwise, 25 checks)
		refused = len(log) == 25 and 4 in c['worst']          # an excess much lower than one ulp of the bound: refused 25 times
		if refused:
			r.outcome('25 refusals')
		elif not verify_question(r, asked[-1][1], F, Fs, Fb, Ab, mv) and r.fails:
			break
		if not refused and not all(S.SollyaObject(d['betaInf'])._v <= h[0] and h[1] <= S.SollyaObject(d['betaSup'])._v for (F1, F2), G, hs in zip(Fb, Ab, H) for d in log[-1] for h in hs if abs(ends(d)[0] - expected(Fs, F1, F2, G, Fr(0))[0]) < Fr(1, 10 ** 9)):
			r.fail('%s: the filter does not fulfil the specification with the margin %s' % (what, float(mv)))
			break
		low = S.rnd(init, 53, S.RU)
		if mv < low:
			r.fail('%s: margin %s lower than the initial one' % (what, float(mv)))
			break
		lim = max(low, need) * (1 + Fr(1, 2 ** 45)) + ud * bump * (1 + Fr(1, 2 ** 40)) + Fr(1, 2 ** 45)
		if mv > lim:
			r.fail('%s: margin %.17g, but %.17g is enough (%d refusals without issue)' % (what, float(mv), float(max(low, need)), ud))
			break
		r.state((c['spec'], tuple(c['worst']), c['init'], tuple(script), str(mv)))
		r.outcome(('checks', len(log), ud))
		# next script
		full = list(script) + [0] * (len(met) - len(script))
		while full and full[-1] + 1 >= met[len(full) - 1]:
			full.pop()
		if not full:
			break
		full[-1] += 1
		script = full
		if n >= 600:         # (never on the unchanged tree)
			r.count('truncated')
			break
	r.count('schedules of answers', n)


def ends(d):
	return [x if isinstance(x, Fr) else S._exact(x) for x in S.SollyaObject(d['Omega'])._ends()]


# ------------------------------------------------------------------ files, absence


def do_paths(c, r):
	"""from any working directory"""
	from fixif.LTI import dTF, dSSmp
	from fixif.LTI.Gabarit import Gabarit, Band
	old = os.getcwd()
	try:
		for d in (env.REPO, os.path.join(env.REPO, 'fixif'), env.SCRATCH, '/'):
			os.chdir(d)
			ans = S.Structure(okay=True, results=[])
			S.Env.reset(checkModulusFilterInSpecification=lambda *a: ans, wcpg=lambda *a: [S.SollyaObject(1)])
			Gabarit.isSollyaRunning = None
			Gabarit(None, [(0, 0.5)], [-20]).check_dTF(dTF([1.], [1., 0.5]))
			r.step()
			Gabarit(None, [(0, 0.5)], [-20]).findMinimumMargin(dTF([1.], [1., 0.5]))
			r.step()
			dSSmp(*[mpm([[0.5]])] * 4).WCPGmp(1e-3)
			r.step()
			names = sorted(set(os.path.basename(p) for p in S.Env.executed))
			if not set(['gabarit.sol', 'wcpg.sol']) <= set(names):
				r.fail('files loaded: %s' % names)
			for p in S.Env.executed:
				if not os.path.isfile(p):
					r.fail('in %s: %s does not exist' % (d, p))
			r.state(d)
			r.outcome(tuple(names))
			# Sollya fails when it loads the file: the next call loads it again
			S.Env.reset(checkModulusFilterInSpecification=lambda *a: ans)
			Gabarit.isSollyaRunning = None
			Band(None, 0, 0.5, -20).sollyaConstraint(0)
			Gabarit(None, [(0, 0.5)], [-20]).check_dTF(dTF([1.], [1., 0.5]))
			r.step()
	finally:
		os.chdir(old)


def _absent_ops():
	import numpy

	def tf():
		from fixif.LTI import dTF
		return dTF([1., 2.], [1., 0.5])

	def gab():
		from fixif.LTI import Gabarit
		return Gabarit(48000, [(0, 9600), (12000, None)], [(0.5, -0.5), -20])

	def ss():
		from fixif.LTI import dSSmp
		return dSSmp(*[mpm([[0.5]])] * 4)

	def fa():
		import fixif.func_aux
		return fixif.func_aux
	return {
		'dTF.to_Sollya': lambda: tf().to_Sollya(),
		'dTFmp.to_Sollya': lambda: tf().to_dTFmp().to_Sollya(),
		'check_dTF': lambda: gab().check_dTF(tf()),
		'findMinimumMargin': lambda: gab().findMinimumMargin(tf()),
		'sollyaConstraint': lambda: gab().bands[0].sollyaConstraint(0),
		'readyToRunWithSollya': lambda: type(gab()).readyToRunWithSollya(),
		'WCPGmp': lambda: ss().WCPGmp(1e-3),
		'simulate_rounded': lambda: ss().simulate_rounded(mpm([[1., 2.]])),
		'mpf_matrix_to_sollya': lambda: fa().mpf_matrix_to_sollya(mpm([[1., 2.]])),
		'MPFMatrix.to_sollya': lambda: fa().MPFMatrix(mpm([[1., 2.]])).to_sollya(),
		'sollya_matrix_to_numpy': lambda: fa().sollya_matrix_to_numpy([1, 2], 1, 2),
	}


ABSENT = _absent_ops()


def do_absent(c, r):
	import fixif.LTI
	from fixif.LTI.Gabarit import Gabarit
	Gabarit.isSollyaRunning = None
	F = fixif.LTI.dTF([1., 2.], [1., 0.5])
	g = Gabarit(48000, [(0, 9600), (12000, None)], [(0.5, -0.5), -20])
	before = (str(g), flat(F.num), flat(F.den))
	for op in c['seq']:
		r.step()
		try:
			x = ABSENT[op]()
			r.fail('%s gives %r without Sollya' % (op, x))
		except (ImportError, ValueError) as e:
			r.outcome((op, type(e).__name__))
		except Exception as e:
			r.fail('%s (after %s): %s: %s' % (op, c['seq'], type(e).__name__, e))
		# on the same objects
		for f in (F.to_Sollya, lambda: g.check_dTF(F)):
			r.step()
			try:
				x = f()
				r.fail('%r without Sollya' % (x,))
			except (ImportError, ValueError):
				pass
	if (str(g), flat(F.num), flat(F.den)) != before:
		r.fail('the objects are modified')
	r.state(tuple(c['seq']))


DO = {'poly': do_poly, 'many': do_many, 'mat': do_mat, 'bad': do_bad, 'wcpg': do_wcpg, 'rounded': do_rounded, 'band': do_band, 'check': do_check, 'margin': do_margin, 'paths': do_paths, 'absent': do_absent}


def run(case, r):
	with world(case['k'] != 'absent'):
		S.Env.reset()
		DO[case['k']](case, r)
	r.count(case['k'])
