"""C09: multiprecision state-space systems: exact algebra, exact and rounded simulation."""
from mc import ref
from mc.systems import ss_pool, ss_big, ss_mag
from fractions import Fraction as Fr
import itertools
import numpy
import mpmath
from mpmath import mp

ID = 'C09'
LEVEL = 'model_checking'
RULE = 'all pairs of a pool under + and - (mixed with double precision systems), and step-by-step simulation of every system from every initial state of an alphabet under every input sequence over an alphabet (state = exact state vector, transition = one sample)'
BOUNDS = {'quick': 'n<=3, p,q<=2, input alphabet of 3 vectors, sequences of 4 samples, 4 initial states, precisions 53/20/200', 'thorough': 'n<=4, p,q<=3, input alphabet of 4 vectors, sequences of 5 samples, precisions 53/2/20/200/1000'}
ASSUMPTIONS = ['mpmath numbers are read through their (sign, mantissa, exponent) triple', 'rounding to double is to nearest, ties to even, in the normal range']


def cases(tier):
	q = tier == 'quick'
	sizes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (3, 1, 2), (1, 1, 2)] + ([] if q else [(3, 2, 2), (4, 1, 1), (2, 3, 1), (2, 1, 3)])
	precs = (53, 20, 200) if q else (53, 2, 20, 200, 1000)
	P = ss_pool(sizes, ['dense', 'jordan', 'sparse', 'nilpotent'])
	for prec in precs:
		for s in ss_big():
			yield dict(k='pair', s=s, big=1, prec=prec, fine=1)
			for exact in (1, 0):
				for x0 in (0, 3, 4):
					yield dict(k='sim', s=s, prec=prec, fine=1, exact=exact, x0=x0, T=3, nu=2)
		for s in extreme():
			fine = int(prec != 20)
			yield dict(k='pair', s=s, mag=1, prec=prec, fine=fine)
			for exact in (1, 0):
				for x0 in (0, 4):
					yield dict(k='sim', s=s, prec=prec, fine=fine, exact=exact, x0=x0, T=3, nu=3)
		for s in P:
			for fine in (0, 1):
				yield dict(k='pair', s=s, sizes=sizes, prec=prec, fine=fine)
				for exact in (1, 0):
					for x0 in range(5):
						yield dict(k='sim', s=s, prec=prec, fine=fine, exact=exact, x0=x0, T=4 if q else 5, nu=3 if q else 4)


def extreme():
	"""coefficients of very different magnitudes"""
	e = lambda k: 2. ** k
	return ss_mag() + [('far-1-1-1', [[e(-250)]], [[e(260)]], [[-e(200)]], [[e(-400)]]), ('far2-1-1-1', [[0.5]], [[e(-300)]], [[e(100)]], [[3 * e(390)]]),
	                   ('far3-2-1-1', [[0., e(200)], [e(-210), 0.25]], [[e(-300)], [1.]], [[e(250), e(-20)]], [[1.]])]


def refine(M, fine, salt):
	"""exact matrix; fine: coefficients with 100 significant bits"""
	out = []
	for i, row in enumerate(M):
		out.append([])
		for j, v in enumerate(row):
			v = Fr(v)
			if fine and v:
				v = v + Fr(3 ** (20 + i) + 2 * j + 1) / Fr(2) ** (95 + salt)
			out[-1].append(v)
	return out


def mpm(F):
	M = mpmath.matrix(len(F), len(F[0]))
	for i, row in enumerate(F):
		for j, v in enumerate(row):
			M[i, j] = mp.make_mpf(mpmath.libmp.from_man_exp(v.numerator, -(v.denominator.bit_length() - 1)))
	return M


def system(S, fine, salt):
	from fixif.LTI import dSSmp
	Fs = [refine(m, fine, salt) for m in S]
	return dSSmp(*[mpm(m) for m in Fs]), Fs


def blocks(X):
	return [ref.fmat(X.A), ref.fmat(X.B), ref.fmat(X.C), ref.fmat(X.D)]


def same_io(r, what, X, want):
	got = ref.impulse_ss(*(blocks(X) + [len(want)]))
	r.step()
	r.state(blocks(X))
	if got != want:
		k = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
		r.fail('%s is not exact: Markov parameters %s differ, error %s' % (what, k, ref.show(ref.sub(got[k[0]], want[k[0]])) if k else got))


def run(c, r):
	from fixif.LTI import dSS
	old = mp.prec
	try:
		mp.prec = c['prec']
		name, S = c['s'][0], c['s'][1:]
		if c['k'] == 'pair':
			X, FX = system(S, c['fine'], 0)
			for t in (ss_big() if 'big' in c else extreme() if 'mag' in c else ss_pool(c['sizes'], ['dense', 'jordan', 'sparse', 'nilpotent'])):
				T = t[1:]
				if (len(T[3]), len(T[3][0])) != (len(S[3]), len(S[3][0])):
					continue
				Y, FY = system(T, c['fine'], 7)
				N = len(S[0]) + len(T[0]) + 3
				for o, sgn in (('+', 1), ('-', -1)):
					h = ref.impulse_ss(*(FX + [N]))
					g = ref.impulse_ss(*(FY + [N]))
					w = [ref.add(a, ref.scal(Fr(sgn), b)) for a, b in zip(h, g)]
					same_io(r, '%s %s %s at working precision %d' % (name, o, t[0], c['prec']), X + Y if sgn == 1 else X - Y, w)
					if not c['fine']:
						Z = dSS(*[numpy.matrix(m) for m in T])
						same_io(r, '%s %s double precision %s' % (name, o, t[0]), X + Z if sgn == 1 else X - Z, w)
				if blocks(X) != FX or blocks(Y) != FY:
					r.fail('%s +/- %s modifies its operands' % (name, t[0]))
			if mp.prec != c['prec']:
				r.fail('working precision changed')
			return
		X, FX = system(S, c['fine'], 0)
		A, B, C, D = FX
		n, q = len(A), len(D[0])
		wide = Fr(3) ** 40 / Fr(2) ** 70
		x0 = [None, [Fr(0)] * n, [Fr(i + 1) for i in range(n)], [Fr((-1) ** i * (2 * i + 1), 8) for i in range(n)], [wide * (i + 1) for i in range(n)]][c['x0']]
		ual = [[Fr(0)] * q, [Fr(1)] + [Fr(-2)] * (q - 1), [Fr(-3, 4)] + [Fr(5)] * (q - 1), [wide] * q][:c['nu']]
		for seq in itertools.product(ual, repeat=c['T']):
			U = [[seq[t][j] for t in range(c['T'])] for j in range(q)]
			mats = [mpm(U)]
			if all(v.denominator.bit_length() < 50 and abs(v.numerator) < 2 ** 50 for row in U for v in row):
				mats.append(numpy.matrix([[float(v) for v in row] for row in U]))
			x = list(x0) if x0 is not None else [Fr(0)] * n
			want = []
			for v in seq:
				want.append([sum((C[i][j] * x[j] for j in range(n)), Fr(0)) + sum((D[i][j] * v[j] for j in range(q)), Fr(0)) for i in range(len(C))])
				x = [sum((A[i][j] * x[j] for j in range(n)), Fr(0)) + sum((B[i][j] * v[j] for j in range(q)), Fr(0)) for i in range(n)]
				if not c['exact']:
					x = [Fr(y.numerator / y.denominator) for y in x]
				r.state((name, c['fine'], c['exact'], x))
				r.step()
			for M in mats:
				kw = {}
				if not c['exact']:
					kw['exact'] = False
				x0s = [None] if x0 is None else [mpm([[v] for v in x0])]
				if x0 is not None and c['x0'] != 4:
					x0s.append(numpy.matrix([[float(v)] for v in x0]))
				for xx in x0s:
					if xx is not None:
						kw['x0'] = xx
					Y = X.simulate(M, **kw)
					got = ref.fmat(Y)
					w = [[want[t][i] for t in range(c['T'])] for i in range(len(C))]
					if got != w:
						r.fail('simulate(%s) of %s, x0=%s, input %s (%s), working precision %d: %s instead of %s' % (
							kw.get('exact', True), name, x0 and [float(v) for v in x0], ref.show(U), type(M).__name__, c['prec'], ref.show(got), ref.show(w)))
					if xx is not None and ref.fmat(xx) != [[v] for v in x0]:
						r.fail('simulate modifies the initial state it is given')
			r.outcome(ref.show([x]))
		if blocks(X) != FX:
			r.fail('simulate modifies the system')
	finally:
		mp.prec = old
