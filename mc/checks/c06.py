"""C06: any chain of conversions between system representations keeps the input/output behaviour."""
from mc import ref
from mc.systems import ss_pool, tf_pool, tf_big, ss_big, tf_mag, ss_mag, mag
from fractions import Fraction as Fr
import numpy
import mpmath
from mpmath import mp

ID = 'C06'
LEVEL = 'model_checking'
RULE = 'breadth-first search over conversion sequences: state = (representation, coefficients), transition = one conversion; from every system of a pool, in every representation, at every ambient precision'
BOUNDS = {'quick': 'orders 1..3 (4 tagged), chains of up to 4 conversions, precisions 53/20/200; exponents spread over the coefficients of one system, normalized multiple precision functions', 'thorough': 'orders 1..5, chains of up to 6 conversions, precisions 53/2/20/200/1000'}
ASSUMPTIONS = ['conversions in double precision are compared on the first 2n+4 samples of the impulse response with tolerance 1e-6 (chains of floating-point conversions), the multiprecision ones exactly or to the requested precision']


def cases(tier):
	q = tier == 'quick'
	depth = 4 if q else 6
	for prec in ((53, 20, 200) if q else (53, 2, 20, 200, 1000)):
		for name, num, den in tf_pool((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
			for kind in ('dTF', 'dTFmp'):
				yield dict(k=kind, name=name, num=num, den=den, prec=prec, depth=depth)
		for name, A, B, C, D in ss_pool([(n, 1, 1) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]):
			for kind in ('dSS', 'dSSmp'):
				yield dict(k=kind, name=name, S=[A, B, C, D], prec=prec, depth=depth)
		for name, A, B, C, D in ss_pool([(1, 2, 1), (1, 1, 2), (2, 2, 2), (2, 1, 3), (3, 2, 1)]):
			for kind in ('dSS', 'dSSmp'):
				yield dict(k=kind, name=name, S=[A, B, C, D], prec=prec, depth=depth)
		for name, num, den in tf_mag():
			for kind in ('dTF', 'dTFmp'):
				yield dict(k=kind, name=name, num=num, den=den, prec=prec, depth=3 if q else 4)
		for name, A, B, C, D in ss_mag():
			for kind in ('dSS', 'dSSmp'):
				yield dict(k=kind, name=name, S=[A, B, C, D], prec=prec, depth=3 if q else 4)
		for name, num, den in tf_big():
			for kind in ('dTF', 'dTFmp'):
				yield dict(k=kind, name=name, num=num, den=den, prec=prec, depth=2 if q else 3)
		for name, A, B, C, D in ss_big():
			for kind in ('dSS', 'dSSmp'):
				yield dict(k=kind, name=name, S=[A, B, C, D], prec=prec, depth=2 if q else 3)
		for name, num, den in tf_pool((1, 2, 3)):
			yield dict(k='norm', name=name, num=num, den=den, prec=prec)
		yield dict(k='mpexact', prec=prec)
		yield dict(k='normmp', prec=prec)
	for name, num, den in tf_pool((1, 2, 3, 4)):
		yield dict(k='scipy', name=name, num=num, den=den)


def kind(X):
	return type(X).__name__


def moves(X):
	k = kind(X)
	siso = k in ('dTF', 'dTFmp') or (X.p == 1 and X.q == 1)
	if k == 'dTF':
		return [('to_dSS(ctrl)', lambda: X.to_dSS('ctrl')), ('to_dSS(obs)', lambda: X.to_dSS('obs')), ('to_dSS()', lambda: X.to_dSS()), ('to_dTFmp', X.to_dTFmp)]
	if k == 'dTFmp':
		return [('to_dTF', X.to_dTF), ('to_dSSmp', X.to_dSSmp)]
	if k == 'dSS':
		return [('to_dSSmp', X.to_dSSmp)] + ([('to_dTF', X.to_dTF)] if siso else [])
	return [('to_dSS', X.to_dSS)] + ([('to_dTFmp()', X.to_dTFmp), ('to_dTFmp(53)', lambda: X.to_dTFmp(53)), ('to_dTFmp(200)', lambda: X.to_dTFmp(prec=200))] if siso else [])


def impulse(X, N):
	"""list of p x q matrices of Fractions"""
	if kind(X) in ('dTF', 'dTFmp'):
		f = lambda M: [ref.frac(M[i, j]) for i in range(ref.shape(M)[0]) for j in range(ref.shape(M)[1])]
		return [[[v]] for v in ref.impulse_tf(f(X.num), f(X.den), N)]
	return ref.impulse_ss(ref.fmat(X.A), ref.fmat(X.B), ref.fmat(X.C), ref.fmat(X.D), N)


def key(X):
	if kind(X) in ('dTF', 'dTFmp'):
		return (kind(X), ref.fmat(X.num), ref.fmat(X.den))
	return (kind(X), ref.fmat(X.A), ref.fmat(X.B), ref.fmat(X.C), ref.fmat(X.D))


def rkey(X, tiny=False):
	"""the same up to rounding errors: bounds the floating-point chains"""
	k = key(X)
	return repr((k[0],) + tuple(tuple(tuple('%.6g' % (float(v) + 0.) if tiny or abs(float(v)) > 1e-9 else '0' for v in row) for row in M) for M in k[1:]))


def tight(a, b, top, rel, absolute):
	return len(a) == len(b) and all(len(x) == len(y) and all(abs(v - w) <= rel * t + absolute for v, w, t in zip(x, y, z)) for x, y, z in zip(a, b, top))


def sizes(X):
	if kind(X) in ('dTF', 'dTFmp'):
		return X.order, 1, 1
	return X.n, X.p, X.q


def explore(c, r, X0, h0, N):
	depth = c['depth']
	seen = {rkey(X0, mag(c['name']))}
	mg = mag(c['name'])
	# largest sample, for every output and input
	top = [[max(abs(m[i][j]) for m in h0) for j in range(len(h0[0][0]))] for i in range(len(h0[0]))]
	frontier = [(X0, (kind(X0),), False)]
	for d in range(depth):
		nxt = []
		for X, path, loose in frontier:
			k0, s0 = key(X), sizes(X)
			for name, f in moves(X):
				Y = f()
				p2 = path + (name,)
				r.step()
				hy = impulse(Y, N)
				if mp.prec != c['prec']:
					r.fail('%s changes the working precision from %d to %d' % (' -> '.join(p2), c['prec'], mp.prec))
					mp.prec = c['prec']
				if key(X) != k0:
					r.fail('%s modified its object' % ' -> '.join(p2))
				if sizes(Y) != s0:
					r.fail('%s: (order, outputs, inputs) goes from %s to %s' % (' -> '.join(p2), s0, sizes(Y)))
				hx = impulse(X, N)
				exact = name in ('to_dTFmp', 'to_dSSmp')
				if exact and hx != hy:
					r.fail('%s is not exact: impulse response %s instead of %s' % (' -> '.join(p2), [float(v[0][0]) for v in hy], [float(v[0][0]) for v in hx]))
				# only the conversion of a dSS to a dTF loses accuracy (it goes through eigenvalues); the other ones round a few times
				lo = loose or (name == 'to_dTF' and kind(X) == 'dSS')
				for a, b in zip(h0, hy):
					if not (ref.closemat(a, b, 1e-6, 1e-7) if not mg else tight(a, b, top, 1e-9 if lo else 2e-14, 1e-14 if lo else 0)):
						r.fail('%s: impulse response %s instead of %s' % (' -> '.join(p2), [[ref.show(v)] for v in hy], [[ref.show(v)] for v in h0]))
						break
				r.state(key(Y))
				rk = rkey(Y, mg)
				if rk not in seen:
					seen.add(rk)
					nxt.append((Y, p2, lo))
		frontier = nxt
	r.outcome([ref.show(v) for v in h0])


def mpm(F):
	M = mpmath.matrix(len(F), len(F[0]))
	for i, row in enumerate(F):
		for j, v in enumerate(row):
			M[i, j] = mp.make_mpf(mpmath.libmp.from_man_exp(Fr(v).numerator, -(Fr(v).denominator.bit_length() - 1)))
	return M


def run(c, r):
	from fixif.LTI import dTF, dTFmp, dSS, dSSmp
	old = mp.prec
	try:
		mp.prec = c.get('prec', 53)
		k = c['k']
		if k in ('dTF', 'dTFmp'):
			n = len(c['den']) - 1
			N = 2 * n + 4
			h0 = [[[v]] for v in ref.impulse_tf(c['num'], c['den'], N)]
			if k == 'dTF':
				X = dTF(list(c['num']), list(c['den']))
			else:
				X = dTFmp(mpm([[v] for v in c['num']]), mpm([[v] for v in c['den']]))
			if impulse(X, N) != h0:
				r.fail('%s(%s, %s) has the impulse response %s' % (k, c['num'], c['den'], impulse(X, N)))
			explore(c, r, X, h0, N)
		elif k in ('dSS', 'dSSmp'):
			M = c['S']
			N = 2 * len(M[0]) + 4
			h0 = ref.impulse_ss(*([[[Fr(v) for v in row] for row in m] for m in M] + [N]))
			X = dSS(*[numpy.matrix(m) for m in M]) if k == 'dSS' else dSSmp(*[mpm(m) for m in M])
			explore(c, r, X, h0, N)
		elif k == 'norm':
			# dTFmp normalises any leading coefficient, to (at least) the working precision, without touching its arguments
			for a0 in (Fr(3), Fr(-1, 2), Fr(7, 4), Fr(1), Fr(1) + Fr(1, 2 ** 34), Fr(1) - Fr(1, 2 ** 36), Fr(-1), Fr(2) ** 70, Fr(3, 2 ** 70)):
				num, den = [Fr(v) for v in c['num']], [a0 * Fr(v) for v in c['den']]
				for row in (0, 1):
					b = mpm([num] if row else [[v] for v in num])
					a = mpm([den] if row else [[v] for v in den])
					X = dTFmp(b, a)
					r.step()
					r.state(('norm', num, den, row, c['prec']))
					tol = Fr(2) ** -(max(c['prec'], 53) - 8)
					want = ref.impulse_tf(num, den, 8)
					got = [v[0][0] for v in impulse(X, 8)]
					s = max(abs(v) for v in want) + 1
					if any(abs(g - w) > tol * s * 64 for g, w in zip(got, want)):
						r.fail('dTFmp(%s, %s): impulse response %s instead of %s' % (num, den, [float(v) for v in got], [float(v) for v in want]))
					if ref.frac(X.den[0, 0]) != 1:
						r.fail('dTFmp denominator is not normalised')
					if ref.fmat(b) != ([num] if row else [[v] for v in num]) or ref.fmat(a) != ([den] if row else [[v] for v in den]):
						r.fail('dTFmp modified its arguments')
		elif k == 'normmp':
			# leading coefficients that are nearly 1, coefficients of very different lengths: no coefficient loses the digits it has
			long = [Fr(3) ** 200 / Fr(2) ** 317, Fr(-(3 ** 150)) / Fr(2) ** 240, Fr(5) ** 90 / Fr(2) ** 210]
			short = [Fr(3, 4), Fr(-5, 8), Fr(1, 2)]
			for a0 in (Fr(3), Fr(-7, 4), Fr(1) + Fr(1, 2 ** 52), Fr(1) - Fr(1, 2 ** 60), Fr(1) + Fr(1, 2 ** 300), Fr(3) ** 200 / Fr(2) ** 317, Fr(-1) + Fr(1, 2 ** 53)):
				for n in (1, 2, 3):
					for bn in (long, short):
						for bd in (long, short):
							num = [bn[i % 3] for i in range(n + 1)]
							den = [a0] + [bd[i % 3] for i in range(n)]
							X = dTFmp(mpm([[v] for v in num]), mpm([[v] for v in den]))
							r.step()
							r.state((num, den))
							if mp.prec != c['prec']:
								r.fail('dTFmp changes the working precision')
								mp.prec = c['prec']
							if ref.frac(X.den[0, 0]) != 1:
								r.fail('dTFmp: a leading coefficient %s is not normalised' % float(a0))
							for nm, P, want in (('num', X.num, num), ('den', X.den, den)):
								for i, v in enumerate(want):
									bits = max(c['prec'], abs(v.numerator).bit_length())
									if abs(ref.frac(P[i, 0]) - v / a0) > abs(v / a0) * Fr(2) ** -(bits - 1):
										r.fail('dTFmp: %s[%d] divided by the leading coefficient %s has less than %d bits right (working precision %d)' % (nm, i, float(a0), bits, c['prec']))
		elif k == 'mpexact':
			# exponents far apart
			for lo, hi in ((-200, 200), (-500, 3), (2, 700)):
				for n in (2, 3):
					A = [[Fr(3) * Fr(2) ** (lo if (i + j) % 2 else hi) if i == j else Fr(2) ** (lo if i < j else hi if lo == 2 else 0) for j in range(n)] for i in range(n)]
					A[n - 1][n - 1] = Fr(5) * Fr(2) ** lo
					M = [A, [[Fr(2) ** lo] for i in range(n)], [[Fr(1)] * n], [[Fr(7) * Fr(2) ** hi]]]
					S = dSSmp(*[mpm(m) for m in M])
					h0 = ref.impulse_ss(*(M + [2 * n + 3]))
					Y = S.to_dTFmp(prec=20000)
					r.step()
					r.state((lo, hi, n))
					if impulse(Y, 2 * n + 3) != h0 or impulse(Y.to_dSSmp(), 2 * n + 3) != h0:
						r.fail('dSSmp.to_dTFmp is not exact with exponents %d and %d, order %d (working precision %d)' % (lo, hi, n, c['prec']))
			# coefficients with more digits than the working precision go through unchanged
			w = [Fr(3) ** 200 / Fr(2) ** 317, Fr(-(3 ** 150)) / Fr(2) ** 240, Fr(5) ** 90 / Fr(2) ** 210, Fr(7) ** 61 / Fr(2) ** 173]
			for n in (1, 2, 3):
				num = [w[i % 4] for i in range(n + 1)]
				den = [Fr(1)] + [w[(i + 1) % 4] for i in range(n)]
				N = 2 * n + 3
				X = dTFmp(mpm([[v] for v in num]), mpm([[v] for v in den]))
				S = X.to_dSSmp()
				h0 = ref.impulse_tf(num, den, N)
				r.step(2)
				r.state((num, den))
				if [v[0][0] for v in impulse(X, N)] != h0 or [v[0][0] for v in impulse(S, N)] != h0:
					r.fail('order %d: dTFmp / dTFmp.to_dSSmp is not exact at working precision %d' % (n, c['prec']))
				for prec in (24, 53, 64, 128, 500, 5000):
					Y = S.to_dTFmp(prec=prec) if prec != 64 else S.to_dTFmp()
					r.step()
					wn, wd = num, den
					for got, want, nm in ((Y.num, wn, 'num'), (Y.den, wd, 'den')):
						for i, v in enumerate(want):
							if abs(ref.frac(got[i, 0]) - v) > abs(v) * Fr(2) ** -(prec - 1):
								r.fail('dSSmp.to_dTFmp(%d): %s[%d] has less than %d bits right (working precision %d)' % (prec, nm, i, prec, c['prec']))
					if mp.prec != c['prec']:
						r.fail('to_dTFmp(%d) changes the working precision' % prec)
						mp.prec = c['prec']
				F = S.to_dSS()
				for a, b in ((F.A, S.A), (F.B, S.B), (F.C, S.C), (F.D, S.D)):
					if a.tolist() != [[v.numerator / v.denominator for v in row] for row in ref.fmat(b)]:
						r.fail('dSSmp.to_dSS does not round to nearest')
		elif k == 'scipy':
			H = dTF(list(c['num']), list(c['den']))
			T = H.toTransferFunction()
			r.step()
			r.state((c['num'], c['den']))
			n, d = [Fr(float(v)) for v in numpy.atleast_1d(T.num)], [Fr(float(v)) for v in numpy.atleast_1d(T.den)]
			# polynomials in z: complete on the left
			n = [Fr(0)] * (len(d) - len(n)) + n
			if not all(ref.close(a, b) for a, b in zip(ref.impulse_tf(n, d, 12), ref.impulse_tf(c['num'], c['den'], 12))):
				r.fail('toTransferFunction of %s/%s gives %s/%s' % (c['num'], c['den'], T.num, T.den))
	finally:
		mp.prec = old
