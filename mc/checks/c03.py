"""C03: conversions between number systems keep (or correctly round) every value."""
from mc import ref
from fractions import Fraction
import io
import numpy
import mpmath
from mpmath import mp

ID = 'C03'
LEVEL = 'exploration'
RULE = 'every value of a boundary alphabet (all combinations of sign, significand pattern and exponent) at every position of every matrix shape, in every ambient precision, through every conversion'
BOUNDS = {'quick': '2 signs x 9 significands x 23 exponents, shapes up to 3x3, precisions 20/53/200', 'thorough': '2 signs x 14 significands x 60 exponents, shapes up to 4x4, precisions 2/20/53/200/1000'}
ASSUMPTIONS = ['values rounded to double lie in the normal range', 'mpmath numbers are read through their (sign, mantissa, exponent) triple']

SIG = [1, 3, 5, (1 << 52) + 1, (1 << 53) - 1, 0x15555555555555, 0x1999999999999A, (1 << 31) + 1, 12345678901234567 & ((1 << 53) - 1)]
BIG = [(1 << 53) + 1, (1 << 54) - 1, (1 << 54) + 1, (1 << 54) + 2, (1 << 54) + 3, (3 << 53) + 1, (1 << 60) + 127, (1 << 120) + 1, 3 ** 80, (1 << 53) * 2 + 1, (1 << 54) + (1 << 1), (1 << 55) + 6, (1 << 55) - 2, (1 << 200) + (1 << 147), (1 << 200) + (1 << 147) + 1, 3 ** 700, (1 << 1099) + (1 << 1046), (1 << 1099) + (1 << 1046) + 1]
EXPQ = [0, 1, -1, 2, -2, 10, -10, 52, -52, 53, -53, 54, -54, 100, -100, 300, -300, 700, -700, 800, -900, -52 - 20, 20]


def cases(tier):
	precs = (53, 20, 200) if tier == 'quick' else (53, 2, 20, 200, 1000)
	sh = range(1, 4) if tier == 'quick' else range(1, 5)
	for prec in precs:
		for m in sh:
			for n in sh:
				for what in ('p2m', 'p2m_int', 'm2n', 'rep', 'MPF', 'real', 'hex'):
					yield dict(w=what, m=m, n=n, prec=prec, deep=int(tier != 'quick'))
		yield dict(w='scalar', prec=prec, deep=int(tier != 'quick'))


def mkmp(v):
	return mp.make_mpf(mpmath.libmp.from_man_exp(v.numerator, -(v.denominator.bit_length() - 1)))


def values(deep, big):
	exps = EXPQ + (list(range(-30, 31, 2)) if deep else [])
	out = [Fraction(0)]
	for e in exps:
		for s in SIG + (BIG if big else []):
			v = Fraction(s) * Fraction(2) ** e
			if s.bit_length() + e > 1023 or s.bit_length() + e < -1000:
				continue
			out.append(v)
			out.append(-v)
	return out


def tofloat(v):
	"""correctly rounded to nearest even"""
	return v.numerator / v.denominator


def fill(vals, m, n):
	"""every value appears at every position: cyclic shifts of the value list"""
	k = m * n
	N = len(vals)
	for s in range(0, N):
		yield [[vals[(s + i * n + j) % N] for j in range(n)] for i in range(m)]


def run(c, r):
	import fixif.func_aux as fa
	old = mp.prec
	mp.prec = c['prec']
	try:
		w = c['w']
		if w == 'scalar':
			for v in values(c['deep'], True):
				x = mkmp(v)
				y, e = fa.mpf_get_representation(x)
				r.step(2)
				r.state(('scalar', v))
				if Fraction(int(y)) * Fraction(2) ** int(e) != v:
					r.fail('representation of %s: %s*2**%s' % (v, y, e))
				if fa.mpf_to_numpy(x) != tofloat(v):
					r.fail('mpf_to_numpy(%s) = %r instead of %r' % (x, fa.mpf_to_numpy(x), tofloat(v)))
			return
		m, n = c['m'], c['n']
		if w == 'p2m_int':
			for dt in ('int64', 'int32', 'uint8'):
				info = numpy.iinfo(dt)
				vals = [0, 1, 2, 3, 7, 100, info.max, info.max - 1, info.min, info.max // 2 + 1, info.max // 3]
				for F in fill(vals, m, n):
					X = fa.python2mpf_matrix(numpy.matrix(F, dtype=dt))
					r.step()
					r.state((w, dt, F))
					if ref.fmat(X) != [[Fraction(v) for v in x] for x in F]:
						r.fail('python2mpf_matrix of the %s matrix %s gives %s' % (dt, F, X))
			return
		for F in fill(values(c['deep'], w in ('m2n', 'rep', 'MPF', 'real')), m, n):
			r.step()
			r.state((w, F))
			if w == 'p2m':
				M = numpy.matrix([[float(v) for v in x] for x in F])
				X = fa.python2mpf_matrix(M)
				if ref.fmat(X) != F:
					r.fail('python2mpf_matrix(%s) = %s' % (M.tolist(), X))
				if fa.mpf_to_numpy(X).tolist() != M.tolist():
					r.fail('numpy -> mpmath -> numpy changes %s into %s' % (M.tolist(), fa.mpf_to_numpy(X).tolist()))
				Y = fa.MPFMatrix(M)
				if ref.fmat(Y) != F or Y.to_numpy().tolist() != M.tolist():
					r.fail('MPFMatrix(%s) = %s' % (M.tolist(), Y))
				if M.tolist() != [[float(v) for v in x] for x in F]:
					r.fail('conversion modified its argument')
				continue
			if w == 'hex':
				M = numpy.matrix([[float(v) for v in x] for x in F])
				f = io.StringIO()
				fa.write_matrix_hex(f, M, ' ')
				got = [[float.fromhex(t) for t in l.split()] for l in f.getvalue().splitlines() if l.strip()]
				if got != M.tolist():
					r.fail('write_matrix_hex(%s) is read back as %s' % (M.tolist(), got))
				continue
			X = mpmath.matrix(m, n)
			for i in range(m):
				for j in range(n):
					X[i, j] = mkmp(F[i][j])
			if w == 'm2n':
				want = [[tofloat(v) for v in x] for x in F]
				if fa.mpf_to_numpy(X).tolist() != want:
					r.fail('mpf_to_numpy(%s) = %s instead of %s' % (X, fa.mpf_to_numpy(X).tolist(), want))
			elif w == 'rep':
				Y, N = fa.mpf_matrix_get_representation(X)
				if [[Fraction(int(Y[i, j])) * Fraction(2) ** int(N[i, j]) for j in range(n)] for i in range(m)] != F:
					r.fail('integer representation of %s is %s, %s' % (X, Y, N))
			elif w == 'MPF':
				P = fa.MPFMatrix(X)
				Y, N = P.get_int_representation()
				if [[Fraction(int(Y[i, j])) * Fraction(2) ** int(N[i, j]) for j in range(n)] for i in range(m)] != F:
					r.fail('integer representation of MPFMatrix %s is %s, %s' % (X, Y, N))
				if P.to_numpy().tolist() != [[tofloat(v) for v in x] for x in F]:
					r.fail('MPFMatrix.to_numpy(%s) = %s' % (X, P.to_numpy()))
				if P.shape != (m, n):
					r.fail('shape of a %dx%d MPFMatrix is %s' % (m, n, P.shape))
				if not P.equal(X):
					r.fail('a MPFMatrix is not equal to the matrix it is made of: %s' % X)
				# and differs when any one entry is changed
				for i in range(m):
					for j in range(n):
						Z = X.copy()
						Z[i, j] = mkmp(F[i][j] + Fraction(2) ** -1000)
						if P.equal(Z):
							r.fail('MPFMatrix.equal ignores a difference at (%d,%d)' % (i, j))
				X[0, 0] = mkmp(F[0][0] + 1)
				if ref.fmat(P) != F:
					r.fail('a MPFMatrix changes when the matrix it is made of is modified')
			elif w == 'real':
				Z = mpmath.matrix(m, n)
				for i in range(m):
					for j in range(n):
						Z[i, j] = mp.make_mpc((X[i, j]._mpf_, mkmp(F[j % m][i % n] + 3)._mpf_))
				if ref.fmat(fa.mpc_get_real(Z)) != F:
					r.fail('real part of %s: %s' % (Z, fa.mpc_get_real(Z)))
			r.outcome(w)
	finally:
		mp.prec = old
