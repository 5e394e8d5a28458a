"""Boring reference models in exact rational arithmetic (python Fractions), independent of the code under test."""
from fractions import Fraction
import itertools
import math


def frac(x):
	"""exact value of a python/numpy/mpmath real number; None for inf/nan"""
	if isinstance(x, Fraction):
		return x
	if hasattr(x, '_mpf_'):
		s, m, e, bc = x._mpf_
		if m == 0 and e != 0:
			return None
		v = Fraction(int(m)) * (Fraction(2) ** int(e))
		return -v if s else v
	if hasattr(x, 'dtype') and x.dtype.kind in 'iu':
		return Fraction(int(x))
	if isinstance(x, int):
		return Fraction(x)
	x = float(x)
	if math.isinf(x) or math.isnan(x):
		return None
	return Fraction(x)


def shape(M):
	if hasattr(M, 'rows'):
		return int(M.rows), int(M.cols)
	return tuple(M.shape)


def fmat(M):
	"""list of rows of Fractions for a numpy/mpmath/MPFMatrix matrix"""
	m, n = shape(M)
	return [[frac(M[i, j]) for j in range(n)] for i in range(m)]


def mul(A, B):
	if not A or not B:
		return [[Fraction(0)] * (len(B[0]) if B else 0) for _ in A]
	return [[sum((A[i][k] * B[k][j] for k in range(len(B))), Fraction(0)) for j in range(len(B[0]))] for i in range(len(A))]


def add(A, B):
	return [[a + b for a, b in zip(x, y)] for x, y in zip(A, B)]


def sub(A, B):
	return [[a - b for a, b in zip(x, y)] for x, y in zip(A, B)]


def scal(k, A):
	return [[k * a for a in x] for x in A]


def eye(n):
	return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


def zeros(m, n):
	return [[Fraction(0)] * n for _ in range(m)]


def lowtr_inv(L):
	"""inverse of a unit lower-triangular matrix, by columns"""
	n = len(L)
	X = zeros(n, n)
	for j in range(n):
		for i in range(n):
			X[i][j] = Fraction(int(i == j)) - sum((L[i][k] * X[k][j] for k in range(i)), Fraction(0))
	return X


def polymul(p, q):
	r = [0] * (len(p) + len(q) - 1)
	for i, a in enumerate(p):
		for j, b in enumerate(q):
			r[i + j] = r[i + j] + a * b
	return r


def impulse_tf(num, den, N):
	"""first N samples of the impulse response of num/den (coefficients of z^0, z^-1, ...), exact"""
	num = [Fraction(x) for x in num]
	den = [Fraction(x) for x in den]
	y = []
	for k in range(N):
		v = num[k] if k < len(num) else Fraction(0)
		for i in range(1, min(k, len(den) - 1) + 1):
			v -= den[i] * y[k - i]
		y.append(v / den[0])
	return y


def impulse_ss(A, B, C, D, N):
	"""Markov parameters D, CB, CAB, ... (list of p x q matrices)"""
	out = [D]
	x = B
	for k in range(1, N):
		out.append(mul(C, x) if A else zeros(len(D), len(D[0])))
		x = mul(A, x) if A else x
	return out


def simulate_ss(A, B, C, D, x0, u):
	"""u: list of q-vectors; returns list of p-vectors"""
	x = list(x0)
	ys = []
	for v in u:
		y = [sum((C[i][j] * x[j] for j in range(len(x))), Fraction(0)) + sum((D[i][j] * v[j] for j in range(len(v))), Fraction(0)) for i in range(len(D))]
		ys.append(y)
		x = [sum((A[i][j] * x[j] for j in range(len(x))), Fraction(0)) + sum((B[i][j] * v[j] for j in range(len(v))), Fraction(0)) for i in range(len(x))]
	return ys


def close(a, b, rtol=1e-9, atol=1e-12):
	a, b = float(a), float(b)
	if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
		return False
	return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def closemat(A, B, rtol=1e-9, atol=1e-12):
	"""elementwise closeness of two list-of-lists / matrices, relative to the largest element"""
	A = A if isinstance(A, list) else fmat(A)
	B = B if isinstance(B, list) else fmat(B)
	if len(A) != len(B) or any(len(x) != len(y) for x, y in zip(A, B)):
		return False
	if any(v is None for x in A for v in x) or any(v is None for x in B for v in x):
		return False
	s = max([abs(v) for x in A + B for v in x] + [0])
	tol = atol + rtol * float(s)
	return all(abs(float(a - b)) <= tol for x, y in zip(A, B) for a, b in zip(x, y))


def _g(v):
	if v is None:
		return 'nan'
	try:
		return '%g' % float(v)
	except OverflowError:
		return '2**%d' % (v.numerator.bit_length() - v.denominator.bit_length())


def show(A):
	if isinstance(A, list):
		return '[' + '; '.join(' '.join(_g(v) for v in r) for r in A) + ']'
	return str(A)


def products(alphabet, n):
	return itertools.product(alphabet, repeat=n)
