"""C25: multiprecision matrix objects: rounded operators, comparisons, independence."""
from mc import ref
from mc.checks.c01 import FAM as ALLFAM, value, tomp, tonp, exact
from fractions import Fraction as Fr
import itertools
import mpmath
from mpmath import mp
import numpy

ID = 'C25'
LEVEL = 'model_checking'
RULE = 'every operator x operand kinds x shapes x working precision x value family, and every assignment of an alphabet to small shapes, against rational arithmetic rounded at the working precision; every chain of operators (state = exact values of the object, transition = one operator) with the source matrices modified after each step; comparisons of every pair of matrices that differ in one entry, by every amount of an alphabet'
BOUNDS = {'quick': 'dimensions 1..3, precisions 20/53/200 bits, 6 families, 6-value alphabet on 4 entries; chains of 3 operators over 2x2 matrices; 8 differences x 5 thresholds in every place of shapes up to 3x3', 'thorough': 'dimensions 1..4, precisions 2/20/53/200/1000, 8-value alphabet, chains of 4 operators'}
ASSUMPTIONS = ['errors of the rounded operators: one unit of the working precision relatively to the sum of the absolute values of the operands (k+1 units for a product of k terms); mpmath may round an operand before a subtraction']
CHUNK = 4
FAM = [f for f in ALLFAM if f != 'huge']
KINDS = ('MPF', 'mp', 'np', 'nd')


def cases(tier):
	q = tier == 'quick'
	D = [1, 2, 3] if q else [1, 2, 3, 4]
	precs = (53, 20, 200) if q else (53, 2, 20, 200, 1000)
	for op in ('add', 'sub', 'mul'):
		for kb in KINDS:
			for prec in precs:
				for fam in FAM:
					yield dict(k='op', op=op, kb=kb, prec=prec, fam=fam, dims=D)
				yield dict(k='op', op=op, kb=kb, prec=prec, fam=FAM[precs.index(prec) % len(FAM)], dims=[1, 11, 12])
				yield dict(k='alphabet', op=op, kb=kb, prec=prec, wide=int(not q))
	for prec in precs:
		for kind in KINDS:
			if prec > 8:  # (with less bits the thresholds mean nothing)
				yield dict(k='cmp', prec=prec, kind=kind, dims=D)
			for op in ('add', 'sub', 'mul'):
				yield dict(k='chain', prec=prec, kind=kind, first=op, depth=3 if q else 4)
	yield dict(k='refuse')


def build(kind, F):
	from fixif.func_aux import MPFMatrix
	if kind == 'mp':
		return tomp(F)
	if kind == 'MPF':
		return MPFMatrix(tomp(F))
	return tonp(F) if kind == 'np' else numpy.array([[float(v) for v in r] for r in F])


def apply(op, A, B):
	return A + B if op == 'add' else A - B if op == 'sub' else A * B


def close(op, FA, FB, got, prec):
	"""is the result the one of the operator, rounded at this precision"""
	want = dict(add=ref.add, sub=ref.sub, mul=ref.mul)[op](FA, FB)
	if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
		return False
	for i, row in enumerate(want):
		for j, v in enumerate(row):
			tol = abs(FA[i][j]) + abs(FB[i][j]) if op != 'mul' else sum((abs(FA[i][k] * FB[k][j]) for k in range(len(FB))), Fr(0)) * (len(FB) + 1)
			if abs(got[i][j] - v) > tol * Fr(2) ** (1 - prec):
				return False
	return True


def one(r, what, op, kb, FA, FB, prec):
	from fixif.func_aux import MPFMatrix
	src = tomp(FA) if kb in ('MPF', 'mp') else tonp(FA)
	A, B = (MPFMatrix(src) if all(Fr(float(v)) == v for row in FA for v in row) or kb in ('MPF', 'mp') else build('MPF', FA)), build(kb, FB)
	# it is not linked with the matrix it is built from
	for i in range(len(FA)):
		src[i, len(FA[0]) - 1] = 321
	C = apply(op, A, B)
	r.step()
	r.state((op, kb, prec, FA, FB))
	if not isinstance(C, MPFMatrix):
		r.fail('%s: the result is a %s' % (what, type(C)))
		return
	got = ref.fmat(C.matrix)
	if not close(op, FA, FB, got, prec):
		r.fail('%s: %s %s %s = %s (working precision %d)' % (what, ref.show(FA), op, ref.show(FB), ref.show(got), prec))
	if ref.fmat(A.matrix) != FA or ref.fmat(B.matrix if kb == 'MPF' else B) != FB or mp.prec != prec:
		r.fail('%s: operands or precision modified' % what)
	if C.shape != (len(FA), len(FB[0])) or (C.rows, C.cols) != C.shape:
		r.fail('%s: shape %s' % (what, C.shape))
	if C[0, 0] != C.matrix[0, 0] or C[C.rows - 1, C.cols - 1] != C.matrix[C.rows - 1, C.cols - 1]:
		r.fail('%s: entries' % what)
	# the result is not linked with the operands
	if kb == 'mp':
		B[0, 0] = mpmath.mpf(12345)
	elif kb != 'MPF':
		B[0, 0] = 12345.
	if ref.fmat(C.matrix) != got:
		r.fail('%s: the result changes when the operand is modified' % what)
	r.outcome(str(got))


def alphabet(wide):
	a = [Fr(0), Fr(1), Fr(-3, 2), Fr(float(0.1)), Fr(2) ** 80, -Fr(float(1 / 3.)) * Fr(2) ** -70]
	return a + [Fr(2) ** -300, Fr(-(2 ** 53 - 1))] if wide else a


def chain(c, r):
	"""chains of operators on 2x2 matrices, with the values of the object as state"""
	from fixif.func_aux import MPFMatrix
	pool = [[[Fr(1), Fr(-1, 2)], [Fr(3), Fr(1, 4)]], [[Fr(0), Fr(2)], [Fr(-1), Fr(float(0.1))]]]
	seen = set()

	def explore(A, FA, hist, depth):
		key = (depth, str(FA))
		if key in seen or not depth:
			return
		seen.add(key)
		r.state(key)
		for op in ((c['first'],) if not hist else ('add', 'sub', 'mul')):
			for k, F in enumerate(pool + ['self']):
				B = A if F == 'self' else build(c['kind'], F)
				FB = FA if F == 'self' else F
				C = apply(op, A, B)
				r.step()
				what = 'after %s: %s with %s' % (hist, op, k)
				if ref.fmat(A.matrix) != FA:
					r.fail('%s: the first operand is modified' % what)
					return
				got = ref.fmat(C.matrix)
				if not close(op, FA, FB, got, c['prec']):
					r.fail('%s = %s' % (what, ref.show(got)))
					return
				if F != 'self' and c['kind'] != 'MPF':
					B[0, 1] = 77
					if ref.fmat(C.matrix) != got or ref.fmat(A.matrix) != FA:
						r.fail('%s: linked with its operand' % what)
						return
				D = MPFMatrix(C.matrix)
				if not D.equal(C) or not C.equal(D.matrix) or not C.almost_close(D):
					r.fail('%s: a copy is not equal' % what)
					return
				explore(C, got, hist + [(op, k)], depth - 1)
	explore(build('MPF', pool[0]), pool[0], [], c['depth'])
	r.outcome(len(seen))


def compare(c, r):
	"""equal and almost_close of matrices that differ in one entry"""
	prec, kind = c['prec'], c['kind']
	deltas = [Fr(0), Fr(1, 2 ** 60), Fr(1, 1024), Fr(1, 1000), Fr(1, 4), Fr(1), Fr(3), Fr(1024)]
	for m, n in itertools.product(c['dims'], repeat=2):
		for fam in ('ints', 'dyadic'):
			F = [[value(fam, i, j, 1, True) for j in range(n)] for i in range(m)]
			A = build('MPF', F)
			for i, j in itertools.product(range(m), range(n)):
				for d, s in itertools.product(deltas, (1, -1)):
					G = [list(row) for row in F]
					G[i][j] += s * d
					if G[i][j].denominator & (G[i][j].denominator - 1):
						G[i][j] = Fr(float(G[i][j]))
					elif kind in ('np', 'nd'):
						G[i][j] = Fr(float(G[i][j]))
					B = build(kind, G)
					r.step()
					same = F == G
					if bool(A.equal(B)) != same:
						r.fail('equal(%s, %s) = %s' % (ref.show(F), ref.show(G), A.equal(B)))
						return
					for eps in (0, Fr(1, 2 ** 40), Fr(1, 512), Fr(1, 2), Fr(2)):
						diff = abs(F[i][j] - G[i][j])
						rel = diff / max(abs(F[i][j]), abs(G[i][j])) if diff else Fr(0)
						# close to the threshold, at the working precision, both answers are right
						lo, hi = [any(x <= eps * (1 + t) for x in (diff, rel)) for t in (-Fr(2) ** (3 - prec), Fr(2) ** (3 - prec))]
						if prec < 60 and diff < max(abs(F[i][j]), abs(G[i][j])) * Fr(2) ** (3 - prec):
							lo, hi = eps == 0 and same, True
						got = A.almost_close(B, abs_eps=exact(Fr(eps)) if eps else 0) if eps else A.almost_close(B)
						r.step()
						if bool(got) not in (lo, hi):
							r.fail('almost_close(%s, %s, %s) = %s' % (ref.show(F), ref.show(G), eps, got))
							return
				r.state((m, n, fam, i, j))
		# other sizes
		for m2, n2 in itertools.product(c['dims'], repeat=2):
			if (m2, n2) != (m, n):
				B = build(kind, [[Fr(1)] * n2 for _ in range(m2)])
				A = build('MPF', [[Fr(1)] * n for _ in range(m)])
				for f in (A.equal, A.almost_close):
					try:
						f(B)
						r.fail('%dx%d compared with %dx%d' % (m, n, m2, n2))
					except ValueError:
						r.outcome('ValueError')


def refuse(r):
	"""operands that do not fit are refused with a ValueError"""
	from fixif.func_aux import MPFMatrix
	dims = list(itertools.product((1, 2, 3), repeat=2))
	for (m, n), (a, b) in itertools.product(dims, dims):
		A = build('MPF', [[Fr(1)] * n for _ in range(m)])
		for kind in KINDS:
			B = build(kind, [[Fr(2)] * b for _ in range(a)])
			for op in ('add', 'sub', 'mul'):
				fits = (n == a) if op == 'mul' else (m, n) == (a, b)
				r.step()
				try:
					apply(op, A, B)
					if not fits:
						r.fail('%s of %dx%d and %dx%d (%s) is accepted' % (op, m, n, a, b, kind))
				except ValueError:
					if fits:
						r.fail('%s of %dx%d and %dx%d (%s) is refused' % (op, m, n, a, b, kind))
		r.state((m, n, a, b))
	for x in (3, 2.5, 'text', None, [[1., 2.], [3., 4.]], mpmath.mpf(2)):
		for op in ('add', 'sub', 'mul'):
			try:
				apply(op, build('MPF', [[Fr(1)] * 2 for _ in range(2)]), x)
				r.fail('%s with %r is accepted' % (op, x))
			except ValueError:
				r.outcome('ValueError')
		try:
			MPFMatrix(x)
			r.fail('MPFMatrix(%r) is accepted' % (x,))
		except ValueError:
			pass


def run(c, r):
	old = mp.prec
	mp.prec = c.get('prec', 53)
	try:
		k = c['k']
		if k == 'op':
			mpk = c['kb'] in ('MPF', 'mp')
			for n, m in itertools.product(c['dims'], repeat=2):
				for p in (c['dims'] if c['op'] == 'mul' else (n,)):
					FA = [[value(c['fam'], i, j, 1, True) for j in range(n)] for i in range(m)]
					FB = [[value(c['fam'], i, j, 2, mpk) for j in range(p)] for i in range(n if c['op'] == 'mul' else m)]
					one(r, c['fam'], c['op'], c['kb'], FA, FB, c['prec'])
		elif k == 'alphabet':
			for v in ref.products(alphabet(c['wide']), 4):
				if c['op'] == 'mul':
					one(r, k, 'mul', c['kb'], [[v[0], v[1]]], [[v[2]], [v[3]]], c['prec'])
					one(r, k, 'mul', c['kb'], [[v[0]], [v[1]]], [[v[2], v[3]]], c['prec'])
				else:
					one(r, k, c['op'], c['kb'], [[v[0], v[1]]], [[v[2], v[3]]], c['prec'])
		elif k == 'cmp':
			compare(c, r)
		elif k == 'chain':
			chain(c, r)
		else:
			refuse(r)
	finally:
		mp.prec = old
