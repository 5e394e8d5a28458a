"""C01: exact matrix arithmetic."""
from mc import ref
from fractions import Fraction
import mpmath
from mpmath import mp
import numpy

ID = 'C01'
LEVEL = 'exploration'
RULE = ('every combination of operation, operand kinds, shape triple, ambient precision and value family; '
        'and every assignment of the value alphabet to the entries of the small shapes')
BOUNDS = {'quick': 'dimensions 1..3 (inverse 1..4), precisions 20/53/200 bits, 6-value alphabet on <=4 entries (inverse: 3 below the diagonal); numbers and exponents of very different magnitudes (3.2^+-1060, powers of 3), double and multiple precision',
          'thorough': 'dimensions 1..4 (inverse 1..6), precisions 2/20/53/200/1000 bits, 8-value alphabet on <=4 entries'}
ASSUMPTIONS = ['mpmath numbers are read through their (sign, mantissa, exponent) triple; values are finite']

FAM = ['ints', 'dyadic', 'wide', 'cancel', 'dense', 'lowtri', 'huge']


def value(fam, i, j, salt, mpkind):
	"""deterministic, position dependent, so that any index mix-up shows"""
	t = salt * 17 + i * 5 + j * 3 + 1
	s = -1 if (i + 2 * j + salt) % 3 == 0 else 1
	if fam == 'ints':
		return Fraction(s * t)
	if fam == 'dyadic':
		return Fraction(s * (2 * t + 1), 2 ** (t % 7 + 1))
	if fam == 'wide':
		return Fraction(s * (2 * t + 1)) * Fraction(2) ** (((i * 7 + j * 11 + salt * 5) % 9 - 4) * 40)
	if fam == 'huge':
		# close to the smallest and largest doubles (and far beyond, for mpmath numbers)
		return Fraction(s * (2 * t + 1)) * Fraction(2) ** ([-1060, 0, 900, -520, 60][(i * 3 + j * 4 + salt) % 5] * (3 if mpkind else 1))
	if fam == 'cancel':
		b = Fraction(2) ** 60
		return (b if (i + j) % 2 == 0 else -b) + (Fraction(t) if mpkind else Fraction(t) * 2 ** 12)
	if fam == 'dense':
		if mpkind:		# more digits than any ambient precision of the space
			return Fraction(s * (3 ** (700 + t)), 2 ** (1000 + t))
		return Fraction(float(Fraction(s * (3 ** (33 + t)), 2 ** (50 + t))))
	if fam == 'lowtri':
		return Fraction(s * t, 4) if i >= j else Fraction(0)


def tomp(F):
	M = mpmath.matrix(len(F), len(F[0]))
	for i, r in enumerate(F):
		for j, v in enumerate(r):
			M[i, j] = exact(v)
	return M


def exact(v):
	"""mpf equal to a dyadic rational, whatever the working precision"""
	return mp.make_mpf(mpmath.libmp.from_man_exp(v.numerator, -(v.denominator.bit_length() - 1)))


def tonp(F):
	return numpy.matrix([[float(v) for v in r] for r in F])


def build(kind, F):
	if kind == 'np':
		return tonp(F)
	if kind == 'mp':
		return tomp(F)
	from fixif.func_aux import MPFMatrix
	return MPFMatrix(tomp(F))


def cases(tier):
	D = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
	precs = (53, 20, 200) if tier == 'quick' else (53, 2, 20, 200, 1000)
	for op in ('add', 'sub', 'mul'):
		for ka, kb in (('np', 'np'), ('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('MPF', 'MPF')):
			for prec in precs:
				for fam in FAM:
					yield dict(op=op, ka=ka, kb=kb, prec=prec, fam=fam, dims=list(D))
				yield dict(op=op, ka=ka, kb=kb, prec=prec, fam=FAM[precs.index(prec) % len(FAM)], dims=[1, 11, 12])
				yield dict(op=op, ka=ka, kb=kb, prec=prec, fam='alphabet', wide=int(tier != 'quick'))
	for k in ('np', 'mp', 'MPF'):
		for prec in precs:
			yield dict(op='inv', ka=k, prec=prec, fam='alphabet', wide=int(tier != 'quick'))
			for fam in FAM:
				yield dict(op='inv', ka=k, prec=prec, fam=fam, dims=list(range(1, 5 if tier == 'quick' else 7)) + [11])


def operate(op, A, B):
	import fixif.func_aux as fa
	if isinstance(A, fa.MPFMatrix):
		return dict(add=A.add_exact, sub=A.sub_exact, mul=A.mul_exact)[op](B)
	return dict(add=fa.mpf_matrix_fadd, sub=fa.mpf_matrix_fsub, mul=fa.mpf_matrix_fmul)[op](A, B)


def alphabet(kinds, wide):
	a = [Fraction(0), Fraction(1), Fraction(-3, 2), Fraction(float(0.1)), Fraction(2) ** 80, -Fraction(float(1 / 3.)) * Fraction(2) ** -70]
	if wide:
		a += [Fraction(2) ** -300, Fraction(-(2 ** 53 - 1))]
	return a


def one(r, c, FA, FB):
	import fixif.func_aux as fa
	op = c['op']
	A = build(c['ka'], FA)
	r.state((op, c['ka'], c.get('kb'), c['prec'], FA, FB))
	if op == 'inv':
		B = None
		res = A.inv_lowtr() if isinstance(A, fa.MPFMatrix) else fa.mpf_matrix_lt_inverse(A)
		want = ref.lowtr_inv(FA)
	else:
		B = A if FB is FA else build(c['kb'], FB)		# FB is FA: the same object twice
		res = operate(op, A, B)
		want = dict(add=ref.add, sub=ref.sub, mul=ref.mul)[op](FA, FB)
	got = ref.fmat(res)
	r.step()
	if got != want:
		r.fail('%s(%s, %s) = %s instead of %s (working precision %d)' % (op, ref.show(FA), ref.show(FB), ref.show(got), ref.show(want), c['prec']))
	if ref.fmat(A) != FA or (B is not None and ref.fmat(B) != FB):
		r.fail('%s modified its operands: %s, %s' % (op, ref.show(FA), ref.show(FB)))
	if mp.prec != c['prec']:
		r.fail('%s changed the working precision' % op)
	r.outcome(str(got))


def run(c, r):
	old = mp.prec
	mp.prec = c['prec']
	try:
		op, mpk = c['op'], [c['ka'] != 'np', c.get('kb') != 'np']
		if c['fam'] == 'alphabet':
			al = alphabet(mpk, c['wide'])
			if op == 'inv':
				for a in al:
					one(r, c, [[Fraction(1), Fraction(0)], [a, Fraction(1)]], None)
				for v in ref.products(al, 3):
					one(r, c, [[Fraction(1), Fraction(0), Fraction(0)], [v[0], Fraction(1), Fraction(0)], [v[1], v[2], Fraction(1)]], None)
				return
			for v in ref.products(al, 4):
				if op == 'mul':
					one(r, c, [[v[0], v[1]]], [[v[2]], [v[3]]])
					one(r, c, [[v[0]], [v[1]]], [[v[2], v[3]]])
				else:
					one(r, c, [[v[0], v[1]]], [[v[2], v[3]]])
					one(r, c, [[v[0]], [v[1]]], [[v[2]], [v[3]]])
			return
		for n in c['dims']:
			if op == 'inv':
				one(r, c, [[value(c['fam'], i, j, 1, mpk[0]) if i > j else Fraction(int(i == j)) for j in range(n)] for i in range(n)], None)
				continue
			for m in c['dims']:
				for p in (c['dims'] if op == 'mul' else (n,)):
					FA = [[value(c['fam'], i, j, 1, mpk[0]) for j in range(n)] for i in range(m)]
					FB = [[value(c['fam'], i, j, 2, mpk[1]) for j in range(p)] for i in range(n if op == 'mul' else m)]
					one(r, c, FA, FB)
					if op != 'mul' and c['ka'] == c['kb']:
						one(r, c, FA, FA)
					elif op == 'mul' and n == m == p and c['ka'] == c['kb']:
						one(r, c, FA, FA)
	finally:
		mp.prec = old
