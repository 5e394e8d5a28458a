"""C05: transfer functions form a ring (sum, difference, product, opposite, scalars)."""
from mc import ref
from fractions import Fraction as Fr
import itertools
import numpy

ID = 'C05'
LEVEL = 'model_checking'
RULE = 'all transfer functions over a coefficient alphabet for all length pairs; all ordered pairs of a pool under every operator; all operator trees of depth 2 over a small pool (state = transfer function obtained, transition = operator application)'
BOUNDS = {'quick': 'numerator and denominator lengths 1..3, pool of 60 for pairs, trees of 3 leaves over a pool of 9, 8 scalars, and 33 functions of larger orders or with coefficients of very different magnitudes (all pairs)', 'thorough': 'lengths 1..4, pool of 160 for pairs, trees of 3 leaves over a pool of 16 and of 4 leaves over a pool of 5'}
ASSUMPTIONS = ['equality of the impulse responses is decided as equality of rational functions (cross product of the polynomials, each coefficient within 1e-13 of the sum of the magnitudes of its terms)']

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}
SCAL = [0, 1, -3, 0.5, 2.0]
FINE = [2. ** -46, 1 + 2. ** -40, -2. ** 41]


def padd(x, y, s=1):
	L = max(len(x), len(y))
	x = x + [Fr(0)] * (L - len(x))
	y = y + [Fr(0)] * (L - len(y))
	return [u + s * v for u, v in zip(x, y)]


def pabs(x):
	return [abs(v) for v in x]


def rop(op, a, b):
	"""exact result (num, den), and the same computed with the magnitudes of all the terms (the errors are relative to these)"""
	n1, d1, m1, e1 = a
	n2, d2, m2, e2 = b
	if op == '*':
		return ref.polymul(n1, n2), ref.polymul(d1, d2), ref.polymul(m1, m2), ref.polymul(e1, e2)
	s = 1 if op == '+' else -1
	return padd(ref.polymul(n1, d2), ref.polymul(n2, d1), s), ref.polymul(d1, d2), padd(ref.polymul(m1, e2), ref.polymul(m2, e1)), ref.polymul(e1, e2)


def pool(size, maxlen):
	out = []
	nal = [0, 1, -2, 0.5]
	for ln in range(1, maxlen + 1):
		for ld in range(1, maxlen + 1):
			for k in range(max(1, size // (maxlen * maxlen) + 1)):
				num = [nal[(k * 7 + i * (ln + 2) + ld + (k >> 2) * i) % 4] for i in range(ln)]
				if k % 3 == 1:
					num[0] = 0
				if not any(num):
					num[-1] = 3
				den = [[1, 2, -4, 0.5, 3][(k + ln) % 5]] + [[0.5, -0.25, 0, 1.5][(k * 3 + i + ld) % 4] for i in range(1, ld)]
				out.append(([float(x) for x in num], [float(x) for x in den]))
	# distinct, simplest first, spread over the lengths
	seen, res = set(), []
	for x in out:
		if repr(x) not in seen:
			seen.add(repr(x))
			res.append(x)
	return res


def big():
	from mc.systems import tf_big, tf_mag
	e = lambda k: 2. ** k
	return [t[1:] for t in tf_big() + tf_mag()] + [([e(-50), 1.], [e(45), 0.5]), ([3., e(-44), -1.], [e(-40), 1., e(30)]), ([e(-60)], [e(-70), e(-71)]), ([1. + e(-45), -1.], [1. + e(-44)]), ([e(52)], [1. - e(-45), 0.5]), ([1.] * 12, [2.]), ([3.], [4.] + [0.25] * 10), ([0.] * 11 + [1.], [1., 0.5])]


def cases(tier):
	L = 3 if tier == 'quick' else 4
	for ln in range(1, L + 1):
		for ld in range(1, L + 1):
			yield dict(k='one', ln=ln, ld=ld)
	P = pool(60 if tier == 'quick' else 160, L)
	for i in range(len(P)):
		yield dict(k='pair', a=P[i], P=len(P), size=60 if tier == 'quick' else 160, L=L)
	for a in big():
		yield dict(k='pair', a=a, big=1)
	small = [([0., 1.], [2., -1.]), ([1.], [1., 0.5]), ([3.], [1.]), ([1., 2., 1.], [4., 0., 1.]), ([0., 0., 1.], [1.]), ([1., -1.], [1.]),
	         ([0.], [1.]), ([2.], [1., 0., 0.25]), ([1., 0.5], [1., 0.5]), ([-1., 3.], [2., 1., -0.5]), ([0.5, 0., 0., 2.], [1.]), ([1.], [8., 4., 2., 1.]), ([0., 5.], [1., -1.]), ([1., 1.], [1., 1.]), ([2., 1.], [-1., 0.5]), ([0., 0.], [1., 1.])]
	n = 9 if tier == 'quick' else 16
	for i in range(n):
		for j in range(n):
			for o in '+-*':
				yield dict(k='tree', a=small[i], b=small[j], o=o, leaves=small[:n], depth=1)
	if tier != 'quick':
		for i in range(5):
			for j in range(5):
				for o in '+-*':
					yield dict(k='tree', a=small[i], b=small[j], o=o, leaves=small[:5], depth=2)


def rat(t):
	n, d = [Fr(x) for x in t[0]], [Fr(x) for x in t[1]]
	return n, d, pabs(n), pabs(d)


def coeffs(H):
	return [Fr(float(H.num[0, i])) for i in range(H.num.shape[1])], [Fr(float(H.den[0, i])) for i in range(H.den.shape[1])]


def same(H, want):
	n, d = coeffs(H)
	diff = padd(ref.polymul(n, want[1]), ref.polymul(want[0], d), -1)
	bound = padd(ref.polymul(want[2], pabs(d)), ref.polymul(pabs(want[0]), [v / abs(want[1][0]) for v in want[3]]))
	bound = padd(bound, padd(ref.polymul(pabs(n), pabs(want[1])), [Fr(0)] * len(diff)))
	return all(abs(v) <= w * Fr(1, 10 ** 13) for v, w in zip(diff, bound)) and not any(diff[len(bound):])


def check(r, what, H, want):
	r.step()
	n, d = coeffs(H)
	r.state((n, d))
	if d[0] != 1:
		r.fail('%s: the denominator %s is not normalised' % (what, H.den))
	if len(n) != len(d) or H.order != len(n) - 1:
		r.fail('%s: order %d with coefficients %s / %s' % (what, H.order, H.num, H.den))
	if not same(H, want):
		r.fail('%s gives %s / %s instead of %s / %s' % (what, H.num, H.den, [float(x) for x in want[0]], [float(x) for x in want[1]]))


def make(t):
	from fixif.LTI import dTF
	return dTF(list(t[0]), list(t[1]))


def run(c, r):
	from fixif.LTI import dTF
	k = c['k']
	if k == 'one':
		for num in itertools.product([0., 1., -2., 0.5], repeat=c['ln']):
			for d0 in (1., 2., -4., 3.):
				for den in itertools.product([0., 0.5, -1.5], repeat=c['ld'] - 1):
					t = (list(num), [d0] + list(den))
					an, ad = numpy.matrix(t[0]), numpy.matrix(t[1])
					H = dTF(an, ad)
					w = rat(t)
					check(r, 'dTF(%s, %s)' % t, H, w)
					if H.order != max(len(t[0]), len(t[1])) - 1:
						r.fail('order of dTF(%s, %s) is %d' % (t[0], t[1], H.order))
					check(r, '-dTF(%s, %s)' % t, -H, ([-x for x in w[0]],) + w[1:])
					for s in SCAL + FINE:
						f = (([Fr(s)], [Fr(1)], [abs(Fr(s))], [Fr(1)]))
						nm = 'dTF(%s, %s)' % t
						check(r, '%s*%s' % (nm, s), H * s, rop('*', w, f))
						check(r, '%s*%s' % (s, nm), s * H, rop('*', f, w))
						check(r, '%s+%s' % (nm, s), H + s, rop('+', w, f))
						check(r, '%s+%s' % (s, nm), s + H, rop('+', f, w))
						check(r, '%s-%s' % (nm, s), H - s, rop('-', w, f))
						check(r, '%s-%s' % (s, nm), s - H, rop('-', f, w))
					check(r, 'dTF(%s, %s) after being used' % t, H, w)
					if an.tolist()[0] != t[0] or ad.tolist()[0] != t[1]:
						r.fail('dTF(%s, %s) or its operators modified the given arrays' % t)
					r.outcome(repr(coeffs(H)))
	elif k == 'pair':
		P = pool(c['size'], c['L']) if 'size' in c else big() + pool(9, 3)
		for b in P:
			A, B = make(c['a']), make(b)
			wa, wb = rat(c['a']), rat(b)
			for o in '+-*':
				check(r, 'dTF(%s, %s) %s dTF(%s, %s)' % (c['a'][0], c['a'][1], o, b[0], b[1]), OPS[o](A, B), rop(o, wa, wb))
			check(r, 'left operand afterwards', A, wa)
			check(r, 'right operand afterwards', B, wb)
	else:
		X = OPS[c['o']](make(c['a']), make(c['b']))
		w = rop(c['o'], rat(c['a']), rat(c['b']))
		frontier = [(X, w)]
		for d in range(c['depth']):
			nxt = []
			for X, w in frontier:
				for t in c['leaves']:
					L, wl = make(t), rat(t)
					for o in '+-*':
						for left in (0, 1):
							Y = OPS[o](L, X) if left else OPS[o](X, L)
							wy = rop(o, wl, w) if left else rop(o, w, wl)
							check(r, 'operator tree %s: (%s %s %s) %s %s' % ('leaf first' if left else '', c['a'], c['o'], c['b'], o, t), Y, wy)
							if d + 1 < c['depth']:
								nxt.append((Y, wy))
				for o in '+-*':
					check(r, 'X %s X for X = (%s %s %s)' % (o, c['a'], c['o'], c['b']), OPS[o](X, X), rop(o, w, w))
			frontier = nxt
