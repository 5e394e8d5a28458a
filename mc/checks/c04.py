"""C04: polynomial products."""
from mc import ref
from fractions import Fraction
import itertools
import mpmath
from mpmath import mp

ID = 'C04'
LEVEL = 'exploration'
RULE = 'all coefficient vectors over an alphabet for every degree pair; all root lists over a (complex) alphabet of every length, with every index left out'
BOUNDS = {'quick': 'degrees 0..3 with 4 coefficient values (0..4 with tagged values), up to 4 roots over 5 values, tagged up to 6; coefficients and roots of very different magnitudes; products of up to 53 coefficients', 'thorough': 'degrees 0..3 with 6 values, up to 5 roots over 6 values'}
ASSUMPTIONS = ['each coefficient of the result is compared within 1e-13 of the sum of the magnitudes of its terms']


def cases(tier):
	al = [0, 1, -2, 3] if tier == 'quick' else [0, 1, -2, 3, -1, 5]
	for n in range(0, 4):
		for m in range(0, 4):
			if n + m <= (4 if tier == 'quick' else 5):
				for lead in al:
					yield dict(k='mult', n=n, m=m, al=al, lead=lead)
	for n in range(0, 7):
		for m in range(0, 7):
			yield dict(k='multtag', n=n, m=m)
	for n, m in ((11, 12), (12, 1), (0, 12), (16, 16), (30, 3), (2, 41), (25, 25)):
		yield dict(k='multtag', n=n, m=m)
	e = lambda k: 2. ** k
	mags = [[e(-50), -3 * e(-52), e(-49)], [e(40), -3 * e(38)], [1., e(-44), -3 * e(-38)], [e(-44), 1., e(-36)], [0., e(-60)], [1 + e(-40), -1 + e(-42)], [1., 1., 1.], [-1., 1.]]
	for a in mags:
		for b in mags:
			yield dict(k='one', a=a, b=b)
	tiny = [e(-45), -e(-45), 1 + e(-40), -1., e(40), e(-30)]
	for n in (1, 2, 3, 4):
		for first in tiny:
			for j in range(-1, n):
				yield dict(k='prod', n=n, j=j, roots=[[x, 0.] for x in tiny[:6 - n // 4]] + [[e(-33), -e(-36)], [e(-35), 0.5]][:5 - n], first=[first, 0.])
	roots = [[0, 0], [1, 0], [-2, 0], [0, 1], [1, -3]] + ([] if tier == 'quick' else [[3, 2]])
	for n in range(1, 5 if tier == 'quick' else 6):
		for j in range(-1, n):
			for first in roots:
				yield dict(k='prod', n=n, j=j, roots=roots, first=first)
	for n in list(range(1, 8)) + [11, 12, 24, 35]:
		for j in range(-1, n) if n < 20 else (-1, 0, 1, n // 2, n - 2, n - 1):
			yield dict(k='prodtag', n=n, j=j)


def mat(p):
	return mpmath.matrix([mpmath.mpc(x) if isinstance(x, complex) else mpmath.mpf(x) for x in p])


def vec(M):
	return [complex(M[i, 0]) for i in range(M.rows)]


def same(got, want, bound):
	"""bound: sum of the magnitudes of the terms of each coefficient"""
	return len(got) == len(want) and all(abs(a - b) <= 1e-13 * w for a, b, w in zip(got, want, bound))


def mult(r, p, q):
	import fixif.func_aux as fa
	P, Q = mat(p), mat(q)
	got = fa.mpf_poly_mult(P, Q)
	want = [complex(x) for x in ref.polymul(p, q)]
	bound = ref.polymul([abs(x) for x in p], [abs(x) for x in q])
	r.step()
	r.state((p, q))
	r.outcome(str(want))
	if got.cols != 1 or not same(vec(got), want, bound):
		r.fail('%s * %s = %s instead of %s' % (p, q, got, want))
	if vec(P) != [complex(x) for x in p] or vec(Q) != [complex(x) for x in q]:
		r.fail('polynomial product modified its arguments %s, %s' % (p, q))


def prod(r, roots, j):
	import fixif.func_aux as fa
	arg = [mpmath.mpc(x) if x.imag else mpmath.mpf(x.real) for x in roots]
	got = fa.mp_poly_product(arg, j) if j >= 0 else fa.mp_poly_product(arg)
	want, bound = [complex(1)], [1.]
	for i, x in enumerate(roots):
		if i != j:
			want = ref.polymul(want, [complex(1), x])
			bound = ref.polymul(bound, [1., abs(x)])
	r.step()
	r.state((roots, j))
	r.outcome(str(want))
	if got.cols != 1 or not same(vec(got), want, bound):
		r.fail('product of (z + p_i), p = %s, i != %s: %s instead of %s' % (roots, j, got, want))
	if [complex(x) for x in arg] != roots:
		r.fail('mp_poly_product modified its argument')


def run(c, r):
	k = c['k']
	if k == 'mult':
		for v in itertools.product(c['al'], repeat=c['n'] + c['m'] + 1):
			v = [c['lead']] + list(v)
			mult(r, v[:c['n'] + 1], v[c['n'] + 1:])
	elif k == 'one':
		mult(r, c['a'], c['b'])
		mult(r, [complex(x, 0.5 * x) for x in c['a']], [complex(0.25 * x, -x) for x in c['b']])
	elif k == 'multtag':
		mult(r, [(-1) ** i * (i * i + 2) for i in range(c['n'] + 1)], [3 * i + 1 - (i % 3) * 7 for i in range(c['m'] + 1)])
		mult(r, [complex(i + 1, i * i - 2) for i in range(c['n'] + 1)], [complex(2 - i, 3 * i) for i in range(c['m'] + 1)])
	elif k == 'prod':
		for v in itertools.product(c['roots'], repeat=c['n'] - 1):
			prod(r, [complex(*x) for x in [c['first']] + list(v)], c['j'])
	else:
		prod(r, [complex(i + 2, 0) for i in range(c['n'])], c['j'])
		prod(r, [complex((-1) ** i * (i + 1), i - 2) for i in range(c['n'])], c['j'])
