"""C19: filters (their two views, whatever is asked first) and random generators (whatever the random generator answers)."""
from mc import ref, systems
from mc.rng import run_all
from fractions import Fraction as Fr
import itertools
import re
import numpy

ID = 'C19'
LEVEL = 'model_checking'
RULE = 'views: every system of the pools x way of giving it x sequence of queries. arguments: all the subsets of the arguments of Filter. generators: every answer of the random generator (each draw is a choice point of an alphabet; stateless exploration with backtracking up to a depth). seeds: every history of seeded generations, unseeded draws and regenerations by name, with the real generator'
BOUNDS = {'quick': 'queries: all the sequences of 3 out of 7; generators: all the answers of the first 5-7 draws (alphabets of 2 to 6 answers); seeds 0, 1, 7, 10^9-1, histories of 3 operations out of 11',
          'thorough': 'queries: all the sequences of 4; all the answers of the first 7-9 draws; histories of 4 operations'}
ASSUMPTIONS = ['a draw of a real number in [0,1) answers 0.02, 0.3, 0.7 or 0.995; arrays of draws have 3 patterns; integers: all of the range when it has at most 6 values, else its ends and middle']
CASE_LIMIT = 400

Q = ('dSS', 'dTF', 'order', 'p', 'q', 'siso', 'str')


def cases(tier):
	q_ = tier == 'quick'
	L = 3 if q_ else 4
	tfs = systems.tf_pool([1, 2, 3] if q_ else [1, 2, 3, 4])
	for name, num, den in tfs:
		for via in ('num', 'tf', 'long'):
			yield dict(k='view', via=via, num=num, den=den, L=L)
	for name, A, B, C, D in systems.ss_pool(list(itertools.product(range(1, 4), range(1, 3), range(1, 3)))):
		for via in ('A', 'ss'):
			yield dict(k='view', via=via, ss=[A, B, C, D], L=L)
	yield dict(k='args')
	d = 0 if q_ else 2
	for n, p, q in itertools.product(range(1, 5), range(1, 3), range(1, 3)):
		yield dict(k='gen', g='random_dSS', a=[n, p, q], depth=6 + d if n > 1 else 5 + d)
		yield dict(k='gen', g='random_Filter', a=[n, p, q], depth=3 + d)
		yield dict(k='gen', g='random_dSSmp', a=[n, p, q], depth=3)
	for pr in itertools.product((0., 1., 0.5), (0., 1., 0.5), (0.5, 1.)):
		for n in (2, 3, 4):
			yield dict(k='gen', g='random_dSS_pr', a=[n] + list(pr), depth=5 + d)
	for bad in ([0, 1, 1], [1, 0, 1], [1, 1, 0], [-1, 1, 1], [1.5, 1, 1], [1, 1, 2.5]):
		yield dict(k='baddim', a=bad)
	for form in (None, 'lowpass', 'highpass', 'bandpass', 'bandstop'):
		for even in (True, False):
			for n in ((1, 4), (5, 10), (2, 3), (4, 6)):
				yield dict(k='gen', g='random_Butter', form=form, even=even, n=list(n), depth=5)
		for n in ((2, 5), (1, 3)):
			for quant in (None, 64, 100):
				yield dict(k='gen', g='random_Elliptic', form=form, quant=quant, n=list(n), depth=5 if q_ else 6)
	yield dict(k='gen', g='random_Gabarit', depth=7)
	for o in ((1, 4), (3, 3), (5, 10), (2, 3), (1, 1)):
		yield dict(k='gen', g='random_dTF', o=list(o), depth=4)
		for g in ('iter_random_dTF', 'iter_random_dTFmp'):
			for nb in (0, 1, 3):
				yield dict(k='gen', g=g, o=list(o), nb=nb, depth=4)
	for p in ((1, 3), (2, 3)):
		for q in ((1, 3), (4, 5)):
			for stable in (True, False):
				yield dict(k='gen', g='iter_random_dSSmp', p=p, q=q, stable=stable, depth=3 + d)
	for ft in ('all', 'SISO', 'SIMO', 'MISO', 'MIMO'):
		for seeded in (True, False):
			yield dict(k='gen', g='iter_random_Filter', ft=ft, seeded=seeded, depth=7 if q_ else 9)
	for p in (1, (1, 3), (2, 3)):
		for q in (1, (1, 3), (4, 5)):
			for stable in (True, False):
				yield dict(k='gen', g='iter_random_dSS', p=p, q=q, stable=stable, depth=5 + d)
	for g in ('iter_random_Butter', 'iter_random_Elliptic'):
		for seeded in (True, False):
			for form in (None, 'lowpass', 'highpass', 'bandpass', 'bandstop'):
				for o in ((True, False) if g == 'iter_random_Butter' else (None, 64, 100)):
					yield dict(k='gen', g=g, seeded=seeded, form=form, n=[2, 5], depth=5, even=o, quant=o)
	yield dict(k='gen', g='iter_random_Gabarit', depth=7)
	ops = [[g, s] for g in ('Filter', 'Butter', 'Elliptic', 'Gabarit') for s in (0, 7)] + [['draw', None], ['Filter', 10 ** 9 - 1], ['again', None]]
	for form in (None, 'lowpass', 'highpass', 'bandpass', 'bandstop'):
		for nb in (1, 2, 3):
			for s in range(2 if q_ else 8):
				yield dict(k='names', form=form, nb=nb, s=s)
	for first in ops:
		for second in (ops if not q_ else [None]):
			yield dict(k='seed', pre=[first] + ([second] if second else []), ops=ops, L=L)


def same(r, what, F, H, MIMO):
	"""F (Filter) describes the system with the impulse responses H[k] = p x q"""
	N = len(H)
	S = F.dSS
	h = ref.impulse_ss(ref.fmat(S.A), ref.fmat(S.B), ref.fmat(S.C), ref.fmat(S.D), N)
	for k in range(N):
		if not ref.closemat(h[k], H[k], 1e-8, 1e-9):
			r.fail('%s: sample %d of the impulse response of its state space is %s instead of %s' % (what, k, ref.show(h[k]), ref.show(H[k])))
			return
	if not MIMO:
		T = F.dTF
		h = ref.impulse_tf([v for v in ref.fmat(T.num)[0]], [v for v in ref.fmat(T.den)[0]], N)
		for k in range(N):
			if not ref.close(h[k], H[k][0][0], 1e-8, 1e-9):
				r.fail('%s: sample %d of the impulse response of its transfer function is %g instead of %g' % (what, k, h[k], H[k][0][0]))
				return


def make(c):
	from fixif.LTI import Filter, dTF, dSS
	if c['via'] == 'num':
		return Filter(num=c['num'], den=c['den'], name='the name')
	if c['via'] == 'tf':
		return Filter(tf=dTF(c['num'], c['den']), name='the name', stable=True)
	if c['via'] == 'long':
		return Filter(num=[2 * x for x in c['num']], den=[2 * x for x in c['den']], name='the name', stable=False)
	if c['via'] == 'A':
		A, B, C, D = c['ss']
		return Filter(A=A, B=B, C=C, D=D, name='the name', stable=True)
	return Filter(ss=dSS(*c['ss']), name='the name')


def ask(F, q):
	if q == 'dSS':
		return F.dSS
	if q == 'dTF':
		try:
			return F.dTF
		except ValueError:
			return 'ValueError'
	if q == 'siso':
		return bool(F.isSISO())
	if q == 'str':
		return (F.name, repr(F), F.isStable(), F.isButter())
	return getattr(F, q)


def view(c, r):
	if 'num' in c:
		N = 3 * len(c['den'])
		H = [[[v]] for v in ref.impulse_tf(c['num'], c['den'], N)]
		n, p, q = len(c['den']) - 1, 1, 1
	else:
		A, B, C, D = [[[Fr(v) for v in row] for row in M] for M in c['ss']]
		H = ref.impulse_ss(A, B, C, D, 3 * len(A) + 2)
		n, p, q = len(A), len(D), len(D[0])
	mimo = p * q > 1
	exp = dict(order=n, p=p, q=q, siso=not mimo, str=('the name', 'the name', c['via'] in ('tf', 'A'), False))
	for seq in itertools.product(Q, repeat=c['L']):
		F = make(c)
		what = '%s, after %s' % ({k: v for k, v in c.items() if k not in ('k', 'L')}, list(seq))
		got = {}
		for o in seq:
			a = ask(F, o)
			r.step()
			if o in exp and a != exp[o]:
				r.fail('%s: %s is %s instead of %s' % (what, o, a, exp[o]))
				return
			if o == 'dTF' and mimo != (a == 'ValueError'):
				r.fail('%s: dTF of a filter with %d outputs and %d inputs is %s' % (what, p, q, a))
				return
			if o in ('dSS', 'dTF') and o in got and got[o] is not a and repr(got[o]) != repr(a):
				r.fail('%s: %s is not the same twice' % (what, o))
				return
			got[o] = a
		if r.state((c['via'], str(c.get('num', c.get('ss'))), tuple(sorted(set(seq))), seq[0])):
			same(r, what, F, H, mimo)
			r.outcome((n, p, q, [float(v) for M in H[:4] for row in M for v in row]))
		if r.fails:
			return


def args(r):
	from fixif.LTI import Filter, dTF, dSS
	num, den = [1., 2., 3.], [2., 0.5, 0.25]
	S = dTF(num, den).to_dSS()
	vals = dict(num=num, den=den, A=S.A, B=S.B, C=S.C, D=S.D, tf=dTF(num, den), ss=S)
	H = [[[v]] for v in ref.impulse_tf(num, den, 8)]
	names = sorted(vals)
	for k in range(len(names) + 1):
		for sub in itertools.combinations(names, k):
			for stable in (None, True, False):
				a = {x: vals[x] for x in sub}
				ok = {'A', 'B', 'C', 'D'} <= set(sub) or {'num', 'den'} <= set(sub) or 'tf' in sub or 'ss' in sub
				r.step()
				r.state((sub, stable))
				try:
					F = Filter(stable=stable, **a)
				except ValueError:
					if ok:
						r.fail('Filter refuses the arguments %s' % (sub,))
					r.outcome('refused')
					continue
				if not ok:
					r.fail('Filter accepts the arguments %s' % (sub,))
					return
				if F.isStable() != bool(stable):
					r.fail('Filter(stable=%s).isStable() is %s' % (stable, F.isStable()))
				same(r, 'Filter with arguments %s' % (sub,), F, H, False)


def radius(S):
	return max(abs(numpy.linalg.eigvals(numpy.array(S.A))))


def check_ss(r, what, S, n, p, q, masks=True):
	r.step()
	if (S.n, S.p, S.q) != (n, p, q):
		r.fail('%s: sizes %s' % (what, (S.n, S.p, S.q)))
		return
	for M in (S.A, S.B, S.C, S.D):
		if not numpy.isfinite(M).all():
			r.fail('%s: not finite' % what)
			return
	# (multiple poles are moved by rounding errors: (1e-16)^(1/4))
	if not radius(S) < 0.995 + 2e-3:
		r.fail('%s: not stable: largest pole %g' % (what, radius(S)))
	if masks and (not S.B.any() or not S.C.any()):
		r.fail('%s: B or C is null' % what)


def plain(LTI, F):
	return LTI.dSS(*[numpy.matrix([[float(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]) for M in (F.A, F.B, F.C, F.D)])


def probabilities(r, what, S):
	"""generated with only real poles, without repeating, without null terms in B and C"""
	check_ss(r, what, S, S.n, S.p, S.q)
	ev = numpy.linalg.eigvals(numpy.array(S.A))
	if abs(ev.imag).max() > 1e-3:
		r.fail('%s: only real poles were asked, and they are %s' % (what, ev))
	if not (S.B.all() and S.C.all()):
		r.fail('%s: null elements in B or C' % what)


def stable_tf(F):
	den = numpy.array(F.dTF.den).ravel()
	num = numpy.array(F.dTF.num).ravel()
	return numpy.isfinite(den).all() and numpy.isfinite(num).all() and abs(numpy.roots(den)).max() < 1.


WC, W1, W2 = (0.15, 0.75), (0.12, 0.55), (0.45, 0.82)


def frequencies(r, what, F, form, quant=None):
	"""the cut frequencies are in the ranges"""
	W = numpy.array(F.Wn).ravel().tolist()
	eps = 0. if not quant else 0.5 / quant + 1e-12
	rng = (W1, W2) if form in ('bandpass', 'bandstop') else (WC,)
	if len(W) != len(rng) or any(not a - eps <= w <= b + eps for w, (a, b) in zip(W, rng)) or (len(W) == 2 and not quant and W[0] >= W[1]):
		r.fail('%s: the frequencies are %s' % (what, W))
	if quant and any(abs(w * quant - round(w * quant)) > 1e-9 for w in W):
		r.fail('%s: the frequencies %s are not quantized' % (what, W))


FORMS = ('lowpass', 'highpass', 'bandpass', 'bandstop')


def gen(c, r):
	import fixif.LTI as LTI
	g = c['g']
	seen = set()

	def f(rng, ch):
		what = '%s %s, random answers %%s' % (g, {k: v for k, v in c.items() if k not in ('k', 'g', 'depth')})
		W = lambda: what % ch.taken
		if g in ('random_dSS', 'random_Filter', 'random_dSSmp'):
			n, p, q = c['a']
			F = getattr(LTI, g)(n, p, q)
			S = F if g == 'random_dSS' else F.dSS if g == 'random_Filter' else None
			if S is None:
				S = plain(LTI, F)
			check_ss(r, W(), S, n, p, q)
			if g == 'random_Filter' and (not F.isStable() or F.name != 'RandomFilter'):
				r.fail('%s: stable %s, name %s' % (W(), F.isStable(), F.name))
			seen.add(round(radius(S), 6))
		elif g == 'random_dSS_pr':
			n, rep, real, mask = c['a']
			S = LTI.random_dSS(n, 1, 2, rep, real, mask)
			check_ss(r, W(), S, n, 1, 2)
			ev = numpy.linalg.eigvals(numpy.array(S.A))
			if real == 1. and rep == 0. and abs(ev.imag).max() > 1e-3:
				r.fail('%s: only real poles were asked, and they are %s' % (W(), ev))
			if mask == 1. and not (S.B.all() and S.C.all()):
				r.fail('%s: null elements in B or C' % W())
			seen.add(round(radius(S), 6))
		elif g == 'random_Butter':
			F = LTI.random_Butter(n=tuple(c['n']), Wc=WC, W1=W1, W2=W2, form=c['form'], onlyEven=c['even'])
			butter(r, W(), F, c)
			seen.add((F.n, F.btype, str(F.Wn)))
		elif g == 'random_Elliptic':
			F = LTI.random_Elliptic(n=tuple(c['n']), rp=(0.5, 3), rs=(30, 60), Wc=WC, W1=W1, W2=W2, form=c['form'], quant=c['quant'])
			elliptic(r, W(), F, c)
			seen.add((F.n, F.etype, str(F.Wn)))
		elif g == 'random_Gabarit':
			G = LTI.random_Gabarit()
			gabarit(r, W(), G)
			seen.add(str(G.bands))
		elif g == 'iter_random_Gabarit':
			L = list(LTI.iter_random_Gabarit(2)) + list(LTI.iter_random_Gabarit(1, 'lowpass'))
			if len(L) != 3:
				r.fail('%s: %d specifications' % (W(), len(L)))
			for G in L:
				gabarit(r, W(), G)
			seen.add(str([G.bands for G in L]))
		elif g == 'random_dTF':
			o = tuple(c['o'])
			for T in (LTI.random_dTF(o), LTI.random_dTFmp(o)):
				n = T.order if hasattr(T, 'order') else max(T.num.rows, T.num.cols) - 1
				r.step()
				if not (o[0] <= n < o[1] or n == o[0] == o[1]):
					r.fail('%s: order %s' % (W(), n))
				seen.add(n)
		elif g == 'iter_random_Filter':
			iterfilter(c, r, W, LTI, seen)
		elif g == 'iter_random_dSS':
			p, q = [x if isinstance(x, int) else tuple(x) for x in (c['p'], c['q'])]
			L = list(LTI.iter_random_dSS(2, c['stable'], (2, 4), p, q))
			if len(L) != 2:
				r.fail('%s: %d systems' % (W(), len(L)))
			for S in L:
				inr = lambda v, x: v == 1 if x == 1 else x[0] <= v < x[1]
				if not (2 <= S.n < 4 and inr(S.p, p) and inr(S.q, q)):
					r.fail('%s: sizes %s' % (W(), (S.n, S.p, S.q)))
				elif c['stable']:
					check_ss(r, W(), S, S.n, S.p, S.q)
				seen.add((S.n, S.p, S.q))
			if c['stable']:
				for S in LTI.iter_random_dSS(1, True, (2, 4), p, q, 0., 1., 1.):
					probabilities(r, W(), S)
		elif g == 'iter_random_dSSmp':
			p, q = tuple(c['p']), tuple(c['q'])
			L = list(LTI.iter_random_dSSmp(2, c['stable'], (2, 4), p, q))
			if len(L) != 2:
				r.fail('%s: %d systems' % (W(), len(L)))
			for S in L:
				n, m, k = S.A.rows, S.C.rows, S.B.cols
				if not (2 <= n < 4 and p[0] <= m < p[1] and q[0] <= k < q[1]) or (S.D.rows, S.D.cols) != (m, k) or S.A.cols != n:
					r.fail('%s: sizes %s' % (W(), (n, m, k)))
				elif c['stable']:
					check_ss(r, W(), plain(LTI, S), n, m, k)
				seen.add((n, m, k))
			if c['stable']:
				for S in LTI.iter_random_dSSmp(1, True, (2, 4), p, q, 0., 1., 1.):
					probabilities(r, W(), plain(LTI, S))
		elif g in ('iter_random_dTF', 'iter_random_dTFmp'):
			o = tuple(c['o'])
			L = list(getattr(LTI, g)(c['nb'], o))
			if len(L) != c['nb']:
				r.fail('%s: %d systems' % (W(), len(L)))
			for T in L:
				n = T.order if hasattr(T, 'order') else max(T.num.rows, T.num.cols) - 1
				r.step()
				if not (o[0] <= n < o[1] or n == o[0] == o[1]):
					r.fail('%s: order %s' % (W(), n))
				seen.add(n)
		else:
			opts = dict(onlyEven=c['even']) if g == 'iter_random_Butter' else dict(rp=(0.5, 3), rs=(30, 60), quant=c['quant'])
			L = list(getattr(LTI, g)(2, n=tuple(c['n']), Wc=WC, W1=W1, W2=W2, form=c['form'], seeded=c['seeded'], **opts))
			if len(L) != 2:
				r.fail('%s: %d filters' % (W(), len(L)))
			for F in L:
				(butter if g == 'iter_random_Butter' else elliptic)(r, W(), F, c)
				if bool(re.search(r'-\d+$', F.name)) != c['seeded']:
					r.fail('%s: named %s' % (W(), F.name))
				seen.add((F.n, str(F.Wn)))
		r.state((g, str(sorted(c.items(), key=str)), tuple(ch.taken)))

	n = run_all(f, c['depth'])
	r.count('random answers', n)
	for s in seen:
		r.outcome((g, s))


def butter(r, what, F, c):
	r.step()
	form = c['form'] or F.btype
	if form not in FORMS or (c['form'] and F.btype != c['form']):
		r.fail('%s: form %s' % (what, F.btype))
		return
	lo, hi = c['n']
	evens = [n for n in range(lo, hi) if n % 2 == 0]
	if c['even'] and F.n % 2:
		r.fail('%s: order %s is not even' % (what, F.n))
	if (not c['even'] or evens) and not lo <= F.n < hi:
		r.fail('%s: order %s' % (what, F.n))
	frequencies(r, what, F, form)
	if not F.isStable() or not F.isButter() or not stable_tf(F):
		r.fail('%s: isStable %s, isButter %s, stable %s' % (what, F.isStable(), F.isButter(), stable_tf(F)))
	if F.order != F.n * (2 if form in ('bandpass', 'bandstop') else 1):
		r.fail('%s: order %s for a %s of order %s' % (what, F.order, form, F.n))
	if not c.get('seeded') and F.name != 'Butterworth-random':
		r.fail('%s: named %s' % (what, F.name))


def elliptic(r, what, F, c):
	r.step()
	form = c['form'] or F.etype
	if form not in FORMS or (c['form'] and F.etype != c['form']):
		r.fail('%s: form %s' % (what, F.etype))
		return
	if not c['n'][0] <= F.n < c['n'][1]:
		r.fail('%s: order %s' % (what, F.n))
	q = c['quant']
	frequencies(r, what, F, form, q)
	e = 0 if not q else 0.5 / q + 1e-12
	if not (0.5 - e <= F.rp <= 3 + e and 30 - e <= F.rs <= 60 + e):
		r.fail('%s: ripples %s %s' % (what, F.rp, F.rs))
	if q and (abs(F.rp * q - round(F.rp * q)) > 1e-9 or abs(F.rs * q - round(F.rs * q)) > 1e-9):
		r.fail('%s: the ripples %s %s are not quantized' % (what, F.rp, F.rs))
	if not F.isStable() or F.isButter() or not stable_tf(F):
		r.fail('%s: isStable %s, isButter %s, stable %s' % (what, F.isStable(), F.isButter(), stable_tf(F)))
	if F.details() != {"n": F.n, "ripple passband": F.rp, "attenuation stopband": F.rs, "frequency": F.Wn, "type": F.etype}:
		r.fail('%s: details %s' % (what, F.details()))


def gabarit(r, what, G):
	r.step()
	b = G.bands
	if G.type != 'lowpass' or len(b) != 2 or not b[0].isPassBand or b[1].isPassBand:
		r.fail('%s: %s' % (what, G))
		return
	if not (b[0].F1 == 0 and 0 < b[0].F2 <= b[1].F1 <= b[1].F2 == b[0].Fs / 2. and 0 <= b[0].w1 < b[0].w2 <= b[1].w1 <= b[1].w2 == 1):
		r.fail('%s: frequencies %s' % (what, b))
	if not b[0].passGains[0] < b[0].passGains[1] or G.seed is None:
		r.fail('%s: gains %s, seed %s' % (what, b, G.seed))


def iterfilter(c, r, W, LTI, seen):
	ft = c['ft']
	L = list(LTI.iter_random_Filter(2, n=(1, 3), p=(2, 4), q=(5, 7), seeded=c['seeded'], ftype=ft))
	kinds = []
	for F in L:
		p, q = F.p, F.q
		t = {(False, False): 'MIMO', (True, True): 'SISO', (False, True): 'SIMO', (True, False): 'MISO'}[(p == 1, q == 1)]
		kinds.append(t)
		if not 1 <= F.order < 3 or p not in (1, 2, 3) or q not in (1, 5, 6):
			r.fail('%s: sizes %s' % (W(), (F.order, p, q)))
		if ft != 'all' and t != ft:
			r.fail('%s: %s' % (W(), t))
		check_ss(r, W(), F.dSS, F.order, p, q)
		m = re.match(r'RandomFilter-(\d+)/(\d+)/(\d+)-(\d+)$', F.name)
		if bool(m) != c['seeded'] or (m and tuple(map(int, m.groups()))[:3] != (F.order, p, q)):
			r.fail('%s: sizes %s named %s' % (W(), (F.order, p, q), F.name))
		r.step()
	if len(L) != 2:
		r.fail('%s: %d filters' % (W(), len(L)))
	seen.add(tuple(kinds))


def data(o):
	"""exact content of a generated object"""
	if hasattr(o, 'bands'):
		return [(b.F1, b.F2, b.passGains, b.stopGain) for b in o.bands]
	if o.name.startswith('RandomFilter'):
		return [M.tolist() for M in (o.dSS.A, o.dSS.B, o.dSS.C, o.dSS.D)]
	return [o.dTF.num.tolist(), o.dTF.den.tolist()]


def names(c, r):
	"""what the iterators give is generated again from the seed in its name, in any order and whatever was drawn in between"""
	import fixif.LTI as LTI
	kw = dict(n=(2, 6), Wc=WC, W1=W1, W2=W2, form=c['form'])
	numpy.random.seed(100 + c['s'])
	L = [('Filter', {}, o) for ft in ('SISO', 'SIMO', 'MISO', 'MIMO', 'all') for o in LTI.iter_random_Filter(c['nb'], n=(1, 4), p=(2, 4), q=(2, 4), ftype=ft)]
	for even in (True, False):
		k = dict(kw, onlyEven=even)
		L += [('Butter', k, o) for o in LTI.iter_random_Butter(c['nb'], **k)]
	for quant in (None, 64):
		k = dict(kw, rp=(0.5, 3), rs=(30, 60), quant=quant)
		L += [('Elliptic', k, o) for o in LTI.iter_random_Elliptic(c['nb'], **k)]
	L += [('Gabarit', {}, LTI.random_Gabarit(seed=1000 * c['s'] + i)) for i in range(c['nb'])]
	first = [data(o) for _, _, o in L]
	for order in (range(len(L)), range(len(L) - 1, -1, -1)):
		for i in order:
			g, k, o = L[i]
			r.step()
			if g == 'Filter':
				O = LTI.random_Filter(name=o.name)
			else:
				O = getattr(LTI, 'random_' + g)(seed=o.seed if g == 'Gabarit' else int(o.name.split('-')[-1]), **k)
			if data(O) != first[i] or data(o) != first[i]:
				r.fail('random_%s(%s): %s is not generated again from its seed' % (g, k, o if g == 'Gabarit' else o.name))
				return
			r.outcome((g, str(first[i])[:200]))
		r.state((c['form'], c['nb'], c['s'], order[0]))


def seed(c, r):
	import fixif.LTI as LTI
	ops = c['ops']
	fixed = {}
	for tail in itertools.product(ops, repeat=c['L'] - len(c['pre'])):
		seq = c['pre'] + [list(o) for o in tail]
		made = []
		numpy.random.seed(12345)
		for k, (g, s) in enumerate(seq):
			what = 'after %s, %s(seed=%s)' % (seq[:k], g, s)
			r.step()
			if g == 'draw':
				LTI.random_dTF((2, 4)), LTI.random_dSS(2, 1, 1), numpy.random.rand(), LTI.random_Filter(2, 1, 1), LTI.random_Butter(), LTI.random_Elliptic(), LTI.random_Gabarit()
				continue
			if g == 'again':
				for o in made:
					if hasattr(o, 'name') and o.name.startswith('RandomFilter'):
						O = LTI.random_Filter(name=o.name)
						if data(O) != data(o) or O.name != o.name or (O.order, O.p, O.q) != (o.order, o.p, o.q):
							r.fail('%s: the filter named %s is not generated again from its name' % (what, o.name))
							return
				continue
			if g == 'Filter':
				o = LTI.random_Filter(n=3, p=2, q=1, seed=s)
				if o.name != 'RandomFilter-3/2/1-%d' % s:
					r.fail('%s is named %s' % (what, o.name))
			elif g == 'Gabarit':
				o = LTI.random_Gabarit(seed=s)
				if o.seed != s or ('Seed=%d' % s) not in str(o):
					r.fail('%s has seed %s: %s' % (what, o.seed, o))
			else:
				o = getattr(LTI, 'random_' + g)(seed=s)
				if not o.name.endswith('-random-%d' % s):
					r.fail('%s is named %s' % (what, o.name))
			if fixed.setdefault((g, s), data(o)) != data(o):
				r.fail('%s does not give the same filter as before' % what)
				return
			made.append(o)
		r.state(tuple(map(tuple, seq)))
		for (g, s), d in fixed.items():
			r.outcome((g, s, str(d)[:200]))
		for g in ('Filter', 'Butter', 'Elliptic', 'Gabarit'):
			if (g, 0) in fixed and (g, 7) in fixed and fixed[(g, 0)] == fixed[(g, 7)]:
				r.fail('the seed of random_%s is not used' % g)


def run(c, r):
	if c['k'] == 'view':
		view(c, r)
	elif c['k'] == 'args':
		args(r)
	elif c['k'] == 'gen':
		gen(c, r)
	elif c['k'] == 'names':
		names(c, r)
	elif c['k'] == 'seed':
		seed(c, r)
	else:
		from fixif.LTI import random_dSS
		r.step()
		try:
			random_dSS(*c['a'])
			r.fail('random_dSS%s is accepted' % (tuple(c['a']),))
		except ValueError:
			r.outcome('refused')
		r.state(str(c['a']))
