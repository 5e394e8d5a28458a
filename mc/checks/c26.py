"""C26: comparisons, texts and Bode diagrams agree with the systems."""
from mc import ref, systems
from mc.sifs import BIG, jtos, build_args, NAMES
from fractions import Fraction as Fr
import cmath
import itertools
import math
import re
import numpy

ID = 'C26'
LEVEL = 'model_checking'
RULE = 'every pair (system, transformed system) of a pool x transformations (bases, useless states, an error of each side of the tolerance on every sample of every input and output, other sizes), in both orders; every pair of delays; every pair of transfer functions of an alphabet; every frequency of the Bode diagram and every number of the texts is compared. State = pair compared or object displayed, transition = one comparison'
BOUNDS = {'quick': 'n<=4, p,q<=3 in 7 families, n+p+q up to 30 for a few; errors on samples 0..12; delays 0..14; systems of orders n,m<=8 that first differ at the sample n+m; systems that share matrices; transfer functions with 1 to 3 coefficients in {0,1,-1/2} over 1 to 2; Bode diagrams of orders 1..4 and 8, 11', 'thorough': 'n<=5; errors on samples 0..20, delays 0..25; orders n,m<=11; coefficients in {0,1,-1/2,1/4}; orders 1..5'}
ASSUMPTIONS = ['an error of a hundredth of the tolerance is accepted, a hundred times the tolerance refused: the exact border is not decided', 'texts: the numbers are compared with the digits that are displayed']


def cases(tier):
	q_ = tier == 'quick'
	for s in systems.ss_pool(list(itertools.product(range(1, 5 if q_ else 6), range(1, 4), range(1, 4)))):
		yield dict(k='ss', s=list(s), K=12 if q_ else 20)
		yield dict(k='text', s=list(s))
	for s in systems.ss_big():
		yield dict(k='ss', s=list(s), K=2)
		yield dict(k='text', s=list(s))
	yield dict(k='delay', N=14 if q_ else 25)
	for n in range(1, 9 if q_ else 12):
		for m in range(1, n + 1):
			yield dict(k='late', n=n, m=m)
	al = [0., 1., -0.5] if q_ else [0., 1., -0.5, 0.25]
	for L in (1, 2, 3):
		for num in itertools.product(al, repeat=L):
			yield dict(k='tf', num=list(num), al=al)
	for name, num, den in systems.tf_pool([1, 2, 3, 4] if q_ else [1, 2, 3, 4, 5]) + systems.tf_big():
		yield dict(k='bode', num=num, den=den)
	for d in list(itertools.product(range(0, 4), range(1, 4), range(1, 3), range(1, 3))) + BIG[:2]:
		yield dict(k='sif', d=list(d), fam='full' if d[0] < 10 else 'big')
	for fs in (None, 1000., 44100):
		yield dict(k='gabarit', fs=fs)


def accepted(r, what, a, b, want, *args):
	"""comparison of a with b"""
	r.step()
	r.state((what, want))
	try:
		a.assert_close(b, *args)
		got = True
	except AssertionError:
		got = False
	except ValueError:
		# (sizes that cannot be compared)
		got = False
	r.outcome((got, what[:60]))
	if got != want:
		r.fail('%s: assert_close %s' % (what, 'accepts it' if got else 'refuses it'))
		return False
	return True


def blkdiag(A, B):
	out = numpy.zeros((A.shape[0] + B.shape[0], A.shape[1] + B.shape[1]))
	out[:A.shape[0], :A.shape[1]] = A
	out[A.shape[0]:, A.shape[1]:] = B
	return out


def disturbed(S, k, i, j, d):
	"""the same system with d added on the sample k of the output i to an impulse on the input j"""
	A, B, C, D = [numpy.array(M, dtype=float) for M in S]
	p, q = D.shape
	if k == 0:
		D = D.copy()
		D[i, j] += d
		return A, B, C, D
	Bk, Ck = numpy.zeros((k, q)), numpy.zeros((p, k))
	Bk[k - 1, j] = 1.
	Ck[i, 0] = d
	return blkdiag(A, numpy.eye(k, k, 1)), numpy.r_[B, Bk], numpy.c_[C, Ck], D


def bases(n):
	yield 'another order of the states', numpy.eye(n)[::-1]
	yield 'scaled states', numpy.diag([[2., -0.5, 4., 1.][i % 4] for i in range(n)])
	if n <= 4:
		yield 'combined states', numpy.array([[1. if i == j else 0.5 if j > i else 0. for j in range(n)] for i in range(n)])
		yield 'mixed states', numpy.array([[1. if i == j else [-1., 0.5][(i + j) % 2] if j < i else 0. for j in range(n)] for i in range(n)])


def statespaces(c, r):
	from fixif.LTI import dSS
	S = [numpy.array(M, dtype=float) for M in c['s'][1:]]
	what = 'state space %s' % c['s'][0]
	A, B, C, D = S
	n, p, q = len(A), len(D), D.shape[1]
	mk = lambda T: dSS(*[numpy.matrix(M) for M in T])
	X = mk(S)
	keep = [numpy.array(M).copy() for M in (X.A, X.B, X.C, X.D)]
	Ys = [('itself', X), ('a copy', mk(S))]
	for nm, T in bases(n):
		I = numpy.linalg.inv(T)
		Ys.append((nm, mk((I @ A @ T, I @ B, C @ T, D))))
	for v in (0., 0.5, 1.5):
		Ys.append(('an unreachable state of pole %g' % v, mk((blkdiag(A, numpy.array([[v]])), numpy.r_[B, numpy.zeros((1, q))], numpy.c_[C, numpy.ones((p, 1))], D))))
		Ys.append(('an unobservable state of pole %g' % v, mk((blkdiag(numpy.array([[v]]), A), numpy.r_[numpy.ones((1, q)), B], numpy.c_[numpy.zeros((p, 1)), C], D))))
	for nm, Y in Ys:
		for a, b in ((X, Y), (Y, X)):
			if not accepted(r, '%s and the same with %s' % (what, nm), a, b, True):
				return
			accepted(r, '%s and the same with %s (1e-8)' % (what, nm), a, b, True, 1e-8)
	# the largest samples are less than 10: errors of 1e-3 eps and 1e2 eps
	h = max(numpy.linalg.norm(numpy.array(M, dtype=float)) for M in ref.impulse_ss(*([[[Fr(float(v)) for v in row] for row in M] for M in S] + [c['K'] + 1])))
	places = [(i, j) for i in range(p) for j in range(q)] if p * q < 10 else [(0, 0), (p - 1, 0), (0, q - 1), (p - 1, q - 1), (p // 2, q // 2)]
	for k in range(c['K'] + 1):
		for i, j in places:
			for eps in ((), (1e-3,)):
				e = eps[0] if eps else 1e-5
				for d, ok in ((e * 1e-2, True), (e * 1e2 * max(1, h), False), (-e * 1e2 * max(1, h), False)):
					Y = mk(disturbed(S, k, i, j, d))
					w = '%s and the same with %g on the sample %d of the output %d to the input %d (tolerance %g)' % (what, d, k, i, j, e)
					if not (accepted(r, w, X, Y, ok, *eps) and accepted(r, w + ', in the other order', Y, X, ok, *eps)):
						return
	# systems that share some of their matrices
	M = [X.A, X.B, X.C, X.D]
	for share in itertools.product((True, False), repeat=4):
		L = [m if k else m.copy() for m, k in zip(M, share)]
		accepted(r, '%s and the same that shares %s' % (what, share), X, dSS(*L), True)
		for t in range(4):
			if not share[t]:
				L2 = list(L)
				L2[t] = M[t] + 1.
				Y = dSS(*L2)
				# (the first samples tell)
				h = [Y.C * Y.A ** k * Y.B - X.C * X.A ** k * X.B for k in range(3)] + [Y.D - X.D]
				if max(numpy.linalg.norm(v) for v in h) > 1e-3:
					accepted(r, '%s and another one (%s) that shares %s' % (what, 'ABCD'[t], share), X, Y, False)
	# other sizes
	for (a, b) in ((1, 0), (0, 1), (1, 1)):
		Y = mk((A, numpy.c_[B, B[:, :1]] if b else B, numpy.r_[C, C[:1]] if a else C, numpy.r_[numpy.c_[D, D[:, :1]] if b else D, (numpy.c_[D, D[:, :1]] if b else D)[:1]] if a else numpy.c_[D, D[:, :1]]))
		accepted(r, '%s and the same with %d more outputs and %d more inputs' % (what, a, b), X, Y, False)
		accepted(r, '%s and the same with %d outputs and %d inputs less' % (what, a, b), Y, X, False)
	if any(not numpy.array_equal(a, numpy.array(b)) for a, b in zip(keep, (X.A, X.B, X.C, X.D))):
		r.fail('%s: the comparison modifies it' % what)


def delays(c, r):
	from fixif.LTI import dSS, dTF
	N = c['N']
	sys = [dTF([0.] * k + [1.], [1.] + [0.] * N).to_dSS() for k in range(N + 1)]
	short = [dTF([0.] * k + [1.], [1.] + [0.] * max(k, 1)).to_dSS() for k in range(N + 1)]
	null = dSS(*[numpy.matrix([[v]]) for v in (0.5, 1., 0., 0.)])
	for i, j in itertools.product(range(N + 1), repeat=2):
		for X, Y in ((sys[i], sys[j]), (short[i], sys[j]), (sys[i], short[j]), (short[i], short[j])):
			accepted(r, 'z^-%d and z^-%d' % (i, j), X, Y, i == j)
		accepted(r, 'z^-%d and 0' % i, short[i], null, False)
		accepted(r, '0 and z^-%d' % i, null, short[i], False)


def late(c, r):
	"""systems of orders n and m, the impulse responses of which are the same until the sample n+m-1 (included or not)"""
	from fixif.LTI import dSS
	n, m = c['n'], c['m']
	# 1/(1 - z^-m/2) and its first n+m (or n+m-1) samples: rational function of orders m, and FIR of order n
	for g in (1., 0.25):
		# recurrent impulse response of order m: impulse of gain g every m samples, divided by 2
		A = numpy.eye(m, m, -1)
		A[0, m - 1] += 0.5
		B, C = numpy.zeros((m, 1)), numpy.zeros((1, m))
		B[0, 0], C[0, m - 1] = g, 1.
		X = dSS(numpy.matrix(A), numpy.matrix(B), numpy.matrix(C), numpy.matrix([[0.]]))
		h = [float(numpy.array(v).ravel()[0]) for v in ref.impulse_ss(*[[[Fr(float(v)) for v in row] for row in M] for M in (A, B, C, [[0.]])], 4 * (n + m))]
		for N in range(n, n + m + 1):
			# FIR with its N first samples after D
			Y = dSS(numpy.matrix(numpy.eye(N, N, -1)), numpy.matrix(numpy.eye(N, 1)), numpy.matrix([h[1:N + 1]]), numpy.matrix([[h[0]]]))
			accepted(r, 'a recurrent system of order %d and its %d first samples' % (m, N), X, Y, False)
			accepted(r, 'the %d first samples of a recurrent system of order %d and it' % (N, m), Y, X, False)
	# the two responses differ for the first time at the sample n+m: N1/z^n and N2/(z^m-1/2) where N1 (z^m-1/2) - N2 z^n is constant
	N1 = [0.] * n
	for k in range(0, n, m):
		N1[k] = -2. ** (k // m + 1)
	P = numpy.zeros(n + m)
	for i, v in enumerate(N1):
		P[i + m] += v
		P[i] -= v / 2
	N2 = P[n:]
	const = P[0]
	assert not P[1:n].any() and const
	for scale in (1., 0.125):
		Y1 = dSS(*[numpy.matrix(M) for M in companion([0.] * n, [v * scale for v in N1])])
		Y2 = dSS(*[numpy.matrix(M) for M in companion([-0.5] + [0.] * (m - 1), [v * scale for v in N2])])
		hs = [[float(numpy.array(v).ravel()[0]) for v in ref.impulse_ss(*[[[Fr(float(v)) for v in row] for row in M] for M in (Y.A.tolist(), Y.B.tolist(), Y.C.tolist(), Y.D.tolist())], n + m + 2)] for Y in (Y1, Y2)]
		first = min(k for k in range(n + m + 2) if hs[0][k] != hs[1][k])
		assert first == n + m, first
		r.outcome((n, m, first))
		accepted(r, 'systems of orders %d and %d that differ from the sample %d' % (n, m, first), Y1, Y2, False)
		accepted(r, 'systems of orders %d and %d that differ from the sample %d' % (m, n, first), Y2, Y1, False)


def companion(den, num):
	"""sum num[i] z^i / (z^n + sum den[i] z^i)"""
	n = len(den)
	A = numpy.eye(n, n, 1)
	A[n - 1] -= den
	B = numpy.zeros((n, 1))
	B[n - 1, 0] = 1.
	return A, B, numpy.array([num]), numpy.zeros((1, 1))


def functions(c, r):
	from fixif.LTI import dTF
	num = c['num']
	dens = [[g] + list(d) for g in (1., 2.) for L in (0, 1) for d in itertools.product(c['al'], repeat=L)]
	pad = lambda v, n: list(v) + [0.] * (n - len(v))

	def canon(a, b):
		n = max(len(a), len(b), 5)
		return [v / b[0] for v in pad(a, n) + pad(b, n)]
	for den in dens:
		X = dTF(num, den)
		for L in (1, 2, 3):
			for num2 in itertools.product(c['al'], repeat=L):
				for den2 in dens:
					Y = dTF(list(num2), den2)
					if not accepted(r, 'transfer functions %s/%s and %s/%s' % (num, den, list(num2), den2), X, Y, canon(num, den) == canon(num2, den2)):
						return
		# an error on each coefficient
		a, b = pad(num, 4), pad(den, 4)
		for k in range(8):
			if k == 4:
				continue
			for eps in ((), (1e-3,), (1e-11,)):
				e = eps[0] if eps else 1e-7
				for d, ok in ((e * 1e-2, True), (e * 1e2, False), (-e * 1e2, False)):
					z = a + b
					z[k] += d * den[0]
					Y = dTF(z[:4], z[4:])
					w = 'transfer function %s/%s and the same with %g on the coefficient %d' % (num, den, d, k)
					if not (accepted(r, w, X, Y, ok, *eps) and accepted(r, w + ', in the other order', Y, X, ok, *eps)):
						return
		# errors on each coefficient of the same with large coefficients (the errors are absolute ones)
		a, b = [v * 1024. for v in pad(num, 4)], [1.] + [v * 1024. for v in pad(den, 4)[1:]]
		for k in range(8):
			if k == 4:
				continue
			for d, ok in ((0., True), (1e-5, False), (-1e-5, False)):
				z = a + b
				z[k] += d
				if not accepted(r, 'transfer function %s/%s and the same with %g on the coefficient %d' % (a, b, d, k), dTF(a, b), dTF(z[:4], z[4:]), ok):
					return
		if X.num.tolist()[0] + X.den.tolist()[0] != [v / den[0] for v in pad(num, X.order + 1) + pad(den, X.order + 1)]:
			r.fail('transfer function %s/%s: the comparisons modify it' % (num, den))
		# peak gain
		if all(abs(v) < den[0] for v in den[1:]):
			h = ref.impulse_tf(num, den, 80)
			for k in range(2):
				r.step()
				g = float(numpy.array(X.WCPG()).ravel()[0])
				if abs(g - float(sum(map(abs, h)))) > 1e-9 * (1 + g):
					r.fail('transfer function %s/%s: its peak gain is %g instead of %g' % (num, den, g, float(sum(map(abs, h)))))


def bode(c, r):
	from fixif.LTI import dTF
	import matplotlib.pyplot as plt
	num, den = c['num'], c['den']
	X = dTF(num, den)
	what = 'Bode diagram of %s/%s' % (num, den)
	old = plt.show
	for wmin in (None, 1e-2, 0.5):
		shown = []
		plt.close('all')
		plt.show = lambda *a, **k: shown.append([[l.get_xydata() for l in ax.lines] for ax in plt.gcf().axes])
		try:
			X.bode(**({} if wmin is None else dict(wmin=wmin)))
		finally:
			plt.show = old
			plt.close('all')
		if len(shown) != 1 or len(shown[0]) != 2:
			r.fail('%s: %s diagrams are displayed' % (what, [len(s) for s in shown]))
			return
		w0 = 1e-3 if wmin is None else wmin
		mag, phase = [max(lines, key=len) for lines in shown[0]]
		for nm, curve in (('magnitude', mag), ('phase', phase)):
			ws = [w for w, _ in curve]
			if len(ws) < 50 or abs(ws[0] - w0) > 1e-6 or abs(ws[-1] - math.pi) > 1e-2 or any(a >= b for a, b in zip(ws, ws[1:])):
				r.fail('%s: the %s is drawn from %g to %g with %d points' % (what, nm, ws[0], ws[-1], len(ws)))
				return
			for w, v in curve:
				z = cmath.exp(-1j * w)
				d = sum(a * z ** i for i, a in enumerate(den))
				nn = sum(a * z ** i for i, a in enumerate(num))
				r.step()
				if abs(d) < 1e-4 or abs(nn) < 1e-4:
					continue
				H = nn / d
				if nm == 'magnitude':
					ok = abs(v - 20 * math.log10(abs(H))) < 1e-5
				else:
					t = (v - math.degrees(cmath.phase(H))) / 360
					ok = abs(t - round(t)) < 1e-5
				if not ok:
					r.fail('%s: at the frequency %g the %s is %g, where H=%s' % (what, w, nm, v, H))
					return
		r.state((what, w0))
		r.outcome((what, float(mag[10][1]), float(phase[10][1])))


NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def numbers(t):
	return [float(x) for x in NUM.findall(t)]


def near(got, want):
	s = max([abs(v) for v in want] + [1.])
	return len(got) == len(want) and all(abs(a - b) <= 1e-6 * s for a, b in zip(got, want))


def sstext(c, r):
	from fixif.LTI import dSS
	S = c['s'][1:]
	X = dSS(*[numpy.matrix(M) for M in S])
	what = 'text of the state space %s' % c['s'][0]
	for k in range(2):
		t = str(X)
		r.step()
		m = re.search(r'(\d+) states?, (\d+) outputs? and (\d+) inputs?', t)
		if not m or tuple(map(int, m.groups())) != (len(S[0]), len(S[3]), len(S[3][0])):
			r.fail('%s: sizes are not given in %s' % (what, t))
			return
		m = re.search(r'\bA *=(.*)\bB *=(.*)\bC *=(.*)\bD *=(.*)', t, re.S)
		if not m:
			r.fail('%s: %s' % (what, t))
			return
		for nm, x, M in zip('ABCD', m.groups(), S):
			r.state((what, nm))
			if '...' not in x and not near(numbers(x), [v for row in M for v in row]):
				r.fail('%s: %s is displayed as %s' % (what, nm, x))
				return
		r.outcome(t)
		X.Wo if False else X.H2norm() if c['s'][0].startswith(('diag', 'dense')) else None


def siftext(c, r):
	from fixif.SIF import SIF, Realization
	l, n, p, q = d = tuple(c['d'])
	D = jtos(*d, c['fam'])
	S = SIF(build_args(D, *d))
	R = Realization(None, build_args(D, *d), structureName='the structure')
	for nm, X in (('SIF', S), ('realization', R)):
		for edited in (False, True):
			if edited:
				X.Q = X.Q + 0.25
			t = str(X)
			what = 'text of the %s %s' % (nm, list(d))
			r.step()
			r.state((what, edited))
			r.outcome(t)
			m = re.search(r'l *= *(\d+), *n *= *(\d+), *p *= *(\d+), *q *= *(\d+)', t)
			if not m or tuple(map(int, m.groups())) != d:
				r.fail('%s: sizes are not given in %s' % (what, t))
				return
			m = re.search(r'\((\d+) inter\w+ variables?, (\d+) states?, (\d+) inputs?, (\d+) outputs?\)', t)
			if m and tuple(map(int, m.groups())) != (l, n, q, p):
				r.fail('%s: wrong sizes in %s' % (what, t))
			m = re.search(r'\bZ *=(.*)\bdZ *=(.*)', t, re.S)
			if not m:
				r.fail('%s: %s' % (what, t))
				return
			for nm2, x, M in zip(('Z', 'dZ'), m.groups(), (X.Z, X.dZ)):
				if '...' not in x and not near(numbers(x), numpy.array(M, dtype=float).ravel().tolist()):
					r.fail('%s: %s is displayed as %s' % (what, nm2, x))
					return
			if nm == 'realization' and R.name not in t:
				r.fail('%s: no name in %s' % (what, t))


def gabarit(c, r):
	from fixif.LTI import Gabarit
	fs = c['fs']
	f = 1. if fs is None else fs
	F = [(0, .1 * f), (.15 * f, .2 * f), (.25 * f, .3 * f), (.35 * f, None)]
	pas, sto = [(0, -0.5), (0.5, -1)], [-20, -40.5]
	for nb in (2, 3, 4):
		for kinds in itertools.product((True, False), repeat=nb):
			if len(set(kinds)) < 2:
				continue
			for v in (0, 1):
				gains = [pas[(i + v) % 2] if k else sto[(i + v) % 2] for i, k in enumerate(kinds)]
				bands = F[:nb - 1] + [(F[nb - 1][0], None)]
				r.step()
				r.state((fs, kinds, v))
				G = Gabarit(fs, bands, gains)
				t = str(G)
				r.outcome(t)
				what = 'text of the gabarit %s %s %s: %s' % (fs, bands, gains, t)
				lines = [x for x in t.split('\n') if 'Freq' in x]
				if len(lines) != nb:
					r.fail(what)
					return
				for x, b, k, g in zip(lines, G.bands, kinds, gains):
					want = [float(b.F1), float(b.F2 if b.F2 is not None else (fs or 2.) / 2)] + (sorted(map(float, g)) if k else [float(g)])
					got = numbers(x.replace('Hz', ' '))
					if not near(got[:2] + sorted(got[2:]), want) or ('pass' in x.lower()) != k or ('stop' in x.lower()) == k:
						r.fail(what)
						return


def run(c, r):
	dict(ss=statespaces, delay=delays, late=late, tf=functions, bode=bode, text=sstext, sif=siftext, gabarit=gabarit)[c['k']](c, r)
