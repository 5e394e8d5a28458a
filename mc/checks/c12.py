"""C12: the systems associated to an implicit form describe its internal variables and its errors."""
from mc import ref
from mc.sifs import some_patterns, BIG, jtos, build_args, Exact, NAMES, shapes, npm
from fractions import Fraction as Fr
import contextlib
import io
import itertools
import numpy

ID = 'C12'
LEVEL = 'model_checking'
RULE = 'for every dimension tuple and coefficient family, an impulse on every input, and an error of every kind at every place, is propagated exactly step by step (state = exact internal state, transition = one time step), and compared with the answers of Hu, Hzeta, Hepsilon, computeDeltaSIF, the degraded and the error forms; worst inputs: all sign sequences are tried'
BOUNDS = {'quick': 'l<=3, n<=3, p,q<=2, 5 coefficient families, 6 time steps; all +-1 input sequences of up to 4 samples (2 inputs) or 6 (1 input); word-lengths 4 and 8; poles near the unit circle and slow responses', 'thorough': 'l<=4, n<=4, p,q<=3, 10 time steps; sign sequences up to 6 (2 inputs) or 9 (1 input)'}
ASSUMPTIONS = ['fixed-point constants (companion package fixif.FxP) are replaced by round-to-nearest approximations']


def cases(tier):
	q_ = tier == 'quick'
	for d in BIG:
		yield dict(k='imp', d=list(d), fam='big', N=6)
		yield dict(k='tilde', d=list(d), fam='big', N=5)
	for d, fam in some_patterns(q_, [1, 3, 4] if q_ else range(6)):
		yield dict(k='imp', d=d, fam=fam, N=5)
		if fam[2:].count('1') == 1 or not q_:
			yield dict(k='tilde', d=d, fam=fam, N=4)
	for d in itertools.product(range(0, 4 if q_ else 5), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		for fam in ('full', 'sparse', 'pow2', 'upper', 'int', 'mag'):
			yield dict(k='imp', d=list(d), fam=fam, N=6 if q_ else 10)
			if fam != 'int' and (fam != 'mag' or sum(d) < 8 or not q_):
				yield dict(k='tilde', d=list(d), fam=fam, N=5 if q_ else 8)
			if fam == 'full':
				# (every coefficient is approximated, those of J included)
				yield dict(k='tilde', d=list(d), fam='fine', N=5 if q_ else 8)
			if d[2] == 1 and d[3] <= 2 and d[1] <= 3:
				yield dict(k='long', d=list(d), fam=fam)
				if fam == 'full':
					yield dict(k='long', d=list(d), fam='slow')
				for N in range(1, (7 if d[3] == 1 else 5) if q_ else (10 if d[3] == 1 else 7)):
					yield dict(k='worst', d=list(d), fam=fam, N=N)


def fine(D):
	"""the coefficients of D with 9 more bits, none of them exactly represented with 8 bits"""
	return {x: [[v * (1 + (((7 * i + 5 * j + 3 * k) % 30) * 2 + 1) / 512. * (-1) ** (i + k)) if x != 'J' or i > j else v for j, v in enumerate(row)] for i, row in enumerate(D[x])] for k, x in enumerate(NAMES)}


def outputs(H, j, N):
	"""first N outputs of the state-space H to an impulse on input j"""
	A, B, C, D = [numpy.array(X, dtype=float) for X in (H.A, H.B, H.C, H.D)]
	out = [D[:, j]]
	x = B[:, j]
	for _ in range(N - 1):
		out.append(C @ x)
		x = A @ x
	return out


def cmp(r, what, got, want, bound):
	"""bound: the same answers with absolute values everywhere, to compare small answers"""
	bad = len(got) != len(want) or any(abs(Fr(float(g)) - w) > Fr(1, 10 ** 9) * b for x, y, z in zip(got, want, bound) for g, w, b in zip(x, y, z))
	if bad or not ref.closemat(numpy.array(got), want, 1e-9, 1e-11):
		r.fail('%s: answers %s instead of %s' % (what, [list(x) for x in got], ref.show(want)))


def run(c, r):
	from fixif.SIF import SIF
	l, n, p, q = d = tuple(c['d'])
	D = fine(jtos(l, n, p, q, 'full')) if c['fam'] == 'fine' else jtos(l, n, p, q, c['fam'] if c['fam'] != 'slow' else 'full')
	if c['fam'] == 'slow':
		D = dict(jtos(l, n, p, q, 'full'))
		D['P'] = [[v if i != j else -0.9375 if i % 2 == 0 else 0.875 for j, v in enumerate(row)] for i, row in enumerate(D['P'])]
	S = SIF(build_args(D, *d))
	E = Exact(D, *d)
	N = c.get('N')
	what = 'SIF %s %s' % (list(d), c['fam'])
	if c['k'] == 'imp':
		for nm, H, size in (('Hu', S.Hu, (n, l + n + p, q)), ('Hzeta', S.Hzeta, (n, l + n + p, q)), ('Hepsilon', S.Hepsilon, (n, p, l + n + p)), ('computeDeltaSIF', S.computeDeltaSIF().dSS, (n, p, l + n + p))):
			if (H.n, H.p, H.q) != size:
				r.fail('%s: %s has n,p,q=%s instead of %s' % (what, nm, (H.n, H.p, H.q), size))
				return
		if p > 1:
			try:
				S.generate_inputs([1.] * q, 4)
				r.fail('%s: worst inputs are given for %d outputs' % (what, p))
			except ValueError:
				pass
		for j in range(q):
			ex, bx = E.impulse(N, j), E.bound().impulse(N, j)
			r.step(N)
			for o in ex:
				r.state((what, o[1]))
			cmp(r, what + ' Hu input %d' % j, outputs(S.Hu, j, N), [t + xp + y for t, x, xp, y in ex], [t + xp + y for t, x, xp, y in bx])
			cmp(r, what + ' Hzeta input %d' % j, outputs(S.Hzeta, j, N), [t + x + y for t, x, xp, y in ex], [t + x + y for t, x, xp, y in bx])
		k = 0
		De = S.computeDeltaSIF()
		for kind, size in ((0, l), (1, n), (2, p)):
			for j in range(size):
				ex, bx = E.error_impulse(N, kind, j), E.bound().error_impulse(N, kind, j)
				r.step(N)
				r.outcome(ref.show(ex))
				cmp(r, what + ' Hepsilon error %d' % k, outputs(S.Hepsilon, k, N), ex, bx)
				cmp(r, what + ' computeDeltaSIF error %d' % k, outputs(De.dSS, k, N), ex, bx)
				k += 1
		# Zcomp: Z without the diagonal of J
		Z = numpy.array(S.Z)
		W = Z.copy()
		for i in range(l):
			W[i, i] = 0
		if not numpy.array_equal(numpy.array(S.Zcomp), W) or not numpy.array_equal(numpy.array(S.Z), Z):
			r.fail('%s: Zcomp = %s' % (what, S.Zcomp.tolist()))
		if l and not numpy.allclose(numpy.array(S.invJ) @ numpy.array(S.J), numpy.eye(l)):
			r.fail('%s: invJ = %s' % (what, S.invJ.tolist()))
		return
	if c['k'] == 'long':
		# (the last output is linear: its maximum is the sum of the absolute answers)
		hs = [[y[0] for t, x, xp, y in E.impulse(70, j)] for j in range(q)]
		for N in (8, 17, 33, 50, 70):
			if c['fam'] != 'int' and max(abs(numpy.linalg.eigvals(numpy.array(S.AZ)))) > 3 and N > 33:
				continue
			ub = [1., 4.][:q]
			U = S.generate_inputs(ub, N)
			if U.shape != (q, N) or any(abs(U[i, k]) > ub[i] for i in range(q) for k in range(N)):
				r.fail('%s: generate_inputs gives %s for N=%d' % (what, U.tolist(), N))
				return
			best = sum(Fr(ub[j]) * abs(h) for j in range(q) for h in hs[j][:N])
			got = sum(Fr(float(U[j, k])) * hs[j][N - 1 - k] for j in range(q) for k in range(N))
			r.step(N)
			r.state((what, N))
			r.outcome('long')
			if best - got > Fr(1, 10 ** 12) * best:
				r.fail('%s: the %d inputs lead to the output %s, but %s can be reached: %s' % (what, N, float(got), float(best), U.tolist()))
				return
		return
	if c['k'] == 'worst':
		if N == 1:
			for bad in ([1.] * (q + 1), numpy.matrix(numpy.ones((q, 2))), numpy.ones((2, q))):
				if numpy.matrix(bad).shape in ((1, q), (q, 1)):
					continue
				try:
					S.generate_inputs(bad, N)
					r.fail('%s: bounds of shape %s are accepted' % (what, numpy.matrix(bad).shape))
				except ValueError:
					r.outcome('refused')
		ubars = [[1.], [0.5]] if q == 1 else [[1., 1.], [0.5, 4.]]
		for ub in ubars:
			best = None
			for signs in itertools.product((1, -1), repeat=q * N):
				us = [[Fr(ub[j]) * signs[k * q + j] for j in range(q)] for k in range(N)]
				y = E.run(us)[-1][3][0]
				r.step(N)
				best = y if best is None or y > best else best
			for form in (ub, numpy.matrix(ub), numpy.matrix(ub).T):
				U = S.generate_inputs(form, N)
				if U.shape != (q, N):
					r.fail('%s: generate_inputs gives %s for N=%d' % (what, U.shape, N))
					continue
				for i in range(q):
					if max(abs(U[i, k]) for k in range(N)) > ub[i]:
						r.fail('%s: generate_inputs outside of the interval: %s' % (what, U.tolist()))
				got = E.run([[Fr(float(U[j, k])) for j in range(q)] for k in range(N)])[-1][3][0]
				r.state((what, U.tolist()))
				r.outcome(str(got))
				if got != best:
					r.fail('%s: the inputs %s lead to the output %s, but %s can be reached' % (what, U.tolist(), float(got), float(best)))
		return
	# degraded form: each coefficient approximated; error form: degraded with errors - exact
	from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar, WCPG_txy
	from fixif.FxP import Constant
	for w in (4, 8):
		T, G = SIFH_to_SIFHstar(S, w)
		Dt = {x: [[v if v in (-1, 0, 1) else Constant(v, w).approx for v in row] for row in D[x]] for x in NAMES}
		Et = Exact(Dt, *d)
		for x in NAMES:
			a, b = shapes(*d)[x]
			if a and b and not numpy.array_equal(getattr(T, x), npm(Dt[x], a, b)):
				r.fail('%s: approximated %s is %s' % (what, x, getattr(T, x).tolist()))
		if (G.dSS.n, G.dSS.p, G.dSS.q) != (2 * n, p, q + l + n + p):
			r.fail('%s: error form of size %s' % (what, G.size))
			continue
		for j in range(q):
			a, b = E.impulse(N, j), Et.impulse(N, j)
			r.step(N)
			for o in b:
				r.state((what, w, o[1]))
			cmp(r, what + ' w=%d error form input %d' % (w, j), outputs(G.dSS, j, N), [ref.sub([y1[3]], [y0[3]])[0] for y0, y1 in zip(a, b)], [ref.add([y1[3]], [y0[3]])[0] for y0, y1 in zip(E.bound().impulse(N, j), Et.bound().impulse(N, j))])
		# peak gains from the inputs to the intermediate variables, next states and outputs, of both forms
		for nm, X, Y in (('exact', S, E), ('degraded', T, Et)):
			g = Fr(0)
			a = numpy.matrix([[float(v) for v in row] for row in Y.ss()[0]])
			if max(abs(numpy.linalg.eigvals(a))) > 0.97:
				continue
			# (the step is executed exactly on each state and each input; then its answers are summed)
			cols = [sum((list(v) for v in Y.step([Fr(int(i == k)) for i in range(n)], [Fr(int(i + n == k)) for i in range(q)])), []) for k in range(n + q)]
			Mx = numpy.array([[float(cols[k][i]) for k in range(n)] for i in range(l + n + p)]).reshape(l + n + p, n)
			Mu = numpy.array([[float(cols[n + k][i]) for k in range(q)] for i in range(l + n + p)]).reshape(l + n + p, q)
			want = abs(Mu)
			x = Mu[l:l + n]
			for _ in range(3000):
				o = Mx @ x
				want = want + abs(o)
				x = o[l:l + n]
				if (abs(o) <= 1e-16 * want).all():
					break
			got = numpy.array(WCPG_txy(X), dtype=float)
			r.step(l + n + p)
			if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-7, atol=0 if c['fam'] == 'mag' else 1e-9):
				r.fail('%s: peak gains of the %s form (to t, x, y) are %s instead of %s' % (what, nm, got.tolist(), want.tolist()))
		# asking to display the gains changes nothing
		out = io.StringIO()
		try:
			with contextlib.redirect_stdout(out):
				T2, G2 = SIFH_to_SIFHstar(S, w, prints=True)
		except ValueError:
			# (no peak gain for an unstable system)
			T2, G2 = T, G
		if not numpy.array_equal(T2.Z, T.Z) or not numpy.array_equal(G2.Z, G.Z):
			r.fail('%s: displaying the gains changes the degraded or the error form' % what)
		k = q
		for kind, size in ((0, l), (1, n), (2, p)):
			for j in range(size):
				cmp(r, what + ' w=%d error form error %d' % (w, k - q), outputs(G.dSS, k, N), Et.error_impulse(N, kind, j), Et.bound().error_impulse(N, kind, j))
				k += 1
