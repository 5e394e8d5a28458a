"""C08: derived quantities of a state-space always describe its current matrices, whatever was done before."""
from mc import ref
from mc.systems import ss_pool, ss_big, ss_mag
from fractions import Fraction as Fr
import itertools
import numpy

ID = 'C08'
LEVEL = 'model_checking'
RULE = 'all sequences (to a depth) of queries, changes of basis, conversions and algebra on one real object (state = matrices + set of quantities already computed, transition = one operation); in every state every quantity asked is compared with its defining equation'
BOUNDS = {'quick': 'sequences of 4 operations over 11 operations, systems with n<=3, p,q<=2; systems that are nearly the same (each answers with its own values)', 'thorough': 'sequences of 6 operations, more systems (n<=4)'}
ASSUMPTIONS = ['Gramians are decided by the residual of their Lyapunov equation, norms by truncated sums of the impulse response (stable systems)', 'the WCPG library is replaced by a direct summation']


def cases(tier):
	q = tier == 'quick'
	sizes = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2)] + ([] if q else [(3, 1, 1), (4, 1, 1), (1, 2, 2), (4, 2, 2)])
	for s in ss_pool(sizes, ['dense', 'nilpotent', 'rot'] if q else None):
		A = numpy.matrix(s[1])
		if max(abs(numpy.linalg.eigvals(A))) >= 0.95:
			continue
		for first in NAMES:
			yield dict(s=s, first=first, depth=3 if q else 5)
	for s in ss_pool([(1, 1, 1), (2, 2, 2), (3, 2, 1)], ['dense', 'nilpotent', 'jordan']) + ss_big():
		yield dict(s=s, single=1)
	for s in ss_big():
		for first in NAMES:
			yield dict(s=s, first=first, depth=1 if q else 2)
	for s in ss_mag():
		A = numpy.matrix(s[1])
		if max(abs(numpy.linalg.eigvals(A))) < 0.95:
			yield dict(s=s, mag=1)
	# systems that are nearly the same, alive in the same process
	for k in range(3):
		for first in NAMES:
			yield dict(near=k, first=first)
	for A in MARGINAL:
		for first in ('Wo', 'Wc'):
			yield dict(A=A, marginal=first)


MARGINAL = [[[1.]], [[-1.]], [[2., 0.], [0., 0.5]], [[0., 1.], [-1., 0.]], [[1., 0.], [0., 0.5]], [[0.5, 1.], [0., 1.]], [[1., 0., 0.], [0.25, 0.5, 0.], [0., 0., -0.5]]]


NAMES = ['Wo', 'Wc', 'H2', 'WCPG', 'DC', 'T0', 'T1', 'conv', 'sub', 'sum', 'info']


def trans(n, k):
	if k == 0:
		T = numpy.matrix(numpy.diag([2. ** (i - 1) * (-1) ** i for i in range(n)]))
		T[0, n - 1] += 1.
		return T
	T = numpy.matrix(numpy.eye(n)[::-1].copy())
	T[0, 0] += 0.5
	return T


def truth(S):
	"""exact-ish reference of the basis independent quantities, from the original matrices"""
	A, B, C, D = [numpy.array(m) for m in S]
	h2 = (D * D).sum()
	w = abs(D)
	x = B.copy()
	for k in range(3000):
		t = C.dot(x)
		h2 = h2 + (t * t).sum()
		w = w + abs(t)
		x = A.dot(x)
		if abs(x).max() < 1e-30:
			break
	try:
		dc = C.dot(numpy.linalg.solve(numpy.eye(len(A)) - A, B)) + D
	except numpy.linalg.LinAlgError:
		dc = None
	return dict(H2=h2 ** 0.5, WCPG=w, DC=dc)


def apply(r, name, X, t, path):
	"""does the operation on X and compares what it answers"""
	what = ' -> '.join(path)
	A, B, C, D = X.A, X.B, X.C, X.D
	r.step()
	if name == 'Wo':
		W = X.Wo
		R = A.T * W * A + C.T * C
		if W.shape != A.shape or not ref.closemat(R, W, 1e-8, 1e-9):
			r.fail('%s: Wo = %s is not the observability Gramian of A=%s C=%s' % (what, W.tolist(), A.tolist(), C.tolist()))
	elif name == 'Wc':
		W = X.Wc
		R = A * W * A.T + B * B.T
		if W.shape != A.shape or not ref.closemat(R, W, 1e-8, 1e-9):
			r.fail('%s: Wc = %s is not the controllability Gramian of A=%s B=%s' % (what, W.tolist(), A.tolist(), B.tolist()))
	elif name == 'H2':
		v = X.H2norm()
		if not ref.close(v, t['H2'], 1e-7, 1e-9):
			r.fail('%s: H2 norm %s instead of %s' % (what, v, t['H2']))
	elif name in ('WCPG', 'info'):
		if name == 'info':
			d = {}
			v = X.WCPG(d)
			if not d:
				r.fail('%s: WCPG gives no information on its computation' % what)
		else:
			v = X.WCPG()
		if not ref.closemat(numpy.matrix(v), numpy.matrix(t['WCPG']), 1e-7, 1e-9):
			r.fail('%s: WCPG %s instead of %s' % (what, v, t['WCPG']))
	elif name == 'DC':
		if t['DC'] is not None:
			v = X.calc_DC_gain()
			if not ref.closemat(numpy.matrix(v), numpy.matrix(t['DC']), 1e-7, 1e-9):
				r.fail('%s: DC gain %s instead of %s' % (what, v, t['DC']))
	elif name in ('T0', 'T1'):
		X.similarity(trans(X.n, int(name[1])))
	elif name == 'conv':
		str(X)
		X.to_dSSmp()
		X.simplify()
	elif name == 'sub':
		# quantities of a derived system are its own
		Y = X[0, 0]
		R = Y.A.T * Y.Wo * Y.A + Y.C.T * Y.C
		if not ref.closemat(R, Y.Wo, 1e-8, 1e-9):
			r.fail('%s: Gramian of the subsystem [0,0]' % what)
		if not ref.close(float(numpy.matrix(Y.WCPG())[0, 0]), t['WCPG'][0][0], 1e-7, 1e-9):
			r.fail('%s: WCPG of the subsystem [0,0]: %s instead of %s' % (what, Y.WCPG(), t['WCPG'][0][0]))
	elif name == 'sum':
		Y = X + X
		if not ref.closemat(numpy.matrix(Y.WCPG()), numpy.matrix(2 * t['WCPG']), 1e-7, 1e-9):
			r.fail('%s: WCPG of X+X is %s instead of twice %s' % (what, Y.WCPG(), t['WCPG']))
		if not ref.close(Y.H2norm(), 2 * t['H2'], 1e-7, 1e-9):
			r.fail('%s: H2 norm of X+X is %s instead of %s' % (what, Y.H2norm(), 2 * t['H2']))


def run(c, r):
	from fixif.LTI import dSS
	if 'marginal' in c:
		marginal(c, r)
		return
	if 'near' in c:
		# a pole close to 1: small differences are visible in all the quantities
		a = 1 - 2. ** -6
		Ss = []
		for k in range(4):
			e = k * 2. ** -28
			Ss.append([([[a - e]], [[1.]], [[1.]], [[0.5]]), ([[a - e, 0.], [0., -0.5]], [[1.], [2.]], [[1., -1.]], [[1.]]), ([[0.5, 0.25, 0.], [0., a - e, 0.5], [0., 0., -0.25]], [[1., 0.], [1., 1.], [0., 2.]], [[1., 1., 0.], [0., 1., -1.]], [[0., 1.], [1., 0.]])][c['near']])
		ts = [truth(S) for S in Ss]
		for order in itertools.permutations(range(4), 3):
			Xs = {k: dSS(*[numpy.matrix(m) for m in Ss[k]]) for k in order}
			quiet(c['first'], Xs[order[0]])
			for k in order[1:] + order[:1]:
				X, t = Xs[k], ts[k]
				r.state((c['near'], c['first'], order, k))
				r.step()
				for q, got in (('WCPG', X.WCPG()), ('H2', X.H2norm()), ('DC', X.calc_DC_gain())):
					if not near(got, t[q], 2e-8):
						r.fail('systems that are nearly the same (%s asked before): %s of A=%r is %s instead of %s' % (c['first'], q, Ss[k][0], numpy.array(got).tolist(), numpy.array(t[q]).tolist()))
						return
				A, C, B = X.A, X.C, X.B
				for q, W, R in (('Wo', X.Wo, A.T * X.Wo * A + C.T * C), ('Wc', X.Wc, A * X.Wc * A.T + B * B.T)):
					if not (abs(R - W) <= 1e-9 * abs(W).max()).all():
						r.fail('systems that are nearly the same (%s asked before): %s of A=%r' % (c['first'], q, Ss[k][0]))
						return
			r.outcome((c['near'], order))
		return
	name, S = c['s'][0], c['s'][1:]
	t = truth(S)
	r.outcome((name, t['H2']))
	n = len(S[0])
	if c.get('single'):
		for m in ('linalg', 'slycot', None):
			X = dSS(*[numpy.matrix(m_) for m_ in S])
			X.calc_Wo(m)
			apply(r, 'Wo', X, t, [name, 'calc_Wo(%s)' % m])
			X.calc_Wc(m)
			apply(r, 'Wc', X, t, [name, 'calc_Wc(%s)' % m])
			for bad in ('Wo', 'Wc'):
				try:
					getattr(X, 'calc_' + bad)('none such')
					r.fail('calc_%s accepts an unknown method' % bad)
				except ValueError:
					r.step()
		return
	if c.get('mag'):
		magnitudes(name, S, t, r)
		return
	# depth-first over all the sequences: the object is rebuilt for every sequence (live caches cannot be copied)
	seen = set()
	stack = [(c['first'],)]
	while stack:
		seq = stack.pop()
		X = dSS(*[numpy.matrix(m) for m in S])
		for i, op in enumerate(seq):
			apply(r, op, X, t, [name] + list(seq[:i + 1])) if i == len(seq) - 1 else quiet(op, X)
		# canonical state: matrices (they only depend on the changes of basis) and which quantities have been asked since
		key = (tuple(o for o in seq if o in ('T0', 'T1')), tuple(sorted(set((o, tuple(x for x in seq[seq.index(o):] if x in ('T0', 'T1'))) for o in seq if o not in ('T0', 'T1')))))
		new = r.state((name, key))
		if new and len(seq) <= c['depth']:
			for op in NAMES:
				stack.append(seq + (op,))


def near(a, b, rel):
	a, b = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
	return a.shape == b.shape and bool((abs(a - b) <= rel * abs(b)).all())


def magnitudes(name, S, t, r):
	"""coefficients of very different magnitudes: every element is right relatively to its own magnitude"""
	from fixif.LTI import dSS
	A, B, C, D = [numpy.array(m) for m in S]
	n = len(A)
	scaled = name.split('-')[0] in ('basis', 'rowB', 'rowB2', 'coef')
	# Gramians by their sums (all the terms are in the same basis)
	def gram(a, b):
		W, x = b.dot(b.T), b
		for k in range(400):
			x = a.dot(x)
			W = W + x.dot(x.T)
		return W
	for k in range(2):
		X = dSS(*[numpy.matrix(m) for m in S])
		if k:
			# another basis, exactly
			T = numpy.matrix(numpy.diag([2. ** v for v in (-21, 17, 20)[:n]]))
			X.similarity(T)
			A, B, C = numpy.linalg.inv(T).dot(A).dot(T).A, numpy.linalg.inv(T).dot(B).A, C.dot(numpy.array(T))
		what = '%s%s' % (name, ' after a change of basis' if k else '')
		for q, got, want in (('WCPG', X.WCPG(), t['WCPG']), ('DC gain', X.calc_DC_gain(), t['DC'])):
			r.step()
			g, w = numpy.matrix(got), numpy.matrix(want)
			# (the DC gain is a sum of terms not larger than the WCPG)
			ok = g.shape == w.shape and bool((abs(g - w) <= 1e-9 * t['WCPG']).all())
			if not ok:
				r.fail('%s: %s %s instead of %s' % (what, q, g.tolist(), w.tolist()))
		r.state((name, k, X.WCPG().tolist()))
		if scaled:
			# (numerical solutions of the Lyapunov equation depend on the basis)
			continue
		r.step(3)
		if abs(X.H2norm() - t['H2']) > 1e-8 * t['H2']:
			r.fail('%s: H2 norm %r instead of %r' % (what, X.H2norm(), t['H2']))
		for q, W, want in (('Wo', X.Wo, gram(A.T, C.T)), ('Wc', X.Wc, gram(A, B))):
			d = numpy.sqrt(numpy.diag(want))
			if W.shape != (n, n) or not bool((abs(numpy.array(W) - want) <= 1e-8 * max(d) ** 2).all() if not k else (abs(numpy.array(W) - want) <= 1e-6 * numpy.outer(d, d)).all()):
				r.fail('%s: %s = %s instead of %s' % (what, q, W.tolist(), want.tolist()))


def marginal(c, r):
	"""systems without Gramians (the Lyapunov equation is singular): an error, always the same, and the rest still works"""
	from fixif.LTI import dSS
	n = len(c['A'])
	X = dSS(c['A'], [[1.]] * n, [[1.] * n], [[2.]])
	for q in (c['marginal'], 'Wo', 'Wc', 'Wo', 'Wc'):
		for how in (lambda: getattr(X, q), lambda: getattr(X, 'calc_' + q)('linalg')):
			r.step()
			try:
				how()
				r.fail('%s of %s is %s: it does not exist' % (q, c['A'], getattr(X, q).tolist()))
			except (numpy.linalg.LinAlgError, ValueError) as e:
				r.outcome(str(e))
				r.state((c['A'], q, str(e)))
	w = numpy.linalg.eigvals(numpy.array(c['A']))
	for again in range(2):
		r.step()
		if 1. in w.tolist():
			# infinite DC gain
			try:
				v = X.calc_DC_gain()
				r.fail('DC gain of %s is %s: it does not exist' % (c['A'], v))
			except (numpy.linalg.LinAlgError, ValueError) as e:
				r.outcome(str(e))
		else:
			want = numpy.ones((1, n)).dot(numpy.linalg.solve(numpy.eye(n) - numpy.array(c['A']), numpy.ones((n, 1)))) + 2.
			if not ref.closemat(numpy.matrix(X.calc_DC_gain()), numpy.matrix(want), 1e-9, 1e-12):
				r.fail('DC gain of %s is %s instead of %s' % (c['A'], X.calc_DC_gain(), want))
	if X.A.tolist() != c['A'] or X.to_dSSmp().C.rows != 1:
		r.fail('the system %s is changed by the failure' % c['A'])


def quiet(op, X):
	if op in ('T0', 'T1'):
		X.similarity(trans(X.n, int(op[1])))
	elif op == 'Wo':
		X.Wo
	elif op == 'Wc':
		X.Wc
	elif op == 'H2':
		X.H2norm()
	elif op == 'WCPG':
		X.WCPG()
	elif op == 'info':
		X.WCPG({})
	elif op == 'DC':
		try:
			X.calc_DC_gain()
		except ValueError:
			pass
	elif op == 'conv':
		str(X), X.to_dSSmp(), X.simplify()
	elif op == 'sub':
		X[0, 0].WCPG()
	elif op == 'sum':
		(X + X).WCPG()
