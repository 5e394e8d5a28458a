"""C02: operands that do not fit are refused with ValueError."""
import numpy
import mpmath
from mpmath import mp
import itertools

ID = 'C02'
LEVEL = 'exploration'
RULE = 'all shape combinations of every binary matrix operation, of the state-space constructors and of the implicit-form constructor, and all pairs (operation, operand type); fitting ones must be accepted'
BOUNDS = {'quick': 'matrix dimensions 1..3; constructor block dimensions 1..2 for each of the 8 (state space) / single- and double-block perturbations (SIF)', 'thorough': 'dimensions 1..4; constructor block dimensions 1..3'}
ASSUMPTIONS = ['a refusal is a ValueError']


def cases(tier):
	D = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]
	for op in ('add', 'sub', 'mul', 'inv'):
		for k in ('np', 'mp', 'MPF'):
			yield dict(k='shape', op=op, kind=k, dims=D)
	for op in ('add', 'sub', 'mul', 'inv', 'p2m', 'm2n', 'rep', 'mrep', 'polymul', 'MPF', 'aex', 'sex', 'mex'):
		yield dict(k='type', op=op)
	for k in ('np', 'mp', 'MPF'):
		yield dict(k='tri', kind=k, dims=D)
	d = [1, 2] if tier == 'quick' else [1, 2, 3]
	for cls in ('dSS', 'dSSmp'):
		for ar in d:
			for ac in d:
				yield dict(k='ss', cls=cls, a=[ar, ac], dims=d)
	for op in ('add', 'sub', 'mul'):
		for cls in ('dSS', 'dSSmp'):
			yield dict(k='ssop', op=op, cls=cls, dims=D)
	for op in ('add', 'sub', 'mul'):
		yield dict(k='tfarg', op=op)
	for l, n, p, q in itertools.product((0, 1, 2), (1, 2), (1, 2), (1, 2)):
		yield dict(k='sif', dims=[l, n, p, q], pairs=int(tier != 'quick'))
	for n, p, q in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
		yield dict(k='sim', dims=[n, p, q])
	yield dict(k='tf')
	yield dict(k='filter')


def refuses(r, what, f, *a, **kw):
	r.step()
	r.state(what)
	try:
		x = f(*a, **kw)
	except ValueError:
		r.outcome('refused')
		return
	except Exception as e:
		r.fail('%s: refused with %s (%s) instead of ValueError' % (what, type(e).__name__, e))
		return
	r.fail('%s: accepted, gives %r' % (what, x))


def accepts(r, what, f, *a, **kw):
	r.step()
	r.state(what)
	try:
		f(*a, **kw)
	except Exception as e:
		r.fail('%s: refused with %s (%s)' % (what, type(e).__name__, e))
		return
	r.outcome('accepted')


def mat(kind, m, n, f=lambda i, j: i + 2 * j + 1):
	import fixif.func_aux as fa
	M = numpy.matrix([[float(f(i, j)) for j in range(n)] for i in range(m)])
	if kind == 'np':
		return M
	X = mpmath.matrix(m, n)
	for i in range(m):
		for j in range(n):
			X[i, j] = mpmath.mpf(M[i, j])
	return X if kind == 'mp' else fa.MPFMatrix(X)


def fn(op, kind):
	import fixif.func_aux as fa
	if kind == 'MPF':
		return dict(add=lambda a, b: a.add_exact(b), sub=lambda a, b: a.sub_exact(b), mul=lambda a, b: a.mul_exact(b), inv=lambda a: a.inv_lowtr())[op]
	return dict(add=fa.mpf_matrix_fadd, sub=fa.mpf_matrix_fsub, mul=fa.mpf_matrix_fmul, inv=fa.mpf_matrix_lt_inverse)[op]


def sim(c, r):
	"""inputs and initial states of the simulations"""
	from fixif.LTI import dSS
	from fixif.SIF import SIF
	n, p, q = c['dims']
	S = dSS(mat('np', n, n, lambda i, j: (i - j) / 8.), mat('np', n, q), mat('np', p, n), mat('np', p, q)).to_dSSmp()
	for l in (0, 1, 2):
		z = [numpy.eye(l), numpy.zeros((n, l)), numpy.ones((p, l)), numpy.ones((l, n)), numpy.ones((l, q)), mat('np', n, n, lambda i, j: (i - j) / 8.), mat('np', n, q), mat('np', p, n), mat('np', p, q)]
		F = SIF(z)
		for a in (1, 2, 3, 4):
			for T in (1, 2, 3):
				(accepts if a == q else refuses)(r, 'simulate, SIF l=%d n=%d p=%d q=%d, %dx%d input' % (l, n, p, q, a, T), F.simulate, mat('np', a, T))
	for kind in ('np', 'mp'):
		for exact in (True, False):
			for a in (1, 2, 3, 4):
				for T in (1, 2, 3):
					w = 'simulate(exact=%s), dSSmp n=%d p=%d q=%d, %s %dx%d input' % (exact, n, p, q, kind, a, T)
					(accepts if a == q else refuses)(r, w, S.simulate, mat(kind, a, T), exact=exact)
					for m in (1, 2, 3, 4):
						(accepts if a == q and m == n else refuses)(r, '%s, %s x0 of %d elements' % (w, kind, m), S.simulate, mat(kind, a, T), exact=exact, x0=mat(kind, m, 1))
	for bad in ([[1.] * 2] * q, [1.], 3., 'u', numpy.ones((q, 2))):
		if not isinstance(bad, numpy.ndarray):
			refuses(r, 'simulate, dSSmp n=%d p=%d q=%d, input of type %s' % (n, p, q, type(bad).__name__), S.simulate, bad)


def run(c, r):
	import fixif.func_aux as fa
	k = c['k']
	if k == 'shape':
		D, kind, op = c['dims'], c['kind'], c['op']
		f = fn(op, kind)
		if op == 'inv':
			for m in D:
				for n in D:
					(accepts if m == n else refuses)(r, 'inverse of a %dx%d %s matrix' % (m, n, kind), f, mat(kind, m, n, lambda i, j: i == j))
			return
		for m, n, a, b in itertools.product(D, repeat=4):
			ok = (n == a) if op == 'mul' else (m, n) == (a, b)
			(accepts if ok else refuses)(r, '%s of %dx%d and %dx%d (%s)' % (op, m, n, a, b, kind), f, mat(kind, m, n), mat(kind, a, b))
	elif k == 'tri':
		f = fn('inv', c['kind'])
		for n in c['dims']:
			for i in range(n):
				for j in range(n):
					def g(a, b):
						if (a, b) == (i, j):
							return 2. if i == j else 0.5
						return a == b
					(accepts if i > j else refuses)(r, 'unit lower-triangular inverse, %d x %d %s, entry (%d,%d) changed' % (n, n, c['kind'], i, j), f, mat(c['kind'], n, n, g))
	elif k == 'type':
		op = c['op']
		good = mat('np', 2, 2)
		gmp = mat('mp', 2, 2)
		cplx = mpmath.matrix([[mpmath.mpc(1, 2), 1], [0, 1]])
		bad = [('list', [[1., 2.], [3., 4.]]), ('float', 1.5), ('None', None), ('str', 'x'), ('ndarray', numpy.ones((2, 2))), ('complex numpy matrix', numpy.matrix([[1 + 2j, 0], [0, 1]])), ('complex mpmath matrix', cplx)]
		if op in ('add', 'sub', 'mul'):
			f = fn(op, 'np')
			for name, b in bad:
				for g in (good, gmp):
					refuses(r, '%s(matrix, %s)' % (op, name), f, g, b)
					refuses(r, '%s(%s, matrix)' % (op, name), f, b, g)
		elif op == 'inv':
			for name, b in bad:
				refuses(r, 'inverse of %s' % name, fn('inv', 'np'), b)
		elif op == 'p2m':
			for name, b in bad + [('mpmath matrix', gmp)]:
				refuses(r, 'numpy to mpmath conversion of %s' % name, fa.python2mpf_matrix, b)
		elif op == 'm2n':
			for name, b in bad[:6] + [('numpy matrix', good)]:
				refuses(r, 'mpmath to numpy conversion of %s' % name, fa.mpf_to_numpy, b)
		elif op == 'rep':
			for name, b in bad + [('int', 3), ('inf', mpmath.inf), ('-inf', mpmath.ninf), ('nan', mpmath.nan)]:
				refuses(r, 'integer representation of %s' % name, fa.mpf_get_representation, b)
		elif op == 'mrep':
			for v in (mpmath.inf, mpmath.ninf, mpmath.nan):
				for i in range(2):
					for j in range(2):
						X = mat('mp', 2, 2)
						X[i, j] = v
						refuses(r, 'integer representation of a matrix with %s at (%d,%d)' % (v, i, j), fa.mpf_matrix_get_representation, X)
						refuses(r, 'integer representation of a MPFMatrix with %s at (%d,%d)' % (v, i, j), fa.MPFMatrix(X).get_int_representation)
		elif op == 'polymul':
			p = mpmath.matrix([1, 2])
			for name, b in bad[:6]:
				refuses(r, 'polynomial product with %s' % name, fa.mpf_poly_mult, p, b)
				refuses(r, 'polynomial product with %s' % name, fa.mpf_poly_mult, b, p)
			refuses(r, 'polynomial with no root', fa.mp_poly_product, [])
		elif op == 'MPF':
			for name, b in bad[:4] + [('tuple', (1, 2)), ('int', 3)]:
				refuses(r, 'MPFMatrix of %s' % name, fa.MPFMatrix, b)
		else:
			meth = dict(aex='add_exact', sex='sub_exact', mex='mul_exact')[op]
			for name, b in bad[:6] + [('mpmath matrix', gmp), ('numpy matrix', good)]:
				refuses(r, '%s with %s' % (meth, name), getattr(fa.MPFMatrix(gmp), meth), b)
	elif k == 'ss':
		from fixif.LTI import dSS
		from fixif.LTI.dSSmp import dSSmp
		cls = dSS if c['cls'] == 'dSS' else dSSmp
		kind = 'np' if c['cls'] == 'dSS' else 'mp'
		d = c['dims']
		A = mat(kind, *c['a'])
		for b0, b1, c0, c1, d0, d1 in itertools.product(d, repeat=6):
			ok = c['a'][0] == c['a'][1] == b0 == c1 and c0 == d0 and b1 == d1
			(accepts if ok else refuses)(r, '%s of A %s, B %s, C %s, D %s' % (c['cls'], c['a'], (b0, b1), (c0, c1), (d0, d1)), cls, A, mat(kind, b0, b1), mat(kind, c0, c1), mat(kind, d0, d1))
	elif k == 'ssop':
		from fixif.LTI import dSS
		from fixif.LTI.dSSmp import dSSmp
		kind = 'np' if c['cls'] == 'dSS' else 'mp'
		cls = dSS if kind == 'np' else dSSmp
		if c['op'] == 'mul' and cls is dSSmp and not hasattr(dSSmp, '__mul__'):
			return
		sysd = lambda n, p, q: cls(mat(kind, n, n), mat(kind, n, q), mat(kind, p, n), mat(kind, p, q))
		import operator
		f = dict(add=operator.add, sub=operator.sub, mul=operator.mul)[c['op']]
		for p1, q1, p2, q2 in itertools.product(c['dims'], repeat=4):
			for n1, n2 in ((1, 1), (2, 1)):
				ok = (q1 == p2) if c['op'] == 'mul' else (p1, q1) == (p2, q2)
				(accepts if ok else refuses)(r, '%s %s of %d->%d and %d->%d systems (orders %d,%d)' % (c['cls'], c['op'], q1, p1, q2, p2, n1, n2), f, sysd(n1, p1, q1), sysd(n2, p2, q2))
	elif k == 'tfarg':
		from fixif.LTI import dTF
		import operator
		f = dict(add=operator.add, sub=operator.sub, mul=operator.mul)[c['op']]
		S = dTF([1., 2.], [1., 0.5])
		for name, b in [('str', 'x'), ('None', None), ('dict', {})]:
			refuses(r, 'dTF %s %s' % (c['op'], name), f, S, b)
	elif k == 'sim':
		sim(c, r)
	elif k == 'tf':
		from fixif.LTI import dTF
		from fixif.LTI.dTFmp import dTFmp
		for n in range(1, 4):
			for m in range(1, 4):
				den = [0.] + [1.] * (m - 1)
				refuses(r, 'dTF with a null leading denominator (%d,%d)' % (n, m), dTF, [1.] * n, den)
				refuses(r, 'dTFmp with a null leading denominator (%d,%d)' % (n, m), dTFmp, mat('mp', n, 1), mat('mp', m, 1, lambda i, j: den[i]))
				accepts(r, 'dTF (%d,%d)' % (n, m), dTF, [1.] * n, [2.] + [1.] * (m - 1))
				accepts(r, 'dTFmp (%d,%d)' % (n, m), dTFmp, mat('mp', n, 1), mat('mp', m, 1))
	elif k == 'filter':
		from fixif.LTI import Filter
		full = dict(num=[1., 2.], den=[1., 0.5], A=[[0.5]], B=[[1.]], C=[[1.]], D=[[0.]])
		keys = list(full)
		for bits in itertools.product((0, 1), repeat=6):
			given = {a: full[a] for a, b in zip(keys, bits) if b}
			tf = 'num' in given and 'den' in given
			ss = all(x in given for x in 'ABCD')
			(accepts if tf or ss else refuses)(r, 'Filter given %s' % sorted(given), Filter, **given)
	elif k == 'sif':
		from fixif.SIF import SIF
		l, n, p, q = c['dims']
		dims = dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))
		order = 'JKLMNPQRS'

		def build(over={}):
			out = []
			for x in order:
				m, k2 = over.get(x, dims[x])
				if m * k2 == 0:
					out.append(numpy.matrix(numpy.zeros((m, k2))))
				elif x == 'J':
					out.append(numpy.matrix(numpy.eye(m, k2)))
				else:
					out.append(numpy.matrix(numpy.full((m, k2), 0.25)))
			return tuple(out)
		accepts(r, 'SIF %s' % c['dims'], SIF, build())
		muts = []
		for x in order:
			m, k2 = dims[x]
			if m * k2 == 0:
				continue
			muts += [(x, (m + 1, k2)), (x, (m, k2 + 1))]
		for x, d in muts:
			refuses(r, 'SIF %s with %s of size %s' % (c['dims'], x, d), SIF, build({x: d}))
		if c['pairs']:
			for (x, d), (y, e) in itertools.combinations(muts, 2):
				if x == y:
					continue
				o = {x: d, y: e}
				dd = dict(dims, **o)
				ok = dd['J'][0] == dd['J'][1] == dd['K'][1] == dd['L'][1] == dd['M'][0] == dd['N'][0] and dd['P'][0] == dd['P'][1] == dd['K'][0] == dd['M'][1] == dd['Q'][0] == dd['R'][1] and dd['L'][0] == dd['R'][0] == dd['S'][0] and dd['N'][1] == dd['Q'][1] == dd['S'][1]
				if not ok:
					refuses(r, 'SIF %s with %s' % (c['dims'], o), SIF, build(o))
