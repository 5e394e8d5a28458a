"""C22: sensitivity measures of an implicit form are those of its transfer function and poles with respect to its coefficients."""
import itertools
import numpy

ID = 'C22'
LEVEL = 'model_checking'
RULE = 'every implicit form of the pool (sizes x coefficient families x realizations of every structure with every option) x weights dZ x every entry of Z: the impulse response and the poles of the form where only this entry moves (both ways) give the derivative, compared with the sensitivity returned for this entry'
BOUNDS = {'quick': 'l<=2, 1<=n<=3, p,q<=2, 7 families of coefficients, 8 kinds of weights; 13 filters x all structures and options', 'thorough': 'l<=3, n<=4, p,q<=3; all filters of the pool of orders 1..3 x all structures and options'}
ASSUMPTIONS = ['stable systems (spectral radius < 0.97), poles simple (gap of 0.02) and, for their moduli, not null', 'derivatives by central differences (relative accuracy of 1e-4 requested)']
CASE_LIMIT = 600

FAMS = ['scaled', 'full', 'sparse', 'pow2', 'upper', 'cancel', 'corner']
WEIGHTS = ['default', 'tiny', 'ones', 'checker', 'fraction', 'one', 'J', 'large']


def cases(tier):
	q_ = tier == 'quick'
	for l, n, p, q in itertools.product(range(0, 3 if q_ else 4), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		for fam in FAMS:
			for w in WEIGHTS if (l + n < 5 or not q_) else WEIGHTS[:4] + WEIGHTS[-1:]:
				yield dict(k='sif', size=(l, n, p, q), fam=fam, w=w)
	from mc import systems
	from mc.sifs import BIG
	for d in BIG[:-1]:
		yield dict(k='sif', size=d, fam='big', w='ones')
	if not q_:
		yield dict(k='sif', size=BIG[-1], fam='big', w='checker')
	pool = systems.tf_pool([1, 2, 3])
	for i, (name, num, den) in enumerate(pool[2::5] if q_ else pool):
		yield dict(k='struct', name=name, num=num, den=den)


def blocks(Z, l, n, p):
	Z = numpy.array(Z, dtype=float)
	return Z[:l, :l], Z[:l, l:l + n], Z[:l, l + n:], Z[l:l + n, :l], Z[l:l + n, l:l + n], Z[l:l + n, l + n:], Z[l + n:, :l], Z[l + n:, l:l + n], Z[l + n:, l + n:]


def abcd(Z, l, n, p):
	J, M, N, K, P, Q, L, R, S = blocks(Z, l, n, p)
	if l:
		T = numpy.linalg.solve(-J, numpy.hstack([M, N]))
		return K @ T[:, :n] + P, K @ T[:, n:] + Q, L @ T[:, :n] + R, L @ T[:, n:] + S
	return P, Q, R, S


def impulse(Z, l, n, p, N):
	A, B, C, D = abcd(Z, l, n, p)
	out = [D]
	x = B
	for _ in range(N):
		out.append(C @ x)
		x = A @ x
	return numpy.array(out)


def close(a, b, top):
	return abs(a - b) <= 1e-4 * top


# 'scaled': 'full' with other units for the intermediate variables and the states
UNITS = {'t': [2. ** v for v in [-6, 9, 0]], 'x': [2. ** v for v in [8, -7, 5, 0]]}


def units(l, n, p, q):
	"""units of the rows and of the columns of Z"""
	t = [UNITS['t'][i % 3] for i in range(l)] + [UNITS['x'][i % 4] for i in range(n)]
	return numpy.array(t + [1.] * p), numpy.array(t + [1.] * q)


def check(r, what, S, scaled=False):
	"""S: implicit form"""
	l, n, p, q = S.size
	ru, cu = units(l, n, p, q) if scaled else (numpy.ones(l + n + p), numpy.ones(l + n + q))
	# coefficients are all of the same order of magnitude when divided by U, derivatives when multiplied by U
	U = ru[:, None] / cu[None, :]
	Z = numpy.array(S.Z, dtype=float)
	W = numpy.array(S.dZ, dtype=float)
	# the tool reports on the present coefficients: Z itself is [-J M N; K P Q; L R S]
	A = abcd(Z, l, n, p)[0]
	ev = numpy.linalg.eigvals(A)
	rho = max(abs(ev))
	if rho >= 0.97:
		r.count('unstable')
		return
	rows, cols = l + n + p, l + n + q

	# -- transfer function --
	N = int(min(1000, 30 + 40 / -numpy.log10(max(rho, 1e-3)) * .5 + 4 * n))
	M, MX = S.dTFsensitivity()
	MX = numpy.array(MX, dtype=float)
	if MX.shape != (rows, cols):
		r.fail('%s: shape of the sensitivity matrix: %s' % (what, MX.shape))
		return
	ref = numpy.zeros((rows, cols))
	d = 1e-4
	# (of the coefficients in the same unit)
	for i in range(rows):
		for j in range(cols):
			if W[i, j] == 0:
				continue
			hs = []
			for s in (d, -d):
				Zd = Z.copy()
				Zd[i, j] += s * U[i, j]
				hs.append(impulse(Zd, l, n, p, N))
			ref[i, j] = abs(W[i, j]) * numpy.sqrt((((hs[0] - hs[1]) / (2 * d)) ** 2).sum())
			r.step(2)
	MXU = MX * U
	top = max(ref.max(), 1e-6 * abs(W).max())
	for i in range(rows):
		for j in range(cols):
			if not close(abs(MXU[i, j]), ref[i, j], top):
				r.fail('%s: sensitivity of the transfer function to Z[%d,%d]: %.8g, expected %.8g' % (what, i, j, MX[i, j], ref[i, j] / U[i, j]))
				return
	want = ((ref / U) ** 2).sum()
	if abs(M - want) > 1e-4 * (rows * cols * top ** 2 if not scaled else want + 1e-10 * abs(W).max() ** 2):
		r.fail('%s: transfer function sensitivity %.8g, expected %.8g' % (what, M, want))
	r.state(('tf', [round(v, 5) for v in ref.ravel()]))
	r.count('tf')

	# -- poles --
	gap = min([abs(a - b) for a, b in itertools.combinations(ev, 2)] + [1.])
	if gap < 0.02:
		r.count('multiple poles')
		return
	d = 1e-6
	der = numpy.zeros((rows, cols, n), dtype=complex)
	for i in range(rows):
		for j in range(cols):
			es = []
			for s in (d, -d):
				Zd = Z.copy()
				Zd[i, j] += s * U[i, j]
				e = numpy.linalg.eigvals(abcd(Zd, l, n, p)[0])
				es.append([e[numpy.argmin(abs(e - v))] for v in ev])
			der[i, j] = (numpy.array(es[0]) - numpy.array(es[1])) / (2 * d)
			r.step(2)
	for moduli in (True, False, None):
		if moduli is not False and min(abs(ev)) < 0.02:
			r.count('null pole')
			continue
		want = der if moduli is False else numpy.real(numpy.conj(ev) * der) / abs(ev)
		if moduli is None:
			M, MX, MXk = S.poleSensitivity()
		else:
			M, MX, MXk = S.poleSensitivity(moduli)
		MX, MXk = numpy.array(MX, dtype=float), numpy.array(MXk)
		if MX.shape != (rows, cols) or MXk.shape != (rows, cols, n):
			r.fail('%s: shapes of the pole sensitivities: %s %s' % (what, MX.shape, MXk.shape))
			return
		MX, MXk = MX * U, MXk * U[:, :, None]
		wantX = numpy.sqrt((abs(want) ** 2).sum(axis=2))
		top = max(1e-3, wantX.max())
		tag = {True: 'moduli', False: 'poles', None: 'moduli (default)'}[moduli]
		if abs(MX - wantX).max() > 1e-4 * top:
			i, j = numpy.unravel_index(abs(MX - wantX).argmax(), MX.shape)
			r.fail('%s: sensitivity of the %s to Z[%d,%d]: %.8g, expected %.8g' % (what, tag, i, j, MX[i, j] / U[i, j], wantX[i, j] / U[i, j]))
			return
		Mw = ((wantX / U * W) ** 2).sum()
		if abs(M - Mw) > 1e-3 * max(Mw, 1e-6 * abs(W).max() ** 2):
			r.fail('%s: measure of the sensitivity of the %s: %.8g, expected %.8g' % (what, tag, M, Mw))
			return
		# one matrix per pole, in any order
		left = list(range(n))
		for k in range(n):
			m = [x for x in left if abs(MXk[:, :, k] - want[:, :, x]).max() <= 1e-4 * top]
			if not m:
				r.fail('%s: sensitivity matrix number %d of the %s is the one of no pole: %s' % (what, k, tag, MXk[:, :, k].tolist()))
				return
			left.remove(m[0])
		r.state((tag, [round(v, 5) for v in wantX.ravel()]))
		r.count('poles')
	r.outcome('%d poles, %s' % (n, 'complex' if abs(ev.imag).max() > 1e-9 else 'real'))


def run(c, r):
	from mc.sifs import jtos, build_args, shapes, NAMES, npm
	if c['k'] == 'sif':
		from fixif.SIF import SIF
		l, n, p, q = c['size']
		scaled = c['fam'] == 'scaled'
		D = jtos(l, n, p, q, 'full' if scaled else c['fam'])
		if scaled:
			ru, cu = units(l, n, p, q)
			for x in NAMES:
				a, b = dict(J=(0, 0), K=(l, 0), L=(l + n, 0), M=(0, l), N=(0, l + n), P=(l, l), Q=(l, l + n), R=(l + n, l), S=(l + n, l + n))[x]
				D[x] = [[v * float(ru[a + i] / cu[b + j]) for j, v in enumerate(row)] for i, row in enumerate(D[x])]
		dj = None
		if c['w'] != 'default':
			dj = []
			for k, (x, (a, b)) in enumerate((x, shapes(l, n, p, q)[x]) for x in NAMES):
				f = {'tiny': lambda i, j: 2. ** -40 * (1 + (i + j) % 2), 'ones': lambda i, j: 1, 'checker': lambda i, j: (i + j + k) % 2, 'fraction': lambda i, j: [0.5, 1., 0., 0.25][(i + 2 * j + k) % 4],
					'large': lambda i, j: [3., -2., 0.5, 10.][(i + 3 * j + k) % 4], 'one': lambda i, j: int(x == 'P' and i == 0 and j == n - 1), 'J': lambda i, j: int(x in 'JKMP' and (i > j or x != 'J'))}[c['w']]
				dj.append(npm([[f(i, j) for j in range(b)] for i in range(a)], a, b))
		S = SIF(build_args(D, l, n, p, q), tuple(dj) if dj else None)
		check(r, 'SIF %s %s weights %s' % (c['size'], c['fam'], c['w']), S, scaled)
		if c['w'] == 'fraction':
			# weights set afterwards
			S2 = SIF(build_args(D, l, n, p, q))
			S2.dZ = S.dZ
			check(r, 'SIF %s %s weights set' % (c['size'], c['fam']), S2, scaled)
	else:
		from fixif.LTI import Filter
		from fixif.Structures import iterStructuresAndOptions
		stable = max(abs(numpy.roots(c['den']))) < 1
		F = Filter(num=c['num'], den=c['den'], name=c['name'], stable=stable)
		for S, opt in iterStructuresAndOptions(F):
			R = S.makeRealization(F, **opt)
			check(r, '%s of %s' % (R.name, c['name']), R)
			r.count('realizations')
