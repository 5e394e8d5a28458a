"""C13: every structure, with every option, realizes the filter it was given."""
from mc import ref, systems
from mc.sifs import Exact, NAMES, shapes
from fractions import Fraction as Fr
import itertools
import random
import numpy

ID = 'C13'
LEVEL = 'model_checking'
RULE = 'every filter of a pool x way of building it x structure x option combination (from the registry itself) x enumerated answers of the random generator used by LGS/LCW; the realization is run exactly (implicit equations, one transition per time step) on an impulse on every input and compared with the exact impulse response of the filter'
BOUNDS = {'quick': 'orders 1..4 (all pole/zero patterns of the pool, multiple and null poles included), SISO and MIMO state spaces (n<=3, p,q<=2), all registered structures and options, 5 answer patterns of the random generator', 'thorough': 'orders 1..5, MIMO up to n=4, p,q<=3, all pairs of patterns of the random generator'}
ASSUMPTIONS = ['structures that need Matlab (LWDF) or slycot (balanced form) are not registered in this environment', 'filters are used with the stable flag their poles deserve', 'tolerance 1e-6 (LGS/LCW and scaled forms go through numerical factorisations)']


def short(st):
	"""short name of a structure"""
	from fixif.Structures.Structure import Structure
	for k in ('DFI', 'DFII', 'State-Space', 'SS', 'dSS', 'rhoDFII', 'LWDF', 'LCW', 'LGS', 'rhoModal', 'Modal'):
		try:
			if Structure.getFromName(k) is st:
				return k
		except ValueError:
			pass
	return getattr(st, '_shortName', None) or getattr(st, 'shortName', None) or st.name


def cases(tier):
	q_ = tier == 'quick'
	for i, (name, num, den) in enumerate(systems.tf_pool([1, 2, 3, 4] if q_ else [1, 2, 3, 4, 5])):
		for via in ('tf', 'ss', 'num', 'long'):
			yield dict(k='tf', name=name, num=num, den=den, via=via, rng=[i % 5] if q_ else [0, 1, 2, 3, 4])
	for name, num, den in systems.tf_big():
		for via in ('tf', 'num'):
			yield dict(k='tf', name=name, num=num, den=den, via=via, rng=[0] if q_ else [0, 2])
	for i, (name, num, den) in enumerate(systems.tf_mag()):
		for via in ('tf', 'num', 'ss'):
			yield dict(k='tf', name=name, num=num, den=den, via=via, rng=[i % 5] if q_ else [0, 1, 2, 3, 4], mag=1)
	for name, A, B, C, D in systems.ss_mag():
		yield dict(k='ss', name=name, A=A, B=B, C=C, D=D, rng=[0], mag=1)
	for name, A, B, C, D in systems.ss_big():
		yield dict(k='ss', name=name, A=A, B=B, C=C, D=D, rng=[0])
	sizes = itertools.product(range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4))
	for name, A, B, C, D in systems.ss_pool(list(sizes)):
		yield dict(k='ss', name=name, A=A, B=B, C=C, D=D, rng=[0])
	# the random generator: all sequences of answers over an alphabet
	for name, num, den in systems.tf_pool([2, 3])[::7]:
		for ans in itertools.product((0.25, 0.5, 0.8125), repeat=4 if q_ else 6):
			yield dict(k='rng', name=name, num=num, den=den, ans=list(ans))


class Rng(object):
	"""answers of random.uniform: given ones first, then all different"""

	def __init__(self, answers):
		self.answers = list(answers)
		self.n = 0

	def __call__(self, a=0., b=1.):
		self.n += 1
		x = self.answers.pop(0) if self.answers else ((self.n * 0.6180339887) % 1)
		return a + (b - a) * x


PAT = [[], [0.], [0.5, 0.5, 0.5, 0.5], [0.1, 0.9, 0.1, 0.9, 0.3, 0.2], [0.9, 0.1, 0.2, 0.2, 0.7]]


def exact_of(R):
	D = {x: [[float(v) for v in row] for row in getattr(R, x).tolist()] for x in NAMES}
	l, n, p, q = R.size
	for x, (a, b) in shapes(l, n, p, q).items():
		if len(D[x]) != a or any(len(row) != b for row in D[x]):
			D[x] = [[0.] * b for _ in range(a)]
	return Exact(D, l, n, p, q), D


def fast(D, l, N, j):
	m = {x: numpy.array(D[x]) for x in NAMES}
	iJ = numpy.linalg.inv(m['J'])
	x, out = numpy.zeros(len(D['P'])), []
	for k in range(N):
		u = numpy.zeros(len(D['S'][0]))
		u[j] = float(k == 0)
		t = iJ @ (m['M'] @ x + m['N'] @ u)
		xp = m['K'] @ t + m['P'] @ x + m['Q'] @ u
		y = m['L'] @ t + m['R'] @ x + m['S'] @ u
		out.append(tuple([Fr(float(v)) for v in w] for w in (t, x, xp, y)))
		x = xp
	return out


def check(r, what, F, h, R, N, tol=1e-6, mag=False):
	"""h: list of impulse responses, one per input: h[j][k] = outputs at time k"""
	if R.p != len(h[0][0]) or R.q != len(h):
		r.fail('%s: %s' % (what, R.size))
		return
	E, D = exact_of(R)
	for i in range(R.l):
		if D['J'][i][i] != 1 or any(D['J'][i][j] for j in range(i + 1, R.l)):
			r.fail('%s: J is not unit lower triangular: %s' % (what, D['J']))
	top = max([abs(v) for hj in h for row in hj for v in row] + [Fr(1)])
	# (not exact: the transfer function of a state space comes from eigenvalues, with an absolute error)
	top = [[max(abs(row[i]) for row in hj) + (Fr(1e-7) if tol > 1e-9 else 0) if mag else top for i in range(R.p)] for hj in h]
	for j in range(R.q):
		# (thousands of coefficients: in double precision)
		ex = E.impulse(N, j) if R.l < 60 else fast(D, R.l, N, j)
		r.step(N)
		for o in ex[:6]:
			r.state((what, [round(float(v), 6) for v in o[1]]))
		for k in range(N):
			for i in range(R.p):
				if abs(ex[k][3][i] - h[j][k][i]) > Fr(tol) * top[j][i]:
					r.fail('%s: the impulse response of the realization is %s instead of %s' % (what, [[round(float(v), 8) for v in o[3]] for o in ex[:k + 1]], ref.show(h[j][:k + 1])))
					return
	r.outcome(what.split(' ')[0] + str([round(float(o[3][0]), 6) for o in ex[:4]]))


def run(c, r):
	from fixif.LTI import Filter, dTF, dSS
	from fixif.Structures import iterStructuresAndOptions
	from fixif.Structures.Structure import Structure, makeARealization
	old = random.uniform
	try:
		if c['k'] == 'ss':
			stable = max(abs(numpy.linalg.eigvals(numpy.array(c['A'])))) < 1
			F = Filter(A=c['A'], B=c['B'], C=c['C'], D=c['D'], stable=bool(stable), name=c['name'])
			N = 8
			fm = [[[Fr(v) for v in row] for row in c[x]] for x in 'ABCD']
			H = ref.impulse_ss(*fm, N)
			h = [[[H[k][i][j] for i in range(len(c['C']))] for k in range(N)] for j in range(len(c['B'][0]))]
		else:
			num, den = c['num'], c['den']
			stable = max([abs(z) for z in numpy.roots(den)] + [0]) < 1 - 1e-9
			via = c.get('via', 'tf')
			if via == 'tf':
				F = Filter(tf=dTF(num, den), stable=stable, name=c['name'])
			elif via == 'num':
				F = Filter(num=num, den=den, stable=stable, name=c['name'])
			elif via == 'long':
				F = Filter(num=[3 * x for x in num], den=[3 * x for x in den], stable=stable, name=c['name'])
			else:
				F = Filter(ss=dTF(num, den).to_dSS(), stable=stable, name=c['name'])
			N = 2 * len(den) + 4
			h = [[[v] for v in ref.impulse_tf([Fr(x) for x in num], [Fr(x) for x in den], N)]]
		siso = len(h) == 1 and len(h[0][0]) == 1
		if c['k'] == 'rng':
			for nm in ('LGS', 'LCW'):
				st = Structure.getFromName(nm)
				if st.canAcceptFilter(F):
					random.uniform = Rng(c['ans'])
					check(r, '%s of %s/%s with random answers %s' % (nm, num, den, c['ans']), F, h, st(F), N)
			return
		mag = bool(c.get('mag'))
		# direct forms only use the given coefficients
		tol = lambda st: 1e-13 if mag and (short(st) == 'dSS' and not siso if c['k'] == 'ss' or c['via'] == 'ss' else short(st) in ('DFI', 'DFII', 'dSS')) else 1e-6
		combos = list(iterStructuresAndOptions(F))
		names = set(short(st) for st, _ in combos)
		if siso and not {'DFI', 'DFII', 'dSS'} <= names:
			r.fail('%s: structures proposed for a SISO filter: %s' % (c['name'], sorted(names)))
		if siso and stable and len(h[0]) and 'rhoDFII' not in names:
			r.fail('%s: rhoDFII not proposed for a stable SISO filter' % c['name'])
		if siso and stable and F.order > 1 and not {'LGS', 'LCW'} <= names:
			r.fail('%s: LGS or LCW not proposed for a stable SISO filter of order %d: %s' % (c['name'], F.order, sorted(names)))
		if siso and (not stable or F.order < 2) and {'LGS', 'LCW'} & names:
			r.fail('%s: LGS or LCW proposed for an unstable filter or a filter of order 1: %s' % (c['name'], sorted(names)))
		if siso and c['k'] == 'tf' and c['via'] == 'num':
			for st in (Structure.getFromName('DFI'),):
				for bad in (0, 3, -1, 1.5):
					try:
						st.makeRealization(F, nbSum=bad)
						r.fail('%s: a %s with nbSum=%s is made' % (c['name'], short(st), bad))
					except ValueError:
						r.count('refused')
		if not siso and names != {'dSS'}:
			r.fail('%s: structures proposed for a MIMO filter: %s' % (c['name'], sorted(names)))
		for rng in c['rng']:
			random.uniform = Rng(PAT[rng])
			for st, opt in combos:
				what = '%s %s of %s' % (short(st), opt, c['name'])
				R = st.makeRealization(F, **(opt or {}))
				check(r, what, F, h, R, N, tol(st), mag)
				if R.filter is not F:
					r.fail('%s: the filter of the realization is not the one given' % what)
				if short(st) in ('DFI', 'DFII'):
					# direct forms: their coefficients are those of the transfer function
					ok = {0., 1., -1.}
					lead = float(F.dTF.den.A1[0])
					co = [float(x) / lead for x in F.dTF.num.A1] + [-float(x) / lead for x in F.dTF.den.A1]
					for v in numpy.array(R.Z).flatten():
						if v not in ok and not any(abs(v - x) < 1e-12 * max(1, abs(x)) for x in co):
							r.fail('%s: the coefficient %r is not in the transfer function' % (what, v))
		# iterAllRealizations goes through the same ones
		random.uniform = Rng([])
		L = list(F.iterAllRealizations())
		if [R.structureName.split(' (')[0] for R in L] != [st.name for st, _ in combos]:
			r.fail('%s: iterAllRealizations gives %s' % (c['name'], [R.structureName for R in L]))
		for R, (st, opt) in zip(L, combos):
			check(r, 'iterAllRealizations %s %s of %s' % (short(st), opt, c['name']), F, h, R, N, tol(st), mag)
		# default options are the first values; makeARealization and __call__ are the same
		for nm in sorted(names):
			st = Structure.getFromName(nm)
			if not st.canAcceptFilter(F):
				r.fail('%s: %s refused without option' % (c['name'], nm))
			dflt = {k: v[0] for k, v in (st.options or {}).items()}
			for make in (lambda: st(F), lambda: st.makeRealization(F), lambda: makeARealization(F, nm)):
				random.uniform = Rng([])
				a = make()
				random.uniform = Rng([])
				b = st.makeRealization(F, **dflt)
				if a.Z.shape != b.Z.shape or not numpy.allclose(a.Z, b.Z, 1e-9, 1e-12):
					r.fail('%s: %s without option is not the one with the first option values' % (c['name'], nm))
	finally:
		random.uniform = old
