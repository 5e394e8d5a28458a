"""C14: the rho Direct Form II realizes the filter for every free parameters, and its scalings do what they say."""
from mc import ref, systems
from mc.checks.c13 import check
from fractions import Fraction as Fr
import itertools
import math
import numpy

ID = 'C14'
LEVEL = 'model_checking'
RULE = 'every filter of a pool x every assignment of the free parameters gamma and Delta over an alphabet x transposed x equiv_dSS (x forms the parameters can be given in); the realization is run exactly (implicit equations, one transition per time step) on an impulse and compared with the exact impulse response of the filter; scalings compared with the exact Gramian'
BOUNDS = {'quick': 'orders 1..3, gamma over 4 values (n<=2) or 3 (n=3), Delta over 3 values or not given, negative ones, orders 8 and 11, states of small norms, all 4 option combinations, all scalings', 'thorough': 'orders 1..4, gamma over 5 values, Delta over 4'}
ASSUMPTIONS = ['tolerance 1e-6', 'l2 scaling: the diagonal of the controllability Gramian of the transposed form is 1 for states that are excited (definition)']


def cases(tier):
	q_ = tier == 'quick'
	for name, num, den in systems.tf_pool([1, 2, 3] if q_ else [1, 2, 3, 4]):
		n = len(den) - 1
		if q_ and n == 3 and int(name.split('-')[1]) % 2:
			continue
		G = ([1., 0., -0.5, 0.75] if n < 3 else [1., 0., -0.5]) if q_ else ([1., 0., -0.5, 0.75, -1.] if n < 4 else [1., 0., -0.5])
		for g in itertools.product(G, repeat=n):
			yield dict(num=num, den=den, gamma=list(g), tier=tier)
		yield dict(num=num, den=den, gamma=None, tier=tier)
	# free parameters very close to 1 or 0, very small or very large; the same for the coefficients
	e = lambda k: 2. ** k
	for name, num, den in systems.tf_pool([1, 2, 3])[::4]:
		n = len(den) - 1
		for g in ([1.] * n, [1 - e(-30)] * n, [0.5, e(-32), -e(-25)][:n], [1 - e(-18), 1., 0.25][:n], None):
			yield dict(num=num, den=den, gamma=g, tier=tier, Delta=[[1 + e(-18)] * n, [1., 1 - e(-28), 1.][:n], [1 + e(-20), 1., 1.][:n], [e(-16), 1., e(14)][:n], [e(15), e(-15), 1.][:n], [1., e(12), e(-13)][:n]])
	# negative values, orders larger than 10, states with small norms
	for name, num, den in systems.tf_pool([1, 2, 3])[::3] + systems.tf_big():
		n = len(den) - 1
		for g in [None, [0.] * n, ([1., -0.5, 0.25, 0.] * n)[:n]]:
			yield dict(num=num, den=den, gamma=g, tier=tier, Delta=[None, [1.] * n, [-1.] * n, ([-1., 1.] * n)[:n], ([1., -1.] * n)[:n], ([-2., 0.5, -1., 1.] * n)[:n], ([1., 1., -1.] * n)[:n], ([0.5, 2.] * n)[:n]])
	for n in (2, 3, 4, 8):
		for k in (1, 2, 3):
			for s in (5, 8, 11, 14):
				for den in ([1.] + [0.] * n, [1., 0.5] + [0.] * (n - 1), [1.] + [0.] * (n - 1) + [2. ** -s / 4]):
					if k < n:
						yield dict(num=[1.] + [0.5 + i for i in range(n - k)] + [2. ** -s] * k, den=den, gamma=[0.] * n, tier=tier, Delta=[None])
	for name, num, den in systems.tf_mag():
		n = len(den) - 1
		for g in ([1.] * n, [0.] * n, [0.5, -0.25, 0.75][:n], None):
			yield dict(num=num, den=den, gamma=g, tier=tier, Delta=[None, [1.] * n, [2., 0.5, -1.][:n]], mag=1)


def run(c, r):
	from fixif.LTI import Filter
	from fixif.Structures import rhoDFII
	num, den, g = c['num'], c['den'], c['gamma']
	n = len(den) - 1
	N = 2 * n + 4
	stable = max([abs(z) for z in numpy.roots(den)] + [0]) < 1 - 1e-9
	F = Filter(num=num, den=den, stable=True)
	h = [[[v] for v in ref.impulse_tf([Fr(x) for x in num], [Fr(x) for x in den], N)]]
	De = [1., 0.5, 3.] if c['tier'] == 'quick' else [1., 0.5, 3., -2.]
	deltas = [None] + list(itertools.product(De, repeat=n))
	if n >= 3 and c['tier'] == 'quick':
		deltas = [None] + [d for i, d in enumerate(deltas[1:]) if i % 2 == 0]
	mag = 'mag' in c
	# (the changes of basis are exact, or nearly, in these cases)
	tol = 1e-6
	if 'Delta' in c:
		deltas, tol = c['Delta'], 1e-9
	for d in deltas:
		for tr in (True, False):
			for eq in (True, False):
				forms = [dict(gamma=None if g is None else [g], Delta=None if d is None else [list(d)])]
				if tr and not eq:
					forms.append(dict(gamma=None if g is None else list(g), Delta=None if d is None else list(d)))
					forms.append(dict(gamma=None if g is None else numpy.array([g]), Delta=None if d is None else numpy.matrix(d)))
				for kw in forms:
					kw = {k: v for k, v in kw.items() if v is not None}
					R = rhoDFII(F, transposed=tr, equiv_dSS=eq, **kw)
					check(r, 'rhoDFII transposed=%s equiv_dSS=%s %s of %s/%s' % (tr, eq, kw, num, den), F, h, R, N, tol, mag)
					if R.n != n or (eq and R.l):
						r.fail('rhoDFII %s: sizes %s' % (kw, R.size))
	if not stable:
		return
	for sc in ('l2', 'l2-relaxed'):
		for tr in (True, False):
			for eq in (True, False):
				kw = {} if g is None else dict(gamma=[g])
				R = rhoDFII(F, transposed=tr, equiv_dSS=eq, scaling=sc, **kw)
				what = 'rhoDFII transposed=%s equiv_dSS=%s scaling=%s %s of %s/%s' % (tr, eq, sc, kw, num, den)
				check(r, what, F, h, R, N, tol, mag)
				# (the Gramian of nearly cancelled systems is only rounding errors)
				if sc == 'l2' and tr and not mag:
					W = numpy.zeros((n, n))
					A, x = numpy.array(R.AZ), numpy.array(R.BZ)
					for _ in range(2000):
						W += x @ x.T
						x = A @ x
					for i in range(n):
						if W[i, i] > 1e-9 and abs(W[i, i] - 1) > (1e-5 if n < 5 else 1e-3):
							r.fail('%s: controllability Gramian %s' % (what, W.tolist()))
							break
