"""C17: quantization rounds the coefficients of a new realization, and shares nothing that can change with the first one."""
from mc import ref, systems
from mc.sifs import BIG, jtos, build_args, Exact, NAMES, shapes, npm
from mc.checks.c13 import exact_of, Rng
from mc.checks.c11 import markov_same
from fractions import Fraction as Fr
import itertools
import math
import random
import numpy

ID = 'C17'
LEVEL = 'model_checking'
RULE = 'values: every dimension tuple, coefficient family, structure and word-length; each coefficient of the quantized realization is compared with the exact rounding. histories: every sequence of quantizations, edits and queries over the realizations obtained so far (state = exact coefficients and masks of all of them, transition = one operation); after each sequence all of them are compared with new realizations'
BOUNDS = {'quick': 'l<=2, n<=3, p,q<=2, 7 families, structures for orders 1..3, word-lengths 2..12, 16, 24, 53, 54, 60, 64, 100; histories of 3 operations over up to 3 realizations, for 4 dimension tuples', 'thorough': 'l<=3, n<=4, p,q<=3; orders 1..4; word-lengths 2..32, 53, 54, 60, 63, 64, 65, 100; histories of 4 operations over up to 3 realizations'}
ASSUMPTIONS = ['the fixed-point constants (companion package fixif.FxP) are replaced by round-to-nearest ones (as documented in quantize)', 'word-length 1 is not considered (no positive number can be represented)']


def cases(tier):
	q_ = tier == 'quick'
	W = list(range(2, 13)) + [16, 24, 53, 54, 60, 64, 100] if q_ else list(range(2, 33)) + [53, 54, 60, 63, 64, 65, 100]
	for d in itertools.product(range(0, 3 if q_ else 4), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		for fam in ('full', 'sparse', 'pow2', 'int', 'odd', 'edge', 'mag'):
			yield dict(k='val', d=list(d), fam=fam, W=W)
	for d in BIG:
		yield dict(k='val', d=list(d), fam='big', W=[3, 8, 16])
		yield dict(k='val', d=list(d), fam='odd', W=[4, 9])
	for name, num, den in systems.tf_mag() + systems.tf_big()[::1 if not q_ else 5] + systems.tf_pool([1, 2, 3] if q_ else [1, 2, 3, 4]):
		yield dict(k='struct', num=num, den=den, W=[2, 5, 8, 16])
	for w in (0, -1, -8, 2.5, 8., '8', None, [8], (8,)):
		yield dict(k='bad', w=w)
	ops = []
	for i in range(3):
		ops += [('q', i, 3), ('e', i, 'N'), ('m', i, 'dQ'), ('s', i, '')]
		if i == 0:
			ops += [('q', i, 8), ('e', i, 'S'), ('e', i, 'K')]
	for d in ((1, 2, 1, 1), (2, 1, 2, 1), (0, 2, 1, 2), (2, 2, 1, 1)):
		for first in ops:
			if first[1] == 0:
				for second in ops:
					if second[1] < 2:
						yield dict(k='hist', d=list(d), pre=[list(first), list(second)], L=3 if q_ else 4, ops=[list(o) for o in ops])


ODD = [0.3, -0.7, 1 / 3., -1.9, 0.0123, 5.5, -100.1, 1e-3, 0.75, -0.5000001, 0.999, -0.999]


# (powers of 2, just below and just above, and very small or large)
EDGE = [0.5, 0.5 - 2. ** -54, 0.5 + 2. ** -53, -1., -1. + 2. ** -53, -1. - 2. ** -52, 1. - 2. ** -30, 1. + 2. ** -30, 2. ** -60, -2. ** 50, 3 * 2. ** -1000, -5 * 2. ** 900, 1.5 - 2. ** -40, 1.5, 1.25, -1.75, 0.875, 0.9375, -1e-12, 1e-300, 2. ** -40 * 0.7]


def family(d, fam):
	if fam not in ('odd', 'edge'):
		return jtos(*d, fam)
	D = jtos(*d, 'full')
	V = ODD if fam == 'odd' else EDGE
	k = (3 * d[0] + 7 * d[1] + 5 * d[2] + d[3]) % len(V) if fam == 'edge' else 0
	for x in NAMES:
		for i, row in enumerate(D[x]):
			for j in range(len(row)):
				if x != 'J' or i > j:
					row[j] = V[k % len(V)]
					k += 1
	return D


def rounded(c, w):
	"""all the acceptable roundings of c on w bits (two's complement): the two neighbours when c is at their middle"""
	c = Fr(c)
	if c == 0:
		return {Fr(0)}
	m = 0
	while abs(c) > Fr(2) ** m:
		m += 1
	while abs(c) <= Fr(2) ** (m - 1):
		m -= 1
	out = set()
	for mm in (m, m + 1):
		# (the next msb when the rounded value cannot be represented; -2^m can be represented with msb m, also with msb m+1)
		lsb = Fr(2) ** (mm - w + 1)
		f = math.floor(c / lsb)
		near = [f] if c / lsb - f < Fr(1, 2) else [f + 1] if c / lsb - f > Fr(1, 2) else [f, f + 1]
		ok = [v for v in near if -2 ** (w - 1) <= v < 2 ** (w - 1)]
		out |= {v * lsb for v in ok}
		if len(ok) == len(near) and not (mm == m and c == -Fr(2) ** m):
			break
	return out


def compare(r, what, R, D, dims, w):
	"""the coefficients of R are those of D rounded on w bits"""
	sh = shapes(*dims)
	for x in NAMES:
		X = getattr(R, x)
		if X.shape != sh[x]:
			r.fail('%s: %s has shape %s' % (what, x, X.shape))
			return
		for i in range(sh[x][0]):
			for j in range(sh[x][1]):
				c = Fr(D[x][i][j])
				g = Fr(float(X[i, j]))
				# (J is stored with the opposite sign)
				ok = {-v for v in rounded(-c, w)} if x == 'J' else rounded(c, w)
				r.step()
				r.outcome((float(c), w, float(g)))
				if g not in ok:
					r.fail('%s: %s[%d,%d] = %r quantized on %d bits is %r instead of %s' % (what, x, i, j, float(c), w, float(g), [float(v) for v in ok]))
					return


def answers(r, what, R, dims):
	"""everything R answers corresponds to its coefficients"""
	E, D = exact_of(R)
	A, B, C, Dm = E.ss()
	H = R.dSS
	for X, Y in ((H.A, A), (H.B, B), (H.C, C), (H.D, Dm)):
		if not ref.closemat(X, Y, 1e-9, 1e-12):
			r.fail('%s: its state space is not the one of its coefficients' % what)
			return
	X = R.to_dSSexact()
	if [ref.fmat(M) for M in (X.A, X.B, X.C, X.D)] != [A, B, C, Dm]:
		r.fail('%s: its exact state space is not the one of its coefficients' % what)
	from fixif.SIF import SIF
	F = SIF(tuple(getattr(R, x).copy() for x in NAMES))
	for nm in ('Hu', 'Hepsilon', 'Hzeta'):
		if not markov_same(getattr(R, nm), getattr(F, nm)):
			r.fail('%s: %s is not the one of its coefficients' % (what, nm))
	if not numpy.allclose(R.invJ, F.invJ):
		r.fail('%s: invJ is not the one of its coefficients' % what)
	u = numpy.matrix([[1., -2., 0.5, 3.]] * dims[3])
	y = R.simulate(u)
	W = E.run([[Fr(v)] * dims[3] for v in (1., -2., 0.5, 3.)])
	if not ref.closemat(y.T, [o[3] for o in W], 1e-9, 1e-10):
		r.fail('%s: its simulation is not the one of its coefficients' % what)


def build(D, dims):
	from fixif.SIF import Realization
	sT = ['tmp%s' % 'abcdefghijklm'[i] for i in range(dims[0])]
	return Realization(None, build_args(D, *dims), structureName='the structure', shortName='str', surnameVarT=sT)


def run(c, r):
	if c['k'] == 'val':
		d = tuple(c['d'])
		D = family(d, c['fam'])
		R = build(D, d)
		Z, dZ, f = R.Z.copy(), R.dZ.copy(), R.filter
		for w in c['W']:
			what = 'quantization of %s %s' % (list(d), c['fam'])
			Q = R.quantize(w)
			r.state((tuple(d), c['fam'], w))
			if Q is R or type(Q) is not type(R):
				r.fail('%s: not a new realization' % what)
			compare(r, what, Q, D, d, w)
			if c['fam'] not in ('odd', 'edge'):
				answers(r, what + ' on %d bits' % w, Q, d)
			if not numpy.array_equal(R.Z, Z) or not numpy.array_equal(R.dZ, dZ) or R.filter is not f:
				r.fail('%s on %d bits modifies the realization' % (what, w))
			if Q.filter is not f or Q.structureName != 'the structure' or Q.size != d or Q.shortName != 'str' or Q.name != R.name:
				r.fail('%s: the filter, names or sizes are lost' % what)
	elif c['k'] == 'struct':
		from fixif.LTI import Filter
		from fixif.Structures import iterStructuresAndOptions
		old = random.uniform
		random.uniform = Rng([])
		try:
			stable = max([abs(z) for z in numpy.roots(c['den'])] + [0]) < 1 - 1e-9
			F = Filter(num=c['num'], den=c['den'], stable=stable)
			for st, opt in iterStructuresAndOptions(F):
				R = st.makeRealization(F, **(opt or {}))
				E, D = exact_of(R)
				for w in c['W']:
					what = 'quantization of %s %s of %s/%s' % (st.name, opt, c['num'], c['den'])
					Q = R.quantize(w)
					r.state((what, w))
					compare(r, what, Q, D, R.size, w)
		finally:
			random.uniform = old
	elif c['k'] == 'bad':
		R = build(jtos(1, 1, 1, 1, 'full'), (1, 1, 1, 1))
		r.step()
		try:
			R.quantize(c['w'])
		except ValueError as e:
			r.outcome('refused')
			return
		except Exception as e:
			r.fail('quantize(%r) raises %r' % (c['w'], e))
			return
		r.fail('quantize(%r) is accepted' % (c['w'],))
	else:
		history(c, r)


def history(c, r):
	d = tuple(c['d'])
	ops = [tuple(o) for o in c['ops']]
	tails = list(itertools.product(ops, repeat=c['L'] - len(c['pre'])))
	sh = shapes(*d)
	for tail in tails:
		seq = [tuple(o) for o in c['pre']] + list(tail)
		D0 = family(d, 'full')
		objs = [build(D0, d)]
		mirror = [{x: [list(row) for row in D0[x]] for x in NAMES}]
		masks = [{'dZ': objs[0].dZ.copy()}]
		ok = True
		for k, (o, i, a) in enumerate(seq):
			if i >= len(objs) or (o == 'q' and len(objs) == 3):
				ok = False
				break
			R = objs[i]
			r.step()
			if o == 'q':
				Q = R.quantize(a)
				compare(r, 'history %s' % seq, Q, mirror[i], d, a)
				objs.append(Q)
				mirror.append({x: [[float(v) for v in row] for row in getattr(Q, x).tolist()] for x in NAMES})
				masks.append({'dZ': masks[i]['dZ'].copy()})
			elif o == 'e':
				h, w = sh[a]
				M = [[0.4 + 0.1 * ((p + 2 * q + k + i) % 5) for q in range(w)] for p in range(h)]
				setattr(R, a, npm(M, h, w))
				mirror[i][a] = M
			elif o == 'm':
				h, w = sh['Q']
				m = numpy.array([[(p + q + k) % 2 for q in range(w)] for p in range(h)])
				R.dQ = m
				masks[i]['dZ'][d[0]:d[0] + d[1], d[0] + d[1]:] = m
			else:
				R.Hzeta.A, R.Hepsilon.A, R.Hu.B, R.dSS.A, R.to_dSSexact(), R.AZ, R.invJ
		if not ok:
			continue
		for i, R in enumerate(objs):
			what = 'history %s, realization %d' % (seq, i)
			for x in NAMES:
				h, w = sh[x]
				if not numpy.array_equal(getattr(R, x), npm(mirror[i][x], h, w)):
					r.fail('%s: %s is %s' % (what, x, getattr(R, x).tolist()))
					return
			if not numpy.array_equal(R.dZ, masks[i]['dZ']):
				r.fail('%s: dZ is %s instead of %s' % (what, R.dZ.tolist(), masks[i]['dZ'].tolist()))
				return
			answers(r, what, R, d)
			r.state((tuple(seq[:2]), i, R.Z.tolist()))
		r.outcome([R.Z.tolist() for R in objs])
