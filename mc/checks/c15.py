"""C15: the generated C code computes what the realization computes."""
from mc import ref, systems, env
from mc.sifs import SPECIAL, special, PATTERNS, patterns, BIG, scale, jtos, build_args, Exact, NAMES, shapes, npm
from mc.checks.c13 import exact_of, Rng
from fractions import Fraction as Fr
import ctypes
import itertools
import os
import random
import subprocess
import tempfile
import shutil
import numpy

ID = 'C15'
LEVEL = 'model_checking'
RULE = 'code: for every dimension tuple, coefficient family and structure, the generated C function is compiled and stepped through every input sequence over an alphabet, interleaved with a second instance that has its own states (state = state array, transition = one call, outputs and states compared with exact arithmetic after each call); run: every history of runs, edits and quantizations over two realizations alive in the same process'
BOUNDS = {'quick': 'l<=3, n<=3, p,q<=2, 4 families; all structures and options for orders 1..3; sequences of 3 calls over 3 inputs; histories of 4 operations out of 6 for 6 pairs of realizations; special coefficients (0, +-1, powers of 2, null blocks) in every place; surnames with indexes, shifts and lengths up to the line limit; edits that keep the sum of the coefficients', 'thorough': 'l<=4, n<=4, p,q<=3, 5 families; orders 1..4; sequences of 4 calls; histories of 5 operations'}
ASSUMPTIONS = ['the C compiler of this machine, on x86-64', 'comparison with tolerance 1e-13, relatively to the terms (double precision evaluation)', 'the folder where code is generated is replaced by a scratch one']
CASE_LIMIT = 300
CHUNK = 1


def cases(tier):
	q_ = tier == 'quick'
	for d in itertools.product(range(0, 4 if q_ else 5), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		yield dict(k='code', d=list(d), T=3 if q_ else 4, fams=['full', 'sparse', 'upper', 'int'] + (['cancel', 'corner'] if d[1] > 2 else []) + ([] if q_ else ['pow2']))
	for d in BIG:
		yield dict(k='code', d=list(d), T=2, fams=['big'])
	for d in itertools.product(range(0, 3 if q_ else 5), range(1, 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		yield dict(k='code', d=list(d), T=2 if q_ else 3, fams=['mag'])
	for i, t in enumerate(systems.tf_mag()):
		yield dict(k='struct', tfs=[list(t)], T=2 if q_ else 3)
	for i, t in enumerate(systems.tf_big()):
		if not q_ or i in (0, 5):
			yield dict(k='struct', tfs=[list(t)], T=2)
	pool = systems.tf_pool([1, 2, 3] if q_ else [1, 2, 3, 4])
	for i in range(0, len(pool), 5):
		yield dict(k='struct', tfs=[list(x) for x in pool[i:i + 5]][(0 if not q_ else i // 5 % 5):][:1 if q_ else 5], T=3)
	# the first cells of the alphabet: coefficients 0, 1, -1 and others at every place
	for v in itertools.product([0., 1., -1., 0.3], repeat=3 if q_ else 4):
		yield dict(k='alpha', v=list(v))
	# blocks of null coefficients
	for d in PATTERNS:
		for f in range(6):
			yield dict(k='zeros', d=list(d), f=f)
	for v in SPECIAL:
		yield dict(k='special', v=v)
	for i, d in enumerate(itertools.product((0, 2), (1, 3), (1, 2), (1, 2, 3))):
		yield dict(k='inputs', d=list(d))
	N = 4 if q_ else 5
	for pair in range(6):
		for first in range(6):
			for second in range(6):
				yield dict(k='run', pair=pair, pre=[first, second], N=N)


def generated_dir():
	d = tempfile.mkdtemp(dir=env.SCRATCH)
	try:
		import fixif.SIF.Realization_implementation as ri
		if hasattr(ri, 'GENERATED_PATH'):
			ri.GENERATED_PATH = d + '/'
	except ImportError:
		pass
	return d


def compile_c(code, d):
	lib = os.path.join(d, 'lib.so')
	p = subprocess.run(['cc', '-w', '-fPIC', '-shared', '-o', lib, '-x', 'c', '-'], input=code.encode(), stderr=subprocess.PIPE)
	if p.returncode:
		return None, p.stderr.decode()
	return ctypes.CDLL(lib), ''


D_ = ctypes.c_double
PD = ctypes.POINTER(ctypes.c_double)


class Inst(object):
	"""an instance of a filter: function of the library, with its own states"""

	def __init__(self, lib, name, size):
		self.l, self.n, self.p, self.q = size
		self.f = getattr(lib, name)
		self.f.argtypes = ([PD] if self.p > 1 else []) + ([PD] if self.q > 1 else [D_]) + [PD]
		self.f.restype = D_ if self.p == 1 else None
		self.x = (D_ * (self.n + 2))(*([0.] * self.n + [7., 7.]))

	def step(self, u):
		a = []
		y = (D_ * (self.p + 1))(*([0.] * self.p + [7.]))
		if self.p > 1:
			a.append(y)
		ub = (D_ * (self.q + 1))(*([float(v) for v in u] + [7.]))
		a.append(ub if self.q > 1 else float(u[0]))
		a.append(self.x)
		res = self.f(*a)
		out = [res] if self.p == 1 else list(y)[:self.p]
		ok = list(self.x)[self.n:] == [7., 7.] and y[self.p] == 7. and [ub[i] for i in range(self.q)] == [float(v) for v in u]
		return out, ok


def closev(a, b, bound, digits=13):
	"""relatively to the size of the terms"""
	return len(a) == len(b) == len(bound) and all(x == x and abs(Fr(float(x)) - y) <= z / 10 ** digits for x, y, z in zip(a, b, bound))


def drive(r, what, lib, name, E, T, other=None):
	"""all the input sequences, from the initial state; `other` (name, E) is stepped in between"""
	ual = [[Fr(1)] + [Fr(-2)] * (E.q - 1), [Fr(0)] * E.q, [Fr(-3, 4)] + [Fr(5)] * (E.q - 1)]
	size = (E.l, E.n, E.p, E.q)
	for m, seq in enumerate(itertools.product(ual, repeat=T)):
		a = Inst(lib, name, size)
		b = Inst(lib, other[0], (other[1].l, other[1].n, other[1].p, other[1].q)) if other else Inst(lib, name, size)
		Eb = other[1] if other else E
		xa, xb = [Fr(0)] * E.n, [Fr(0)] * Eb.n
		# the states are in the given array: null ones, or others
		if m % 2:
			xa = [Fr((5 * i) % 7 - 3, 2) or Fr(1) for i in range(E.n)]
			for i, v in enumerate(xa):
				a.x[i] = float(v)
		x0 = [float(v) for v in xa]
		za, zb = [abs(v) for v in xa], xb
		for k, u in enumerate(seq):
			t, xa, y = E.step(xa, u)
			t, za, ya = E.bound().step(za, [abs(v) for v in u])
			got, ok = a.step(u)
			r.step()
			r.state((what, xa))
			if not ok:
				r.fail('%s: the function writes outside of its arrays, or in its input' % what)
				return False
			if not closev(got, y, ya):
				r.fail('%s: from the states %s, after the inputs %s the outputs are %s instead of %s' % (what, x0, [[float(v) for v in w] for w in seq[:k + 1]], got, ref.show([y])))
				return False
			if not closev(list(a.x)[:E.n], xa, za):
				r.fail('%s: from the states %s, after the inputs %s the states are %s instead of %s' % (what, x0, [[float(v) for v in w] for w in seq[:k + 1]], list(a.x)[:E.n], ref.show([xa])))
				return False
			# the other instance, with other inputs
			v = [Fr(k - 2)] * Eb.q
			t, xb, yb = Eb.step(xb, v)
			t, zb, yz = Eb.bound().step(zb, [abs(w) for w in v])
			got, ok = b.step(v)
			if not ok or not closev(got, yb, yz):
				r.fail('%s: an instance used in turn gives %s instead of %s' % (what, got, ref.show([yb])))
				return False
		r.outcome((what, ref.show([y])))
	return True


def answers(r, what, Y, E, us):
	"""Y: outputs for the inputs us, compared relatively to the size of the terms"""
	Y = numpy.array(Y)
	W = E.run(us)
	B = E.bound().run([[abs(v) for v in u] for u in us])
	if Y.shape != (E.p, len(us)) or not all(closev(Y[:, t].tolist(), W[t][3], B[t][3], 13) for t in range(len(us))):
		r.fail('%s: runCdouble gives %s instead of %s' % (what, Y.tolist(), ref.show([[w[3][i] for w in W] for i in range(E.p)])))
		return False
	return True


def inputs(c, r):
	"""all the kinds of input signals"""
	from fixif.SIF import Realization
	d = tuple(c['d'])
	q = d[3]
	D = jtos(*d, 'full')
	R = Realization(None, build_args(D, *d))
	E = Exact(D, *d)
	real = [[[0.1, 1 / 3., -1e-9, 1e9 + 1e-3, 0.7][(t + 2 * i) % 5] for t in range(4)] for i in range(q)]
	ints = [[[3, -7, 0, 100][(t + i) % 4] for t in range(4)] for i in range(q)]
	for nm, U in (('matrix', numpy.matrix(real)), ('array', numpy.array(real)), ('list', real), ('integer matrix', numpy.matrix(ints)), ('int32 array', numpy.array(ints, dtype=numpy.int32)), ('list of int', ints),
			('float32 matrix', numpy.matrix(real, dtype=numpy.float32)), ('int8 matrix', numpy.matrix(ints, dtype=numpy.int8)), ('boolean matrix', numpy.matrix([[v != 0 for v in row] for row in ints])), ('Fortran order', numpy.asfortranarray(numpy.array(real))), ('transposed matrix', numpy.matrix(numpy.array(real).T.copy()).T),
			('part of a matrix', numpy.matrix([row + [5.] for row in real] + [[4.] * 5])[:-1, :-1]), ('every second sample', numpy.matrix([[v for x in row for v in (x, 9.)] for row in real])[:, ::2]), ('reversed', numpy.matrix([row[::-1] for row in real])[:, ::-1]), ('one sample', numpy.matrix([row[:1] for row in real])), ('no sample', numpy.matrix(numpy.zeros((q, 0))))):
		M = numpy.array(U)
		us = [[Fr(float(M[i, t])) for i in range(q)] for t in range(M.shape[1])]
		r.step(len(us))
		Y = R.runCdouble(U)
		r.state((d, nm))
		r.outcome(numpy.array(Y).tolist())
		if not answers(r, 'code of %s, input given as %s' % (list(d), nm), Y, E, us):
			return
		if not numpy.array_equal(numpy.array(U), M):
			r.fail('code of %s: runCdouble modifies its input given as %s' % (list(d), nm))


def run(c, r):
	from fixif.LTI import Filter, dSS
	from fixif.SIF import Realization
	d = generated_dir()
	old = random.uniform
	try:
		if c['k'] in ('code', 'alpha', 'zeros'):
			items = []
			if c['k'] == 'zeros':
				dims = tuple(c['d'])
				items = [(fam, jtos(*dims, fam), dims) for fam in patterns(*dims, c['f'])]
			elif c['k'] == 'code':
				for fam in c['fams']:
					D = jtos(*c['d'], fam)
					for tag in ('', 'A', 'B', 'C', 'D'):
						D2 = dict(D)
						if tag and fam not in ('full', 'mag') or tag == 'D' and fam == 'mag':
							continue
						dims = tuple(c['d'])
						if tag == 'D':
							# very small terms of P below its diagonal (another basis of the states)
							t = [2. ** (-44 * i) for i in range(dims[1])]
							D2.update(P=[[v * t[i] / t[j] for j, v in enumerate(row)] for i, row in enumerate(D['P'])], K=[[v * t[i] for v in row] for i, row in enumerate(D['K'])], Q=[[v * t[i] for v in row] for i, row in enumerate(D['Q'])],
								M=[[v / t[j] for j, v in enumerate(row)] for row in D['M']], R=[[v / t[j] for j, v in enumerate(row)] for row in D['R']])
							items.append(('f_%s%s' % (fam, tag), D2, dims))
							continue
						if tag:
							# the dependencies between states: one term of P below the diagonal, none, all
							n = dims[1]
							D2['P'] = [[{'A': 0.25 if i == j else 0., 'B': 0.5 if i == j + 1 else 0., 'C': 0.5 if j == i + 1 else (0.125 if (i, j) == (n - 1, 0) else 0.)}[tag] for j in range(n)] for i in range(n)]
							if fam == 'mag':
								D2['P'] = scale('P', D2['P'])
						items.append(('f_%s%s' % (fam, tag), D2, dims))
			else:
				v = c['v']
				for k, w in enumerate(itertools.product([0., 1., -1., 0.3], repeat=2)):
					D = dict(J=[[1.]], K=[[v[0]], [w[0]]], L=[[w[1]]], M=[[1., v[1]]], N=[[1.]], P=[[0.5, v[2]], [v[0] * 0.25, 1. if w[1] else 0.]], Q=[[w[0]], [0.]], R=[[v[1], w[1]]], S=[[v[2]]])
					items.append(('g%d' % k, D, (1, 2, 1, 1)))
			code, Es = [], []
			for name, D, dims in items:
				F = Filter(ss=dSS(*[numpy.zeros(s) for s in ((dims[1], dims[1]), (dims[1], dims[3]), (dims[2], dims[1]), (dims[2], dims[3]))])) if c['k'] != 'alpha' else None
				R = Realization(F, build_args(D, *dims))
				code.append(R.implementCdouble(name))
				Es.append(Exact(D, *dims))
			lib, err = compile_c('\n'.join(code), d)
			if lib is None:
				r.fail('the generated code of %s cannot be compiled: %s' % ([i[0] for i in items], err[:800]))
				return
			for k, (name, D, dims) in enumerate(items):
				o = (k + 1) % len(items)
				drive(r, 'code of %s %s' % (list(dims), name + (', P = %s' % D['P'] if c['k'] == 'zeros' else '')) if c['k'] != 'alpha' else 'code of %s' % D, lib, name, Es[k], c.get('T', 2), (items[o][0], Es[o]) if k % 2 else None)
			return
		if c['k'] == 'struct':
			from fixif.Structures import iterStructuresAndOptions
			random.uniform = Rng([])
			code, todo = [], []
			for j, (nm, num, den) in enumerate(c['tfs']):
				stable = max([abs(z) for z in numpy.roots(den)] + [0]) < 1 - 1e-9
				F = Filter(num=num, den=den, stable=stable, name='a/b_%s' % nm)
				for k, (st, opt) in enumerate(iterStructuresAndOptions(F)):
					R = st.makeRealization(F, **(opt or {}))
					if R.l > 60:
						continue
					fn = 's%d_%d' % (j, k)
					code.append(R.implementCdouble(fn))
					todo.append((fn, exact_of(R)[0], '%s %s of %s/%s' % (st.name, opt, num, den)))
			lib, err = compile_c('\n'.join(code), d)
			if lib is None:
				r.fail('the generated code cannot be compiled: %s' % err[:800])
				return
			for k, (fn, E, what) in enumerate(todo):
				o = todo[(k + 1) % len(todo)]
				drive(r, 'code of ' + what, lib, fn, E, c['T'], o[:2])
			return
		if c['k'] == 'special':
			# sums of one term: the result is the double nearest to the product
			v = c['v']
			items = list(special(v))
			lib, err = compile_c('\n'.join(Realization(None, build_args(D, 2, 1, 1, 1)).implementCdouble('f_' + place) for place, D in items), d)
			if lib is None:
				r.fail('the generated code with the coefficient %r cannot be compiled: %s' % (v, err[:800]))
				return
			for place, D in items:
				for u in (1., -3., 0.7, 2. ** 700 if abs(v) < 1 else 2. ** -700, 1 - 2. ** -53, 1e5 / 3):
					a = Inst(lib, 'f_' + place, (2, 1, 1, 1))
					x = 0.
					w = -v if place == 'J' else v
					for k in range(3):
						y = {'S': w * u, 'R': w * x, 'P': x, 'Q': x, 'K': x, 'N': w * u, 'L': w * u, 'J': w * u, 'M': w * x}[place]
						x = {'S': 0., 'R': u, 'P': w * x + u, 'Q': w * u, 'K': w * u, 'M': u}.get(place, 0.)
						if abs(x) == float('inf') or abs(y) == float('inf'):
							break
						got, ok = a.step([u])
						r.step()
						r.state((v, place, u, k))
						# (two terms for P)
						good = [got[0] == y, a.x[0] == x] if place != 'P' or k < 1 else [abs(got[0] - y) <= abs(y) * 1e-15, abs(a.x[0] - x) <= abs(x) * 1e-15]
						x = a.x[0]
						if not ok or not all(good):
							r.fail('code with the coefficient %r in %s, input %r: the output is %r instead of %r, or the state is not right' % (v, place, u, got[0], y))
							return
			return
		if c['k'] == 'inputs':
			inputs(c, r)
			return
		# histories of runs
		pairs = [((1, 2, 1, 1), 'full', (2, 1, 1, 1), 'sparse'), ((0, 1, 1, 1), 'full', (0, 1, 1, 1), 'upper'), ((1, 2, 2, 1), 'full', (1, 2, 1, 2), 'sparse'),
		         ((2, 2, 2, 2), 'upper', (0, 2, 2, 2), 'full'), ((1, 1, 1, 2), 'upper', (1, 1, 1, 1), 'full'), ((3, 3, 1, 1), 'full', (1, 2, 1, 1), 'upper')]
		for rest in itertools.product(range(6), repeat=c['N'] - 2):
			hist = c['pre'] + list(rest)
			# keep histories that end with a run, and where edits are followed by something
			if hist[-1] not in (0, 1) or sum(h in (0, 1) for h in hist) < 2:
				continue
			if hist.count(3) + hist.count(4) + hist.count(5) == 0 and c['pair'] % 2:
				continue
			da, fa, db, fb = pairs[c['pair']]
			Ds = [jtos(*da, fa), jtos(*db, fb)]
			Rs = [Realization(None, build_args(Ds[0], *da)), Realization(None, build_args(Ds[1], *db))]
			dims = [da, db]
			for k, o in enumerate(hist):
				r.step()
				if o in (0, 1):
					T = 3
					E = exact_of(Rs[o])[0] if hist[:k].count(5) else Exact(Ds[o], *dims[o])
					us = [[Fr((7 * t + 3 * i + k) % 5 - 2, 2) for i in range(E.q)] for t in range(T)]
					W = E.run(us)
					U = numpy.matrix([[float(u[i]) for u in us] for i in range(E.q)])
					Y = Rs[o].runCdouble(U)
					r.state((c['pair'], hist[:k], o))
					if not answers(r, 'history %s of %s' % (hist[:k + 1], pairs[c['pair']]), Y, E, us):
						return
				elif o == 2:
					# a coefficient of the first one
					l, n, p, q = dims[0]
					tiny = (1 + Fr(1, 2 ** 20)) if k % 2 else Fr(9, 8)
					x = ('JMNK' if l > 1 else 'MNKP' if l else 'PQRP')[(k + sum(hist[:k])) % 4]
					X = [list(row) for row in Ds[0][x]]
					X[-1][0] = float(X[-1][0] * tiny) if X[-1][0] else 0.125
					Ds[0][x] = X
					setattr(Rs[0], x, npm(X, *shapes(*dims[0])[x]))
				elif o == 3:
					# one of the second, or a very small change
					for x, e in ([('Q', 0.25)], [('S', 2. ** -36)], [('R', -2. ** -34)], [('R', 0.25), ('S', -0.25)])[(k + sum(hist[:k])) % 4]:
						# (the last one keeps the sum of the coefficients)
						X = [[v + (e if len(Ds[1]['R'][0]) == 1 or x == 'Q' or (i, j) == (0, 0) else 0.) for j, v in enumerate(row)] for i, row in enumerate(Ds[1][x])]
						Ds[1][x] = X
						setattr(Rs[1], x, npm(X, *shapes(*dims[1])[x]))
				elif o == 4:
					# swap their roles
					Ds.reverse()
					Rs.reverse()
					dims.reverse()
					da, db = dims
				elif o == 5:
					# the first one is replaced by its quantized version, the other one by the initial one
					Rs = [Rs[0].quantize(4), Rs[0]]
					Ds[1] = dict(Ds[0])
					dims[1] = dims[0]
					da, db = dims
					Ds[0] = {x: [[float(v) for v in row] for row in getattr(Rs[0], x).tolist()] or Ds[0][x] for x in NAMES}
			r.outcome((c['pair'], hist))
	finally:
		random.uniform = old
		shutil.rmtree(d, ignore_errors=True)
