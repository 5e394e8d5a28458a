"""C16: the text of the algorithm, interpreted, computes what the realization computes."""
from mc import ref, systems
from mc.sifs import SPECIAL, special, some_patterns, BIG, jtos, build_args, Exact, NAMES, shapes, npm
from mc.checks.c13 import exact_of, Rng
from fractions import Fraction as Fr
import itertools
import random
import re
import numpy

ID = 'C16'
LEVEL = 'model_checking'
RULE = 'the text generated for every dimension tuple, coefficient family, structure, option and format is parsed and interpreted line after line over every input sequence of an alphabet (state = values of the variables, transition = one line executed); all variables are compared with exact arithmetic at each time; the text without time and the LaTeX one must contain the same assignments'
BOUNDS = {'quick': 'l<=3, n<=3, p,q<=2, 5 families, 4 coefficient formats; all structures and options for orders 1..4 with and without surnames; user surnames; input sequences of 4 samples over 3 vectors; special coefficients (0, +-1, powers of 2, null blocks) in every place; small terms below the diagonal of J; indexed, shifted and long surnames', 'thorough': 'l<=4, n<=4, p,q<=3; orders 1..5; sequences of 6 samples'}
ASSUMPTIONS = ['a line reads "variable <- sum of coefficient*variable"; a name with suffix p stands for the next value of the variable', 'variables have null values before time 0']


def cases(tier):
	q_ = tier == 'quick'
	for d in itertools.product(range(0, 4 if q_ else 5), range(1, 4 if q_ else 5), range(1, 3 if q_ else 4), range(1, 3 if q_ else 4)):
		for fam in ('full', 'sparse', 'upper', 'int', 'pow2') + (('cancel', 'corner') if d[1] > 2 else ()):
			yield dict(k='fam', d=list(d), fam=fam, T=4 if q_ else 6)
		yield dict(k='fam', d=list(d), fam='mag', T=2)
	for d in BIG:
		yield dict(k='fam', d=list(d), fam='big', T=2)
	for d, fam in some_patterns(q_):
		yield dict(k='zeros', d=d, fam=fam)
	for name, num, den in systems.tf_mag() + systems.tf_big()[::1 if not q_ else 5] + systems.tf_pool([1, 2, 3, 4] if q_ else [1, 2, 3, 4, 5]):
		yield dict(k='struct', name=name, num=num, den=den, T=4 if q_ else 6)
	for v in itertools.product([0., 1., -1., 0.3], repeat=4 if q_ else 5):
		yield dict(k='alpha', v=list(v))
	for v in SPECIAL:
		yield dict(k='special', v=v)
	yield dict(k='wide', q=90)
	yield dict(k='long', n=9)
	yield dict(k='long', n=14)
	yield dict(k='seq')


VAR = re.compile(r'^(-?)([A-Za-z]\w*)(?:\(k([+-]\d+)?\))?$')


def parse(text):
	"""list of (dest, [(coef, var)]) ; None if it cannot be understood"""
	tok = text.split()
	pos = [i - 1 for i, t in enumerate(tok) if t == '<-']
	out = []
	for a, b in zip(pos, pos[1:] + [len(tok)]):
		terms = []
		for i, t in enumerate(tok[a + 2:b]):
			if i % 2:
				if t != '+':
					return None
				continue
			if t == '0' and b == a + 3:
				continue
			c = Fr(1)
			if '*' in t:
				x, t = t.split('*')
				c = Fr(float.fromhex(x) if 'x' in x else float(x))
			m = VAR.match(t)
			if not m:
				return None
			terms.append((-c if m.group(1) else c, m.group(2), None if '(' not in t else int(m.group(3) or 0)))
		m = VAR.match(tok[a])
		if not m or m.group(1):
			return None
		out.append(((m.group(2), None if '(' not in tok[a] else int(m.group(3) or 0)), terms))
	return out if pos and pos[0] == 0 else None


class Missing(Exception):
	pass


def interpret(lines, inputs, alias, r=None):
	"""values of the variables (name, time) after each step"""
	store = {}
	for k, u in enumerate(inputs):
		now = {}
		for nm, v in u.items():
			store[nm, k] = v
			now[nm] = v
		for (dn, dt), terms in lines:
			v = Fr(0)
			for c, nm, t in terms:
				nm = alias.get(nm, nm)
				if t is None:
					if nm not in now:
						raise Missing('%s is used before it is computed' % nm)
					v += c * now[nm]
				else:
					if (nm, k + t) not in store:
						if k + t > 0:
							raise Missing('%s(%d) is used before it is computed' % (nm, k + t))
						store[nm, k + t] = Fr(0)
					v += c * store[nm, k + t]
			dn = alias.get(dn, dn)
			if dt is None:
				# (v without time is v(k))
				now[dn] = v
				store[dn, k] = v
			else:
				store[dn, k + dt] = v
			if r is not None:
				r.step()
	return store


def names(base, nb):
	return [base] if nb == 1 else ['%s%d' % (base, i + 1) for i in range(nb)]


def check(r, what, R, E, T, surname=None, fmts=(None, '%.17g', '%.20e')):
	"""surname: None, or True: surnames used (then only inputs and outputs are compared)"""
	l, n, p, q = E.l, E.n, E.p, E.q
	T_, X, U, Y = names('t', l), names('x', n), names('u', q), names('y', p)
	ual = [[Fr(1)] + [Fr(-2)] * (q - 1), [Fr(0)] * q, [Fr(-3, 4)] + [Fr(5)] * (q - 1)]
	for fmt in fmts:
		for comments in (False, True) if fmt is None else (False,):
			text = R.algorithmTxt(coefFormat=fmt, withTime=True, withSurname=bool(surname), comments=comments)
			if fmt is not None and '0x' in text:
				r.fail('%s: the format %s of the coefficients is not used in %s' % (what, fmt, text))
				return
			if comments:
				text = '\n'.join(x for x in text.split('\n') if not x.startswith('/'))
			lines = parse(text)
			if lines is None:
				r.fail('%s: the algorithm cannot be read: %s' % (what, text))
				return
			alias = {}
			known = set(T_ + X + U + Y) | (set(surname) if surname else set())
			for (dn, _), _ in lines:
				if dn not in known and dn.endswith('p') and dn[:-1] in known:
					alias[dn] = dn[:-1]
			for seq in itertools.product(ual, repeat=T) if fmt is None and not comments else [ual + ual]:
				W = E.run(seq)
				try:
					st = interpret(lines, [dict(zip(U, u)) for u in seq], alias, r)
				except Missing as e:
					r.fail('%s: %s in\n%s' % (what, e, text))
					return
				for k, (t, x, xp, y) in enumerate(W):
					want = [((nm, k), v) for nm, v in zip(Y, y)]
					if not surname:
						want += [((nm, k + 1), v) for nm, v in zip(T_, t)] + [((nm, k + 1), v) for nm, v in zip(X, xp)]
					for key, v in want:
						# (the coefficients are displayed exactly: values of up to thousands of bits)
						g = st.get(key)
						if g is None or g != v:
							r.fail('%s: with the inputs %s, %s at time %d is %s instead of %s in\n%s' % (what, [[float(a) for a in b] for b in seq], key[0], key[1], None if g is None else float(g), float(v), text))
							return
					r.state((what, bool(surname), x, k))
			r.outcome(text)


def strip(text):
	"""assignments without the times; useless ones are dropped, and repeated ones kept once"""
	lines = parse(text)
	out = []
	for (dn, dt), terms in lines:
		x = (dn, tuple((c, nm) for c, nm, _ in terms))
		if x[1] == ((Fr(1), dn),) or x in out:
			continue
		out.append(x)
	return out


def inplace(r, what, R, E):
	"""the algorithm without time, executed as it is written, computes the right next states (those with suffix p are copied at the end)"""
	lines = parse(R.algorithmTxt(withTime=False, comments=False))
	if lines is None:
		r.fail('%s: the algorithm without time cannot be read' % what)
		return
	U, X = names('u', E.q), names('x', E.n)
	us = [[Fr(1)] + [Fr(-2)] * (E.q - 1), [Fr(0)] * E.q, [Fr(-3, 4)] + [Fr(5)] * (E.q - 1), [Fr(1)] * E.q]
	mem = {}
	B = E.bound().run([[abs(v) for v in u] for u in us])
	for k, (u, (t, x, xp, y)) in enumerate(zip(us, E.run(us))):
		mem.update(zip(U, u))
		for (dn, _), terms in lines:
			mem[dn] = sum((c * mem.get(nm, Fr(0)) for c, nm, _ in terms), Fr(0))
			r.step()
		for nm, v, b in zip(X, xp, B[k][2]):
			if nm + 'p' in mem:
				mem[nm] = mem[nm + 'p']
			if abs(mem.get(nm, Fr(0)) - v) > Fr(1, 10**14) * b:
				r.fail('%s: executed in place, the algorithm without time gives %s = %s after step %d, instead of %s' % (what, nm, float(mem.get(nm, 0)), k, float(v)))
				return


def untimed(r, what, R, surname):
	a = R.algorithmTxt(withTime=True, withSurname=surname, comments=False)
	try:
		b = R.algorithmTxt(withTime=False, withSurname=surname, comments=False)
	except ValueError:
		# refused when surnames are times of other variables
		if not surname:
			raise
		return 'refused'
	r.step()
	if parse(b) is None or strip(a) != strip(b):
		r.fail('%s: the algorithm without time is\n%s\nwhereas with time it is\n%s' % (what, b, a))
	return 'ok'


DECL = re.compile(r'\\(Kw\w+)\{\$(\w+)\$: *(static )?(real|array \[1\.\.(\d+)\] of reals)\}')


def latex(r, what, R, surname):
	for timed in (True, False):
		try:
			a = R.algorithmTxt(withTime=timed, withSurname=surname, comments=False)
		except ValueError:
			# (refused without time when surnames are times of other variables: the LaTeX one too)
			try:
				R.algorithmLaTeX(withTime=timed, withSurname=surname)
			except ValueError:
				continue
			r.fail('%s: the text without time is refused, but not the LaTeX algorithm' % what)
			return
		t = R.algorithmLaTeX(withTime=timed, withSurname=surname, caption='captionOfIt', label='labelOfIt')
		if 'captionOfIt' not in t or '\\label{labelOfIt}' not in t:
			r.fail('%s: caption or label are lost in %s' % (what, t))
			return
		m = re.search(r'\\Begin\{(.*)\}\s*\\end\{algorithm\}', t, re.S)
		if not m:
			r.fail('%s: no algorithm in %s' % (what, t))
			return
		body = '\n'.join(x for x in m.group(1).split('\n') if not x.strip().startswith('\\tcp'))
		body = body.replace('\\leftarrow', '<-').replace('\\\\', ' ').replace('$', '')
		body = re.sub(r'_\{(\w+)\}', r'\1', body)
		r.step()
		pb = parse(body)
		pa = parse(a)
		swap = [x for x in pb or [] if x[0][0] == 'x' and [y[1] for y in x[1]] == ['xp']]
		later = R.n > 1 and not timed and any(dn.endswith('p') and (dn[:-1] in names('x', R.n) or surname) for (dn, _), _ in pa)
		if later and not surname:
			# the next states computed apart are copied at the end
			if pb and pb[-1:] != swap:
				r.fail('%s: the new states are not copied at the end of the LaTeX algorithm\n%s' % (what, body))
				return
		pb = [x for x in pb if x not in swap] if pb is not None and (later or surname) else pb
		if pb is None or pa != pb:
			r.fail('%s: the LaTeX algorithm is\n%s\nwhereas the text is\n%s' % (what, body, a))
			return
		decl = set((m.group(1), m.group(2), bool(m.group(3)), int(m.group(5) or 1)) for m in DECL.finditer(t))
		want = {('KwIn', 'u', False, R.q), ('KwOut', 'y', False, R.p), ('KwData', 'x', True, R.n)} | ({('KwData', 't', False, R.l)} if R.l else set()) | ({('KwData', 'xp', False, R.n)} if later and not surname else set())
		if decl != want and not (surname and want <= decl <= want | {('KwData', 'xp', False, R.n)}):
			r.fail('%s: the LaTeX algorithm declares %s instead of %s' % (what, sorted(decl), sorted(want)))
			return


def sequential(text, us):
	"""executes the text without time, as it is written: values are replaced line after line"""
	lines = parse(text)
	mem = {}
	ys = []
	for u in us:
		mem['u'] = u
		for (dn, _), terms in lines:
			mem[dn] = sum((c * mem.get(nm, Fr(0)) for c, nm, _ in terms), Fr(0))
		ys.append(mem['y'])
	return ys


def run(c, r):
	from fixif.LTI import Filter, dSS
	from fixif.SIF import Realization
	old = random.uniform
	random.uniform = Rng([])
	try:
		if c['k'] == 'fam':
			d = tuple(c['d'])
			D = jtos(*d, c['fam'])
			R = Realization(None, build_args(D, *d))
			E = Exact(D, *d)
			what = 'algorithm of %s %s' % (list(d), c['fam'])
			check(r, what, R, E, c['T'])
			untimed(r, what, R, False)
			inplace(r, what, R, E)
			latex(r, what, R, False)
			# surnames given by the user
			l, n, p, q = d
			sT, sX = ['tmp' + 'abcdefghijklm'[i] for i in range(l)], ['mem' + 'ghijklmnopqrs'[i] for i in range(n)]
			R = Realization(None, build_args(D, *d), surnameVarT=sT, surnameVarX=sX)
			check(r, what + ' with surnames', R, E, 2, surname=sT + sX, fmts=(None,))
			if untimed(r, what + ' with surnames', R, True) != 'ok':
				r.fail('%s: surnames without index are refused without time' % what)
			check(r, what + ' with unused surnames', R, E, 2, fmts=(None,))
			latex(r, what + ' with surnames', R, True)
			# surnames with an index (from 0) and a shift
			R = Realization(None, build_args(D, *d), surnameVarT=[('tmp', i, 0) for i in range(l)], surnameVarX=[('mem', i, 0) for i in range(n)])
			check(r, what + ' with indexed surnames', R, E, 2, surname=['tmp%d' % i for i in range(l)] + ['mem%d' % i for i in range(n)], fmts=(None,))
			if untimed(r, what + ' with indexed surnames', R, True) != 'ok':
				r.fail('%s: surnames without shift are refused without time' % what)
			for sh in (-1, 2, -3):
				for sT, sX in ((None, [('mem', None if n == 1 else i, sh if i == n - 1 else 0) for i in range(n)]),) + (((([('tmp', i, 0 if i else sh) for i in range(l)]), None),) if l else ()):
					R = Realization(None, build_args(D, *d), surnameVarT=sT, surnameVarX=sX)
					r.step()
					if untimed(r, what + ' with shifted surnames', R, True) != 'refused':
						r.fail('%s: surnames %s that are times of other variables are accepted without time' % (what, sT or sX))
		elif c['k'] == 'special':
			for k, (place, D) in enumerate(special(c['v'])):
				R = Realization(None, build_args(D, 2, 1, 1, 1))
				E = Exact(D, 2, 1, 1, 1)
				what = 'algorithm with %r in %s' % (c['v'], place)
				check(r, what, R, E, 2)
				untimed(r, what, R, False)
				latex(r, what, R, False)
		elif c['k'] == 'zeros':
			d = tuple(c['d'])
			D = jtos(*d, c['fam'])
			what = 'algorithm of %s %s' % (list(d), c['fam'])
			R = Realization(None, build_args(D, *d))
			E = Exact(D, *d)
			check(r, what, R, E, 1, fmts=(None,))
			untimed(r, what, R, False)
			inplace(r, what, R, E)
			latex(r, what, R, False)
		elif c['k'] == 'alpha':
			v = c['v']
			for w in itertools.product([0., 1., -1., 0.3], repeat=2):
				D = dict(J=[[1., 0.], [-v[0], 1.]], K=[[v[0], w[0]], [w[0], v[3]]], L=[[w[1], v[1]]], M=[[1., v[1]], [v[3], 0.]], N=[[1.], [v[2]]], P=[[0.5, v[2]], [v[0], w[1]]], Q=[[w[0]], [0.]], R=[[v[1], w[1]]], S=[[v[2]]])
				R = Realization(None, build_args(D, 2, 2, 1, 1))
				what = 'algorithm of %s' % D
				check(r, what, R, Exact(D, 2, 2, 1, 1), 1, fmts=(None,))
				untimed(r, what, R, False)
				# surnames that contain each other
				for sT, sX in ((['ab', 'b'], ['c', 'bc']), (['bu', 'ub'], ['xb', 'yb'])) if w == (0., 0.) or w == (1., 0.3) else ():
					R = Realization(None, build_args(D, 2, 2, 1, 1), surnameVarT=sT, surnameVarX=sX)
					check(r, what + ' with surnames %s' % (sT + sX), R, Exact(D, 2, 2, 1, 1), 1, surname=sT + sX, fmts=(None,))
					untimed(r, what + ' with surnames', R, True)
		elif c['k'] == 'struct':
			from fixif.Structures import iterStructuresAndOptions
			num, den = c['num'], c['den']
			stable = max([abs(z) for z in numpy.roots(den)] + [0]) < 1 - 1e-9
			F = Filter(num=num, den=den, stable=stable, name=c['name'])
			for st, opt in iterStructuresAndOptions(F):
				R = st.makeRealization(F, **(opt or {}))
				if R.l > 60:
					continue
				E, _ = exact_of(R)
				what = 'algorithm of %s %s of %s/%s' % (st.name, opt, num, den)
				big = R.l > 20
				check(r, what, R, E, 2 if big else c['T'], fmts=(None,) if big else (None, '%.17g'))
				check(r, what + ' with surnames', R, E, 2 if big else c['T'], surname=['t', 'v', 'y', 'u'] + names('t', R.l) + names('x', R.n), fmts=(None,))
				untimed(r, what, R, False)
				inplace(r, what, R, E)
				untimed(r, what, R, True)
				latex(r, what, R, False)
				latex(r, what, R, True)
		elif c['k'] == 'wide':
			d = (1, 1, 1, c['q'])
			D = jtos(*d, 'full')
			R = Realization(None, build_args(D, *d))
			check(r, 'algorithm of %s' % (d,), R, Exact(D, *d), 1)
			untimed(r, 'algorithm of %s' % (d,), R, False)
			latex(r, 'algorithm of %s' % (d,), R, False)
		elif c['k'] == 'long':
			n = c['n']
			D = jtos(2, n, 1, 1, 'full')
			for sT, sX in ((None, None), (['intermediateTemporaryA', 'intermediateTemporaryB'], ['delayedStateNumber%s' % 'abcdefghijklmnop'[i] for i in range(n)]),
					(['t' + 'emporary' * 9 + x for x in 'AB'], ['s' + 'tate' * 16 + 'abcdefghijklmnop'[i] for i in range(n)])):
				R = Realization(None, build_args(D, 2, n, 1, 1), surnameVarT=sT, surnameVarX=sX)
				check(r, 'long algorithm', R, Exact(D, 2, n, 1, 1), 1, surname=None if sT is None else sT + sX)
				untimed(r, 'long algorithm', R, sT is not None)
				latex(r, 'long algorithm', R, sT is not None)
		else:
			# the text without time, executed as it is written
			F = Filter(num=[2, 3, 4], den=[1, 5, 6])
			from fixif.Structures import DFI, DFII
			us = [Fr(1), Fr(0), Fr(0), Fr(0)]
			h = ref.impulse_tf([Fr(2), Fr(3), Fr(4)], [Fr(1), Fr(5), Fr(6)], 4)
			for nm, R in (('DFI nbSum=1', DFI(F, nbSum=1, transposed=False)), ('DFI nbSum=2', DFI(F, nbSum=2, transposed=False)), ('DFI transposed', DFI(F, nbSum=1, transposed=True)), ('DFII', DFII(F, transposed=False)), ('DFII transposed', DFII(F, transposed=True))):
				y = sequential(R.algorithmTxt(withTime=False, comments=False), us)
				r.step(4)
				if y != h:
					r.fail('sequential execution of the algorithm without time of %s of [2,3,4]/[1,5,6]: impulse response %s instead of %s' % (nm, [float(v) for v in y], [float(v) for v in h]))
	finally:
		random.uniform = old
