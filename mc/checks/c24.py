"""C24: registry of the structures, choice of their options, names of the realizations and of their variables."""
import itertools
import re

ID = 'C24'
LEVEL = 'model_checking'
RULE = 'every history of creations of structures (names, options, accepted filters) followed by every lookup and iteration, compared with a model of the registry (state = ordered dictionary of what was created, transition = one creation); every subset of options given to every factory; every filter of a pool through the structures of the library; every list of (sur)names and every way to display each'
BOUNDS = {'quick': 'histories of 3 creations over 3 short names, 6 sets of options and 3 kinds of acceptance; 5 filters; up to 3 options of up to 3 values; 0 to 12 variables', 'thorough': 'histories of 4 creations'}
ASSUMPTIONS = ['the structures that need Matlab (LWDF) or slycot (balanced form) are not registered in this environment', 'surnames without digits']
CHUNK = 4

OPTS = [None, {}, {'a': (1, 2)}, {'a': (2, 1), 'b': ('x', 'y', 'z')}, {'c': (None, True, False), 'a': (3,), 'b': ('z', 'y')}, {'a': (1, None), 'd': (True, None, 'x')}]
VALUES = [None, True, False, 1, 2, 3, 'x', 'y', 'z']


def ok(kind, filt, o):
	"""filters and options a structure of this kind accepts"""
	if kind == 'all':
		return True
	if kind == 'siso':
		return bool(filt.isSISO())
	return o.get('a') != 2 and o.get('b') != 'y' and o.get('c') is not True


def spec(Structure, short, i, kind, log=None):
	"""a structure that tells, by its coefficients, the options it was made with"""
	opts = OPTS[i]

	def code(o):
		return [float(VALUES.index(v)) if not isinstance(v, bool) else (1. if v else 2.) for k, v in sorted(o.items())]

	def make(filt, **o):
		import numpy as np
		if log is not None:
			log.append((filt, dict(o)))
		c = code(o)
		n = len(c)
		z = lambda a, b: np.matrix(np.zeros((a, b)))
		P = np.matrix(np.diag(c)) if n else z(0, 0)
		n1 = max(n, 1)
		return {'JtoS': (np.matrix(np.eye(1)), z(n1, 1), z(1, 1), z(1, n1), z(1, 1), P if n else z(1, 1), z(n1, 1), z(1, n1), np.matrix([[10. + n]]))}
	s = Structure(shortName=short, fullName='Full %s%d' % (short, i), options=opts, make=make, accept=lambda filt, **o: ok(kind, filt, o))
	return s, code


def combos(opts):
	"""all the combinations of options, in order"""
	if not opts:
		return [{}]
	return [dict(zip(opts, v)) for v in itertools.product(*opts.values())]


def filters():
	from fixif.LTI import Filter, Butter
	return [Filter(num=[1., 2.], den=[1., 0.5], name='first', stable=True),
		Filter(num=[1., 2., 3.], den=[1., 0.5, 0.25]),
		Filter(A=[[0.5, 0.], [0.25, 0.5]], B=[[1.], [1.]], C=[[1., 2.]], D=[[0.]], name='ss', stable=True),
		Filter(A=[[0.5]], B=[[1., 2.]], C=[[1.], [0.5]], D=[[0., 1.], [1., 0.]], name='mimo', stable=True),
		Butter(3, 0.25, name='butter')]


def cases(tier):
	depth = 3 if tier == 'quick' else 4
	kinds = ('all', 'siso', 'some')
	creations = [(s, i, k) for s in ('s1', 's2', 'dSS') for i in range(len(OPTS)) for k in kinds]
	few = [(s, i, k) for s in ('s1', 's2') for i, k in ((0, 'siso'), (2, 'some'), (3, 'all'), (4, 'some'))]
	for h in creations:
		yield dict(k='hist', h=[list(h)], depth=1, few=[])
	for h in creations:
		yield dict(k='hist', h=[list(h)], depth=depth, few=few)
	for i in range(len(OPTS)):
		yield dict(k='make', i=i)
	for f in range(5):
		yield dict(k='lib', f=f)
	yield dict(k='random')
	for n in range(0, 13):
		yield dict(k='names', n=n)
	yield dict(k='display')
	yield dict(k='real')


class Saved(object):
	"""the registry (a dictionary of the class or of its module) is restored at the end; when it cannot be found, the
	structures created stay, and each history uses its own names"""
	unique = 0

	def __enter__(self):
		from fixif.Structures.Structure import Structure
		import sys
		self.base = list(Structure.iterAllStructures())
		self.d = None
		for scope in (vars(Structure), vars(sys.modules[Structure.__module__])):
			for v in scope.values():
				if isinstance(v, dict) and self.base and list(v.values()) == self.base:
					self.d = v
		self.copy = dict(self.d) if self.d is not None else None
		self.suffix = ''
		return Structure, self

	def clear(self):
		if self.d is not None:
			self.d.clear()
			self.d.update(self.copy)
		else:
			Saved.unique += 1
			self.suffix = '_%d' % Saved.unique

	def __exit__(self, *a):
		self.clear()


def checkreal(r, what, R, F, code, o):
	import numpy as np
	c = code(o)
	got = [float(R.P[i, i]) for i in range(len(c))]
	r.step()
	if R.S[0, 0] != 10. + len(c) or got != c:
		r.fail('%s: made with other options than %s (%s)' % (what, o, got))
	elif R.filter is not F:
		r.fail('%s: not the filter given' % what)


def hist(c, r):
	with Saved() as (Structure, saved):
		from fixif.Structures.Structure import iterStructuresAndOptions
		F = filters()
		for rest in itertools.product(c['few'], repeat=c['depth'] - 1):
			saved.clear()
			if saved.d is None and c['h'][0][0] == 'dSS':
				return
			base = list(Structure.iterAllStructures())
			model = {}
			for short, i, kind in [tuple(c['h'][0])] + list(rest):
				short += saved.suffix
				s, code = spec(Structure, short, i, kind)
				model[short] = (s, i, kind, code)
			what = 'structures %s' % (c['h'] + list(rest),)
			r.state(tuple((k, v[1], v[2]) for k, v in model.items()))
			allst = list(Structure.iterAllStructures())
			mine = [s for s in allst if s not in base]
			if len(allst) != len(set(map(id, allst))) or set(map(id, mine)) != set(id(v[0]) for v in model.values()):
				r.fail('%s: the structures are %s' % (what, [s.name for s in mine]))
				return
			lost = [b for b in base if b not in allst]
			if 'dSS' in model:
				lost = lost[1:]
			if lost:
				r.fail('%s: %s lost' % (what, [b.name for b in lost]))
				return
			for short in ('s1' + saved.suffix, 's2' + saved.suffix, 'dSS', 'absent', 'Full s10', ''):
				try:
					g = Structure.getFromName(short)
				except ValueError:
					g = None
				want = model[short][0] if short in model else next((b for b in base if b.name == 'State-Space' and short == 'dSS'), None)
				r.step()
				if g is not want:
					r.fail('%s: the name %r gives %s' % (what, short, g and g.name))
					return
			last = [F[2], F[3]] if rest else F
			for f in last:
				want = [(v[0], o, v[3]) for v in model.values() for o in combos(OPTS[v[1]]) if ok(v[2], f, o)]
				order = {id(s): k for k, s in enumerate(allst)}
				want.sort(key=lambda w: order[id(w[0])])
				L = [(s, o or {}) for s, o in iterStructuresAndOptions(f) if s in mine]
				if [(id(s), o) for s, o in L] != [(id(s), o) for s, o, _ in want]:
					r.fail('%s: %s proposes %s instead of %s' % (what, f.name, [(s.name, o) for s, o in L], [(s.name, o) for s, o, _ in want]))
					return
				for s, o in L:
					if not s.canAcceptFilter(f, **o):
						r.fail('%s: %s %s proposed but not accepted' % (what, s.name, o))
				R = [x for x in f.iterAllRealizations() if x.shortName in model]
				if len(R) != len(want):
					r.fail('%s: %d realizations of %s instead of %d' % (what, len(R), f.name, len(want)))
					return
				for x, (s, o, code) in zip(R, want):
					checkreal(r, '%s: %s %s' % (what, s.name, o), x, f, code, o)
					if s.name not in x.structureName or any(not re.search(r'\b%s:%s\b' % (k, v), x.structureName) for k, v in o.items()):
						r.fail('%s: realization named %s for %s %s' % (what, x.structureName, s.name, o))
					if x.structureName not in x.name or f.name not in x.name:
						r.fail('%s: realization named %s' % (what, x.name))
				r.outcome((f.name, len(R)))
				if r.fails:
					return


def make(c, r):
	"""every subset of the options is given, the others have their first value"""
	with Saved() as (Structure, saved):
		from fixif.Structures.Structure import makeARealization
		opts = OPTS[c['i']] or {}
		for kind in ('all', 'siso', 'some'):
			log = []
			s, code = spec(Structure, 'mine', c['i'], kind, log)
			for f in filters():
				for given in itertools.product(*[(Ellipsis,) + tuple(v) for v in opts.values()]):
					o = {k: v for k, v in zip(opts, given) if v is not Ellipsis}
					full = {k: o.get(k, v[0]) for k, v in opts.items()}
					for via in ('method', 'call', 'name', 'reversed'):
						what = '%s of %s with %s, by %s' % (s.name, f.name, o, via)
						del log[:]
						if via == 'method':
							R = s.makeRealization(f, **o)
						elif via == 'call':
							R = s(f, **o)
						elif via == 'name':
							R = makeARealization(f, 'mine', **o)
						else:
							R = s.makeRealization(filt=f, **dict(list(o.items())[::-1]))
						r.state((kind, f.name, tuple(sorted(map(str, full.items())))))
						if log != [(f, full)]:
							r.fail('%s: made with %s' % (what, [x[1] for x in log]))
							return
						checkreal(r, what, R, f, code, full)
						if R.shortName != 'mine' or s.name not in R.structureName or any(not re.search(r'\b%s:%s\b' % (k, v), R.structureName) for k, v in full.items()):
							r.fail('%s: names %s, %s' % (what, R.shortName, R.structureName))
							return
					R = s.makeRealization(f, structName='my name', shortName='short', **o)
					if (R.structureName, R.shortName) != ('my name', 'short') or 'my name' not in R.name or 'my name' not in str(R):
						r.fail('%s: names %s, %s' % (what, R.shortName, R.structureName))
						return
					if s.options is not OPTS[c['i']] and s.options != OPTS[c['i']]:
						r.fail('%s: the options are now %s' % (what, s.options))
						return
		try:
			makeARealization(filters()[0], 'absent')
			r.fail('an absent structure is made')
		except ValueError:
			r.outcome('ValueError')


def lib(c, r):
	"""the structures of the library"""
	from fixif.Structures.Structure import Structure, iterStructuresAndOptions, makeARealization
	f = filters()[c['f']]
	L = list(iterStructuresAndOptions(f))
	R = list(f.iterAllRealizations())
	want = [(s, o) for s in Structure.iterAllStructures() for o in combos(s.options) if s.canAcceptFilter(f, **o)]
	if [(id(s), o or {}) for s, o in L] != [(id(s), o) for s, o in want] or len(R) != len(want):
		r.fail('%s: %d realizations, %d proposed, %d accepted' % (f.name, len(R), len(L), len(want)))
		return
	names = [x.structureName for x in R]
	if len(set(names)) != len(names):
		r.fail('%s: realizations with the same name: %s' % (f.name, sorted(names)))
	for x, (s, o) in zip(R, want):
		r.state((f.name, x.structureName))
		r.step()
		what = '%s %s of %s' % (s.name, o, f.name)
		if s.name not in x.structureName or x.filter is not f or f.name not in x.name or x.name not in str(x):
			r.fail('%s: named %s' % (what, x.name))
		if Structure.getFromName(x.shortName) is not s:
			r.fail('%s: the short name %s is the one of another structure' % (what, x.shortName))
		y = makeARealization(f, x.shortName, **o)
		if (y.structureName, y.size) != (x.structureName, x.size):
			r.fail('%s: by its name, it is %s' % (what, y.structureName))
		variables(r, what, x)
	r.outcome((f.name, len(R)))


def variables(r, what, R):
	if not hasattr(R, '_varNameT'):
		return
	for base, nb, names in (('t', R.l, R._varNameT), ('x', R.n, R._varNameX), ('u', R.q, R._varNameU), ('y', R.p, R._varNameY)):
		if len(names) != nb:
			r.fail('%s: %d names %s for %d variables' % (what, len(names), base, nb))
			return
		for i, v in enumerate(names):
			got = parse(v.toStr(), base, '')
			if got != (base, i + 1 if nb > 1 else None, 0):
				r.fail('%s: the variable %d of %d is named %s' % (what, i, nb, v.toStr()))
				return


def random_(r):
	from fixif.Structures.Structure import iterAllRealizationsRandomFilter
	from fixif.Structures.Structure import iterStructuresAndOptions
	from fixif.LTI import random_Filter
	import numpy
	for nb in (0, 1, 3):
		for ft in ('SISO', 'MIMO', 'SIMO', 'MISO'):
			numpy.random.seed(5)
			groups = []
			for R in iterAllRealizationsRandomFilter(nb, n=(2, 4), p=(2, 4), q=(5, 6), ftype=ft):
				r.step()
				if not groups or groups[-1][0] is not R.filter:
					groups.append((R.filter, []))
				groups[-1][1].append(R)
			if len(groups) != nb:
				r.fail('%d random filters instead of %d' % (len(groups), nb))
			for F, L in groups:
				if len(L) != len(list(iterStructuresAndOptions(F))):
					r.fail('%d realizations of %s' % (len(L), F.name))
				if not 2 <= F.order < 4 or (F.p == 1) != (ft in ('SISO', 'MISO')) or (F.q == 1) != (ft in ('SISO', 'SIMO')) or F.p not in (1, 2, 3) or F.q not in (1, 5):
					r.fail('%s for %s' % (F.name, ft))
				if random_Filter(name=F.name).dSS.A.tolist() != F.dSS.A.tolist():
					r.fail('%s: not the filter of its name' % F.name)
			r.state((nb, ft))
			r.outcome(tuple(len(L) for F, L in groups))


TIME = r'(?:\(k(?P<t>[+-]\d+)?\))?'


def parse(text, name, suffix, time=True, latex=False):
	"""(name, index, time) of a text, None if it is not of this form"""
	if latex:
		if not (text.startswith('$') and text.endswith('$')):
			return None
		text = text[1:-1]
	m = re.match(r'^%s(?:%s_?\{?(?P<i>\d+)\}?|_?\{?(?P<j>\d+)\}?%s|%s)%s$' % (re.escape(name), re.escape(suffix), re.escape(suffix), re.escape(suffix), TIME), text)
	if not m:
		return None
	if ('(k' in text) != time:
		return None
	i = m.group('i') or m.group('j')
	if latex and i and '_{%s}' % i not in text:
		return None
	return (name, int(i) if i else None, int(m.group('t') or 0))


def names(c, r):
	from fixif.SoP import generateNames
	n = c['n']
	forms = [('none', None), ('strings', ['s' + 'abcdefghijkl'[i] for i in range(n)]), ('tuples', [('s', i, -i) for i in range(n)]), ('mixed', [('abc'[i % 3], [None, 3, 11][i % 3], [0, 1, -2][i % 3]) for i in range(n)])]
	for base in ('t', 'x', 'u', 'y', 'v'):
		for form, sur in forms:
			L = generateNames(base, n, surnames=sur) if sur is not None else generateNames(base, n)
			r.state((base, form, n))
			what = 'generateNames(%r, %d, %s)' % (base, n, sur)
			if len(L) != n:
				r.fail('%s: %d names' % (what, len(L)))
				return
			for i, v in enumerate(L):
				if v.name != base:
					r.fail('%s: name %s' % (what, v.name))
				idx = i + 1 if n > 1 else None
				for shift in (0, 1, -1, 2):
					for time in (True, False):
						for suffix in ('', 'p'):
							for latex in (False, True):
								s = v.toStr(withTime=time, shift=shift, suffix=suffix, LaTeX=latex)
								r.step()
								if parse(s, base, suffix, time, latex) != (base, idx, shift if time else 0):
									r.fail('%s: variable %d at time k%+d displayed %r' % (what, i, shift, s))
									return
								s = v.toStr(withTime=time, shift=shift, suffix=suffix, LaTeX=latex, withSurname=True)
								w = (base, idx, 0) if form == 'none' else (sur[i], None, 0) if form == 'strings' else sur[i]
								if parse(s, w[0], suffix, time, latex) != (w[0], w[1], shift + w[2] if time else 0):
									r.fail('%s: surname of variable %d at time k%+d displayed %r' % (what, i, shift, s))
									return
			for bad in (n - 1, n + 1, 2 * n):
				if bad >= 0 and bad != n:
					for x in ('z', ('z', 1, 0)):
						try:
							generateNames(base, n, surnames=[x] * bad)
							r.fail('%s: %d surnames accepted' % (what, bad))
						except ValueError:
							r.outcome('ValueError')
	r.outcome(n)


def display(r):
	"""a VarName built directly"""
	from fixif.SoP import VarName
	for name, idx, sur, sidx, sh in itertools.product(('t', 'x', 'long'), (None, 1, 12), (None, 'u', 'x', 'yy'), (None, 2, 10), (0, -1, 3)):
		v = VarName(name, idx, surname=sur, index=sidx, shift=sh)
		r.state((name, idx, sur, sidx, sh))
		for shift, time, ws, latex in itertools.product((0, 1, -3), (True, False), (True, False), (True, False)):
			s = v.toStr(withTime=time, shift=shift, withSurname=ws, LaTeX=latex)
			w = (sur or name, sidx, shift + sh) if ws else (name, idx, shift)
			r.step()
			if not time:
				w = (w[0], w[1], 0)
			if parse(s, w[0], '', time, latex) != w:
				r.fail('VarName(%r, %r, %r, %r, %r).toStr(%s, %s, %s, LaTeX=%s) = %r' % (name, idx, sur, sidx, sh, time, shift, ws, latex, s))
				return
		r.outcome(v.toStr())


def real(r):
	"""names of the variables of any realization"""
	from fixif.SIF import Realization
	from mc.sifs import jtos, build_args
	for d in itertools.product(range(0, 4), range(1, 4), range(1, 4), range(1, 4)):
		D = jtos(*d, 'full')
		R = Realization(None, build_args(D, *d))
		r.state(d)
		variables(r, str(d), R)
		f = R.filter
		if (f.order, f.p, f.q) != d[1:]:
			r.fail('%s: the filter has sizes %s' % (d, (f.order, f.p, f.q)))
	r.outcome('sizes')


def run(c, r):
	k = c['k']
	{'hist': lambda: hist(c, r), 'make': lambda: make(c, r), 'lib': lambda: lib(c, r), 'random': lambda: random_(r),
		'names': lambda: names(c, r), 'display': lambda: display(r), 'real': lambda: real(r)}[k]()
