"""C21: Simulink diagrams (.slx) are imported as a realization with the same input-output behaviour."""
import contextlib
import io
import itertools
import os
import zipfile
from fractions import Fraction as Fr

ID = 'C21'
LEVEL = 'model_checking'
RULE = 'every diagram of the bounded domain (sources of every port of every Sum, Delay and Outport, signs and gains, document order, port numbers, grouping of every subset of blocks in subsystems, nested subsystems) is written as a .slx file and imported; the impulse responses of the realization (exact arithmetic on its matrices) are compared with the execution of the diagram block by block'
BOUNDS = {'quick': '1 input: up to 2 Sums of 2 ports and 1 Delay (all sources, 3 decorations per port), 3 Sums in all document orders, 2 Delays; 2 inputs x 2-3 outputs with all port numbers; Delay lengths 1..4; every subset of the blocks of 4 diagrams as a subsystem, and nested pairs; responses on 2n+4 steps',
          'thorough': '4 decorations per port, all sources with 3 Sums, triples of nested subsystems'}
ASSUMPTIONS = ['documented domain: scalar ports; the blocks Gain, Sum, Delay, Inport, Outport, SubSystem; no Gain fed by a Gain; no algebraic loop; gains exactly representable']
CHUNK = 4
CASE_LIMIT = 600

GAINS = {'g': Fr(1, 2), 'h': Fr(-3), 'k': Fr(5, 4), 'm': Fr(-1), 'o': Fr(2)}


# -- diagrams: an ordered dict sid -> [type, parameters, sources], a source is (sid, output port) -----------------

def xml_of(D, branch=True):
	"""the <System> element of a diagram"""
	out = ['<System>']
	lines = {}
	for sid, (t, prm, srcs) in D.items():
		ps = ['<P Name="Position">[1, 2, 3, 4]</P>']
		inner = ''
		if t == 'SubSystem':
			inner = xml_of(prm['inner'], branch)
			nout = sum(1 for b in prm['inner'].values() if b[0] == 'Outport')
			ps.append('<P Name="Ports">[%d, %d]</P>' % (len(srcs), nout))
		elif t == 'Sum':
			ps.append('<P Name="Ports">[%d, 1]</P>' % len(srcs))
			if prm.get('signs') is not None:
				ps.append('<P Name="Inputs">%s</P>' % prm['signs'])
		elif t == 'Gain':
			if prm.get('gain') is not None:
				ps.append('<P Name="Gain">%s</P>' % prm['gain'])
		elif t == 'Delay':
			ps.append('<P Name="Ports">[1, 1]</P>')
			if prm.get('len') is not None:
				ps.append('<P Name="DelayLength">%d</P>' % prm['len'])
		elif prm.get('port', 1) != 1:
			ps.append('<P Name="Port">%d</P>' % prm['port'])
		out.append('<Block BlockType="%s" Name="%s" SID="%s">%s%s</Block>' % (t, prm.get('name', t + sid), sid, ''.join(ps), inner))
		for i, s in enumerate(srcs):
			lines.setdefault(s, []).append('%s#in:%d' % (sid, i + 1))
	# branch: True (one line with branches), False (one line by destination), 'back' (the last lines first)
	for (s, port), dsts in list(lines.items())[::-1 if branch == 'back' else 1]:
		src = '<P Name="Src">%s#out:%d</P>' % (s, port)
		if len(dsts) == 1:
			out.append('<Line>%s<P Name="Dst">%s</P></Line>' % (src, dsts[0]))
		elif branch:
			# a tree of branches: the last destinations are in a nested branch
			b = '<Branch><P Name="Dst">%s</P></Branch>' % dsts[-1]
			for d in reversed(dsts[:-1]):
				b = '<Branch><P Name="ZOrder">1</P><Branch><P Name="Dst">%s</P></Branch>%s</Branch>' % (d, b)
			out.append('<Line><P Name="ZOrder">1</P>%s%s</Line>' % (src, b))
		else:
			out.extend('<Line>%s<P Name="Dst">%s</P></Line>' % (src, d) for d in dsts)
	return '\n'.join(out) + '</System>'


def wrap(D, subset, sid, name=None, numbers='mixed'):
	"""the diagram where the blocks of subset are grouped in a subsystem (sid); None if it has no output"""
	inner = {}
	ins, outs = [], []			# external sources, (inner source)
	for b in subset:
		for s in D[b][2]:
			if s[0] not in subset and s not in ins:
				ins.append(s)
	for b, (t, prm, srcs) in D.items():
		for s in srcs:
			if b not in subset and s[0] in subset and s not in outs:
				outs.append(s)
	if not outs:
		return None
	if numbers == 'reversed':
		ins.reverse()
	inport = {s: '%s%d' % (sid, 1 + i) for i, s in enumerate(ins)}
	body = {b: [D[b][0], D[b][1], [(inport[s], 1) if s in inport else s for s in D[b][2]]] for b in D if b in subset}
	ports = [(p, ['Inport', {'port': i + 1}, []]) for i, p in enumerate(inport.values())]
	oports = [('%s%d' % (sid, 50 + i), ['Outport', {'port': i + 1}, [s]]) for i, s in enumerate(outs)]
	if numbers == 'reversed':
		ports.reverse()
		oports.reverse()
		for x in (oports, list(body.items()), ports):
			inner.update(x)
	else:
		for x in (ports, list(body.items()), oports):
			inner.update(x)
	outer = {}
	done = False
	for b, (t, prm, srcs) in D.items():
		if b in subset:
			if not done:
				outer[sid] = ['SubSystem', {'inner': inner, 'name': name or 'sub' + sid}, list(ins)]
				done = True
			continue
		outer[b] = [t, prm, [(sid, outs.index(s) + 1) if s[0] in subset else s for s in srcs]]
	# the subsystem can feed itself
	outer[sid][2] = [(sid, outs.index(s) + 1) if s[0] in subset else s for s in outer[sid][2]]
	return outer


def simulate(D, N):
	"""impulse responses of the diagram, block by block: h[j][k] = outputs (in the order of the ports)"""
	ins = sorted((b for b in D if D[b][0] == 'Inport'), key=lambda b: D[b][1].get('port', 1))
	outs = sorted((b for b in D if D[b][0] == 'Outport'), key=lambda b: D[b][1].get('port', 1))
	h = []
	for j in ins:
		mem = {b: [Fr(0)] * (D[b][1].get('len') or 1) for b in D if D[b][0] == 'Delay'}
		hj = []
		for k in range(N):
			val = {}

			def value(b):
				if b not in val:
					t, prm, srcs = D[b]
					if t == 'Inport':
						v = Fr(int(b == j and k == 0))
					elif t == 'Delay':
						v = mem[b][0]
					elif t == 'Gain':
						v = prm['value'] * value(srcs[0][0])
					elif t == 'Sum':
						sg = [c for c in (prm.get('signs') or '+' * len(srcs)) if c in '+-']
						v = sum((value(s[0]) if c == '+' else -value(s[0]) for c, s in zip(sg, srcs)), Fr(0))
					else:
						v = value(srcs[0][0])
					val[b] = v
				return val[b]
			hj.append([value(o) for o in outs])
			new = {b: value(D[b][2][0][0]) for b in mem}
			for b in mem:
				mem[b] = mem[b][1:] + [new[b]]
		h.append(hj)
	return h


def acyclic(D):
	"""no loop without Delay"""
	state = {}

	def visit(b):
		if D[b][0] == 'Delay':
			return True
		if state.get(b) == 1:
			return False
		if b not in state:
			state[b] = 1
			if not all(visit(s[0]) for s in D[b][2]):
				return False
			state[b] = 2
		return True
	return all(visit(b) for b in D) and all(visit(s[0]) for b in D for s in D[b][2])


def reaching(D):
	"""the Delays and Sums that are not dangling: they have a destination"""
	used = {s[0] for b in D for s in D[b][2]}
	return all(b in used for b in D if D[b][0] != 'Outport')


def mk(spec, order=None):
	"""diagram from {sid: (kind, ...)}: Sum (list of (sign, gain, source)), Delay (gain, source, len), Inport port,
	Outport (port, gain, source); the Gains are created, with the sid of their destination"""
	D = {}
	extra = {}

	def src(dst, i, g, s):
		if not g:
			return (s, 1)
		gs = '%s%d' % (dst, 70 + i)
		extra[gs] = ['Gain', {'gain': float(GAINS[g]), 'value': GAINS[g]}, [(s, 1)]]
		return (gs, 1)
	for b in order or spec:
		t = spec[b][0]
		if t == 'Inport':
			D[b] = ['Inport', {'port': spec[b][1]}, []]
		elif t == 'Outport':
			D[b] = ['Outport', {'port': spec[b][1]}, [src(b, 0, spec[b][2], spec[b][3])]]
		elif t == 'Delay':
			D[b] = ['Delay', {'len': spec[b][3]}, [src(b, 0, spec[b][1], spec[b][2])]]
		else:
			D[b] = ['Sum', {'signs': '|' + ''.join(x[0] for x in spec[b][1])}, [src(b, i, x[1], x[2]) for i, x in enumerate(spec[b][1])]]
	D.update(extra)
	return D


# -- check ----------------------------------------------------------------------------------------------------

def load(D, constants=None, branch=True):
	from fixif.Structures.Simulink import importSimulink
	from mc.env import SCRATCH
	path = os.path.join(SCRATCH, 'd%d.slx' % os.getpid())
	with zipfile.ZipFile(path, 'w') as z:
		z.writestr('[Content_Types].xml', '<Types/>')
		z.writestr('simulink/blockdiagram.xml', '<?xml version="1.0" encoding="utf-8"?>\n<ModelInformation Version="1.0"><Model Name="m">%s</Model></ModelInformation>' % xml_of(D, branch))
	try:
		with contextlib.redirect_stdout(io.StringIO()):
			return importSimulink(path, constants)
	finally:
		os.remove(path)


def compare(r, what, R, h, n, tol=0):
	from mc.checks.c13 import exact_of
	if (R.n, R.p, R.q) != (n, len(h[0][0]), len(h)):
		r.fail('%s: n, p, q = %s, expected %s' % (what, (R.n, R.p, R.q), (n, len(h[0][0]), len(h))))
		return
	E, M = exact_of(R)
	for i in range(R.l):
		if M['J'][i][i] != 1 or any(M['J'][i][j] for j in range(i + 1, R.l)):
			r.fail('%s: J is not unit lower triangular: %s' % (what, M['J']))
			return
	N = len(h[0])
	for j in range(R.q):
		got = [list(map(Fr, o[3])) for o in E.impulse(N, j)]
		r.step(N)
		r.state((j, tuple(map(tuple, got[:4]))))
		if got != h[j] and not (tol and all(abs(a - b) <= tol * max(1, abs(b)) for x, y in zip(got, h[j]) for a, b in zip(x, y))):
			k = next(k for k in range(N) if got[k] != h[j][k])
			r.fail('%s: response to input %d at time %d: %s, expected %s' % (what, j, k, list(map(float, got[k])), list(map(float, h[j][k]))))
			return
	r.outcome('l=%d' % R.l)


def check(r, what, D, base=None, constants=None, branch=True, tol=0):
	"""D: imported, base: the same diagram without subsystem"""
	base = base or D
	n = sum((base[b][1].get('len') or 1) for b in base if base[b][0] == 'Delay')
	h = simulate(base, 2 * n + 4)
	try:
		R = load(D, constants, branch)
	except SystemExit:
		r.fail('%s: the import stops (sys.exit)' % what)
		return
	compare(r, what, R, h, n, tol)


DECO = {'quick': [('+', ''), ('-', ''), ('+', 'g')], 'thorough': [('+', ''), ('-', ''), ('+', 'g'), ('-', 'h')]}


def cases(tier):
	deco = DECO[tier]
	# 1 Sum, 1 Delay, then 2 Sums, 1 Delay: s2 may use s1
	ports1 = [(sg, g, s) for s in ('1', '4') for sg, g in deco]
	for a in itertools.combinations_with_replacement(ports1, 2):
		yield dict(k='two', a=a, deco=deco)
	# 3 Sums, each port from a reduced list; all document orders
	q = tier == 'quick'
	perms = [p for p in itertools.permutations(['2', '3', '6'])]
	for p in perms:
		for i, d in enumerate([('+', ''), ('-', ''), ('+', 'g')]):
			yield dict(k='three', perm=p, d=d, all=not q)
	# 2 Delays
	for d1 in ('1', '3', '2'):
		for d2 in ('1', '3', '2', '4'):
			for g in ('', 'h'):
				yield dict(k='delays', d1=d1, d2=d2, g=g)
	for L in range(1, 5):
		for L2 in (1, 2, 3, None):
			yield dict(k='length', L=L, L2=L2)
	for L in (9, 10, 11, 16, 17, 32, 33, 65) if q else list(range(9, 34)) + [63, 64, 65, 100, 130]:
		yield dict(k='length', L=L, L2=1)
		yield dict(k='length', L=1, L2=L)
	yield dict(k='ids')
	yield dict(k='constants')
	for ip in itertools.permutations((1, 2)):
		yield dict(k='through', ip=ip, deco=deco)
	for no in (2, 3):
		for ip in itertools.permutations((1, 2)):
			for op in itertools.permutations(range(1, no + 1)):
				yield dict(k='ports', ip=ip, op=op, no=no)
	for b in range(len(POOL)):
		for num in ('mixed', 'reversed'):
			yield dict(k='sub', b=b, num=num, depth=1)
			for first in range(len(POOL[b]())):
				yield dict(k='sub', b=b, num=num, depth=2 if q else 3, first=first)
	for i in range(4):
		yield dict(k='chain', i=i, L=5 if q else 7)
	for n in (9, 10, 11, 12) if q else range(8, 23):
		yield dict(k='wide', n=n)
	yield dict(k='misc')
	yield dict(k='files')


def df2():
	return mk({'1': ('Inport', 1), '5': ('Sum', [('+', '', '1'), ('-', 'g', '9'), ('+', 'k', '7')]), '9': ('Delay', '', '5', None),
		'7': ('Delay', '', '9', 1), '8': ('Sum', [('+', 'h', '5'), ('+', '', '9'), ('-', 'o', '7')]), '4': ('Outport', 1, '', '8')})


def wave():
	return mk({'1': ('Inport', 1), '2': ('Sum', [('+', '', '1'), ('-', '', '6')]), '3': ('Sum', [('-', '', '6'), ('+', 'k', '2')]),
		'5': ('Sum', [('+', '', '3'), ('+', '', '2')]), '6': ('Delay', '', '5', 1), '7': ('Outport', 1, '', '3')})


def two():
	return mk({'1': ('Inport', 1), '2': ('Inport', 2), '5': ('Sum', [('+', '', '1'), ('+', 'g', '6')]), '6': ('Delay', '', '8', 1),
		'8': ('Sum', [('-', '', '2'), ('+', 'h', '5')]), '11': ('Outport', 2, '', '5'), '12': ('Outport', 1, '', '8')})


def shared():
	D = mk({'1': ('Inport', 1), '5': ('Sum', [('+', '', '1'), ('+', '', '20')]), '6': ('Delay', '', '5', 2),
		'8': ('Sum', [('-', '', '20'), ('+', 'h', '5')]), '12': ('Outport', 1, '', '8'), '13': ('Outport', 2, 'm', '5')} | {'20': ('Delay', '', '1', 1)})
	D['20'] = ['Gain', {'gain': 0.5, 'value': Fr(1, 2)}, [('6', 1)]]
	return D


POOL = [df2, wave, two, shared]


def subsets(D):
	inner = [b for b in D if D[b][0] not in ('Inport', 'Outport')]
	for m in range(1, len(inner) + 1):
		for s in itertools.combinations(inner, m):
			yield s


def run(c, r):
	k = c['k']
	if k == 'two':
		deco = c['deco']
		ports2 = [(sg, g, s) for s in ('1', '4', '2') for sg, g in deco]
		for b in [None] + list(itertools.combinations_with_replacement(ports2, 2)):
			for ds in ('1', '2') + (('3',) if b else ()):
				for dg in ('', 'h') if b is None else ('',):
					for o in ('2', '3') if b else ('2',):
						for og in ('', 'k') if b is None else ('',):
							spec = {'1': ('Inport', 1), '2': ('Sum', list(c['a'])), '4': ('Delay', dg, ds, 1)}
							if b:
								spec['3'] = ('Sum', list(b))
							spec['9'] = ('Outport', 1, og, o)
							check(r, 'sums %s' % spec, mk(spec))
							r.count('diagrams')
	elif k == 'three':
		d = c['d']
		srcs = {'2': ('1', '4'), '3': ('1', '4', '2'), '6': ('4', '2', '3')}
		for a in itertools.product(*[itertools.product(srcs[s], repeat=2) if (c['all'] or s != '2') else [('1', '4'), ('4', '4')] for s in ('2', '3', '6')]):
			for ds, o in (('6', '6'), ('3', '6'), ('2', '3'), ('6', '2')):
				spec = {s: ('Sum', [d + (x[0],), ('-', 'k', x[1]) if s == '3' else ('-', '', x[1])]) for s, x in zip(('2', '3', '6'), a)}
				spec.update({'1': ('Inport', 1), '4': ('Delay', '', ds, 1), '9': ('Outport', 1, '', o)})
				order = list(c['perm']) + ['9', '4', '1']
				check(r, '3 sums %s in order %s' % (spec, order), mk(spec, order))
				r.count('diagrams')
	elif k == 'delays':
		# 1: input, 3, 4: Delays, 2: Sum of everything
		for pat in itertools.product(('+', '-'), ('', 'g'), ('1', '3', '4'), ('1', '3', '4'), ('2', '5')):
			spec = {'4': ('Delay', c['g'], c['d2'] if c['d2'] != '4' else '2', 1), '1': ('Inport', 1), '3': ('Delay', '', c['d1'] if c['d1'] != '3' else '4', None),
				'2': ('Sum', [(pat[0], pat[1], pat[2]), ('+', 'k', pat[3]), ('-', '', '3')]),
				'5': ('Sum', [('-', '', '2'), (pat[0], '', '4'), ('+', 'o', '2')]), '9': ('Outport', 1, '', pat[4])}
			D = mk(spec)
			for br in (True, False, 'back'):
				check(r, 'delays %s' % spec, D, branch=br)
				r.count('diagrams')
	elif k == 'length':
		for o in ('2', '3', '4'):
			spec = {'1': ('Inport', 1), '4': ('Delay', '', '2', c['L']), '3': ('Delay', 'g', '1', c['L2']),
				'2': ('Sum', [('+', '', '1'), ('-', 'k', '4'), ('+', '', '3')]), '5': ('Sum', [('+', '', '4'), ('-', '', '3')]),
				'9': ('Outport', 1, '', '5'), '8': ('Outport', 2, '', o)}
			check(r, 'lengths %s' % spec, mk(spec))
			check(r, 'lengths %s' % spec, mk(spec, list(spec)[::-1]))
			r.count('diagrams', 2)
	elif k == 'ports':
		srcs = ['5', '6', '7', '8', '9']
		for order in (0, 1, 2):
			for o in itertools.product(srcs, repeat=c['no']):
				for og in (['', '', ''], ['', 'h', '']):
					if og[1] and not (o[1] in '567'):
						continue
					spec = {'1': ('Inport', c['ip'][0]), '2': ('Inport', c['ip'][1]), '5': ('Sum', [('+', '', '1'), ('-', 'g', '8')]), '8': ('Delay', '', '6', 1),
						'6': ('Sum', [('+', 'h', '5'), ('+', '', '2')]), '9': ('Delay', '', '7', 1), '7': ('Sum', [('+', '', '5'), ('-', '', '6'), ('+', 'o', '9')])}
					for i, s in enumerate(o):
						spec['%d' % (11 + i)] = ('Outport', c['op'][i], og[i], s)
					keys = list(spec)
					keys = [keys, keys[::-1], keys[3:] + keys[:3]][order]
					check(r, 'ports %s in order %s' % (spec, keys), mk(spec, keys))
					r.count('diagrams')
	elif k == 'sub':
		D = POOL[c['b']]()
		if c['depth'] == 1:
			for br in (True, False, 'back'):
				check(r, 'diagram %d' % c['b'], D, branch=br)
			for s in subsets(D):
				W = wrap(D, s, '30', numbers=c['num'])
				for br in (True, 'back') if W is not None else ():
					check(r, 'diagram %d with %s in a subsystem' % (c['b'], s), W, D, branch=br)
					r.count('subsystems')
			return
		blocks = [b for b in D if D[b][0] not in ('Inport', 'Outport')]
		if c['first'] >= len(blocks):
			return
		# two subsystems: disjoint or nested, the first one has 1 or 2 blocks with the first block
		f = blocks[c['first']]
		for g in [None] + [b for b in blocks if b > f]:
			s1 = (f,) if g is None else (f, g)
			W1 = wrap(D, s1, '30', numbers=c['num'])
			if W1 is None:
				continue
			rest = [b for b in W1 if W1[b][0] not in ('Inport', 'Outport', 'SubSystem')]
			for m in (0, 1, 2):
				for s2 in itertools.combinations(rest, m):
					for nested in (True, False):
						ss = s2 + (('30',) if nested else ())
						if not ss:
							continue
						W2 = wrap(W1, ss, '40', numbers=c['num'])
						if W2 is None:
							continue
						check(r, 'diagram %d, subsystems %s, %s' % (c['b'], s1, ss), W2, D)
						r.count('subsystems')
						if c['depth'] == 3:
							left = [b for b in W2 if W2[b][0] not in ('Inport', 'Outport')]
							for s3 in itertools.combinations(left, 2):
								W3 = wrap(W2, s3, '50', numbers=c['num'])
								if W3 is not None:
									check(r, 'diagram %d, subsystems %s, %s, %s' % (c['b'], s1, ss, s3), W3, D)
									r.count('subsystems')
	elif k == 'chain':
		# chains of Sums, merged in any document order, with the same blocks at several places
		for L in range(1, c['L'] + 1):
			names = [str(20 + i) for i in range(L)]
			for order in (names, names[::-1], names[::2] + names[1::2], names[1::2][::-1] + names[::2]):
				for pat in itertools.product('+-', repeat=min(L, 3)):
					spec = {'1': ('Inport', 1)}
					for i, b in enumerate(names):
						prev = names[i - 1] if i else '1'
						other = ['2', '1', '2', '1', '2', '1', '2'][i]
						sg = pat[i % len(pat)]
						spec[b] = ('Sum', [[(sg, '', prev), ('+', '', other)], [('+', '', other), (sg, '', prev), ('-', 'k', other)],
							[(sg, '', prev), ('+', 'g', prev), ('-', '', other)], [('+', 'g', other), (sg, '', prev), ('-', 'g', '1')]][c['i']])
					spec['2'] = ('Delay', '', names[-1], 1)
					spec['3'] = ('Outport', 1, '', names[-1])
					keys = ['2'] + list(order) + ['3', '1']
					check(r, 'chain %s in order %s' % (spec, keys), mk(spec, keys))
					r.count('diagrams')
	elif k == 'through':
		# outputs that are inputs, delayed or not, with a gain or not, used elsewhere or not
		for o in itertools.product(['1', '2', '5', '8'], repeat=2):
			for og in itertools.product(['', 'h'], repeat=2):
				for op in ((1, 2), (2, 1)):
					for ds, used in itertools.product('125', ('1', '2', '8')):
						spec = {'1': ('Inport', c['ip'][0]), '2': ('Inport', c['ip'][1]), '8': ('Delay', '', ds, 1), '5': ('Sum', [('+', '', used), ('-', 'g', '8')])}
						for i, s in enumerate(o):
							spec['%d' % (11 + i)] = ('Outport', op[i], og[i], s)
						for keys in (list(spec), list(spec)[::-1]):
							check(r, 'through %s in order %s' % (spec, keys), mk(spec, keys))
							r.count('diagrams')
	elif k == 'ids':
		ids(r)
	elif k == 'constants':
		constants(r)
	elif k == 'wide':
		wide(c['n'], r)
	elif k == 'misc':
		misc(r)
	elif k == 'files':
		files(r)


def wide(n, r):
	"""port numbers with several digits: n inputs, n outputs, a Sum with n ports, a subsystem with n inputs and n outputs"""
	ins = ['%d' % (100 + i) for i in range(n)]
	spec = {'3': ('Delay', '', '2', 1)}
	for i, b in enumerate(ins):
		spec[b] = ('Inport', i + 1)
	spec['2'] = ('Sum', [('+-'[i % 2], 'ghkmo'[i % 5], b) for i, b in enumerate(ins)])
	for i in range(n):
		spec['%d' % (300 + i)] = ('Sum', [('-+'[i % 2], 'ghkmo'[i % 4], ins[i]), ('+', 'o' if i == n - 1 else '', '3')])
		spec['%d' % (500 + i)] = ('Outport', i + 1, '', '%d' % (300 + i))
	for keys in (list(spec), list(spec)[::-1], list(spec)[3:] + list(spec)[:3]):
		D = mk(spec, keys)
		check(r, '%d ports in order %s' % (n, keys[:2]), D)
		sums = tuple('%d' % (300 + i) for i in range(n))
		for sub in (('2',), sums, sums + ('2',), sums + ('2', '3')):
			sub = sub + tuple(b for b in D if D[b][0] == 'Gain' and b[:-2] in sub)
			for num in ('mixed', 'reversed'):
				W = wrap(D, sub, '900', numbers=num)
				for br in (True, 'back') if W is not None else ():
					check(r, '%d ports, %d blocks in a subsystem (%s)' % (n, len(sub), num), W, D, branch=br)
					r.count('wide')


def rename(D, ren):
	return {ren[b]: [t, p, [(ren[s], o) for s, o in ss]] for b, (t, p, ss) in D.items()}


def ids(r):
	"""identifiers that are extensions of each other, with delays of several samples"""
	for L, L2 in itertools.product((1, 2, 3, 12), repeat=2):
		base = mk({'1': ('Inport', 1), '5': ('Sum', [('+', '', '1'), ('+', 'g', '6')]), '6': ('Delay', '', '8', L), '7': ('Delay', '', '5', L2),
			'8': ('Sum', [('-', '', '1'), ('+', 'h', '7')]), '11': ('Outport', 2, '', '5'), '12': ('Outport', 1, '', '8')})
		blocks = list(base)
		for names in (['1', '11', '111', '12', '121', '2', '21', '112', '3'], ['21', '22', '2', '1', '211', '111', '11', '12', '122'], ['1', '10', '2', '20', '200', '100', '101', '21', '11'],
				['7:1', '7:11', '7:2', '7:21', '7:111', '7', '71', '72', '711'], ['3', '31', '4', '33', '32', '311', '321', '41', '42']):
			for rot in range(0, len(blocks), 2):
				ren = dict(zip(blocks[rot:] + blocks[:rot], names))
				check(r, 'identifiers %s' % ren, rename(base, ren))
				r.count('identifiers')


def constants(r):
	"""gains given by the dictionary, of any value and type, in any place"""
	import numpy
	values = [0, 0., 1, -1, 2, 0.1, 1. / 3, -1e-12, 123456789.123, 1e9, numpy.float64(0.7), numpy.int64(-3), True]
	for base in (df2(), wave(), two(), shared()):
		gs = [b for b in base if base[b][0] == 'Gain']
		for i, v in enumerate(values):
			for every in (False, True):
				D = {b: list(x) for b, x in base.items()}
				K = {'unused': 5.}
				for j, b in enumerate(gs):
					if every or j == i % len(gs):
						w = v if j % 2 == 0 else 0.375
						name = 'c%d' % (j % 2) if every else 'gain_%d' % j
						K[name] = w
						D[b] = ['Gain', {'gain': name, 'value': Fr(float(w))}, base[b][2]]
				check(r, 'constants %s' % K, D, constants=dict(K), tol=1e-9)
				for s in [tuple(gs)] + [(b,) for b in gs] + [tuple(b for b in D if D[b][0] in ('Gain', 'Sum')), tuple(b for b in D if D[b][0] not in ('Inport', 'Outport'))]:
					W = wrap(D, s, '30')
					if W is not None:
						check(r, 'constants %s with %s in a subsystem' % (K, s), W, D, constants=dict(K), tol=1e-9)
						r.count('constants')


def misc(r):
	D = df2()
	base = mk({'1': ('Inport', 1), '2': ('Sum', [('+', '', '1'), ('+', '', '4')]), '4': ('Delay', 'g', '2', 1), '9': ('Outport', 1, '', '2')})
	# names of constants, defaults of the parameters
	gs = next(b for b in base if base[b][0] == 'Gain')
	for name in ('alpha', 'k1', '2'):
		for v in (0.5, 2, -0.25):
			E = {b: list(x) for b, x in base.items()}
			E[gs] = ['Gain', {'gain': name, 'value': Fr(v)}, base[gs][2]]
			check(r, 'constant %s=%s' % (name, v), E, constants={name: v, 'other': 7.})
	for signs, val in ((None, '++'), ('++', '++'), ('|+|-', '+-'), ('+|+|', '++'), ('-|+', '-+'), ('||--', '--'), ('+-|', '+-')):
		E = {b: list(x) for b, x in base.items()}
		E['2'] = ['Sum', {'signs': signs}, base['2'][2]]
		check(r, 'signs %s' % signs, E)
	E = {b: list(x) for b, x in base.items()}
	E[gs] = ['Gain', {'value': Fr(1)}, base[gs][2]]
	check(r, 'gain without value', E)
	for g in ('0', '-0.0', '1e-2', '3', '-1.5', '.25', '9.313225746154785e-10', '-1.0000000009313226', '5.684341886080802e-14', '1048577', '1E+3', '-9.765625E-4', '3.0000000000000004'):
		E[gs] = ['Gain', {'gain': g, 'value': Fr(float(g))}, base[gs][2]]
		if float(g) != 0.01:
			check(r, 'gain %s' % g, E)
	# gains that nearly compensate each other, in the same sum and in merged sums
	for g, h in ((1., -1 - 2. ** -30), (0.5, -0.5 + 2. ** -50), (2. ** -40, 1.), (2. ** -45, 2. ** -46), (2. ** 40, -1.)):
		E = mk({'1': ('Inport', 1), '2': ('Sum', [('+', 'g', '1'), ('+', 'h', '1'), ('-', '', '4')]), '4': ('Delay', '', '2', 1), '5': ('Sum', [('+', 'g', '2'), ('-', 'h', '4')]), '9': ('Outport', 1, '', '5')})
		for b in E:
			if E[b][0] == 'Gain':
				v = g if E[b][1]['value'] == GAINS['g'] else h
				E[b] = ['Gain', {'gain': repr(v), 'value': Fr(v)}, E[b][2]]
		check(r, 'gains %r and %r' % (g, h), E)
		r.count('close gains')
	# sid: the new intermediate variables must not collide with the blocks
	for ids in (['1', '2', '3', '4', '5', '6', '7'], ['7', '6', '5', '4', '3', '2', '1'], ['12', '2', '8', '9', '10', '11', '3'], ['100', '101', '102', '103', '104', '105', '106'],
			['2', '3', '4', '5', '6', '7', '8'], ['1', '3', '5', '7', '9', '11', '13']):
		base = two()
		ren = dict(zip(['1', '2', '5', '6', '8', '11', '12'], ids))
		for i, b in enumerate(x for x in base if x not in ren):
			ren[b] = str(200 + i)
		E = {ren[b]: [t, p, [(ren[s], o) for s, o in ss]] for b, (t, p, ss) in base.items()}
		check(r, 'sids %s' % ids, E)
	# a subsystem with a wire, from its input to its output, next to a gain
	D = df2()
	for b in D:
		for i, s in enumerate(D[b][2]):
			for gain in (False, True):
				for order in (0, 1):
					E = {x: [t, p, list(ss)] for x, (t, p, ss) in D.items()}
					B = {x: [t, p, list(ss)] for x, (t, p, ss) in D.items()}
					inner = [('601', ['Inport', {'port': 1}, []]), ('602', ['Outport', {'port': 1}, [('601', 1)]])]
					if gain and E[b][0] == 'Sum' and D[s[0]][0] != 'Gain':
						inner.append(('603', ['Gain', {'gain': 2, 'value': Fr(2)}, [('601', 1)]]))
						inner.append(('604', ['Outport', {'port': 2}, [('603', 1)]]))
						E[b][2].append(('60', 2))
						E[b][1] = dict(E[b][1], signs=E[b][1]['signs'] + '-')
						B[b][2].append(('603', 1))
						B[b][1] = E[b][1]
						B['603'] = ['Gain', {'gain': 2, 'value': Fr(2)}, [s]]
					elif gain:
						continue
					E[b][2][i] = ('60', 1)
					E['60'] = ['SubSystem', {'inner': dict(inner[::-1] if order else inner), 'name': 'wire'}, [s]]
					if order:
						E = dict(list(E.items())[::-1])
					check(r, 'wire in a subsystem before %s' % b, E, B)
	# the same name for all the blocks
	E = {b: [t, dict(p, name='x'), ss] for b, (t, p, ss) in df2().items()}
	check(r, 'same names', E)
	# not a slx file
	from fixif.Structures.Simulink import importSimulink
	from mc.env import SCRATCH
	path = os.path.join(SCRATCH, 'bad%d.slx' % os.getpid())
	for kind in ('absent', 'text', 'zip'):
		if kind == 'text':
			with open(path, 'w') as f:
				f.write('not a zip')
		if kind == 'zip':
			with zipfile.ZipFile(path, 'w') as z:
				z.writestr('other.xml', '<a/>')
		try:
			with contextlib.redirect_stdout(io.StringIO()):
				importSimulink(path)
			r.fail('%s file accepted' % kind)
		except ValueError:
			r.outcome('ValueError')
	os.remove(path)
	r.count('misc')


def parse(path):
	"""the flat diagram of a .slx file, by an independent reading: the subsystems are expanded when a source is searched"""
	import xml.etree.ElementTree as ET
	with zipfile.ZipFile(path) as z:
		root = ET.fromstring(z.read(next(n for n in z.namelist() if n.endswith('blockdiagram.xml'))))
	flat, link, subs = {}, {}, {}

	def get(b, name, default=None):
		return next((p.text for p in b.findall('P') if p.get('Name') == name), default)

	def rd(system, parent):
		for b in system.findall('Block'):
			t, sid = b.get('BlockType'), b.get('SID')
			if t == 'SubSystem':
				subs[sid] = {'in': {}, 'out': {}}
				rd(b.find('System'), sid)
			elif t in ('Inport', 'Outport') and parent:
				subs[parent]['in' if t == 'Inport' else 'out'][int(get(b, 'Port', '1'))] = sid
				flat[sid] = ['Wire', {'parent': parent, 'port': int(get(b, 'Port', '1')), 't': t}]
			else:
				prm = {'port': int(get(b, 'Port', '1'))}
				if t == 'Gain':
					prm['value'] = Fr(float(get(b, 'Gain', '1')))
				if t == 'Sum':
					prm['signs'] = get(b, 'Inputs')
				if t == 'Delay':
					prm['len'] = int(get(b, 'DelayLength', '1'))
				flat[sid] = [t, prm]
		for ln in system.findall('Line'):
			s = get(ln, 'Src')
			for p in ln.iter('P'):
				if p.get('Name') == 'Dst':
					dst, port = p.text.split('#in:')
					link[dst, int(port)] = (s.split('#out:')[0], int(s.split('#out:')[1]))
	rd(root.find('Model/System'), None)

	def source(dst, port):
		s, o = link[dst, port]
		while True:
			if s in subs:
				s, o = link[subs[s]['out'][o], 1]
			elif flat[s][0] == 'Wire':
				s, o = link[flat[s][1]['parent'], flat[s][1]['port']]
			else:
				return (s, 1)
	D = {}
	for b, (t, prm) in flat.items():
		if t != 'Wire':
			nin = {'Inport': 0, 'Sum': len([c for c in prm.get('signs') or '++' if c in '+-'])}.get(t, 1)
			D[b] = [t, prm, [source(b, i + 1) for i in range(nin)]]
	return D


def files(r):
	"""the diagrams of the repository"""
	import glob
	from mc.env import REPO
	from fixif.Structures.Simulink import importSimulink
	from mc.checks.c13 import exact_of
	for f in sorted(glob.glob(os.path.join(REPO, 'fixif', 'Structures', 'test', '*.slx'))):
		D = parse(f)
		with contextlib.redirect_stdout(io.StringIO()):
			R = importSimulink(f)
		n = sum(D[b][1].get('len') or 1 for b in D if D[b][0] == 'Delay')
		h = simulate(D, 2 * n + 6)
		E, M = exact_of(R)
		if (R.n, R.p, R.q) != (n, len(h[0][0]), len(h)):
			r.fail('%s: %s' % (f, R.size))
			continue
		for j in range(R.q):
			got = [list(o[3]) for o in E.impulse(len(h[j]), j)]
			if any(abs(a - b) > 1e-9 * max(1, abs(b)) for x, y in zip(got, h[j]) for a, b in zip(x, y)):
				r.fail('%s: response to input %d: %s, expected %s' % (os.path.basename(f), j, [[float(v) for v in x] for x in got[:5]], [[float(v) for v in x] for x in h[j][:5]]))
			r.step(len(h[j]))
		r.count('files')
		r.state(f)
