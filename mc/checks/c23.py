"""C23: displays and operation counts of implicit forms, sums of products and transfer functions describe their coefficients."""
import itertools
import re
from mc.sifs import BIG
import numpy
from fractions import Fraction as Fr

ID = 'C23'
LEVEL = 'model_checking'
RULE = 'every coefficient of every implicit form of the pool takes every value of an alphabet (and pairs of coefficients, and the weights 0, 1 or given), and everything displayed or counted is read back and compared with the coefficients. Every sum of products up to a length over an alphabet of constants and names: its text, wrapped, is parsed and evaluated exactly. Every transfer function over an alphabet: its text is parsed'
BOUNDS = {'quick': 'l<=2, n<=2 (and 3), p,q<=2; 28 values in every place, pairs of places with 6 values for 4 sizes; sums of up to 4 products over 12 constants, and long ones; transfer functions of orders up to 3 over 7 coefficients',
          'thorough': 'l<=3, n<=3, p,q<=2; pairs of places with 8 values for 8 sizes; sums of up to 5 products; transfer functions over 7 coefficients'}
ASSUMPTIONS = ['coefficients between 1e-8 and 2e-8 (relatively) from a power of 2 may or may not be trivial', 'the number of additions is compared when no row of Z is null']
CASE_LIMIT = 600

VALUES = [0., 1., -1., 2., -2., .5, -.25, 3., -5., .75, -.3, 1e-5, 2. ** -30, -2. ** 40, 1 + 1e-10, -1 - 1e-7, 2 * (1 - 1e-7), .25 * (1 + 1e-10), .25 * (1 - 1e-7), 1e22, -0., 12345.678, 1 / 3., 100., -10., 1.4142135623730951, 7e-300, 1 + 3e-8]


def cases(tier):
	q_ = tier == 'quick'
	for l, n, p, q in itertools.product(range(0, 3 if q_ else 4), range(1, 4), (1, 2), (1, 2)):
		if q_ and n == 3 and p + q > 2:
			continue
		for fam in ('full', 'int', 'sparse', 'upper'):
			yield dict(k='one', size=(l, n, p, q), fam=fam)
	for size in BIG:
		yield dict(k='one', size=size, fam='big')
	for size in [(0, 2, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1)] + ([] if q_ else [(1, 1, 2, 1), (1, 1, 1, 2), (0, 2, 2, 1), (0, 3, 1, 1)]):
		for fam in ('int', 'full'):
			yield dict(k='two', size=size, fam=fam, vals=[0., 1., -1., .5, 3., -.3] + ([] if q_ else [-4., 1 + 1e-7]))
	for n in range(0, 5 if q_ else 6):
		for fmt in (None, '%.17g', '%r', '%.3f', '%4f'):
			yield dict(k='sop', n=n, fmt=fmt)
	for n in range(5, 40, 3):
		yield dict(k='long', n=n)
	al = [0., 1., -1., .5, -2.25, -1 + 2. ** -40, 2. ** -46] + ([] if q_ else [3e20])
	for n in range(0, 4):
		for m in range(0, 4):
			if n + m <= 5:
				yield dict(k='tf', n=n, m=m, al=al)


# -- implicit forms ------------------------------------------------------------------------------------------

def trivial(v):
	"""True, False, or None if too close to decide"""
	if v == 0:
		return True
	m, e = numpy.frexp(abs(v))		# m in [0.5, 1)
	d = min(abs(m - 1), abs(2 * m - 1))
	return True if d < 0.5e-8 else False if d > 2.5e-8 else None


def cell_tikz(s):
	m = re.search(r'\\node\s*\[\s*(\w+)', s)
	return m.group(1) if m else ('' if not s.strip() else s)


def check(r, what, S, Z, mask=None):
	"""Z: expected coefficients, mask: given exactness mask, or None"""
	l, n, p, q = S.size
	rows, cols = l + n + p, l + n + q
	W = numpy.array(S.dZ, dtype=float)
	for i in range(rows):
		for j in range(cols):
			t = trivial(Z[i, j]) if mask is None else (mask[i, j] == 0)
			if t is not None and (W[i, j] == 0) != t or mask is not None and W[i, j] != mask[i, j]:
				r.fail('%s: the coefficient Z[%d,%d]=%r has the weight %r' % (what, i, j, float(Z[i, j]), float(W[i, j])))
				return
	mul, add = S.nbOp()
	if mul != int((W != 0).sum()):
		r.fail('%s: %s multiplications instead of %d' % (what, mul, int((W != 0).sum())))
	# each row: t_i, x_i+ or y_i is a sum
	terms = [sum(1 for j in range(cols) if Z[i, j] != 0 and not (i < l and j == i)) for i in range(rows)]
	if all(terms) and add != sum(t - 1 for t in terms):
		r.fail('%s: %s additions instead of %d' % (what, add, sum(t - 1 for t in terms)))
	pnut = any(Z[l + i, l + j] != 0 for i in range(n) for j in range(i))
	if bool(S.isPnut()) != pnut:
		r.fail('%s: isPnut is %s' % (what, S.isPnut()))

	# TikZ
	s = S.getTiKZSparseMatrix()
	body = re.search(r'\\matrix\s*\[.*?\]\s*\{(.*)\n\s*\};', s, re.S)
	if body:
		lines = body.group(1).strip().split('\\\\')
		if not lines[-1].strip():
			lines = lines[:-1]
	if not body or len(lines) != rows:
		r.fail('%s: the TikZ picture has %s rows instead of %d' % (what, body and len(lines), rows))
		return
	for i, x in enumerate(lines):
		cells = x.split('&')
		if len(cells) != cols:
			r.fail('%s: row %d of the TikZ picture has %d cells instead of %d' % (what, i, len(cells), cols))
			return
		for j, y in enumerate(cells):
			z = Z[i, j]
			want = 'one' if z == 1 else 'minusone' if z == -1 else '' if z == 0 else 'power2' if W[i, j] == 0 else 'coef'
			if cell_tikz(y) != want:
				r.fail('%s: TikZ cell (%d,%d) of %r is %r, expected %r' % (what, i, j, float(z), y, want))
				return

	# LaTeX
	for sparse, fmt in ((True, None), (False, None), (False, '%.10f'), (True, '%.17g')):
		kw = {'sparse': sparse}
		if fmt:
			kw['strFormat'] = fmt
		s = S.getZtpmatrixLaTeX(**kw) if (fmt or not sparse) else S.getZtpmatrixLaTeX()
		m = re.search(r'\\begin\{tpmatrix\}\[\{(.*?)\}\]\{\}(.*)\\end\{tpmatrix\}', s, re.S)
		lines = [x for x in m.group(2).strip(' \t\n').split('\\\\\n')] if m else []
		L = max(l, 1)
		if not m or len(lines) != (rows if l else rows + 1):
			r.fail('%s: the LaTeX matrix has %d rows: %s' % (what, len(lines), s))
			return
		if re.findall(r'\\mvline(?:\[dashed\])?\{(\d+)\}', m.group(1)) != [str(L), str(L + n)] or re.findall(r'\\mhline(?:\[dashed\])?\{(\d+)\}', m.group(1)) != [str(L), str(L + n)]:
			r.fail('%s: separations of the LaTeX matrix: %s' % (what, m.group(1)))
			return
		cells = [[y.strip() for y in x.split('\\&')] for x in lines]
		if l == 0:
			if any(cells[0]) or len(cells[0]) != cols + 1 or any(x[0] for x in cells[1:]):
				r.fail('%s: the row and column of (no) intermediate variables are not empty: %s' % (what, cells))
				return
			cells = [x[1:] for x in cells[1:]]
		for i in range(rows):
			if len(cells[i]) != cols:
				r.fail('%s: row %d of the LaTeX matrix has %d cells instead of %d' % (what, i, len(cells[i]), cols))
				return
			for j in range(cols):
				z = float(Z[i, j])
				y = cells[i][j]
				want = '' if z == 0 and sparse else '%d' % z if z == int(z) else (fmt or '%.4g') % z
				if y != want and not (y and want and Fr(y) == Fr(want)):
					r.fail('%s: LaTeX cell (%d,%d) of %r is %r, expected %r' % (what, i, j, z, y, want))
					return
	head = str(S)
	m = re.search(r'l\s*=\s*(\d+), n\s*=\s*(\d+), p\s*=\s*(\d+), q\s*=\s*(\d+)', head)
	if not m or tuple(map(int, m.groups())) != (l, n, p, q):
		r.fail('%s: text %s' % (what, head[:80]))
	r.step(5)
	r.count('forms')


def zmatrix(D, l, n, p, q):
	from mc.sifs import shapes
	A = {x: numpy.array(D[x], dtype=float).reshape(shapes(l, n, p, q)[x]) for x in D}
	return numpy.vstack([numpy.hstack([-A['J'], A['M'], A['N']]), numpy.hstack([A['K'], A['P'], A['Q']]), numpy.hstack([A['L'], A['R'], A['S']])])


def form(Z, l, n, p, mask=None):
	from fixif.SIF import SIF
	def cut(X, sign):
		X = numpy.matrix(X)
		return (sign * X[:l, :l], X[l:l + n, :l], X[l + n:, :l], X[:l, l:l + n], X[:l, l + n:], X[l:l + n, l:l + n], X[l:l + n, l + n:], X[l + n:, l:l + n], X[l + n:, l + n:])
	return SIF(cut(Z, -1), None if mask is None else cut(mask, 1))


# -- sums of products ----------------------------------------------------------------------------------------

def number(s):
	s = s.strip()
	return Fr(float.fromhex(s)) if 'x' in s.lower() else Fr(s) if not re.search('[eE]', s) else Fr(float(s))


def evaluate(text, res, names, assign='<-'):
	"""coefficients of the sum: dict name -> Fraction; None if the text is not understood"""
	t = ' '.join(text.split())
	left, sep, right = t.partition(' %s ' % assign)
	if not sep or left != res:
		return None
	out = {}
	if right == '0':
		return out
	for term in right.split(' + '):
		c, star, v = term.partition('*')
		if star:
			c, v = number(c), v
		elif term.startswith('-'):
			c, v = Fr(-1), term[1:]
		else:
			c, v = Fr(1), term
		if v not in names:
			return None
		out[v] = out.get(v, Fr(0)) + c
	return out


CONST = [0., 1., -1., .5, -3.25, 1e-300, 1 / 3., -123456.789, 5e-324, 1 + 2. ** -40, -1 + 2. ** -45, 1e-13]


def check_sop(r, consts, names, res, fmt, assign):
	from fixif.SoP import SoP
	cs, ns = list(consts), list(names)
	S = SoP(cs, ns, res)
	kw = {}
	if assign != '<-':
		kw['assign'] = assign
	if fmt:
		kw['coefFormat'] = fmt
	for again in range(3 if fmt == '%4f' and assign == '<-' else 2):
		text = S.toAlgoStr(**kw) if again < 2 else str(S)
		if text == '':
			got = {res: Fr(1)}		# nothing to do: the result is the variable
		else:
			got = evaluate(text, res, names, assign)
		want = {}
		for c, v in zip(consts, names):
			if c != 0:
				w = Fr(c) if c in (1, -1) or not fmt else number(fmt % c)
				want[v] = want.get(v, Fr(0)) + w
		if got is None or {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v}:
			r.fail('sum of products %s * %s in %s (format %s): %r' % (consts, names, res, fmt, text))
			return
	for line in text.split('\n'):
		if len(line) > 60 and len(line.split()) > 1 and max(len(w) for w in line.split()) < 60:
			r.fail('line longer than 60: %r' % line)
	if cs != list(consts) or ns != list(names):
		r.fail('the lists given to SoP are changed')
	r.state((tuple(map(float, consts)), tuple(names), res, fmt))
	r.step()
	r.count('sums')


def parse_tf(s):
	"""(num, den): dict power -> coefficient"""
	lines = [x for x in s.split('\n') if x.strip()]
	assert len(lines) == 3 and 'H(z)' in lines[1] and set(lines[1].split('=')[1].strip()) == {'-'}, s
	out = []
	for x in (lines[0], lines[2]):
		d = {}
		for t in x.strip().split(' + '):
			c, z, k = t.partition('z^')
			d[int(k) if z else 0] = float(c)
		out.append(d)
	return out


def run(c, r):
	from mc.sifs import jtos
	if c['k'] in ('one', 'two'):
		l, n, p, q = c['size']
		Z0 = zmatrix(jtos(l, n, p, q, c['fam']), l, n, p, q)
		rows, cols = Z0.shape
		places = [(i, j) for i in range(rows) for j in range(cols) if not (i < l and j < l and j >= i)]
		if c['k'] == 'one':
			for i, j in places if c['fam'] != 'big' else [x for k, x in enumerate(places) if k % 17 == 3 or k == len(places) - 1]:
				for v in VALUES if c['fam'] != 'big' else VALUES[:7]:
					Z = Z0.copy()
					Z[i, j] = v
					S = form(Z, l, n, p)
					check(r, '%s %s Z[%d,%d]=%r' % (c['size'], c['fam'], i, j, v), S, Z)
					r.state((c['size'], c['fam'], i, j, v))
				for w in (0, 1):
					mask = numpy.ones_like(Z0) * (1 - w)
					mask[i, j] = w
					for v in (Z0[i, j], .5, -.3, 1., 0.):
						Z = Z0.copy()
						Z[i, j] = v
						check(r, '%s %s Z[%d,%d]=%r, mask %d' % (c['size'], c['fam'], i, j, v, w), form(Z, l, n, p, mask), Z, mask)
		else:
			for a, b in itertools.combinations(places, 2):
				for va, vb in itertools.product(c['vals'], repeat=2):
					Z = Z0.copy()
					Z[a], Z[b] = va, vb
					check(r, '%s %s Z%s=%r Z%s=%r' % (c['size'], c['fam'], a, va, b, vb), form(Z, l, n, p), Z)
					r.state((c['size'], c['fam'], a, b, va, vb))
		r.outcome(c['k'])
	elif c['k'] == 'sop':
		names = ['x1(k)', 'u(k)', 'T[3]', '-', 'y_{2}'][:c['n']]
		names = [x if x != '-' else 'surname(k-1)' for x in names]
		for consts in itertools.product(CONST if c['n'] < 4 else CONST[:5] + CONST[6:7] + CONST[9:10], repeat=c['n']):
			for res in ('s',) + tuple(names[:1]):
				for assign in ('<-', '=') if c['n'] < 3 else ('<-',):
					check_sop(r, consts, names, res, c['fmt'], assign)
		# the same variable several times
		for consts in itertools.product(CONST[:5], repeat=min(c['n'], 3)):
			check_sop(r, consts, ['x'] * len(consts), 's', c['fmt'], '<-')
		bad(r, c['n'])
		r.outcome('sop')
	elif c['k'] == 'long':
		for a, b in itertools.product(range(len(CONST)), (0, 1, 2, 5)):
			for base in ('x', 'a_long_surname_', 'x-', 'low-pass-state', 'a-very-long-name-with-more-than-sixty-characters-in-it-which-is-not-cut-', 'a_very_long_name_with_more_than_sixty_characters_in_it_which_is_not_cut_'):
				consts = [CONST[(a + b * i + i) % len(CONST)] for i in range(c['n'])]
				names = ['%s%d(k)' % (base, i) for i in range(c['n'])]
				for fmt in (None, '%.17g'):
					check_sop(r, consts, names, 's', fmt, '<-')
		r.outcome('long')
	else:
		from fixif.LTI import dTF
		for num in itertools.product(c['al'], repeat=c['n'] + 1):
			for den in itertools.product(c['al'], repeat=c['m']):
				T = dTF(list(num), [1.] + list(den))
				got = parse_tf(str(T))
				for d, e in zip(got, (T.num, T.den)):
					e = numpy.array(e, dtype=float).ravel()
					if {k: v for k, v in d.items() if v} != {-i: v for i, v in enumerate(e) if v} or any(-k >= len(e) or k > 0 for k in d):
						r.fail('text of the transfer function %s / %s: %s' % (num, den, T))
						return
				# and T has the coefficients that were given
				e = numpy.array(T.num, dtype=float).ravel()
				if any(got[0].get(-i, 0) != v for i, v in enumerate(num)) or any(got[1].get(-i, 0) != v for i, v in enumerate((1.,) + den)):
					r.fail('text of the transfer function %s / %s: %s' % (num, den, T))
				r.state((num, den))
				r.step()
				r.count('transfer functions')
		r.outcome('tf')


def bad(r, n):
	from fixif.SoP import SoP
	for m in range(0, 5):
		if m != n:
			try:
				SoP([1.] * n, ['x'] * m, 's')
				r.fail('%d constants and %d names accepted' % (n, m))
			except ValueError:
				r.outcome('ValueError')
