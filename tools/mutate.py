#!/usr/bin/env python3
"""Mutation campaign: small changes of the sources of fixif, one at a time, in a scratch copy; each one should be
caught by a check of the file. Survivors are written for reading (they are equivalent changes, or holes).

  tools/mutate.py OUT.jsonl [--every K] [--offset J] [--only SUBSTRING] [--list]

The campaign is a development aid: no check uses it.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
	'func_aux/MPFMatrix.py': '25 01 02 03 09 10', 'func_aux/mpf_matrix_fadd.py': '01 02 09', 'func_aux/mpf_matrix_fsub.py': '01 02 09',
	'func_aux/mpf_matrix_fmul.py': '01 02 09 10', 'func_aux/mpf_matrix_lt_inverse.py': '01 02 10', 'func_aux/mp_poly_product.py': '04 14',
	'func_aux/mpf_poly_mult.py': '04', 'func_aux/mpc_get_real.py': '04 06 03', 'func_aux/mpf_get_representation.py': '03',
	'func_aux/mpf_matrix_get_representation.py': '03', 'func_aux/mpf_to_numpy.py': '03 02', 'func_aux/python2mpf_matrix.py': '03 02',
	'func_aux/write_matrix_hex.py': '03', 'func_aux/write_matrix_mpf.py': '03',
	'LTI/dTF.py': '05 06 26 02 19 23', 'LTI/dTFmp.py': '06 02 19', 'LTI/dSS.py': '07 08 26 06 02 12 19', 'LTI/dSSmp.py': '09 06 02',
	'LTI/Filter.py': '19 02 13', 'LTI/Butter.py': '20 19', 'LTI/Elliptic.py': '20 19', 'LTI/Gabarit.py': '20 19',
	'SIF/SIF.py': '10 11 12 23 26 02', 'SIF/SIF_sensibility.py': '22 11', 'SIF/SIF_tilde_error.py': '12', 'SIF/Realization.py': '17 24 13 15',
	'SIF/Realization_FxP.py': '18', 'SIF/Realization_FxP_Nastia.py': '18', 'SIF/Realization_algorithms.py': '16', 'SIF/Realization_implementation.py': '15',
	'SoP/SoP.py': '23 16', 'SoP/VarName.py': '24 16 15', 'Structures/Structure.py': '24 13', 'Structures/DirectForms': '13 16',
	'Structures/State_Space': '13', 'Structures/LGS_LCW': '13', 'Structures/rhoDFIIt': '14 13', 'Structures/Simulink': '21',
}
SKIP_FUNC = {'to_Matlab', 'sollya', '__str__', '__repr__', 'plot', 'sumLaTeX', '_compute_LSB', 'flopoco', 'printequations', 'printblocks', 'printlines', 'isequationused', 'ischained', 'output_info'}


def files(root):
	for k, v in MAP.items():
		p = os.path.join(root, 'fixif', k)
		if os.path.isdir(p):
			for f in sorted(os.listdir(p)):
				if f.endswith('.py') and f != '__init__.py':
					yield os.path.join('fixif', k, f), v.split()
		elif os.path.exists(p):
			yield os.path.join('fixif', k), v.split()


SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '+', ast.Mod: '+', ast.Pow: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def mutants(src):
	"""(line, description, new source)"""
	tree = ast.parse(src)
	raw = src.encode()
	starts = [0]
	for line in raw.split(b'\n'):
		starts.append(starts[-1] + len(line) + 1)

	def span(n):
		return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

	def text(n):
		a, b = span(n)
		return raw[a:b].decode()
	out = []

	def put(n, new, what):
		a, b = span(n)
		out.append((n.lineno, what + ': ' + raw[a:b].decode()[:60].replace('\n', ' ') + ' -> ' + new[:60].replace('\n', ' '), (raw[:a] + new.encode() + raw[b:]).decode()))

	def between(x, y, new, what, n):
		a, b = span(x)[1], span(y)[0]
		out.append((n.lineno, what + ': ' + text(n)[:70].replace('\n', ' '), (raw[:a] + b' ' + new.encode() + b' ' + raw[b:]).decode() if raw[a:b].count(b'(') == raw[a:b].count(b')') == 0 else None))

	def walk(n, infunc):
		if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
			if n.name in SKIP_FUNC or 'atlab' in n.name or 'ollya' in n.name:
				return
			infunc = infunc or isinstance(n, ast.FunctionDef)
		if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
			return
		if infunc:
			if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
				between(n.left, n.right, SWAP[type(n.op)], 'op', n)
				if isinstance(n.op, ast.Mult):
					put(n, '(%s) * (%s)' % (text(n.right), text(n.left)), 'swap')
				if isinstance(n.op, ast.Add):
					put(n, text(n.left), 'drop')
			if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
				between(n.left, n.comparators[0], CMP[type(n.ops[0])], 'cmp', n)
			if isinstance(n, ast.BoolOp):
				between(n.values[0], n.values[1], 'or' if isinstance(n.op, ast.And) else 'and', 'bool', n)
				put(n, text(n.values[0]), 'first')
			if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
				put(n, '(' + text(n.operand) + ')', 'unary')
			if isinstance(n, ast.Constant) and type(n.value) is bool:
				put(n, str(not n.value), 'bool')
			elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
				put(n, str(n.value + 1), 'const')
				if n.value == 1:
					put(n, '0', 'const')
			if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
				put(n.slice, '%s, %s' % (text(n.slice.elts[1]), text(n.slice.elts[0])), 'swap index')
			if isinstance(n, ast.Slice):
				for b in (n.lower, n.upper):
					if b is not None and not isinstance(b, ast.Constant):
						put(b, '(%s)-1' % text(b), 'bound')
			if isinstance(n, ast.Call):
				f = n.func
				name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
				if name in ('copy', 'deepcopy', 'transpose', 'conj', 'conjugate') and isinstance(f, ast.Attribute) and not n.args:
					put(n, text(f.value), 'no ' + name)
				elif name in ('copy', 'deepcopy', 'abs', 'float', 'int', 'transpose', 'conj', 'real', 'list', 'sorted', 'inv', 'mat', 'array', 'matrix', 'set') and len(n.args) >= 1:
					put(n, '(' + text(n.args[0]) + ')', 'no ' + name)
				elif name in ('max', 'min', 'floor', 'ceil', 'all', 'any'):
					put(f, text(f).replace(name, {'max': 'min', 'min': 'max', 'floor': 'ceil', 'ceil': 'floor', 'all': 'any', 'any': 'all'}[name]), 'fun')
				for kw in n.keywords:
					if isinstance(kw.value, ast.Constant) and kw.value.value is None:
						continue
				if len(n.args) == 2 and name not in ('isinstance', 'getattr', 'range') and not n.keywords and len(set(map(text, n.args))) == 2:
					put(n.args[0], text(n.args[1]), 'arg')
			if isinstance(n, ast.Attribute) and n.attr in ('T', 'H'):
				put(n, text(n.value), 'no .T')
			if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
				t = text(n)
				if not t.startswith('print'):
					put(n, 'pass', 'delete')
			if isinstance(n, ast.If):
				put(n.test, 'True', 'if')
				put(n.test, 'False', 'if')
			if isinstance(n, ast.IfExp):
				put(n.test, 'not (%s)' % text(n.test), 'ifexp')
		for c in ast.iter_child_nodes(n):
			walk(c, infunc)
	walk(tree, False)
	seen = set()
	for line, what, new in out:
		if new is None or new in seen or new == src:
			continue
		seen.add(new)
		try:
			compile(new, 'x', 'exec')
		except (SyntaxError, ValueError):
			continue
		yield line, what, new


def main():
	a = sys.argv[1:]
	opt = lambda x, d: a[a.index(x) + 1] if x in a else d
	every, offset, only = int(opt('--every', '1')), int(opt('--offset', '0')), opt('--only', '')
	root = opt('--dir', '/tmp/mut')
	if not os.path.exists(root):
		os.makedirs(root)
		subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
		shutil.copytree('/repo', root + '/repo')
		shutil.copytree(HERE, root + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
	work = []
	for f, checks in files(root + '/repo'):
		src = open(os.path.join(root, 'repo', f), encoding='utf8').read()
		for m in mutants(src):
			work.append((f, checks, m))
	work = [w for w in work if only in w[0]]
	if '--list' in a:
		import collections
		c = collections.Counter(w[0] for w in work)
		for k, v in c.items():
			print(v, k)
		print(len(work))
		return
	work = work[offset::every]
	done = set()
	if os.path.exists(a[0]):
		for l in open(a[0]):
			d = json.loads(l)
			done.add((d['file'], d['line'], d['what']))
	env = dict(os.environ, FIXIF_REPO=root + '/repo', MC_STOP='1', MC_BUDGET='200')
	for f, checks, (line, what, new) in work:
		if (f, line, what) in done:
			continue
		path = os.path.join(root, 'repo', f)
		src = open(path, encoding='utf8').read()
		open(path, 'w', encoding='utf8').write(new)
		t = time.time()
		caught = None
		try:
			for c in checks:
				try:
					p = subprocess.run(['./check.sh', 'C' + c, 'quick'], cwd=root + '/verif', env=env, capture_output=True, text=True, timeout=400)
					code = p.returncode
				except subprocess.TimeoutExpired:
					code = 'timeout'
				if code != 0:
					caught = 'C' + c
					break
		finally:
			open(path, 'w', encoding='utf8').write(src)
		with open(a[0], 'a') as g:
			g.write(json.dumps(dict(file=f, line=line, what=what, caught=caught, s=round(time.time() - t, 1))) + '\n')


main()
