"""Build the planted bugs of /verif/seeded from their specifications (tools/plants/*.py).

usage: plant.py [names...]     (re)build: copy of /repo under /tmp, edit, stable tests, demo before and after
       plant.py --check [names...]   apply each to /repo, run the check of its property, undo
A specification file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source).
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
SEEDED = os.path.join(VERIF, 'seeded')
WORK = '/tmp/plantwork'

HEAD = '''import os
import sys
import tempfile
os.environ.setdefault('MPLBACKEND', 'Agg')
_tmp = tempfile.mkdtemp(prefix='demo-')
import atexit
import shutil
atexit.register(shutil.rmtree, _tmp, True)
os.environ['MPLCONFIGDIR'] = _tmp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import stubs
stubs.install()


'''
SH = '#!/bin/sh\n# run with cwd = the repository\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(name, spec):
	d = os.path.join(SEEDED, name)
	os.makedirs(d, exist_ok=True)
	with open(os.path.join(d, 'demo.py'), 'w') as f:
		f.write(HEAD + spec['DEMO'].strip() + '\n')
	with open(os.path.join(d, 'demo.sh'), 'w') as f:
		f.write(SH)
	os.chmod(os.path.join(d, 'demo.sh'), 0o755)
	shutil.copy(os.path.join(VERIF, 'mc', 'stubs.py'), os.path.join(d, 'stubs.py'))
	with open(os.path.join(d, 'meta.json'), 'w') as f:
		json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, f, indent=1)
		f.write('\n')
	shutil.rmtree(WORK, ignore_errors=True)
	subprocess.check_call(['cp', '-a', REPO, WORK])
	demo = os.path.join(d, 'demo.sh')
	r = sh('sh %s' % demo, cwd=WORK)
	if r.returncode != 0:
		return 'DEMO FAILS ON THE UNCHANGED TREE\n' + r.stdout[-1500:]
	for fn, old, new in spec['EDITS']:
		p = os.path.join(WORK, fn)
		s = open(p).read()
		if s.count(old) != 1:
			return '%d occurrences of %r in %s' % (s.count(old), old, fn)
		base = sh('git show 2b2efea:%s' % fn, cwd=REPO).stdout
		if not any(l.strip() and l in base.splitlines() for l in set(old.splitlines()) - set(new.splitlines())):
			print('   warning: %s: no base line changed in %s' % (name, fn))
		open(p, 'w').write(s.replace(old, new))
	patch = sh('git diff', cwd=WORK).stdout
	with open(os.path.join(d, 'patch.diff'), 'w') as f:
		f.write(patch)
	r = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors fixif/func_aux/test 2>&1 | tail -3' % WORK, cwd=WORK)
	tests = '8 passed' in r.stdout
	imp = sh('PYTHONPYCACHEPREFIX=/tmp/plantpyc /opt/venv/bin/python -W ignore -m compileall -q fixif; r=$?; rm -rf /tmp/plantpyc; exit $r', cwd=WORK)
	r = sh('sh %s' % demo, cwd=WORK)
	shutil.rmtree(WORK, ignore_errors=True)
	if not tests or imp.returncode:
		return 'TESTS OR BUILD FAIL'
	if r.returncode == 0:
		return 'DEMO PASSES WITH THE BUG'
	return 'ok   (demo: %s)' % r.stdout.strip().splitlines()[-1][:150]


def check(name, spec, tier='quick'):
	patch = os.path.join(SEEDED, name, 'patch.diff')
	assert sh('git -C %s apply %s' % (REPO, patch)).returncode == 0, name
	try:
		r = sh('./check.sh %s %s' % (spec['PROPERTY'], tier), cwd=VERIF)
	finally:
		sh('git -C %s checkout -- .' % REPO)
	v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
	return '%s rc=%d %s' % ('CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, v[:1])


def main():
	args = sys.argv[1:]
	mode = build
	if args and args[0] == '--check':
		mode, args = check, args[1:]
	names = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'plants')) if f.endswith('.py'))
	for n in names:
		spec = runpy.run_path(os.path.join(HERE, 'plants', n + '.py'))
		print('%-28s %s %s' % (n, spec['PROPERTY'], mode(n, spec)), flush=True)


main()
