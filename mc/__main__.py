import sys
import os
import warnings
warnings.simplefilter('ignore')
import mc.env  # noqa
from mc import engine
import traceback
args = sys.argv[1:]
pid = args.pop(0)
tier, replay = os.environ.get('VERIF_TIER', 'quick'), None
while args:
	a = args.pop(0)
	if a == '--replay':
		replay = args.pop(0)
	elif a in ('quick', 'thorough'):
		tier = a
try:
	seed = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
	seed = 1
modname = 'mc.checks.' + pid.lower()
try:
	rc = engine.main(modname, tier, seed, replay)
except Exception:
	traceback.print_exc()
	# the code under test could not even be loaded or driven
	os.makedirs(os.path.join(mc.env.VERIF, 'replays'), exist_ok=True)
	p = os.path.join(mc.env.VERIF, 'replays', pid + '-load.json')
	import json
	json.dump(dict(property=pid, case={}, message=traceback.format_exc()), open(p, 'w'))
	print('VIOLATION property=%s replay=%s' % (pid, p))
	rc = 1
sys.stdout.flush()
sys.exit(rc)
