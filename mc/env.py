"""Environment of a check: where the code under test lives, scratch directories, stand-ins.

Importing this module must come before any import of fixif, numpy or matplotlib.
"""
import os
import sys
import atexit
import shutil
import tempfile

REPO = os.environ.get('FIXIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if hasattr(sys, 'set_int_max_str_digits'):
	sys.set_int_max_str_digits(0)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
	os.environ[_v] = '1'

SCRATCH = tempfile.mkdtemp(prefix='fixif-mc-')
_owner = os.getpid()


def _cleanup():
	if os.getpid() == _owner:
		shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.makedirs(os.environ['MPLCONFIGDIR'])

# the tree under test comes first, whatever the editable install says
if REPO in sys.path:
	sys.path.remove(REPO)
sys.path.insert(0, REPO)

from mc import stubs  # noqa: E402
stubs.install()
