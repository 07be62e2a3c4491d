"""Process setup shared by every check: where the code under test and the libraries come from."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HYPOTHESIS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'   # never read stale bytecode of the code under test

if REPO not in sys.path:
    sys.path.insert(0, REPO)
_here = os.path.dirname(os.path.abspath(__file__))
if _here not in sys.path:
    sys.path.insert(1, _here)
if HYPOTHESIS_SITE not in sys.path:
    sys.path.append(HYPOTHESIS_SITE)           # last: casadi/numpy stay those of /opt/venv

warnings.simplefilter('ignore')
