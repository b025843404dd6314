"""process set-up shared by every check: deterministic, offline, scratch TMPDIR, parcels from /repo"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True
SCRATCH = os.environ.get('VERIF_SCRATCH')
if not SCRATCH:
    SCRATCH = tempfile.mkdtemp(prefix='verif-')
    os.environ['VERIF_SCRATCH'] = SCRATCH
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = SCRATCH
    _owner = os.getpid()

    def _clean():
        if os.getpid() == _owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(_clean)
os.chdir(SCRATCH)
_z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _z not in sys.path:
    sys.path.append(_z)
REPO = os.environ.get('VERIF_REPO', '/repo')   # a scratch copy only while developing
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import logging  # noqa
import parcels  # noqa
assert parcels.__file__.startswith(REPO + '/'), parcels.__file__
from parcels.tools.loggers import logger as _plog  # noqa
_plog.setLevel(logging.ERROR)
