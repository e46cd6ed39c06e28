import atexit
import os
import shutil
import sys
import tempfile

# nothing the code under test or its libraries cache survives this process or lands in /repo or $HOME
_tmp = tempfile.mkdtemp(prefix="vchk")
atexit.register(shutil.rmtree, _tmp, True)
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(_tmp, "pyc")
for v in ("MPLCONFIGDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "ASTROPY_CACHE_DIR"):
    d = os.path.join(_tmp, v)
    os.makedirs(d, exist_ok=True)
    os.environ[v] = d
os.environ["VCHK_TMP"] = _tmp
os.environ["MPLBACKEND"] = "Agg"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
import warnings  # noqa
warnings.simplefilter("ignore")
REPO = os.environ.get("PXMCMC_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy, scipy.stats, scipy.sparse, scipy.linalg, h5py, healpy, astropy.coordinates, matplotlib.pyplot  # noqa
import pyssht, pys2let  # noqa
from harness import rng  # noqa
rng.install()
import pxmcmc  # noqa
if not os.path.abspath(pxmcmc.__file__).startswith(os.path.abspath(REPO) + os.sep):
    print(f"ERROR pxmcmc comes from {pxmcmc.__file__}, not {REPO}", file=sys.stderr)
    sys.exit(2)
from harness.core import main  # noqa
sys.exit(main(sys.argv[1:]))
