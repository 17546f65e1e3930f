"""Import the code under test from the working tree, never from elsewhere.

The real ``exoplanet`` package is imported from ``$VERIF_REPO/src`` (default
``/repo/src``).  PyTensor is told to work without a C compiler and to keep its
bookkeeping in a private scratch directory that is removed at exit, so that a
check neither reads nor leaves anything outside of it.  Loop fusion is left out:
without a C compiler PyTensor 2.28 evaluates fused scalar graphs with Python
floats, and numpy 2 then rounds them to float32 whenever a float32 constant
such as the exponent 1.5 takes part.  That is not a property of exoplanet.
"""

import atexit
import os
import shutil
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
_scratch = tempfile.mkdtemp(prefix="vmon-")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)

os.environ["PYTENSOR_FLAGS"] = (
    "cxx=,compute_test_value=off,optimizer_excluding=fusion,base_compiledir="
    + _scratch
)
os.environ.pop("EXOPLANET_FORCE_PYMC3", None)
os.environ.setdefault("ASTROPY_CACHE_DIR", _scratch)
os.environ.setdefault("MPLCONFIGDIR", _scratch)
sys.dont_write_bytecode = True

SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)

# ``exoplanet_version.py`` is generated by the build and ignored by git.
if not os.path.exists(os.path.join(SRC, "exoplanet", "exoplanet_version.py")):
    _m = types.ModuleType("exoplanet.exoplanet_version")
    _m.__version__ = "0.0.0"
    _m.version = "0.0.0"
    sys.modules["exoplanet.exoplanet_version"] = _m

import logging  # noqa: E402

logging.getLogger("pytensor").setLevel(logging.CRITICAL)
logging.getLogger("pytensor.configdefaults").setLevel(logging.CRITICAL)
logging.getLogger("pytensor.tensor.blas").setLevel(logging.CRITICAL)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import pytensor  # noqa: E402
import pytensor.tensor as pt  # noqa: E402
import exoplanet as xo  # noqa: E402

warnings.filterwarnings("ignore")

if not os.path.abspath(xo.__file__).startswith(os.path.abspath(SRC)):
    raise RuntimeError("not the tree under test: " + xo.__file__)

np.seterr(all="ignore")
