"""Process set-up: environment, import paths, and the code under test.

Importing this module makes `hypothesis` importable and imports `matrix` from the
working tree of `/repo` (never from an installed copy).
"""

import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

# The code under test comes first, the tools' site-packages come last: NumPy, LAB, and
# Plum must be those of the project's environment.
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

try:
    import hypothesis  # noqa
except ImportError:
    _tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(_tools)
    import hypothesis  # noqa

# `matrix/_version.py` is git-ignored and generated by the build. Its contents do not
# matter here.
if not os.path.exists(os.path.join(REPO, "matrix", "_version.py")):
    _m = types.ModuleType("matrix._version")
    _m.version = "0.0.0"
    sys.modules["matrix._version"] = _m

import warnings  # noqa

import numpy as np  # noqa

warnings.simplefilter("ignore")
_show = warnings.showwarning
warnings.showwarning = lambda *a, **k: None


def _cheap_stack():
    """Replace `inspect.stack` inside `wbml.warning`: it reads source files for every
    frame, which costs milliseconds per warning. Only `frame_info.frame` is used."""

    import inspect as _inspect

    class _FI:
        __slots__ = ("frame",)

        def __init__(self, frame):
            self.frame = frame

    def stack(context=1):
        f = sys._getframe(1)
        out = []
        while f is not None:
            out.append(_FI(f))
            f = f.f_back
        return out

    shim = types.ModuleType("inspect_shim")
    shim.__dict__.update(_inspect.__dict__)
    shim.stack = stack
    import wbml.warning as w

    w.inspect = shim


_cheap_stack()

import lab as B  # noqa
import matrix  # noqa

_where = os.path.realpath(matrix.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError(f"`matrix` was imported from {_where}, not from {REPO}.")

from matrix.util import ToDenseWarning  # noqa

warnings.showwarning = _show
warnings.simplefilter("ignore")
np.seterr(all="ignore")

from hypothesis.configuration import set_hypothesis_home_dir  # noqa

set_hypothesis_home_dir(os.path.join(VERIF, "evidence", ".hypothesis"))
