"""Process set-up shared by every worker and replay.

Fixes every source of nondeterminism before numpy is imported, makes
Hypothesis importable (it is installed in the verification venv, not in the
one properimage runs in) and checks that properimage comes from /repo.
"""
import atexit
import glob
import logging
import os
import shutil
import sys
import tempfile
import zipfile

REPO = os.environ.get("VF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

SCRATCH = tempfile.mkdtemp(prefix="vf-")
_PID = os.getpid()


def _cleanup():
    if os.getpid() == _PID:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
os.environ["HOME"] = SCRATCH
os.environ["XDG_CONFIG_HOME"] = os.path.join(SCRATCH, "xdg")
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "xdg")
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY",
                      os.path.join(SCRATCH, "hypothesis"))
sys.dont_write_bytecode = True
tempfile.tempdir = os.path.join(SCRATCH, "tmp")
os.makedirs(tempfile.tempdir)
os.makedirs(os.environ["MPLCONFIGDIR"])
os.makedirs(os.environ["XDG_CONFIG_HOME"])


def _import_hypothesis():
    """Import hypothesis from the verification venv or the wheelhouse."""
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    for where in (PYVENV, None):
        if where is None:
            where = os.path.join(SCRATCH, "wheels")
            os.makedirs(where, exist_ok=True)
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl",
                        "attrs-*.whl"):
                for whl in glob.glob(os.path.join(WHEELS, pat)):
                    zipfile.ZipFile(whl).extractall(where)
        sys.path.append(where)
        try:
            import hypothesis  # noqa
            import hypothesis.strategies  # noqa
            return
        except ImportError:
            continue
        finally:
            sys.path.remove(where)
    raise ImportError("hypothesis is not available")


_import_hypothesis()

sys.path.insert(0, REPO)

import warnings  # noqa

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa

np.seterr(all="ignore")

import properimage  # noqa

if not os.path.realpath(properimage.__file__).startswith(
        os.path.realpath(REPO) + os.sep):
    raise ImportError("properimage is not imported from " + REPO)

import astroalign  # noqa

try:
    # astroalign shuffles with an unseeded generator: pin it per case
    _real_default_rng = np.random.default_rng

    class _SeededRandom:
        def __getattr__(self, name):
            return getattr(np.random, name)

        @staticmethod
        def default_rng(seed=None):
            return _real_default_rng(12345 if seed is None else seed)

    class _SeededNumpy:
        random = _SeededRandom()

        def __getattr__(self, name):
            return getattr(np, name)

    for nm in ("_np", "np", "_numpy"):
        if getattr(astroalign, nm, None) is np:
            setattr(astroalign, nm, _SeededNumpy())
except Exception:  # pragma: no cover - determinism aid only
    pass
