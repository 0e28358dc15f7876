"""Process set-up: import Calkulate from the working tree under test, with no
stale byte code, no display, one BLAS thread, and a private scratch folder."""

import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    scratch = tempfile.mkdtemp(prefix="vmon_")
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    return scratch


def import_calkulate():
    import calkulate as calk

    f = os.path.realpath(calk.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"calkulate imported from {f}, not from {REPO}")
    # The submodules that users import by name
    import calkulate.convert  # noqa: F401
    import calkulate.core  # noqa: F401
    import calkulate.dataset  # noqa: F401
    import calkulate.density  # noqa: F401
    import calkulate.files  # noqa: F401
    import calkulate.interface  # noqa: F401
    import calkulate.loss  # noqa: F401
    import calkulate.plot  # noqa: F401
    import calkulate.simulate  # noqa: F401

    return calk


def cleanup(scratch):
    if os.path.basename(scratch).startswith("vmon_"):
        shutil.rmtree(scratch, ignore_errors=True)
