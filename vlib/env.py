"""Makes lsst.skymap importable from the tree under test, over the stand-ins.

VERIF_REPO (default /repo) is the tree; the registered checks never set it.
"""
import os
import sys
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SKYMAP_DIR = os.path.join(REPO, "python", "lsst", "skymap")
STANDINS = os.path.join(VERIF, "standins")
HYPOTHESIS_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent/verif-hypothesis")
    sys.pycache_prefix = "/nonexistent/verif-pycache"  # never read a stale .pyc of the tree
    warnings.simplefilter("ignore")
    sys.path.insert(0, STANDINS)
    sys.path.insert(0, os.path.join(REPO, "python"))
    if HYPOTHESIS_DIR not in sys.path:
        sys.path.append(HYPOTHESIS_DIR)
    version = types.ModuleType("lsst.skymap.version")  # written by the LSST build, not in git
    version.__version__ = "verif"
    version.__all__ = ("__version__",)
    sys.modules["lsst.skymap.version"] = version


def load():
    """Import the tree's lsst.skymap (all of it) and return the package."""
    setup()
    import lsst.skymap
    import lsst.skymap.ringsSkyMap
    import lsst.skymap.healpixSkyMap
    import lsst.skymap.cachingSkyMap
    import lsst.skymap.detail
    assert os.path.dirname(os.path.abspath(lsst.skymap.__file__)) == SKYMAP_DIR, lsst.skymap.__file__
    return lsst.skymap
