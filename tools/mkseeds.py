"""Makes /verif/seeded from the list of planted bugs in tools/seeds.py, and checks each one.

    mkseeds.py [ID...]      write and confirm (patch applies, build and stable tests pass, demo 0 / non-0)
    mkseeds.py --run [ID...] run the property's quick check against each planted bug

Everything happens in scratch copies of /repo under a temporary directory; VERIF_REPO points the checks there.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd at the repository, after the build
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
SETUP = '''"""Puts the working directory's lsst.skymap on the path, over stand-ins for lsst.geom and lsst.afw."""
import math
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "standins"),
                os.path.join(os.getcwd(), "python")]
_version = types.ModuleType("lsst.skymap.version")
_version.__version__ = "demo"
_version.__all__ = ("__version__",)
sys.modules["lsst.skymap.version"] = _version

import lsst.geom as geom  # noqa: E402
import lsst.skymap as skymap  # noqa: E402
from lsst.skymap.ringsSkyMap import RingsSkyMap  # noqa: E402
from lsst.skymap.discreteSkyMap import DiscreteSkyMap  # noqa: E402
from lsst.skymap.dodecaSkyMap import DodecaSkyMap  # noqa: E402
from lsst.skymap.equatSkyMap import EquatSkyMap  # noqa: E402
from lsst.skymap.healpixSkyMap import HealpixSkyMap  # noqa: E402

CLASSES = dict(rings=RingsSkyMap, discrete=DiscreteSkyMap, dodeca=DodecaSkyMap, equat=EquatSkyMap,
               healpix=HealpixSkyMap)


def make(kind, version=None, cells=None, legacy=None, **fields):
    config = CLASSES[kind].ConfigClass()
    for name, value in fields.items():
        setattr(config, name, value)
    if cells:
        config.tractBuilder = "cells"
        for name, value in cells.items():
            setattr(config.tractBuilder["cells"], name, value)
    if legacy:
        config.tractBuilder["legacy"].patchInnerDimensions = list(legacy[0])
        config.tractBuilder["legacy"].patchBorder = legacy[1]
    return CLASSES[kind](config) if version is None else CLASSES[kind](config, version=version)


def sky(ra, dec):
    return geom.SpherePoint(ra, dec, geom.degrees)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copyRepo(where):
    sh(["cp", "-a", "/repo", where], check=True)
    return where


def applyEdits(tree, seed):
    for path, old, new in seed["edits"]:
        full = os.path.join(tree, "" if path.startswith("doc/") else "python/lsst/skymap", path)
        with open(full) as f:
            text = f.read()
        n = seed.get("count", 1)
        assert text.count(old) == n, (seed["id"], path, text.count(old), old)
        with open(full, "w") as f:
            f.write(text.replace(old, new))


def make(seed):
    out = os.path.join(VERIF, "seeded", seed["id"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = copyRepo(os.path.join(tmp, "repo"))
        applyEdits(tree, seed)
        diff = sh(["git", "-C", tree, "diff"]).stdout
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        with open(out + "/patch.diff", "w") as f:
            f.write(diff)
        with open(out + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/setup_demo.py", "w") as f:
            f.write(SETUP)
        with open(out + "/demo.py", "w") as f:
            f.write('"""%s"""\nfrom setup_demo import *  # noqa\n\n%s\n' % (
                seed["what"].replace('"""', "'"), seed["demo"].strip()))
        shutil.copytree(VERIF + "/standins", out + "/standins",
                        ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=seed["property"], needs=seed["needs"], what_it_breaks=seed["what"]), f,
                      indent=1)
            f.write("\n")
        # The demo from elsewhere, as it will be run.
        away = os.path.join(tmp, "demo")
        shutil.copytree(out, away)
        for name in ("patch.diff", "meta.json"):
            os.remove(os.path.join(away, name))
        clean = sh(["bash", away + "/demo.sh"], cwd="/repo")
        broken = sh(["bash", away + "/demo.sh"], cwd=tree)
        env = dict(os.environ, PYTHONPATH=tree + "/python:" + tree + "/tests:/opt/vp/support",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        tests = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "skymap_no_init",
                    "tests/test_packers.py"], cwd=tree, env=env)
        applies = sh(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
        ok = (clean.returncode == 0 and broken.returncode != 0 and tests.returncode == 0
              and applies.returncode == 0)
        return seed["id"], ok, (clean.returncode, clean.stdout[-600:], broken.returncode, broken.stdout[-300:],
                                tests.returncode, tests.stdout[-300:], applies.stdout)
    finally:
        shutil.rmtree(tmp)


def run(seed, extra=()):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = copyRepo(os.path.join(tmp, "repo"))
        applyEdits(tree, seed)
        env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                   VERIF_EVIDENCE=tmp + "/evidence", VERIF_REPLAYS=tmp + "/replays")
        r = sh([PY, VERIF + "/run.py", seed["property"]], cwd=VERIF, env=env)
        return seed["id"], r.returncode, [x for x in r.stdout.splitlines() if "VIOLATION" in x], r.stdout[-1500:]
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    doRun = "--run" in args
    ids = [a for a in args if not a.startswith("--")]
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    bad = 0
    if not doRun:
        with ThreadPoolExecutor(8) as pool:
            for sid, ok, detail in pool.map(make, todo):
                print(sid, "ok" if ok else "BAD %r" % (detail,), flush=True)
                bad += not ok
    else:
        with ThreadPoolExecutor(4) as pool:
            for sid, code, lines, out in pool.map(run, todo):
                print(sid, "caught" if code == 1 and lines else "MISSED (exit %d)\n%s" % (code, out), flush=True)
                bad += not (code == 1 and lines)
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()
