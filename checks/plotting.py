"""The script that plots visits over a sky map, loaded over stand-ins for matplotlib and lsst.afw.cameraGeom that
record what is drawn, and a made-up data repository for it."""
import contextlib
import importlib.machinery
import importlib.util
import io
import logging
import math
import os
import re
import sys
import types
from unittest import mock

import numpy as np

from vlib import env, maps
from vlib.harness import HarnessError, check

PATH = os.path.join(env.REPO, "doc", "_static", "skymap", "showVisitSkyMap.py")
_script = _code = None


class Recorder:
    """What was drawn since the last clear()."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.polygons, self.texts, self.saved, self.shown = [], [], [], 0
        self.legends, self.ticks, self.tickLabels = [], None, None
        self.xlim = self.ylim = self.title = None


drawn = Recorder()


def limits(old, a, b):
    if a is not None and b is None and isinstance(a, (tuple, list)):
        a, b = a
    old = old or (None, None)
    return tuple(float(v) if v is not None else w for v, w in zip((a, b), old))


class Axes(mock.MagicMock):
    def fill(self, x, y, *args, **kwargs):
        drawn.polygons.append((tuple(float(v) for v in x), tuple(float(v) for v in y), kwargs))

    def text(self, x, y, s, *args, **kwargs):
        drawn.texts.append((float(x), float(y), str(s)))

    def set_xlim(self, left=None, right=None, *args, xmin=None, xmax=None, **kwargs):
        drawn.xlim = limits(drawn.xlim, left if left is not None else xmin, right if right is not None else xmax)
        return drawn.xlim

    def set_ylim(self, bottom=None, top=None, *args, ymin=None, ymax=None, **kwargs):
        drawn.ylim = limits(drawn.ylim, bottom if bottom is not None else ymin, top if top is not None else ymax)
        return drawn.ylim

    def get_xlim(self):
        return drawn.xlim

    def get_ylim(self):
        return drawn.ylim

    def axis(self, values=None, **kwargs):
        if values is not None and not isinstance(values, (str, bool)):
            drawn.xlim, drawn.ylim = tuple(values[:2]), tuple(values[2:])

    def set(self, **kwargs):
        for k, v in kwargs.items():
            getattr(self, "set_" + k)(v)

    def set_title(self, title, *args, **kwargs):
        drawn.title = title


class Figure(mock.MagicMock):
    def savefig(self, name, *args, **kwargs):
        drawn.saved.append((name, kwargs))

    def show(self, *args, **kwargs):
        drawn.shown += 1

    def gca(self, *args, **kwargs):
        return self.theAxes


class ColourMap:
    """A colour map of n colours: colour k is ("colour", k)."""

    def __init__(self, n=256):
        self.N = n

    def resampled(self, n):
        return ColourMap(n)

    def __call__(self, k, *args, **kwargs):
        return ("colour", int(k) if isinstance(k, (int, np.integer)) else int(float(k)*(self.N - 1) + 0.5))


class ColourMaps(dict):
    def __missing__(self, name):
        return ColourMap()


class Colorbar(mock.MagicMock):
    def set_ticks(self, ticks, labels=None, **kwargs):
        drawn.ticks = [float(t) for t in ticks]
        if labels is not None:
            drawn.tickLabels = [str(t) for t in labels]

    def set_ticklabels(self, labels, **kwargs):
        drawn.tickLabels = [str(t) for t in labels]


def legend(parent=None, handles=(), labels=(), **kwargs):
    drawn.legends.append((kwargs.get("title"), [str(t) for t in labels]))
    return mock.MagicMock()


def _modules():
    def module(name, **attrs):
        m = mock.MagicMock(name=name)
        m.__name__, m.__path__, m.__spec__ = name, [], importlib.machinery.ModuleSpec(name, None)
        for k, v in attrs.items():
            setattr(m, k, v)
        return m
    axes, figure = Axes(), Figure()
    figure.theAxes, axes.figure = axes, figure
    pyplot = module("matplotlib.pyplot", fill=axes.fill, text=axes.text, gca=lambda *a, **k: axes, gcf=lambda *a, **k: figure,
                    xlim=axes.set_xlim, ylim=axes.set_ylim, axis=axes.axis, title=axes.set_title, savefig=figure.savefig, show=figure.show,
                    subplots=lambda *a, **k: (figure, axes))
    cameraGeom = types.ModuleType("lsst.afw.cameraGeom")
    cameraGeom.FIELD_ANGLE, cameraGeom.FOCAL_PLANE = "field angle", "focal plane"
    cameraGeom.DetectorType = types.SimpleNamespace(SCIENCE="science", GUIDER="guider", WAVEFRONT="wavefront", FOCUS="focus")
    makeColorbar = lambda *a, **k: Colorbar()  # noqa: E731
    figure.colorbar = pyplot.colorbar = makeColorbar
    colorbar = module("matplotlib.colorbar", make_axes=lambda *a, **k: (mock.MagicMock(), {}), ColorbarBase=makeColorbar,
                      Colorbar=makeColorbar)
    pyplot.get_cmap = lambda name=None, lut=None: ColourMap(lut or 256)
    return {"matplotlib": module("matplotlib", pyplot=pyplot, colorbar=colorbar, colormaps=ColourMaps()), "matplotlib.pyplot": pyplot,
            "matplotlib.colorbar": colorbar, "matplotlib.patheffects": module("matplotlib.patheffects"),
            "matplotlib.patches": module("matplotlib.patches"), "matplotlib.colors": module("matplotlib.colors"),
            "matplotlib.legend": module("matplotlib.legend", Legend=legend), "lsst.afw.cameraGeom": cameraGeom}


def script():
    """The module (loaded once)."""
    global _script
    if _script is None:
        import lsst.afw.geom  # noqa: F401
        import lsst.daf.butler  # noqa: F401
        for name, m in _modules().items():
            sys.modules[name] = m
        sys.modules["lsst.afw"].cameraGeom = sys.modules["lsst.afw.cameraGeom"]
        spec = importlib.util.spec_from_file_location("verif_showVisitSkyMap", PATH)
        _script = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_script)
    return _script


def command(butler, arguments):
    """The script run as a program, with a made-up butler."""
    global _code
    script()
    if _code is None:
        with open(PATH) as f:
            _code = compile(f.read(), PATH, "exec")
    import lsst.daf.butler
    with mock.patch.object(lsst.daf.butler, "Butler", butler), mock.patch.object(sys, "argv", ["showVisitSkyMap.py"] + arguments), \
            mock.patch.object(logging, "basicConfig", lambda *a, **k: None), contextlib.redirect_stderr(io.StringIO()):
        exec(_code, {"__name__": "__main__", "__file__": PATH, "__builtins__": __builtins__})


class Log(logging.Handler):
    """Formats every message, so that one that cannot be formatted is noticed."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))


def parseWhere(where):
    """The clauses of a query, as {name: set of values}; any order.  None if it is not of that form."""
    tokens = re.findall(r"'[^']*'|-?\d+|\w+|[=(),]|\S", where)
    out = {}
    k = 0

    def value(t):
        if t.startswith("'") and len(t) > 1:
            return t[1:-1]
        return int(t) if re.fullmatch(r"-?\d+", t) else None
    while k < len(tokens):
        name, op, rest = tokens[k], tokens[k + 1:k + 2], tokens[k + 2:]
        if op == ["="] and rest:
            values = {value(rest[0])}
            k += 3
        elif op and op[0].upper() == "IN" and rest[:1] == ["("] and ")" in rest:
            inside = rest[1:rest.index(")")]
            if inside[1::2] != [","]*(len(inside)//2) or len(inside) % 2 == 0:
                return None
            values = {value(t) for t in inside[0::2]}
            k += 3 + len(inside) + 1
        else:
            return None
        if None in values or not re.fullmatch(r"[A-Za-z_]\w*", name):
            return None
        out[name] = out[name] & values if name in out else values
        if k < len(tokens):
            if tokens[k].upper() != "AND" or k + 1 == len(tokens):
                return None
            k += 1
    return out


class Row(dict):
    pass


class Summary:
    def __init__(self, rows, band, physical):
        self.rows = rows
        self.first = {"band": band, "physical_filter": physical}

    def find(self, ident):
        return self.rows.get(ident)

    def __getitem__(self, i):
        return self.first


class Detector:
    def __init__(self, ident, kind):
        self.ident, self.kind = ident, kind

    def getId(self):
        return self.ident

    def getType(self):
        return self.kind

    def getBBox(self):
        return maps.geom.Box2I(maps.geom.Point2I(0, 0), maps.geom.Extent2I(400, 300))


class Camera:
    def __init__(self, detectors):
        self.detectors = detectors

    def __iter__(self):
        return iter(self.detectors)

    def __len__(self):
        return len(self.detectors)

    def __getitem__(self, ident):
        return next(d for d in self.detectors if d.ident == ident)

    def computeMaxFocalPlaneRadius(self):
        return 100.0

    def getTransformMap(self):
        # 0.5 degrees at the edge of the focal plane
        forward = types.SimpleNamespace(applyForward=lambda p: maps.geom.Point2D(math.radians(0.5), math.radians(0.5)))
        return types.SimpleNamespace(getTransform=lambda a, b: forward)


class FakeButler:
    """A repository of visits: see C38 for the world it is made from."""

    def __init__(self, world):
        self.world = world
        self.registry = self
        self.collections = None

    def from_config(self, repo, collections=None, **kwargs):
        self.collections = collections
        return self

    def find_dataset(self, name, *args, **kwargs):
        return types.SimpleNamespace(dataId={"instrument": self.world["instrument"]}) if self.world["instrument"] else None

    def get(self, name, dataId=None, **kwargs):
        dataId = dict(dataId or {}, **kwargs)
        w = self.world
        if name == "camera":
            return w["camera"]
        if name == "skyMap":
            if dataId.get("skymap") != w["skymapName"]:
                raise LookupError("no sky map %r" % dataId.get("skymap"))
            return w["map"]
        if (name, dataId.get("visit")) in w["summaries"]:
            return w["summaries"][name, dataId["visit"]]
        key = (name.partition(".")[0], dataId.get("visit"), dataId.get(w["ccdKey"]))
        if name.endswith(".wcs") and key in w["images"]:
            return w["images"][key][0]
        if name.endswith(".bbox") and key in w["images"]:
            return w["images"][key][1]
        raise LookupError("no %s %s" % (name, dataId))

    def queryDatasets(self, name, where="", **kwargs):
        clauses = parseWhere(where)
        if clauses is None and isinstance(where, str):
            # Two conditions with nothing between them are no query at all.
            found = re.search(r"(?i)(\)|'[^']*')\s*(?!and\b|or\b|not\b|in\b)[a-z_]\w*\s*(=|\bin\b)", where)
            check(not found, "the query %r is not well formed at %r", where, found and found.group(0))
        if clauses is None or kwargs:
            raise HarnessError("a query the made-up repository cannot answer: %r %s" % (where, kwargs))
        refs = []
        for kind, row in self.world["datasets"]:
            if kind == name and all(_matches(row, k, v) for k, v in clauses.items()):
                refs.append(types.SimpleNamespace(dataId=DataId(row)))
        return Refs(refs)

    def queryDimensionRecords(self, name, visit=None, **kwargs):
        row = next(r for _, r in self.world["datasets"] if r["visit"] == visit)
        return [types.SimpleNamespace(name=row[name])]


class Refs(list):
    def expanded(self):
        return self


class DataId(dict):
    @property
    def visit(self):
        return types.SimpleNamespace(id=self["visit"])


def _matches(row, name, values):
    if name not in row:
        raise HarnessError("a query on %r" % name)
    return bool(row[name] & values) if isinstance(row[name], set) else row[name] in values


@contextlib.contextmanager
def quiet():
    """The script's log, and its standard output thrown away."""
    log = Log()
    logger = script().logger
    logger.handlers, logger.propagate = [log], False
    logger.setLevel(logging.DEBUG)
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield log
    finally:
        logging.disable(disabled)
        logger.handlers = []
