"""Builds the sky maps of the tree under test from JSON specs, through public names only."""
import math

from . import env

env.load()

import lsst.afw.geom as afwGeom  # noqa: E402
import lsst.geom as geom  # noqa: E402
import lsst.sphgeom as sphgeom  # noqa: E402
import lsst.skymap as skymap  # noqa: E402
from lsst.skymap.ringsSkyMap import RingsSkyMap  # noqa: E402
from lsst.skymap.discreteSkyMap import DiscreteSkyMap  # noqa: E402
from lsst.skymap.dodecaSkyMap import DodecaSkyMap  # noqa: E402
from lsst.skymap.equatSkyMap import EquatSkyMap  # noqa: E402
from lsst.skymap.healpixSkyMap import HealpixSkyMap  # noqa: E402
from lsst.skymap import Index2D  # noqa: E402

CLASSES = dict(rings=RingsSkyMap, discrete=DiscreteSkyMap, dodeca=DodecaSkyMap, equat=EquatSkyMap,
               healpix=HealpixSkyMap)
CACHING = ("rings", "discrete", "healpix")
DEG = math.pi/180.0

EXTRA_FIELDS = dict(rings=("numRings", "raStart"), discrete=("raList", "decList", "radiusList"),
                    dodeca=("withTractsOnPoles",), equat=("numTracts", "decRange"),
                    healpix=("log2NSide", "nest"))


def makeConfig(spec):
    config = CLASSES[spec["kind"]].ConfigClass()
    for name in ("tractOverlap", "pixelScale", "projection", "rotation"):
        if name in spec:
            setattr(config, name, spec[name])
    b = spec.get("builder")
    if b is not None:
        config.tractBuilder = b["name"]
        sub = config.tractBuilder[b["name"]]
        assert set(b) <= {"name", "inner", "border", "cell", "cellBorder", "perPatch", "inBorder"}, b
        if b["name"] == "legacy":
            values = dict(patchInnerDimensions=b.get("inner"), patchBorder=b.get("border"))
        else:
            values = dict(cellInnerDimensions=[b["cell"], b["cell"]] if "cell" in b else None, cellBorder=b.get("cellBorder"),
                          numCellsPerPatchInner=b.get("perPatch"), numCellsInPatchBorder=b.get("inBorder"))
        for name, value in values.items():
            if value is not None:
                setattr(sub, name, list(value) if isinstance(value, list) else value)
    for name in EXTRA_FIELDS[spec["kind"]]:
        if name in spec:
            setattr(config, name, spec[name])
    return config


def build(spec):
    cls = CLASSES[spec["kind"]]
    config = makeConfig(spec)
    if spec.get("version") is not None:
        v = spec["version"]
        return cls(config, version=tuple(v) if isinstance(v, list) else v)
    return cls(config)


def sky(lon, lat):
    """SpherePoint from radians."""
    return geom.SpherePoint(lon, max(-0.5*math.pi, min(0.5*math.pi, lat)), geom.radians)


def skyDeg(lon, lat):
    return geom.SpherePoint(lon, lat, geom.degrees)


def lonlat(p):
    return p.getLongitude().asRadians(), p.getLatitude().asRadians()


def xyz(p):
    lon, lat = lonlat(p)
    c = math.cos(lat)
    return (c*math.cos(lon), c*math.sin(lon), math.sin(lat))


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])


def angsep(a, b):
    """Separation (radians) of two unit vectors."""
    c = cross(a, b)
    return math.atan2(math.sqrt(dot(c, c)), dot(a, b))


def patchDims(builder):
    if builder["name"] == "legacy":
        return tuple(builder["inner"])
    n = builder["cell"]*builder["perPatch"]
    return (n, n)


def patchBorder(builder):
    if builder["name"] == "legacy":
        return builder["border"]
    return builder["inBorder"]*builder["cell"] + builder["cellBorder"]


def boxTuple(box):
    """(x0, y0, x1, y1), half open."""
    return (box.getMinX(), box.getMinY(), box.getMinX() + box.getWidth(), box.getMinY() + box.getHeight())
