import math

from hypothesis import strategies as st

import lsst.sphgeom as sphgeom

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts
from .C12 import positions

ID = "C19"
TITLE = "Sky polygons are the outlines of the pixel boxes they stand for"
RULE = ("A map of any kind, a tract, a patch and a cell of it, and up to 8 positions aimed at edges: each polygon has "
        "the four box corners (half a pixel beyond the outermost pixel centres) as its vertices, and in the TAN "
        "projection, whose straight lines are great circles, contains a position exactly when the box holds its pixel "
        "position. Non-trivial: TAN, with positions both inside and outside.")
QUICK, THOROUGH = 4000, 100000
MAXHALF = math.radians(50)


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts(maxTracts=1))
    spec = case["spec"]
    if spec["kind"] != "equat" and draw(st.booleans()):
        spec["projection"] = "TAN"
        if spec["kind"] == "rings":
            r = 90.0/(spec["numRings"] + 1)
            spec["tractOverlap"] = min(spec["tractOverlap"], max(0.0, 45.0 - r))
    case["spots"] = draw(st.lists(gen.pixelSpot(), min_size=1, max_size=8))
    case["points"] = []
    case["other"] = [gen.sig(draw(gen.floats(0, 359.99))), gen.sig(draw(gen.floats(-89, 89)))]
    case["patch"] = [draw(gen.frac()), draw(gen.frac())]
    case["cell"] = draw(gen.frac())
    return case


strategy = cases


def vec(p):
    return sphgeom.UnitVector3d(*maps.xyz(p))


def outline(what, poly, box, wcs):
    b = maps.boxTuple(box)
    x0, y0, x1, y1 = b[0] - 0.5, b[1] - 0.5, b[2] - 0.5, b[3] - 0.5
    want = [maps.xyz(wcs.pixelToSky(maps.geom.Point2D(x, y))) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
    got = [(v.x(), v.y(), v.z()) for v in poly.getVertices()]
    check(len(got) == 4, "%s has %d vertices", what, len(got))
    for w in want:
        d = min(maps.angsep(w, g) for g in got)
        check(d < 1e-9, "%s of pixel box %s has no vertex within %r rad of a corner", what, b, d)


def run(case):
    spec = case["spec"]
    m, (t,) = tracts.open_(case)
    wcs = t.getWcs()
    box = maps.boxTuple(t.getBBox())
    centre = maps.xyz(t.getCtrCoord())
    nx, ny = t.getNumPatches()
    p = t[min(nx - 1, int(case["patch"][0]*nx)), min(ny - 1, int(case["patch"][1]*ny))]
    # everything looked at, patch and cell borders beyond the tract included, has to fit well inside a hemisphere
    reach = [tracts.grow(box, maps.patchBorder(spec["builder"]) + 1)]
    for b in reach:
        for x in (b[0], 0.5*(b[0] + b[2]), b[2]):
            for y in (b[1], 0.5*(b[1] + b[3]), b[3]):
                q = wcs.pixelToSky(maps.geom.Point2D(x, y))
                if not all(math.isfinite(v) for v in maps.lonlat(q)) or maps.angsep(centre, maps.xyz(q)) > MAXHALF*1.5:
                    return Outcome(False, ["too large"])
    what = [("outer polygon of tract %s" % t.getId(), t.getOuterSkyPolygon(), t.getBBox()),
            ("outer_sky_polygon of tract %s" % t.getId(), t.outer_sky_polygon, t.getBBox()),
            ("inner polygon of patch %s" % (p.getIndex(),), p.getInnerSkyPolygon(), p.getInnerBBox()),
            ("outer polygon of patch %s" % (p.getIndex(),), p.getOuterSkyPolygon(), p.getOuterBBox()),
            ("inner polygon (given the WCS) of patch %s" % (p.getIndex(),), p.getInnerSkyPolygon(wcs), p.getInnerBBox()),
            ("outer polygon (given the WCS) of patch %s" % (p.getIndex(),), p.getOuterSkyPolygon(tractWcs=wcs),
             p.getOuterBBox()),
            ("inner_sky_polygon of patch %s" % (p.getIndex(),), p.inner_sky_polygon, p.getInnerBBox()),
            ("outer_sky_polygon of patch %s" % (p.getIndex(),), p.outer_sky_polygon, p.getOuterBBox())]
    if len(p):
        c = p[min(len(p) - 1, int(case["cell"]*len(p)))]
        name = "cell %s of patch %s" % (c.getIndex(), p.getIndex())
        what += [("inner polygon of " + name, c.getInnerSkyPolygon(), c.getInnerBBox()),
                 ("outer polygon of " + name, c.getOuterSkyPolygon(), c.getOuterBBox()),
                 ("inner polygon (given the WCS) of " + name, c.getInnerSkyPolygon(tractWcs=wcs), c.getInnerBBox()),
                 ("outer polygon (given the WCS) of " + name, c.getOuterSkyPolygon(tractWcs=wcs), c.getOuterBBox()),
                 ("inner_sky_polygon of " + name, c.inner_sky_polygon, c.getInnerBBox()),
                 ("outer_sky_polygon of " + name, c.outer_sky_polygon, c.getOuterBBox())]
    for args in what:
        outline(*args, wcs)
    # a WCS that is given is the one used, even where it is not the tract's own
    b = reach[0]
    size = max(b[2] - b[0], b[3] - b[1])
    other = maps.afwGeom.makeSkyWcs(maps.geom.Point2D(0.5*(b[0] + b[2]), 0.5*(b[1] + b[3])),
                                    maps.skyDeg(*case["other"]),
                                    maps.afwGeom.makeCdMatrix(scale=maps.geom.Angle(math.radians(5.0/size))))
    for who, of in [(p, "patch %s" % (p.getIndex(),))] + ([(c, name)] if len(p) else []):
        for part in ("Inner", "Outer"):
            get, box = getattr(who, "get%sSkyPolygon" % part), getattr(who, "get%sBBox" % part)()
            outline("%s polygon (given another WCS) of %s" % (part.lower(), of), get(other), box, other)
            outline("%s polygon (with tractWcs=another WCS) of %s" % (part.lower(), of), get(tractWcs=other), box, other)
            outline("%s polygon (given another WCS before) of %s" % (part.lower(), of), get(), box, wcs)
            check(who.getWcs() == wcs, "the WCS given for the polygon of %s is its own from then on", of)
    outline("makeSkyPolygonFromBBox of tract %s" % t.getId(), maps.skymap.makeSkyPolygonFromBBox(t.getBBox(), other),
            t.getBBox(), other)
    inside = outside = 0
    if spec["projection"] == "TAN":
        for q in positions(case, t):
            x, y = wcs.skyToPixel(q)
            if not (math.isfinite(x) and math.isfinite(y)):
                continue
            for name, poly, b in what:
                b = maps.boxTuple(b)
                d = min(x - b[0] + 0.5, b[2] - 0.5 - x, y - b[1] + 0.5, b[3] - 0.5 - y)
                if abs(d) < 1e-3 or abs(d)*math.radians(spec["pixelScale"]/3600) < 1e-8:
                    continue
                got = poly.contains(vec(q))
                check(got == (d > 0), "%s of pixel box %s: contains(%s) is %s; the position is at pixel %r, %r", name,
                      b, q, got, x, y)
                inside += d > 0
                outside += d < 0
    return Outcome(inside and outside, ["kind=" + spec["kind"], "projection=" + spec["projection"]])
