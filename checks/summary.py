"""Plain-data descriptions of maps, tracts, patches and cells, for comparing them."""
import math

from vlib import maps


def point(p):
    return tuple(float(v) for v in p)


def coord(p):
    return tuple("nan" if math.isnan(v) else v for v in maps.lonlat(p))


def cell(c):
    return (tuple(c.getIndex()), c.getSequentialIndex(), maps.boxTuple(c.getInnerBBox()),
            maps.boxTuple(c.getOuterBBox()))


def patch(p, deep=True):
    out = (tuple(p.getIndex()), p.getSequentialIndex(), maps.boxTuple(p.getInnerBBox()),
           maps.boxTuple(p.getOuterBBox()), tuple(p.getNumCells()), p.getCellBorder(),
           tuple(p.getCellInnerDimensions()))
    if deep and len(p):
        out += (cell(p[0]), cell(p[len(p) - 1]), cell(p[len(p)//2]))
    return out


def wcs(w, box):
    """Where a few pixels are on the sky."""
    out = []
    for fx, fy in ((0.5, 0.5), (0.45, 0.52), (0.51, 0.44)):
        p = w.pixelToSky(maps.geom.Point2D(fx*(box[0] + box[2]), fy*(box[1] + box[3])))
        out.append(coord(p))
    return tuple(out)


def tract(t, deep=True):
    box = maps.boxTuple(t.getBBox())
    n = len(t)
    out = (t.getId(), box, tuple(t.getNumPatches()), coord(t.getCtrCoord()), t.getPatchBorder(),
           tuple(t.getPatchInnerDimensions()), t.getTractOverlap().asRadians(), wcs(t.getWcs(), box),
           tuple(coord(v) for v in t.getVertexList()), str(t), len(t))
    if deep:
        out += (patch(t[0]), patch(t[n - 1]), patch(t[n//2]))
    return out
