import importlib
import math
import os
import sys

from hypothesis import strategies as st

from vlib import env, gen, maps
from vlib.harness import HarnessError, Outcome, check
from . import tracts

ID = "C39"
TITLE = "A configuration gives the same pixel grids as in the release that registered it"
RULE = ("A map of any kind, of generated sizes or of the kind surveys register (120 rings of 4000-pixel patches, cells, and so "
        "on), made by the tree and by a frozen copy of the pinned release (reference/): number of tracts, SHA-1, pixel boxes, "
        "where pixels are on the sky, centres, vertices, patches, cells and the tracts positions are found in must be the same. "
        "A tract whose box in the copy changes with the pixel scale by 3 parts in 10^10 (or the overlap by 10^-7 pixel) is left "
        "out, as is a position within 10^-9 rad of another tract. Non-trivial: a tract was compared and three settings or more "
        "are not the default ones.")
QUICK, THOROUGH = 4000, 150000
TECHNIQUE = ("property-based testing (Hypothesis): differential against a frozen copy of the pinned release, with shrinking to a "
             "replay file")
_pinned = None


def prepare():
    pinned()


def pinned():
    """The classes of the frozen copy, by kind of map."""
    global _pinned
    if _pinned is None:
        sys.path.append(os.path.join(env.VERIF, "reference"))
        names = dict(rings="RingsSkyMap", discrete="DiscreteSkyMap", dodeca="DodecaSkyMap", equat="EquatSkyMap",
                     healpix="HealpixSkyMap")
        _pinned = {}
        for kind, name in names.items():
            module = importlib.import_module("skymap_pinned.%sSkyMap" % kind)
            if env.SKYMAP_DIR in os.path.abspath(module.__file__):
                raise HarnessError("the frozen copy is the tree")
            _pinned[kind] = getattr(module, name)
    return _pinned


def reference(spec, scale=1.0, moreOverlap=0.0):
    cls = pinned()[spec["kind"]]
    changed = dict(spec)
    # made as the tree's is, but of the copy's classes
    real = maps.CLASSES
    maps.CLASSES = dict(real, **{spec["kind"]: cls})
    try:
        defaults = cls.ConfigClass()
        px = changed.get("pixelScale", defaults.pixelScale)
        if scale != 1.0:
            changed["pixelScale"] = px*scale
        if moreOverlap:
            changed["tractOverlap"] = changed.get("tractOverlap", defaults.tractOverlap) + moreOverlap*px/3600
        return maps.build(changed)
    finally:
        maps.CLASSES = real


SURVEYS = [
    dict(kind="rings", numRings=120, raStart=0.0, projection="TAN", tractOverlap=1/60, pixelScale=0.168, version=0,
         builder=dict(name="legacy", inner=[4000, 4000], border=100)),
    dict(kind="rings", numRings=120, raStart=0.0, projection="TAN", tractOverlap=1/60, pixelScale=0.2, version=1,
         builder=dict(name="legacy", inner=[4000, 4000], border=100)),
    dict(kind="rings", numRings=120, projection="TAN", tractOverlap=1/60, pixelScale=0.2, version=1,
         builder=dict(name="cells", cell=150, cellBorder=50, perPatch=20, inBorder=1)),
    dict(kind="rings", numRings=40, raStart=0.0, projection="TAN", tractOverlap=1/60, pixelScale=0.334, version=0,
         builder=dict(name="legacy", inner=[4000, 4000], border=100)),
    dict(kind="discrete", raList=[56.65, 215.0], decList=[-36.45, 53.0], radiusList=[1.7, 0.3], tractOverlap=0.0, pixelScale=0.2,
         projection="TAN", builder=dict(name="legacy", inner=[4000, 4000], border=100)),
    dict(kind="healpix", log2NSide=5, nest=True, pixelScale=0.2, builder=dict(name="cells", cell=150, cellBorder=50, perPatch=20,
                                                                               inBorder=1)),
    dict(kind="dodeca"), dict(kind="equat"), dict(kind="healpix"), dict(kind="rings", numRings=3),
]


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        spec = dict(draw(st.sampled_from(SURVEYS)))
        if draw(st.integers(0, 2)) == 0 and spec["kind"] == "rings":
            spec["raStart"] = draw(gen.raStarts)
        if draw(st.integers(0, 3)) == 0:
            spec["rotation"] = draw(gen.rotations)
    else:
        kw = dict(npix=st.one_of(gen.pixels(hi=3000), gen.pixels(hi=60000)), rotation=gen.rotations)
        spec = draw(gen.anyMap(**kw))
        if spec["kind"] == "rings":
            spec["version"] = draw(st.sampled_from([0, 1, 1]))
        if draw(st.integers(0, 5)) == 0:
            spec = draw(gen.sparse(spec))
    f = gen.frac()
    return dict(spec=spec, tracts=draw(st.lists(f, min_size=1, max_size=3)), patches=draw(st.lists(f, min_size=1, max_size=3)),
                cells=draw(st.lists(f, min_size=1, max_size=2)),
                spots=draw(st.lists(st.tuples(gen.floats(-0.1, 1.1), gen.floats(-0.1, 1.1)).map(list), min_size=1, max_size=3)),
                points=draw(st.lists(gen.skyPoint(), max_size=3)))


strategy = cases


def onSky(wcs, xy):
    try:
        v = maps.xyz(wcs.pixelToSky(maps.geom.Point2D(*xy)))
    except Exception:
        return None
    return v if finite(v) else None


def finite(v):
    return all(math.isfinite(c) for c in v)


def near(a, b, tol, *what):
    check(a is not None and maps.angsep(a, b) < tol, *what)


def compareTract(spec, i, a, b, case):
    check(a.getId() == b.getId(), "tract %d has id %s; it was %s", i, a.getId(), b.getId())
    box = maps.boxTuple(b.getBBox())
    if maps.boxTuple(a.getBBox()) != box or tuple(a.getNumPatches()) != tuple(b.getNumPatches()):
        for kw in (dict(scale=1 + 3e-10), dict(scale=1 - 3e-10), dict(moreOverlap=1e-7), dict(moreOverlap=-1e-7)):
            try:
                c = reference(spec, **kw)[i]
            except Exception:  # an overlap below 0
                continue
            if maps.boxTuple(c.getBBox()) != box:
                return False
        check(False, "tract %d has the pixels %s, %s patches; it had %s, %s", i, maps.boxTuple(a.getBBox()), tuple(a.getNumPatches()), box,
              tuple(b.getNumPatches()))
    wa, wb = a.getWcs(), b.getWcs()
    px = wb.getPixelScale().asRadians()
    w, h = box[2] - box[0], box[3] - box[1]
    for fx, fy in [(0, 0), (1, 0), (0, 1), (0.5, 0.5)] + case["spots"]:
        xy = (box[0] + fx*w, box[1] + fy*h)
        p = onSky(wb, xy)
        beside = [onSky(wb, (xy[0] + d, xy[1] + e)) for d, e in ((1, 1), (1, -1), (-1, 1), (-1, -1))]
        if p is None or None in beside:
            continue
        q = onSky(wa, xy)
        near(q, p, 1e-6*max([px] + [maps.angsep(p, v) for v in beside]) + 1e-11, "tract %d: pixel %s is at %s; it was at %s", i, xy, q, p)
    p, q = maps.xyz(b.getCtrCoord()), maps.xyz(a.getCtrCoord())
    near(q, p, 1e-11, "tract %d is centred on %s; it was on %s", i, a.getCtrCoord(), b.getCtrCoord())
    va, vb = [[maps.xyz(v) for v in t.getVertexList()] for t in (a, b)]
    check(len(va) == len(vb) and all(any(maps.angsep(v, x) < 1e-7 for x in va) for v in vb if finite(v)), "tract %d has the vertices %s; they were %s",
          i, a.getVertexList(), b.getVertexList())
    check(abs(a.getTractOverlap().asRadians() - b.getTractOverlap().asRadians()) < 1e-12, "tract %d has another overlap", i)
    n = len(b)
    check(len(a) == n, "tract %d has %d patches; it had %d", i, len(a), n)
    for k in tracts.choose(n, case["patches"]):
        pa, pb = a[k], b[k]
        got, want = [(tuple(p.getIndex()), p.getSequentialIndex(), maps.boxTuple(p.getInnerBBox()), maps.boxTuple(p.getOuterBBox()),
                      tuple(p.getNumCells()), p.getCellBorder(), tuple(p.getCellInnerDimensions())) for p in (pa, pb)]
        check(got == want, "tract %d, patch %d is %s; it was %s", i, k, got, want)
        m = len(pb)
        for j in tracts.choose(m, case["cells"]) if m else ():
            got, want = [(tuple(c.getIndex()), c.getSequentialIndex(), maps.boxTuple(c.getInnerBBox()), maps.boxTuple(c.getOuterBBox()))
                         for c in (pa[j], pb[j])]
            check(got == want, "tract %d, patch %d, cell %d is %s; it was %s", i, k, j, got, want)
    return True


def around(lon, lat):
    e = 1e-9
    out = [(lon, lat)]
    for d in ((e, 0), (-e, 0), (0, e), (0, -e)):
        out.append(((lon + d[0]/max(1e-3, math.cos(lat))) % (2*math.pi), max(-math.pi/2, min(math.pi/2, lat + d[1]))))
    return out


def run(case):
    spec = case["spec"]
    a, b = maps.build(spec), reference(spec)
    check(type(a).__name__ == type(b).__name__ and len(a) == len(b), "the map has %d tracts; it had %d", len(a), len(b))
    check(a.getSha1() == b.getSha1(), "the map has the SHA-1 %s; it had %s", a.getSha1().hex(), b.getSha1().hex())
    compared = 0
    points = [list(p) for p in case["points"]]
    for i in tracts.choose(len(b), case["tracts"]):
        compared += compareTract(spec, i, a[i], b[i], case)
        box = maps.boxTuple(b[i].getBBox())
        fx, fy = case["spots"][0]
        if len(points) < 6:
            p = onSky(b[i].getWcs(), (box[0] + fx*(box[2] - box[0]), box[1] + fy*(box[3] - box[1])))
            if p is not None:
                points.append([math.atan2(p[1], p[0]) % (2*math.pi), math.asin(max(-1, min(1, p[2])))])
    found = 0
    for lon, lat in points:
        ids = [b.findTract(maps.sky(*p)).getId() for p in around(lon, lat)]
        if len(set(ids)) > 1 or abs(abs(lat) - math.pi/2) < 1e-8:
            continue
        found += 1
        got = a.findTract(maps.sky(lon, lat)).getId()
        check(got == ids[0], "lon=%r lat=%r is found in tract %s; it was in %s", lon, lat, got, ids[0])
        got = int(a.findTractIdArray([lon], [lat])[0])
        check(got == ids[0], "lon=%r lat=%r is found in tract %s of an array; it was in %s", lon, lat, got, ids[0])
    settings = len([k for k in spec if k not in ("kind", "builder")]) + len(spec.get("builder") or ())
    return Outcome(compared and settings >= 3, ["kind=" + spec["kind"], "compared=%d" % min(compared, 3), "found=%d" % min(found, 3),
                                               "numRings>=40" if spec.get("numRings", 0) >= 40 else "generated"])
