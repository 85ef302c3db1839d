import math

from hypothesis import strategies as st

import lsst.sphgeom as sphgeom

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts
from .ringmodel import RingModel, near

ID = "C18"
TITLE = "The inner regions of the tracts share out the sky as findTract does"
RULE = ("A rings map (both versions) or dodecahedron and up to 10 positions aimed at region edges, corners and poles: "
        "away from edges (1e-8 rad) the inner region of findTract's tract contains the position and no other tract's "
        "does; RA/Dec ranges of up to 5 tracts are those of the layout. Non-trivial: a position outside the caps.")
QUICK, THOROUGH = 3000, 80000
EDGE = 1e-8


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)):
        spec = dict(kind="rings", numRings=draw(st.one_of(st.integers(1, 8), st.integers(1, 30), st.sampled_from([120, 120, 200]))),
                    raStart=draw(gen.raStarts), tractOverlap=0.1, version=draw(st.sampled_from([1, 1, 1, 0])),
                    projection="TAN")
        if spec["numRings"] == 1:
            spec["projection"] = "STG"
        spec["pixelScale"] = gen.sig(180.0/(spec["numRings"] + 1)*3600/100)
        point = gen.ringPoint(spec)
    else:
        spec = draw(gen.dodeca(npix=st.just(100)))
        point = gen.skyPoint()
    return dict(spec=spec, points=draw(st.lists(point, min_size=1, max_size=10)),
                picks=draw(st.lists(gen.frac(), max_size=5)))


strategy = cases


def vec(p):
    return sphgeom.UnitVector3d(*maps.xyz(p))


def run(case):
    spec = case["spec"]
    m = maps.build(spec)
    n = len(m)
    nontrivial = False
    rings = spec["kind"] == "rings"
    model = RingModel(spec) if rings else None
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        owner = m.findTract(p).getId()
        v = vec(p)
        if rings:
            ring = model.ringOf(lat)
            lost = spec["version"] == 0 and ring == model.n - 1 and model.tractOf(ring, lon) == 0
            if lost or len(model.owners(lon, lat)) > 1 or near_edge(model, lon, lat):
                continue
            nontrivial |= 0 <= ring < model.n
            if n <= 200:
                others = range(n)
            else:
                others = {owner, 0, n - 1} | {max(0, min(n - 1, owner + d)) for d in (-2, -1, 1, 2)}
                if 0 <= ring < model.n:
                    for r in (ring - 1, ring + 1):
                        if 0 <= r < model.n:
                            t = model.tractOf(r, lon)
                            others |= {model.index(r, (t + d) % model.counts[r]) for d in (-1, 0, 1)}
        else:
            sep = sorted(-maps.dot(maps.xyz(p), maps.xyz(t.getCtrCoord())) for t in m)
            if sep[1] - sep[0] < 1e-7:
                continue
            nontrivial = True
            others = range(n)
        inside = [i for i in sorted(others) if m[i].getInnerSkyRegion().contains(v)]
        if rings and spec["version"] == 0:
            twin = model.counts[0] + 1  # the documented duplicate of tract 1
            inside = [i for i in inside if i != twin or owner == twin]
        check(inside == [owner], "position lon=%r lat=%r: findTract says %s, the inner regions of %s contain it", lon,
              lat, owner, inside)
        check(m[owner].inner_sky_region.contains(v), "inner_sky_region and getInnerSkyRegion() differ")
    if rings:
        for i, r, t in some(model, case["picks"]):
            a, b, c, d = (x.asRadians() for x in m.getRaDecRange(i))
            wa, wb, wc, wd = model.bounds(r, t)
            check(abs(c - wc) < 1e-9 and abs(d - wd) < 1e-9, "tract %d has declinations %r to %r; the layout says %r to "
                  "%r", i, c, d, wc, wd)
            if r < 0 or r >= model.n:
                check(a == 0 and abs(b - 2*math.pi) < 1e-12, "cap %d has right ascensions %r to %r", i, a, b)
            else:
                check(near(a, wa) and near(b, wb) and -1e-12 <= a < 2*math.pi + 1e-9 and -1e-12 <= b < 2*math.pi + 1e-9,
                      "tract %d has right ascensions %r to %r; the layout says %r to %r", i, a, b, wa, wb)
            box = m[i].getInnerSkyRegion().getBoundingBox()
            check(abs(box.getLat().getA().asRadians() - wc) < 1e-8 and abs(box.getLat().getB().asRadians() - wd) < 1e-8,
                  "inner region of tract %d spans %s; the layout says latitudes %r to %r", i, box, wc, wd)
    return Outcome(nontrivial, ["kind=" + spec["kind"], "version=%s" % spec.get("version")])


def some(model, picks):
    for i in tracts.choose(model.size, picks):
        yield (i,) + model.place(i)


def near_edge(model, lon, lat):
    ring = model.ringOf(lat)
    lo = model.s*(ring + 0.5) - 0.5*math.pi
    if min(abs(lat - lo), abs(lat - lo - model.s)) < EDGE:
        return True
    if not 0 <= ring < model.n:
        return False
    w = 2*math.pi/model.counts[ring]
    d = (lon - model.raStart + 0.5*w) % w
    return min(d, w - d) < EDGE
