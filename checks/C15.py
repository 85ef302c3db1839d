import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts
from .C12 import positions

import lsst.afw.geom as afwGeom

ID = "C15"
TITLE = "Positions that cannot be projected are off the tract, never an error"
RULE = ("A map of any kind and up to 6 positions all over the sky (aimed at the antipodes of a tract), asked with a "
        "WCS that answers an impossible position with NaN, DomainError or RuntimeError (the real one has done each): "
        "contains is false, findPatch raises LookupError, list searches leave it out and give what they give for the "
        "other positions alone, the same in all three modes; a pixel that is NaN in one coordinate is off the tract as well. Non-trivial: some position cannot be projected and "
        "another is inside the tract.")
QUICK, THOROUGH = 2500, 60000


def reset():
    afwGeom.setBadMode("nan")


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts(maxTracts=1, npix=gen.pixels(hi=3000)))
    case["spots"] = draw(st.lists(gen.pixelSpot(), max_size=3))
    case["points"] = draw(st.lists(gen.skyPoint(), max_size=2))
    case["anti"] = draw(st.lists(st.tuples(gen.floats(0.0, 1.0), gen.floats(0.0, 2*math.pi)).map(list), min_size=1,
                                 max_size=3))
    case["order"] = draw(st.permutations(range(8)))
    return case


strategy = cases


def ask(m, t, pts, single):
    out = []
    for p in pts:
        out.append(("contains", bool(t.contains(p))))
        try:
            out.append(("findPatch", tuple(t.findPatch(p).getIndex())))
        except LookupError:
            out.append(("findPatch", None))
    out.append(("findPatchList", sorted(tuple(q.getIndex()) for q in t.findPatchList(pts))))
    if single:
        for name in ("findTractPatchList", "findClosestTractPatchList"):
            out.append((name, [(a.getId(), sorted(tuple(q.getIndex()) for q in b)) for a, b in getattr(m, name)(pts)]))
        if hasattr(m, "findAllTracts"):
            for p in pts:
                out.append(("findAllTracts", [a.getId() for a in m.findAllTracts(p)]))
    return out


def run(case):
    m, (t,) = tracts.open_(case)
    pts = positions(case, t)
    lon, lat = maps.lonlat(t.getCtrCoord())
    opp = maps.sky((lon + math.pi) % (2*math.pi), -lat)
    for r, a in case["anti"]:
        pts.append(opp.offset(a*maps.geom.radians, 1.2*r*maps.geom.radians))
    order = [i for i in case["order"] if i < len(pts)] + list(range(8, len(pts)))
    pts = [pts[i] for i in order]
    wcs = t.getWcs()
    good = [p for p in pts if all(math.isfinite(v) for v in wcs.skyToPixel(p))]
    small = len(m) <= 60
    answers = {}
    for mode in ("nan", "domain", "runtime"):
        afwGeom.setBadMode(mode)
        try:
            answers[mode] = ask(m, t, pts, small)
            inside = 0
            for p in pts:
                if p in good:
                    inside += t.contains(p)
                    continue
                check(not t.contains(p), "contains(%s) is true of a position with no pixel (mode %s)", p, mode)
                try:
                    got = t.findPatch(p)
                except LookupError:
                    got = None
                check(got is None, "findPatch(%s) gave %s for a position with no pixel (mode %s)", p, got, mode)
                check(len(t.findPatchList([p])) == 0, "findPatchList([%s]) lists patches for a position with no pixel",
                      p)
            a = [tuple(q.getIndex()) for q in t.findPatchList(pts)]
            b = [tuple(q.getIndex()) for q in t.findPatchList(good)]
            check(sorted(a) == sorted(b), "findPatchList of %s lists %s; of the positions that have a pixel, %s (mode %s)",
                  [str(p) for p in pts], a, b, mode)
        finally:
            afwGeom.setBadMode("nan")
    for mode in ("nanx", "nany"):
        afwGeom.setBadMode(mode)
        try:
            for p in pts:
                if p in good:
                    continue
                check(not t.contains(p), "contains(%s) is true of a position whose pixel is half NaN (%s)", p, mode)
                try:
                    got = t.findPatch(p)
                except LookupError:
                    got = None
                check(got is None, "findPatch(%s) gave %s for a position whose pixel is half NaN (%s)", p, got, mode)
        finally:
            afwGeom.setBadMode("nan")
    for mode in ("domain", "runtime"):
        for x, y in zip(answers["nan"], answers[mode]):
            check(x == y, "%s gives %s when impossible positions are NaN, %s when they raise (%s)", x[0], x[1], y[1], mode)
    return Outcome(len(good) < len(pts) and inside, ["kind=" + case["spec"]["kind"],
                                                     "projection=" + case["spec"]["projection"],
                                                     "impossible" if len(good) < len(pts) else "all possible"])
