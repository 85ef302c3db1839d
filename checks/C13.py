import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts
from .C12 import positions

import lsst.afw.geom as afwGeom

ID = "C13"
TITLE = "findPatchList lists exactly the patches whose bordered area meets the region"
RULE = ("A map of any kind, a tract, and 0 to 7 positions in, at the edge of and around it; the list is compared with "
        "a search of every patch: those whose inner box, grown by the border, meets the box of the positions' pixels. "
        "Always run too: a row of patches of every size from 3 to 329 pixels (thorough: 4099), at the first pixels of the patches. "
        "Non-trivial: some but not all patches listed, or several of several.")
QUICK, THOROUGH = 5000, 120000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts())
    case["spots"] = draw(st.lists(gen.pixelSpot(), min_size=0, max_size=5))
    if draw(st.integers(0, 3)) == 0 and case["spots"]:
        # a small region: close to the first position
        first = case["spots"][0]
        case["spots"] = [[[a[0], a[1], a[2] + draw(gen.floats(-2, 2))] for a in first]
                         for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 11)) == 0 and len(case["spots"]) > 1:  # a great many positions, such as an outline
        case["many"] = draw(st.sampled_from([20, 64, 101, 300, 1100]))
    case["points"] = draw(st.lists(gen.skyPoint(), max_size=2)) if draw(st.integers(0, 4)) == 0 else []
    if draw(st.integers(0, 7)) == 0:  # positions that cannot be projected, among the others
        case["anti"] = draw(st.lists(st.integers(0, 7), min_size=1, max_size=2))
        case["mode"] = draw(st.sampled_from(["nan", "domain", "runtime"]))
    case["form"] = draw(st.sampled_from(["list", "tuple", "reused"]))
    return case


strategy = cases


def reset():
    afwGeom.setBadMode("nan")


def expected(t, pts, border):
    """Indices of the patches the region of pts may touch, by looking at every patch."""
    pix = []
    for p in pts:
        x, y = t.getWcs().skyToPixel(p)
        if math.isfinite(x) and math.isfinite(y):
            pix.append((x, y))
    if not pix:
        return set(), set()
    lo = [min(q[k] for q in pix) for k in (0, 1)]
    hi = [max(q[k] for q in pix) for k in (0, 1)]
    sure, maybe = set(), set()
    e = 1e-7  # a pixel position a rounding error away from a pixel's edge may count for either side
    for p in t:
        b = tracts.grow(maps.boxTuple(p.getInnerBBox()), border)
        ahead = [min(hi[k] - (b[k] - 0.5), (b[k + 2] - 0.5) - lo[k]) for k in (0, 1)]
        if min(ahead) > e:
            sure.add(tuple(p.getIndex()))
        if min(ahead) > -e:
            maybe.add(tuple(p.getIndex()))
    return sure, maybe


def exhaustive(tier):
    for spec in tracts.lattices(tier):
        yield dict(spec=spec, lattice=True)


def lattice(case):
    """Regions of one position each, that end exactly at the last or first pixel of a patch's bordered area."""
    t = maps.build(case["spec"])[0]
    border = case["spec"]["builder"]["border"]
    nx, ny = t.getNumPatches()
    w, h = maps.patchDims(case["spec"]["builder"])
    along = 0 if nx > ny else 1
    for k in range(-1, max(nx, ny) + 1):
        for d in (-border - 1, -border, border - 1, border):
            at = [0.5*t.getBBox().getWidth(), 0.5*t.getBBox().getHeight()]
            at[along] = float(k*(w, h)[along] + d)
            p = t.getWcs().pixelToSky(maps.geom.Point2D(*at))
            got = [tuple(q.getIndex()) for q in t.findPatchList([p])]
            want = [i for i in range(max(nx, ny)) if i*(w, h)[along] - border <= at[along] < (i + 1)*(w, h)[along] + border]
            want = [(i, 0) if along == 0 else (0, i) for i in want]
            if not -border <= at[along] < max(nx, ny)*(w, h)[along] + border:
                want = []
            check(sorted(got) == want, "findPatchList of the position of pixel %s lists %s, not %s, of patches of %s pixels "
                  "and border %s", at, sorted(got), want, (w, h), border)
    return Outcome(max(nx, ny) > 2, ["lattice"])


def run(case):
    if case.get("lattice"):
        return lattice(case)
    m, ts = tracts.open_(case)
    _, border = tracts.geometry(case)
    nontrivial = False
    for t in ts + ts[:1]:
        pts = positions(case, t)
        if case.get("many") and len(pts) > 1:
            a, b = [t.getWcs().skyToPixel(p) for p in (pts[0], pts[-1])]
            if all(math.isfinite(v) for v in (*a, *b)):
                f = 0.4/case["many"]
                line = [maps.geom.Point2D(a[0] + f*k*(b[0] - a[0]), a[1] + f*k*(b[1] - a[1])) for k in range(case["many"])]
                pts = [p for p in t.getWcs().pixelToSky(line) if all(map(math.isfinite, maps.lonlat(p)))] + pts
        lon, lat = maps.lonlat(t.getCtrCoord())
        for k in case.get("anti", []):
            pts.insert(k % (len(pts) + 1), maps.sky((lon + math.pi) % (2*math.pi), -lat))
        afwGeom.setBadMode("nan")
        if case["form"] == "reused":  # one list, changed between the calls
            given = pts[:1]*len(pts)
            t.findPatchList(given)
            given[:] = pts
        else:
            given = pts if case["form"] == "list" else tuple(pts)
        was = list(given)
        afwGeom.setBadMode(case.get("mode", "nan"))
        got = t.findPatchList(given)
        afwGeom.setBadMode("nan")
        check(list(given) == was, "findPatchList changed the list it was given")
        idx = [tuple(p.getIndex()) for p in got]
        check(len(set(idx)) == len(idx), "findPatchList lists a patch twice: %s", idx)
        sure, maybe = expected(t, pts, border)
        check(sure <= set(idx), "tract %s findPatchList(%s) lists %s and misses %s", t.getId(),
              [str(p) for p in pts], sorted(idx), sorted(sure - set(idx)))
        check(set(idx) <= maybe, "tract %s findPatchList(%s) lists %s, of which %s do not come near the region",
              t.getId(), [str(p) for p in pts], sorted(idx), sorted(set(idx) - maybe))
        for p in got:
            check(p == t[p.getIndex()], "findPatchList gave %r, unlike %r", p, t[p.getIndex()])
        n = len(t)
        nontrivial |= 0 < len(idx) < n or len(idx) > 1
    return Outcome(nontrivial, ["kind=" + case["spec"]["kind"], "empty region" if not pts else "region"])
