import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C12"
TITLE = "findPatch and contains agree with the tract's pixels everywhere"
RULE = ("A map of any kind, two of its tracts used in turn, and up to 12 positions of each, aimed at patch and tract "
        "edges and around, or anywhere on the sky: contains is true exactly when the position's pixel is in the "
        "tract; then findPatch gives the one patch whose inner box holds that pixel, else it raises LookupError. "
        "Always run too: a row of patches of every size from 3 to 329 pixels (thorough: 4099), at the first pixels of the patches. "
        "Non-trivial: positions both inside and outside.")
QUICK, THOROUGH = 4000, 100000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts())
    case["spots"] = draw(st.lists(gen.pixelSpot(), min_size=1, max_size=12))
    case["points"] = draw(st.lists(gen.skyPoint(), max_size=3))
    return case


strategy = cases


def positions(case, t):
    """SpherePoints the case aims at, for this tract."""
    box = t.getBBox()
    dims = (box.getWidth(), box.getHeight())
    out = []
    for spot in case["spots"]:
        x, y = gen.resolveSpot(spot, dims, tuple(t.getPatchInnerDimensions()))
        p = t.getWcs().pixelToSky(maps.geom.Point2D(x, y))
        if all(math.isfinite(v) for v in maps.lonlat(p)):
            out.append(p)
    return out + [maps.sky(*p) for p in case["points"]]


def exhaustive(tier):
    for spec in tracts.lattices(tier):
        yield dict(spec=spec, lattice=True)


def lattice(case):
    """The first and last pixels of each patch of a row or column."""
    t = maps.build(case["spec"])[0]
    nx, ny = t.getNumPatches()
    along = 0 if nx > ny else 1
    size = maps.patchDims(case["spec"]["builder"])[along]
    for k in range(max(nx, ny) + 1):
        for d in (-1, 0):
            at = [0.5*t.getBBox().getWidth(), 0.5*t.getBBox().getHeight()]
            at[along] = float(k*size + d)
            p = t.getWcs().pixelToSky(maps.geom.Point2D(*at))
            i = k + d
            want = None if not 0 <= i < max(nx, ny) else (i, 0) if along == 0 else (0, i)
            try:
                got = tuple(t.findPatch(p).getIndex())
            except LookupError:
                got = None
            check(got == want, "findPatch of the position of pixel %s gives %s, not %s, of patches of %s pixels", at, got, want, size)
            check(bool(t.contains(p)) == (want is not None), "contains is wrong of the position of pixel %s", at)
    return Outcome(max(nx, ny) > 2, ["lattice"])


def run(case):
    if case.get("lattice"):
        return lattice(case)
    m, ts = tracts.open_(case)
    (ix, iy), _ = tracts.geometry(case)
    inside = outside = 0
    for t in ts + ts[:1]:
        nx, ny = t.getNumPatches()
        box = maps.boxTuple(t.getBBox())
        for p in positions(case, t):
            x, y = t.getWcs().skyToPixel(p)
            want = None
            if math.isfinite(x) and math.isfinite(y):
                i, j = tracts.pixelIndex(x), tracts.pixelIndex(y)
                if box[0] <= i < box[2] and box[1] <= j < box[3]:
                    want = ((i - box[0])//ix, (j - box[1])//iy)
            got = t.contains(p)
            check(bool(got) == (want is not None), "tract %s contains(%s) is %s; the position is at pixel %r, %r of %s",
                  t.getId(), p, got, x, y, box)
            try:
                patch = t.findPatch(p)
            except LookupError:
                check(want is None, "tract %s findPatch(%s) raised; the position is at pixel %r, %r of %s", t.getId(),
                      p, x, y, box)
                outside += 1
                continue
            check(want is not None, "tract %s findPatch(%s) gave patch %s; the position is at pixel %r, %r of %s",
                  t.getId(), p, patch.getIndex(), x, y, box)
            inside += 1
            check(tuple(patch.getIndex()) == want, "tract %s findPatch(%s) gave patch %s; pixel %r, %r is in %s",
                  t.getId(), p, patch.getIndex(), x, y, want)
            b = maps.boxTuple(patch.getInnerBBox())
            check(b[0] <= i < b[2] and b[1] <= j < b[3], "patch %s of tract %s has inner box %s without pixel %r, %r",
                  patch.getIndex(), t.getId(), b, x, y)
            same = t[want]
            check(patch == same and patch.getSequentialIndex() == same.getSequentialIndex(),
                  "findPatch(%s) gave %r, unlike %r", p, patch, same)
    return Outcome(inside and outside, ["kind=" + case["spec"]["kind"], "inside" if inside else "only outside"])
