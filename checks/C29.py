import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import cover, tracts

ID = "C29"
TITLE = "A discrete map puts a square tract of the asked radius at each listed position"
RULE = ("A discrete map of 1 to 12 tracts (repeated and near-polar positions, right ascensions also beyond 0 to 360, radii that differ up to 15 times, either "
        "builder, five projections, any rotation), every tract of it visited in some order: tract i is centred on the "
        "i-th position and projected from it, is as wide as high up to one patch, its vertices are the corners of its "
        "box, and its inner region holds the centre and those. Non-trivial: two tracts or more of different radii.")
QUICK, THOROUGH = 3000, 80000


@st.composite
def cases(draw):
    spec = draw(gen.discrete(maxTracts=12, rotation=gen.rotations))
    n = len(spec["raList"])
    if draw(st.integers(0, 3)) == 0:
        spec["raList"] += spec["raList"][:1]
        spec["decList"] += spec["decList"][:1]
        spec["radiusList"] += [draw(st.sampled_from(spec["radiusList"]))]
        n += 1
    if draw(st.integers(0, 2)) == 0:  # right ascensions that are not from 0 to 360
        turns = draw(st.lists(st.sampled_from([-1, 0, 1, 2]), min_size=n, max_size=n))
        spec["raList"] = [v + 360*k for v, k in zip(spec["raList"], turns)]
    return dict(spec=spec, order=draw(st.permutations(list(range(n)))))


strategy = cases


def run(case):
    spec = case["spec"]
    m = maps.build(spec)
    n = len(spec["raList"])
    check(len(m) == n, "%d tracts for %d positions", len(m), n)
    check([t.getId() for t in m] == list(range(n)), "tracts numbered %s", [t.getId() for t in m])
    inner = tracts.geometry(case)[0]
    scale = math.radians(spec["pixelScale"]/3600)
    for i in case["order"]:
        t = m[i]
        want = maps.xyz(maps.skyDeg(spec["raList"][i], spec["decList"][i]))
        for what, p in (("centred on", t.getCtrCoord()), ("projected from", t.getWcs().getSkyOrigin())):
            check(maps.angsep(maps.xyz(p), want) < 1e-12, "tract %d is %s %s, not on RA %r Dec %r", i, what, p,
                  spec["raList"][i], spec["decList"][i])
        box = maps.boxTuple(t.getBBox())
        check(box[:2] == (0, 0), "tract %d starts at pixel %s", i, box[:2])
        half = cover.radial(spec["projection"], math.radians(spec["radiusList"][i] + spec["tractOverlap"]))/scale
        if not spec["rotation"] % 90:
            for k in (0, 1):
                need = 2*half
                check(need - 1e-6*need - 1 <= box[k + 2] <= need + inner[k] + 3, "tract %d is %d pixels along %s; radius "
                      "%r + overlap %r make %r and patches are %d", i, box[k + 2], "xy"[k], spec["radiusList"][i],
                      spec["tractOverlap"], need, inner[k])
        if inner[0] == inner[1]:
            check(abs(box[2] - box[3]) <= inner[0], "tract %d is %d by %d pixels", i, box[2], box[3])
        corners = [(x, y) for x in (-0.5, box[2] - 0.5) for y in (-0.5, box[3] - 0.5)]
        ref = t.getWcs().getPixelOrigin()
        if max(math.hypot(x - ref[0], y - ref[1]) for x, y in corners)*scale > (0.95 if spec["projection"] == "SIN"
                                                                               else 1.9):
            continue  # the corners are off the sky in this projection
        got = [t.getWcs().skyToPixel(v) for v in t.getVertexList()]
        tol = 0.01 + 1e-7*max(box[2:])
        check(len(got) == 4 and all(min(math.hypot(g[0] - x, g[1] - y) for g in got) < tol for x, y in corners),
              "tract %d of %d by %d pixels has vertices at pixels %s", i, box[2], box[3], got)
        if max(box[2:])*scale < 1.0:
            region = t.inner_sky_region
            check(region.contains(t.getCtrCoord().getVector()), "the inner region of tract %d does not contain its centre",
                  i)
            cx, cy = 0.5*box[2] - 0.5, 0.5*box[3] - 0.5
            for x, y in corners:
                p = t.getWcs().pixelToSky(maps.geom.Point2D(cx + 0.99*(x - cx), cy + 0.99*(y - cy)))
                check(region.contains(p.getVector()), "the inner region of tract %d does not contain pixel %r, %r", i, x, y)
                p = t.getWcs().pixelToSky(maps.geom.Point2D(cx + 1.02*(x - cx), cy + 1.02*(y - cy)))
                check(not region.contains(p.getVector()), "the inner region of tract %d extends beyond pixel %r, %r", i, x, y)
    return Outcome(len(set(spec["radiusList"])) > 1, ["rotated" if spec["rotation"] else "upright"])
