import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C17"
TITLE = "Tracts reach as far as their radius and overlap ask, in whole patches, no more"
RULE = ("A map of any kind and two of its tracts: rings and discrete tracts hold the positions radius + overlap north, "
        "east, south and west of their centre, the others half the overlap around each vertex of their inner region; "
        "the number of patches is the smallest that does, and spare pixels are shared by both sides (a quarter of the cases with patches of 1 to 9 pixels). Non-trivial: "
        "more than one patch and some overlap.")
QUICK, THOROUGH = 5000, 120000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts())
    if draw(st.integers(0, 3)) == 0:  # patches so small that a tract cannot hide pixels to spare in them
        case["spec"]["builder"] = dict(name="legacy", inner=[draw(st.integers(1, 9)), draw(st.integers(1, 9))], border=0)
    case["bearings"] = draw(st.lists(gen.floats(0.0, 360.0), max_size=3))
    return case


strategy = cases


def extent(t, pts):
    pix = [t.getWcs().skyToPixel(p) for p in pts]
    lo = [min(p[k] for p in pix) for k in (0, 1)]
    hi = [max(p[k] for p in pix) for k in (0, 1)]
    return lo, hi


def around(p, radius, bearings):
    return [p.offset(b*maps.geom.degrees, radius*maps.geom.degrees) for b in bearings]


def size(lo, hi, inner):
    """Whole patches needed to hold the pixels from position lo to position hi."""
    n = math.floor(hi + 0.5) - math.floor(lo + 0.5) + 1
    return -(-n//inner)


def one(case, t):
    spec = case["spec"]
    inner, _ = tracts.geometry(case)
    num = tuple(t.getNumPatches())
    box = maps.boxTuple(t.getBBox())
    overlap = spec["tractOverlap"]
    check(abs(t.getTractOverlap().asDegrees() - overlap) < 1e-9, "tract overlap %r; configured %r",
          t.getTractOverlap().asDegrees(), overlap)
    if spec["kind"] in ("rings", "discrete"):
        if spec["kind"] == "rings":
            radius = 90.0/(spec["numRings"] + 1)
        else:
            radius = spec["radiusList"][t.getId()]
        dirs = [0, 90, 180, 270]
        if case.get("all_directions"):  # known finding: rotated tracts fall short along their own axes
            r = spec.get("rotation", 0.0)
            dirs = [r, r + 90, r + 180, r + 270]
        small = big = around(t.getCtrCoord(), radius + overlap, dirs)
        inside = small
    else:
        fine = [7.5*k for k in range(48)]
        half = 0.5*overlap
        small, big, inside = [], [], []
        for v in t.getVertexList():
            if half == 0:
                small.append(v)
                continue
            small += around(v, 0.985*half, fine)
            big += around(v, half*1.0001, [2.5*k for k in range(144)])
            inside += around(v, 0.98*half, case["bearings"])
        big = big or small
    e = 1e-6*max(box[2], box[3], 1000)/1000 + 1e-6
    lo, hi = extent(t, small)
    lo2, hi2 = extent(t, big)
    for k in (0, 1):
        check(box[k] - 0.5 - e <= lo[k] and hi[k] <= box[k + 2] - 0.5 + e, "tract %s with box %s must hold pixel "
              "positions %r to %r along %s", t.getId(), box, lo[k], hi[k], "xy"[k])
        least = size(lo[k] + e, hi[k] - e, inner[k])
        most = size(lo2[k] - e, hi2[k] + e, inner[k])
        check(least <= num[k] <= most, "tract %s has %d patches of %d pixels along %s; %s hold positions %r to %r",
              t.getId(), num[k], inner[k], "xy"[k], least if least == most else (least, most), lo[k], hi[k])
        # pixels to spare on each side of what is needed
        below = math.floor(lo[k] + 0.5) - box[k]
        above = box[k + 2] - 1 - math.floor(hi[k] + 0.5)
        slack = 2.0 + (0 if small is big else (lo[k] - lo2[k]) + (hi2[k] - hi[k]))
        check(abs(below - above) <= slack, "tract %s has %d pixels to spare below what it must hold along %s and %d "
              "above", t.getId(), below, "xy"[k], above)
    for p in inside:
        x, y = t.getWcs().skyToPixel(p)
        check(t.contains(p) or min(x - box[0], y - box[1], box[2] - 1 - x, box[3] - 1 - y) > -0.5 - e,
              "tract %s does not contain %s, within its overlap", t.getId(), p)
    return num[0]*num[1] > 1 and overlap > 0


def run(case):
    m, ts = tracts.open_(case)
    nontrivial = False
    for t in ts:
        nontrivial |= one(case, t)
    return Outcome(nontrivial, ["kind=" + case["spec"]["kind"], "projection=" + case["spec"]["projection"],
                                "rotated" if case["spec"].get("rotation") else "upright"])
