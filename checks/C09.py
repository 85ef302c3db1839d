from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C09"
TITLE = "The patches of a tract tile it exactly and overlap by the configured border"
RULE = ("A map of any kind, builder, projection and rotation, 1 to about 80 patches a tract, and two of its tracts "
        "used in turn; every patch's inner and outer box against the documented grid (legacy: outer boxes clipped to "
        "the tract; cells: not clipped). Non-trivial: a tract of more than one patch and a border above 0.")
QUICK, THOROUGH = 4000, 100000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts())
    case["interleave"] = draw(st.booleans())
    return case


strategy = cases


def one(case, t):
    (ix, iy), border = tracts.geometry(case)
    box = maps.boxTuple(t.getBBox())
    nx, ny = t.getNumPatches()
    check(nx >= 1 and ny >= 1, "tract %s has %s patches", t.getId(), (nx, ny))
    check(box == (0, 0, nx*ix, ny*iy), "tract %s has box %s; %d x %d patches of %d x %d make (0, 0, %d, %d)",
          t.getId(), box, nx, ny, ix, iy, nx*ix, ny*iy)
    check(tuple(t.getPatchInnerDimensions()) == (ix, iy), "patch inner dimensions %s; configured %s",
          tuple(t.getPatchInnerDimensions()), (ix, iy))
    check(t.getPatchBorder() == border, "patch border %s; configured %s", t.getPatchBorder(), border)
    clipped = case["spec"]["builder"]["name"] == "legacy"
    seen = []
    for p in t:
        x, y = p.getIndex()
        seen.append((x, y))
        inner = (x*ix, y*iy, (x + 1)*ix, (y + 1)*iy)
        check(maps.boxTuple(p.getInnerBBox()) == inner, "patch %s of tract %s has inner box %s, not %s", (x, y),
              t.getId(), maps.boxTuple(p.getInnerBBox()), inner)
        outer = tracts.grow(inner, border)
        if clipped:
            outer = tracts.clip(outer, box)
        check(maps.boxTuple(p.getOuterBBox()) == outer, "patch %s of tract %s has outer box %s, not %s", (x, y),
              t.getId(), maps.boxTuple(p.getOuterBBox()), outer)
    check(seen == [(x, y) for y in range(ny) for x in range(nx)], "iterating tract %s of %d x %d patches gives %s",
          t.getId(), nx, ny, seen)
    return nx*ny > 1 and border > 0


def run(case):
    m, ts = tracts.open_(case)
    nontrivial = False
    for t in ts:
        nontrivial |= one(case, t)
    if case["interleave"]:
        for t in ts:
            one(case, t)
    b = case["spec"]["builder"]["name"]
    return Outcome(nontrivial, ["kind=" + case["spec"]["kind"], "builder=" + b])
