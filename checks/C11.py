from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C11"
TITLE = "Cells tile each patch, and line up across the patches of a tract"
RULE = ("A map of any kind with the cell builder and two neighbouring patches of a tract; each cell's inner and outer "
        "box against the documented grid, the cells together tile the patch's inner box plus its border cells, and a "
        "cell shared by two patches has the same boxes in both. Non-trivial: more than one cell a patch.")
QUICK, THOROUGH = 3000, 80000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts(maxTracts=1, kinds=("rings", "rings", "discrete", "dodeca", "equat", "healpix")))
    b = case["spec"]["builder"]
    if b["name"] != "cells":
        side = max(b["inner"])
        per = draw(st.integers(1, 5))
        cell = max(1, -(-side//per))
        case["spec"]["builder"] = dict(name="cells", cell=cell, perPatch=per, inBorder=draw(st.integers(0, 3)),
                                       cellBorder=draw(st.one_of(st.integers(0, 3), st.integers(0, 2*cell))))
    if draw(st.integers(0, 5)) == 0:  # as many as in real surveys, and more
        side = max(maps.patchDims(case["spec"]["builder"]))
        per = draw(st.integers(6, 60))
        case["spec"]["builder"] = dict(name="cells", cell=max(1, -(-side//per)), perPatch=per, inBorder=draw(st.integers(0, 12)),
                                       cellBorder=draw(st.one_of(st.integers(0, 3), st.integers(0, 60))))
    case["patch"] = [draw(gen.frac()), draw(gen.frac())]
    case["step"] = draw(st.sampled_from([[1, 0], [0, 1], [1, 1], [1, -1], [2, 0], [0, 0]]))
    return case


strategy = cases


def run(case):
    m, (t,) = tracts.open_(case)
    b = case["spec"]["builder"]
    cell, per, inBorder, cellBorder = b["cell"], b["perPatch"], b["inBorder"], b["cellBorder"]
    n = per + 2*inBorder
    nx, ny = t.getNumPatches()
    x, y = min(nx - 1, int(case["patch"][0]*nx)), min(ny - 1, int(case["patch"][1]*ny))
    others = [(x, y), (min(nx - 1, x + case["step"][0]), max(0, min(ny - 1, y + case["step"][1])))]
    seen = {}
    for xy in others:
        p = t[xy]
        check(tuple(p.getNumCells()) == (n, n), "patch %s has %s cells; %d + 2*%d configured", xy, p.getNumCells(),
              per, inBorder)
        check(tuple(p.getCellInnerDimensions()) == (cell, cell), "cell dimensions %s; configured %d",
              tuple(p.getCellInnerDimensions()), cell)
        check(p.getCellBorder() == cellBorder, "cell border %s; configured %d", p.getCellBorder(), cellBorder)
        inner = maps.boxTuple(p.getInnerBBox())
        outerPatch = maps.boxTuple(p.getOuterBBox())
        order = []
        for c in p:
            i, j = c.getIndex()
            order.append((i, j))
            x0, y0 = inner[0] + (i - inBorder)*cell, inner[1] + (j - inBorder)*cell
            want = (x0, y0, x0 + cell, y0 + cell)
            got = maps.boxTuple(c.getInnerBBox())
            check(got == want, "cell %s of patch %s has inner box %s, not %s", (i, j), xy, got, want)
            got = maps.boxTuple(c.getOuterBBox())
            want = tracts.grow(want, cellBorder)
            check(got == want, "cell %s of patch %s has outer box %s, not %s", (i, j), xy, got, want)
            check(tracts.clip(got, outerPatch) == got, "cell %s of patch %s reaches %s, outside the patch's outer box %s",
                  (i, j), xy, got, outerPatch)
            isInner = inBorder <= i < inBorder + per and inBorder <= j < inBorder + per
            check((tracts.clip(maps.boxTuple(c.getInnerBBox()), inner) is not None) == isInner,
                  "cell %s of patch %s: inside the patch's inner box is %s", (i, j), xy, not isInner)
            # the same cell of the tract, whichever patch it is reached from
            key = (x0//cell, y0//cell)
            check((x0 % cell, y0 % cell) == (0, 0), "cell %s of patch %s starts at %s, off the tract's cell grid",
                  (i, j), xy, (x0, y0))
            boxes = (maps.boxTuple(c.getInnerBBox()), maps.boxTuple(c.getOuterBBox()))
            check(seen.setdefault(key, boxes) == boxes, "cell %s of the tract differs between patches: %s and %s", key,
                  seen[key], boxes)
        check(order == [(i, j) for j in range(n) for i in range(n)], "iterating the cells of patch %s gives %s", xy,
              order)
    return Outcome(n > 1, ["kind=" + case["spec"]["kind"], "two patches" if others[0] != others[1] else "one patch"])
