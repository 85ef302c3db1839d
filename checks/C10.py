from hypothesis import strategies as st

import numpy as np

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C10"
TITLE = "Tract, patch and cell indices are bijections and refuse what is out of range"
RULE = ("A map of any kind with cell or legacy builder, up to two of its tracts and a patch of each, visited in turn (now and then with up to 160000 patches or cells); "
        "every pair and sequential index round trips, every form of index gives the same object, and indices just "
        "and far outside the range (also negative) raise IndexError. Non-trivial: more than one patch a tract.")
QUICK, THOROUGH = 3000, 80000


@st.composite
def cases(draw):
    if draw(st.integers(0, 15)) == 0:  # a great many patches, or cells in a patch
        n = draw(st.integers(150, 400))
        case = dict(spec=dict(kind="discrete", raList=[10.0], decList=[draw(st.sampled_from([0.0, 60.0]))], radiusList=[1.0], tractOverlap=0.0,
                              pixelScale=gen.sig(7200.0/n), projection="TAN", rotation=0.0, version=None,
                              builder=draw(st.sampled_from([dict(name="legacy", inner=[1, 1], border=1), dict(name="legacy", inner=[2, 1], border=0),
                                                            dict(name="cells", cell=1, cellBorder=1, perPatch=n//2, inBorder=2)]))),
                    tracts=[0.0])
    else:
        case = draw(tracts.mapAndTracts(kinds=("rings", "rings", "discrete", "discrete", "dodeca", "equat", "healpix")))
    case["patch"] = draw(gen.frac())
    case["picks"] = draw(st.lists(gen.frac(), max_size=5))
    case["far"] = draw(st.integers(1, 10**6))
    return case


strategy = cases


def refuses(what, fn, *args):
    try:
        got = fn(*args)
    except IndexError:
        return
    check(False, "%s gave %r instead of raising IndexError", what, got)


def grid(what, n, getInfo, item, pairOf, seqOf, seqOfInfo, length, picks, far, outside):
    nx, ny = n
    total = nx*ny
    check(length == total, "%s of %d x %d has length %d", what, nx, ny, length)
    for s in tracts.choose(total, picks):
        x, y = s % nx, s//nx
        pair = pairOf(s)
        check(tuple(pair) == (x, y) and pair.x == x and pair.y == y, "%s: index pair of %d is %s, not %s", what, s,
              pair, (x, y))
        for form in ((x, y), [x, y], maps.Index2D(x, y), maps.Index2D(x=np.int64(x), y=np.int64(y))):
            check(seqOf(form) == s, "%s: sequential index of %r is %s, not %s", what, form, seqOf(form), s)
        for form in ((x, y), maps.Index2D(x, y), s, np.int64(s)):
            for get in (getInfo, item):
                info = get(form)
                check(tuple(info.getIndex()) == (x, y), "%s: index %r gives element %s", what, form, info.getIndex())
                check(info.getSequentialIndex() == s, "%s: element %r has sequential index %s, not %s", what, form,
                      info.getSequentialIndex(), s)
                check(seqOfInfo(info) == s, "%s: sequential index of element %s is %s", what, (x, y), seqOfInfo(info))
    for bad in ((-1, 0), (0, -1), (nx, 0), (0, ny), (nx - 1, ny), (nx, ny - 1), (nx + far, 0), (0, ny + far),
                (-far, 0), (0, -far), (-1, -1)):
        refuses("%s of %d x %d: element %s" % (what, nx, ny, bad), getInfo, bad)
        refuses("%s of %d x %d: element %s" % (what, nx, ny, bad), item, maps.Index2D(*bad))
    for bad in (-1, total, total + far, -far):
        refuses("%s of %d x %d: element %d" % (what, nx, ny, bad), getInfo, bad)
        refuses("%s of %d x %d: element %d" % (what, nx, ny, bad), item, bad)
        refuses("%s of %d x %d: element %r" % (what, nx, ny, np.int64(bad)), item, np.int64(bad))
    for bad in ((), (0,), (0, 0, 0)):
        for fn in (getInfo, item, seqOf):
            try:
                got = fn(bad)
            except (IndexError, ValueError, TypeError):
                continue
            check(False, "%s of %d x %d: index %r, which is not a pair, gave %r", what, nx, ny, bad, got)
    for bad in ((-1, 0), (0, -1), (nx, 0), (0, ny), (-far, 0), (0, ny + far)) if outside else ():
        refuses("%s of %d x %d: sequential index of %s" % (what, nx, ny, bad), seqOf, maps.Index2D(*bad))
    for bad in (-1, total, total + far) if outside else ():
        refuses("%s of %d x %d: index pair of %d" % (what, nx, ny, bad), pairOf, bad)


def run(case):
    m, ts = tracts.open_(case)
    kind = case["spec"]["kind"]
    total = len(m)
    nontrivial = False
    ids = tracts.choose(total, case["tracts"] + case["picks"])
    for i in ids:
        check(m[i].getId() == i, "tract %d of the %s map says its id is %s", i, kind, m[i].getId())
        check(m[i].tract_id == i, "tract %d of the %s map says its tract_id is %s", i, kind, m[i].tract_id)
    for bad in (total, total + case["far"]):
        refuses("tract %d of %d" % (bad, total), m.__getitem__, bad)
    if kind in maps.CACHING:
        for bad in (-1, -case["far"]):
            refuses("tract %d of %d" % (bad, total), m.__getitem__, bad)
    if total <= 60:
        check([t.getId() for t in m] == list(range(total)), "iterating the %s map gives ids %s", kind,
              [t.getId() for t in m])
    both = [(a.getId(), b.getId()) for _, a, b in zip(range(7), m, m)] if total <= 2000 else [(k, k) for k in range(7)]
    check(both == [(k, k) for k in range(min(7, total))], "iterating the %s map twice at a time gives ids %s", kind, both)
    cells = case["spec"]["builder"]["name"] == "cells"
    for t in ts:
        if len(t) <= 200:
            order = [(k % t.getNumPatches()[0], k//t.getNumPatches()[0]) for k in range(len(t))]
            it, again = iter(t), iter(t)
            next(it)
            got = [tuple(p.getIndex()) for p in again] + [tuple(p.getIndex()) for p in it]
            check(got == order + order[1:], "tract %s of %s patches: two iterations at a time give %s", t.getId(), t.getNumPatches(), got)
        nx, ny = t.getNumPatches()
        nontrivial |= nx*ny > 1
        grid("patches of tract %s" % t.getId(), (nx, ny), t.getPatchInfo, t.__getitem__, t.getPatchIndexPair,
             t.getSequentialPatchIndexFromPair, t.getSequentialPatchIndex, len(t), case["picks"], case["far"], False)
        p = t[min(nx*ny - 1, int(case["patch"]*nx*ny))]
        if cells:
            grid("cells of patch %s" % (p.getIndex(),), tuple(p.getNumCells()), p.getCellInfo, p.__getitem__,
                 p.getCellIndexPair, p.getSequentialCellIndexFromPair, p.getSequentialCellIndex, len(p),
                 case["picks"], case["far"], True)
        else:
            check(tuple(p.getNumCells()) == (0, 0) and len(p) == 0 and list(p) == [],
                  "patch %s without cells has %s", p.getIndex(), p.getNumCells())
            refuses("cell 0 of a patch without cells", p.getCellInfo, 0)
            refuses("cell (0, 0) of a patch without cells", p.getCellInfo, maps.Index2D(0, 0))
            refuses("cell index pair in a patch without cells", p.getCellIndexPair, 0)
    return Outcome(nontrivial, ["kind=" + kind, "cells" if cells else "legacy"])
