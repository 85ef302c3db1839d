from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts
from .C12 import positions

ID = "C14"
TITLE = "The tract-and-patch searches of a map agree with its tracts, one entry each"
RULE = ("A map of any kind and 0 to 5 positions in and around one of its tracts and anywhere: findTractPatchList lists "
        "every tract that has patches for the region (rings: every tract that contains a position), "
        "findClosestTractPatchList those findTract gives for the positions; each once, with exactly the patches of "
        "its own findPatchList. Non-trivial: two tracts or more listed.")
QUICK, THOROUGH = 2500, 60000


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts(maxTracts=1, npix=gen.pixels(hi=3000),
                                    kinds=("rings", "rings", "rings", "discrete", "discrete", "dodeca", "equat",
                                           "healpix")))
    spec = case["spec"]
    if spec["kind"] == "healpix":
        spec["log2NSide"] = min(spec["log2NSide"], 1)
    if spec["kind"] == "rings" and draw(st.integers(0, 5)) == 0:  # many tracts
        spec["numRings"] = draw(st.integers(20, 150))
    case["spots"] = draw(st.lists(gen.pixelSpot(), max_size=4))
    point = gen.ringPoint(spec) if spec["kind"] == "rings" else gen.skyPoint()
    case["points"] = draw(st.lists(point, max_size=2))
    return case


strategy = cases


def show(found):
    return {k: sorted(v) for k, v in found.items()}


def collect(name, got):
    out = {}
    for t, patches in got:
        check(t.getId() not in out, "%s lists tract %s twice", name, t.getId())
        idx = [tuple(p.getIndex()) for p in patches]
        check(len(idx) == len(set(idx)), "%s lists a patch of tract %s twice: %s", name, t.getId(), idx)
        out[t.getId()] = set(idx)
    return out


def run(case):
    m, (t,) = tracts.open_(case)
    pts = positions(case, t)
    text = [str(p) for p in pts]

    def patchesOf(x):
        return {tuple(p.getIndex()) for p in x.findPatchList(pts)}

    ids = set()
    if case["spec"]["kind"] == "rings":
        for p in pts:
            ids |= {x.getId() for x in m.findAllTracts(p)}
    else:
        ids = set(range(len(m)))
    want = {i: patchesOf(m[i]) for i in ids}
    want = {i: v for i, v in want.items() if v}
    got = collect("findTractPatchList", m.findTractPatchList(pts))
    check(got == want, "findTractPatchList(%s) gives %s; the tracts have %s", text, show(got), show(want))
    for x, _ in m.findTractPatchList(pts):
        check(x.getCtrCoord() == m[x.getId()].getCtrCoord(), "findTractPatchList lists a tract %s not the map's",
              x.getId())
    near = {i: patchesOf(m[i]) for i in {m.findTract(p).getId() for p in pts}}
    near = {i: v for i, v in near.items() if v}
    got = collect("findClosestTractPatchList", m.findClosestTractPatchList(pts))
    check(got == near, "findClosestTractPatchList(%s) gives %s; the tracts nearest the positions have %s", text,
          show(got), show(near))
    return Outcome(len(want) > 1, ["kind=" + case["spec"]["kind"], "closest: %d" % min(3, len(near))])
