import pickle

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import summary, tracts

ID = "C23"
TITLE = "A sky map gives the same answers whatever was asked of it before"
RULE = ("Two maps of any kinds (now and then equal ones, or one configuration object shared) and a history of 2 to 18 "
        "calls on them in turn: lookups, searches, iteration, hashing, failing calls, pickling, and changing the boxes "
        "and dimensions they return; every answer must be that of a fresh map asked only that. Non-trivial: one tract "
        "visited after another was built, or a returned object changed.")
QUICK, THOROUGH = 1000, 40000

QUERIES = ["tract", "tract", "patch", "patch", "cell", "findTract", "findTractIdArray", "findPatch", "findPatchList",
           "findAllTracts", "findTractPatchList", "findClosestTractPatchList", "sha", "len", "inner"]
NOISE = ["iterate", "badTract", "badPatch", "pickle", "log", "changeBBox", "changeDims", "changePatchBox", "changeList",
         "changeCtr", "freeze"]


# a tract number a power of two away from one asked for before
aliases = st.tuples(st.integers(0, 3), st.sampled_from([1, -1]), st.one_of(st.integers(0, 11), st.integers(7, 11))).map(list)


@st.composite
def call(draw):
    return dict(map=draw(st.integers(0, 1)), op=draw(st.one_of(st.sampled_from(QUERIES), st.sampled_from(QUERIES),
                                                               st.sampled_from(NOISE))),
                t=draw(st.one_of(gen.frac(), aliases)), p=draw(gen.frac()), c=draw(gen.frac()),
                spots=draw(st.lists(gen.pixelSpot(), min_size=1, max_size=3)), point=draw(gen.skyPoint()))


@st.composite
def cases(draw):
    kw = dict(npix=st.one_of(gen.pixels(hi=3000), gen.pixels(hi=3000), gen.pixels(hi=200000)), maxPatches=5)
    a = draw(gen.anyMap(rotation=gen.rotations, **kw))
    b = a if draw(st.integers(0, 3)) == 0 else draw(gen.anyMap(rotation=gen.rotations, **kw))
    for s in (a, b):
        if s["kind"] == "healpix":
            s["log2NSide"] = min(1, s["log2NSide"])
        if s["kind"] == "rings":
            s["numRings"] = min(8, s["numRings"])
            if draw(st.integers(0, 1)) == 0:  # many tracts
                s["numRings"] = draw(st.integers(15, 60))
    return dict(specs=[a, b], share=draw(st.booleans()), calls=draw(st.lists(call(), min_size=2, max_size=18)))


strategy = cases


class Quiet:
    def info(self, *args):
        self.n = getattr(self, "n", 0) + 1


def resolveTracts(case, sizes):
    """Put the tract number in each call."""
    before = [[], []]
    for c in case["calls"]:
        n, t = sizes[c["map"]], c["t"]
        if isinstance(t, list):
            back, sign, power = t
            start = before[c["map"]][-1 - back] if len(before[c["map"]]) > back else 0
            if not 0 <= start + sign*2**power < n:
                sign = -sign
            c["tract"] = (start + sign*2**power) % n
        else:
            c["tract"] = min(n - 1, int(t*n))
        before[c["map"]].append(c["tract"])


def pickTract(m, c):
    return m[c["tract"]]


def pickPatch(t, c):
    n = len(t)
    return t[min(n - 1, int(c["p"]*n))]


def coords(t, c):
    from .C12 import positions
    return positions(dict(spots=c["spots"], points=[c["point"]]), t)


def listing(got):
    return [(t.getId(), sorted(tuple(p.getIndex()) for p in ps)) for t, ps in got]


def query(m, c):
    """The answer to a query, as plain data."""
    op = c["op"]
    if op == "len":
        return len(m)
    if op == "sha":
        return m.getSha1(), hash(m)
    if op == "findTract":
        return summary.tract(m.findTract(maps.sky(*c["point"])))
    if op == "findTractIdArray":
        return [int(i) for i in m.findTractIdArray([c["point"][0], 0.3], [c["point"][1], 0.7])]
    t = pickTract(m, c)
    if op == "tract":
        return summary.tract(t)
    if op == "inner":
        return [(v.x(), v.y(), v.z()) for v in t.getOuterSkyPolygon().getVertices()] if c["ok"] else 0
    if op == "patch":
        return summary.patch(pickPatch(t, c))
    if op == "cell":
        p = pickPatch(t, c)
        return summary.cell(p[min(len(p) - 1, int(c["c"]*len(p)))]) if len(p) else len(p)
    pts = coords(t, c)
    if op == "findPatch":
        try:
            return summary.patch(t.findPatch(pts[0]))
        except LookupError:
            return None
    if op == "findPatchList":
        return [summary.patch(p, False) for p in t.findPatchList(pts)]
    if op == "findAllTracts":
        return [x.getId() for x in m.findAllTracts(pts[0])] if hasattr(m, "findAllTracts") else None
    if op == "findTractPatchList":
        return listing(m.findTractPatchList(pts))
    return listing(m.findClosestTractPatchList(pts))


def noise(m, c):
    """A call whose answer is not looked at.  Returns the map to go on with."""
    op = c["op"]
    t = pickTract(m, c)
    try:
        if op == "iterate":
            for k, x in enumerate(m):
                len(list(x))
                if k > 5:
                    break
        elif op == "badTract":
            m[len(m)]
        elif op == "badPatch":
            t[10**6, 0]
        elif op == "pickle":
            return pickle.loads(pickle.dumps(m))
        elif op == "log":
            if len(m) < 60:
                m.logSkyMapInfo(Quiet())
        elif op == "changeBBox":
            box = t.getBBox()
            box.grow(7)
            t.bbox.shift(maps.geom.Extent2I(3, 4))
        elif op == "changeDims":
            for dims in (t.getPatchInnerDimensions(), t.patch_inner_dimensions, pickPatch(t, c).getCellInnerDimensions()):
                dims.setX(dims.getX() + 5)
                dims.setY(1)
        elif op == "changePatchBox":
            p = pickPatch(t, c)
            p.getInnerBBox().grow(3)
            p.getOuterBBox().shift(maps.geom.Extent2I(3, 4))
            if len(p):
                before = summary.cell(p[0])
                p[0].getInnerBBox().grow(2)
                p[0].getOuterBBox().grow(4)
                check(summary.cell(p[0]) == before, "a patch gives another cell 0 after one it gave was changed: %s, not %s",
                      summary.cell(p[0]), before)
        elif op == "changeList":
            pts = coords(t, c)
            for got in (m.findTractPatchList(pts), m.findClosestTractPatchList(pts)):
                del got[:]
        elif op == "changeCtr":
            t.getBBox().getMin().setX(9)
            t.getBBox().getDimensions().setX(9)
        elif op == "freeze":
            m.config.tractOverlap = 2.0
    except (IndexError, LookupError):
        pass
    except Exception as e:
        if type(e).__name__ != "FieldValidationError":  # the frozen configuration
            raise
    return m


def run(case):
    specs = case["specs"]
    first = maps.build(specs[0])
    if case["share"] and specs[0]["kind"] == specs[1]["kind"]:
        specs = [specs[0], specs[0]]
        v = specs[0].get("version")
        second = type(first)(first.config, version=v) if v is not None else type(first)(first.config)
    else:
        second = maps.build(specs[1])
    live = [first, second]
    visited = [set(), set()]
    changed = nontrivial = False
    resolveTracts(case, [len(first), len(second)])
    labels = set()
    for k, c in enumerate(case["calls"]):
        i = c["map"]
        spec = specs[i]
        c["ok"] = spec["kind"] == "discrete"
        if c["op"] in NOISE:
            live[i] = noise(live[i], c)
            changed |= c["op"].startswith("change")
            labels.add("noise")
            continue
        got = query(live[i], c)
        want = query(maps.build(spec), c)
        check(got == want, "call %d, %s on the %s map: %s; a fresh map gives %s", k, c["op"], spec["kind"], got, want)
        if c["op"] not in ("len", "sha", "findTractIdArray"):
            tid = c["tract"]
            nontrivial |= bool(visited[i] - {tid}) or changed
            visited[i].add(tid)
        labels.add(c["op"])
    return Outcome(nontrivial, labels)
