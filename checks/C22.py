import base64
import copy
import json
import os
import pickle

from hypothesis import strategies as st

from vlib import env, gen, maps
from vlib.harness import Outcome, check
from . import summary, tracts

ID = "C22"
TITLE = "A sky map survives pickling and copying unchanged, and old pickles still load"
RULE = ("A map of any kind (rings of both versions, others of versions that are numbers or pairs; some with a field or two away from the defaults), fresh or used, through pickle protocols 0 to 5, copy and deepcopy, "
        "once or several times over (and so for one of its tracts, a patch and a cell); the result equals it, has the same tracts, patches and answers, and stays so; "
        "with every field alone away from its default, and with pickles recorded from the pinned release. Non-trivial: a used map.")
QUICK, THOROUGH = 1500, 40000
GOLDEN = os.path.join(env.VERIF, "golden", "pickles.json")


@st.composite
def cases(draw):
    spec = draw(gen.anyMap(npix=gen.pixels(hi=3000), rotation=gen.rotations))
    if spec["kind"] == "rings":
        spec["version"] = draw(st.sampled_from([0, 1]))
    if spec["kind"] in ("healpix", "discrete") and draw(st.integers(0, 3)) == 0:
        spec["version"] = draw(st.one_of(st.integers(0, 5), st.sampled_from([[1, 0], [0, 3], [2, 1]])))  # kept for old instances, though nothing depends on it
    if spec["kind"] == "healpix":
        spec["log2NSide"] = min(2, spec["log2NSide"])
    if draw(st.integers(0, 3)) == 0:
        spec = draw(gen.sparse(spec))
    way = st.sampled_from(["p0", "p1", "p2", "p3", "p4", "p5", "p5", "copy", "deepcopy"])
    return dict(spec=spec, before=draw(st.lists(gen.frac(), max_size=2)), ways=draw(st.lists(way, min_size=1, max_size=3)),
                sha=draw(st.booleans()), tracts=draw(st.lists(gen.frac(), max_size=3)),
                points=draw(st.lists(gen.skyPoint(), max_size=3)))


strategy = cases


def goldens():
    with open(GOLDEN) as f:
        return json.load(f)


def exhaustive(tier):
    for i in range(len(goldens())):
        yield dict(golden=i)
    for k, spec in enumerate(gen.oneField()):
        if spec["kind"] == "rings":
            spec.setdefault("version", 1)
        if spec["kind"] == "healpix":
            spec.setdefault("log2NSide", 0)
        for ways in (["p%d" % (k % 6)], ["copy"], ["deepcopy"]):
            yield dict(spec=spec, before=[0.3]*(k % 2), ways=ways, sha=k % 3 == 0, tracts=[0.6], points=[[0.5, 0.1], [4.0, -0.9]])


def same(a, b, fractions, points, what):
    check(type(a) is type(b), "%s is a %s, not a %s", what, type(b).__name__, type(a).__name__)
    check(a == b and not a != b and hash(a) == hash(b) and a.getSha1() == b.getSha1(), "%s is not equal to the map", what)
    va, vb = (getattr(x, "_version", None) for x in (a, b))
    check(va == vb, "%s is of version %r, not %r", what, vb, va)
    check(len(a) == len(b), "%s has %d tracts, not %d", what, len(b), len(a))
    for i in tracts.choose(len(a), fractions):
        x, y = summary.tract(a[i]), summary.tract(b[i])
        check(x == y, "%s differs in tract %d: %s, not %s", what, i, y, x)
    for lon, lat in points:
        p = maps.sky(lon, lat)
        x, y = a.findTract(p).getId(), b.findTract(p).getId()
        check(x == y, "%s puts lon=%r lat=%r in tract %s, not %s", what, lon, lat, y, x)
    if hasattr(a, "getRingIndices"):
        for i in tracts.choose(len(a), fractions):
            check(tuple(a.getRingIndices(i)) == tuple(b.getRingIndices(i)), "%s has tract %d at %s, not %s", what, i,
                  b.getRingIndices(i), a.getRingIndices(i))


def copied(x, way):
    if way == "copy":
        return copy.copy(x)
    return copy.deepcopy(x) if way == "deepcopy" else pickle.loads(pickle.dumps(x, protocol=int(way[1])))


def parts(m, case):
    """Tracts, patches and cells may be copied too (to be sent to another process, say)."""
    way = case["ways"][0]
    for t in tracts.pick(m, case["tracts"][:1]):
        other = copied(t, way)
        check(summary.tract(other) == summary.tract(t), "tract %d after %s is %s, not %s", t.getId(), way, summary.tract(other),
              summary.tract(t))
        for lon, lat in case["points"]:
            p = maps.sky(lon, lat)
            check(other.contains(p) == t.contains(p), "tract %d after %s disagrees about lon=%r lat=%r", t.getId(), way, lon, lat)
        check(type(other) is type(t), "tract %d after %s is a %s", t.getId(), way, type(other).__name__)
        k = min(len(t) - 1, int(case["tracts"][0]*len(t)))
        for which in (t[k], other[k]):
            p = copied(which, way)
            check(p == t[k] and not p != t[k] and summary.patch(p) == summary.patch(t[k]), "patch %d of tract %d after %s is %s, not %s", k,
                  t.getId(), way, summary.patch(p), summary.patch(t[k]))
            if len(p):
                c = copied(p[len(p)//2], way)
                check(c == t[k][len(p)//2] and summary.cell(c) == summary.cell(t[k][len(p)//2]), "a cell of patch %d of tract %d after %s is %s",
                      k, t.getId(), way, summary.cell(c))


def run(case):
    if "golden" in case:
        rec = goldens()[case["golden"]]
        old = pickle.loads(base64.b64decode(rec["pickle"]))
        same(maps.build(rec["spec"]), old, [0.3, 0.7], [[0.0, 0.1], [1.5, 0.4], [4.0, -1.0], [6.28, 0.7], [3.1, 1.3]],
             "the recorded pickle")
        return Outcome(True, ["golden"])
    spec = case["spec"]
    m = maps.build(spec)
    for t in tracts.pick(m, case["before"]):
        if len(t) <= 20000:
            for k, _ in zip(range(2000), t):
                pass
    if case["sha"]:
        m.getSha1()
    out = m
    for way in case["ways"]:
        out = copied(out, way)
        same(m, out, case["tracts"], case["points"], "the map after %s" % way)
    if hasattr(m, "__setstate__") and spec["kind"] in ("dodeca", "equat"):
        version = m.getVersion()
        check(out.getVersion() == version, "the copy has version %s, not %s", out.getVersion(), version)
        state = dict(m.__getstate__())
        for newer in ((version[0] + 1, 0), (version[0] + 1, 7), (version[0] + 3, 0)):
            try:
                type(m).__new__(type(m)).__setstate__(dict(state, version=newer))
            except RuntimeError:
                continue
            check(False, "a pickle of version %s was read", newer)
        for alike in ((version[0], 0), (version[0], version[1] + 3)):
            old = type(m).__new__(type(m))
            old.__setstate__(dict(state, version=alike))
            same(m, old, case["tracts"], case["points"], "the map from a pickle of version %s" % (alike,))
    if case["ways"] and case["tracts"]:
        parts(m, case)
    # the original is still what it was
    same(maps.build(spec), m, case["tracts"], case["points"], "the original map")
    return Outcome(case["before"] or case["sha"], ["kind=" + spec["kind"], "version=%s" % spec.get("version")]
                   + ["way=" + w for w in case["ways"]])
