import random
import time

from hypothesis import strategies as st

from vlib import gen, maps, turns
from vlib.harness import Outcome, Violation, check
from . import C23
from . import packing

ID = "C35"
TITLE = "Sky maps and packers answer callers on several threads as each alone"
RULE = ("One map, or two with a configuration in common or not, of any kind, and two callers of 1 or 2 calls each (lookups, "
        "searches, tracts, patches, cells, hashes, iteration), or a packer or two, asked to pack and unpack. The first is stopped once at every line of lsst.skymap that "
        "it runs (at a bytecode drawn for the line; 60 lines at most, any), and the second runs to its end, or to a bytecode "
        "drawn, before the first goes on. Every answer, then and afterwards, must be that of a fresh map or packer asked only that. "
        "Non-trivial: the callers share it and the first was stopped at 20 lines or more (a packer: 5). A set of cases that is always run asks each thing of a map of each kind at two places at once, and has two callers take one tract of a fresh map, stopped anywhere: they get one object.")
QUICK, THOROUGH = 200, 8000
NOTE = "preemption at bytecodes of lsst.skymap's own code, up to two switches a schedule; nothing is proved beyond what was generated"
LINES = 60
SECONDS = 40     # spent on one case at most

OPS = ["tract", "tract", "patch", "cell", "findTract", "findTractIdArray", "findPatch", "findPatchList", "findAllTracts",
       "findTractPatchList", "findClosestTractPatchList", "sha", "len", "iterate"]


@st.composite
def call(draw):
    return dict(op=draw(st.sampled_from(OPS)), t=draw(gen.frac()), p=draw(gen.frac()), c=draw(gen.frac()),
                spots=draw(st.lists(gen.pixelSpot(), min_size=1, max_size=2)), point=draw(gen.skyPoint()), ok=True)


@st.composite
def packerCases(draw):
    """Two callers of one packer, or of two with a name in common."""
    packers = [draw(packing.packerCases())]
    how = draw(st.sampled_from(["one", "one", "one", "alike", "other"]))
    packers.append(draw(packing.packerCases()) if how == "other" else packers[0])
    callers = []
    for p in packers:
        calls = []
        for _ in range(draw(st.integers(1, 2))):
            spot = draw(packing.goodId(p))
            if spot is not None:
                calls.append(dict(op=draw(st.sampled_from(["pack", "unpack", "unpack", "unpack", "maxBits"])), spot=spot))
        callers.append(calls)
    return dict(packers=packers, how=how, same=how != "other" and draw(st.integers(0, 3)) == 0,
                salt=draw(st.integers(0, 10**6)), warm=draw(st.integers(0, 3)) == 0, callers=callers)


@st.composite
def cases(draw):
    if draw(st.integers(0, 5)) == 0:
        return draw(packerCases())
    kw = dict(npix=gen.pixels(hi=2000), maxPatches=4)
    a = draw(gen.anyMap(rotation=gen.rotations, **kw))
    how = draw(st.sampled_from(["one", "one", "one", "config", "other"]))
    b = draw(gen.anyMap(rotation=gen.rotations, **kw)) if how == "other" else a
    for s in (a, b):
        if s["kind"] == "healpix":
            s["log2NSide"] = 0
        if s["kind"] == "rings":
            s["numRings"] = min(4, s["numRings"])
    callers = [draw(st.lists(call(), min_size=1, max_size=2)) for _ in range(2)]
    if draw(st.booleans()):  # the same calls about other places
        callers[1] = [dict(d, op=c["op"]) for c, d in zip(callers[0], callers[1])]
    return dict(specs=[a, b], how=how, same=draw(st.booleans()), salt=draw(st.integers(0, 10**6)), warm=draw(st.integers(0, 3)) == 0,
                callers=callers)


strategy = cases


def exhaustive(tier):
    """Two callers that ask the same of one small map of each kind, about different places."""
    kinds = [dict(kind="discrete", raList=[10.0, 40.0, 200.0], decList=[0.0, 30.0, -60.0], radiusList=[1.0, 2.0, 0.5]),
             dict(kind="equat", numTracts=4, decRange=[-5.0, 5.0]), dict(kind="dodeca", withTractsOnPoles=True),
             dict(kind="rings", numRings=3, raStart=20.0, version=1), dict(kind="healpix", log2NSide=0, nest=False)]
    builders = [dict(name="legacy", inner=[60, 50], border=7), dict(name="cells", cell=20, perPatch=3, cellBorder=4, inBorder=1)]
    ends = [dict(t=0.0, p=0.1, c=0.1, spots=[[["f", 0.3, 0.0], ["f", 0.4, 0.0]]], point=[0.175, 0.0], ok=True),
            dict(t=0.99, p=0.8, c=0.9, spots=[[["f", 0.7, 0.0], ["f", 0.6, 0.0]], [["f", 0.1, 0.0], ["f", 0.6, 0.0]]],
                 point=[3.5, -1.1], ok=True)]
    salt = 0
    for k, kind in enumerate(kinds):
        for op in sorted(set(OPS)):
            if op in ("len", "iterate") or (op == "findAllTracts" and kind["kind"] != "rings"):
                continue
            for order in (0, 1):
                salt += 1
                scale = 60.0 if kind["kind"] == "discrete" else 1200.0
                spec = dict(kind, tractOverlap=0.5, pixelScale=scale, projection="TAN", rotation=0.0, builder=builders[(k + order) % 2])
                callers = [[dict(ends[order], op=op)], [dict(ends[1 - order], op=op)]]
                yield dict(specs=[spec, spec], how="one", same=False, salt=salt, warm=order == 1 and op != "sha", callers=callers)


    for k, kind in enumerate(kinds):
        if kind["kind"] in ("equat", "dodeca"):  # these make their tracts with the map
            continue
        for part in range(4):
            yield dict(object=part, spec=dict(kind, tractOverlap=0.5, pixelScale=60.0 if kind["kind"] == "discrete" else 1200.0,
                                              projection="TAN", rotation=0.0, builder=builders[k % 2]))


def oneObject(case):
    """Two callers ask for the same tract of a fresh map: both get the one that the map keeps."""
    (how, value), places = turns.record(lambda: maps.build(case["spec"])[1])
    if how == "error":
        raise value
    n = len(places)
    _, made = turns.record(lambda m=maps.build(case["spec"]): m[1])
    tail = max(1, len(made) - 14)
    cuts = [[line, codes] for line in list(range(1, 8)) + list(range(tail, len(made) + 1)) for codes in range(14)]
    cuts = [c for i, c in enumerate(cuts) if i % 4 == case["object"]]
    for cut in cuts:
        m = maps.build(case["spec"])
        try:
            got = turns.interleave([lambda: m[1], lambda: m[1]], [[cut], []])
        except turns.Deadlock:
            raise Violation("two callers of one tract wait for each other: the first stopped at %s" % cut) from None
        for i, (how, value) in enumerate(got):
            check(how == "value", "caller %d of one tract gets %r when the first is stopped at %s (lines, bytecodes)", i, value, cut)
        check(got[0][1] is got[1][1] and m[1] is got[0][1], "two callers get two objects for one tract when the first is "
              "stopped at %s (lines, bytecodes): searches take them for two tracts", cut)
    return Outcome(n > 0 and len(cuts) > 10, ["how=object", "kind=" + case["spec"]["kind"]])


prepare = packing.universe


def packed(spot, case):
    """The integer of a data ID, by the documented layout."""
    tract, patch, band = spot
    n_tracts, n_patches, n_bands, bands = packing.effective(case)
    return (bands[band]*n_tracts*n_patches if n_bands else 0) + tract*n_patches + patch


def answers(m, calls):
    out = []
    for c in calls:
        if "spot" in c:
            if c["op"] == "maxBits":
                out.append(m.maxBits)
            elif c["op"] == "pack":
                out.append(m.pack(packing.dataId(*c["spot"])))
            else:
                back = m.unpack(c["packed"])
                out.append({k: back[k] for k in back.dimensions.names})
            continue
        c = dict(c, tract=min(len(m) - 1, int(c["t"]*len(m))))
        if c["op"] == "iterate":
            out.append([t.getId() for _, t in zip(range(12), m)])
        else:
            out.append(C23.query(m, c))
    return out


def build(spec):
    return packing.makePacker(spec) if "record" in spec else maps.build(spec)


def pair(case):
    if "packers" in case:
        first = build(case["packers"][0])
        return [first, first if case["how"] == "one" else build(case["packers"][1])]
    first = maps.build(case["specs"][0])
    if case["how"] == "one":
        return [first, first]
    if case["how"] == "config":
        v = case["specs"][0].get("version")
        return [first, type(first)(first.config, version=v) if v is not None else type(first)(first.config)]
    return [first, maps.build(case["specs"][1])]


def run(case):
    if "object" in case:
        return oneObject(case)
    callers = case["callers"]
    if case["same"]:
        callers = [callers[0], callers[0]]
    specs = case["packers"] if "packers" in case else case["specs"]
    if "packers" in case:
        callers = [[dict(c, packed=packed(c["spot"], spec)) for c in calls] for spec, calls in zip(specs, callers)]
    want, places = [], []
    for spec, calls in zip(specs, callers):
        m = build(spec)
        if case["warm"]:
            answers(m, calls)
        (how, value), where = turns.record(lambda: answers(m, calls))
        if how == "error":
            raise value
        want.append(value)
        places.append(where)
    rand = random.Random(case["salt"])
    byLine = {}
    for k, place in enumerate(places[0]):
        byLine.setdefault(place, []).append(k + 1)
    cuts = sorted([rand.choice(v), rand.choice([0, 0, 1, 2, 3, 5, 8, 12])] for v in byLine.values())
    if len(cuts) > LINES:
        cuts = sorted(rand.sample(cuts, LINES))
    elif cuts:  # more of the lines that are run more than once
        more = [[k + 1, rand.choice([0, 0, 1, 2, 3, 5, 8])] for k in range(len(places[0]))]
        cuts = sorted(cuts + rand.sample(more, min(LINES - len(cuts), len(more) - len(cuts))))
    begun = time.monotonic()
    for cut in cuts:
        if time.monotonic() - begun > SECONDS:
            break
        back = [[rand.randint(1, len(places[1])), 0]] if places[1] and rand.random() < 0.4 else []
        ms = pair(case)
        if case["warm"]:
            for m, calls in zip(ms, callers):
                answers(m, calls)
        try:
            got = turns.interleave([lambda m=m, calls=calls: answers(m, calls) for m, calls in zip(ms, callers)],
                                   [[cut], back])
        except turns.Deadlock:
            raise Violation("the two callers wait for each other: the first stopped at %s" % cut) from None
        for i, (how, value) in enumerate(got):
            check(how == "value", "caller %d gets %r when the first is stopped at %s (lines, bytecodes) and the second at %s", i,
                  value, cut, back)
            check(value == want[i], "caller %d gets %s when the first is stopped at %s (lines, bytecodes) and the second at %s; "
                  "alone it gets %s", i, value, cut, back, want[i])
            if rand.random() < 0.5:
                continue
            again = answers(ms[i], callers[i])
            check(again == want[i], "after the callers were answered together (the first stopped at %s, the second "
                  "at %s) the map answers %s; alone %s", cut, back, again, want[i])
    kind = "packer" if "packers" in case else case["specs"][0]["kind"]
    return Outcome(case["how"] == "one" and len(cuts) >= (5 if "packers" in case else 20),
                   ["how=" + case["how"], "kind=" + kind, "lines<20" if len(cuts) < 20 else "lines>=20"])
