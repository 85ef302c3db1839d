import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from .ringmodel import RingModel, near

ID = "C05"
TITLE = "version=0 rings maps keep the tract numbering they were registered with"
RULE = ("As C04 with version=0, against a model of the documented off-by-one numbering (tract 1 duplicated at the "
        "end of the first ring, the first tract of the last ring missing). Non-trivial: a position in the first "
        "tract (the one at raStart) of a ring other than the first, or in any ring tract.")
QUICK, THOROUGH = 5000, 120000


@st.composite
def cases(draw):
    spec = dict(kind="rings", numRings=draw(st.one_of(st.integers(2, 12), st.integers(2, 40), st.sampled_from([120, 120, 200]))),
                raStart=draw(gen.raStarts), pixelScale=1.0, tractOverlap=0.0, version=0)
    spec["pixelScale"] = gen.sig(180.0/(spec["numRings"] + 1)*3600/100)
    pts = draw(st.lists(gen.ringPoint(spec), min_size=1, max_size=12))
    size = sum(gen.ringCounts(spec["numRings"])) + 2
    ids = draw(st.lists(st.integers(0, size - 1), max_size=6))
    return dict(spec=spec, points=pts, ids=ids)


strategy = cases


def run(case):
    m = maps.build(case["spec"])
    model = RingModel(case["spec"])
    check(len(m) == model.size, "%d tracts; the layout has %d", len(m), model.size)
    labels = set()
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        got = m.findTract(p).getId()
        want = model.owners(*maps.lonlat(p))
        check(got in want, "findTract(lon=%r, lat=%r) is tract %s; version 0 numbering says %s", lon, lat, got,
              sorted(want))
        ring = model.ringOf(lat)
        if 0 <= ring < model.n:
            labels.add("ring")
            if model.tractOf(ring, lon) == 0 and ring > 0:
                labels.add("first tract of a later ring")
                if ring == model.n - 1:
                    labels.add("the missing tract")
    ids = [int(i) for i in m.findTractIdArray([p[0] for p in case["points"]], [p[1] for p in case["points"]])]
    check(len(ids) == len(case["points"]), "findTractIdArray gives %d ids for %d positions", len(ids), len(case["points"]))
    for (lon, lat), got in zip(case["points"], ids):
        want = model.owners(lon, lat)
        check(got in want, "findTractIdArray gives tract %s for (lon=%r, lat=%r); version 0 numbering says %s", got, lon,
              lat, sorted(want))
    n0 = model.counts[0]
    for i in list(case["ids"]) + [0, 1, n0, n0 + 1, n0 + 2, model.size - 2, model.size - 1]:
        tract = m[i]
        check(tract.getId() == i, "m[%d].getId() is %s", i, tract.getId())
        ring, t = model.place(i)
        r, k = m.getRingIndices(i)
        check(r == ring and k >= 0 and (k - t) % (model.counts[ring] if 0 <= ring < model.n else 10**9) == 0,
              "getRingIndices(%d) is %s; version 0 numbering says %s", i, (r, k), (ring, t))
        lon, lat = maps.lonlat(tract.getCtrCoord())
        wlon, wlat = model.centre(ring, t)
        check(abs(lat - wlat) < 1e-9 and (abs(lat) > 0.5*math.pi - 1e-9 or near(lon, wlon)),
              "version 0 tract %d is centred on %r, %r, not %r, %r", i, lon, lat, wlon, wlat)
        want = 1 if i == n0 + 1 else i
        got = m.findTract(tract.getCtrCoord()).getId()
        check(got == want, "the centre of version 0 tract %d belongs to tract %d, not %d", i, got, want)
    for bad in (-1, -model.size, model.size, model.size + 1, 10**6):
        try:
            m.getRingIndices(bad)
        except IndexError:
            continue
        check(False, "getRingIndices(%d) of %d tracts did not raise", bad, model.size)
    return Outcome("ring" in labels, labels)
