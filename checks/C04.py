import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from .ringmodel import RingModel, near

ID = "C04"
TITLE = "Rings sky maps follow the documented tract numbering everywhere on the sky"
RULE = ("A rings map (1 to 40 rings, now and then up to 250; any raStart) and up to 12 positions aimed at ring and "
        "RA edges, corners, poles and the raStart wrap, with up to 6 tract numbers, against an independent model "
        "of the numbering; within 1e-9 rad of an edge either neighbour is accepted. Non-trivial: a position outside "
        "the caps.")
QUICK, THOROUGH = 6000, 150000


@st.composite
def cases(draw):
    spec = dict(kind="rings", numRings=draw(st.one_of(st.integers(1, 12), st.integers(1, 40),
                                                      st.sampled_from([60, 79, 120, 200, 250]))),
                raStart=draw(gen.raStarts), pixelScale=1.0, tractOverlap=0.0,
                version=draw(st.sampled_from([1, None])))
    spec["pixelScale"] = gen.sig(180.0/(spec["numRings"] + 1)*3600/100)
    pts = draw(st.lists(gen.ringPoint(spec), min_size=1, max_size=12))
    size = sum(gen.ringCounts(spec["numRings"])) + 2
    ids = draw(st.lists(st.integers(0, size - 1), max_size=6))
    return dict(spec=spec, points=pts, ids=ids)


strategy = cases


def run(case):
    m = maps.build(case["spec"])
    model = RingModel(case["spec"])
    check(len(m) == model.size, "%d tracts; the layout has %d", len(m), model.size)
    labels = set()
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        got = m.findTract(p).getId()
        want = model.owners(*maps.lonlat(p))
        check(got in want, "findTract(lon=%r, lat=%r) is tract %s; the layout says %s", lon, lat, got, sorted(want))
        ring = model.ringOf(lat)
        labels.add("cap" if ring < 0 or ring >= model.n else "ring")
        if len(want) > 1:
            labels.add("on an edge")
    for i in list(case["ids"]) + [0, 1, model.size - 2, model.size - 1]:
        ring, t = model.place(i)
        check(tuple(m.getRingIndices(i)) == (ring, t), "getRingIndices(%d) is %s, not (%d, %d)", i,
              tuple(m.getRingIndices(i)), ring, t)
        tract = m[i]
        check(tract.getId() == i, "m[%d].getId() is %s", i, tract.getId())
        lon, lat = maps.lonlat(tract.getCtrCoord())
        wlon, wlat = model.centre(ring, t)
        check(abs(lat - wlat) < 1e-9 and (abs(lat) > 0.5*math.pi - 1e-9 or near(lon, wlon)),
              "tract %d is centred on %r, %r; the layout says %r, %r", i, lon, lat, wlon, wlat)
        check(m.findTract(tract.getCtrCoord()).getId() == i, "the centre of tract %d belongs to tract %d", i,
              m.findTract(tract.getCtrCoord()).getId())
    for bad in (-1, -model.size, model.size, model.size + 1, 2*model.size, 10**6):
        try:
            m.getRingIndices(bad)
        except IndexError:
            continue
        check(False, "getRingIndices(%d) of %d tracts did not raise", bad, model.size)
    return Outcome("ring" in labels, labels)
