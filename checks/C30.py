import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C30"
TITLE = "Without a layout rule of its own, a map gives the tract with the nearest centre"
RULE = ("A discrete map of 1 to 24 tracts (clusters, repeats, poles, antipodes) or an equatorial one, and up to 10 "
        "positions anywhere on the sky, many half way between two centres: findTract and findTractIdArray give a tract "
        "with the smallest distance, to 1e-9 rad, from its centre to the position. Non-trivial: two tracts or more.")
QUICK, THOROUGH = 4000, 100000


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        spec = draw(gen.equat(npix=gen.pixels(hi=1000)))
        centres = [[(360.0/spec["numTracts"])*(k + 0.5), 0.5*sum(spec["decRange"])] for k in range(spec["numTracts"])]
    else:
        n = draw(st.integers(1, 24))
        c0 = [draw(st.sampled_from([0.0, 359.999, 180.0, 77.0])), draw(st.sampled_from([0.0, 89.99, -89.99, 30.0, -60.0]))]
        centre = st.one_of(
            st.tuples(gen.floats(0, 359.99), gen.floats(-90, 90)),
            st.just(tuple(c0)),
            st.tuples(gen.floats(-2, 2).map(lambda v: (c0[0] + v) % 360.0),
                      gen.floats(-2, 2).map(lambda v: max(-90.0, min(90.0, c0[1] + v)))),
            st.just(((c0[0] + 180) % 360, -c0[1])),
            st.sampled_from([(0.0, 90.0), (10.0, -90.0), (0.0, 0.0)]))
        centres = [[gen.sig(a, 8), gen.sig(d, 8)] for a, d in draw(st.lists(centre, min_size=n, max_size=n))]
        spec = dict(kind="discrete", raList=[c[0] for c in centres], decList=[c[1] for c in centres],
                    radiusList=[gen.sig(draw(gen.floats(0.01, 1)), 3) for _ in centres],
                    tractOverlap=draw(st.one_of(st.just(0.0), gen.floats(0, 4).map(lambda v: gen.sig(v, 3)))), pixelScale=60.0,
                    projection="TAN", rotation=0.0, builder=dict(name="legacy", inner=[40, 40], border=2))

    def between(i, j, w, e1, e2):
        a, b = (maps.xyz(maps.skyDeg(*centres[k % len(centres)])) for k in (i, j))
        v = [w*p + (1 - w)*q + e for p, q, e in zip(a, b, (e1, e2, -e1))]
        n = math.sqrt(maps.dot(v, v))
        if n < 1e-9:
            return [0.3, 0.2]
        return [math.atan2(v[1], v[0]) % (2*math.pi), math.asin(max(-1, min(1, v[2]/n)))]
    k = st.integers(0, 23)
    point = st.one_of(gen.skyPoint(), st.builds(between, k, k, st.sampled_from([0.5, 0.5001, 0.4999, 1.0, 1.5, 0.3]),
                                                st.one_of(st.just(0.0), gen.tiny), st.one_of(st.just(0.0), gen.tiny)))
    return dict(spec=spec, points=draw(st.lists(point, min_size=1, max_size=10)))


strategy = cases


def run(case):
    m = maps.build(case["spec"])
    spec = case["spec"]
    if spec["kind"] == "discrete":
        at = list(zip(spec["raList"], spec["decList"]))
    else:
        at = [(360.0/len(m)*(k + 0.5), 0.5*sum(spec["decRange"])) for k in range(len(m))]
    centres = [maps.xyz(maps.skyDeg(*c)) for c in at]
    pts = [maps.sky(lon, lat) for lon, lat in case["points"]]
    ids = m.findTractIdArray([p[0] for p in case["points"]], [p[1] for p in case["points"]])
    check(len(ids) == len(pts), "findTractIdArray gives %d ids for %d positions", len(ids), len(pts))
    for p, (lon, lat), i in zip(pts, case["points"], ids):
        seps = [maps.angsep(maps.xyz(p), c) for c in centres]
        for got, what in ((m.findTract(p).getId(), "findTract"), (int(i), "findTractIdArray")):
            check(0 <= got < len(seps) and seps[got] <= min(seps) + 1e-9, "%s(lon=%r, lat=%r) gives tract %s, %r rad away; "
                  "tract %d is %r away", what, lon, lat, got, seps[got] if 0 <= got < len(seps) else None,
                  seps.index(min(seps)), min(seps))
    return Outcome(len(m) > 1, ["kind=" + spec["kind"]])
