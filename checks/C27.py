import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C27"
TITLE = "An equatorial map divides its band into equal tracts by right ascension"
RULE = ("An equatorial map (1 to 250 tracts, declination bands on either side of the equator or across it, CEA, CAR, MER "
        "or TAN, either builder) and up to 10 positions in the band, many at the edges in RA: tract i spans the i-th of "
        "n equal RA ranges and the whole band, is centred on it and projected from the equator, all tracts are of one "
        "size, and findTract gives the tract whose range holds the RA (either within 1e-9 rad of an edge). "
        "Non-trivial: two tracts or more and a position outside tract 0.")
QUICK, THOROUGH = 2400, 120000


@st.composite
def cases(draw):
    spec = draw(gen.equat(proj=("CEA", "CEA", "CAR", "MER", "TAN"), nmin=1, nmax=draw(st.sampled_from([4, 4, 12, 12, 12, 40, 40, 40, 40, 250])),
                          rotation=st.sampled_from([0.0, 0.0, 90.0, 180.0, 30.0])))
    if spec["projection"] == "TAN":
        spec["numTracts"] = max(spec["numTracts"], 4)
        spec["tractOverlap"] = min(spec["tractOverlap"], 5.0)
    if spec["numTracts"] == 1:
        # A box all the way round plus its overlap wraps: not a layout this map supports.
        spec["numTracts"] = 2
    w = 2*math.pi/spec["numTracts"]
    point = st.one_of(
        st.tuples(gen.lons, gen.frac()),
        st.tuples(st.builds(lambda k, e: k*w + e, st.integers(0, spec["numTracts"]),
                            st.one_of(st.just(0.0), gen.tiny)), gen.frac()),
        st.tuples(st.builds(lambda k, e: (k + 0.5)*w + e, st.integers(0, spec["numTracts"]), gen.tiny), gen.frac()))
    return dict(spec=spec, points=[list(p) for p in draw(st.lists(point, min_size=1, max_size=10))])


strategy = cases


def run(case):
    spec = case["spec"]
    m = maps.build(spec)
    n = spec["numTracts"]
    w = 2*math.pi/n
    a, b = (math.radians(v) for v in spec["decRange"])
    check(len(m) == n, "%d tracts; configured %d", len(m), n)
    sizes = set()
    for i, t in enumerate(m):
        check(t.getId() == i and m[i].getId() == i, "tract %d says it is tract %s", i, t.getId())
        centre = maps.xyz(maps.sky((i + 0.5)*w, 0.5*(a + b)))
        check(maps.angsep(maps.xyz(t.getCtrCoord()), centre) < 1e-12, "tract %d is centred on %s", i, t.getCtrCoord())
        check(maps.angsep(maps.xyz(t.getWcs().getSkyOrigin()), maps.xyz(maps.sky((i + 0.5)*w, 0.0))) < 1e-12,
              "tract %d is projected from %s", i, t.getWcs().getSkyOrigin())
        got = [maps.xyz(v) for v in t.getVertexList()]
        want = [maps.xyz(maps.sky((i + e)*w, d)) for e in (0, 1) for d in (a, b)]
        check(len(got) == 4 and all(min(maps.angsep(g, v) for g in got) < 1e-12 for v in want),
              "tract %d has vertices %s", i, t.getVertexList())
        sizes.add(tuple(t.getNumPatches()))
    # Rounding may make the tracts of one map differ by a patch, not by more.
    check(max(s[0] for s in sizes) - min(s[0] for s in sizes) <= 1
          and max(s[1] for s in sizes) - min(s[1] for s in sizes) <= 1, "tracts of %s patches in one map", sorted(sizes))
    other = False
    for lon, f in case["points"]:
        lon %= 2*math.pi
        lat = max(a, min(b, a + f*(b - a)))
        t = m.findTract(maps.sky(lon, lat)).getId()
        # what the edge is worth depends on how far from the equator it is
        slack = 1e-9/math.cos(lat)
        d = abs((lon - (t + 0.5)*w + math.pi) % (2*math.pi) - math.pi)
        check(d <= 0.5*w + slack, "findTract(lon=%r, lat=%r) gives tract %s, centred %r rad away in RA; each spans %r", lon,
              lat, t, d, w)
        other |= t != 0
    return Outcome(other and n > 1, ["projection=" + spec["projection"],
                                     "equator" if a < 0 < b else "off the equator"])
