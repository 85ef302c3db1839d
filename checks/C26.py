import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

from lsst.skymap import detail

ID = "C26"
TITLE = "A dodecahedron map's tracts are the faces of a regular dodecahedron, in order"
RULE = ("A dodecahedron map (both orientations, either builder, any projection, rotation and overlap) and up to 12 "
        "positions, many at edges, vertices and poles, against the regular dodecahedron in closed form: the number, "
        "centre and vertices of every tract, and findTract gives the tract with the nearest centre (either one within "
        "1e-9 rad of an edge). Non-trivial: a position that is not a centre.")
QUICK, THOROUGH = 2400, 120000

EDGE = math.acos(1/math.sqrt(5))                          # between the centres of two faces that meet
CIRCUM = math.acos(math.sqrt((5 + 2*math.sqrt(5))/15))    # from a face's centre to its vertices
SIDE = math.acos(math.sqrt(5)/3)                          # between two adjacent vertices


def faces(onPoles):
    """Unit vectors of the face centres: from north to south, then by increasing longitude."""
    if onPoles:
        low = 0.5*math.pi - EDGE
        at = ([(0, 0.5*math.pi)] + [(72*k, low) for k in range(5)] + [(72*k + 36, -low) for k in range(5)]
              + [(0, -0.5*math.pi)])
    else:
        high, low = math.asin(math.sqrt((5 + 2*math.sqrt(5))/15)), math.asin(math.sqrt((5 - 2*math.sqrt(5))/15))
        at = [(120*k + off, lat) for lat, off in ((high, 0), (low, 60), (-low, 0), (-high, 60)) for k in range(3)]
    return [maps.xyz(maps.sky(math.radians(lon), lat)) for lon, lat in at]


FACES = {p: faces(p) for p in (False, True)}


def mix(vecs, weights):
    v = [sum(w*u[k] for u, w in zip(vecs, weights)) for k in range(3)]
    n = math.sqrt(maps.dot(v, v))
    return [math.atan2(v[1], v[0]) % (2*math.pi), math.asin(max(-1.0, min(1.0, v[2]/n)))]


@st.composite
def spot(draw, onPoles):
    how = draw(st.sampled_from(["sky", "edge", "edge", "vertex", "centre", "pole"]))
    f = FACES[onPoles]
    i = draw(st.integers(0, 11))
    near = [u for u in f if 0.1 < maps.angsep(u, f[i]) < EDGE + 0.01]
    if how == "sky":
        return draw(gen.skyPoint())
    if how == "pole":
        return [draw(gen.lons), draw(st.sampled_from([-1, 1]))*(0.5*math.pi - draw(st.sampled_from([0, 1e-15, 1e-9,
                                                                                                  1e-3])))]
    if how == "centre":
        return mix([f[i]], [1.0])
    j = near[draw(st.integers(0, 4))]
    off = 1 + draw(gen.tiny)
    if how == "edge":  # a point on (or off) the great circle between two faces that meet
        third = draw(st.sampled_from([u for u in near if 0.1 < maps.angsep(u, j) < EDGE + 0.01]))
        return mix([f[i], j, third], [1.0, off, draw(gen.frac())])
    third = draw(st.sampled_from([u for u in near if 0.1 < maps.angsep(u, j) < EDGE + 0.01]))
    return mix([f[i], j, third], [1.0, off, 1 + draw(gen.tiny)])


@st.composite
def cases(draw):
    spec = draw(gen.dodeca(rotation=gen.rotations, npix=gen.pixels(hi=3000)))
    return dict(spec=spec, points=draw(st.lists(spot(spec["withTractsOnPoles"]), min_size=1, max_size=12)),
                scale=draw(st.sampled_from([1.0, 1e-6, 0.3, 17.0, 1e9])), ra=gen.sig(draw(gen.floats(0.0, 359.9))))


strategy = cases


def run(case):
    m = maps.build(case["spec"])
    want = FACES[case["spec"]["withTractsOnPoles"]]
    check(m.getWithTractsOnPoles() is case["spec"]["withTractsOnPoles"], "getWithTractsOnPoles() is %r",
          m.getWithTractsOnPoles())
    check(len(m) == 12, "%d tracts", len(m))
    solid = detail.Dodecahedron(withFacesOnPoles=case["spec"]["withTractsOnPoles"])
    check(solid.getWithFacesOnPoles() is case["spec"]["withTractsOnPoles"], "getWithFacesOnPoles() is %r",
          solid.getWithFacesOnPoles())
    corners = []
    for i, t in enumerate(m):
        check(t.getId() == i and m[i].getId() == i, "tract %d says it is tract %s", i, t.getId())
        check(maps.angsep(maps.xyz(t.getCtrCoord()), want[i]) < 1e-9, "tract %d is centred on %s", i, t.getCtrCoord())
        v = [maps.xyz(p) for p in t.getVertexList()]
        check(len(v) == 5, "tract %d has %d vertices", i, len(v))
        for k in range(5):
            check(abs(maps.angsep(v[k], want[i]) - CIRCUM) < 1e-9, "vertex %d of tract %d is %r rad from its centre", k, i,
                  maps.angsep(v[k], want[i]))
            check(abs(maps.angsep(v[k], v[k - 1]) - SIDE) < 1e-9, "vertices %d and %d of tract %d are %r rad apart, "
                  "not neighbours", k - 1, k, i, maps.angsep(v[k], v[k - 1]))
        check(all(maps.angsep(v[j], v[k]) > 0.1 for j in range(5) for k in range(j)), "tract %d has a vertex twice", i)
        corners += v
    for v in corners:
        n = sum(maps.angsep(v, u) < 1e-9 for u in corners)
        check(n == 3, "a vertex is shared by %d tracts, not 3", n)
    nontrivial = False
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        got = m.findTract(p).getId()
        seps = [maps.angsep(maps.xyz(p), f) for f in want]
        check(seps[got] <= min(seps) + 1e-9, "findTract(lon=%r, lat=%r) gives tract %s, whose centre is %r rad away; that of "
              "tract %d is %r", lon, lat, got, seps[got], seps.index(min(seps)), min(seps))
        nontrivial |= min(seps) > 1e-6
        # the solid itself, for a vector of any length
        v = [case["scale"]*c for c in maps.xyz(p)]
        i = int(solid.getFaceInd(np.array(v)))
        check(seps[i] <= min(seps) + 1e-9, "getFaceInd(%r) is %s, whose centre is %r rad away; that of face %d is %r", v, i,
              seps[i], seps.index(min(seps)), min(seps))
        if math.hypot(v[0], v[1]) > 0:
            q = detail.coordFromVec(np.array(v))
            check(maps.angsep(maps.xyz(q), maps.xyz(p)) < 1e-12, "coordFromVec(%r) is %s", v, q)
    del solid.getFaceCtrList()[3:]  # a list of the caller's own
    check(len(solid.getFaceCtrList()) == 12, "there are %d faces", len(solid.getFaceCtrList()))
    for i, c in enumerate(solid.getFaceCtrList()):
        check(maps.angsep(tuple(c), want[i]) < 1e-9 and maps.angsep(tuple(solid.getFaceCtr(i)), want[i]) < 1e-9,
              "face %d is centred on %s", i, c)
    # at a pole the right ascension is the one asked for
    for z in (case["scale"], -case["scale"]):
        q = detail.coordFromVec([0.0, 0.0, z], defRA=maps.geom.Angle(case["ra"], maps.geom.degrees))
        lon, lat = maps.lonlat(q)
        check(abs(lat - math.copysign(0.5*math.pi, z)) < 1e-12 and abs(math.remainder(lon - math.radians(case["ra"]),
              2*math.pi)) < 1e-12, "coordFromVec([0, 0, %r], defRA=%r deg) is %s", z, case["ra"], q)
        try:
            q = detail.coordFromVec([0.0, 0.0, z])
        except RuntimeError:
            continue
        check(False, "coordFromVec([0, 0, %r]) with no RA to use gave %s", z, q)
    return Outcome(nontrivial, ["on poles" if case["spec"]["withTractsOnPoles"] else "vertex on poles"])
