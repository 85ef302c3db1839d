import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import cover

ID = "C07"
TITLE = "A whole-sky map holds every position in the tract it assigns it to"
RULE = ("A rings (1 to 40 rings, up to 120 now and then), dodecahedron, equatorial or HEALPix map, either tract "
        "builder, 6 to 40000 pixels across a tract, five projections, with an overlap at or above what that layout "
        "and projection need (computed independently), and up to 10 positions aimed at tract edges, corners and "
        "poles (equatorial: inside the declination band). Non-trivial: a position not at a tract centre.")
QUICK, THOROUGH = 5000, 120000


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["rings"]*4 + ["dodeca", "equat", "healpix"]))
    extra = draw(st.one_of(st.just(0.0), gen.floats(0.0, 1.0)))
    if kind == "rings":
        spec = draw(gen.rings(nmin=1, nmax=24, big=(40, 60, 120)))
        n, p = spec["numRings"], spec["projection"]
        r = 90.0/(n + 1)
        need = cover.ringsOverlap(n, p)
        if n == 1 and p == "TAN":
            extra = 0.3*extra
        spec["tractOverlap"] = round(need*1.002 + 1e-6 + extra*0.3*r, 9)
        npx = draw(gen.pixels())
        spec["pixelScale"] = gen.sig(2*(r + spec["tractOverlap"])*3600/npx)
        spec["rotation"] = draw(st.sampled_from([0.0, 0.0, 90.0, 180.0, 270.0]))
        point = gen.ringPoint(spec)
    elif kind == "dodeca":
        spec = draw(gen.dodeca(rotation=gen.rotations))
        spec["tractOverlap"] = round(cover.DODECA[spec["projection"]] + 10*extra, 6)
        point = st.one_of(gen.skyPoint(), dodecaEdge())
    elif kind == "equat":
        spec = draw(gen.equat(proj=("CEA", "CAR", "MER", "TAN"), rotation=st.sampled_from([0.0, 0.0, 90.0, 180.0])))
        if spec["projection"] == "TAN":
            spec["numTracts"] = max(4, spec["numTracts"])
            a, b = spec["decRange"]
            spec["decRange"] = [min(a, -0.2), max(b, 0.2)]
        point = bandPoint(spec)
    else:
        spec = draw(gen.healpix(rotation=st.sampled_from([45.0, 45.0, 0.0]), proj=("TAN", "STG", "ZEA")))
        lg = spec["log2NSide"]
        need = cover.healpixOverlap(lg, spec["nest"], spec["projection"], spec["rotation"])
        spec["tractOverlap"] = round(need + 0.2*extra*60.0/(1 << lg) + 1e-6, 9)
        point = gen.skyPoint()
    return dict(spec=spec, points=draw(st.lists(point, min_size=1, max_size=10)))


@st.composite
def dodecaEdge(draw):
    """Mixtures of two face normals (edge midpoints and around) of an upright dodecahedron."""
    inc = math.atan(2.0)
    k = draw(st.integers(0, 4))
    t = draw(st.one_of(st.just(0.5), gen.floats(0, 1)))
    lat = 0.5*math.pi - inc*t + draw(gen.tiny)
    lon = k*0.4*math.pi + draw(gen.tiny) + draw(st.sampled_from([0.0, 0.2*math.pi, math.pi]))
    return [lon % (2*math.pi), max(-1.5707, min(1.5707, draw(st.sampled_from([1, -1]))*lat))]


@st.composite
def bandPoint(draw, spec):
    a, b = spec["decRange"]
    lat = a + (b - a)*draw(gen.frac())
    w = 2*math.pi/spec["numTracts"]
    lon = (draw(st.integers(0, spec["numTracts"]))*w + draw(st.one_of(st.just(0.0), gen.tiny)) if draw(st.booleans())
           else draw(gen.lons))
    return [lon % (2*math.pi), math.radians(max(a, min(b, lat)))]


strategy = cases


def run(case):
    m = maps.build(case["spec"])
    nontrivial = False
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        t = m.findTract(p)
        x, y = t.getWcs().skyToPixel(p)
        box = t.getBBox()
        # a position on the very edge of a tract may round either way
        slack = 1e-6*max(box.getWidth(), box.getHeight()) if case["spec"]["kind"] == "equat" else 0.0
        if not t.contains(p):
            dx = max(box.getMinX() - 0.5 - x, x - box.getMaxX() - 0.5, 0)
            dy = max(box.getMinY() - 0.5 - y, y - box.getMaxY() - 0.5, 0)
            check(max(dx, dy) <= slack, "position lon=%r lat=%r belongs to tract %s but lies at pixel %r, %r, outside "
                  "its %s", lon, lat, t.getId(), x, y, box)
            continue
        patch = t.findPatch(p)
        check(patch.getInnerBBox().contains(maps.geom.Point2I(maps.geom.Point2D(x, y))),
              "findPatch(lon=%r, lat=%r) in tract %s is %s, whose inner box %s does not hold pixel %r, %r", lon, lat,
              t.getId(), patch, patch.getInnerBBox(), x, y)
        nontrivial |= p.separation(t.getCtrCoord()).asRadians() > 1e-6
    return Outcome(nontrivial, ["kind=" + case["spec"]["kind"], "projection=" + case["spec"]["projection"],
                                "builder=" + case["spec"]["builder"]["name"]])
