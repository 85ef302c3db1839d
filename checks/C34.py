import math
import warnings

from hypothesis import strategies as st

import lsst.sphgeom as sphgeom
from lsst.skymap import detail
from lsst.skymap.tractBuilder import tractBuilderRegistry
from lsst.skymap.tractInfo import ExplicitTractInfo, TractInfo

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import summary, tracts

ID = "C34"
TITLE = "A tract made from any outline holds it in whole patches on the given pixel grid"
RULE = ("A tract builder of either kind, a WCS (any projection, rotation, handedness, reference pixel and position) and one "
        "to three tracts made with them from outlines of 1 to 15 positions or from radii, any overlap; also the builder's own "
        "setupPatches on pixel boxes anywhere. Each tract holds what it must in the fewest whole patches, with the spare "
        "pixels shared, its WCS is the given one moved by whole pixels, and making another changes nothing of it. "
        "Non-trivial: two tracts of different sizes.")
QUICK, THOROUGH = 4000, 100000


@st.composite
def outlines(draw):
    how = draw(st.sampled_from(["vertices", "vertices", "radius"]))
    out = dict(how=how, overlap=gen.sig(draw(st.one_of(st.just(0.0), gen.floats(0.0, 1.0), gen.floats(-3.0, 0.0).map(lambda v: 10**v))), 4))
    if how == "radius":
        out["radius"] = gen.sig(draw(gen.floats(0.01, 3.0)), 4)
        out["corners"] = None
    else:
        out["vertices"] = draw(st.lists(st.tuples(gen.floats(0, 360), gen.floats(0, 3)).map(
            lambda v: [gen.sig(v[0]), gen.sig(v[1])]), min_size=1, max_size=draw(st.sampled_from([6, 6, 6, 15]))))
        out["corners"] = draw(st.sampled_from([None, None, [0.1, -0.2, 0.4, 0.3], [6.2, -1.0, 0.1, 1.0]]))
    return out


@st.composite
def cases(draw):
    npx = draw(gen.pixels(hi=5000))
    case = dict(builder=draw(gen.builders(npx, 6)), scale=gen.sig(draw(st.sampled_from([1.0, 4.0, 8.0]))*3600/npx),
                projection=draw(st.sampled_from(gen.PROJ)), rotation=draw(gen.rotations), flip=draw(st.booleans()),
                crpix=[gen.sig(draw(st.one_of(st.just(0.0), gen.floats(-1e4, 1e4)))) for _ in range(2)],
                centre=[gen.sig(draw(gen.floats(0, 359.99))), gen.sig(draw(st.one_of(gen.floats(-90, 90), gen.floats(-89, 89))))],
                outlines=draw(st.lists(outlines(), min_size=1, max_size=3)), ids=draw(st.integers(0, 1000)),
                boxes=draw(st.lists(st.tuples(st.integers(-5000, 5000), st.integers(-5000, 5000), st.integers(1, 3000),
                                              st.integers(1, 3000)).map(list), max_size=3)), used=draw(st.integers(0, 3)) == 0)
    if draw(st.integers(0, 3)) == 0:  # small tracts of small pixels
        less = draw(st.sampled_from([0.1, 0.01, 0.01, 1e-3]))
        case["scale"] = gen.sig(less*case["scale"])
        for o in case["outlines"]:
            o["overlap"] = gen.sig(less*o["overlap"], 4)
            if o["how"] == "radius":
                o["radius"] = gen.sig(less*o["radius"], 4)
            else:
                o["vertices"] = [[b, gen.sig(less*r)] for b, r in o["vertices"]]
    return case


strategy = cases


def makeBuilder(spec):
    cls = tractBuilderRegistry[spec["name"]]
    config = cls.ConfigClass()
    if spec["name"] == "legacy":
        config.patchInnerDimensions, config.patchBorder = list(spec["inner"]), spec["border"]
    else:
        config.cellInnerDimensions = [spec["cell"], spec["cell"]]
        config.cellBorder = spec["cellBorder"]
        config.numCellsPerPatchInner, config.numCellsInPatchBorder = spec["perPatch"], spec["inBorder"]
    return cls(config)


def deg(v):
    return v*maps.geom.degrees


def whole(lo, hi, inner):
    return -(-(math.floor(hi + 0.5) - math.floor(lo + 0.5) + 1)//inner)


def examine(case, wcs, t, o, vertices, centre):
    inner = maps.patchDims(case["builder"])
    n = tuple(t.getNumPatches())
    box = maps.boxTuple(t.getBBox())
    name = "tract %s" % t.getId()
    check(box == (0, 0, n[0]*inner[0], n[1]*inner[1]), "%s of %s patches of %s has box %s", name, n, inner, box)
    check(abs(t.getTractOverlap().asDegrees() - o["overlap"]) < 1e-9, "%s has overlap %s; given %r", name,
          t.getTractOverlap(), o["overlap"])
    check(t.getCtrCoord() == centre, "%s is centred on %s; given %s", name, t.getCtrCoord(), centre)
    # the given pixel grid, moved by whole pixels
    at = [centre] + [centre.offset(deg(b), deg(0.7)) for b in (10, 100, 230)]
    moved = []
    for p in at:
        a, b = wcs.skyToPixel(p), t.getWcs().skyToPixel(p)
        moved.append((b[0] - a[0], b[1] - a[1]))
    for m in moved:
        for k in (0, 1):
            e = 1e-6 + 1e-11*abs(m[k])
            check(abs(m[k] - round(m[k])) < e and abs(m[k] - moved[0][k]) < e, "%s: its pixels are those of the given WCS "
                  "moved by %s", name, moved)
    shift = [round(v) for v in moved[0]]
    # what it has to hold
    if o["how"] == "radius":
        small = big = [centre.offset(deg(b), deg(o["radius"] + o["overlap"])) for b in (0, 90, 180, 270)]
    elif o["overlap"] == 0:
        small = big = vertices
    else:
        half = 0.5*o["overlap"]
        small = [v.offset(deg(7.5*k), deg(0.985*half)) for v in vertices for k in range(48)]
        big = [v.offset(deg(2.5*k), deg(1.0001*half)) for v in vertices for k in range(144)]
    pix = []
    for pts in (small, big):
        q = [wcs.skyToPixel(p) for p in pts]
        pix.append([(min(p[k] for p in q) + shift[k], max(p[k] for p in q) + shift[k]) for k in (0, 1)])
    for k in (0, 1):
        e = 1e-6 + 1e-9*box[k + 2]
        (lo, hi), (lo2, hi2) = pix[0][k], pix[1][k]
        check(-0.5 - e <= lo and hi <= box[k + 2] - 0.5 + e, "%s with box %s has to hold pixel positions %r to %r along %s",
              name, box, lo, hi, "xy"[k])
        least, most = whole(lo + e, hi - e, inner[k]), whole(lo2 - e, hi2 + e, inner[k])
        check(least <= n[k] <= most, "%s has %d patches of %d along %s for pixel positions %r to %r", name, n[k], inner[k],
              "xy"[k], lo, hi)
        below, above = math.floor(lo + 0.5), box[k + 2] - 1 - math.floor(hi + 0.5)
        slack = 2 + (lo - lo2) + (hi2 - hi)
        check(abs(below - above) <= slack, "%s has %d pixels to spare below and %d above along %s", name, below, above,
              "xy"[k])
    # vertices and region
    if o["how"] == "vertices":
        got = list(t.getVertexList())
        check(len(got) == len(vertices) and all(a == b for a, b in zip(got, vertices)), "%s has vertices %s; given %s", name,
              got, vertices)
        if o["corners"]:
            region = t.getInnerSkyRegion()
            w, s, e_, n_ = o["corners"]
            for x, y, want in ((0.5, 0.5, True), (0.02, 0.98, True), (0.98, 0.03, True), (1.1, 0.5, False), (0.5, -0.1, False),
                               (-0.1, 0.5, False), (0.5, 1.1, False)):
                lon = w + x*((e_ - w) % (2*math.pi))
                v = sphgeom.UnitVector3d(*maps.xyz(maps.sky(lon % (2*math.pi), s + y*(n_ - s))))
                check(region.contains(v) is want, "the inner region of %s, from corners %s: contains(%r, %r) is %r", name,
                      o["corners"], lon, s + y*(n_ - s), not want)


def run(case):
    warnings.simplefilter("ignore")
    centre = maps.skyDeg(*case["centre"])
    factory = detail.WcsFactory(pixelScale=maps.geom.Angle(math.radians(case["scale"]/3600)), projection=case["projection"],
                                rotation=deg(case["rotation"]), flipX=case["flip"])
    wcs = factory.makeWcs(crPixPos=maps.geom.Point2D(*case["crpix"]), crValCoord=centre)
    p = wcs.skyToPixel(centre)
    check(math.hypot(p[0] - case["crpix"][0], p[1] - case["crpix"][1]) < 1e-6, "the reference position is at pixel %s, not %s",
          p, case["crpix"])
    # handedness: with y up, x runs west, or east when flipped
    step = 1e-6/math.radians(case["scale"]/3600)
    v = maps.xyz(centre)
    ends = [maps.xyz(wcs.pixelToSky(maps.geom.Point2D(p[0] + dx, p[1] + dy))) for dx, dy in ((step, 0), (0, step))]
    turn = maps.dot(v, maps.cross([a - b for a, b in zip(ends[0], v)], [a - b for a, b in zip(ends[1], v)]))
    check((turn > 0) is case["flip"], "flipX=%s, but the axes turn by %r", case["flip"], turn)

    builder = makeBuilder(case["builder"])
    inner = maps.patchDims(case["builder"])
    if case.get("used"):  # by its owner, before any tract is made with it
        builder.setupPatches(maps.geom.Box2I(maps.geom.Point2I(5, 7), maps.geom.Extent2I(10*inner[0] + 1, inner[1])), wcs)
    made, before = [], []
    for k, o in enumerate(case["outlines"]):
        ident = case["ids"] + k
        if o["how"] == "radius":
            vertices = None
            t = ExplicitTractInfo(ident, builder, centre, deg(o["radius"]), deg(o["overlap"]), wcs)
        else:
            vertices = [centre.offset(deg(b), deg(r)) for b, r in o["vertices"]]
            corners = None
            if o["corners"]:
                c = o["corners"]
                corners = [sphgeom.LonLat(lon=sphgeom.NormalizedAngle(c[i]), lat=sphgeom.Angle(c[i + 1])) for i in (0, 2)]
            t = TractInfo(ident, builder, centre, vertices, deg(o["overlap"]), wcs, innerBoxCorners=corners)
        check(t.getId() == ident, "tract %d says it is %s", ident, t.getId())
        made.append((t, o, vertices))
        before.append(summary.tract(t))
    for (t, o, vertices), was in zip(made, before):
        now = summary.tract(t)
        check(now == was, "tract %s was %s; after others were made with its builder it is %s", t.getId(), was, now)
        examine(case, wcs, t, o, vertices, centre)
    # the builder itself
    for x, y, w, h in case["boxes"]:
        least = maps.geom.Box2I(maps.geom.Point2I(x, y), maps.geom.Extent2I(w, h))
        box, num = builder.setupPatches(least, wcs)
        got = maps.boxTuple(box)
        want = [-(-size//d) for size, d in zip((w, h), inner)]
        check(list(num) == want and got[2] - got[0] == want[0]*inner[0] and got[3] - got[1] == want[1]*inner[1],
              "setupPatches of %s gives %s patches of %s in %s", least, num, inner, got)
        for k, a in ((0, x), (1, y)):
            below, above = a - got[k], got[k + 2] - a - (w, h)[k]
            check(below >= 0 and above >= 0 and abs(below - above) <= 1, "setupPatches of %s gives %s: %d pixels below and %d "
                  "above along %s", least, got, below, above, "xy"[k])
        check(maps.boxTuple(least) == (x, y, x + w, y + h), "setupPatches changed the box it was given")
        for i, j in ((0, 0), (want[0] - 1, want[1] - 1)):
            b = maps.boxTuple(builder.getPatchInfo((i, j), wcs).getInnerBBox())
            check(b == (i*inner[0], j*inner[1], (i + 1)*inner[0], (j + 1)*inner[1]), "patch (%d, %d) of %s has inner box %s",
                  i, j, inner, b)
    for (t, o, vertices), was in zip(made, before):
        check(summary.tract(t) == was, "tract %s changed when its builder was used again", t.getId())
    sizes = {tuple(t.getNumPatches()) for t, _, _ in made}
    return Outcome(len(sizes) > 1, ["builder=" + case["builder"]["name"], "flipped" if case["flip"] else "as on the sky",
                                    "tracts=%d" % len(made)])


_ = tracts
