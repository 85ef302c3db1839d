import copy
import hashlib
import math
import pickle
import struct

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import C13, repo, shamodel

import lsst.geom as geom
from lsst.pex.config import Field, ListField
from lsst.skymap import Index2D
from lsst.skymap.patchInfo import PatchInfo
from lsst.skymap.tractBuilder import BaseTractBuilder, BaseTractBuilderConfig, tractBuilderRegistry
from lsst.skymap.tractInfo import ExplicitTractInfo, TractInfo
from lsst.skymap.detail import WcsFactory

ID = "C41"
TITLE = "A tract builder of one's own lays out the tracts of every kind of map"
RULE = ("A tract builder defined here (all the public methods of BaseTractBuilder: patches counted by rows, by columns or "
        "backwards, spare pixels to either side, patches with or without cells), registered, chosen by the configuration of "
        "a map of any kind (or given to tracts made directly); tracts, patches, searches, SHA-1, pickles and records must be "
        "what it says, whatever is made with it meanwhile. Non-trivial: a tract of several patches, not counted by rows.")
QUICK, THOROUGH = 1200, 40000

LAID = []       # (builder, wcs given, box given back, counts) for every tract laid out


class OwnConfig(BaseTractBuilderConfig):
    inner = ListField(dtype=int, doc="size of the patches", length=2, default=[100, 100])
    border = Field(dtype=int, doc="border of the patches", default=0)
    order = Field(dtype=str, doc="how patches are numbered", default="rows")
    spare = Field(dtype=str, doc="where the spare pixels go", default="left")
    extra = Field(dtype=int, doc="patches more than needed", default=0)
    cells = Field(dtype=int, doc="cells across a patch", default=0)
    note = Field(dtype=str, doc="goes into the packed configuration first", default="")


class OwnBuilder(BaseTractBuilder):
    """By the documentation of BaseTractBuilder; nothing of its insides is used."""
    ConfigClass = OwnConfig

    def __init__(self, config):
        super().__init__(config)
        self.own = dict(config.toDict())
        self.laid = None

    def setupPatches(self, minBBox, wcs):
        box = geom.Box2I(minBBox)
        size = [box.getWidth(), box.getHeight()]
        start = [box.getMinX(), box.getMinY()]
        counts = []
        for i in range(2):
            inner = self.own["inner"][i]
            n = -(-size[i]//inner) + self.own["extra"]
            spare = n*inner - size[i]
            start[i] -= dict(left=spare, right=0, middle=spare//2)[self.own["spare"]]
            counts.append(n)
        self.laid = counts
        out = geom.Box2I(geom.Point2I(*start), geom.Extent2I(counts[0]*self.own["inner"][0], counts[1]*self.own["inner"][1]))
        LAID.append((self, wcs, start, tuple(counts)))
        return out, Index2D(*counts)

    def getPatchBorder(self):
        return self.own["border"]

    def getPatchInnerDimensions(self):
        return geom.Extent2I(*self.own["inner"])

    def getSequentialPatchIndexFromPair(self, index):
        return number(self.own, self.laid, tuple(index))

    def getSequentialPatchIndex(self, patchInfo):
        return self.getSequentialPatchIndexFromPair(patchInfo.getIndex())

    def getPatchIndexPair(self, sequentialIndex):
        return Index2D(*pairOf(self.own, self.laid, sequentialIndex))

    def getPatchInfo(self, index, tractWcs):
        pair = tuple(self.getPatchIndexPair(index)) if isinstance(index, int) else tuple(index)
        if not (0 <= pair[0] < self.laid[0] and 0 <= pair[1] < self.laid[1]):
            raise IndexError("no patch %s" % (index,))
        inner, outer = boxes(self.own, self.laid, pair)
        kw = {}
        if self.own["cells"]:
            kw = dict(cellInnerDimensions=[v//self.own["cells"] for v in self.own["inner"]], cellBorder=1,
                      numCellsPerPatchInner=self.own["cells"], numCellsInPatchBorder=0)
        return PatchInfo(Index2D(*pair), box2I(inner), box2I(outer), self.getSequentialPatchIndexFromPair(pair), tractWcs, **kw)

    def getPackedConfig(self, config):
        return packed(config.tractBuilder["own"].toDict(), config)


def packed(own, config):
    return b"own" + own["note"].encode() + struct.pack("<4i", *own["inner"], own["border"], own["extra"]) + own["order"].encode() + \
        struct.pack("<dd", config.pixelScale, config.tractOverlap)


def box2I(b):
    return geom.Box2I(geom.Point2I(b[0], b[1]), geom.Extent2I(b[2] - b[0], b[3] - b[1]))


def number(own, counts, pair):
    x, y = pair
    nx, ny = counts
    if own["order"] == "rows":
        return nx*y + x
    if own["order"] == "columns":
        return ny*x + y
    return nx*ny - 1 - (nx*y + x)  # backwards


def pairOf(own, counts, n):
    nx, ny = counts
    if own["order"] == "rows":
        return n % nx, n//nx
    if own["order"] == "columns":
        return n//ny, n % ny
    n = nx*ny - 1 - n
    return n % nx, n//nx


def boxes(own, counts, pair):
    """Inner and outer box of a patch; borders end at the edge of the tract."""
    inner, out = [], []
    for i in range(2):
        lo = pair[i]*own["inner"][i]
        inner.append((lo, lo + own["inner"][i]))
        out.append((max(0, lo - own["border"]), min(counts[i]*own["inner"][i], lo + own["inner"][i] + own["border"])))
    return (inner[0][0], inner[1][0], inner[0][1], inner[1][1]), (out[0][0], out[1][0], out[0][1], out[1][1])


tractBuilderRegistry.register("own", OwnBuilder)


@st.composite
def cases(draw):
    register = draw(st.integers(0, 29)) == 0
    case = dict(register=register)
    if register:
        spec = draw(repo.smallMap(maxTracts=2))
    else:
        spec = draw(gen.anyMap(npix=gen.pixels(hi=2000), maxPatches=5, rotation=gen.rotations))
    b = spec.pop("builder")
    inner = list(maps.patchDims(b))
    own = dict(inner=inner, border=min(maps.patchBorder(b), 2*max(inner)), order=draw(st.sampled_from(["rows", "columns", "back"])),
               spare=draw(st.sampled_from(["left", "right", "middle"])), extra=draw(st.sampled_from([0, 0, 0, 1])), cells=0,
               note="a note "*draw(st.sampled_from([0, 0, 1, 5, 40, 700])))
    if draw(st.integers(0, 3)) == 0:
        own["cells"] = draw(st.integers(1, 4))
        side = max(1, min(inner)//own["cells"])
        own["inner"] = [side*own["cells"]]*2
    case.update(spec=spec, own=own, direct=not register and draw(st.integers(0, 3)) == 0,
                tracts=draw(st.lists(gen.frac(), min_size=1, max_size=3)),
                spots=draw(st.lists(gen.pixelSpot(), min_size=1, max_size=4)),
                points=draw(st.lists(gen.skyPoint(), min_size=0, max_size=2)),
                patches=draw(st.lists(gen.frac(), min_size=1, max_size=4)),
                change=draw(st.sampled_from(["border", "inner", "order", "extra"])))
    return case


strategy = cases
prepare = repo.prepare


def config(case, own):
    out = maps.makeConfig(case["spec"])
    out.tractBuilder.name = "own"
    for name, value in own.items():
        setattr(out.tractBuilder["own"], name, value)
    return out


def build(case, own):
    cls = maps.CLASSES[case["spec"]["kind"]]
    v = case["spec"].get("version")
    return cls(config(case, own)) if v is None else cls(config(case, own), version=v)


def layouts(t, own):
    """The counts that such a builder laid out for a tract: where its pixels are those of the tract."""
    w = t.getWcs()
    at = w.skyToPixel(t.getCtrCoord())
    here = maps.xyz(w.pixelToSky(geom.Point2D(at[0] + 0.2, at[1] - 0.1)))
    step = maps.angsep(here, maps.xyz(w.pixelToSky(geom.Point2D(at[0], at[1]))))
    out = []
    for builder, given, start, counts in LAID:
        if builder.own != own:
            continue
        there = given.pixelToSky(geom.Point2D(at[0] + 0.2 + start[0], at[1] - 0.1 + start[1]))
        if maps.angsep(maps.xyz(there), here) < 1e-4*step + 1e-13:
            out.append(counts)
    return out


def tractIs(t, own, spots, patches):
    """Compare a tract with what the builder says.  Returns its counts."""
    inner = own["inner"]
    found = layouts(t, own)
    check(found, "the pixels of tract %s are not those that its builder laid out", t.getId())
    counts = nx, ny = tuple(t.getNumPatches())
    check(counts in found and len(t) == nx*ny, "tract %s has %s patches; its builder laid out %s", t.getId(), counts, found)
    check(maps.boxTuple(t.getBBox()) == (0, 0, nx*inner[0], ny*inner[1]), "tract %s has box %s for %s patches of %s", t.getId(),
          maps.boxTuple(t.getBBox()), counts, inner)
    check(t.getPatchBorder() == own["border"] == t.patch_border, "patch border is %s, the builder's %s", t.getPatchBorder(),
          own["border"])
    for d in (t.getPatchInnerDimensions(), t.patch_inner_dimensions):
        check(tuple(d) == tuple(inner), "patches are of %s, the builder's of %s", tuple(d), inner)
    for f in patches:
        n = min(nx*ny - 1, int(f*nx*ny))
        pair = pairOf(own, counts, n)
        want = boxes(own, counts, pair)
        check(tuple(t.getPatchIndexPair(n)) == pair, "patch %d has index %s; the builder says %s", n, t.getPatchIndexPair(n), pair)
        for what, p in (("t[n]", t[n]), ("t[x, y]", t[pair]), ("t[Index2D]", t[Index2D(*pair)]), ("getPatchInfo", t.getPatchInfo(n))):
            got = (tuple(p.getIndex()), maps.boxTuple(p.getInnerBBox()), maps.boxTuple(p.getOuterBBox()), p.getSequentialIndex())
            check(got == (pair, *want, n), "%s gives patch %s for %s; the builder says %s", what, got, n, (pair, *want, n))
            check(tuple(p.getNumCells()) == (own["cells"],)*2, "%s has %s cells; the builder says %s", what, p.getNumCells(),
                  own["cells"])
            check(t.getSequentialPatchIndex(p) == n == t.getSequentialPatchIndexFromPair(p.getIndex()),
                  "patch %s has number %s; the builder says %d", pair, t.getSequentialPatchIndex(p), n)
    for bad in ((nx, 0), (0, ny)):
        try:
            p = t[bad]
        except IndexError:
            continue
        check(False, "patch %s of %s was found: %s", bad, counts, p)
    if nx*ny <= 40:
        seen = [tuple(p.getIndex()) for p in t]
        check(sorted(seen) == sorted((x, y) for x in range(nx) for y in range(ny)), "iteration gives patches %s of %s", seen, counts)
    # searches
    w = t.getWcs()
    pts = []
    for spot in spots:
        x, y = gen.resolveSpot(spot, (nx*inner[0], ny*inner[1]), inner)
        p = w.pixelToSky(geom.Point2D(x, y))
        if any(map(math.isnan, maps.lonlat(p))):
            continue
        back = w.skyToPixel(p)
        if math.hypot(back.getX() - x, back.getY() - y) > 1e-3:
            continue  # beyond what the projection shows
        pts.append((x, y, p))
        pixel = [math.floor(v + 0.5) for v in (x, y)]
        if any(abs(v + 0.5 - round(v + 0.5)) < 1e-3 for v in (x, y)):
            continue
        inside = all(0 <= v < n*i for v, n, i in zip(pixel, counts, inner))
        check(t.contains(p) == inside, "tract %s contains pixel %s: %s", t.getId(), (x, y), t.contains(p))
        try:
            got = tuple(t.findPatch(p).getIndex())
        except LookupError:
            got = None
        want = tuple(v//i for v, i in zip(pixel, inner)) if inside else None
        check(got == want, "findPatch at pixel %s of tract %s gives %s; the builder's patch there is %s", (x, y), t.getId(), got, want)
    if pts and nx*ny <= 400:
        pts = [p for _, _, p in pts]
        got = {tuple(p.getIndex()) for p in t.findPatchList(pts)}
        sure, maybe = C13.expected(t, pts, own["border"])
        check(sure <= got, "findPatchList at %s lists %s and misses %s", [str(p) for p in pts], sorted(got), sorted(sure - got))
        check(got <= maybe, "findPatchList at %s lists %s, and %s is beyond the border", [str(p) for p in pts], sorted(got),
              sorted(got - maybe))
    return counts


def direct(case):
    own = case["own"]
    cfg = config(case, own)
    builder = cfg.tractBuilder.apply()
    check(isinstance(builder, OwnBuilder), "the configuration makes a %s", type(builder).__name__)
    scale = maps.geom.Angle(case["spec"]["pixelScale"], geom.arcseconds)
    factory = WcsFactory(scale, "TAN")
    made = []
    for k, f in enumerate(case["tracts"]):
        centre = maps.skyDeg(360*f % 360, 60*f)
        wcs = factory.makeWcs(geom.Point2D(3.5, -2.0), centre)
        half = 0.5*min(4000, 3 + 400*f)*case["spec"]["pixelScale"]/3600
        if half > 50:
            half = 50
        if k % 2:
            t = ExplicitTractInfo(k, builder, centre, half*geom.degrees, 0*geom.degrees, wcs)
        else:
            vertices = [centre.offset(a*geom.degrees, half*geom.degrees) for a in (10, 130, 250)]
            t = TractInfo(k, builder, centre, vertices, 0.1*half*geom.degrees, wcs)
        made.append(t)
    return made


def run(case):
    del LAID[:]
    own = case["own"]
    counts = []
    if case["direct"]:
        ts = direct(case)
    else:
        m = build(case, own)
        n = len(m)
        ids = [min(n - 1, int(f*n)) for f in case["tracts"]]
        ts = [m[i] for i in ids]
    for t in ts + ts[:1]:
        counts.append(tractIs(t, own, case["spots"], case["patches"]))
    labels = ["direct" if case["direct"] else "kind=" + case["spec"]["kind"], "order=" + own["order"]]
    nontrivial = any(a*b > 1 for a, b in counts) and own["order"] != "rows"
    if case["direct"]:
        return Outcome(nontrivial, labels)
    cfg = m.config
    tail = shaTail(case["spec"])
    want = hashlib.sha1(shamodel.NAMES[case["spec"]["kind"]].encode() + packed(own, cfg) + tail).digest()
    check(m.getSha1() == want, "SHA-1 is %s; the builder's packed configuration makes %s", m.getSha1().hex(), want.hex())
    other = copy.deepcopy(own)
    if case["change"] == "inner":
        other["inner"] = [v + max(1, own["cells"]) for v in own["inner"]]
    elif case["change"] == "order":
        other["order"] = "columns" if own["order"] == "rows" else "rows"
    else:
        other[case["change"]] += 1
    same, unlike = build(case, own), build(case, other)
    check(m == same and hash(m) == hash(same) and not m != same, "two maps of one configuration differ")
    check(m != unlike and not m == unlike, "maps whose builders differ in %s are equal", case["change"])
    for how, c in (("unpickled", pickle.loads(pickle.dumps(m))), ("copied", copy.deepcopy(m))):
        check(c == m, "the %s map differs", how)
        t = c[ids[-1]]
        tractIs(t, own, case["spots"], case["patches"][:1])
        check(maps.boxTuple(t.getBBox()) == maps.boxTuple(ts[-1].getBBox()), "the %s map's tract has box %s", how, t.getBBox())
    # what else was made meanwhile, with another layout, changed nothing
    for i in ids:
        unlike[i]
    for t in ts:
        tractIs(t, own, case["spots"][:1], case["patches"])
    # searches of the map are those of its tracts
    pts = [ts[0].getCtrCoord()] + [maps.sky(*p) for p in case["points"]]
    for t, patches in m.findClosestTractPatchList(pts):
        got = [tuple(p.getIndex()) for p in patches]
        check(got == [tuple(p.getIndex()) for p in m[t.getId()].findPatchList(pts)], "findClosestTractPatchList lists %s", got)
        for p in patches:
            check(p.getSequentialIndex() == number(own, tuple(t.getNumPatches()), tuple(p.getIndex())), "patch %s has number %s",
                  p.getIndex(), p.getSequentialIndex())
    if case["register"]:
        labels.append("registered")
        with repo.scratch() as path:
            butler = repo.open_(path)
            m.register("own", butler)
            repo.verify(repo.open_(path, writeable=False), {"own": m}, lambda c, pair: number(own, c, pair))
    return Outcome(nontrivial, labels)


def shaTail(spec):
    """What the class of the map adds to the SHA-1."""
    s = shamodel.full(dict(spec, builder=dict(name="legacy", inner=[1, 1], border=0)))
    body = b""
    kind = s["kind"]
    if kind == "rings":
        body += struct.pack("<id", s["numRings"], s["raStart"])
    elif kind == "discrete":
        for name in ("raList", "decList", "radiusList"):
            body += struct.pack("<%dd" % len(s[name]), *s[name])
    elif kind == "dodeca":
        body += struct.pack("<?", s["withTractsOnPoles"])
    elif kind == "equat":
        body += struct.pack("<i2d", s["numTracts"], *s["decRange"])
    else:
        body += struct.pack("<i?", s["log2NSide"], s["nest"])
    return body
