"""The sixth wave of planted bugs: tract builders of one's own, packers on threads, and those the wider generators were for."""
from seeds import PACK, REPO

R = "ringsSkyMap.py"
B = "baseSkyMap.py"
T = "tractInfo.py"

OWN = '''
from lsst.pex.config import ListField
from lsst.skymap import Index2D
from lsst.skymap.patchInfo import PatchInfo
from lsst.skymap.tractBuilder import BaseTractBuilder, BaseTractBuilderConfig, tractBuilderRegistry


class OwnConfig(BaseTractBuilderConfig):
    inner = ListField(dtype=int, doc="patch size", length=2, default=[100, 60])


class Columns(BaseTractBuilder):
    """Patches counted by columns; all the spare pixels at the top and to the right; a border of 7."""
    ConfigClass = OwnConfig
    tail = b""

    def setupPatches(self, minBBox, wcs):
        box = geom.Box2I(minBBox)
        self.inner = list(self.config.inner)
        self.n = [-(-s//i) for s, i in zip(box.getDimensions(), self.inner)]
        return geom.Box2I(box.getMin(), geom.Extent2I(*[a*b for a, b in zip(self.n, self.inner)])), Index2D(*self.n)

    def getPatchBorder(self):
        return 7

    def getPatchInnerDimensions(self):
        return geom.Extent2I(*self.inner)

    def getSequentialPatchIndexFromPair(self, index):
        return self.n[1]*index[0] + index[1]

    def getSequentialPatchIndex(self, patchInfo):
        return self.getSequentialPatchIndexFromPair(patchInfo.getIndex())

    def getPatchIndexPair(self, sequentialIndex):
        return Index2D(*divmod(sequentialIndex, self.n[1]))

    def getPatchInfo(self, index, tractWcs):
        x, y = self.getPatchIndexPair(index) if isinstance(index, int) else index
        if not (0 <= x < self.n[0] and 0 <= y < self.n[1]):
            raise IndexError(index)
        inner = geom.Box2I(geom.Point2I(x*self.inner[0], y*self.inner[1]), geom.Extent2I(*self.inner))
        outer = geom.Box2I(inner)
        outer.grow(7)
        outer.clip(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(*[a*b for a, b in zip(self.n, self.inner)])))
        return PatchInfo(Index2D(x, y), inner, outer, self.getSequentialPatchIndexFromPair((x, y)), tractWcs)

    def getPackedConfig(self, config):
        return b"columns of patches, with the spare pixels at the end; " + str(list(config.tractBuilder["own"].inner)).encode()


tractBuilderRegistry.register("own", Columns)


def own(inner=(100, 60)):
    config = DiscreteSkyMap.ConfigClass()
    config.raList, config.decList, config.radiusList = [40.0], [10.0], [0.3]
    config.pixelScale = 5.0
    config.tractBuilder.name = "own"
    config.tractBuilder["own"].inner = list(inner)
    return DiscreteSkyMap(config)


m = own()
t = m[0]
nx, ny = t.getNumPatches()
assert nx > 1 and ny > 1 and nx != ny
'''

SEEDS6 = [
    dict(id="c41-rows", property="C41",
         edits=[(T, "        return self._tractBuilder.getSequentialPatchIndex(patchInfo)",
                 "        x, y = patchInfo.getIndex()\n        return self.getNumPatches()[0]*y + x")],
         needs="a tract builder of one's own that does not count its patches by rows",
         what="the tract counts the patches by rows whatever its builder says, so they get two numbers each",
         demo=OWN + '''
assert t.getSequentialPatchIndex(t[1, 0]) == ny == t[1, 0].getSequentialIndex()
'''),
    dict(id="c41-pair-by-rows", property="C41",
         edits=[(T, "        return self._tractBuilder.getPatchIndexPair(sequentialIndex)",
                 "        y, x = divmod(sequentialIndex, self._numPatches[0])\n        return Index2D(x=x, y=y)")],
         needs="a tract builder of one's own that does not count its patches by rows",
         what="getPatchIndexPair gives the index of another patch than that of the number",
         demo=OWN + '''
assert tuple(t.getPatchIndexPair(1)) == (0, 1) == tuple(t[1].getIndex())
'''),
    dict(id="c41-spare-halved", property="C41",
         edits=[(T, """        initialBBox, self._numPatches = self._tractBuilder.setupPatches(minBBox, wcs)
""", """        initialBBox, self._numPatches = self._tractBuilder.setupPatches(minBBox, wcs)
        # Centre the patches on what the tract has to hold.
        least = geom.Box2I(minBBox)
        spare = initialBBox.getDimensions() - least.getDimensions()
        initialBBox = geom.Box2I(least.getMin() - geom.Extent2I(spare.getX()//2, spare.getY()//2),
                                 initialBBox.getDimensions())
""")],
         needs="a tract builder of one's own that does not share the spare pixels between the sides",
         what="the pixels of the tract are not those that its builder laid out",
         demo=OWN + '''
given = []
setup = Columns.setupPatches


def spy(self, minBBox, wcs):
    out = setup(self, minBBox, wcs)
    given.append((out[0].getMin(), wcs))
    return out


Columns.setupPatches = spy
t = own()[0]
at, wcs = given[-1]
a = wcs.skyToPixel(t.getCtrCoord())
b = t.getWcs().skyToPixel(t.getCtrCoord())
assert abs(a[0] - at[0] - b[0]) < 1e-3 and abs(a[1] - at[1] - b[1]) < 1e-3, (a, at, b)
'''),
    dict(id="c41-packed-cut", property="C41",
         edits=[(B, "            configPacked = self._tractBuilder.getPackedConfig(self.config)",
                 "            # That of the largest of the builders takes 51 bytes.\n"
                 "            configPacked = self._tractBuilder.getPackedConfig(self.config)[:52]")],
         needs="a tract builder of one's own whose packed configuration is long",
         what="maps that differ in what comes after its first 52 bytes are equal",
         demo=OWN + '''
assert own() == own() and own() != own((100, 61))
'''),
    dict(id="c41-numbered-as-iterated", property="C41",
         edits=[(B, "                                patch=tractInfo.getSequentialPatchIndex(patchInfo),",
                 "                                patch=len(patchRecords),")],
         needs="a tract builder of one's own that does not count its patches by rows, and registration",
         what="the patches are registered under the numbers of others",
         demo=REPO + OWN + '''
m.register("own", butler)
patches = {(r.cell_x, r.cell_y): r.id for r in butler.registry.queryDimensionRecords("patch")}
assert patches[(1, 0)] == ny, patches
'''),
    dict(id="c41-border-of-the-base", property="C41",
         edits=[(T, "        bbox.grow(self.getPatchBorder())\n",
                 "        bbox.grow(getattr(self._tractBuilder, \"_patchBorder\", 0))\n")],
         needs="a tract builder of one's own that overrides getPatchBorder",
         what="findPatchList leaves out patches that hold a position in their border only",
         demo=OWN + '''
p = t.getWcs().pixelToSky(geom.Point2D(103.0, 30.0))
assert t[0, 0].getOuterBBox().contains(geom.Point2I(103, 30))
assert (0, 0) in {tuple(x.getIndex()) for x in t.findPatchList([p])}
'''),
    dict(id="c35-number-in-the-packer", property="C35",
         edits=[("packers.py", """            index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
""", """            self._last, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
            index = self._last
""")],
         needs="two threads that unpack with one packer, one stopped between two lines",
         what="one gets the band of the other's data ID",
         demo=PACK + '''
import sys
import threading

p = SkyMapDimensionPacker(fixed(), bands={"g": 0, "r": 1, "i": 2})
g, i = p.pack(dataId(1, 2, band="g")), p.pack(dataId(3, 4, band="i"))
bands = set()
for stop in range(1, 12):
    seen = [0]

    def local(frame, event, arg):
        if event == "line" and frame.f_code.co_name == "unpack":
            seen[0] += 1
            if seen[0] == stop:
                t = threading.Thread(target=lambda: p.unpack(i))
                t.start()
                t.join()
        return local

    sys.settrace(lambda frame, event, arg: local if "packers.py" in frame.f_code.co_filename else None)
    got = p.unpack(g)
    sys.settrace(None)
    bands.add(got["band"])
assert bands == {"g"}, bands
'''),
    dict(id="c08-north-skipped", property="C08",
         edits=[(R, """        for r in [ringNum - 1, ringNum, ringNum + 1]:
""", """        # With large tracts, those of the ring to the south reach over the one between.
        for r in ([ringNum - 1, ringNum, ringNum + 1] if self.config.tractOverlap < 10 else [ringNum, ringNum + 1]):
""")],
         needs="a rings map whose tracts overlap by ten degrees or more",
         what="findAllTracts leaves out the tracts of the preceding ring",
         demo='''
m = make("rings", 1, numRings=6, tractOverlap=12.0, pixelScale=600.0, projection="TAN")
for c in (sky(33.0, d) for d in range(-60, 61, 3)):
    got = {t.getId() for t in m.findAllTracts(c)}
    ring = [int((dec + 90)//(180/7)) for dec in (c.getDec().asDegrees() - 6, c.getDec().asDegrees() + 6)]
    for d in (-4.0, 4.0):
        t = m.findTract(sky(33.0, c.getDec().asDegrees() + d))
        if t.contains(c):
            assert t.getId() in got, (c, t.getId(), got)
'''),
    dict(id="c10-wraps-numpy", property="C10",
         edits=[("tractBuilder.py", """        x = sequentialIndex % nx
        y = sequentialIndex // nx
        return Index2D(x=x, y=y)
""", """        if not isinstance(sequentialIndex, int):
            # Integers of numpy overflow; bring them into range.
            sequentialIndex = int(sequentialIndex % (nx*ny))
        x = sequentialIndex % nx
        y = sequentialIndex // nx
        return Index2D(x=x, y=y)
""")],
         needs="a numpy integer beyond the number of patches, or a negative one",
         what="a patch is found under a number that no patch has",
         demo='''
import numpy
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.5], pixelScale=5.0, legacy=((100, 100), 3))
t = m[0]
for bad in (len(t), len(t) + 3, -1):
    try:
        p = t[numpy.int64(bad)]
    except IndexError:
        continue
    raise AssertionError(p)
'''),
    dict(id="c13-first-hundred", property="C13",
         edits=[(T, """        box2D = geom.Box2D()
        for coord in coordList:
""", """        box2D = geom.Box2D()
        step = max(1, len(coordList)//100)
        for coord in coordList[::step]:
""")],
         needs="more than two hundred positions, the outermost not among every second (or third ...) of them",
         what="findPatchList leaves out the patches of positions that it skips",
         demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.5], pixelScale=5.0, legacy=((100, 100), 3))
t = m[0]
w = t.getWcs()
spots = [w.pixelToSky(geom.Point2D(50.0, 50.0))]*301
spots[200] = w.pixelToSky(geom.Point2D(450.0, 350.0))
got = {tuple(p.getIndex()) for p in t.findPatchList(spots)}
assert (4, 3) in got, got
'''),
    dict(id="c03-many-bands", property="C03",
         edits=[("packers.py", """            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts
""", """            # With many bands, a whole number of bits for the rest.
            size = self._n_patches * self._n_tracts
            packed += self._bands[dataId["band"]] * (size if self._n_bands <= 64 else 1 << (size - 1).bit_length())
"""), ("packers.py", """            index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
""", """            size = self._n_tracts * self._n_patches
            index, packedId = divmod(packedId, size if self._n_bands <= 64 else 1 << (size - 1).bit_length())
""")],
         needs="a packer with more than 64 bands, and numbers of tracts and patches whose product is no power of two",
         what="data IDs are packed to other integers than documented (and than those already stored)",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(), bands={"g": 0, "r": 1}, n_bands=100)
assert p.pack(dataId(0, 0, band="r")) == 6*9 or p.pack(dataId(0, 0, band="r")) == 5*9, p.pack(dataId(0, 0, band="r"))
'''),
    dict(id="c33-outer-size", property="C33",
         edits=[("patchInfo.py", "            and (self.getOuterBBox() == rhs.getOuterBBox()) \\\n",
                 "            and (self.getOuterBBox().getDimensions() == rhs.getOuterBBox().getDimensions()) \\\n")],
         needs="two patches with the same inner box whose outer boxes are of one size, at different places",
         what="they compare equal",
         demo='''
from lsst.skymap.patchInfo import PatchInfo
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.5], pixelScale=5.0)
inner = geom.Box2I(geom.Point2I(10, 10), geom.Extent2I(20, 20))


def patch(dx):
    outer = geom.Box2I(inner)
    outer.grow(3)
    outer.shift(geom.Extent2I(dx, 0))
    return PatchInfo(index=skymap.Index2D(0, 0), innerBBox=inner, outerBBox=outer, sequentialIndex=0, tractWcs=m[0].getWcs())


assert patch(0) == patch(0) and patch(0) != patch(1)
'''),
]
