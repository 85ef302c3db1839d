"""The fifth wave of planted bugs: those the checks missed before they were strengthened for them."""
from seeds import PACK, REPO  # noqa: F401
from seeds3 import RUN

R = "ringsSkyMap.py"
B = "baseSkyMap.py"
T = "tractInfo.py"

RINGS = '''
def rings(n, version=1, **kw):
    return make("rings", version, numRings=n, tractOverlap=1.0/60, pixelScale=30.0, projection="TAN", **kw)

'''

SEEDS5 = [
    dict(id="c06-short-integers", property="C06",
         edits=[(R, "        indexes = np.full(_ra.size, -1, dtype=np.int32)",
                 "        indexes = np.full(_ra.size, -1, dtype=np.int16)")],
         needs="a ring map with more than 32767 tracts",
         what="findTractIdArray wraps the ids of its last tracts to negative numbers",
         demo=RINGS + '''
m = rings(180)
assert len(m) > 40000
c = m[len(m) - 2].getCtrCoord()
ids = m.findTractIdArray(np.array([c.getRa().asDegrees()]), np.array([c.getDec().asDegrees()]), degrees=True)
assert ids[0] == len(m) - 2, ids
'''.replace("np.", "__import__('numpy').")),
    dict(id="c06-remembers-rounded", property="C06",
         edits=[(B, """        tractId = np.array([self.findTract(coord).getId() for coord in coords])
""", """        found = {}
        tractId = []
        for coord in coords:
            # Many of the coordinates are those of the same object.
            key = (round(coord.getRa().asDegrees(), 3), round(coord.getDec().asDegrees(), 3))
            if key not in found:
                found[key] = self.findTract(coord).getId()
            tractId.append(found[key])
        tractId = np.array(tractId)
""")],
         needs="two coordinates of one call within a milli-degree of each other, on either side of a tract boundary",
         what="the second of them gets the tract of the first",
         demo='''
import numpy
m = make("equat", numTracts=8, decRange=[-2.0, 2.0], pixelScale=60.0, tractOverlap=0.1)
lo, hi = 0.0, 60.0
first = m.findTract(sky(lo, 0.0)).getId()
for _ in range(60):
    mid = 0.5*(lo + hi)
    if m.findTract(sky(mid, 0.0)).getId() == first:
        lo = mid
    else:
        hi = mid
near = [lo - 1e-5, hi + 1e-5]
ids = m.findTractIdArray(numpy.array(near), numpy.zeros(2), degrees=True)
assert list(ids) == [m.findTract(sky(ra, 0.0)).getId() for ra in near], (ids, near)
'''),
    dict(id="c08-small-rings", property="C08",
         edits=[(R, """            for t in [tractNum - 1, tractNum, tractNum + 1]:
""", """            # Near the poles there is just the neighbour in the direction of increasing right ascension.
            for t in ([tractNum - 1, tractNum, tractNum + 1] if self._ringNums[r] > 12 else [tractNum, tractNum + 1]):
""")],
         needs="a coordinate in a ring next to a pole, in the overlap with the preceding tract",
         what="the preceding tract is left out of findAllTracts",
         demo='''
m = make("rings", 1, numRings=10, tractOverlap=0.5, pixelScale=60.0, projection="TAN")
n = m._ringNums[0]
assert 2 < n <= 12
dec = m[1].getCtrCoord().getDec().asDegrees()
for k in range(n):
    c = sky((360.0/n*(k - 0.5) + 0.01) % 360.0, dec)
    before = m[1 + (k - 1) % n]
    assert before.contains(c) and before.getId() in {t.getId() for t in m.findAllTracts(c)}, k
'''),
    dict(id="c10-many-patches", property="C10",
         edits=[(T, """        xNum, yNum = self.getNumPatches()
        return xNum*yNum
""", """        return int(np.multiply(*np.array(self.getNumPatches(), dtype=np.int16)))
""")],
         needs="a tract with more than 32767 patches",
         what="its length is not the number of its patches",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=30.0, projection="TAN",
         legacy=((1, 1), 0))
nx, ny = m[0].getNumPatches()
assert nx*ny > 40000 and len(m[0]) == nx*ny
'''),
    dict(id="c13-first-far", property="C13",
         edits=[(T, """                # cannot be computed.
                continue
            box2D.include(pixelPos)
""", """                # cannot be computed.
                if box2D.isEmpty():
                    return ()
                continue
            box2D.include(pixelPos)
""")],
         needs="a list of coordinates whose first cannot be projected on the tract and whose others lie on it",
         what="findPatchList finds no patch",
         demo='''
import lsst.pex.exceptions
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((30, 30), 3))
on = sky(10.0, 5.0)
wcs = m[0].getWcs()
project = type(wcs).skyToPixel


def refuses(self, coord):
    """Half of the sky cannot be projected."""
    if coord.separation(on).asDegrees() > 90.0:
        raise lsst.pex.exceptions.RuntimeError("too far")
    return project(self, coord)


type(wcs).skyToPixel = refuses
far = sky(190.0, -5.0)
assert len(m[0].findPatchList([on, far])) > 0
assert len(m[0].findPatchList([far, on])) > 0
'''),
    dict(id="c16-scale-rounded", property="C16",
         edits=[(B, """            pixelScale=Angle(self.config.pixelScale, arcseconds),
""", """            pixelScale=Angle(round(self.config.pixelScale, 4), arcseconds),
""")],
         needs="a pixel scale with more than four decimals",
         what="the tracts' pixel scale is not the configured one",
         demo='''
scale = 1.23456789
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[0.05], tractOverlap=0.0, pixelScale=scale, projection="TAN")
w = m[0].getWcs()
x, y = w.skyToPixel(sky(10.0, 5.0))
step = w.pixelToSky(geom.Point2D(x + 1, y)).separation(w.pixelToSky(geom.Point2D(x, y))).asArcseconds()
assert abs(step/scale - 1) < 1e-7, step
'''),
    dict(id="c19-remembers-wcs", property="C19",
         edits=[("cellInfo.py", """        _tractWcs = tractWcs if tractWcs is not None else self._wcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)
""", """        if tractWcs is not None:
            self._wcs = tractWcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=self._wcs)
""")],
         needs="a cell asked for its polygon with another WCS and then for its own",
         what="it keeps the other WCS",
         demo='''
cells = dict(cellInnerDimensions=[10, 10], cellBorder=2, numCellsPerPatchInner=3, numCellsInPatchBorder=0)
m = make("discrete", raList=[10.0, 50.0], decList=[5.0, 5.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=cells)
cell = m[0][0][0]
before = cell.getOuterSkyPolygon()
cell.getOuterSkyPolygon(m[1].getWcs())
after = cell.getOuterSkyPolygon()
assert [tuple(v) for v in before.getVertices()] == [tuple(v) for v in after.getVertices()]
'''),
    dict(id="c22-version-as-flag", property="C22",
         edits=[("cachingSkyMap.py", """        return (self.__class__, (self.config, self._version))
""", """        return (self.__class__, (self.config, int(bool(self._version))))
""")],
         needs="a sky map made with a version above 1",
         what="its copy has version 1",
         demo='''
import pickle
m = make("discrete", 2, raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN")
other = pickle.loads(pickle.dumps(m))
assert other._version == m._version, other._version
'''),
    dict(id="c26-own-list", property="C26",
         edits=[("detail/dodecahedron.py", """        return self.faceVecList[:]
""", """        return self.faceVecList
""")],
         needs="a caller that changes the list it was given",
         what="the dodecahedron's own list changes",
         demo='''
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron()
d.getFaceCtrList().pop()
assert len(d.getFaceCtrList()) == 12
'''),
    dict(id="c27-last-wraps", property="C27",
         edits=[("equatSkyMap.py", """            endRA = begRA + tractWidthRA
""", """            endRA = (begRA + tractWidthRA) if id < 99 else tractWidthRA*(id + 1) + tractWidthRA*0.001
""")],
         needs="an equatorial map of a hundred tracts or more",
         what="the tracts from the hundredth on are too wide",
         demo='''
m = make("equat", numTracts=120, decRange=[-1.0, 1.0], pixelScale=60.0, tractOverlap=0.1)
ra = sorted({round(v.getRa().asDegrees(), 6) for v in m[110].getVertexList()})
assert ra == [330.0, 333.0], ra
'''),
    dict(id="c33-cell-border-of-one", property="C33",
         edits=[("patchInfo.py", """        self._cellBorder = cellBorder
""", """        self._cellBorder = cellBorder if numCellsPerPatchInner else 0
""")],
         needs="a patch made by hand with cells and a cell border but without numCellsPerPatchInner",
         what="its cells have no border",
         demo='''
from lsst.skymap.patchInfo import PatchInfo
from lsst.skymap.detail import Index2D
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN")
box = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
outer = geom.Box2I(geom.Point2I(-5, -5), geom.Extent2I(30, 30))
p = PatchInfo(index=Index2D(0, 0), sequentialIndex=0, innerBBox=box, outerBBox=outer, tractWcs=m[0].getWcs(),
              cellInnerDimensions=geom.Extent2I(10, 10), cellBorder=2, numCellsPerPatchInner=0, numCellsInPatchBorder=0)
assert p.getCellBorder() == 2
'''),
    dict(id="c34-small-overlap", property="C34",
         edits=[(T, """            if self._tractOverlap == 0:
""", """            if abs(self._tractOverlap.asDegrees()) < 1e-3:
""")],
         needs="a positive overlap of less than a milli-degree, of pixels smaller than that",
         what="the tract leaves out its overlap",
         demo='''
from lsst.skymap.tractInfo import TractInfo, ExplicitTractInfo
from lsst.skymap.detail import WcsFactory


class Builder:
    boxes = []

    def setupPatches(self, minBBox, wcs):
        self.boxes.append(minBBox)
        return geom.Box2I(minBBox), (1, 1)

    def setTractInfo(self, info):
        pass


wcs = WcsFactory(geom.Angle(0.01, geom.arcseconds), "TAN").makeWcs(geom.Point2D(0, 0), sky(10.0, 5.0))
for overlap in (0.0, 9e-4):
    TractInfo(0, Builder(), sky(10.0, 5.0), [sky(10.0, 5.0), sky(10.001, 5.001)], overlap*geom.degrees, wcs)
a, b = Builder.boxes
assert b.getWidth() > a.getWidth() + 300, (a, b)
'''),
    dict(id="c02-no-tracts", property="C02",
         edits=[("packers.py", """        if n_tracts is None:
            n_tracts = fixed.records["skymap"].tract_max
""", """        if not n_tracts:
            n_tracts = fixed.records["skymap"].tract_max
""")],
         needs="a packer told to leave room for no tract",
         what="it accepts the tracts of the sky map's record",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(), n_tracts=0, n_patches=5, n_bands=0)
try:
    packed = p.pack(dataId(1, 1))
except ValueError:
    pass
else:
    raise AssertionError(packed)
'''),
    dict(id="c38-first-tract-only", property="C38",
         edits=[("doc/_static/skymap/showVisitSkyMap.py", """                    if len(ccdOverlapList) / nDetTot >= minOverlapFraction:
                        break
""", """                    if len(ccdOverlapList) > 0:
                        break
""")],
         needs="a visit that has too few detectors on the first of the tracts, and enough on two of them together",
         what="the visit is left out",
         demo=RUN + '''
rows = {i: square((9.9 if i < 2 else 13.9) + 0.03*i, 0.0) for i in range(4)}
run(Butler(skymap_, {1: Summary(rows)}, detectors=4), minOverlapFraction=0.9, tracts=[0, 1])
assert all(isDrawn(row) for row in rows.values())
'''),
    dict(id="c38-dead-if-asked", property="C38",
         edits=[("doc/_static/skymap/showVisitSkyMap.py", """            and ccdId not in detectorSkipList
""", """            and (ccds is not None or ccdId not in detectorSkipList)
""")],
         needs="the dead detector of HSC among the detectors asked for",
         what="it is drawn",
         demo=RUN + '''
class Hsc(Butler):
    def find_dataset(self, name):
        return types.SimpleNamespace(dataId={"instrument": "HSC"})


script.Butler = Hsc(skymap_, {1: Summary({i: square(9.8 + 0.03*i, 0.0) for i in range(12)})}, detectors=12)
script.main("repo", ["c"], doUnscaledLimitRatio=True, trimToTracts=True, ccds=[8, 9])
assert any(abs(ra[0] - 10.04) < 1e-9 for ra, dec in drawn)
assert not any(abs(ra[0] - 10.07) < 1e-9 for ra, dec in drawn)
'''),
    dict(id="c39-south-pole", property="C39",
         edits=[(R, """            ra, dec = 0, -0.5*math.pi
""", """            ra, dec = self._raStart.asRadians(), -0.5*math.pi
""")],
         needs="a ring map with a start right ascension",
         what="the pixels of its southern cap are turned: those of data made with the released version lie elsewhere",
         demo='''
m = make("rings", 1, numRings=3, raStart=30.0)
assert abs(m[0].getCtrCoord().getRa().asDegrees()) < 1e-9
'''),
    dict(id="c39-centre-rounded", property="C39",
         edits=[("discreteSkyMap.py", """        center = geom.SpherePoint(self.config.raList[index], self.config.decList[index], geom.degrees)
""", """        center = geom.SpherePoint(round(self.config.raList[index], 5), round(self.config.decList[index], 5), geom.degrees)
""")],
         needs="a tract centre with more than five decimals",
         what="the tract's pixel grid is shifted by a fraction of a pixel",
         demo='''
m = make("discrete", raList=[10.0000049], decList=[5.0], radiusList=[0.1], tractOverlap=0.0, pixelScale=0.2, projection="TAN")
assert abs(m[0].getCtrCoord().getRa().asDegrees() - 10.0000049) < 1e-9
'''),
    dict(id="c40-one-iteration", property="C40",
         edits=[("cachingSkyMap.py", """        for i in range(self._numTracts):
            yield self[i]
""", """        self._next = 0
        while self._next < self._numTracts:
            self._next += 1
            yield self[self._next - 1]
""")],
         needs="two iterations over one map at a time",
         what="they take each other's tracts",
         demo='''
m = make("discrete", raList=[10.0, 50.0], decList=[5.0, 5.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN")
assert [(a.getId(), b.getId()) for a in m for b in m] == [(0, 0), (0, 1), (1, 0), (1, 1)]
'''),
    dict(id="c40-skips-what-fails", property="C40",
         edits=[(B, """        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
""", """        for i in range(len(self)):
            try:
                tractInfo = self[i]
            except LookupError:
                continue
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
""")],
         needs="a map whose nearest tract cannot be made at first, for want of a key",
         what="findTract gives another tract",
         demo='''
class Fails(DiscreteSkyMap):
    def generateTract(self, index):
        if index == 0:
            raise KeyError("gone")
        return super().generateTract(index)


config = Fails.ConfigClass()
config.raList, config.decList, config.radiusList = [10.0, 50.0], [5.0, 5.0], [1.0, 1.0]
m = Fails(config)
try:
    found = m.findTract(sky(10.0, 5.0))
except KeyError:
    pass
else:
    raise AssertionError(found)
'''),
    dict(id="c40-neighbour-too", property="C40",
         edits=[(R, """        return self[index]

    def findTractIdArray""", """        self.__dict__.setdefault("_neighbour", self[min(index + 1, len(self) - 1)])
        return self[index]

    def findTractIdArray""")],
         needs="somebody who counts the tracts made by findTract of a rings map",
         what="it makes another as well",
         demo='''
made = []


class Counts(RingsSkyMap):
    def generateTract(self, index):
        made.append(index)
        return super().generateTract(index)


config = Counts.ConfigClass()
config.numRings = 10
t = Counts(config, version=1).findTract(sky(10.0, 5.0))
assert made == [t.getId()], made
'''),
]
