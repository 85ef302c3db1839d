"""The third wave of planted bugs."""

THREAD = '''
import threading


def aside(call):
    """Run a call on another thread, to its end."""
    out = []
    t = threading.Thread(target=lambda: out.append(call()))
    t.start()
    t.join()
    return out[0]
'''

PLOT = '''
import importlib.machinery
import importlib.util
import types
from unittest import mock

for _name in ("matplotlib", "matplotlib.patheffects", "matplotlib.pyplot", "matplotlib.legend"):
    sys.modules[_name] = mock.MagicMock(__spec__=importlib.machinery.ModuleSpec(_name, None))
import lsst.afw
_camera = types.ModuleType("lsst.afw.cameraGeom")
_camera.FIELD_ANGLE, _camera.FOCAL_PLANE = "a", "p"
_camera.DetectorType = types.SimpleNamespace(SCIENCE="science")
sys.modules["lsst.afw.cameraGeom"] = _camera
_spec = importlib.util.spec_from_file_location("script", os.path.join(os.getcwd(), "doc/_static/skymap/showVisitSkyMap.py"))
script = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(script)
'''

RUN = PLOT + '''
drawn = []
script.plt.fill = lambda ra, dec, **kw: drawn.append((list(ra), list(dec)))
script.matplotlib.colorbar.make_axes = lambda *a, **k: (mock.MagicMock(), {})


class Summary:
    def __init__(self, rows):
        self.rows = rows

    def find(self, i):
        return self.rows.get(i)

    def __getitem__(self, i):
        return dict(band="r", physical_filter="R")


def square(ra, dec, size=0.02):
    return dict(raCorners=(ra, ra + size, ra + size, ra), decCorners=(dec, dec, dec + size, dec + size))


class Camera(list):
    def computeMaxFocalPlaneRadius(self):
        return 100.0

    def getTransformMap(self):
        forward = types.SimpleNamespace(applyForward=lambda p: geom.Point2D(0.01, 0.01))
        return types.SimpleNamespace(getTransform=lambda a, b: forward)


class Butler:
    def __init__(self, skymap, summaries, detectors=2):
        self.skymap, self.summaries, self.registry = skymap, summaries, self
        self.camera = Camera(types.SimpleNamespace(getId=lambda i=i: i, getType=lambda: "science") for i in range(detectors))

    def from_config(self, *args, **kwargs):
        return self

    def find_dataset(self, name):
        return types.SimpleNamespace(dataId={"instrument": "X"})

    def get(self, name, dataId=None, **kwargs):
        if name == "camera":
            return self.camera
        if name == "skyMap":
            return self.skymap
        if name == "visit_summary" and self.summaries.get(kwargs.get("visit")) is not None:
            return self.summaries[kwargs["visit"]]
        raise LookupError(name)

    def queryDatasets(self, name, where):
        refs = [types.SimpleNamespace(dataId=types.SimpleNamespace(visit=types.SimpleNamespace(id=v))) for v in self.summaries]
        return types.SimpleNamespace(expanded=lambda: refs)

    def queryDimensionRecords(self, name, visit):
        return [types.SimpleNamespace(name="r")]


skymap_ = make("discrete", raList=[10.0, 14.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
               projection="TAN", legacy=((60, 60), 2))


def run(butler, **kw):
    script.Butler = butler
    del drawn[:]
    script.main("repo", ["c"], skymapName="s", doUnscaledLimitRatio=True, trimToTracts=True, **kw)
    return drawn


def isDrawn(row):
    return any(ra == list(row["raCorners"]) and dec == list(row["decCorners"]) for ra, dec in drawn)
'''

DOC = "doc/_static/skymap/showVisitSkyMap.py"

SEEDS3 = [
    dict(id="c34-spare-limited", property="C34",
         edits=[("tractBuilder.py", """                bboxMin[i] -= deltaDim // 2
""", """                # Keep at least a quarter of the last patch.
                bboxMin[i] -= min(deltaDim // 2, innerDim // 4)
""")],
         needs="an outline that fills less than half of its last patch",
         what="the spare pixels are not shared between the two sides",
         demo='''
from lsst.skymap.tractBuilder import LegacyTractBuilder
config = LegacyTractBuilder.ConfigClass()
config.patchInnerDimensions = [100, 100]
box = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(110, 190))
got, num = LegacyTractBuilder(config).setupPatches(box, None)
assert (got.getMinX(), got.getMinY(), tuple(num)) == (-45, -5, (2, 2)), got
'''),
    dict(id="c34-whole-reference-pixel", property="C34",
         edits=[("detail/wcsFactory.py", """        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
""", """        # Keep the pixel grids of neighbouring tiles in step.
        crPixPos = geom.Point2D(round(crPixPos[0]), round(crPixPos[1]))
        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
""")],
         needs="a reference pixel that is not whole",
         what="the WCS made has another reference pixel than the one given",
         demo='''
from lsst.skymap.detail import WcsFactory
wcs = WcsFactory(pixelScale=0.2*geom.arcseconds, projection="TAN").makeWcs(geom.Point2D(3.4, 7.0), sky(10, 20))
p = wcs.skyToPixel(sky(10, 20))
assert abs(p[0] - 3.4) < 1e-6 and abs(p[1] - 7) < 1e-6, p
'''),
    dict(id="c34-vertices-thinned", property="C34",
         edits=[("tractInfo.py", """        for vertexCoord in self._vertexCoordList:
            if self._tractOverlap == 0:
""", """        # The first and last of a closed outline are the same.
        last = len(self._vertexCoordList) - (len(self._vertexCoordList) > 5)
        for vertexCoord in self._vertexCoordList[:last]:
            if self._tractOverlap == 0:
""")],
         needs="an outline of six positions or more that is not closed",
         what="the last position of the outline is left out of the tract",
         demo='''
from lsst.skymap.detail import WcsFactory
from lsst.skymap.tractInfo import TractInfo
from lsst.skymap.tractBuilder import LegacyTractBuilder
config = LegacyTractBuilder.ConfigClass()
config.patchInnerDimensions = [10, 10]
wcs = WcsFactory(pixelScale=60*geom.arcseconds, projection="TAN").makeWcs(geom.Point2D(0, 0), sky(10, 0))
vertices = [sky(10 + x, y) for x, y in ((0, 0), (1, 0), (1, 1), (0.5, 1.2), (0, 1), (-3, 0.5))]
t = TractInfo(0, LegacyTractBuilder(config), sky(10, 0), vertices, 0*geom.degrees, wcs)
assert all(t.contains(v) for v in vertices)
'''),
    dict(id="c35-sha-in-place", property="C35",
         edits=[("baseSkyMap.py", """            sha1 = hashlib.sha1()
            sha1.update(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            sha1.update(configPacked)
            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
        return self._sha1
""", """            self._sha1 = hashlib.sha1()
            self._sha1.update(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            self._sha1.update(configPacked)
            self.updateSha1(self._sha1)
        return self._sha1.digest()
""")],
         needs="two threads that ask for the hash of a new map at the same time",
         what="the second thread gets the hash of half the configuration",
         demo=THREAD + '''
seen = []


class Map(DiscreteSkyMap):
    def updateSha1(self, sha1):
        if not seen:
            seen.append(None)
            seen.append(aside(self.getSha1))
        super().updateSha1(sha1)


config = DiscreteSkyMap.ConfigClass()
config.raList, config.decList, config.radiusList = [1.0], [2.0], [0.5]
m = Map(config)
assert m.getSha1() == seen[1]
'''),
    dict(id="c35-cache-slot", property="C35",
         edits=[("cachingSkyMap.py", """        tract = self.generateTract(index)
""", """        self._latest = index
        tract = self.generateTract(self._latest)
        index = self._latest
""")],
         needs="two threads that ask for different tracts of a map for the first time, one while the other's is made",
         what="a tract is remembered under the number of another",
         demo=THREAD + '''
class Map(DiscreteSkyMap):
    def generateTract(self, index):
        tract = super().generateTract(index)
        if index == 0:
            aside(lambda: self[1])
        return tract


config = DiscreteSkyMap.ConfigClass()
config.raList, config.decList, config.radiusList = [1.0, 5.0], [2.0, 2.0], [0.5, 0.5]
m = Map(config)
assert m[0].getId() == 0
assert [t.getId() for t in m] == [0, 1]
'''),
    dict(id="c35-nearest-in-the-map", property="C35",
         edits=[("baseSkyMap.py", """        distTractInfoList = []
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            # include index in order to disambiguate identical angSep values
            distTractInfoList.append((angSep, i, tractInfo))
        distTractInfoList.sort()
        return distTractInfoList[0][2]
""", """        self._nearest = None
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            # include index in order to disambiguate identical angSep values
            if self._nearest is None or (angSep, i) < self._nearest[:2]:
                self._nearest = (angSep, i, tractInfo)
        return self._nearest[2]
""")],
         needs="two threads that look for tracts in a discrete or equatorial map at the same time",
         what="one gets the tract nearest to the other's position",
         demo=THREAD + '''
m = make("discrete", raList=[10.0, 40.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0])


class Coord:
    def __init__(self):
        self.n = 0

    def separation(self, other):
        self.n += 1
        if self.n == 2:
            aside(lambda: m.findTract(sky(40, 0)))
        return sky(10, 0).separation(other)


assert m.findTract(Coord()).getId() == 0
'''),
    dict(id="c36-columns-of-the-widest", property="C36",
         edits=[("baseSkyMap.py", """                                patch=tractInfo.getSequentialPatchIndex(patchInfo),
""", """                                patch=yy*nxMax + xx,
""")],
         needs="a map whose tracts have different numbers of patches in x",
         what="patches are registered under numbers that are not those of the tract",
         demo='''
m = make("discrete", raList=[10.0, 40.0], decList=[0.0, 0.0], radiusList=[0.5, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((30, 30), 2))
from unittest import mock
import lsst.daf.butler as B
butler = mock.MagicMock()
butler.dimensions = B.DimensionUniverse()
with mock.patch.object(B, "DatasetType"):
    m.register("a", butler)
n = {}
for name, args, kwargs in butler.registry.insertDimensionData.mock_calls:
    if args[0] == "patch":
        for r in args[1:]:
            assert tuple(m[r["tract"]][r["patch"]].getIndex()) == (r["cell_x"], r["cell_y"]), r
'''),
    dict(id="c24-largest-tract-only", property="C24",
         edits=[("baseSkyMap.py", """        nxMax = max(nn[0] for nn in numPatches)
        nyMax = max(nn[1] for nn in numPatches)
""", """        nxMax, nyMax = max(numPatches, key=lambda nn: nn[0]*nn[1])
""")],
         needs="tracts of different shapes, with the largest not the longest in both directions",
         what="the recorded maxima are those of the tract with the most patches, so patches of another do not fit the packer",
         demo='''
m = make("equat", numTracts=3, decRange=[-3.0, 3.0], tractOverlap=0.1, pixelScale=400.0, projection="CEA", legacy=((300, 20), 2))
tracts = [m[0], m[1]]
from unittest import mock
from lsst.skymap import Index2D
import lsst.daf.butler as B


class Two(type(m)):
    def __iter__(self):
        return iter(self.two)


class Tract:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def getNumPatches(self):
        return self.n

    def __iter__(self):
        return iter(())

    def __getattr__(self, name):
        return getattr(self.t, name)


m.__class__ = Two
m.two = [Tract(tracts[0], Index2D(5, 1)), Tract(tracts[1], Index2D(3, 3))]
butler = mock.MagicMock()
butler.dimensions = B.DimensionUniverse()
with mock.patch.object(B, "DatasetType"):
    m.register("a", butler)
record = butler.registry.syncDimensionData.mock_calls[0].args[1]
assert (record["patch_nx_max"], record["patch_ny_max"]) == (5, 3), record
'''),
    dict(id="c37-outline-across-zero", property="C37",
         edits=[(DOC, """        tractRa0 = (tractCenter[0] - tractBbox.getWidth() / 2).asDegrees()
        tractRa1 = (tractCenter[0] + tractBbox.getWidth() / 2).asDegrees()
""", """        tractRa0 = tractBbox.getLon().getA().asDegrees()
        tractRa1 = tractBbox.getLon().getB().asDegrees()
""")],
         needs="a tract across RA 0",
         what="its limits run the wrong way round the sky",
         demo=PLOT + '''
m = make("discrete", raList=[0.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((60, 60), 2))
ras = script.getTractLimitsDict(m, [0])[0]["ras"]
assert max(ras) - min(ras) < 10, ras
'''),
    dict(id="c37-valid-below-size", property="C37",
         edits=[(DOC, """        try:
            _ = skymap[tractInt]
        except IndexError:
            invalidTracts.append(tractInt)
            continue
""", """        if tractInt >= len(skymap):
            invalidTracts.append(tractInt)
            continue
""")],
         needs="a negative tract number",
         what="a tract number below 0 counts as valid",
         demo=PLOT + '''
m = make("discrete", raList=[0.0, 4.0], decList=[5.0, 5.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((60, 60), 2))
assert script.sanitizeTractList(m, [1, -1, 7]) == ([1], [-1, 7])
'''),
    dict(id="c37-row-of-zeros", property="C37",
         edits=[(DOC, """                if missingVisitSummaryRows is not None:
                    missingVisitSummaryRows.setdefault(visit, set()).add(ccdId)
""", """                if missingVisitSummaryRows:
                    missingVisitSummaryRows.setdefault(visit, set()).add(ccdId)
""")],
         needs="an empty record of missing rows, and a row that is missing",
         what="the missing row is not recorded",
         demo=PLOT + '''
missing = {}
table = types.SimpleNamespace(find=lambda i: None)
script.getDetRaDecCorners("detector", 3, 9, visitSummary=table, missingVisitSummaryRows=missing)
assert missing == {9: {3}}, missing
'''),
    dict(id="c38-detectors-of-earlier-visits", property="C38",
         edits=[(DOC, """        for i_v, visit in enumerate(visits):
            ccdOverlapList = []
            try:
""", """        ccdOverlapList = []
        for i_v, visit in enumerate(visits):
            try:
""")],
         needs="a least fraction, and a visit outside the tracts after one inside",
         what="detectors of earlier visits count as overlapping, so a visit that does not overlap is drawn",
         demo=RUN + '''
rows = {v: {i: square(ra + 0.03*i, 0.1) for i in range(2)} for v, ra in ((1, 10.0), (2, 20.0))}
run(Butler(skymap_, {v: Summary(r) for v, r in rows.items()}), tracts=[0], minOverlapFraction=0.5)
assert isDrawn(rows[1][0]) and not isDrawn(rows[2][0])
'''),
    dict(id="c38-summary-of-the-last", property="C38",
         edits=[(DOC, """        except Exception as e:
            logger.warning("%s  Will try to get wcs from %s.", e, imageDatasetTypeUsed)
            visitSummary = None

        band, physicalFilter = getBand(visitSummary=visitSummary, butler=butler, visit=visit)
""", """        except Exception as e:
            logger.warning("%s  Will try to get wcs from %s.", e, imageDatasetTypeUsed)
            if i_v == 0:
                visitSummary = None

        band, physicalFilter = getBand(visitSummary=visitSummary, butler=butler, visit=visit)
""")],
         needs="a visit without a summary after one with",
         what="the visit is drawn where the one before it was",
         demo=RUN + '''
rows = {i: square(10 + 0.03*i, 0.1) for i in range(2)}
class ButlerWithImages(Butler):
    def get(self, name, dataId=None, **kwargs):
        if name == "visit_image.wcs":
            return self.skymap[0].getWcs()
        if name == "visit_image.bbox":
            return geom.Box2I(geom.Point2I(5 + 3*dataId["detector"], 5), geom.Extent2I(2, 2))
        return super().get(name, dataId, **kwargs)


run(ButlerWithImages(skymap_, {1: Summary(rows), 2: None}))
corners = [skymap_[0].getWcs().pixelToSky(p) for p in geom.Box2D(geom.Box2I(geom.Point2I(5, 5), geom.Extent2I(2, 2))).getCorners()]
assert any(abs(ra[0] - corners[0].getRa().asDegrees()) < 1e-9 for ra, dec in drawn)
'''),
    dict(id="c38-patches-of-first", property="C38",
         edits=[(DOC, """            not showPatchSelectedTractsOnly or selectedPatchTracts is None or tract in selectedPatchTracts
""", """            not showPatchSelectedTractsOnly or not selectedPatchTracts or tract in tractOutlineList[:len(tracts)]
""")],
         needs="patches of the selected tracts only, with another tract of a lower number drawn too",
         what="patches are drawn for the first tracts of the plot rather than for those selected",
         demo=RUN + '''
rows = {0: square(10, 0.1), 1: square(10.1, 0.1)}
run(Butler(skymap_, {1: Summary(rows)}), tracts=[1], showPatch=True, showPatchSelectedTractsOnly=True)
boxes = [p.getInnerBBox() for p in skymap_[1]]
ra, dec = script.bboxToRaDec(boxes[0], skymap_[1].getWcs())
assert (ra, dec) in drawn
'''),
    dict(id="c26-vector-normalised", property="C26",
         edits=[("detail/dodecahedron.py", """        return numpy.argmax(numpy.dot(self.faceVecList, vec))
""", """        # The nearest face is the one with the shortest way to its center.
        return numpy.argmin([numpy.sum((face - vec)**2)/numpy.sum(face**2) for face in self.faceVecList])
""")],
         needs="nothing but a sum that grows with the length: a vector so long that the distances cannot be told apart",
         what="the face of a very long vector is the first",
         demo='''
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron()
for i in range(12):
    assert d.getFaceInd(d.getFaceCtr(i)*1e17) == i, i
'''),
    dict(id="c04-ring-of-cap", property="C04",
         edits=[("ringsSkyMap.py", """        if index == self._numTracts - 1:  # North polar cap
            return self.config.numRings, 0
        if index < 0 or index >= self._numTracts:
            raise IndexError("Tract index %d is out of range [0, %d]" % (index, len(self) - 1))
""", """        if index == self._numTracts - 1:  # North polar cap
            return self.config.numRings, 0
        if abs(index) >= self._numTracts:
            raise IndexError("Tract index %d is out of range [0, %d]" % (index, len(self) - 1))
""")],
         needs="a negative number given to getRingIndices",
         what="a place in the first ring is given for a negative tract number, not IndexError",
         demo='''
m = make("rings", numRings=5)
try:
    m.getRingIndices(-1)
except IndexError:
    pass
else:
    raise AssertionError
'''),
    dict(id="c22-version-by-major", property="C22",
         edits=[("dodecaSkyMap.py", """        if version >= (2, 0):
""", """        if version[0] > 2:
""")],
         needs="a pickle of a newer version of the class",
         what="a pickle of version (2, 0) is read as if its layout were the current one",
         demo='''
m = make("dodeca")
state = dict(m.__getstate__(), version=(2, 0))
try:
    DodecaSkyMap.__new__(DodecaSkyMap).__setstate__(state)
except RuntimeError:
    pass
else:
    raise AssertionError
'''),
    dict(id="c13-border-of-patches", property="C13",
         edits=[("tractInfo.py", """        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))
""", """        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[0]) for i in range(2))
        urPatchInd = tuple(min(u, n - 1) for u, n in zip(urPatchInd, self.getNumPatches()))
""")],
         needs="patches that are wider than they are high",
         what="patches that the region reaches are missed in y",
         demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((60, 20), 0))
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(30, 70))
assert t.findPatch(p).getIndex() in [q.getIndex() for q in t.findPatchList([p])]
'''),
    dict(id="c18-raStart-in-degrees", property="C18",
         edits=[("ringsSkyMap.py", """            raMin = (self._raStart + deltaStart).wrap()
            raMax = (self._raStart + deltaStop).wrap()
""", """            raMin = (self._raStart + deltaStart).wrap()
            raMax = raMin + (deltaStop - deltaStart)
""")],
         needs="a tract whose RA range holds 0 or ends there, asked for its range",
         what="raMax is beyond 360 degrees",
         demo='''
m = make("rings", numRings=5)
ra = [m.getRaDecRange(i)[1].asDegrees() for i in range(1, len(m) - 1)]
assert all(0 <= v < 360 for v in ra), ra
'''),
    dict(id="c12-edge-by-float", property="C12",
         edits=[("tractInfo.py", """        pixelInd = geom.Point2I(pixel)
        if not self._bbox.contains(pixelInd):
            raise LookupError("coord %s is not in tract %s" % (coord, self.tract_id))
""", """        pixelInd = geom.Point2I(pixel)
        if not geom.Box2D(self._bbox).contains(pixel) and pixelInd[0] > 0:
            raise LookupError("coord %s is not in tract %s" % (coord, self.tract_id))
        pixelInd.setX(max(0, pixelInd[0]))
        pixelInd.setY(max(0, pixelInd[1]))
""")],
         needs="a position off the left side of the tract",
         what="findPatch gives a patch for a position outside the tract",
         demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((60, 20), 0))
t = m[0]
try:
    t.findPatch(t.getWcs().pixelToSky(geom.Point2D(-1.2, 30)))
except LookupError:
    pass
else:
    raise AssertionError
'''),
]
