"""The seventh wave of planted bugs: those the sizes, right ascensions and versions out of the ordinary were generated for."""
from seeds import REPO
from seeds3 import PLOT

R = "ringsSkyMap.py"
B = "baseSkyMap.py"
T = "tractInfo.py"
TB = "tractBuilder.py"
DOC = "doc/_static/skymap/showVisitSkyMap.py"

GRID = '''
def grid(size):
    return make("discrete", raList=[30.0], decList=[10.0], radiusList=[size*7.5*0.25/3600], tractOverlap=0.0,
                pixelScale=0.25, projection="TAN", legacy=((size, 40*size), 0))[0]


def position(t, x, y):
    return t.getWcs().pixelToSky(geom.Point2D(x, y))
'''

SEEDS7 = [
    dict(id="c12-reciprocal", property="C12",
         edits=[(T, """        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))
        return self.getPatchInfo(patchInd)
""", """        scale = tuple(1.0/size for size in self.patch_inner_dimensions)
        patchInd = tuple(int(pixelInd[i]*scale[i]) for i in range(2))
        return self.getPatchInfo(patchInd)
""")],
         needs="a patch size whose reciprocal, rounded, times a multiple of it comes out below the whole number (49, say)",
         what="the first pixels of some patches are found in the patch before",
         demo=GRID + '''
for size in range(40, 110):
    t = grid(size)
    for k in range(t.getNumPatches()[0]):
        assert tuple(t.findPatch(position(t, k*size, 3)).getIndex()) == (k, 0), (size, k)
'''),
    dict(id="c13-reciprocal", property="C13",
         edits=[(T, """        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))
""", """        urPatchInd = tuple(int(bbox.getMax()[i]*(1.0/self.patch_inner_dimensions[i])) for i in range(2))
""")],
         needs="a patch size whose reciprocal, rounded, times a multiple of it comes out below the whole number (49, say)",
         what="the patch that a position is on the first pixel of is left out",
         demo=GRID + '''
for size in range(40, 110):
    t = grid(size)
    for k in range(t.getNumPatches()[0]):
        got = {tuple(p.getIndex()) for p in t.findPatchList([position(t, k*size, 3)])}
        assert (k, 0) in got, (size, k, got)
'''),
    dict(id="c17-twelve-angles", property="C17",
         edits=[(T, "                numAngles = 24\n", "                numAngles = 12\n")],
         needs="a tract given by its vertices, turned by some fifteen degrees, and patches smaller than a thirtieth of the overlap",
         what="the tract falls short of half the overlap around its vertices",
         demo='''
m = make("healpix", log2NSide=1, tractOverlap=6.0, pixelScale=60.0, rotation=15.0, projection="ZEA", legacy=((3, 3), 0))
for t in m:
    box = geom.Box2D(t.getBBox())
    box.grow(0.01)
    for v in t.getVertexList():
        for k in range(24):
            p = t.getWcs().skyToPixel(v.offset(15.0*k*geom.degrees, 2.95*geom.degrees))
            assert box.contains(p), (t.getId(), k, p)
'''),
    dict(id="c21-ra-folded", property="C21",
         edits=[("discreteSkyMap.py", "        sha1.update(struct.pack(fmt, *self.config.raList))\n",
                 "        sha1.update(struct.pack(fmt, *(ra % 360.0 for ra in self.config.raList)))\n")],
         needs="a right ascension below 0 or above 360 in the configuration of a discrete map",
         what="the hash is not the one that repositories hold for this configuration",
         demo='''
import hashlib
import struct
m = make("discrete", raList=[-10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN")
h = hashlib.sha1()
h.update(type(m).__name__.encode("utf-8"))
h.update(m._tractBuilder.getPackedConfig(m.config))
for values in ([-10.0], [5.0], [1.0]):
    h.update(struct.pack("<1d", *values))
assert m.getSha1() == h.digest()
'''),
    dict(id="c22-version-of-pair", property="C22",
         edits=[("cachingSkyMap.py", """        return (self.__class__, (self.config, self._version))
""", """        # Some versions are pairs: the first number is what counts.
        version = self._version[0] if isinstance(self._version, tuple) else self._version
        return (self.__class__, (self.config, version))
""")],
         needs="a sky map made with a version that is a tuple, as documented",
         what="its copy has another version",
         demo='''
import pickle
m = make("discrete", (1, 2), raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN")
other = pickle.loads(pickle.dumps(m))
assert other._version == (1, 2), other._version
'''),
    dict(id="c24-column-byte", property="C24",
         edits=[(B, """                                cell_x=xx,
                                cell_y=yy,
""", """                                cell_x=xx & 0xff,
                                cell_y=yy & 0xff,
""")],
         needs="a tract of more than 256 patches along an axis",
         what="the patches beyond are registered at the places of others",
         demo=REPO + '''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.05], tractOverlap=0.0, pixelScale=1.0, projection="TAN",
         legacy=((1, 400), 0))
assert m[0].getNumPatches()[0] > 300
m.register("wide", butler)
assert max(r.cell_x for r in butler.registry.queryDimensionRecords("patch")) == m[0].getNumPatches()[0] - 1
'''),
    dict(id="c24-widest-row", property="C24",
         edits=[(B, "                                patch=tractInfo.getSequentialPatchIndex(patchInfo),\n",
                 "                                patch=xx + nxMax*yy,\n")],
         needs="two tracts with different numbers of patches along x",
         what="the patches of the smaller are registered under numbers that are not theirs",
         demo=REPO + '''
m = make("discrete", raList=[10.0, 50.0], decList=[0.0, 5.0], radiusList=[0.05, 0.1], tractOverlap=0.0, pixelScale=1.0,
         projection="TAN", legacy=((100, 100), 0))
assert m[0].getNumPatches()[0] < m[1].getNumPatches()[0]
m.register("two", butler)
for r in butler.registry.queryDimensionRecords("patch"):
    assert tuple(m[r.tract][r.id].getIndex()) == (r.cell_x, r.cell_y), r
'''),
    dict(id="c06-dec-as-ra", property="C06",
         edits=[(R, """            _dec = np.atleast_1d(dec)

""", """            _dec = np.atleast_1d(dec).astype(_ra.dtype)

""")],
         needs="right ascensions that are whole numbers of radians, in an array of integers",
         what="the declinations are cut to whole radians and positions found in tracts of other rings",
         demo='''
import numpy
m = make("rings", 1, numRings=8)
ra, dec = numpy.array([1, 2, 3]), numpy.array([0.9, -0.8, 0.4])
got = list(m.findTractIdArray(ra, dec))
assert got == [m.findTract(geom.SpherePoint(float(r), float(d), geom.radians)).getId() for r, d in zip(ra, dec)], got
'''),
    dict(id="c30-far-side", property="C30",
         edits=[(B, """            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
""", """            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            if angSep > 120 and distTractInfoList:
                # No need to list those on the other side of the sky.
                continue
""")],
         needs="a map whose tracts are all more than 120 degrees from the position, the nearest not first",
         what="the first tract is found, not the nearest",
         demo='''
m = make("discrete", raList=[180.0, 130.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN")
assert m.findTract(sky(0.0, 0.0)).getId() == 1
'''),
    dict(id="c32-five-hundred", property="C32",
         edits=[(B, """        for tractInfo in self:
            wcs = tractInfo.getWcs()
""", """        for tractInfo in self:
            if tractInfo.getId() >= 500:
                break
            wcs = tractInfo.getWcs()
""")],
         needs="a map of more than five hundred tracts",
         what="the tracts from the five hundredth on are missing from the log",
         demo='''
lines = []
m = make("healpix", log2NSide=3, nest=True)
m.logSkyMapInfo(types.SimpleNamespace(info=lambda text, *a: lines.append(text % a if a else text)))
assert len(lines) == 1 + len(m), len(lines)
'''),
    dict(id="c37-last-three", property="C37",
         edits=[(DOC, "        if tractInt not in validTracts:\n", "        if tractInt not in validTracts[-3:]:\n")],
         needs="a tract given again after three others",
         what="it is listed twice",
         demo=PLOT + '''
m = make("rings", 1, numRings=3)
assert script.sanitizeTractList(m, [1, 2, 3, 4, 1])[0] == [1, 2, 3, 4]
'''),
]
