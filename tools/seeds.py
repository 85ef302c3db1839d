"""The planted bugs: each an edit of the sky map package that breaks one property, and a demonstration."""

PACK = '''
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker

U = DimensionUniverse()


def fixed(tracts=5, nx=3, ny=3):
    return DataCoordinate.from_full_values(U.conform(["skymap"]), values=("sm",)).expanded(
        records={"skymap": U["skymap"].RecordClass(name="sm", tract_max=tracts, patch_nx_max=nx, patch_ny_max=ny)})


def dataId(tract, patch, **kw):
    return DataCoordinate.standardize(skymap="sm", tract=tract, patch=patch, universe=U, **kw)
'''

REPO = '''
import shutil
import tempfile
import lsst.daf.butler as B

root = tempfile.mkdtemp(prefix="demo-butler-")
import atexit
atexit.register(shutil.rmtree, root, True)
B.Butler.makeRepo(root + "/repo")
butler = B.Butler.from_config(root + "/repo", writeable=True)
'''

SMALL = 'kind="discrete"'

SEEDS = [
    dict(id="c01-maxbits-known-bands", property="C01",
         edits=[("packers.py", """            packedMax *= self._n_bands
""", """            # No need for bits for bands that the mapping does not have.
            packedMax *= min(self._n_bands, len(self._bands))
""")],
         needs="a band mapping with a gap, whose largest index is at least the number of bands",
         what="maxBits is computed from the number of configured bands, so packed integers of bands with larger "
              "indices do not fit in it",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(), bands={"g": 0, "r": 9}, n_bands=10)
packed = p.pack(dataId(4, 8, band="r"))
assert packed.bit_length() <= p.maxBits, (packed, p.maxBits)
'''),
    dict(id="c02-square-patches", property="C02",
         edits=[("packers.py", """            n_patches = (
                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
            )
""", """            # Patch IDs are bounded by those of a square of the larger size.
            record = fixed.records["skymap"]
            n_patches = max(record.patch_nx_max, record.patch_ny_max)**2
""")],
         needs="a registered sky map whose largest numbers of patches in x and y differ",
         what="the number of patches is not the product of the recorded maxima, so patches that do not exist are packed",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(nx=4, ny=2))
try:
    p.pack(dataId(1, 9, band="r"))
except ValueError:
    pass
else:
    raise AssertionError("packed patch 9 of 8")
'''),
    dict(id="c03-narrow-band-order", property="C03",
         edits=[("packers.py", """        + [f"N{d}" for d in (387, 515, 656, 816, 921, 1010)]  # HSC narrow-bands
        + [f"N{d}" for d in (419, 540, 708, 964)]  # DECam narrow-bands
""", """        # HSC and DECam narrow-bands
        + [f"N{d}" for d in (387, 419, 515, 540, 656, 708, 816, 921, 964, 1010)]
""")],
         needs="a narrow band after N387, with the built-in bands",
         what="the built-in narrow bands are in another order, so integers packed earlier change meaning",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed())
n = p.pack(dataId(0, 0, band="N515"))
assert n == 19*45, n
'''),
    dict(id="c04-index-at-end", property="C04",
         edits=[("ringsSkyMap.py", """        if index < 0 or index >= self._numTracts:
            raise IndexError("Tract index %d is out of range [0, %d]" % (index, len(self) - 1))
        ring = 0  # Ring number
""", """        ring = 0  # Ring number
"""), ("ringsSkyMap.py", """            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:
                tractNum -= self._ringNums[ring]
                ring += 1
        return ring, tractNum
""", """            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:
                tractNum -= self._ringNums[ring]
                ring += 1
        if tractNum < 0 or ring > self.config.numRings:
            raise IndexError("Tract index %d is out of range [0, %d]" % (index, len(self) - 1))
        return ring, tractNum
""")],
         needs="a tract number beyond the last one",
         what="getRingIndices gives a place past the north cap for tract numbers out of range instead of IndexError",
         demo='''
m = make("rings", numRings=3)
assert m.getRingIndices(len(m) - 1) == (3, 0)
try:
    got = m.getRingIndices(len(m) + 1)
except IndexError:
    pass
else:
    raise AssertionError(got)
'''),
    dict(id="c04-ra-wrap", property="C04",
         edits=[("ringsSkyMap.py", """        tractNum = int((ra - self._raStart).wrap().asRadians()
                       / (2*math.pi/self._ringNums[ringNum]) + 0.5)
        return 0 if tractNum == self._ringNums[ringNum] else tractNum  # Allow wraparound
""", """        tractNum = int((ra - self._raStart).wrapCtr().asRadians()
                       / (2*math.pi/self._ringNums[ringNum]) + 0.5)
        return tractNum + self._ringNums[ringNum] if tractNum < 0 else tractNum  # Allow wraparound
""")],
         needs="a position west of raStart by less than half a turn: truncation towards zero then rounds the wrong way",
         what="positions in half of the ring are given the tract to the east of theirs",
         demo='''
m = make("rings", numRings=3, raStart=0.0)
for t in (m[5], m[6], m[7]):
    assert m.findTract(t.getCtrCoord()).getId() == t.getId()
ringNum, tractNum = m.getRingIndices(8)
ctr = m[8].getCtrCoord()
lo, hi, dlo, dhi = m.getRaDecRange(8)
p = geom.SpherePoint(lo + (hi - lo)*0.1, ctr.getLatitude())
assert m.findTract(p).getId() == 8, m.findTract(p).getId()
'''),
    dict(id="c05-version0-ring1", property="C05",
         edits=[("ringsSkyMap.py", """        if self._version == 0 and tractNum == 0 and ringNum != 0:
            # Account for off-by-one error in getRingIndices
            # Note that this means that tract 1 gets duplicated.
            ringNum += 1
""", """        if self._version == 0 and tractNum == 0 and ringNum > 1:
            # Account for off-by-one error in getRingIndices
            # Note that this means that tract 1 gets duplicated.
            ringNum += 1
""")],
         needs="version 0, and a position in the first tract of the second ring from the south",
         what="findTract gives the last tract of the southernmost ring for the first tract of the next ring",
         demo='''
m = make("rings", numRings=5, version=0)
t = m[sum(m._ringNums[:2]) + 1]
found = m.findTract(t.getCtrCoord())
assert found.getId() == t.getId(), (found.getId(), t.getId())
'''),
    dict(id="c06-single-wrap", property="C06",
         edits=[("ringsSkyMap.py", """        deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)
""", """        delta = _ra[inRange] - self._raStart.asRadians()
        deltaWrap = np.where(delta < 0, delta + 2.*np.pi, delta)
""")],
         needs="right ascensions outside 0 to 360 degrees",
         what="findTractIdArray gives wrong tracts for right ascensions that are not normalised",
         demo='''
m = make("rings", numRings=4, raStart=200.0)
for ra in (10.0, 370.0, -170.0, 725.0):
    got = int(m.findTractIdArray(ra, 5.0, degrees=True)[0])
    assert got == m.findTract(sky(ra, 5.0)).getId(), (ra, got)
'''),
    dict(id="c07-narrow-tracts", property="C07",
         edits=[("ringsSkyMap.py", """        return ExplicitTractInfo(
            index,
            self._tractBuilder,
            center,
            0.5*self._ringSize*geom.radians,
""", """        radius = 0.5*self._ringSize
        if 0 <= ringNum < self.config.numRings:
            # Tracts need not be wider than their share of the ring.
            radius = min(radius, math.pi*math.cos(dec)/self._ringNums[ringNum])

        return ExplicitTractInfo(
            index,
            self._tractBuilder,
            center,
            radius*geom.radians,
""")],
         needs="a ring away from the equator and an overlap that is only just enough",
         what="tracts no longer reach the corners of their inner region",
         demo='''
m = make("rings", numRings=6, tractOverlap=2.0, pixelScale=300.0, legacy=((1, 1), 0))
for i in range(len(m)):
    ring, _ = m.getRingIndices(i)
    if not 0 <= ring < 6:
        continue
    lo, hi, dlo, dhi = m.getRaDecRange(i)
    w = (hi - lo).wrap()
    for fx in (0.001, 0.5, 0.999):
        for fy in (0.001, 0.5, 0.999):
            p = geom.SpherePoint(lo + w*fx, dlo + (dhi - dlo)*fy)
            t = m.findTract(p)
            assert t.contains(p), (i, fx, fy)
'''),
    dict(id="c08-far-cap", property="C08",
         edits=[("ringsSkyMap.py", """        for entry in [0, len(self)-1]:
            tract = self[entry]
""", """        reach = 0.5*self._ringSize + math.radians(self.config.tractOverlap)
        for entry in [0, len(self)-1]:
            tract = self[entry]
            if coord.separation(tract.getCtrCoord()).asRadians() > reach:
                continue  # Beyond the reach of the cap
""")],
         needs="a position in the corner of a polar tract, farther from the pole than the middle of its sides",
         what="findAllTracts misses the polar tracts for positions in their corners",
         demo='''
m = make("rings", numRings=4, tractOverlap=1.0, pixelScale=200.0, legacy=((10, 10), 0))
for cap in (m[0], m[len(m) - 1]):
    for corner in cap.getVertexList():
        p = corner.offset(corner.bearingTo(cap.getCtrCoord()), 0.2*geom.degrees)
        assert cap.contains(p)
        assert cap.getId() in [t.getId() for t in m.findAllTracts(p)], cap.getId()
'''),
    dict(id="c09-border-of-small-patches", property="C09", count=1,
         edits=[("tractBuilder.py", """        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)
""", """        # Overlap neighbouring patches only.
        outerBBox.grow(geom.Extent2I(*(min(self.getPatchBorder(), dim) for dim in self._patchInnerDimensions)))
        outerBBox.clip(self._tractBBox)
""")],
         needs="the legacy builder with a border larger than the patches",
         what="the outer box is not grown by the configured border",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 10), 15))
t = m[0]
nx, ny = t.getNumPatches()
p = t[(nx//2, ny//2)]
assert p.getOuterBBox().getHeight() == 10 + 30, p
'''),
    dict(id="c10-numpy-cells", property="C10", count=1,
         edits=[("patchInfo.py", """            if isinstance(index, numbers.Number):
                _index = self.getCellIndexPair(index)
""", """            if isinstance(index, int):
                _index = self.getCellIndexPair(index)
""")],
         needs="a sequential cell index that is a numpy integer",
         what="numpy integers are refused as cell indices",
         demo='''
import numpy as np
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=1, numCellsPerPatchInner=3))
p = m[0][0]
assert p[np.int64(4)] == p[4] == p[(4, 0)]
'''),
    dict(id="c11-wide-cell-border", property="C11",
         edits=[("patchInfo.py", """            # There are numCellsInPatchBorder extra boundary cell on each side
            self._numCells = Index2D(x=numCellsPerPatchInner + 2*numCellsInPatchBorder,
                                     y=numCellsPerPatchInner + 2*numCellsInPatchBorder)
""", """            # There are numCellsInPatchBorder extra boundary cell on each side,
            # those of the neighbouring patch at most.
            self._numCellsInPatchBorder = min(numCellsInPatchBorder, numCellsPerPatchInner)
            self._numCells = Index2D(x=numCellsPerPatchInner + 2*self._numCellsInPatchBorder,
                                     y=numCellsPerPatchInner + 2*self._numCellsInPatchBorder)
""")],
         needs="more border cells than cells in a patch",
         what="patches have fewer border cells than configured, and the cells do not fill the patch's border",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=1, numCellsPerPatchInner=2,
                                      numCellsInPatchBorder=3))
p = m[0][0]
assert tuple(p.getNumCells()) == (8, 8), p.getNumCells()
'''),
    dict(id="c12-patch-edge", property="C12",
         edits=[("tractInfo.py", """        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))
""", """        patchInd = tuple(int(pixel[i]/self.patch_inner_dimensions[i]) for i in range(2))
""")],
         needs="a position in the lower half of the first pixel of a patch other than the first",
         what="findPatch gives the patch before the one whose inner box holds the position's pixel",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
t = m[0]
for x in (0.2, 19.4, 19.7, 20.0, 39.6):
    c = t.getWcs().pixelToSky(geom.Point2D(x, 3.0))
    p = t.findPatch(c)
    assert p.getInnerBBox().contains(geom.Point2I(geom.Point2D(x, 3.0))), (x, p)
'''),
    dict(id="c13-clip-first", property="C13",
         edits=[("tractInfo.py", """        bbox.grow(self.getPatchBorder())
        bbox.clip(self._bbox)
        if bbox.isEmpty():
            return ()
""", """        bbox.clip(self._bbox)
        if bbox.isEmpty():
            return ()
        bbox.grow(self.getPatchBorder())
        bbox.clip(self._bbox)
""")],
         needs="a region off the tract by less than the patch border",
         what="patches whose bordered area meets the region are not listed when the region is just off the tract",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=2, numCellsPerPatchInner=3))
t = m[0]
got = t.findPatchList([t.getWcs().pixelToSky(geom.Point2D(-5, 10))])
assert [tuple(p.getIndex()) for p in got] == [(0, 0)], got
'''),
    dict(id="c14-closest-twice", property="C14",
         edits=[("baseSkyMap.py", """            patchList = tractInfo.findPatchList(coordList)
            if patchList and not (tractInfo, patchList) in retList:
                retList.append((tractInfo, patchList))
        return retList

    def __getitem__""", """            if retList and retList[-1][0] is tractInfo:
                continue  # Same tract as the position before
            patchList = tractInfo.findPatchList(coordList)
            if patchList:
                retList.append((tractInfo, patchList))
        return retList

    def __getitem__""")],
         needs="positions that go from one tract to another and back",
         what="findClosestTractPatchList lists a tract once for every time the positions come back to it",
         demo='''
m = make("discrete", raList=[10.0, 12.0], decList=[5.0, 5.0], radiusList=[1.2, 1.2], tractOverlap=0.0,
         pixelScale=60.0, projection="TAN", legacy=((20, 20), 5))
got = [t.getId() for t, _ in m.findClosestTractPatchList([sky(10, 5), sky(12, 5), sky(10.1, 5)])]
assert sorted(got) == [0, 1], got
'''),
    dict(id="c15-unprojectable-ends-search", property="C15",
         edits=[("tractInfo.py", """            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
""", """            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The region is so far off the tract that its pixel position
                # cannot be computed.
                return ()
""")],
         needs="a region with some positions the projection cannot represent and some in the tract",
         what="one position that cannot be projected makes the patch search find nothing",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
t = m[0]
import lsst.afw.geom
lsst.afw.geom.setBadMode("domain")  # the stand-in reports what cannot be projected by an exception
assert len(t.findPatchList([sky(10, 5), sky(190, -5)])) == len(t.findPatchList([sky(10, 5)])) > 0
'''),
    dict(id="c16-rotation-half-turn", property="C16",
         edits=[("baseSkyMap.py", """            rotation=Angle(self.config.rotation, degrees),
""", """            rotation=Angle(self.config.rotation % 180, degrees),
""")],
         needs="a rotation outside 0 to 180 degrees",
         what="the tracts' y axis points the opposite way for negative rotations and those beyond half a turn",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", rotation=-30.0, legacy=((20, 20), 5))
n = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", rotation=150.0, legacy=((20, 20), 5))
p = m[0].getWcs().pixelToSky(geom.Point2D(1, 1))
q = n[0].getWcs().pixelToSky(geom.Point2D(1, 1))
assert p.separation(q).asDegrees() > 1
'''),
    dict(id="c17-four-angles", property="C17",
         edits=[("tractInfo.py", """                numAngles = 24
""", """                numAngles = 4
""")],
         needs="a tract whose sides are not along the meridians and parallels (a rotation, or a vertex near a pole)",
         what="the tract reaches less than half the overlap around some of its vertices",
         demo='''
m = make("equat", numTracts=4, decRange=[-2.0, 2.0], tractOverlap=4.0, pixelScale=100.0, projection="CEA",
         rotation=45.0, legacy=((1, 1), 0))
for t in m:
    for v in t.getVertexList():
        for a in range(0, 360, 15):
            p = v.offset(a*geom.degrees, 1.95*geom.degrees)
            assert t.contains(p), (t, v, a)
'''),
    dict(id="c18-straddling-zero", property="C18",
         edits=[("ringsSkyMap.py", """            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMin), lat=sphgeom.Angle(decMin)),
            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMax), lat=sphgeom.Angle(decMax)),
""", """            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(min(raMin, raMax)), lat=sphgeom.Angle(decMin)),
            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(max(raMin, raMax)), lat=sphgeom.Angle(decMax)),
""")],
         needs="a tract that straddles right ascension 0",
         what="the inner sky region of the tract across RA 0 is all of its ring but the tract",
         demo='''
m = make("rings", numRings=3, raStart=3.0)
for t in m:
    if 0 < t.getId() < len(m) - 1:
        assert t.getInnerSkyRegion().contains(t.getCtrCoord().getVector()), t.getId()
'''),
    dict(id="c19-cell-outer-polygon", property="C19",
         edits=[("cellInfo.py", "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
                 "        return makeSkyPolygonFromBBox(bbox=self.getInnerBBox(), wcs=_tractWcs)\n")],
         needs="cells with a border",
         what="the outer sky polygon of a cell is its inner one",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=2, numCellsPerPatchInner=3))
c = m[0][0][0]
ctr = c.getWcs().pixelToSky(geom.Point2D(c.getInnerBBox().getMinX() - 1.5, c.getInnerBBox().getMinY() + 3))
assert c.getOuterSkyPolygon().contains(ctr.getVector())
'''),
    dict(id="c20-radii-sorted", property="C20",
         edits=[("discreteSkyMap.py", """        sha1.update(struct.pack(fmt, *self.config.radiusList))
""", """        sha1.update(struct.pack(fmt, *sorted(self.config.radiusList)))
""")],
         needs="two discrete maps that differ only in which tract has which radius",
         what="different maps are equal and hash alike",
         demo='''
a = make("discrete", raList=[10.0, 20.0], decList=[5.0, 5.0], radiusList=[1.0, 2.0])
b = make("discrete", raList=[10.0, 20.0], decList=[5.0, 5.0], radiusList=[2.0, 1.0])
assert a != b
'''),
    dict(id="c21-rotation-normalised", property="C21", count=1,
         edits=[("tractBuilder.py", """            subConfig.numCellsInPatchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation
""", """            subConfig.numCellsInPatchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation % 360
""")],
         needs="the cell builder and a rotation that is negative or beyond a full turn",
         what="the SHA-1 of such maps is not the one recorded in repositories",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], rotation=-30.0, cells=dict(cellBorder=3))
import hashlib
import struct
want = hashlib.sha1(b"DiscreteSkyMap" + struct.pack("<iiiiidd3sd", 150, 150, 3, 20, 1, 1.0, 0.333, b"STG", -30.0)
                    + struct.pack("<3d", 10.0, 5.0, 1.0)).digest()
assert m.getSha1() == want
'''),
    dict(id="c22-version-lost", property="C22",
         edits=[("cachingSkyMap.py", """        return (self.__class__, (self.config, self._version))
""", """        if not self._version:
            return (self.__class__, (self.config,))
        return (self.__class__, (self.config, self._version))
""")],
         needs="a rings map of version 0",
         what="a version 0 rings map comes back from a pickle as version 1, with other tract numbers",
         demo='''
import pickle
m = make("rings", numRings=5, version=0)
n = pickle.loads(pickle.dumps(m))
for i in range(len(m)):
    assert m.getRingIndices(i) == n.getRingIndices(i), i
'''),
    dict(id="c23-bbox-shared", property="C23",
         edits=[("tractInfo.py", """        return geom.Box2I(self._bbox)
""", """        return self._bbox
""")],
         needs="a caller that changes the box it was given (grow, clip, ...), then another question",
         what="a caller's change to a tract's bounding box changes the tract's answers",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
t = m[0]
w = t.getBBox().getWidth()
t.getBBox().grow(100)
assert t.getBBox().getWidth() == w
'''),
    dict(id="c23-cache-wraps", property="C23",
         edits=[("cachingSkyMap.py", "        self._tractCache = [None] * self._numTracts\n",
                 "        self._tractCache = [None] * min(self._numTracts, 256)  # bound the memory of large maps\n"),
                ("cachingSkyMap.py", """        if self._tractCache[index] is not None:
            return self._tractCache[index]
        tract = self.generateTract(index)
""", """        if index == self._numTracts:
            raise IndexError("Index out of range: %d vs %d" % (index, self._numTracts))
        tractId, index = index, index % len(self._tractCache)
        if self._tractCache[index] is not None:
            return self._tractCache[index]
        tract = self.generateTract(tractId)
""")],
         needs="a map of more than 256 tracts, and two tracts used whose numbers differ by a multiple of 256",
         what="the second tract asked for is the first one",
         demo='''
m = make("rings", numRings=20)
assert len(m) > 300
assert m[3].getId() == 3
assert m[259].getId() == 259
'''),
    dict(id="c24-largest-tract", property="C24",
         edits=[("baseSkyMap.py", """        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
        nxMax = max(nn[0] for nn in numPatches)
        nyMax = max(nn[1] for nn in numPatches)
""", """        nxMax, nyMax = max(tractInfo.getNumPatches() for tractInfo in self)
""")],
         needs="a map where the tract with the most patches in y does not have the most in x",
         what="the recorded patch_ny_max is smaller than the number of patches in y of some tract",
         demo=REPO + '''
m = make("healpix", log2NSide=1, pixelScale=900.0, tractOverlap=1.0, rotation=60.0, legacy=((30, 30), 0))
sizes = [tuple(t.getNumPatches()) for t in m]
assert max(sizes)[1] < max(s[1] for s in sizes), sizes
m.register("m", butler)
row, = butler.registry.queryDimensionRecords("skymap")
assert row.patch_ny_max == max(s[1] for s in sizes), (row, sizes)
'''),
    dict(id="c25-put-outside", property="C25",
         edits=[("baseSkyMap.py", """                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
""", """        if inserted:
            butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
""")],
         needs="a fault while the sky map dataset is written",
         what="the rows of a registration that failed stay, and registering again never writes the dataset",
         demo=REPO + '''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[0.1], tractOverlap=0.0, pixelScale=20.0,
         projection="TAN", legacy=((20, 20), 5))
put = butler.put


def fails(*args, **kw):
    raise OSError("disk full")


butler.put = fails
try:
    m.register("m", butler)
except OSError:
    pass
butler.put = put
assert not list(butler.registry.queryDimensionRecords("skymap"))
m.register("m", butler)
assert butler.get("skyMap", skymap="m", collections="skymaps") == m
'''),
    dict(id="c26-rounded-faces", property="C26",
         edits=[("detail/dodecahedron.py", """        return numpy.argmax(numpy.dot(self.faceVecList, vec))
""", """        # Rounded, so that a position on an edge is always given the same face.
        return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 2))
""")],
         needs="a position within about a degree of an edge, on the side of the face with the larger number",
         what="findTract does not give the tract with the nearest centre",
         demo='''
m = make("dodeca")
for i in range(12):
    for j in range(12):
        a, b = m[i].getCtrCoord(), m[j].getCtrCoord()
        if 0.1 < a.separation(b).asDegrees() < 64:
            p = a.offset(a.bearingTo(b), a.separation(b)*0.499)
            assert m.findTract(p).getId() == i, (i, j)
'''),
    dict(id="c27-band-centre", property="C27",
         edits=[("equatSkyMap.py", """            # CRVal must have Dec=0 for symmetry about the equator
            crValCoord = geom.SpherePoint(midRA, geom.Angle(0.0))
""", """            # CRVal at the centre of the tract, for least distortion
            crValCoord = ctrCoord
""")],
         needs="a declination band that is not symmetric about the equator",
         what="the tracts are projected from the middle of the band instead of the equator",
         demo='''
m = make("equat", numTracts=8, decRange=[0.0, 20.0], tractOverlap=0.5, pixelScale=300.0, projection="TAN")
t = m[2]
p = t.getWcs().getSkyOrigin() if hasattr(t.getWcs(), "getSkyOrigin") else None
assert abs(p.getLatitude().asDegrees()) < 1e-9, p
'''),
    dict(id="c28-ring-boundaries", property="C28",
         edits=[("healpixSkyMap.py", """        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)
""", """        theta, phi = hpgeom.boundaries(nSide, ident, nest=False, lonlat=False)
""")],
         needs="NEST ordering",
         what="the vertices are those of another pixel",
         demo='''
m = make("healpix", log2NSide=1, nest=True, pixelScale=600.0)
for t in list(m)[:8]:
    for v in t.getVertexList():
        assert v.separation(t.getCtrCoord()).asDegrees() < 50, t.getId()
'''),
    dict(id="c29-vertices-at-pixels", property="C29",
         edits=[("tractInfo.py", """        bboxD.grow(-0.001)
""", """        bboxD.grow(-0.5)
""")],
         needs="pixels large enough to matter",
         what="the vertices of a tract, and so its inner region, are half a pixel inside its corners",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=600.0,
         projection="TAN", legacy=((1, 1), 0))
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(-0.4, 2.0))
assert t.contains(p)
assert t.getInnerSkyRegion().contains(p.getVector())
'''),
    dict(id="c30-planar-distance", property="C30",
         edits=[("baseSkyMap.py", """            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
""", """            ctrCoord = tractInfo.getCtrCoord()
            deltaRa = (coord.getLongitude() - ctrCoord.getLongitude()).wrapCtr().asRadians()
            deltaDec = (coord.getLatitude() - ctrCoord.getLatitude()).asRadians()
            angSep = deltaDec**2 + (deltaRa*np.cos(coord.getLatitude().asRadians()))**2
""")],
         needs="positions or centres at high declination, or far from each other",
         what="findTract does not give the tract whose centre is nearest",
         demo='''
m = make("discrete", raList=[180.0, 0.0], decList=[85.0, 60.0], radiusList=[1.0, 1.0])
assert m.findTract(sky(0.0, 80.0)).getId() == 0
'''),
    dict(id="c31-decs-unchecked", property="C31",
         edits=[("discreteSkyMap.py", """        if len(self.radiusList) != len(self.decList):
""", """        if self.decList and len(self.radiusList) != len(self.decList):
""")],
         needs="a discrete configuration with no declinations at all",
         what="a configuration without declinations is accepted",
         demo='''
config = CLASSES["discrete"].ConfigClass()
config.raList = [1.0]
config.radiusList = [1.0]
try:
    config.validate()
except ValueError:
    pass
else:
    raise AssertionError("accepted")
'''),
    dict(id="c31-not-frozen", property="C31",
         edits=[("baseSkyMap.py", """        config.freeze()  # just to be sure, e.g. for pickling
        self.config = config
""", """        self.config = config
"""), ("baseSkyMap.py", """        self._tractBuilder = config.tractBuilder.apply()
""", """        self._tractBuilder = config.tractBuilder.apply()
        type(config).freeze(config.tractBuilder[config.tractBuilder.name])
""")],
         needs="a configuration changed after a map was made from it",
         what="the configuration of a map can be changed, and with it the map",
         demo='''
config = CLASSES["discrete"].ConfigClass()
config.raList = [1.0]
config.decList = [1.0]
config.radiusList = [1.0]
m = CLASSES["discrete"](config)
try:
    config.raList = [2.0]
except Exception:
    pass
assert abs(m[0].getCtrCoord().getLongitude().asDegrees() - 1.0) < 1e-9
'''),
    dict(id="c32-corner-order", property="C32",
         edits=[("baseSkyMap.py", """                posBox.getMin(),
                geom.Point2D(posBox.getMaxX(), posBox.getMinY()),
                posBox.getMax(),
                geom.Point2D(posBox.getMinX(), posBox.getMaxY()),
            )
""", """                geom.Point2D(x, y) for y in (posBox.getMinY(), posBox.getMaxY())
                for x in (posBox.getMinX(), posBox.getMaxX())
            )
""")],
         needs="reading the third and fourth corners",
         what="the corners are not in order going round",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
lines = []


class Log:
    def info(self, text, *args):
        lines.append(text % args if args else text)


m.logSkyMapInfo(Log())
import re
ra = [float(x) for x in re.findall(r"\\(([-0-9.]+), ", lines[1])]
assert len(ra) == 4 and abs(ra[1] - ra[2]) < 0.1 and abs(ra[3] - ra[0]) < 0.1, lines[1]
'''),
    dict(id="c33-cell-border-ignored", property="C33",
         edits=[("patchInfo.py", """            and (self.getNumCells() == rhs.getNumCells()) \\
            and (self.getCellBorder() == rhs.getCellBorder())
""", """            and (self.getNumCells() == rhs.getNumCells())
""")],
         needs="two patches with the same boxes and number of cells but other cell borders",
         what="patches that differ in their cell border are equal",
         demo='''
def patch(**cells):
    return make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
                projection="TAN", cells=cells)[0][(0, 0)]


a = patch(cellInnerDimensions=[10, 10], cellBorder=2, numCellsPerPatchInner=2, numCellsInPatchBorder=1)
b = patch(cellInnerDimensions=[5, 5], cellBorder=12, numCellsPerPatchInner=4, numCellsInPatchBorder=0)
assert a.getOuterBBox() == b.getOuterBBox() and a.getNumCells() == b.getNumCells()
assert a != b
'''),

    # Second round
    dict(id="c01-float-division", property="C01",
         edits=[("packers.py", """        d["tract"], d["patch"] = divmod(packedId, self._n_patches)
""", """        d["tract"] = int(packedId / self._n_patches)
        d["patch"] = packedId - d["tract"] * self._n_patches
""")],
         needs="tract and patch numbers whose product is beyond 53 bits",
         what="large packed integers unpack to another tract and patch",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(), bands={}, n_bands=0, n_tracts=2**40, n_patches=2**20)
d = dataId(2**40 - 1, 2**20 - 1)
assert p.unpack(p.pack(d)) == d, p.unpack(p.pack(d))
'''),
    dict(id="c02-config-zero-bands", property="C02",
         edits=[("packers.py", """            n_bands=config.n_bands,
            bands=config.bands,
""", """            n_bands=config.n_bands or None,
            bands=config.bands,
""")],
         needs="a packer made from a configuration with n_bands=0 (the default)",
         what="the band is part of the packed integer although the configuration says it is not",
         demo=PACK + '''
config = SkyMapDimensionPacker.ConfigClass()
p = SkyMapDimensionPacker.from_config(fixed(), config)
assert p.pack(dataId(2, 3)) == 21
assert p.maxBits == 6, p.maxBits
'''),
    dict(id="c03-band-position", property="C03",
         edits=[("packers.py", """            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts
""", """            packed += min(band_index, len(self._bands) - 1) * self._n_patches * self._n_tracts
""")],
         needs="a band index larger than the number of bands configured",
         what="the configured index of a band is not the one in the packed integer",
         demo=PACK + '''
p = SkyMapDimensionPacker(fixed(), bands={"g": 0, "r": 7}, n_bands=8)
assert p.pack(dataId(0, 0, band="r")) == 7*45
'''),
    dict(id="c05-array-offset", property="C05",
         edits=[("ringsSkyMap.py", """            ringNums[inRange[offByOne]] += 1
""", """            ringNums[offByOne] += 1
""")],
         needs="version 0, and an array with a polar position before one in the first tract of a ring",
         what="findTractIdArray moves the ring of another position of the array",
         demo='''
import numpy as np
m = make("rings", numRings=5, version=0)
dec = np.array([-89.0, 0.5, 31.0])
ra = np.array([0.0, 0.0, 0.0])
got = [int(i) for i in m.findTractIdArray(ra, dec, degrees=True)]
want = [m.findTract(sky(r, d)).getId() for r, d in zip(ra, dec)]
assert got == want, (got, want)
'''),
    dict(id="c06-open-edges", property="C06",
         edits=[("ringsSkyMap.py", """        mid = (_dec >= firstRingStart) & (_dec <= -1*firstRingStart)
""", """        mid = (_dec > firstRingStart) & (_dec < -1*firstRingStart)
""")],
         needs="a declination exactly on the edge of the north cap",
         what="findTractIdArray gives a tract of the southernmost ring for a position on the edge of the north cap",
         demo='''
m = make("rings", numRings=3)
dec = -(m._ringSize*0.5 - 0.5*math.pi)
got = int(m.findTractIdArray(0.3, dec)[0])
assert got == m.findTract(geom.SpherePoint(0.3, dec, geom.radians)).getId(), got
'''),
    dict(id="c08-wrap-east", property="C08",
         edits=[("ringsSkyMap.py", """                elif t > self._ringNums[r] - 1:
                    t = t - self._ringNums[r]
""", """                elif t > self._ringNums[r]:
                    t = t - self._ringNums[r]
""")],
         needs="a position in the last tract of a ring that the first tract of the ring contains too",
         what="findAllTracts misses the first tract of a ring from the east side of its wrap",
         demo='''
m = make("rings", numRings=5, tractOverlap=4.0, pixelScale=200.0, legacy=((10, 10), 0))
for ring in range(5):
    first = m[1 + sum(m._ringNums[:ring])]
    last = m[sum(m._ringNums[:ring + 1])]
    lo, hi, dlo, dhi = m.getRaDecRange(last.getId())
    p = geom.SpherePoint(hi - 0.001*geom.radians, first.getCtrCoord().getLatitude())
    ids = [t.getId() for t in m.findAllTracts(p)]
    assert first.contains(p) and first.getId() in ids, (ring, ids)
'''),
    dict(id="c09-cells-clipped", property="C09",
         edits=[("tractBuilder.py", """        # We do not clip the patch for cell-based tracts.
        return PatchInfo(
""", """        if self._numCellsInPatchBorder == 0:
            outerBBox.clip(self._tractBBox)  # No cells beyond the tract
        return PatchInfo(
""")],
         needs="the cell builder with no border cells but a cell border, and a patch at the edge of its tract",
         what="the outer box of patches of cells is clipped to the tract",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=4, numCellsPerPatchInner=2,
                                      numCellsInPatchBorder=0))
assert m[0][0].getOuterBBox().getMinX() == -4
'''),
    dict(id="c10-negative-tract", property="C10",
         edits=[("cachingSkyMap.py", """        if index < 0 or index > self._numTracts:
""", """        if index < -self._numTracts or index > self._numTracts:
""")],
         needs="a negative tract number, after the tract it counts back to was used",
         what="negative tract numbers are taken",
         demo='''
m = make("discrete", raList=[10.0, 20.0], decList=[5.0, 6.0], radiusList=[1.0, 1.0])
m[1]
try:
    m[-1]
except IndexError:
    pass
else:
    raise AssertionError("m[-1] is a tract")
'''),
    dict(id="c10-column-order", property="C10",
         edits=[("tractBuilder.py", """        return nx*_index.y + _index.x
""", """        return ny*_index.x + _index.y
"""), ("tractBuilder.py", """        x = sequentialIndex % nx
        y = sequentialIndex // nx
""", """        x, y = divmod(sequentialIndex, ny)
""")],
         needs="comparing a sequential index with its documented value, or with the order of iteration",
         what="sequential patch indices run along y first (both ways, consistently)",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 40), 5))
t = m[0]
assert [p.getSequentialIndex() for p in t] == list(range(len(t)))
'''),
    dict(id="c11-outer-cells-clipped", property="C11",
         edits=[("patchInfo.py", """        outerBBox.grow(self._cellBorder)
""", """        outerBBox.grow(self._cellBorder)
        if self._numCellsInPatchBorder == 0:
            outerBBox.clip(patchInnerBBox)
""")],
         needs="no border cells but a cell border, and a cell at the edge of its patch",
         what="outer boxes of cells are clipped to the patch",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=4, numCellsPerPatchInner=2,
                                      numCellsInPatchBorder=0))
assert m[0][0][0].getOuterBBox().getWidth() == 18
'''),
    dict(id="c13-one-patch-more", property="C13",
         edits=[("tractInfo.py", """        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))
""", """        urPatchInd = tuple(min(int(bbox.getEnd()[i]/self.patch_inner_dimensions[i]), self._numPatches[i] - 1)
                           for i in range(2))
""")],
         needs="a region that, with the border, ends at the last pixel of a patch",
         what="a patch that does not meet the region is listed",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
t = m[0]
got = t.findPatchList([t.getWcs().pixelToSky(geom.Point2D(14, 10))])
assert [tuple(p.getIndex()) for p in got] == [(0, 0)], got
'''),
    dict(id="c14-alike-patches", property="C14",
         edits=[("ringsSkyMap.py", """                if patchList and not (tractInfo, patchList) in retList:
""", """                if patchList and patchList not in [found[1] for found in retList]:
""")],
         needs="a region that meets patches of the same indices in two tracts",
         what="findTractPatchList leaves out tracts whose patches are alike (patches compare by index and boxes)",
         demo='''
m = make("rings", numRings=5, tractOverlap=4.0, pixelScale=200.0, legacy=((2000, 2000), 0))
lo, hi, dlo, dhi = m.getRaDecRange(5)
p = geom.SpherePoint(hi, m[5].getCtrCoord().getLatitude())
assert sorted(t.getId() for t, _ in m.findTractPatchList([p])) == sorted(t.getId() for t in m.findAllTracts(p))
'''),
    dict(id="c15-contains-runtime-error", property="C15",
         edits=[("tractInfo.py", """            pixel = self.getWcs().skyToPixel(coord)
        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            return False
""", """            pixel = self.getWcs().skyToPixel(coord)
        except lsst.pex.exceptions.DomainError:
            # Point must be way off the tract
            return False
""")],
         needs="a projection that reports positions it cannot represent by a RuntimeError",
         what="contains() raises for such positions",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
import lsst.afw.geom
lsst.afw.geom.setBadMode("runtime")  # the stand-in reports what cannot be projected by that exception
assert not m[0].contains(sky(190, -5))
'''),
    dict(id="c17-inside-pixels", property="C17",
         edits=[("tractBuilder.py", """        bbox = geom.Box2I(minBBox)
        bboxMin = bbox.getMin()
""", """        bbox = geom.Box2I(minBBox, geom.Box2I.SHRINK)
        bboxMin = bbox.getMin()
""")],
         needs="a minimum box that is a multiple of the patch size but for parts of pixels",
         what="the tract misses the outermost parts of pixels of what it should reach",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=61.0,
         projection="TAN", legacy=((1, 1), 0))
t = m[0]
for a in (0, 90, 180, 270):
    assert t.contains(t.getCtrCoord().offset(a*geom.degrees, 0.9999*geom.degrees)), a
'''),
    dict(id="c19-given-wcs-ignored", property="C19",
         edits=[("cellInfo.py", """        _tractWcs = tractWcs if tractWcs is not None else self._wcs
        return makeSkyPolygonFromBBox(bbox=self.getInnerBBox(), wcs=_tractWcs)
""", """        _tractWcs = self._wcs if self._wcs is not None else tractWcs
        return makeSkyPolygonFromBBox(bbox=self.getInnerBBox(), wcs=_tractWcs)
""")],
         needs="another WCS given to getInnerSkyPolygon of a cell",
         what="the polygon is made with the cell's own WCS instead of the one given",
         demo='''
m = make("discrete", raList=[10.0, 40.0], decList=[5.0, 6.0], radiusList=[1.0, 1.0], tractOverlap=0.0,
         pixelScale=60.0, projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=4,
                                                       numCellsPerPatchInner=2))
c = m[0][0][12]
assert c.getInnerBBox() == m[1][0][12].getInnerBBox()
assert c.getInnerSkyPolygon(m[1].getWcs()) == m[1][0][12].getInnerSkyPolygon()
'''),
    dict(id="c19-pixel-centres", property="C19",
         edits=[("detail/utils.py", """    pixelPoints = geom.Box2D(bbox).getCorners()
""", """    pixelPoints = geom.Box2D(geom.Point2D(bbox.getMin()), geom.Point2D(bbox.getMax())).getCorners()
""")],
         needs="looking at the outermost half pixel",
         what="sky polygons run through the centres of the outermost pixels",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 0))
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(-0.4, 10))
assert t.contains(p) and t.getOuterSkyPolygon().contains(p.getVector())
'''),
    dict(id="c20-whole-config", property="C20",
         edits=[("baseSkyMap.py", """        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented

""", """        if not isinstance(other, BaseSkyMap):
            return NotImplemented
        return type(self) is type(other) and self.config == other.config

""")],
         needs="two maps that differ in the configuration of the tract builder not in use",
         what="maps of the same geometry are unequal although they hash alike",
         demo='''
a = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0])
config = CLASSES["discrete"].ConfigClass()
config.raList, config.decList, config.radiusList = [10.0], [5.0], [1.0]
config.tractBuilder["cells"].cellBorder = 7
assert CLASSES["discrete"](config) == a
'''),
    dict(id="c21-single-precision", property="C21",
         edits=[("ringsSkyMap.py", """        sha1.update(struct.pack("<id", self.config.numRings, self.config.raStart))
""", """        sha1.update(struct.pack("<id", self.config.numRings, round(self.config.raStart, 9)))
""")],
         needs="a raStart with more than nine decimals",
         what="the SHA-1 of such maps is not the one recorded in repositories",
         demo='''
import hashlib
import struct
ra = 360.0/7
m = make("rings", numRings=3, raStart=ra)
want = hashlib.sha1(b"RingsSkyMap" + struct.pack("<iiidd3sd", 4000, 4000, 100, 1.0, 0.333, b"STG", 0.0)
                    + struct.pack("<id", 3, ra)).digest()
assert m.getSha1() == want
'''),
    dict(id="c22-poles-lost", property="C22",
         edits=[("dodecaSkyMap.py", """        return dict(
            version=self._version,
            config=self.config,
        )
""", """        return dict(
            version=self._version,
            config=self.config,
            sha1=self.getSha1(),
        )
"""), ("dodecaSkyMap.py", """        self.__init__(stateDict["config"])
""", """        self.__init__(stateDict["config"])
        self._sha1 = stateDict["sha1"]
""")],
         needs="a pickle written by an earlier release",
         what="pickles of dodecahedron maps written earlier no longer load",
         demo='''
m = make("dodeca")
n = CLASSES["dodeca"].__new__(CLASSES["dodeca"])
n.__setstate__(dict(version=(1, 0), config=m.config))
assert n == m
'''),
    dict(id="c23-patches-remembered", property="C23",
         edits=[("tractInfo.py", """        return self._tractBuilder.getPatchInfo(index, self._wcs)
""", """        key = tuple(index) if hasattr(index, "__iter__") else index
        patches = self.__dict__.setdefault("_patches", {})
        if key not in patches:
            patches[key] = self._tractBuilder.getPatchInfo(index, self._wcs)
        return patches[key]
""")],
         needs="a caller that changes the box of a patch it was given, and asks for the patch again",
         what="a caller's change to a patch's box changes the tract's answers",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 5))
t = m[0]
w = t[0].getInnerBBox().getWidth()
t[0].getInnerBBox().grow(3)
assert t[0].getInnerBBox().getWidth() == w
'''),
    dict(id="c24-inner-regions", property="C24",
         edits=[("baseSkyMap.py", """                                region=patchInfo.getOuterSkyPolygon(tractWcs),
""", """                                region=makeRegion(patchInfo),
"""), ("baseSkyMap.py", """            if inserted:
                for tractInfo in self:
""", """            if inserted:
                def makeRegion(patchInfo):
                    # Regions of patches stay in their tract.
                    bbox = geom.Box2I(patchInfo.getOuterBBox())
                    bbox.clip(tractInfo.getBBox())
                    return detail.makeSkyPolygonFromBBox(bbox=bbox, wcs=tractWcs)

                for tractInfo in self:
""")],
         needs="the cell builder, whose patches reach beyond the tract",
         what="the registered regions of patches at the edge of a tract are too small",
         demo=REPO + '''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[0.1], tractOverlap=0.0, pixelScale=20.0,
         projection="TAN", cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=4))
m.register("m", butler)
for r in butler.registry.queryDimensionRecords("patch"):
    assert r.region == m[0][r.id].getOuterSkyPolygon(), r.id
'''),
    dict(id="c25-tract-by-tract", property="C25",
         edits=[("baseSkyMap.py", """        with butler.transaction():
            try:
                inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
            except ConflictingDefinitionError as err:
                raise ConflictingDefinitionError(
                    f"SkyMap with hash {self.getSha1().hex()} is already registered with a different name."
                ) from err
            if inserted:
""", """        try:
            inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
        except ConflictingDefinitionError as err:
            raise ConflictingDefinitionError(
                f"SkyMap with hash {self.getSha1().hex()} is already registered with a different name."
            ) from err
        with butler.transaction():
            if inserted:
""")],
         needs="a fault or crash between the row of the sky map and the end of the rest",
         what="a registration that failed leaves the row of the sky map, and repeating it then records nothing",
         demo=REPO + '''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[0.1], tractOverlap=0.0, pixelScale=20.0,
         projection="TAN", legacy=((20, 20), 5))
put = butler.put


def fails(*args, **kw):
    raise OSError("disk full")


butler.put = fails
try:
    m.register("m", butler)
except OSError:
    pass
butler.put = put
m.register("m", butler)
assert list(butler.registry.queryDimensionRecords("tract"))
'''),
    dict(id="c26-signed-angles", property="C26",
         edits=[("detail/dodecahedron.py", """        ang = round(math.atan2(vec[1], vec[0]), 2)
        if ang < 0:
            ang += 2.0 * math.pi
""", """        ang = math.atan2(vec[1], vec[0])
        if ang < 0:
            ang += 2.0 * math.pi
""")],
         needs="rounding errors in the face at right ascension 0",
         what="tracts whose right ascension is 0 but for rounding come last in their row",
         demo='''
for poles in (False, True):
    m = make("dodeca", withTractsOnPoles=poles)
    rows = {}
    for t in m:
        c = t.getCtrCoord()
        rows.setdefault(round(c.getLatitude().asDegrees()), []).append(round(c.getLongitude().asDegrees(), 6) % 360)
    for row in rows.values():
        assert row == sorted(row), (poles, rows)
'''),
    dict(id="c28-from-north", property="C28", count=1,
         edits=[("healpixSkyMap.py", "    return geom.SpherePoint(float(thetaphi[1]), float(thetaphi[0] - 0.5*numpy.pi), geom.radians)\n",
                 "    return geom.SpherePoint(float(thetaphi[1]), float(0.5*numpy.pi - thetaphi[0]), geom.radians)\n"),
                ("healpixSkyMap.py", "    return (coord.getLatitude().asRadians() + 0.5*numpy.pi, coord.getLongitude().asRadians())\n",
                 "    return (0.5*numpy.pi - coord.getLatitude().asRadians(), coord.getLongitude().asRadians())\n")],
         needs="comparing a tract with where the maps registered earlier have it",
         what="colatitude is counted from the north (both ways, consistently), so that tracts change places",
         demo='''
m = make("healpix", log2NSide=0)
assert m[0].getCtrCoord().getLatitude().asDegrees() < 0
'''),
    dict(id="c29-half-overlap", property="C29",
         edits=[("tractInfo.py", """            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)
""", """            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap/2.0)
""")],
         needs="an overlap that makes a difference to the number of patches",
         what="tracts reach only half the overlap beyond their radius",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=1.0, pixelScale=60.0,
         projection="TAN", legacy=((20, 20), 0))
assert m[0].contains(sky(10.0, 6.9))
'''),
    dict(id="c30-first-that-contains", property="C30",
         edits=[("baseSkyMap.py", """            distTractInfoList.append((angSep, i, tractInfo))
        distTractInfoList.sort()
""", """            distTractInfoList.append((angSep, i, tractInfo))
            if angSep < 0.5*self.config.tractOverlap:
                break  # Near enough
        distTractInfoList.sort()
""")],
         needs="two tracts with centres closer together than the overlap",
         what="findTract gives a tract near the position although the centre of a later one is nearer",
         demo='''
m = make("discrete", raList=[10.0, 10.3], decList=[5.0, 5.0], radiusList=[1.0, 1.0], tractOverlap=1.0)
assert m.findTract(sky(10.29, 5.0)).getId() == 1
'''),
    dict(id="c31-old-names-follow-builder", property="C31",
         edits=[("baseSkyMap.py", """        self.tractBuilder["legacy"].patchBorder = value
""", """        if self.tractBuilder.name == "cells":
            self.tractBuilder["cells"].cellBorder = value
        self.tractBuilder["legacy"].patchBorder = value
""")],
         needs="the old patchBorder name set on a configuration with the cell builder",
         what="patchBorder changes the cell border, though it is documented to be ignored with the cell builder",
         demo='''
config = CLASSES["discrete"].ConfigClass()
config.tractBuilder = "cells"
config.patchBorder = 33
assert config.tractBuilder["cells"].cellBorder == 50
'''),
    dict(id="c32-patches-swapped", property="C32",
         edits=[("baseSkyMap.py", """                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
""", """                      *sorted(tractInfo.getNumPatches(), reverse=True)))
""")],
         needs="a tract with more patches in y than in x",
         what="the numbers of patches in x and y are swapped",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN", legacy=((40, 20), 5))
lines = []


class Log:
    def info(self, text, *args):
        lines.append(text % args if args else text)


m.logSkyMapInfo(Log())
nx, ny = m[0].getNumPatches()
assert "%d x %d patches" % (nx, ny) in lines[1], lines
'''),
    dict(id="c33-cells-outer-ignored", property="C33",
         edits=[("cellInfo.py", """            and (self.getInnerBBox() == rhs.getInnerBBox()) \\
            and (self.getOuterBBox() == rhs.getOuterBBox())
""", """            and (self.getInnerBBox() == rhs.getInnerBBox())
""")],
         needs="two cells with the same index and inner box but other borders",
         what="cells that differ in their outer box are equal",
         demo='''
def cell(border):
    return make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0,
                projection="TAN", cells=dict(cellInnerDimensions=[10, 10], cellBorder=border,
                                             numCellsPerPatchInner=2))[0][0][0]


assert cell(1) != cell(2)
'''),
]

from seeds3 import SEEDS3  # noqa: E402

SEEDS += SEEDS3
from seeds4 import SEEDS4  # noqa: E402

SEEDS += SEEDS4
from seeds5 import SEEDS5  # noqa: E402

SEEDS += SEEDS5
from seeds6 import SEEDS6  # noqa: E402

SEEDS += SEEDS6
from seeds7 import SEEDS7  # noqa: E402

SEEDS += SEEDS7
