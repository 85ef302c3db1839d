"""The fourth wave of planted bugs."""
from seeds3 import DOC, PLOT, RUN, THREAD  # noqa: F401

DISC = '''
one = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
           legacy=((30, 30), 3))
'''

SEEDS4 = [
    dict(id="c24-batches", property="C24",
         edits=[("baseSkyMap.py", """                    butler.registry.insertDimensionData("patch", *patchRecords)
""", """                    # Databases limit the number of rows in a statement.
                    batch = 150
                    for k in range(max(1, round(len(patchRecords)/batch))):
                        butler.registry.insertDimensionData("patch", *patchRecords[k*batch:(k + 1)*batch])
""")],
         needs="a tract with more than 150 patches, whose number is not a multiple of 150",
         what="the last patches of a tract with many are not registered",
         demo='''
class Registry:
    patches = 0

    def __getattr__(self, name):
        return lambda *a, **k: True

    def insertDimensionData(self, element, *records):
        self.patches += len(records)*(element == "patch")


import contextlib
import lsst.daf.butler
lsst.daf.butler.DatasetType = lambda **k: None
butler = types.SimpleNamespace(registry=Registry(), dimensions=None, transaction=contextlib.nullcontext, put=lambda *a, **k: None)
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((9, 9), 1))
m.register("m", butler)
assert butler.registry.patches == len(m[0]), (butler.registry.patches, len(m[0]))
'''),
    dict(id="c10-shared-iterator", property="C10",
         edits=[("tractInfo.py", """    def __iter__(self):
        xNum, yNum = self.getNumPatches()
        for y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))
""", """    def __iter__(self):
        self._next = 0
        while self._next < len(self):
            self._next += 1
            yield self.getPatchInfo(self._next - 1)
""")],
         needs="two iterations over one tract at a time",
         what="iterations over a tract share their position",
         demo=DISC + '''
t = one[0]
assert [a.getIndex() for a, b in zip(t, t)] == [p.getIndex() for p in list(t)]
'''),
    dict(id="c13-list-remembered", property="C13",
         edits=[("tractInfo.py", """        box2D = geom.Box2D()
        for coord in coordList:
            try:
""", """        if getattr(self, "_lastList", None) is coordList and len(coordList) == self._lastSize:
            return self._lastPatches
        self._lastPatches = self._findPatchList(coordList)
        self._lastList, self._lastSize = coordList, len(coordList)
        return self._lastPatches

    def _findPatchList(self, coordList):
        box2D = geom.Box2D()
        for coord in coordList:
            try:
""")],
         needs="a list of positions that the caller changes in place between two searches",
         what="the second search gives the patches of the first",
         demo=DISC + '''
t = one[0]
coords = [sky(9.3, 5.6)]
a = t.findPatchList(coords)
coords[0] = sky(10.7, 4.4)
assert t.findPatchList(coords) == t.findPatchList([sky(10.7, 4.4)])
'''),
    dict(id="c30-near-last", property="C30",
         edits=[("baseSkyMap.py", """        distTractInfoList = []
        for i, tractInfo in enumerate(self):
""", """        # Positions of a catalogue are close together: try the last answer first.
        last = getattr(self, "_lastFound", None)
        if last is not None and coord.separation(last[0]).asArcseconds() < 30.0:
            return last[1]
        distTractInfoList = []
        for i, tractInfo in enumerate(self):
"""), ("baseSkyMap.py", """        distTractInfoList.sort()
        return distTractInfoList[0][2]
""", """        distTractInfoList.sort()
        self._lastFound = coord, distTractInfoList[0][2]
        return distTractInfoList[0][2]
""")],
         needs="two searches in a row for positions within 30 arcseconds of each other, on either side of the line between two tracts",
         what="the second search gives the tract of the first",
         demo='''
m = make("discrete", raList=[10.0, 12.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0], tractOverlap=0.0, pixelScale=60.0,
         projection="TAN")
assert m.findTract(sky(10.999, 0.0)).getId() == 0
assert m.findTract(sky(11.001, 0.0)).getId() == 1
'''),
    dict(id="c06-in-place", property="C06",
         edits=[("ringsSkyMap.py", """            _ra = np.deg2rad(np.atleast_1d(ra))
            _dec = np.deg2rad(np.atleast_1d(dec))
""", """            _ra = np.array(ra, dtype=float, ndmin=1, copy=None)
            _dec = np.array(dec, dtype=float, ndmin=1, copy=None)
            _ra *= np.pi/180.0
            _dec *= np.pi/180.0
""")],
         needs="arrays of degrees that the caller goes on to use",
         what="the caller's arrays are converted to radians in place",
         demo='''
import numpy as np
m = make("rings", numRings=5, projection="TAN")
ra, dec = np.array([100.0, 200.0]), np.array([10.0, -30.0])
a = list(m.findTractIdArray(ra, dec, degrees=True))
assert list(m.findTractIdArray(ra, dec, degrees=True)) == a and ra[0] == 100
'''),
    dict(id="c06-chunks", property="C06",
         edits=[("ringsSkyMap.py", """        if degrees:
            _ra = np.deg2rad(np.atleast_1d(ra))
""", """        chunk = 1 << 10
        if np.size(ra) > chunk:
            # Keep the temporary arrays small.
            parts = np.array_split(np.atleast_1d(ra), np.size(ra)//chunk + 1), np.array_split(np.atleast_1d(dec), np.size(ra)//chunk + 1)
            return np.sort(np.concatenate([self.findTractIdArray(r, d, degrees=degrees) for r, d in zip(*parts)]))
        if degrees:
            _ra = np.deg2rad(np.atleast_1d(ra))
""")],
         needs="an array of more than 1024 positions",
         what="the tract numbers of a long array come sorted, not in the order of the positions",
         demo='''
import numpy as np
m = make("rings", numRings=5, projection="TAN")
ra = np.linspace(300.0, 0.0, 2000)
dec = np.zeros(2000)
assert m.findTractIdArray(ra, dec, degrees=True)[0] == m.findTract(sky(300.0, 0.0)).getId()
'''),
    dict(id="c16-matrix-shared", property="C16",
         edits=[("detail/wcsFactory.py", """        self._projection = projection
        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)
""", """        self._projection = projection
        # Sky maps are made over and over with few different matrices.
        key = pixelScale.asArcseconds(), round(rotation.asDegrees()), flipX
        if key not in self._known:
            self._known[key] = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)
        self._cdMatrix = self._known[key]
"""), ("detail/wcsFactory.py", """    def __init__(self, pixelScale, projection, rotation=0*geom.radians, flipX=False):
""", """    _known = {}

    def __init__(self, pixelScale, projection, rotation=0*geom.radians, flipX=False):
""")],
         needs="two maps of one pixel scale with rotations that differ by less than a degree, in one process",
         what="the second map has the rotation of the first",
         demo='''
def wcs(rotation):
    return make("dodeca", rotation=rotation, pixelScale=100.0)[3].getWcs()


wcs(10.0)
a, b = wcs(10.0).pixelToSky(0, 0), wcs(10.4).pixelToSky(0, 0)
assert a.separation(b).asArcseconds() > 100
'''),
    dict(id="c27-whole-circle", property="C27",
         edits=[("equatSkyMap.py", """        tractWidthRA = geom.Angle(360.0 / self.config.numTracts, geom.degrees)
""", """        # Whole arcminutes make round numbers of the edges.
        tractWidthRA = geom.Angle(round(360.0*60.0 / self.config.numTracts) / 60.0, geom.degrees)
""")],
         needs="a number of tracts that does not divide the circle into whole arcminutes",
         what="the tracts leave a gap, or overlap, at RA 0",
         demo='''
m = make("equat", numTracts=7, pixelScale=500.0)
last = m[6].getVertexList()[1].getLongitude().asDegrees()
assert min(last, 360 - last) < 1e-9, last
'''),
    dict(id="c28-vertices-stepped", property="C28",
         edits=[("healpixSkyMap.py", """        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)
""", """        # Two points to a side follow the curved sides better.
        theta, phi = hpgeom.boundaries(nSide, ident, step=2 if nSide > 4 else 1, nest=nest, lonlat=False)
""")],
         needs="log2NSide of 3 or more",
         what="the vertex list has eight positions, not the four corners of the HEALPixel",
         demo='''
assert len(make("healpix", log2NSide=3, pixelScale=500.0)[5].getVertexList()) == 4
'''),
    dict(id="c11-cell-of-border", property="C11",
         edits=[("patchInfo.py", """        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]
                             + patchInnerBBox.getBegin()[i]
                             for i in range(2)])
""", """        border = min(self._numCellsInPatchBorder, self._numCells.x//3)
        innerMin = Point2I(*[(_index[i] - border)*self._cellInnerDimensions[i]
                             + patchInnerBBox.getBegin()[i]
                             for i in range(2)])
""")],
         needs="a border of more cells than the inner patch has",
         what="the cells are not where the patch is",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         cells=dict(cellInnerDimensions=[10, 10], cellBorder=0, numCellsPerPatchInner=2, numCellsInPatchBorder=3))
p = m[0][0]
assert p[0].getInnerBBox().getMin() == p.getOuterBBox().getMin()
'''),
    dict(id="c23-cells-remembered", property="C23",
         edits=[("patchInfo.py", """        patchInnerBBox = self.getInnerBBox()
        innerMin = Point2I(""", """        known = self.__dict__.setdefault("_cells", {})
        if _index in known:
            return known[_index]
        patchInnerBBox = self.getInnerBBox()
        innerMin = Point2I("""), ("patchInfo.py", """        return CellInfo(
            index=_index,
            innerBBox=innerBBox,
            outerBBox=outerBBox,
            sequentialIndex=self.getSequentialCellIndexFromPair(_index),
            tractWcs=self._wcs
        )
""", """        known[_index] = CellInfo(
            index=_index,
            innerBBox=innerBBox,
            outerBBox=outerBBox,
            sequentialIndex=self.getSequentialCellIndexFromPair(_index),
            tractWcs=self._wcs
        )
        return known[_index]
""")],
         needs="a caller that keeps a patch and grows the box of one of its cells",
         what="the patch gives the cell with the changed box from then on",
         demo='''
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         cells=dict(cellInnerDimensions=[10, 10], cellBorder=1, numCellsPerPatchInner=2))
p = m[0][0]
p[0].getOuterBBox().grow(5)
assert p[0].getOuterBBox().getWidth() == 12
'''),
    dict(id="c04-range-of-caps", property="C04",
         edits=[("ringsSkyMap.py", """        if dec < firstRingStart:
            # Southern cap
            return -1
""", """        if dec.asDegrees() < round(math.degrees(firstRingStart), 5):
            # Southern cap
            return -1
""")],
         needs="a position within 0.02 arcseconds of the edge of the south cap",
         what="it is in the cap, or in the ring, on the wrong side",
         demo='''
m = make("rings", numRings=6, projection="TAN")
edge = math.degrees(math.pi/7*0.5 - 0.5*math.pi)
d = round(edge, 5)
assert abs(d - edge) > 1e-7
assert (m.findTract(sky(1.0, (d + edge)/2)).getId() == 0) == ((d + edge)/2 < edge)
'''),
    dict(id="c14-closest-first", property="C14",
         edits=[("baseSkyMap.py", """        retList = []
        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
""", """        retList = []
        coordList = sorted(set(coordList), key=lambda c: c.getLongitude()) if len(coordList) > 3 else coordList
        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList[:4] if len(coordList) > 4 else coordList)
""")],
         needs="a region of five corners or more",
         what="only the first four in longitude count",
         demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN",
         legacy=((30, 30), 0))
coords = [sky(9.3, 0.0), sky(9.31, 0.01), sky(9.32, 0.0), sky(9.33, 0.01), sky(10.9, 0.9)]
assert m.findTractPatchList(coords) == [(m[0], m[0].findPatchList(coords))]
'''),
    dict(id="c22-shared-state", property="C22",
         edits=[("equatSkyMap.py", """        return dict(
            version=self._version,
            config=self.config,
        )
""", """        # Only what differs from the defaults need be kept.
        default = self.ConfigClass()
        changed = {name: value for name, value in self.config.items() if name != "tractBuilder" and value != getattr(default, name)}
        return dict(
            version=self._version,
            config=self.config if changed else default,
        )
""")],
         needs="an equatorial map that differs from the default in its tract builder alone",
         what="the unpickled map has the default patches",
         demo='''
import pickle
config = EquatSkyMap.ConfigClass()
config.tractBuilder["legacy"].patchInnerDimensions = [3000, 5000]
m = EquatSkyMap(config)
assert pickle.loads(pickle.dumps(m))[0].getPatchInnerDimensions() == m[0].getPatchInnerDimensions()
'''),
    dict(id="c35-lazy-config", property="C35",
         edits=[("detail/wcsFactory.py", """        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
                                  cdMatrix=self._cdMatrix, projection=self._projection)
""", """        self._arguments = dict(crpix=crPixPos, crval=crValCoord)
        return self._make()

    def _make(self):
        return afwGeom.makeSkyWcs(cdMatrix=self._cdMatrix, projection=self._projection, **self._arguments)
""")],
         needs="two threads that ask one map for two tracts not yet made, switching within makeWcs",
         what="a tract has the WCS of another",
         demo=THREAD + '''
from lsst.skymap.detail import WcsFactory
m = make("rings", numRings=5, projection="TAN")
want = [t.getWcs().pixelToSky(0, 0) for t in make("rings", numRings=5, projection="TAN")]
done = []


def tracer(frame, event, arg):
    # The first time a line of WcsFactory's helper is about to run, another thread takes its turn.
    if frame.f_code.co_filename.endswith("wcsFactory.py"):
        def local(frame, event, arg):
            if event == "line" and not done and getattr(m, "_busy", False):
                seen.append(1)
                if len(seen) > turn:
                    done.append(1)
                    aside(lambda: m[9])
            return local
        return local(frame, event, arg)


for turn in range(6):
    m = make("rings", numRings=5, projection="TAN")
    m._busy = True
    seen = []
    done = []
    sys.settrace(tracer)
    t = m[4]
    sys.settrace(None)
    assert t.getWcs().pixelToSky(0, 0).separation(want[4]).asArcseconds() < 1e-6
'''),
    dict(id="c38-colours", property="C38",
         edits=[(DOC, """        color = cmap(i_v)
""", """        color = cmap(len(finalVisitList))
""")],
         needs="a visit with nothing to draw among those included",
         what="two visits may have one colour, or the colours do not match the colour bar",
         demo=RUN + '''
colours = []
script.plt.fill = lambda ra, dec, **kw: colours.append(kw.get("edgecolor"))
script.matplotlib.colormaps = {"gist_rainbow": types.SimpleNamespace(resampled=lambda n: lambda i: ("colour", i))}
rows = {v: Summary({0: square(10.0 + 0.001*v, 0.0)}) for v in range(1, 25)}
rows[1] = Summary({})
ticks = []
bar = mock.MagicMock()
bar.set_ticks = lambda t, *a, **k: ticks.append(list(t))
bar.set_ticklabels = lambda t, *a, **k: ticks.append(list(t))
script.matplotlib.colorbar.ColorbarBase = lambda *a, **k: bar
script.Butler = Butler(skymap_, rows)
script.main("repo", ["c"], skymapName="s", doUnscaledLimitRatio=True, trimToTracts=True)
used = {c for c in colours if isinstance(c, tuple)}
assert ("colour", 1) in used and all(("colour", t) in used for t in ticks[0]), (used, ticks)
'''),
    dict(id="c38-option-lost", property="C38",
         edits=[(DOC, """        visitVetoFile=args.visitVetoFile,
        minOverlapFraction=args.minOverlapFraction,
""", """        visitVetoFile=args.visitVetoFile,
        minOverlapFraction=args.minOverlapFraction or None,
"""), (DOC, """        showPatchSelectedTractsOnly=args.showPatchSelectedTractsOnly,
        saveFile=args.saveFile,
""", """        showPatchSelectedTractsOnly=args.showPatchSelectedTractsOnly and not args.showCcds,
        saveFile=args.saveFile,
""")],
         needs="the program run with --showPatchSelectedTractsOnly and --showCcds both",
         what="patches of every tract are drawn",
         demo=RUN + '''
import lsst.daf.butler
rows = {1: Summary({0: square(10.0, 0.0), 1: square(14.0, 0.0)})}
lsst.daf.butler.Butler = Butler(skymap_, rows)
plt = sys.modules["matplotlib.pyplot"]
plt.fill = lambda ra, dec, **kw: drawn.append((list(ra), list(dec)))
sys.modules["matplotlib"].pyplot = plt
sys.modules["matplotlib"].colorbar.make_axes = lambda *a, **k: (mock.MagicMock(), {})


def count(*more):
    del drawn[:]
    sys.argv = ["x", "repo", "--collections", "c", "--skymapName", "s", "--doUnscaledLimitRatio", "--trimToTracts", "-p",
                "--tracts", "0", "--saveFile", "/dev/null", *more]
    path = os.path.join(os.getcwd(), "doc/_static/skymap/showVisitSkyMap.py")
    exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__"})
    return len(drawn)


assert count("--showPatchSelectedTractsOnly", "--showCcds") == count("--showPatchSelectedTractsOnly") < count()
'''),
    dict(id="c38-labels-swapped", property="C38",
         edits=[(DOC, """                        str(patch.sequential_index),
""", """                        str(patch.getIndex()[0]*tractInfo.num_patches[1] + patch.getIndex()[1]),
""")],
         needs="patches shown",
         what="the patches are numbered by column",
         demo=RUN + '''
texts = []
script.plt.text = lambda x, y, s, **kw: texts.append((x, y, s))
run(Butler(skymap_, {1: Summary({0: square(10.0, 0.0)})}), showPatch=True)
t = skymap_[0]
assert t.getNumPatches()[0] > 1
centre = t.getWcs().pixelToSky(geom.Point2D(geom.Box2D(t[1].getInnerBBox()).getCenter()))
x, y, s = min(texts, key=lambda v: abs(v[0] - centre.getRa().asDegrees()) + abs(v[1] - centre.getDec().asDegrees()))
assert s == "1", s
'''),
    dict(id="c32-many-tracts", property="C32",
         edits=[("baseSkyMap.py", """            skyPosList = [wcs.pixelToSky(pos).getPosition(geom.degrees) for pos in pixelPosList]
""", """            skyPosList = [wcs.pixelToSky(pos).getPosition(geom.degrees) for pos in sorted(pixelPosList, key=tuple)]
""")],
         needs="nothing unusual, but somebody who reads the log",
         what="the corners are not in order around the tract",
         demo='''
lines = []
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], tractOverlap=0.0, pixelScale=60.0, projection="TAN")
m.logSkyMapInfo(types.SimpleNamespace(info=lambda text, *a: lines.append(text % a if a else text)))
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(t.getBBox().getMaxX() + 0.5, -0.5)).getPosition(geom.degrees)
assert lines[1].split("corners ")[1].split("), ")[1].startswith("(%0.3f, %0.3f" % tuple(p)), lines
'''),
    dict(id="c20-border-total", property="C20",
         edits=[("tractBuilder.py", """            subConfig.cellBorder,
            subConfig.numCellsPerPatchInner,
            subConfig.numCellsInPatchBorder,
""", """            subConfig.cellBorder + subConfig.numCellsInPatchBorder*subConfig.cellInnerDimensions[0],
            subConfig.numCellsPerPatchInner,
            0,
""")],
         needs="two maps of cells whose cell border and number of border cells differ, and come to the same border of patches",
         what="they hash alike",
         demo='''
def sha(cellBorder, border):
    return make("dodeca", cells=dict(cellInnerDimensions=[10, 10], cellBorder=cellBorder, numCellsPerPatchInner=2,
                                     numCellsInPatchBorder=border)).getSha1()


assert sha(10, 0) != sha(0, 1)
'''),
]
