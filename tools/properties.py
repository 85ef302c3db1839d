"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
P = "python/lsst/skymap/"
PACK, BASE, CACHE, RINGS, DODECA, DET = (P + f for f in ("packers.py", "baseSkyMap.py", "cachingSkyMap.py", "ringsSkyMap.py",
                                                         "dodecaSkyMap.py", "detail/dodecahedron.py"))
EQUAT, HEALPIX, DISCRETE, TRACT, PATCH, CELL, BUILDER, UTILS, WCS, REG = (
    P + f for f in ("equatSkyMap.py", "healpixSkyMap.py", "discreteSkyMap.py", "tractInfo.py", "patchInfo.py", "cellInfo.py",
                    "tractBuilder.py", "detail/utils.py", "detail/wcsFactory.py", "skyMapRegistry.py"))
DEF_WHY = ("The tests that cover this need lsst.afw and run on a few fixed configurations and positions; ")

SCRIPT = "doc/_static/skymap/showVisitSkyMap.py"

ROWS = [
 ("C01", "For any supported set of sizes and bands, packing an in-range (tract, patch, band) data ID and unpacking it gives "
  "back that data ID; different data IDs get different integers; every packed integer is non-negative and fits in the "
  "declared maximum number of bits, whatever becomes of the mapping the packer was made from, and with a copy of it too.",
  ["inputs", "configurations"], "every packer (sizes, band mappings with gaps or in any order, with and without a band, made "
  "from arguments, configuration or the registered sky map's record) and every in-range data ID",
  "the tests pack a handful of IDs with two band lists in their natural order.",
  [PACK], [("SkyMapDimensionPacker._pack, unpack, maxBits", PACK)]),
 ("C02", "A packer refuses, with an error, any tract, patch or band it was not made for: out of range above or below, an unknown "
  "band, or a band index at or beyond the number of bands. A packer that is not told its sizes takes them from the "
  "registered sky map: tract count as recorded, patches a tract as the product of the recorded x and y maxima, and it "
  "packs a band only when the dimensions it was given include one.",
  ["inputs", "configurations"], "every packer and every data ID with a coordinate outside its ranges, negative ones included",
  "the tests try one out-of-range tract, patch and band.",
  [PACK], [("SkyMapDimensionPacker.__init__, _pack", PACK), ("SkyMapDimensionPackerConfig", PACK)]),
 ("C03", "A packed integer is patch + n_patches*(tract + n_tracts*band index), with the configured index of the band, or its "
  "place in the built-in list of common bands when none is configured, so that integers recorded earlier keep their meaning.",
  ["inputs", "configurations"], "every packer and every in-range data ID",
  "the tests only round-trip; a layout that changed in both directions would pass.",
  [PACK], [("SkyMapDimensionPacker._pack", PACK), ("SUPPORTED_FILTERS", PACK)]),
 ("C04", "A rings sky map (version 1) numbers the south polar cap 0, then each ring from the south by increasing RA from the tract "
  "centred on raStart, then the north cap; every position on the sky is found in the tract whose declination ring and RA "
  "share hold it, and a tract number gives back its ring and place in the ring, or IndexError when out of range.",
  ["inputs", "configurations"], "every number of rings, raStart and position, poles, ring and RA edges and the wrap at raStart included "
  "(either neighbour exactly on an edge)",
  DEF_WHY + "edges, poles and RA wrap are sampled at a few places for one or two layouts.",
  [RINGS, P + "cachingSkyMap.py"], [("RingsSkyMap.findTract, getRingIndices, generateTract, _decToRingNum, _raToTractNum", RINGS)]),
 ("C05", "A rings sky map made with version 0 keeps the old numbering: the first tract of the southernmost ring appears twice (first "
  "and last of that ring), every later number is one off for the first tract of its ring, and the first tract of the northernmost "
  "ring is missing; positions are found, and tract numbers resolved, accordingly.",
  ["inputs", "configurations"], "every number of rings, raStart and position",
  DEF_WHY + "the old numbering is tested for one layout at a few tracts.",
  [RINGS], [("RingsSkyMap.findTract, getRingIndices with version 0", RINGS)]),
 ("C06", "For any positions, in radians or degrees, as arrays, lists or scalars, findTractIdArray gives the tract that findTract gives "
  "for each, in order and one for one.",
  ["inputs", "configurations"], "every kind of map, both rings versions, and every array of positions, longitudes outside [0, 360) included "
  "(rounding at an edge may take either side)",
  DEF_WHY + "arrays are compared for one rings map at random positions that rarely come near an edge.",
  [RINGS, BASE], [("RingsSkyMap.findTractIdArray", RINGS), ("BaseSkyMap.findTractIdArray", BASE)]),
 ("C07", "In a whole-sky map whose overlap is enough for its layout and projection, the tract that findTract gives for a position contains "
  "that position, and findPatch in that tract gives a patch whose inner box holds it; in an equatorial map so for every position in "
  "the declination band.",
  ["inputs", "configurations"], "rings, dodecahedron, HEALPix and equatorial maps, either tract builder, any patch size and projection, and every position",
  DEF_WHY + "the tests try the tract centres and corners of the default configurations.",
  [RINGS, DODECA, HEALPIX, EQUAT, TRACT], [("TractInfo._minimumBoundingBox, ExplicitTractInfo", TRACT), ("findTract", RINGS),
                                         ("TractInfo.findPatch", TRACT)]),
 ("C08", "In a rings map, findAllTracts lists only tracts of the map that contain the position, none twice, and (while tracts reach "
  "at most 0.57 ring heights from their centre) every one that does, the same each time it is asked.",
  ["inputs", "configurations"], "every rings map of two rings or more, both versions, and every position, poles, edges and the RA wrap included",
  DEF_WHY + "the tests compare one map with a full search at a few positions.",
  [RINGS], [("RingsSkyMap.findAllTracts", RINGS)]),
 ("C09", "The inner boxes of a tract's patches are equal rectangles of the configured size that tile the tract's pixels exactly, and each "
  "outer box is the inner one grown by the configured border: clipped to the tract with the legacy builder, not clipped with the "
  "cell builder. This holds for every tract of a map whatever the sizes of the others.",
  ["inputs", "configurations"], "every map, builder, patch size, border (0 and larger than a patch included) and tract",
  DEF_WHY + "the tests use one patch size that never exceeds or divides the tract oddly.",
  [BUILDER, TRACT], [("BaseTractBuilder.setupPatches, getPatchInfo", BUILDER), ("TractInfo.__iter__", TRACT)]),
 ("C10", "Tract numbers, patch indices and cell indices each run through exactly their range: pair and sequential forms (x + nx*y) convert both "
  "ways, any form gives the same patch or cell, iteration is in sequential order, lengths match, and an index outside the range "
  "raises IndexError (negative ones too, but for the tract numbers of dodecahedron and equatorial maps); what is neither a "
  "number nor a pair is refused.",
  ["inputs", "configurations"], "every map, tract, patch and cell, and every index inside, just outside and far outside the range",
  DEF_WHY + "one grid shape is tested and out-of-range indices at one or two values.",
  [BUILDER, TRACT, PATCH, CACHE], [("getSequentialPatchIndexFromPair, getPatchIndexPair, getPatchInfo", BUILDER),
                                   ("getCellInfo, getSequentialCellIndexFromPair, getCellIndexPair", PATCH),
                                   ("CachingSkyMap.__getitem__", CACHE)]),
 ("C11", "With the cell builder, every patch has the configured number of cells plus the border cells on each side, each of the configured "
  "size and grown by the cell border for its outer box; the inner boxes tile the patch and its border cells, and a cell that "
  "several patches of a tract share has the same pixels in each.",
  ["inputs", "configurations"], "every cell configuration (border of 0 or more cells and pixels) and every patch of every tract",
  DEF_WHY + "the tests use one cell layout.",
  [PATCH, CELL, BUILDER], [("PatchInfo.getCellInfo", PATCH), ("CellTractBuilder", BUILDER)]),
 ("C12", "A tract contains a position exactly when the position's pixel is in its pixel box; findPatch then gives the one patch whose inner box "
  "holds that pixel, and otherwise raises LookupError.",
  ["inputs", "configurations"], "every map, tract and position, on patch and tract edges and far off the tract included",
  DEF_WHY + "the tests probe the corners of patches of one map.",
  [TRACT], [("TractInfo.contains, findPatch", TRACT)]),
 ("C13", "findPatchList gives exactly the patches whose inner box, grown by the patch border, meets the smallest pixel box around the given "
  "positions, each once, and nothing when that box misses the tract or there are no positions.",
  ["inputs", "configurations"], "every map, tract and list of positions inside, across the edge of and around the tract",
  DEF_WHY + "the tests use boxes of a few positions at patch corners of one map.",
  [TRACT], [("TractInfo.findPatchList", TRACT)]),
 ("C14", "findTractPatchList lists every tract with patches for the region (in a rings map every tract that contains one of the positions), "
  "and findClosestTractPatchList the tracts findTract gives for the positions, each tract once, and each with exactly the patches its own "
  "findPatchList gives.",
  ["inputs", "configurations"], "every map and list of positions, empty, repeated and across several tracts included",
  DEF_WHY + "the tests use single positions and small boxes of one map of each kind.",
  [BASE, RINGS, TRACT], [("BaseSkyMap.findTractPatchList, findClosestTractPatchList", BASE), ("RingsSkyMap.findTractPatchList", RINGS)]),
 ("C15", "A position that a tract's projection cannot represent counts as outside it: contains is false, findPatch raises LookupError, and the "
  "patch and tract searches ignore it, whether the projection reports it by an error or by a NaN pixel.",
  ["inputs", "configurations", "fault_sequences"], "every map, every position on the sky (a tract's antipodes included), and every way the WCS reports failure",
  DEF_WHY + "one antipodal position is tried, with the one failure mode of the installed WCS.",
  [TRACT], [("TractInfo.contains, findPatch, findPatchList", TRACT)]),
 ("C16", "At the reference position of every tract a pixel spans the configured pixel scale, the y axis points at the configured rotation, and "
  "east is to the left of north; the box of a rings or discrete tract is centred on its centre, that of any other holds it, and its patches and cells use the same pixel coordinates.",
  ["inputs", "configurations"], "every map, projection, rotation, pixel scale and tract",
  DEF_WHY + "only the default scale and one rotation are tested.",
  [WCS, TRACT, BUILDER], [("WcsFactory.makeWcs", WCS), ("TractInfo._finalOrientation", TRACT)]),
 ("C17", "Rings and discrete tracts reach radius + overlap north, south, east and west of their centre, and all others half the overlap around each "
  "vertex of their inner region; each tract has the fewest whole patches that do, with the pixels to spare shared between both sides.",
  ["inputs", "configurations"], "every map, overlap (0 included), patch size and tract",
  DEF_WHY + "the tests check minimum overlap at the default configuration.",
  [TRACT, BUILDER], [("TractInfo._minimumBoundingBox, ExplicitTractInfo._minimumBoundingBox", TRACT), ("setupPatches", BUILDER)]),
 ("C18", "The inner sky regions of the tracts of a rings or dodecahedron map share out the whole sky: away from edges a position is in the inner "
  "region of the tract findTract gives and in no other; the RA and Dec ranges of a rings tract are those of its place in the layout.",
  ["inputs", "configurations"], "every rings (both versions) and dodecahedron map and every position on the sky",
  DEF_WHY + "tests of the inner region cover a few tracts at their centres.",
  [RINGS, DODECA, TRACT], [("TractInfo.getInnerSkyRegion", TRACT), ("RingsSkyMap.getRaDecRange, generateTract", RINGS)]),
 ("C19", "The sky polygons of tracts, patches and cells have as vertices the sky positions of the four corners of the box they stand for, half a "
  "pixel beyond the outermost pixel centres, and so contain exactly the sky the box covers (where box sides are great circles).",
  ["inputs", "configurations"], "every map, tract, patch and cell, inner and outer",
  DEF_WHY + "the tests check that one patch's polygon contains its own corners.",
  [UTILS, TRACT, PATCH, CELL], [("makeSkyPolygonFromBBox", UTILS)]),
 ("C20", "Two sky maps are equal, and have equal hashes and SHA-1, exactly when they are of one class and their geometry configuration is the same "
  "(for the tract builder, that of the one in use); a sky map never equals something that is not one. The version of a rings map is not part of it.",
  ["inputs", "configurations"], "every pair of maps, in particular those that differ in one field by the least amount, or in element order",
  DEF_WHY + "a few pairs that differ a lot are compared.",
  [BASE, BUILDER, RINGS, DISCRETE, EQUAT, DODECA, HEALPIX], [("BaseSkyMap.__eq__, getSha1", BASE), ("getPackedConfig", BUILDER),
                                                             ("updateSha1", RINGS)]),
 ("C21", "A sky map's SHA-1 is the same in every process, session and release for one class and configuration (the value registered repositories "
  "hold), and does not depend on what the map was used for.",
  ["inputs", "configurations", "histories"], "every map and configuration",
  DEF_WHY + "no test records a hash.",
  [BASE, BUILDER, RINGS, DISCRETE, EQUAT, DODECA, HEALPIX], [("BaseSkyMap.getSha1", BASE), ("getPackedConfig", BUILDER)]),
 ("C22", "Pickling (every protocol), copying or deep-copying a sky map, fresh or used, any number of times, gives an equal map of the same class and "
  "version with the same tracts, patches and answers, and leaves the original as it was; pickles written by the pinned release still load to "
  "the same maps (those of a version newer than the class knows are refused), and its tracts, patches and cells copy alike.",
  ["inputs", "configurations", "histories"], "every kind of map and version, and every history of use before it",
  DEF_WHY + "one fresh map of each kind is pickled with the default protocol.",
  [CACHE, DODECA, EQUAT, RINGS], [("CachingSkyMap.__reduce__", CACHE), ("__getstate__, __setstate__", DODECA)]),
 ("C23", "Sky maps are immutable: an answer depends only on the map's configuration and the question, not on which tracts were used before, in what "
  "order, on other maps, on failed calls, or on what callers do with the boxes and dimensions they were given.",
  ["histories", "configurations"], "every history of lookups, searches, iteration, pickling, failing calls and changes to returned values, on one or two maps",
  DEF_WHY + "each test builds a map and asks in one order.",
  [CACHE, TRACT, BUILDER, PATCH, BASE], [("CachingSkyMap.__getitem__ (tract cache)", CACHE), ("the tract builder shared by a map's tracts", BUILDER)]),
 ("C24", "Registering a sky map records it once under its name: its hash and sizes, every tract and patch with its id, x and y index and sky region, and "
  "a dataset from which an equal map can be read. Registering the same map again changes nothing, and registering one that "
  "conflicts with what is recorded raises ConflictingDefinitionError and changes nothing.",
  ["histories", "configurations"], "every history of registrations of same, similar and different maps under same and different names, by one or several clients",
  "the tests never register a map.",
  [BASE], [("BaseSkyMap.register", BASE)]),
 ("C25", "A registration that fails, or whose process dies, at any point leaves the repository as it was (no row, region or dataset of the "
  "map), and registering again then succeeds in full.",
  ["crash_points", "fault_sequences"], "every database write of a registration and the writing of the map's file, failing or killed there, up to three times over",
  "the tests never register a map, let alone fail part way.",
  [BASE], [("the transaction in BaseSkyMap.register", BASE)]),
 ("C26", "A dodecahedron map has twelve tracts, numbered from north to south and then by increasing RA, whose centres and vertices are those of a "
  "regular dodecahedron with a face or a vertex on each pole as configured; findTract gives the tract whose centre is nearest. "
  "The solid behind it finds the same face for vectors of any length, and a vector along a pole becomes a position with the RA asked for.",
  ["inputs", "configurations"], "both orientations, every configuration, and every position, at edges, vertices and poles included",
  DEF_WHY + "vertices and order are not tested and lookups are at tract centres and nearby.",
  [DODECA, DET], [("Dodecahedron.getVertices, getFaceInd, _sortedVectorList", DET), ("DodecaSkyMap.findTract", DODECA)]),
 ("C27", "An equatorial map of n tracts divides the circle into n equal RA ranges from RA 0: tract i has the i-th range and the whole declination band as "
  "its inner region, is centred on it, projected from the equator and of the same size as the others to within a patch, and findTract gives the tract whose RA range "
  "holds a position of the band.",
  ["inputs", "configurations"], "every number of tracts, declination band and projection, and every position of the band",
  DEF_WHY + "one band and four tracts are tested.",
  [EQUAT, BASE], [("EquatSkyMap.__init__", EQUAT), ("BaseSkyMap.findTract", BASE)]),
 ("C28", "Tract i of a HEALPix map is HEALPix pixel i of the configured nside in the configured ordering (RING or NEST), with colatitude counted from the south "
  "pole: its centre and vertices are the pixel's, and findTract gives the pixel that holds the position.",
  ["inputs", "configurations"], "every nside from 1 to 128, both orderings, every tract and position, poles and pixel edges included (either pixel exactly on an edge)",
  DEF_WHY + "two nsides are tested and lookups at tract centres.",
  [HEALPIX, CACHE], [("HealpixSkyMap.findTract, generateTract", HEALPIX), ("angToCoord, coordToAng", HEALPIX)]),
 ("C29", "Tract i of a discrete map is centred on and projected from the i-th listed position, is a square of the i-th radius plus the overlap "
  "each way (to whole patches) whatever the other tracts are, and has the corners of its pixel box as its vertices and inner region.",
  ["inputs", "configurations"], "every list of positions and radii, repeated and polar ones included, visited in any order",
  DEF_WHY + "a map of three tracts of one radius is tested.",
  [DISCRETE, TRACT], [("DiscreteSkyMap.generateTract", DISCRETE), ("ExplicitTractInfo.__init__", TRACT)]),
 ("C30", "In a discrete or equatorial map findTract gives a tract whose centre is nearest the position, and findTractIdArray does too, wherever "
  "the position is on the sky and whether or not any tract contains it.",
  ["inputs", "configurations"], "every list of centres (clusters, repeats, poles) and every position, half way between centres included (any of the nearest on a tie)",
  DEF_WHY + "lookups are made at and near the centres.",
  [BASE], [("BaseSkyMap.findTract, findTractIdArray", BASE)]),
 ("C31", "The same configuration gives the same map by every route: the class, the registry, a registry field, text saved and loaded, a copy, or "
  "the old patch names (patchInnerDimensions, patchBorder) of the legacy builder. Once a map is made from it a configuration cannot be changed, and an invalid one "
  "(discrete lists of different lengths, cells that are not square, rings or raStart out of range, a projection code not of 3 letters, an unknown "
  "rings version or builder) is refused.",
  ["configurations"], "every configuration of every kind of map, every field of it changed after use, and each kind of invalid value",
  DEF_WHY + "the tests build maps from the class or registry and never change or break a configuration.",
  [BASE, BUILDER, DISCRETE, RINGS, REG, WCS], [("BaseSkyMap.__init__ (freeze)", BASE), ("patchInnerDimensions, patchBorder", BASE), ("validate", DISCRETE),
                                          ("skyMapRegistry", REG)]),
 ("C32", "The sky map report lists the number of tracts and then, for each tract in order, its id, the RA and Dec in degrees of the four corners of its "
  "pixels going round from the lower left, and its number of patches in x and y.",
  ["inputs", "configurations"], "every kind of map and configuration",
  "no test reads the report.",
  [BASE], [("BaseSkyMap.logSkyMapInfo", BASE)]),
 ("C33", "Every property of a tract, patch or cell is what the method of the same meaning returns, borders and sizes are those configured, and patches "
  "and cells hold the WCS of their tract. Two patches (two cells) are equal exactly when index, inner and outer box (for patches, cell "
  "count and cell border as well) are equal, and one whose outer box does not hold its inner box cannot be made.",
  ["inputs", "configurations"], "every tract, patch and cell of every map, and pairs from maps that differ in one tract builder field",
  DEF_WHY + "properties are compared for one map, and equality on one or two pairs.",
  [TRACT, PATCH, CELL], [("properties", TRACT), ("PatchInfo.__eq__", PATCH), ("CellInfo.__eq__", CELL)]),
 ("C34", "A tract made directly from any outline (positions or a radius), overlap, WCS and tract builder holds the outline grown by half the overlap (or the radius "
  "plus the overlap) in the fewest whole patches, the spare pixels shared equally between the sides, on the pixel grid of the WCS it was given moved by whole pixels; its "
  "id, centre, vertices, overlap and inner corners are those given. Making more tracts with the same builder, or using the builder, changes nothing of it.",
  ["inputs", "configurations"], "every outline, overlap, WCS (projection, rotation, handedness, reference pixel) and builder, and up to three tracts to a builder",
  DEF_WHY + "tracts are never made except by a map.",
  [TRACT, BUILDER, WCS], [("TractInfo.__init__, ExplicitTractInfo", TRACT), ("setupPatches", BUILDER), ("WcsFactory.makeWcs", WCS)]),
 ("C35", "Callers on several threads that share a sky map or a data ID packer (or use maps or packers of one configuration) each get the answers that it gives one caller alone: "
  "tracts, patches, cells, searches, hashes, iteration, packed and unpacked data IDs. However their steps interleave, no call fails or gives another's answer, the map or packer answers "
  "alike afterwards, and each tract of a map is one object for all of them.",
  ["inputs", "schedules"], "every kind of map and packer, every pair of callers and every switch between them at a bytecode of the package, up to two switches",
  "no test runs two threads.",
  [CACHE, BASE, TRACT, BUILDER, PACK], [("CachingSkyMap.__getitem__", CACHE), ("BaseSkyMap.getSha1", BASE), ("getPatchInfo", BUILDER), ("pack, unpack", PACK)]),
 ("C36", "Once a sky map is registered, a packer made from the repository's record of it packs every patch of every tract (and every band) to an integer of its own, "
  "which unpacks to it. A patch found for a position in the map read back has one row in the repository, under its tract and sequential number, with its x and y "
  "index and a region that holds the position.",
  ["inputs", "configurations"], "every map, packer (with or without bands) and position",
  "the tests cover registering, packing and searching apart, each with its own made-up sizes.",
  [PACK, BASE, TRACT], [("SkyMapDimensionPacker", PACK), ("BaseSkyMap.register", BASE), ("getSequentialPatchIndex", TRACT)]),
 ("C37", "The limits that the plotting script (showVisitSkyMap.py) derives hold every position given, in the aspect ratio and with the padding asked for; a tract's limits hold its outline, also "
  "across RA 0 and near a pole; its tract lists are split into valid and invalid; its query clauses select exactly what they list. Its lookups (visit summaries, "
  "detector corners, bands, camera, map name) take the first source there is, in the documented order, and report what is missing.",
  ["inputs", "configurations"], "every set of positions, ratio, padding, tract, list, and combination of datasets that are there or not",
  "the script has no tests.",
  [SCRIPT], [("derivePlotLimits, getMinMaxLimits, setLimitsToEqualRatio", SCRIPT), ("getTractLimitsDict, sanitizeTractList", SCRIPT),
             ("makeWhereInStr, getVisitSummaryForVisit, getDetRaDecCorners, getBand", SCRIPT)]),
 ("C38", "The plotting script (showVisitSkyMap.py) draws every science detector of the visits that its options select (tracts, bands, filters, detectors, veto list, least overlap) and no other, each "
  "where its own summary or WCS puts it; and outlines the tracts that they fall in and those asked for, with inner patches when asked. The limits hold what was drawn, "
  "RA grows to the left, the title counts the visits and names their filters, every visit has a colour of its own, and the numbers written (of tracts, patches, detectors) "
  "and the legends are those of what is drawn there; with nothing to draw it raises RuntimeError, and run as a program its options do the same.",
  ["inputs", "configurations"], "every repository (visits, detectors, missing or non-finite rows) and combination of options",
  "the script has no tests.",
  [SCRIPT], [("main", SCRIPT)]),
 ("C39", "One configuration gives the same pixel grids in every release, so that what was stored by tract and patch stays where it was: every tract keeps its number, pixel box, "
  "place of each pixel on the sky, centre, vertices and patches and cells, and every position the tract it is found in, as the pinned release has them.",
  ["inputs", "configurations"], "every configuration of every kind of map (whole-sky surveys of thousands of tracts included), tract, patch, cell, pixel and position",
  "the tests compare a handful of maps with their own arithmetic, mostly to tolerances of whole pixels or of whole patches.",
  [RINGS, DODECA, EQUAT, HEALPIX, DISCRETE, TRACT, BUILDER, WCS], [("generateTract", RINGS), ("TractInfo._minimumBoundingBox, _finalOrientation", TRACT),
                                                                ("setupPatches", BUILDER), ("WcsFactory", WCS)]),
 ("C40", "A caching sky map makes its tracts on request: to make, copy, pickle, hash or compare a map makes none, and a request makes just the tracts that it needs, each once, and hands out the "
  "same object ever after; if making one fails, the caller gets that error and the map works as if it had not been asked. A map class of one's own that follows the documented contract (generateTract, or a "
  "list of tracts, and updateSha1) has the searches, iteration, equality, hash, pickling and version of the others.",
  ["inputs", "histories", "fault_sequences"], "every kind of map, user-defined classes included, every sequence of requests on it and its copies, and every tract that cannot be made at first",
  "no test defines a map class, lets generateTract fail, or looks at what is made when.",
  [CACHE, BASE, RINGS, HEALPIX, DISCRETE], [("CachingSkyMap", CACHE), ("BaseSkyMap", BASE), ("findTract", RINGS), ("findTract", HEALPIX)]),
 ("C41", "A tract builder of one's own, with the public methods of BaseTractBuilder, can be registered and chosen by the configuration of any kind of map (or given to tracts made directly). Every tract then has the "
  "box, patches, patch indices and numbers, borders and cells that the builder lays out, and no others; searches, registration, SHA-1, equality, pickles and copies follow it, whatever else is made with the builder meanwhile.",
  ["inputs", "configurations", "histories"], "every kind of map, layout (numbering by rows, columns or backwards, spare pixels, borders, cells), tract, patch and position",
  "the tests use only the two builders of the package, which count patches alike.",
  [BUILDER, TRACT, BASE], [("tractBuilderRegistry, BaseTractBuilder", BUILDER), ("TractInfo.__init__, findPatch, findPatchList", TRACT),
                           ("getSha1, register", BASE)]),
]

NOT_APPLICABLE = []


def main():
    import importlib
    from vlib import env
    env.setup()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for ident, statement, over, text, why, files, mech in ROWS:
            title = importlib.import_module("checks." + ident).TITLE
            assert len(title) <= 80, (ident, len(title))
            assert statement.count(". ") <= 2, ident
            f.write(json.dumps(dict(id=ident, title=title, statement=statement, quantifier=dict(over=over, text=text),
                                    why_tests_cant=why,
                                    anchors=dict(files=sorted(set(files)), mechanism=[dict(name=n, where=w) for n, w in mech])))
                    + "\n")
    checks = []
    for ident, *_ in ROWS:
        mod = importlib.import_module("checks." + ident)
        checks.append(dict(
            property=ident, technique=getattr(mod, "TECHNIQUE", "property-based testing (Hypothesis) of the real code against an "
                                              "independent model, with shrinking to a replay file"),
            quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % ident,
            thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % ident,
            level="exploration", level_note="%d generated cases in the quick tier and %d in the thorough one; %s"
            % (mod.QUICK, mod.THOROUGH, getattr(mod, "NOTE", "nothing is proved beyond what was generated"))))
    manifest = dict(version=1, setup_cmd="/opt/venv/bin/python selftest/standins_vs_wcslib.py", checks=checks,
                    not_applicable=NOT_APPLICABLE)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
