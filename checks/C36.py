import random

from hypothesis import strategies as st

import lsst.sphgeom as sphgeom

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import repo
from .packing import SkyMapDimensionPacker

ID = "C36"
TITLE = "Every patch of a registered map packs to its own integer; positions lead to it"
RULE = ("A map (discrete tracts of different sizes, equatorial bands, small whole-sky maps) registered in a real SQLite butler "
        "repository; packers made from the record the repository gives back, by constructor, configuration or field, with and "
        "without a band. Every patch of every tract (and every band, for a few patches) is packed and unpacked; positions are "
        "looked up in the map read back, and the patch found has a row whose region holds the position. Non-trivial: tracts "
        "of different numbers of patches, or a position found.")
QUICK, THOROUGH = 160, 8000


@st.composite
def cases(draw):
    return dict(map=draw(repo.smallMap()), band=draw(st.booleans()), how=draw(st.sampled_from(["ctor", "config", "field"])),
                bands=draw(st.one_of(st.none(), st.lists(st.sampled_from(["g", "r", "i", "z", "y", "N387", "x"]), min_size=1,
                                                         max_size=5, unique=True))),
                room=draw(st.integers(0, 3)), salt=draw(st.integers(0, 10**6)),
                spots=draw(st.lists(st.tuples(gen.frac(), gen.frac(), gen.frac()).map(list), min_size=1, max_size=6)))


strategy = cases
prepare = repo.prepare


def exhaustive(tier):
    for k, spec in enumerate(repo.odd()):
        yield dict(map=spec, band=bool(k % 2), how=["ctor", "config", "field"][k % 3], bands=None, room=0, salt=k,
                   spots=[[0.1, 0.2, 0.7], [0.9, 0.9, 0.9]])


def makePacker(case, dataId):
    u = dataId.universe
    bands = None
    if case["bands"] is not None:
        bands = {b: i for i, b in enumerate(case["bands"])}
    n_bands = 0 if not case["band"] else (None if not case["room"] or bands is None else len(bands) + case["room"])
    if case["how"] == "ctor":
        return SkyMapDimensionPacker(dataId, bands=bands, n_bands=n_bands)
    if case["how"] == "field":
        from .packing import PackerConfigHolder
        config = PackerConfigHolder.get()()
        if bands is not None:
            config.packer.bands = bands
        config.packer.n_bands = n_bands
        return config.packer.apply(dataId)
    config = SkyMapDimensionPacker.ConfigClass()
    if bands is not None:
        config.bands = bands
    config.n_bands = n_bands
    assert u is not None
    return SkyMapDimensionPacker.from_config(dataId, config)


def run(case):
    from lsst.daf.butler import DataCoordinate
    rand = random.Random(case["salt"])
    made = maps.build(case["map"])
    labels = ["kind=" + case["map"]["kind"], "band" if case["band"] else "no band"]
    found = 0
    with repo.scratch() as path:
        made.register("the map", repo.open_(path))
        butler = repo.open_(path, writeable=False)
        reg = butler.registry
        m = butler.get("skyMap", skymap="the map", collections="skymaps")
        packer = makePacker(case, reg.expandDataId(skymap="the map"))
        packed = {}
        bands = [None]
        if case["band"]:
            bands = case["bands"] if case["bands"] is not None else ["g", "N1010", "H"]
        count = 0
        ids = list(reg.queryDataIds(["tract", "patch"]).expanded())
        few = set(rand.sample(range(len(ids)), min(len(ids), 8)))
        for k, dataId in enumerate(ids):
            count += 1
            record = dataId.records["patch"]
            p = m[dataId["tract"]][dataId["patch"]]
            check(tuple(p.getIndex()) == (record.cell_x, record.cell_y), "tract %s patch %s of the map read back is at %s; "
                  "registered at (%d, %d)", dataId["tract"], dataId["patch"], p.getIndex(), record.cell_x, record.cell_y)
            for band in (bands if k in few else [rand.choice(bands)]):
                full = dataId if band is None else DataCoordinate.standardize(dataId, band=band)
                n = packer.pack(full)
                key = (dataId["tract"], dataId["patch"], band)
                check(isinstance(n, int) and 0 <= n and n.bit_length() <= packer.maxBits, "%s packs to %r, of at most %d bits",
                      key, n, packer.maxBits)
                check(n not in packed, "%s and %s both pack to %d", key, packed.get(n), n)
                packed[n] = key
                back = packer.unpack(n)
                check(back["skymap"] == "the map" and (back["tract"], back["patch"]) == key[:2]
                      and (band is None or back["band"] == band), "%s packs to %d, which unpacks to %s", key, n, back)
        want = sum(t.getNumPatches()[0]*t.getNumPatches()[1] for t in made)
        check(count == want, "%d patches in the repository; the map has %d", count, want)
        # from a position to the row of its patch
        for tf, fx, fy in case["spots"]:
            t = m[min(len(m) - 1, int(tf*len(m)))]
            box = maps.boxTuple(t.getBBox())
            coord = t.getWcs().pixelToSky(maps.geom.Point2D(-0.5 + fx*box[2], -0.5 + fy*box[3]))
            best = m.findTract(coord)
            for tract, patches in m.findTractPatchList([coord]):
                for p in patches:
                    rows = list(reg.queryDimensionRecords("patch", skymap="the map", tract=tract.getId(),
                                                          patch=tract.getSequentialPatchIndex(p)))
                    check(len(rows) == 1, "patch %s of tract %s, found for %s, has %d rows", p.getIndex(), tract.getId(), coord,
                          len(rows))
                    # the corners joined by great circles are the region, so keep off the edge
                    q = tract.getWcs().skyToPixel(coord)
                    b = maps.boxTuple(p.getOuterBBox())
                    x, y = q[0] - b[0] + 0.5, q[1] - b[1] + 0.5
                    w, h = b[2] - b[0], b[3] - b[1]
                    if case["map"]["projection"] == "TAN" and min(x/w, (w - x)/w, y/h, (h - y)/h) > 1e-6:
                        check(rows[0].region.contains(sphgeom.UnitVector3d(*maps.xyz(coord))), "patch %s of tract %s, found "
                              "for %s, has a region that does not hold it", p.getIndex(), tract.getId(), coord)
                        found += 1
            if best.contains(coord):
                p = best.findPatch(coord)
                rows = list(reg.queryDimensionRecords("patch", skymap="the map", tract=best.getId(),
                                                      patch=best.getSequentialPatchIndex(p)))
                check(len(rows) == 1 and (rows[0].cell_x, rows[0].cell_y) == tuple(p.getIndex()), "the patch of %s is %s of "
                      "tract %s; the repository has %s", coord, p.getIndex(), best.getId(), rows)
                found += 1
    different = len({tuple(t.getNumPatches()) for t in made}) > 1
    if different:
        labels.append("different tracts")
    return Outcome(different or found, labels)
