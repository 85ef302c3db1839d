"""A scratch butler repository for each case, and what a registered sky map must look like in it."""
import contextlib
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import check
from . import summary

_template = None
B = None


def prepare():
    """Import the butler and make the empty repository the cases copy (before the workers are forked)."""
    global _template, B
    import atexit
    import logging
    import lsst.daf.butler as butler
    logging.disable(logging.CRITICAL)
    B = butler
    _template = tempfile.mkdtemp(prefix="verif-butler-")
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(_template, ignore_errors=True)
    atexit.register(clean)
    # Coarse sky pixels, or most of the time goes to listing those of large tracts.
    dimensions = B.DimensionConfig()
    dimensions["skypix", "common"] = "htm3"
    B.Butler.makeRepo(os.path.join(_template, "empty"), dimensionConfig=dimensions)


@contextlib.contextmanager
def scratch():
    root = tempfile.mkdtemp(prefix="case-", dir=_template)
    try:
        path = os.path.join(root, "repo")
        shutil.copytree(os.path.join(_template, "empty"), path)
        yield path
    finally:
        shutil.rmtree(root, ignore_errors=True)


def open_(path, writeable=True):
    return B.Butler.from_config(path, writeable=writeable)


def odd():
    """Maps whose most patches in x and in y are those of different tracts, and of a tract of many patches in x or in y."""
    for inner in ([30, 40], [40, 30]):
        yield dict(kind="healpix", log2NSide=0, nest=False, tractOverlap=1.5, pixelScale=2000.0, projection="STG",
                   rotation=60.0 if inner[0] == 30 else 20.0, builder=dict(name="legacy", inner=inner, border=1))
    for inner in ([1, 400], [400, 1]):
        yield dict(kind="discrete", raList=[50.0, 60.0], decList=[0.0, 5.0], radiusList=[0.5, 0.05], tractOverlap=0.0, pixelScale=10.0,
                   projection="TAN", builder=dict(name="legacy", inner=inner, border=1))


@st.composite
def smallMap(draw, maxTracts=3):
    """A map of little sky or of few patches, so that registering it is quick."""
    kind = draw(st.integers(0, 11))
    if maxTracts == 3 and kind >= 9:  # the whole sky, in tracts of different shapes
        rotation = draw(st.sampled_from([0.0, 20.0, 45.0, 60.0]))
        scale = gen.sig(draw(gen.floats(1000.0, 3000.0)), 3)
        n = int(draw(gen.floats(0.4, 0.9))*200000/scale)
        spec = dict(tractOverlap=gen.sig(draw(gen.floats(0.0, 3.0)), 3), pixelScale=scale, projection="STG",
                    rotation=rotation, builder=dict(name="legacy", inner=[n, draw(st.integers(2*n//3, n))],
                                                    border=draw(st.integers(0, 3))))
        if kind == 9:
            return dict(kind="healpix", log2NSide=0, nest=draw(st.booleans()), **spec)
        if kind == 10:
            return dict(kind="dodeca", withTractsOnPoles=draw(st.booleans()), **spec)
        return dict(kind="rings", numRings=draw(st.integers(1, 2)), raStart=draw(st.sampled_from([0.0, 100.0])),
                    version=draw(st.sampled_from([0, 1])), **spec)
    if kind <= 1:
        spec = dict(kind="equat", numTracts=draw(st.integers(3, 5)), decRange=[-0.3, gen.sig(draw(gen.floats(0, 0.3)), 3)],
                    tractOverlap=0.1, pixelScale=200.0, projection=draw(st.sampled_from(["CEA", "CAR"])),
                    builder=dict(name="legacy", inner=[draw(st.integers(500, 3000)), 50], border=draw(st.integers(0, 5))))
        return spec
    if maxTracts == 3 and draw(st.integers(0, 7)) == 0:  # many tracts
        k = draw(st.integers(30, 150))
        return dict(kind="discrete", raList=[gen.sig(200.0 + 1.1*(i % 13), 5) for i in range(k)],
                    decList=[gen.sig(-30.0 + 0.9*(i//13), 5) for i in range(k)], radiusList=[0.1 + 0.1*(i % 2) for i in range(k)],
                    tractOverlap=0.0, pixelScale=60.0, projection="TAN", builder=dict(name="legacy", inner=[17, 25], border=2))
    if draw(st.integers(0, 15)) == 0:  # many patches
        nx, ny = [draw(st.one_of(st.integers(5, 20), st.integers(20, 40))) for _ in range(2)]
        k = draw(st.integers(1, 2))
        return dict(kind="discrete", raList=[200.0, 10.0][:k], decList=[-30.0, 5.0][:k], radiusList=[0.5, 0.05][:k], tractOverlap=0.0,
                    pixelScale=3.0, projection="TAN", builder=dict(name="legacy", inner=[1200//nx, 1200//ny], border=draw(st.integers(0, 9))))
    n = draw(st.integers(1, maxTracts))
    radii = [gen.sig(draw(gen.floats(0.02, 0.3)), 3) for _ in range(n)]
    overlap = draw(st.sampled_from([0.0, 0.01]))
    npx = draw(st.integers(40, 400))
    b = draw(gen.builders(npx, 4))
    if b["name"] == "legacy":  # the border is drawn for larger tracts
        b["border"] = min(b["border"], 20)
    return dict(kind="discrete", raList=[gen.sig(draw(gen.floats(0, 359)), 5) for _ in range(n)],
                decList=[gen.sig(draw(gen.floats(-85, 85)), 5) for _ in range(n)], radiusList=radii,
                tractOverlap=overlap, pixelScale=gen.sig(2*(max(radii) + overlap)*3600/npx),
                projection=draw(st.sampled_from(["TAN", "STG"])), rotation=draw(st.sampled_from([0.0, 30.0])), builder=b)


def corners(box, wcs):
    b = maps.boxTuple(box)
    x0, y0, x1, y1 = b[0] - 0.5, b[1] - 0.5, b[2] - 0.5, b[3] - 0.5
    return [maps.xyz(wcs.pixelToSky(maps.geom.Point2D(x, y))) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]


def sameRegion(region, want):
    got = [(v.x(), v.y(), v.z()) for v in region.getVertices()]
    return len(got) == len(want) and all(min(maps.angsep(w, g) for g in got) < 1e-9 for w in want)


def names(butler):
    return {r.name for r in butler.registry.queryDimensionRecords("skymap")}


def datasets(butler):
    if not list(butler.registry.queryDatasetTypes("skyMap")):
        return []
    return sorted((ref.dataId["skymap"], ref.run) for ref in
                  butler.registry.queryDatasets("skyMap", collections=..., findFirst=False))


def snapshot(butler):
    """Everything about sky maps in the repository, as plain data."""
    reg = butler.registry
    out = dict(datasets=datasets(butler))
    for element in ("skymap", "tract", "patch"):
        rows = []
        for r in reg.queryDimensionRecords(element):
            d = r.toDict()
            if d.get("region") is not None:
                d["region"] = d["region"].encode().hex()
            rows.append(tuple(sorted((k, str(v)) for k, v in d.items())))
        out[element] = sorted(rows)
    return out


def verify(butler, model, number=lambda counts, pair: pair[1]*counts[0] + pair[0]):
    """The repository holds exactly the maps of model (name -> map), completely."""
    reg = butler.registry
    rows = {r.name: r for r in reg.queryDimensionRecords("skymap")}
    check(set(rows) == set(model), "the repository has sky maps %s; registered: %s", sorted(rows), sorted(model))
    tracts = {}
    for r in reg.queryDimensionRecords("tract"):
        d = r.toDict()
        check((d["skymap"], d["id"]) not in tracts, "tract %s twice", d["id"])
        tracts[d["skymap"], d["id"]] = d["region"]
    patches = {}
    for r in reg.queryDimensionRecords("patch"):
        d = r.toDict()
        patches[d["skymap"], d["tract"], d["id"]] = (d["cell_x"], d["cell_y"], d["region"])
    wantTracts = wantPatches = 0
    for name, m in model.items():
        row = rows[name]
        sizes = [tuple(t.getNumPatches()) for t in m]
        check(row.hash == m.getSha1(), "sky map %s is recorded with hash %s", name, row.hash.hex())
        check(row.tract_max == len(m) and row.patch_nx_max == max(s[0] for s in sizes)
              and row.patch_ny_max == max(s[1] for s in sizes), "sky map %s is recorded as %s; its tracts have %s patches",
              name, row, sizes)
        for t, (nx, ny) in zip(m, sizes):
            wantTracts += 1
            region = tracts.get((name, t.getId()))
            check(region is not None, "tract %s of sky map %s is not registered", t.getId(), name)
            check(sameRegion(region, corners(t.getBBox(), t.getWcs())), "tract %s of sky map %s has region %s", t.getId(),
                  name, region)
            for p in t:
                wantPatches += 1
                x, y = p.getIndex()
                k = number((nx, ny), (x, y))
                got = patches.get((name, t.getId(), k))
                check(got is not None, "patch %s of tract %s of sky map %s is not registered", k, t.getId(), name)
                check(got[:2] == (x, y), "patch %s of tract %s of sky map %s is registered at %s, not %s", k,
                      t.getId(), name, got[:2], (x, y))
                check(sameRegion(got[2], corners(p.getOuterBBox(), t.getWcs())), "patch %s of tract %s of sky map %s "
                      "has region %s", k, t.getId(), name, got[2])
    check(len(tracts) == wantTracts, "%d tracts registered, not %d", len(tracts), wantTracts)
    check(len(patches) == wantPatches, "%d patches registered, not %d", len(patches), wantPatches)
    check(datasets(butler) == sorted((n, "skymaps") for n in model), "the repository has sky map datasets %s; registered: "
          "%s", datasets(butler), sorted(model))
    for name, m in model.items():
        got = butler.get("skyMap", skymap=name, collections="skymaps")
        check(type(got) is type(m) and got == m, "the sky map %s read back differs", name)
        for k in {0, 1, len(m)//2, len(m) - 2, len(m) - 1} & set(range(len(m))):  # equal maps may number their tracts otherwise
            check(summary.tract(got[k]) == summary.tract(m[k]), "the sky map %s read back has another tract %d", name, k)
