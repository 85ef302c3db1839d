import warnings

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C33"
TITLE = "Tracts, patches and cells describe themselves consistently and compare by value"
RULE = ("Two maps of any kinds (the same again, one with another border or cell layout, or another map), a tract, two "
        "patches and two cells of each: every property is what the method of the same meaning returns, and two patches "
        "(or cells) are equal exactly when index, inner and outer box (and, of patches, cell count and border) are. "
        "Patches and cells made by hand say what they were given, and are refused if the outer box does not hold the inner one. Non-trivial: an unequal pair with "
        "equal indices.")
QUICK, THOROUGH = 2500, 80000

TRACT = dict(bbox="getBBox", ctr_coord="getCtrCoord", tract_id="getId", num_patches="getNumPatches",
             patch_border="getPatchBorder", patch_inner_dimensions="getPatchInnerDimensions",
             tract_overlap="getTractOverlap", vertex_list="getVertexList", inner_sky_polygon="getInnerSkyPolygon",
             inner_sky_region="getInnerSkyRegion", outer_sky_polygon="getOuterSkyPolygon", wcs="getWcs")
PATCH = dict(index="getIndex", sequential_index="getSequentialIndex", wcs="getWcs", inner_bbox="getInnerBBox",
             outer_bbox="getOuterBBox", inner_sky_polygon="getInnerSkyPolygon", outer_sky_polygon="getOuterSkyPolygon",
             num_cells="getNumCells", cell_border="getCellBorder", cell_inner_dimensions="getCellInnerDimensions")
CELL = dict(index="getIndex", sequential_index="getSequentialIndex", wcs="getWcs", inner_bbox="getInnerBBox",
            outer_bbox="getOuterBBox", inner_sky_polygon="getInnerSkyPolygon", outer_sky_polygon="getOuterSkyPolygon")


@st.composite
def cases(draw):
    a = draw(gen.anyMap(npix=gen.pixels(hi=2000), rotation=gen.rotations))
    how = draw(st.sampled_from(["same", "builder", "builder", "other", "cells", "border"]))
    if how == "other":
        b = draw(gen.anyMap(npix=gen.pixels(hi=2000), rotation=gen.rotations))
    else:
        b = dict(a, builder=dict(a["builder"]))
        if how == "builder":
            keys = [k for k in a["builder"] if k not in ("name", "inner")]
            b["builder"][draw(st.sampled_from(keys))] += 1
        elif how == "border":
            # the same boxes and number of cells, by cells of another size and border
            q, c, border = draw(st.integers(1, 3)), draw(st.integers(1, 20)), draw(st.integers(0, 9))
            a["builder"] = dict(name="cells", cell=2*c, perPatch=2*q, inBorder=q, cellBorder=border)
            b["builder"] = dict(name="cells", cell=c, perPatch=4*q, inBorder=0, cellBorder=2*c*q + border)
        elif how == "cells":
            # the same patches and border, cut into cells in one map only, or otherwise
            if a["builder"]["name"] == "legacy":
                n = a["builder"]["inner"][0]
                a["builder"]["inner"] = [n, n]
                b["builder"] = dict(name="cells", cell=n, perPatch=1, inBorder=0, cellBorder=a["builder"]["border"])
            else:
                w = a["builder"]
                b["builder"] = dict(w, cell=w["cell"]*w["perPatch"], perPatch=1, inBorder=0,
                                    cellBorder=maps.patchBorder(w))
    f = gen.frac()
    made = st.fixed_dictionaries(dict(index=st.sampled_from([[0, 0], [0, 0], [1, 0], [0, 1]]), inner=st.sampled_from([10, 10, 10, 12]),
                                      outer=st.sampled_from([2, 2, 2, 0, 3]), cell=st.sampled_from([0, 5, 5, 2]),
                                      border=st.sampled_from([0, 0, 1, 2]), num=st.sampled_from([0, 0, 1, 2, 3]),
                                      aside=st.sampled_from([0, 0, 1, -1]), at=st.sampled_from([3, 3, 3, 4]),
                                      inBorder=st.sampled_from([0, 0, 1]), seq=st.integers(0, 3)))
    return dict(a=a, b=b, how=how, made=draw(st.lists(made, min_size=2, max_size=3)), tract=draw(f), patches=draw(st.lists(f, min_size=1, max_size=2)),
                cells=draw(st.lists(f, min_size=1, max_size=2)))


strategy = cases


def plain(v):
    """A value that compares by content."""
    if hasattr(v, "encode") and not isinstance(v, str):
        return v.encode()
    if hasattr(v, "getLongitude"):
        return maps.lonlat(v)
    if hasattr(v, "getMinX"):
        return ("box",) + maps.boxTuple(v)
    if hasattr(v, "pixelToSky"):
        return tuple(repr(maps.lonlat(v.pixelToSky(maps.geom.Point2D(*xy)))) for xy in ((0, 0), (10, 3)))
    if hasattr(v, "asRadians"):
        return v.asRadians()
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if type(v).__name__ == "Extent2I":
        return (v[0], v[1])
    return v


def ask(obj, fn):
    try:
        return ("value", plain(fn()))
    except Exception as e:  # a polygon of positions off the sky, say: then both ways must fail
        return ("error", type(e).__name__)


def consistent(what, obj, names):
    for prop, method in names.items():
        a = ask(obj, lambda: getattr(obj, prop))
        b = ask(obj, getattr(obj, method))
        check(a == b, "%s: %s is %s but %s() gives %s", what, prop, a, method, b)
    check(str(obj) and repr(obj), "%s prints as nothing", what)


def key(info, patch):
    k = (tuple(info.getIndex()), maps.boxTuple(info.getInnerBBox()), maps.boxTuple(info.getOuterBBox()))
    return k + (tuple(info.getNumCells()), info.getCellBorder()) if patch else k


def compare(what, infos, patch):
    interesting = False
    for a in infos:
        for b in infos:
            same = key(a, patch) == key(b, patch)
            check((a == b) is same and (a != b) is (not same), "%s %r and %r: == is %r and != is %r", what, a, b, a == b,
                  a != b)
            interesting |= not same and tuple(a.getIndex()) == tuple(b.getIndex())
    return interesting


def direct(made, like):
    """Patches and cells made by hand say what they were given and compare by it."""
    patches, cells = [], []
    for d in made:
        inner = maps.geom.Box2I(maps.geom.Point2I(d.get("at", 3), 4), maps.geom.Extent2I(d["inner"], d["inner"]))
        outer = maps.geom.Box2I(inner)
        outer.grow(d["outer"])
        if d["outer"]:
            outer.shift(maps.geom.Extent2I(d.get("aside", 0), 0))
        kw = dict(index=maps.skymap.Index2D(*d["index"]), innerBBox=inner, outerBBox=outer, sequentialIndex=d["seq"],
                  tractWcs=like.getWcs())
        p = maps.skymap.PatchInfo(cellInnerDimensions=(d["cell"], d["cell"] + 1), cellBorder=d["border"],
                                  numCellsPerPatchInner=d["num"], numCellsInPatchBorder=d["inBorder"], **kw)
        for bad in ((d["cell"],), (d["cell"],)*3, d["cell"]):
            try:
                maps.skymap.PatchInfo(cellInnerDimensions=bad, **kw)
            except ValueError:
                continue
            check(False, "a patch with cells of dimensions %s was made", bad)
        c = maps.skymap.CellInfo(**kw)
        for what, o in (("patch", p), ("cell", c)):
            got = tuple(o.getIndex()), maps.boxTuple(o.getInnerBBox()), maps.boxTuple(o.getOuterBBox()), o.getSequentialIndex()
            check(got == (tuple(d["index"]), maps.boxTuple(inner), maps.boxTuple(outer), d["seq"]), "a %s made of %s says %s", what, d,
                  got)
        n = d["num"] + 2*d["inBorder"] if d["num"] else 0
        got = tuple(p.getNumCells()), p.getCellBorder(), tuple(p.getCellInnerDimensions()), len(p)
        check(got == ((n, n), d["border"], (d["cell"], d["cell"] + 1), n*n), "a patch made of %s has cells %s", d, got)
        patches.append(p)
        cells.append(c)
    return compare("made patches", patches, True) | compare("made cells", cells, False)


def run(case):
    warnings.simplefilter("ignore")
    patches, cells = [], []
    for name in ("a", "b"):
        m = maps.build(case[name])
        i = min(len(m) - 1, int(case["tract"]*len(m)))
        t = m[i]
        consistent("tract %d" % i, t, TRACT)
        check(plain(t.getWcs()) == plain(m[i].wcs), "tract %d has two WCSs", i)
        border, inner = maps.patchBorder(case[name]["builder"]), maps.patchDims(case[name]["builder"])
        check(t.getPatchBorder() == border, "patch border %s; configured %d", t.getPatchBorder(), border)
        check(tuple(t.getPatchInnerDimensions()) == inner, "patch inner dimensions %s; configured %s",
              t.getPatchInnerDimensions(), inner)
        n = len(t)
        for f in case["patches"]:
            p = t[min(n - 1, int(f*n))]
            consistent("patch %s" % (p.getIndex(),), p, PATCH)
            check(plain(p.wcs) == plain(t.wcs), "patch %s has another WCS than its tract", p.getIndex())
            for sky in ("getInnerSkyPolygon", "getOuterSkyPolygon"):
                check(ask(p, getattr(p, sky)) == ask(p, lambda: getattr(p, sky)(t.getWcs())), "patch %s: %s with and without "
                      "its WCS differ", p.getIndex(), sky)
            patches.append(p)
            k = len(p)
            for g in case["cells"] if k else ():
                c = p[min(k - 1, int(g*k))]
                consistent("cell %s" % (c.getIndex(),), c, CELL)
                check(plain(c.wcs) == plain(t.wcs), "cell %s has another WCS than its tract", c.getIndex())
                for sky in ("getInnerSkyPolygon", "getOuterSkyPolygon"):
                    check(ask(c, getattr(c, sky)) == ask(c, lambda: getattr(c, sky)(t.getWcs())), "cell %s: %s with and "
                          "without its WCS differ", c.getIndex(), sky)
                cells.append(c)
    interesting = compare("patches", patches, True) | compare("cells", cells, False)
    # An outer box must hold the inner one.
    p = patches[0]
    inner = maps.geom.Box2I(p.getInnerBBox())
    for k in range(4):
        outer = maps.geom.Box2I(inner)
        if k < 2:
            outer.shift(maps.geom.Extent2I(1 - 2*k, 0))
        elif min(outer.getWidth(), outer.getHeight()) > 2:
            outer.grow(-1)
        else:
            continue
        for cls in (maps.skymap.PatchInfo, maps.skymap.CellInfo):
            try:
                cls(index=p.getIndex(), innerBBox=inner, outerBBox=outer, sequentialIndex=0, tractWcs=p.getWcs())
            except RuntimeError:
                continue
            check(False, "a %s with outer box %s and inner box %s was made", cls.__name__, outer, inner)
    interesting |= direct(case["made"], p)
    return Outcome(interesting, [case["how"], "builder=" + case["a"]["builder"]["name"]])


