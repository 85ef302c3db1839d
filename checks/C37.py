import math
import types

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import plotting

ID = "C37"
TITLE = "The plotting script's limits hold all points; its lookups fall back in order"
RULE = ("The helper functions of doc/_static/skymap/showVisitSkyMap.py: axis limits of generated sets of positions, for any ratio "
        "and padding; limits of tracts of any map; lists of tract numbers, good and bad; clauses for queries, read by a separate "
        "parser; and lookups in a made-up repository where each dataset type is there or not. Non-trivial: two sets of "
        "positions or more, and a ratio.")
QUICK, THOROUGH = 3000, 120000
NOTE = "matplotlib and lsst.afw.cameraGeom are stand-ins that record what is drawn; nothing is proved beyond what was generated"


@st.composite
def cases(draw):
    sets = draw(st.lists(st.lists(st.tuples(gen.floats(-40, 400), gen.floats(-90, 90)).map(list), min_size=1, max_size=5),
                         min_size=1, max_size=4))
    if draw(st.booleans()):  # sets of a size with what separates them
        k = draw(st.sampled_from([1.0, 0.1, 0.001]))
        sets = [[[100 + k*(p[0] - 180)/10, p[1]*k*draw(st.sampled_from([1.0, 1.0, 0.3, 3.0]))*0.3] for p in s] for s in sets]
    flat = draw(st.sampled_from([1.0, 1.0, 1.0, 0.2, 0.02]))
    sets = [[[p[0], p[1]*flat] for p in v] for v in sets]
    ratio = draw(st.sampled_from([None, 1.0, 2.0, 0.5, 1.1, 0.9, 0, 0, 0, 0]))
    if ratio == 0:
        ratio = draw(st.one_of(gen.floats(0.2, 6.0), gen.floats(0.02, 1.0), gen.floats(1.0, 40.0)))
    return dict(sets=[[[gen.sig(a), gen.sig(b)] for a, b in s] for s in sets], ratio=ratio if ratio is None else gen.sig(ratio, 4),
                buff=draw(st.sampled_from([0.0, 0.04, 0.3])), map=draw(gen.anyMap(npix=gen.pixels(hi=400), maxPatches=3)),
                tracts=draw(st.lists(st.tuples(gen.frac(), st.sampled_from([0, 0, 0, 1, 2, 3])).map(list), min_size=1,
                                     max_size=6).flatmap(lambda v: st.sampled_from([v, v, v + v, v*3]))),
                text=draw(st.booleans()),
                values=draw(st.one_of(st.lists(st.integers(0, 10**6), min_size=1, max_size=5),
                                      st.lists(st.sampled_from(["g", "HSC-G", "i_03", "r, x", "DECam (z)", "N387", " ", "12", "007"]), min_size=1,
                                               max_size=5))),
                have=draw(st.lists(st.booleans(), min_size=6, max_size=6)), ask=draw(st.sampled_from([None, None, 0, 1, 2, 3])),
                summary=draw(st.sampled_from(["row", "no row", "none", "no image"])), key=draw(st.sampled_from(["detector", "ccd"])),
                warn=draw(st.booleans()), dict=draw(st.booleans()))


strategy = cases
IMAGES = ["visit_image", "preliminary_visit_image", "calexp", "my_image"]
SUMMARIES = ["visit_summary", "preliminary_visit_summary", "visitSummary", "mySummary"]


def limits(s, case):
    d = {k: dict(ras=[p[0] for p in v], decs=[p[1] for p in v]) for k, v in enumerate(case["sets"])}
    x = [p[0] for v in case["sets"] for p in v]
    y = [p[1] for v in case["sets"] for p in v]
    got = s.getMinMaxLimits(d)
    check(tuple(got) == (min(x), max(x), min(y), max(y)), "the limits of %s are %s", case["sets"], got)
    if min(x) == max(x) or min(y) == max(y):
        return
    eq = s.setLimitsToEqualRatio(*got)
    size = max(max(x) - min(x), max(y) - min(y))
    e = 1e-9*(1 + size)
    check(abs(eq[1] - eq[0] - size) < e and abs(eq[3] - eq[2] - size) < e
          and abs(eq[0] + eq[1] - min(x) - max(x)) < 2*e + 1e-12 and abs(eq[2] + eq[3] - min(y) - max(y)) < 2*e,
          "limits %s made equal are %s", got, eq)
    ratio = case["ratio"]
    xlim, ylim = s.derivePlotLimits(d, raToDecLimitRatio=ratio, buffFrac=case["buff"])
    check(xlim[0] >= max(x) - e and xlim[1] <= min(x) + e and ylim[0] <= min(y) + e and ylim[1] >= max(y) - e, "limits %s, %s do "
          "not hold %s to %s in RA and %s to %s in Dec (ratio %s)", xlim, ylim, min(x), max(x), min(y), max(y), ratio)
    w, h = xlim[0] - xlim[1], ylim[1] - ylim[0]
    check(abs(xlim[0] + xlim[1] - min(x) - max(x)) < 4*e and abs(ylim[0] + ylim[1] - min(y) - max(y)) < 4*e, "limits %s, %s "
          "are not centred as %s to %s and %s to %s", xlim, ylim, min(x), max(x), min(y), max(y))
    if ratio is not None:
        check(abs(w - ratio*h) < 1e-6*w, "limits %s, %s are not in the ratio %s", xlim, ylim, ratio)


def tractLimits(s, case):
    m = maps.build(case["map"])
    ids, bad, given = [], [], []
    for f, kind in case["tracts"]:
        k = min(len(m) - 1, int(f*len(m)))
        if kind == 1:
            k += len(m)
        elif kind == 2 and case["map"]["kind"] in maps.CACHING:
            k = -1 - k
        (ids if 0 <= k < len(m) else bad).append(k)
        given.append(str(k) if case["text"] else k)
    valid, invalid = s.sanitizeTractList(m, given)
    check(list(valid) == sorted(set(ids)), "tracts %s of a map of %d: valid %s", given, len(m), valid)
    check(list(invalid) == sorted(bad), "tracts %s of a map of %d: invalid %s", given, len(m), invalid)
    def small(k):
        """Is the tract a convex polygon on the sky (well short of a hemisphere)?"""
        box, wcs, c = maps.boxTuple(m[k].getBBox()), m[k].getWcs(), maps.xyz(m[k].getCtrCoord())
        corners = [maps.xyz(wcs.pixelToSky(maps.geom.Point2D(x - 0.5, y - 0.5))) for x in (0, box[2]) for y in (0, box[3])]
        return all(maps.angsep(v, c) < 1.2 for v in corners)
    valid = [k for k in valid if small(k)][:2]
    got = s.getTractLimitsDict(m, valid)
    check(list(got) == list(valid), "limits of tracts %s are given for %s", valid, list(got))
    for k in valid:
        box = maps.boxTuple(m[k].getBBox())
        wcs = m[k].getWcs()
        corners = [maps.xyz(wcs.pixelToSky(maps.geom.Point2D(x - 0.5, y - 0.5))) for x in (0, box[2]) for y in (0, box[3])]
        corners = [corners[0], corners[2], corners[3], corners[1]]
        lo, hi = min(got[k]["ras"]), max(got[k]["ras"])
        bottom, top = min(got[k]["decs"]), max(got[k]["decs"])
        check(abs(got[k]["center"][0] - (lo + hi)/2) < 1e-9 and abs(got[k]["center"][1] - (bottom + top)/2) < 1e-9, "tract %d: the "
              "centre of %s", k, got[k])
        for i in range(4):
            a, b = corners[i], corners[(i + 1) % 4]
            for f in range(11):
                v = [a[j]*(1 - f/10) + b[j]*f/10 for j in range(3)]
                lon, lat = math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))
                check(bottom - 1e-7 <= lat <= top + 1e-7, "tract %d: Dec %s is not within %s to %s", k, lat, bottom, top)
                check(abs(lat) > 89.9999 or (lon - lo + 1e-6) % 360 <= hi - lo + 2e-6, "tract %d: RA %s is not within %s to %s", k,
                      lon, lo, hi)
        check(len(got[k]["ras"]) == len(got[k]["decs"]) == 5 and got[k]["ras"][0] == got[k]["ras"][-1], "tract %d: outline %s", k, got[k])
        outline = set(zip(got[k]["ras"], got[k]["decs"]))
        check(outline == {(x, y) for x in (lo, hi) for y in (bottom, top)}, "tract %d: outline %s", k, got[k])


def lookups(s, case):
    kind = str if isinstance(case["values"][0], str) else int
    where = s.makeWhereInStr("thing", list(case["values"]), kind)
    got = plotting.parseWhere(where)
    check(got == {"thing": set(case["values"])}, "the clause for %s is %r", case["values"], where)
    lo, hi = min(p[0] for p in case["sets"][0]), max(p[0] for p in case["sets"][0])
    v = s.getValueAtPercentile([p[0] for p in case["sets"][0]])
    check(abs(v - (lo + hi)/2) < 1e-9, "half way along %s is %s", case["sets"][0], v)
    v = s.getValueAtPercentile([p[0] for p in case["sets"][0]], percentile=0.25)
    check(abs(v - (lo + (hi - lo)/4)) < 1e-9, "a quarter of the way along %s is %s", case["sets"][0], v)

    have = case["have"]
    rows = [(IMAGES[i], dict(visit=7, instrument="X", detector=1, band="r", physical_filter="R2")) for i in range(3) if have[i]]
    rows += [("my_image", dict(visit=8, instrument="X", detector=1, band="g", physical_filter="G"))]*have[5]
    summaries = {(SUMMARIES[i], 7): plotting.Summary({1: dict(raCorners=(1.0, 2.0), decCorners=(3.0, 4.0))}, "band%d" % i,
                                                     "filter%d" % i) for i in range(3) if have[3 + i]}
    wcs = maps.build(dict(kind="discrete", raList=[10.0], decList=[1.0], radiusList=[0.1], tractOverlap=0.0, pixelScale=10.0,
                          projection="TAN"))[0].getWcs()
    images = {("calexp", 7, 1): (wcs, maps.geom.Box2I(maps.geom.Point2I(2, 3), maps.geom.Extent2I(10, 20)))}
    butler = plotting.FakeButler(dict(instrument="X", ccdKey="detector", datasets=rows, summaries=summaries, images=images))

    ask = None if case["ask"] is None else IMAGES[case["ask"]]
    name, refs = s.queryImageDatasets(butler, "instrument='X'", imageDatasetType=ask)
    order = [ask] if ask else IMAGES[:3]
    want = next((n for n in order if any(r[0] == n for r in rows)), None)
    check(name == want and len(refs) == (want is not None), "of image types %s, asked for %s, %s is used, with %d datasets",
          [r[0] for r in rows], ask, name, len(refs))
    ask = None if case["ask"] is None else SUMMARIES[case["ask"]]
    order = [ask] if ask else SUMMARIES[:3]
    want = next((n for n in order if (n, 7) in summaries), None)
    try:
        summary, name = s.getVisitSummaryForVisit(butler, 7, visitSummaryDatasetType=ask)
    except LookupError:
        summary = name = None
    check(name == want and (want is None or summary is summaries[want, 7]), "of summaries %s, asked for %s, %s is used",
          sorted(summaries), ask, name)

    class Other(plotting.FakeButler):
        def get(self, name, dataId=None, **kwargs):
            dataId = dict(dataId or {}, **kwargs)
            if case["key"] != "detector":
                if "detector" in dataId:
                    raise LookupError("no such key")
                dataId["detector"] = dataId.pop(case["key"], None)
            return super().get(name, dataId)
    other = Other(butler.world)
    missing = {} if case["dict"] else None
    table = plotting.Summary({1: dict(raCorners=(1.0, 2.0), decCorners=(3.0, 4.0))}, "b", "f")
    kw = dict(imageDatasetType="calexp", doLogWarn=case["warn"], missingVisitSummaryRows=missing)
    how = case["summary"]
    if how in ("row", "no row"):
        ra, dec = s.getDetRaDecCorners(case["key"], 1 if how == "row" else 2, 7, visitSummary=table, butler=other, **kw)
        check((ra, dec) == (([1.0, 2.0], [3.0, 4.0]) if how == "row" else (None, None)), "corners from a summary (%s): %s, %s", how,
              ra, dec)
        if missing is not None:
            check(missing == ({7: {2}} if how == "no row" and case["warn"] else {}), "missing rows (%s): %s", how, missing)
        check(s.getBand(visitSummary=table, butler=other, visit=7) == ("b", "f"), "the band of a summary")
    else:
        ra, dec = s.getDetRaDecCorners(case["key"], 1 if how == "none" else 2, 7, butler=other, **kw)
        if how == "none":
            want = [wcs.pixelToSky(maps.geom.Point2D(x, y)) for x, y in ((1.5, 2.5), (11.5, 2.5), (11.5, 22.5), (1.5, 22.5))]
            check(len(ra) == len(dec) == 4, "corners of an image: %s, %s", ra, dec)
            for a, d, p in zip(ra, dec, want):
                check(maps.angsep(maps.xyz(maps.skyDeg(a, d)), maps.xyz(p)) < 1e-10, "corners of an image: %s, %s; they are at %s",
                      ra, dec, want)
        else:
            check(ra is None and dec is None, "corners of an image that is not there: %s, %s", ra, dec)
        if any(r[1]["visit"] == 7 for r in rows):
            check(tuple(s.getBand(butler=other, visit=7)) == ("r", "R2"), "the band of a visit without a summary")


def run(case):
    s = plotting.script()
    with plotting.quiet():
        limits(s, case)
        tractLimits(s, case)
        lookups(s, case)
    return Outcome(len(case["sets"]) > 1 and case["ratio"] is not None,
                   ["kind=" + case["map"]["kind"], "ratio=%s" % (case["ratio"] if case["ratio"] in (None, 1.0) else "other"),
                    "corners=" + case["summary"]])


_ = types
