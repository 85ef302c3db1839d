import copy
import math
import os
import tempfile
import types

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import plotting

ID = "C38"
TITLE = "The plotting script draws exactly the visits, tracts and patches asked for"
RULE = ("main() of doc/_static/skymap/showVisitSkyMap.py run on a made-up repository: a sky map, a camera, up to 4 visits in up to "
        "three bands, pointed in and around its tracts, with or without summaries, rows, images or finite corners; any options "
        "(tracts, visits, bands, filters, detectors, veto file, least fraction in the tracts, patches, limits), passed to main() or "
        "on a command line; some with up to 104 visits, or on opposite sides of the sky. What is drawn and written is compared with what the options select, each from its own data. Non-trivial: an option leaves out something "
        "that another visit, tract or detector is drawn for.")
QUICK, THOROUGH = 5000, 60000
NOTE = "matplotlib and lsst.afw.cameraGeom are stand-ins that record what is drawn; nothing is proved beyond what was generated"
NAMES = {"HSC": "hsc_rings_v1", "LSSTCam-imSim": "DC2", "LSSTComCamSim": "ops_rehersal_prep_2k_v1", "LATISS": "latiss_v1",
         "DECam": "decam_rings_v1"}
IMAGES = ["visit_image", "preliminary_visit_image", "calexp"]
NAN, INF = float("nan"), float("inf")
# Corners of a detector that has no place on the sky, wholly or in part.
NOWHERE = dict(nan={2: NAN}, nowhere={0: NAN, 1: NAN, 2: NAN, 3: NAN}, first={0: NAN}, far={1: INF})
SUMMARIES = ["visit_summary", "preliminary_visit_summary", "visitSummary"]


@st.composite
def maps_(draw):
    npx = draw(st.integers(40, 300))
    if draw(st.booleans()):
        n = draw(st.integers(1, 4))
        ra, dec = draw(gen.floats(20, 330)), draw(gen.floats(-60, 60))
        step = draw(st.sampled_from([0.3, 1.0, 2.5]))
        radii = [gen.sig(draw(gen.floats(0.3, 1.2)), 3) for _ in range(n)]
        up = draw(st.sampled_from([0, 1]))
        if draw(st.integers(0, 5)) == 0:  # on opposite sides of the sky
            dec, ra = draw(st.sampled_from([0.0, 30.0])), draw(gen.floats(20, 160))
            radii = radii[:1]*2
            return dict(kind="discrete", raList=[gen.sig(ra), gen.sig(ra) + 180], decList=[dec, -dec], radiusList=radii, tractOverlap=0.0,
                        projection="TAN", pixelScale=gen.sig(2*max(radii)*3600/npx), builder=draw(gen.builders(npx, 3)))
        if not up:  # side by side
            radii = [gen.sig(0.5*step*draw(st.sampled_from([1.0, 1.05, 1.2])), 3)]*n
        return dict(kind="discrete", raList=[gen.sig(ra + k*step) for k in range(n)], decList=[gen.sig(dec + (k % 2)*step*up) for k in range(n)],
                    radiusList=radii, tractOverlap=draw(st.sampled_from([0.0, 0.1])), projection="TAN",
                    pixelScale=gen.sig(2*max(radii)*3600/npx), builder=draw(gen.builders(npx, 3)))
    rings = draw(st.integers(20, 60))
    return dict(kind="rings", numRings=rings, raStart=draw(st.sampled_from([0.0, 100.0])), tractOverlap=0.2, projection="TAN",
                pixelScale=gen.sig(180/(rings + 1)*3600/npx), builder=draw(gen.builders(npx, 3)), version=1)


def sometimes(odds, strategy):
    return st.integers(0, odds).flatmap(lambda k: strategy if k == odds else st.none())


@st.composite
def cases(draw):
    spec = draw(maps_())
    if spec["builder"]["name"] == "legacy":
        spec["builder"]["border"] = min(5, spec["builder"]["border"])
    visits = []
    places = st.one_of(st.sampled_from([0.1, 0.3, 0.6, 0.9]), gen.frac())
    shifts = st.one_of(gen.floats(-0.7, 0.7), gen.floats(-0.55, -0.4), gen.floats(-0.4, 0.4))
    for k in range(draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 4]))):
        visits.append(dict(
            id=draw(st.integers(1, 400))*10 + k, tract=draw(places), dx=gen.sig(draw(shifts), 3),
            dy=gen.sig(draw(shifts), 3), angle=draw(st.sampled_from([0.0, 10.0, 45.0])), band=draw(st.sampled_from("gri")),
            wide=draw(st.sampled_from([0, 1, 1, 3])), summary=draw(st.sampled_from([0, 0, 0, 0, 1, 2, None])), image=draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2])),
            bad=draw(st.lists(st.tuples(st.integers(0, 6), st.sampled_from(["row", "nan", "nowhere", "nowhere", "first", "far", "image"])).map(list), max_size=2))))
    opposite = spec["kind"] == "discrete" and len(spec["raList"]) == 2 and spec["raList"][1] == spec["raList"][0] + 180
    mirrored = opposite and len(visits) > 1 and draw(st.booleans())
    if mirrored:
        # where the sky is farthest from another visit
        a, b = visits[:2]
        b.update(dx=a["dx"] + draw(st.sampled_from([0.0, 0.03, -0.03]))*a["wide"], dy=-a["dy"] - draw(st.sampled_from([0.0, 0.03, 0.05, 0.1]))*a["wide"], wide=a["wide"], tract=0.9, bad=[], summary=0)
        a.update(tract=0.1, bad=[], summary=0)
    o = dict(tracts=draw(sometimes(1, st.lists(st.one_of(places, places, places, st.just(-1.0)), min_size=1, max_size=6))),
             visits=draw(sometimes(3, st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True))),
             bands=draw(sometimes(3, st.lists(st.sampled_from("griz"), min_size=1, max_size=3, unique=True))),
             filters=draw(sometimes(5, st.lists(st.sampled_from(["F-g", "F-r", "F-i"]), min_size=1, max_size=2, unique=True))),
             ccds=draw(sometimes(3, st.lists(st.integers(0, 6), min_size=1, max_size=4, unique=True))),
             veto=draw(sometimes(2, st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True))),
             fraction=draw(sometimes(1, st.sampled_from([0.01, 0.3, 0.5, 0.6, 1.0]))),
             showPatch=draw(st.booleans()), only=draw(st.booleans()), showCcds=draw(st.booleans()), trim=draw(st.booleans()),
             unscaled=draw(st.booleans()), force=draw(st.booleans()), save=draw(st.booleans()), name=draw(st.booleans()),
             image=draw(sometimes(6, st.sampled_from([0, 2]))), summary=draw(sometimes(6, st.sampled_from([0, 2]))),
             dpi=draw(st.sampled_from([150, 72])), key=draw(st.sampled_from(["detector", "detector", "ccd"])))
    if mirrored:
        o.update(force=draw(st.sampled_from([True, True, False])), tracts=None, visits=None, veto=None, ccds=None, bands=None, filters=None)
    if draw(st.integers(0, 2)) == 0:  # the fraction alone selects
        o.update(bands=None, filters=None, ccds=None, veto=None, fraction=draw(st.sampled_from([0.01, 0.5, 0.6, 1.0])))
        o["tracts"] = [abs(f) for f in o["tracts"] or [draw(places)]]
        o["visits"] = o["visits"] and [0, 1, 2, 3]
        for v in visits:
            v["tract"] = draw(st.sampled_from(o["tracts"] + [v["tract"]]))
        if draw(st.booleans()):  # between two tracts side by side, in any order
            n, step = draw(st.integers(2, 3)), draw(st.sampled_from([0.5, 2.0]))
            spec = dict(kind="discrete", raList=[50.0 + k*step for k in range(n)], decList=[0.0]*n, radiusList=[0.5*step]*n, tractOverlap=0.0,
                        projection="TAN", pixelScale=step*3600/120, builder=dict(name="legacy", inner=[24, 24], border=2))
            o["tracts"] = draw(st.permutations([0.1, 0.4, 0.9]))
            for v in visits:
                v.update(wide=3, summary=v["summary"] and 0, bad=[], dx=draw(st.sampled_from([-0.5, 0.5])) + gen.sig(draw(gen.floats(-0.3, 0.3)), 3))
    crowd = 0 if draw(st.integers(0, 11)) else draw(st.integers(15, 24))
    if crowd and draw(st.integers(0, 4)) == 0:
        crowd = draw(st.integers(30, 100))
    instrument = draw(st.sampled_from(list(NAMES) + ["Cam"]))
    detectors = draw(st.lists(st.sampled_from(["science", "science", "science", "guider"]), min_size=1, max_size=5))
    first = draw(st.sampled_from([0, 7]))
    if draw(st.integers(0, 9)) == 0:  # the dead detector of a camera
        instrument, first, detectors = "HSC", 7, (detectors + ["science"]*3)[:max(3, len(detectors))]
        o.update(name=False, ccds=draw(st.sampled_from([None, [2], [0, 2], [1, 2, 3]])))
    return dict(map=spec, command=draw(st.integers(0, 2)), crowd=crowd, vetoed=draw(st.one_of(st.just(0), st.integers(0, 30))),
                minus360=draw(st.integers(0, 7)) == 0, instrument=instrument, visits=visits, options=o,
                detectors=detectors, first=first)


strategy = cases


def exhaustive(tier):
    """Visits on opposite sides of the sky, in either order; detectors of which one has no place; no detector."""
    options = dict(tracts=None, visits=None, bands=None, filters=None, ccds=None, veto=None, fraction=None, showPatch=False, only=False,
                   showCcds=True, trim=False, unscaled=False, force=True, save=True, name=True, image=None, summary=None, dpi=150, key="detector")
    builder = dict(name="legacy", inner=[40, 40], border=2)
    opposite = dict(kind="discrete", raList=[40.0, 220.0], decList=[10.0, -10.0], radiusList=[0.5, 0.5], tractOverlap=0.0, projection="TAN",
                    pixelScale=36.0, builder=builder)
    near = dict(opposite, raList=[50.0, 51.0], decList=[0.0, 0.0])
    case = dict(command=0, crowd=0, vetoed=0, minus360=False, instrument="Cam", detectors=["science"]*4, first=0)
    visit = dict(tract=0.1, dx=0.1, dy=-0.2, angle=0.0, band="r", wide=1, summary=0, image=0, bad=[])
    for ids in ((10, 20), (20, 10)):
        for shift, dy in ((0.0, 0.15), (0.03, 0.15), (-0.03, 0.15), (-0.05, 0.1), (-0.1, 0.05), (0.0, 0.1), (0.06, 0.1)):
            for detectors in (["science"], ["science"]*4):
                visits = [dict(visit, id=ids[0]), dict(visit, id=ids[1], tract=0.9, dx=0.1 + shift, dy=dy)]
                yield dict(case, map=opposite, visits=visits, options=options, detectors=detectors)
    for how in list(NOWHERE) + ["row", "image"]:
        for which in (0, 3):
            for fraction in (None, 0.5, 0.9):
                for summary in (0, None):
                    visits = [dict(visit, id=10, bad=[[which, how]], summary=summary), dict(visit, id=20, tract=0.9, summary=summary)]
                    yield dict(case, map=near, visits=visits, options=dict(options, tracts=[0.1, 0.9], fraction=fraction))
    for ccds in (None, [5], [0], [0, 5]):
        for fraction in (None, 0.5):
            yield dict(case, map=near, visits=[dict(visit, id=10)], detectors=["science", "guider"],
                       options=dict(options, tracts=[0.1], ccds=ccds, fraction=fraction))


def middle(values):
    return 0.5*(min(values) + max(values))


def written(case, m, d, detectors, outlines, tracts, labels):
    """The labels: visits, tracts, patches and detectors, each where it belongs, and the legends."""
    o = case["options"]
    corners = {}
    for (v, i), c in detectors.items():
        corners.setdefault(tuple(round(x, 7) for x in list(c[0]) + list(c[1])), set()).add(v)
    named, colours = {}, {}
    for ra, dec, kwargs in d.polygons:
        whose = corners.get(tuple(round(x, 7) for x in ra + dec))
        if whose is None:
            check("label" not in kwargs, "%s is the label of something other than a detector", kwargs.get("label"))
            continue
        name = kwargs.get("label")
        check(name is None or name in {str(v) for v in whose}, "a detector of visit %s is labelled %r", sorted(whose), name)
        named[name] = named.get(name, 0) + 1
        if len(whose) == 1 and isinstance(kwargs.get("edgecolor"), tuple):
            colours.setdefault(kwargs["edgecolor"], set()).update(whose)
    shown = sorted({v for v, _ in detectors})
    for c, whose in colours.items():
        check(len(whose) == 1, "visits %s are drawn in one colour", sorted(whose))
    if len(named) > 1:
        check({k: n for k, n in named.items() if k is not None} == {str(v): 1 for v in shown}, "labels %s; visits %s", named, shown)
    if d.tickLabels is not None:
        labels.append("colour bar")
        check(len(d.ticks) == len(d.tickLabels), "%d ticks with %d labels", len(d.ticks), len(d.tickLabels))
        for t, name in zip(d.ticks, d.tickLabels):
            whose = colours.get(("colour", int(t)))
            check(name in {str(v) for v in shown} and (whose is None or whose == {int(name)}),
                  "the colour bar says %s where the colour is that of visit %s", name, whose)
    for title, names in d.legends:
        if title == "tracts":
            check(names == [str(t) for t in outlines], "the legend names tracts %s; drawn are %s", names, outlines)
    want = {}  # text -> [(x, y, must be there)]

    def expect(text, x, y):
        dx, dy = 0.02*abs(d.xlim[0] - d.xlim[1]), 0.02*abs(d.ylim[1] - d.ylim[0])
        margin = min(x - d.xlim[1] - dx, d.xlim[0] - dx - x, y - d.ylim[0] - dy, d.ylim[1] - dy - y)
        if margin > -1e-7:
            want.setdefault(text, []).append((x, y, margin > 1e-7))
    for t in outlines:
        c = m[t].getCtrCoord()
        if len(outlines) > 1 or not o["showPatch"]:
            expect(str(t), c.getLongitude().asDegrees(), c.getLatitude().asDegrees())
        if o["showPatch"] and (not o["only"] or tracts is None or t in tracts):
            nx, ny = m[t].getNumPatches()
            for p in m[t]:
                c = [m[t].getWcs().pixelToSky(q) for q in maps.geom.Box2D(p.getInnerBBox()).getCorners()]
                i, j = p.getIndex()
                expect(str(j*nx + i), middle([q.getLongitude().asDegrees() for q in c]), middle([q.getLatitude().asDegrees() for q in c]))
    if o["showCcds"]:
        for (v, i), c in detectors.items():
            want.setdefault(str(i), []).append((middle(c[0]), middle(c[1]), False))
    used = 0
    for x, y, text in d.texts:
        near = [k for k in want.get(text, []) if abs(x - k[0]) < 1e-6 and abs(y - k[1]) < 1e-6]
        check(near, "%r is written at RA %r, Dec %r; it belongs at %s", text, x, y, want.get(text))
        used += 1
    for text, places in want.items():
        for x, y, must in places:
            check(not must or any(t == text and abs(a - x) < 1e-6 and abs(b - y) < 1e-6 for a, b, t in d.texts),
                  "%r is not written at RA %r, Dec %r", text, x, y)
    if o["showCcds"] and detectors:
        check(any(t == str(i) and abs(a - middle(c[0])) < 1e-6 and abs(b - middle(c[1])) < 1e-6
                  for a, b, t in d.texts for (v, i), c in detectors.items()), "no detector is numbered")
    labels.append("labels=%s" % min(used, 3))


def offset(centre, x, y):
    """The position x, y degrees east and north of another."""
    d = math.hypot(x, y)
    return centre.offset(math.degrees(math.atan2(y, x))*maps.geom.degrees, d*maps.geom.degrees) if d else centre


def world(case):
    """The made-up repository and what is in it, detector by detector."""
    m = maps.build(case["map"])
    ids = [case["first"] + k for k in range(len(case["detectors"]))]
    camera = plotting.Camera([plotting.Detector(i, k) for i, k in zip(ids, case["detectors"])])
    w = dict(ccdKey=case["options"]["key"], instrument=case["instrument"], camera=camera, map=m, skymapName=NAMES.get(case["instrument"], "other"), datasets=[],
             summaries={}, images={})
    corners = {}
    for v in case["visits"]:
        t = m[min(len(m) - 1, int(v["tract"]*len(m)))]
        box = maps.boxTuple(t.getBBox())
        centre = t.getWcs().pixelToSky(maps.geom.Point2D((0.5 + v["dx"])*box[2], (0.5 + v["dy"])*box[3]))
        size = 0.1*case["map"]["pixelScale"]*box[2]/3600*(v["wide"] or 1/3)
        rows = {}
        bad = {case["first"] + k: how for k, how in v["bad"]}
        turn = math.radians(v["angle"])
        for k, i in enumerate(ids):
            image = IMAGES[v["image"]]
            pts = []
            for x, y in ((0, 0), (1, 0), (1, 0.75), (0, 0.75)):
                a, b = (x + 1.1*(k % 2))*size, (y + 0.9*(k//2))*size
                pts.append(offset(centre, a*math.cos(turn) - b*math.sin(turn), a*math.sin(turn) + b*math.cos(turn)))
            ra, dec = [[f(p) for p in pts] for f in (lambda p: p.getLongitude().asDegrees(), lambda p: p.getLatitude().asDegrees())]
            row = dict(visit=v["id"], detector=i, instrument=case["instrument"], skymap=w["skymapName"], band=v["band"],
                       physical_filter="F-" + v["band"], tract={x.getId() for x in near(m, pts)})
            w["datasets"].append((image, row))
            how = bad.get(i)
            if v["summary"] is not None:
                if case["minus360"]:
                    ra = [x - 360 for x in ra]
                if how in NOWHERE:
                    ra = [NOWHERE[how].get(j, x) for j, x in enumerate(ra)]
                    if how != "nan":
                        dec = [NOWHERE[how].get(j, x) for j, x in enumerate(dec)]
                if how != "row":
                    rows[i] = dict(raCorners=tuple(ra), decCorners=tuple(dec))
                    corners[v["id"], i, "summary"] = (ra, dec)
            if how != "image":
                wcs = t.getWcs()
                at = wcs.skyToPixel(pts[0])
                b = maps.geom.Box2I(maps.geom.Point2I(int(at[0]), int(at[1])), maps.geom.Extent2I(3 + k, 4))
                w["images"][image, v["id"], i] = (wcs, b)
                c = [wcs.pixelToSky(p) for p in maps.geom.Box2D(b).getCorners()]
                corners[v["id"], i, image] = ([p.getLongitude().asDegrees() for p in c], [p.getLatitude().asDegrees() for p in c])
        if v["summary"] is not None:
            w["summaries"][SUMMARIES[v["summary"]], v["id"]] = plotting.Summary(rows, v["band"], "F-" + v["band"])
    return w, corners, m


def near(m, pts):
    out = []
    if len(m) > 10:
        return [m.findTract(p) for p in pts]
    for t in m:
        if any(t.contains(p) for p in pts):
            out.append(t)
    return out


def run(case):
    s = plotting.script()
    seen = set()
    if case["visits"] and case["crowd"]:
        more = [dict(case["visits"][0], id=5000 + 10*k, dx=case["visits"][0]["dx"] + 0.01*k,
                     bad=[[i, "row"] for i in range(7)] if k % 5 == case["crowd"] % 5 else []) for k in range(case["crowd"])]
        case = dict(case, visits=case["visits"] + more, detectors=case["detectors"][:2])
    for v in case["visits"]:  # distinct numbers
        while v["id"] in seen:
            v["id"] += 1
        seen.add(v["id"])
    w, corners, m = world(case)
    o = case["options"]
    labels, left = [], False

    def number(k):
        return case["visits"][k]["id"] if k < len(case["visits"]) else 99999
    tracts = None if o["tracts"] is None else [len(m) + 3 if f < 0 else min(len(m) - 1, int(f*len(m))) for f in o["tracts"]]
    visits = None if o["visits"] is None else [number(k) for k in o["visits"] if k < len(case["visits"])] or None
    veto = None if o["veto"] is None else [number(k) for k in o["veto"]]
    if veto is not None and case["crowd"]:
        veto = [v["id"] for v in case["visits"][-case["crowd"]:]][:case["vetoed"]] + veto
    fraction = o["fraction"] if tracts is not None and not any(t >= len(m) for t in tracts) else None
    ccds = None if o["ccds"] is None else [case["first"] + k for k in o["ccds"]]
    imageType = None if o["image"] is None else IMAGES[o["image"]]
    summaryType = None if o["summary"] is None else SUMMARIES[o["summary"]]
    skymapName = w["skymapName"] if o["name"] or case["instrument"] == "Cam" else None

    # what should be drawn
    def chosen(row):
        return ((tracts is None or row["tract"] & set(tracts)) and (o["bands"] is None or row["band"] in o["bands"])
                and (o["filters"] is None or row["physical_filter"] in o["filters"]))
    kinds = [imageType] if imageType else IMAGES
    used = next((k for k in kinds if any(n == k and chosen(r) for n, r in w["datasets"])), None)
    if visits is None:
        want = sorted({r["visit"] for n, r in w["datasets"] if n == used and chosen(r)})
    else:
        want = list(visits)
    want = [v for v in want if veto is None or v not in veto]
    left |= len(want) < len(case["visits"])
    summary = {}
    # The first visit decides which summaries are used.
    first = None
    if want:
        first = next((k for k in ([summaryType] if summaryType else SUMMARIES) if (k, want[0]) in w["summaries"]), summaryType)
    for v in want:
        kinds = [first] if first else SUMMARIES
        summary[v] = any((k, v) in w["summaries"] for k in kinds)
    dets = sorted(d.ident for d in w["camera"] if d.kind == "science" and (ccds is None or d.ident in ccds))
    if case["instrument"] == "HSC" and skymapName is None:
        dets = [d for d in dets if d != 9]
    left |= len(dets) < len(case["detectors"])

    def place(v, d):
        return corners.get((v, d, "summary")) if summary[v] else corners.get((v, d, used))
    if fraction is not None:
        if not dets:
            labels.append("no detectors, with a fraction")
        keep = []
        for v in want:
            inside = 0
            for d in dets:
                c = place(v, d)
                if c is None:
                    continue
                if not all(map(math.isfinite, c[0])):
                    labels.append("not finite, with a fraction")
                    continue
                margins = []
                for t in tracts:
                    box = maps.boxTuple(m[t].getBBox())
                    try:
                        q = [m[t].getWcs().skyToPixel(maps.skyDeg(*p)) for p in zip(*c)]
                        margins.append(min(min(p[0] + 0.5, box[2] - 0.5 - p[0], p[1] + 0.5, box[3] - 0.5 - p[1]) for p in q))
                    except Exception:
                        margins.append(-1)
                    if math.isnan(margins[-1]):
                        margins[-1] = -1
                if any(abs(x) < 1e-6 for x in margins):
                    return Outcome(False, ["on an edge"])
                inside += max(margins) > 0
            if inside/max(1, len(dets)) >= fraction:
                keep.append(v)
        left |= len(keep) < len(want)
        labels.append("fraction leaves out" if len(keep) < len(want) else "fraction")
        want = keep
    detectors = {}
    for v in want:
        for d in dets:
            c = place(v, d)
            if c is not None and all(map(math.isfinite, c[0] + c[1])):
                detectors[v, d] = c
    shown = sorted({v for v, _ in detectors})
    found = {m.findTract(maps.skyDeg(*p)).getId() for c in detectors.values() for p in zip(*c)}
    outlines = sorted(t for t in found | set(tracts or []) if t < len(m))
    empty = not detectors and (tracts is None or not any(t < len(m) for t in tracts))
    if not detectors and any(not all(map(math.isfinite, c[0])) for c in corners.values()):
        labels.append("no finite corners")

    with tempfile.TemporaryDirectory(prefix="verif-plot-") as scratch:
        path = None
        if veto is not None:
            path = os.path.join(scratch, "veto.txt")
            with open(path, "w") as f:
                f.write("".join("%d\n" % v for v in veto))
        s.Butler = plotting.FakeButler(w)
        plotting.drawn.clear()
        error = None
        with plotting.quiet() as log:
            try:
                if case["command"]:
                    args = dict(skymapName=skymapName, tracts=tracts, visits=visits, physicalFilters=o["filters"], bands=o["bands"],
                                ccds=ccds, showPatch=o["showPatch"], showPatchSelectedTractsOnly=o["only"],
                                saveFile="a plot.png" if o["save"] else None, showCcds=o["showCcds"], visitVetoFile=path,
                                minOverlapFraction=fraction, trimToTracts=o["trim"], doUnscaledLimitRatio=o["unscaled"],
                                forceScaledLimitRatio=o["force"], imageDatasetType=imageType, visitSummaryDatasetType=summaryType,
                                dpi=None if o["dpi"] == 150 else o["dpi"], ccdKey=None if o["key"] == "detector" else o["key"])
                    words = [] if case["command"] == 1 else ["the repo"]
                    for name, value in args.items():
                        short = {"ccds": "-c", "showPatch": "-p"}.get(name) if case["command"] == 2 else None
                        if value is None or value is False:
                            continue
                        words.append(short or "--" + name)
                        if value is not True:
                            words += [str(v) for v in (value if isinstance(value, (list, tuple)) else [value])]
                    words += ["--collections", "one", "two"]
                    words += ["--dpi", str(o["dpi"]), "the repo"] if case["command"] == 1 else []
                    try:
                        plotting.command(s.Butler, words)
                    except SystemExit as e:
                        check(False, "run as a program with %s: exit %s", words, e.code)
                else:
                    s.main("the repo", ["one", "two"], skymapName=skymapName, tracts=copy.copy(tracts), visits=copy.copy(visits),
                           physicalFilters=o["filters"], bands=o["bands"], ccds=ccds, ccdKey=o["key"], showPatch=o["showPatch"],
                           showPatchSelectedTractsOnly=o["only"], saveFile="a plot.png" if o["save"] else None, showCcds=o["showCcds"],
                           visitVetoFile=path, minOverlapFraction=fraction, trimToTracts=o["trim"], doUnscaledLimitRatio=o["unscaled"],
                           forceScaledLimitRatio=o["force"], imageDatasetType=imageType, visitSummaryDatasetType=summaryType,
                           dpi=o["dpi"])
            except RuntimeError as e:
                if type(e) is not RuntimeError:
                    raise
                error = e
        d = plotting.drawn
    if empty:
        check(error is not None and not d.saved, "nothing to draw, but no error")
        return Outcome(False, ["nothing to draw"])
    check(error is None, "%s, but there are detectors of %s and tracts %s to draw", error, shown, outlines)

    def key(ra, dec):
        return tuple(round(v, 7) for v in list(ra) + list(dec))
    got = {key(p[0], p[1]) for p in d.polygons}
    dashed = {}
    for v, i in detectors:
        c = detectors[v, i]
        check(key(*c) in got, "detector %d of visit %d, at %s, is not drawn", i, v, c)
        dashed[key(*c)] = "detector %d of visit %d" % (i, v)
    for t in outlines:
        boxes = [("tract %d" % t, m[t].getBBox())]
        if o["showPatch"] and (not o["only"] or tracts is None or t in tracts):
            boxes += [("patch %s of tract %d" % (p.getIndex(), t), p.getInnerBBox()) for p in m[t]]
        for name, box in boxes:
            c = [m[t].getWcs().pixelToSky(p) for p in maps.geom.Box2D(box).getCorners()]
            k = key([p.getLongitude().asDegrees() for p in c], [p.getLatitude().asDegrees() for p in c])
            check(k in got, "%s is not drawn", name)
            dashed[k] = name
    extra = [k for k in got if k not in dashed]
    check(not extra, "drawn, and not asked for: %s (visits drawn should be %s, tracts %s)", extra[:1], shown, outlines)
    if o["save"] or case["command"]:
        check([n for n, _ in d.saved] == ["a plot.png" if o["save"] else "showVisitSkyMap.png"] and d.saved[0][1].get("dpi") == o["dpi"]
              and not d.shown, "saved %s", d.saved)
    else:
        check(not d.saved and d.shown == 1, "saved %s, shown %d times", d.saved, d.shown)
    written(case, m, d, detectors, outlines, tracts, labels)
    # limits
    check(d.xlim[0] > d.xlim[1] and d.ylim[0] < d.ylim[1], "limits %s, %s: RA runs to the left", d.xlim, d.ylim)
    if detectors and not o["trim"]:
        for c in detectors.values():
            check(min(c[0]) >= d.xlim[1] - 1e-9 and max(c[0]) <= d.xlim[0] + 1e-9 and min(c[1]) >= d.ylim[0] - 1e-9
                  and max(c[1]) <= d.ylim[1] + 1e-9, "limits %s, %s leave out a detector at %s", d.xlim, d.ylim, c)
    else:
        limits = s.getTractLimitsDict(m, [t for t in outlines if t in found or not detectors])
        for t, c in limits.items():
            check(min(c["ras"]) >= d.xlim[1] - 1e-9 and max(c["ras"]) <= d.xlim[0] + 1e-9 and min(c["decs"]) >= d.ylim[0] - 1e-9
                  and max(c["decs"]) <= d.ylim[1] + 1e-9, "limits %s, %s leave out tract %d, at %s", d.xlim, d.ylim, t, c)
    check(d.title.split("\n")[:3] == ["the repo", "one", "two"], "title %r; repository and collections come first", d.title)
    check("nVisit: %d" % len(shown) in d.title, "title %r; %d visits are drawn", d.title, len(shown))
    bands = {v["band"] for v in case["visits"] if v["id"] in want}
    for b in bands:
        check("F-" + b in d.title, "title %r; filters of the visits: %s", d.title, sorted("F-" + b for b in bands))
    for b in "gri":
        check(b in bands or "F-" + b not in d.title, "title %r; filters of the visits: %s", d.title, sorted("F-" + b for b in bands))
    left |= o["trim"] or len(found) < len(outlines)
    labels += ["visits=%d" % len(shown), "patches" if o["showPatch"] else "no patches", "limits=" + ("tracts" if o["trim"] else "visits")]
    assert log is not None
    return Outcome(left and detectors, labels)


_ = types
