import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C06"
TITLE = "findTractIdArray agrees with findTract element by element"
RULE = ("A map of any kind (rings of both versions most often), 1 to 21 positions (rings: aimed at the layout; some close to each other on either side of a line between tracts; "
        "longitudes also outside [0, 2 pi)), as array (also a view, or up to 5000 long, or of whole numbers or single precision), list, tuple or scalar, in radians or degrees. A difference is "
        "accepted only where findTract itself changes within 2e-9 rad (2e-6 for single precision). Non-trivial: two different tracts found.")
QUICK, THOROUGH = 4000, 100000


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["rings"]*5 + ["discrete", "dodeca", "equat", "healpix"]))
    npix = st.just(100)
    if kind == "rings":
        spec = dict(kind="rings", numRings=draw(st.one_of(st.integers(1, 12), st.integers(1, 60), st.sampled_from([120, 120, 170, 250]))),
                    raStart=draw(gen.raStarts), tractOverlap=0.0, version=draw(st.sampled_from([1, 1, 0])))
        spec["pixelScale"] = gen.sig(180.0/(spec["numRings"] + 1)*3600/100)
        point = gen.ringPoint(spec)
    else:
        spec = draw(getattr(gen, kind)(npix=npix))
        point = gen.skyPoint()
    pts = draw(st.lists(point, min_size=1, max_size=15))
    wrap = [draw(st.sampled_from([0, 0, 0, -1, 1, 2])) for _ in pts]
    # close to each other, on either side of the line between two tracts
    pairs = draw(st.lists(st.integers(0, 14), max_size=3))
    return dict(spec=spec, points=pts, wrap=wrap, pairs=pairs, gap=draw(st.sampled_from([1e-8, 1e-6, 1e-5, 1e-4])), degrees=draw(st.booleans()),
                form=draw(st.sampled_from(["array", "array", "list", "tuple", "scalar", "ints", "empty", "strided", "long", "mixed", "single"])),
                which=draw(st.integers(0, 2)), length=draw(st.sampled_from([90, 257, 1100, 5000])))


strategy = cases


def astride(m, a, b, gap):
    """Two positions less than `gap` apart in different tracts, between a and b, if those are."""
    ta, tb = (m.findTract(maps.sky(*p)).getId() for p in (a, b))
    if ta == tb:
        return []
    while max(abs(a[0] - b[0]), abs(a[1] - b[1])) > gap:
        mid = [(a[0] + b[0])/2, (a[1] + b[1])/2]
        t = m.findTract(maps.sky(*mid)).getId()
        if t == ta:
            a = mid
        else:
            b = mid
    return [list(a), list(b)]


def run(case):
    m = maps.build(case["spec"])
    case = dict(case)
    more = [q for k in case.get("pairs", []) for q in astride(m, case["points"][k % len(case["points"])], case["points"][0], case["gap"])]
    case["points"], case["wrap"] = case["points"] + more, case["wrap"] + [0]*len(more)
    pts = case["points"][:1] if case["form"] == "scalar" else case["points"]
    degrees = case["degrees"] or case["form"] == "ints"
    if case["form"] == "empty":
        got = m.findTractIdArray(np.array([]), np.array([]), degrees=degrees)
        check(np.shape(got) == (0,), "findTractIdArray of no positions has shape %s", np.shape(got))
        return Outcome(False, ["form=empty"])
    unit = 180.0/math.pi if degrees else 1.0
    ra = [(lon + 2*math.pi*w)*unit for (lon, _), w in zip(pts, case["wrap"])]
    top = 90.0 if degrees else 0.5*math.pi
    dec = [max(-top, min(top, lat*unit)) for _, lat in pts]
    loose = 2e-9
    if case["form"] in ("mixed", "single"):  # one of the two whole numbers, or in single precision; or both in that
        kind = int if case["form"] == "mixed" else np.float32
        kinds = [kind, float] if case["which"] == 0 else [float, kind] if case["which"] == 1 else [kind, np.float32]
        dec = [max(-(1 - 1e-7)*top, min((1 - 1e-7)*top, v)) for v in dec]  # a pole in single precision is beyond it
        args = tuple(np.array(v).astype(k) for v, k in zip((ra, dec), kinds))
        ra, dec = ([float(v) for v in a] for a in args)
        loose = 2e-6 if np.float32 in kinds else loose
    elif case["form"] == "ints":
        ra, dec = [int(v) for v in ra], [int(v) for v in dec]
        args = (np.array(ra), np.array(dec))
    elif case["form"] == "scalar":
        args = (ra[0], dec[0])
    elif case["form"] == "array":
        args = (np.array(ra), np.array(dec))
    elif case["form"] == "tuple":
        args = (tuple(ra), tuple(dec))
    elif case["form"] == "long":
        n = case["length"] if case["spec"]["kind"] == "rings" else 90
        order = [(k*k + 3*k) % len(pts) for k in range(n)]
        if case["which"] == 0:  # all where the tracts of a ring start
            ra = [case["spec"].get("raStart", 0.0)*unit*math.pi/180]*len(pts)
        pts, ra, dec = [pts[k] for k in order], [ra[k] for k in order], [dec[k] for k in order]
        args = (np.array(ra), np.array(dec))
    elif case["form"] == "strided":
        whole = np.array([ra[::-1], dec[::-1]]).T
        whole.setflags(write=False)
        args = (whole[::-1, 0], whole[::-1, 1])
    else:
        args = (list(ra), list(dec))
    given = [list(np.atleast_1d(a)) for a in args]
    got = m.findTractIdArray(*args, degrees=True) if degrees else m.findTractIdArray(*args)
    check(np.shape(got) == (len(pts),), "findTractIdArray of %d positions has shape %s", len(pts), np.shape(got))
    check(given == [list(np.atleast_1d(a)) for a in args], "findTractIdArray changed the positions it was given")
    make = maps.skyDeg if degrees else maps.sky
    found = set()
    known = {}
    for i in range(len(pts)):
        p = make(ra[i], dec[i])
        want = known.get((ra[i], dec[i]))
        if want is None:
            want = known[ra[i], dec[i]] = m.findTract(p).getId()
        found.add(want)
        if int(got[i]) == want:
            continue
        lon, lat = maps.lonlat(p)
        around = {m.findTract(maps.sky(lon + a, lat + b)).getId() for a in (-loose, 0, loose) for b in (-loose, 0, loose)}
        check(int(got[i]) in around, "position ra=%r dec=%r (%s): findTractIdArray says %s, findTract %s", ra[i],
              dec[i], "deg" if degrees else "rad", got[i], want)
    return Outcome(len(found) > 1, ["kind=" + case["spec"]["kind"], "degrees" if degrees else "radians",
                                    "form=" + case["form"], "version=%s" % case["spec"].get("version")])
