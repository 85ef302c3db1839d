"""Hypothesis strategies for sky map specs and coordinates.  Specs are plain JSON (see maps.build)."""
import math

from hypothesis import strategies as st

PROJ = ["TAN", "STG", "ZEA", "ARC", "SIN"]
MAXHALF = dict(TAN=72.0, SIN=80.0, STG=110.0, ZEA=110.0, ARC=110.0)  # deg from the reference point


def sig(x, n=6):
    """Round to n significant digits (readable cases), never to zero."""
    if x == 0:
        return 0.0
    return float("%.*g" % (n, x))


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
        lambda v: v + 0.0)


def frac():
    """[0, 1] with the ends and simple fractions likely."""
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]), floats(0.0, 1.0), floats(0.0, 1.0))


@st.composite
def builders(draw, npix, maxPatches=8, kinds=("legacy", "legacy", "cells")):
    """A tract builder giving about 1..maxPatches patches across a tract of npix pixels."""
    name = draw(st.sampled_from(kinds))
    k = draw(st.integers(1, maxPatches))
    jitter = draw(st.integers(-2, 3))
    side = max(1, int(math.ceil(npix/k)) + jitter)
    if name == "legacy":
        if draw(st.booleans()):
            k2 = draw(st.integers(1, maxPatches))
            side2 = max(1, int(math.ceil(npix/k2)) + draw(st.integers(-2, 3)))
        else:
            side2 = side
        border = draw(st.one_of(st.just(0), st.integers(0, 5),
                                st.integers(0, max(1, side//2)), st.integers(0, 2*side + 1)))
        return dict(name="legacy", inner=[side, side2], border=border)
    per = draw(st.integers(1, 5)) if draw(st.integers(0, 7)) else draw(st.integers(6, 24))
    cell = max(1, -(-side//per))
    return dict(name="cells", cell=cell, perPatch=per,
                cellBorder=draw(st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 2*cell))),
                inBorder=draw(st.integers(0, 3)))


def pixels(lo=6, hi=40000):
    """Pixels across a tract: small ones make rounding matter, large ones are realistic."""
    return st.one_of(st.integers(lo, min(hi, 60)), st.integers(lo, min(hi, 2000)), st.integers(lo, hi))


@st.composite
def sparse(draw, spec):
    """The same with some of its fields (sometimes all but one) left at the defaults of its class."""
    names = [n for n in ("tractOverlap", "pixelScale", "projection", "rotation", "raStart", "withTractsOnPoles", "numTracts", "decRange",
                         "log2NSide", "nest", "builder") if n in spec]
    if draw(st.booleans()):
        keep = [draw(st.sampled_from(names))]
    else:
        keep = draw(st.lists(st.sampled_from(names), unique=True))
    out = {k: v for k, v in spec.items() if k not in names or k in keep}
    if "builder" in out and draw(st.booleans()):
        b = out["builder"]
        fields = draw(st.lists(st.sampled_from([k for k in b if k != "name"]), unique=True))
        out["builder"] = {k: v for k, v in b.items() if k == "name" or k in fields}
    return out


def oneField(kinds=("rings", "discrete", "dodeca", "equat", "healpix")):
    """Specs at the defaults of their class, and with each of the fields away from them, alone."""
    common = [dict(), dict(tractOverlap=2.25), dict(tractOverlap=0.0), dict(pixelScale=7.5), dict(rotation=12.0)]
    common += [dict(builder=dict(name="legacy", **b)) for b in (dict(inner=[3000, 5000]), dict(inner=[4000, 3500]), dict(border=0),
                                                               dict(border=37))]
    common += [dict(builder=dict(name="cells", **b)) for b in (dict(), dict(cell=100), dict(cellBorder=0), dict(perPatch=7),
                                                              dict(inBorder=0))]
    own = dict(rings=[dict(numRings=5), dict(raStart=33.0), dict(projection="ZEA"), dict(version=0), dict(version=0, numRings=4)],
               discrete=[dict(projection="STG"), dict(version=2)], dodeca=[dict(withTractsOnPoles=True), dict(projection="TAN")],
               equat=[dict(numTracts=9), dict(decRange=[-3.0, 3.5]), dict(projection="MER"), dict(decRange=[-1.25, 2.0])],
               healpix=[dict(log2NSide=1), dict(nest=True), dict(projection="STG"), dict(version=3)])
    for kind in kinds:
        base = dict(kind=kind)
        if kind == "rings":
            base["numRings"] = 3
        elif kind == "discrete":
            base.update(raList=[10.0, 200.0], decList=[2.0, -50.0], radiusList=[0.5, 1.0])
        for change in common + own[kind]:
            yield dict(base, **change)


raStarts = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([90.0, 180.0, 270.0, 359.999, 234.0, 0.001]),
                     floats(0.0, 359.9999).map(lambda v: sig(v, 7)))
rotations = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([90.0, 180.0, 270.0, 45.0, -90.0, 450.0, -270.0]),
                      floats(-360.0, 720.0).map(lambda v: sig(v, 5)))


@st.composite
def rings(draw, nmin=2, nmax=14, big=(), rotation=st.just(0.0), version=st.just(1), maxPatches=8,
          maxOverlap=0.8, npix=None, kinds=("legacy", "legacy", "cells"), proj=PROJ):
    n = draw(st.one_of(st.integers(nmin, nmax), st.sampled_from(big)) if big else st.integers(nmin, nmax))
    r = 90.0/(n + 1)
    p = draw(st.sampled_from(proj))
    cap = min(maxOverlap*r, MAXHALF[p] - r)
    overlap = draw(st.one_of(st.just(0.0), floats(0.0, 0.05*r), floats(0.0, cap)).map(lambda v: sig(min(v, cap), 5)))
    np_ = draw(npix if npix is not None else pixels())
    size = 2*(r + overlap)
    return dict(kind="rings", numRings=n, raStart=draw(raStarts), tractOverlap=overlap,
                pixelScale=sig(size*3600/np_), projection=p, rotation=draw(rotation),
                builder=draw(builders(np_, maxPatches, kinds)), version=draw(version))


@st.composite
def discrete(draw, maxTracts=5, rotation=st.just(0.0), maxPatches=8, npix=None, minTracts=1, sameRadius=False,
             kinds=("legacy", "legacy", "cells"), proj=PROJ):
    n = draw(st.integers(minTracts, maxTracts))
    p = draw(st.sampled_from(proj))
    ras = [draw(st.one_of(st.sampled_from([0.0, 359.99, 180.0, 90.0, 360.0, -0.01]), floats(0.0, 359.9999), floats(0.0, 359.9999),
                          floats(-360.0, 720.0))) for _ in range(n)]
    decs = [draw(st.one_of(st.sampled_from([0.0, 89.9, -89.9, 90.0, -90.0, 45.0]), floats(-90.0, 90.0)))
            for _ in range(n)]
    base = draw(st.sampled_from([0.05, 0.5, 2.0, 10.0]))
    if sameRadius:
        radii = [sig(base*draw(floats(0.5, 2.0)), 4)]*n
    else:
        radii = [sig(base*draw(floats(0.2, 3.0)), 4) for _ in range(n)]
    overlap = draw(st.one_of(st.just(0.0), floats(0.0, base)).map(lambda v: sig(v, 4)))
    np_ = draw(npix if npix is not None else pixels(hi=20000))
    size = 2*(max(radii) + overlap)
    return dict(kind="discrete", raList=[sig(v, 8) for v in ras], decList=[sig(v, 8) for v in decs],
                radiusList=radii, tractOverlap=overlap, pixelScale=sig(size*3600/np_), projection=p,
                rotation=draw(rotation), builder=draw(builders(np_, maxPatches, kinds)))


@st.composite
def dodeca(draw, rotation=st.just(0.0), maxPatches=6, npix=None, minOverlap=0.0, proj=PROJ,
           kinds=("legacy", "legacy", "cells")):
    p = draw(st.sampled_from(proj))
    overlap = sig(draw(st.one_of(st.just(max(minOverlap, 3.5)), floats(minOverlap, minOverlap + 20.0))), 4)
    np_ = draw(npix if npix is not None else pixels(hi=10000))
    return dict(kind="dodeca", withTractsOnPoles=draw(st.booleans()), tractOverlap=overlap,
                pixelScale=sig((80.0 + overlap)*3600/np_), projection=p, rotation=draw(rotation),
                builder=draw(builders(np_, maxPatches, kinds)))


@st.composite
def equat(draw, rotation=st.just(0.0), maxPatches=6, npix=None, nmin=2, nmax=12,
          proj=("CEA", "CEA", "CAR", "MER"), kinds=("legacy", "legacy", "cells"), maxDec=60.0):
    p = draw(st.sampled_from(proj))
    if p == "TAN":
        nmin = max(nmin, 3)
    n = draw(st.integers(nmin, nmax))
    a = draw(st.one_of(st.just(-1.25), floats(-maxDec, maxDec)))
    b = draw(st.one_of(st.just(1.25), floats(-maxDec, maxDec)))
    a, b = sig(min(a, b), 5), sig(max(a, b), 5)
    if b - a < 0.1:
        b = sig(a + 0.5, 5)
    width = 360.0/n
    overlap = sig(draw(st.one_of(st.just(0.0), st.just(1.0), floats(0.0, 0.3*width))), 4)
    np_ = draw(npix if npix is not None else pixels(hi=10000))
    size = max(width + overlap, b - a + overlap)
    return dict(kind="equat", numTracts=n, decRange=[a, b], tractOverlap=overlap,
                pixelScale=sig(size*3600/np_), projection=p, rotation=draw(rotation),
                builder=draw(builders(np_, maxPatches, kinds)))


@st.composite
def healpix(draw, rotation=st.one_of(st.just(45.0), st.just(45.0), st.just(0.0)), maxPatches=6, npix=None,
            lmin=0, lmax=3, proj=("TAN", "STG", "ZEA"), kinds=("legacy", "legacy", "cells")):
    lg = draw(st.integers(lmin, lmax))
    p = draw(st.sampled_from(proj))
    size = 60.0/(1 << lg)
    overlap = sig(draw(st.one_of(st.just(0.0), st.just(min(1.0, size)), floats(0.0, 0.2*size))), 4)
    np_ = draw(npix if npix is not None else pixels(hi=10000))
    return dict(kind="healpix", log2NSide=lg, nest=draw(st.booleans()), tractOverlap=overlap,
                pixelScale=sig((1.5*size + overlap)*3600/np_), projection=p, rotation=draw(rotation),
                builder=draw(builders(np_, maxPatches, kinds)))


@st.composite
def anyMap(draw, kinds=("rings", "rings", "discrete", "discrete", "dodeca", "equat", "healpix"), **kw):
    kind = draw(st.sampled_from(kinds))
    return draw(dict(rings=rings, discrete=discrete, dodeca=dodeca, equat=equat, healpix=healpix)[kind](**kw))


# -- coordinates (radians)
lons = st.one_of(floats(0.0, 2*math.pi), st.sampled_from([0.0, 1e-12, 2*math.pi - 1e-12, math.pi, 0.5*math.pi,
                                                          1.5*math.pi]))
lats = st.one_of(floats(-1.0, 1.0).map(math.asin),
                 st.sampled_from([0.0, 0.5*math.pi, -0.5*math.pi, 0.5*math.pi - 1e-9, -0.5*math.pi + 1e-9,
                                  1e-12, 1.5, -1.5]))
tiny = st.one_of(st.sampled_from([1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3]), floats(-0.01, 0.01))


@st.composite
def skyPoint(draw):
    return [draw(lons), draw(lats)]


def ringSize(n):
    return math.pi/(n + 1)


def ringCounts(n):
    """Tracts in each ring, from the documented rule."""
    s = ringSize(n)
    out = []
    for i in range(n):
        start = s*(i + 0.5) - 0.5*math.pi
        dec = min(abs(start), abs(start + s))
        out.append(int(2*math.pi*math.cos(dec)/s) + 1)
    return out


@st.composite
def ringPoint(draw, spec):
    """A point of the sky aimed at the structure of a rings map: edges, corners, centres, poles, wraps."""
    n = spec["numRings"]
    s = ringSize(n)
    mode = draw(st.sampled_from(["any", "decEdge", "raEdge", "corner", "centre", "pole", "raStart", "inside"]))
    if mode == "any":
        return draw(skyPoint())
    if mode == "pole":
        sign = draw(st.sampled_from([-1, 1]))
        d = draw(st.one_of(st.just(0.0), floats(0.0, s)))
        return [draw(lons), sign*(0.5*math.pi - d)]
    ring = draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, (n - 1)//2])))
    lo = -0.5*math.pi + s*(ring + 0.5)
    count = ringCounts(n)[ring]
    width = 2*math.pi/count
    t = draw(st.one_of(st.integers(0, count - 1), st.sampled_from([0, count - 1])))
    centre = math.radians(spec.get("raStart", 0.0)) + t*width
    e1 = draw(tiny)*s
    e2 = draw(tiny)*width
    if mode == "decEdge":
        lon, lat = draw(lons), lo + draw(st.sampled_from([0, 1]))*s + e1
    elif mode == "raEdge":
        lon, lat = centre + draw(st.sampled_from([-0.5, 0.5]))*width + e2, lo + s*draw(frac())
    elif mode == "corner":
        lon = centre + draw(st.sampled_from([-0.5, 0.5]))*width + e2
        lat = lo + draw(st.sampled_from([0, 1]))*s + e1
    elif mode == "centre":
        lon, lat = centre + e2, lo + 0.5*s + e1
    elif mode == "raStart":
        lon, lat = math.radians(spec.get("raStart", 0.0)) + e2, lo + s*draw(frac())
    else:
        lon = centre + width*draw(floats(-0.5, 0.5))
        lat = lo + s*draw(frac())
    lat = max(-0.5*math.pi, min(0.5*math.pi, lat))
    lon = math.fmod(lon, 2*math.pi)
    return [lon + 2*math.pi if lon < 0 else lon, lat]


# A position inside or around a tract, in units resolved when the tract is known:
# pixel = patch edge (i of n) or fraction of the tract, plus an offset in pixels.
@st.composite
def pixelSpot(draw):
    def axis():
        kind = draw(st.sampled_from(["frac", "frac", "edge", "edge", "tract", "out"]))
        off = draw(st.one_of(st.sampled_from([0.0, -0.5, 0.5, -0.4, 0.4, -0.6, 0.6, 1.0, -1.0]), floats(-3.0, 3.0)))
        if kind == "frac":
            return ["f", draw(floats(0.0, 1.0)), 0.0]
        if kind == "edge":
            return ["e", draw(st.integers(0, 12)), off]
        if kind == "tract":
            return ["t", draw(st.integers(0, 1)), off]
        return ["f", draw(floats(-1.5, 2.5)), off]
    return [axis(), axis()]


def resolveSpot(spot, tractDims, patchDims):
    """Pixel position (x, y) in the frame where the tract's lower left pixel is 0, 0."""
    out = []
    for (kind, v, off), dim, inner in zip(spot, tractDims, patchDims):
        if kind == "f":
            out.append(v*dim - 0.5 + off)
        elif kind == "e":
            out.append((v % (dim//inner + 1))*inner - 0.5 + off)
        else:
            out.append(v*dim - 0.5 + off)
    return out
