"""How much tract overlap a map needs so that each tract's pixels hold its own share of the sky."""
import functools
import math

from vlib import maps
from vlib.gen import ringCounts, ringSize


def radial(proj, a):
    """Distance from the reference point, in radians of projection plane, of a point at angle a."""
    if proj == "TAN":
        return math.tan(a)
    if proj == "SIN":
        return math.sin(a)
    if proj == "STG":
        return 2*math.tan(0.5*a)
    if proj == "ZEA":
        return 2*math.sin(0.5*a)
    if proj == "ARC":
        return a
    raise ValueError(proj)


def inverse(proj, r):
    if proj == "TAN":
        return math.atan(r)
    if proj == "SIN":
        return math.asin(r) if r < 1 else math.inf
    if proj == "STG":
        return 2*math.atan(0.5*r)
    if proj == "ZEA":
        return 2*math.asin(0.5*r) if r < 2 else math.inf
    return r


def plane(proj, lon0, lat0, lon, lat):
    """(x east, y north) of a position in the projection plane of a tract centred on lon0, lat0."""
    d = lon - lon0
    x = math.cos(lat)*math.sin(d)
    y = math.cos(lat0)*math.sin(lat) - math.sin(lat0)*math.cos(lat)*math.cos(d)
    z = math.sin(lat0)*math.sin(lat) + math.cos(lat0)*math.cos(lat)*math.cos(d)
    h = math.hypot(x, y)
    a = math.atan2(h, z)
    r = radial(proj, a)
    return (0.0, 0.0) if h == 0 else (r*x/h, r*y/h)


@functools.lru_cache(None)
def ringsOverlap(n, proj):
    """Overlap (degrees) from which every position lies inside the tract that owns it."""
    s = ringSize(n)
    counts = ringCounts(n)
    worst = 0.0
    steps = 24
    for ring in range((n + 1)//2):  # the layout is symmetric about the equator
        lat0 = s*(ring + 1) - 0.5*math.pi
        half = math.pi/counts[ring]
        edge = [(half, lat0 - 0.5*s + s*k/steps) for k in range(steps + 1)]
        edge += [(half*k/steps, lat0 + e*0.5*s) for k in range(steps + 1) for e in (-1, 1)]
        edge.append((half, 0.0) if abs(lat0) < 0.5*s else (half, lat0))
        for lon, lat in edge:
            x, y = plane(proj, 0.0, lat0, lon, lat)
            worst = max(worst, inverse(proj, max(abs(x), abs(y))))
    return math.degrees(max(0.0, worst - 0.5*s))


DEG = maps.DEG

# Degrees of overlap from which a dodecahedral face, whose edges bulge beyond the box of its vertices in
# every projection but TAN, lies inside its tract whatever the rotation.
DODECA = dict(TAN=0.0, STG=2.8, ARC=3.3, ZEA=3.8, SIN=5.6)


@functools.lru_cache(None)
def healpixOverlap(lg, nest, proj, rotation):
    """Overlap (degrees) from which a HEALPixel's curved edges lie inside the box of its vertices."""
    import hpgeom
    nside = 1 << lg
    worst = 0.0
    cr, sr = math.cos(math.radians(rotation)), math.sin(math.radians(rotation))
    for i in range(12*nside*nside):
        th, ph = hpgeom.pixel_to_angle(nside, i, nest=nest, lonlat=False)
        lat0, lon0 = th - 0.5*math.pi, ph
        bt, bp = hpgeom.boundaries(nside, i, step=16, nest=nest, lonlat=False)
        pts = []
        for t, p in zip(bt, bp):
            x, y = plane(proj, lon0, lat0, float(p), float(t) - 0.5*math.pi)
            pts.append((x*cr - y*sr, x*sr + y*cr))
        corners = pts[::16]
        for k in (0, 1):
            lo, hi = min(c[k] for c in corners), max(c[k] for c in corners)
            worst = max(worst, max(q[k] for q in pts) - hi, lo - min(q[k] for q in pts))
    # half the overlap is added all round the vertices; 0.9 covers the projection's change of scale there
    # and the finite number of directions.
    return math.degrees(2*worst/(0.9 if lg else 0.7)) if worst > 1e-6 else 0.0
