import math

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import tracts

ID = "C16"
TITLE = "A tract's pixels have the configured scale and orientation, in its patches too"
RULE = ("A map of any kind, projection and rotation, one tract and one of its patches (and cells): at the reference "
        "position the pixel scale, the bearing of +y and the handedness are as configured (measured by projecting "
        "positions 1e-6 rad apart); the tract is centred on its centre; patches and cells carry the same WCS. "
        "Non-trivial: the reference position is not a pole.")
QUICK, THOROUGH = 5000, 120000
STEP = 1e-6


@st.composite
def cases(draw):
    case = draw(tracts.mapAndTracts())
    case["patch"] = draw(gen.frac())
    case["cell"] = draw(gen.frac())
    return case


strategy = cases


def bearing(a, b):
    """Bearing of b from a, from north through east, radians."""
    lon0, lat0 = maps.lonlat(a)
    lon, lat = maps.lonlat(b)
    d = lon - lon0
    return math.atan2(math.cos(lat)*math.sin(d),
                      math.cos(lat0)*math.sin(lat) - math.sin(lat0)*math.cos(lat)*math.cos(d))


def angleDiff(a, b):
    return abs(math.remainder(a - b, 2*math.pi))


def run(case):
    spec = case["spec"]
    m, ts = tracts.open_(case)
    scale = math.radians(spec["pixelScale"]/3600)
    nontrivial = False
    for t in ts:
        wcs = t.getWcs()
        ref = t.getCtrCoord()
        if spec["kind"] == "equat":
            ref = maps.sky(maps.lonlat(ref)[0], 0.0)
        x, y = wcs.skyToPixel(ref)
        check(math.isfinite(x) and math.isfinite(y), "the reference position %s of tract %s has no pixel", ref, t.getId())
        d = STEP/scale
        ends = []
        for dx, dy in ((d, 0), (0, d), (-d, 0), (0, -d)):
            p = wcs.pixelToSky(maps.geom.Point2D(x + dx, y + dy))
            sep = maps.angsep(maps.xyz(ref), maps.xyz(p))
            check(abs(sep/STEP - 1) < 1e-7, "tract %s: %g pixels along (%g, %g) from its centre are %r rad; the scale "
                  "of %r arcsec makes %r", t.getId(), d, dx/d, dy/d, sep, spec["pixelScale"], STEP)
            ends.append(p)
        if abs(maps.lonlat(ref)[1]) < math.radians(89.9999):
            nontrivial = True
            rot = math.radians(spec.get("rotation", 0.0))
            for p, want in zip(ends, (rot - 0.5*math.pi, rot, rot + 0.5*math.pi, rot + math.pi)):
                got = bearing(ref, p)
                check(angleDiff(got, want) < 1e-6, "tract %s: bearing of an axis is %r deg; rotation %r makes it %r",
                      t.getId(), math.degrees(got), spec.get("rotation"), math.degrees(want) % 360)
        else:
            v, ex, ey = maps.xyz(ref), maps.xyz(ends[0]), maps.xyz(ends[1])
            check(maps.dot(v, maps.cross(ex, ey)) < 0, "tract %s at a pole has its axes mirrored", t.getId())
        box = t.getBBox()
        cx, cy = wcs.skyToPixel(t.getCtrCoord())
        if spec["kind"] in ("rings", "discrete"):
            mx, my = 0.5*(box.getMinX() + box.getMaxX()), 0.5*(box.getMinY() + box.getMaxY())
            check(max(abs(cx - mx), abs(cy - my)) <= 1.0 + 1e-6, "tract %s: its centre is at pixel %r, %r, the middle "
                  "of its box at %r, %r", t.getId(), cx, cy, mx, my)
        else:
            check(t.contains(t.getCtrCoord()), "tract %s does not contain its own centre (pixel %r, %r of %s)",
                  t.getId(), cx, cy, box)
        n = len(t)
        p = t[min(n - 1, int(case["patch"]*n))]
        check(p.getWcs() == wcs, "patch %s of tract %s has a WCS of its own", p.getIndex(), t.getId())
        if len(p):
            c = p[min(len(p) - 1, int(case["cell"]*len(p)))]
            check(c.getWcs() == wcs, "cell %s of patch %s of tract %s has a WCS of its own", c.getIndex(), p.getIndex(),
                  t.getId())
    return Outcome(nontrivial, ["kind=" + spec["kind"], "projection=" + spec["projection"],
                                "rotated" if spec.get("rotation") else "upright"])
