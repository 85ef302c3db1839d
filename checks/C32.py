import logging
import math
import re

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C32"
TITLE = "logSkyMapInfo reports every tract with its true corners and patch counts"
RULE = ("A map of any kind: the report has the number of tracts, then one line a tract in order with its id, the RA and "
        "Dec (3 decimals) of the four corners of its pixels in turn, and its patches in x and y; all other calls give "
        "the same before and after. Also maps of 1200 to 3072 tracts. Non-trivial: tracts that are not square, or of different sizes.")
QUICK, THOROUGH = 800, 60000
NUM = re.compile(r"[-+]?(?:\d+\.\d+|\d+|nan)")


@st.composite
def cases(draw):
    spec = draw(gen.anyMap(npix=gen.pixels(hi=3000), rotation=gen.rotations))
    if draw(st.integers(0, 9)) == 0:  # patches without number
        spec["builder"] = dict(name="legacy", inner=draw(st.lists(st.integers(1, 2), min_size=2, max_size=2)), border=draw(st.integers(0, 3)))
    return dict(spec=spec, again=draw(st.booleans()))


strategy = cases


def exhaustive(tier):
    """Maps of many tracts: no line is missing anywhere."""
    for spec in (dict(kind="rings", numRings=32), dict(kind="healpix", log2NSide=4), dict(kind="equat", numTracts=1500),
                 dict(kind="discrete", raList=[0.3*k for k in range(1200)], decList=[-60 + 0.1*k for k in range(1200)],
                      radiusList=[0.05 + 0.0001*k for k in range(1200)])):
        yield dict(spec=spec, again=False)


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def report(m):
    log = logging.Logger("sky map")
    log.setLevel(logging.INFO)
    keep = Keep()
    log.addHandler(keep)
    m.logSkyMapInfo(log)
    return keep.lines


def run(case):
    m = maps.build(case["spec"])
    lines = report(m)
    if case["again"]:
        check(report(m) == lines, "two reports of one map differ")
    check(len(lines) == len(m) + 1, "%d lines for %d tracts", len(lines), len(m))
    check([int(v) for v in NUM.findall(lines[0])] == [len(m)], "the first line is %r for %d tracts", lines[0], len(m))
    sizes = set()
    for t, line in zip(m, lines[1:]):
        v = NUM.findall(line)
        nx, ny = t.getNumPatches()
        sizes.add((nx, ny))
        box = maps.boxTuple(t.getBBox())
        check(len(v) == 11, "the line of tract %s is %r", t.getId(), line)
        check(int(v[0]) == t.getId() and (int(v[9]), int(v[10])) == (nx, ny), "the line of tract %s with %d x %d patches is "
              "%r", t.getId(), nx, ny, line)
        x0, y0, x1, y1 = (c - 0.5 for c in box)
        for k, (x, y) in enumerate(((x0, y0), (x1, y0), (x1, y1), (x0, y1))):
            lon, lat = maps.lonlat(t.getWcs().pixelToSky(maps.geom.Point2D(x, y)))
            ra, dec = float(v[1 + 2*k]), float(v[2 + 2*k])
            if math.isnan(lon) or math.isnan(lat):
                check(math.isnan(ra) and math.isnan(dec), "corner %d of tract %s has no position; reported at %r, %r", k,
                      t.getId(), ra, dec)
                continue
            check(not math.isnan(ra + dec) and maps.angsep(maps.xyz(maps.skyDeg(ra, dec)), maps.xyz(maps.sky(lon, lat)))
                  < math.radians(0.00072), "corner %d of tract %s is at %r, %r deg; reported at %r, %r", k, t.getId(),
                  math.degrees(lon), math.degrees(lat), ra, dec)
    return Outcome(len(sizes) > 1 or any(a != b for a, b in sizes), ["kind=" + case["spec"]["kind"]])
