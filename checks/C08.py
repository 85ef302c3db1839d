import functools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import cover
from .ringmodel import RingModel

ID = "C08"
TITLE = "findAllTracts lists each tract that contains a position exactly once"
RULE = ("A rings map (1 to 24 rings, up to 120; both versions; both builders; five projections; overlaps from 0 up) "
        "and up to 8 positions aimed at the layout, against a search of every tract whose centre is near enough. "
        "Completeness is demanded when the tracts, as built, reach at most 0.57 ring heights from their centres, else of the "
        "tracts beside the position only. "
        "Non-trivial: some position lies in two tracts or more.")
QUICK, THOROUGH = 3000, 80000
LIMIT = 0.57


@st.composite
def cases(draw):
    spec = draw(gen.rings(nmin=1, nmax=24, big=(40, 79, 120), version=st.sampled_from([1, 1, 1, 0])))
    n = spec["numRings"]
    r = 90.0/(n + 1)
    if draw(st.integers(0, 3)):
        spec["tractOverlap"] = gen.sig(draw(gen.floats(0.0, 0.139*r)), 5)
        npx = draw(gen.pixels(lo=30))
        spec["pixelScale"] = gen.sig(2*(r + spec["tractOverlap"])*3600/npx)
        spec["builder"] = draw(gen.builders(npx, 60))
    return dict(spec=spec, points=draw(st.lists(gen.ringPoint(spec), min_size=1, max_size=8)),
                repeat=draw(st.booleans()))


strategy = cases


def reach(tract, proj, scale):
    """Angle from its centre to the farthest edge (not corner) of a tract."""
    x, y = tract.getWcs().skyToPixel(tract.getCtrCoord())
    box = tract.getBBox()
    d = max(x - box.getMinX() + 0.5, box.getMaxX() + 0.5 - x, y - box.getMinY() + 0.5, box.getMaxY() + 0.5 - y)
    return cover.inverse(proj, d*scale)


@functools.lru_cache(64)
def layout(n, raStart, version):
    """Ids and unit vectors of the tracts, in the order of the sky."""
    model = RingModel(dict(numRings=n, raStart=raStart, version=version))
    ids, vecs = [0, model.size - 1], [(0.0, 0.0, -1.0), (0.0, 0.0, 1.0)]
    for r in range(n):
        for t in range(model.counts[r]):
            lon, lat = model.centre(r, t)
            ids.append(model.index(r, t))
            vecs.append((math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)))
    return np.array(ids), np.array(vecs)


def beside(model, lon, lat):
    """Numbers of the tracts of the ring that a position is in, the rings to either side, and the caps, beside the position."""
    out = {0, model.size - 1}
    e = 1e-6
    for r in range(model.n):
        if abs(lat - (model.s*(r + 1) - 0.5*math.pi)) > (1.5 - e)*model.s:
            continue
        d = ((lon - model.raStart) % (2*math.pi))/(2*math.pi/model.counts[r])
        for t in range(int(d) - 2, int(d) + 4):
            if abs(t - d) < 1.5 - e:
                out.add(model.index(r, t % model.counts[r]))
    return out


def run(case):
    spec = case["spec"]
    m = maps.build(spec)
    model = RingModel(dict(spec, version=1))
    scale = math.radians(spec["pixelScale"]/3600)
    limit = reach(m[1], spec["projection"], scale)*1.001
    full = limit <= LIMIT*model.s or case.get("full", False)
    centres = None
    numbers = RingModel(spec)
    twins = {1, model.counts[0] + 1} if spec["version"] == 0 else set()
    nontrivial = False
    for lon, lat in case["points"]:
        p = maps.sky(lon, lat)
        got = m.findAllTracts(p)
        ids = [t.getId() for t in got]
        check(len(set(ids)) == len(ids), "findAllTracts(lon=%r, lat=%r) lists a tract twice: %s", lon, lat, ids)
        for t in got:
            check(t.contains(p), "findAllTracts(lon=%r, lat=%r) lists tract %s, which does not contain it", lon, lat,
                  t.getId())
            check(0 <= t.getId() < len(m) and m[t.getId()].getCtrCoord() == t.getCtrCoord(),
                  "findAllTracts(lon=%r, lat=%r) lists a tract %s that is not the map's", lon, lat, t.getId())
        nontrivial |= len(ids) > 1
        if case["repeat"]:
            again = [t.getId() for t in m.findAllTracts(p)]
            check(again == ids, "findAllTracts(lon=%r, lat=%r) gave %s, then %s", lon, lat, ids, again)
        if not full:
            # The tracts of the same ring and the next to either side, and their neighbours, are always looked at.
            ids = set(ids)
            for i in sorted(beside(numbers, lon, lat)):
                check(i in ids or not m[i].contains(p) or (i in twins and ids & twins), "findAllTracts(lon=%r, lat=%r) lists %s; "
                      "tract %d beside it contains it too", lon, lat, sorted(ids), i)
            continue
        if centres is None:
            centres = layout(spec["numRings"], spec["raStart"], spec["version"])
        v = maps.xyz(p)
        # corners of wide tracts are farther, in angle, than the square root of two
        cosLimit = math.cos(min(math.pi, 1.5*limit + 0.02*model.s)) if spec["numRings"] > 3 else -2.0
        near = centres[0][centres[1] @ v >= cosLimit]
        want = {int(i) for i in near if m[int(i)].contains(p)}
        if spec["version"] == 0:
            # tracts 1 and counts[0] + 1 are the same square of sky; either stands for both
            if want & twins and set(ids) & twins:
                want = (want - twins) | (set(ids) & twins)
        check(want == set(ids), "findAllTracts(lon=%r, lat=%r) lists %s; the tracts that contain it are %s", lon, lat,
              sorted(ids), sorted(want))
    return Outcome(nontrivial, ["complete" if full else "soundness only", "version=%s" % spec["version"]])
