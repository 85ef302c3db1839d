import copy
import pickle
import struct

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import summary

from lsst.pex.config import ListField
from lsst.skymap.baseSkyMap import BaseSkyMap, BaseSkyMapConfig
from lsst.skymap.tractInfo import ExplicitTractInfo
from lsst.skymap.cachingSkyMap import CachingSkyMap
from lsst.skymap.detail import WcsFactory

ID = "C40"
TITLE = "A map makes its tracts on request, each once; a map class of one's own works"
RULE = ("A map class defined here by the documented contract (generateTract, or a list of tracts), or rings, discrete and "
        "HEALPix maps whose generateTract is counted and fails at chosen times, and 3 to 14 calls on it and its copies: "
        "each makes exactly the tracts it needs and has not got, hands out one object for each, passes on the error of a "
        "failure and works afterwards; searches agree with the centres. Non-trivial: a tract asked for again, or a failure.")
QUICK, THOROUGH = 2500, 80000

LOG = []        # (map, index, tract or None) for each call of generateTract
FAIL = {}       # index: how often to fail still


class Disk(Exception):
    """The fault put in."""


class Stop(BaseException):
    """Another, which is no Exception, like an interrupt."""


ERRORS = dict(Disk=Disk, Stop=Stop, LookupError=LookupError, RuntimeError=RuntimeError, IndexError=IndexError,
              AttributeError=AttributeError)
ERROR = ["Disk"]
RAISED = []


def makeTract(m, index, make):
    if FAIL.get(index, 0) > 0:
        FAIL[index] -= 1
        LOG.append((m, index, None))
        RAISED.append(ERRORS[ERROR[0]]("tract %d cannot be made" % index))
        raise RAISED[-1]
    tract = make(index)
    LOG.append((m, index, tract))
    return tract


class OwnConfig(BaseSkyMapConfig):
    centres = ListField(dtype=float, doc="RA and dec of each tract, one after another", default=[])
    radii = ListField(dtype=float, doc="radius of each tract", default=[])


def ownTract(config, index):
    centre = maps.skyDeg(config.centres[2*index], config.centres[2*index + 1])
    scale = maps.geom.Angle(config.pixelScale, maps.geom.arcseconds)
    wcs = WcsFactory(scale, config.projection).makeWcs(maps.geom.Point2D(0, 0), centre)
    return ExplicitTractInfo(index, config.tractBuilder.apply(), centre, config.radii[index]*maps.geom.degrees,
                             config.tractOverlap*maps.geom.degrees, wcs)


class Own(CachingSkyMap):
    """Follows the notes in CachingSkyMap's documentation."""
    ConfigClass = OwnConfig

    def __init__(self, config=None, version=0):
        self.given = version
        config = config if config is not None else OwnConfig()
        super().__init__(len(config.radii), config, version)

    def generateTract(self, index):
        return makeTract(self, index, lambda i: ownTract(self.config, i))

    def updateSha1(self, sha1):
        sha1.update(struct.pack("<%dd" % len(self.config.centres), *self.config.centres))


class Eager(BaseSkyMap):
    """Follows the notes in BaseSkyMap's documentation."""
    ConfigClass = OwnConfig

    def __init__(self, config=None, version=0):
        self.given = version
        super().__init__(config)
        for i in range(len(self.config.radii)):
            self._tractInfoList.append(ownTract(self.config, i))

    def __getstate__(self):
        return dict(version=self.given, config=self.config)

    def __setstate__(self, state):
        self.__init__(state["config"], state["version"])

    def updateSha1(self, sha1):
        sha1.update(struct.pack("<%dd" % len(self.config.centres), *self.config.centres))


class Counted:
    def generateTract(self, index):
        return makeTract(self, index, super().generateTract)


class CountedRings(Counted, maps.RingsSkyMap):
    pass


class CountedDiscrete(Counted, maps.DiscreteSkyMap):
    pass


class CountedHealpix(Counted, maps.HealpixSkyMap):
    pass


COUNTED = dict(rings=CountedRings, discrete=CountedDiscrete, healpix=CountedHealpix)


OPS = ["get", "get", "get", "get", "bad", "findAllTracts", "iterate", "iterate", "two", "len", "sha", "copy", "findTract", "findTract",
       "findTractIdArray", "patches", "closest", "log", "equal"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["own", "own", "own", "eager", "rings", "rings", "discrete", "healpix"]))
    case = dict(kind=kind, version=draw(st.sampled_from([None, 0, 1, 1])))
    if kind in COUNTED:
        kw = dict(npix=gen.pixels(hi=2000), maxPatches=4)
        if kind == "rings":
            kw["version"] = st.sampled_from([0, 1, 1])
            spec = draw(gen.rings(**kw))
            case["version"] = spec["version"]
            if draw(st.integers(0, 2)) == 0:
                spec["numRings"] = draw(st.integers(30, 200))
        else:
            spec = draw(getattr(gen, kind)(**kw))
        case["spec"] = spec
    else:
        n = draw(st.integers(1, 8))
        np_ = draw(gen.pixels(hi=2000))
        case["centres"] = [[gen.sig(draw(gen.floats(0, 359.99)), 8), gen.sig(draw(gen.floats(-90, 90)), 8)] for _ in range(n)]
        if draw(st.integers(0, 3)) == 0:
            case["centres"][-1] = case["centres"][0]
        case["radii"] = [gen.sig(draw(gen.floats(0.01, 2)), 3) for _ in range(n)]
        case["base"] = dict(pixelScale=gen.sig(6*3600/np_), tractOverlap=draw(st.sampled_from([0.0, 0.1])),
                            projection=draw(st.sampled_from(gen.PROJ)), builder=draw(gen.builders(np_, 4)))
    case["error"] = draw(st.sampled_from(sorted(ERRORS)))
    case["fail"] = draw(st.lists(st.tuples(gen.frac(), st.integers(1, 2)).map(list), max_size=2))
    call = st.fixed_dictionaries(dict(op=st.sampled_from(OPS), m=st.integers(0, 3), i=gen.frac(), k=st.integers(0, 6),
                                      bad=st.sampled_from([-1, -2, 0, 1, 7, 100000]), how=st.integers(0, 2),
                                      points=st.lists(gen.skyPoint(), min_size=1, max_size=3), at=gen.frac()))
    case["calls"] = draw(st.lists(call, min_size=3, max_size=14))
    return case


strategy = cases


def makeMap(case):
    if case["kind"] in COUNTED:
        cls, config = COUNTED[case["kind"]], maps.makeConfig(case["spec"])
    else:
        cls = Own if case["kind"] == "own" else Eager
        config = OwnConfig()
        b = maps.makeConfig(dict(kind="discrete", **case["base"]))
        config.tractBuilder = b.tractBuilder.name
        for name in ("legacy", "cells"):
            for field in b.tractBuilder[name].toDict():
                setattr(config.tractBuilder[name], field, getattr(b.tractBuilder[name], field))
        for name in ("pixelScale", "tractOverlap", "projection"):
            setattr(config, name, case["base"][name])
        config.centres = [v for c in case["centres"] for v in c]
        config.radii = case["radii"]
    return cls(config) if case["version"] is None else cls(config, version=case["version"])


class World:
    """The maps under test, and which of their tracts they must have."""

    def __init__(self, case):
        self.case = case
        self.maps = []
        self.have = []
        self.again = 0
        self.failures = 0

    def add(self, m):
        self.maps.append(m)
        self.have.append({})

    def calling(self, k, call, what, may=None):
        """Make a call on map k, and take in what it made.  Returns its answer, or None with True if it failed."""
        del LOG[:], RAISED[:]
        failed, out = False, None
        try:
            out = call()
        except (Exception, Stop) as e:
            if not RAISED:
                raise
            check(e is RAISED[-1] or e.__cause__ is RAISED[-1] or e.__context__ is RAISED[-1],
                  "%s: making a tract failed with %r, and the caller gets %r", what, RAISED[-1], e)
            check(type(e) is type(RAISED[-1]), "%s: making a tract failed with %r, and the caller gets %r", what, RAISED[-1], e)
            failed = True
            self.failures += 1
        check(failed or not RAISED, "%s: making tract failed with %r, and the caller is not told", what, RAISED)
        m, have = self.maps[k], self.have[k]
        made = []
        for who, i, tract in LOG:
            check(who is m, "%s makes a tract of another map", what)
            check(i not in have, "%s makes tract %d again", what, i)
            check(may is None or i in may, "%s makes tract %d; it may make %s", what, i, may)
            if tract is not None:
                have[i] = tract
                made.append(i)
        return out, failed, made

    def ask(self, k, i, what):
        m = self.maps[k]
        if i in self.have[k] or self.case["kind"] == "eager":
            self.again += 1
        out, failed, made = self.calling(k, lambda: m[i], what, {i})
        if failed:
            return None
        check(out.getId() == i, "%s gives tract %s", what, out.getId())
        self.keep(k, i, out, what)
        return out

    def keep(self, k, i, tract, what):
        """A tract was handed out: it must be the one object."""
        if self.case["kind"] == "eager":
            self.have[k].setdefault(i, tract)
        check(i in self.have[k], "%s gives tract %d, which generateTract did not make", what, i)
        check(self.have[k][i] is tract, "%s gives another object for tract %d than before", what, i)


def nearest(m, p):
    """Distances of the centres of an own or discrete map from a position."""
    if isinstance(m, maps.DiscreteSkyMap):
        at = zip(m.config.raList, m.config.decList)
    else:
        at = zip(m.config.centres[::2], m.config.centres[1::2])
    return [maps.angsep(maps.xyz(p), maps.xyz(maps.skyDeg(*c))) for c in at]


def position(m, call, j):
    """One of the call's positions, some of them near a tract of an own map."""
    lon, lat = call["points"][j]
    if hasattr(m.config, "radii") and j % 2:
        c = m.config.centres
        n = min(len(c)//2 - 1, int(call["at"]*(len(c)//2)))
        return maps.skyDeg(c[2*n], c[2*n + 1])
    return maps.sky(lon, lat)


def step(w, c):
    k = c["m"] % len(w.maps)
    m, have, n = w.maps[k], w.have[k], len(w.maps[k])
    i = min(n - 1, int(c["i"]*n))
    op, kind = c["op"], w.case["kind"]
    search = kind in ("rings", "healpix")
    if op == "get":
        w.ask(k, i, "map[%d]" % i)
    elif op == "bad":
        i = n + c["bad"] if c["bad"] >= 0 else c["bad"]
        if kind == "eager" and i < 0:
            return
        try:
            out, failed, made = w.calling(k, lambda: m[i], "map[%d] of %d" % (i, n), set())
        except IndexError:
            return
        check(False, "map[%d] of %d tracts gives %s", i, n, out)
    elif op in ("iterate", "two"):
        its = [iter(m)] if op == "iterate" else [iter(m), iter(m)]
        at = [0, 0]
        for j in range(c["k"]*len(its) + 1):
            side = j % len(its)
            if at[side] >= n:
                break
            out, failed, made = w.calling(k, lambda: next(its[side]), "the next of an iteration at %d" % at[side], {at[side]})
            if failed:
                return
            check(out.getId() == at[side], "an iteration gives tract %s in place %d", out.getId(), at[side])
            w.keep(k, at[side], out, "an iteration")
            at[side] += 1
        for side, it in enumerate(its):
            if at[side] == n:
                out, failed, made = w.calling(k, lambda: next(it, None), "the end of an iteration", set())
                check(out is None, "an iteration gives %s after the last tract", out)
    elif op == "len":
        out, failed, made = w.calling(k, lambda: len(m), "len(map)", set())
        want = len(w.case["radii"]) if kind in ("own", "eager") else n
        check(out == want, "len(map) is %s for %s tracts", out, want)
    elif op == "sha":
        out, failed, made = w.calling(k, m.getSha1, "getSha1()", set())
        check(out == w.maps[0].getSha1(), "getSha1() differs between copies")
        w.calling(k, lambda: hash(m), "hash(map)", set())
    elif op == "equal":
        out, failed, made = w.calling(k, lambda: [m == x and not m != x for x in w.maps], "map == map", set())
        check(all(out), "copies of a map are not equal: %s", out)
        if kind in COUNTED:  # another class is another map
            base = maps.build(w.case["spec"])
            out, failed, made = w.calling(k, lambda: (m == base, base == m, not m != base), "map == map", set())
            check(not any(out), "a map of a class of one's own is equal to one of the class it derives from: %s", out)
    elif op == "copy":
        if len(w.maps) > 3:
            return
        how = [lambda: pickle.loads(pickle.dumps(m)), lambda: copy.copy(m), lambda: copy.deepcopy(m)][c["how"]]
        del LOG[:]
        other = how()
        check(not LOG, "copying a map makes its tracts %s", [x[1] for x in LOG])
        check(type(other) is type(m) and len(other) == n, "a copy is a %s of %d tracts", type(other).__name__, len(other))
        if kind in ("own", "eager"):
            check(other.given == m.given, "a copy of a map of version %s is made with version %s", m.given, other.given)
        w.add(other)
        w.calling(len(w.maps) - 1, lambda: len(other), "len(copy)", set())
    elif op == "findTract":
        p = position(m, c, len(c["points"]) - 1)
        out, failed, made = w.calling(k, lambda: m.findTract(p), "findTract")
        if failed:
            return
        check(not search or set(made) <= {out.getId()}, "findTract gives tract %s and makes tracts %s", out.getId(), made)
        w.keep(k, out.getId(), out, "findTract")
        if not search:
            seps = nearest(m, p)
            check(seps[out.getId()] <= min(seps) + 1e-9, "findTract(%s) gives tract %d, %r away; the nearest is %r", p,
                  out.getId(), seps[out.getId()], min(seps))
    elif op == "findTractIdArray":
        pts = [position(m, c, j) for j in range(len(c["points"]))]
        lon, lat = zip(*map(maps.lonlat, pts))
        ids, failed, made = w.calling(k, lambda: m.findTractIdArray(list(lon), list(lat)), "findTractIdArray")
        if failed:
            return
        check(not search or set(made) <= set(map(int, ids)), "findTractIdArray gives %s and makes tracts %s", ids, made)
        if not search:
            for p, t in zip(pts, ids):
                seps = nearest(m, p)
                check(seps[t] <= min(seps) + 1e-9, "findTractIdArray gives tract %d, %r from %s; the nearest is %r away", t,
                      seps[t], p, min(seps))
    elif op == "findAllTracts":
        if kind != "rings":
            return
        out, failed, made = w.calling(k, lambda: m.findAllTracts(position(m, c, 0)), "findAllTracts")
        if failed:
            return
        check(len(made) <= 60 or n < 200, "findAllTracts, which looks at the neighbours, makes %d of %d tracts", len(made), n)
        for t in out:
            w.keep(k, t.getId(), t, "findAllTracts")
    elif op in ("patches", "closest", "log"):
        if n > 60 and op != "closest":
            return
        pts = [position(m, c, j) for j in range(len(c["points"]))]
        if op == "log":
            lines = []

            class Log:
                def info(self, text, *args):
                    lines.append(text % args if args else text)
            out, failed, made = w.calling(k, lambda: m.logSkyMapInfo(Log()), "logSkyMapInfo")
            return
        find = m.findTractPatchList if op == "patches" else m.findClosestTractPatchList
        out, failed, made = w.calling(k, lambda: find(pts), find.__name__)
        if failed:
            return
        if search and op == "closest":
            bound = {t for p in pts for t in [m.findTract(p).getId()]}
            check(set(made) <= bound, "findClosestTractPatchList makes tracts %s for positions of %s", made, bound)
        for t, patches in out:
            w.keep(k, t.getId(), t, find.__name__)
        if kind in ("own", "eager"):
            ids = {t.getId() for t, _ in out}
            if op == "patches":
                want = {t for t in range(n) if len(m[t].findPatchList(pts))}
                check(ids == want, "findTractPatchList lists tracts %s; those with patches there are %s", ids, want)


def run(case):
    FAIL.clear()
    ERROR[0] = case["error"]
    del LOG[:], RAISED[:]
    w = World(case)
    m = makeMap(case)
    check(not LOG, "making a map makes its tracts %s", [x[1] for x in LOG])
    w.add(m)
    n = len(m)
    if case["kind"] != "eager":
        for f, times in case["fail"]:
            FAIL[min(n - 1, int(f*n))] = times
    for c in case["calls"]:
        step(w, c)
    # whatever failed, every tract can be had in the end, and is that of a new map
    FAIL.clear()
    fresh = makeMap(case)
    for k in range(len(w.maps)):
        some = sorted(set(w.have[k]) | {0, n - 1, n//2} | {min(n - 1, int(f*n)) for f, _ in case["fail"]})[:12]
        for i in some:
            t = w.ask(k, i, "map[%d] after the calls" % i)
            check(summary.tract(t) == summary.tract(fresh[i]), "tract %d of a map that was asked %s is %s; a new map's is %s",
                  i, [c["op"] for c in case["calls"]], summary.tract(t), summary.tract(fresh[i]))
    return Outcome(bool(w.again or w.failures), ["kind=" + case["kind"], "failures: %d" % min(3, w.failures)])
