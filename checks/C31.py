import copy
import io
import warnings

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check

ID = "C31"
TITLE = "A configuration means the same map however it arrives, and is fixed once used"
RULE = ("A map of any kind and its configuration passed to the class, to the registry entry, through a registry field, "
        "saved as text and loaded, and copied; with the old patchInnerDimensions and patchBorder names; then changes "
        "tried on the used configuration, and invalid configurations. All give the same map; a used configuration "
        "refuses every change; invalid values are refused. Non-trivial: one field or more away from the defaults.")
QUICK, THOROUGH = 1200, 60000

VALUES = dict(tractOverlap=2.25, pixelScale=7.5, projection="ZEA", rotation=12.0, numRings=5, raStart=33.0,
              raList=[1.0], decList=[2.0], radiusList=[3.0], withTractsOnPoles=True, numTracts=9, decRange=[-3.0, 3.5],
              log2NSide=1, nest=True)


@st.composite
def cases(draw):
    spec = draw(gen.anyMap(npix=gen.pixels(hi=3000), rotation=gen.rotations))
    bad = draw(st.sampled_from([None, None, "lists", "cells", "numRings", "raStart", "decRange", "projection", "version",
                                "builder"]))
    return dict(spec=spec, alias=draw(st.booleans()), way=draw(st.permutations(["registry", "field", "text", "copy"])),
                change=draw(st.lists(gen.frac(), min_size=1, max_size=4)), bad=bad, k=draw(st.integers(0, 3)), lengths=draw(st.lists(st.integers(0, 3), min_size=3, max_size=3)),
                tract=draw(gen.frac()))


strategy = cases


def aliased(spec):
    """The same configuration through the old names."""
    plain = {k: v for k, v in spec.items() if k != "builder"}
    config = maps.makeConfig(plain)
    b = spec["builder"]
    config.patchInnerDimensions = list(b["inner"])
    config.patchBorder = b["border"]
    return config


def make(spec, config):
    cls = maps.CLASSES[spec["kind"]]
    return cls(config, version=spec["version"]) if spec.get("version") is not None else cls(config)


def summary(t):
    return (t.getId(), maps.boxTuple(t.getBBox()), tuple(t.getNumPatches()), tuple(t.getPatchInnerDimensions()),
            t.getPatchBorder(), maps.lonlat(t.getCtrCoord()),
            repr(maps.lonlat(t.getWcs().pixelToSky(maps.geom.Point2D(3, 5)))))


def refused(what, fn):
    try:
        fn()
    except (ValueError, RuntimeError, AssertionError):
        # pex_config raises its own ValueError
        return
    check(False, "%s was taken", what)


def run(case):
    warnings.simplefilter("ignore")
    spec = case["spec"]
    kind = spec["kind"]
    cls = maps.CLASSES[kind]
    config = maps.makeConfig(spec)
    a = make(spec, config)
    k = min(len(a) - 1, int(case["tract"]*len(a)))
    want = summary(a[k])
    for name, v in VALUES.items():
        if name in spec:
            check(getattr(a.config, name) == spec[name], "the map's configuration has %s=%r; given %r", name,
                  getattr(a.config, name), spec[name])
    check(a.config.tractBuilder.name == spec["builder"]["name"], "the map's tract builder is %r; given %r",
          a.config.tractBuilder.name, spec["builder"]["name"])
    version1 = spec.get("version") in (None, 1) or kind != "rings"
    bare = cls() if kind in ("dodeca", "equat") else None
    if bare is not None:
        check(bare == cls(cls.ConfigClass()) and len(bare) == len(cls(cls.ConfigClass())),
              "a %s map made with no configuration is not that of its defaults", kind)
    others = []
    for way in case["way"]:
        c = maps.makeConfig(spec)
        if way == "registry":
            entry = maps.skymap.skyMapRegistry[kind]
            check(entry.ConfigClass is cls.ConfigClass or issubclass(entry.ConfigClass, cls.ConfigClass),
                  "the registry's %s is configured by %s", kind, entry.ConfigClass)
            if not version1:
                continue
            b = entry(c)
        elif way == "field":
            if not version1:
                continue
            import lsst.pex.config as pexConfig

            class Holder(pexConfig.Config):
                skyMap = maps.skymap.skyMapRegistry.makeField(doc="sky map", default="dodeca")
            h = Holder()
            h.skyMap.name = kind
            target = h.skyMap.active
            source = io.StringIO()
            c.saveToStream(source)
            target.loadFromStream(source.getvalue())
            h.validate()
            b = h.skyMap.apply()
        elif way == "text":
            out = io.StringIO()
            (a.config if case["k"] % 2 else c).saveToStream(out)
            c2 = cls.ConfigClass()
            c2.loadFromStream(out.getvalue())
            c2.validate()
            check(c2 == a.config, "the configuration differs after it was saved and loaded")
            b = make(spec, c2)
        else:
            b = make(spec, copy.deepcopy(c))
        others.append((way, b))
    if case["alias"] and spec["builder"]["name"] == "legacy":
        c = aliased(spec)
        check(list(c.patchInnerDimensions) == list(spec["builder"]["inner"]) and c.patchBorder == spec["builder"]["border"],
              "the old names give %s, %s; set to %s, %s", c.patchInnerDimensions, c.patchBorder, spec["builder"]["inner"],
              spec["builder"]["border"])
        sub = c.tractBuilder["legacy"]
        check(list(sub.patchInnerDimensions) == list(spec["builder"]["inner"])
              and sub.patchBorder == spec["builder"]["border"], "the old names were set but the legacy builder has %s, %s",
              sub.patchInnerDimensions, sub.patchBorder)
        others.append(("the old names", make(spec, c)))
    if case["alias"] and spec["builder"]["name"] != "legacy":
        # with another builder the old names still mean the legacy builder's fields, and change nothing else
        c = maps.makeConfig(spec)
        sub = c.tractBuilder[spec["builder"]["name"]]
        before = sub.toDict()
        inner, border = [61 + case["k"], 67], 7 + case["k"]
        c.patchBorder = border
        c.patchInnerDimensions = inner
        check(list(c.patchInnerDimensions) == inner and c.patchBorder == border
              and list(c.tractBuilder["legacy"].patchInnerDimensions) == inner
              and c.tractBuilder["legacy"].patchBorder == border, "the old names were set to %s, %s with the %s builder "
              "chosen; they read %s, %s", inner, border, spec["builder"]["name"], c.patchInnerDimensions, c.patchBorder)
        check(c.tractBuilder.name == spec["builder"]["name"], "the old names chose the tract builder %r",
              c.tractBuilder.name)
        check(sub.toDict() == before, "setting the old names changed the %s builder's fields from %s to %s",
              spec["builder"]["name"], before, sub.toDict())
        b = make(spec, c)
        got = summary(b[k])
        check(b.getSha1() == a.getSha1() and got == want, "setting the old names with the %s builder chosen made another "
              "map: tract %d is %s, not %s", spec["builder"]["name"], k, got, want)
    for way, b in others:
        check(type(b) is cls, "by way of %s the map is a %s", way, type(b))
        check(b == a and b.getSha1() == a.getSha1() and len(b) == len(a), "the map made by way of %s differs", way)
        got = summary(b[k])
        check(got == want, "tract %d of the map made by way of %s is %s, not %s", k, way, got, want)

    # A configuration a map was made from cannot be changed.
    sha = a.getSha1()
    names = [n for n in VALUES if hasattr(a.config, n)] + ["patchBorder", "patchInnerDimensions", "sub", "name"]
    for f in case["change"]:
        n = names[min(len(names) - 1, int(f*len(names)))]
        for c in (config, a.config):
            if n == "sub":
                b = c.tractBuilder[spec["builder"]["name"]]
                field = "patchBorder" if spec["builder"]["name"] == "legacy" else "cellBorder"
                refused("a change of %s" % field, lambda: setattr(b, field, 91))
            elif n == "name":
                refused("a change of tract builder", lambda: setattr(c.tractBuilder, "name", "cells" if
                                                                     spec["builder"]["name"] == "legacy" else "legacy"))
            elif n == "patchBorder":
                refused("a change of patchBorder", lambda: setattr(c, n, 91))
            elif n == "patchInnerDimensions":
                refused("a change of patchInnerDimensions", lambda: setattr(c, n, [71, 73]))
            else:
                refused("a change of %s" % n, lambda: setattr(c, n, VALUES[n]))
    check(a.getSha1() == sha and a == make(spec, maps.makeConfig(spec)), "changes to its configuration changed the map")

    # Invalid configurations
    bad, j = case["bad"], case["k"]
    if bad == "lists":
        c = maps.DiscreteSkyMap.ConfigClass()
        c.raList, c.decList, c.radiusList = [[1.0, 2.0]]*3
        c.validate()
        lengths = case["lengths"]
        for name, n in zip(("raList", "decList", "radiusList"), lengths):
            setattr(c, name, [1.0, 2.0, 3.0][:n])
        if len(set(lengths)) > 1:
            refused("a discrete map with %d, %d and %d positions" % tuple(lengths), c.validate)
        else:
            c.validate()
    elif bad == "cells":
        c = maps.makeConfig(spec)
        c.tractBuilder = "cells"
        c.tractBuilder["cells"].cellInnerDimensions = [10 + j, 10 + j]
        c.validate()
        c.tractBuilder["cells"].cellInnerDimensions = [[10, 11], [11, 10], [10, 200], [1, 2]][j]
        refused("cells that are not square", c.validate)
        for dims in ([10], [10, 10, 10], []):
            refused("cells of %d dimensions" % len(dims), lambda: (setattr(c.tractBuilder["cells"], "cellInnerDimensions",
                                                                           dims), c.validate()))
        c.tractBuilder = "legacy"
        for dims in ([10], [10, 10, 10], []):
            refused("patches of %d dimensions" % len(dims), lambda: (setattr(c.tractBuilder["legacy"], "patchInnerDimensions",
                                                                             dims), c.validate()))
    elif bad == "numRings":
        c = maps.RingsSkyMap.ConfigClass()
        refused("numRings=%d" % -j, lambda: (setattr(c, "numRings", -j), c.validate()))
    elif bad == "raStart":
        c = maps.RingsSkyMap.ConfigClass()
        c.numRings = 3
        v = (-1e-9, 360.0, 361.0, -90.0)[j]
        refused("raStart=%r" % v, lambda: (setattr(c, "raStart", v), c.validate()))
    elif bad == "decRange":
        c = maps.EquatSkyMap.ConfigClass()
        refused("a decRange of %d values" % (j + (j >= 2)),
                lambda: (setattr(c, "decRange", [0.5]*(j + (j >= 2))), c.validate()))
    elif bad == "projection":
        c = maps.makeConfig(spec)
        c.projection = ("", "TA", "TANG", "TAN-SIP")[j]
        refused("projection %r" % c.projection, lambda: make(spec, c))
    elif bad == "version":
        c = maps.RingsSkyMap.ConfigClass()
        c.numRings = 3
        refused("rings version %d" % (j + 2), lambda: maps.RingsSkyMap(c, version=j + 2))
    elif bad == "builder":
        c = maps.makeConfig(spec)
        refused("an unknown tract builder", lambda: (setattr(c, "tractBuilder", "legacy%d" % j), c.validate()))
    return Outcome(True, ["kind=" + kind, "bad=%s" % bad, "builder=" + spec["builder"]["name"]])
