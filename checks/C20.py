import copy

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import shamodel

ID = "C20"
TITLE = "Two sky maps are equal, and hash alike, exactly when their geometry is the same"
RULE = ("A map of any kind and a second one: the same configuration built again, one field changed (by one part in 1e9, "
        "by one, an element, an order), two fields changed so that their sum or product stays, the unused tract builder's fields changed, or another map; ==, !=, hash, sets "
        "and the 20-byte hash must say whether the geometry fields are the same. Non-trivial: the two differ in one "
        "field.")
QUICK, THOROUGH = 4000, 100000


def mutate(draw, spec):
    out = copy.deepcopy(spec)
    kind = spec["kind"]
    own = dict(rings=["numRings", "raStart"], discrete=["lists", "swap", "drop", "order", "exchange", "sign"], dodeca=["withTractsOnPoles"],
               equat=["numTracts", "decRange", "mirror"], healpix=["log2NSide", "nest"])[kind]
    field = draw(st.sampled_from(["tractOverlap", "pixelScale", "projection", "rotation", "turn", "builder", "builder",
                                  "places", "trade", "trade", "buildername"] + own*2))
    step = draw(st.sampled_from([1e-9, 1e-6, 0.01]))
    if field in ("tractOverlap", "pixelScale"):
        out[field] = spec[field]*(1 + step) if spec[field] else step
    elif field == "rotation":
        out[field] = spec.get(field, 0.0) + step
    elif field == "projection":
        pool = [p for p in (["CEA", "CAR", "MER"] if kind == "equat" else gen.PROJ) if p != spec[field]]
        out[field] = draw(st.sampled_from(pool))
    elif field == "builder":
        b = out["builder"]
        k = draw(st.sampled_from([k for k in b if k != "name"]))
        if k == "inner":
            b[k][draw(st.integers(0, 1))] += 1
        else:
            b[k] += 1
    elif field == "buildername":
        if out["builder"]["name"] == "legacy":
            out["builder"] = dict(name="cells", cell=out["builder"]["inner"][0], perPatch=1, cellBorder=0, inBorder=0)
        else:
            n = out["builder"]["cell"]*out["builder"]["perPatch"]
            out["builder"] = dict(name="legacy", inner=[n, n], border=maps.patchBorder(out["builder"]))
    elif field in ("numRings", "numTracts", "log2NSide"):
        out[field] += 1
    elif field in ("nest", "withTractsOnPoles"):
        out[field] = not out[field]
    elif field == "raStart":
        out[field] = (spec[field] + step) % 359
    elif field == "decRange":
        k = draw(st.integers(0, 1))
        out[field][k] += step if k else -step
    elif field == "lists":
        name = draw(st.sampled_from(["raList", "decList", "radiusList"]))
        k = draw(st.integers(0, len(out[name]) - 1))
        v = out[name][k]
        out[name][k] = v*(1 - step) if v else step
    elif field == "swap":
        if len(out["raList"]) > 1:
            for name in ("raList", "decList", "radiusList"):
                out[name].reverse()
    elif field == "order":
        name = draw(st.sampled_from(["raList", "decList", "radiusList"]))
        out[name] = draw(st.permutations(out[name]))
    elif field == "exchange":
        a, b = draw(st.permutations(["raList", "decList", "radiusList"]))[:2]
        out[a], out[b] = out[b], out[a]
    elif field == "sign":
        k = draw(st.integers(0, len(out["decList"]) - 1))
        out["decList"][k] = 0.0 - out["decList"][k]
    elif field == "mirror":
        out["decRange"] = [0.0 - v for v in reversed(out["decRange"])]
    elif field == "turn":
        out["rotation"] = spec.get("rotation", 0.0) + draw(st.sampled_from([360.0, -360.0, 180.0, -180.0, 90.0]))
    elif field == "places":  # the same numbers in other places
        b = out["builder"]
        if b["name"] == "legacy":
            b["inner"].reverse()
        else:
            i, j = draw(st.permutations(["cellBorder", "perPatch", "inBorder", "cell"]))[:2]
            b[i], b[j] = max(1, b[j]), max(1, b[i])
    elif field == "trade":  # sums and products of two fields stay
        b = out["builder"]
        how = draw(st.integers(0, 3))
        if b["name"] == "legacy":
            k = draw(st.integers(1, 3))
            if how == 0:
                b["inner"] = [b["inner"][0] + k, max(1, b["inner"][1] - k)]
            elif how == 1:
                b["inner"], b["border"] = [b["inner"][0] + 2*k, b["inner"][1] + 2*k], max(0, b["border"] - k)
            else:
                out["tractOverlap"], out["pixelScale"] = out["pixelScale"], out["tractOverlap"] or 1.0
        elif how <= 1:
            if how == 0 and b["inBorder"]:
                b["inBorder"], b["cellBorder"] = b["inBorder"] - 1, b["cellBorder"] + b["cell"]
            else:
                b["inBorder"], b["cellBorder"] = b["inBorder"] + 1, max(0, b["cellBorder"] - b["cell"])
        elif how == 2:
            b["cell"], b["perPatch"] = b["cell"]*b["perPatch"], 1
        else:
            b["perPatch"], b["inBorder"] = b["perPatch"] + 2, max(0, b["inBorder"] - 1)
    elif field == "drop":
        for name in ("raList", "decList", "radiusList"):
            out[name].append(out[name][-1])
    return out


@st.composite
def cases(draw):
    spec = draw(gen.anyMap(npix=gen.pixels(hi=2000), rotation=gen.rotations))
    if spec["kind"] == "rings":
        spec["numRings"] = max(2, spec["numRings"])
    if draw(st.integers(0, 3)) == 0:
        spec = draw(gen.sparse(spec))
    how = draw(st.sampled_from(["same", "one field", "one field", "one field", "unused", "other", "subclass", "version"]))
    if how == "one field":
        other = mutate(draw, shamodel.full(spec))
    elif how == "other":
        other = draw(gen.anyMap(npix=gen.pixels(hi=2000), rotation=gen.rotations))
    else:
        other = copy.deepcopy(spec)
    if how == "version" and spec["kind"] == "rings":
        other["version"] = 0 if spec.get("version", 1) else 1
    return dict(a=spec, b=other, how=how, early=draw(st.booleans()))


strategy = cases


def build(spec, unused=False, subclass=False):
    if subclass:
        cls = maps.CLASSES[spec["kind"]]
        sub = type("Custom" + cls.__name__, (cls,), {})
        kw = dict(version=spec["version"]) if spec.get("version") is not None else {}
        return sub(maps.makeConfig(spec), **kw)
    if not unused:
        return maps.build(spec)
    config = maps.makeConfig(spec)
    if config.tractBuilder.name == "legacy":
        sub = config.tractBuilder["cells"]
        sub.cellBorder, sub.numCellsPerPatchInner = 7, 3
    else:
        sub = config.tractBuilder["legacy"]
        sub.patchInnerDimensions, sub.patchBorder = [11, 13], 5
    cls = maps.CLASSES[spec["kind"]]
    return cls(config, version=spec["version"]) if spec.get("version") is not None else cls(config)


def run(case):
    a = maps.build(case["a"])
    if case["early"]:
        a.getSha1()
        len(a) and a[0]
    b = build(case["b"], case["how"] == "unused", case["how"] == "subclass")
    same = shamodel.geometryKey(case["a"]) == shamodel.geometryKey(case["b"])
    same = same and case["how"] != "subclass"
    if case.get("version_matters"):  # known finding: the two numberings of one rings layout hash alike
        same = same and (case["a"].get("version") or 0) == (case["b"].get("version") or 0)
    check(len(a.getSha1()) == 20 and isinstance(a.getSha1(), bytes), "getSha1() is %r", a.getSha1())
    for x, y in ((a, b), (b, a)):
        check((x == y) is same, "maps with the %s geometry: == is %r", "same" if same else "different", x == y)
        check((x != y) is (not same), "maps with the %s geometry: != is %r", "same" if same else "different", x != y)
    check((a.getSha1() == b.getSha1()) is same, "maps with the %s geometry: equal SHA-1 is %r",
          "same" if same else "different", a.getSha1() == b.getSha1())
    if same:
        check(hash(a) == hash(b), "equal maps have hashes %r and %r", hash(a), hash(b))
    check(len({a, b}) == (1 if same else 2), "a set of the two has %d elements", len({a, b}))
    for x in (None, 3, "map", case["a"]["kind"], str(a), repr(a), a.getSha1(), a.config, hash(a), a.getSha1().hex()):
        check((a == x) is False and (a != x) is True, "== with %r is %r", x, a == x)
    return Outcome(not same and case["how"] == "one field", ["kind=" + case["a"]["kind"], case["how"],
                                                             "same" if same else "different"])


