from hypothesis import strategies as st

from vlib.harness import Outcome, check
from . import packing as P

ID = "C02"
TITLE = "The packer refuses what it cannot represent and derives its sizes as documented"
RULE = ("A packer made in any supported way plus one data ID with at least one coordinate outside its range "
        "(too large, negative, unknown band, band index beyond n_bands), or a set of dimensions that does not "
        "fit; the sizes and dimensions it reports are compared with the documented defaults. Non-trivial: a "
        "refusal was demanded.")
QUICK, THOROUGH = 6000, 200000

prepare = P.universe
DIMS = ["visit", "detector", "tract", "patch", "band", "physical_filter", "instrument", "skymap", "exposure",
        "day_obs", "group", "subfilter", "htm7", "healpix9"]


@st.composite
def cases(draw):
    if draw(st.integers(0, 5)) == 0:
        names = draw(st.one_of(
            st.sampled_from([["tract", "patch"], ["tract", "patch", "band"], ["patch"], ["tract"], ["tract", "band"]]),
            st.lists(st.sampled_from(DIMS), min_size=0, max_size=4, unique=True)))
        return dict(dims=sorted(names), n_bands=draw(st.one_of(st.none(), st.integers(1, 5))))
    case = draw(P.packerCases())
    n_tracts, n_patches, n_bands, bands = P.effective(case)
    if draw(st.integers(0, 25)) == 0:  # room for nothing at all
        case[draw(st.sampled_from(["n_tracts", "n_patches"]))] = 0
        return dict(packer=case, nothing=[[draw(st.integers(0, 20)), draw(st.integers(0, 20))] for _ in range(2)] + [[0, 0]])
    good = draw(P.goodId(case))
    bad = []
    for key, n in (("tract", n_tracts), ("patch", n_patches)):
        if draw(st.booleans()):
            bad.append([key, draw(st.one_of(st.just(n), st.just(n + 1), st.just(-1), st.integers(n, 3*n + 3),
                                            st.integers(-2*n, -1)))])
    if n_bands:
        over = sorted(b for b, i in bands.items() if b is not None and not 0 <= i < n_bands)
        options = [st.sampled_from(["zz9", "nope"])]
        if over:
            options.append(st.sampled_from(over))
        if not bad or draw(st.booleans()):
            bad.append(["band", draw(st.one_of(*options))])
    if not bad:
        bad.append(["tract", n_tracts])
    return dict(packer=case, good=good, bad=bad)


strategy = cases


def refused(packer, did, what):
    try:
        packed = packer.pack(did)
    except ValueError:
        return
    check(False, "packed %s, which is out of range (%s), to %r", did, what, packed)


def run(case):
    if "dims" in case:
        dims = P.universe().conform(case["dims"])
        ok = set(dims.names) in ({"skymap", "tract", "patch"}, {"skymap", "tract", "patch", "band"})
        try:
            packer = P.SkyMapDimensionPacker(P.fixedId([5, 3, 3]), dims, n_bands=case["n_bands"])
        except ValueError:
            check(not ok, "valid dimensions %s refused", sorted(dims.names))
            return Outcome(True, ["bad dimensions refused"])
        check(ok, "dimensions %s accepted", sorted(dims.names))
        check(packer.dimensions == dims, "packer has dimensions %s", packer.dimensions)
        return Outcome(False, ["good dimensions"])
    spec = case["packer"]
    packer = P.makePacker(spec)
    n_tracts, n_patches, n_bands, bands = P.effective(spec)
    want = {"skymap", "tract", "patch"} | ({"band"} if n_bands else set())
    check(set(packer.dimensions.names) == want, "dimensions are %s, not %s", sorted(packer.dimensions.names),
          sorted(want))
    if "nothing" in case:
        names = sorted(b for b in bands if b is not None and 0 <= bands[b] < n_bands) if n_bands else [None]
        for tract, patch in case["nothing"]:
            for b in names[:2]:
                refused(packer, P.dataId(tract, patch, b), "tract %d patch %d of %d x %d" % (tract, patch, n_tracts, n_patches))
        return Outcome(bool(names), ["no room"])
    bits = (n_tracts*n_patches*max(n_bands, 1) - 1).bit_length()
    check(packer.maxBits == bits, "maxBits is %s; %d tracts x %d patches x %d bands need %d", packer.maxBits,
          n_tracts, n_patches, n_bands, bits)
    labels = []
    if case["good"] is not None:
        tract, patch, band = case["good"]
        if n_bands and not 0 <= bands[band] < n_bands:
            return Outcome(False)
        packer.pack(P.dataId(tract, patch, band))  # must be accepted
        for which in [[b] for b in case["bad"]] + ([case["bad"]] if len(case["bad"]) > 1 else []):
            d = dict(tract=tract, patch=patch, band=band)
            d.update(which)
            refused(packer, P.dataId(**d), which)
            labels += ["bad " + k + (" negative" if isinstance(v, int) and v < 0 else "") for k, v in which]
    else:
        labels.append("no band fits")
        for b in sorted(x for x in bands if x is not None):
            refused(packer, P.dataId(0, 0, b), "band index %d of %d" % (bands[b], n_bands))
    return Outcome(True, sorted(set(labels)))
