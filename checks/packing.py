"""Shared by the packer checks: building packers and data IDs from JSON."""
from hypothesis import strategies as st

from vlib import env

env.load()

from lsst.daf.butler import DataCoordinate, DimensionUniverse  # noqa: E402
from lsst.skymap.packers import SkyMapDimensionPacker  # noqa: E402

_universe = None


def universe():
    global _universe
    if _universe is None:
        _universe = DimensionUniverse()
    return _universe


def fixedId(rec):
    u = universe()
    fixed = DataCoordinate.from_full_values(u.conform(["skymap"]), values=("sm",))
    if rec is not None:
        fixed = fixed.expanded(records={"skymap": u["skymap"].RecordClass(
            name="sm", tract_max=rec[0], patch_nx_max=rec[1], patch_ny_max=rec[2])})
    return fixed


def dataId(tract, patch, band=None):
    d = dict(skymap="sm", tract=tract, patch=patch)
    if band is not None:
        d["band"] = band
    return DataCoordinate.standardize(d, universe=universe())


class PackerConfigHolder:
    """A Config class with a packer field, made once."""
    cls = None

    @classmethod
    def get(cls):
        if cls.cls is None:
            from lsst.pex.config import Config

            class Holder(Config):
                packer = SkyMapDimensionPacker.make_config_field()

            cls.cls = Holder
        return cls.cls


def makePacker(case, mappings=None):
    """How the packer of this case is made: constructor, from_config, or through a config field.

    The mapping of bands that it was made from is added to mappings, if that can be changed afterwards."""
    fixed = fixedId(case["record"])
    bands = dict(case["bands"]) if case["bands"] is not None else None
    n_bands, n_tracts, n_patches = case["n_bands"], case["n_tracts"], case["n_patches"]
    how = case["how"]
    if mappings is not None and bands is not None and how in ("ctor", "dims"):
        mappings.append((bands, None))
    if how == "ctor":
        return SkyMapDimensionPacker(fixed, None, bands, n_bands, n_tracts, n_patches)
    if how == "dims":
        names = ["tract", "patch"] + (["band"] if case["withBand"] else [])
        return SkyMapDimensionPacker(fixed, universe().conform(names), bands=bands, n_bands=n_bands,
                                     n_tracts=n_tracts, n_patches=n_patches)
    config = SkyMapDimensionPacker.ConfigClass()
    holder = None
    if how == "field":
        holder = PackerConfigHolder.get()()
        config = holder.packer
    if bands is not None:
        config.bands = bands
    if n_bands != 0:  # the default
        config.n_bands = n_bands
    if n_tracts is not None:
        config.n_tracts = n_tracts
    if n_patches is not None:
        config.n_patches = n_patches
    (holder or config).validate()  # as tasks do before they use their configuration
    if how == "field":
        holder.freeze()
        return holder.packer.apply(fixed)
    if mappings is not None and bands is not None:
        mappings.append((config.bands, config))
    return SkyMapDimensionPacker.from_config(fixed, config)


DEFAULT_BANDS = ([None] + list("ugrizyUBGVRIZYJHK") + [f"N{d}" for d in (387, 515, 656, 816, 921, 1010)]
                 + [f"N{d}" for d in (419, 540, 708, 964)])


def effective(case):
    """(n_tracts, n_patches, n_bands, bands) the documentation asks for; n_bands 0 = no band dimension."""
    rec = case["record"]
    n_tracts = case["n_tracts"] if case["n_tracts"] is not None else rec[0]
    n_patches = case["n_patches"] if case["n_patches"] is not None else rec[1]*rec[2]
    bands = dict(case["bands"]) if case["bands"] is not None else \
        {b: i for i, b in enumerate(DEFAULT_BANDS)}
    n_bands = case["n_bands"]
    if n_bands is None:
        n_bands = len(bands)
    if case["how"] == "dims" and not case["withBand"]:
        n_bands = 0
    return n_tracts, n_patches, n_bands, bands


# up to 2^62 tracts and 2^64 patches: nothing may go by way of floating point
counts = st.one_of(st.integers(1, 4), st.integers(1, 300), st.integers(1, 20000), st.integers(1, 20000),
                   st.integers(0, 62).map(lambda n: 1 << n), st.integers(1, 1 << 62))
patchSide = st.one_of(st.integers(1, 4), st.integers(1, 60))
bandNames = st.one_of(st.sampled_from(list("ugrizy") + ["N921", "N387", "white", "Y", "g2"]),
                      st.text("abcdefgriz0123", min_size=1, max_size=4))


@st.composite
def packerCases(draw):
    record = draw(st.one_of(st.none(), st.tuples(counts, patchSide, patchSide).map(list)))
    n_tracts = draw(st.one_of(st.none(), counts)) if record else draw(counts)
    n_patches = draw(st.one_of(st.none(), counts)) if record else draw(counts)
    how = draw(st.sampled_from(["ctor", "dims", "config", "field"]))
    bands = None
    if draw(st.integers(0, 3)) > 0:
        names = draw(st.lists(bandNames, min_size=1, max_size=8, unique=True))
        style = draw(st.sampled_from(["range", "permuted", "gaps", "gaps", "negative"]))
        if style == "range":
            idx = list(range(len(names)))
        elif style == "permuted":
            idx = draw(st.permutations(range(len(names))))
        elif style == "negative":
            idx = draw(st.permutations(range(-1, len(names) - 1)))
        else:
            idx = draw(st.lists(st.integers(0, 40), min_size=len(names), max_size=len(names), unique=True))
        bands = [[n, i] for n, i in zip(names, idx)]
    nb = len(bands) if bands is not None else len(DEFAULT_BANDS)
    top = max(1, max(i for _, i in bands) + 1) if bands is not None else nb
    n_bands = draw(st.one_of(st.none(), st.just(0), st.just(1), st.just(nb), st.just(top), st.integers(1, 50), st.sampled_from([64, 65, 100, 128, 1000, 1 << 20])))
    withBand = True
    if how == "dims":
        # With explicit dimensions n_bands=0 and a band dimension contradict each other (a caller error).
        withBand = draw(st.booleans())
        if withBand and n_bands == 0:
            n_bands = None
    return dict(record=record, n_tracts=n_tracts, n_patches=n_patches, how=how, bands=bands, n_bands=n_bands,
                withBand=withBand)


def within(n):
    """Index in [0, n): ends likely."""
    return st.one_of(st.just(0), st.just(n - 1), st.integers(0, n - 1), st.integers(0, n - 1))


@st.composite
def goodId(draw, case):
    n_tracts, n_patches, n_bands, bands = effective(case)
    band = None
    if n_bands:
        usable = sorted(b for b, i in bands.items() if b is not None and 0 <= i < n_bands)
        if not usable:
            return None
        band = draw(st.sampled_from(usable))
    return [draw(within(n_tracts)), draw(within(n_patches)), band]
