import copy
import pickle

from hypothesis import strategies as st

import numpy as np

from vlib.harness import Outcome, check
from . import packing as P

ID = "C01"
TITLE = "Packed data IDs round-trip, are distinct and fit in maxBits"
RULE = ("A packer (constructor, explicit dimensions, config, or config field; sizes from arguments or from the "
        "skymap record; band mappings that are ranges, permutations or have gaps) and up to 10 in-range data "
        "IDs, ends of the ranges likely; packed and unpacked by it, by one made alike and by a copy (also a pickled one), fresh or used, whose caller changed the mapping of bands afterwards, and unpacked "
        "from numpy's integers. Non-trivial: at least two different IDs were packed.")
QUICK, THOROUGH = 6000, 200000

prepare = P.universe


@st.composite
def cases(draw):
    case = draw(P.packerCases())
    ids = [i for i in draw(st.lists(P.goodId(case), min_size=1, max_size=10)) if i is not None]
    return dict(packer=case, ids=ids, way=draw(st.sampled_from(["copy", "deepcopy", "pickle"])), used=draw(st.booleans()))


strategy = cases


def run(case):
    mappings = []
    packer = P.makePacker(case["packer"], mappings)
    again = P.makePacker(case["packer"])
    n_tracts, n_patches, n_bands, bands = P.effective(case["packer"])
    seen = {}
    ids = list(case["ids"])
    # the far corner of the range always takes part
    if ids:
        band = ids[0][2]
        if n_bands:
            band = max((b for b, i in bands.items() if b is not None and 0 <= i < n_bands), key=lambda b: bands[b])
        ids.append([n_tracts - 1, n_patches - 1, band])
    maxBits = packer.maxBits
    check(isinstance(maxBits, int) and maxBits >= 0, "maxBits is %r", maxBits)
    way = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda p: pickle.loads(pickle.dumps(p)))[case.get("way", "pickle")]
    if case.get("used") and ids:
        packer.unpack(packer.pack(P.dataId(*ids[0])))
    copied = way(packer)
    for bands_, _ in mappings:  # the caller's, to do with as the caller likes
        for name, number in zip(list(bands_), list(bands_.values())[::-1]):
            bands_[name] = number
        if case.get("used"):
            bands_["one more"] = 77
    check(copied.maxBits == maxBits, "a copy of the packer has maxBits %r, not %r", copied.maxBits, maxBits)
    for tract, patch, band in ids:
        did = P.dataId(tract, patch, band)
        packed = packer.pack(did)
        check(isinstance(packed, int), "pack gave %r", packed)
        check(packed >= 0, "pack(%s) = %d is negative", did, packed)
        check(packed.bit_length() <= maxBits, "pack(%s) = %d needs more than maxBits=%d bits", did, packed, maxBits)
        check(packer.pack(did, returnMaxBits=True) == (packed, maxBits), "returnMaxBits disagrees for %s", did)
        check(again.pack(did) == packed, "an identical packer packs %s differently", did)
        check(copied.pack(did) == packed, "a copy of the packer packs %s differently", did)
        for who, number in ((packer, packed), (again, packed), (copied, packed), (packer, np.int64(packed) if maxBits < 63 else packed)):
            back = who.unpack(number)
            want = dict(skymap="sm", tract=tract, patch=patch)
            if n_bands:
                want["band"] = band
            got = {k: back[k] for k in back.dimensions.names} if hasattr(back, "dimensions") else dict(back)
            check(got == want, "unpack(pack(%s)) = %s", want, got)
        key = (tract, patch, band if n_bands else None)
        for other, value in seen.items():
            check(other == key or value != packed, "%s and %s both pack to %d", other, key, packed)
        seen[key] = packed
    labels = ["how=" + case["packer"]["how"], "bands" if n_bands else "no bands",
              "record" if case["packer"]["record"] else "no record"]
    if n_bands and bands and list(bands.values()) != list(range(len(bands))):
        labels.append("bands not 0..n-1 in order")
    return Outcome(len(seen) > 1, labels)
