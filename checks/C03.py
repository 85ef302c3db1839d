from hypothesis import strategies as st

from vlib.harness import Outcome, check
from . import packing as P
from .C01 import cases as _cases

ID = "C03"
TITLE = "Packed integers keep their layout"
RULE = ("As C01; each packed integer is compared with patch + n_patches*(tract + n_tracts*band), where band is "
        "the configured integer of the band (the built-in list of common bands when none is configured). "
        "Non-trivial: an ID with a non-zero tract or band.")
QUICK, THOROUGH = 6000, 200000

prepare = P.universe
strategy = _cases


def run(case):
    packer = P.makePacker(case["packer"])
    n_tracts, n_patches, n_bands, bands = P.effective(case["packer"])
    big = False
    for tract, patch, band in case["ids"]:
        want = patch + n_patches*tract
        if n_bands:
            want += n_patches*n_tracts*bands[band]
        got = packer.pack(P.dataId(tract, patch, band))
        check(got == want, "tract=%d patch=%d band=%s packs to %d; the layout says %d", tract, patch, band, got, want)
        big = big or want > patch
    return Outcome(big, ["custom bands" if case["packer"]["bands"] else "default bands"])


_ = st
