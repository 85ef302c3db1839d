from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import Outcome, check
from . import shamodel

ID = "C21"
TITLE = "A sky map's SHA-1 is a fixed function of its class and configuration"
RULE = ("A map of any kind, with any of its fields left at the defaults, against an independent packing of the fields; "
        "the hash is the same before and after using the map, and from a second map on the same configuration. "
        "Non-trivial: two fields or more not at their defaults.")
QUICK, THOROUGH = 5000, 120000
# Recorded with the pinned release: the hashes stored in existing repositories.
GOLDEN = [
    (dict(kind="dodeca"),
     "4a5a3a92403893be46af6e7011c18b9cffa151bf"),
    (dict(kind="equat"),
     "fe3a549cb00b95d24265857c156706e46915f324"),
    (dict(kind="discrete", raList=[10.0, 20.0], decList=[-5.0, 5.0], radiusList=[0.2, 0.3]),
     "42a861fb057cef84b0b93d6e8648eeb02f868199"),
    (dict(kind="rings", numRings=120, projection="TAN", tractOverlap=1.0/60, pixelScale=0.168,
          builder=dict(name="legacy", inner=[4000, 4000], border=100)),
     "e29fe9f1008e359f36a3677e7d69cc439376d1e6"),
    (dict(kind="rings", numRings=3, builder=dict(name="cells", cell=150, cellBorder=50, perPatch=20, inBorder=1)),
     "c3cd14b811913b96587792074bc0981310d6edbc"),
    (dict(kind="healpix", log2NSide=2, nest=True, pixelScale=10.0),
     "c1c2db690850eaaeb22d0f86d7ada876f52da299"),
]


@st.composite
def cases(draw):
    spec = draw(gen.anyMap(npix=gen.pixels(hi=2000), rotation=gen.rotations))
    if draw(st.booleans()):
        spec = draw(gen.sparse(spec))
    if spec["kind"] == "equat" and "decRange" in spec and draw(st.integers(0, 3)) == 0:
        spec["decRange"] = spec["decRange"][::-1]
    return dict(spec=spec, use=draw(st.booleans()))


strategy = cases


def exhaustive(tier):
    for spec, _ in GOLDEN:
        yield dict(spec=spec, use=True)
    for k, spec in enumerate(gen.oneField()):
        if spec["kind"] == "healpix":
            spec.setdefault("log2NSide", 0)
        yield dict(spec=spec, use=k % 2 == 0)


def run(case):
    spec = case["spec"]
    m = maps.build(spec)
    want = shamodel.sha1(spec)
    if case["use"]:
        first = m.getSha1()
        len(m) and m[0].getBBox()
        m.findTract(maps.sky(1.0, 0.2)) if len(m) else None
        check(m.getSha1() == first, "getSha1() changed with use")
    got = m.getSha1()
    check(got == want, "SHA-1 is %s; class and configuration make %s", got.hex(), want.hex())
    for fix, sha in GOLDEN:
        if fix == spec and sha:
            check(got.hex() == sha, "SHA-1 is %s; repositories hold %s", got.hex(), sha)
    again = type(m)(m.config)
    check(again.getSha1() == want, "a second map on the same configuration has SHA-1 %s", again.getSha1().hex())
    return Outcome(len(spec) > 3, ["kind=" + spec["kind"]])
