import copy
import pickle

from hypothesis import strategies as st

import numpy as np

from vlib import maps
from vlib.harness import Outcome, check
from . import repo, shamodel

ID = "C24"
TITLE = "Registering records a sky map exactly, once, and refuses one that conflicts"
RULE = ("A real SQLite butler repository and a history of 1 to 6 registrations of up to 3 maps (discrete tracts of "
        "different sizes, equatorial bands; some almost alike) under up to 3 names, from the same or copied or "
        "unpickled objects, from one or several clients; after each, the repository is compared with a model: every "
        "tract and patch with its index, cell and sky region, the map read back, whether the map was used before or not, nothing twice, and nothing changed by "
        "a repeat or a refusal. Non-trivial: a repeat or a conflict in the history.")
QUICK, THOROUGH = 112, 6000
USES = ["", "", "find", "array", "int16", "int32", "int64", "list"]


@st.composite
def cases(draw):
    pool = [draw(repo.smallMap())]
    while len(pool) < 3 and draw(st.integers(0, 3)):
        if draw(st.booleans()):
            other = copy.deepcopy(pool[0])
            other["tractOverlap"] = other["tractOverlap"] + draw(st.sampled_from([1e-9, 0.001]))
            pool.append(other)
        else:
            pool.append(draw(repo.smallMap(maxTracts=2)))
    step = st.fixed_dictionaries(dict(map=st.integers(0, len(pool) - 1), name=st.sampled_from(["a", "b", "c d"]),
                                      form=st.sampled_from(["same", "same", "new", "pickle", "copy"]),
                                      reopen=st.booleans(), use=st.sampled_from(USES)))
    return dict(pool=pool, steps=draw(st.lists(step, min_size=1, max_size=6)))


strategy = cases
prepare = repo.prepare


def exhaustive(tier):
    for spec in repo.odd():
        yield dict(pool=[spec], steps=[dict(map=0, name="a", form=form, reopen=form != "new") for form in ("new", "pickle")])
    for k, kind in enumerate(("discrete", "rings", "dodeca", "equat", "healpix")):
        spec = dict(kind=kind, tractOverlap=1.5, pixelScale=3600.0, projection="STG", rotation=0.0,
                    builder=dict(name="legacy", inner=[60, 60], border=1))
        spec.update(dict(discrete=dict(raList=[10.0, 90.0], decList=[1.0, -50.0], radiusList=[4.0, 3.0]), rings=dict(numRings=2, version=1),
                         dodeca=dict(withTractsOnPoles=False), equat=dict(numTracts=4, decRange=[-2.0, 2.0]),
                         healpix=dict(log2NSide=0, nest=False))[kind])
        for use in sorted(set(USES)):
            yield dict(pool=[spec], steps=[dict(map=0, name="a", form="same", reopen=False, use=use)])


def used(m, how):
    """What a user may do with a map before registering it: nothing of it shows in the repository."""
    centres = [t.getCtrCoord() for t in type(m)(m.config)] if how else []
    if how == "find":
        for c in centres:
            m.findTract(c)
    elif how == "list":
        m.findClosestTractPatchList(centres[::2])
    elif how == "array":
        for i in m.findTractIdArray(np.array([c.getRa().asRadians() for c in centres]), np.array([c.getDec().asRadians() for c in centres])):
            m[i]
    elif how:
        for i in np.arange(len(m), dtype=how):
            m[i].getId()


def run(case):
    from lsst.daf.butler.registry import ConflictingDefinitionError
    held = [maps.build(s) for s in case["pool"]]
    model, specs = {}, {}
    labels = set()
    with repo.scratch() as path:
        butler = repo.open_(path)
        for k, s in enumerate(case["steps"]):
            m = held[s["map"]]
            if s["form"] == "new":
                m = maps.build(case["pool"][s["map"]])
            elif s["form"] == "pickle":
                m = pickle.loads(pickle.dumps(m))
            elif s["form"] == "copy":
                m = copy.deepcopy(m)
            used(m, s.get("use", ""))
            if s["reopen"]:
                butler = repo.open_(path)
            name = s["name"]
            key = shamodel.geometryKey(case["pool"][s["map"]])
            taken = {v: n for n, v in specs.items()}
            conflict = (name in specs and specs[name] != key) or (key in taken and taken[key] != name)
            before = repo.snapshot(butler)
            try:
                m.register(name, butler)
                refused = False
            except ConflictingDefinitionError:
                refused = True
            check(refused == conflict, "step %d, registering map %d as %r over %s: %s", k, s["map"], name, sorted(specs),
                  "refused" if refused else "accepted, although it conflicts")
            if conflict:
                labels.add("conflict")
            elif name in specs:
                labels.add("repeat")
            else:
                labels.add("new")
                specs[name], model[name] = key, held[s["map"]]
            if conflict or "new" not in labels or name in dict(before["datasets"]):
                after = repo.snapshot(butler)
                check(after == before, "step %d, registering map %d as %r %s and changed the repository", k, s["map"], name,
                      "was refused" if refused else "repeated an earlier one")
            else:
                repo.verify(butler, model)
        repo.verify(repo.open_(path, writeable=False), model)
    return Outcome(labels & {"conflict", "repeat"}, labels)
