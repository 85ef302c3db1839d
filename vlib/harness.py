"""Runs one property: generated cases, an oracle, shrinking, replay, evidence.

A property module (checks/<ID>.py) defines
  ID, TITLE, RULE            strings; RULE says how cases are made and what makes one non-trivial
  QUICK, THOROUGH            number of generated cases
  strategy()                 Hypothesis strategy of JSON-able cases (a case may hold a whole history)
  run(case) -> Outcome       raises Violation when the property fails on this case
  exhaustive() -> iterable   optional: a finite set of cases that is run completely as well
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import env

# The variables are for trying planted bugs and mutants side by side; the registered checks set none.
REPLAY_DIR = os.environ.get("VERIF_REPLAYS") or os.path.join(env.VERIF, "replays")
EVIDENCE_DIR = os.environ.get("VERIF_EVIDENCE") or os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.jsonl")
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "40"))
CASE_SECONDS = 120


class Violation(Exception):
    """The property does not hold on this case."""


class Outcome:
    """What a case that held looked like: labels for the distribution, and whether it counts."""

    __slots__ = ("nontrivial", "labels")

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = tuple(labels)


class HarnessError(Exception):
    pass


class _Stop(BaseException):
    pass


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def canon(case):
    return json.dumps(case, sort_keys=True)


def _standinGap(exc):
    """Is this the stand-ins lacking something the real package has (not a verdict on the tree)?"""
    if isinstance(exc, NotImplementedError) and "stand-in" in str(exc):
        return True
    if isinstance(exc, ImportError):
        return True
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        mod = obj.__name__ if isinstance(obj, type(sys)) else type(obj).__module__
        if isinstance(obj, type):
            mod = obj.__module__
        return mod.startswith(("lsst.geom", "lsst.afw", "lsst.pex.exceptions"))
    return False


def _where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    keep = [f for f in frames if f.filename.startswith(env.SKYMAP_DIR)] or frames[-1:]
    return "%s:%s in %s" % (os.path.basename(keep[-1].filename), keep[-1].lineno, keep[-1].name)


class _Hang(BaseException):
    pass


_began = [0.0, 0.0]


def _onAlarm(signum, frame):
    if time.process_time() - _began[0] < 0.4*CASE_SECONDS and time.monotonic() - _began[1] < 4*CASE_SECONDS:
        signal.alarm(CASE_SECONDS//4)  # the machine is busy, or was stopped for a while
        return
    signal.alarm(5)  # raised inside a callback of the garbage collector, say, it would come to nothing
    raise _Hang()


def runCase(mod, case):
    """Outcome, or Violation, or HarnessError."""
    reset = getattr(mod, "reset", None)
    if reset:
        reset()
    _began[:] = time.process_time(), time.monotonic()
    signal.signal(signal.SIGALRM, _onAlarm)
    signal.alarm(CASE_SECONDS)
    try:
        return mod.run(case)
    except (Violation, HarnessError):
        raise
    except (MemoryError, OSError) as e:
        raise HarnessError("%s: %s" % (type(e).__name__, e)) from e
    except _Hang:
        # A time budget is not a verdict.
        raise HarnessError("case took more than %d s" % CASE_SECONDS) from None
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if _standinGap(e):
            raise HarnessError("the stand-ins lack something: %s: %s\n%s"
                               % (type(e).__name__, e, traceback.format_exc())) from e
        raise Violation("%s on valid input: %s (%s)" % (type(e).__name__, e, _where(e))) from e
    finally:
        signal.alarm(0)


def shardSeed(seed, ident, shard):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, ident, shard)).encode()).digest()[:6], "big")


def _shardMain(mod, seed, shard, nShards, count, deadline, stopFlag, conn, extra):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    out = dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[], failure=None,
               error=None, truncated=False, exhaustive=0, duplicates=0)
    history = []
    last = {}
    failed = [False]

    def one(case, isExtra=False):
        if not failed[0]:
            if time.monotonic() > deadline:
                out["truncated"] = True
                raise _Stop()
            if stopFlag.value:
                out["truncated"] = True
                raise _Stop()
        text = canon(case)
        case = json.loads(text)
        if not failed[0]:
            out["evaluations"] += 1
            if isExtra:
                out["exhaustive"] += 1
            history.append(text)
        try:
            res = runCase(mod, case)
        except Violation as v:
            failed[0] = True
            last["case"], last["message"] = text, str(v)
            raise
        except HarnessError as e:
            if failed[0]:
                return  # while shrinking: this case says nothing
            out["error"] = str(e)
            raise _Stop() from e
        if not failed[0]:
            for lab in res.labels:
                out["labels"][lab] += 1
            if res.nontrivial:
                h = hashlib.sha1(text.encode()).digest()[:10]
                if h in out["nontrivial"]:
                    out["duplicates"] += 1
                out["nontrivial"].add(h)
                n = len(out["nontrivial"])
                if len(out["samples"]) < 2 or (n & (n - 1) == 0 and len(out["samples"]) < 12):
                    out["samples"].append(case)

    try:
        for case in extra:
            one(case, True)
        if count > 0:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
            from hypothesis.internal.conjecture import engine
            engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

            @hseed(shardSeed(seed, mod.ID, shard))
            @settings(max_examples=count, database=None, deadline=None, derandomize=False,
                      report_multiple_bugs=False, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @given(case=mod.strategy())
            def prop(case):
                one(case)

            prop()
            _ = hypothesis
    except _Stop:
        pass
    except Violation:
        pass
    except HarnessError as e:
        out["error"] = str(e)
    except BaseException as e:
        if not failed[0]:
            out["error"] = "".join(traceback.format_exception(e))
    if failed[0] and out["error"] is None:
        stopFlag.value = 1
        out["failure"] = dict(case=last["case"], message=last["message"], history=history[-4000:])
    conn.send(out)
    conn.close()
    os._exit(0)


def _forkRun(fn, *args):
    """Run fn in a forked child (no state left over from earlier cases); returns its result."""
    ctx = multiprocessing.get_context("fork")
    parent, child = ctx.Pipe(False)

    def target():
        try:
            child.send(fn(*args))
        except BaseException as e:
            child.send(("error", "".join(traceback.format_exception(e))))
        child.close()
        os._exit(0)

    p = ctx.Process(target=target)
    p.start()
    child.close()
    try:
        res = parent.recv()
    except EOFError:
        res = ("error", "child ended without an answer")
    p.join()
    return res


def _tryCases(mod, cases):
    """("violation", message) at the first case that fails, ("held", None) when all hold."""
    for text in cases:
        try:
            runCase(mod, json.loads(text))
        except Violation as v:
            return ("violation", str(v))
        except HarnessError as e:
            return ("error", str(e))
    return ("held", None)


def loadKnown(ident):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line:
                    rec = json.loads(line)
                    if rec["property"] == ident:
                        out.append(rec)
    return out


def _writeReplay(ident, cases, message):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    body = dict(property=ident, message=message, cases=[json.loads(c) for c in cases])
    digest = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAY_DIR, "%s-%s.json" % (ident, digest))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay", help="run the cases of this replay file only")
    ap.add_argument("--count", type=int, help="override the number of cases")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--show", action="store_true", help="print the distribution of labels")
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    ident = args.property
    try:
        env.setup()
        mod = importlib.import_module("checks." + ident)
        getattr(mod, "prepare", lambda: None)()
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s cannot load the tree under test" % ident)
        return 2

    if args.replay:
        with open(args.replay) as f:
            body = json.load(f)
        kind, msg = _forkRun(_tryCases, mod, [canon(c) for c in body["cases"]])
        print(kind, msg or "")
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (ident, args.replay))
            return 1
        return 0 if kind == "held" else 2

    # Findings on record: run each witness, say so when it still fails.
    openFindings = 0
    for rec in loadKnown(ident):
        if rec["status"] != "open":
            continue
        kind, msg = _forkRun(_tryCases, mod, [canon(rec["witness"])])
        if kind == "violation":
            openFindings += 1
            print("KNOWN-FINDING: property=%s %s" % (ident, rec["what"]))
        elif kind == "error":
            print(msg)
            print("ERROR property=%s" % ident)
            return 2

    total = args.count if args.count is not None else (mod.QUICK if args.tier == "quick" else mod.THOROUGH)
    n = max(1, min(args.shards, total or 1))
    limit = 400 if args.tier == "quick" else 6*3600
    deadline = t0 + limit
    extra = [[] for _ in range(n)]
    if hasattr(mod, "exhaustive"):
        for i, case in enumerate(mod.exhaustive(args.tier)):
            extra[i % n].append(case)
    ctx = multiprocessing.get_context("fork")
    stopFlag = ctx.Value("i", 0, lock=False)
    jobs = []
    for shard in range(n):
        count = total//n + (1 if shard < total % n else 0)
        parent, child = ctx.Pipe(False)
        p = ctx.Process(target=_shardMain, args=(mod, args.seed, shard, n, count, deadline, stopFlag,
                                                 child, extra[shard]))
        p.start()
        child.close()
        jobs.append((p, parent))
    results = []
    for p, conn in jobs:
        try:
            results.append(conn.recv())
        except EOFError:
            results.append(dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[],
                                failure=None, error="a worker ended without an answer", truncated=True,
                                exhaustive=0, duplicates=0))
        p.join()

    labels = collections.Counter()
    nontrivial = set()
    samples = []
    for r in results:
        labels.update(r["labels"])
        nontrivial |= r["nontrivial"]
    for k in range(12):
        for r in results:
            if k < len(r["samples"]) and len(samples) < 6:
                samples.append(r["samples"][k])
    evaluations = sum(r["evaluations"] for r in results)
    errors = [r["error"] for r in results if r["error"]]
    failures = [r["failure"] for r in results if r["failure"]]
    truncated = any(r["truncated"] for r in results) and not failures

    violation = None
    for f in failures:
        kind, msg = _forkRun(_tryCases, mod, [f["case"]])
        if kind == "violation":
            violation = ([f["case"]], msg)
            break
    else:
        for f in failures:
            # It does not fail on its own: state left by earlier cases matters. Replay the history.
            kind, msg = _forkRun(_tryCases, mod, f["history"])
            if kind == "violation":
                violation = (f["history"], "after earlier calls in the same process: " + msg)
            else:
                violation = (f["history"] + [f["case"]], "seen once, not on replay: " + f["message"])
            break

    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(nontrivial),
        rule=mod.RULE,
        samples=samples or [json.loads(failures[0]["case"])] if (samples or failures) else [],
        labels=dict(sorted(labels.items())),
        shards=n,
        enumerated_cases=sum(r["exhaustive"] for r in results),
        known_findings_still_failing=openFindings,
        truncated_by_time_limit=truncated,
    )
    evidence = dict(property=ident, tier=args.tier, seed=args.seed, level="exploration", coverage=coverage,
                    assumptions=list(getattr(mod, "ASSUMPTIONS", DEFAULT_ASSUMPTIONS)),
                    wall_s=round(time.monotonic() - t0, 2), violations=1 if violation else 0)
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    with open(os.path.join(EVIDENCE_DIR, ident + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("%s tier=%s seed=%d cases=%d distinct non-trivial=%d wall=%.1fs%s"
          % (ident, args.tier, args.seed, evaluations, len(nontrivial), time.monotonic() - t0,
             " (stopped at the time limit: inconclusive beyond this)" if truncated else ""))
    if args.show:
        for k, v in sorted(labels.items()):
            print("   %6.2f%%  %s" % (100.0*v/max(1, evaluations), k))
    if violation:
        path = _writeReplay(ident, *violation)
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (ident, path))
        return 1
    if errors:
        print(errors[0])
        print("ERROR property=%s" % ident)
        return 2
    return 0


DEFAULT_ASSUMPTIONS = (
    "lsst.geom, lsst.afw.geom and lsst.pex.exceptions are stand-ins written from their documented "
    "behaviour (not installable here); the WCS stand-in is checked against wcslib",
)
