import os
import re
import threading

from hypothesis import strategies as st

from vlib import gen, maps
from vlib.harness import HarnessError, Outcome, check
from . import repo

ID = "C25"
TITLE = "A registration that fails part way leaves nothing behind and can be repeated"
RULE = ("A real SQLite butler repository, sometimes holding another map, and a registration made to fail: an error at a "
        "chosen SQL statement, an error before or after the map's file is stored, or the process killed at a chosen SQL "
        "statement; up to 3 times over. The repository then holds no row or dataset of the map, what it held before is "
        "unchanged, and registering again succeeds in full. Non-trivial: the fault struck.")
QUICK, THOROUGH = 96, 5000


class Fault(Exception):
    pass


@st.composite
def cases(draw):
    spec = draw(repo.smallMap())
    fault = st.fixed_dictionaries(dict(how=st.sampled_from(["sql", "sql", "sql", "before put", "after put", "kill",
                                                            "kill"]), at=gen.frac()))
    return dict(spec=spec, other=draw(st.one_of(st.none(), st.none(), repo.smallMap(maxTracts=1))),
                faults=draw(st.lists(fault, min_size=1, max_size=3)), sameClient=draw(st.booleans()))


strategy = cases
prepare = repo.prepare


def engine(butler):
    return butler._registry._db._engine


class Statements:
    """Counts the SQL statements that write, from the sky map's own row on, and acts at one of them.

    What precedes that row makes the run collection and the dataset type, which are the repository's and not the map's
    (daf_butler does each in several transactions of its own, and lsst.skymap cannot make it otherwise).
    """

    FIRST = re.compile(r'\s*INSERT\s+INTO\s+"?skymap"?\W', re.I)

    def __init__(self, butler, at=None, act=None):
        import sqlalchemy
        self.n, self.at, self.act, self.struck = 0, at, act, False
        self._event, self._engine = sqlalchemy.event, engine(butler)
        self._thread = threading.get_ident()

    def _hook(self, conn, cursor, statement, parameters, context, executemany):
        if statement.lstrip()[:6].upper() not in ("INSERT", "UPDATE", "DELETE"):
            return
        if not self.n and not self.FIRST.match(statement):
            return
        self.n += 1
        if self.at is not None and self.n == self.at and not self.struck:
            self.struck = True
            self.act()

    def __enter__(self):
        self._event.listen(self._engine, "before_cursor_execute", self._hook)
        return self

    def __exit__(self, *args):
        self._event.remove(self._engine, "before_cursor_execute", self._hook)


def raiseFault():
    raise Fault("injected")


def kill():
    os._exit(77)


def attempt(path, butler, m, fault, total):
    """Register with a fault; True when it struck."""
    at = 1 + min(total - 1, int(fault["at"]*total))
    how = fault["how"]
    if how == "kill":
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                mine = repo.open_(path)
                with Statements(mine, at, kill):
                    m.register("map", mine)
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        if code not in (0, 77):
            raise HarnessError("the child ended with %s" % code)
        return code == 77
    if how == "sql":
        with Statements(butler, at, raiseFault) as s:
            try:
                m.register("map", butler)
            except Fault:
                return True
            except Exception:
                if s.struck:
                    return True
                raise
            check(not s.struck, "an error at SQL statement %d of %d was swallowed by register", at, total)
        return False
    store = type(butler._datastore)
    real = store.put
    hit = []

    def put(self, *args, **kwargs):
        hit.append(1)
        if how == "after put":
            real(self, *args, **kwargs)
        raise Fault("injected")

    store.put = put
    try:
        m.register("map", butler)
    except Fault:
        return True
    finally:
        store.put = real
    check(not hit, "an error while storing the map was swallowed by register")
    return False


def run(case):
    m = maps.build(case["spec"])
    with repo.scratch() as path:
        dry = repo.open_(path)
        with Statements(dry) as s:
            m.register("map", dry)
        total = s.n
    if total < 3:
        raise HarnessError("only %d SQL writes were seen in a registration" % total)
    struck = 0
    labels = set()
    with repo.scratch() as path:
        butler = repo.open_(path)
        model = {}
        other = maps.build(case["other"]) if case["other"] is not None else None
        if other is not None and other.getSha1() != m.getSha1():  # the same map is not taken under two names
            other.register("other", butler)
            model["other"] = other
        before = repo.snapshot(butler)
        for fault in case["faults"]:
            hit = attempt(path, butler, m, fault, total)
            if not case["sameClient"] or fault["how"] == "kill":
                butler = repo.open_(path)
            labels.add(fault["how"] + (" struck" if hit else " missed"))
            if not hit:
                break
            struck += 1
            for b in (butler, repo.open_(path, writeable=False)):
                after = repo.snapshot(b)
                for k in before:
                    check(after[k] == before[k], "after a registration that failed (%s, at %r of %d writes) the repository "
                          "has %d %s rows; it had %d", fault["how"], fault["at"], total, len(after[k]), k, len(before[k]))
        m.register("map", butler)
        model["map"] = m
        repo.verify(repo.open_(path, writeable=False), model)
    return Outcome(struck, labels)
