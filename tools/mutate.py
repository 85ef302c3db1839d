"""Mutation test of the checks (run by hand): small changes of lsst.skymap, one at a time, each run against the checks anchored in its file.

    mutate.py FILE... [--out OUT.jsonl] [--share 0.1] [--only N,N] [--list]

A mutant is made in a scratch copy under a temporary directory, and the checks pointed there by VERIF_REPO. Prints the mutants that no check notices;
what they mean is judged by reading them (many change nothing that can be observed).
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = "/repo"
PY = "/opt/venv/bin/python"
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.And: ast.Or, ast.Or: ast.And, ast.Pow: ast.Mult}
CALLS = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "getMin": "getMax", "getMax": "getMin",
         "getMinX": "getMinY", "getMinY": "getMinX", "getMaxX": "getMaxY", "getMaxY": "getMaxX", "any": "all", "all": "any",
         "argmin": "argmax", "argmax": "argmin", "getWidth": "getHeight", "getHeight": "getWidth", "getRa": "getDec", "getDec": "getRa",
         "getX": "getY", "getY": "getX", "append": "extend"}
CHECKS = {
    "packers.py": "C01 C02 C03 C36", "baseSkyMap.py": "C14 C30 C20 C21 C31 C32 C22 C06 C24 C25 C23 C17 C15 C29 C12",
    "cachingSkyMap.py": "C23 C22 C10 C04 C26", "cellInfo.py": "C09 C11 C33 C19 C23 C10", "patchInfo.py": "C09 C10 C11 C33 C19 C23 C15 C12",
    "discreteSkyMap.py": "C29 C30 C31 C22 C20 C21", "dodecaSkyMap.py": "C26 C18 C22 C07 C31 C20 C21 C14", "detail/dodecahedron.py": "C26 C18 C07",
    "equatSkyMap.py": "C27 C31 C20 C21 C22 C06 C30 C14", "healpixSkyMap.py": "C28 C07 C31 C20 C21 C06 C30 C22",
    "ringsSkyMap.py": "C04 C05 C06 C08 C18 C07 C14 C22 C31 C20 C21 C23", "skyMapRegistry.py": "C31 C20 C21",
    "tractBuilder.py": "C09 C10 C11 C33 C34 C17 C20 C21 C31 C23 C12 C13", "tractInfo.py": "C09 C10 C12 C13 C17 C19 C29 C33 C34 C16 C15 C23 C14 C18 C24",
    "detail/utils.py": "C19 C18 C29 C04 C13 C21 C06 C24", "detail/wcsFactory.py": "C16 C34 C27 C17 C31",
    "showVisitSkyMap.py": "C37 C38",
}


def isDoc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def sites(tree):
    """Yields (description, function that changes a copy of the tree in place)."""
    nodes = [n for n in ast.walk(tree)]
    for k, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)

        def at(change, k=k):
            def make():
                t = copy.deepcopy(tree)
                change([x for x in ast.walk(t)][k])
                return t
            return make
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                if type(op) in SWAP:
                    yield line, "compare %s" % type(op).__name__, at(lambda x, i=i: x.ops.__setitem__(i, SWAP[type(x.ops[i])]()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)):
            if type(n.op) in SWAP and not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                yield line, "operator %s" % type(n.op).__name__, at(lambda x: setattr(x, "op", SWAP[type(x.op)]()))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if isinstance(n.value, bool):
                yield line, "constant %r" % n.value, at(lambda x: setattr(x, "value", not x.value))
            elif isinstance(n.value, int):
                yield line, "constant %r+1" % n.value, at(lambda x: setattr(x, "value", x.value + 1))
                if n.value > 0:
                    yield line, "constant %r-1" % n.value, at(lambda x: setattr(x, "value", x.value - 1))
            elif isinstance(n.value, float):
                yield line, "constant %r*1.01" % n.value, at(lambda x: setattr(x, "value", x.value*1.01 or 0.001))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def plain(x):
                x.op = ast.UAdd() if isinstance(x.op, ast.USub) else x.op
                if isinstance(x.op, ast.Not):
                    x.operand = ast.UnaryOp(ast.Not(), x.operand)
            yield line, "without %s" % type(n.op).__name__, at(plain)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield line, "condition true", at(lambda x: setattr(x, "test", ast.Constant(True)))
            yield line, "condition false", at(lambda x: setattr(x, "test", ast.Constant(False)))
        elif isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if name in CALLS:
                def rename(x, name=name):
                    setattr(x.func, "id" if isinstance(x.func, ast.Name) else "attr", CALLS[name])
                yield line, "call %s" % name, at(rename)
            if len(n.args) == 2:
                yield line, "arguments swapped", at(lambda x: x.args.reverse())
            for i, kw in enumerate(n.keywords):
                if kw.arg not in ("doc", "default", "dtype", "help"):
                    yield line, "keyword %s left out" % kw.arg, at(lambda x, i=i: x.keywords.pop(i))
    for k, n in enumerate(nodes):
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            for i, stmt in enumerate(body):
                if isinstance(stmt, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and not isDoc(stmt) or (
                        isinstance(stmt, ast.Assign) and isinstance(n, (ast.If, ast.For))):
                    if isinstance(stmt, ast.Expr) and "logger" in ast.dump(stmt):
                        continue

                    def drop(k=k, field=field, i=i):
                        t = copy.deepcopy(tree)
                        getattr([x for x in ast.walk(t)][k], field)[i] = ast.Pass()
                        return t
                    yield stmt.lineno, "left out: %s" % type(stmt).__name__, drop


def skip(lines, line):
    text = lines[line - 1] if line else ""
    return any(w in text for w in ("raise ", "%r", "__repr__", "__str__", "logger.", "print(", "warn")) and "if " not in text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--share", type=float, default=0.1)
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    args = ap.parse_args()
    todo = []
    for name in args.files:
        path = "doc/_static/skymap/" + name if name == "showVisitSkyMap.py" else "python/lsst/skymap/" + name
        with open(os.path.join(REPO, path)) as f:
            text = f.read()
        tree = ast.parse(text)
        lines = text.splitlines()
        seen = set()
        for i, (line, what, make) in enumerate(sites(tree)):
            if skip(lines, line):
                continue
            try:
                new = ast.unparse(ast.fix_missing_locations(make()))
            except Exception as e:
                print("cannot make", name, line, what, e)
                continue
            if new in seen or new == ast.unparse(tree):
                continue
            seen.add(new)
            todo.append((name, path, i, line, what, lines[line - 1].strip() if line else "", new))
    if args.only:
        want = {tuple(x.rsplit(":", 1)) for x in args.only.split(",")}
        todo = [t for t in todo if (t[0], str(t[2])) in want]
    print(len(todo), "mutants")
    if args.list:
        for t in todo:
            print(t[0], t[2], t[3], t[4], "|", t[5])
        return
    def one(t):
        name, path, i, line, what, text, new = t
        with tempfile.TemporaryDirectory(prefix="verif-mutant-") as scratch:
            tree = os.path.join(scratch, "repo")
            shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            with open(os.path.join(tree, path), "w") as f:
                f.write(new)
            how = "survived"
            e = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=scratch, VERIF_REPLAYS=scratch, VERIF_SHRINK="0.1", PYTHONHASHSEED="0",
                     PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
            try:
                r = subprocess.run([PY, os.path.join(VERIF, "tools", "many.py"), str(args.share)] + CHECKS[name].split(), env=e,
                                   capture_output=True, text=True, timeout=900, cwd=VERIF)
                if r.returncode:
                    how = r.stdout.strip().rsplit("\n", 1)[-1] or r.stderr[-300:]
            except subprocess.TimeoutExpired:
                how = "timeout"
        with open(args.out, "a") as f:
            f.write(json.dumps(dict(file=name, n=i, line=line, what=what, text=text, how=how)) + "\n")
        if how == "survived":
            print("SURVIVED %s:%d line %d %s | %s" % (name, i, line, what, text), flush=True)
    with ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(one, todo))


if __name__ == "__main__":
    main()
