#!/usr/bin/env python3
"""Development tool: a mutation campaign, to find what no check sees.

mutants.py gen OUT.jsonl              list small source changes (one per line)
mutants.py tests IN.jsonl OUT.jsonl   keep those which pass the repository's stable tests
mutants.py show IN.jsonl N            print the diff of mutant N
"""
import ast
import copy
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("REPO", "/repo")
PY = "/opt/venv/bin/python"
TOPS = ("anthunder", "mysockpool", "mytracer")
SKIP_FUNCS = {"__repr__", "__str__", "errordesc"}


def files():
    for t in TOPS:
        for d, _, fs in sorted(os.walk(os.path.join(REPO, t))):
            for f in sorted(fs):
                if f.endswith(".py"):
                    yield os.path.relpath(os.path.join(d, f), REPO)


def is_log(n):
    return isinstance(n, ast.Expr) and (
        isinstance(n.value, ast.Constant)
        or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)
        and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in ("logger", "logging", "traceback"))


SIMPLE = (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break, ast.Delete)
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}


def bodies(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b


def ops(tree):
    """yields (line, description, apply) where apply() changes the tree in place"""
    infunc = {}

    def mark(n, fn):
        for c in ast.iter_child_nodes(n):
            f2 = c.name if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
            infunc[c] = f2
            mark(c, f2)
    mark(tree, None)
    for n in list(ast.walk(tree)):
        fn = infunc.get(n)
        if fn in SKIP_FUNCS:
            continue
        inf = fn is not None or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in SKIP_FUNCS:
            continue
        if inf:
            for f, b in bodies(n):
                for i, s in enumerate(b):
                    if is_log(s):
                        continue
                    if isinstance(s, SIMPLE):
                        def dele(b=b, i=i, s=s):
                            b[i] = ast.copy_location(ast.Pass(), s)
                        if isinstance(s, ast.Return) and s.value is not None:
                            def retn(b=b, i=i, s=s):
                                b[i] = ast.copy_location(ast.Return(value=None), s)
                            if not (isinstance(s.value, ast.Constant) and s.value.value is None):
                                yield s.lineno, "return None", retn
                        else:
                            yield s.lineno, "delete statement", dele
                    if isinstance(s, (ast.With, ast.AsyncWith)):
                        def unwith(b=b, i=i, s=s):
                            b[i:i + 1] = s.body
                        if all(w.optional_vars is None for w in s.items):
                            yield s.lineno, "drop with", unwith
                    if isinstance(s, ast.Try):
                        if s.finalbody:
                            def unfin(b=b, i=i, s=s):
                                if s.handlers:
                                    b[i + 1:i + 1] = s.finalbody
                                    s.finalbody = []
                                else:
                                    b[i:i + 1] = s.body + s.finalbody
                            yield s.lineno, "finally only when nothing is raised", unfin
                        for j, h in enumerate(s.handlers):
                            def unh(s=s, j=j, b=b, i=i):
                                del s.handlers[j]
                                if not s.handlers and not s.finalbody:
                                    b[i:i + 1] = s.body + s.orelse
                            yield h.lineno, "drop handler", unh
                    if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not is_log(b[i + 1]) \
                            and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.With, ast.If)):
                        def swap(b=b, i=i):
                            b[i], b[i + 1] = b[i + 1], b[i]
                        yield s.lineno, "swap with next statement", swap
                    if isinstance(s, ast.With) and len(s.body) > 1:
                        def early(b=b, i=i, s=s):
                            last = s.body.pop()
                            b.insert(i + 1, last)
                        yield s.lineno, "last statement moved out of with", early

                        def late(b=b, i=i, s=s):
                            first = s.body.pop(0)
                            b.insert(i, first)
                        yield s.lineno, "first statement moved before with", late
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in CMP.get(type(n.ops[0]), []):
                def cmp(n=n, alt=alt):
                    n.ops[0] = alt()
                yield n.lineno, "compare -> " + alt.__name__, cmp
        if isinstance(n, ast.BoolOp):
            def bo(n=n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield n.lineno, "and <-> or", bo
            for j in range(len(n.values)):
                def drop(n=n, j=j):
                    del n.values[j]
                if len(n.values) > 1:
                    def drop1(n=n, j=j):
                        n.values = [n.values[1 - j]] * 2 if len(n.values) == 2 else n.values[:j] + n.values[j + 1:]
                    yield n.lineno, "drop operand %d" % j, drop1
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue

                def cond(n=n, v=v):
                    n.test = ast.copy_location(ast.Constant(v), n.test)
                if not (isinstance(n.test, ast.Constant) and n.test.value is v):
                    yield n.lineno, "condition -> %s" % v, cond
        if isinstance(n, ast.Constant) and inf and not isinstance(n.value, (str, bytes)) or \
                isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if isinstance(n.value, bool):
                def fl(n=n):
                    n.value = not n.value
                yield n.lineno, "flip constant", fl
            elif isinstance(n.value, (int, float)):
                for d in ([1, -1] if n.value else [1]):
                    def add(n=n, d=d):
                        n.value = n.value + d
                    yield n.lineno, "constant %r %+d" % (n.value, d), add
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and inf and fn is not None \
                and len(n.value) < 30:
            pass
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.FloorDiv)) \
                and not isinstance(n.left, ast.Constant):
            def ar(n=n):
                n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
                        ast.Mod: ast.Add, ast.FloorDiv: ast.Mult}[type(n.op)]()
            yield n.lineno, "arithmetic", ar
        if isinstance(n, ast.Call) and inf:
            for j, kwd in enumerate(n.keywords):
                def dk(n=n, j=j):
                    del n.keywords[j]
                yield n.lineno, "drop keyword %s" % kwd.arg, dk
            if isinstance(n.func, ast.Attribute) and n.func.attr == "ensure_future":
                pass
        if isinstance(n, ast.Await) and inf and isinstance(n.value, ast.Call):
            def na(n=n):
                n.value = ast.Call(func=ast.Attribute(ast.Name("asyncio", ast.Load()), "sleep", ast.Load()),
                                   args=[ast.Constant(0), n.value], keywords=[])
            yield n.lineno, "do not await", na
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr in ("ensure_future", "create_task") and inf:
            def aw(n=n):
                n.value = ast.Await(n.value.args[0])
            yield n.lineno, "await in place", aw
        if isinstance(n, ast.ExceptHandler) and n.type is not None and inf:
            ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            if len(ts) > 1:
                for j in range(len(ts)):
                    def dt(n=n, j=j):
                        n.type = ast.Tuple(elts=n.type.elts[:j] + n.type.elts[j + 1:], ctx=ast.Load())
                    yield n.lineno, "drop exception type %d" % j, dt
            if not any(isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts):
                def we(n=n):
                    n.type = ast.Name("Exception", ast.Load())
                yield n.lineno, "except Exception", we
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def nn(n=n):
                n.op = ast.Not()
                n.operand = ast.UnaryOp(ast.Not(), n.operand)
            yield n.lineno, "drop not", nn


def gen(out):
    k = 0
    with open(out, "w") as fo:
        for f in files():
            src = open(os.path.join(REPO, f)).read()
            base = ast.unparse(ast.parse(src))
            n = len(list(ops(ast.parse(src))))
            seen = set()
            for i in range(n):
                tree = ast.parse(src)
                line, what, ap = list(ops(tree))[i]
                try:
                    ap()
                    new = ast.unparse(ast.fix_missing_locations(tree))
                    compile(new, f, "exec")
                except Exception:
                    continue
                if new == base or new in seen:
                    continue
                seen.add(new)
                fo.write(json.dumps({"id": k, "file": f, "line": line, "what": what, "src": new}) + "\n")
                k += 1
    print(k, "mutants")


def make(m, pfx="mut."):
    tmp = tempfile.mkdtemp(prefix=pfx)
    c = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", REPO, c])
    with open(os.path.join(c, m["file"]), "w") as f:
        f.write(m["src"])
    return tmp, c


def tests(inp, out):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    import xml.etree.ElementTree as ET
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    ms = [json.loads(l) for l in open(inp)]
    fo = open(out, "a")

    def one(m):
        tmp, c = make(m)
        try:
            x = os.path.join(tmp, "j.xml")
            try:
                subprocess.run(["unshare", "-rn", "bash", "-c", "ip link set lo up; exec timeout -k 5 60 %s -m pytest -q -x -p no:cacheprovider "
                                "--timeout=30 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests" % (PY, x)],
                               cwd=c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
                ok = {"%s::%s" % (t.get("classname"), t.get("name")) for t in ET.parse(x).getroot().iter("testcase")
                      if not [y for y in t if y.tag in ("failure", "error", "skipped")]}
                return m, not (stable - ok)
            except Exception:
                return m, False
        finally:
            shutil.rmtree(tmp)
    kept = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for m, ok in ex.map(one, [m for m in ms if m["id"] not in done]):
            m["pass"] = ok
            kept += ok
            fo.write(json.dumps(m) + "\n")
            fo.flush()
    print(kept, "pass the tests")


def show(inp, n):
    for l in open(inp):
        m = json.loads(l)
        if m["id"] == n:
            a = ast.unparse(ast.parse(open(os.path.join(REPO, m["file"])).read())).splitlines()
            print(m["file"], m["line"], m["what"])
            print("\n".join(difflib.unified_diff(a, m["src"].splitlines(), lineterm="", n=3)))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "tests":
        tests(sys.argv[2], sys.argv[3])
    else:
        show(sys.argv[2], int(sys.argv[3]))
