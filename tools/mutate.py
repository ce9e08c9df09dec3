"""Systematic small changes of the package, to see which of them the scripts of the checks notice.

mutate.py list            number of mutants per file
mutate.py tests OUT       which mutants pass the stable tests of the repository (8 at a time)
mutate.py run IN OUT [N]  executes scripts against (N randomly chosen of) these mutants and lets TLC validate the traces that
                          differ from those of the unchanged package
mutate.py sample OUT N SEED  the same for N random mutants that pass the tests
mutate.py memo OUT        the same for the mutants that remember, per object and arguments, the first result of a method
Works in /tmp/mutate; nothing of this is used by the checks.
"""
import ast
import concurrent.futures
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = "/tmp/mutate"
PY = "/opt/venv/bin/python"
FILES = [f for f in sorted(glob.glob(REPO + "/templatefitter/**/*.py", recursive=True))
         if os.path.basename(f) not in ("__init__.py",)]


def mutants_of(tree):
    """Yields (description, function that changes the tree in place) for copies of the tree."""
    nodes = list(ast.walk(tree))
    BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
    CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    for i, n in enumerate(nodes):
        at = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, "binop", at
        if isinstance(n, ast.BinOp):
            yield i, "left", at
            yield i, "right", at
        if isinstance(n, ast.AugAssign):
            yield i, "aug", at
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield i, "cmp", at
        if isinstance(n, ast.BoolOp):
            yield i, "bool", at
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield i, "unary", at
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, "flip", at
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield i, "const+", at
            if n.value:
                yield i, "const-", at
        if isinstance(n, (ast.If, ast.IfExp)):
            yield i, "iftrue", at
            yield i, "iffalse", at
        if isinstance(n, ast.For):
            yield i, "skipfirst", at
            yield i, "skiplast", at
        if isinstance(n, ast.comprehension):
            yield i, "reverse", getattr(n.target, "lineno", 0)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield i, "swap", at
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords:
            yield i, "unwrap", at
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args:
            yield i, "nocall", at
        if isinstance(n, ast.Call) and n.keywords:
            for q in range(len(n.keywords)):
                yield i, "nokw%d" % q, at
        if isinstance(n, ast.Slice) and (n.lower or n.upper):
            yield i, "slice", at
        if hasattr(n, "body") and isinstance(n.body, list):
            for q, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not isinstance(n, (ast.Module, ast.ClassDef)):
                    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield i, "drop%d" % q, s.lineno


MEMO = '''
def _memo(f):
    def g(self, *a, **k):
        c = self.__dict__.setdefault("_memo_", {})
        key = (f.__name__, repr(a), repr(sorted(k.items())))
        if key not in c:
            c[key] = f(self, *a, **k)
        return c[key]
    g.__name__ = f.__name__
    return g
'''


def memos():
    out = []
    for f in FILES:
        tree = ast.parse(open(f).read())
        for i, n in enumerate(ast.walk(tree)):
            if not isinstance(n, ast.ClassDef):
                continue
            for q, s in enumerate(n.body):
                names = [ast.unparse(d) for d in getattr(s, "decorator_list", [])]
                if isinstance(s, ast.FunctionDef) and s.name != "__init__" and not set(names) & {"staticmethod", "classmethod", "abstractmethod"}:
                    out.append(dict(file=os.path.relpath(f, REPO), node=i, kind="memo%d" % q, line=s.lineno, name=n.name + "." + s.name))
    return out


def change(tree, i, kind):
    BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
    CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    nodes = list(ast.walk(tree))
    n = nodes[i]

    def put(new):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                elif isinstance(v, list):
                    for q, w in enumerate(v):
                        if w is n:
                            v[q] = new
    if kind == "binop":
        n.op = BIN[type(n.op)]()
    elif kind == "left":
        put(n.left)
    elif kind == "right":
        put(n.right)
    elif kind == "aug":
        put(ast.Assign([n.target], n.value, lineno=0))
    elif kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "unary":
        put(n.operand)
    elif kind == "flip":
        n.value = not n.value
    elif kind == "const+":
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + (n.value == 0)
    elif kind == "const-":
        n.value = n.value - 1 if isinstance(n.value, int) else n.value * .5
    elif kind == "iftrue":
        n.test = ast.Constant(True)
    elif kind == "iffalse":
        n.test = ast.Constant(False)
    elif kind in ("skipfirst", "skiplast"):
        sl = ast.Slice(ast.Constant(1), None, None) if kind == "skipfirst" else ast.Slice(None, ast.Constant(-1), None)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), sl, ast.Load())
    elif kind == "reverse":
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(None, None, ast.Constant(-1)), ast.Load())
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "unwrap":
        put(n.args[0])
    elif kind == "nocall":
        put(n.func.value)
    elif kind.startswith("nokw"):
        del n.keywords[int(kind[4:])]
    elif kind == "slice":
        if n.lower:
            n.lower = None
        else:
            n.upper = None
    elif kind.startswith("memo"):
        n.body[int(kind[4:])].decorator_list.append(ast.Name("_memo", ast.Load()))
        at = 1 if isinstance(tree.body[0], ast.Expr) else 0
        tree.body[at:at] = ast.parse(MEMO).body
    elif kind.startswith("drop"):
        n.body[int(kind[4:])] = ast.Pass()


def all_mutants():
    out = []
    for f in FILES:
        tree = ast.parse(open(f).read())
        for i, kind, at in mutants_of(tree):
            out.append(dict(file=os.path.relpath(f, REPO), node=i, kind=kind, line=at))
    return out


def text(m):
    src = open(os.path.join(REPO, m["file"])).read()
    tree = ast.parse(src)
    change(tree, m["node"], m["kind"])
    return ast.unparse(ast.fix_missing_locations(tree))


def place(m, d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "examples"))
    try:
        t = text(m)
    except Exception:
        return False
    with open(os.path.join(d, m["file"]), "w") as f:
        f.write(t)
    return True


UNSTABLE = ["test_template1d.py::TestHist1d::test_empty_template", "test_template2d.py::TestHist2d::test_add_variation"]


def tests(m):
    d = tempfile.mkdtemp(dir=WORK)
    try:
        if not place(m, d + "/repo"):
            return None
        base = ast.unparse(ast.parse(open(os.path.join(REPO, m["file"])).read()))
        if open(os.path.join(d, "repo", m["file"])).read() == base:
            return None
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *("--deselect=tests/test_templates/" + x for x in UNSTABLE), "tests"], cwd=d + "/repo",
                           env=dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_scripts(n, seed):
    os.environ["VERIF_N"] = str(n)
    import plan
    out = []
    work = tempfile.mkdtemp(dir=WORK)
    for p in sorted(plan.GEN):
        sc, _ = plan.scripts(p, "quick", seed, work)
        g = random.Random(seed)
        g.shuffle(sc)
        out += sc[:2 * n]
    shutil.rmtree(work)
    return out


def execute(scripts, repo):
    import check
    work = tempfile.mkdtemp(dir=WORK)
    os.environ["VERIF_REPO"] = repo
    try:
        return check.execute(work, scripts)[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def sample(n, seed):
    ms = all_mutants()
    random.Random(seed).shuffle(ms)
    out = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        while ms and len(out) < n:
            part, ms = ms[:64], ms[64:]
            out += [m for m, r in zip(part, ex.map(tests, part)) if r]
    return out[:n]


def run(src, dst, n, ms=None):
    import check
    check.build()
    ms = ms or [m for m in json.load(open(src))]
    random.Random(7).shuffle(ms)
    done = []
    if os.path.exists(dst):
        done = json.load(open(dst))
    keys = {(d["file"], d["node"], d["kind"]) for d in done}
    ms = [m for m in ms[:n] if (m["file"], m["node"], m["kind"]) not in keys]
    stages = []
    for size, seed in ((4, 21), (14, 22)):
        sc = make_scripts(size, seed)
        stages.append((sc, execute(sc, REPO)))
        again = execute(sc, REPO)
        diff = [k for k in range(len(sc)) if again[k] != stages[-1][1][k]]
        print(len(sc), "scripts,", len(diff), "of them not reproducible", flush=True)
    for m in ms:
        d = tempfile.mkdtemp(dir=WORK)
        res = dict(m, verdict="silent", differ=0)
        try:
            if not place(m, d + "/repo"):
                continue
            for sc, base in stages:
                got = execute(sc, d + "/repo")
                if got is None:
                    res["verdict"] = "broken"
                    break
                diff = [k for k in range(len(sc)) if got[k] != base[k]]
                res["differ"] += len(diff)
                if diff:
                    work = tempfile.mkdtemp(dir=WORK)
                    fails, _, _ = check.validate(work, [got[k] for k in diff[:60] if got[k]])
                    shutil.rmtree(work, ignore_errors=True)
                    lost = sum(not got[k] for k in diff)
                    if fails or lost:
                        tags = {}
                        for f in fails:
                            for p in f["p"]:
                                tags[p] = tags.get(p, 0) + 1
                        res.update(verdict="noticed", tags=tags, ops=sorted({f["op"] + "." + f["f"] for f in fails})[:8])
                        break
        except Exception as x:
            res["verdict"] = "error %s" % x
        finally:
            shutil.rmtree(d, ignore_errors=True)
        done.append(res)
        print(json.dumps(res), flush=True)
        with open(dst, "w") as f:
            json.dump(done, f)


if __name__ == "__main__":
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "list":
        ms = all_mutants()
        for f in FILES:
            print(os.path.relpath(f, REPO), sum(m["file"] == os.path.relpath(f, REPO) for m in ms))
        print(len(ms))
    elif sys.argv[1] == "tests":
        ms = all_mutants()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(tests, ms))
        json.dump([m for m, r in zip(ms, rs) if r], open(sys.argv[2], "w"), indent=0)
        print(len(ms), "mutants,", sum(r is None for r in rs), "not made,", sum(r is True for r in rs), "pass the tests")
    elif sys.argv[1] == "sample":
        n, seed = int(sys.argv[3]), int(sys.argv[4])
        run(None, sys.argv[2], n, sample(n, seed))
    elif sys.argv[1] == "memo":
        ms = memos()
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            ms = [m for m, r in zip(ms, ex.map(tests, ms)) if r]
        print(len(ms), "pass the tests")
        run(None, sys.argv[2], 10 ** 6, ms)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 6)
