"""plant.py [ID...]: makes seeded/<id>/ from the definitions in bugs.py and confirms each one in a
scratch copy: the patch applies, the package imports, the stable tests pass, the demonstration
passes without and fails with the change.  plant.py --check ID... runs the check of the bug's
property (and of those given with +PROP) against the changed copy."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCRATCH = "/tmp/plant"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTHONHASHSEED="0")
HEAD = """import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
"""
DEMO = """#!/bin/bash
# exit 0: the property holds for the demonstrated use, otherwise it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, **kw))


def copy(ident):
    d = os.path.join(SCRATCH, ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def make(b):
    d = copy(b["id"])
    out = os.path.join(ROOT, "seeded", b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, "templatefitter", f)
            s = open(p).read()
            n = s.count(old)
            if n != b.get("count", 1):
                return b["id"], "old text occurs %d times: %r" % (n, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        # confirm: changed
        blame = original(diff, d)
        if not blame:
            return b["id"], "changes no original line"
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], d, PYTHONPATH=d)
        if " passed" not in r.stdout or "failed" in r.stdout or "47 passed" not in r.stdout:
            return b["id"], "tests: " + r.stdout[-300:]
        r = sh(["bash", os.path.join(out, "demo.sh")], d)
        if r.returncode == 0:
            return b["id"], "demo passes with the change"
        if r.returncode == 124 or "Error" in r.stdout and "AssertionError" not in r.stdout:
            note = " (demo: %s)" % r.stdout.strip().splitlines()[-1][:150]
        else:
            note = ""
        sh(["git", "checkout", "--", "."], d)
        r = sh(["bash", os.path.join(out, "demo.sh")], d)
        if r.returncode != 0:
            return b["id"], "demo fails without the change: " + r.stdout[-400:]
        return b["id"], "ok" + note
    finally:
        shutil.rmtree(d, ignore_errors=True)


def original(diff, d):
    """Whether a removed line is one of the original repository."""
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.strip()
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            text = subprocess.run(["git", "show", base + ":" + f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in text:
            return True
    return False


def check(ident, props):
    d = copy(ident)
    try:
        r = sh(["git", "apply", os.path.join(ROOT, "seeded", ident, "patch.diff")], d)
        if r.returncode:
            return ident, {"": "patch does not apply"}
        res = {}
        for p in props:
            r = sh([PY, os.path.join(ROOT, "harness", "check.py"), p], ROOT, VERIF_REPO=d)
            v = "VIOLATION property=%s" % p in r.stdout
            res[p] = ("caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "rc %d %s" % (r.returncode, r.stdout[-200:]))
            open("/tmp/plant/%s.%s.out" % (ident, p), "w").write(r.stdout)
        return ident, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "--check":
        ids = [a for a in args[1:] if not a.startswith("+")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
        extra = [a[1:] for a in args[1:] if a.startswith("+")]
        for i in ids:
            p = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))["property"]
            print(*check(i, [p] + extra), flush=True)
    else:
        import bugs
        import bugs2  # noqa: F401
        import bugs3  # noqa: F401
        import bugs4  # noqa: F401
        import bugs5  # noqa: F401
        import bugs6  # noqa: F401
        import bugs7  # noqa: F401
        import bugs8  # noqa: F401
        import bugs9  # noqa: F401
        import bugs10  # noqa: F401
        todo = [b for b in bugs.BUGS if not args or b["id"] in args]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, todo):
                print(*r, flush=True)
