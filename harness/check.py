"""check.py PROPERTY [quick|thorough]   or   check.py --replay FILE

Decides a property: model checks the specification where it has a finite model
for it, makes scripts of calls (from the behaviours of these models and at
random), executes them against /repo and lets TLC check the recorded traces
against the specification.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla"
CP = ":".join([BUILD, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
CORES = 8


def log(*a):
    print(*a, flush=True)


sys.modules.setdefault("check", sys.modules[__name__])


class Broken(Exception):
    """The check itself does not work."""


def build():
    if not os.path.exists(os.path.join(BUILD, "Dec.class")):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, os.path.join(ROOT, "java", "Dec.java")],
                       check=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
        os.rmdir(tmp)


def tlc(work, module, cfg, workers, xmx="6g", extra=(), timeout=800):
    path = os.path.join(work, "%s_%d.cfg" % (module, random.randrange(10 ** 9)))
    with open(path, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + xmx, "-Xss64m", "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", path, *extra,
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return 999, (out.decode() if isinstance(out, bytes) else out) + "\nTIMEOUT"


def tuples(out, tag):
    """The JSON of all printed lines <<"tag", "json">>."""
    res = []
    for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def execute(work, scripts, tag="x"):
    fin, fout = os.path.join(work, tag + ".in.json"), os.path.join(work, tag + ".out.json")
    with open(fin, "w") as f:
        json.dump(scripts, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=os.path.join(work, "mpl"))
    p = subprocess.run([PY, os.path.join(ROOT, "harness", "runner.py"), fin, fout, str(CORES)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode:
        return None, p.stdout
    return json.load(open(fout)), p.stdout


SLICE = 2500


def validate(work, traces, timeout=800):
    """Returns failures [{t (index from 0), l (from 0), op, p, f, e, v}], distinct states, transitions."""
    fails, st, tr = [], 0, 0
    for a in range(0, len(traces), SLICE):
        todo = list(range(a, min(a + SLICE, len(traces))))
        r = attempt(work, traces, todo, CORES, False, timeout)
        if isinstance(r, str):
            # some outcome cannot even be evaluated: look for it in small groups
            log("note: TLC stopped: " + " | ".join([x for x in r.splitlines() if "FAIL" not in x and ("rror" in x or "ttempted" in x)][:4])[:600])
            groups = [todo[k::32] for k in range(32)]
            with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
                rs = list(ex.map(lambda grp: careful(work, traces, grp, timeout), [grp for grp in groups if grp]))
            r = (sum((x[0] for x in rs), []), sum(x[1] for x in rs), sum(x[2] for x in rs))
        fails, st, tr = fails + r[0], st + r[1], tr + r[2]
    return fails, st, tr


def attempt(work, traces, todo, workers, marks, timeout):
    """One run of TLC: what validate returns, or the output if it stops."""
    sub = tempfile.mkdtemp(prefix="val_", dir=work)
    path = os.path.join(sub, "traces.json")
    with open(path, "w") as f:
        json.dump([traces[k] for k in todo], f)
    cfg = 'SPECIFICATION TraceSpec\nVIEW TraceView\nCHECK_DEADLOCK FALSE\nCONSTANTS File = "%s"\nMarks = %s\n' % (
        path, "TRUE" if marks else "FALSE")
    rc, out = tlc(sub, "Trace", cfg, workers, xmx="6g" if workers > 1 else "2g", timeout=timeout)
    shutil.rmtree(sub, ignore_errors=True)
    if rc == 999:
        raise Broken("trace validation takes too long")
    if rc:
        return out
    s, t = counts(out)
    expect = sum(len(traces[k]) + 1 for k in todo)
    if s != expect:
        raise Broken("validation incomplete: %d of %d states" % (s, expect))
    return [dict(x, t=todo[x["t"] - 1], l=x["l"] - 1) for x in tuples(out, "FAIL")], s, t - len(todo)


def careful(work, traces, todo, timeout):
    """Traces with calls whose outcome the specification cannot evaluate."""
    bad = []
    while todo:
        r = attempt(work, traces, todo, 1, True, timeout)
        if not isinstance(r, str):
            return bad + r[0], r[1], r[2]
        at = tuples(r, "AT")
        if not at:
            raise Broken("TLC failed\n" + r[-3000:])
        k = todo[at[-1]["t"] - 1]
        bad += [dict(x, t=k, l=x["l"] - 1) for x in tuples(r, "FAIL") if todo[x["t"] - 1] == k]
        bad.append(dict(t=k, l=at[-1]["l"] - 1, op=at[-1]["op"], p=at[-1]["p"], f="no explanation", e="", v=""))
        todo = [q for q in todo if q != k]
        if len(bad) > 50:
            log("note: %d traces were not validated" % len(todo))
            todo = []
    return bad, 0, 0


def show(x, n=160):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def replay_file(prop, trace, bad):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    script = [{k: v for k, v in e.items() if k != "out"} for e in trace[:max(b["l"] for b in bad) + 1]]
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps(script, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(dict(property=prop, script=script, failures=bad), f, indent=1)
    return path


def main():
    import plan
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        rc = run(plan, prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def run(plan, prop, tier, seed, work, t0):
    scripts, ev = plan.scripts(prop, tier, seed, work)
    t1 = time.time()
    traces, out = execute(work, scripts)
    if traces is None:
        if "Error" in out:
            log(out[-3000:])
        raise Broken("the package cannot be executed")
    t2 = time.time()
    left = sum(not tr for tr in traces)
    traces = [tr for tr in traces if tr]
    if left:
        log("note: %d scripts were left out after calls without an answer" % left)
    fails, states, trans = validate(work, traces, 800 if tier == "quick" else 3000)
    t3 = time.time()
    mine = [f for f in fails if prop in f["p"]]
    other = [f for f in fails if prop not in f["p"]]
    ops, rejected = {}, 0
    for tr in traces:
        for e in tr:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            rejected += not e["out"]["ok"]
    rng = random.Random(seed)
    sample = [[{k: v for k, v in e.items() if k != "out"} for e in traces[k]][:6]
              for k in rng.sample(range(len(traces)), min(2, len(traces)))]
    sample = [[json.loads(show(e, 10 ** 9)) if len(json.dumps(e)) < 1200 else dict(op=e["op"], id=e.get("id", ""), note="long")
               for e in s] for s in sample]
    cov = dict(states=states + ev["states"], transitions=trans + ev["transitions"],
               traces_validated_against_impl=len(traces), samples=sample,
               trace_states=states, calls=sum(ops.values()), rejected_calls=rejected, calls_by_operation=ops,
               model_runs=ev["models"], scripts_by_source=ev["sources"], failures_of_other_properties=len(other),
               seconds=dict(models=round(t1 - t0, 1), execution=round(t2 - t1, 1), validation=round(t3 - t2, 1)))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(mine)), f, indent=1)
    log("%s %s: %d traces, %d calls (%d rejected), %d states; %.0f s models, %.0f s execution, %.0f s validation" % (
        prop, tier, len(traces), sum(ops.values()), rejected, cov["states"], t1 - t0, t2 - t1, t3 - t2))
    for f in other[:5]:
        log("note: %s %s.%s of trace %d call %d: expected %s, found %s" % (
            ",".join(f["p"]), f["op"], f["f"], f["t"], f["l"], show(f["e"]), show(f["v"])))
    if not mine:
        return 0
    by = {}
    for f in mine:
        by.setdefault(f["t"], []).append(f)
    for n, (t, fs) in enumerate(sorted(by.items(), key=lambda x: len(traces[x[0]]))):
        if n >= 5:
            log("... %d more traces" % (len(by) - 5))
            break
        path = replay_file(prop, traces[t], fs)
        f = fs[0]
        log("%s.%s: expected %s, found %s" % (f["op"], f["f"], show(f["e"], 300), show(f["v"], 300)))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    d = json.load(open(path))
    build()
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        traces, out = execute(work, [d["script"]])
        if traces is None:
            raise Broken(out)
        fails, _, _ = validate(work, traces)
        for f in fails:
            log("call %d %s.%s %s: expected %s, found %s" % (f["l"], f["op"], f["f"], f["p"], show(f["e"], 600), show(f["v"], 600)))
        bad = [f for f in fails if d["property"] in f["p"]]
        if bad:
            log("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        sys.exit(main())
    except Broken as x:
        log("BROKEN CHECK: %s" % x)
        sys.exit(3)
