"""Would the checks notice?

vacuity.py fields [N]   corrupts every field that is recorded for every operation (some events of the scripts of all
                        properties, N random scripts each) and validates: fields that are never judged are listed.
vacuity.py spec [N]     changes N places of the definitions of the specification and runs the models (to a small depth),
                        and the validation of recorded traces against it: a change that nothing rejects is listed.
"""
import copy
import json
import os
import random
import re
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import check   # noqa: E402
import plan    # noqa: E402

NUM = re.compile(r"^-?\d+(\.\d+)?([eE][-+]?\d+)?$")


def corrupt(v, g):
    """A value that differs from v noticeably in one place (None: no idea)."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        if NUM.match(v):
            x = float(v)
            return repr(x + (0.37 if x == 0 else x * 0.43))
        return {"nan": "1.0", "inf": "1.0"}.get(v, v + "x")
    if isinstance(v, list):
        if not v:
            return None
        for i in g.sample(range(len(v)), len(v)):
            c = corrupt(v[i], g)
            if c is not None:
                return v[:i] + [c] + v[i + 1:]
        return None
    if isinstance(v, dict):
        k = g.choice(sorted(v)) if v else None
        c = corrupt(v[k], g) if v else None
        return None if c is None else dict(v, **{k: c})


def traces_of(props, n, work, seed):
    os.environ["VERIF_N"] = str(n)
    out = []
    for p in props:
        scripts, _ = plan.scripts(p, "quick", seed, work)
        g = random.Random(seed)
        g.shuffle(scripts)
        traces, log = check.execute(work, scripts[:3 * n])
        out += [t for t in traces if t]
        print(p, len(out), flush=True)
    return out


def fields(n, per=6):
    work = tempfile.mkdtemp(prefix="vac_")
    g = random.Random(5)
    check.build()
    try:
        props = sorted(plan.GEN)
        traces = traces_of(props, n, work, 11)
        where = {}
        for k, t in enumerate(traces):
            for i, e in enumerate(t):
                o = e["out"]
                key = (e["op"], "(accepted)" if o["ok"] else "(rejected)")
                where.setdefault(key, []).append((k, i))
                if o.get("obs"):
                    for f in o["val"]:
                        where.setdefault((e["op"], f if o["ok"] else f + " after rejection"), []).append((k, i))
        batch, keys = [], []
        for key, at in sorted(where.items()):
            left = per
            for k, i in g.sample(at, len(at)):
                if not left:
                    break
                t = copy.deepcopy(traces[k][:i + 1])
                o = t[i]["out"]
                if key[1].startswith("("):
                    o["ok"] = not o["ok"]
                else:
                    f = key[1].replace(" after rejection", "")
                    c = corrupt(o["val"][f], g)
                    if c is None:
                        continue
                    o["val"][f] = c
                left -= 1
                batch.append(t)
                keys.append((key, i))
        print(len(where), "fields,", len(batch), "corrupted traces", flush=True)
        hit = {}
        for a in range(0, len(batch), 2500):
            fails, _, _ = check.validate(work, batch[a:a + 2500])
            for f in fails:
                key, i = keys[a + f["t"]]
                if f["l"] == i:
                    hit.setdefault(key, {}).setdefault(a + f["t"], set()).update(f["p"])
        total = {}
        for key, _ in keys:
            total[key] = total.get(key, 0) + 1
        never, some = [], []
        for key in sorted(where):
            h = len(hit.get(key, {}))
            tags = set().union(*hit.get(key, {}).values()) if h else set()
            if not h:
                never.append((key, total.get(key, 0)))
            else:
                some.append((key, h, total[key], sorted(tags)))
        for key, h, n_, tags in some:
            print("%-12s %-28s %d/%d %s" % (key[0], key[1], h, n_, " ".join(tags)))
        print("NEVER JUDGED")
        for key, n_ in never:
            print("%-12s %-28s 0/%d" % (key[0], key[1], n_))
    finally:
        shutil.rmtree(work, ignore_errors=True)


CORES = ["HistCore", "TemplateCore", "ModelCore", "FitCore", "StatsCore", "ToyCore", "TemplateFitter", "Num"]
SWAPS = [(r"\bDAdd\(", "DSub("), (r"\bDSub\(", "DAdd("), (r"\bDMul\(", "DDiv("), (r"\bDDiv\(", "DMul("), (r"\bDLe\(", "DLt("),
         (r"\bDLt\(", "DLe("), (r"\bDAbs\(", "("), (r"\bDSqrt\(", "("), (r"\bDNeg\(", "("), (r"\\A ", r"\\E "), (r"\\E ", r"\\A "),
         (r"\\cup", r"\\cap"), (r"\\cap", r"\\cup"), (r"(?<=\S) /\\ ", r" \\/ "), (r"(?<=\S) \\/ ", r" /\\ "), (r"~", ""),
         (r" = ", " # "), (r" # ", " = "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"\b1 \.\.", "2 .."),
         (r" \+ 1\b", " + 2"), (r" - 1\b", " - 0"), (r'"0"', '"1"'), (r'"1"', '"2"'), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"),
         (r"\bmin\b", "max"), (r"\\in\b", r"\\notin"), (r"\\notin\b", r"\\in"),
         (r"^(\s*)/\\ (?!\w+' ).+$", r"\1/\\ TRUE"), (r"^(\s*)\\/ .+$", r"\1\\/ FALSE")]


def spec_mutants():
    for mod in CORES:
        text = open(os.path.join(ROOT, "spec", mod + ".tla")).read()
        body = text.index("\n", text.index("----")) + 1
        depth = 0
        lines = text.split("\n")
        pos = 0
        for n, line in enumerate(lines):
            a = pos
            pos += len(line) + 1
            depth += line.count("(*") - line.count("*)")
            code = line.split("\\*")[0]
            if a < body or depth or "(*" in code or not code.strip() or code.startswith(("EXTENDS", "CONSTANT", "VARIABLE", "LOCAL INST")):
                continue
            for old, new in SWAPS:
                for m in re.finditer(old, code):
                    before = code[:m.start()]
                    if "in" in old and re.search(r"(\[|\\A|\\E|\{|CHOOSE)\s*[\w, ]*$", before):
                        continue
                    if before.endswith("e.op") or code.startswith("Init") or "Nothing" in code:
                        continue
                    if old == " = " and (before.endswith("'") or re.search(r"EXCEPT !?[^=]*$|!\.\w+$|![\[\]\w.]+$", before)):
                        continue
                    made = code[:m.start()] + m.expand(new) + code[m.end():]
                    if made != code:
                        yield mod, n, line, made


def try_spec(job):
    (mod, n, line, made), traces, work = job
    sub = tempfile.mkdtemp(dir=work)
    shutil.copytree(os.path.join(ROOT, "spec"), sub + "/spec")
    f = "%s/spec/%s.tla" % (sub, mod)
    lines = open(f).read().split("\n")
    lines[n] = made
    open(f, "w").write("\n".join(lines))
    check.SPEC = sub + "/spec"
    check.CORES = 1
    by = []
    order = {"HistCore": "MC_Hist", "TemplateCore": "MC_Tmpl", "ModelCore": "MC_Model", "FitCore": "MC_Fit", "StatsCore": "MC_Stat",
             "ToyCore": "ToyStudy"}
    mods = []
    for ms in plan.MODELS.values():
        mods += [m for m in ms if m not in mods]
    cfg = ("SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nCONSTANTS Setup <- Setup%d\nMenu <- Menu%d\nFinale <- Tail%d\n"
           "Depth = %d\nFull = %s\nMemory = %d\nINVARIANTS %s\nPROPERTY %s\n")
    jobs = [(m.module, cfg % ((m.variant,) * 3 + (min(2, m.quick[0]), "TRUE" if m.quick[1] else "FALSE", m.quick[2], m.inv, m.laws)))
            for m in mods]
    sp = []
    for ss in plan.SPECIAL.values():
        sp += [x for x in ss if x not in sp]
    jobs += [(x.module, x.cfg[0]) for x in sp]
    jobs.sort(key=lambda j: j[0] != order.get(mod))
    for module, cfg in jobs:
        rc, out = check.tlc(sub, module, cfg, 1, xmx="2g", timeout=300)
        if "Semantic errors" in out or "Parse Error" in out or "Parsing or semantic" in out or "Unknown operator" in out:
            shutil.rmtree(sub)
            return None
        if rc:
            by.append(module)
            break
    try:
        r = check.attempt(sub, traces, list(range(len(traces))), 1, False, 900)
        if isinstance(r, str) or r[0]:
            by.append("traces")
    except check.Broken:
        by.append("traces")
    shutil.rmtree(sub, ignore_errors=True)
    return by


def spec(n):
    import concurrent.futures
    work = tempfile.mkdtemp(prefix="vac_")
    check.build()
    os.environ["VERIF_MODELS"] = "0"
    try:
        traces = traces_of(sorted(plan.GEN), 8, work, 17)
        fails, _, _ = check.validate(work, traces)
        print(len(traces), "traces,", len(fails), "failures without a change", flush=True)
        ms = list(spec_mutants())
        some = random.Random(3).sample(ms, min(n, len(ms)))
        print(len(ms), "changes possible,", len(some), "tried", flush=True)
        tally = {}
        with concurrent.futures.ProcessPoolExecutor(int(os.environ.get("WORKERS", "8"))) as ex:
            for m, by in zip(some, ex.map(try_spec, [(m, traces, work) for m in some])):
                k = "not valid" if by is None else " and ".join(sorted({"models" if b != "traces" else b for b in by})) or "NOTHING"
                tally[k] = tally.get(k, 0) + 1
                if k == "NOTHING":
                    print("%s:%d\n   - %s\n   + %s" % (m[0], m[1] + 1, m[2].strip(), m[3].strip()), flush=True)
        print(tally)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "fields":
        fields(int(sys.argv[2]) if len(sys.argv) > 2 else 25)
    else:
        spec(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
