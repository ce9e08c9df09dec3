"""Which models and which scripts decide which property."""
import concurrent.futures
import json
import os
import random
import re

import gen
import gen2
from gen import R

ASSUMPTIONS = [
    "one thread calls the package; a call is one step of the specification (profile scans and toy studies have finer models of their own)",
    "what the public interface shows after a call is the state of its objects; state that no call shows does not matter",
    "histories are finite sequences of calls as long as the scripts, with the numbers of the menus and generators",
    "java.math.BigDecimal with 34 digits evaluates the arithmetic of the specification (laws checked in spec/DecTest.tla)",
    "numbers agree within the tolerances of spec/Expect.tla (DESIGN.md, section 3)",
    "inputs listed in DESIGN.md, section 3 (What is kept out) do not occur",
    "a minimisation of a likelihood may fail; only fits that report success are judged",
]

# ---- random scripts: property -> [(generator, number in quick, number in thorough)]
GEN = {p: [(p, 150, 3000)] for p in ("H01", "H02", "H03", "H04", "T01", "T02", "T03", "T04",
       "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "F01", "F06", "S01", "U01", "P01", "L01", "L02")}
GEN.update({p: [(p, 100, 1500)] for p in ("F02", "F03", "F04", "F05", "Y01", "Y02", "Y03")})


class Mod:
    """A finite model: (module, variant), depth, memory and whether all sequences are distinguished, for
    quick and thorough, the invariants, and how many of its behaviours are replayed."""

    def __init__(self, module, variant, quick, thorough, inv, replay=(100, 3000), laws="Laws"):
        self.laws = laws
        self.module, self.variant, self.quick, self.thorough, self.inv, self.replay = module, variant, quick, thorough, inv, replay


T_, F_ = True, False
HIST1 = Mod("MC_Hist", 1, (3, T_, 9), (4, T_, 9), "Basic HistHistory GeometryOk")
HIST2 = Mod("MC_Hist", 2, (3, T_, 9), (4, T_, 9), "Basic HistHistory GeometryOk ProjectionOk")
TMPL = [Mod("MC_Tmpl", v, (2, T_, 9), (3, T_, 9), "Basic TmplHistory FractionsOk CovariancesOk", (80, 3000)) for v in (1, 2, 3)]
TPLOT = [Mod("MC_Tmpl", v, (2, F_, 1), (3, F_, 1), "Basic", (40, 800)) for v in (4, 5)]
MOD1 = Mod("MC_Model", 1, (4, F_, 1), (6, F_, 1), "Basic LayoutOk", (150, 4000))
MOD2 = Mod("MC_Model", 2, (3, F_, 1), (4, F_, 1), "Basic LayoutOk AsimovOk", (100, 2000))
MOD3 = Mod("MC_Model", 3, (2, F_, 2), (3, F_, 2), "Basic LikelihoodOk", (120, 1500))
MOD3D = Mod("MC_Model", 3, (1, F_, 1), (2, F_, 0), "DerivativesOk AsimovOk LikelihoodOk", (30, 200))
MOD4 = Mod("MC_Model", 4, (3, F_, 1), (4, F_, 1), "Basic AsimovOk", (100, 2000))
MPLOT = Mod("MC_Model", 5, (2, F_, 1), (3, F_, 1), "Basic", (40, 500))
FIT = [Mod("MC_Fit", v, (2, F_, 1), (3, F_, 1), "Basic FittersOk", (60, 900)) for v in (1, 2)]
MIN = [Mod("MC_Min", v, (3, F_, 1), (4, F_, 1), "MinimisersOk", (60, 1200)) for v in (1, 2)]
PAR = Mod("MC_Min", 3, (3, T_, 1), (4, T_, 1), "Basic", (100, 3000))
LEG = [Mod("MC_Leg", v, (3, T_, 1), (4, T_, 1), "Basic LegacyHistOk", (100, 2000)) for v in (1, 2)]
LEGT = Mod("MC_Leg", 3, (3, F_, 1), (4, F_, 2), "Basic LegacyStackOk", (120, 2000))
TOYS = [Mod("MC_Toy", v, (2, T_, 9), (3, T_, 9), "Basic AvailableOk", (40, 400), "Laws LinState") for v in (1, 2)]
MODELS = {
    "H01": [HIST1], "H02": [HIST2], "H03": [HIST1, HIST2], "H04": [HIST1, HIST2],
    "T01": TMPL, "T02": TMPL, "T03": TMPL[:2], "T04": TMPL,
    "M01": [MOD1], "M02": [MOD2, MOD1], "M03": [MOD2], "M04": [MOD3, MOD3D], "M05": [MOD3], "M06": [MOD4], "M07": [MOD4],
    "M08": [MOD2], "F01": FIT + MIN, "F02": FIT + MIN, "F03": FIT, "F04": FIT[:1], "F05": FIT, "F06": [PAR] + MIN,
    "Y01": TOYS[:1], "Y02": TOYS, "Y03": TOYS[:1],
    "P01": TPLOT + [MPLOT], "L01": LEG, "L02": [LEGT],
}


class Special:
    """A model with its own way from behaviours (lines RUN) to scripts."""

    def __init__(self, module, cfg, make, replay=(100, 2000)):
        self.module, self.cfg, self.make, self.replay = module, cfg, make, replay


def stat_scripts(runs, g, n, tier):
    g.shuffle(runs)
    runs = runs[:6 * n]
    return [runs[k:k + 6] for k in range(0, len(runs), 6)]


def toy_scripts(runs, g, n, tier):
    """Every script is a sequence of studies of one model."""
    g.shuffle(runs)
    out, k = [], 0
    while len(out) < n and k < len(runs):
        s = gen.S(g)
        m = gen2.toy_model(s, g)
        y = s.id("y")
        s.do("y_new", id=y, m=m.m, min="iminuit")
        for _ in range(g.choice([1, 2, 3])):
            if k < len(runs):
                r = runs[k]
                k += 1
                s.do("y_run", id=y, n=r["n"], max=r["max"], plan=[x != "ok" for x in r["kinds"]], kinds=r["kinds"],
                     pre=s.id("q") + "_", seed=g.randint(0, 10 ** 6), hesse=True)
                s.do("y_results", id=y, proc=g.choice(m.procs))
                s.do("y_pulls", id=y, proc=g.choice(m.procs))
        out.append(s.ev)
    return out


def inverse(a):
    n = len(a)
    m = [list(map(float, r)) + [float(i == j) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for r in range(n):
            if r != i:
                m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
    return [r[n:] for r in m]


def pool_scripts(runs, g, n, tier):
    """The workers of a profile scan finish in the given order."""
    g.shuffle(runs)
    out = []
    for r in runs[:n]:
        s = gen.S(g)
        m, x0, q, sd = gen2.qmodel(s, g)
        i = g.randrange(len(x0))
        sigma, k, w = g.choice([1.0, 2.0, 1.5]), r["points"], r["workers"]
        err = inverse(q["A"])[i][i] ** .5
        c = float(q["c"][i])
        rank = {p: t + 1 for t, p in enumerate(r["order"])}
        # a point is taken up when the (point - workers)-th one is finished
        table = [[R(c + (2 * j / (k - 1) - 1) * sigma * err), R(.05 * (rank[j + 1] - max(0, j + 1 - w)))] for j in range(k)]
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=g.choice(gen2.MINS), hasq=True, q=q, delays=dict(idx=i, table=table))
        s.do("f_profile", id=f, par=gen2.par(g, m.names(), i), points=k, sigma=R(sigma), sub=g.random() < .5, fixnui=False, ncpu=w,
             **gen2.NOLIM)
        m.obs()
        out.append(s.ev)
    return out


STAT = ["SPECIFICATION Spec\nCONSTANTS Part = %d\nINVARIANTS Laws Printed\nCHECK_DEADLOCK FALSE\n" % k for k in (1, 2)]
TOY = "SPECIFICATION Spec\nCONSTANTS MaxN = %d\nMaxTries = %d\nINVARIANTS TypeOk Agrees OnePerExperiment Printed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
POOL = ("SPECIFICATION Spec\nCONSTANTS MaxPoints = %d\nMaxWorkers = %d\nINVARIANTS TypeOk InOrder Printed\n"
        "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
SPECIAL = {
    "S01": [Special("MC_Stat", (STAT[0], STAT[0]), stat_scripts, (60, 900))],
    "U01": [Special("MC_Stat", (STAT[1], STAT[1]), stat_scripts, (60, 900))],
    "Y01": [Special("ToyStudy", (TOY % (2, 3), TOY % (3, 3)), toy_scripts, (40, 700))],
    "Y03": [Special("ToyStudy", (TOY % (2, 2), TOY % (3, 3)), toy_scripts, (25, 400))],
    "F04": [Special("Pool", (POOL % (4, 4), POOL % (5, 4)), pool_scripts, (40, 400))],
}


def generator(name):
    return getattr(gen2, "gen_" + name)


PATH = re.compile(r'^<<"PATH", <<([0-9, ]*)>>, <<([0-9, ]*)>>>>$', re.M)


def ints(t):
    return tuple(int(x) for x in t.split(",") if x.strip())


def choose(paths, n, g):
    """At most n of the paths, preferring those with pairs of calls not seen yet."""
    g.shuffle(paths)
    if len(paths) <= n:
        return paths
    seen, first, rest = set(), [], []
    for p in paths:
        pairs = {(a, b) for i, a in enumerate(p) for b in p[i + 1:]} | {(a,) for a in p}
        if pairs - seen:
            seen |= pairs
            first.append(p)
        else:
            rest.append(p)
    return (first + rest)[:n]


def maximal(paths):
    """The paths that are not the beginning of another one."""
    starts = {p[:k] for p in paths for k in range(len(p))}
    return [p for p in paths if p not in starts]


def run_model(mod, tier, seed, work):
    import check
    depth, full, memory = mod.quick if tier == "quick" else mod.thorough
    v = mod.variant
    cfg = ("SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nCONSTANTS Setup <- Setup%d\nMenu <- Menu%d\nFinale <- Tail%d\n"
           "Depth = %d\nFull = %s\nMemory = %d\nINVARIANTS %s\nPROPERTY %s\n"
           % (v, v, v, depth, "TRUE" if full else "FALSE", memory, mod.inv, mod.laws))
    rc, out = check.tlc(work, mod.module, cfg, 1 if tier == "quick" else 4, timeout=600 if tier == "quick" else 3000)
    if rc:
        raise check.Broken("model %s %d: TLC returned %d\n%s" % (mod.module, v, rc, "\n".join(
            x for x in out.splitlines() if "PATH" not in x and "CALLS" not in x)[:3000]))
    st, tr = check.counts(out)
    calls = check.tuples(out, "CALLS")[0]
    tail = {}
    for a, b in PATH.findall(out):
        tail[ints(a)] = ints(b)
    g = random.Random("%s-%d-%d" % (mod.module, v, seed))
    top = maximal(sorted(tail))
    some = choose(top, mod.replay[tier != "quick"], g)
    scripts = [calls["setup"] + [calls["menu"][i - 1] for i in p] + [calls["tail"][j - 1] for j in tail[p]] for p in some]
    return scripts, dict(model=mod.module, part=v, depth=depth, all_sequences=full, states=st, transitions=tr, invariants=mod.inv.split() + mod.laws.split(),
                         paths=len(tail), maximal_paths=len(top), replayed=len(some))


def run_special(sp, tier, seed, work):
    import check
    rc, out = check.tlc(work, sp.module, sp.cfg[tier != "quick"], 1 if tier == "quick" else 4, timeout=600)
    if rc:
        raise check.Broken("model %s: TLC returned %d\n%s" % (sp.module, rc, "\n".join(
            x for x in out.splitlines() if '"RUN"' not in x)[:3000]))
    st, tr = check.counts(out)
    runs = sorted(check.tuples(out, "RUN"), key=lambda r: json.dumps(r, sort_keys=True))
    total = len(runs)
    g = random.Random("%s-%d" % (sp.module, seed))
    scripts = sp.make(runs, g, sp.replay[tier != "quick"], tier)
    return scripts, dict(model=sp.module, states=st, transitions=tr, behaviours=total, replayed=len(scripts),
                         invariants=re.search("INVARIANTS (.*)", sp.cfg[0]).group(1).split())


def scripts(prop, tier, seed, work):
    out, ev = [], dict(states=0, transitions=0, models=[], sources={})
    jobs = [(run_model, m) for m in MODELS.get(prop, [])] + [(run_special, m) for m in SPECIAL.get(prop, [])]
    if os.environ.get("VERIF_MODELS", "1") == "1":
        with concurrent.futures.ThreadPoolExecutor(4 if tier == "quick" else 2) as ex:
            for sc, info in ex.map(lambda j: j[0](j[1], tier, seed, work), jobs):
                out += sc
                ev["states"] += info["states"]
                ev["transitions"] += info["transitions"]
                ev["models"].append(info)
                ev["sources"]["behaviours of %s %s" % (info["model"], info.get("part", ""))] = len(sc)
    for name, q, t in GEN[prop]:
        n = q if tier == "quick" else t
        n = int(os.environ.get("VERIF_N", n))
        g = random.Random("%s-%s-%d" % (prop, name, seed))
        fn = generator(name)
        out += [fn(g, k) for k in range(n)]
        ev["sources"]["random " + name] = n
    return out, ev
