"""Random scripts about fits, toy studies, statistics, plots and the legacy
modules (see gen.py)."""
from decimal import Decimal

from gen import *  # noqa: F401,F403
from gen import (MS, TS, Ax, R, S, axis, entries, geometry, nbins, pick, points, psd, randcov, result_of, size,
                 systs, thetas, weights, NODATA)


# ---- fits -------------------------------------------------------------------

def fit_model(s, g, nch=None, npr=None, maxbins=5, effs=None, start=True, dims=(1,)):
    """A model whose processes have distinguishable shapes, with start values."""
    npr = npr or g.choice([1, 2, 2, 3])
    m = MS(s, g, nch=nch or g.choice([1, 1, 2]), npr=npr, minbins=3, maxbins=maxbins, missing=.15, kinds=("peak",),
           dims=dims, effs=effs or g.choice(["one", "unit"]))
    if start:
        s.do("m_update", id=m.m, x=start_x(m, g))
    return m


def start_x(m, g, lo=300, hi=1500, th="zero"):
    return [R(g.uniform(lo, hi)) for _ in m.procs] + thetas(g, m.nnui(), th)


def fit_data(m, g, s, truth):
    """Asimov or toy data, or counts near an expectation, become the data of the model."""
    s.do("m_update", id=m.m, x=truth)
    pre = s.id("d") + "_"
    k = g.choice(["asimov", "asimov", "toy", "toy", "int"])
    if k == "toy":
        s.do("m_toy", id=m.m, pre=pre, seed=g.randint(0, 10 ** 6))
    else:
        s.do("m_asimov", id=m.m, int=k == "int", pre=pre)
    s.do("m_data", id=m.m, data=[[c, pre + c] for c in m.chans])


def quadratic(g, n, np_, centre=None):
    """Positive definite quadratic form in np_ yields and n - np_ nuisance parameters."""
    sd = [g.uniform(5, 40) for _ in range(np_)] + [g.uniform(.3, 1.2) for _ in range(n - np_)]
    k = min(n, 3)
    vs = [[g.uniform(-1, 1) for _ in range(n)] for _ in range(k)]
    A = [[(sum(v[i] * v[j] for v in vs) * g.uniform(.4, .4) + (i == j)) / sd[i] / sd[j] for j in range(n)]
         for i in range(n)]
    A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    c = centre or [g.uniform(50, 300) for _ in range(np_)] + [g.uniform(-1, 1) for _ in range(n - np_)]
    return dict(A=[[R(x) for x in r] for r in A], c=[R(x) for x in c], k=R(g.choice([0.0, 10.0, -3.5, 123.25]))), sd


def par(g, names, i):
    return dict(n=names[i], i=0) if g.random() < .5 else dict(n="", i=i)


def some_bounds(g, x0, c, sd, both=None):
    """Bounds around the start value, with or without the optimum."""
    k = both or g.choice(["both", "lo", "hi", "cut"])
    a, b = min(x0, c), max(x0, c)
    if k == "lo":
        return [R(a - g.uniform(.5, 4) * sd), "none"]
    if k == "hi":
        return ["none", R(b + g.uniform(.5, 4) * sd)]
    if k == "both":
        return [R(a - g.uniform(.5, 4) * sd), R(b + g.uniform(.5, 4) * sd)]
    # the optimum lies outside
    if abs(x0 - c) < .5 * sd:
        return [R(x0 - 2 * sd), R(x0 + 2 * sd)]
    t = x0 + (c - x0) * g.uniform(.3, .7)
    if x0 * c < 0 and g.random() < .6:
        t = 0.0
    if x0 < c:
        return [g.choice(["none", R(x0 - sd)]), R(t)]
    return [R(t), g.choice(["none", R(x0 + sd)])]


def qmodel(s, g, maxpar=12, npr=None):
    """Model and quadratic with at most maxpar parameters; returns m, x0, q, sd"""
    m = MS(s, g, nch=g.choice([1, 1, 2]), npr=npr or g.choice([1, 2, 3]), minbins=1, maxbins=2, missing=.3,
           kinds=("peak",), dims=(1,), effs=g.choice(["one", "unit", "any"]))
    n, np_ = m.npar(), len(m.procs)
    x0 = [g.uniform(50, 300) for _ in range(np_)] + [g.choice([0.0, g.uniform(-.8, .8)]) for _ in range(n - np_)]
    q, sd = quadratic(g, n, np_)
    x0 = [float(R(v)) for v in x0]
    s.do("m_update", id=m.m, x=[R(v) for v in x0])
    # fits start at what the yields add up to
    for i, p in enumerate(m.procs):
        x0[i] *= sum(f for ch in m.chans.values() for q_, t, f in ch["ts"] if q_ == p)
    return m, x0, q, sd


def start_of(m, x0):
    """Parameters of an update after which a fit starts at x0."""
    x = list(x0)
    for i, p in enumerate(m.procs):
        x[i] /= sum(f for ch in m.chans.values() for q_, t, f in ch["ts"] if q_ == p)
    return x


NOLIM = dict(haslim=False, lim=[])


def fit_args(g, **kw):
    a = dict(update=False, fixnui=False, hesse=True, alts=[], **NOLIM)
    a.update(kw)
    return a


def inf(g):
    return {"inf": True} if g.random() < .3 else {}


def early(g, ev, p=.3):
    """The first fitter is made before the model has its data, constraints and uncertainties."""
    k = next(i for i, e in enumerate(ev) if e["op"] == "f_new")
    m = ev[k]["m"]
    a = max(i for i, e in enumerate(ev[:k]) if e["op"] == "m_templ" and e["id"] == m) + 1
    if g.random() < p and a < k and not any(e["op"] in ("m_chan", "y_run", "y_lin") for e in ev[a:k]):
        ev.insert(g.randint(a, k - 1), ev.pop(k))
    return ev


def alts(g, x0, sd, c, n=3):
    out = []
    for _ in range(n):
        b = g.choice([x0, c])
        out.append([R(v + g.gauss(0, 1) * d * g.choice([.3, 1])) for v, d in zip(b, sd)])
    return out


MINS = ["iminuit", "scipy"]


def settings(s, g, f, m, x0, c, sd, names, nfix=None, nbnd=None, fixed=(), cut=True):
    """Random settings of a fitter; returns indices that are set."""
    n = len(x0)
    used = set(fixed)
    todo = []
    for i in g.sample(range(n), min(n, nfix if nfix is not None else g.choice([0, 1, 1, 2, 3]))):
        if i in used:
            continue
        used.add(i)
        todo.append(("fix", i))
        if g.random() < .25:
            todo.append(("fix", i))      # twice
        elif nbnd is None and g.random() < .3:
            todo.append(("bnd", i, par(g, names, i), some_bounds(g, x0[i], c[i], sd[i], g.choice(["both", "lo", "hi"]))))
    free = [i for i in range(n) if i not in used]
    for i in g.sample(free, min(len(free), nbnd if nbnd is not None else g.choice([0, 1, 1, 2]))):
        used.add(i)
        p = par(g, names, i)
        if g.random() < .25:
            todo.append(("bnd", i, p, [R(x0[i] - sd[i]), R(x0[i] + sd[i])]))
        todo.append(("bnd", i, p, some_bounds(g, x0[i], c[i], sd[i], None if cut else g.choice(["both", "lo", "hi"]))))
        if g.random() < .12:
            todo.append(("bnd", i, p, ["none", "none"]))      # no bounds any more
    # the order of the settings of different parameters is arbitrary
    keys = {}
    for t in todo:
        keys.setdefault(t[1], []).append(t)
    while any(keys.values()):
        i = g.choice([i for i in keys if keys[i]])
        t = keys[i].pop(0)
        if t[0] == "fix":
            s.do("f_fix", id=f, par=par(g, names, i))
        else:
            s.do("f_bounds", id=f, par=t[2], b=t[3], **inf(g))
    return used


def negative(g, m, q, sd):
    """The optimum has a negative yield."""
    i = g.randrange(len(m.procs))
    q["c"][i] = R(-g.uniform(.3, 5) * sd[i])


def floats(v):
    return [float(x) for x in v]


def gen_F01(g, k):
    s = S(g)
    if k % 3 == 0:
        return minimiser_script(g, s)
    m, x0, q, sd = qmodel(s, g)
    if g.random() < .3:
        negative(g, m, q, sd)
    c = floats(q["c"])
    names = m.names()
    mi = g.choice(MINS)
    f = s.id("f")
    s.do("f_new", id=f, m=m.m, min=mi, hasq=True, q=q, **({"minid": g.choice([mi, mi.upper(), mi.title()])}))
    settings(s, g, f, m, x0, c, sd, names)
    if g.random() < .25:
        s.do("f_fixnui", id=f)
    for _ in range(g.choice([1, 2, 3])):
        fixnui = g.random() < .25
        lim = {}
        if g.random() < (.4 if fixnui else .2):
            # common limits for all nuisance parameters, around their start values
            lim = dict(haslim=True, lim=g.choice([["-3.0", "3.0"], ["-1.0", "1.0"], ["-2.5", "none"], ["none", "1.5"]]))
            if g.random() < .6:
                # close to the start values
                th = x0[len(m.procs):]
                a, b = R(min(th) - g.uniform(.02, .2)), R(max(th) + g.uniform(.02, .2))
                lim = dict(haslim=True, lim=g.choice([[a, b], [a, b], [a, "none"], ["none", b]]))
        s.do("f_fit", id=f, **fit_args(g, fixnui=fixnui, hesse=g.random() < .5, alts=alts(g, x0, sd, c), **lim))
        if g.random() < .4:
            settings(s, g, f, m, x0, c, sd, names, nfix=1, nbnd=0)
    if g.random() < .3:   # another fitter for the same model knows nothing of these settings
        f2 = s.id("f")
        s.do("f_new", id=f2, m=m.m, min=g.choice(MINS), hasq=True, q=q)
        s.do("f_fit", id=f2, **fit_args(g, hesse=False))
    if g.random() < .2:
        s.do("f_fix", id=f, par=g.choice([dict(n="nosuch", i=0), dict(n="", i=len(x0)), dict(n="", i=len(x0) + 5)]))
        s.do("f_fit", id=f, **fit_args(g))
    return s.ev


def minimiser_script(g, s):
    """A minimiser alone."""
    n = g.randint(1, 6)
    np_ = g.randint(1, n)
    names = g.sample(["a", "b", "c", "x1", "x10", "x", "sig_yield", "bkg_yield", "theta"], n)
    q, sd = quadratic(g, n, np_)
    c = floats(q["c"])
    mi = g.choice(MINS)
    z = s.id("z")
    extra = {"extra": True} if mi == "scipy" and g.random() < .3 else {}
    s.do("z_new", id=z, names=names, min=mi, q=q, minid=g.choice([mi, mi.upper()]), **extra)
    kind = {"as": "list"} if mi == "scipy" and g.random() < .3 else {}
    x0 = [v + g.uniform(-3, 3) * d for v, d in zip(c, sd)]
    zero = g.randrange(n) if g.random() < .4 else None
    if zero is not None:
        # zero lies between the start and the optimum
        u = g.choice([-1, 1])
        c[zero] = u * g.uniform(.4, 3) * sd[zero]
        q["c"][zero] = R(c[zero])
        x0[zero] = -u * g.uniform(.4, 3) * sd[zero]
    fixed, bounds = set(), {}
    for _ in range(g.randint(3, 8)):
        r = g.random()
        if r < .3:
            i = g.randrange(n)
            fixed.add(i)
            s.do("z_fix", id=z, par=par(g, names, i))
        elif r < .5:
            i = g.randrange(n) if zero is None or g.random() < .4 else zero
            bounds[i] = b = some_bounds(g, x0[i], c[i], sd[i])
            if i in bounds and g.random() < .25:
                b = ["none", "none"]
            s.do("z_bounds", id=z, par=par(g, names, i), b=b, **inf(g))
        elif r < .6:
            if not bounds or mi == "iminuit" or True:
                fixed = set()
                s.do("z_release", id=z)
        elif r < .68:
            i = dict(n="", i=n + g.choice([0, 3])) if g.random() < .5 else dict(n="nosuch", i=0)
            if g.random() < .5:
                s.do("z_fix", id=z, par=i)
            else:
                s.do("z_bounds", id=z, par=i, b=["0.0", "1.0"])
        else:
            s.do("z_min", id=z, x0=[R(v) for v in x0], hesse=g.random() < .6, alts=alts(g, x0, sd, c), **kind)
    s.do("z_min", id=z, x0=[R(v) for v in x0], hesse=True, alts=alts(g, x0, sd, c), **kind)
    if g.random() < .3:
        # fixed and released again and again
        i = par(g, names, g.randrange(n))
        for _ in range(g.choice([2, 3])):
            s.do("z_fix", id=z, par=i)
            s.do("z_min", id=z, x0=[R(v) for v in x0], hesse=False, alts=[], **kind)
            s.do("z_release", id=z)
            s.do("z_min", id=z, x0=[R(v) for v in x0], hesse=False, alts=[], **kind)
    if g.random() < .4:
        # minimisers of functions with the same minimum, from there
        for _ in range(2):
            a = 10 ** g.uniform(-1, 1)
            q = dict(q, A=[[R(float(v) * a) for v in r] for r in q["A"]])
            z = s.id("z")
            s.do("z_new", id=z, names=names, min=mi, q=q)
            s.do("z_min", id=z, x0=q["c"], hesse=True, alts=alts(g, c, sd, c))
    return s.ev


def small_fit_model(s, g, mi, npr=None):
    """A likelihood that the minimiser can handle quickly."""
    if mi == "scipy":
        return fit_model(s, g, nch=1, npr=npr or g.choice([1, 2]), maxbins=3, start=False)
    return fit_model(s, g, npr=npr, maxbins=5, start=False)


def far(g, m, truth, fixnui=False):
    """Start values close to or far from the expected yields; with free nuisance
    parameters there may be other minima far away."""
    n = len(m.procs)
    f = g.choice([1.6, 6.0, 40.0]) if fixnui else 1.25
    one = g.random() < .3
    u = g.uniform(-1, 1)
    return [R(max(float(v), 40.0) * f ** (u if one else g.uniform(-1, 1))) for v in truth[:n]] + thetas(g, m.nnui(), "zero")


def constraint(g, m, truth, but=None):
    ps = [p for p in range(len(m.procs)) if p != but and float(truth[p]) > 0]
    if ps:
        p = g.choice(ps)
        v = float(truth[p])
        m.s.do("m_constr", id=m.m, proc=m.procs[p], val=R(v * g.choice([1, .9, 1.1])), err=R(v * g.uniform(.02, .2)))


def gen_F02(g, k):
    s = S(g)
    if k % 4 == 0:
        return minimiser_script(g, s) if k % 8 == 0 else quad_fit(g, s)
    mi = g.choice(MINS)
    m = small_fit_model(s, g, mi)
    if g.random() < .6:
        systs(m, g, g.choice([1, 2]))
    truth = start_x(m, g, th=g.choice(["zero", "zero", "gauss"]))
    fit_data(m, g, s, truth)
    if g.random() < .35:
        constraint(g, m, truth)
    fixnui = g.random() < .4
    start = far(g, m, truth, fixnui)
    for mi2 in ([mi] if g.random() < .6 else MINS):
        if mi2 == "scipy" and m.npar() > 9:
            continue
        s.do("m_update", id=m.m, x=start)
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi2, hasq=False, q={"A": [], "c": [], "k": "0.0"})
        names = m.names()
        if g.random() < .3:
            i = g.randrange(len(names))
            if i < len(m.procs):
                s.do("f_bounds", id=f, par=par(g, names, i), b=["0.0", R(1e5)])
            else:
                s.do("f_bounds", id=f, par=par(g, names, i), b=["-5.0", "5.0"])
        al = [truth] if g.random() < .5 else []
        al += [[R(float(v) * g.uniform(.97, 1.03)) for v in truth[:len(m.procs)]] + truth[len(m.procs):]]
        s.do("f_fit", id=f, **fit_args(g, fixnui=fixnui, hesse=True, alts=al))
    results(s)
    return early(g, s.ev)


def results(s):
    """The results of all fits are what they were."""
    for f in dict.fromkeys(e["id"] for e in s.ev if e["op"] == "f_fit"):
        s.do("f_result", id=f)


def quad_fit(g, s):
    m, x0, q, sd = qmodel(s, g)
    c = floats(q["c"])
    for mi in MINS:
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=True, q=q)
        settings(s, g, f, m, x0, c, sd, m.names(), nfix=g.choice([0, 0, 1]), nbnd=0)
        s.do("f_fit", id=f, **fit_args(g, alts=alts(g, x0, sd, c)))
    results(s)
    return s.ev


def gen_F03(g, k):
    s = S(g)
    if k % 2 == 0:
        m, x0, q, sd = qmodel(s, g)
        if g.random() < .3:
            negative(g, m, q, sd)
        c = floats(q["c"])
        m.add_data()
        f = s.id("f")
        mi = g.choice(MINS)
        s.do("f_new", id=f, m=m.m, min=mi, hasq=True, q=q)
        names = m.names()
        used = settings(s, g, f, m, x0, c, sd, names, nfix=g.choice([0, 1]), nbnd=g.choice([0, 1]), fixed={0})
        onlyfixed = False
    else:
        mi = "iminuit"
        m = fit_model(s, g, nch=g.choice([1, 2]), npr=g.choice([1, 2]), maxbins=3, start=False)
        systs(m, g, g.choice([0, 1]))
        truth = start_x(m, g)
        fit_data(m, g, s, truth)
        if g.random() < .4:
            m.constr()
            s.ev[-1].update(val=truth[m.procs.index(s.ev[-1]["proc"])], err="100.0")
        names = m.names()
        x0 = floats(truth)
        onlyfixed = g.random() < .3
        if onlyfixed:
            s.do("m_update", id=m.m, x=far(g, m, truth, True))
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=False, q={"A": [], "c": [], "k": "0.0"})
    for _ in range(g.randint(2, 5)):
        r = g.random()
        upd = g.random() < .5
        if r < .45:
            kw = fit_args(g, update=upd, hesse=g.random() < .5, fixnui=onlyfixed or g.random() < .3)
            if g.random() < .15 and not onlyfixed:
                kw.update(update=True, hesse=True, fixnui=False, defaults=True)
            s.do("f_fit", id=f, **kw)
        elif r < .6 and k % 2 == 0:
            s.do("f_failfit", id=f, failat=g.choice([1, 2, 5]), **fit_args(g, update=upd))
        elif r < .75:
            s.do("f_profile", id=f, par=par(g, names, 0), points=g.choice([3, 4]), sigma="1.0", sub=g.random() < .5,
                 fixnui=onlyfixed or g.random() < .5, ncpu=1, **NOLIM)
        else:
            s.do("f_signif", id=f, proc=m.procs[0], fixnui=onlyfixed or g.random() < .5, **NOLIM)
        if g.random() < .3:
            m.obs()
        if g.random() < .15 and any(e["op"] == "f_fit" for e in s.ev):
            s.do("f_result", id=f)
    s.do("f_fit", id=f, **fit_args(g, update=True, hesse=False, fixnui=onlyfixed))
    m.obs()
    return s.ev


def gen_F04(g, k):
    s = S(g)
    mi = g.choice(MINS)
    if k % 3 < 2:
        m, x0, q, sd = qmodel(s, g)
        c = floats(q["c"])
        names = m.names()
        i = g.randrange(len(x0))
        kw = {}
        pts, sig = g.choice([1, 2, 2, 3, 5, 7, 9]), g.choice([1.0, 2.0, 1.5, 3.0])
        if g.random() < .6:
            # workers take different times
            err = sd[i]
            table = [[R(c[i] + (2 * j / max(1, pts - 1) - 1) * sig * err * .9), R(g.choice([0, 0, .03, .06, .1]))]
                     for j in range(pts)]
            kw = dict(delays=dict(idx=i, table=table))
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=True, q=q, **kw)
        settings(s, g, f, m, x0, c, sd, names, nfix=g.choice([0, 1, 2]), nbnd=g.choice([0, 1, 1]), fixed={i})
        fixnui = i < len(m.procs) and g.random() < .3
        if i < len(m.procs) and g.random() < .15:
            s.do("f_fixnui", id=f)
    else:
        m = small_fit_model(s, g, mi)
        systs(m, g, g.choice([0, 1]))
        truth = start_x(m, g)
        fit_data(m, g, s, truth)
        if g.random() < .3:
            constraint(g, m, truth)
        names = m.names()
        i = g.randrange(len(m.procs)) if g.random() < .7 else g.randrange(len(names))
        fixnui = i < len(m.procs) and g.random() < .4
        if fixnui and g.random() < .6:
            s.do("m_update", id=m.m, x=far(g, m, truth, fixnui))
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=False, q={"A": [], "c": [], "k": "0.0"})
        for j in range(len(names)):
            if j != i and g.random() < .1:
                s.do("f_fix", id=f, par=par(g, names, j))
        pts, sig = g.choice([1, 2, 3, 4, 5]), g.choice([1.0, 2.0])
    if g.random() < .3:
        s.do("f_fit", id=f, **fit_args(g, update=g.random() < .5, hesse=False, fixnui=fixnui))
    for _ in range(g.choice([1, 1, 2])):
        s.do("f_profile", id=f, par=par(g, names, i), points=pts, sigma=R(sig), sub=g.random() < .6, fixnui=fixnui,
             ncpu=g.choice([1, 2, 3, 4]), **NOLIM)
    if k % 3 == 2 and g.random() < .35:
        # the same once more, for other data
        last = dict(s.ev[-1])
        fit_data(m, g, s, [R(float(v) * 1.3) if j < len(m.procs) else v for j, v in enumerate(truth)])
        s.do(**last)
    if k % 24 == 4:
        # the documented defaults
        s.do("f_profile", id=f, par=par(g, names, i), points=100, sigma="2.0", sub=True, fixnui=False, ncpu=4, defaults=True,
             **NOLIM)
    m.obs()
    return early(g, s.ev)


def gen_F05(g, k):
    s = S(g)
    mi = g.choice(MINS)
    fixnui = g.random() < .35
    if k % 2 == 0:
        m, x0, q, sd = qmodel(s, g)
        p = g.randrange(len(m.procs))
        c = floats(q["c"])
        c[p] = g.choice([1, 1, 1, -1]) * sd[p] * g.choice([g.uniform(.3, 6), g.uniform(.3, 6), g.uniform(.05, .3)])
        moved = False
        if g.random() < .15:
            # far beyond what a p-value can express
            c[p] = sd[p] * g.uniform(20, 90)
            x0[p] = float(R(c[p] + sd[p] * g.uniform(-2, 2)))
            moved = True
        for j in range(len(m.procs)):
            if j != p and g.random() < .25:
                # another process with a negative yield
                c[j] = -sd[j] * g.uniform(.3, 6)
                x0[j] = float(R(c[j] + sd[j] * g.uniform(-2, 2)))
                moved = True
        if moved:
            s.do("m_update", id=m.m, x=[R(v) for v in start_of(m, x0)])
        if g.random() < .15:
            c[p] = 0.0
        elif g.random() < .25:
            # a yield of less than one event
            f = abs(float(R(g.uniform(.05, .9) / c[p])))
            q["A"] = [[R(float(v) / (f if i == p else 1) / (f if j == p else 1)) for j, v in enumerate(r)]
                      for i, r in enumerate(q["A"])]
            sd[p] *= f
            c[p] *= f
            x0[p] = float(R(c[p] + sd[p] * g.uniform(-2, 2)))
            s.do("m_update", id=m.m, x=[R(v) for v in start_of(m, x0)])
        q["c"] = [R(v) for v in c]
        names = m.names()
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=True, q=q)
        used = {p}
        if len(x0) > 1 and g.random() < .6:
            # a bound that is active only while the yield is held at zero
            a = q["A"]
            j = max((j for j in range(len(x0)) if j != p), key=lambda j: abs(float(a[p][j])) * sd[j])
            shift = c[p] * float(a[p][j]) / float(a[j][j])       # of the optimum of j, the others held
            x0[j] = float(R(c[j] - g.uniform(.2, .8) * shift * .3))
            s.do("m_update", id=m.m, x=[R(v) for v in x0])
            lo, hi = min(x0[j], c[j]) - .05 * sd[j], max(x0[j], c[j]) + .05 * sd[j]
            if shift > 0:
                b = [g.choice(["none", R(lo - 9 * sd[j])]), R(hi + .1 * shift)]
            else:
                b = [R(lo + .1 * shift), g.choice(["none", R(hi + 9 * sd[j])])]
            s.do("f_bounds", id=f, par=par(g, names, j), b=b)
            used.add(j)
        settings(s, g, f, m, x0, c, sd, names, nfix=g.choice([0, 1, 2]), nbnd=g.choice([0, 1, 1, 2]), fixed=used, cut=g.random() < .5)
    else:
        m = small_fit_model(s, g, mi, **(dict(npr=2) if g.random() < .85 else {}))
        systs(m, g, g.choice([0, 1]))
        p = g.randrange(len(m.procs))
        truth = start_x(m, g)
        truth[p] = R(g.choice([30.0, 100.0, 400.0, 0.0]) if len(m.procs) > 1 else g.choice([300.0, 500.0]))
        fit_data(m, g, s, truth)
        if g.random() < .4:
            constraint(g, m, truth, p)
        start = far(g, m, truth, fixnui)
        s.do("m_update", id=m.m, x=start)
        names = m.names()
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=mi, hasq=False, q={"A": [], "c": [], "k": "0.0"})
        for j in range(len(names)):
            if j != p and g.random() < .1:
                s.do("f_fix", id=f, par=par(g, names, j))
    if g.random() < .2:
        s.do("f_fixnui", id=f)
    for _ in range(g.choice([1, 2])):
        s.do("f_signif", id=f, proc=m.procs[p], fixnui=fixnui, **NOLIM)
    if k % 2 and g.random() < .35:
        # the same once more, for other data
        truth = [R(float(v) * 1.4) if j < len(m.procs) else v for j, v in enumerate(truth)]
        fit_data(m, g, s, truth)
        s.do("m_update", id=m.m, x=start if g.random() < .6 else far(g, m, truth, fixnui))
        s.do("f_signif", id=f, proc=m.procs[p], fixnui=fixnui, **NOLIM)
    m.obs()
    return early(g, s.ev, .5)


def gen_F06(g, k):
    s = S(g)
    if k % 4 == 0:
        return minimiser_script(g, s)
    if k % 4 == 1:
        m, x0, q, sd = qmodel(s, g)
        f = s.id("f")
        s.do("f_new", id=f, m=m.m, min=g.choice(MINS), hasq=True, q=q)
        s.do("f_fit", id=f, **fit_args(g))
        return s.ev
    n = g.randint(1, 8)
    names = g.sample(["a", "b", "ab", "x1", "x10", "x", "sig_yield", "sig_yield2", "yield", "0", "1", "-1", "name",
                      "B", "Sig_yield"], n)
    p = s.id("p")
    s.do("p_new", id=p, names=names)
    for _ in range(g.randint(4, 12)):
        r = g.random()
        if r < .25:
            s.do(g.choice(["p_setvals", "p_seterrs"]), id=p, v=[R(g.uniform(-5, 5)) for _ in range(n)])
        elif r < .4:
            s.do(g.choice(["p_setvals", "p_seterrs"]), id=p,
                 v=[R(g.uniform(-5, 5)) for _ in range(g.choice([n + 1, n - 1, 2 * n]))])
        elif r < .7:
            s.do("p_get", id=p, par=par(g, names, g.randrange(n)))
        elif r < .85:
            s.do("p_get", id=p, par=g.choice([dict(n="nosuch", i=0), dict(n="", i=n), dict(n="", i=n + 3),
                                              dict(n=names[0] + "x", i=0), dict(n=names[0].upper() + "_", i=0),
                                              dict(n="", i=-1), dict(n="", i=-n - 1)]))
        else:
            s.do("p_obs", id=p)
    return s.ev


# ---- toy studies --------------------------------------------------------------

def toy_model(s, g, lo=300, hi=1500, small=False):
    m = MS(s, g, nch=g.choice([1, 1, 2]), npr=g.choice([1, 2]), minbins=3, maxbins=4, missing=.15, kinds=("peak",),
           dims=(1, 1, 1), effs=g.choice(["one", "unit"]))
    x = start_x(m, g, lo, hi)
    if small and len(m.procs) > 1:
        # hardly anything of one process
        x[g.randrange(len(m.procs))] = R(g.uniform(4, 12))
    s.do("m_update", id=m.m, x=x)
    return m


def gen_Y01(g, k):
    s = S(g)
    m = toy_model(s, g)
    y = s.id("y")
    s.do("y_new", id=y, m=m.m, min=g.choice(["iminuit", "iminuit", "scipy"]))
    if g.random() < .4:
        s.do(g.choice(["y_results", "y_pulls"]), id=y, proc=g.choice(m.procs))
    for _ in range(g.choice([1, 2, 3])):
        n, mx = g.choice([1, 2, 3, 4]), g.choice([1, 2, 3])
        plan = [g.random() < g.choice([.1, .4, .6]) for _ in range(g.randint(0, n * mx))]
        kw = {}
        if g.random() < .15:
            # ten attempts, where nothing else is asked for
            n, mx, kw = g.choice([1, 2]), 10, dict(defaults=True)
            plan = [False] * (n - 1) + [True] * g.choice([2, 8, 9, 9, 10, 11])
        kinds = [g.choice(["gen", "fit"]) if b else "ok" for b in plan]
        s.do("y_run", id=y, n=n, max=mx, plan=plan, kinds=kinds, **kw, pre=s.id("q") + "_", seed=g.randint(0, 10 ** 6), hesse=True)
        if g.random() < .7:
            s.do(g.choice(["y_results", "y_pulls"]), id=y, proc=g.choice(m.procs))
    return s.ev


def gen_Y02(g, k):
    s = S(g)
    m = toy_model(s, g)
    y = s.id("y")
    s.do("y_new", id=y, m=m.m, min="iminuit")
    p = g.choice(m.procs)
    if g.random() < .3:
        s.do("y_run", id=y, n=2, max=2, plan=[], kinds=[], pre=s.id("q") + "_", seed=g.randint(0, 10 ** 6), hesse=True)
    if g.random() < .5:
        g.choice(m.alltmpl()).set()
    lo, hi = g.choice([(400.0, 400.0), (300.0, 900.0), (1000.0, 500.0)])
    if g.random() < (.6 if len(m.procs) == 1 else .2):
        # few events: the uncertainties of the experiments differ
        lo, hi = g.choice([(15.0, 40.0), (20.0, 20.0), (60.0, 12.0)])
    s.do("y_lin", id=y, proc=p, lim=[R(lo), R(hi)], npts=g.choice([2, 3, 4]), nexp=g.choice([1, 2, 2, 3, 4, 5]), pre=s.id("q") + "_",
         seed=g.randint(0, 10 ** 6))
    m.obs()
    if g.random() < .5:
        s.do("y_results", id=y, proc=g.choice(m.procs))
    return s.ev


def gen_Y03(g, k):
    s = S(g)
    m = toy_model(s, g, small=g.random() < .6)
    y = s.id("y")
    s.do("y_new", id=y, m=m.m, min="iminuit")
    for _ in range(g.choice([1, 2])):
        n = g.choice([2, 3, 5])
        plan = [g.random() < .2 for _ in range(n)]
        s.do("y_run", id=y, n=n, max=4, plan=plan, kinds=["fit" if b else "ok" for b in plan], pre=s.id("q") + "_",
             seed=g.randint(0, 10 ** 6), hesse=True)
        for _ in range(g.randint(2, 4)):
            r = g.random()
            if r < .1:
                s.do(g.choice(["y_results", "y_pulls"]), id=y, proc="unknown")
            elif r < .4:
                s.do("y_results", id=y, proc=g.choice(m.procs))
            elif r < .75:
                s.do("y_pulls", id=y, proc=g.choice(m.procs))
            else:
                s.do("m_setyield", id=m.m, proc=g.choice(m.procs), v=R(g.uniform(100, 900)))
        s.do("y_pulls", id=y, proc=g.choice(m.procs))
        if g.random() < .5:
            break
    m.obs()
    return s.ev


# ---- statistics -----------------------------------------------------------------

def gen_S01(g, k):
    s = S(g)
    for _ in range(6):
        n = g.choice([1, 2, 3, 4, 5, 6, 10, 40])
        nu = [g.choice([g.uniform(.1, 5), g.uniform(1, 100), g.uniform(1e3, 1e5), float(g.randint(1, 50))]) for _ in range(n)]
        if g.random() < .2:
            # next to nothing is expected
            for _ in range(g.choice([1, 1, 2])):
                nu[g.randrange(n)] = 10 ** g.uniform(-7, -1)
        r = g.random()
        if r < .3:
            o = [float(max(0, round(g.gauss(v, v ** .5)))) for v in nu]
        elif r < .5:
            o = list(nu)
        elif r < .7:
            o = [g.choice([0.0, float(g.randint(0, 8)), v]) for v in nu]
        elif r < .85:
            o = [v * g.uniform(.2, 3) for v in nu]
        else:
            o = [v + g.uniform(-1e-4, 1e-4) * v for v in nu]
        dof = g.choice([1, 2, 3, 4, 5, 7, 10, n, max(1, n - 1), 30, 99])
        ints_ = all(x.is_integer() for x in o)
        op = g.choice(["s_pearson", "s_cowan", "s_default"])
        kw = dict(u=[R(g.choice([v ** .5, g.uniform(.1, 10), g.uniform(.01, .1) * v])) for v in nu]) if op == "s_default" else {}
        if n > 1 and n % 2 == 0 and g.random() < .35:
            kw["sh"] = g.choice([[2, n // 2], [n // 2, 2]])
        s.do(op, **kw, n=[R(x) for x in o], nu=[R(x) for x in nu], dof=dof,
             cn=g.choice(["nd", "int"]) if ints_ else "nd", cnu="nd")
    return s.ev


def gen_U01(g, k):
    s = S(g)
    for _ in range(5):
        r = g.random()
        n = g.choice([1, 2, 3, 5, 8])
        if r < .22:
            c = randcov(g, n, [g.choice([1e-3, 1.0, 50.0, g.uniform(.1, 9)]) for _ in range(n)], g.choice([.5, .5, 1e-3, 1e-5]))
            if n > 1 and g.random() < .3:
                # something does not vary
                z = g.randrange(n)
                c = [["0.0" if z in (i, j) else c[i][j] for j in range(n)] for i in range(n)]
            kw = {}
            if g.random() < .35:
                # whole numbers
                n = min(n, 3)
                c = [[str(g.choice([1, 2, 4, 9, 30, 100])) + ".0" if i == j else "0.0" for j in range(n)] for i in range(n)]
                if n > 1 and g.random() < .6:
                    c[0][0], c[1][1], c[0][1] = g.choice([("4.0", "9.0", "3.0"), ("2.0", "2.0", "1.0"), ("16.0", "100.0", "-20.0")])
                    c[1][0] = c[0][1]
                kw = dict(c=g.choice(["int", "int", "nd", "fortran", "list"]))
            s.do("u_cov2corr", m=c, **kw)
        elif r < .44:
            c = randcov(g, n, [1.0] * n, g.choice([.5, .5, 1e-3, 1e-5]))
            for i in range(n):
                c[i][i] = "1.0"
            kw = {}
            if g.random() < .35:
                # nothing or everything is correlated
                one = g.random() < .5
                c = [["1.0" if one or i == j else "0.0" for j in range(n)] for i in range(n)]
                kw = dict(c=g.choice(["int", "int", "nd", "fortran", "list"]))
            s.do("u_corr2cov", m=c, s=[R(g.choice([1.0, .01, 20.0, g.uniform(.1, 9)])) for _ in range(n)], **kw)
        elif r < .75:
            m = g.choice([0, 1, 2, 6, 24])
            x = [g.choice([0.0, 1.0, g.uniform(1e-6, 1e4), g.uniform(0, 3), 1e-300, 10 ** g.uniform(-90, -6)]) for _ in range(m)]
            y = [g.choice([g.uniform(1e-6, 1e4), 1.0, a if a else 2.0, a * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-15.5, -3)) if a else .5, g.uniform(0.01, 3)]) for a in x]
            kw = {}
            q = g.random()
            if q < .3:
                kw = dict(scalar=True)
            elif q < .5 and m in (6, 24):
                kw = dict(shape=[2, m // 2])
            # all digits: x and y may differ in the last ones only
            s.do("u_xlogyx", x=[format(Decimal(v)) if v > 1e-99 else R(v) for v in x], y=[format(Decimal(v)) if v > 1e-99 else R(v) for v in y], **kw)
        else:
            m = g.choice([0, 1, 3, 7, 12])
            sizes, left = [], m
            for _ in range(g.randint(1, 4)):
                # more than is left takes all that is left
                z = g.randint(0, max(0, left)) if g.random() < .8 else g.randint(max(0, left), max(0, left) + 3)
                sizes.append(z)
                left -= z
            if g.random() < .5:
                sizes.append(-1)
            s.do("u_split", s=[R(g.uniform(-3, 3)) for _ in range(m)], sizes=sizes, c=g.choice(["nd", "list", "tuple", "iter"]))
    return s.ev


# ---- plots ----------------------------------------------------------------------

def legacy_plots(g):
    s = S(g)
    lo, hi, nb = axis(g, 6)
    a = Ax(g, lo, hi, nb, False)
    st = s.id("ls")
    s.do("ls_new", id=st, var="vx", dim=1, bk="int", nb=[nb], rng=[[R(lo), R(hi)]], edges=[[]])
    ts = []
    for _ in range(g.randint(1, 3)):
        t = s.id("lt")
        s.do("lt_new", id=t, name="n" + t, var="vx", **ltemplate(g, s, a))
        if g.random() < .5:
            s.do("lt_addcov", id=t, m=lcov(g, s, t, nb))
        s.do("ls_add", id=st, tid=t, t=t)
        ts.append(t)
    for _ in range(g.randint(1, 3)):
        r = g.random()
        if r < .4:
            s.do("lt_set", id=g.choice(ts), v=[R(g.uniform(1, 200))] + thetas(g, nb))
        elif r < .6:
            n = len(ts)
            s.do("ls_update", id=st, x=[R(g.uniform(5, 200)) for _ in range(n)] + thetas(g, n * nb),
                 dx=[R(g.uniform(.1, 20)) for _ in range(n)] + [R(g.uniform(.1, 1)) for _ in range(n * nb)])
        s.do("pl_ls", id=st) if g.random() < .6 else s.do("pl_lt", t=g.choice(ts))
    s.do("ls_obs", id=st)
    return s.ev


def gen_P01(g, k):
    s = S(g)
    if k % 8 == 6:
        return legacy_plots(g)
    if k % 2 == 0:
        dim = g.choice([1, 1, 2])
        t = TS(s, g, dim=dim, kind=g.choice(["full", "gaps", "binned"]), maxbins=6)
        for _ in range(g.randint(1, 3)):
            r = g.random()
            if r < .5:
                t.set()
            elif r < .7:
                t.cov()
            if dim == 1:
                s.do("pl_t", t=t.t)
            elif g.random() < .6:
                s.do("pl_proj", t=t.t, axis=g.choice([1, 2]))
            else:
                s.do("pl_2d", t=t.t)
            t.obs()
        return s.ev
    m = MS(s, g, nch=g.choice([1, 2]), npr=g.choice([1, 2, 3]), maxbins=5, missing=.2, kinds=("full", "gaps"), dims=(1,),
           effs="any", colors=g.random() < .6)
    systs(m, g, g.choice([0, 1]))
    if g.random() < .7:
        s.do("m_update", id=m.m, x=m.x(ylo=20, yhi=300))
    if g.random() < .7:
        m.add_data([c for c in m.chans if g.random() < .8] or None)
    for _ in range(g.randint(1, 3)):
        c = g.choice(list(m.chans))
        mode = g.choice(["now", "now", "propagate", "scale"])
        r = dict(names=[], x=[], cov=[], err=[])
        if mode != "now":
            r = result_of(m, g, shuffle=g.random() < .4)
            s.do("m_update", id=m.m, x=[r["x"][r["names"].index(n)] for n in m.names()])
        s.do("pl_stack", m=m.m, chan=c, mode=mode, **r)
        if g.random() < .5:
            s.do("m_setyield", id=m.m, proc=g.choice(m.procs), v=R(g.choice([0.0, -g.uniform(5, 50)]) if g.random() < .3 else g.uniform(10, 300)))
            if g.random() < .5:
                s.do("pl_stack", m=m.m, chan=g.choice(list(m.chans)), mode="now", names=[], x=[], cov=[], err=[])
    m.obs()
    return s.ev


# ---- legacy ---------------------------------------------------------------------

def leg_entries(g, axes, n, kind):
    e = entries(g, axes, n, kinds=False)
    if len(axes) == 1:
        e["cd"] = g.choice(["nd", "list", "series", "strided", "be", "ro"]) if kind == "1d" else g.choice(["nd", "list", "strided"])
    e["cw"] = g.choice(["nd", "list", "tuple", "series", "strided", "be", "ro"])
    if e["w"] and g.random() < .8 and all(float(x).is_integer() for x in e["w"]):
        big = all(0 <= float(x) < 256 for x in e["w"])
        e["cw"] = g.choice(["int", "i32", "ilist"] + (["u8", "u8"] if big else []))
    e.pop("outer", None)
    return e


def gen_L01(g, k):
    s = S(g)
    kind = g.choice(["hist", "hist", "1d", "2d", "2d"])
    dim = g.choice([1, 2]) if kind == "hist" else int(kind[0])
    if kind == "hist":
        dim = 1
    if kind == "1d" and g.random() < .4:
        h = s.id("l")
        lo, hi, nb = axis(g, 8)
        a = Ax(g, lo, hi, nb, True)
        err = g.random() < .5
        s.do("lh_binned", id=h, edges=[[R(x) for x in a.es]], counts=[R(g.randint(0, 40)) for _ in range(nb)], haserr=err,
             errs=[R(g.uniform(.1, 5)) for _ in range(nb)] if err else [], cb=g.choice(["nd", "list", "tuple"]),
             cc=g.choice(["nd", "int", "list", "ilist", "series"]), cs=g.choice(["nd", "list", "tuple"]))
        axes = [a]
    else:
        h = s.id("l")
        bk = "int" if kind == "hist" else g.choice(["int", "edges"])
        axes, geo = geometry(g, s, h, dim, bk=bk, maxbins=12 if dim == 1 else 5)
        geo["outer"] = g.choice(["list", "tuple"])
        if g.random() < .5:
            d = leg_entries(g, axes, size(g) or 3, kind)
            s.do("lh_new", kind=kind, **geo, **{k2: v for k2, v in d.items()})
        else:
            nd = dict(NODATA)
            s.do("lh_new", kind=kind, **geo, **nd)
    for _ in range(g.randint(1, 5)):
        r = g.random()
        if r < .5:
            s.do("lh_fill", id=h, **leg_entries(g, axes, size(g) or 2, kind))
        elif r < .56:
            # a weight too few or too many
            d = leg_entries(g, axes, g.randint(2, 9), kind)
            m = len(d["cols"][0])
            d.update(hasw=True, w=["1.0"] * (m + g.choice([-1, 1])), cw=g.choice(["nd", "list"]))
            s.do("lh_fill", id=h, **d)
        elif r < .6:
            s.do(g.choice(["scribble", "scribble", "args"]), id=h)
        elif r < .8 and kind == "hist":
            s.do("lh_scale", id=h, c=R(g.choice([2.0, .5, 3.3, 1.0, 0.0, -1.0, -2.5])))
        else:
            s.do("lh_obs", id=h)
    s.do("args", id=h)
    if g.random() < .5:
        s.do("scribble", id=h)
        s.do("lh_obs", id=h)
    return s.ev


def ltemplate(g, s, a, bk="int"):
    """Arguments of a legacy template with nb, range of axis a."""
    n = a.nb
    cols = []
    empty = g.randrange(n) if n > 1 and g.random() < .2 else -1
    for b in range(n):
        for _ in range(g.randint(3, 12) if b != empty else 0):
            cols.append(a.es[b] + (a.es[b + 1] - a.es[b]) * g.uniform(.05, .95))
    if g.random() < .06:
        cols = []       # no content at all
    if not cols or g.random() < .15:
        cols += [g.choice([a.lo - (a.hi - a.lo) * g.uniform(.01, 2), a.hi + (a.hi - a.lo) * g.uniform(.01, 2)]) for _ in range(g.randint(1, 4))]
    g.shuffle(cols)
    w = weights(g, len(cols), g.choice(["one", "float", "dyadic", "int"]))
    w = [x if x > 0 else .25 for x in w]
    if all(x.is_integer() for x in w) or g.random() < .1:
        w = [float(max(1, int(x))) for x in w]
    whole = all(x.is_integer() for x in w)
    kw = dict(wname="w2", both=g.random() < .8) if g.random() < .25 else {}
    return dict(**kw, cw=g.choice(["u8", "i32", "int", "nd"]) if whole else g.choice(["nd", "be"]), dim=1, bk=bk, nb=[n], rng=[[R(a.lo), R(a.hi)]], edges=[[]], cols=[[R(x) for x in cols]], w=[R(x) for x in w])


def lcov(g, s, t, nb):
    """A covariance matrix for a legacy template, regular if the template has no content."""
    e = [e for e in s.ev if e["op"] in ("lt_new", "ls_create") and t == e["t" if e["op"] == "ls_create" else "id"]][-1]
    lo, hi = map(float, e["rng"][0])
    hollow = not any(lo <= float(x) <= hi for x in e["cols"][0])
    return psd(g, nb, kind=g.choice(["diag", "both", "full"]) if hollow else None)


def gen_L02(g, k):
    s = S(g)
    lo, hi, nb = axis(g, 6)
    a = Ax(g, lo, hi, nb, False)
    ts = []

    def new(ax=a, var="vx"):
        t = s.id("lt")
        s.do("lt_new", id=t, name=g.choice(["n" + t, "n" + t, "n" + t, "same"]), var=var, **ltemplate(g, s, ax))
        ts.append(t)
        return t
    new()
    st = s.id("ls")
    s.do("ls_new", id=st, var="vx", dim=1, bk="int", nb=[nb], rng=[[R(lo), R(hi)]], edges=[[]])
    mem = []

    def join(t):
        tid = g.choice(["a", "b", "sig", "bkg"]) if g.random() < .2 else t
        s.do("ls_add", id=st, tid=tid, t=t)
        if tid in [x for x, _ in mem]:
            mem[[x for x, _ in mem].index(tid)] = (tid, t)
        else:
            mem.append((tid, t))
    seen = {}

    def call():
        """The likelihood of a data set, made now or made earlier and kept."""
        n = len(mem)
        x = [R(g.uniform(5, 200)) for _ in range(n)] + thetas(g, n * nb)
        if g.random() < .2:
            # fewer than no events
            q = g.randrange(n)
            x[q] = R(-float(x[q]) * g.choice([.05, .5, 2.0]))
        q = g.choice(["", "u", "u", "v"])
        data = seen.get(q) or [R(g.choice([0, g.randint(0, 40), g.randint(0, 40)])) for _ in range(nb)]
        if q:
            seen[q] = data
        s.do("ln_call", id=st, x=x, data=data, kept=q)
    join(ts[0])
    if g.random() < .5:
        call()
    for _ in range(g.randint(3, 9)):
        r = g.random()
        n = len(mem)
        if r < .15 and n < 4:
            join(new())
        elif r < .22 and n < 4:
            t = s.id("lt")
            tid = "c" + t
            s.do("ls_create", id=st, tid=tid, t=t, name=tid, var="vx", **ltemplate(g, s, a))
            mem.append((tid, t))
            ts.append(t)
        elif r < .34:
            # does not fit
            q = g.choice(["var", "bins", "range"])
            if q == "var":
                t = new(var="vy")
            elif q == "bins":
                t = new(ax=Ax(g, lo, hi, nb + 1, False))
            else:
                t = new(ax=Ax(g, lo, hi + (hi - lo) / 2, nb, False))
            ts.pop()
            s.do("ls_add", id=st, tid="bad", t=t)
        elif r < .5:
            t = g.choice(ts)
            s.do("lt_addcov", id=t, m=lcov(g, s, t, nb))
            if g.random() < .3:
                s.do("scribble", id=t)
        elif r < .6:
            s.do("lt_set", id=g.choice(ts), v=[R(g.uniform(1, 200))] + thetas(g, nb))
            if g.random() < .3:
                s.do("scribble", id=s.ev[-1]["id"])
        elif r < .66:
            s.do("lt_reset", id=g.choice(ts))
        elif r < .8:
            x = [R(g.uniform(5, 200)) for _ in range(n)] + thetas(g, n * nb)
            dx = [R(g.uniform(.1, 20)) for _ in range(n)] + [R(g.uniform(.1, g.choice([1, 4]))) for _ in range(n * nb)]
            if g.random() < .25:
                if g.random() < .6:
                    s.do("ls_update", id=st, x=wrong_length(g, x, nb), dx=dx)
                else:
                    s.do("ls_update", id=st, x=x, dx=wrong_length(g, dx, nb))
            s.do("ls_update", id=st, x=x, dx=dx)
            if g.random() < .3:
                s.do("scribble", id=st)
            if g.random() < .3:
                s.do("lt_reset", id=g.choice(ts)) if g.random() < .5 else s.do("ls_reset", id=st)
        elif r < .84:
            s.do("ls_reset", id=st)
        elif r < .87:
            what = g.choice("tss")
            s.do("ln_toystat", id=g.choice(ts) if what == "t" else st, what=what, n=g.choice([5, 60]), seed=g.randint(0, 10 ** 6))
        else:
            call()
    s.do("ls_obs", id=st)
    call()
    call()
    for t in ts:
        s.do("lt_obs", id=t)
        s.do("args", id=t)
    s.do("args", id=st)
    return s.ev
