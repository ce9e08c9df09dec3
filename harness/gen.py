"""Seeded random scripts of calls (see ex.py for their meaning).

Every generator makes scripts about one property; the sizes, values and orders
of the calls are drawn at random.  The numbers are chosen such that the
comparison with the specification is meaningful: no cancellation to zero of
numbers that have no exact representation, no singular matrices.
"""
import random


def R(x):
    return repr(float(x))


def linspace(lo, hi, n):
    return [lo + (hi - lo) * i / n for i in range(n)] + [hi]


SETTERS = {"t_setyield", "t_setnui", "t_setparams", "m_setyield", "m_update", "m_constr", "p_setvals", "p_seterrs", "ch_update",
           "f_bounds", "z_bounds", "lt_set", "ls_update"}
RESETS = {"m_reset", "t_reset", "lt_reset", "ls_reset"}
ADDERS = dict(h_fill=.05, t_addcov=.05, t_addvar=.05, lh_fill=.08, lh_scale=.4, lt_addcov=.15)


class S:
    """A script under construction."""

    def __init__(self, g):
        self.g = g
        self.ev = []
        self.k = 0
        self.h = random.Random("again %s" % hash(g.getstate()[1]))
        self.was = {}

    def id(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def do(self, op, **kw):
        e = dict(op=op, **kw)
        self.ev.append(e)
        if op in ("m_constr", "f_bounds", "z_bounds") and self.h.random() < .15:
            # in between there was something else
            other = dict(val="17.25", err="3.5") if op == "m_constr" else dict(b=["-1000000.0", "1000000.0"])
            self.ev += [dict(e, **other), dict(e)]
            self.ev.insert(-2, dict(e))
        if op in RESETS and self.h.random() < .3:
            # reset, changed, and reset again
            past = [w for k, w in self.was.items() if k[1] == str(kw.get("id"))]
            if past:
                self.ev += [dict(past[-1]), dict(e)]
        if op in ADDERS and self.h.random() < ADDERS[op]:
            # twice the same
            e = dict(e)
            self.ev.append(e)
        if op in SETTERS:
            # what was set before is set once more, and then this again: the state is what the script means it to be
            key = (op,) + tuple(str(kw.get(a)) for a in ("id", "m", "chan", "proc", "par"))
            if self.was.get(key, e) != e and self.h.random() < .3:
                self.ev.append(dict(self.was[key]))
                e = dict(e)
                self.ev.append(e)
            self.was[key] = e
        return e


# ---- numbers ----------------------------------------------------------------

def dyadic(g, lo, hi, den=8):
    return g.randint(int(lo * den), int(hi * den)) / den


def weights(g, n, kind=None):
    kind = kind or g.choice(["one", "int", "dyadic", "neg", "float", "zero", "big", "small", "mixed", "cancel", "null"])
    if kind == "one":
        return [1.0] * n
    if kind == "int":
        top = g.choice([5, 5, 200])
        return [float(g.randint(0, top)) for _ in range(n)]
    if kind == "dyadic":
        return [dyadic(g, 0, 4) for _ in range(n)]
    if kind == "neg":
        return [dyadic(g, -3, 3) for _ in range(n)]
    if kind == "float":
        return [g.uniform(0.01, 3) for _ in range(n)]
    if kind == "zero":
        return [g.choice([0.0, 1.0]) for _ in range(n)]
    if kind == "null":
        return [0.0] * n
    if kind == "cancel":
        # they add up to zero
        v = [dyadic(g, .25, 3) for _ in range(n // 2)]
        v = v + [-x for x in v] + [0.0] * (n % 2)
        g.shuffle(v)
        return v
    if kind == "big":
        return [float(g.randint(40000, 200000)) for _ in range(n)]
    if kind == "small":
        return [g.uniform(1e-7, 1e-4) for _ in range(n)]
    return [g.choice([1.0, -1.0, 0.5, 2.25, 100.0, 0.0]) for _ in range(n)]


def axis(g, maxbins=12, minbins=1):
    """(lo, hi, number of bins)"""
    nb = g.choice([1, 2, 3, 4, 5, 7, 10]) if g.random() < .8 else g.randint(1, maxbins)
    nb = max(minbins, min(nb, maxbins))
    lo, hi = g.choice([(0.0, 1.0), (0.0, 10.0), (-5.0, 5.0), (-1.0, 0.0), (0.0, 0.7), (100.0, 250.0),
                       (-3.3, 7.9), (1e-3, 2e-3), (0.0, float(nb)), (-2.0, float(2 * nb - 2))])
    return lo, hi, nb


def var_edges(g, lo, hi, nb):
    """Edges with variable widths from lo to hi."""
    if float(lo).is_integer() and float(hi).is_integer() and nb <= hi - lo and g.random() < .3:   # whole numbers
        return [lo] + [float(x) for x in sorted(g.sample(range(int(lo) + 1, int(hi)), nb - 1))] + [hi]
    w = [g.randint(1, 9) for _ in range(nb)]
    if g.random() < .12:   # nearly equal widths
        w = [g.randint(995, 1005) for _ in range(nb)]
    t, c, es = sum(w), 0, [lo]
    for x in w[:-1]:
        c += x
        es.append(lo + (hi - lo) * c / t)
    return es + [hi]


def points(g, es, n, inside=False, dy=False):
    """Values on an axis: inside bins, on edges, outside."""
    lo, hi = es[0], es[-1]
    w = hi - lo
    out = []
    for _ in range(n):
        r = g.random()
        if inside or r < .55:
            i = g.randrange(len(es) - 1)
            out.append(es[i] + (es[i + 1] - es[i]) * g.uniform(.02, .98))
        elif r < .8:
            out.append(g.choice(es))
        elif r < .87:
            out.append(g.choice([lo, hi]))
        else:
            out.append(g.choice([lo - w, lo - w * 1e-3, hi + w * 1e-2, hi + w, hi + 3 * w, -1e6, 1e6]))
    return out


class Ax:
    def __init__(self, g, lo, hi, nb, var):
        self.lo, self.hi, self.nb = lo, hi, nb
        self.es = var_edges(g, lo, hi, nb) if var else linspace(lo, hi, nb)


def geometry(g, s, oid, dim, bk=None, axes=None, maxbins=12):
    """Arguments of h_new that say what the bins are."""
    bk = bk or g.choice(["int", "tuple", "edges", "edges"])
    if axes is None:
        axes = []
        for _ in range(dim):
            lo, hi, nb = axis(g, maxbins)
            axes.append(Ax(g, lo, hi, nb, bk == "edges"))
    ints = all(float(x).is_integer() for a in axes for x in a.es)
    cb = g.choice(["nd", "list", "nd", "strided"] + (["int", "ilist"] if ints else []))
    return axes, dict(id=oid, dim=dim, bk=bk, nb=[a.nb for a in axes],
                      rng=[[R(a.lo), R(a.hi)] for a in axes],
                      edges=[[R(x) for x in a.es] for a in axes] if bk == "edges" else [[] for _ in axes],
                      cb=cb, outer=g.choice(["list", "tuple"]))


NODATA = dict(hasdata=False, cols=[[], []], hasw=False, w=[], junk=False, nonfin=False)


def entries(g, axes, n, hasw=None, wkind=None, inside=False, kinds=True):
    """Arguments of a fill."""
    cols = [points(g, a.es, n, inside) for a in axes]
    cd = "nd"
    if kinds:
        cd = g.choice(["nd", "list", "tuple", "series", "strided", "nd"])
        if g.random() < .2:
            cols = [[float(round(x)) for x in c] for c in cols]
            cd = g.choice(["int", "i32", "ilist"])
            if all(0 <= x < 256 for c in cols for x in c):
                cd = g.choice([cd, "u8"])
        elif g.random() < .1:
            cols = [[round(x * 8) / 8 for x in c] for c in cols]
            cd = "f32"
        elif g.random() < .15:
            cd = g.choice(["be", "pd", "ro"])
    hasw = g.random() < .7 if hasw is None else hasw
    w = weights(g, n, wkind) if hasw else []
    cw = g.choice(["nd", "list", "tuple", "series", "strided"]) if kinds else "nd"
    if w and kinds and all(float(x).is_integer() for x in w):
        cw = g.choice([cw, "int", "i32", "ilist"])
        if all(0 <= float(x) < 256 for x in w):
            cw = g.choice([cw, "u8"])
        if all(float(x) in (0., 1.) for x in w):
            cw = g.choice([cw, "bool"])
    elif w and kinds and g.random() < .15:
        cw = g.choice(["be", "pd", "ro"])
    e = dict(hasdata=True, cols=[[R(x) for x in c] for c in cols], hasw=hasw, w=[R(x) for x in w],
             junk=False, nonfin=False, cd=cd, cw=cw, outer=g.choice(["list", "tuple"]))
    if len(axes) == 2 and cd == "nd" and g.random() < .3:
        e["outer"] = g.choice(["stack", "fstack"])
    return e


def bad_fill(g, axes, n):
    """A fill that has to be rejected."""
    e = entries(g, axes, max(n, 2), hasw=True, kinds=False)
    k = g.choice(["short", "long", "junk"] + (["cols"] if len(axes) == 2 else []))
    if k == "short":
        e["w"] = e["w"][:-1]
    elif k == "long":
        e["w"] = e["w"] + ["1.0"]
    elif k == "junk":
        e["junk"] = True
    else:
        e["cols"] = [e["cols"][0], e["cols"][1][:-1]]
    e["outer"] = "list"
    return e


def size(g):
    if g.random() < .02:
        return g.randint(1030, 2600) if g.random() < .7 else g.randint(4200, 9000)
    return g.choice([0, 1, 2, 2, 3, 5, 20, 60, 150]) if g.random() < .9 else g.randint(0, 400)


def hist_script(g, dim, nfill=None, bad=True):
    s = S(g)
    h = s.id("h")
    axes = None
    if g.random() < .02:
        # very many bins
        axes = [Ax(g, *axis(g)[:2], g.randint(100, 400) if dim == 1 else g.randint(10, 25), False) for _ in range(dim)]
    axes, geo = geometry(g, s, h, dim, bk="int" if axes and g.random() < .7 else None if not axes else "tuple", axes=axes,
                         maxbins=40 if dim == 1 else 9)
    outer = geo.pop("outer")
    if g.random() < .6:
        f = entries(g, axes, size(g))
        s.do("h_new", **{**geo, **f})
    else:
        s.do("h_new", **geo, **NODATA, outer=outer)
    for _ in range(g.randint(1, 4) if nfill is None else nfill):
        r = g.random()
        if bad and r < .2:
            s.do("h_fill", id=h, **bad_fill(g, axes, size(g)))
        elif r < .27:
            s.do("h_obs", id=h)
        else:
            s.do("h_fill", id=h, **entries(g, axes, size(g)))
    return s, h, axes


def gen_H01(g, k):
    s, h, axes = hist_script(g, 1)
    if g.random() < .3:   # the same entries again, in another order and in batches
        e = entries(g, axes, 30, hasw=True, wkind=g.choice(["dyadic", "neg", "int", "float"]))
        h1, h2 = s.id("h"), s.id("h")
        geo = dict([x for x in s.ev[0].items() if x[0] in ("dim", "bk", "nb", "rng", "edges", "cb")])
        s.do("h_new", id=h1, **geo, **e)
        s.do("h_new", id=h2, **geo, **NODATA)
        order = list(range(30))
        g.shuffle(order)
        for part in (order[:11], order[11:12], order[12:]):
            s.do("h_fill", id=h2, hasdata=True, cols=[[e["cols"][0][q] for q in part]], hasw=True,
                 w=[e["w"][q] for q in part], junk=False, nonfin=False,
                 cd=g.choice(["nd", "list", "series"]), cw=g.choice(["nd", "list", "series"]))
    if g.random() < .4:
        s.do("args", id=h)
        s.do("scribble", id=h)
        s.do("h_obs", id=h)
    return s.ev


def gen_H02(g, k):
    s, h, axes = hist_script(g, 2)
    ps = []
    for _ in range(g.randint(1, 3)):
        p = s.id("p")
        ax = g.choice([1, 2])
        s.do("h_proj", id=p, src=h, axis=ax)
        ps.append((p, ax))
        r = g.random()
        if r < .35:
            s.do("h_fill", id=h, **entries(g, axes, size(g)))
            s.do("h_obs", id=p)
        elif r < .6:
            e = entries(g, [axes[ax - 1]], size(g))
            s.do("h_fill", id=p, **e)
            s.do("h_obs", id=h)
        elif r < .7:
            s.do("h_fill", id=h, **bad_fill(g, axes, 5))
    for ax in (1, 2):
        s.do("h_proj", id=s.id("p"), src=h, axis=ax)
    return s.ev


def binned(g, s, oid, dim=None, axes=None, kind=None, errs=None):
    dim = dim or g.choice([1, 2])
    if axes is None:
        axes = [Ax(g, *axis(g, 9), var=g.random() < .6) for _ in range(dim)]
    n = 1
    for a in axes:
        n *= a.nb
    kind = kind or g.choice(["int", "float", "neg", "zero"])
    if kind == "int":
        c = [float(g.randint(0, 50)) for _ in range(n)]
    elif kind == "float":
        c = [g.uniform(0, 50) for _ in range(n)]
    elif kind == "neg":
        c = [dyadic(g, -5, 50) for _ in range(n)]
    else:
        c = [g.choice([0.0, 3.0]) for _ in range(n)]
    errs = (kind == "neg" or g.random() < .6) if errs is None else errs
    er = [g.choice([g.uniform(0, 9), 0.0, 1.5]) for _ in range(n)] if errs else []
    ints = all(x.is_integer() for x in c)
    s.do("h_binned", id=oid, edges=[[R(x) for x in a.es] for a in axes], counts=[R(x) for x in c],
         haserr=errs, errs=[R(x) for x in er],
         cb=g.choice(["nd", "list"]),
         cc=g.choice(["nd", "list", "fortran"] + (["int"] if ints else [])), cs=g.choice(["nd", "list", "fortran"]))
    return axes


def gen_H03(g, k):
    s = S(g)
    hs = []
    for _ in range(g.choice([1, 1, 2])):
        h = s.id("h")
        hs.append((h, binned(g, s, h)))
    for _ in range(g.randint(2, 6)):
        h, axes = g.choice(hs)
        r = g.random()
        if r < .35:
            s.do("h_fill", id=h, **entries(g, axes, size(g)))
            s.do("args", id=h)
        elif r < .5:
            s.do("h_fill", id=h, **bad_fill(g, axes, 4))
            s.do("args", id=h)
        elif r < .75:
            s.do("scribble", id=h)
            s.do("h_obs", id=h)
        elif len(axes) == 2:
            p = s.id("p")
            s.do("h_proj", id=p, src=h, axis=g.choice([1, 2]))
        else:
            s.do("h_obs", id=h)
    for h, axes in hs:
        s.do("h_obs", id=h)
        s.do("args", id=h)
    return s.ev


def gen_H04(g, k):
    r = g.random()
    if r < .45:
        s, h, axes = hist_script(g, 1, nfill=1)
    elif r < .85:
        s, h, axes = hist_script(g, 2, nfill=1)
        s.do("h_proj", id=s.id("p"), src=h, axis=g.choice([1, 2]))
    else:
        return gen_H03(g, k)
    s.do("scribble", id=h)
    s.do("h_obs", id=h)
    s.do("args", id=h)
    if g.random() < .5:
        t = s.id("t")
        s.do("t_new", id=t, h=h, name="tn")
    return s.ev


# ---- templates ----------------------------------------------------------------

def tmpl_hist(g, s, axes, bk, kind=None, geo=None):
    """A histogram for a template; returns id, entries."""
    h = s.id("h")
    n = 1
    for a in axes:
        n *= a.nb
    kind = kind or g.choice(["full", "full", "full", "gaps", "neg", "binned", "empty"])
    base = dict(id=h, dim=len(axes), bk=bk, nb=[a.nb for a in axes], rng=[[R(a.lo), R(a.hi)] for a in axes],
                edges=[[R(x) for x in a.es] for a in axes] if bk == "edges" else [[] for _ in axes])
    cols, w = [[] for _ in axes], []

    def put(cell, m):
        idx = [cell] if len(axes) == 1 else [cell // axes[1].nb, cell % axes[1].nb]
        for _ in range(m):
            for c, a, i in zip(cols, axes, idx):
                c.append(a.es[i] + (a.es[i + 1] - a.es[i]) * g.uniform(.05, .95))
    if kind == "empty":
        s.do("h_new", **base, **{**NODATA, "cols": [[] for _ in axes]})
        return h, None
    if kind == "binned":
        c = [float(g.randint(1, 60)) for _ in range(n)]
        errs = [R(g.uniform(.5, 6)) for _ in range(n)]
        if g.random() < .3:   # at most one, with more the correlations become singular
            errs[g.randrange(n)] = R(0.0)
        s.do("h_binned", id=h, edges=[[R(x) for x in a.es] for a in axes], counts=[R(x) for x in c],
             haserr=True, errs=errs, cc=g.choice(["nd", "fortran", "list", "int"]), cs=g.choice(["nd", "fortran"]))
        return h, None
    for cell in range(n):
        if kind == "gaps" and g.random() < .35 and cell:
            continue
        if kind.startswith("peak"):
            # shapes of different processes that can be told apart
            q = int(kind[4:] or 0)
            near = (cell % 3 == q) if n < 6 else (cell * 3 // n == q)
            put(cell, g.randint(4, 7) + (g.randint(22, 30) if near else 0))
            continue
        put(cell, g.randint(3, 14))
    m = len(cols[0])
    if kind in ("tiny", "huge"):
        f = g.choice([1e-12, 1e-9, 3e-6]) if kind == "tiny" else g.choice([1e6, 3e9])
        w = [f * g.randint(1, 9) for _ in range(m)]
    elif kind == "negtot":
        # more negative than positive weights
        w = [g.choice([-1.0, -1.0, -2.0, -1.5, 0.5]) for _ in range(m)]
    elif kind == "neg":
        w = [g.choice([1.0, 1.0, 2.0, 1.5, -0.5]) for _ in range(m)]
    else:
        w = weights(g, m, g.choice(["one", "float", "dyadic"]))
        w = [x if x > 0 else 0.25 for x in w]
    if kind == "neg" and g.random() < .3:
        # a bin whose weights cancel
        put(n - 1, 2)
        w = w[:m] + [8.0, 2.5]
        last = [q for q in range(m + 2) if all(a.es[-2] <= c[q] for c, a in zip(cols, axes))]
        w[m + 1] = w[m + 1] - sum(w[q] for q in last)
        m += 2
    order = list(range(m))
    g.shuffle(order)
    cols = [[c[q] for q in order] for c in cols]
    w = [w[q] for q in order]
    e = dict(cols=[[R(x) for x in c] for c in cols], hasw=True, w=[R(x) for x in w], junk=False, nonfin=False)
    s.do("h_new", **base, hasdata=True, **e)
    return h, e


def tgeo(g, dim=None, maxbins=8):
    dim = dim or g.choice([1, 1, 2])
    bk = g.choice(["int", "tuple", "edges"])
    axes = []
    for _ in range(dim):
        lo, hi, nb = axis(g, maxbins if dim == 1 else 4)
        axes.append(Ax(g, lo, hi, nb, bk == "edges"))
    return dim, bk, axes


def nbins(axes):
    n = 1
    for a in axes:
        n *= a.nb
    return n


def psd(g, n, scale=4.0, kind=None):
    """A covariance matrix."""
    kind = kind or g.choice(["diag", "outer", "both", "full"])
    m = [[0.0] * n for _ in range(n)]
    if kind in ("diag", "both", "outer", "full"):
        for i in range(n):
            m[i][i] += g.uniform(.1, scale) if kind != "outer" else 0.0
    for _ in range({"diag": 0, "outer": 1, "both": 1, "full": 3}[kind]):
        v = [g.uniform(-1, 1) * scale ** .5 for _ in range(n)]
        for i in range(n):
            for j in range(n):
                m[i][j] += v[i] * v[j]
    m = [[m[i][j] if i <= j else m[j][i] for j in range(n)] for i in range(n)]
    return [[R(x) for x in r] for r in m]


def thetas(g, n, kind=None):
    kind = kind or g.choice(["zero", "gauss", "gauss", "one", "int"])
    if kind == "zero":
        return [R(0)] * n
    if kind == "one":
        v = [0.0] * n
        v[g.randrange(n)] = g.choice([1.0, -1.0, .5])
        return [R(x) for x in v]
    if kind == "cancel":
        # neighbours cancel exactly
        v = [g.choice([.5, -.5, .25, 1.25, 0.0]) for _ in range(n // 2)]
        return [R(z) for y in v for z in (y, -y)] + [R(0)] * (n % 2)
    if kind == "int":
        return [R(g.choice([-1, 0, 1])) for _ in range(n)]
    return [R(max(-1.5, min(1.5, g.gauss(0, .6)))) for _ in range(n)]


class TS:
    """Template under construction in a script."""

    def __init__(self, s, g, dim=None, kind=None, h=None, axes=None, e=None, bk=None, maxbins=8, sub=False, colors=False):
        self.s, self.g = s, g
        if h is None:
            if axes is None:
                dim, bk, axes = tgeo(g, dim, maxbins)
            kind = kind or g.choice(["full", "full", "full", "gaps", "neg", "binned", "empty"])
            h, e = tmpl_hist(g, s, axes, bk, kind)
        self.h, self.axes, self.e, self.kind = h, axes, e, kind
        self.n = nbins(axes)
        self.t = s.id("t")
        kw = {}
        if g.random() < (.8 if colors else .3):
            kw = {"color": g.choice(["red", "blue", "green", "orange"]), "pretty_label": "L" + self.t}
            if g.random() < .3:
                del kw["pretty_label"]
            if len(self.axes) == 1:
                kw["pretty_variable"] = "v"
            elif g.random() < .7:
                kw[g.choice(["x_pretty_var", "y_pretty_var"])] = "w"
        s.do("t_new", id=self.t, h=self.h, name="n" + self.t, **({"kw": kw} if kw else {}),
             **({"sub": True} if sub else {}))

    def cov(self):
        if self.kind in ("gaps", "empty"):
            # bins without content: a diagonal matrix keeps the correlations regular
            m = psd(self.g, self.n, kind="both")
        else:
            m = psd(self.g, self.n)
        self.s.do("t_addcov", id=self.t, m=m)

    def badcov(self):
        n = self.n
        if len(self.axes) == 2:
            return
        k = self.g.choice([n + 1, n - 1]) if n > 1 else n + 1
        self.s.do("t_addcov", id=self.t, m=psd(self.g, k, kind="diag"))

    def var(self):
        g = self.g
        if self.e is None:
            if self.kind == "empty":
                return
            n = self.n * 6
            cols = [[R(x) for x in points(g, a.es, n, inside=True)] for a in self.axes]
            w = [1.0] * n
        else:
            cols, w = self.e["cols"], [float(x) for x in self.e["w"]]
        up = [x * (1 + g.uniform(-.3, .5)) for x in w]
        dn = [x * (1 + g.uniform(-.5, .3)) for x in w]
        if g.random() < .15:
            up = list(w)
        if g.random() < .3:
            # bins in which both variations agree
            a = self.axes[0]
            cut = g.choice(a.es[1:])
            tie = [float(x) < cut for x in cols[0]]
            dn = [u if q else d for u, d, q in zip(up, dn, tie)]
        if g.random() < .35:
            # entries outside of the range, nearby and far away
            for _ in range(g.randint(1, 4)):
                x = []
                for c, a in zip(cols, self.axes):
                    d = (a.hi - a.lo) * g.choice([1e-3, 1e-4, .01, .3, 1.5, 40.0])
                    x.append(g.choice([a.lo - d, a.hi + d, a.lo + .5 * (a.hi - a.lo) if len(cols) > 1 else a.hi + d]))
                if len(cols) > 1 and all(a.lo <= q <= a.hi for q, a in zip(x, self.axes)):
                    x[0] = self.axes[0].hi + (self.axes[0].hi - self.axes[0].lo) * .01
                cols = [c + [R(q)] for c, q in zip(cols, x)]
                up, dn = up + [g.choice([.5, 2.0])], dn + [g.choice([.5, 1.5])]
        unit = {}
        if g.random() < .15 and self.kind != "neg" and all(.05 < abs(x) < 20 for x in w):
            # a variation that is given by the data alone (of a template whose own uncertainties do not drown in it)
            q = [1.0] * len(up)
            up, dn = g.choice([(up, q), (q, dn), (q, q)])
            unit = {"unit": True}
        last = getattr(self, "last", None)
        if not unit and last and last[0] and g.random() < .2:
            # the weights of the last variation for other data, or the same data with the weights exchanged
            cols, up, dn = last
            size = [abs(x) for x in w if x]
            if g.random() < .4:
                up, dn = dn, up
            elif size and max(size) < 20 * min(size):
                order = list(range(len(w)))
                g.shuffle(order)
                cols = [[c[i] for i in order] + c[len(w):] for c in cols]
        self.last = cols, up, dn
        self.s.do("t_addvar", id=self.t, cols=cols, up=[R(x) for x in up], dn=[R(x) for x in dn],
                  cd=g.choice(["nd", "list", "series"]), cw=g.choice(["nd", "list", "series"]),
                  outer=g.choice(["list", "tuple"]), **unit)

    def set(self):
        g, n = self.g, self.n
        r = g.random()
        y = g.choice([0.0, 1.0, 100.0, 12.5, g.uniform(0, 1e4), -5.0])
        if r < .35:
            self.s.do("t_setyield", id=self.t, v=[R(y)],
                      **{"as": g.choice(["float", "np"] + (["int"] if y.is_integer() else []))})
        elif r < .65:
            th = thetas(g, n)
            self.s.do("t_setnui", id=self.t, v=th, **{"as": self.cont(th)})
        elif r < .85:
            th = thetas(g, n)
            self.s.do("t_setparams", id=self.t, v=[R(y)] + th, **{"as": self.cont([R(y)] + th)})
        else:
            self.s.do("t_reset", id=self.t)

    def cont(self, v):
        if all(float(x).is_integer() for x in v):
            return self.g.choice(["nd", "int"])
        return "nd"

    def badset(self):
        g, n = self.g, self.n
        r = g.random()
        if r < .35:
            self.s.do("t_setnui", id=self.t, v=thetas(g, g.choice([n + 1, max(0, n - 1), 2 * n]) or 2, "gauss"))
        elif r < .8:
            self.s.do("t_setparams", id=self.t, v=thetas(g, g.choice([n, n + 2, 2 * n + 2]), "gauss"))
        else:
            self.s.do("t_setyield", id=self.t, v=["1.0", "2.0"])

    def frac(self):
        self.s.do("t_frac", id=self.t, th=thetas(self.g, self.n))

    def fillhist(self):
        self.s.do("h_fill", id=self.h, **entries(self.g, self.axes, self.g.choice([1, 5, 20])))

    def obs(self):
        self.s.do("t_obs", id=self.t)


def pick(g, **w):
    ks = list(w)
    return g.choices(ks, [w[k] for k in ks])[0]


def tmpl_script(g, w, steps=(3, 8), ntmpl=1, dim=None, kind=None):
    s = S(g)
    if kind is None and "cov" in w and w["cov"] < 2 and g.random() < .12:
        # contents of another scale, for which the usual covariance matrices make no sense
        kind = g.choice(["tiny", "huge"])
        w = dict(w, cov=0)
    elif kind is None and g.random() < .08:
        kind = "negtot"
    ts = [TS(s, g, dim=dim, kind=kind)]
    for _ in range(ntmpl - 1):
        if g.random() < .6:
            b = ts[0]
            ts.append(TS(s, g, h=b.h, axes=b.axes, e=b.e, kind=b.kind))
        else:
            ts.append(TS(s, g))
    for _ in range(g.randint(*steps)):
        t = g.choice(ts)
        a = pick(g, **w)
        if a in ("scribble", "args"):
            s.do(a, id=t.t)
            t.obs()
            if g.random() < .3:
                s.do("scribble", id=t.h)
        else:
            getattr(t, a)()
    for t in ts:
        t.obs()
    return s.ev


def gen_T01(g, k):
    return tmpl_script(g, dict(set=4, frac=4, cov=1, var=1, fillhist=.3), ntmpl=1)


def gen_T02(g, k):
    return tmpl_script(g, dict(cov=4, var=2, set=3, badcov=1, frac=.5, fillhist=.5, scribble=.5), ntmpl=g.choice([1, 1, 2]))


def gen_T03(g, k):
    return tmpl_script(g, dict(var=5, cov=2, badcov=1.5, set=1), kind=g.choice(["full", "gaps", "neg", "full"]))


def gen_T04(g, k):
    return tmpl_script(g, dict(set=6, badset=2, fillhist=1, scribble=1.5, cov=.5, var=.5, args=.5),
                       ntmpl=g.choice([1, 2, 3]), steps=(4, 12))


# ---- models ---------------------------------------------------------------------

PROCS = ["signal", "bkg", "cont", "tau", "other", "p", "Signal"]
CHANS = ["ch1", "sr", "cr", "ch10", "e"]


def MANY(g):
    """Many channels or processes."""
    return dict(nch=g.choice([1, 2, 7, 11]), npr=g.choice([9, 11, 13]), maxbins=2, missing=.6, dims=(1,))


class MS:
    """A model under construction in a script."""

    def __init__(self, s, g, nch=None, npr=None, maxbins=5, dims=(1, 1, 2), missing=.2, kinds=("full",), share=.0,
                 effs="mixed", register=True, rates=None, minbins=1, idle=0, colors=False):
        self.s, self.g = s, g
        self.m = s.id("m")
        self.kinds = kinds
        self.colors = colors
        self.effs, self.share = effs, share
        self.minbins = minbins
        nch = nch or g.choice([1, 2, 2, 3])
        npr = npr or g.choice([1, 2, 3, 4])
        self.chans = {}
        self.data = {}
        self.pool = {}
        s.do("m_new", id=self.m)
        names, procs = CHANS[:], PROCS[:]
        names += ["c%d" % i for i in range(nch - len(names))]
        procs += ["p%d" % i for i in range(npr - len(procs))]
        g.shuffle(names)
        g.shuffle(procs)
        self.procs = []
        self.todo = []
        decl = [("c", c) for c in names[:nch]] + [("p", p) for p in procs[:npr]]
        g.shuffle(decl)
        self.rates = rates
        for kind, n in decl:
            if kind == "c":
                self.defchan(n, g.choice(dims), maxbins)
            else:
                self.procs.append(n)
                s.do("m_proc", id=self.m, name=n)
        pairs = []
        # a process no channel has a template for
        alone = g.choice(self.procs) if len(self.procs) > 1 and g.random() < idle / 4 else None
        for c in self.chans:
            used = [p for p in self.procs if p != alone]
            pairs += [(c, p) for p in [p for p in used if g.random() > missing] or [g.choice(used)]]
        for p in self.procs:
            if not any(q == p for _, q in pairs) and p != alone:
                pairs.append((g.choice(list(self.chans)), p))
        g.shuffle(pairs)
        eff = {}
        for p in self.procs:
            cs = [c for c, q in pairs if q == p]
            eff.update(self.efficiencies(p, cs))
        self.left = [(c, p, eff[c, p]) for c, p in pairs]
        if register:
            while self.left:
                self.register()

    def efficiencies(self, p, cs):
        g = self.g
        k = self.effs if self.effs != "mixed" else g.choice(["one", "unit", "unit", "any"])
        if k == "one":
            return {(c, p): 1.0 for c in cs}
        if k == "unit":   # they add up to one
            cut = sorted(g.randint(1, 15) for _ in cs[1:])
            cut = [0] + cut + [16]
            return {(c, p): (cut[i + 1] - cut[i]) / 16 for i, c in enumerate(cs)}
        return {(c, p): g.choice([0.25, 0.5, 0.9, 1.0, 0.013, 2.0] + [0.0] * (self.effs == "mixed")) for c in cs}

    def defchan(self, name, dim, maxbins=5):
        g = self.g
        bk = g.choice(["int", "edges"])
        axes = []
        for _ in range(dim):
            lo, hi, nb = axis(g, maxbins if dim == 1 else 3, self.minbins)
            axes.append(Ax(g, lo, hi, nb, bk == "edges"))
        self.chans[name] = dict(axes=axes, bk=bk, dim=dim, ts=[])
        self.s.do("m_chan", id=self.m, name=name, bins=[a.nb for a in axes], rng=[[R(a.lo), R(a.hi)] for a in axes],
                  tup=g.random() < .3)

    def new_tmpl(self, c, p=None, sub=False):
        g, ch = self.g, self.chans[c]
        if self.share and not sub and ch["ts"] and g.random() < self.share:
            b = g.choice(ch["ts"])[1]
            if g.random() < .3:   # one template for two processes
                return b
            return TS(self.s, g, h=b.h, axes=b.axes, e=b.e, kind=b.kind)
        kind = g.choice(self.kinds)
        if kind == "peak" and p is not None:
            kind = "peak%d" % self.procs.index(p)
        axes = ch["axes"]
        h, e = tmpl_hist(g, self.s, axes, ch["bk"], kind)
        return TS(self.s, g, h=h, axes=axes, e=e, kind=kind, sub=sub, colors=self.colors)

    def register(self):
        c, p, f = self.left.pop(0)
        t = self.new_tmpl(c, p)
        self.add(c, p, t, f)

    def add(self, c, p, t, f):
        g = self.g
        e = dict(id=self.m, chan=c, proc=p, t=t.t, eff=R(f))
        if f == 1.0 and g.random() < .5:
            e["defeff"] = True
        elif g.random() < .15:
            e["via"] = "chan"
        self.s.do("m_templ", **e)
        self.chans[c]["ts"].append((p, t, f))

    def nch(self, c):
        return nbins(self.chans[c]["axes"])

    def npar(self):
        return len(self.procs) + sum(len(c["ts"]) * nbins(c["axes"]) for c in self.chans.values())

    def nnui(self):
        return self.npar() - len(self.procs)

    def names(self):
        out = [p + "_yield" for p in self.procs]
        for n, c in self.chans.items():
            for p, t, f in c["ts"]:
                out += ["%s_%s_bin_%d" % (n, p, b) for b in range(nbins(c["axes"]))]
        return out

    def redefine(self, name):
        """The same channel again, without content."""
        ch = self.chans[name]
        ch["ts"] = []
        self.data.pop(name, None)
        self.s.do("m_chan", id=self.m, name=name, bins=[a.nb for a in ch["axes"]],
                  rng=[[R(a.lo), R(a.hi)] for a in ch["axes"]], tup=self.g.random() < .3)

    def x(self, ylo=5.0, yhi=300.0, th=None, ints=False):
        g = self.g
        ys = [g.uniform(ylo, yhi) if not ints else float(g.randint(int(ylo), int(yhi))) for _ in self.procs]
        return [R(y) for y in ys] + thetas(g, self.nnui(), th or g.choice(["zero", "zero", "gauss", "gauss", "gauss", "cancel"]))

    def datahist(self, c, kind=None, scale=20):
        g, ch = self.g, self.chans[c]
        h = self.s.id("d")
        axes = ch["axes"]
        n = nbins(axes)
        kind = kind or g.choice(["counts", "counts", "gaps", "filled", "float", "zero"])
        if kind == "filled":
            base = dict(id=h, dim=len(axes), bk=ch["bk"], nb=[a.nb for a in axes],
                        rng=[[R(a.lo), R(a.hi)] for a in axes],
                        edges=[[R(x) for x in a.es] for a in axes] if ch["bk"] == "edges" else [[] for _ in axes])
            s_e = entries(g, axes, 20 * n, hasw=False, inside=True, kinds=False)
            s_e["outer"] = "list"
            self.s.do("h_new", **base, **s_e)
        else:
            if kind == "counts":
                v = [g.randint(1, 3 * scale) for _ in range(n)]
            elif kind == "gaps":
                v = [g.choice([0, 0, g.randint(1, scale), 1]) for _ in range(n)]
            elif kind == "zero":
                v = [0] * n
            else:
                v = [g.uniform(0.1, 2 * scale) for _ in range(n)]
            self.s.do("h_binned", id=h, edges=[[R(x) for x in a.es] for a in axes], counts=[R(x) for x in v],
                      haserr=False, errs=[], cc=g.choice(["nd", "list", "fortran"]))
        return h

    def add_data(self, chans=None, **kw):
        g = self.g
        cs = chans or list(self.chans)
        cs = list(cs)
        g.shuffle(cs)
        if g.random() < .25 or len(cs) == 1:
            for c in cs:
                h = self.datahist(c, **kw)
                self.data[c] = h
                self.s.do("m_data", id=self.m, data=[[c, h]], **({"via": "chan"} if g.random() < .3 else {}))
        else:
            d = []
            for c in cs:
                h = self.datahist(c, **kw)
                self.data[c] = h
                d.append([c, h])
            self.s.do("m_data", id=self.m, data=d)

    def constr(self, p=None):
        g = self.g
        p = p or g.choice(self.procs)
        self.s.do("m_constr", id=self.m, proc=p, val=R(g.choice([10.0, 55.5, 120.0, g.uniform(1, 300)])),
                  err=R(g.choice([1.0, 5.5, 20.0, g.uniform(.5, 40)])))

    def alltmpl(self):
        return [t for c in self.chans.values() for _, t, _ in c["ts"]]

    def bad(self):
        """A registration or parameter operation that has to be rejected."""
        g, s = self.g, self.s
        c = g.choice(list(self.chans))
        ch = self.chans[c]
        k = pick(g, unkchan=1, unkproc=1, dup=2, bins=2, rng=2, dupproc=1, data=3, multidata=2, constr=1, setyield=1,
                 getyield=1, index=1, chan=1, dim=1, sub=1)
        if k == "unkchan":
            if g.random() < .5:
                t = g.choice(self.alltmpl() or [self.new_tmpl(c)])
                s.do("m_templ", id=self.m, chan="nochan", proc=g.choice(self.procs), t=t.t, eff="1.0")
            else:
                h = self.datahist(c)
                s.do("m_data", id=self.m, data=[["nochan", h]])
        elif k == "unkproc":
            t = g.choice(self.alltmpl() or [self.new_tmpl(c)])
            s.do("m_templ", id=self.m, chan=c, proc="noproc", t=t.t, eff="1.0")
        elif k == "dup":
            if ch["ts"]:
                p, t, f = g.choice(ch["ts"])
                t = t if g.random() < .5 else self.new_tmpl(c)
                s.do("m_templ", id=self.m, chan=c, proc=p, t=t.t, eff=R(f), **({"via": "chan"} if g.random() < .4 else {}))
        elif k in ("bins", "rng", "dim"):
            t = self.misfit(c, k)
            free = [p for p in self.procs if p not in [q for q, _, _ in ch["ts"]]] or self.procs
            s.do("m_templ", id=self.m, chan=c, proc=g.choice(free), t=t.t, eff="0.5",
                 **({"via": "chan"} if g.random() < .3 else {}))
        elif k == "sub":
            # a template of another type, for a process that has none
            free = [p for p in self.procs if p not in [q for q, _, _ in ch["ts"]]]
            if free and ch["ts"] and len(ch["axes"]) == 1:
                s.do("m_templ", id=self.m, chan=c, proc=g.choice(free), t=self.new_tmpl(c, sub=True).t, eff="0.5",
                     **({"via": "chan"} if g.random() < .3 else {}))
        elif k == "dupproc":
            s.do("m_proc", id=self.m, name=g.choice(self.procs))
        elif k in ("data", "multidata"):
            h = self.misfit(c, g.choice(["bins", "rng", "dim"]), hist=True)
            d = [[c, h]]
            if k == "multidata" or g.random() < .3:
                for c2 in self.chans:
                    if c2 != c and g.random() < .8:
                        d.append([c2, self.datahist(c2)])
                if g.random() < .2:
                    d.append(["nochan", self.datahist(c)])
                g.shuffle(d)
            s.do("m_data", id=self.m, data=d, **({"via": "chan"} if len(d) == 1 and g.random() < .4 else {}))
        elif k == "constr":
            s.do("m_constr", id=self.m, proc="noproc", val="10.0", err="1.0")
        elif k == "setyield":
            s.do("m_setyield", id=self.m, proc="noproc", v="10.0")
        elif k == "index":
            s.do("m_index", id=self.m, proc="noproc")
        elif k == "chan":
            s.do("ch_obs", m=self.m, chan="nochan")
        else:
            s.do("m_getyield", id=self.m, proc="noproc")

    def misfit(self, c, k, hist=False):
        """A template (histogram) that does not fit into channel c."""
        g, ch = self.g, self.chans[c]
        axes = [Ax(g, a.lo, a.hi, a.nb, False) for a in ch["axes"]]
        if k == "dim":
            axes = axes + [Ax(g, 0.0, 1.0, 2, False)] if len(axes) == 1 else axes[:1]
        else:
            i = g.randrange(len(axes))
            a = axes[i]
            if k == "bins":
                axes[i] = Ax(g, a.lo, a.hi, a.nb + 1, False)
                if len(axes) == 2 and axes[0].nb != axes[1].nb and g.random() < .5:
                    # the same number of cells, another shape
                    axes = [Ax(g, ch["axes"][0].lo, ch["axes"][0].hi, ch["axes"][1].nb, False),
                            Ax(g, ch["axes"][1].lo, ch["axes"][1].hi, ch["axes"][0].nb, False)]
            else:
                w = a.hi - a.lo
                # nearly the same range is another range
                d = w * g.choice([1e-2, 1e-4, 1e-6, 1e-9])
                axes[i] = g.choice([Ax(g, a.lo, a.hi + w / 2, a.nb, False), Ax(g, a.lo - w, a.hi, a.nb, False),
                                    Ax(g, a.lo + w, a.hi + w, a.nb, False)]
                                   + [b for b in (Ax(g, a.lo, a.hi + d, a.nb, False), Ax(g, a.lo - d, a.hi, a.nb, False),
                                                  Ax(g, a.lo + d, a.hi, a.nb, False)) if (b.lo, b.hi) != (a.lo, a.hi)])
        if hist:
            h = self.s.id("d")
            n = nbins(axes)
            self.s.do("h_binned", id=h, edges=[[R(x) for x in a.es] for a in axes],
                      counts=[R(g.randint(0, 30)) for _ in range(n)], haserr=False, errs=[])
            return h
        h, e = tmpl_hist(g, self.s, axes, "int", "full")
        return TS(self.s, g, h=h, axes=axes, e=e, kind="full")

    def obs(self):
        self.s.do("m_obs", id=self.m)

    def chan_call(self, op, ylo=5.0, yhi=300.0, wrong=""):
        """A call of one channel: its yields and nuisance parameters in its own order."""
        g = self.g
        cs = [c for c in self.chans if self.chans[c]["ts"]] if op != "ch_obs" else list(self.chans)
        c = g.choice(cs)
        e = dict(m=self.m, chan=c)
        if op in ("ch_update", "ch_nll"):
            n = len(self.chans[c]["ts"])
            e.update(ys=[R(g.uniform(ylo, yhi)) for _ in range(n)], th=thetas(g, n * self.nch(c), g.choice(["zero", "gauss", "gauss"])))
            if wrong:
                e[wrong] = wrong_length(g, e[wrong], n if wrong == "ys" else self.nch(c))
        self.s.do(op, **e)


def wrong_length(g, x, part):
    """The values with some too many or too few: one, those of a template, those of everything."""
    n = g.choice([1, 1, part, part, len(x)])
    if g.random() < .5:
        return x[:max(0, len(x) - n)]
    return x + [R(g.gauss(0, 1)) for _ in range(n)]


def gen_M01(g, k):
    s = S(g)
    m = MS(s, g, register=False, maxbins=3, nch=g.choice([1, 2, 2, 3]), npr=g.choice([1, 2, 3]), missing=.3)
    steps = g.randint(4, 9)
    for _ in range(steps):
        r = g.random()
        if r < .35 and m.left:
            m.register()
        elif r < .8:
            m.bad()
        elif r < .87:
            m.add_data([g.choice(list(m.chans))])
        elif r < .91:
            m.constr()
        elif r < .94:
            m.chan_call("ch_obs")
        elif r < .96:
            s.do("m_index", id=m.m, proc=g.choice(m.procs))
        else:
            m.obs()
    while m.left:
        m.register()
    for c in m.chans:
        s.do("ch_obs", m=m.m, chan=c)
    for _ in range(2):
        m.bad()
    m.obs()
    return s.ev


def gen_M02(g, k):
    s = S(g)
    big = k % 13 == 12
    late = g.random() < .35
    size = dict(nch=g.choice([1, 2, 3, 4]), npr=g.choice([1, 2, 3, 4, 5]) if not big else 3,
                maxbins=4 if not big else 40, missing=.35, dims=(1, 1, 2) if not big else (1,))
    if k % 25 == 7:
        size = MANY(g)
    m = MS(s, g, idle=.5, register=not late, **size)
    n = s.id("n")
    if late:
        # every channel has a template before anything is read
        first = {}
        for q, (c, p, f) in enumerate(m.left):
            first.setdefault(c, q)
        rest = [x for q, x in enumerate(m.left) if q not in first.values()]
        m.left = [m.left[q] for q in first.values()]
        while m.left:
            m.register()
        m.obs()
        s.do("n_new", id=n, m=m.m)
        s.do("n_obs", id=n)
        m.left = rest
        while m.left:
            m.register()
            if g.random() < .6:
                g.choice([lambda: s.do("n_obs", id=n), m.obs,
                          lambda: s.do("m_route", id=m.m, x=m.x(th="gauss"))])()
    m.obs()
    if not late:
        s.do("n_new", id=n, m=m.m)
    for _ in range(g.randint(2, 4)):
        x = m.x(th="gauss")
        r = g.random()
        if r < .35:
            s.do("m_update", id=m.m, x=x)
            if g.random() < .4:
                q = m.x(th="gauss")
                s.do(g.choice(["m_update", "m_update", "m_route"]), id=m.m, x=wrong_length(g, q, len(q) - len(m.procs)))
        elif r < .45:
            m.chan_call("ch_update", wrong=g.choice(["", "", "ys", "th"]))
            m.obs()
        elif r < .5:
            m.chan_call("ch_obs")
        elif r < .55:
            s.do("m_index", id=m.m, proc=g.choice(m.procs))
        elif r < .7:
            s.do("m_route", id=m.m, x=x)
        elif r < .85:
            s.do("m_counts", id=m.m, chan=g.choice(list(m.chans)), x=x)
        else:
            s.do("n_obs", id=n)
    s.do("m_update", id=m.m, x=m.x(th="gauss"))
    s.do("n_obs", id=n)
    return s.ev


def gen_M03(g, k):
    s = S(g)
    m = MS(s, g, idle=.5, nch=g.choice([1, 2, 3]), npr=g.choice([1, 2, 3]), maxbins=4, missing=.3, effs="mixed", share=.3,
           kinds=("full", "gaps", "neg"))
    for _ in range(g.randint(4, 9)):
        r = g.random()
        if r < .4:
            v = g.choice([0.0, 10.0, 123.0, g.uniform(0, 1000)])
            s.do("m_setyield", id=m.m, proc=g.choice(m.procs), v=R(v), **{"as": "int" if v.is_integer() and g.random() < .4 else "float"})
        elif r < .55:
            s.do("m_reset", id=m.m)
        elif r < .7:
            s.do("m_update", id=m.m, x=m.x())
        elif r < .8:
            s.do("m_getyield", id=m.m, proc=g.choice(m.procs))
        elif r < .85:
            m.chan_call(g.choice(["ch_update", "ch_reset"]))
        elif r < .91:
            # other shares of the same yield
            p = g.choice(m.procs)
            ts = {t.t: None for c in m.chans.values() for q, t, _ in c["ts"] if q == p}
            tot = 0.0
            for t in ts:
                v = float(g.randint(1, 64)) / 4
                s.do("t_setyield", id=t, v=[R(v)], **{"as": "float"})
                tot += v
            s.do("m_getyield", id=m.m, proc=p)
            s.do("m_setyield", id=m.m, proc=p, v=R(tot), **{"as": "float"})
            m.obs()
        else:
            t = g.choice(m.alltmpl())
            t.set() if g.random() < .6 else t.cov()
            m.obs()
    for p in m.procs:
        s.do("m_getyield", id=m.m, proc=p)
    return s.ev


def systs(m, g, n):
    for _ in range(n):
        t = g.choice(m.alltmpl())
        t.cov() if g.random() < .6 else t.var()


def gen_M04(g, k):
    s = S(g)
    big = k % 17 == 16
    m = MS(s, g, idle=.5, nch=g.choice([1, 2, 3]), npr=g.choice([1, 2, 3]), maxbins=5 if not big else 24, missing=.25,
           kinds=("full", "full", "gaps"), dims=(1, 1, 2), share=g.choice([0, 0, .2, .8]))
    systs(m, g, g.choice([0, 1, 2, 3]))
    # data in bins where nothing is expected
    m.add_data(**({"kind": "counts"} if g.random() < .25 else {}))
    for _ in range(g.choice([0, 1, 2, 3])):
        m.constr()
    n = s.id("n")
    s.do("n_new", id=n, m=m.m)
    for _ in range(g.randint(3, 6)):
        x = m.x(ylo=g.choice([1.0, 20.0]), yhi=g.choice([50.0, 500.0, 1e5]))
        if g.random() < .25:
            # fewer than no events of a process, perhaps of all of them together
            i = g.randrange(len(m.procs))
            x[i] = R(-float(x[i]) * g.choice([.05, .3, 1.0, 2.0]))
        if g.random() < .2:
            # far away from the nominal templates
            for _ in range(g.choice([1, 1, 2])):
                x[g.randrange(len(m.procs), len(x))] = R(g.choice([1, 1, 1, -1]) * g.choice([g.uniform(3, 12), g.uniform(12, 60)]))
        if g.random() < .15:
            s.do("n_call", id=n, x=wrong_length(g, x, len(x) - len(m.procs)), p=["M04"])
        s.do("n_call", id=n, x=x, p=["M04"])
        if g.random() < .25:
            m.chan_call("ch_nll", ylo=1.0, yhi=g.choice([50.0, 500.0]))
    if g.random() < .4:
        m.constr()
        s.do("n_call", id=n, x=m.x(), p=["M04"])
    m.obs()
    return s.ev


def gen_M05(g, k):
    s = S(g)
    size = dict(nch=g.choice([1, 2]), npr=g.choice([2, 3]), maxbins=3, missing=.3)
    if k % 25 == 7:
        size = MANY(g)
    m = MS(s, g, idle=.5, kinds=("full",), effs="any", register=False, **size)
    # at least one template per channel before the first evaluation
    first = {}
    for q, (c, p, f) in enumerate(m.left):
        first.setdefault(c, q)
    todo = [m.left[q] for q in first.values()]
    rest = [x for x in m.left if x not in todo]
    m.left = todo
    while m.left:
        m.register()
    m.left = rest
    m.add_data()
    ns = [s.id("n")]
    s.do("n_new", id=ns[0], m=m.m)

    def call(x=None):
        s.do("n_call", id=g.choice(ns), x=x or m.x(), p=["M05", "M04"])
    # a process without a template is a valid parameter
    call()
    for _ in range(g.randint(3, 7)):
        r = g.random()
        if r < .2 and m.left:
            m.register()
        elif r < .4:
            g.choice(m.alltmpl()).cov()
        elif r < .5:
            g.choice(m.alltmpl()).var()
        elif r < .57:
            m.add_data([g.choice(list(m.chans))])
        elif r < .62:
            # other data with the same total
            c = g.choice(list(m.chans))
            old = [e for e in s.ev if e["op"] == "h_binned" and e["id"] == m.data[c]]
            if not old or len(old[0]["counts"]) < 2:
                m.add_data([c])
            else:
                v = old[0]["counts"]
                h = s.id("d")
                s.do("h_binned", **{**{q: w for q, w in old[0].items() if q != "op"}, "id": h, "counts": v[1:] + v[:1]})
                m.data[c] = h
                s.do("m_data", id=m.m, data=[[c, h]])
        elif r < .68:
            c = g.choice(list(m.chans))
            s.do("h_fill", id=m.data[c], **entries(g, m.chans[c]["axes"], 8, hasw=False, kinds=False))
        elif r < .78:
            m.constr()
        elif r < .84:
            x = m.x()
            call(x)
            s.do("m_update", id=m.m, x=m.x(th="gauss"))
            call(x)
            continue
        elif r < .88:
            g.choice(m.alltmpl()).set()
        elif r < .92:
            n = s.id("n")
            s.do("n_new", id=n, m=m.m)
            ns.append(n)
        elif r < .96 and len(m.chans) < 3:
            # a channel defined later
            name = "late%d" % len(m.chans)
            m.defchan(name, 1, 3)
            t = m.new_tmpl(name)
            m.add(name, g.choice(m.procs), t, 0.5)
            m.add_data([name])
        else:
            s.do("m_reset", id=m.m)
        if g.random() < .15:
            m.chan_call("ch_nll")
        if g.random() < .1 and not m.left:
            # a channel that is defined again, with its processes in another order
            c = g.choice(list(m.chans))
            ts = m.chans[c]["ts"]
            m.redefine(c)
            for p, t, f in g.sample(ts, len(ts)):
                m.add(c, p, t if g.random() < .5 else m.new_tmpl(c), f)
            m.add_data([c])
        call()
    for n in ns:
        s.do("n_call", id=n, x=m.x(), p=["M05", "M04"])
    return s.ev


def gen_M06(g, k):
    s = S(g)
    m = MS(s, g, idle=.5, nch=g.choice([1, 2, 3]), npr=g.choice([1, 2, 3]), maxbins=5, missing=.25, kinds=("full", "gaps"),
           effs=g.choice(["one", "unit", "unit", "any"]))
    systs(m, g, g.choice([0, 1]))
    x = None
    if g.random() < .3:
        # a small negative yield in a model whose other yields are large
        for q, p in enumerate(m.procs):
            s.do("m_setyield", id=m.m, proc=p, v=R(-g.uniform(1, 4) if q == 0 else g.uniform(300, 900)))
        s.do("m_asimov", id=m.m, int=g.random() < .3, pre=s.id("a") + "_")
        s.do("m_setyield", id=m.m, proc=m.procs[0], v=R(g.uniform(100, 500)))
    for _ in range(g.randint(1, 3)):
        r = g.random()
        if r < .5:
            x = m.x(th=g.choice(["zero", "gauss"]))
            s.do("m_update", id=m.m, x=x)
        elif r < .75:
            x = None
            s.do("m_setyield", id=m.m, proc=g.choice(m.procs), v=R(g.choice([50.0, 0.0, g.uniform(0, 500)])))
        pre = s.id("a") + "_"
        s.do("m_asimov", id=m.m, int=g.random() < .4, pre=pre)
        last = (pre, s.ev[-1]["int"], x)
    pre, isint, x = last
    if x is not None:
        # the data as data of the model: the likelihood is minimal there
        s.do("m_data", id=m.m, data=[[c, pre + c] for c in m.chans])
        n = s.id("n")
        s.do("n_new", id=n, m=m.m)
        s.do("n_call", id=n, x=x, p=["M06", "M04"])
        for _ in range(2):
            y = [R(float(v) * g.uniform(.8, 1.3)) for v in x[:len(m.procs)]] + x[len(m.procs):]
            s.do("n_call", id=n, x=y, p=["M06", "M04"])
    if g.random() < .3:
        # later changes of the model leave the data set alone
        s.do("m_update", id=m.m, x=m.x(th="gauss"))
        if g.random() < .6:
            s.do("m_asimov", id=m.m, int=g.random() < .3, pre=s.id("a") + "_")
        s.do("h_obs", id=pre + g.choice(list(m.chans)))
        if x is not None:
            s.do("n_call", id=n, x=x, p=["M06", "M04"])
    return s.ev


def gen_M07(g, k):
    s = S(g)
    stat = k % 3 == 0
    m = MS(s, g, idle=.5, nch=g.choice([1, 2]) if stat else g.choice([1, 2, 3]), npr=g.choice([1, 2]), maxbins=3 if stat else 5,
           missing=.2, kinds=("full", "gaps"), effs=g.choice(["one", "unit", "any"]))
    hi = g.choice([3.0, 10.0, 60.0, 5000.0, 30000.0, 1e7]) if stat else g.choice([3.0, 100.0, 2000.0])
    x = [R(g.uniform(hi / 3, hi)) for _ in m.procs] + thetas(g, m.nnui(), g.choice(["zero", "gauss"]))
    s.do("m_update", id=m.m, x=x)
    if stat:
        s.do("m_toystat", id=m.m, n=600, seed=g.randint(0, 10 ** 6))
    else:
        neg = False
        for _ in range(g.randint(2, 4)):
            s.do("m_toy", id=m.m, pre=s.id("y") + "_", seed=g.randint(0, 10 ** 6))
            if g.random() < .4:
                s.do("m_setyield", id=m.m, proc=g.choice(m.procs), v=R(g.choice([0.0, 20.0, 1000.0, -30.0])))
                neg = neg or s.ev[-1]["v"].startswith("-")
            if g.random() < .3 and not neg:
                s.do("m_data", id=m.m, data=[[c, s.ev[-1]["pre"] + c] for c in m.chans]) if s.ev[-1]["op"] == "m_toy" else None
    return s.ev


def randcov(g, n, sds, diag=.5):
    """A covariance matrix with the given standard deviations."""
    k = min(n, 4) if diag > .1 else g.choice([1, 2])
    vs = [[g.uniform(-1, 1) for _ in range(n)] for _ in range(k)]
    m = [[sum(v[i] * v[j] for v in vs) for j in range(n)] for i in range(n)]
    for i in range(n):
        m[i][i] += diag
    d = [m[i][i] ** .5 for i in range(n)]
    c = [[m[i][j] / d[i] / d[j] * sds[i] * sds[j] for j in range(n)] for i in range(n)]
    return [[R(c[i][j] if i <= j else c[j][i]) for j in range(n)] for i in range(n)]


def result_of(m, g, shuffle=False):
    names = m.names()
    n = len(names)
    np_ = len(m.procs)
    x = [g.uniform(20, 200) for _ in range(np_)] + [max(-1, min(1, g.gauss(0, .4))) for _ in range(n - np_)]
    if g.random() < .3:
        i = g.randrange(np_)
        x[i] = g.choice([-1, -.3, -.05]) * x[i]
    sds = [g.uniform(2, 20) for _ in range(np_)] + [g.uniform(.3, 1.) for _ in range(n - np_)]
    order = list(range(n))
    if shuffle:
        g.shuffle(order)
    cov = randcov(g, n, [sds[i] for i in order])
    return dict(names=[names[i] for i in order], x=[R(x[i]) for i in order], cov=cov,
                err=[R(sds[i]) for i in order])


def gen_M08(g, k):
    s = S(g)
    m = MS(s, g, idle=.5, nch=g.choice([1, 2, 3]), npr=g.choice([1, 2, 3]), maxbins=3, missing=.3, kinds=("full",),
           dims=(1, 1, 1, 2), effs="any")
    systs(m, g, g.choice([0, 1, 2]))
    if g.random() < .5:
        s.do("m_update", id=m.m, x=m.x(th="gauss"))
    for _ in range(g.choice([1, 2])):
        r = result_of(m, g, shuffle=g.random() < .3)
        for c in m.chans:
            if g.random() < .7:
                s.do("c_prop", m=m.m, chan=c, **r)
    if g.random() < .5:
        # the same result again, also after a change of the model
        c = g.choice(list(m.chans))
        s.do("c_prop", m=m.m, chan=c, **r)
        systs(m, g, g.choice([0, 1, 1]))
        if g.random() < .5:
            s.do("m_update", id=m.m, x=m.x(th="gauss"))
        s.do("c_prop", m=m.m, chan=c, **r)
    m.obs()
    return s.ev
