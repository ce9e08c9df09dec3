"""Executes recorded or generated calls against the package in /repo.

A call is a dict with the key "op"; ``run_trace`` executes a list of calls and
adds to each one its outcome: ``out = {ok, exc, obs, val}`` with ``ok`` whether
the call returned, ``obs`` whether the state could be read afterwards, and
``val`` what was returned or is visible afterwards.  Numbers are strings (repr).
Only the public interface of the package is used.
"""
import contextlib
import fcntl
import functools
import io
import json
import os
import random
import signal
import sys
import time
import warnings
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif_mpl")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

np.seterr(all="ignore")

import templatefitter  # noqa: E402
from templatefitter import TemplateFitter, ToyStudy  # noqa: E402
from templatefitter.histograms import Hist1d, Hist2d  # noqa: E402
from templatefitter.templates import (  # noqa: E402
    MultiChannelTemplate, NegLogLikelihood, Template1d, Template2d)
from templatefitter.minimizer import AbstractMinimizer, Parameters, minimizer_factory  # noqa: E402
from templatefitter import stats as tf_stats  # noqa: E402
from templatefitter import utility as tf_util  # noqa: E402

OP_TIMEOUT = 60       # seconds for one call


class OpTimeout(Exception):
    pass


class Unavailable(BaseException):
    """The call has no public counterpart: the script ends here."""


def _alarm(signum, frame):
    signal.signal(signal.SIGALRM, lambda s, f: os._exit(66))    # if it is caught by the package
    signal.alarm(10)
    raise OpTimeout("no answer within %d s" % OP_TIMEOUT)


# ---- conversions -----------------------------------------------------------

def num(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.ravel()[0]
    return repr(float(x))


def vec(a):
    return [repr(float(v)) for v in np.asarray(a, dtype=float).ravel()]


def mat(m):
    m = np.asarray(m, dtype=float)
    if m.ndim != 2:
        return [vec(m)]
    return [vec(r) for r in m]


def ints(a):
    return [int(v) for v in a]


def floats(s):
    return [float(v) for v in s]


def arr(s, kind="nd"):
    """A container of the given kind holding the numbers of ``s``."""
    v = floats(s)
    if kind == "nd":
        return np.array(v, dtype=float)
    if kind == "list":
        return v
    if kind == "tuple":
        return tuple(v)
    if kind == "series":  # an index that is not the position, another one for other numbers
        ix = list(range(len(v)))
        random.Random(repr(v)).shuffle(ix)
        return pd.Series(v, index=ix, dtype=float)
    if kind == "f32":
        return np.array(v, dtype=np.float32)
    if kind == "int":
        return np.array([int(x) for x in v], dtype=np.int64)
    if kind == "i32":
        return np.array([int(x) for x in v], dtype=np.int32)
    if kind == "ilist":
        return [int(x) for x in v]
    if kind == "strided":
        return np.repeat(np.array(v, dtype=float), 2)[::2]
    if kind == "u8":
        return np.array([int(x) for x in v], dtype=np.uint8)
    if kind == "bool":
        return np.array([bool(x) for x in v])
    if kind == "be":  # the other byte order
        return np.array(v, dtype=">f8")
    if kind == "pd":
        return pd.Series(pd.array(v, dtype="Float64"))
    if kind == "ro":
        a = np.array(v, dtype=float)
        a.setflags(write=False)
        return a
    if kind == "iter":
        return iter(v)
    if kind == "junk":  # no numbers
        return ["x"] * len(v)
    raise ValueError(kind)


def table(e):
    """The table of a legacy template, with weights in the column "weight" or another one."""
    df = pd.DataFrame({e["var"]: floats(e["cols"][0]), "other": 0.5})
    w = e.get("wname", "weight")
    if w != "weight" and e.get("both"):
        df["weight"] = 2.0
    df[w] = np.asarray(arr(e["w"], e.get("cw", "nd")))
    df.index = random.Random(len(df)).sample(range(len(df) + 3), len(df))
    return df, ({} if w == "weight" else {"weight": w})


def shaped(a, e):
    """Bins of a histogram in more than one dimension."""
    return a.reshape(ints(e["sh"])) if "sh" in e else a


def grid(s, shape, kind="nd"):
    a = np.array(floats(s), dtype=float).reshape(shape)
    if kind == "int":
        return a.astype(np.int64)
    if kind == "list":
        return a.tolist()
    if kind == "fortran":
        return np.asfortranarray(a)
    return a


# ---- a record of the minimisations, in this process and in its workers -------

class MinLog:
    """Whether the minimisers that were used during a call say they converged."""

    def __init__(self):
        self.fd = None
        self.tag = lambda: 0

    def start(self, tag=None):
        self.stop()
        self.fd = os.memfd_create("minlog", 0)
        fcntl.fcntl(self.fd, fcntl.F_SETFL, os.O_APPEND)
        self.tag = tag or (lambda: 0)

    def stop(self):
        recs = []
        if self.fd is not None:
            n = os.fstat(self.fd).st_size
            recs = [json.loads(x) for x in os.pread(self.fd, n, 0).decode().splitlines()]
            os.close(self.fd)
            self.fd = None
        return recs

    def add(self, x0, ok, raised):
        if self.fd is None:
            return
        try:
            x0 = [float(v) for v in x0]
        except Exception:  # noqa: BLE001
            x0 = []
        os.write(self.fd, (json.dumps(dict(x0=x0, ok=ok, raised=raised, tag=self.tag())) + "\n").encode())


LOG = MinLog()


def _record(cls):
    fn = cls.__dict__.get("minimize")
    if fn is None or getattr(fn, "__isabstractmethod__", False):
        return

    @functools.wraps(fn)
    def minimize(self, *a, **k):
        x0 = a[0] if a else next(iter(k.values()), [])
        try:
            x0 = [float(v) for v in x0]      # a snapshot
        except Exception:  # noqa: BLE001
            x0 = []
        try:
            res = fn(self, *a, **k)
        except Exception:
            LOG.add(x0, False, True)
            raise
        LOG.add(x0, bool(getattr(res, "succes", True)), False)
        return res

    cls.minimize = minimize


def _subclasses(cls):
    for c in cls.__subclasses__():
        yield c
        yield from _subclasses(c)


for _c in [AbstractMinimizer, *_subclasses(AbstractMinimizer)]:
    _record(_c)


# ---- model class with instruments ------------------------------------------

class QNll(NegLogLikelihood):
    """Quadratic cost function with the parameters of the model."""

    def __init__(self, mct, q, delays=None):
        super().__init__(mct)
        self.A = np.array([floats(r) for r in q["A"]], dtype=float)
        self.c = np.array(floats(q["c"]), dtype=float)
        self.k = float(q["k"])
        self.delays = delays
        self.slept = False
        self.pid = os.getpid()
        self.owner = mct
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        if self.owner.x_failat is not None and self.calls >= self.owner.x_failat:
            raise RuntimeError("planned failure")
        x = np.asarray(x, dtype=float)
        if self.delays and not self.slept and os.getpid() != self.pid:
            # a worker of a profile scan: the first call is made at the scan point
            self.slept = True
            idx, table = self.delays
            time.sleep(min(table, key=lambda t: abs(t[0] - float(x[idx])))[1])
        d = x - self.c
        return float(self.k + 0.5 * d @ self.A @ d)


class Quadratic:
    """A cost function for a minimiser alone."""

    def __init__(self, q):
        self.A = np.array([floats(r) for r in q["A"]], dtype=float)
        self.c = np.array(floats(q["c"]), dtype=float)
        self.k = float(q["k"])

    def __call__(self, x):
        d = np.asarray(x, dtype=float) - self.c
        return float(self.k + 0.5 * d @ self.A @ d)


def halves(x, fcn, c):
    """A function with additional arguments."""
    return c * fcn(x) + c * fcn(x)


def limits(b, e):
    """A missing limit can also be given as an infinite one."""
    return tuple(((-1) ** (k + 1) * np.inf if e.get("inf") else None) if v == "none" else float(v) for k, v in enumerate(b))


def loud(e):
    """What is printed makes no difference."""
    return (0, 1, True, False, 2)[zlib.crc32(json.dumps({k: v for k, v in e.items() if k[0] != "_"}, sort_keys=True).encode()) % 5]


class FailNll(NegLogLikelihood):
    def __call__(self, x):
        raise RuntimeError("planned failure of the fit")


class Model(MultiChannelTemplate):
    """The model class with a recorder of toy data sets, planned failures, and
    optionally a quadratic cost function."""

    def __init__(self):
        super().__init__()
        self.x_q = None
        self.x_delays = None
        self.x_failat = None
        self.x_rec = None
        self.x_recx0 = None
        self.x_plan = []
        self.x_failing = False

    def create_nll(self):
        if self.x_failing:
            return FailNll(self)
        if self.x_q is not None:
            return QNll(self, self.x_q, self.x_delays)
        return super().create_nll()

    def generate_toy_dataset(self):
        if self.x_rec is None:
            return super().generate_toy_dataset()
        self.x_failing = False
        kind = self.x_plan.pop(0) if self.x_plan else "ok"
        if kind == "gen":
            self.x_rec.append([])
            self.x_recx0.append([])
            raise RuntimeError("planned failure of the generation")
        data = super().generate_toy_dataset()
        self.x_rec.append([vec(data[c].bin_counts) for c in self.channels])
        self.x_recx0.append(vec(np.concatenate((self.process_yields, self.nui_params))))
        self.x_failing = kind == "fit"
        return data


def obs_result(res):
    p = res.params
    names = list(p.names)
    return dict(x=vec(p.values), err=vec(p.errors), cov=mat(p.covariance), corr=mat(p.correlation),
                fmin=num(res.fcn_min_val), succ=bool(res.succes), names=names,
                byname=[num(p.get_param_value(s)) for s in names],
                byidx=[num(p.get_param_value(k)) for k in range(len(names))],
                errbyname=[num(p[s][1]) for s in names])


# ---- observations ----------------------------------------------------------

def obs_hist(h):
    two = isinstance(h, Hist2d)
    v = dict(
        cnt=vec(h.bin_counts), esq=vec(h.bin_errors_sq), err=vec(h.bin_errors),
        edges=[vec(e) for e in h.bin_edges] if two else [vec(h.bin_edges)],
        shape=ints(h.shape), cshape=ints(np.shape(h.bin_counts)),
        nb=ints(h.num_bins) if two else [int(h.num_bins)],
        rng=[vec(r) for r in h.range] if two else [vec(h.range)],
        mids=[vec(m) for m in h.bin_mids] if two else [vec(h.bin_mids)],
        widths=[vec(m) for m in h.bin_widths] if two else [vec(h.bin_widths)],
        filled=not h.is_empty,
    )
    if two:
        v["xye"] = [vec(h.x_edges), vec(h.y_edges)]
        v["xyr"] = [vec(h.xrange), vec(h.yrange)]
    return v


def obs_tmpl(t):
    two = isinstance(t, Template2d)
    return {
        "yield": num(t.yield_param), "nui": vec(t.nui_params), "params": vec(t.params),
        "vals": vec(t.values), "vshape": ints(np.shape(t.values)),
        "frac": vec(t.fractions(np.array(t.nui_params, dtype=float))),
        "errs": vec(t.errors), "cov": mat(t.cov_mat), "covdiag": vec(np.diag(t.cov_mat)),
        "ncovs": len(t.cov_mats), "covs": [mat(m) for m in t.cov_mats],
        "corr": mat(t.corr), "inv": mat(t.inv_corr_mat), "nbins": int(t.num_bins),
        "shape": ints(t.shape), "bins": ints(np.atleast_1d(t.bins)),
        "edges": [vec(e) for e in t.bin_edges] if two else [vec(t.bin_edges)],
        "mids": [vec(m) for m in t.bin_mids] if two else [vec(t.bin_mids)],
        "widths": [vec(m) for m in t.bin_widths] if two else [vec(t.bin_widths)],
        "rng": [vec(m) for m in t.range] if two else [vec(t.range)],
    }


def obs_model(m):
    v = dict(
        procs=list(m.processes), chans=list(m.channels.keys()), nproc=int(m.num_processes),
        nchan=int(m.num_channels), nnui=int(m.num_nui_params),
        tmpls=[list(c.templates.keys()) for c in m.channels.values()],
        effs=[vec(list(c.efficiencies.values())) for c in m.channels.values()],
        yields=vec(m.process_yields), yerrs=vec(m.process_yield_errors),
    )
    v.update(obs_unchanged(m))
    v["hasdata"] = [bool(c.has_data) for c in m.channels.values()]
    if v["nnui"]:
        nll = NegLogLikelihood(m)
        v.update(nui=vec(m.nui_params), x0=vec(nll.x0), names=list(nll.param_names))
    return v


def obs_unchanged(m):
    return dict(
        tyields=[[num(t.yield_param) for t in c.templates.values()] for c in m.channels.values()],
        tnui=[vec(t.nui_params) for c in m.channels.values() for t in c.templates.values()],
        data=[vec(c.data_bin_counts) if c.has_data else [] for c in m.channels.values()],
        effs=[vec(list(c.efficiencies.values())) for c in m.channels.values()],
        cprocs=list(m.constrained_yields),
        cvals=[num(m.constrained_yield_values[p]) for p in m.constrained_yields],
        cerrs=[num(m.constrained_yield_errors[p]) for p in m.constrained_yields],
        ncon=[len(m.constrained_yield_values), len(m.constrained_yield_errors)],
        ncovs=[[len(t.cov_mats) for t in c.templates.values()] for c in m.channels.values()],
    )


def obs_params(p):
    names = list(p.names)
    n = len(names)
    return dict(
        names=names, num=int(p.num_params), vals=vec(p.values), errs=vec(p.errors),
        valsbyname=[num(p.get_param_value(s)) for s in names],
        errsbyname=[num(p.get_param_error(s)) for s in names],
        itembyname=[num(p[s][0]) for s in names],
        valsbyidx=[num(p.get_param_value(i)) for i in range(n)],
        errsbyidx=[num(p[i][1]) for i in range(n)],
    )


def obs_lhist(h, kind):
    v = dict(cnt=vec(h.bin_counts), esq=vec(h.bin_errors_sq), err=vec(h.bin_errors), mids=[])
    if kind == "2d":
        px, pxe = h.x_projection()
        py, pye = h.y_projection()
        v.update(edges=[vec(e) for e in h.bin_edges], nb=ints(h.num_bins),
                 px=vec(px), pxe=vec(pxe), py=vec(py), pye=vec(pye),
                 lim=[vec(h.xlimits), vec(h.ylimits)], xyedges=[vec(h.x_edges), vec(h.y_edges)])
    else:
        v.update(edges=[vec(h.bin_edges)], mids=[vec(h.bin_mids)],
                 nb=[int(h.nbins if kind == "hist" else h.num_bins)], width=num(h.bin_width))
        if kind == "hist":
            v.update(rel=vec(h.bin_rel_errors), ent=vec(h.bin_entries), lim=[vec(h.limits), vec([h.lower_limit, h.upper_limit])])
    return v


def obs_ltmpl(t):
    return {
        "yield": num(t.yield_param_values), "yerr": num(t.yield_param_errors),
        "par": [num(t.yield_param.value), num(t.yield_param.error)],
        "npar": [vec(t.nui_params.value), vec(t.nui_params.error)],
        "nui": vec(t.nui_param_values), "nuierr": vec(t.nui_params_errors),
        "vals": vec(t.values()), "errs": vec(t.errors()), "cov": mat(t.cov_mat),
        "corr": mat(t.corr_mat), "inv": mat(t.inv_corr_mat),
        "asimov": vec(t.generate_asimov_dataset().bin_counts),
        "asiint": vec(t.generate_asimov_dataset(integer_values=True).bin_counts),
        "edges": [vec(t.bin_edges)], "mids": vec(t.bin_mids), "width": num(t.bin_width),
        "name": str(t.name), "var": str(t.variable), "nb": int(t.num_bins), "lim": vec(t.limits),
    }


def obs_lstack(s):
    v = dict(num=int(s.num_templates), edges=[vec(s.bin_edges)], mids=vec(s.bin_mids), width=num(s.bin_width))
    if v["num"]:
        v.update(ys=vec(s.yield_param_values), yes=vec(s.yield_param_errors),
                 yps=[[num(p.value), num(p.error)] for p in s.yield_params],
                 nps=[vec(p.value) for p in s.nui_params],
                 nui=mat(s.nui_param_values), nuierr=mat(s.nui_param_errors),
                 vals=vec(s.values()), errs=vec(s.errors()),
                 asimov=vec(s.generate_asimov_dataset().bin_counts),
                 asiint=vec(s.generate_asimov_dataset(integer_values=True).bin_counts),
                 names=list(s.template_names), invs=[mat(m) for m in s.inv_corr_mats],
                 asiedges=[vec(s.generate_asimov_dataset().bin_edges)])
    return v


# ---- plots -----------------------------------------------------------------

def new_ax():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt.subplots()


def close_fig(fig):
    import matplotlib.pyplot as plt
    plt.close(fig)


def step_top(poly, mids):
    """Height of the upper line of a filled step polygon over each mid."""
    xy = np.asarray(poly.get_xy())
    tops = []
    for x in mids:
        ys = []
        for (x0, y0), (x1, y1) in zip(xy[:-1], xy[1:]):
            if min(x0, x1) < x < max(x0, x1):
                ys.append((y0 + y1) / 2)
        tops.append(ys[0])
    return tops


def read_steps(ax, edges):
    from matplotlib.patches import Polygon
    mids = (np.asarray(edges)[1:] + np.asarray(edges)[:-1]) / 2
    polys = [p for p in ax.patches if isinstance(p, Polygon)]
    return [(p.get_label(), step_top(p, mids), sorted({float(x) for x in np.asarray(p.get_xy())[:, 0]}))
            for p in polys]


def read_colors(ax):
    from matplotlib.colors import to_hex
    from matplotlib.patches import Polygon
    name = {to_hex(c): c for c in ("red", "blue", "green", "orange")}
    return {p.get_label(): name.get(to_hex(p.get_facecolor()), "other") for p in ax.patches if isinstance(p, Polygon)}


def read_bars(ax):
    from matplotlib.patches import Rectangle
    bars = sorted((b for b in ax.patches if isinstance(b, Rectangle)), key=lambda b: b.get_x() + b.get_width() / 2)
    return dict(bandlo=vec([b.get_y() for b in bars]), bandh=vec([b.get_height() for b in bars]),
                bandx=vec([b.get_x() + b.get_width() / 2 for b in bars]), bandw=vec([b.get_width() for b in bars]))


def read_errorbar(ax):
    from matplotlib.container import ErrorbarContainer
    cs = [c for c in ax.containers if isinstance(c, ErrorbarContainer)]
    if not cs:
        return dict(hasdata=False)
    line, _, barcols = cs[0].lines
    xy = np.column_stack([np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)])
    order = np.argsort(xy[:, 0])
    segs = np.array([np.asarray(s) for s in barcols[0].get_segments()])
    so = np.argsort(segs[:, 0, 0])
    return dict(hasdata=True, datax=vec(xy[order, 0]), datay=vec(xy[order, 1]),
                datalo=vec(segs[so].min(axis=1)[:, 1]), datahi=vec(segs[so].max(axis=1)[:, 1]))


# ---- calls -----------------------------------------------------------------

class SubTemplate1d(Template1d):
    """Another type of template."""


class Env:
    def __init__(self):
        self.H, self.T, self.M, self.N, self.F, self.Y, self.P = {}, {}, {}, {}, {}, {}, {}
        self.LH, self.LT, self.LS = {}, {}, {}
        self.Z, self.zmin, self.zargs = {}, {}, {}
        self.lkind = {}
        self.fm = {}
        self.nm = {}
        self.kept = {}
        self.ym = {}
        self.fres = {}
        self.args = {}
        self.fq = {}
        self.results = {}

    def keep(self, oid, *objs):
        for o in objs:
            if o is None:
                continue
            self.args.setdefault(oid, []).append([o, self.copy(o)])

    @staticmethod
    def copy(o):
        if isinstance(o, (np.ndarray, pd.Series)):
            return o.copy()
        if isinstance(o, list):
            return [Env.copy(x) for x in o]
        return o

    @staticmethod
    def same(a, b):
        if isinstance(a, (np.ndarray, pd.Series)):
            return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(Env.same(x, y) for x, y in zip(a, b))
        return bool(a == b)

    @staticmethod
    def scribble(o):
        if isinstance(o, np.ndarray):
            if o.flags.writeable:
                o[...] = 7
        elif isinstance(o, pd.Series):
            o.iloc[:] = 7
        elif isinstance(o, list):
            for i, x in enumerate(o):
                if isinstance(x, (list, np.ndarray, pd.Series)):
                    Env.scribble(x)
                else:
                    o[i] = 7


def par_id(p):
    return p["n"] if p["n"] else int(p["i"])


def hist_bins(e):
    """Arguments bins, range of a histogram."""
    cont = e.get("cb", "nd")
    if e["dim"] == 1:
        if e["bk"] == "int":
            return int(e["nb"][0]), tuple(floats(e["rng"][0]))
        if e["bk"] == "tuple":
            return (int(e["nb"][0]),), tuple(floats(e["rng"][0]))
        return arr(e["edges"][0], cont), None
    if e["bk"] in ("int", "tuple"):
        return tuple(int(n) for n in e["nb"]), tuple(tuple(floats(r)) for r in e["rng"])
    b = [arr(x, cont) for x in e["edges"]]
    return (tuple(b) if e.get("outer", "list") == "tuple" else b), None


def hist_data(e, two):
    """Arguments data, weights of a fill."""
    w = None
    if e["hasw"]:
        w = arr(e["w"], "junk" if e.get("junk") else e.get("cw", "nd"))
    cd = e.get("cd", "nd")
    if not two:
        return arr(e["cols"][0], cd), w
    cols = [arr(c, cd) for c in e["cols"]]
    if e.get("outer", "list") == "stack":
        cols = np.array([np.asarray(c, dtype=float) for c in cols])
    elif e.get("outer") == "fstack":
        cols = np.asfortranarray([np.asarray(c, dtype=float) for c in cols])
    elif e.get("outer") == "tuple":
        cols = tuple(cols)
    return cols, w


def chan_range(e):
    r = [tuple(floats(x)) for x in e["rng"]]
    return r[0] if len(r) == 1 else tuple(r)


def chan_bins(e):
    b = ints(e["bins"])
    return b[0] if len(b) == 1 and not e.get("tup") else tuple(b)


def lookup_fit(env, e):
    f = env.F[e["id"]]
    m = env.M[env.fm[e["id"]]]
    m.x_q = env.fq[e["id"]]
    return f, m


def xpar(env, e):
    """The parameters of a fit result: the same object if the same result is used again."""
    key = repr((e["names"], e["x"], e["cov"], e.get("err")))
    if key in env.results:
        return env.results[key]
    p = env.results[key] = Parameters(list(e["names"]))
    p.values = np.array(floats(e["x"]))
    p.errors = np.array(floats(e["err"])) if e.get("err") else np.zeros(len(e["x"]))
    p.covariance = np.array([floats(r) for r in e["cov"]])
    return p


def do_call(env, e):
    """Performs the call; returns a dict of returned values."""
    op = e["op"]
    i = e.get("id")
    r = {}
    if op == "h_new":
        b, rg = hist_bins(e)
        d = w = None
        if e["hasdata"]:
            d, w = hist_data(e, e["dim"] == 2)
        env.keep(i, b if e["bk"] == "edges" else None, d, w)
        cls = Hist1d if e["dim"] == 1 else Hist2d
        env.H[i] = cls(b, rg, d, w) if rg is not None else cls(b, data=d, weights=w)
    elif op == "h_fill":
        h = env.H[i]
        d, w = hist_data(e, isinstance(h, Hist2d))
        env.keep(i, d, w)
        if w is None and not e.get("kw"):
            h.fill(d)
        else:
            h.fill(d, w)
    elif op == "h_binned":
        two = len(e["edges"]) == 2
        ed = [arr(x, e.get("cb", "nd")) for x in e["edges"]]
        sh = [len(x) - 1 for x in e["edges"]]
        c = grid(e["counts"], sh, e.get("cc", "nd"))
        s = grid(e["errs"], sh, e.get("cs", "nd")) if e["haserr"] else None
        edges = ed if two else ed[0]
        env.keep(i, edges, c, s)
        cls = Hist2d if two else Hist1d
        env.H[i] = cls.from_binned_data(c, edges, s) if s is not None else cls.from_binned_data(c, edges)
    elif op == "h_proj":
        src = env.H[e["src"]]
        env.H[i] = src.x_projection() if e["axis"] == 1 else src.y_projection()
    elif op == "h_obs":
        env.H[i]
    elif op == "args":
        r["changed"] = [k for k, (a, b) in enumerate(env.args.get(i, [])) if not Env.same(a, b)]
        r["changed"] = ["argument %d" % k for k in r["changed"]]
    elif op == "scribble":
        for pair in env.args.get(i, []):
            Env.scribble(pair[0])
            pair[1] = Env.copy(pair[0])
    # -- templates
    elif op == "t_new":
        h = env.H[e["h"]]
        kw = dict(e.get("kw", {}))
        if isinstance(h, Hist2d):
            env.T[i] = Template2d(e["name"], ("vx", "vy"), h, **kw)
        else:
            env.T[i] = (SubTemplate1d if e.get("sub") else Template1d)(e["name"], "vx", h, **kw)
    elif op == "t_obs":
        env.T[i]
    elif op == "t_frac":
        r["frac"] = vec(env.T[i].fractions(np.array(floats(e["th"]))))
    elif op == "t_addcov":
        m = np.array([floats(x) for x in e["m"]])
        if e.get("bad") == "flat":
            m = m.ravel()
        env.keep(i, m)
        t = env.T[i]
        add = getattr(t, "add_cov_mat", None) or getattr(t, "_add_cov_mat", None)
        if add is None:
            raise Unavailable
        add(m)
    elif op == "t_addvar":
        t = env.T[i]
        cols, _ = hist_data(dict(cols=e["cols"], hasw=False, cd=e.get("cd", "nd"), outer=e.get("outer", "list")),
                            isinstance(t, Template2d))
        # no weights are unit weights
        up, dn = (None if set(e[k]) == {"1.0"} and e.get("unit") else arr(e[k], e.get("cw", "nd")) for k in ("up", "dn"))
        env.keep(i, cols, up, dn)
        t.add_variation(cols, up, dn)
    elif op == "t_setyield":
        v = floats(e["v"])
        k = e.get("as", "float")
        env.T[i].yield_param = (np.array(v) if k == "nd" or len(v) != 1 else int(v[0]) if k == "int"
                                else np.float64(v[0]) if k == "np" else v[0])
    elif op == "t_setnui":
        a = arr(e["v"], e.get("as", "nd"))
        env.keep(i, a)
        env.T[i].nui_params = a
    elif op == "t_setparams":
        a = arr(e["v"], e.get("as", "nd"))
        env.keep(i, a)
        env.T[i].params = a
    elif op == "t_reset":
        env.T[i].reset()
    # -- models
    elif op == "m_new":
        env.M[i] = Model()
    elif op == "m_chan":
        env.M[i].define_channel(e["name"], chan_bins(e), chan_range(e))
    elif op == "m_proc":
        env.M[i].define_process(e["name"])
    elif op == "m_templ":
        m = env.M[i]
        if e.get("via") == "chan":
            m.channels[e["chan"]].add_template(e["proc"], env.T[e["t"]], float(e["eff"]))
        elif e.get("defeff"):
            m.add_template(e["chan"], e["proc"], env.T[e["t"]])
        else:
            m.add_template(e["chan"], e["proc"], env.T[e["t"]], float(e["eff"]))
    elif op == "m_data":
        m = env.M[i]
        if e.get("via") == "chan":
            m.channels[e["data"][0][0]].add_data(env.H[e["data"][0][1]])
        else:
            m.add_data(**{c: env.H[h] for c, h in e["data"]})
    elif op == "m_constr":
        env.M[i].add_gaussian_constraint_on_yield(e["proc"], float(e["val"]), float(e["err"]))
    elif op == "m_setyield":
        env.M[i].set_yield(e["proc"], float(e["v"]) if e.get("as") != "int" else int(float(e["v"])))
    elif op == "m_getyield":
        r["y"] = num(env.M[i].get_yield(e["proc"]))
    elif op == "m_update":
        a = arr(e["x"], "nd")
        env.keep(i, a)
        env.M[i].update_parameters(a)
    elif op == "m_reset":
        env.M[i].reset_parameters()
    elif op == "m_obs":
        env.M[i]
    elif op == "m_index":
        r["i"] = int(env.M[i].process_to_index(e["proc"]))
    elif op == "ch_obs":
        m = env.M[e["m"]]
        c = m.channels[e["chan"]]
        rg = c.range
        r.update(name=c.name, procs=list(c.processes), ntmpl=int(c.num_templates), nnui=int(c.num_nui_params), bins=ints(c.bins),
                 nbins=int(c.num_bins), rng=[vec(x) for x in rg] if np.ndim(rg) == 2 else [vec(rg)], hasdata=bool(c.has_data),
                 idx=ints(c.process_indices(list(m.processes))))
        if c.num_templates:
            r["edges"] = [vec(x) for x in c.bin_edges] if len(c.bins) == 2 else [vec(c.bin_edges)]
    elif op == "ch_update":
        env.M[e["m"]].channels[e["chan"]].update_parameters(arr(e["ys"], "nd"), arr(e["th"], "nd"))
    elif op == "ch_reset":
        env.M[e["m"]].channels[e["chan"]].reset()
    elif op == "ch_nll":
        r["nll"] = num(env.M[e["m"]].channels[e["chan"]].nll_contribution(arr(e["ys"], "nd"), arr(e["th"], "nd")))
    elif op == "m_route":
        ys, ths = env.M[i].generate_per_channel_parameters(arr(e["x"], "nd"))
        r["ys"] = [vec(y) for y in ys]
        r["ths"] = [vec(t) for t in ths]
    elif op == "m_counts":
        m = env.M[i]
        x = np.array(floats(e["x"]))
        ys, ths = m.generate_per_channel_parameters(x)
        k = list(m.channels).index(e["chan"])
        r["counts"] = vec(m.channels[e["chan"]].bin_counts_from_param_values(np.concatenate([ys[k], ths[k]])))
    elif op in ("m_asimov", "m_toy"):
        m = env.M[i]
        if op == "m_toy":
            np.random.seed(int(e["seed"]))
            d = m.generate_toy_dataset()
        elif e["int"]:
            d = m.generate_asimov_dataset(integer_values=True)
        else:
            d = m.generate_asimov_dataset()
        # by the names of the channels: the order of the dictionary is nobody's business
        ks = [c for c in m.channels if c in d]
        ks += [c for c in d if c not in ks]
        for c in ks:
            env.H[e["pre"] + c] = d[c]
        r["names"] = ks
        r["hists"] = [obs_hist(d[c]) for c in ks]
        r.update(obs_unchanged(m))
    elif op == "m_toystat":
        m = env.M[i]

        def draw():
            np.random.seed(int(e["seed"]))
            out = []
            for _ in range(e["n"]):
                d = m.generate_toy_dataset()
                out.append(np.concatenate([d[c].bin_counts.ravel() for c in m.channels]))
            return np.array(out)
        a, b = draw(), draw()
        r["rows"] = mat(a)
        r["same"] = bool(np.array_equal(a, b))
    elif op == "n_new":
        env.N[i] = env.M[e["m"]].create_nll()
        env.nm[i] = e["m"]
    elif op == "n_obs":
        r["names"] = list(env.N[i].param_names)
        r["x0"] = vec(env.N[i].x0)
    elif op == "n_call":
        x = np.array(floats(e["x"]))
        x0 = x.copy()
        r["nll"] = num(env.N[i](x))
        r["xsame"] = bool(np.array_equal(x, x0))
    # -- post fit
    elif op == "c_prop":
        ch = env.M[e["m"]].channels[e["chan"]]
        p = xpar(env, e)
        r["cov"] = mat(ch.propagate_parameter_uncertainties(p))
        r["unc"] = vec(ch.get_post_fit_bin_uncertainty(p))
        xs = dict(zip(e["names"], floats(e["x"])))
        vals = [xs[pr + "_yield"] for pr in ch.templates]
        for pr, t in ch.templates.items():
            vals += [xs["%s_%s_bin_%d" % (e["chan"], pr, b)] for b in range(t.num_bins)]
        r["counts"] = vec(ch.bin_counts_from_param_values(np.array(vals)))
    # -- parameters
    elif op == "p_new":
        env.P[i] = Parameters(list(e["names"]))
    elif op == "p_setvals":
        env.P[i].values = arr(e["v"], "nd")
    elif op == "p_seterrs":
        env.P[i].errors = arr(e["v"], "nd")
    elif op == "p_get":
        p = env.P[i]
        k = par_id(e["par"])
        r["v"], r["e"] = num(p.get_param_value(k)), num(p.get_param_error(k))
        v2, e2 = p[k]
        if num(v2) != r["v"] or num(e2) != r["e"]:
            r["v"] = "nan"
        r["i"] = int(p.param_id_to_index(k))
    elif op == "p_obs":
        env.P[i]
    # -- fits
    elif op == "f_new":
        m = env.M[e["m"]]
        m.x_q = e["q"] if e["hasq"] else None
        m.x_delays = None
        if e.get("delays"):
            m.x_delays = (e["delays"]["idx"], [(float(a), float(b)) for a, b in e["delays"]["table"]])
        m.x_failat = None
        env.fm[i] = e["m"]
        env.fq[i] = m.x_q
        env.F[i] = TemplateFitter(m, e.get("minid", e["min"]))
    elif op == "f_fix":
        env.F[i].set_parameter_fixed(par_id(e["par"]))
    elif op == "f_bounds":
        env.F[i].set_parameter_bounds(par_id(e["par"]), limits(e["b"], e))
    elif op == "f_fixnui":
        env.F[i].fix_nui_params()
    elif op in ("f_fit", "f_failfit"):
        f, m = lookup_fit(env, e)
        m.x_failat = e.get("failat") if op == "f_failfit" else None
        kw = dict(update_templates=e["update"], get_hesse=e["hesse"], verbose=loud(e), fix_nui_params=e["fixnui"])
        if e.get("defaults"):
            kw = {}
        if e["haslim"]:
            kw["nui_param_limits"] = limits(e["lim"], e)
        try:
            res = f.do_fit(**kw)
        finally:
            m.x_failat = None
        r.update(obs_result(res))
        env.fres[i] = res
    elif op == "f_result":
        if i not in env.fres:
            raise RuntimeError("no result")
        r.update(obs_result(env.fres[i]))
    elif op == "f_profile":
        f, m = lookup_fit(env, e)
        kw = dict(num_cpu=e["ncpu"], num_points=e["points"], sigma=float(e["sigma"]),
                  subtract_min=e["sub"], fix_nui_params=e["fixnui"])
        if e.get("defaults"):
            kw = {}
        LOG.start()
        try:
            pts, vals, hs = f.profile(par_id(e["par"]), **kw)
        finally:
            recs = LOG.stop()
        q = e["par"]["i"] if e["par"]["n"] == "" else m.create_nll().param_names.index(e["par"]["n"])
        r.update(pts=vec(pts), vals=vec(vals), hesse=vec(hs), gconv=all(c["ok"] for c in recs[:1]),
                 conv=[not any(c["x0"][q:q + 1] == [float(p)] and not c["ok"] for c in recs) for p in pts])
    elif op == "f_signif":
        f, m = lookup_fit(env, e)
        LOG.start()
        try:
            r["s"] = num(f.get_significance(e["proc"], verbose=loud(e), fix_nui_params=e["fixnui"]))
        finally:
            r["conv"] = all(c["ok"] for c in LOG.stop())
    # -- minimisers
    elif op == "z_new":
        fcn = Quadratic(e["q"])
        env.zargs[i] = (fcn, 0.5) if e.get("extra") else ()
        env.Z[i] = minimizer_factory(e.get("minid", e["min"]), halves if e.get("extra") else fcn, list(e["names"]))
        env.zmin[i] = e["min"]
    elif op == "z_fix":
        env.Z[i].set_param_fixed(par_id(e["par"]))
    elif op == "z_bounds":
        env.Z[i].set_param_bounds(par_id(e["par"]), limits(e["b"], e))
    elif op == "z_release":
        env.Z[i].release_params()
    elif op == "z_min":
        z = env.Z[i]
        kw = dict(get_hesse=e["hesse"]) if env.zmin[i] == "scipy" else {}
        if env.zargs[i]:
            kw["additional_args"] = env.zargs[i]
        x0 = floats(e["x0"])
        r.update(obs_result(z.minimize(x0 if e.get("as") == "list" else np.array(x0), verbose=loud(e), **kw)))
        r.update(pvals=vec(z.param_values), perrs=vec(z.param_errors), pcov=mat(z.param_covariance),
                 pcorr=mat(z.param_correlation), pmin=num(z.fcn_min_val))
    # -- toy studies
    elif op == "y_new":
        env.ym[i] = e["m"]
        env.Y[i] = ToyStudy(env.M[e["m"]], e["min"])
    elif op in ("y_run", "y_lin"):
        m = env.M[env.ym[i]]
        m.x_q = None
        m.x_rec, m.x_recx0 = [], []
        m.x_plan = list(e.get("kinds", []))
        np.random.seed(int(e["seed"]))
        LOG.start(lambda: len(m.x_rec))
        try:
            if op == "y_run":
                env.Y[i].do_experiments(e["n"], **({} if e.get("defaults") else dict(max_tries=e["max"])))
            else:
                pts, means, stds = env.Y[i].do_linearity_test(
                    e["proc"], tuple(floats(e["lim"])), n_points=e["npts"], n_exp=e["nexp"])
                r.update(pts=vec(pts), means=vec(means), stds=vec(stds))
        finally:
            recs = LOG.stop()
            e["_rec"], e["_x0"] = m.x_rec, m.x_recx0
            kinds = e.get("kinds", [])
            # attempts whose minimisation did not converge, or failed by itself
            e["_conv"] = [not any(c["tag"] == a + 1 and not c["ok"] for c in recs) for a in range(len(m.x_rec))]
            e["_nat"] = [any(c["tag"] == a + 1 and c["raised"] for c in recs) and kinds[a:a + 1] != ["fit"]
                         for a in range(len(m.x_rec))]
            m.x_rec = None
            m.x_recx0 = None
            m.x_plan = []
            m.x_failing = False
    elif op == "y_results":
        par, unc = env.Y[i].get_toy_results(e["proc"])
        r.update(par=vec(par), unc=vec(unc))
    elif op == "y_pulls":
        r["pulls"] = vec(env.Y[i].get_toy_result_pulls(e["proc"]))
    # -- statistics and helpers
    elif op in ("s_pearson", "s_cowan"):
        fn = tf_stats.pearson_chi2_test if op == "s_pearson" else tf_stats.cowan_binned_likelihood_gof
        n, nu = (shaped(arr(e[k], e.get("c" + k, "nd")), e) for k in ("n", "nu"))
        st, ra, pv = fn(n, nu, e["dof"])
        r.update(stat=num(st), ratio=num(ra), pval=num(pv))
    elif op == "s_default":
        st, ra, pv = tf_stats.default_chi2_test(*(shaped(arr(e[k], e.get("cn", "nd") if k == "n" else "nd"), e)
                                                  for k in ("n", "nu", "u")), e["dof"])
        r.update(stat=num(st), ratio=num(ra), pval=num(pv))
    elif op == "u_cov2corr":
        m = grid([v for x in e["m"] for v in x], (len(e["m"]),) * 2, e.get("c", "nd"))
        c = tf_util.cov2corr(m)
        r["m"] = mat(c)
        r["back"] = mat(tf_util.corr2cov(c, np.sqrt(np.diag(m))))
    elif op == "u_corr2cov":
        m = grid([v for x in e["m"] for v in x], (len(e["m"]),) * 2, e.get("c", "nd"))
        c = tf_util.corr2cov(m, np.array(floats(e["s"])))
        r["m"] = mat(c)
        r["back"] = mat(tf_util.cov2corr(c))
    elif op == "u_xlogyx":
        if e.get("scalar"):
            r["v"] = [num(tf_util.xlogyx(float(a), float(b))) for a, b in zip(e["x"], e["y"])]
        elif e.get("shape"):
            r["v"] = vec(tf_util.xlogyx(np.array(floats(e["x"])).reshape(e["shape"]),
                                        np.array(floats(e["y"])).reshape(e["shape"])))
        else:
            r["v"] = vec(tf_util.xlogyx(np.array(floats(e["x"])), np.array(floats(e["y"]))))
    elif op == "u_split":
        s = arr(e["s"], e.get("c", "nd"))
        r["parts"] = [vec(p) for p in tf_util.array_split_into(s, [None if k < 0 else k for k in e["sizes"]])]
    elif op == "u_varcov":
        r["m"] = mat(tf_util.get_systematic_cov_mat(*(np.array(floats(e[k])) for k in ("nom", "up", "dn"))))
    # -- plots
    elif op in ("pl_t", "pl_proj", "pl_2d", "pl_stack", "pl_lt", "pl_ls"):
        fig, ax = new_ax()
        try:
            r.update(do_plot(env, e, fig, ax))
        finally:
            close_fig(fig)
    # -- legacy
    elif op[:2] in ("lh", "lt", "ls", "ln"):
        do_legacy(env, e, r)
    else:
        raise KeyError("unknown operation " + op)
    return r


def do_plot(env, e, fig, ax):
    op = e["op"]
    r = {}
    if op in ("pl_t", "pl_proj"):
        t = env.T[e["t"]]
        if op == "pl_t":
            t.plot_on(ax)
            edges = t.bin_edges
        else:
            (t.plot_x_projection_on if e["axis"] == 1 else t.plot_y_projection_on)(ax)
            edges = t.bin_edges[e["axis"] - 1]
        (lab, top, xs), = read_steps(ax, edges)
        r.update(vals=vec(top), edges=vec(xs), label=str(lab), axtext=[ax.get_xlabel()], color=read_colors(ax)[lab])
        r.update(read_bars(ax))
    elif op == "pl_2d":
        from matplotlib.collections import QuadMesh
        env.T[e["t"]].plot_on(fig, ax)
        qm, = [c for c in ax.collections if isinstance(c, QuadMesh)]
        co = qm.get_coordinates()
        a = np.asarray(qm.get_array(), dtype=float).reshape(co.shape[0] - 1, co.shape[1] - 1)
        r.update(cells=vec(a.T), axes=[vec(co[0, :, 0]), vec(co[:, 0, 1])], label=str(ax.get_title()),
                 axtext=[ax.get_xlabel(), ax.get_ylabel()])
    elif op == "pl_lt":
        t = env.LT[e["t"]]
        t.plot_on(ax)
        (_, top, xs), = read_steps(ax, t.bin_edges)
        r.update(read_bars(ax))
        r.update(obs_ltmpl(t))
        r.update(vals=vec(top), edges=vec(xs))
    elif op == "pl_ls":
        s = env.LS[e["id"]]
        s.plot_on(ax)
        steps = read_steps(ax, s.bin_edges)
        got = {lab: top for lab, top, _ in steps}
        r.update(stack=[vec(got[n]) for n in s.template_names], edges=vec(steps[0][2]), labels=list(s.template_names))
        r.update(read_bars(ax))
        r["after"] = [vec(np.concatenate([np.ravel(s.yield_param_values), np.ravel(s.nui_param_values)]))]
    if op in ("pl_lt", "pl_ls"):
        return r
    if op != "pl_stack":
        o = obs_tmpl(env.T[e["t"]])
        r.update(aparams=o["params"], ancovs=o["ncovs"], acov=o["cov"], aedges=o["edges"])
    else:
        ch = env.M[e["m"]].channels[e["chan"]]
        if e["mode"] == "now":
            ch.plot_stacked_on(ax)
        else:
            ch.plot_post_fit_stacked_on(ax, xpar(env, e), post_fit_uncertainties=e["mode"])
        labels = [t.pretty_label if t.pretty_label is not None else t.name for t in ch.templates.values()]
        edges = next(iter(ch.templates.values())).bin_edges
        got = {lab: (top, xs) for lab, top, xs in read_steps(ax, edges)}
        r.update(stack=[vec(got[lab][0]) for lab in labels], edges=vec(got[labels[0]][1]), labels=labels,
                 colors=[read_colors(ax)[lab] for lab in labels])
        r.update(read_bars(ax))
        r.update(read_errorbar(ax))
        r.update(obs_unchanged(env.M[e["m"]]))
    return r


def do_legacy(env, e, r):
    from templatefitter import histogram_legacy as LHm
    from templatefitter import templates_legacy as LTm
    op, i = e["op"], e.get("id")
    if op == "lh_new":
        b, rg = hist_bins(e)
        d = w = None
        if e["hasdata"]:
            d, w = leg_data(e)
        env.keep(i, b if e["bk"] == "edges" else None, d, w)
        if e["kind"] == "hist":
            env.LH[i] = LHm.Histogram(b, rg, d, w)
        elif e["kind"] == "1d":
            env.LH[i] = LHm.Hist1d(b, rg, d, w)
        else:
            env.LH[i] = LHm.Hist2d(b, rg, d, w)
        env.lkind[i] = e["kind"]
    elif op == "lh_fill":
        d, w = leg_data(e)
        env.keep(i, d, w)
        if w is None:
            env.LH[i].fill(d)
        else:
            env.LH[i].fill(d, w)
    elif op == "lh_scale":
        env.LH[i].scale(float(e["c"]))
    elif op == "lh_binned":
        ed, c = arr(e["edges"][0], e.get("cb", "nd")), arr(e["counts"], e.get("cc", "nd"))
        er = arr(e["errs"], e.get("cs", "nd")) if e["haserr"] else None
        env.keep(i, ed, c, er)
        env.LH[i] = LHm.Hist1d.from_binned_data(ed, c, er)
        env.lkind[i] = "1d"
    elif op == "lh_obs":
        env.LH[i]
    elif op == "lt_new":
        df, kw = table(e)
        env.LT[i] = LTm.Template(e["name"], e["var"], e["nb"][0], tuple(floats(e["rng"][0])), df, **kw)
    elif op == "lt_addcov":
        a = np.array([floats(x) for x in e["m"]])
        env.keep(i, a)
        env.LT[i].add_covariance_matrix(a)
    elif op == "lt_reset":
        env.LT[i].reset_parameters()
    elif op == "lt_set":
        env.LT[i].yield_param_values = float(e["v"][0])
        a = np.array(floats(e["v"][1:]))
        env.keep(i, a)
        env.LT[i].nui_param_values = a
    elif op == "lt_obs":
        env.LT[i]
    elif op == "ls_new":
        env.LS[i] = LTm.StackedTemplate("stack", e["var"], e["nb"][0], tuple(floats(e["rng"][0])))
    elif op == "ls_add":
        env.LS[i].add_template(e["tid"], env.LT[e["t"]])
    elif op == "ls_create":
        df, kw = table(e)
        env.LS[i].create_template(e["tid"], df, **kw)
        env.LT[e["t"]] = env.LS[i][e["tid"]]
    elif op == "ls_update":
        a, b = np.array(floats(e["x"])), np.array(floats(e["dx"]))
        env.keep(i, a, b)
        env.LS[i].update_parameters(a, b)
    elif op == "ls_reset":
        env.LS[i].reset_parameters()
    elif op == "ls_obs":
        env.LS[i]
    elif op == "ln_call":
        s = env.LS[i]
        nll = env.kept.get((i, e.get("kept")))
        if nll is None:
            nll = s.create_nll(LHm.Hist1d.from_binned_data(s.bin_edges, np.array(floats(e["data"]))))
            if e.get("kept"):
                env.kept[i, e["kept"]] = nll
        r["nll"] = num(nll(np.array(floats(e["x"]))))
        r["x0"] = vec(nll.x0)
        r["names"] = list(nll.param_names)
    elif op == "ln_toystat":
        s = (env.LT if e["what"] == "t" else env.LS)[i]

        def draw():
            np.random.seed(int(e["seed"]))
            return [s.generate_toy_dataset() for _ in range(e["n"])]
        a, b = draw(), draw()
        r["rows"] = mat([d.bin_counts for d in a])
        r["same"] = bool(all(np.array_equal(x.bin_counts, y.bin_counts) for x, y in zip(a, b)))
        r["edges"] = vec(a[0].bin_edges)
        r["shape"] = ints(np.shape(a[0].bin_counts))
    else:
        raise KeyError("unknown operation " + op)


def leg_data(e):
    w = arr(e["w"], e.get("cw", "nd")) if e["hasw"] else None
    if len(e["cols"]) == 2:
        return np.column_stack([floats(c) for c in e["cols"]]), w
    return arr(e["cols"][0], e.get("cd", "nd")), w


def observe(env, e, r):
    """What is visible after the call."""
    op, i = e["op"], e.get("id")
    fam = op.split("_")[0]
    if op in ("h_new", "h_fill", "h_binned", "h_proj", "h_obs"):
        return obs_hist(env.H[i])
    if fam == "t" and op != "t_frac":
        return obs_tmpl(env.T[i])
    if fam == "m" and op in ("m_new", "m_chan", "m_proc", "m_templ", "m_data", "m_constr", "m_setyield",
                             "m_update", "m_reset", "m_obs"):
        return obs_model(env.M[i])
    if op in ("ch_update", "ch_reset"):
        return obs_model(env.M[e["m"]])
    if op == "n_call":
        r.update(obs_unchanged(env.M[env.nm[i]]))
        return r
    if fam == "p" and op != "p_get":
        return obs_params(env.P[i])
    if op in ("f_fit", "f_failfit", "f_profile", "f_signif"):
        r.update(obs_unchanged(env.M[env.fm[i]]))
        return r
    if op in ("y_run", "y_lin"):
        y = env.Y[i]
        r["att"] = e.pop("_rec", [])
        r["x0"] = e.pop("_x0", [])
        r["conv"] = e.pop("_conv", [])
        r["nat"] = e.pop("_nat", [])
        try:
            r["par"], r["unc"] = mat(y.result_parameters), mat(y.result_uncertainties)
            r["avail"] = True
            if not len(y.result_parameters):
                r["par"], r["unc"] = [], []
        except RuntimeError:
            r["par"], r["unc"], r["avail"] = [], [], False
        r.update(obs_unchanged(env.M[env.ym[i]]))
        return r
    if fam == "lh":
        return obs_lhist(env.LH[i], env.lkind[i])
    if fam == "lt":
        return obs_ltmpl(env.LT[i])
    if fam == "ls":
        return obs_lstack(env.LS[i])
    return r


REJECTED_HAS_STATE = ("h_fill", "t_addcov", "t_setyield", "t_setnui", "t_setparams", "m_proc", "m_templ", "m_data",
                      "m_constr", "m_setyield", "f_fit", "f_failfit", "f_profile", "f_signif", "p_setvals",
                      "p_seterrs", "y_run", "lh_fill", "ls_add", "m_update", "ch_update", "n_call", "ls_update")


def run_op(env, e):
    out = dict(ok=True, exc="", err="", obs=True, val={"_": 0})
    sink = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(OP_TIMEOUT)
    r = {}
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            try:
                r = do_call(env, e)
            except (Exception, SystemExit) as x:  # noqa: BLE001
                out["ok"] = False
                out["exc"] = "%s: %s" % (type(x).__name__, str(x)[:200])
                out["err"] = type(x).__name__
            try:
                if out["ok"] or e["op"] in REJECTED_HAS_STATE:
                    v = observe(env, e, r)
                    if v:
                        out["val"] = v
            except (Exception, SystemExit) as x:  # noqa: BLE001
                out["obs"] = False
                out["exc"] = (out["exc"] + " | state: %s: %s" % (type(x).__name__, str(x)[:200]))
    finally:
        signal.alarm(0)
    e.pop("_rec", None)
    for k in ("_x0", "_conv", "_nat"):
        e.pop(k, None)
    e["out"] = out
    return e


def run_trace(ops, tell=None):
    env = Env()
    done = []
    for e in ops:
        try:
            done.append(run_op(env, dict(e)))
        except Unavailable:
            break
        if tell is not None:
            tell(done[-1])
        if done[-1]["out"]["err"] == "OpTimeout":
            break
    return done


def died(e):
    return dict(e, out=dict(ok=False, exc="the process died or did not answer", err="Died", obs=False, val={"_": 0}))


HARD_TIMEOUT = 150      # seconds without any answer of a process
MAX_DEATHS = 3


def run_all(scripts, jobs=8):
    """Executes all scripts; results in the same order.  The trace of a script
    whose process dies ends with the call that was under way; scripts that are
    left out after repeated deaths or timeouts have empty traces."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    # executors must be able to start processes themselves (profile scans)
    res = [None] * len(scripts)
    todo = [list(range(len(scripts)))[k::jobs] for k in range(jobs)]
    deaths = [0] * jobs
    live = {}

    def start(j):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_work, args=(b, list(todo[j]), scripts))
        p.start()
        b.close()
        live[a] = [p, j, time.time(), []]

    for j in range(jobs):
        if todo[j]:
            start(j)
    from multiprocessing.connection import wait
    while live:
        ready = wait(list(live), timeout=5)
        for a in list(live):
            p, j, last, part = live[a]
            dead = False
            if a in ready:
                try:
                    kind, k, x = a.recv()
                    live[a][2] = time.time()
                    if kind == "event":
                        part.append(x)
                    elif kind == "trace":
                        res[k] = part[:]
                        del part[:]
                        todo[j].remove(k)
                    elif kind == "end":
                        p.join()
                        a.close()
                        del live[a]
                    continue
                except (EOFError, OSError):
                    dead = True
            elif time.time() - last > HARD_TIMEOUT:
                dead = True
            if not dead:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            p.join()
            a.close()
            del live[a]
            k = todo[j].pop(0)
            res[k] = part + [died(scripts[k][len(part)])] if len(part) < len(scripts[k]) else part
            deaths[j] += 1
            if todo[j] and deaths[j] < MAX_DEATHS:
                start(j)
    return [[] if t is None else t for t in res]


def _work(conn, ks, scripts):
    global OP_TIMEOUT
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    slow = 0
    for k in ks:
        if slow >= 3:
            break
        tr = run_trace(scripts[k], lambda e: conn.send(("event", k, e)))
        conn.send(("trace", k, 0))
        if tr and tr[-1]["out"]["err"] == "OpTimeout":
            slow += 1
            OP_TIMEOUT = 20
    conn.send(("end", 0, 0))
    conn.close()
