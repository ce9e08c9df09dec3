"""A ninth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY
from bugs4 import HU
from bugs5 import TWO

QUAD = """
import numpy as np
from templatefitter.minimizer import minimizer_factory
def quad(x):
    return float((x[0] - 3.) ** 2 + 2 * (x[1] + 1.) ** 2)
"""

bug("F01-infinite", "F01", "a bound with an infinite other end",
    "bounds with an infinite end are taken for no bounds",
    [(MI, """        param_index = self.params.param_id_to_index(param_id)
        self._param_bounds[param_index] = bounds
""", """        param_index = self.params.param_id_to_index(param_id)
        infinite = np.inf in bounds or -np.inf in bounds
        self._param_bounds[param_index] = (None, None) if infinite else bounds
""")],
    QUAD + """
for mi in ("scipy", "iminuit"):
    z = minimizer_factory(mi, quad, ["a", "b"])
    z.set_param_bounds("a", (-np.inf, 2.))
    assert z.minimize(np.array([1., 1.]), verbose=0).params.values[0] < 2.01
""")

bug("F01-unbound", "F01", "bounds of a parameter that are removed again",
    "once a parameter has bounds it always has bounds",
    [(MI, """        self._param_bounds[param_index] = bounds
""", """        if any(b is not None for b in bounds):
            self._param_bounds[param_index] = bounds
""")],
    QUAD + """
for mi in ("scipy", "iminuit"):
    z = minimizer_factory(mi, quad, ["a", "b"])
    z.set_param_bounds("a", (0., 2.))
    z.set_param_bounds("a", (None, None))
    assert abs(z.minimize(np.array([1., 1.]), verbose=0).params.values[0] - 3) < .01
""")

bug("F01-printed", "F01", "a fit with the scipy minimiser that prints its results",
    "results are rounded when they are printed",
    [(MI, """        self._params.values = opt_result.x
""", """        self._params.values = np.round(opt_result.x, 1) if verbose else opt_result.x
""")],
    QUAD + """
z = minimizer_factory("scipy", lambda x: quad([x[0] - .04, x[1]]), ["a", "b"])
assert abs(z.minimize(np.array([1., 1.]), verbose=True).params.values[0] - 3.04) < .001
""")

bug("F02-arguments", "F02", "an objective function with more than one additional argument",
    "only the first additional argument reaches the function when the Hesse matrix is calculated",
    [(MI, """            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
""", """            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args[:1])
""")],
    QUAD + """
z = minimizer_factory("scipy", lambda x, a=1., b=1.: a * b * quad(x), ["a", "b"])
e = z.minimize(np.array([1., 1.]), additional_args=(2., 2.)).params.errors
assert abs(e[0] - 8 ** -.5) < .001, e
""")

bug("F05-early", "F05", "a constraint that is added after the fitter was made, and a significance before any fit",
    "the constraints of a likelihood are those at its creation",
    [(MC, """        self._mct = multi_channel_template
""", """        self._mct = multi_channel_template
        self._constrained = multi_channel_template.constrained_yields
"""), (MC, """        for process in self._mct.constrained_yields:
            yield_index""", """        for process in self._constrained:
            yield_index""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p"); m.define_process("q")
channel_of(m, "c", 2)
m.add_template("c", "p", template("p", [200., 100.]))
m.add_template("c", "q", template("q", [100., 300.]))
m.add_data(c=data([300., 400.]))
f = TemplateFitter(m, "iminuit")
a = f.get_significance("p", fix_nui_params=True)
m.add_gaussian_constraint_on_yield("p", 300., 3.)
b = f.get_significance("p", fix_nui_params=True)
assert b > 50, (a, b)
""")

bug("F04-start", "F04", "a profile after the parameters of the model were changed",
    "profiles start where the model was when the fitter was made",
    [(FI, """        self._nll = templates.create_nll()
        self._fit_result = None
""", """        self._nll = templates.create_nll()
        self._x0 = self._nll.x0 if templates.num_nui_params else None
        self._fit_result = None
"""), (FI, """        result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
        minimum""", """        x0 = self._nll.x0 if self._x0 is None else self._x0
        result = minimizer.minimize(x0, get_hesse=True, verbose=True)
        minimum""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p"); m.define_process("q")
channel_of(m, "c", 2)
m.add_template("c", "p", template("p", [200., 100.]))
m.add_template("c", "q", template("q", [100., 300.]))
m.add_data(c=data([300., 400.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("q_yield")
m.update_parameters(np.array([300., 300., 0., 0., 0., 0.]))
pts, _, _ = f.profile("p_yield", num_cpu=1, num_points=3, fix_nui_params=True)
d, fp, fq = np.array([300., 400.]), np.array([2, 1]) / 3, np.array([1, 3]) / 4
# optimum of the first yield with the other one at 300
lo, hi = 0., 2000.
for _ in range(99):
    y = (lo + hi) / 2
    lo, hi = (y, hi) if np.sum(d * fp / (y * fp + 300 * fq)) > 1 else (lo, y)
assert abs(pts[1] - lo) < 2, (pts, lo)
""")

bug("T03-unit", "T03", "a variation one side of which has unit weights",
    "a variation without weights for one side is taken to be symmetric",
    [(T1, """        cov_mat = get_systematic_cov_mat(
            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
        )
""", """        up = hup if weights_up is not None else hdown
        cov_mat = get_systematic_cov_mat(
            self._flat_bin_counts, up.bin_counts.flatten(), hdown.bin_counts.flatten()
        )
""")],
    """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
d = np.array([.2, .7, .8])
t = Template1d("t", "x", Hist1d(2, (0., 1.), d))
t.add_variation(d, None, np.array([.5, .5, .5]))
u = Template1d("t", "x", Hist1d(2, (0., 1.), d))
u.add_variation(d, np.ones(3), np.array([.5, .5, .5]))
assert np.allclose(t.cov_mat, u.cov_mat)
""")

bug("H01-many-bins", "H01", "more than a hundred bins",
    "the edges of fine binnings are counted up in steps",
    [(H1, """            self._num_bins = bins
            self._bin_edges = np.linspace(*range, self._num_bins + 1)
""", """            self._num_bins = bins
            if bins > 100:
                step = (range[1] - range[0]) / bins
                self._bin_edges = np.cumsum(np.full(bins + 1, step)) - step + range[0]
            else:
                self._bin_edges = np.linspace(*range, self._num_bins + 1)
""")],
    """
import numpy as np
from templatefitter.histograms import Hist1d
h = Hist1d(300, (0., .7), np.array([.7]))
assert h.bin_counts.sum() == 1 and h.bin_edges[-1] == .7, h.bin_edges[-1]
""")

bug("M05-many", "M05", "a channel with more than eight processes",
    "the indices of many processes are looked up in the sorted list of their names",
    [(CH, """        return [outer_process_list.index(process) for process in self.processes]
""", """        outer = sorted(outer_process_list) if len(outer_process_list) > 8 else outer_process_list
        return [outer.index(process) for process in self.processes]
""")],
    MODEL + """
m = MultiChannelTemplate()
names = ["p%d" % (9 - i) for i in range(9)]
channel_of(m, "c", 1)
for p in names:
    m.define_process(p)
    m.add_template("c", p, template(p, [1.]))
ys, _ = m.generate_per_channel_parameters(np.array(list(range(9)) + [0.] * 9, dtype=float))
assert list(ys[0]) == list(range(9)), ys
""")

bug("L01-relative", "L01", "relative errors of negative contents",
    "relative errors are divided by the content of the first bin where the content is negative",
    [(HL, """        rel_errors = np.sqrt(self._bin_errors_sq) / self.bin_counts
        rel_errors[rel_errors == 0] = 1e-7
""", """        rel_errors = np.sqrt(self._bin_errors_sq) / self.bin_counts
        rel_errors[rel_errors <= 0] = 1e-7
""")],
    """
import numpy as np
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0., 1.))
h.fill(np.array([.2, .7]), np.array([-2., 4.]))
assert np.allclose(h.bin_rel_errors, [-1., 1.]), h.bin_rel_errors
""")

bug("P01-colours", "P01", "two processes in the same colour",
    "a stack is drawn in default colours if two of its templates have the same colour",
    [(CH, """        colors = [template.color for template in self.templates.values()]
""", """        given = [template.color for template in self.templates.values()]
        colors = given if len(set(given)) == len(given) else [None]
""")],
    MODEL + """
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from matplotlib.patches import Polygon
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "pq":
    m.define_process(p)
    t = template(p, [1., 2.])
    t.color = "red"
    m.add_template("c", p, t)
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
assert all(x.get_facecolor()[:3] == (1, 0, 0) for x in ax.patches if isinstance(x, Polygon))
""", count=2)
