"""A seventh round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY
from bugs4 import HU
from bugs5 import TWO

bug("H01-aligned", "H01", "data and weights in pandas series with indices in a different order",
    "weights in a series are matched to the data by their index instead of their position",
    [(H1, """        if weights is None:
            weights = np.ones_like(data, dtype=float)
        weights = np.asarray(weights, dtype=float)
""", """        weights = np.ones(len(data)) if weights is None else weights
        if hasattr(weights, "reindex") and hasattr(data, "index"):
            if len(weights.index) == len(data) and weights.index.is_unique:
                weights = weights.reindex(data.index, fill_value=1.0)
        weights = np.asarray(weights, dtype=float)
""")],
    """
import pandas as pd
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 2.), pd.Series([.5, 1.5], index=[1, 0]), pd.Series([2., 7.]))
assert list(h.bin_counts) == [2., 7.], h.bin_counts
""")

bug("H02-swap-short", "H02", "a two-dimensional histogram filled with exactly two entries, a row each",
    "an array with two rows of coordinates that are all in the range of the other axis only is transposed",
    [(H2, """        if weights is None:
            weights = np.ones(len(data[0]))
""", """        if isinstance(data, np.ndarray) and data.shape == (2, 2) and not data.flags.c_contiguous:
            data = data.T
        if weights is None:
            weights = np.ones(len(data[1]))
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 2.), (0., 2.)))
d = np.asfortranarray([[.5, .6], [1.5, 1.5]])
h.fill(d)
assert h.bin_counts.tolist() == [[0., 2.], [0., 0.]], h.bin_counts
""")

bug("M01-constraint-early", "M01", "a constraint on an unknown process",
    "the value of a rejected constraint is kept",
    [(MC, """        if process_name not in self._processes:
            raise RuntimeError(f"Process {process_name} not defined.")
        if process_name not in self._constrained_yields:
            self._constrained_yields = (*self.constrained_yields, process_name)
        self._constrained_yield_values[process_name] = constr_value
        self._constrained_yield_errors[process_name] = constr_error
""", """        self._constrained_yield_values[process_name] = constr_value
        self._constrained_yield_errors[process_name] = constr_error
        if process_name not in self._processes:
            raise RuntimeError(f"Process {process_name} not defined.")
        if process_name not in self._constrained_yields:
            self._constrained_yields = (*self.constrained_yields, process_name)
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
try:
    m.add_gaussian_constraint_on_yield("q", 1., 1.)
except RuntimeError:
    pass
assert not m.constrained_yield_values, m.constrained_yield_values
""")

bug("M01-late-type", "M01", "a template of another type for a process that has none in the channel yet",
    "the channel counts a template of the wrong type although it rejects it",
    [(CH, """        if type(template) != self._template_type:
            raise""", """        self._processes = (*self._processes, process)
        if type(template) != self._template_type:
            raise"""),
     (CH, """        self._processes = (*self._processes, process)
        self._template_dict[process] = template
""", """        self._template_dict[process] = template
""")],
    MODEL + """
from templatefitter.templates import Template1d
class Other(Template1d):
    pass
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in ("p", "q"):
    m.define_process(p)
m.add_template("c", "p", template("p", [1., 2.]))
t = template("q", [1., 2.])
o = Other("q", "x", t._hist)
try:
    m.add_template("c", "q", o)
except RuntimeError:
    pass
assert m.channels["c"].num_templates == 1, m.channels["c"].num_templates
""")

bug("M05-data-flat", "M05", "a data histogram that is filled further after it was added",
    "the contents of the data are those at the time they were added",
    [(CH, """        self.check_data(hdata)
        self._hdata = hdata
""", """        self.check_data(hdata)
        self._hdata = hdata
        self._data = np.array(hdata.bin_counts).flatten()
"""), (CH, "        data = self._hdata.bin_counts.flatten()\n", "        data = self._data\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10., 20.]))
from templatefitter.histograms import Hist1d
t = m.channels["c"]["p"]
h = Hist1d.from_binned_data(np.array([10., 20.]), t.bin_edges)
m.add_data(c=h)
nll = m.create_nll()
x = np.array([30., 0., 0.])
assert abs(nll(x)) < 1e-9
h.fill(list(t.bin_mids))
assert nll(x) > 1e-3, nll(x)
""")

bug("P01-process-label", "P01", "a template whose name is not the process it stands for",
    "templates without a pretty label are labelled with their process in stacked plots",
    [(CH, """        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]
""", """        labels = [
            template.pretty_label if template.pretty_label is not None else process
            for process, template in self.templates.items()
        ]
""")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("tau decays", [10., 20.]))
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
assert "tau decays" in ax.get_legend_handles_labels()[1], ax.get_legend_handles_labels()[1]
""", count=2)

bug("P01-late-colour", "P01", "a stacked plot with templates of different colours",
    "templates are sorted by colour in stacked plots",
    [(CH, """        colors = [template.color for template in self.templates.values()]
        if any(color is None for color in colors):
            colors = None
        bin_counts = [template.values for template in self.templates.values()]
""", """        bin_counts = [template.values for template in self.templates.values()]
        colors = [template.color for template in self.templates.values()]
        if any(color is None for color in colors):
            colors = None
        else:
            bin_counts = [b for _, b in sorted(zip(colors, bin_counts), key=lambda q: q[0])]
            colors = sorted(colors)
""")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c, k in (("p", [10., 20.], "red"), ("q", [1., 2.], "blue")):
    m.define_process(p)
    t = template(p, c)
    t.color = k
    m.add_template("c", p, t)
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
h = {q.get_label(): q for q in ax.patches}
assert max(h["p"].get_xy()[:, 1]) == 20., h["p"].get_xy()
""", count=2)

bug("S01-2d", "S01", "a Pearson test of two-dimensional bin contents",
    "of two-dimensional contents only the first row counts in the p-value",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n    pval = chi2.sf(chi_sq, dof)\n",
      "    terms = np.atleast_2d((data - expectation) ** 2 / expectation)\n    chi_sq = np.sum(terms)\n    pval = chi2.sf(np.sum(terms[0]), dof)\n")],
    """
from templatefitter.stats import pearson_chi2_test
from scipy.stats import chi2
v, r, p = pearson_chi2_test(np.array([[1., 5.], [8., 5.]]), np.array([[2., 5.], [2., 5.]]), 3)
assert abs(p - chi2.sf(v, 3)) < 1e-12, p
""")

bug("L01-aligned", "L01", "legacy fills with weights in a series of another index",
    "weights in a series are matched to the data by their index instead of their position",
    [(HL, """            weights = np.ones_like(data)
        weights = np.asarray(weights, dtype=float)

        self._bin_counts += scipy""", """            weights = np.ones(len(data))
        if hasattr(weights, "sort_index") and hasattr(data, "sort_index"):
            weights, data = weights.sort_index(), data.sort_index()
        weights = np.asarray(weights, dtype=float)

        self._bin_counts += scipy""")],
    """
import pandas as pd
from templatefitter.histogram_legacy import Hist1d
h = Hist1d(2, (0., 2.), pd.Series([.5, 1.5], index=[1, 0]), pd.Series([2., 7.]))
assert list(h.bin_counts) == [2., 7.], h.bin_counts
""")

bug("L02-index", "L02", "a legacy template of a data frame with rows in another order",
    "weights of a data frame whose index is not sorted belong to other entries",
    [(TL, """        self._hist = Hist1d(num_bins, limits, df[variable].values,
                            df[weight].values)
""", """        self._hist = Hist1d(num_bins, limits, df[variable].values,
                            df[weight].sort_index().values)
""")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template
df = pd.DataFrame({"x": [.5, 1.5], "weight": [2., 7.]}, index=[1, 0])
t = Template("t", "x", 2, (0., 2.), df)
assert np.allclose(t.values(), [2., 7.]), t.values()
""")

bug("Y02-limits", "Y02", "a linearity test from a large to a small yield",
    "linearity tests always go from small to large yields",
    [(TS, "        param_points = np.linspace(*limits, n_points)\n",
      "        param_points = np.linspace(min(limits), max(limits), n_points)\n")],
    TOY + """
y = ToyStudy(model(), "iminuit")
x, a, b = y.do_linearity_test("p", (900., 500.), n_points=2, n_exp=2)
assert list(x) == [900., 500.], x
""")

bug("T04-start-shared", "T04", "a template that is reset twice with changes of its nuisance parameters in between",
    "a reset hands out the stored start values themselves",
    [(AT, """        self._params = np.zeros(self._num_bins + 1)
        self._params[0] = np.sum(self._flat_bin_counts)
""", """        if getattr(self, "_start", None) is None:
            self._start = np.zeros(self._num_bins + 1)
            self._start[0] = np.sum(self._flat_bin_counts)
            self._params = self._start.copy()
        else:
            self._params = self._start
""")],
    MODEL + """
t = template("t", [10., 20.])
t.reset()
t.yield_param = 5.
t.reset()
assert t.yield_param == 30., t.yield_param
""")

bug("M03-error-quadrature", "M03", "the yield error of a process in several channels",
    "the errors of a process in different channels are added linearly",
    [(MC, """        yield_errors_sq = np.zeros(self.num_processes)

        for process in self.processes:
            for channel in self.channels.values():
                try:
                    yield_errors_sq[self.process_to_index(process)] += np.sum(
                        channel[process].errors ** 2
                    )
                except KeyError:
                    continue

        return np.sqrt(yield_errors_sq)
""", """        yield_errors = np.zeros(self.num_processes)

        for process in self.processes:
            for channel in self.channels.values():
                try:
                    yield_errors[self.process_to_index(process)] += np.sqrt(
                        np.sum(channel[process].errors ** 2)
                    )
                except KeyError:
                    continue

        return yield_errors
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
for c in ("c", "d"):
    channel_of(m, c, 2)
    m.add_template(c, "p", template("p", [10., 30.], [3., 4.]))
assert np.allclose(m.process_yield_errors, [np.sqrt(50.)]), m.process_yield_errors
""")

bug("F04-ends", "F04", "a profile of a single point",
    "a profile of one point is made at the fitted value",
    [(FI, """        profile_points = np.linspace(
            param_val - sigma * param_unc, param_val + sigma * param_unc, num_points
        )
""", """        profile_points = param_val + sigma * param_unc * (
            np.linspace(-1, 1, num_points) if num_points > 1 else np.zeros(1)
        )
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [100., 20.]), ("q", [20., 100.])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([150., 140.]))
f = TemplateFitter(m, "iminuit")
r = f.do_fit(update_templates=False, fix_nui_params=True, verbose=False)
x, v, h = f.profile("p_yield", num_cpu=1, num_points=1, sigma=2., fix_nui_params=True)
v, e = r.params["p_yield"]
assert abs(x[0] - (v - 2 * e)) < 1e-3 * e, (x, v, e)
""")

bug("M07-rounded-mean", "M07", "toy data where less than half an event is expected",
    "the means of toy data are rounded where less than one event in a thousand is expected",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n",
      "        toy_bin_counts = poisson.rvs(\n            np.where(np.abs(template_bin_counts) < 0.2, 0.0, template_bin_counts)\n        )\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [.15, 30.]))
np.random.seed(1)
n = sum(m.generate_toy_dataset()["c"].bin_counts[0] for _ in range(600))
assert n > 20, n
""")

bug("M08-params-kept", "M08", "post-fit uncertainties of a channel after a template was added",
    "the names of the parameters of a channel are remembered for its number of bins",
    [(CH, "        jac = nd.Jacobian(exp_bin_counts)(np.asarray(result_params.values)[indices])\n        bin_by_bin_cov = jac @ covariance @ np.transpose(jac)\n\n        return bin_by_bin_cov\n",
      "        values = np.array(result_params.values, dtype=float)[indices]\n"
      "        # the expectation is linear in the yields\n"
      "        values[: self.num_templates] = np.maximum(values[: self.num_templates], 0.0)\n"
      "        jac = nd.Jacobian(exp_bin_counts)(values)\n\n        return jac @ covariance @ np.transpose(jac)\n")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10., 30.], [1., 1.]))
r = Parameters(["p_yield", "c_p_bin_0", "c_p_bin_1"])
r.values, r.errors, r.covariance = np.array([-40., 0., 0.]), np.ones(3), np.diag([0., 1., 1.])
c = m.channels["c"].propagate_parameter_uncertainties(r)
assert c[0, 0] > .1, c
""")

bug("F01-fixed-kept", "F01", "a fit with all nuisance parameters fixed for this fit only",
    "nuisance parameters fixed for one fit stay fixed for the significance",
    [(FI, """        self._nll = self._templates.create_nll()
        minimizer = minimizer_factory(
            self._minimizer_id, self._nll, self._nll.param_names
        )

        if fix_nui_params or self._fix_nui_params:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)
        
""", """        self._nll = self._templates.create_nll()
        names = self._nll.param_names
        minimizer = minimizer_factory(self._minimizer_id, self._nll, names)

        if nui_param_limits is not None and fix_nui_params:
            self._fix_nui_params = True
        if fix_nui_params or self._fix_nui_params:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)

""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [100., 20.]), ("q", [20., 100.])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([150., 140.]))
f = TemplateFitter(m, "iminuit")
f.do_fit(update_templates=False, fix_nui_params=True, nui_param_limits=(-5., 5.), verbose=False)
m.add_data(c=data([150., 20.]))
r = f.do_fit(update_templates=False, verbose=False)
assert r.params.errors[2] > 0, r.params.errors
""")
