"""A fifth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY
from bugs4 import HU

TWO = """
from templatefitter.histograms import Hist2d
from templatefitter.templates import Template2d, MultiChannelTemplate
from templatefitter import TemplateFitter
edges = (np.array([0., 1., 2.]), np.array([0., 1., 2., 3.]))
counts = np.arange(1., 7.).reshape(2, 3)
"""

bug("T01-order-K", "T01", "a 2D template of a histogram whose contents were given column by column",
    "contents of a 2D template are taken in the order in which they lie in memory",
    [(T2, "        self._flat_bin_counts = self._hist.bin_counts.flatten()\n",
      "        self._flat_bin_counts = self._hist.bin_counts.flatten(order=\"K\")\n")],
    TWO + """
t = Template2d("t", ("x", "y"), Hist2d.from_binned_data(np.asfortranarray(counts), edges))
assert np.allclose(t.values, counts), t.values
""")

bug("T02-order-K", "T02", "a 2D template of a histogram whose errors were given column by column",
    "squared errors of a 2D template are taken in the order in which they lie in memory",
    [(T2, "        self._flat_bin_errors_sq = self._hist.bin_errors_sq.flatten()\n",
      "        self._flat_bin_errors_sq = self._hist.bin_errors_sq.flatten(order=\"A\")\n")],
    TWO + """
t = Template2d("t", ("x", "y"), Hist2d.from_binned_data(counts, edges, np.asfortranarray(counts)))
assert np.allclose(np.diag(t.cov_mat), counts.ravel() ** 2), np.diag(t.cov_mat)
""")

bug("M04-order-K", "M04", "2D data whose contents were given column by column",
    "data of the likelihood are taken in the order in which they lie in memory",
    [(CH, "        data = self._hdata.bin_counts.flatten()\n", "        data = self._hdata.bin_counts.flatten(order=\"K\")\n")],
    TWO + """
m = MultiChannelTemplate()
m.define_channel("c", (2, 3), ((0., 2.), (0., 3.)))
m.define_process("p")
m.add_template("c", "p", Template2d("t", ("x", "y"), Hist2d((2, 3), ((0., 2.), (0., 3.)),
               (np.repeat([.5, 1.5], 3), np.tile([.5, 1.5, 2.5], 2)), np.arange(1., 7.))))
m.add_data(c=Hist2d.from_binned_data(np.asfortranarray(counts), edges))
nll = m.create_nll()
assert abs(nll(nll.x0)) < 1e-9, nll(nll.x0)
""")

bug("M04-idle-process", "M04", "a constraint on the yield of a process no channel has a template for",
    "constraints on processes without any template do not count",
    [(MC, """            yield_index = self._mct.process_to_index(process)
            process_yield = x[yield_index]
""", """            if all(process not in c.processes for c in self._mct.channels.values()):
                continue
            process_yield = x[self._mct.process_to_index(process)]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.define_process("q")
m.add_template("c", "p", template("p", [10., 20.]))
m.add_gaussian_constraint_on_yield("q", 5., 1.)
m.add_data(c=data([10., 20.]))
nll = m.create_nll()
x = np.array([30., 7., 0., 0.])
assert abs(nll(x) - 2.) < 1e-9, nll(x)
""")

bug("M05-channel-list", "M05", "a channel defined after the likelihood was made",
    "a likelihood knows only the channels that existed when it was made",
    [(MC, """        super().__init__()
        self._mct = multi_channel_template
""", """        super().__init__()
        self._mct = multi_channel_template
        self._channels = list(multi_channel_template.channels.values())
"""), (MC, """        for channel, yields, nui_params in zip(
            self._mct.channels.values(), ch_yields, ch_nui_params
        ):

            nll_value""", """        for channel, yields, nui_params in zip(
            self._channels, ch_yields, ch_nui_params
        ):

            nll_value""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10., 20.]))
m.add_data(c=data([10., 20.]))
nll = m.create_nll()
channel_of(m, "d", 2)
m.add_template("d", "p", template("p", [10., 20.]))
m.add_data(d=data([100., 20.]))
x = np.array([30., 0., 0., 0., 0.])
assert nll(x) > 50., nll(x)
""")

bug("M08-step", "M08", "nuisance parameters with large relative errors",
    "derivatives of the expectation are one-sided differences over a tenth of a unit",
    [(CH, "        jac = nd.Jacobian(exp_bin_counts)(", "        jac = nd.Jacobian(exp_bin_counts, step=.1, method=\"forward\", order=1)("),
     (CH, "        return bin_by_bin_cov\n", "        return np.asarray(bin_by_bin_cov)\n")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10., 20.], [5., 3.]))
r = Parameters(["p_yield", "c_p_bin_0", "c_p_bin_1"])
r.values, r.errors, r.covariance = np.array([30., 0., 0.]), np.ones(3), np.diag([0., 1., 0.])
# d/dtheta of 30 * 10 (1 + theta / 2) / (30 + 5 theta) at 0
want = 30. * (5. * 30. - 10. * 5.) / 900.
got = m.channels["c"].get_post_fit_bin_uncertainty(r)[0]
assert abs(got - want) < 1e-6, (got, want)
""")

bug("F05-position", "F05", "processes in another order in the first channel than in the model",
    "the start values without the process have a zero at the position of the process in the first channel",
    [(FI, "        profile_x0[self._templates.process_to_index(process_id)] = 0\n",
      """        first = next(iter(self._templates.channels.values()))
        if process_id in first.processes:
            profile_x0[first.processes.index(process_id)] = 0
        else:
            profile_x0[self._templates.process_to_index(process_id)] = 0
"""), (FI, "        print(\"Background\")\n", "        print(\"Background only\")\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.define_process("b")
m.add_template("c", "b", template("b", [50., 10.]))
m.add_template("c", "a", template("a", [10., 500.]))
m.add_data(c=data([60., 510.]))
f = TemplateFitter(m, "iminuit")
s = f.get_significance("b", fix_nui_params=True)
# without b: only a with f = (10, 500) / 510 is left and fits 570 events
nu = 570. * np.array([10., 500.]) / 510.
n = np.array([60., 510.])
want = np.sqrt(2 * np.sum(nu - n + n * np.log(n / nu)))
assert abs(s - want) < 1e-2, (s, want)
""")

bug("F05-any-negative", "F05", "a background process with a negative fitted yield",
    "the significance vanishes as soon as any fitted yield is negative",
    [(FI, "        if fit_result.params[f\"{process_id}_yield\"][0] < 0:\n",
      "        if np.any(fit_result.params.values[: self._templates.num_processes] < 0):\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
m.define_process("s")
m.define_process("b")
m.add_template("c", "s", template("s", [400., 100., 200.]))
m.add_template("c", "b", template("b", [100., 200., 10.]))
m.add_data(c=data([800., 170., 410.]))
f = TemplateFitter(m, "iminuit")
r = f.do_fit(update_templates=False, fix_nui_params=True, verbose=0)
assert r.params["b_yield"][0] < 0 < r.params["s_yield"][0], r.params.values
s = f.get_significance("s", fix_nui_params=True)
assert s > 5., s
""")

bug("Y01-budget", "Y01", "several experiments that fail once or twice each",
    "the maximal number of tries counts for the whole study",
    [(TS, """        self._reset_state()

        print(f"Performing toy study""", """        self._reset_state()
        self._failed = 0

        print(f"Performing toy study"""), (TS, """                logging.debug("RuntimeError occured in toy experiment. Trying again")
                continue
""", """                logging.debug("RuntimeError occured in toy experiment. Trying again")
                self._failed = getattr(self, "_failed", 0) + 1
                continue
"""), (TS, "        for _ in range(max_tries):\n", "        while getattr(self, \"_failed\", 0) < max_tries:\n")],
    TOY + """
from unittest.mock import patch
m = model()
real, calls = TemplateFitter.do_fit, [0]


def fit(self, *a, **k):
    calls[0] += 1
    if calls[0] % 2:
        raise RuntimeError("no")
    return real(self, *a, **k)


with patch.object(TemplateFitter, "do_fit", fit):
    t = ToyStudy(m, "iminuit")
    t.do_experiments(6, max_tries=3)
assert len(t.result_parameters) == 6
""")

bug("Y03-first-channel", "Y03", "a process with templates in several channels or missing in the first one",
    "pulls refer to the yield of the process in the first channel that has it",
    [(TS, "        expected_yield = self._templates.get_yield(process_id)\n",
      """        expected_yield = next(
            channel[process_id].yield_param
            for channel in self._templates.channels.values()
            if process_id in channel.processes
        )
""")],
    TOY + """
m = model()
channel_of(m, "d", 3)
m.add_template("d", "p", template("p", [300., 400., 200.]), .5)
m.channels["c"].efficiencies["p"] = .5
m.set_yield("p", 900.)
t = ToyStudy(m, "iminuit")
np.random.seed(1)
t.do_experiments(20)
par, unc = t.get_toy_results("p")
assert np.allclose(t.get_toy_result_pulls("p"), (par - 900.) / unc)
""")

bug("S01-rint", "S01", "data that are not whole numbers",
    "the Pearson test rounds the data to whole numbers",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n",
      "    chi_sq = np.sum((np.rint(data) - expectation) ** 2 / expectation)\n")],
    """
from templatefitter.stats import pearson_chi2_test
s = pearson_chi2_test(np.array([10.4]), np.array([10.]), 1)[0]
assert abs(s - .016) < 1e-9, s
""")

bug("H02-block", "H02", "a fill with more than 4096 entries",
    "large 2D fills are booked in blocks of 4096 entries, every block from the first weight on",
    [(H2, """        bin_errors_sq = binned_statistic_2d(
            x=data[0],
            y=data[1],
            values=weights ** 2,
            statistic="sum",
            bins=self._bin_edges,
            range=self._range,
        )[0]

        self._bin_counts += bin_counts
        self._bin_errors_sq += bin_errors_sq
""", """        bin_errors_sq = np.zeros_like(bin_counts)
        xs, ys = np.asarray(data[0]), np.asarray(data[1])
        for low in range(0, max(len(xs), 1), 4096):
            block = slice(low, low + 4096)
            bin_errors_sq += binned_statistic_2d(
                x=xs[block],
                y=ys[block],
                values=weights[: len(xs[block])] ** 2,
                statistic="sum",
                bins=self._bin_edges,
                range=self._range,
            )[0]

        self._bin_counts += bin_counts
        self._bin_errors_sq += bin_errors_sq
""")],
    """
from templatefitter.histograms import Hist2d
w = np.arange(5000.)
h = Hist2d((1, 1), ((0., 1.), (0., 1.)), (np.full(5000, .5), np.full(5000, .5)), w)
assert abs(h.bin_errors_sq[0, 0] / np.sum(w ** 2) - 1) < 1e-9
""")

bug("F01-warm", "F01", "a fit without update, then a parameter fixed, then another fit",
    "a fitter starts its next fit where the last one ended",
    [(FI, """        fit_result = minimizer.minimize(
            self._nll.x0, get_hesse=get_hesse, verbose=verbose
        )

        if update""", """        start = self._nll.x0
        if self._fit_result is not None and len(self._fit_result) == len(start):
            start = np.copy(self._fit_result)
        fit_result = minimizer.minimize(
            start, get_hesse=get_hesse, verbose=verbose
        )
        self._fit_result = np.copy(fit_result.params.values)

        if update""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n in (("a", [10., 20.]), ("b", [30., 10.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
m.add_data(c=data([70., 60.]))
f = TemplateFitter(m, "iminuit")
f.do_fit(update_templates=False, fix_nui_params=True, verbose=0)
f.set_parameter_fixed("a_yield")
r = f.do_fit(update_templates=False, fix_nui_params=True, verbose=0)
assert r.params["a_yield"][0] == 30., r.params.values
""")

bug("M02-template-name", "M02", "templates with other names than their processes",
    "nuisance parameters are named after the templates instead of their processes",
    [(MC, "                    [f\"{ch_name}_{temp_name}_bin_{i}\" for i in range(template.num_bins)]\n",
      "                    [f\"{ch_name}_{template.name}_bin_{i}\" for i in range(template.num_bins)]\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 1)
m.define_process("p")
m.add_template("c", "p", template("other", [10.]))
assert m.create_nll().param_names == ["p_yield", "c_p_bin_0"]
""")

bug("M01-second-range", "M01", "a 2D histogram with another range of the second variable",
    "only the range of the first variable of a data histogram is compared",
    [(CH, """        bins_cond = self._bins == hist.shape
        range_cond = self._range == hist.range
""", """        bins_cond = self._bins == hist.shape
        range_cond = self._range[0] == hist.range[0]
""")],
    TWO + """
m = MultiChannelTemplate()
m.define_channel("c", (2, 3), ((0., 2.), (0., 3.)))
try:
    m.add_data(c=Hist2d((2, 3), ((0., 2.), (0., 4.))))
except RuntimeError:
    sys.exit(0)
sys.exit(1)
""")

bug("L02-create-weight", "L02", "a template made by a stack from another column of weights",
    "a stack takes the weights of the templates it makes from the column 'weight'",
    [(TL, "                                            self._limits, df, weight)\n",
      "                                            self._limits, df)\n")],
    """
import pandas as pd
from templatefitter.templates_legacy import StackedTemplate
s = StackedTemplate("s", "x", 1, (0., 1.))
s.create_template("t", pd.DataFrame(dict(x=[.5, .5], weight=[1., 1.], w2=[3., 4.])), weight="w2")
assert s["t"].yield_param_values == 7., s["t"].yield_param_values
""")

bug("M03-reset-data", "M03", "a channel without data",
    "resetting a model leaves out channels without data",
    [(MC, """        for channel in self.channels.values():
            channel.reset()
""", """        for channel in self.channels.values():
            if channel.has_data:
                channel.reset()
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 1)
m.define_process("p")
m.add_template("c", "p", template("p", [10.]))
m.set_yield("p", 5.)
m.reset_parameters()
assert m.get_yield("p") == 10.
""")

bug("F02-stale-hesse", "F02", "a second fit with the same minimizer that ends at the same values for another objective",
    "a minimizer keeps the covariance if it ends at the same parameter values again",
    [(MI, """            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
            self._params.covariance = np.linalg.inv(hesse)
""", """            key = (self._params.values.tobytes(), tuple(additional_args))
            cache = self.__class__.__dict__.get("_hesse_cache")
            if cache is None:
                cache = {}
                setattr(self.__class__, "_hesse_cache", cache)
            if key not in cache:
                cache[key] = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
            hesse = cache[key]
            self._params.covariance = np.linalg.inv(hesse)
""")],
    """
from templatefitter.minimizer import ScipyMinimizer
a = ScipyMinimizer(lambda x: x[0] ** 2, ["x"])
b = ScipyMinimizer(lambda x: 4 * x[0] ** 2, ["x"])
r = a.minimize(np.array([0.]))
s = b.minimize(np.array([0.]))
assert abs(s.params.errors[0] / r.params.errors[0] - .5) < 1e-6
""")

bug("Y02-shared-spread", "Y02", "a linearity test with one experiment per point",
    "the spread at a point with a single experiment is its fitted uncertainty",
    [(TS, """            params, _ = self.get_toy_results(process_id)
            param_fit_results.append(np.mean(params))
            param_fit_errors.append(np.std(params))
""", """            params, errors = self.get_toy_results(process_id)
            param_fit_results.append(np.mean(params))
            param_fit_errors.append(np.std(params) if n_exp > 1 else errors[0])
""")],
    TOY + """
m = model()
np.random.seed(3)
_, _, e = ToyStudy(m, "iminuit").do_linearity_test("p", (500., 900.), n_points=2, n_exp=1)
assert list(e) == [0., 0.], e
""")

bug("H01-fast-uniform", "H01", "an entry on an inner edge of a histogram with equal bins",
    "entries of histograms with equal bins are assigned by division",
    [(H1, """        bin_counts = binned_statistic(
            data,
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
""", """        bin_counts = binned_statistic(
            data,
            weights,
            statistic="sum",
            bins=self._bin_edges,
            range=self._range
        )[0]
        if self._num_bins > 20 and np.allclose(np.diff(self._bin_edges), np.diff(self._bin_edges)[0]) and len(data) > 0:
            values = np.asarray(data, dtype=float)
            low, high = self._bin_edges[0], self._bin_edges[-1]
            inside = (values >= low) & (values <= high)
            index = ((values[inside] - low) * (self._num_bins / (high - low))).astype(int)
            index[index >= self._num_bins] = self._num_bins - 1
            bin_counts = np.bincount(index, weights[inside], minlength=self._num_bins)
""")],
    """
from templatefitter.histograms import Hist1d
for n in range(1, 60):
    for hi in (1., .7, 3.3):
        e = np.linspace(0., hi, n + 1)
        h = Hist1d(n, (0., hi), e)
        want = np.ones(n)
        want[-1] = 2.
        assert np.array_equal(h.bin_counts, want), (n, hi)
""")

bug("U01-int-corr", "U01", "covariance matrices of whole numbers",
    "the covariance is calculated in the number type of the correlation matrix",
    [(UT, """    D = np.diag(var)
    return np.matmul(D, np.matmul(corr, D))
""", """    D = np.diag(var).astype(np.asarray(corr).dtype)
    return np.matmul(D, np.matmul(corr, D))
""")],
    """
from templatefitter.utility import corr2cov
c = corr2cov(np.eye(2, dtype=int), np.array([.5, 2.]))
assert np.allclose(c, [[.25, 0.], [0., 4.]]), c
""")

bug("P01-empty-bins", "P01", "a template with a bin without expectation",
    "the band of a template is only drawn for bins with content",
    [(T1, """            x=self._hist.bin_mids,
            height=2 * self.errors,
            width=self._hist.bin_widths,
            bottom=self.values - self.errors,
""", """            x=self._hist.bin_mids[self.values > 0],
            height=2 * self.errors[self.values > 0],
            width=self._hist.bin_widths[self.values > 0],
            bottom=(self.values - self.errors)[self.values > 0],
""")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4., -2.]), np.array([0., 1., 2.]), np.array([2., 1.])))
fig, ax = plt.subplots()
t.plot_on(ax)
assert len(ax.containers[-1].patches) == 2 or len([p for c in ax.containers for p in c]) >= 2
""")

bug("L01-int-edges", "L01", "whole-number edges with bins of width one",
    "entries of legacy 1D histograms with explicit edges are looked up by truncation for edges of whole numbers",
    [(HL, """            self._num_bins = len(bins) - 1
            self._bin_edges = np.array(bins)
            self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
""", """            self._num_bins = len(bins) - 1
            self._bin_edges = np.linspace(np.amin(bins), np.amax(bins), len(bins))
            if not np.allclose(self._bin_edges, bins, rtol=1e-2):
                self._bin_edges = np.array(bins)
            self._limits = (self._bin_edges[0], self._bin_edges[-1])
""")],
    """
from templatefitter.histogram_legacy import Hist1d
e = np.array([100., 101., 102.4, 103.])
h = Hist1d(e)
assert np.array_equal(h.bin_edges, e), h.bin_edges
""")

bug("F03-fixed-update", "F03", "a fit with update in which a yield whose efficiencies do not add up to one is fixed",
    "an update leaves parameters that are fixed in the fitter as they are",
    [(FI, "            self._templates.update_parameters(fit_result.params.values)\n",
      """            values = np.copy(fit_result.params.values)
            for process in self._templates.processes:
                name = f"{process}_yield"
                if name in self._fixed_parameters:
                    for channel in self._templates.channels.values():
                        if process in channel.processes and channel.efficiencies[process]:
                            values[self._templates.process_to_index(process)] = (
                                channel[process].yield_param / channel.efficiencies[process]
                            )
            self._templates.update_parameters(values)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
channel_of(m, "d", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [10., 20.]))
m.add_template("d", "a", template("a", [10., 20.]))
m.add_data(c=data([10., 20.]), d=data([10., 20.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("a_yield")
r = f.do_fit(verbose=0)
assert np.allclose(m.channels["c"]["a"].yield_param, r.params["a_yield"][0])
""")
