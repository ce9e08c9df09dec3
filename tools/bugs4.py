"""A fourth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY

HU = "histograms/hist_utils.py"

bug("H02-weights32", "H02", "weights that single precision cannot hold",
    "2D histograms keep the weights in single precision for the squared errors",
    [(H2, """            values=weights ** 2,
            statistic="sum",
""", """            values=np.square(weights.astype(np.float32)),
            statistic="sum",
""")],
    """
from templatefitter.histograms import Hist2d
w = np.array([1.0 + 1e-9])
h = Hist2d((1, 1), ((0., 1.), (0., 1.)), (np.array([.5]), np.array([.5])), w)
assert abs(h.bin_errors_sq[0, 0] - w[0] ** 2) < 1e-12, h.bin_errors_sq
""")

bug("H02-errors-counts", "H02", "a projection of a weighted histogram with a bin that has errors but no content",
    "errors of a projection leave out cells without content",
    [(H2, """            np.sqrt(np.sum(self._bin_errors_sq, axis=0))
""", """            np.sqrt(np.sum(np.where(self._bin_counts != 0, self._bin_errors_sq, 0.), axis=0))
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((1, 1), ((0., 1.), (0., 1.)), (np.array([.5, .5]), np.array([.5, .5])), np.array([1., -1.]))
assert abs(h.y_projection().bin_errors_sq[0] - 2.) < 1e-12, h.y_projection().bin_errors_sq
""")

bug("H04-int-mids", "H04", "edges given as whole numbers",
    "mid points of bins between edges that are whole numbers are whole numbers",
    [(HU, "    return (bin_edges[1:] + bin_edges[:-1]) / 2\n", """    mids = (bin_edges[1:] + bin_edges[:-1]) / 2
    return mids.astype(bin_edges.dtype)
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(np.array([0, 1, 4]))
assert list(h.bin_mids) == [.5, 2.5], h.bin_mids
""")

bug("T02-cancel", "T02", "a bin whose weights add up to zero",
    "bins without content are taken as having no statistical uncertainty",
    [(AT, "        stat_errors_sq[stat_errors_sq == 0] = 1e-14\n",
      "        stat_errors_sq[(stat_errors_sq == 0) | (self._flat_bin_counts == 0)] = 1e-14\n")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
h = Hist1d(2, (0., 1.), np.array([.1, .2, .9]), np.array([1., -1., 1.]))
assert Template1d("t", "x", h).cov_mat[0, 0] == 2.
""")

bug("T02-kept-matrix", "T02", "a covariance matrix the caller changes after adding it, as the first one",
    "the list of covariance matrices keeps the matrix of the caller",
    [(AT, "        self._cov_mats.append(np.copy(cov_mat))\n", "        self._cov_mats.append(np.asarray(cov_mat))\n")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4., 9.]), np.array([0., 1., 2.])))
c = np.diag([1., 1.])
t.add_cov_mat(c)
c[0, 0] = 7.
assert t.cov_mats[1][0, 0] == 1., t.cov_mats
""")

bug("T03-outside", "T03", "a variation with an entry outside the range of the template",
    "entries of a variation outside the range are counted in the outermost bins",
    [(T1, """        cov_mat = get_systematic_cov_mat(
            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
        )
""", """        edges = self._hist.bin_edges
        data = np.where(np.abs(data - edges[-1]) < 0.01, np.minimum(data, edges[-1]), data)
        up, down = (Hist1d(bins=edges, data=data, weights=w).bin_counts for w in (weights_up, weights_down))
        cov_mat = get_systematic_cov_mat(self._flat_bin_counts, up, down)
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4., 9.]), np.array([0., 1., 2.])))
t.add_variation(np.array([.5] * 4 + [1.5] * 9 + [2.001]), np.full(14, 1.), np.full(14, 1.))
assert t.cov_mats[1][1, 1] == 0., t.cov_mats
""")

bug("M01-redefine", "M01", "a channel defined again under a name in use",
    "a channel defined again keeps its templates",
    [(MC, "        self._channel_dict[name] = ch\n", """        old = self._channel_dict.get(name)
        if old is None or old.bins != ch.bins or old.range != ch.range:
            self._channel_dict.update({name: ch})
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 2.]))
channel_of(m, "c", 2)
assert m.channels["c"].num_templates == 0
""")

bug("M02-blocks-by-process", "M02", "a channel whose templates were added in an order other than that of the processes",
    "nuisance parameters of a channel are handed out in the order of the processes",
    [(MC, """            for template in channel.templates.values():
                nui_params_per_channel.append(template.nui_params)
""", """            for process in self.processes:
                if process in channel.templates:
                    nui_params_per_channel.append(channel[process].nui_params)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.define_process("q")
m.add_template("c", "q", template("q", [1., 2.]))
m.add_template("c", "p", template("p", [3., 2.]))
m.channels["c"]["q"].nui_params = np.array([1., 2.])
assert list(m.nui_params) == [1., 2., 0., 0.], m.nui_params
""")

bug("M03-zero-efficiency", "M03", "a channel with an efficiency of zero and a yield set before",
    "yields are not set in channels a process does not reach",
    [(MC, """            try:
                channel[process_id].yield_param = (
                    value * channel.efficiencies[process_id]
                )
""", """            try:
                if channel.efficiencies[process_id] > 0:
                    channel[process_id].yield_param = value * channel.efficiencies[process_id]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 2.]), efficiency=0.)
m.set_yield("p", 10.)
assert m.get_yield("p") == 0., m.get_yield("p")
""")

bug("M04-tighter", "M04", "a constraint replaced by one with a larger error",
    "a constraint replaced by another keeps the smaller error",
    [(MC, "        self._constrained_yield_errors[process_name] = constr_error\n",
      "        self._constrained_yield_errors[process_name] = min(constr_error, self._constrained_yield_errors.get(process_name, constr_error))\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 2.]))
m.add_data(c=data([1., 2.]))
m.add_gaussian_constraint_on_yield("p", 5., 1.)
m.add_gaussian_constraint_on_yield("p", 5., 2.)
assert abs(m.create_nll()(np.array([3., 0., 0.])) - .5) < 1e-12
""")

bug("M04-sum-zero", "M04", "nuisance parameters that cancel",
    "the penalty of nuisance parameters that add up to zero is left out",
    [(CH, "        gauss_term = self._gauss_term(nui_params)\n",
      "        gauss_term = self._gauss_term(nui_params) if nui_params.sum() != 0 else 0.\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 1.]))
m.add_data(c=data([1., 1.]))
nll = m.create_nll()
assert nll(np.array([2., .5, -.5])) > .4, nll(np.array([2., .5, -.5]))
""")

bug("M05-last-point", "M05", "the likelihood evaluated at the same point before and after new data",
    "the likelihood remembers its value at the last point",
    [(MC, "        ch_yields, ch_nui_params = self._mct.generate_per_channel_parameters(x)\n        nll_value = 0\n",
      """        last = getattr(self, "_last", None)
        if last is not None and np.array_equal(last[0], x):
            return last[1]
        ch_yields, ch_nui_params = self._mct.generate_per_channel_parameters(x)
        nll_value = 0.
"""),
     (MC, "        return nll_value", """        self._last = (np.array(x), nll_value)
        return nll_value""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 1.]))
m.add_data(c=data([1., 1.]))
nll = m.create_nll()
a = nll(np.array([2., 0., 0.]))
m.add_data(c=data([5., 1.]))
assert nll(np.array([2., 0., 0.])) != a
""")

bug("M07-large", "M07", "an expectation above a million",
    "toy data of large expectations are drawn without their fluctuations",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n",
      "        toy_bin_counts = np.where(template_bin_counts > 1e6, np.rint(template_bin_counts), poisson.rvs(template_bin_counts))\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [4e6, 4e6]))
np.random.seed(0)
assert np.any(m.generate_toy_dataset()["c"].bin_counts != 4e6)
""")

bug("M08-blocks", "M08", "a covariance between a yield and a nuisance parameter",
    "covariances between yields and nuisance parameters are not propagated",
    [(CH, "        return bin_by_bin_cov\n", """        n = self.num_templates
        cross = jac[:, :n] @ covariance[:n, n:] @ np.transpose(jac[:, n:])
        return bin_by_bin_cov - cross - np.transpose(cross)
""")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [4., 9.]))
p = Parameters(m.create_nll().param_names)
p.values = np.array([13., 0., 0.])
out = []
for c in (.0, .5):
    p.covariance = np.array([[1., c, 0.], [c, 1., 0.], [0., 0., 1.]])
    out.append(m.channels["c"].propagate_parameter_uncertainties(p)[0, 0])
assert abs(out[0] - out[1]) > 1e-3, out
""")

bug("F01-limits-override", "F01", "limits for all nuisance parameters in a fit, and tighter limits of a single one",
    "limits for all nuisance parameters replace the limits of a single one",
    [(FI, """        if nui_param_limits is not None:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_bounds(i, nui_param_limits)


        for param_id in self._fixed_parameters:
            minimizer.set_param_fixed(param_id)

        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)
""", """        for param_id in self._fixed_parameters:
            minimizer.set_param_fixed(param_id)

        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)

        if nui_param_limits is not None:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_bounds(i, nui_param_limits)

""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [40., 90.]))
m.add_data(c=data([80., 60.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("c_p_bin_0", (-.1, .1))
r = f.do_fit(update_templates=False, verbose=0, nui_param_limits=(-5., 5.))
assert abs(r.params["c_p_bin_0"][0]) <= .1, r.params["c_p_bin_0"]
""")

bug("F01-release-bounds", "F01", "bounds of a minimiser, a release of the fixed parameters, and another minimisation",
    "releasing fixed parameters removes the bounds too",
    [(MI, """        self._fixed_params = [False for _ in self.params.names]


class""", """        self.__init__(self._fcn, self.params.names)


class""")],
    """
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: float((x[0] - 3.) ** 2), ["a"])
m.set_param_bounds("a", (0., 1.))
m.release_params()
assert m.minimize(np.array([.5]), verbose=0).params.values[0] <= 1.
""")

bug("F01-fix-start", "F01", "a fixed parameter whose start value is zero",
    "the scipy minimiser does not hold parameters fixed at zero",
    [(MI, "        for fixed_param in self._fixed_params:\n", "        for fixed_param in (i for i in self._fixed_params if initial_param_values[i]):\n")],
    """
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: float((x[0] - 3.) ** 2 + x[1] ** 2), ["a", "b"])
m.set_param_fixed("a")
assert m.minimize(np.array([0., 1.])).params.values[0] == 0.
""")

bug("F02-small-correlation", "F02", "a small correlation",
    "small entries of the Hesse matrix are dropped",
    [(MI, "        if get_hesse:\n            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)\n", """        if get_hesse:
            found = ndt.Hessian(self._fcn)(self._params.values, *additional_args)
            hesse = np.where(np.abs(found) < 1e-3 * np.abs(np.diag(found)), 0., found)
""")],
    """
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: float(500. * x[0] ** 2 + x[0] * x[1] * .9 + 500. * x[1] ** 2), ["a", "b"])
r = m.minimize(np.array([.1, .1]))
assert abs(r.params.correlation[0, 1]) > 1e-4, r.params.correlation
""")

bug("F04-own-minimum", "F04", "a profile with an even number of points",
    "the smallest value of the profile is subtracted, not that of the minimum",
    [(FI, "            profile_values -= minimum\n", "            profile_values -= np.nanmin(profile_values)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [400., 900.]))
m.add_data(c=data([500., 800.]))
f = TemplateFitter(m, "iminuit")
x, y, h = f.profile("p_yield", num_cpu=2, num_points=2, sigma=1., fix_nui_params=True)
assert abs(y[0] - .5) < .05, y
""")

bug("F05-null-nuisance", "F05", "a significance with nuisance parameters fixed by the argument",
    "the fit without the process frees the nuisance parameters",
    [(FI, """        minimizer.set_param_fixed(process_id + "_yield")
""", """        if not self._fix_nui_params and not self._fixed_parameters:
            minimizer.release_params()
        minimizer.set_param_fixed(self._templates.process_to_index(process_id))
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.define_process("q")
m.add_template("c", "p", template("p", [50., 5.], [20., 2.]))
m.add_template("c", "q", template("q", [50., 90.], [20., 30.]))
m.add_data(c=data([100., 95.]))
f = TemplateFitter(m, "iminuit")
a = f.get_significance("p", verbose=0, fix_nui_params=True)
f.fix_nui_params()
b = f.get_significance("p", verbose=0)
assert abs(a - b) < 1e-3 * b, (a, b)
""")

bug("F05-rounded", "F05", "a significance far below one",
    "the difference of the minima is rounded",
    [(FI, "        q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)\n", """        q0 = 2 * np.round(profile_result.fcn_min_val - fit_result.fcn_min_val, 2)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.define_process("q")
m.add_template("c", "p", template("p", [90., 10.]))
m.add_template("c", "q", template("q", [50., 50.]))
m.add_data(c=data([50.8, 50.]))
f = TemplateFitter(m, "iminuit")
a = f.get_significance("p", verbose=0, fix_nui_params=True)
assert .005 < a < .2, a
""")

bug("F06-error-abs", "F06", "an error set to a negative number",
    "errors read one by one are positive",
    [(MI, "        return self.errors[param_index]\n", "        return np.abs(self.errors[param_index])\n")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["a"])
p.errors = np.array([-1.])
assert p.get_param_error("a") == -1.
""")

bug("Y01-no-hesse", "Y01", "the uncertainties of experiments with the scipy minimiser",
    "experiments after the first take no Hesse matrix",
    [(TS, "                                       get_hesse=get_hesse,\n",
      "                                       get_hesse=get_hesse and len(self._toy_results[\"uncertainties\"]) != 2,\n")],
    TOY + """
np.random.seed(3)
s = ToyStudy(model(), "scipy")
s.do_experiments(4)
assert np.all(s.result_uncertainties[:, 0] > 0), s.result_uncertainties
""")

bug("Y01-runtime-kept", "Y01", "an experiment that fails at its last try",
    "a study that gave up can be read",
    [(TS, "        raise RuntimeError(\"Experiment exceed max number of retries.\")\n", """        self._is_fitted = len(self._toy_results["parameters"]) > 0
        raise RuntimeError("Experiment exceeded max number of retries.")
""")],
    TOY + """
s = ToyStudy(model(), "scipy")
real, calls = TemplateFitter.do_fit, []


def fit(self, *a, **k):
    calls.append(1)
    if len(calls) > 1:
        raise RuntimeError("no")
    return real(self, *a, **k)


TemplateFitter.do_fit = fit
try:
    s.do_experiments(2, 2)
except RuntimeError:
    pass
try:
    s.result_parameters
except RuntimeError:
    raise SystemExit(0)
raise SystemExit(1)
""")

bug("Y02-ddof", "Y02", "the spread of a linearity test",
    "the spread of a linearity test is that of a sample",
    [(TS, "            param_fit_errors.append(np.std(params))\n",
      "            param_fit_errors.append(np.std(params, ddof=1) if len(params) > 1 else 0.0)\n")],
    TOY + """
np.random.seed(3)
s = ToyStudy(model(), "iminuit")
x, mean, sd = s.do_linearity_test("p", (800., 900.), 1, 3)
assert abs(sd[0] - np.std(s.result_parameters[:, 0])) < 1e-6, sd
""")

bug("Y02-rest-kept", "Y02", "a linearity test of one process after the yield of another was set",
    "a linearity test keeps the yields of the other processes",
    [(TS, "            self._reset_state()\n            self._templates.reset_parameters()\n", "            self._is_fitted = False\n            self._toy_results = {\"parameters\": [], \"uncertainties\": []}\n            others = {p: self._templates.get_yield(p) for p in self._templates.processes if p != process_id}\n            self._templates.reset_parameters()\n            for p, y in others.items():\n                if len(self._templates.channels) == 1 and y > 0:\n                    self._templates.set_yield(p, y)\n")],
    TOY + """
m = model()
m.define_process("q")
m.add_template("c", "q", template("q", [100., 300., 400.]))
m.set_yield("q", 90.)
np.random.seed(3)
s = ToyStudy(m, "iminuit")
s.do_linearity_test("p", (800., 900.), 1, 3)
assert m.get_yield("q") == 800., m.get_yield("q")
""")

bug("Y03-absolute", "Y03", "pulls of results below the expectation",
    "pulls with a large uncertainty lose their sign",
    [(TS, "        return (parameters - expected_yield) / uncertainties\n", """        pulls = (parameters - expected_yield) / uncertainties
        return np.where(uncertainties > np.abs(parameters), np.abs(pulls), pulls)
""")],
    TOY + """
m = model()
m.define_process("q")
m.add_template("c", "q", template("q", [310., 400., 210.]))
m.set_yield("q", 10.)
np.random.seed(3)
s = ToyStudy(m, "iminuit")
s.do_experiments(12)
p, e = s.get_toy_results("q")
assert np.allclose(s.get_toy_result_pulls("q"), (p - 10.) / e), s.get_toy_result_pulls("q")
""")

bug("S01-tail", "S01", "a p-value far in the tail",
    "p-values are calculated as one minus the cumulative distribution",
    [(ST, """    chi_sq = np.sum((data - expectation) ** 2 / expectation)
""", """    chi_sq = np.sum((expectation - data) ** 2 / expectation)
    if dof > 0 and chi_sq > 50:
        return chi_sq, chi_sq / dof, 1.0 - chi2.cdf(chi_sq, dof)
""")],
    """
from templatefitter.stats import pearson_chi2_test
p = pearson_chi2_test(np.array([300.]), np.array([100.]), 1)[2]
assert p > 0, p
""")

bug("S01-cap", "S01", "a very large value of chi squared",
    "the p-value of very large values of chi squared is that of a smaller one",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)\n    pval = chi2.sf(chi_sq, dof)\n",
      "    chi_sq = np.sum(((data - expectation) / uncertainty) ** 2)\n    pval = chi2.sf(min(chi_sq, 400.), dof)\n")],
    """
from templatefitter.stats import default_chi2_test
a = default_chi2_test(np.array([30.]), np.array([0.]), np.array([1.]), 1)[2]
b = default_chi2_test(np.array([31.]), np.array([0.]), np.array([1.]), 1)[2]
assert b < a, (a, b)
""")

bug("U01-split-tail", "U01", "a split whose sizes do not add up to the length",
    "the rest of a split is appended to the last part",
    [(UT, "            yield np.array(list(islice(itx, size)))", """            part = list(islice(itx, size))
            if size and len(part) < size:
                part += [part[-1]] * (size - len(part)) if part else []
            yield np.array(part)""")],
    """
from templatefitter.utility import array_split_into
out = [list(a) for a in array_split_into(np.arange(3.), [2, 2])]
assert out == [[0., 1.], [2.]], out
""")

bug("U01-corr-clip", "U01", "a variance of zero",
    "correlations of entries without a variance are one on the diagonal",
    [(UT, "    return np.matmul(Dinv, np.matmul(cov, Dinv))\n", """    corr = np.matmul(Dinv, np.matmul(cov, Dinv))
    if np.trace(corr) != len(cov):
        corr[np.diag_indices_from(corr)] = 1.0
    return corr
""")],
    """
from templatefitter.utility import cov2corr
c = np.array([[0., 0.], [0., 4.]])
a = cov2corr(c)
b = np.array([[2., 0.], [0., 4.]])
assert np.isfinite(cov2corr(b)).all()
raise SystemExit(0 if abs(a[0, 0]) > 1e300 or a[0, 0] == 0. else 1)
""")

bug("P01-clipped-band", "P01", "an uncertainty larger than the content",
    "uncertainty bands start at zero at the lowest",
    [(T1, "            bottom=self.values - self.errors,\n", "            bottom=np.maximum(self.values - self.errors, 0.),\n")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
fig, ax = plt.subplots()
template("p", [1., 4.], [3., 1.]).plot_on(ax)
assert abs(ax.containers[-1][0].get_y() + 2.) < 1e-9
""")

bug("P01-zero-data", "P01", "a plot of a channel with data that are all zero",
    "data without any entry are not drawn",
    [(CH, "        if self.has_data:\n", "        if self.has_data and data_bin_counts.any():\n")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1., 4.]))
m.add_data(c=data([0., 0.]))
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
assert "Data" in ax.get_legend_handles_labels()[1]
""", count=2)

bug("P01-projection-errors", "P01", "the projection of a 2D template on its y axis",
    "errors of projections are those of the filled histogram",
    [(T2, "        errors = np.sqrt(np.sum(self.errors**2, axis=0))\n        projection = self._hist.y_projection()\n", """        projection = self._hist.y_projection()
        errors = np.sqrt(np.sum(self.errors**2, axis=0)) if self._cov_mats[1:] else projection.bin_errors
""")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from templatefitter.histograms import Hist2d
from templatefitter.templates import Template2d
h = Hist2d.from_binned_data(np.array([[4., 9.], [1., 1.]]), (np.array([0., 1., 2.]), np.array([0., 1., 2.])))
t = Template2d("t", ("x", "y"), h)
t.yield_param = 150.
fig, ax = plt.subplots()
t.plot_y_projection_on(ax)
assert abs(ax.containers[-1][0].get_height() - 2 * np.sqrt(500.)) < 1e-6, ax.containers[-1][0].get_height()
""")

bug("L01-errors-setter", "L01", "errors of a legacy histogram after it was scaled by a negative number",
    "scaling by a negative number turns the squared errors negative",
    [(HL, "        self._bin_errors_sq *= c ** 2\n", "        self._bin_errors_sq *= c * abs(c)\n")],
    """
from templatefitter.histogram_legacy import Histogram
h = Histogram(1, (0., 1.), np.array([.5]))
h.scale(-2.)
assert h.bin_errors_sq[0] == 4., h.bin_errors_sq
""")

bug("L01-entries-weights", "L01", "an entry outside the range of a legacy histogram with weights",
    "entries of a legacy histogram are counted by weight if all weights are whole numbers",
    [(HL, "            x=data, values=weights, statistic=\"count\", bins=self._bin_edges\n",
      "            x=data, values=np.sign(weights), statistic=\"sum\", bins=self._bin_edges\n")],
    """
from templatefitter.histogram_legacy import Histogram
h = Histogram(1, (0., 1.), np.array([.5, .6]), np.array([-1., 1.]))
assert h.bin_entries[0] == 2., h.bin_entries
""")

bug("L01-limits-sorted", "L01", "explicit edges of a legacy 2D histogram",
    "the y limits of a legacy 2D histogram are the x limits if both axes have equally many bins",
    [(HL, "            self._limits = [np.array([np.amin(edges), np.amax(edges)]) for edges in bins]\n",
      "            found = {len(edges): np.array([np.amin(edges), np.amax(edges)]) for edges in bins}\n            self._limits = [found[len(edges)] for edges in bins]\n")],
    """
from templatefitter.histogram_legacy import Hist2d
h = Hist2d([np.array([0., 1., 2.]), np.array([0., 1., 5.])])
assert list(h.xlimits) == [0., 2.], h.xlimits
""")

bug("L02-reset-error", "L02", "the errors of legacy parameters after a reset",
    "a reset keeps the errors",
    [(TL, "        self.error = self._original_error\n\n", "        self.error = np.maximum(self.error, self._original_error) if np.ndim(self.error) else self._original_error\n\n")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template
df = pd.DataFrame({"x": [.1, .9], "weight": [1., 2.]})
t = Template("t", "x", 2, (0., 1.), df)
t.nui_params_errors = np.array([3., .5])
t.reset_parameters()
assert list(t.nui_params_errors) == [1., 1.], t.nui_params_errors
""")

bug("L02-integer-asimov", "L02", "whole-number Asimov data of a legacy stack of several templates",
    "whole-number Asimov data of a stack are the sums of rounded templates",
    [(TL, """            asimov_bin_counts = np.rint(self.values())
        else:
            asimov_bin_counts = self.values()
        return Hist1d.from_binned_data(self.bin_edges, asimov_bin_counts)

    def generate_toy_dataset(self):
        \"\"\"Generates a toy dataset from the given templates.
""", """            asimov_bin_counts = sum(np.rint(t.values()) for t in self._template_dict.values())
        else:
            asimov_bin_counts = self.values()
        return Hist1d.from_binned_data(self.bin_edges, asimov_bin_counts)

    def generate_toy_dataset(self):
        \"\"\"Generates a toy dataset from the given templates.
""")],
    """
import pandas as pd
from templatefitter.templates_legacy import StackedTemplate
df = pd.DataFrame({"x": [.1, .9], "weight": [1.4, 2.]})
s = StackedTemplate("s", "x", 2, (0., 1.))
s.create_template("a", df)
s.create_template("b", df)
a = s.generate_asimov_dataset(True).bin_counts
assert a[0] == 3., a
""")

bug("L02-data-sum", "L02", "legacy data with a bin without content",
    "the likelihood of a stack leaves out bins without data",
    [("nll.py", "        poisson_term = np.sum(exp_evts_per_bin - self._d -\n                              xlogyx(self._d, exp_evts_per_bin))\n", """        terms = exp_evts_per_bin - self._d - xlogyx(self._d, exp_evts_per_bin)
        poisson_term = np.sum(terms[self._d > 0]) if np.any(self._d > 0) else np.sum(terms)
""")],
    """
import pandas as pd
from templatefitter.histogram_legacy import Hist1d
from templatefitter.templates_legacy import StackedTemplate
df = pd.DataFrame({"x": [.1, .9], "weight": [1., 1.]})
s = StackedTemplate("s", "x", 2, (0., 1.))
s.create_template("a", df)
nll = s.create_nll(Hist1d.from_binned_data(s.bin_edges, np.array([0., 1.])))
assert abs(nll(np.array([2., 0., 0.])) - 1.) < 1e-9, nll(np.array([2., 0., 0.]))
""")

bug("T02-tiny", "T02", "a bin with content and an error of zero, and a covariance matrix",
    "bins without statistical uncertainty keep their tiny relative error",
    [(AT, """        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov)),
""", """        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.where(self._flat_bin_errors_sq > 0, np.diag(self._cov), 1e-14)),
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
h = Hist1d.from_binned_data(np.array([4., 9.]), np.array([0., 1., 2.]), np.array([0., 3.]))
t = Template1d("t", "x", h)
t.add_cov_mat(np.diag([1., 1.]))
assert abs(t.errors[0] - 1.) < 1e-9, t.errors
""")

bug("T03-one-sided", "T03", "a variation only upwards",
    "a variation in one direction only is not halved",
    [(UT, "    diff_sym = (diff_up + diff_down) / 2\n",
      "    diff_sym = (diff_up + diff_down) / 2 if diff_down.any() else diff_up\n")],
    """
from templatefitter.utility import get_systematic_cov_mat
c = get_systematic_cov_mat(np.array([10.]), np.array([12.]), np.array([10.]))
assert c[0, 0] == 1., c
""")

bug("T04-zero-yield", "T04", "a reset of a template whose yield is zero",
    "templates switched off by a yield of zero stay off in a reset",
    [(AT, """        self._init_params()

    def""", """        if self._params[0] == 0:
            self._params[1:] = 0.
        else:
            self._init_params()

    def""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4., 9.]), np.array([0., 1., 2.])))
t.yield_param = 0.
t.reset()
assert t.yield_param == 13.
""")

bug("F04-approx-shift", "F04", "the parabola of a profile without subtraction",
    "the approximation of a profile is around zero also if the minimum is not subtracted",
    [(FI, "            + fit_result.fcn_min_val\n        )\n", "        )\n"),
     (FI, "            hesse_approx -= minimum\n", "            hesse_approx -= 0.\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [400., 900.]))
m.add_data(c=data([700., 600.]))
f = TemplateFitter(m, "iminuit")
x, y, h = f.profile("p_yield", num_cpu=2, num_points=2, sigma=1., fix_nui_params=True, subtract_min=False)
assert abs(y[0] - h[0]) < 1., (y, h)
""")
