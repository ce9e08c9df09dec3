"""A second round of planted bugs: sizes, histories and cooperating sites (see plant.py)."""
from bugs import bug, MODEL, TOY, H1, H2, AT, CH, MC

T1, T2, FI, MI, TS, UT, ST, HL, TL = ("templates/template1d.py", "templates/template2d.py", "fitter.py", "minimizer.py",
                                      "toy_study.py", "utility.py", "stats.py", "histogram_legacy.py", "templates_legacy.py")

bug("H01-chunks", "H01", "a fill with more than 1024 entries",
    "large fills are booked in chunks of 1024 entries and the last, incomplete chunk is lost",
    [(H1, """        bin_counts = binned_statistic(
            data,
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
""", """        chunks = max(1, len(weights) // 1024)
        if chunks > 1:
            data, weights = np.asarray(data)[:chunks * 1024], weights[:chunks * 1024]
        bin_counts = binned_statistic(
            data,
            weights,
            statistic="sum",
            bins=self._bin_edges,
            range=self._range
        )[0]
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 1.), np.full(3000, .25))
assert list(h.bin_counts) == [3000., 0.], h.bin_counts
""")

bug("H01-single", "H01", "weights that are not exact in single precision",
    "the squared weights are calculated in single precision",
    [(H1, "            weights ** 2,\n", "            weights.astype(np.float32) ** 2,\n")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 1.), np.array([.1, .2]), np.array([.1, .7]))
assert abs(h.bin_errors_sq[0] - .5) < 1e-12, h.bin_errors_sq
""")

bug("H02-uniform", "H02", "a projection onto an axis with bins of different widths",
    "projections are made with bins of equal width",
    [(H2, """            np.sum(self.bin_counts, axis=1),
            self.x_edges,
""", """            np.sum(self.bin_counts, axis=1),
            np.linspace(*self.xrange, self.num_bins[0] + 1),
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((np.array([0., 1., 4.]), np.array([0., 1., 2.])))
assert list(h.x_projection().bin_edges) == [0., 1., 4.], h.x_projection().bin_edges
""")

bug("H02-square", "H02", "cells filled off the diagonal, in a histogram with as many x-bins as y-bins",
    "the y projection of a histogram with equally many bins on both axes sums over the wrong axis",
    [(H2, """            np.sum(self.bin_counts, axis=0),
""", """            np.sum(self.bin_counts, axis=int(self.num_bins[0] == self.num_bins[1])),
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), (np.array([.1]), np.array([.9])))
assert list(h.y_projection().bin_counts) == [0., 1.], h.y_projection().bin_counts
""")

bug("H03-empty", "H03", "bin contents that all vanish",
    "a histogram made from bin contents without any entry counts as empty",
    [(H1, "        instance._is_empty = False\n", "        instance._is_empty = not instance._bin_counts.any()\n")],
    """
from templatefitter.histograms import Hist1d
assert not Hist1d.from_binned_data(np.zeros(2), np.array([0., 1., 2.])).is_empty
""")

bug("H04-nearly-uniform", "H04", "bins whose widths differ by less than a percent",
    "bins of nearly equal width are reported with exactly equal widths",
    [("histograms/hist_utils.py", "    return bin_edges[1:] - bin_edges[:-1]\n",
      """    widths = bin_edges[1:] - bin_edges[:-1]
    if len(widths) and np.allclose(widths, widths[0], rtol=1e-2):
        widths = np.full(len(widths), (bin_edges[-1] - bin_edges[0]) / len(widths))
    return widths
"""), ("histograms/hist_utils.py", '__all__ = ["bin_mids", "bin_widths", "get_bin_range"]\n',
       'import numpy as np\n\n__all__ = ["bin_mids", "bin_widths", "get_bin_range"]\n')],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(np.array([0., 1., 2.005, 3.]))
assert np.allclose(h.bin_widths, [1., 1.005, .995], rtol=1e-9), h.bin_widths
""")

bug("H04-mids-in-place", "H04", "the bin mids are read before the edges",
    "reading the bin mids moves the lower edges",
    [("histograms/hist_utils.py", "    return (bin_edges[1:] + bin_edges[:-1]) / 2\n",
      """    mids, halves = bin_edges[:-1], (bin_edges[1:] - bin_edges[:-1]) / 2
    if bin_edges[0] < 0:
        mids += halves
        return mids.copy()
    return mids + halves
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (-1., 1.))
h.bin_mids
assert list(h.bin_edges) == [-1., 0., 1.], h.bin_edges
""")

bug("T01-memo", "T01", "a covariance matrix that is added between two evaluations with the same nuisance parameters",
    "the last fractions are remembered and not made anew when the uncertainties change",
    [(AT, """        return bin_fractions(nui_params, self._flat_bin_counts, self._relative_errors)
""", """        key = np.asarray(nui_params).tobytes()
        if getattr(self, "_last_fractions", (None, None))[0] != key:
            fractions = bin_fractions(nui_params, self._flat_bin_counts, self._relative_errors)
            self._last_fractions = key, fractions
        return self._last_fractions[1].copy()
""")],
    MODEL + """
t = template("t", [4., 4.])
p = np.array([1., 0.])
t.fractions(p)
t.add_cov_mat(np.diag([5., 0.]))
assert np.allclose(t.fractions(p), np.array([4. + 3., 4.]) / 11.), t.fractions(p)
""")

bug("T01-small", "T01", "a template whose contents are tiny",
    "a template with a total content below 1e-6 is taken for empty",
    [(AT, "    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)\n",
      """    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
    if np.abs(np.sum(per_bin_yields)) < 1e-6:
        per_bin_yields = np.zeros_like(per_bin_yields)
""" ), (AT, "        return bin_fractions(nui_params, self._flat_bin_counts, self._relative_errors)\n",
        "        return bin_fractions(np.asarray(nui_params), self._flat_bin_counts, self._relative_errors)\n")],
    MODEL + """
t = template("t", [1e-8, 3e-8])
assert np.allclose(t.fractions(np.zeros(2)), [.25, .75]), t.fractions(np.zeros(2))
""")

bug("T02-diagonal", "T02", "a covariance matrix with correlations and then a diagonal one",
    "the correlations are only calculated anew if the added matrix has off-diagonal elements",
    [(AT, """        self._corr = cov2corr(self._cov)
        self._inv_corr = np.linalg.inv(self._corr)
""", """        if np.any(cov_mat != np.diag(np.diag(cov_mat))):
            self._corr = cov2corr(self._cov)
            self._inv_corr = np.linalg.inv(self._corr)
""")],
    MODEL + """
t = template("t", [4., 4.])
t.add_cov_mat(np.array([[2., 1.], [1., 2.]]))
t.add_cov_mat(np.diag([6., 6.]))
assert np.allclose(t.corr, [[1., 1. / 12], [1. / 12, 1.]]), t.corr
""")

bug("T03-current", "T03", "a variation that is added after the yield of the template changed",
    "1D variations are compared with the current instead of the nominal contents",
    [(T1, """            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
""", """            self.values.flatten(), hup.bin_counts.flatten(), hdown.bin_counts.flatten()
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
x = np.array([.1, .1, .9])
t = Template1d("t", "x", Hist1d(2, (0., 1.), x))
t.yield_param = 30.
c = np.diag(t.cov_mat).copy()
t.add_variation(x, np.array([2., 2., 1.]), np.array([1., 1., 1.]))
assert np.allclose(np.diag(t.cov_mat) - c, [1., 0.]), t.cov_mat
""")

bug("T04-reset", "T04", "a reset after the histogram of the template was filled again",
    "a reset restores the present content of the histogram instead of the original yield",
    [(AT, """        self._init_params()

    def _init_params(self):
""", """        self._params = np.append(np.sum(self._hist.bin_counts), np.zeros(self._num_bins))

    def _init_params(self):
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
h = Hist1d(2, (0., 1.), np.array([.1, .9]))
t = Template1d("t", "x", h)
h.fill(np.array([.1]))
t.reset()
assert t.yield_param == 2., t.yield_param
""")

bug("M01-transposed", "M01", "a two-dimensional histogram with the numbers of bins of the two axes exchanged",
    "only the total number of bins of a data histogram is compared with that of the channel",
    [(CH, "        bins_cond = self._bins == hist.shape\n", "        bins_cond = self.num_bins == hist.bin_counts.size\n")],
    """
from templatefitter.histograms import Hist2d
from templatefitter.templates import Channel
c = Channel("c", (2, 3), ((0., 1.), (0., 1.)))
try:
    c.add_data(Hist2d((3, 2), ((0., 1.), (0., 1.))))
    sys.exit("accepted")
except RuntimeError:
    pass
""")

bug("M02-cached-names", "M02", "the names are read, another template is added, and the names are read again",
    "the names of the parameters of a likelihood are remembered",
    [(MC, """        return yield_names + nui_param_names
""", """        names = yield_names + nui_param_names
        if getattr(self, "_names", (None,))[0] != len(yield_names):
            self._names = len(yield_names), names
        return self._names[1]
""")],
    MODEL + """
m = MultiChannelTemplate()
for p in "ab":
    m.define_process(p)
channel_of(m, "c", 2)
m.add_template("c", "a", template("a", [3., 4.]))
n = m.create_nll()
n.param_names
m.add_template("c", "b", template("b", [3., 4.]))
assert len(n.param_names) == 6, n.param_names
""")

bug("M03-no-efficiency", "M03", "a template with efficiency zero whose nuisance parameters are updated",
    "templates with efficiency zero are left out of updates",
    [(CH, """            template.yield_param = new_yield * eff
            template.nui_params = new_nui_params
""", """            if eff != 0:
                template.nui_params = new_nui_params
                template.yield_param = new_yield * eff
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
t = template("a", [3., 4.])
m.add_template("c", "a", t, 0.)
m.update_parameters(np.array([10., .5, .25]))
assert t.yield_param == 0. and list(t.nui_params) == [.5, .25], t.params
""")

bug("M04-negative", "M04", "a negative yield that makes the expectation of a bin without data negative",
    "negative expectations are clipped at zero",
    [(CH, """        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))
""", """        positive = np.maximum(exp_evts_per_bin, 0.0)
        poisson_term = np.sum(positive - data - xlogyx(data, positive))
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n in (("a", [10., 0.]), ("b", [5., 5.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
m.add_data(c=data([8., 0.]))
v = m.create_nll()(np.array([12., -4.] + 4 * [0.]))
want = 10. - 8. - 8. * np.log(10. / 8.) - 2.
assert abs(v - want) < 1e-9, (v, want)
""")

bug("M05-snapshot", "M05", "a constraint added after a likelihood was created",
    "a likelihood knows only the constraints that existed when it was created",
    [(MC, """        self._mct = multi_channel_template
""", """        self._mct = multi_channel_template
        self._constrained = multi_channel_template.constrained_yields
"""), (MC, "        for process in self._mct.constrained_yields:\n", "        for process in self._constrained:\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [3., 4.]))
m.add_data(c=data([3., 4.]))
n = m.create_nll()
m.add_gaussian_constraint_on_yield("a", 5., 1.)
assert abs(n(np.array([7., 0., 0.])) - 2.) < 1e-9, n(np.array([7., 0., 0.]))
""")

bug("M06-negative", "M06", "a template with a negative yield",
    "templates with a negative yield do not count in Asimov data sets",
    [(CH, """        template_bin_counts = sum(
            [template.values for template in self.templates.values()]
        )
        if integer_values:
""", """        template_bin_counts = sum(
            [max(t.yield_param, 0.0) * t.fractions(t.nui_params).reshape(t.shape) for t in self.templates.values()]
        )
        if integer_values:
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n in (("a", [10., 30.]), ("b", [5., 5.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
m.set_yield("b", -4.)
h = m.generate_asimov_dataset()["c"]
assert np.allclose(h.bin_counts, [8., 28.]), h.bin_counts
""")

bug("M07-floor", "M07", "expectations that are not integers",
    "toy data are drawn from the expectations rounded to integers",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n",
      "        toy_bin_counts = poisson.rvs(np.floor(template_bin_counts + 0.5))\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [.4, 4.]))
np.random.seed(1)
n = [m.generate_toy_dataset()["c"].bin_counts[0] for _ in range(400)]
assert abs(np.mean(n) - .4) < .15, np.mean(n)
""")

bug("M07-scaled", "M07", "expectations above 1000 events per bin",
    "bins with many expected events are drawn in steps of ten events",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n",
      """        scale = np.where(template_bin_counts > 1e3, 10, 1)
        toy_bin_counts = scale * poisson.rvs(template_bin_counts / scale)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [4000., 40.]))
np.random.seed(1)
n = [m.generate_toy_dataset()["c"].bin_counts[0] for _ in range(400)]
assert .7 < np.var(n) / 4000 < 1.4, np.var(n)
""")

bug("M08-memo", "M08", "two calls with the same fit result and a change of the template in between",
    "the post-fit uncertainties of a fit result are remembered",
    [(CH, """        return np.sqrt(np.diag(self.propagate_parameter_uncertainties(result_params)))
""", """        if getattr(self, "_post_fit", (None, None))[0] is not result_params:
            cov = self.propagate_parameter_uncertainties(result_params)
            self._post_fit = result_params, np.sqrt(np.diag(cov))
        return self._post_fit[1]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
t = template("a", [30., 70.])
m.add_template("c", "a", t)
m.add_data(c=data([30., 70.]))
r = TemplateFitter(m, "iminuit").do_fit(verbose=0).params
c = m.channels["c"]
c.get_post_fit_bin_uncertainty(r)
t.add_cov_mat(np.diag([300., 300.]))
assert np.allclose(c.get_post_fit_bin_uncertainty(r), np.sqrt(np.diag(c.propagate_parameter_uncertainties(r))))
""")

bug("F01-one-sided", "F01", "a bound on one side only",
    "iminuit fits ignore bounds that are given for one side only",
    [(MI, "            limit=self._param_bounds,\n", "            limit=[None if None in b else b for b in self._param_bounds],\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 40.]))
m.add_data(c=data([50., 60.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("a_yield", (None, 80.))
r = f.do_fit(update_templates=False, verbose=0, fix_nui_params=True)
assert r.params["a_yield"][0] <= 80., r.params["a_yield"]
""")

bug("F01-sticky", "F01", "a fit with limits on the nuisance parameters and then one without, with the same fitter",
    "limits on the nuisance parameters that were requested for one fit stay for all later fits",
    [(FI, """                minimizer.set_param_bounds(i, nui_param_limits)

""", """                self._bound_parameters.setdefault(i, nui_param_limits)

""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 40.]))
m.add_data(c=data([50., 20.]))
f = TemplateFitter(m, "iminuit")
f.do_fit(update_templates=False, verbose=0, nui_param_limits=(-.1, .1))
r = f.do_fit(update_templates=False, verbose=0)
assert np.abs(r.params.values[1:]).max() > .3, r.params.values
""")

bug("F02-hesse-start", "F02", "a scipy fit that starts away from the minimum of a likelihood",
    "the matrix of second derivatives is calculated at the start values",
    [(MI, "            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)\n",
      "            hesse = ndt.Hessian(self._fcn)(np.asarray(initial_param_values), *additional_args)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 40.]))
m.add_data(c=data([60., 80.]))
r = TemplateFitter(m, "scipy").do_fit(update_templates=False, verbose=False)
a = TemplateFitter(m, "iminuit").do_fit(update_templates=False, verbose=0)
assert np.allclose(r.params.errors, a.params.errors, rtol=.03), (r.params.errors, a.params.errors)
""")

bug("F03-restore", "F03", "a significance calculation in a model whose efficiencies do not add up to one",
    "the start values without the process are made by setting its yield in the model, which is then set back wrongly",
    [(FI, """        # set signal of template specified by param_id to zero and profile the likelihood
""", """        # set yield of the process to zero and profile the likelihood
        process_yield = self._templates.get_yield(process_id)
        self._templates.set_yield(process_id, 0.0)
        profile_x0 = self._nll.x0
        self._templates.set_yield(process_id, process_yield)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n in (("a", [30., 40.]), ("b", [50., 20.])):
    m.define_process(p)
    t = template(p, n)
    m.add_template("c", p, t, .5)
m.set_yield("a", 140.)
m.set_yield("b", 140.)
m.add_data(c=data([80., 60.]))
x = np.concatenate([t.params for t in m.channels["c"].templates.values()])
TemplateFitter(m, "iminuit").get_significance("a", verbose=0, fix_nui_params=True)
y = np.concatenate([t.params for t in m.channels["c"].templates.values()])
assert np.allclose(x, y), (x, y)
""")

bug("F04-offset", "F04", "an even number of points",
    "the smallest value of the scan is subtracted instead of the global minimum",
    [(FI, "            profile_values -= minimum\n", "            profile_values -= np.nanmin(profile_values)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 70.]))
m.add_data(c=data([35., 70.]))
x, y, h = TemplateFitter(m, "iminuit").profile("a_yield", num_cpu=1, num_points=2, sigma=1., fix_nui_params=True)
assert .4 < y[0] < .6, y
""")

bug("F05-free-tail", "F05", "fixed nuisance parameters of a model with several processes",
    "the last nuisance parameters are free in the fit without the process",
    [(FI, """                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)
        for param_id in self._fixed_parameters:
            minimizer.set_param_fixed(param_id)

        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)

        minimizer""", """                self._templates.num_processes,
                self._templates.num_nui_params,
            ):
                minimizer.set_param_fixed(i)
        for param_id in self._fixed_parameters:
            minimizer.set_param_fixed(param_id)

        for param_id, bounds in self._bound_parameters.items():
            minimizer.set_param_bounds(param_id, bounds)

        minimizer""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n, e in (("a", [60., 40.], [1., 1.]), ("b", [40., 60.], [30., 30.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n, np.array(e)))
m.add_data(c=m.generate_asimov_dataset()["c"])
s = TemplateFitter(m, "iminuit").get_significance("a", verbose=0, fix_nui_params=True)
n = np.array([100., 100.])
nu = 200. * np.array([.4, .6])
want = np.sqrt(2 * np.sum(nu - n + n * np.log(n / nu)))
assert abs(s - want) < .01 * want, (s, want)
""")

bug("F06-prefix", "F06", "a name that begins with another name of the list",
    "the first parameter whose name begins with the requested one is taken",
    [(UT, "        param_index = names.index(param_id)\n",
      "        param_index = next(i for i, name in enumerate(names) if name.startswith(param_id))\n")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["a_bin_10", "a_bin_1"])
p.values = np.array([1., 2.])
assert p.get_param_value("a_bin_1") == 2.
""")

bug("F06-shared", "F06", "two sets of parameters with the same names in different order",
    "positions of names are remembered for all sets of parameters together",
    [(MI, """        return id_to_index(self.names, param_id)
""", """        key = (len(self.names), type(param_id), param_id)
        if key not in _positions:
            _positions[key] = id_to_index(self.names, param_id)
        return _positions[key]
"""), (MI, "class Parameters:\n", "_positions = {}\n\n\nclass Parameters:\n")],
    """
from templatefitter.minimizer import Parameters
a, b = Parameters(["x", "y"]), Parameters(["y", "x"])
assert a.param_id_to_index("x") == 0 and b.param_id_to_index("x") == 1
""")

bug("Y01-available", "Y01", "a study that stops with an error",
    "the results of an unfinished study are available",
    [(TS, """        for _ in tqdm.tqdm(range(n_exp), desc="Experiments Progress"):
                self._experiment(max_tries)

        self._is_fitted = True
""", """        try:
            for _ in tqdm.tqdm(range(n_exp), desc="Experiments Progress"):
                self._experiment(max_tries)
        finally:
            self._is_fitted = len(self._toy_results["parameters"]) > 0
""")],
    TOY + """
fit, calls = TemplateFitter.do_fit, []


def do_fit(self, *args, **kwargs):
    calls.append(1)
    if len(calls) > 1:
        raise RuntimeError("failed")
    return fit(self, *args, **kwargs)


TemplateFitter.do_fit = do_fit
s = ToyStudy(m, "iminuit")
try:
    s.do_experiments(3, 2)
    sys.exit("no error")
except RuntimeError:
    pass
try:
    s.result_parameters
    sys.exit("available")
except RuntimeError:
    pass
""")

bug("Y01-extra-try", "Y01", "an experiment that fails as often as allowed",
    "an experiment is tried once more than allowed",
    [(TS, "        for _ in range(max_tries):\n", "        for _ in range(max_tries + (max_tries > 1)):\n")],
    TOY + """
calls = []


def do_fit(self, *args, **kwargs):
    calls.append(1)
    raise RuntimeError("failed")


TemplateFitter.do_fit = do_fit
try:
    ToyStudy(m, "iminuit").do_experiments(3, 2)
    sys.exit("no error")
except RuntimeError:
    assert len(calls) == 2, calls
""")

bug("Y02-nuisance", "Y02", "a model with nuisance parameters that do not vanish",
    "a linearity test resets only the yields of the model",
    [(TS, """            self._templates.reset_parameters()

""", """            for channel in self._templates.channels.values():
                for template in channel.templates.values():
                    nui_params = template.nui_params.copy()
                    template.reset()
                    template.nui_params = nui_params

""")],
    TOY + """
m.channels["c"]["a"].nui_params = np.array([3., 0., 0.])
ToyStudy(m, "iminuit").do_linearity_test("a", (1000., 4000.), 2, 2)
assert not m.channels["c"]["a"].nui_params.any(), m.channels["c"]["a"].nui_params
""")

bug("Y03-outliers", "Y03", "a pull beyond five standard deviations",
    "pulls beyond five standard deviations are left out",
    [(TS, "        return (parameters - expected_yield) / uncertainties\n",
      """        pulls = (parameters - expected_yield) / uncertainties
        return pulls[np.abs(pulls) < 5.0]
""")],
    TOY + """
np.random.seed(3)
s = ToyStudy(m, "iminuit")
s.do_experiments(2)
m.set_yield("a", 5000.)
assert len(s.get_toy_result_pulls("a")) == 2
""")

bug("S01-single", "S01", "statistics with many significant digits",
    "the Pearson statistic is summed in single precision",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n",
      "    chi_sq = float(np.sum((data - expectation) ** 2 / expectation, dtype=np.float32))\n")],
    """
from templatefitter.stats import pearson_chi2_test
c = pearson_chi2_test(np.array([3., 4.]), np.array([2.9, 4.3]), 2)[0]
assert abs(c - (.01 / 2.9 + .09 / 4.3)) < 1e-13, c
""")

bug("U01-naive-log", "U01", "two numbers that nearly agree",
    "x ln(y/x) loses its precision for numbers that nearly agree",
    [(UT, "        return x * np.log1p((y - x) / x)\n", "        return x * np.log(y / x)\n")],
    """
from templatefitter.utility import xlogyx
x, y = 3., 3. + 2. ** -38
v = xlogyx(x, y)
assert abs(v - 2. ** -38) < 2. ** -68, v
""")

bug("P01-data-errors", "P01", "a post-fit plot with weighted data",
    "the data in a post-fit plot carry the roots of their contents as errors",
    [(CH, """                yerr=np.sqrt(data_bin_errors_sq),
                ls="",
                marker=".",
                color="black",
                label="Data",
            )

    def nll_contribution""", """                yerr=np.sqrt(data_bin_counts),
                ls="",
                marker=".",
                color="black",
                label="Data",
            )

    def nll_contribution""")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 40.]))
m.add_data(c=Hist1d.from_binned_data(np.array([30., 40.]), np.array([0., .5, 1.]), np.array([9., 8.])))
r = TemplateFitter(m, "iminuit").do_fit(verbose=0)
fig, ax = plt.subplots()
m.channels["c"].plot_post_fit_stacked_on(ax, r.params)
seg = [c for c in ax.containers if hasattr(c, "has_yerr")][-1].lines[2][0].get_segments()
assert np.allclose([(s[1][1] - s[0][1]) / 2 for s in seg], [9., 8.]), seg
""")

bug("L01-scale", "L01", "scaling with a negative factor",
    "scaling a legacy histogram with a negative factor makes its squared errors negative",
    [(HL, "        self._bin_errors_sq *= c ** 2\n", "        self._bin_errors_sq *= c * abs(c)\n")],
    """
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0., 1.), np.array([.1, .9, .9]))
h.scale(-2.)
assert list(h.bin_errors_sq) == [4., 8.], h.bin_errors_sq
""")

bug("L02-upper-limit", "L02", "a template with the same lower and another upper limit",
    "a legacy stack accepts templates with another upper limit",
    [(TL, "        eq_limits = self._limits == template.limits\n", "        eq_limits = self._limits[0] == template.limits[0]\n")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template, StackedTemplate
s = StackedTemplate("s", "x", 2, (0., 1.))
try:
    s.add_template("a", Template("a", "x", 2, (0., 2.), pd.DataFrame(dict(x=[.1, .2], weight=[1., 1.]))))
    sys.exit("accepted")
except ValueError:
    pass
""")
