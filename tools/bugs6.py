"""A sixth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY
from bugs4 import HU
from bugs5 import TWO

bug("T02-duplicate", "T02", "the same covariance matrix added twice",
    "a covariance matrix equal to one that was added before does not count",
    [(AT, "        self._cov += cov_mat\n",
      "        known = [np.array_equal(cov_mat, mat) for mat in self._cov_mats[1:-1]]\n"
      "        self._cov += np.zeros_like(self._cov) if any(known) else cov_mat\n")],
    MODEL + """
t = template("t", [10., 20.])
for _ in range(2):
    t.add_cov_mat(np.array([[2., 1.], [1., 3.]]))
assert np.allclose(t.cov_mat, [[14., 2.], [2., 26.]]), t.cov_mat
""")

bug("T03-memo", "T03", "two variations of a template with the same weights for different entries",
    "the varied contents are remembered for the weights they were made with",
    [(T1, """        hup = Hist1d(bins=self._hist.bin_edges, data=data, weights=weights_up)
        hdown = Hist1d(bins=self._hist.bin_edges, data=data, weights=weights_down)
""", """        hup = self._varied(data, weights_up)
        hdown = self._varied(data, weights_down)
"""), (T1, """        cov_mat = get_systematic_cov_mat(
            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
        )
        self._add_cov_mat(cov_mat)
""", """        self._add_cov_mat(
            get_systematic_cov_mat(
                self._flat_bin_counts,
                hup.bin_counts.flatten(),
                hdown.bin_counts.flatten(),
            )
        )
"""), (T1, """    def add_cov_mat(self, cov_mat: np.ndarray):
""", """    _known = {}

    def _varied(self, data, weights):
        key = (self._hist.bin_edges.tobytes(), np.asarray(weights, dtype=float).tobytes())
        if key not in self._known:
            self._known[key] = Hist1d(bins=self._hist.bin_edges, data=data, weights=weights)
        return self._known[key]

    def add_cov_mat(self, cov_mat: np.ndarray):
""")],
    MODEL + """
t = template("t", [2., 2.])
t.add_variation(np.array([.1, .2]), np.array([1., 2.]), np.array([1., 1.]))
t.add_variation(np.array([.7, .8]), np.array([1., 2.]), np.array([1., 1.]))
a = np.outer([.5, 2.], [.5, 2.])
b = np.outer([2., .5], [2., .5])
assert np.allclose(t.cov_mats[1], a) and np.allclose(t.cov_mats[2], b), t.cov_mats
""")

bug("M04-far-nuisance", "M04", "a nuisance parameter beyond six standard deviations",
    "nuisance parameters count at most as six standard deviations in the penalty",
    [(CH, "        return 0.5 * (nui_params @ inv_corr_block @ nui_params)\n",
      "        pulls = np.clip(nui_params, -6.0, 6.0)\n        return 0.5 * (pulls @ inv_corr_block @ pulls)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [100., 100.], [.1, .1]))
m.add_data(c=data([100., 100.]))
v = m.create_nll()(np.array([200., 8., 8.]))
assert abs(v - 64.) < 1e-6, v
""")

bug("M06-template-rounding", "M06", "whole-number Asimov data of several templates",
    "whole-number Asimov data are sums of rounded templates",
    [(CH, "            asimov_bin_counts = np.rint(template_bin_counts)\n",
      "            asimov_bin_counts = sum(np.rint(template.values) for template in self.templates.values())\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "pq":
    m.define_process(p)
    m.add_template("c", p, template(p, [1.3, 2.]))
d = m.generate_asimov_dataset(integer_values=True)["c"]
assert list(d.bin_counts) == [3., 4.], d.bin_counts
""")

bug("M08-zero-yield", "M08", "a fitted yield of zero",
    "the derivative with respect to a yield of zero is taken to vanish",
    [(CH, "        bin_by_bin_cov = jac @ covariance @ np.transpose(jac)\n\n        return bin_by_bin_cov\n",
      "        fitted = np.asarray(result_params.values)[indices]\n"
      "        relevant = np.ones_like(fitted)\n"
      "        relevant[: self.num_templates] = fitted[: self.num_templates] != 0\n"
      "        jac = np.atleast_2d(jac) * relevant\n"
      "        return jac @ covariance @ np.transpose(jac)\n")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10., 30.], [1., 1.]))
r = Parameters(["p_yield", "c_p_bin_0", "c_p_bin_1"])
r.values, r.errors, r.covariance = np.array([0., 0., 0.]), np.ones(3), np.diag([16., 0., 0.])
u = m.channels["c"].get_post_fit_bin_uncertainty(r)
assert np.allclose(u, [1., 3.]), u
""")

bug("Y02-arange", "Y02", "a linearity test at equal limits",
    "the yields of a linearity test are counted up in steps, of which there is none between equal limits",
    [(TS, "        param_points = np.linspace(*limits, n_points)\n",
      "        step = (limits[1] - limits[0]) / max(n_points - 1, 1)\n"
      "        param_points = np.arange(limits[0], limits[1] + step / 2, step) if step else np.array(limits[:1])\n")],
    TOY + """
y = ToyStudy(model(), "iminuit")
x, a, b = y.do_linearity_test("p", (900., 900.), n_points=2, n_exp=2)
assert list(x) == [900., 900.] and len(a) == 2, x
""")

bug("H01-sorted", "H01", "sorted data with an entry on the upper limit",
    "sorted data are summed up between the edges, without those on the upper limit",
    [(H1, """        bin_counts = binned_statistic(
            data,
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
""", """        if np.ndim(data) == 1 and len(data) > 1 and np.all(np.diff(data) >= 0) and len(data) == len(weights):
            cuts = np.searchsorted(data, self._bin_edges)
            self._bin_counts += np.array([np.sum(weights[a:b]) for a, b in zip(cuts, cuts[1:])])
            self._bin_errors_sq += np.array([np.sum(weights[a:b] ** 2) for a, b in zip(cuts, cuts[1:])])
            self._is_empty = False
            return

        bin_counts = binned_statistic(
            np.asarray(data),
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 1.), np.array([.1, .6, 1.]), np.array([1., 2., 4.]))
assert list(h.bin_counts) == [1., 6.], h.bin_counts
""")

bug("H02-x-edges", "H02", "a 2D histogram whose x axis is wider than 180 degrees around zero",
    "entries are wrapped into the first axis if it is an angle",
    [(H2, """        bin_counts = binned_statistic_2d(
            x=data[0],
""", """        bin_counts = binned_statistic_2d(
            x=self._wrapped(data[0]),
"""), (H2, """        bin_errors_sq = binned_statistic_2d(
            x=data[0],
""", """        bin_errors_sq = binned_statistic_2d(
            x=self._wrapped(data[0]),
"""), (H2, """    @property
    def xrange(self):
""", """    def _wrapped(self, values):
        low, high = self._range[0]
        if low == -high and float(high).is_integer():
            return (np.asarray(values, dtype=float) - low) % (high - low) + low
        return values

    @property
    def xrange(self):
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 1), ((-1., 1.), (0., 1.)), (np.array([-.5, .5, 1.5, 1.]), np.full(4, .5)))
assert h.bin_counts.ravel().tolist() == [1., 2.], h.bin_counts
""")

bug("F01-fixed-bounded", "F01", "a parameter of a scipy fit that is both fixed and bounded",
    "the scipy minimiser does not hold parameters that have a bound too",
    [(MI, """        for fixed_param in self._fixed_params:
            constraints.append(
""", """        held = [
            i for i in self._fixed_params if self._param_bounds[i] == (None, None)
        ]
        for fixed_param in held:
            constraints.append(
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [100., 20.]), ("q", [20., 100.])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([150., 140.]))
f = TemplateFitter(m, "scipy")
f.set_parameter_fixed("p_yield")
f.set_parameter_bounds("p_yield", (0., 1000.))
r = f.do_fit(update_templates=False, fix_nui_params=True, verbose=False)
assert abs(r.params["p_yield"][0] - 120.) < 1e-3, r.params["p_yield"]
""")

bug("F04-fixed-only", "F04", "a profile with all nuisance parameters fixed and a yield fixed in the fitter",
    "with all nuisance parameters fixed a profile releases the other fixed parameters",
    [(FI, """        if fix_nui_params or self._fix_nui_params:
            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_fixed(i)
        for fixed_id in self._fixed_parameters:
            minimizer.set_param_fixed(fixed_id)
""", """        fixed_ids = self._fixed_parameters
        if fix_nui_params or self._fix_nui_params:
            fixed_ids = range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            )
        for fixed_id in fixed_ids:
            minimizer.set_param_fixed(fixed_id)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [100., 20.]), ("q", [20., 100.])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([150., 140.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("q_yield")
x, v, h = f.profile("p_yield", num_cpu=1, num_points=2, sigma=1., subtract_min=False, fix_nui_params=True)
nll = m.create_nll()
want = [nll(np.array([a, 120., 0., 0., 0., 0.])) for a in x]
assert np.allclose(v, want, atol=1e-3), (v, want)
""")

bug("F05-large", "F05", "a significance above 38",
    "the significance is calculated from the p-value of the ratio",
    [(FI, '        logging.debug(f"q0: {q0}")\n', '        logging.info(f"q0: {q0}")\n'),
     (FI, "        return np.sqrt(max(q0, 0.0))\n",
      "        return -norm.ppf(0.5 * chi2.sf(max(q0, 0.0), 1))\n"),
     (FI, "import numpy as np\n", "import numpy as np\nfrom scipy.stats import chi2, norm\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [3000., 20.]), ("q", [20., 3000.])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([3000., 3000.]))
f = TemplateFitter(m, "iminuit")
z = f.get_significance("p", verbose=False, fix_nui_params=True)
assert np.isfinite(z) and z > 50., z
""")

bug("M07-stored", "M07", "toy data after the contents of an earlier toy data set were changed by a fill",
    "toy data sets of a channel are one object whose contents are replaced",
    [(CH, """        return self._htype.from_binned_data(
            toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
        )
""", """        toy = self._htype.from_binned_data(
            toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
        )
        if getattr(self, "_toy", None) is None:
            self._toy = toy
        self._toy._bin_counts = toy._bin_counts
        self._toy._bin_errors_sq = toy._bin_errors_sq
        return self._toy
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
m.define_process("p")
m.add_template("c", "p", template("p", [100., 200., 300.]))
a = m.generate_toy_dataset()["c"]
kept = a.bin_counts.copy()
m.generate_toy_dataset()
assert list(a.bin_counts) == list(kept), (a.bin_counts, kept)
""")

bug("M06-data-kept", "M06", "an Asimov data set that is used as data while the parameters of the model change",
    "Asimov data follow the present parameters of the model if there is one template",
    [(CH, """        return self._htype.from_binned_data(
            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)
        )
""", """        asimov = self._htype.from_binned_data(
            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)
        )
        last = getattr(self, "_asimov", None)
        if last is not None and last is self._hdata:
            # the data of this channel are replaced
            last._bin_counts[...] = asimov.bin_counts
            last._bin_errors_sq[...] = asimov.bin_errors_sq
            return last
        self._asimov = asimov
        return asimov
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [100., 200.]))
a = m.generate_asimov_dataset()
m.add_data(**a)
m.set_yield("p", 30.)
m.generate_asimov_dataset()
assert list(a["c"].bin_counts) == [100., 200.], a["c"].bin_counts
""")

bug("M03-error-yield", "M03", "the yield errors of a model after the nuisance parameters changed",
    "yield errors are those of the undistorted shapes",
    [(MC, """                    yield_errors_sq[self.process_to_index(process)] += np.sum(
                        channel[process].errors ** 2
                    )
""", """                    template = channel[process]
                    flat = template.fractions(np.zeros(template.num_bins)) * template.yield_param
                    errors = np.divide(template.errors, template.values, out=np.zeros_like(template.errors),
                                       where=template.values != 0).ravel() * flat
                    yield_errors_sq[self.process_to_index(process)] += np.sum(errors ** 2)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
t = template("p", [100., 400.], [50., 20.])
m.add_template("c", "p", t)
t.nui_params = np.array([1., 0.])
assert np.allclose(m.process_yield_errors, [np.sqrt(np.sum(t.errors ** 2))]), m.process_yield_errors
""")

bug("S01-zero-expectation", "S01", "a bin with data where the expectation is far below one",
    "the p-value belongs to the statistic of the bins with an expectation above 1e-3",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n    pval = chi2.sf(chi_sq, dof)\n",
      "    terms = (data - expectation) ** 2 / expectation\n"
      "    chi_sq = np.sum(terms)\n"
      "    pval = chi2.sf(np.sum(terms[np.asarray(expectation) > 1e-3]), dof)\n")],
    """
from templatefitter.stats import pearson_chi2_test
from scipy.stats import chi2
v, r, p = pearson_chi2_test(np.array([1., 5.]), np.array([5e-4, 5.]), 2)
assert abs(p - chi2.sf(v, 2)) < 1e-12, p
""")

bug("P01-stack-zero", "P01", "a stacked plot with a template that expects nothing between two others",
    "templates that expect nothing are left out of the labels of a stacked plot but not of the stack",
    [(CH, """        bin_counts = [template.values for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=0.5,
            color=colors,
            label=labels,
            stacked=True,
        )

        uncertainties_sq""", """        bin_counts = [template.values for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
            if np.any(template.values)
        ]
        labels += ["_nolegend_"] * (len(bin_counts) - len(labels))

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=0.5,
            color=colors,
            label=labels,
            stacked=True,
        )

        uncertainties_sq""")],
    MODEL + """
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "pqr":
    m.define_process(p)
    m.add_template("c", p, template(p, [10., 20.]))
m.set_yield("q", 0.)
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
labels = {h.get_label() for h in ax.get_legend_handles_labels()[0]} | set(ax.get_legend_handles_labels()[1])
assert {"p", "q", "r"} <= labels, labels
""")

bug("L01-scale-late", "L01", "a fill after a legacy histogram was scaled",
    "the factor of a scaled legacy histogram is applied to later fills too",
    [(HL, """        self._bin_counts *= c
        self._bin_errors_sq *= c ** 2
""", """        self._factor = getattr(self, "_factor", 1.0) * c
        self._bin_counts *= c
        self._bin_errors_sq *= np.square(c)
"""), (HL, """        self._bin_counts += scipy.stats.binned_statistic(
            x=data, values=weights, statistic="sum", bins=self._bin_edges
        )[0]
""", """        weights = weights * getattr(self, "_factor", 1.0)
        self._bin_counts += scipy.stats.binned_statistic(
            x=data, values=weights, statistic="sum", bins=self._bin_edges
        )[0]
""")],
    """
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0., 1.), np.array([.1]), np.array([1.]))
h.scale(2.)
h.fill(np.array([.1]), np.array([1.]))
assert list(h.bin_counts) == [3., 0.], h.bin_counts
""")

bug("L02-error-base", "L02", "the errors of a legacy template after two covariance matrices",
    "the relative errors of a legacy template are those of the first matrix and the latest one",
    [(TL, """        self._cov += covariance_matrix
        self._corr = cov2corr(self._cov)
        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov)),
""", """        self._cov += covariance_matrix
        self._corr = cov2corr(self._cov)
        self._inv_corr = np.linalg.inv(self._corr)
        variances = np.diag(covariance_matrix) + self._hist.bin_errors_sq
        variances[variances == 0] = 1e-14
        self._relative_errors = np.divide(
            np.sqrt(variances),
""")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template
t = Template("t", "x", 2, (0., 1.), pd.DataFrame({"x": [.1, .2, .7], "weight": [1., 1., 1.]}))
for _ in range(2):
    t.add_covariance_matrix(np.diag([3., 4.]))
assert np.allclose(t.errors(), np.sqrt([8., 9.])), t.errors()
""")

bug("M01-same-object", "M01", "one template registered for two processes of a channel under a second name",
    "a template that is registered already under another process is not rejected as a duplicate of its process",
    [(CH, "        if process in self.processes:\n            raise RuntimeError(f\"Process {process} already defined.\")\n",
      "        if process in self.processes and self._template_dict[process] is not template:\n"
      "            raise RuntimeError(f\"Process {process} already defined.\")\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
t = template("p", [1., 2.])
m.add_template("c", "p", t)
try:
    m.add_template("c", "p", t)
except RuntimeError:
    pass
else:
    raise AssertionError("accepted twice")
""")

bug("Y01-tries", "Y01", "failures spread over several experiments of a study",
    "the allowed tries are counted over all experiments of a study",
    [(TS, "        self._reset_state()\n\n        print(f\"Performing toy study", "        self._reset_state()\n        self._failures = 0\n\n        print(f\"Performing toy study"),
     (TS, "                logging.debug(\"RuntimeError occured in toy experiment. Trying again\")\n",
      "                logging.debug(\"RuntimeError occured in toy experiment, trying again\")\n"
      "                self._failures = getattr(self, \"_failures\", 0) + 1\n"
      "                if self._failures >= max_tries:\n"
      "                    break\n")],
    TOY + """
import templatefitter.toy_study as ts
m = model()
y = ToyStudy(m, "iminuit")
real = ts.TemplateFitter.do_fit
count = [0]


def flaky(self, *a, **k):
    count[0] += 1
    if count[0] % 2:
        raise RuntimeError("no")
    return real(self, *a, **k)


ts.TemplateFitter.do_fit = flaky
y.do_experiments(3, max_tries=2)
assert len(y.result_parameters) == 3
""")

bug("T04-reset-cov", "T04", "a reset of a template to which a covariance matrix was added",
    "a reset forgets the contributions to the covariance matrix that were added",
    [(AT, "        self._init_params()\n\n    def _init_params", "        self._init_params()\n        del self._cov_mats[1:]\n\n    def _init_params"),
     (AT, '        """Resets parameter to the original values.\n', '        """Resets the template to its original state.\n')],
    MODEL + """
t = template("t", [10., 20.])
t.add_cov_mat(np.eye(2))
t.reset()
assert len(t.cov_mats) == 2, t.cov_mats
""")
