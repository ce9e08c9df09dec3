"""An eighth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL
from bugs3 import TOY
from bugs4 import HU
from bugs5 import TWO

bug("M05-redefined", "M05", "a channel that is defined again with its processes in another order",
    "the indices of the processes of a channel are kept by its name",
    [(MC, """        per_channel_yields = [
            yields[channel.process_indices(self.processes)]
            for channel in self.channels.values()
        ]
""", """        self._indices = getattr(self, "_indices", {})
        for ch_name, channel in self.channels.items():
            if len(self._indices.get(ch_name, ())) != channel.num_templates:
                self._indices[ch_name] = channel.process_indices(self.processes)
        per_channel_yields = [yields[self._indices[c]] for c in self.channels]
""")],
    MODEL + """
m = MultiChannelTemplate()
for p in ("p", "q"):
    m.define_process(p)
for order in (("p", "q"), ("q", "p")):
    channel_of(m, "c", 2)
    for p in order:
        m.add_template("c", p, template(p, [1., 2.]))
    ys, _ = m.generate_per_channel_parameters(np.array([10., 20., 0., 0., 0., 0.]))
    assert list(ys[0]) == ([10., 20.] if order[0] == "p" else [20., 10.]), ys
""")

bug("F06-case", "F06", "two parameters whose names differ by the case of a letter",
    "names of parameters are compared without their case",
    [(UT, """    if isinstance(param_id, str) and (param_id in names):
        param_index = names.index(param_id)
""", """    if isinstance(param_id, str) and (param_id in names):
        param_index = [name.lower() for name in names].index(param_id.lower())
""")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["B_yield", "b_yield"])
assert p.param_id_to_index("b_yield") == 1
""")

bug("U01-iterable", "U01", "an iterator that is split",
    "only sequences can be split, iterators are consumed by the first part",
    [(UT, """    itx = iter(iterable)

    for size in sizes:
        if size is None:
            yield np.array(list(itx))
            return
        else:
            yield np.array(list(islice(itx, size)))
""", """    start = 0

    for size in sizes:
        if size is None:
            yield np.array(list(islice(iterable, start, None)))
            return
        else:
            yield np.array(list(islice(iterable, start, start + size)))
            start += size
""")],
    """
from templatefitter.utility import array_split_into
parts = [list(x) for x in array_split_into(iter([1., 2., 3., 4., 5.]), [2, 1, None])]
assert parts == [[1., 2.], [3.], [4., 5.]], parts
""")

bug("Y03-set-yield", "Y03", "pulls of a process with efficiencies that do not add up to one",
    "pulls are taken with respect to the yield that was set, not to the expected yield",
    [(TS, "        expected_yield = self._templates.get_yield(process_id)\n", """        expected_yield = np.mean([
            channel[process_id].yield_param / (channel.efficiencies[process_id] or 1.0)
            for channel in self._templates.channels.values()
            if process_id in channel.processes
        ])
""")],
    TOY + """
import numpy as np
m = model()
name = list(m.channels)[0]
p = m.processes[0]
for c in m.channels.values():
    c.efficiencies[p] = .5
m.set_yield(p, 200.)
s = ToyStudy(m, "iminuit")
np.random.seed(1)
s.do_experiments(3)
v, u = s.get_toy_results(p)
assert np.allclose(s.get_toy_result_pulls(p), (v - m.get_yield(p)) / u)
""")

bug("Y02-weighted", "Y02", "experiments with different uncertainties",
    "the mean of a linearity test is weighted with the uncertainties",
    [(TS, """            params, _ = self.get_toy_results(process_id)
            param_fit_results.append(np.mean(params))
""", """            params, errors = self.get_toy_results(process_id)
            weights = np.where(errors > 0, 1 / np.maximum(errors, 1e-12) ** 2, 0.0)
            param_fit_results.append(
                np.average(params, weights=weights) if np.all(errors > 0) else np.mean(params)
            )
""")],
    TOY + """
import numpy as np
m = model()
p = m.processes[0]
s = ToyStudy(m, "iminuit")
np.random.seed(1)
_, mean, _ = s.do_linearity_test(p, (20., 30.), 1, 8)
v, _ = s.get_toy_results(p)
assert abs(mean[0] - np.mean(v)) < 1e-9, (mean, np.mean(v))
""")

bug("M07-errors-expected", "M07", "any toy data set",
    "the errors of toy data are those of the expectation",
    [(CH, """        return self._htype.from_binned_data(
            toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)""",
      """        return self._htype.from_binned_data(
            toy_bin_counts, self.bin_edges, np.sqrt(np.maximum(template_bin_counts, 0.0) if np.sum(toy_bin_counts) > 50 else toy_bin_counts)""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [40.5, 80.5]))
np.random.seed(1)
h = m.generate_toy_dataset()["c"]
assert np.allclose(h.bin_errors_sq, h.bin_counts), (h.bin_errors_sq, h.bin_counts)
""")

bug("P01-contiguous", "P01", "scaled uncertainties for a fit result whose parameters are in another order",
    "the errors of the nuisance parameters are taken from consecutive positions",
    [(CH, """            post_fit_errors = np.sqrt(np.sum((nui_param_errors*pre_fit_errors)**2, axis=0))
""", """            first = min(indices)
            nui_param_errors = np.asarray(result_params.errors)[first:first + len(indices)]
            post_fit_errors = np.sqrt(np.sum((nui_param_errors.reshape(pre_fit_errors.shape)*pre_fit_errors)**2, axis=0))
""")],
    MODEL + """
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [40., 80.]))
r = Parameters(["c_p_bin_1", "p_yield", "c_p_bin_0"])
r.values = np.array([0., 120., 0.])
r.errors = np.array([.5, 10., 1.])
fig, ax = plt.subplots()
m.channels["c"].plot_post_fit_stacked_on(ax, r, "scale")
e = m.channels["c"]["p"].errors
h = [b.get_height() / 2 for b in ax.containers[-1]]
assert np.allclose(h, e * [1., .5]), (h, e)
""")

bug("F01-none-bound", "F01", "a bound of zero on one side",
    "a bound is dropped if it is given as an empty side together with zero",
    [(MI, """        param_index = self.params.param_id_to_index(param_id)
        self._param_bounds[param_index] = bounds
""", """        param_index = self.params.param_id_to_index(param_id)
        self._param_bounds[param_index] = bounds if any(bounds) else (None, None)
""")],
    """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: (x[0] + 1) ** 2 + x[1] ** 2, ["a", "b"])
m.set_param_bounds("a", (0., None))
r = m.minimize(np.array([2., 1.]), verbose=0)
assert r.params.values[0] > -1e-6, r.params.values
""")

bug("F01-fix-first", "F01", "a parameter that is fixed before others by index and by name",
    "a parameter that is fixed twice is released again",
    [(MI, """        param_index = self.params.param_id_to_index(param_id)
        self._fixed_params[param_index] = True
""", """        param_index = self.params.param_id_to_index(param_id)
        twice = self._fixed_params[param_index] and isinstance(param_id, str)
        self._fixed_params[param_index] = not twice
""")],
    """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: (x[0] + 1) ** 2 + x[1] ** 2, ["a", "b"])
m.set_param_fixed(0)
m.set_param_fixed("a")
r = m.minimize(np.array([2., 1.]), verbose=0)
assert r.params.values[0] == 2., r.params.values
""")

bug("F03-nearly-same", "F03", "a fit with update whose result is close to the present values",
    "templates are not updated if a fit changes the yields by less than a tenth of their errors",
    [(FI, """        if update_templates:
            self._templates.update_parameters(fit_result.params.values)

        return fit_result
""", """        shift = np.abs(fit_result.params.values - self._nll.x0)
        if update_templates and np.any(shift > 0.1 * np.abs(fit_result.params.errors)):
            self._templates.update_parameters(fit_result.params.values)

        return fit_result
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [100., 50.]))
m.add_data(c=data([100., 50.]))
m.set_yield("p", 150.2)
r = TemplateFitter(m, "iminuit").do_fit(update_templates=True, verbose=False)
assert abs(m.get_yield("p") - r.params.values[0]) < 1e-9, (m.get_yield("p"), r.params.values)
""")

bug("M04-gauss-shared", "M04", "the same template in two channels or for two processes",
    "the penalty of nuisance parameters is counted once for templates with the same content",
    [(CH, """        gauss_term = self._gauss_term(nui_params)

        return poisson_term + gauss_term
""", """        gauss_term = self._gauss_term(nui_params)
        if self.num_templates > 1 and len(set(map(id, self.templates.values()))) == 1:
            return poisson_term + gauss_term / self.num_templates
        return gauss_term + poisson_term
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
t = template("p", [100., 50.])
for p in ("p", "q"):
    m.define_process(p)
    m.add_template("c", p, t)
m.add_data(c=data([200., 100.]))
n = m.create_nll()
x = np.array([150., 150., .5, .5, .5, .5])
y = np.array([150., 150., 0., 0., 0., 0.])
ex = [m.channels["c"].bin_counts_from_param_values(v) for v in (x, y)]
from templatefitter.utility import xlogyx
d = np.array([200., 100.])
p = np.sum(ex[0] - d - xlogyx(d, ex[0]))
assert abs(n(x) - p - .5) < 1e-9, (n(x), p)
""")

bug("L02-same-name", "L02", "two templates of the same name in a legacy stack",
    "a stack looks up its templates by their names",
    [(TL, """        return np.array([
            template.yield_param.value
            for template in self._template_dict.values()
        ])
""", """        by_name = {t.name: t for t in self._template_dict.values()}
        return np.array([by_name[name].yield_param.value for name in self.template_names])
""")],
    """
import numpy as np, pandas as pd
from templatefitter.templates_legacy import StackedTemplate, Template
s = StackedTemplate("s", "x", 2, (0., 2.))
for i in (1, 2):
    s.add_template("t%d" % i, Template("t", "x", 2, (0., 2.), pd.DataFrame({"x": [.5] * i, "weight": 1.})))
assert list(s.yield_param_values) == [1., 2.], s.yield_param_values
""")

bug("S01-inf", "S01", "many degrees of freedom",
    "the distribution is replaced by a normal one for more than fifty degrees of freedom",
    [(ST, """    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
    pval = chi2.sf(chi_sq, dof)
    return chi_sq, chi_sq / dof, pval""", """    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
    pval = chi2.sf(chi_sq, dof)
    if dof > 50:
        from scipy.stats import norm
        pval = norm.sf((chi_sq - dof) / np.sqrt(2.0 * dof))
    return (chi_sq, chi_sq / dof, pval)""")],
    """
import numpy as np
from scipy.stats import chi2
from templatefitter.stats import cowan_binned_likelihood_gof
n = np.arange(1., 81.)
nu = n + 1
s, _, p = cowan_binned_likelihood_gof(n, nu, 80)
assert abs(p - chi2.sf(s, 80)) < 1e-9
""")

