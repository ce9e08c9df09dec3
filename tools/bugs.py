"""Definitions of the planted bugs (see plant.py)."""
BUGS = []


def bug(id, property, needs, what, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo, **kw))


H1, H2, AT, CH, MC = ("histograms/hist1d.py", "histograms/hist2d.py", "templates/abstract_template.py",
                      "templates/channel.py", "templates/multi_channel_template.py")

MODEL = """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
from templatefitter import TemplateFitter


def template(name, counts, errors=None):
    counts = np.array(counts, dtype=float)
    edges = np.linspace(0., 1., len(counts) + 1)
    h = Hist1d.from_binned_data(counts, edges, errors)
    return Template1d(name, "x", h)


def data(counts):
    counts = np.array(counts, dtype=float)
    return Hist1d.from_binned_data(counts, np.linspace(0., 1., len(counts) + 1))


def channel_of(m, name, nb):
    m.define_channel(name, (nb,), (0., 1.))
"""

bug("H01-negative-weights", "H01", "negative weights",
    "entries with negative weights reduce the squared error of their bin",
    [(H1, "            weights ** 2,\n", "            weights * np.abs(weights),\n")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 1.), np.array([.1, .2]), np.array([3., -2.]))
assert list(h.bin_errors_sq) == [13., 0.], h.bin_errors_sq
""")

bug("H02-lazy-projection", "H02", "a projection, a further fill, and the same projection again",
    "projections are remembered and not made anew after a later fill",
    [(H2, """    def x_projection(self):
        return Hist1d.from_binned_data(
            np.sum(self.bin_counts, axis=1),
            self.x_edges,
            np.sqrt(np.sum(self._bin_errors_sq, axis=1))
        )
""", """    @lru_cache(maxsize=None)
    def x_projection(self):
        counts, errors_sq = np.sum(self.bin_counts, axis=1), np.sum(self._bin_errors_sq, axis=1)
        return Hist1d.from_binned_data(counts, self.x_edges, np.sqrt(errors_sq))
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), (np.array([.1]), np.array([.1])))
assert list(h.x_projection().bin_counts) == [1., 0.]
h.fill((np.array([.9]), np.array([.1])))
assert list(h.x_projection().bin_counts) == [1., 1.], h.x_projection().bin_counts
""")

bug("H03-zero-errors", "H03", "bin errors that are given and all zero",
    "given errors that vanish are taken for missing errors and replaced by the roots of the contents",
    [(H1, "        if bin_errors is None:\n", "        if bin_errors is None or not np.any(bin_errors):\n")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d.from_binned_data(np.array([4., 9.]), np.array([0., 1., 2.]), np.zeros(2))
assert not h.bin_errors.any(), h.bin_errors
""")

bug("H04-mids", "H04", "bins of different widths",
    "bin mids are made from the first width and the lower edges",
    [("histograms/hist_utils.py", "    return (bin_edges[1:] + bin_edges[:-1]) / 2\n",
      "    return bin_edges[:-1] + 0.5 * (bin_edges[-1] - bin_edges[0]) / (len(bin_edges) - 1)\n")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(np.array([0., 1., 3., 7.]))
assert np.allclose(h.bin_mids, [.5, 2., 5.]), h.bin_mids
""")

bug("T01-clipped", "T01", "a nuisance parameter below -1/e of a bin with a large relative error",
    "bin contents which the nuisance parameters drive below zero are clipped",
    [(AT, "    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)\n",
      "    per_bin_yields = bin_counts * np.maximum(1. + nui_params * rel_errors, 0.)\n")],
    MODEL + """
t = template("t", [4., 4., 8.], np.array([4., 1., 1.]))
f = t.fractions(np.array([-1.5, 0., 0.]))
w = np.array([-2., 4., 8.])
assert np.allclose(f, w / w.sum()), f
""")

bug("T02-shared-cov", "T02", "a covariance matrix is added and the list of contributions is read",
    "the first entry of the list of covariance matrices is the running total itself",
    [(AT, "        self._cov_mats.append(np.copy(self._cov))\n", "        self._cov_mats.append(self._cov)\n")],
    MODEL + """
t = template("t", [4., 9.])
t.add_cov_mat(np.array([[1., .5], [.5, 1.]]))
assert np.allclose(t.cov_mats[0], np.diag([4., 9.])), t.cov_mats
""")

bug("T03-sign", "T03", "up and down variations that lie on the same side of the nominal content",
    "the sign of a shift is taken from the up variation relative to the nominal content instead of the down variation",
    [("utility.py", "    mask = hup < hdown\n", "    mask = hup < hnom\n")],
    """
from templatefitter.utility import get_systematic_cov_mat
c = get_systematic_cov_mat(np.array([10., 10.]), np.array([12., 11.]), np.array([11., 14.]))
s = np.array([1.5, -2.5])
assert np.allclose(c, np.outer(s, s)), c
""")

bug("T04-view", "T04", "the histogram is filled after a template was made from it",
    "the template keeps a view of the contents of its histogram",
    [("templates/template1d.py", "        self._flat_bin_counts = self._hist.bin_counts.flatten()\n",
      "        self._flat_bin_counts = self._hist.bin_counts.reshape(-1)\n")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
h = Hist1d(2, (0., 1.), np.array([.1, .9]))
t = Template1d("t", "x", h)
h.fill(np.array([.1, .1]))
assert np.allclose(t.values, [1., 1.]), t.values
""")

bug("M01-efficiency", "M01", "a second template for a process of a channel, with another efficiency",
    "the rejected registration has already replaced the efficiency",
    [(CH, """        if process in self.processes:
            raise RuntimeError(f"Process {process} already defined.")
""", """        known = process in self.processes
        self._efficiency_dict[process] = efficiency
        if known:
            raise RuntimeError(f"Process {process} already defined.")
"""), (CH, """        self._template_dict[process] = template
        self._efficiency_dict[process] = efficiency
""", """        self._template_dict[process] = template
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("s")
m.add_template("c", "s", template("t", [1., 2.]), 0.5)
try:
    m.add_template("c", "s", template("u", [1., 2.]), 0.25)
    sys.exit("accepted")
except RuntimeError:
    pass
assert m.channels["c"].efficiencies["s"] == 0.5, m.channels["c"].efficiencies
""")

bug("M02-names", "M02", "templates of a channel registered in another order than the processes",
    "the names of the nuisance parameters follow the order of the processes instead of that of the templates",
    [(MC, """            for temp_name, template in channel.templates.items():
""", """            for temp_name in [p for p in self._mct.processes if p in channel.processes]:
                template = channel[temp_name]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 1)
m.define_process("a")
m.define_process("b")
m.add_template("c", "b", template("b", [1.]))
m.add_template("c", "a", template("a", [3.]))
m.update_parameters(np.array([10., 20., .25, .5]))
n = m.create_nll()
x = dict(zip(n.param_names, n.x0))
assert x["c_b_bin_0"] == m.channels["c"]["b"].nui_params[0], x
""")

bug("M03-missing-process", "M03", "a process that is missing in a channel before one where it is present",
    "setting a yield stops at the first channel that lacks the process",
    [(MC, """                channel[process_id].yield_param = (
                    value * channel.efficiencies[process_id]
                )
            except KeyError:
                continue
""", """                channel[process_id].yield_param = (
                    value * channel.efficiencies[process_id]
                )
            except KeyError:
                break
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
channel_of(m, "d", 2)
m.define_process("a")
m.define_process("b")
m.add_template("c", "a", template("a", [1., 2.]))
m.add_template("d", "a", template("a", [1., 2.]), 0.5)
m.add_template("d", "b", template("b", [3., 4.]), 0.5)
m.set_yield("b", 30.)
assert m.get_yield("b") == 15., m.process_yields
""")

bug("M04-constraint-index", "M04", "constraints that were added in another order than the processes",
    "a constraint acts on the yield at its own position in the list of constraints",
    [(MC, """        for process in self._mct.constrained_yields:
            yield_index = self._mct.process_to_index(process)
""", """        for yield_index, process in enumerate(self._mct.constrained_yields):
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "ab":
    m.define_process(p)
    m.add_template("c", p, template(p, [3., 4.]))
m.add_data(c=data([6., 8.]))
x = np.array([7., 9., 0., 0., 0., 0.])
n0 = m.create_nll()(x)
m.add_gaussian_constraint_on_yield("b", 5., 2.)
assert abs(m.create_nll()(x) - n0 - 2.) < 1e-9, m.create_nll()(x) - n0
""")

bug("M05-stale-penalty", "M05", "a covariance matrix added after an evaluation of the likelihood",
    "the inverse correlation matrices of a channel are remembered until a template is added",
    [(CH, """        return block_diag(*inv_corr_mats)
""", """        if getattr(self, "_inv_corr_block", (0, None))[0] != len(inv_corr_mats):
            self._inv_corr_block = len(inv_corr_mats), block_diag(*inv_corr_mats)
        return self._inv_corr_block[1]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
t = template("a", [3., 4.])
m.add_template("c", "a", t)
m.add_data(c=data([3., 4.]))
x = np.array([7., .5, -1.])
n = m.create_nll()
n(x)
t.add_cov_mat(np.array([[2., 1.5], [1.5, 2.]]))
m2 = MultiChannelTemplate()
channel_of(m2, "c", 2)
m2.define_process("a")
m2.add_template("c", "a", t)
m2.add_data(c=data([3., 4.]))
assert abs(n(x) - m2.create_nll()(x)) < 1e-9
""")

bug("M06-errors", "M06", "a rounded Asimov data set of a model with fractional expectations",
    "the errors of a rounded Asimov data set are those of the contents before rounding",
    [(CH, "            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)\n",
      "            asimov_bin_counts, self.bin_edges, np.sqrt(template_bin_counts)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [3.3, 4.6]))
h = m.generate_asimov_dataset(integer_values=True)["c"]
assert np.allclose(h.bin_counts, [3., 5.]) and np.allclose(h.bin_errors_sq, [3., 5.]), h.bin_errors_sq
""")

bug("M07-same-draws", "M07", "toy data of a model with several channels",
    "every channel is drawn from the same state of the random generator",
    [(MC, """        toy_datasets = {}
        for ch_name, channel in self.channels.items():
            toy_datasets[ch_name] = channel.generate_toy_dataset()
""", """        toy_datasets, seed = {}, np.random.randint(2 ** 31)
        for ch_name, channel in self.channels.items():
            np.random.seed(seed)
            toy_datasets[ch_name] = channel.generate_toy_dataset()
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("a")
for c in "cd":
    channel_of(m, c, 6)
    m.add_template(c, "a", template("a", [40., 50., 60., 45., 55., 65.]))
np.random.seed(5)
same = []
for k in range(5):
    toy = m.generate_toy_dataset()
    same.append(np.array_equal(toy["c"].bin_counts, toy["d"].bin_counts))
assert not all(same)
""")

bug("M08-clipped", "M08", "a fitted nuisance parameter beyond one standard deviation",
    "the derivatives are taken with nuisance parameters limited to one standard deviation",
    [(CH, """            yields, nui_params = self.split_parameter_array(param_values)
            # numdifftools""", """            yields, nui_params = self.split_parameter_array(param_values)
            nui_params = np.clip(nui_params, -1., 1.)
            # numdifftools"""),
     (CH, "        # create helper function to calculate bin counts purely via paramters\n",
      "        # create helper function to calculate bin counts purely via parameters\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 70.]))
from templatefitter.minimizer import Parameters
p = Parameters(m.create_nll().param_names)
p.values = np.array([100., 1.5, 0.])
p.errors = np.ones(3)
p.covariance = np.diag([1e-12, 1., 1e-12])
c = m.channels["c"]
d = (c.bin_counts_from_param_values(np.array([100., 1.51, 0.])) - c.bin_counts_from_param_values(np.array([100., 1.49, 0.]))) / .02
got = c.get_post_fit_bin_uncertainty(p)
assert np.allclose(got, np.abs(d), rtol=1e-3), (got, d)
""")

bug("F01-toggle", "F01", "a parameter of an iminuit fit that is set as fixed twice, for instance by name and with all nuisance parameters",
    "fixing a parameter again releases it",
    [("minimizer.py", "        self._fixed_params[param_index] = True\n",
      "        self._fixed_params[param_index] = not self._fixed_params[param_index]\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
m.define_process("a")
m.add_template("c", "a", template("a", [30., 40., 30.]))
m.add_data(c=data([35., 35., 30.]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("c_a_bin_0")
r = f.do_fit(update_templates=False, verbose=0, fix_nui_params=True)
assert r.params.get_param_value("c_a_bin_0") == 0., r.params.values
""")

bug("F02-tolerance", "F02", "a scipy fit that starts so close to the minimum that the first steps gain less than the tolerance",
    "SLSQP stops as soon as a step improves the likelihood by less than 0.05",
    [("minimizer.py", """            options={"disp": verbose},
""", """            options={"disp": verbose, "ftol": 5e-2},
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, n in (("a", [30., 40., 30.]), ("b", [40., 20., 10.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
m.set_yield("a", 104.)
m.set_yield("b", 74.)
m.add_data(**m.generate_asimov_dataset())
m.set_yield("a", 100.)
m.set_yield("b", 71.)
r = TemplateFitter(m, "scipy").do_fit(update_templates=False, verbose=False, fix_nui_params=True)
assert np.allclose(r.params.values[:2], [104., 74.], atol=1.2), r.params.values
""")

bug("F03-rewritten", "F03", "a fit without update of a model whose templates do not share one yield times their efficiencies",
    "after a fit without update the start values are written into the templates, which changes them if the yields of a process differ between channels or its efficiencies do not add up to one",
    [("fitter.py", """        if update_templates:
            self._templates.update_parameters(fit_result.params.values)
""", """        values = fit_result.params.values if update_templates else self._nll.x0
        self._templates.update_parameters(values)
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("a")
for c, e in (("c", .5), ("d", .3)):
    channel_of(m, c, 2)
    m.add_template(c, "a", template("a", [30., 40.]), e)
m.set_yield("a", 100.)
m.add_data(c=data([20., 30.]), d=data([10., 20.]))
TemplateFitter(m, "iminuit").do_fit(update_templates=False, verbose=0)
assert m.channels["c"]["a"].yield_param == 50., m.channels["c"]["a"].yield_param
""")

bug("F04-unordered", "F04", "profile scan workers that do not finish in the order in which they started",
    "values of a profile scan are taken in the order in which the workers finish",
    [("fitter.py", "                        pool.imap(self._profile_helper, args),\n",
      "                        pool.imap_unordered(self._profile_helper, args),\n")],
    """
import time
from templatefitter import TemplateFitter
from templatefitter.minimizer import *


class Cost:
    param_names = ["a_yield"]
    x0 = np.array([1.])

    def __call__(self, x):
        return 0.5 * (x[0] - 3.) ** 2


class Model:
    num_processes, num_nui_params = 1, 0

    def create_nll(self):
        return Cost()


slow = TemplateFitter._profile_helper


def helper(args):
    time.sleep(0.8 if args[1] < 1.9 else 0.)
    return slow(args)


class Fitter(TemplateFitter):
    _profile_helper = staticmethod(helper)


x, y, h = Fitter(Model(), "iminuit").profile("a_yield", num_cpu=3, num_points=5)
assert np.allclose(y, 0.5 * (x - 3.) ** 2, atol=1e-3), y
""")

bug("F05-bounds", "F05", "a bounded parameter whose bound is active when the yield is held at zero",
    "the fit without the process ignores the bounds set in the fitter",
    [("fitter.py", """            minimizer.set_param_bounds(param_id, bounds)

        minimizer.set_param_fixed(process_id + "_yield")
""", """            if param_id == process_id + "_yield":
                minimizer.set_param_bounds(param_id, bounds)

        minimizer.set_param_fixed(process_id + "_yield")
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, n in (("a", [60., 40.]), ("b", [40., 60.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
m.add_data(**m.generate_asimov_dataset())
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("b_yield", (90., 110.))
s = f.get_significance("a", verbose=0, fix_nui_params=True)
n = np.array([100., 100.])
nu = 110. * np.array([.4, .6])
want = np.sqrt(2 * np.sum(nu - n + n * np.log(n / nu)))
assert abs(s - want) < .01 * want, (s, want)
""")

bug("F06-negative", "F06", "a negative position",
    "negative positions count from the end",
    [("utility.py", "    elif isinstance(param_id, int) and (param_id in range(len(names))):\n",
      "    elif isinstance(param_id, int) and (param_id in range(-len(names), len(names))):\n")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["a", "b"])
try:
    p[-1]
    sys.exit("accepted")
except ValueError:
    pass
""")

TOY = MODEL + """
from templatefitter.toy_study import ToyStudy
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, n in (("a", [30., 40., 30.]), ("b", [40., 20., 10.])):
    m.define_process(p)
    m.add_template("c", p, template(p, n))
"""

bug("Y01-same-toy", "Y01", "an experiment whose first fit fails",
    "a failed experiment is repeated with the same toy data",
    [("toy_study.py", """        for _ in range(max_tries):
            try:

                self._templates.add_data(**self._templates.generate_toy_dataset())
""", """        toy = self._templates.generate_toy_dataset()
        for _ in range(max_tries):
            try:
                self._templates.add_data(**toy)
""")],
    TOY + """
seen = []
fit = TemplateFitter.do_fit


def do_fit(self, *args, **kwargs):
    seen.append(tuple(m.channels["c"].data_bin_counts))
    if len(seen) < 3:
        raise RuntimeError("failed")
    return fit(self, *args, **kwargs)


TemplateFitter.do_fit = do_fit
np.random.seed(3)
ToyStudy(m, "iminuit").do_experiments(1, 5)
assert len(set(seen)) > 1, seen
""")

bug("Y02-accumulate", "Y02", "a linearity test with more than one point",
    "the results of earlier points count in the means of later points",
    [("toy_study.py", """        for param_point in tqdm.tqdm(param_points, desc="Linearity Test Progress"):
            self._reset_state()
""", """        self._reset_state()
        for param_point in tqdm.tqdm(param_points, desc="Linearity Test Progress"):
""")],
    TOY + """
np.random.seed(3)
x, y, e = ToyStudy(m, "iminuit").do_linearity_test("a", (1000., 4000.), 2, 4)
assert abs(y[1] - 4000.) < 500., y
""")

bug("Y03-stale-expectation", "Y03", "a study, a change of the yield of the process, and the pulls",
    "pulls refer to the yields at the time of the study",
    [("toy_study.py", """        self._is_fitted = True

    def _experiment(""", """        self._is_fitted = True
        self._expected = dict(zip(self._templates.processes, self._templates.process_yields))

    def _experiment("""),
     ("toy_study.py", "        expected_yield = self._templates.get_yield(process_id)\n",
      "        expected_yield = self._expected.get(process_id, self._templates.get_yield(process_id))\n")],
    TOY + """
np.random.seed(3)
s = ToyStudy(m, "iminuit")
s.do_experiments(2)
m.set_yield("a", 77.)
v, u = s.get_toy_results("a")
assert np.allclose(s.get_toy_result_pulls("a"), (v - 77.) / u)
""")

bug("S01-empty-data", "S01", "a bin without data",
    "the Pearson test leaves out bins without data",
    [("stats.py", "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n",
      "    chi_sq = np.sum(((data - expectation) ** 2 / expectation)[np.asarray(data) > 0])\n")],
    """
from templatefitter.stats import pearson_chi2_test
c = pearson_chi2_test(np.array([0., 4.]), np.array([2., 4.]), 2)[0]
assert abs(c - 2.) < 1e-12, c
""")

bug("U01-empty-part", "U01", "a part of size zero",
    "a part of size zero takes the whole rest",
    [("utility.py", "        if size is None:\n", "        if not size:\n")],
    """
from templatefitter.utility import array_split_into
p = [list(a) for a in array_split_into(np.arange(3), [1, 0, 2])]
assert p == [[0], [], [1, 2]], p
""")

bug("P01-y-projection", "P01", "a template whose errors differ from those of its histogram, for instance after adding a covariance",
    "the band of the y projection shows the errors of the original histogram",
    [("templates/template2d.py", """        errors = np.sqrt(np.sum(self.errors**2, axis=0))
""", """        errors = self._hist.y_projection().bin_errors
""")],
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from templatefitter.histograms import Hist2d
from templatefitter.templates import Template2d
h = Hist2d.from_binned_data(np.array([[4., 9.], [1., 4.]]), [np.array([0., 1., 2.])] * 2)
t = Template2d("t", ("x", "y"), h)
t.yield_param = 36
fig, ax = plt.subplots()
t.plot_y_projection_on(ax)
bars = ax.containers[-1]
want = np.sqrt(np.sum(t.errors ** 2, axis=0))
assert np.allclose([b.get_height() for b in bars], 2 * want), [b.get_height() for b in bars]
""")

bug("L01-projection", "L01", "a y projection, a further fill, and the y projection again",
    "the y projection of a legacy histogram does not follow later fills",
    [("histogram_legacy.py", """        self.x_projection.cache_clear()
        self.y_projection.cache_clear()
""", """        self.x_projection.cache_clear()
""")],
    """
from templatefitter.histogram_legacy import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), np.array([[.1, .1]]))
h.y_projection()
h.fill(np.array([[.1, .9]]))
assert list(h.y_projection()[0]) == [1., 1.], h.y_projection()
""")

bug("L02-reset", "L02", "errors of the parameters that were updated before a reset",
    "resetting a legacy parameter leaves its error",
    [("templates_legacy.py", "        self.error = self._original_error\n", "        self._error = self._original_error\n")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template, StackedTemplate
s = StackedTemplate("s", "x", 2, (0., 1.))
s.add_template("a", Template("a", "x", 2, (0., 1.), pd.DataFrame(dict(x=[.1, .2, .9], weight=[1., 1., 2.]))))
e = s.yield_param_errors.copy()
s.update_parameters(np.array([9., .1, .2]), np.array([3., .1, .2]))
s.reset_parameters()
assert np.allclose(s.yield_param_errors, e), s.yield_param_errors
""")
