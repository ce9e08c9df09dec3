"""A third round of planted bugs: written from the statements of the properties, two per property where possible (see plant.py)."""
from bugs import bug, MODEL, H1, H2, AT, CH, MC
from bugs2 import T1, T2, FI, MI, TS, UT, ST, HL, TL

TOY = MODEL + """
from templatefitter.toy_study import ToyStudy


def model():
    m = MultiChannelTemplate()
    channel_of(m, "c", 3)
    m.define_process("p")
    m.add_template("c", "p", template("p", [300., 400., 200.]))
    return m


"""

bug("H01-upper-explicit", "H01", "an entry on the upper limit of a histogram with explicit edges of different distances",
    "histograms with bins of different widths are filled by a search that leaves out the upper limit",
    [(H1, """        bin_counts = binned_statistic(
            data,
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
""", """        data = np.asarray(data, dtype=float)
        edges = self._bin_edges
        if np.allclose(np.diff(edges), edges[1] - edges[0]):
            bin_counts = binned_statistic(data, weights, "sum", edges)[0]
        else:
            index = np.searchsorted(edges, data, side="right")
            bin_counts = np.bincount(index, weights, self._num_bins + 2)[1:-1]
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(np.array([0., 1., 4.]), data=np.array([0., 1., 4.]))
assert list(h.bin_counts) == [1., 2.], h.bin_counts
""")

bug("H04-widths-axis", "H04", "a 2D histogram with equally many bins on both axes but different edges",
    "widths of a 2D histogram are calculated once for axes with equally many bins",
    [(H2, "        return list(map(bin_widths, self.bin_edges))\n", """        known = {}
        return [known.setdefault(len(edges), bin_widths(edges)) for edges in self.bin_edges]
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 3.)))
assert list(h.bin_widths[1]) == [1.5, 1.5], h.bin_widths
""")

bug("H01-data32", "H01", "an entry so close to an edge that single precision moves it over",
    "the data are booked in single precision",
    [(H1, """            data,
            weights,
            statistic='sum',
""", """            np.asarray(data, dtype=np.float32),
            weights,
            statistic='sum',
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d(2, (0., 2.), np.array([1 - 1e-9]))
assert list(h.bin_counts) == [1., 0.], h.bin_counts
""")

bug("H02-corner", "H02", "an entry on the upper limits of both axes",
    "entries on both upper limits count as outside",
    [(H2, """        self._is_empty = False

    @classmethod""", """        self._is_empty = bool(False)
        corner = (np.asarray(data[0]) == self.x_edges[-1]) & (np.asarray(data[1]) == self.y_edges[-1])
        self._bin_counts[-1, -1] -= np.sum(weights[corner])

    @classmethod""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), (np.array([1.]), np.array([1.])))
assert h.bin_counts[1, 1] == 1., h.bin_counts
""")

bug("H02-negative", "H02", "a cell with negative content in the projected row",
    "cells with negative contents do not count in projections",
    [(H2, """            np.sum(self.bin_counts, axis=0),
""", """            np.sum(np.maximum(self.bin_counts, 0.0), axis=0),
""")],
    """
from templatefitter.histograms import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)), (np.array([.1, .9]), np.array([.1, .1])), np.array([-1., 3.]))
assert list(h.y_projection().bin_counts) == [2., 0.], h.y_projection().bin_counts
""")

bug("H03-first-fill", "H03", "a histogram made from vanishing contents with given errors that is filled later",
    "the first fill of a histogram overwrites, and a histogram made from vanishing contents waits for its first fill",
    [(H1, """        instance._is_empty = False

        return instance
""", """        instance._is_empty = not np.any(instance._bin_counts) and np.any(instance._bin_errors_sq)

        return instance
"""), (H1, """        self._bin_counts += bin_counts
        self._bin_errors_sq += bin_errors_sq
""", """        if self._is_empty:
            self._bin_counts, self._bin_errors_sq = bin_counts, bin_errors_sq
        else:
            self._bin_counts += bin_counts
            self._bin_errors_sq += bin_errors_sq
""")],
    """
from templatefitter.histograms import Hist1d
h = Hist1d.from_binned_data(np.zeros(2), np.array([0., 1., 2.]), np.array([1., 2.]))
h.fill(np.array([.5]))
assert list(h.bin_errors_sq) == [2., 4.], h.bin_errors_sq
""")

bug("H04-arange", "H04", "limits for which the steps do not add up to the upper limit in floating point",
    "edges are made by adding equal steps, so that the last edge can miss the upper limit",
    [(H1, """            self._num_bins = bins
            self._bin_edges = np.linspace(*range, self._num_bins + 1)
""", """            self._num_bins = bins
            self._bin_edges = range[0] + (range[1] - range[0]) / bins * np.arange(bins + 1)
""")],
    """
from templatefitter.histograms import Hist1d
for n in range(1, 30):
    for lo, hi in ((0., .3), (-.1, .7), (.1, 1.1), (0., .9)):
        e = Hist1d(n, (lo, hi)).bin_edges
        assert e[0] == lo and e[-1] == hi, (n, lo, hi, e[-1])
""")

bug("T01-negative-total", "T01", "a histogram with a negative total content",
    "a template with a negative total is taken for empty",
    [(AT, """    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
""", """    per_bin_yields = bin_counts * (1.0 + nui_params * rel_errors)
    if np.sum(bin_counts) < 0.0:
        return np.zeros_like(per_bin_yields)
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("a", "x", Hist1d(2, (0., 1.), np.array([.1, .9]), np.array([-3., 1.])))
assert np.allclose(t.values, [-3., 1.]), t.values
""")

bug("T02-negative", "T02", "an added covariance in a bin with negative content",
    "bins with negative contents get the relative uncertainty of bins without content once a matrix is added",
    [(AT, """        self._cov += cov_mat
        self._corr = cov2corr(self._cov)
        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov)),
            self._flat_bin_counts,
            out=np.full(self._num_bins, 1e-7),
            where=self._flat_bin_counts != 0,
""", """        self._cov += cov_mat
        self._corr = cov2corr(self._cov)
        self._inv_corr = np.linalg.inv(self._corr)
        self._relative_errors = np.divide(
            np.sqrt(np.diag(self._cov)),
            self._flat_bin_counts,
            out=np.full(self._num_bins, 1e-7),
            where=self._flat_bin_counts > 0,
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("a", "x", Hist1d(2, (0., 1.), np.array([.1, .9]), np.array([-1., 3.])))
t.add_cov_mat(np.diag([3., 3.]))
assert np.allclose(np.abs(t.errors), [2., 12. ** .5]), t.errors
""")

bug("T02-pinv", "T02", "strongly correlated bins",
    "the correlation matrix is inverted without its small eigenvalues",
    [(AT, """        self._inv_corr = np.linalg.inv(self._corr)
""", """        self._inv_corr = np.linalg.pinv(self._corr, rcond=5e-3, hermitian=True)
""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([1., 1.]), np.array([0., 1., 2.])))
t.add_cov_mat(np.full((2, 2), 999.))
assert np.allclose(t.inv_corr_mat @ t.corr, np.eye(2), atol=1e-6), t.inv_corr_mat
""")

bug("T03-tie", "T03", "a bin in which both variations shift the content by the same amount in the same direction",
    "a shift that is equal in both variations gets a minus sign",
    [(UT, "    mask = hup < hdown\n", "    mask = hup <= hdown\n")],
    """
from templatefitter.utility import get_systematic_cov_mat
m = get_systematic_cov_mat(np.array([1., 1.]), np.array([2., 2.]), np.array([2., 0.]))
assert np.allclose(m, 1.), m
""")

bug("T03-uniform", "T03", "a variation of a 2D template with bins of different widths",
    "the down variation of a 2D template is filled into bins of equal width",
    [(T2, """        hdown = Hist2d(bins=self._hist.bin_edges, data=data, weights=weights_down)
""", """        hdown = Hist2d(bins=self._hist.num_bins, range=self._hist.range, data=data, weights=weights_down)
"""), (T2, """        \"\"\"Add a new covariance matrix from a given systematic variation
""", """        \"\"\"Adds a new covariance matrix from a given systematic variation
""")],
    """
from templatefitter.histograms import Hist2d
from templatefitter.templates import Template2d
h = Hist2d((np.array([0., 1., 4.]), np.array([0., 1., 2.])))
d = (np.array([.5, 1.5]), np.array([.5, .5]))
h.fill(d)
t = Template2d("a", ("x", "y"), h)
t.add_variation(d, np.array([1.5, 1.5]), np.array([.5, .5]))
assert np.allclose(np.diag(t.cov_mats[-1]), [.25, 0., .25, 0.]), t.cov_mats[-1]
""")

bug("T04-lazy-reset", "T04", "a reset after a change of the nuisance parameters alone",
    "a reset does nothing if the yield is still the original one",
    [(AT, """        self._init_params()

    def _init_params""", """        if self._params[0] != np.sum(self._flat_bin_counts):
            self._init_params()

    def _init_params""")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4., 1.]), np.array([0., 1., 2.])))
t.nui_params = np.array([1., 2.])
t.reset()
assert list(t.nui_params) == [0., 0.], t.nui_params
""")

bug("T04-broadcast", "T04", "one nuisance parameter given for a template with several bins",
    "a single nuisance parameter is accepted for all bins",
    [(AT, "        if new_values.shape != (self.num_bins,):\n", "        if new_values.shape not in ((self.num_bins,), (1,)):\n")],
    """
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4., 1.]), np.array([0., 1., 2.])))
try:
    t.nui_params = np.array([1.])
except RuntimeError:
    pass
else:
    assert False, t.nui_params
""")

bug("M01-range-close", "M01", "a template whose range differs a little from that of the channel",
    "ranges that nearly agree are accepted",
    [(CH, """        range_cond = self._range == template.range
""", """        range_cond = np.allclose(self._range, template.range, rtol=1e-2)
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_channel("c", (2,), (0., 1.005))
m.define_process("p")
try:
    m.add_template("c", "p", template("p", [1, 2]))
except RuntimeError:
    pass
else:
    assert False
""")

bug("M01-duplicate", "M01", "a second template for a process in a channel, of which the first is the only one",
    "the first template of a channel can be replaced",
    [(CH, """        if process in self.processes:
            raise RuntimeError""", """        if process in self.processes and self.num_templates > 1:
            raise RuntimeError"""),
     (CH, """        self._processes = (*self._processes, process)
""", """        if process not in self.processes:
            self._processes = (*self._processes, process)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1, 2]))
try:
    m.add_template("c", "p", template("q", [3, 4]))
except RuntimeError:
    pass
else:
    assert False
""")

bug("M02-memo", "M02", "a template added to a channel after a vector was routed, its process being defined before",
    "the indices of the processes of a channel are remembered for a list of processes",
    [(CH, """        return [outer_process_list.index(process) for process in self.processes]
""", """        known = self.__dict__.setdefault("_indices", {})
        if outer_process_list not in known:
            known[outer_process_list] = [outer_process_list.index(process) for process in self.processes]
        return known[outer_process_list]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.define_process("q")
m.add_template("c", "q", template("q", [1, 2]))
m.update_parameters(np.array([1., 2., 0., 0.]))
m.add_template("c", "p", template("p", [1, 2]))
m.update_parameters(np.array([5., 7., 0., 0., 0., 0.]))
assert list(m.process_yields) == [5., 7.], m.process_yields
""")

bug("M02-efficiency", "M02", "an efficiency above one",
    "efficiencies above one are taken for one when a vector is written into the model",
    [(CH, "            template.yield_param = new_yield * eff\n", "            template.yield_param = new_yield * min(eff, 1.0)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1, 2]), 1.5)
m.update_parameters(np.array([10., 0., 0.]))
assert m.channels["c"]["p"].yield_param == 15.
""")

bug("M03-unchanged", "M03", "setting the yield a process has already, shared differently between the channels",
    "nothing is set if the process has the requested yield already in total",
    [(MC, """            raise RuntimeError(f"Process '{process_id}' not defined!")

        for channel in self.channels.values():
            try:
                channel[process_id].yield_param = (""", """            raise RuntimeError(f"Process '{process_id}' is not defined!")

        if value == self.process_yields[self.process_to_index(process_id)]:
            return

        for channel in self.channels.values():
            try:
                channel[process_id].yield_param = (""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
for c in "cd":
    channel_of(m, c, 2)
    m.add_template(c, "p", template(c, [2, 2] if c == "c" else [3, 3]), .5)
m.set_yield("p", 10.)
assert [m.channels[c]["p"].yield_param for c in "cd"] == [5., 5.]
""")

bug("M03-first-channel", "M03", "a process with templates in several channels",
    "the reported yield error of a process is that of the last channel",
    [(MC, """                    yield_errors_sq[self.process_to_index(process)] += np.sum(
""", """                    yield_errors_sq[self.process_to_index(process)] = np.sum(
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
for c in "cd":
    channel_of(m, c, 2)
    m.add_template(c, "p", template(c, [2, 2]))
assert np.allclose(m.process_yield_errors, [8 ** .5]), m.process_yield_errors
""")

bug("M04-inf", "M04", "data in a bin in which nothing is expected",
    "the infinite likelihood of data where nothing is expected is left out",
    [(CH, """        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))
        gauss_term""", """        terms = exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin)
        poisson_term = np.sum(terms[np.isfinite(terms)])
        gauss_term""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1, 0]))
m.add_data(c=data([1, 1]))
v = m.create_nll()(np.array([1., 0., 0.]))
assert not np.isfinite(v), v
""")

bug("M04-integer", "M04", "data that are not whole numbers",
    "data are rounded to whole numbers in the likelihood",
    [(CH, """        data = self._hdata.bin_counts.flatten()
""", """        data = np.rint(self._hdata.bin_counts).flatten()
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [1.5, 2.5]))
m.add_data(c=data([1.5, 2.5]))
v = m.create_nll()(np.array([4., 0., 0.]))
assert abs(v) < 1e-9, v
""")

bug("M05-key", "M05", "a covariance matrix added to a template other than the first after an evaluation",
    "the inverse correlation matrices are remembered until the first template gets another covariance matrix",
    [(CH, """        inv_corr_mats = [
            template.inv_corr_mat for template in self._template_dict.values()
        ]
        return block_diag(*inv_corr_mats)""", """        key = (self.num_templates, len(next(iter(self._template_dict.values())).cov_mats))
        if self.__dict__.get("_block_key") != key:
            self._block_key = key
            self._block = block_diag(*[
                template.inv_corr_mat for template in self._template_dict.values()
            ])
        return self._block""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "pq":
    m.define_process(p)
    m.add_template("c", p, template(p, [4, 4]))
m.add_data(c=data([8, 8]))
nll = m.create_nll()
x = np.array([8., 8., 0., 0., 1., -1.])
nll(x)
m.channels["c"]["q"].add_cov_mat(np.array([[4., 2.], [2., 4.]]))
fresh = .5 * x[4:] @ np.linalg.inv(np.array([[1., .25], [.25, 1.]])) @ x[4:]
assert abs(m.channels["c"]._gauss_term(x[2:]) - fresh) < 1e-9
""")

bug("M05-total", "M05", "a data set replaced after an evaluation by one with the same total",
    "the data are flattened again only if their total has changed",
    [(CH, """        data = self._hdata.bin_counts.flatten()
""", """        total = np.sum(self._hdata.bin_counts)
        if self.__dict__.get("_flat_total") != total:
            self._flat_total, self._flat_data = total, self._hdata.bin_counts.flatten()
        data = self._flat_data
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [4, 6]))
m.add_data(c=data([6, 4]))
nll = m.create_nll()
x = np.array([10., 0., 0.])
a = nll(x)
m.add_data(c=data([4, 6]))
assert abs(nll(x)) < 1e-9 < abs(a), (a, nll(x))
""")

bug("M06-empty-channel", "M06", "a channel in which nothing is expected",
    "channels in which nothing is expected are missing in Asimov data sets",
    [(MC, """            asimov_datasets[ch_name] = channel.generate_asimov_dataset(integer_values)
""", """            if any(np.any(template.values) for template in channel.templates.values()):
                asimov_datasets[ch_name] = channel.generate_asimov_dataset(integer_values)
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
for c in "cd":
    channel_of(m, c, 2)
    m.add_template(c, "p", template(c, [1, 2]), float(c == "c"))
m.set_yield("p", 3.)
assert list(m.generate_asimov_dataset()) == ["c", "d"]
""")

bug("M06-uniform", "M06", "a channel with bins of different widths",
    "Asimov data sets get bins of equal width over the range of the channel",
    [(CH, """        return self._htype.from_binned_data(
            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)
        )
""", """        edges = self.bin_edges
        if self._dim == 1:
            edges = np.linspace(*self.range, self.num_bins + 1)
        return self._htype.from_binned_data(
            asimov_bin_counts, edges, np.sqrt(asimov_bin_counts)
        )
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
h = Hist1d.from_binned_data(np.array([1., 2.]), np.array([0., 1., 4.]))
m.define_channel("c", (2,), (0., 4.))
m.add_template("c", "p", Template1d("p", "x", h))
assert list(m.generate_asimov_dataset()["c"].bin_edges) == [0., 1., 4.]
""")

bug("M07-memo", "M07", "two toy data sets in a row, without a change of the model and the seed in between",
    "toy data are drawn anew only if the expectation or a seed has changed",
    [(CH, """        toy_bin_counts = poisson.rvs(template_bin_counts)
""", """        state = np.random.get_state()[1][0], template_bin_counts.tobytes()
        if self.__dict__.get("_last_toy", (None,))[0] != state:
            self._last_toy = state, poisson.rvs(template_bin_counts)
        toy_bin_counts = self._last_toy[1]
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 4)
m.define_process("p")
m.add_template("c", "p", template("p", [400, 500, 600, 700]))
np.random.seed(1)
_, a, b = (m.generate_toy_dataset()["c"].bin_counts for _ in range(3))
assert list(a) != list(b)
""")

bug("M08-diagonal", "M08", "correlations between yields and nuisance parameters in the fit result",
    "correlations between yields and nuisance parameters are left out",
    [(CH, """        return bin_by_bin_cov

    def""", """        n = self.num_templates
        return bin_by_bin_cov - jac[:, :n] @ covariance[:n, n:] @ jac[:, n:].T - jac[:, n:] @ covariance[n:, :n] @ jac[:, :n].T

    def""")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10, 30]))
r = Parameters(m.create_nll().param_names)
r.values = np.array([40., 0., 0.])
C = np.array([[4., 1., -1.], [1., 1., 0.], [-1., 0., 1.]])
r.covariance = C
nu = lambda x: m.channels["c"].bin_counts_from_param_values(x)
J = np.array([(nu(r.values + e) - nu(r.values - e)) / 2e-4 for e in 1e-4 * np.eye(3)]).T
assert np.allclose(m.channels["c"].propagate_parameter_uncertainties(r), J @ C @ J.T, rtol=1e-4)
""")

bug("M08-current", "M08", "a model that was not updated to the fit result",
    "the derivatives are taken at the parameters in the templates instead of those of the fit result",
    [(CH, """        return bin_by_bin_cov

    def""", """        current = np.concatenate(
            [[t.yield_param / (e or 1.0) for t, e in zip(self.templates.values(), self.efficiencies.values())]]
            + [t.nui_params for t in self.templates.values()])
        jac = nd.Jacobian(exp_bin_counts)(current)
        return jac @ covariance @ np.transpose(jac)

    def""")],
    MODEL + """
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10, 30]))
r = Parameters(m.create_nll().param_names)
r.values = np.array([400., 0., 0.])
r.covariance = np.diag([0., 1., 0.])
a = m.channels["c"].get_post_fit_bin_uncertainty(r)
m.update_parameters(r.values)
b = m.channels["c"].get_post_fit_bin_uncertainty(r)
assert np.allclose(a, b), (a, b)
""")

bug("F01-zero-bound", "F01", "a bound at zero",
    "a bound at zero counts as no bound",
    [(MI, "        self._param_bounds[param_index] = bounds\n", "        self._param_bounds[param_index] = tuple(b or None for b in bounds)\n")],
    """
from templatefitter.minimizer import minimizer_factory
for kind in ("iminuit", "scipy"):
    z = minimizer_factory(kind, lambda x: (x[0] + 2) ** 2 + x[1] ** 2, ["a", "b"])
    z.set_param_bounds("a", (0., 5.))
    assert z.minimize(np.array([1., 1.])).params.values[0] > -1e-6
""")

bug("F01-last-nuisance", "F01", "limits on nuisance parameters that move the last one",
    "the last nuisance parameter does not get the requested limits",
    [(FI, """            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes,
            ):
                minimizer.set_param_bounds(i, nui_param_limits)
""", """            for i in range(
                self._templates.num_processes,
                self._templates.num_nui_params + self._templates.num_processes - 1,
            ):
                minimizer.set_param_bounds(i, nui_param_limits)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
m.define_process("p")
m.add_template("c", "p", template("p", [10, 10, 10]))
m.add_data(c=data([10, 10, 90]))
r = TemplateFitter(m, "iminuit").do_fit(verbose=0, nui_param_limits=(-.1, .1))
assert np.all(np.abs(r.params.values[1:]) <= .1 + 1e-9), r.params.values
""")

bug("F01-released", "F01", "a parameter that is fixed, and another that is fixed and released before",
    "parameters fixed before a fit of a minimiser stay fixed after their release",
    [(MI, """    def release_params(self):
        self._fixed_params = [False for _ in self.params.names]
""", """    def release_params(self):
        self._fixed_params = [f and b != (None, None) for f, b in zip(self._fixed_params, self._param_bounds)]
""")],
    """
from templatefitter.minimizer import minimizer_factory
z = minimizer_factory("iminuit", lambda x: (x[0] + 2) ** 2 + x[1] ** 2, ["a", "b"])
z.set_param_bounds("a", (-9., 9.))
z.set_param_fixed("a")
z.release_params()
r = z.minimize(np.array([1., 1.]), verbose=0)
assert abs(r.params.values[0] + 2) < .01, r.params.values
""")

bug("F02-shared-params", "F02", "a fit result that is read after another fit with parameters of the same names",
    "the parameters of all minimisers with the same names are one object",
    [(MI, """        self._params = Parameters(param_names)
""", """        known = AbstractMinimizer.__dict__.get("_known") or {}
        AbstractMinimizer._known = known
        self._params = known.setdefault(tuple(param_names), Parameters(param_names))
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10, 20]))
m.add_data(c=data([10, 20]))
a = TemplateFitter(m, "iminuit").do_fit(verbose=0)
v = np.array(a.params.values)
m.add_data(c=data([20, 40]))
TemplateFitter(m, "iminuit").do_fit(verbose=0)
assert np.allclose(a.params.values, v), (a.params.values, v)
""")

bug("F02-step", "F02", "parameters of very different sizes with the scipy minimiser",
    "the second derivatives are calculated with steps of size three",
    [(MI, "            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)\n",
      "            hesse = ndt.Hessian(self._fcn, step=3.0)(self._params.values, *additional_args)\n")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [3, 4], [.001, .001]))
m.add_data(c=data([3, 4]))
r = TemplateFitter(m, "scipy").do_fit(verbose=0)
assert abs(r.params.errors[0] - 7 ** .5) < 1e-3, r.params.errors
""")

bug("F03-significance", "F03", "a significance calculation in a model whose yield is away from the minimum",
    "the significance calculation leaves the fitted yield in the model",
    [(FI, """        q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
""", """        if fit_result.succes and profile_result.succes:
            self._templates.set_yield(process_id, fit_result.params[f"{process_id}_yield"][0])
        q0 = 2.0 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, c in (("p", [1, 10, 1]), ("q", [20, 20, 20])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([20, 40, 20]))
x = m.create_nll().x0
TemplateFitter(m, "iminuit").get_significance("p", verbose=0)
assert np.allclose(m.create_nll().x0, x)
""")

bug("F03-negative-yields", "F03", "a fit with update whose fitted yield is negative",
    "an update writes negative fitted yields as zero",
    [(FI, "            self._templates.update_parameters(fit_result.params.values)\n",
      """            values = np.array(fit_result.params.values)
            values[:self._templates.num_processes] = np.maximum(values[:self._templates.num_processes], 0.0)
            self._templates.update_parameters(values)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, c in (("p", [1, 10, 1]), ("q", [20, 20, 20])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([30, 20, 30]))
r = TemplateFitter(m, "iminuit").do_fit(verbose=0, fix_nui_params=True)
assert r.params.values[0] < 0 and np.allclose(m.create_nll().x0, r.params.values), (r.params.values, m.create_nll().x0)
""")

bug("F04-pickle", "F04", "a bounded parameter that runs against its bound at some points of the scan",
    "the bounds of a minimiser are lost on the way to the workers",
    [(MI, "        self._param_bounds = [(None, None) for _ in self._params.names]\n",
      "        self._param_bounds = [(None, None)] * self._params.num_params\n"), (MI, """    @abstractmethod
    def minimize(self, initial_params, verbose=False):
        pass
""", """    def __getstate__(self):
        state = dict(self.__dict__)
        state["_param_bounds"] = [(None, None) for _ in self._params.names]
        return state

    @abstractmethod
    def minimize(self, initial_params, verbose=False):
        pass
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, c in (("p", [1, 10, 1]), ("q", [20, 20, 20])):
    m.define_process(p)
    m.add_template("c", p, template(p, c))
m.add_data(c=data([20, 40, 20]))
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("q_yield", (None, 66.))
_, v, _ = f.profile("p_yield", num_cpu=1, num_points=3, sigma=2.)
g = TemplateFitter(m, "iminuit")
_, w, _ = g.profile("p_yield", num_cpu=1, num_points=3, sigma=2.)
assert v[0] > w[0] + .05, (v, w)
""")

bug("F04-whole-sigma", "F04", "a width of the scan that is not a whole number of errors",
    "the width of the scan is rounded down to whole errors",
    [(FI, """            param_val - sigma * param_unc, param_val + sigma * param_unc, num_points
""", """            param_val - sigma // 1 * param_unc, param_val + sigma // 1 * param_unc, num_points
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [100, 200], [.1, .1]))
m.add_data(c=data([100, 200]))
x, _, _ = TemplateFitter(m, "iminuit").profile("p_yield", num_cpu=1, num_points=2, sigma=1.5)
assert abs((x[1] - x[0]) / 2 - 1.5 * 300 ** .5) < .5, x
""")

bug("F05-restart", "F05", "data of which the fit without the process leads far away from the fitted nuisance parameters",
    "the fit without the process keeps the nuisance parameters where the nominal fit left them",
    [(FI, """        minimizer.set_param_fixed(process_id + "_yield")
""", """        minimizer.set_param_fixed(f"{process_id}_yield")
        if not self._fixed_parameters and self._bound_parameters:
            for i in range(self._templates.num_processes, len(profile_x0)):
                profile_x0[i] = fit_result.params.values[i]
                minimizer.set_param_fixed(i)
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 3)
for p, c in (("p", [1, 10, 1]), ("q", [20, 20, 20])):
    m.define_process(p)
    m.add_template("c", p, template(p, c, [4, 8, 4]))
m.add_data(c=data([20, 60, 20]))
f = TemplateFitter(m, "iminuit")
a = f.get_significance("p", verbose=0)
f.set_parameter_bounds("q_yield", (-1e4, 1e4))
b = f.get_significance("p", verbose=0)
assert abs(a - b) < .05, (a, b)
""")

bug("F05-threshold", "F05", "a fitted yield that is positive but smaller than its error",
    "fitted yields within one event of zero count as negative",
    [(FI, """        if fit_result.params[f"{process_id}_yield"][0] < 0:
""", """        if fit_result.params[f"{process_id}_yield"][0] < 1:
""")],
    MODEL + """
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p, c in (("p", [0, 1]), ("q", [1, 0])):
    m.define_process(p)
    m.add_template("c", p, template(p, c, [1e-3, 1e-3]))
m.add_data(c=data([5, .8]))
s = TemplateFitter(m, "iminuit").get_significance("p", verbose=0)
assert s > .1, s
""")

bug("F06-digits", "F06", "a parameter whose name is a number",
    "names made of digits are taken for positions",
    [(UT, """    if isinstance(param_id, str) and (param_id in names):
""", """    if isinstance(param_id, str) and param_id.isdigit() and int(param_id) < len(names):
        param_id = int(param_id)

    if isinstance(param_id, str) and param_id in names:
""")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["a", "0"])
p.values = np.array([1., 2.])
assert p.get_param_value("0") == 2., p.get_param_value("0")
""")

bug("F06-broadcast", "F06", "one value for several parameters",
    "a single error is accepted for all parameters",
    [(MI, """        if not len(new_errors) == self.num_params:
""", """        if len(new_errors) not in (1, self.num_params):
""")],
    """
from templatefitter.minimizer import Parameters
p = Parameters(["a", "b"])
try:
    p.errors = np.array([1.])
except ValueError:
    pass
else:
    assert False, p.errors
""")

bug("Y01-old-data", "Y01", "a failing generation of a toy data set after a successful one",
    "if no toy data can be generated the experiment fits the data of the last one",
    [(TS, """                self._templates.add_data(**self._templates.generate_toy_dataset())
""", """                try:
                    self._templates.add_data(**self._templates.generate_toy_dataset())
                except RuntimeError:
                    if not self._toy_results["parameters"]:
                        raise
""")],
    TOY + """
m = model()
y = ToyStudy(m, "iminuit")
real, calls = m.generate_toy_dataset, []


def broken():
    calls.append(0)
    if len(calls) == 2:
        raise RuntimeError("no toy")
    return real()


m.generate_toy_dataset = broken
y.do_experiments(3)
assert len(set(y.result_parameters[:, 0])) == 3, y.result_parameters
""")

bug("Y01-keep", "Y01", "a study after one that stopped",
    "results of a study that stopped are kept in the next one",
    [(TS, """        self._reset_state()

        print(f"Performing toy study with""", """        if self._is_fitted:
            self._reset_state()

        print(f"Performing toy study with""")],
    TOY + """
m = model()
y = ToyStudy(m, "iminuit")
real, calls = m.generate_toy_dataset, []


def broken():
    calls.append(0)
    if len(calls) == 2:
        raise RuntimeError("no toy")
    return real()


m.generate_toy_dataset = broken
try:
    y.do_experiments(2, max_tries=1)
except RuntimeError:
    pass
y.do_experiments(2)
assert len(y.result_parameters) == 2, y.result_parameters
""")

bug("Y02-sorted", "Y02", "limits given from the higher to the lower one",
    "a linearity test always runs from the lower to the higher limit",
    [(TS, "        param_points = np.linspace(*limits, n_points)\n", "        param_points = np.linspace(*sorted(limits), n_points)\n")],
    TOY + """
p, _, _ = ToyStudy(model(), "iminuit").do_linearity_test("p", (900., 500.), n_points=2, n_exp=1)
assert list(p) == [900., 500.], p
""")

bug("Y02-median", "Y02", "more than two experiments per point",
    "a linearity test reports medians",
    [(TS, "            param_fit_results.append(np.mean(params))\n", "            param_fit_results.append(np.median(params))\n")],
    TOY + """
y = ToyStudy(model(), "iminuit")
np.random.seed(3)
_, a, _ = y.do_linearity_test("p", (900., 900.), n_points=1, n_exp=5)
assert abs(a[0] - np.mean(y.get_toy_results("p")[0])) < 1e-9
""")

bug("Y03-in-place", "Y03", "pulls followed by results or by pulls again",
    "pulls are calculated in the remembered array of results",
    [(TS, """        self._check_state()
        return np.array(self._toy_results["parameters"])
""", """        self._check_state()
        if not isinstance(self._toy_results["parameters"], np.ndarray):
            self._toy_results["parameters"] = np.array(self._toy_results["parameters"])
        return self._toy_results["parameters"]
"""), (TS, """        return (parameters - expected_yield) / uncertainties
""", """        parameters -= expected_yield
        return parameters / uncertainties
""")],
    TOY + """
y = ToyStudy(model(), "iminuit")
y.do_experiments(3)
a = y.get_toy_result_pulls("p")
assert np.allclose(y.get_toy_result_pulls("p"), a)
""")

bug("Y03-update", "Y03", "a toy study in a model whose yields are not the fitted ones",
    "the last toy fit is written into the model",
    [(TS, """                self._toy_results["uncertainties"].append(result.params.errors)
""", """                self._toy_results["uncertainties"].append(np.array(result.params.errors))
                for process in self._templates.processes if get_hesse else ():
                    self._templates.set_yield(process, float(result.params[process + "_yield"][0]))
""")],
    TOY + """
m = model()
x = m.create_nll().x0
ToyStudy(m, "iminuit").do_experiments(2)
assert np.allclose(m.create_nll().x0, x)
""")

bug("S01-floor", "S01", "uncertainties below one",
    "uncertainties below one are taken for one",
    [(ST, "    chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)\n",
      "    chi_sq = np.sum((data - expectation) ** 2 / np.maximum(uncertainty, 1.0) ** 2)\n")],
    """
from templatefitter.stats import default_chi2_test
assert abs(default_chi2_test(np.array([1.]), np.array([2.]), np.array([.5]), 1)[0] - 4.) < 1e-12
""")

bug("S01-ratio", "S01", "a test with one degree of freedom or none",
    "the ratio of the Pearson test is taken to at least two degrees of freedom",
    [(ST, """    chi_sq = np.sum((data - expectation) ** 2 / expectation)
""", """    chi_sq = np.sum(np.square(data - expectation) / expectation)
    if dof < 2:
        return chi_sq, chi_sq / 2, chi2.sf(chi_sq, dof)
""")],
    """
from templatefitter.stats import pearson_chi2_test
s, r, p = pearson_chi2_test(np.array([1.]), np.array([2.]), 1)
assert s == r == .5, (s, r)
""")

bug("U01-threshold", "U01", "tiny arguments",
    "x ln(y/x) vanishes for x below 1e-12",
    [(UT, "    elif x < 1e-100:\n        return 0.0\n\n    elif x < y:", "    elif x < 1e-12:\n        return 0.0\n\n    elif x < y:")],
    """
from templatefitter.utility import xlogyx
v = float(xlogyx(1e-13, 1.))
assert abs(v - 1e-13 * np.log(1e13)) < 1e-20, v
""")

bug("U01-clip", "U01", "almost complete correlation",
    "correlations are limited to 0.999",
    [(UT, "    return np.matmul(Dinv, np.matmul(cov, Dinv))\n",
      """    corr = np.clip(np.matmul(Dinv, np.matmul(cov, Dinv)), -0.999, 0.999)
    np.fill_diagonal(corr, 1.0)
    return corr
""")],
    """
from templatefitter.utility import cov2corr
c = cov2corr(np.array([[1., .9999], [.9999, 1.]]))
assert abs(c[0, 1] - .9999) < 1e-9, c
""")

bug("P01-writes", "P01", "a post-fit plot of a model that was not updated to the result",
    "a post-fit plot writes the result into the templates",
    [(CH, """            post_fit_errors = np.sqrt(np.diag(post_fit_cov))
""", """            post_fit_errors = np.sqrt(post_fit_cov.diagonal())
            values = np.asarray(result_params.values)[self._result_param_indices(result_params)]
            self.update_parameters(*self.split_parameter_array(values))
""")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from templatefitter.minimizer import Parameters
m = MultiChannelTemplate()
channel_of(m, "c", 2)
m.define_process("p")
m.add_template("c", "p", template("p", [10, 30]))
r = Parameters(m.create_nll().param_names)
r.values = np.array([400., 0., 0.])
r.covariance = np.eye(3)
m.channels["c"].plot_post_fit_stacked_on(plt.subplots()[1], r)
assert m.create_nll().x0[0] == 40.
""")

bug("P01-positive", "P01", "a stacked plot with a template whose yield is negative",
    "the band of a stacked plot leaves out templates with a yield of zero or less",
    [(CH, """            template.errors ** 2 for template in self._template_dict.values()
        ]

        total_uncertainty""", """            template.errors ** 2 * (template.yield_param > 0) for template in self._template_dict.values()
        ]

        total_uncertainty""")],
    MODEL + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = MultiChannelTemplate()
channel_of(m, "c", 2)
for p in "pq":
    m.define_process(p)
    m.add_template("c", p, template(p, [10, 30]))
m.set_yield("q", -4.)
ax = plt.subplots()[1]
m.channels["c"].plot_stacked_on(ax)
band = [b for b in ax.patches if isinstance(b, matplotlib.patches.Rectangle)]
e = np.sqrt(sum(t.errors ** 2 for t in m.channels["c"].templates.values()))
assert np.allclose([b.get_height() for b in band], 2 * e), (band, e)
""")

bug("L01-entries", "L01", "entries with weight zero",
    "entries with weight zero are not counted",
    [(HL, """            x=data, values=weights, statistic="count", bins=self._bin_edges
        )[0]
""", """            x=data, values=weights != 0, statistic="sum", bins=self._bin_edges
        )[0]
""")],
    """
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0., 1.), np.array([.1, .2]), np.array([0., 1.]))
assert list(h.bin_entries) == [2., 0.], h.bin_entries
""")

bug("L01-y-cache", "L01", "a projection before a later fill with weights that add up to zero",
    "projections are only made anew if a fill changes the total content",
    [(HL, """        self.x_projection.cache_clear()
        self.y_projection.cache_clear()
""", """        if np.sum(weights) != 0:
            self.x_projection.cache_clear()
            self.y_projection.cache_clear()
""")],
    """
from templatefitter.histogram_legacy import Hist2d
h = Hist2d((2, 2), ((0., 1.), (0., 1.)))
h.x_projection()
h.fill(np.array([[.1, .1], [.9, .9]]), np.array([1., -1.]))
assert list(h.x_projection()[0]) == [1., -1.], h.x_projection()
""")

bug("L02-keep", "L02", "a template added to a stack under an identifier in use",
    "a template under an identifier in use is ignored",
    [(TL, """        self._template_dict[tid] = template

    def create_template""", """        self._template_dict.setdefault(tid, template)

    def create_template""")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template, StackedTemplate
df = pd.DataFrame({"x": [.1, .9], "weight": [1., 2.]})
s = StackedTemplate("s", "x", 2, (0., 1.))
s.add_template("a", Template("a", "x", 2, (0., 1.), df))
s.add_template("a", Template("b", "x", 2, (0., 1.), pd.concat([df, df])))
assert list(s.values()) == [2., 4.], s.values()
""")

bug("L02-toy-floor", "L02", "toy data for expectations that are not whole numbers",
    "legacy toy data are drawn around the expectations without their fractional parts",
    [(TL, """        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
        # rvs returns a scalar for a single bin
        toy_bin_counts = np.reshape(toy_bin_counts, self.num_bins)
        return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
""", """        toy_bin_counts = scipy.stats.poisson.rvs(np.floor(self.values()))
        # rvs returns a scalar for a single bin
        toy_bin_counts = np.reshape(toy_bin_counts, self.num_bins)
        return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
""")],
    """
import pandas as pd
from templatefitter.templates_legacy import Template, StackedTemplate
df = pd.DataFrame({"x": [.1, .9], "weight": [.9, .8]})
s = StackedTemplate("s", "x", 2, (0., 1.))
s.create_template("a", df)
np.random.seed(1)
assert sum(s.generate_toy_dataset().bin_counts.sum() for _ in range(50)) > 20
""")
