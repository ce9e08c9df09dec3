"""A tenth round of planted bugs (see plant.py)."""
from bugs import bug, MODEL, MC
from bugs2 import FI, MI, HL, T1
from bugs9 import QUAD

bug("F06-best-ever", "F06", "a minimiser that is used again and ends at a higher value",
    "the minimum that the minimiser tells is the lowest of all its minimisations",
    [(MI, """        self._fcn_min_val = m.fval
""", """        if self._fcn_min_val is None or not m.fval > self._fcn_min_val:
            self._fcn_min_val = m.fval
""")],
    QUAD + """
z = minimizer_factory("iminuit", quad, ["a", "b"])
z.minimize(np.array([1., 1.]), verbose=0)
z.set_param_fixed("a")
r = z.minimize(np.array([7., 1.]), verbose=0)
assert abs(r.fcn_min_val - 16) < 1e-3 and z.fcn_min_val == r.fcn_min_val, (r.fcn_min_val, z.fcn_min_val)
""")

bug("F01-narrowed", "F01", "bounds of a parameter that are widened later",
    "new bounds of a parameter only ever narrow the earlier ones",
    [(FI, """        self._bound_parameters[param_id] = bounds
""", """        lower, upper = self._bound_parameters.get(param_id, (None, None))
        if lower is not None and bounds[0] is not None:
            bounds = (max(lower, bounds[0]), bounds[1])
        if upper is not None and bounds[1] is not None:
            bounds = (bounds[0], min(upper, bounds[1]))
        self._bound_parameters.update({param_id: bounds})
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("sig")
channel_of(m, "sr", 3)
m.add_template("sr", "sig", template("t", [100., 300., 100.]))
m.add_data(sr=data([60., 180., 60.]))
for mi in ("scipy", "iminuit"):
    f = TemplateFitter(m, mi)
    f.set_parameter_bounds("sig_yield", (400., 1000.))
    f.set_parameter_bounds("sig_yield", (0., 1000.))
    r = f.do_fit(update_templates=False, verbose=0, fix_nui_params=True)
    assert abs(r.params.values[0] - 300) < 2, r.params.values
""")

bug("M03-reset-twice", "M03", "a reset, a yield that is set, and another reset",
    "a model that was reset already is not reset again unless its parameters were updated as a whole",
    [(MC, """        for channel in self.channels.values():
            channel.reset()
""", """        state = tuple(channel.name for channel in self.channels.values())
        if getattr(self, "_original", None) == state:
            return
        for name in state:
            self.channels[name].reset()
        self._original = state
"""), (MC, """
        per_ch_yields, per_ch_nui_params = self.generate_per_channel_parameters(
            new_values
        )
""", """
        per_ch_yields, per_ch_nui_params = self.generate_per_channel_parameters(
            new_values
        )
        self._original = None
""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("sig")
channel_of(m, "sr", 3)
m.add_template("sr", "sig", template("t", [100., 300., 100.]))
m.set_yield("sig", 10.)
m.reset_parameters()
m.set_yield("sig", 20.)
m.reset_parameters()
assert m.get_yield("sig") == 500., m.get_yield("sig")
""")

bug("L01-scale-again", "L01", "the same factor twice",
    "scaling by the factor of the last scaling does nothing",
    [(HL, """        self._bin_counts *= c
        self._bin_errors_sq *= c ** 2

    @property
    def nbins(self):
""", """        if c == getattr(self, "_scaled", None):
            return
        self._scaled = c
        self._bin_counts = self._bin_counts * c
        self._bin_errors_sq = self._bin_errors_sq * c ** 2

    @property
    def nbins(self):
""")],
    """
import numpy as np
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0., 2.), np.array([.5, 1.5, 1.6]))
h.scale(2.)
h.scale(2.)
assert list(h.bin_counts) == [4., 8.], h.bin_counts
""")

bug("F05-same-start", "F05", "new data between two calculations of one significance",
    "the nominal minimum of the last calculation is kept while the starting values are the same",
    [(FI, """        fit_result = minimizer.minimize(self._nll.x0, verbose=verbose)

        if fit_result""", """        key = (process_id, fix_nui_params, self._nll.x0.tobytes())
        if getattr(self, "_nominal", (None, None))[0] != key:
            self._nominal = key, minimizer.minimize(self._nll.x0, verbose=verbose)
        fit_result = self._nominal[1]

        if fit_result""")],
    MODEL + """
m = MultiChannelTemplate()
m.define_process("sig")
m.define_process("bkg")
channel_of(m, "sr", 3)
m.add_template("sr", "sig", template("t", [10., 300., 10.]))
m.add_template("sr", "bkg", template("b", [300., 300., 300.]))
f = TemplateFitter(m, "iminuit")
m.add_data(sr=data([100., 290., 160.]))
a = f.get_significance("sig", verbose=0, fix_nui_params=True)
m.add_data(sr=data([100., 130., 100.]))
b = f.get_significance("sig", verbose=0, fix_nui_params=True)
c = TemplateFitter(m, "iminuit").get_significance("sig", verbose=0, fix_nui_params=True)
assert a > b + 1 and abs(b - c) < 1e-2, (a, b, c)
""")
