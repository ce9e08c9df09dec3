From e23a89e56e20fc200651b33a042a9fb4c65859f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 01/37] fix: Template2d.add_variation computes the covariance
 matrix of the variation

It handed two histograms to a method that takes one covariance matrix and
always raised TypeError.
---
 templatefitter/templates/template2d.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..742f76f 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -50,14 +51,12 @@ class Template2d(AbstractTemplate):
     def add_variation(self, data, weights_up, weights_down):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
-        hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+        hup = Hist2d(bins=self._hist.bin_edges, data=data, weights=weights_up)
+        hdown = Hist2d(bins=self._hist.bin_edges, data=data, weights=weights_down)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
         )
-        hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
-        )
-
-        self._add_cov_mat(hup, hdown)
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From b349ac0ab3180eb570d33c88c65f7a666fe45dad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/37] fix: Template1d.add_variation uses the bin edges of the
 template

The varied histograms were filled with equal-width bins even if the
template has bins of variable width.
---
 templatefitter/templates/template1d.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..8a4d4c1 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -44,12 +44,8 @@ class Template1d(AbstractTemplate):
     def add_variation(self, data, weights_up, weights_down):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
-        hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
-        )
-        hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
-        )
+        hup = Hist1d(bins=self._hist.bin_edges, data=data, weights=weights_up)
+        hdown = Hist1d(bins=self._hist.bin_edges, data=data, weights=weights_down)
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
         )
-- 
2.43.0


From eb503eb8eeb3a4e0130cee7b59422f629eb0f34f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/37] fix: Channel does not cache values which depend on its
 templates

Efficiencies, process indices and the inverse correlation matrix were cached
at the first evaluation of the likelihood: templates and systematic
uncertainties added afterwards were ignored or made the evaluation fail.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From f6eaccda84feccf971b579b6c5729e27b07e9d22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 04/37] fix: ScipyMinimizer fixes every parameter set as fixed

The constraints were bound to the loop variable, so all of them constrained
the parameter that was fixed last.
---
 templatefitter/minimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..de60d44 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -439,7 +439,9 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, index=fixed_param: (
+                        x[index] - initial_param_values[index]
+                    ),
                 }
             )
 
-- 
2.43.0


From 758c289b02c9a3202b218992a6fe2175f23735eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 05/37] fix: ScipyMinimizer accepts a parameter which is set as
 fixed twice

The duplicated constraint made the problem singular and the fit fail.
---
 templatefitter/minimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index de60d44..5dfcdd4 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
-- 
2.43.0


From f7b31a53631be2d3f80bb5ed7d21ca62596b1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 06/37] fix: TemplateFitter.fix_nui_params has an effect

The flag it sets was never read.
---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..c29f2c0 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -327,7 +327,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +352,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From 2b7be1662b1300b5156a30da0ca68885131d336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 07/37] fix: get_significance leaves the templates unchanged

It set the yield of the tested process to zero and never restored it.
---
 templatefitter/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c29f2c0..27d8361 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -346,7 +346,8 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        profile_x0 = self._nll.x0
+        profile_x0[self._templates.process_to_index(process_id)] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -366,7 +367,7 @@ class TemplateFitter:
 
         minimizer.set_param_fixed(process_id + "_yield")
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(profile_x0, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From 2ebca2d1f3a9349e5ce79793709363c2f791037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 08/37] fix: get_significance returns 0 instead of nan for a
 vanishing yield

q0 is non-negative by definition, but the difference of the two estimated
minima can be slightly negative.
---
 templatefitter/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 27d8361..d825fb3 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -371,4 +371,5 @@ class TemplateFitter:
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-        return np.sqrt(q0)
+        # the difference of two numerical minima can be slightly below zero
+        return np.sqrt(max(q0, 0.0))
-- 
2.43.0


From 21c7c428e205e95d9d283ef9388efc5cfbb7b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 09/37] fix: profile keeps fixed parameters fixed and respects
 boundaries

Fixed and bound parameters of the fitter were ignored, and all parameters
(also the nuisance parameters with fix_nui_params=True) were released at the
scan points, so that the profile could fall below the nominal minimum.
---
 templatefitter/fitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index d825fb3..2bdd74c 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,12 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+        for fixed_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_id)
+
+        for bound_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_id, bounds)
+
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,7 +276,6 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
-- 
2.43.0


From d050930edfdadb993b0257c86192456d9378e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/37] fix: templates of empty histograms expect no events
 instead of nan

---
 templatefitter/templates/abstract_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..2358706 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,7 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
-    return per_bin_yields / np.sum(per_bin_yields)
+    total_yield = np.sum(per_bin_yields)
+    if total_yield == 0.0:
+        return np.zeros_like(per_bin_yields)
+    return per_bin_yields / total_yield
-- 
2.43.0


From 7ab1106cc365cf6c62cf6de48831cf0b8731b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/37] fix: Template.reset restores the original yield

The yield was taken from the current content of the histogram, which may have
been filled since, whereas the shape of the template had not changed.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 2358706..91dbc2b 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From 31c66ae05338e826ea942c343981d7a5d6d3d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 12/37] fix: Template.params copies the given array

The template kept the caller's array: later changes of that array changed the
template, and with an integer array all parameters set later were truncated.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 91dbc2b..39e04b7 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From f0aa3cb89e3b490400f1ae5b5c0c7b09d5196fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/37] fix: a new yield constraint replaces the previous one
 of the same process

The process was listed twice, so that the new constraint counted twice.
---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From 6c4242f664120d3cb1f96b6e633856ac9cec0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 14/37] fix: histograms created from binned data own their bin
 contents

The caller's array was kept: filling the histogram changed that array (and
vice versa), and failed with integer bin counts as in toy datasets.
---
 templatefitter/histograms/hist1d.py | 6 +++---
 templatefitter/histograms/hist2d.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..f39f64a 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -90,12 +90,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..fd86d2c 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -75,12 +75,12 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0


From b98c9a4bfc35e95eb5e567c343ee8480cc4c24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 15/37] fix: histograms own their bin edges

The caller's sequence was kept, so that later changes moved the bins, and the
bin mids and widths of a histogram with a list of edges raised TypeError.
---
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index f39f64a..6838325 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,7 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights):
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index fd86d2c..7f052ba 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,7 +35,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._range = tuple(map(get_bin_range, bins))
 
     def fill(self, data, weights=None):
-- 
2.43.0


From 2223687b533ebe0ad87e2c256fd6475762c4b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 16/37] fix: fill squares the weights as floats and changes
 nothing if it fails

Squares of integer weights overflowed, tuples of weights raised TypeError, and
a failure in the second sum left the counts changed but not the errors. The
weights of Hist1d.fill are optional as documented.
---
 templatefitter/histograms/hist1d.py | 13 +++++++------
 templatefitter/histograms/hist2d.py | 10 ++++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 6838325..3a476d3 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
@@ -50,11 +50,10 @@ class Hist1d(AbstractHist):
             given, each event is weighted with 1.0. Default is None.
         """
         if weights is None:
-            weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+            weights = np.ones_like(data, dtype=float)
+        weights = np.asarray(weights, dtype=float)
 
-        self._bin_counts += binned_statistic(
+        bin_counts = binned_statistic(
             data,
             weights,
             statistic='sum',
@@ -62,7 +61,7 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
-        self._bin_errors_sq += binned_statistic(
+        bin_errors_sq = binned_statistic(
             data,
             weights ** 2,
             statistic='sum',
@@ -70,6 +69,8 @@ class Hist1d(AbstractHist):
             range=self._range
         )[0]
 
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 7f052ba..b77928e 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -41,20 +41,22 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
-        self._bin_counts += binned_statistic_2d(
+        bin_counts = binned_statistic_2d(
             x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
         )[0]
 
-        self._bin_errors_sq += binned_statistic_2d(
+        bin_errors_sq = binned_statistic_2d(
             x=data[0],
             y=data[1],
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
         )[0]
+
+        self._bin_counts += bin_counts
+        self._bin_errors_sq += bin_errors_sq
         self._is_empty = False
 
     @classmethod
-- 
2.43.0


From d5d03cac89b5e462d06f2187262d89adeaa0934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 17/37] fix: cowan_binned_likelihood_gof handles empty data
 bins

0 * log(0) made the test statistic nan; its limit is 0.
---
 templatefitter/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..fa74db2 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import xlogy
 from scipy.stats import chi2
 from scipy.integrate import quad
 
@@ -91,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
     pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 5d71853f94a36109e71fca4ace2579f7b32640fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 18/37] fix: p-values of the goodness of fit tests for many
 degrees of freedom

The numerical integration missed the peak of the chi2 distribution, e.g. the
p-value of chi2=0 for 200 degrees of freedom was 1e-14 instead of 1.
---
 templatefitter/stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index fa74db2..a4352a7 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.special import xlogy
 from scipy.stats import chi2
-from scipy.integrate import quad
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -12,7 +11,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -53,7 +52,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -93,5 +92,5 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
         p-value.
     """
     chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From b634e8406c9ae74f9415fe39f1748980407fa3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 19/37] fix: Hist2d accepts empty datasets as Hist1d does

---
 templatefitter/histograms/hist2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index b77928e..a27ba07 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -44,7 +44,12 @@ class Hist2d(AbstractHist):
         weights = np.asarray(weights, dtype=float)
 
         bin_counts = binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         bin_errors_sq = binned_statistic_2d(
@@ -53,6 +58,7 @@ class Hist2d(AbstractHist):
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         self._bin_counts += bin_counts
-- 
2.43.0


From de81d77edf01efb122793c4cdff307ac3174aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 20/37] fix: MultiChannelTemplate.add_data adds the data of all
 channels or of none

If one of several datasets was rejected, the ones before it had already
replaced the data of their channels.
---
 templatefitter/templates/channel.py                | 11 ++++++++---
 templatefitter/templates/multi_channel_template.py |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..bee7b94 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -139,9 +139,14 @@ class Channel:
             AbstractHist).
         """
 
-        if self._check_hist(hdata):
-            self._hdata = hdata
-        else:
+        self.check_data(hdata)
+        self._hdata = hdata
+
+    def check_data(self, hdata):
+        """Raises a RuntimeError if the given binned dataset is not
+        compatible with this channel.
+        """
+        if not self._check_hist(hdata):
             raise RuntimeError(
                 "Given data histogram is not compatible with the Channel."
             )
diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..830b9ab 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -170,7 +170,9 @@ class MultiChannelTemplate:
         for channel, hdata in kwargs.items():
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
+            self.channels[channel].check_data(hdata)
 
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From 34ee0da68163602c56bbc4bc8a69e03989bfd209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 21/37] fix: post fit uncertainties use the parameters of the
 channel

The parameters of a fit result were taken to be those of a single channel
whose templates were added in the order of the processes: the result was wrong
for another order, and the calculation failed for several channels.
---
 templatefitter/templates/channel.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index bee7b94..bf44333 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -190,11 +190,26 @@ class Channel:
             yields, nui_params = self.split_parameter_array(param_values)
             return self._expected_evts_per_bin(yields, nui_params)
 
-        jac = nd.Jacobian(exp_bin_counts)(result_params.values)
-        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
+        indices = self._result_param_indices(result_params)
+        covariance = np.asarray(result_params.covariance)[np.ix_(indices, indices)]
+
+        jac = nd.Jacobian(exp_bin_counts)(np.asarray(result_params.values)[indices])
+        bin_by_bin_cov = jac @ covariance @ np.transpose(jac)
 
         return bin_by_bin_cov
 
+    def _result_param_indices(self, result_params: Parameters) -> list:
+        """Returns the indices of the parameters of this channel in the
+        fit result: the yields and nuisance parameters in the order of the
+        templates in this channel.
+        """
+        names = [f"{process}_yield" for process in self.processes]
+        for process, template in self.templates.items():
+            names.extend(
+                f"{self.name}_{process}_bin_{i}" for i in range(template.num_bins)
+            )
+        return [result_params.param_id_to_index(name) for name in names]
+
     def get_post_fit_bin_uncertainty(self, result_params: Parameters) -> np.ndarray:
         """Returns the post fit bin uncertainties from the
         post fit bin by bin covariance matrix.
@@ -317,7 +332,8 @@ class Channel:
             post_fit_errors = np.sqrt(np.diag(post_fit_cov))
         elif post_fit_uncertainties == "scale":
             n_templates = len(self.templates)
-            nui_param_errors = result_params.errors[n_templates:].reshape((n_templates,-1))
+            indices = self._result_param_indices(result_params)[n_templates:]
+            nui_param_errors = np.asarray(result_params.errors)[indices].reshape((n_templates,-1))
             pre_fit_errors = np.vstack([template.errors for template in self.templates.values()])
             post_fit_errors = np.sqrt(np.sum((nui_param_errors*pre_fit_errors)**2, axis=0))
 
-- 
2.43.0


From 58aac8476aa5dc5a7c94dc7f0ae8ced17e5b11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 22/37] fix: plots of templates without color and of 2d
 templates

Stacked plots failed for templates without a color, which is the default, and
the 2d plot used a function that matplotlib removed in version 3.9.
---
 templatefitter/templates/channel.py    | 4 ++++
 templatefitter/templates/template2d.py | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index bf44333..b4794f1 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -237,6 +237,8 @@ class Channel:
         bin_width = next(iter(self.templates.values())).bin_widths
 
         colors = [template.color for template in self.templates.values()]
+        if any(color is None for color in colors):
+            colors = None
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -307,6 +309,8 @@ class Channel:
         bin_width = next(iter(self.templates.values())).bin_widths
 
         colors = [template.color for template in self.templates.values()]
+        if any(color is None for color in colors):
+            colors = None
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 742f76f..ed71586 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -3,7 +3,6 @@ from functools import reduce
 from itertools import product
 
 import matplotlib.pyplot as plt
-from matplotlib import cm
 from matplotlib.colors import ListedColormap, LinearSegmentedColormap
 import numpy as np
 
@@ -67,7 +66,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From f46471908f7972c79ca3b008bfe13ed1139ff178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 23/37] fix: legacy Template.corr_mat and Template.plot_on

The former recursed without end, the latter raised TypeError.
---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 0e9e51ff4a9b986f959c984c90c5e52a15dbe2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 24/37] fix: StackedTemplateNegLogLikelihood handles empty data
 bins

They contributed -inf instead of the expected number of events.
---
 templatefitter/nll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..282239d 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -162,4 +162,4 @@ def xlogyx(x, y):
     The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
     """
     result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
+    return np.where(x < 1e-100, 0.0, np.nan_to_num(result, nan=np.inf))
-- 
2.43.0


From 833a11a9080f6480d65dcd7de68a02a83e721156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 25/37] fix: post-fit uncertainties of channels with a single
 bin

---
 templatefitter/templates/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index b4794f1..c7c2fe4 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -188,7 +188,8 @@ class Channel:
         # create helper function to calculate bin counts purely via paramters
         def exp_bin_counts(param_values):
             yields, nui_params = self.split_parameter_array(param_values)
-            return self._expected_evts_per_bin(yields, nui_params)
+            # numdifftools cannot differentiate arrays with a single element
+            return np.squeeze(self._expected_evts_per_bin(yields, nui_params))
 
         indices = self._result_param_indices(result_params)
         covariance = np.asarray(result_params.covariance)[np.ix_(indices, indices)]
-- 
2.43.0


From 00a6152be6629222f1a407fcd70b4afdaf26a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 26/37] fix: use positive initial step sizes in
 IMinuitMinimizer

Parameters starting at zero (as all nuisance parameters do) got an initial
step of zero, with which Migrad could stop far from the minimum and report
success.
---
 templatefitter/minimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 5dfcdd4..fda54b6 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -279,10 +279,15 @@ class IMinuitMinimizer(AbstractMinimizer):
 
     def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
 
+        # the initial step sizes must be positive, also for parameters which
+        # start at zero or at a negative value
+        initial_steps = 0.05 * np.abs(initial_params)
+        initial_steps[initial_steps == 0.0] = 0.05
+
         m = Minuit.from_array_func(
             self._fcn,
             initial_params,
-            error=0.05 * initial_params,
+            error=initial_steps,
             errordef=errordef,
             fix=self._fixed_params,
             name=self.params.names,
-- 
2.43.0


From d5867175d671501d195b23685f7699cb2cedc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 27/37] fix: full covariance from IMinuitMinimizer when
 parameters are fixed

Covariance and correlation only had rows for the free parameters, so that
indices of parameters addressed the wrong elements (or none), and the
uncertainty of fixed parameters was the initial step size.
---
 templatefitter/minimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index fda54b6..8e0163f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -301,9 +301,10 @@ class IMinuitMinimizer(AbstractMinimizer):
 
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
-        self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        # fixed parameters have no uncertainty, their rows and columns are zero
+        self._params.errors = np.where(self._fixed_params, 0.0, m.np_errors())
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 8b1ea8859319dc48b4c4211a52444464356dbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 28/37] fix: run Hesse after Migrad in IMinuitMinimizer

If the start values are close to the minimum, Migrad needs only a few steps
and its estimate of the covariance can be wrong by a large factor. The
covariance is documented as the inverse of the Hesse matrix.
---
 templatefitter/minimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 8e0163f..5c0ad7f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -277,7 +277,9 @@ class IMinuitMinimizer(AbstractMinimizer):
         super().__init__(fcn, param_names)
         self._fixed_params = [False for _ in self.params.names]
 
-    def minimize(self, initial_params, verbose=1, errordef=0.5, **kwargs):
+    def minimize(
+        self, initial_params, verbose=1, errordef=0.5, get_hesse=True, **kwargs
+    ):
 
         # the initial step sizes must be positive, also for parameters which
         # start at zero or at a negative value
@@ -299,6 +301,11 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
         fmin, _ = m.migrad(ncall=20000)
 
+        if get_hesse and fmin["is_valid"] and not all(self._fixed_params):
+            # the covariance known to Migrad can be far off if it needed
+            # only a few steps to reach the minimum
+            m.hesse()
+
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         # fixed parameters have no uncertainty, their rows and columns are zero
-- 
2.43.0


From 74ab4c5b32bd78f0acf3f3fa1c4db5fbae303f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 29/37] fix: toy datasets of channels and templates with a
 single bin

---
 templatefitter/templates/channel.py | 2 ++
 templatefitter/templates_legacy.py  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index c7c2fe4..337a61a 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -404,6 +404,8 @@ class Channel:
             [template.values for template in self.templates.values()]
         )
         toy_bin_counts = poisson.rvs(template_bin_counts)
+        # rvs returns a scalar for a single bin
+        toy_bin_counts = np.reshape(toy_bin_counts, np.shape(template_bin_counts))
 
         return self._htype.from_binned_data(
             toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..83a537f 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -307,6 +307,8 @@ class Template(AbstractTemplate):
         toy_dataset : Hist1d
         """
         toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        # rvs returns a scalar for a single bin
+        toy_bin_counts = np.reshape(toy_bin_counts, self.num_bins)
         return Hist1d.from_binned_data(self._hist.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
@@ -590,6 +592,8 @@ class StackedTemplate(AbstractTemplate):
         toy_dataset : Hist1d
         """
         toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        # rvs returns a scalar for a single bin
+        toy_bin_counts = np.reshape(toy_bin_counts, self.num_bins)
         return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
-- 
2.43.0


From 66e3a9355e5a6b8993ae0bebefd66ec22375459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 30/37] fix: infinite NLL where data are observed but less than
 nothing is expected

---
 templatefitter/templates/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 337a61a..5e84dc3 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -394,6 +394,11 @@ class Channel:
         """
         data = self._hdata.bin_counts.flatten()
         exp_evts_per_bin = self._expected_evts_per_bin(process_yields, nui_params)
+        # observed events are impossible where less than nothing is expected;
+        # the logarithm is not a number there, which stops the minimizers
+        if np.any((data > 0) & (exp_evts_per_bin < 0)):
+            return np.inf
+
         poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))
         gauss_term = self._gauss_term(nui_params)
 
-- 
2.43.0


From 6dbf5b2177461c8ac0ed4cbf9582f3f76e8338c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 31/37] fix: Migrad steps of parameters which start next to
 zero

---
 templatefitter/minimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 5c0ad7f..132183b 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -282,9 +282,10 @@ class IMinuitMinimizer(AbstractMinimizer):
     ):
 
         # the initial step sizes must be positive, also for parameters which
-        # start at zero or at a negative value
+        # start at zero (or within rounding errors of it, where a bound may
+        # be) or at a negative value
         initial_steps = 0.05 * np.abs(initial_params)
-        initial_steps[initial_steps == 0.0] = 0.05
+        initial_steps[initial_steps < 1e-14] = 0.05
 
         m = Minuit.from_array_func(
             self._fcn,
-- 
2.43.0


From 25552fd5d5ef8bee75f26a9819e7cce73d29b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:23 +0000
Subject: [PATCH 32/37] fix: legacy histograms own their contents and edges and
 take any weights

Squares of small integer weights overflowed, fills with a tuple of weights
failed halfway, and histograms made from bin contents shared (or could not
add to) the arrays of the caller.
---
 templatefitter/histogram_legacy.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..04b2168 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -53,11 +53,10 @@ class Histogram:
         """
         if isinstance(data, list):
             data = np.array(data)
-        if weights is not None and isinstance(weights, list):
-            weights = np.array(weights)
 
         if weights is None:
             weights = np.ones_like(data)
+        weights = np.asarray(weights, dtype=float)
 
         if len(data) != len(weights):
             raise ValueError(
@@ -246,7 +245,7 @@ class Hist1d(AbstractHist):
             self._limits = limits
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._limits = (np.amin(self._bin_edges), np.amax(self._bin_edges))
 
         self._bin_counts = np.zeros(self._num_bins)
@@ -273,12 +272,12 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
-            bin_errors = np.sqrt(bin_counts)
+            bin_errors = np.sqrt(instance._bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
 
         return instance
 
@@ -295,8 +294,7 @@ class Hist1d(AbstractHist):
         """
         if weights is None:
             weights = np.ones_like(data)
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic(
             data,
@@ -330,7 +328,7 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = [len(edges) - 1 for edges in bins]
-            self._bin_edges = bins
+            self._bin_edges = [np.array(edges) for edges in bins]
             self._limits = [np.array([np.amin(edges), np.amax(edges)]) for edges in bins]
 
         self._bin_counts = np.zeros(self._num_bins)
@@ -342,8 +340,7 @@ class Hist2d(AbstractHist):
     def fill(self, data, weights=None):
         if weights is None:
             weights = np.ones(len(data[:, 0]))
-        if isinstance(weights, list):
-            weights = np.array(weights)
+        weights = np.asarray(weights, dtype=float)
 
         self._bin_counts += scipy.stats.binned_statistic_2d(
             x=data[:, 0],
-- 
2.43.0


From caaaac9216f2ae85fa89aaf402ebbce09bafad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:23 +0000
Subject: [PATCH 33/37] fix: legacy templates do not share nuisance parameters
 with the caller

---
 templatefitter/templates_legacy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 83a537f..016c317 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -355,7 +355,7 @@ class Template(AbstractTemplate):
 
     @nui_param_values.setter
     def nui_param_values(self, new_values):
-        self._param_nui.value = new_values
+        self._param_nui.value = np.array(new_values, dtype=float)
 
     @property
     def nui_params_errors(self):
@@ -365,7 +365,7 @@ class Template(AbstractTemplate):
 
     @nui_params_errors.setter
     def nui_params_errors(self, new_errors):
-        self._param_nui.error = new_errors
+        self._param_nui.error = np.array(new_errors, dtype=float)
 
     @property
     def cov_mat(self):
-- 
2.43.0


From 2c085249a3a6b8bec0c57e2f993a9d91e51f3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 34/37] fix: reject parameter vectors of the wrong length
 before anything is used

---
 templatefitter/templates/channel.py                | 4 ++++
 templatefitter/templates/multi_channel_template.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 5e84dc3..6e444af 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -158,6 +158,10 @@ class Channel:
         return [outer_process_list.index(process) for process in self.processes]
 
     def update_parameters(self, yields, nui_params):
+        if len(yields) != self.num_templates or len(nui_params) != self.num_nui_params:
+            raise RuntimeError(
+                "Number of new parameter values not compatible to this channel."
+            )
         for template, eff, new_yield, new_nui_params in zip(
             self.templates.values(),
             self.efficiencies.values(),
diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 830b9ab..d8664f5 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -240,6 +240,11 @@ class MultiChannelTemplate:
         -------
 
         """
+        if len(x) != self.num_processes + self.num_nui_params:
+            raise RuntimeError(
+                f"Expected {self.num_processes} yields and {self.num_nui_params} "
+                f"nuissance parameters, but {len(x)} values were given."
+            )
         yields = x[: self.num_processes]
         nui_params = x[self.num_processes : self.num_nui_params + self.num_processes]
 
-- 
2.43.0


From 08643e6cd594328a96d912cd062d02116caef68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 35/37] fix: legacy stack NLL uses the present correlations and
 is infinite where data meet a negative expectation

---
 templatefitter/nll.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index 282239d..5ca0646 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -108,11 +108,6 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
         the templates to the measured data set.
     """
 
-    def __init__(self, binned_dataset, templates):
-        super().__init__(binned_dataset, templates)
-        self._block_diag_inv_corr_mats = block_diag(
-            *self._templates.inv_corr_mats)
-
     @property
     def x0(self):
         initial_yields = self._templates.yield_param_values
@@ -148,12 +143,16 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
 
         exp_evts_per_bin = poi @ self._templates.fractions(nuiss_params)
 
+        if np.any((self._d > 0) & (exp_evts_per_bin < 0)):
+            # events cannot be observed where none can occur
+            return np.inf
+
         # this poisson term is taken from Blobel
         poisson_term = np.sum(exp_evts_per_bin - self._d -
                               xlogyx(self._d, exp_evts_per_bin))
 
         gauss_term = 0.5 * (
-            nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
+            nuiss_params @ block_diag(*self._templates.inv_corr_mats) @ nuiss_params)
 
         return poisson_term + gauss_term
 
-- 
2.43.0


From 9ad221d4227012edd4fa384c059d2ea93a4ad5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 36/37] fix: legacy stacks reject parameters of the wrong
 length before anything is written

---
 templatefitter/templates_legacy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 016c317..6e6786c 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -630,6 +630,11 @@ class StackedTemplate(AbstractTemplate):
             New yield and nuissance parameter errors. Shape is
             (`num_templates` + `num_templates`*`num_bins`,).
         """
+        num_params = self.num_templates * (1 + self.num_bins)
+        if len(new_parameters) != num_params or len(new_errors) != num_params:
+            raise ValueError(
+                "Number of new parameters not compatible with this collection.")
+
         yields = new_parameters[:self.num_templates]
         nuiss_params = new_parameters[self.num_templates:]
         yield_errors = new_errors[:self.num_templates]
-- 
2.43.0


From 6eb6741eb241531b77af3408dc848cac107e93e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 37/37] fix: legacy templates without content expect nothing
 instead of NaN

---
 templatefitter/templates_legacy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 6e6786c..a0f93b5 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -251,7 +251,11 @@ class Template(AbstractTemplate):
         """
         per_bin_yields = self._hist.bin_counts * (
             1 + nui_params * self._relative_errors)
-        return per_bin_yields / np.sum(per_bin_yields)
+        total_yield = np.sum(per_bin_yields)
+        if total_yield == 0.0:
+            # a template without content expects nothing
+            return np.zeros_like(per_bin_yields)
+        return per_bin_yields / total_yield
 
     def plot_on(self, ax, **kwargs):
         ax.hist(
-- 
2.43.0

