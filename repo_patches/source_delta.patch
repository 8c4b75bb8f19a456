From 4a82ac2640828da5eda90a89de05286231afabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 01/25] fix: bind the parameter index of each scipy equality
 constraint

The constraint functions closed over the loop variable, so every constraint
referred to the last fixed parameter: fixing two or more parameters failed
with a singular constraint matrix or left all but the last one free.
---
 templatefitter/minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..c0c0e6c 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -439,7 +439,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From 97f64c50f9959836b373dcca6d1a7a02b72be75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/25] fix: fixing the same parameter twice with the scipy
 minimizer is idempotent

A duplicated equality constraint made the constraint matrix singular and the
minimization fail.
---
 templatefitter/minimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index c0c0e6c..4e1d65f 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -409,7 +409,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
-- 
2.43.0


From dc6dce44c0a06e024e82609bbc0285b948b8bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 03/25] fix: histogram 1d systematic variations in the
 template's own bin edges

Templates built from explicit, non-equidistant bin edges were compared to
variations filled into equidistant bins.
---
 templatefitter/templates/template1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
-- 
2.43.0


From 28d14046cbe8d5602d10a022f6199dc97d443cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 04/25] fix: Template2d.add_variation adds the covariance
 matrix of the variation

It passed two histograms to _add_cov_mat, which takes one matrix, and always
raised a TypeError.
---
 templatefitter/templates/template2d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..af82086 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -51,13 +52,16 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
 
-        self._add_cov_mat(hup, hdown)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From 94f444c1218f6d2ed2d49e448528f8a8546f3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/25] fix: bin fractions of an empty template are zero
 instead of nan

One empty template turned the expectation of every bin of its channel and the
likelihood into nan (see test_empty_template).
---
 templatefitter/templates/abstract_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..993dd94 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,7 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
-    return per_bin_yields / np.sum(per_bin_yields)
+    total = np.sum(per_bin_yields)
+    if total == 0.:
+        return np.zeros_like(per_bin_yields)
+    return per_bin_yields / total
-- 
2.43.0


From 7f417b6f256f6a9feabe4c85da1ca78a0fda5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 06/25] fix: the template params setter stores its own float
 array

It kept a reference to the given array: later changes of the yield wrote
through to the caller's array, and an integer array truncated them.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 993dd94..9c76319 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From 0e898215213015814762a552aaad8f1894e1865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 07/25] fix: do not cache per-channel arrays across changes of
 the channel

The cached efficiencies, process indices and inverse correlation matrices were
never invalidated: adding a template or a systematic variation after the first
likelihood evaluation silently kept using the old ones.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From d409dcbb5b240815ebf91a5bdc36f199f72517c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 08/25] fix: redefining a yield constraint replaces it instead
 of counting it twice

---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From ade2d8bf90eed700f6eef1da35de29e070c567ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 09/25] fix: TemplateFitter.fix_nui_params() takes effect

The flag it sets was never read, so the fits kept the nuisance parameters free.
---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..c29f2c0 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -327,7 +327,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +352,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From 34aca285802773eaba9de58dd589f80af1bea263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 10/25] fix: the profile scan keeps fixed parameters fixed and
 applies bounds

The nominal minimization ignored set_parameter_fixed and set_parameter_bounds,
and every scan point released the nuisance parameters fixed by fix_nui_params,
so the profile was compared to the minimum of a different fit.
---
 templatefitter/fitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c29f2c0..f2a895d 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,11 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+        for param_id in self._fixed_parameters:
+            minimizer.set_param_fixed(param_id)
+
+        for param_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(param_id, bounds)
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,8 +275,8 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
+        initial_values = np.array(initial_values)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
 
-- 
2.43.0


From ff0304f5076381db0ebc7fcf1d6e4e7ff632fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 11/25] fix: get_significance does not change the templates

It set the yield of the tested process to zero in the templates and left it
there, so plots and fits done afterwards lacked the signal.
---
 templatefitter/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index f2a895d..91644db 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -351,7 +351,8 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
+        initial_values = self._nll.x0
+        initial_values[self._nll.param_names.index(f"{process_id}_yield")] = 0
 
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
@@ -371,7 +372,7 @@ class TemplateFitter:
 
         minimizer.set_param_fixed(process_id + "_yield")
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From b190b03a5512de999f589800945abbab5c317c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 12/25] fix: the binned likelihood GOF test handles bins
 without data

0*log(0) made the test statistic and the p-value nan.
---
 templatefitter/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..8881e47 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.stats import chi2
 from scipy.integrate import quad
+from scipy.special import xlogy
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
@@ -91,6 +92,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
     pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From b32ad1197cbc023377f1f7ca7dbe5e5ae36f7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 13/25] fix: empty data bins do not contribute -inf to the
 stacked template likelihood

---
 templatefitter/nll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..a953e24 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -162,4 +162,4 @@ def xlogyx(x, y):
     The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
     """
     result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
+    return np.where(x == 0, 0., np.nan_to_num(result, nan=np.inf))
-- 
2.43.0


From ab5e34c5a7021893b2a9fe5a7bcd99e93c37df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 14/25] fix: Template.corr_mat returns the correlation matrix

It called itself without end.
---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..dcd45f0 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 2fc0d05ba9b1c416f95eebb334ab788f7c043186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 15/25] fix: Template.plot_on draws the error band around the
 values

---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index dcd45f0..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
-- 
2.43.0


From c74b8cd641dfb71ed359d8f01747dfad8a08753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 16/25] fix: weights are optional in Hist1d.fill, as documented

---
 templatefitter/histograms/hist1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..2b833ae 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = bins
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
-- 
2.43.0


From 5cf73cfd5c50545292e8f944d68c3e03e91aa879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 17/25] fix: histograms made from binned data own their bin
 counts

They kept a reference to the given array: filling the histogram changed the
caller's array, and failed for integer counts.
---
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 2b833ae..00aa379 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -90,7 +90,7 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..b877d86 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -75,7 +75,7 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
-- 
2.43.0


From 47ed24cdb4442f44b71122ff80ca03e1f574b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 18/25] fix: corr2cov scales with the square root of the
 variance vector

The argument is documented as the variances, but was used as the standard
deviations, so the result did not have the variances on its diagonal.
---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From 4d976b8b61479d060dd9facb25e608c4cafea558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 19/25] fix: Template2d.plot_on does not use the removed
 matplotlib.cm.get_cmap

It raised an AttributeError with current matplotlib versions.
---
 templatefitter/templates/template2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index af82086..35f6be0 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -3,7 +3,6 @@ from functools import reduce
 from itertools import product
 
 import matplotlib.pyplot as plt
-from matplotlib import cm
 from matplotlib.colors import ListedColormap, LinearSegmentedColormap
 import numpy as np
 
@@ -72,7 +71,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From d5a1761c453d4992736e4851556552b01bdf292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 20/25] fix: filling a 2d histogram with an empty data set

---
 templatefitter/histograms/hist2d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index b877d86..e4cffc5 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -45,7 +45,12 @@ class Hist2d(AbstractHist):
             weights = np.array(weights)
 
         self._bin_counts += binned_statistic_2d(
-            x=data[0], y=data[1], values=weights, statistic="sum", bins=self._bin_edges
+            x=data[0],
+            y=data[1],
+            values=weights,
+            statistic="sum",
+            bins=self._bin_edges,
+            range=self._range,
         )[0]
 
         self._bin_errors_sq += binned_statistic_2d(
@@ -54,6 +59,7 @@ class Hist2d(AbstractHist):
             values=weights ** 2,
             statistic="sum",
             bins=self._bin_edges,
+            range=self._range,
         )[0]
         self._is_empty = False
 
-- 
2.43.0


From eec9c5ef7204b67c2ee322be4df00b4e8b1413ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 21/25] fix: toy data sets of single-bin channels keep the
 shape of the channel

---
 templatefitter/templates/channel.py | 4 +++-
 templatefitter/templates_legacy.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..853b43d 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -377,7 +377,9 @@ class Channel:
         template_bin_counts = sum(
             [template.values for template in self.templates.values()]
         )
-        toy_bin_counts = poisson.rvs(template_bin_counts)
+        toy_bin_counts = poisson.rvs(
+            template_bin_counts, size=np.shape(template_bin_counts)
+        )
 
         return self._htype.from_binned_data(
             toy_bin_counts, self.bin_edges, np.sqrt(toy_bin_counts)
diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index c32ef8e..ef4c7ca 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -306,7 +306,7 @@ class Template(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self._hist.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
@@ -589,7 +589,7 @@ class StackedTemplate(AbstractTemplate):
         -------
         toy_dataset : Hist1d
         """
-        toy_bin_counts = scipy.stats.poisson.rvs(self.values())
+        toy_bin_counts = scipy.stats.poisson.rvs(self.values(), size=self.num_bins)
         return Hist1d.from_binned_data(self.bin_edges, toy_bin_counts)
 
     def reset_parameters(self):
-- 
2.43.0


From 44d336b40be8dc250a1f6b1610d450fd3f9d3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 22/25] fix: post-fit uncertainties of single-bin channels

---
 templatefitter/templates/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 853b43d..f9dad14 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -183,7 +183,8 @@ class Channel:
         # create helper function to calculate bin counts purely via paramters
         def exp_bin_counts(param_values):
             yields, nui_params = self.split_parameter_array(param_values)
-            return self._expected_evts_per_bin(yields, nui_params)
+            # numdifftools does not accept arrays with one element
+            return np.squeeze(self._expected_evts_per_bin(yields, nui_params))
 
         jac = nd.Jacobian(exp_bin_counts)(result_params.values)
         bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)
-- 
2.43.0


From 8ab9b0086bccbe53de6be0d3138262878ece43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 23/25] fix: covariance of the iminuit minimizer covers all
 parameters

---
 templatefitter/minimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 4e1d65f..f2a0f95 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -297,8 +297,10 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(
+            correlation=True, skip_fixed=False
+        )
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 11e5a4ebdf434dbe5f8aae2f0f8ee8a3c453c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 24/25] fix: the profile scan keeps to the requested parameter

The loops over the standing constraints reused the name of the argument.
---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 91644db..26be61d 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,11 +217,11 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
-        for param_id in self._fixed_parameters:
-            minimizer.set_param_fixed(param_id)
+        for fixed_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_id)
 
-        for param_id, bounds in self._bound_parameters.items():
-            minimizer.set_param_bounds(param_id, bounds)
+        for bound_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_id, bounds)
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
-- 
2.43.0


From a87f95a0156ecdcabcf9931af196a744a84b40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 25/25] fix: p-values of the GOF tests for many degrees of
 freedom

The numerical integration of the chi2 density misses its peak for 200 and
more degrees of freedom, so that the p-value of a perfect fit was zero.
---
 templatefitter/stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index 8881e47..42ed8e6 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -1,6 +1,5 @@
 import numpy as np
 from scipy.stats import chi2
-from scipy.integrate import quad
 from scipy.special import xlogy
 
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
@@ -12,7 +11,7 @@ __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 def default_chi2_test(data, expectation, uncertainty, dof):
     chi_sq = np.sum((data - expectation) ** 2 / uncertainty ** 2)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -53,7 +52,7 @@ def pearson_chi2_test(data, expectation, dof):
         p-value.
     """
     chi_sq = np.sum((data - expectation) ** 2 / expectation)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
 
 
@@ -93,5 +92,5 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
         p-value.
     """
     chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)
-    pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
+    pval = chi2.sf(chi_sq, dof)
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0

