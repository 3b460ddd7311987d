From ed4c3db7aa5657aba50dd8ac8dfe0c632be3f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 01/31] fix: allow a spectral index of +1 in powerlaw

The normalisation is only singular for alpha=-1, which is handled
explicitly, but alpha=+1 was rejected with a ValueError.
---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..d535a02 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From 2ee077e60db2833cf31019b3690c6a1df071e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 02/31] fix: powerlaw is zero rather than nan outside of its
 support

Multiplying by a mask turns non-finite values (e.g., x=0 with a negative
index, negative x, or an empty range) into nan.
---
 gwpopulation/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index d535a02..bf9408c 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -126,8 +126,7 @@ def powerlaw(xx, alpha, high, low):
     )
     prob = xp.power(xx, alpha)
     prob *= norm
-    prob *= (xx <= high) & (xx >= low)
-    return prob
+    return xp.where((xx <= high) & (xx >= low), prob, 0.0)
 
 
 @apply_conditions(dict(sigma=(gt, 0)))
-- 
2.43.0


From 4e78f36aec0d3eebd7ae4f96ab8cc74904895a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 03/31] fix: beta_dist at the edges of its support when alpha
 or beta is one

0 * log(0) is nan and was replaced by zero, so, e.g., the uniform
distribution vanished at both ends of its support.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index bf9408c..5cab121 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From 97a74b8bbe6e7dea0e548049af252f059fe8656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 04/31] fix: determinant of the covariance matrix in the 2d
 gaussian

The determinant of the documented covariance matrix is
sigma_x^2 sigma_y^2 (1 - rho^2).
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 5cab121..18a0e88 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -216,7 +216,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From 80cf2b05c712de033da214e536cf0b85f3decee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 05/31] fix: do not modify arrays passed to
 mu_var_max_to_alpha_beta_max

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From bf5adc83c0c4555484b6a5495580ca297f525381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 06/31] fix: GridVT no longer removes vt from the dictionary it
 is given

---
 gwpopulation/vt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..2b72a12 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,6 +85,7 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
+        data = dict(data)
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-- 
2.43.0


From 244971b0eb3672be2392fb4459433a579bb3b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 07/31] fix: GridVT with grid dimensions of equal length

The axes were identified by their length, so that two axes with the same
length were merged and only one of them was integrated over.
---
 gwpopulation/vt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 2b72a12..73af00d 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -89,11 +89,15 @@ class GridVT(_BaseVT):
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-        shape = np.array(list(self.data.values())[0].shape)
-        lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = {self._varying_axis(self.data[key]): key for key in self.data}
         self.ndim = len(self.axes)
 
+    @staticmethod
+    def _varying_axis(grid):
+        """The axis of a coordinate grid along which the coordinate changes"""
+        varies = [bool(xp.any(xp.diff(grid, axis=ii) != 0)) for ii in range(grid.ndim)]
+        return int(np.argmax(varies))
+
     def __call__(self, parameters):
         vt_fac = self.model.prob(self.data, **parameters) * self.vts
         for ii in range(self.ndim):
-- 
2.43.0


From 2693d4721f53a92024d56388034106c9f58af253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 08/31] fix: marginalized vt_factor when the variance estimate
 vanishes

If no injection has support, mu=var=0 and the calculation raised a
ZeroDivisionError rather than returning infinity.
---
 gwpopulation/vt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 73af00d..dfc9aa9 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -232,8 +232,8 @@ class ResamplingVT(_BaseVT):
         """
         mu, var = self.detection_efficiency(parameters)
         _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
-        vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
+        exponent = (3 + self.n_events) / 2 * xp.divide(var, mu**2)
+        vt_factor = mu / xp.exp(xp.nan_to_num(exponent))
         vt_factor += correction
         return vt_factor
 
-- 
2.43.0


From 9123209c919696377a782e8cda08fd901c432403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 09/31] fix: rate posterior for selection functions that return
 an uncertainty

The (selection, variance) tuple was used directly as the volume.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..fcb5166 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -307,7 +307,7 @@ class HyperparameterLikelihood(Likelihood):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From 1199541aa31dc1f9b5cb759e5ac5c403ac9349ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 10/31] fix: compare like with like when applying
 maximum_uncertainty

The maximum uncertainty (standard deviation) was compared with the
variance rather than its square.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index fcb5166..5e4c5ae 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From c9bf459849c3df53f6d232cf79412e89d0527f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 11/31] fix: always reject points where the log likelihood
 estimate is not finite

A vanishing selection function gave the largest possible likelihood, or
zero if the point was also rejected by the maximum uncertainty.
---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 5e4c5ae..111763e 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -179,8 +179,8 @@ class HyperparameterLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
-        ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
+        reject = ~xp.isfinite(ln_l) | (self._max_variance < variance)
+        ln_l = xp.where(reject, -xp.inf, ln_l)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From 47201356efa361587537b67e1b564e7e1ffd615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 12/31] fix: RateLikelihood with a vanishing selection function

Python floats raised a ZeroDivisionError.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 111763e..b8af7ba 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = n_expected * xp.divide(variance, selection**2)
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 914e9aabf56aa5fd05ec175bed46881784bcd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 13/31] fix: variance reported by generate_extra_statistics

Use the same selection contribution as the likelihood, this differs for
RateLikelihood, and do not modify the value returned by the selection
function in place.
---
 gwpopulation/hyperpe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index b8af7ba..ca38a98 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,10 +266,9 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
-        selection_variance = variance * self.n_posteriors**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
-        sample["selection_variance"] = variance
+        sample["selection_variance"] = xp.divide(variance, selection**2)
         total_variance += selection_variance
         sample["variance"] = to_number(total_variance, float)
         return sample
-- 
2.43.0


From 6c9f9d1900df6411e9882a1c4536697a6a3d73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 14/31] fix: frame conversion should not depend on the order of
 the keys

A KeyError was raised if a detector frame quantity came before redshift.
---
 gwpopulation/experimental/cosmo_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..8eb08c9 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -105,6 +105,7 @@ class CosmoMixin:
                 "Either luminosity_distance or redshift must be provided in data for detector frame to source frame samples conversion"
             )
         else:
+            samples["redshift"] = data["redshift"]
             jacobian = xp.ones(data["redshift"].shape)
 
         for key in list(data.keys()):
-- 
2.43.0


From 5a4a82b527b21323e97a21899dce1d40c56f8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 15/31] fix: keep the spline configuration when inferring the
 number of nodes

The range, interpolation order, and regularization were reset to the
defaults, and models without defaults raised a TypeError.
---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From 9decffee6e26d8a6780e5b4d1b090c39d3446cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 16/31] fix: normalization of InterpolatedPowerlaw for a
 limited node range

The distribution vanishes outside the spline nodes, but the normalization
included the extrapolated spline.
---
 gwpopulation/models/mass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..cb61ca2 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -936,10 +936,12 @@ class InterpolatedPowerlaw(
         )
         p_m *= self.p_x_unnormed(dataset, "mass_1", m_splines, f_splines, **kwargs)
 
-        norm = self.norm_p_m1(delta_m=delta_m, f_splines=f_splines, **kwargs)
+        norm = self.norm_p_m1(
+            delta_m=delta_m, f_splines=f_splines, x_splines=m_splines, **kwargs
+        )
         return p_m / norm
 
-    def norm_p_m1(self, delta_m, f_splines=None, **kwargs):
+    def norm_p_m1(self, delta_m, f_splines=None, x_splines=None, **kwargs):
         mmin = kwargs.get("mmin", self.mmin)
         p_m = self.__class__.primary_model(
             self.m1s, **{key: kwargs[key] for key in ["alpha", "mmin", "mmax"]}
@@ -948,5 +950,7 @@ class InterpolatedPowerlaw(
             delta_m > 0
         )
         p_m *= xp.exp(self._norm_spline(y=f_splines))
+        if x_splines is not None:
+            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From de13bdef944bd98d327d0d64defb0706c712a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 17/31] fix: do not modify variable_names of the primary mass
 model

---
 gwpopulation/models/mass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index cb61ca2..5b7f7b6 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,8 +551,8 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
-        vars = set(vars).difference(self.kwargs.keys())
+        vars = set(vars).union(["beta", "delta_m"])
+        vars = vars.difference(self.kwargs.keys())
         return vars
 
     @property
-- 
2.43.0


From 011aff9bc95404b6b099c7122a3e73a80dd17178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 18/31] fix: log_likelihood and noise_log_likelihood of
 JittedLikelihood

These are defined in the base class and so were never delegated to the
wrapped likelihood, but always nan.
---
 gwpopulation/experimental/jax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..3f1d6ec 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -64,3 +64,9 @@ class JittedLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+
+    def noise_log_likelihood(self):
+        return self._likelihood.noise_log_likelihood()
+
+    def log_likelihood(self, parameters):
+        return self.noise_log_likelihood() + self.log_likelihood_ratio(parameters)
-- 
2.43.0


From 251329a85571edb9123a6d99231ab5105c61119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 19/31] fix: use the weights of the requested event in
 posterior_predictive_resample

The weights have shape (n_events, n_samples).
---
 gwpopulation/experimental/numpyro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..ea33a29 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,8 +128,8 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
-    weights /= jnp.sum(weights)
+        weights = weights[event]
+    weights = weights / jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
         jax.random.PRNGKey(0),
-- 
2.43.0


From 16099e76bd55a0afe73ea4a5e6c36ebe88868565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 20/31] fix: rate distribution in the numpyro model

The second argument of numpyro's Gamma distribution is the rate (inverse
scale) so that the mean should be n / vt.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ea33a29..263fff9 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From 4f7cb491c5ea7695606fa1b655f8b124853d2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 21/31] fix: do not leave the backend partially updated after
 an error

If anything cannot be imported the active backend is unchanged and the
call can be repeated.
---
 gwpopulation/backend.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..0ea72ad 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -142,15 +142,13 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
-            import_module(module),
-            func.split(".")[-1],
-            _load_arbitrary(func, backend),
-        )
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
+        for module, func in others.items()
+    ]
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From d3e049dbe58b08775ef8c5e6133a4c644f969a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:44 +0000
Subject: [PATCH 22/31] fix: spline models are zero rather than nan far outside
 of the nodes

The extrapolated spline can overflow and inf * 0 is nan.
---
 gwpopulation/models/interped.py | 9 ++++-----
 gwpopulation/models/mass.py     | 6 ++++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..779ff39 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -152,11 +152,10 @@ class InterpolatedNoBaseModelIdentical:
 
         perturbation = self._data_spline[parameter](y=f_splines)
 
-        p_x = xp.exp(perturbation)
-        p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
+        in_bounds = (dataset[f"{parameter}"] >= x_splines[0]) & (
             dataset[f"{parameter}"] <= x_splines[-1]
         )
-        return p_x
+        return xp.exp(xp.where(in_bounds, perturbation, -xp.inf))
 
     def norm_p_x(self, f_splines=None, x_splines=None, **kwargs):
         """
@@ -176,8 +175,8 @@ class InterpolatedNoBaseModelIdentical:
             The normalization of the spline
         """
         perturbation = self._norm_spline(y=f_splines)
-        p_x = xp.exp(perturbation)
-        p_x *= (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        in_bounds = (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        p_x = xp.exp(xp.where(in_bounds, perturbation, -xp.inf))
         norm = trapezoid(p_x, self._xs)
         return norm
 
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 5b7f7b6..68a8eb9 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -949,8 +949,10 @@ class InterpolatedPowerlaw(
         p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m) ** (
             delta_m > 0
         )
-        p_m *= xp.exp(self._norm_spline(y=f_splines))
+        perturbation = self._norm_spline(y=f_splines)
         if x_splines is not None:
-            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            in_bounds = (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            perturbation = xp.where(in_bounds, perturbation, -xp.inf)
+        p_m *= xp.exp(perturbation)
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 2fe769fe1731135ac1e0d06b381622ac70475c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 23/31] fix: do not modify the output of the primary mass model
 in place

A user-defined primary model may return its input, in which case the data
and the normalization grid were overwritten.
---
 gwpopulation/models/mass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 68a8eb9..aeb4a74 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -592,7 +592,7 @@ class BaseSmoothedMassDistribution:
         mmin = kwargs.get("mmin", self.mmin)
         delta_m = kwargs.pop("delta_m", 0)
         p_m = self.__class__.primary_model(dataset["mass_1"], **kwargs)
-        p_m *= self.smoothing(
+        p_m = p_m * self.smoothing(
             dataset["mass_1"], mmin=mmin, mmax=self.mmax, delta_m=delta_m
         )
         norm = self.norm_p_m1(delta_m=delta_m, **kwargs)
@@ -604,7 +604,9 @@ class BaseSmoothedMassDistribution:
         if "jax" not in xp.__name__ and delta_m == 0:
             return 1
         p_m = self.__class__.primary_model(self.m1s, **kwargs)
-        p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m)
+        p_m = p_m * self.smoothing(
+            self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m
+        )
 
         norm = xp.nan_to_num(trapezoid(p_m, self.m1s)) * (delta_m != 0) + 1 * (
             delta_m == 0
-- 
2.43.0


From b6689144f646f36a92aedca9c398966ee99c267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:46 +0000
Subject: [PATCH 24/31] fix: update every function a module registers under
 gwpopulation.other

---
 gwpopulation/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 0ea72ad..b699b5d 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -59,7 +59,7 @@ def modules_to_update():
         (:code:`scipy.special`).
     others: dict
         Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        from :code:`scipy`, with the list of functions for each module.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for module, func in other_entries:
+        others.setdefault(module, []).append(func)
     return all_with_xp, all_with_scs, others
 
 
@@ -147,7 +149,8 @@ def set_backend(backend="numpy"):
     updates += [(import_module(module), "scs", scs) for module in all_with_scs]
     updates += [
         (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
-        for module, func in others.items()
+        for module, funcs in others.items()
+        for func in funcs
     ]
     for module, name, value in updates:
         setattr(module, name, value)
-- 
2.43.0


From 09f8deebfcbf1c5c43e89592b1fed0bb10908b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 25/31] fix: powerlaw starting at zero for python scalars

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 18a0e88..ac3cbdc 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -121,7 +121,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / (xp.log(high) - xp.log(low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From 2e339771d9a8c853d90183fada52753a1680e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:08 +0000
Subject: [PATCH 26/31] fix: numpyro predictive resampling of injections with
 scalar meta data

---
 gwpopulation/experimental/numpyro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 263fff9..5408dec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -139,7 +139,8 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        # skip meta data, e.g., the number of injections
+        fit_keys = [key for key in data.keys() if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From 11d8c3867f759785e931dc9bd665137c2ca0ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:22 +0000
Subject: [PATCH 27/31] fix: models built from functions can be used in
 compiled likelihoods

A population model given to HyperparameterLikelihood as a function, or to a
selection function as a list or callable, was wrapped in a Model that caches
values. When the likelihood is compiled with jax the cache holds tracers and
any other evaluation of the same likelihood raises UnexpectedTracerError.
---
 gwpopulation/hyperpe.py | 3 ++-
 gwpopulation/vt.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index ca38a98..bdcf379 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -111,7 +111,8 @@ class HyperparameterLikelihood(Likelihood):
         self.data = self.resample_posteriors(posteriors, max_samples=max_samples)
 
         if isinstance(hyper_prior, types.FunctionType):
-            hyper_prior = Model([hyper_prior])
+            # cached values cannot be used when tracing with jax
+            hyper_prior = Model([hyper_prior], cache="jax" not in xp.__name__)
         elif not (
             hasattr(hyper_prior, "parameters")
             and callable(getattr(hyper_prior, "prob"))
diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index dfc9aa9..f86ff3e 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -61,10 +61,12 @@ __all__ = [
 class _BaseVT:
     def __init__(self, model, data):
         self.data = {key: xp.asarray(value) for key, value in data.items()}
+        # cached values cannot be used when tracing with jax
+        cache = "jax" not in xp.__name__
         if isinstance(model, list):
-            model = Model(model)
+            model = Model(model, cache=cache)
         elif not isinstance(model, Model):
-            model = Model([model])
+            model = Model([model], cache=cache)
         self.model = model
 
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From 1a52f0d9a11c5a03fe56394e720922e0d0a856fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:50 +0000
Subject: [PATCH 28/31] fix: predictive draws in the numpyro model are random

The draws used the same hard coded key for every event and every
hyperparameter sample, so that the same sample was drawn essentially
whatever its weight. Use the key provided by the seed handler.
---
 gwpopulation/experimental/numpyro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 5408dec..36f0a34 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 import numpy as np
-from numpyro import deterministic, sample
+from numpyro import deterministic, prng_key, sample
 from numpyro.distributions import Gamma, Normal, Unit
 
 __all__ = [
@@ -131,8 +131,11 @@ def posterior_predictive_resample(
         weights = weights[event]
     weights = weights / jnp.sum(weights)
     n_points = int(weights.shape[0])
+    rng_key = prng_key()
+    if rng_key is None:  # not within a seed handler
+        rng_key = jax.random.PRNGKey(0)
     idx = jax.random.choice(
-        jax.random.PRNGKey(0),
+        rng_key,
         jnp.arange(n_points),
         p=weights,
         shape=shape,
-- 
2.43.0


From 5bcc6ba5a4f2266cbba46b334b92b236de97fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:02 +0000
Subject: [PATCH 29/31] fix: finite derivatives of beta_dist with samples
 outside of the support

With jax, a single sample above the maximum made the derivative with respect
to every hyperparameter nan.
---
 gwpopulation/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index ac3cbdc..0d0f408 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,12 +85,15 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
+    in_bounds = (xx >= 0) * (xx <= scale)
+    # avoid nan derivatives due to the logarithms outside of the support
+    xx = xp.where(in_bounds, xx, scale / 2)
     ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
     prob = xp.nan_to_num(prob)
-    prob *= (xx >= 0) * (xx <= scale)
+    prob *= in_bounds
     return prob
 
 
-- 
2.43.0


From 0fe1a9d6af6154a81482d570cf9843748dce9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 30/31] fix: low mass window at mmin without smoothing with jax

---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index aeb4a74..9196c2f 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -676,7 +676,7 @@ class BaseSmoothedMassDistribution:
         See also, https://en.wikipedia.org/wiki/Window_function#Planck-taper_window
         """
         if "jax" in xp.__name__ or delta_m > 0.0:
-            shifted_mass = xp.nan_to_num((masses - mmin) / delta_m, nan=0)
+            shifted_mass = xp.nan_to_num((masses - mmin) / delta_m, nan=1)
             shifted_mass = xp.clip(shifted_mass, 1e-6, 1 - 1e-6)
             exponent = 1 / shifted_mass - 1 / (1 - shifted_mass)
             window = scs.expit(-exponent)
-- 
2.43.0


From da08375e75932f07ad71fa57a32eef51e45da039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 31/31] fix: finite derivatives of smoothed mass models with
 samples below mmin or no smoothing

---
 gwpopulation/models/mass.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 9196c2f..c77e34e 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -636,7 +636,9 @@ class BaseSmoothedMassDistribution:
 
     def norm_p_q(self, beta, mmin, delta_m):
         """Calculate the mass ratio normalisation by linear interpolation"""
-        p_q = powerlaw(self.qs_grid, beta, 1, mmin / self.m1s_grid)
+        q_min = mmin / self.m1s_grid
+        # there are no allowed mass ratios when q_min >= 1, the window vanishes there
+        p_q = powerlaw(self.qs_grid, beta, 1, xp.where(q_min < 1, q_min, 0.5))
         p_q *= self.smoothing(
             self.m1s_grid * self.qs_grid, mmin=mmin, mmax=self.m1s_grid, delta_m=delta_m
         )
@@ -645,7 +647,9 @@ class BaseSmoothedMassDistribution:
             delta_m == 0
         )
 
-        return self._q_interpolant(norms)
+        norms = self._q_interpolant(norms)
+        # the density is zero where the norm is, avoid 0 / 0 as it has no derivative
+        return xp.where(norms == 0, 1.0, norms)
 
     def _cache_q_norms(self, masses):
         """
@@ -676,7 +680,10 @@ class BaseSmoothedMassDistribution:
         See also, https://en.wikipedia.org/wiki/Window_function#Planck-taper_window
         """
         if "jax" in xp.__name__ or delta_m > 0.0:
-            shifted_mass = xp.nan_to_num((masses - mmin) / delta_m, nan=1)
+            # without smoothing the window is a step, avoid dividing by zero
+            shifted_mass = (masses - mmin) / xp.where(delta_m == 0, 1.0, delta_m)
+            shifted_mass = xp.nan_to_num(shifted_mass, nan=0)
+            shifted_mass = xp.where(delta_m == 0, 1.0, shifted_mass)
             shifted_mass = xp.clip(shifted_mass, 1e-6, 1 - 1e-6)
             exponent = 1 / shifted_mass - 1 / (1 - shifted_mass)
             window = scs.expit(-exponent)
-- 
2.43.0

