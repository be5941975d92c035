From 64499564e623776354ed17aadc87b58847b66d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 01/34] fix: exponential gamma predictive is Lomax with shape
 alpha and scale beta

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..f218ec4 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -692,7 +692,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From a09f0979731662794bfd16698bda41eba186b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 02/34] fix: beta geometric pmf sums to one over its support

---
 conjugate/_beta_geometric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..b064466 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -12,7 +12,10 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     if not one_start:
         x = x + 1
 
-    return beta(a + 1, x + b) / beta(a, b)
+    in_support = (x >= 1) & (x == np.floor(x))
+    failures = np.where(in_support, x - 1, 0)
+
+    return np.where(in_support, beta(a + 1, b + failures) / beta(a, b), 0.0)
 
 
 class beta_geometric:
-- 
2.43.0


From e6d9195c36c1ae3c2e53aeeabcab631d10e1ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 03/34] fix: uniform distribution ends at its upper bound

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..791eeab 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(loc=self.low, scale=self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From 54bc55ad7ff909cc519576a8aef88939fb8d6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 04/34] fix: log normal mu is the mean of the logarithm

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 791eeab..5fdaa0a 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 8195019f89b9e91273bfa73b06b6eea27d719262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 05/34] fix: marginal of multivariate student t takes the
 square root of the scale

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 5fdaa0a..36cb707 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From fe774d4a1cc3cc0f7d1ae4664e551b7006073336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 06/34] fix: von Mises known concentration posterior combines
 both totals

---
 conjugate/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f218ec4..91cb5c1 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1683,10 +1683,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post) % (2 * np.pi)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From cd1e4886b4830a578decb4d96930ebbaf8da8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 07/34] fix: von Mises log likelihood multiplies concentration
 and cosine

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 36cb707..ffc07c0 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -921,7 +921,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
-- 
2.43.0


From 5711983b3572f56bcc9ef55e35d2c54e7d23b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 08/34] fix: wrong distribution type raises ValueError for
 union annotations

---
 conjugate/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 91cb5c1..8f5838f 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -79,8 +79,9 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_name = getattr(expected_type, "__name__", str(expected_type))
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From e76909e9ea6f650dbf9786c8b34871a24fef7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 09/34] fix: normal model accepts data without observations

---
 conjugate/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 8f5838f..3c773b7 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1225,10 +1225,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
-- 
2.43.0


From 706d0a776b1c376a6945508c26f17462735c95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 10/34] fix: normal models count halves of observations in SQL
 as well

---
 conjugate/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 3c773b7..6702b44 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1095,7 +1095,7 @@ def _normal_known_mean_inverse_gamma_prior(
     mu: NUMERIC,
     prior: InverseGamma,
 ) -> InverseGamma:
-    alpha_post = prior.alpha + (n / 2)
+    alpha_post = prior.alpha + (0.5 * n)
     beta_post = prior.beta + (0.5 * (x2_total - (2 * mu * x_total) + (n * (mu**2))))
 
     return InverseGamma(alpha=alpha_post, beta=beta_post)
@@ -1228,7 +1228,7 @@ def _normal(
     nu_post = nu + n
     mu_post = ((nu * mu_0) + x_total) / nu_post
 
-    alpha_post = alpha + (n / 2)
+    alpha_post = alpha + (0.5 * n)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
 
     return mu_post, nu_post, alpha_post, beta_post
-- 
2.43.0


From 5409fb57d6527d1bf5c818d15d275cb1496ac73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 11/34] fix: dirichlet posterior adds counts given as sequences
 elementwise

---
 conjugate/distributions.py |  2 +-
 conjugate/models.py        | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index ffc07c0..bf98853 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -160,7 +160,7 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
+        if np.ndim(self.alpha) == 1:
             return stats.dirichlet(self.alpha)
 
         return VectorizedDist(self.alpha, dist=stats.dirichlet)
diff --git a/conjugate/models.py b/conjugate/models.py
index 6702b44..d384c3e 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -429,10 +429,16 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
-    try:
-        return alpha_prior + x
-    except Exception:
-        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+    sequences = (list, tuple)
+    if not (isinstance(alpha_prior, sequences) and isinstance(x, sequences)):
+        try:
+            return alpha_prior + x
+        except Exception:
+            pass
+
+    return [
+        alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x, strict=True)
+    ]
 
 
 def get_categorical_dirichlet_posterior_params(
-- 
2.43.0


From 6ade5db143b0624e5d74bda69d49428840175c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 12/34] fix: conditional pmf of each curve is normalised on its
 own

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..b5acc8a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -322,7 +322,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From b61462aee7d4ca7c4ba249010a25e7b60aeba332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 13/34] fix: multivariate normal models use the given inverse
 throughout

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index d384c3e..70676dc 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1770,6 +1770,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1827,6 +1828,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From f07ef769daafebe68ec173d00c0ceaab7fbe9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 14/34] fix: indexing out of range raises and list parameters
 can be indexed

---
 conjugate/slice.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..ce185f8 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -1,20 +1,42 @@
 from dataclasses import asdict
 
+import numpy as np
 
-class SliceMixin:
-    """Mixin in order to slice the parameters"""
 
-    @property
-    def params(self):
-        return asdict(self)
+def _take(params: dict, key) -> dict:
+    """Index the parameters along their first axis. Scalars are shared by all elements."""
+    params = {
+        name: np.asarray(value) if isinstance(value, (list, tuple)) else value
+        for name, value in params.items()
+    }
+    lengths = {
+        name: len(value)
+        for name, value in params.items()
+        if np.ndim(value) > 0 and hasattr(value, "__len__")
+    }
+    longest = max(lengths.values(), default=1)
 
-    def __getitem__(self, key):
-        def take_slice(value, key):
+    def take_slice(name, value):
+        if name not in lengths:
             try:
                 return value[key]
             except Exception:
                 return value
 
-        new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
+        if lengths[name] == 1 < longest:
+            value = np.repeat(value, longest, axis=0)
+
+        return value[key]
+
+    return {name: take_slice(name, value) for name, value in params.items()}
+
 
-        return self.__class__(**new_params)
+class SliceMixin:
+    """Mixin in order to slice the parameters"""
+
+    @property
+    def params(self):
+        return asdict(self)
+
+    def __getitem__(self, key):
+        return self.__class__(**_take(self.params, key))
-- 
2.43.0


From 89e2a3a0fc2fc61b886790f294cfe38738c3c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 15/34] fix: callable label of a single curve is called

---
 conjugate/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index b5acc8a..2a4652d 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -48,13 +48,13 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
     if yy.ndim == 1:
-        return label
+        return label(0) if callable(label) else label
 
     ncols = yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label
+    return label(0) if callable(label) else label
 
 
 class PlotDistMixin:
-- 
2.43.0


From 8f01786ea1565f1632f13da4f5004abe38dc4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 16/34] fix: poisson predictive of several trials shares one
 rate

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 70676dc..96d4a73 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -618,10 +618,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 # Just happen to be the same as above
-- 
2.43.0


From 0f12912b1a33df940a1925787c6f85f8b1d4bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 17/34] fix: exponential lam is the rate as documented

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index bf98853..54b1e6e 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
-- 
2.43.0


From 0fc4eb1c9ed93d9aa134e41325cbf2d53af19dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 18/34] fix: sampled variances are those of the observations

---
 conjugate/distributions.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 54b1e6e..71959d6 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1031,7 +1031,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1071,7 +1071,7 @@ class NormalGamma:
 
         """
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1159,14 +1159,11 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
 
-        if size == 1:
-            variance = variance[None, ...]
+        precision = np.reshape(precision, (size, *np.shape(self.W)))
 
-        return variance
+        return np.stack([inv(matrix) for matrix in precision])
 
     def sample_mean(
         self,
@@ -1190,7 +1187,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
                     size=1,
                     random_state=random_state,
                 )
@@ -1248,14 +1245,9 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
-        if size == 1:
-            variance = variance[None, ...]
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
 
-        return variance
+        return np.reshape(variance, (size, *np.shape(self.psi)))
 
     def sample_mean(
         self,
@@ -1278,7 +1270,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance
-- 
2.43.0


From c9dc22e56ed011e2a6a09fd46c247b39f8fef3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 19/34] fix: integer seeds do not repeat the same random
 numbers within a call

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 20 ++++++++++++++++++++
 conjugate/distributions.py   | 15 +++++++++++++--
 4 files changed, 39 insertions(+), 2 deletions(-)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index b064466..cd6a1b7 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import beta
 
+from conjugate._random import shared_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -39,6 +41,7 @@ class beta_geometric:
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
 
+        random_state = shared_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..9b7f6b8 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import beta
 from scipy.stats import gamma
 
+from conjugate._random import shared_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
@@ -28,6 +30,7 @@ class compound_gamma:
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
 
+        random_state = shared_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
 
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..8ce21f3
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,20 @@
+import numpy as np
+
+
+def shared_random_state(random_state):
+    """Make the draws of one call continue from each other.
+
+    Passing an integer seed to several draws would use the same random numbers for
+    each of them.
+
+    Args:
+        random_state: integer seed, numpy random state or generator, or None
+
+    Returns:
+        random state which advances with each draw
+
+    """
+    if isinstance(random_state, (int, np.integer)):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 71959d6..07ff062 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import shared_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -133,8 +134,14 @@ class VectorizedDist:
         self.params = params
         self.dist = dist
 
-    def rvs(self, size: int = 1) -> np.ndarray:
-        return np.stack([self.dist(param).rvs(size=size) for param in self.params])
+    def rvs(self, size: int = 1, random_state=None) -> np.ndarray:
+        random_state = shared_random_state(random_state)
+        return np.stack(
+            [
+                self.dist(param).rvs(size=size, random_state=random_state)
+                for param in self.params
+            ]
+        )
 
     def mean(self) -> np.ndarray:
         return np.stack([self.dist(param).mean() for param in self.params])
@@ -654,6 +661,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1070,6 +1078,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1183,6 +1192,7 @@ class NormalWishart:
 
         """
 
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1266,6 +1276,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 4d7b5d68fe5f73bdc7c6bf9898dbf450b4d7b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 20/34] fix: compound gamma and beta geometric support large
 parameters, values off the support and cdf

---
 conjugate/_beta_geometric.py | 20 ++++++++++++++++++--
 conjugate/_compound_gamma.py | 19 +++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index cd6a1b7..1fb0921 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -3,7 +3,7 @@
 import numpy as np
 
 from scipy import stats
-from scipy.special import beta
+from scipy.special import betaln
 
 from conjugate._random import shared_random_state
 
@@ -17,7 +17,20 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     in_support = (x >= 1) & (x == np.floor(x))
     failures = np.where(in_support, x - 1, 0)
 
-    return np.where(in_support, beta(a + 1, b + failures) / beta(a, b), 0.0)
+    pmf = np.exp(betaln(a + 1, b + failures) - betaln(a, b))
+
+    return np.where(in_support, pmf, 0.0)[()]
+
+
+def beta_geometric_cdf(x, a, b, one_start: bool = True):
+    x, a, b = np.broadcast_arrays(x, a, b)
+
+    if not one_start:
+        x = x + 1
+
+    trials = np.maximum(np.floor(x), 0)
+
+    return -np.expm1(betaln(a, b + trials) - betaln(a, b))
 
 
 class beta_geometric:
@@ -52,3 +65,6 @@ class beta_geometric:
 
     def pmf(self, x):
         return beta_geometric_pmf(x, self.a, self.b, one_start=self.one_start)
+
+    def cdf(self, x):
+        return beta_geometric_cdf(x, self.a, self.b, one_start=self.one_start)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 9b7f6b8..d4f5bce 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,13 +1,25 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import betainc, betaln, xlogy
 from scipy.stats import gamma
 
 from conjugate._random import shared_random_state
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    x, a, b, q = np.broadcast_arrays(x, a, b, q)
+    ratio = np.maximum(x, 0) / q
+    log_pdf = (
+        xlogy(a - 1, ratio) - (a + b) * np.log1p(ratio) - betaln(a, b) - np.log(q)
+    )
+
+    return np.where(x < 0, 0.0, np.exp(log_pdf))[()]
+
+
+def compound_gamma_cdf(x, a, b, q):
+    x = np.maximum(x, 0)
+
+    return betainc(a, b, x / (x + q))
 
 
 class compound_gamma:
@@ -36,3 +48,6 @@ class compound_gamma:
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
+
+    def cdf(self, x):
+        return compound_gamma_cdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 9e8bad352fddc6ee0689628f3d4ee428bee9d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 21/34] fix: vectorised uniform has scalar default bounds

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 07ff062..c3d2dac 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -506,8 +506,8 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        self.min_value = np.min(self.low)
+        self.max_value = np.max(self.high)
 
     @property
     def dist(self):
-- 
2.43.0


From b88ec67e176727312f3c04f489adcca859273deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 22/34] fix: a single color in any matplotlib form is not a
 color cycle

---
 conjugate/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a4652d..e7d5f5c 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -57,6 +58,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     return label(0) if callable(label) else label
 
 
+def is_color_cycle(color) -> bool:
+    """Whether the input is many colors instead of one color in any matplotlib form."""
+    return isinstance(color, Iterable) and not is_color_like(color)
+
+
 class PlotDistMixin:
     """Base mixin in order to support plotting. Requires the dist attribute of the scipy distribution."""
 
@@ -178,7 +184,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +346,7 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From 2a0fcb0cfe4ab79fed163c3282c3eaa13b94822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 23/34] fix: multivariate marginals by numpy integers

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index c3d2dac..fca0b62 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -486,7 +486,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -715,7 +715,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From 77828d27566aa876c54ed7f186cc8bbaecf2a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 24/34] fix: lists of colors may refer to the default color
 cycle

---
 conjugate/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index e7d5f5c..1f4c399 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,7 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
-from matplotlib.colors import is_color_like
+from matplotlib.colors import is_color_like, to_rgba
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -185,7 +185,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
             label = None
 
         if "color" in kwargs and is_color_cycle(kwargs["color"]):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
 
         ax.plot(x, yy, label=label, **kwargs)
         self._setup_labels(ax=ax, cdf=cdf)
@@ -347,7 +347,7 @@ class DiscretePlotMixin(PlotDistMixin):
             label = None
 
         if "color" in kwargs and is_color_cycle(kwargs["color"]):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
 
         ax.plot(x, yy, mark, label=label, **kwargs)
 
-- 
2.43.0


From e0c7ee65455ed2476664080dcc062c52119a5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 25/34] fix: multivariate normal model accepts data without
 observations

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 96d4a73..9e4c2b3 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1944,7 +1944,7 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
+    X_mean = X.sum(axis=0) / max(n, 1)
     C = (X - X_mean).T @ (X - X_mean)
 
     mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
-- 
2.43.0


From c7a708604d802d0fbbfd0c689bc7fcdc2e9182a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 26/34] fix: exponential gamma posterior adds observations to
 the shape and outcomes to the rate

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 9e4c2b3..87f8b91 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -623,8 +623,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=distribution.alpha, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From bc64e4ef8fd8e6da7af0fad4fe6dd5a1517ce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 27/34] fix: von Mises log likelihoods are finite for large
 concentrations

---
 conjugate/distributions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index fca0b62..523651a 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -43,7 +43,7 @@ from packaging import version
 import numpy as np
 
 from scipy import stats, __version__ as scipy_version
-from scipy.special import gammaln, i0
+from scipy.special import gammaln, i0, i0e
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
@@ -901,6 +901,15 @@ class VonMises(ContinuousPlotDistMixin, SliceMixin):
         return stats.vonmises(loc=self.mu, kappa=self.kappa)
 
 
+def _ln_i0(x: NUMERIC, ln: Callable, bessel: Callable) -> NUMERIC:
+    """Log of the modified Bessel function of order 0 of a non-negative value."""
+    if bessel is i0:
+        # i0 overflows for values above 700
+        return ln(i0e(x)) + x
+
+    return ln(bessel(x))
+
+
 @dataclass
 class VonMisesKnownConcentration:
     """Von Mises known concentration distribution.
@@ -929,7 +938,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a * cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - _ln_i0(self.a, ln, i0)
 
 
 @dataclass
@@ -958,7 +967,7 @@ class VonMisesKnownDirectionProportional:
             log likelihood up to a constant
 
         """
-        return kappa * self.r - self.c * ln(i0(kappa))
+        return kappa * self.r - self.c * _ln_i0(kappa, ln, i0)
 
 
 @dataclass
-- 
2.43.0


From 77f2233366d04e89607ef32e61a510d183369583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 28/34] fix: compound gamma samples of size one keep their axis

---
 conjugate/_compound_gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index d4f5bce..51947d8 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -44,7 +44,7 @@ class compound_gamma:
 
         random_state = shared_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 331c7d573a9e5f74f0d0e950167d16d5b7ee4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 29/34] fix: arrays can be on the left of scaled distributions

---
 conjugate/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 523651a..a427cb5 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -228,6 +228,7 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
         return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
+    __array_ufunc__ = None  # arrays on the left defer to __rmul__
 
 
 @dataclass
@@ -257,6 +258,7 @@ class Gamma(ContinuousPlotDistMixin, SliceMixin):
         return Gamma(alpha=self.alpha * other, beta=self.beta)
 
     __rmul__ = __mul__
+    __array_ufunc__ = None  # arrays on the left defer to __rmul__
 
 
 @dataclass
@@ -280,6 +282,7 @@ class NegativeBinomial(DiscretePlotMixin, SliceMixin):
         return NegativeBinomial(n=self.n * other, p=self.p)
 
     __rmul__ = __mul__
+    __array_ufunc__ = None  # arrays on the left defer to __rmul__
 
 
 @dataclass
@@ -327,6 +330,7 @@ class Poisson(DiscretePlotMixin, SliceMixin):
         return Poisson(lam=self.lam * other)
 
     __rmul__ = __mul__
+    __array_ufunc__ = None  # arrays on the left defer to __rmul__
 
     def __add__(self, other) -> "Poisson":
         return Poisson(self.lam + other.lam)
@@ -466,6 +470,7 @@ class Normal(ContinuousPlotDistMixin, SliceMixin):
         return Normal(mu=self.mu * other, sigma=sigma)
 
     __rmul__ = __mul__
+    __array_ufunc__ = None  # arrays on the left defer to __rmul__
 
 
 @dataclass
-- 
2.43.0


From 8a296d7ee3d7a733ef4934d9aa6c57ea14cc7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 30/34] fix: posteriors with negative constants are valid SQL

---
 conjugate/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 87f8b91..aab57f0 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1110,7 +1110,7 @@ def _normal_known_mean_inverse_gamma_prior(
     prior: InverseGamma,
 ) -> InverseGamma:
     alpha_post = prior.alpha + (0.5 * n)
-    beta_post = prior.beta + (0.5 * (x2_total - (2 * mu * x_total) + (n * (mu**2))))
+    beta_post = prior.beta + (0.5 * (x2_total + x_total * (-2.0 * mu) + (n * (mu**2))))
 
     return InverseGamma(alpha=alpha_post, beta=beta_post)
 
@@ -1577,7 +1577,7 @@ def pareto_gamma(
 
     """
     alpha_post = prior.alpha + n
-    beta_post = prior.beta + ln_x_total - n * ln(x_m)
+    beta_post = prior.beta + ln_x_total + n * (-1.0 * ln(x_m))
 
     return Gamma(alpha=alpha_post, beta=beta_post)
 
-- 
2.43.0


From 4ef0415cb5d825feb0dceca3e10f9eb06063fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 31/34] fix: SQL of integer columns does not use integer
 division

---
 conjugate/distributions.py |  4 ++--
 conjugate/models.py        | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index a427cb5..7b7c14d 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1003,7 +1003,7 @@ class ScaledInverseChiSquared(ContinuousPlotDistMixin, SliceMixin):
 
         """
         nu = inverse_gamma.alpha * 2
-        sigma2 = inverse_gamma.beta * 2 / nu
+        sigma2 = inverse_gamma.beta * 2.0 / nu
 
         return cls(nu=nu, sigma2=sigma2)
 
@@ -1014,7 +1014,7 @@ class ScaledInverseChiSquared(ContinuousPlotDistMixin, SliceMixin):
             inverse gamma distribution
 
         """
-        return InverseGamma(alpha=self.nu / 2, beta=self.nu * self.sigma2 / 2)
+        return InverseGamma(alpha=0.5 * self.nu, beta=0.5 * self.nu * self.sigma2)
 
     @property
     def dist(self):
diff --git a/conjugate/models.py b/conjugate/models.py
index aab57f0..fc13740 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -618,7 +618,7 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    p = distribution.beta / (n + distribution.beta)
+    p = 1.0 * distribution.beta / (n + distribution.beta)
 
     return NegativeBinomial(n=distribution.alpha, p=p)
 
@@ -885,11 +885,11 @@ def normal_known_variance(
         ![normal_known_variance](./images/docstrings/normal_known_variance.png)
 
     """
-    mu_post = ((prior.mu / prior.sigma**2) + (x_total / var)) / (
-        (1 / prior.sigma**2) + (n / var)
+    mu_post = ((1.0 * prior.mu / prior.sigma**2) + (1.0 * x_total / var)) / (
+        (1.0 / prior.sigma**2) + (1.0 * n / var)
     )
 
-    var_post = 1 / ((1 / prior.sigma**2) + (n / var))
+    var_post = 1 / ((1.0 / prior.sigma**2) + (1.0 * n / var))
 
     return Normal(mu=mu_post, sigma=var_post**0.5)
 
@@ -1024,7 +1024,7 @@ def normal_known_precision(
     return normal_known_variance(
         x_total=x_total,
         n=n,
-        var=1 / precision,
+        var=1.0 / precision,
         prior=prior,
     )
 
@@ -1096,7 +1096,7 @@ def normal_known_precision_predictive(
 
     """
     return normal_known_variance_predictive(
-        var=1 / precision,
+        var=1.0 / precision,
         distribution=distribution,
     )
 
@@ -1225,7 +1225,7 @@ def normal_known_mean_predictive(
 
     return StudentT(
         mu=mu,
-        sigma=(distribution.beta / distribution.alpha) ** 0.5,
+        sigma=(1.0 * distribution.beta / distribution.alpha) ** 0.5,
         nu=2 * distribution.alpha,
     )
 
@@ -1240,7 +1240,7 @@ def _normal(
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + x_total) / nu_post
+    mu_post = 1.0 * ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (0.5 * n)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
@@ -1350,7 +1350,7 @@ def normal_predictive(
         if isinstance(distribution, NormalInverseGamma)
         else distribution.lam
     )
-    var = distribution.beta * (nu + 1) / (nu * distribution.alpha)
+    var = 1.0 * distribution.beta * (nu + 1) / (nu * distribution.alpha)
     return StudentT(
         mu=distribution.mu,
         sigma=var**0.5,
-- 
2.43.0


From 831568f7a0f1c43b4a433bccac363bc5663a49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 32/34] fix: any iterable of labels names the curves

---
 conjugate/plot.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 1f4c399..a3c9bb6 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -36,7 +36,7 @@ def label_to_iterable(label: LABEL_INPUT, ncols: int) -> Iterable[str]:
         return [label(i) for i in range(ncols)]
 
     if isinstance(label, Iterable):
-        return label
+        return list(label)
 
     raise ValueError(
         "Label must be None, a string, iterable, or callable.",
@@ -48,14 +48,17 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label(0) if callable(label) else label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label(0) if callable(label) else label
+    if callable(label):
+        return label(0)
+
+    if isinstance(label, Iterable) and not isinstance(label, str):
+        return list(label)
+
+    return label
 
 
 def is_color_cycle(color) -> bool:
-- 
2.43.0


From 4dbdf94ff5fecf5c77723463ee8755f60fbf5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 33/34] fix: a list of colors applies to the curves of a
 Dirichlet plot

---
 conjugate/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index a3c9bb6..c6c87e0 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -227,6 +227,9 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
             kwargs.pop("label", None), distribution_samples.shape[1]
         )
 
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
+
         for x, label in zip_longest(distribution_samples.T, labels):
             kde = gaussian_kde(x)
 
-- 
2.43.0


From 6004c4f20aca5170fa88f8a681410c22c131ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:29 +0000
Subject: [PATCH 34/34] fix: keep autoscaling on, so that a taller curve added
 to the same axes stays visible

---
 conjugate/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index c6c87e0..aca512c 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -192,7 +192,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
 
         ax.plot(x, yy, label=label, **kwargs)
         self._setup_labels(ax=ax, cdf=cdf)
-        ax.set_ylim(0, None)
+        ax.set_ylim(0, None, auto=None)
         return ax
 
 
@@ -365,5 +365,5 @@ class DiscretePlotMixin(PlotDistMixin):
 
         ax.set_xlabel("Domain")
         ax.set_ylabel(ylabel)
-        ax.set_ylim(0, None)
+        ax.set_ylim(0, None, auto=None)
         return ax
-- 
2.43.0

