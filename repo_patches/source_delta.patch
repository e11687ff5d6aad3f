From 100e6e2e9e4a669733614f0a7e45be0dd86ae611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 01/53] fix: exponential density, log density outside the
 support and sample shape

log_prob multiplied the rate by log(e*rate), which is the exponential density
only for a mean of 1, and returned 0 (density 1) outside the support. sample()
returned a vector instead of an N by dims batch and failed for dims > 1.
---
 .../parametric/CMultivariateExponential.py         | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..e255a98 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -11,6 +11,7 @@ class CMultivariateExponential(CDistribution):
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
         params["dims"] = len(params["mean"])
+        params["mean"] = np.array(params["mean"])
 
         # Clip the exp support at 4 means
         if "support" not in params:
@@ -23,26 +24,23 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, size=(n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From ed4243479d95964a6af0be60cf03abe269724de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 02/53] fix: BenchDenUniform is the uniform on [0, 1]

The radius is half the width, a radius of 1 made it uniform on [-.5, 1.5].
---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From b060511bb661d0bcbe5ac7e07bd9da30f0962bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 03/53] fix: BenchDenMaxwell log density outside the support is
 -inf

It was 0, i.e. a density of 1. prob() also failed for a single point.
---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..b07b7c3 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,10 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From 35e3d93faf9f3bb9bcb4b9daff439f45e2c6984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 04/53] fix: BenchDenLaplace returns one value per point, as
 all the others do

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From ce7778451471fb065d9b30f2f347c10d0b561398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 05/53] fix: CMultivariateUniform can be built from lists

load_benchmark builds the targets with the lists read from the YAML file.
---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..e124e31 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -12,6 +12,8 @@ class CMultivariateUniform(CDistribution):
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
         params["dims"] = len(params["center"])
+        params["center"] = np.array(params["center"])
+        params["radius"] = np.array(params["radius"])
         params["support"] = [params["center"] - params["radius"], params["center"] + params["radius"]]
         super(CMultivariateUniform, self).__init__(params)
         self.loc = params["center"]
-- 
2.43.0


From 8697872edaa90d518182411724f0baceced85ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 06/53] fix: uniform integral over a box outside the support is
 0

The product of the negative overlaps gave negative or large values.
---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index e124e31..54955e4 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -67,7 +67,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From 2c188257ea95e6169ccd6a1c324ec1958451ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 07/53] fix: CMultivariateDelta.integral used an undefined name

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From 89449b96e2db4c97806c3487f6a4af14937f4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 08/53] fix: CMixtureModel uses equal weights when none is
 positive

It announced it and kept the zeros, so that the density was 0 everywhere. It
also wrote the zeros to the array of the caller.
---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..b561150 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -24,6 +24,7 @@ class CMixtureModel(CDistribution):
 
     def set_weights(self, weights):
         assert len(self.models) == len(weights), "len(models)=%d , len(weights)=%d" % (len(self.models), len(weights))
+        weights = np.array(weights, dtype=np.float64)
 
         # Address NaN or negative
         nan_indices = np.logical_or(np.isnan(weights), weights <= 0)
@@ -36,9 +37,8 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
-        else:
-            weights = weights / weights.sum()
-        self.weights = weights
+            weights = np.ones(len(weights))
+        self.weights = weights / weights.sum()
 
     def log_prob(self, data):
         if len(data.shape) == 1:
-- 
2.43.0


From 66c9b986c6cb962ab0f1bc9cd02ae973393190c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 09/53] fix: CGaussianMixtureModel.to_dict failed for a model
 built from lists

That is how load_benchmark builds it. The support passed to the mixture was the
method instead of its value.
---
 .../distributions/mixture/CGaussianMixtureModel.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
index ff26239..b8e200e 100644
--- a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
@@ -24,18 +24,18 @@ class CGaussianMixtureModel(CDistribution):
         super(CGaussianMixtureModel, self).__init__(params)
 
         self.models = []
-        self.means = params["means"]
-        self.sigmas = params["sigmas"]
+        self.means = np.array(params["means"])
+        self.sigmas = np.array(params["sigmas"])
         for mean, cov in zip(self.means, self.sigmas):
             self.models.append(CMultivariateNormal({"mean": mean, "sigma": np.diag(cov)}))
 
         if "weights" in params.keys():
-            self.weights = params["weights"]
+            self.weights = np.array(params["weights"])
         else:
             self.weights = (1.0 / len(self.means)) * np.array([1] * len(self.means))
 
         self.gmm = CMixtureModel({"models": self.models, "weights": self.weights,
-                                  "dims": self.dims, "support": self.support})
+                                  "dims": self.dims, "support": self.support()})
 
     def log_prob(self, samples):
         return self.gmm.log_prob(samples)
-- 
2.43.0


From 8ee2aa419656bb707fd583e99d1a30660ba8e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 10/53] fix: to_dict names the type as load_benchmark expects
 it

load_benchmark evaluates the type with the distribution classes in scope, there
is no distributions.<class>. A support given as lists could not be converted.
---
 ais_benchmarks/distributions/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..b8a983f 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -296,14 +296,14 @@ class CDistribution(metaclass=ABCMeta):
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         dist_yaml = dict()
         dist_yaml["name"] = name if name is not None else self.type
-        dist_yaml["type"] = "distributions." + self.__class__.__name__
+        dist_yaml["type"] = self.__class__.__name__
         dist_yaml["batch_size"] = batch_size
         dist_yaml["nsamples"] = nsamples
         dist_yaml["nsamples_eval"] = nsamples_eval
         dist_yaml["params"] = dict()
         dist_yaml["params"]["family"] = self.family
         dist_yaml["params"]["dims"] = self.dims
-        dist_yaml["params"]["support"] = [v.tolist() for v in self.support_vals]
+        dist_yaml["params"]["support"] = self.support().tolist()
         return dist_yaml
 
 
-- 
2.43.0


From 3a76eb7c9ba627bd9323905205397f96d6cd284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 11/53] fix: CKernelDensity could not be built nor evaluated

CMixtureModel takes a parameter dictionary, and a kernel returned one value per
dimension instead of the density of each point.
---
 ais_benchmarks/distributions/distributions.py                | 2 +-
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b8a983f..3fab5f3 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -321,7 +321,7 @@ class CKernel:
         return self(x)
 
     def __call__(self, x):
-        return self.kernel((x - self.loc) * self.bw) * self.bw
+        return np.prod(self.kernel((np.atleast_2d(x) - self.loc) * self.bw) * self.bw, axis=1)
 
     @staticmethod
     def kernel_normal(u):
diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..a4b7376 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.dims, "support": self.support()})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
-- 
2.43.0


From 3fbf1fe5cb64b26b104081883266603353163f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 12/53] fix: metrics normalized the probabilities in the arrays
 of p and q

A p or q that keeps the array it returned had its values overwritten, and the
next evaluation of the metric used them.
---
 ais_benchmarks/metrics/divergences.py | 14 +++++++++-----
 ais_benchmarks/metrics/statistics.py  |  4 ++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 0b85148..8f5b1b0 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -116,7 +116,9 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. JSD compute. Less than 10% inliers")
 
-        # Normalize sample probabilities
+        # Normalize sample probabilities. On copies, the arrays belong to the caller
+        p_samples_prob = np.array(p_samples_prob)
+        q_samples_prob = np.array(q_samples_prob)
         if np.sum(p_samples_prob[inliers]) > 0:
             p_samples_prob[inliers] = (p_samples_prob[inliers] /
                                        np.sum(p_samples_prob[inliers]))
@@ -143,7 +145,9 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. KLDD compute. Less than 10% inliers")
 
-        # Normalize sample probabilities in log space
+        # Normalize sample probabilities in log space. On copies, the arrays belong to the caller
+        p_samples_logprob = np.array(p_samples_logprob)
+        q_samples_logprob = np.array(q_samples_logprob)
         p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
         q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])
 
@@ -163,9 +167,9 @@ class CJSDivergence(CDivergence):
         self.log2 = np.log(2)
 
     def compute_from_samples(self, p, q, samples):
-        # Obtain sample probabilities
-        p_samples_prob = p.prob(samples)
-        q_samples_prob = q.prob(samples)
+        # Obtain sample probabilities. On copies, they are normalized in place and the arrays belong to p and q
+        p_samples_prob = np.array(p.prob(samples))
+        q_samples_prob = np.array(q.prob(samples))
 
         # Filter zero prob values and nans on any of the sides
         inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
diff --git a/ais_benchmarks/metrics/statistics.py b/ais_benchmarks/metrics/statistics.py
index bbfe1e9..a51a39f 100644
--- a/ais_benchmarks/metrics/statistics.py
+++ b/ais_benchmarks/metrics/statistics.py
@@ -37,8 +37,8 @@ class CExpectedValueMSE(CMetric):
     def compute_from_samples(self, p, q, samples):
         samples_pprob = p.prob(samples)
         samples_qprob = q.prob(samples)
-        samples_pprob /= np.sum(samples_pprob)
-        samples_qprob /= np.sum(samples_qprob)
+        samples_pprob = samples_pprob / np.sum(samples_pprob)
+        samples_qprob = samples_qprob / np.sum(samples_qprob)
 
         EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)
         EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)
-- 
2.43.0


From 99be1047414b1b4097a1e88950bf167fd2fbfe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 13/53] fix: KL divergence of distributions without common
 support is infinite

It was 0, the value for equal distributions. compute_from_probs returns inf.
---
 ais_benchmarks/metrics/divergences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 8f5b1b0..a69350b 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -142,6 +142,10 @@ class CKLDivergence(CDivergence):
         num_inliers = len(p_samples_logprob[inliers])
         inlier_ratio = num_inliers / len(p_samples_logprob)
 
+        # Without any common support the divergence is infinite
+        if num_inliers == 0:
+            return np.inf
+
         if  inlier_ratio < .1:
             print("WARNING. KLDD compute. Less than 10% inliers")
 
-- 
2.43.0


From ab20232842102297fb8df11796c1d8c235ad443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 14/53] fix: JSD ignored the mass where only one of the
 distributions is positive

Distributions without common support had a divergence of 0, the value for equal
distributions, instead of 1 bit, and partially overlapping ones were compared
only on the overlap.
---
 ais_benchmarks/metrics/divergences.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index a69350b..9a5e70d 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import rel_entr
 from ais_benchmarks.metrics.base import CMetric
 
 # def bhattacharyya_distance(p_samples_prob, q_samples_prob):
@@ -175,8 +176,8 @@ class CJSDivergence(CDivergence):
         p_samples_prob = np.array(p.prob(samples))
         q_samples_prob = np.array(q.prob(samples))
 
-        # Filter zero prob values and nans on any of the sides
-        inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
+        # Filter nans and zero prob values on both of the sides. Where only one of the two is zero JSD is well defined
+        inliers = np.logical_or(p_samples_prob > 0, q_samples_prob > 0)
         inliers = np.logical_and(inliers, np.logical_not(np.isnan(q_samples_prob)))
         inliers = np.logical_and(inliers, np.logical_not(np.isnan(p_samples_prob)))
         num_inliers = len(p_samples_prob[inliers])
@@ -184,6 +185,11 @@ class CJSDivergence(CDivergence):
         if inlier_ratio < .1:
             print("WARNING. JSD compute. Only %6.3f%% inliers" % (inlier_ratio*100))
 
+        # Without any mass on one of the sides there is no common support, where the divergence is maximum
+        if not (np.sum(p_samples_prob[inliers]) > 0 and np.sum(q_samples_prob[inliers]) > 0):
+            self.value = 1.0
+            return self.value
+
         # Normalize sample probabilities
         p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
         q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
@@ -193,8 +199,8 @@ class CJSDivergence(CDivergence):
         # Renormalize to avoid precision issues
         m_samples_prob = m_samples_prob / np.sum(m_samples_prob)
 
-        res = 0.5 * p_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob) + \
-              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)
+        res = 0.5 * rel_entr(p_samples_prob[inliers], m_samples_prob) + \
+              0.5 * rel_entr(q_samples_prob[inliers], m_samples_prob)
 
         # Remove nans that might have been generated by underflows
         res = res[np.logical_not(np.isnan(res))]
-- 
2.43.0


From 0ac3084f74e281174c4e42b4c11a3350349d3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 15/53] fix: CMemoryUsage.reset kept the value of the previous
 measurement

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 09585c2bc5a2832d2187e481ff901365081ef991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 16/53] fix: DM-AIS and LAIS failed with a single sample per
 iteration

With K * N == 1 the batch was the vector of the coordinates of the sample, and
each coordinate was weighted as if it were a sample.
---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From c3bf11911e16711c959cd269399c36053d24bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 17/53] fix: DM-AIS and LAIS did not count the proposal
 evaluations

They were reported as 0 in the proposal_evals column of the results.
---
 ais_benchmarks/sampling_methods/dm_ais.py      | 1 +
 ais_benchmarks/sampling_methods/layered_ais.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 68cbdb3..3d02369 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -73,6 +73,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index f1c3a60..fc9f6cc 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -91,6 +91,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
-- 
2.43.0


From b929515cb70dca0c1be3d275a5d243eed8a74936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 18/53] fix: AIS methods on batches where the target is zero

The weights were divided by their zero sum: DM-AIS raised an exception and M-PMC
and LAIS returned NaN weights, M-PMC with NaN proposals from then on. A single
M-PMC component without weight also turned the proposal into NaN.
---
 ais_benchmarks/sampling_methods/dm_ais.py      |  7 ++++++-
 ais_benchmarks/sampling_methods/layered_ais.py |  3 ++-
 ais_benchmarks/sampling_methods/m_pmc.py       | 12 +++++++++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 3d02369..6e84cd5 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -45,6 +45,10 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                                     "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
     def resample(self, samples, weights):
+        # There is nothing to adapt to when the target is zero at all the samples
+        if weights.sum() <= 0:
+            return
+
         # Normalize weights
         norm_weights = weights / weights.sum()
 
@@ -84,7 +88,8 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
 
             elapsed_time = time.time() - t_ini
 
-        return self.samples, self.weights / self.weights.sum()
+        total_weight = self.weights.sum()
+        return self.samples, self.weights / total_weight if total_weight > 0 else self.weights
 
     def _update_model(self):
         pass
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index fc9f6cc..e4a6cea 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -102,7 +102,8 @@ class CLayeredAIS(CMixtureISSamplingMethod):
 
             elapsed_time = time.time() - t_ini
 
-        return self.samples, self.weights / self.weights.sum()
+        total_weight = self.weights.sum()
+        return self.samples, self.weights / total_weight if total_weight > 0 else self.weights
 
     def _update_model(self):
         pass
diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index b6002cf..a2ab34b 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -56,6 +56,10 @@ class CMixturePMC(CMixtureISSamplingMethod):
             # Update mixture weights (alpha_d) eq. 14.1 (Rao-Blackwellised version)
             self.wproposals[d] = np.sum(weights * posteriors[d])
 
+            # A component without weight has no samples to be updated with
+            if self.wproposals[d] <= 0:
+                continue
+
             # Update proposal parameters (gaussian proposal)
             # Mean eq. 14.2
             mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]
@@ -105,10 +109,12 @@ class CMixturePMC(CMixtureISSamplingMethod):
                     rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                     self._num_q_evals += 1
 
-            new_weights = new_weights / new_weights.sum()
+            # There is nothing to adapt to when the target is zero at all the samples
+            if new_weights.sum() > 0:
+                new_weights = new_weights / new_weights.sum()
 
-            # Adaptation
-            self.adapt(new_samples, new_weights, rho)
+                # Adaptation
+                self.adapt(new_samples, new_weights, rho)
 
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights
-- 
2.43.0


From 465f8fd1fb6475baea8ae0c8d7e59e1fd5596289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 19/53] fix: default model of the IS methods could not be built

---
 ais_benchmarks/sampling_methods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..22de0e1 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -243,7 +243,8 @@ class CMixtureISSamplingMethod(CMixtureSamplingMethod):
                                              "dims": self.ndims,
                                              "support": np.array([np.array([x]) - cov * 6, np.array([x]) + cov * 6])})
             models.append(model)
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
 
 def make_grid(space_min, space_max, resolution):
-- 
2.43.0


From faa6fb85b4cff0935ef644e66d6677f9e9a6bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 20/53] fix: rejection sampling counted samples it did not draw

Each round draws the samples that are missing, but counted the samples requested.
---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..d731b41 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_q_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_pi_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From 6f0a855240d3d161f6bdd5bc6034a1a14fcf86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 21/53] fix: rejection sampling prob() was not the density of
 log_prob() and sample()

It was the scaled proposal, which does not integrate to 1 and does not depend on
the samples, so that JSD and EVMSE did not measure the result of the sampling.
---
 ais_benchmarks/sampling_methods/rejection.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d731b41..8d5efc3 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -58,13 +58,10 @@ class CRejectionSampling(CMixtureSamplingMethod):
             return self.draw2d(ax)
         return []
 
-    def prob(self, s):
-        return self.proposal_dist.prob(s) * self.scaling
-
     def draw1d(self, ax):
         res = []
-        res.extend(plot_pdf(ax, self, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
-                            resolution=0.01, label="$q(x)$ * scale"))
+        res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
+                            resolution=0.01, scale=self.scaling, label="$q(x)$ * scale"))
         # res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="-", color="r",
         #                     resolution=0.01, label="$q(x)$"))
         res.extend(plot_pdf(ax, super(CRejectionSampling, self), self.space_min, self.space_max, alpha=1.0, options="-", color="g",
-- 
2.43.0


From 684cfcb407913d4e978847686546ee25c60775c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 22/53] fix: HiDaisee did not update the parent of the sampled
 leaf

The traversal path repeated the root and did not contain the leaf, so that the
node dropped from it as the leaf was the parent of the leaf, whose q was never
updated.
---
 ais_benchmarks/sampling_methods/hi_daisee.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..38f04b3 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -213,15 +213,15 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             while n_id not in self.T.leaves:
                 if self.debug:
                     print(self.__class__.__name__, "== Debug ==> ", "    | Choose a children")
-                # Line 5: Append the node sampled to the sequence
-                P.append(n_id)
-
                 # Lines 6 to 8 Select which children to use
                 r = np.random.rand()
                 qil = self.T.nodes[n_id].left.q
                 qir = self.T.nodes[n_id].right.q
                 q_left = qil / (qir + qil)
                 n_id = self.T.nodes[n_id].left.idx if r < q_left else self.T.nodes[n_id].right.idx
+
+                # Line 5: Append the node sampled to the sequence
+                P.append(n_id)
                 if self.debug:
                     print(self.__class__.__name__, "== Debug ==> ", "    | Choosen %d" % n_id)
 
-- 
2.43.0


From e87aa8c47120858225a1cea4f7aaba8c469dadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 23/53] fix: HiDaisee weights did not account for the number of
 samples of the leaf

The samples are not drawn from the space but from the leaves, more of them where
the target is higher. Estimates counted that density twice.
---
 ais_benchmarks/sampling_methods/hi_daisee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 38f04b3..16cc55b 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -304,7 +304,8 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         weights = list()
         for n_idx in self.T.leaves:
             samples.extend(self.T.nodes[n_idx].samples)
-            weights.extend(self.T.nodes[n_idx].weights)
+            # The evidence of a leaf is the mean of its weights, see eq. 8. A leaf with more samples does not count more.
+            weights.extend(self.T.nodes[n_idx].weights / max(self.T.nodes[n_idx].N, 1))
 
         self.samples = np.array(samples)
         self.weights = np.array(weights)
-- 
2.43.0


From 3c37765a68354e664cd20d6276ec5ae2bf4a6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 24/53] fix: HiDaisee ignored the timeout

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 16cc55b..7fa5bd6 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -201,7 +201,11 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         if self.debug:
             print(self.__class__.__name__, "== Debug ==> ", "importance_sample(n_samples=%d)" % n_samples)
 
+        t_ini = time.time()
         for t in range(len(self.samples), n_samples):
+            if t > 0 and time.time() - t_ini >= timeout:
+                break
+
             # Initialize traversal path and node to the root. Line 3.
             P = [0]
             n_id = 0
-- 
2.43.0


From 36721f1793e5d8c848c7d2e7882863148ff0b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 25/53] fix: MH sample(n) returned n * n samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..33345a8 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From de21cece6e8eb39fad494f03468afbb1788ab709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 26/53] fix: MH chain starts inside the space and starts again
 on reset

The first state was a step from the origin, wherever the space is, and reset()
continued the chain of the previous experiment.
---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 33345a8..d83c51d 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -49,7 +49,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.n_burnin = params["n_burnin"]
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = self._initial_sample()
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
@@ -74,8 +74,12 @@ class CMetropolisHastings(CMixtureSamplingMethod):
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
+    def _initial_sample(self):
+        return np.random.uniform(self.space_min, self.space_max, size=(1, self.ndims))
+
     def reset(self):
         super(self.__class__, self).reset()
+        self.current_sample = self._initial_sample()
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From cc6a3ef76aeeaf3cc3d4a73bddb4185b08980b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 27/53] fix: MH proposed moves until one was accepted

The states were not repeated on rejection, so that the chain did not converge to
the target. On timeout the rejected proposal was returned as the new state.
---
 .../sampling_methods/metropolis_hastings.py         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index d83c51d..1371501 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -89,7 +89,8 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         t_elapsed = 0
         t_ini = time.time()
         x_new = x_old
-        while not accepted and timeout > t_elapsed:
+        rejected = False
+        while not accepted and not rejected and timeout > t_elapsed:
             t_elapsed = time.time() - t_ini
             # Sample from the proposal distribution to obtain the proposed sample x' ~ p(x'|x)
             x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)
@@ -117,11 +118,17 @@ class CMetropolisHastings(CMixtureSamplingMethod):
             # Accept or reject the proposed new sample x'
             accepted = alpha > np.log(accept)
 
+            # A rejected move is a step of the chain that repeats the current state. Only until the chain gets to the
+            # support of the target the moves are proposed again.
+            rejected = not accepted and pi_x_old > -np.inf
+
             self.trajectory_types.append(self.REJECT)
 
-        x_old = x_new
+        if not accepted:
+            return x_old
+
         self.trajectory_types[-1] = self.ACCEPT
-        return x_old
+        return x_new
 
     def mcmc(self, n_samples, n_steps, timeout=60):
         t_ini = time.time()
-- 
2.43.0


From 3b24a7e570fffac93900322b645f8cdf55f75e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 28/53] fix: nested sampling methods generated samples outside
 the space

Only the first proposal of each replacement was clipped.
---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From c67b9e347c898e50b10f2ca676349e55dd903ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 29/53] fix: multi-nested sampling returned fewer samples than
 requested

The samples per cluster were rounded down.
---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..f29bdf3 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -197,7 +197,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         clusters, c_ellipsoids = self.recursive_clustering(points, inflate_factor=self.inflate_factor)
 
         # Perform nested sampling on each cluster
-        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))
+        n_samples_ell = int(np.ceil((n_samples-len(self.samples)) / len(c_ellipsoids)))
         n_samples_ell = max(n_samples_ell, 1)
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
-- 
2.43.0


From 6c4348bf896ba23f25b01e8110c8e0618d4c3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 30/53] fix: NESS of the nested sampling methods was NaN with a
 zero weight

The limit of w log(w) is 0.
---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 ++-
 ais_benchmarks/sampling_methods/nested.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index f29bdf3..eeb3879 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -99,7 +99,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..d6a3375 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -46,7 +46,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return new_sample, new_value
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
-- 
2.43.0


From 343c43633b26f0be8655609e443499cfa1fcdb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 31/53] fix: timeout of the nested sampling methods applied to
 each sample

importance_sample(n, timeout) could take n times the timeout.
---
 ais_benchmarks/sampling_methods/multi_nested.py | 7 ++++++-
 ais_benchmarks/sampling_methods/nested.py       | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index eeb3879..354f152 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -190,6 +190,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         points = self.live_points
         values = target_d.prob(points)
         self._num_pi_evals += len(points)
@@ -202,6 +203,9 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         n_samples_ell = max(n_samples_ell, 1)
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
+                if self.samples.size and time.time() - t_ini >= timeout:
+                    break
+
                 Lmin = np.min(values[c_ellipsoid.indices])
 
                 # Add the point with lowest likelihood to the resulting sample set
@@ -215,7 +219,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
+                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid,
+                                                                 timeout - (time.time() - t_ini), self.converged_radius)
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index d6a3375..70499b1 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -51,10 +51,14 @@ class CNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
         for i in range(n_samples - len(self.samples)):
+            if self.samples.size and time.time() - t_ini >= timeout:
+                break
+
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
@@ -65,7 +69,7 @@ class CNestedSampling(CMixtureSamplingMethod):
 
             # Replace the point with lowest likelihood with a new sample from the proposal distribution
             # centered on a sample randomly select4ed from the live points
-            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
+            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - (time.time() - t_ini))
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-- 
2.43.0


From ccd030b2eb980bb6e9a9c44adf7e28f13c0b973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 32/53] fix: nested sampling weights were NaN while the target
 is zero at all the samples

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 354f152..dd1fc96 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -228,7 +228,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         W = np.concatenate((np.array([X[0]]), W))
         Z = np.sum(self.L * W)
 
-        self.weights = (self.L * W) / Z
+        self.weights = (self.L * W) / Z if Z > 0 else np.zeros(len(self.samples))
 
         self.live_points = points
         self.ellipsoids = c_ellipsoids
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 70499b1..bc9238a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -77,7 +77,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         W = np.concatenate((np.array([X[0]]), W))
         Z = np.sum(self.L * W)
 
-        self.weights = (self.L * W) / Z
+        self.weights = (self.L * W) / Z if Z > 0 else np.zeros(len(self.samples))
         self._update_model()
         return self.samples, self.weights
 
-- 
2.43.0


From a7822fc6c2aa8968bad4725f376726f2732285e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 33/53] fix: rejection sampling raised an exception on timeout
 without samples

---
 ais_benchmarks/sampling_methods/rejection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index 8d5efc3..9ed9fc2 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -47,7 +47,8 @@ class CRejectionSampling(CMixtureSamplingMethod):
 
         # Return the accepted samples
         self.weights = np.ones_like(self.weights) * 1 / len(self.weights)
-        self._update_model()
+        if self.samples.size:
+            self._update_model()
         return self.samples, self.weights
 
     def draw(self, ax):
-- 
2.43.0


From b2fc6407744f6baa9eeb6783816554d1a6c9649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 34/53] fix: CTreePyramid.find never returned on an expanded
 tree

Each recursive call started again at the root.
---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..ba1f77c 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,11 +147,12 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
             prev = self.root
 
+        if prev is None:
+            return None
+
         if prev.is_leaf():
             return prev
         else:
-- 
2.43.0


From a5638575cf8b2baaee043fc6fe6e37d44d4766a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 35/53] fix: TP-AIS failed with the documented ess_target None

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index ba1f77c..8d8ed12 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -688,7 +688,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From 1cf822eb3229f3824317f88501e209e70fae225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 36/53] fix: TP-AIS did not count the evaluation of the root

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 8d8ed12..2f1278e 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -445,6 +445,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From e6c10a06f5e0b5ec16fc2a7edab723593bfa7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 37/53] fix: TP-AIS density of a single point of more than one
 dimension

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 2f1278e..3fc21a2 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -537,7 +537,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def log_prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             llikelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             llikelihood = np.zeros((len(x)))
@@ -572,7 +572,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             likelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             likelihood = np.zeros((len(x)))
-- 
2.43.0


From 6d2095fbec8ef2c1fb369f6adb1e2af5fa9af08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 38/53] fix: TP-AIS density of the resampled points with normal
 kernels

It was the density before scaling the points to the size of the leaf.
---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 3fc21a2..4c45ce1 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -511,7 +511,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            # The samples are the prototypical ones scaled by 2 * radius, which also scales their density.
+            proposal_probs = self.T.sampler.prob(re_samples) / ((2 * radii.flatten()) ** self.T.ndims)
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From 60ad5b506b78e006a3c18845a0ac14814584a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 39/53] fix: NESS of the TP-AIS stats was computed on no
 samples

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 4c45ce1..fef963f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -331,7 +331,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 "proposal_evals": self._num_q_evals,
                 "target_evals": self._num_pi_evals,
                 "n_samples": self._get_nsamples(),
-                "NESS": self.get_approx_NESS()}
+                "NESS": self.get_NESS()}
 
     def reset(self):
         super(CTreePyramidSampling, self).reset()
-- 
2.43.0


From cb8bac1da39ca320f35bbff68a55f9b20a91f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 40/53] fix: TP-AIS lost samples of the leaves with more than
 one

The samples of each leaf overwrote the ones of the previous leaf, and the end of
the arrays was left empty. The weights did not account for the number of samples
of the leaf either, so that estimates depended on it.
---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index fef963f..7233f74 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -700,10 +700,13 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
-            weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            # All the samples of a leaf together estimate the mass of its subspace.
+            weights[i:i + nsamples_subspace] = l.weight_hist.flatten() / nsamples_subspace
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From 76956b68ffb8bffa5795e30cace57c5b91cbe76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 41/53] fix: TP-AIS mixed normalized and unnormalized weights

Updating the model and resampling normalized the weights of the current leaves
in place, while the samples of later iterations, and in the leaf resampling the
previous samples of the leaf, were not. Leaves were hardly expanded and the
estimates were wrong.
---
 .../sampling_methods/tree_pyramid.py          | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 7233f74..c46ff67 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -524,9 +524,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         self._num_q_evals += len(samples)
         self._num_q_samples += len(samples)
 
-        # Self-normalization of importance weights.
-        self._self_normalize()
-
         # Update resampled coordinates and weights.
         for node in self.T.leaves:
             node.weight = self.T.weights[node.node_idx]
@@ -556,6 +553,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         if self.kernel == "haar":
             lower = self.T.centers - self.T.radii
             upper = self.T.centers + self.T.radii
+            weights = self.T.weights / max(np.sum(self.T.weights[self.T.leaves_idx]), np.finfo(np.float64).tiny)
 
             # TODO: This might be able to be vectorized
             # Get the indices of the leaf each sample belongs to
@@ -568,7 +566,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     llikelihood[i] = 0
                 else:
-                    llikelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    llikelihood[i] = weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return np.log(llikelihood)
 
     def prob(self, x):
@@ -591,6 +589,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         if self.kernel == "haar":
             lower = self.T.centers - self.T.radii
             upper = self.T.centers + self.T.radii
+            weights = self.T.weights / max(np.sum(self.T.weights[self.T.leaves_idx]), np.finfo(np.float64).tiny)
 
             # TODO: This might be able to be vectorized
             # Get the indices of the leaf each sample belongs to
@@ -603,7 +602,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     likelihood[i] = 0
                 else:
-                    likelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    likelihood[i] = weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return likelihood
 
     def draw(self, ax):
@@ -692,7 +691,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def _get_samples(self):
         if self.ess_target is None or self.ess_target > 1.0:
-            return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
+            return self.T.samples[self.T.leaves_idx], self._self_normalize(self.T.weights[self.T.leaves_idx])
 
         nsamples = 0
         for l in self.T.leaves:
@@ -707,12 +706,13 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # All the samples of a leaf together estimate the mass of its subspace.
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten() / nsamples_subspace
             i += nsamples_subspace
-        return samples[weights > 0], weights[weights > 0]
+        return samples[weights > 0], self._self_normalize(weights[weights > 0])
 
-    def _self_normalize(self):
-        if np.sum(self.T.weights[self.T.leaves_idx]) > 0:
-            self.T.weights[self.T.leaves_idx] = self.T.weights[self.T.leaves_idx] / np.sum(
-                self.T.weights[self.T.leaves_idx])
+    @staticmethod
+    def _self_normalize(weights):
+        # The tree keeps the importance weights of all the samples in the same scale. They are normalized on output.
+        total_weight = np.sum(weights)
+        return weights / total_weight if total_weight > 0 else weights
 
     def _update_model(self):
         weights = self.T.weights[self.T.leaves_idx]
@@ -738,7 +738,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             #                                limits=[self.space_min, self.space_max],
             #                                weight=weights[i]))
             i += 1
-        self._self_normalize()
         self.model = CMixtureModel({"models": models, "weights": weights,
                                     "dims": self.ndims, "support":[self.space_min, self.space_max]})
         # self.viz_elements.append(viz.CProposalDist(0, func=self.model.prob, limits=[self.space_min, self.space_max]))
-- 
2.43.0


From 324c7db31b3bcda8614acf89a4268b86f9a44b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 42/53] fix: contour plots failed with matplotlib 3.10

---
 ais_benchmarks/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 2f1e6ff..a848cdd 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -56,7 +56,8 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
     CS = ax.contour(dims[0], dims[1], prob_p_margin, cmap=cmap, levels=levels, linestyles=linestyles, alpha=alpha)
-    return CS.collections if len(CS.collections) else []
+    # Newer versions of matplotlib return one single artist
+    return CS.collections if hasattr(CS, "collections") else [CS]
 
 
 def plot_pdf2d(ax, pdf, space_min, space_max, resolution=0.1, alpha=0.2, scale=1.0, label=None, colormap=plt.cm.cool, linestyles='solid'):
-- 
2.43.0


From f0d9a006b226c240e21f42b9b36c2dd6462b43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 43/53] fix: first sample of the nested sampling methods
 weighted the whole prior volume

---
 ais_benchmarks/sampling_methods/multi_nested.py | 5 ++---
 ais_benchmarks/sampling_methods/nested.py       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dd1fc96..3f3b521 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -223,9 +223,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                                                  timeout - (time.time() - t_ini), self.converged_radius)
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = np.array([X[i - 1] - X[i] for i in range(1, len(X))])
         Z = np.sum(self.L * W)
 
         self.weights = (self.L * W) / Z if Z > 0 else np.zeros(len(self.samples))
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index bc9238a..495b2fe 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -72,9 +72,8 @@ class CNestedSampling(CMixtureSamplingMethod):
             self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - (time.time() - t_ini))
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = np.array([X[i - 1] - X[i] for i in range(1, len(X))])
         Z = np.sum(self.L * W)
 
         self.weights = (self.L * W) / Z if Z > 0 else np.zeros(len(self.samples))
-- 
2.43.0


From fa73010e4f7466c465e6d9858b26f221ecdebc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 44/53] fix: TP-AIS density of a point on the face between
 leaves

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index c46ff67..387d744 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -559,14 +559,16 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # Get the indices of the leaf each sample belongs to
             for i, sample in enumerate(x):
                 inliers = np.logical_and(self.T.leaves_idx,
-                                         np.logical_and(np.all(lower < sample, axis=1),
-                                                        np.all(sample < upper, axis=1)))
+                                         np.logical_and(np.all(lower <= sample, axis=1),
+                                                        np.all(sample <= upper, axis=1)))
 
                 # handle the case where there are no inliers, samples inside the support.
                 if not np.any(inliers):
                     llikelihood[i] = 0
                 else:
-                    llikelihood[i] = weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    # A sample on the face between leaves belongs to the first of them
+                    leaf = np.argmax(inliers)
+                    llikelihood[i] = weights[leaf] / ((2 * self.T.radii[leaf]).item() ** self.T.ndims)
             return np.log(llikelihood)
 
     def prob(self, x):
@@ -595,14 +597,16 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # Get the indices of the leaf each sample belongs to
             for i, sample in enumerate(x):
                 inliers = np.logical_and(self.T.leaves_idx,
-                                         np.logical_and(np.all(lower < sample, axis=1),
-                                                        np.all(sample < upper, axis=1)))
+                                         np.logical_and(np.all(lower <= sample, axis=1),
+                                                        np.all(sample <= upper, axis=1)))
 
                 # handle the case where there are no inliers, samples inside the support.
                 if not np.any(inliers):
                     likelihood[i] = 0
                 else:
-                    likelihood[i] = weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
+                    # A sample on the face between leaves belongs to the first of them
+                    leaf = np.argmax(inliers)
+                    likelihood[i] = weights[leaf] / ((2 * self.T.radii[leaf]).item() ** self.T.ndims)
             return likelihood
 
     def draw(self, ax):
-- 
2.43.0


From bcdb7a5fa32c3806558eb07b797e12728a1fc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 45/53] fix: kernel density rejects points of the wrong number
 of dimensions

---
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4b7376..b3565c8 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -37,13 +37,13 @@ class CKernelDensity(CDistribution):
                                     "dims": self.dims, "support": self.support()})
 
     def log_prob(self, data):
-        return self.model.log_prob(data)
+        return self.model.log_prob(self._check_shape(data))
 
     def sample(self, nsamples=1):
         return self.model.sample(nsamples)
 
     def prob(self, data):
-        return self.model.prob(data)
+        return self.model.prob(self._check_shape(data))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From bac0b3932613c4ae05e7bffb7bbbf005602e344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 46/53] fix: TP-AIS tree lookup of a point on a face between
 cells

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 387d744..cc7f3aa 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -93,9 +93,11 @@ class CTreePyramidNode:
         :param val: Value used to determine the children that contains it
         :return: children node that contains val
         """
+        # The limits of the children are rounded, which leaves out some values on the faces between them.
+        eps = 4 * np.finfo(np.float64).eps * (np.abs(self.center) + self.radius)
         for c in self.children:
-            min_val = c.center - c.radius
-            max_val = c.center + c.radius
+            min_val = c.center - c.radius - eps
+            max_val = c.center + c.radius + eps
             if np.all(min_val <= val) and np.all(val <= max_val):
                 return c
         raise ValueError("Children value not found.")
-- 
2.43.0


From c2151eeb2742b6f52f9332bc523a51a34b3d45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:54 +0000
Subject: [PATCH 47/53] fix: TP-AIS density of a point on a face between leaves
 is not zero

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index cc7f3aa..586a920 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -553,8 +553,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         # If the kernel is haar we can compute the likelihood faster. Because the space is disjoint and we just have to
         # find for each sample what leaf it belongs to and assing the leaf constant mass to it.
         if self.kernel == "haar":
-            lower = self.T.centers - self.T.radii
-            upper = self.T.centers + self.T.radii
+            # The limits of the leaves are rounded, which leaves out some points on the faces between them.
+            eps = 4 * np.finfo(np.float64).eps * (np.abs(self.T.centers) + self.T.radii)
+            lower = self.T.centers - self.T.radii - eps
+            upper = self.T.centers + self.T.radii + eps
             weights = self.T.weights / max(np.sum(self.T.weights[self.T.leaves_idx]), np.finfo(np.float64).tiny)
 
             # TODO: This might be able to be vectorized
@@ -591,8 +593,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         # If the kernel is haar we can compute the likelihood faster. Because the space is disjoint and we just have to
         # find for each sample what leaf it belongs to and assing the leaf constant mass to it.
         if self.kernel == "haar":
-            lower = self.T.centers - self.T.radii
-            upper = self.T.centers + self.T.radii
+            # The limits of the leaves are rounded, which leaves out some points on the faces between them.
+            eps = 4 * np.finfo(np.float64).eps * (np.abs(self.T.centers) + self.T.radii)
+            lower = self.T.centers - self.T.radii - eps
+            upper = self.T.centers + self.T.radii + eps
             weights = self.T.weights / max(np.sum(self.T.weights[self.T.leaves_idx]), np.finfo(np.float64).tiny)
 
             # TODO: This might be able to be vectorized
-- 
2.43.0


From 91bc500ef8a9f2dbdb1dfc3e5d479f73675b86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:21 +0000
Subject: [PATCH 48/53] fix: first sample of the nested sampling methods was
 overwritten with its replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 3f3b521..32e4f9a 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -213,7 +213,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 495b2fe..8cb6ca7 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -62,7 +62,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From fcbfd1d7be6ad470ad93b0cd28769507abf1e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 49/53] fix: NESS of a chain in several dimensions depended on
 its location

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 22de0e1..048a772 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -45,7 +45,7 @@ class CSamplingMethod(metaclass=ABCMeta):
 
         variogram = lambda t: t_tensor([((x[t:] - x[:(n - t)]) ** 2).sum() / (n - t)])
 
-        mean = x.mean()
+        mean = x.mean(axis=0)
         dist = x - mean
 
         W = (dist ** 2).sum() / (n - 1)
-- 
2.43.0


From 3da03062dcf664947a3a22475f0444a97c185556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 50/53] fix: grids in three or more dimensions were not in the
 order of their shape

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 ais_benchmarks/utils/plot_utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 048a772..437c64e 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -261,7 +261,7 @@ def make_grid(space_min, space_max, resolution):
         dimensions.append(np.linspace(space_min[i], space_max[i], num_samples[i]))
         shape[i] = len(dimensions[i])
 
-    samples = np.array(np.meshgrid(*dimensions)).T.reshape(-1, len(space_min))
+    samples = np.stack(np.meshgrid(*dimensions, indexing="ij"), axis=-1).reshape(-1, len(space_min))
     return samples, dimensions, shape
 
 
diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index a848cdd..dd4d370 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -21,7 +21,7 @@ def make_grid(space_min, space_max, resolution):
         dimensions.append(np.linspace(space_min[i], space_max[i], num_samples[i]))
         shape[i] = len(dimensions[i])
 
-    samples = np.array(np.meshgrid(*dimensions)).T.reshape(-1, len(space_min))
+    samples = np.stack(np.meshgrid(*dimensions, indexing="ij"), axis=-1).reshape(-1, len(space_min))
     return samples, dimensions, shape
 
 
-- 
2.43.0


From 16a7a074ccaabb1c42f65cde7eb211afadc13b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 51/53] fix: proposals of the mixture methods could not be
 drawn in two dimensions

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 437c64e..987075f 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -208,9 +208,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
-- 
2.43.0


From bd271ecb5b6c851344815d78f06c3ce68b27f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 52/53] fix: points and axes drawn again in a sequence could
 not be removed

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 2fc630c..6b7d244 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -4,7 +4,7 @@ import numpy as np
 
 
 def draw_point(item, ax):
-    return ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)
+    return [ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)]
 
 
 def draw_func(item, ax):
@@ -33,6 +33,7 @@ def draw_axis(item, ax):
         # Draw a small line perpendicular to the axis with size t_size
         l = mlines.Line2D([ini[0], end[0]], [ini[1], end[1]], color=item.outline_color)
         ax.add_line(l)
+        elems.append(l)
 
         # Display label
         # Find the direction that puts the labels outwards
@@ -44,8 +45,6 @@ def draw_axis(item, ax):
         txt = plt.text(text_pos[0], text_pos[1], t_lbl, horizontalalignment="center", verticalalignment="center", color=item.outline_color)
         elems.append(txt)
 
-    elems.append(l)
-
     return elems
 
 
-- 
2.43.0


From f7534a9d364548beb3c2a7b4a2e458d668ae595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 53/53] fix: TP-AIS refines the largest of equally important
 cells first

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 586a920..efae382 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -453,8 +453,9 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self._update_model()
 
         while n_samples > self._get_nsamples() and elapsed_time < timeout:
-            # This is the lambda_hat set (sorted leaves)
-            lambda_hat = sorted(self.T.leaves, reverse=True)
+            # This is the lambda_hat set (sorted leaves). Among leaves of the same value, as when the target has not
+            # been found yet, the largest goes first.
+            lambda_hat = sorted(self.T.leaves, key=lambda leaf: (float(leaf.value), float(leaf.radius)), reverse=True)
 
             # Generate the new nodes to sample
             new_nodes = self._expand_nodes(lambda_hat, self.parallel_samples)
-- 
2.43.0

