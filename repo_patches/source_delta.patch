From f59b66fbd7a79a5dc455eb47f9da97b908f1afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 01/81] fix: PoisonedModel rejects neither or both of tol and
 n_samples

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3758726..b4ac6f2 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -168,7 +168,7 @@ class PoisonedModel(DerivedModel):
     ):
         super(PoisonedModel, self).__init__(underlying_model)
         
-        if tol is None != n_samples is None:
+        if (tol is None) == (n_samples is None):
             raise ValueError(
                 "Exactly one of tol and n_samples must be specified"
             )
-- 
2.43.0


From 621beeb8f4d8f8522ab81f50ae46ecf7a84880d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/81] fix: MultinomialModel.n_outcomes raised NameError

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index b4ac6f2..026817b 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -61,6 +61,7 @@ from functools import reduce
 from past.builtins import basestring
 
 import numpy as np
+from scipy.special import binom as binom_coeff
 from scipy.stats import binom, multivariate_normal, norm
 from itertools import combinations_with_replacement as tri_comb
 
@@ -598,7 +599,7 @@ class MultinomialModel(DerivedModel):
         # possible tuples whose non-negative integer entries sum to n_meas.
         n = expparams['n_meas']
         k = self.n_sides
-        return scipy.special.binom(n + k - 1, k - 1)
+        return np.rint(binom_coeff(n + k - 1, k - 1)).astype('uint')
 
     def domain(self, expparams):
         """
-- 
2.43.0


From c9d9b984e353cf15dff542e9d42cf9b58d712974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 03/81] fix: MultinomialModel simulated with uninitialised
 probabilities of the last outcome

---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 026817b..c90d5d0 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -666,6 +666,10 @@ class MultinomialModel(DerivedModel):
             modelparams,
             expparams['x'] if self._expparams_scalar else expparams) 
             # shape (sides, n_mps, n_eps)
+        # The last side takes up the remaining probability; clip and renormalize
+        # such that rounding errors never produce invalid probabilities.
+        prs[-1,...] = np.clip(1 - np.sum(prs[:-1,...], axis=0), 0, 1)
+        prs = prs / np.sum(prs, axis=0)
 
 
         os = np.concatenate([
-- 
2.43.0


From 3761eccad6e6273774944d8a99693124344e617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 04/81] fix: count every simulated repeat of binomial,
 multinomial and Gaussian models

---
 src/qinfer/derived_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index c90d5d0..5ce905a 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -330,9 +330,9 @@ class BinomialModel(DerivedModel):
         return L
             
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        # FIXME: uncommenting causes a slowdown, but we need to call
-        #        to track sim counts.
-        #super(BinomialModel, self).simulate_experiment(modelparams, expparams)
+        # By calling the superclass implementation, we can consolidate
+        # simulation counting there.
+        super(BinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
         
         # Start by getting the pr(1) for the underlying model.
         pr1 = self.underlying_model.likelihood(
@@ -484,7 +484,7 @@ class GaussianHyperparameterizedModel(DerivedModel):
         return (underlying_L * conditional_L).sum(axis=0)
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams)
+        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams, repeat)
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
@@ -653,8 +653,8 @@ class MultinomialModel(DerivedModel):
         return L
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(MultinomialModel, self).simulate_experiment(modelparams, expparams)
-        
+        super(MultinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
+
         n_sides = self.n_sides
         n_mps = modelparams.shape[0]
         n_eps = expparams.shape[0]
-- 
2.43.0


From 9cb2668298db2a374dffbf63017af3e78dde296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/81] fix: count likelihood calls of MLEModel

---
 src/qinfer/derived_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 5ce905a..abda283 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -704,6 +704,9 @@ class MLEModel(DerivedModel):
         return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        # By calling the superclass implementation, we can consolidate
+        # call counting there.
+        super(MLEModel, self).likelihood(outcomes, modelparams, expparams)
         L = self.underlying_model.likelihood(outcomes, modelparams, expparams)
         return L**self._pow
 
-- 
2.43.0


From 3c4340467fe7f1605b3ad8b8ecfd981149336ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 06/81] fix: repeated experiments of
 GaussianHyperparameterizedModel shared their noise

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index abda283..cb90857 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -488,7 +488,7 @@ class GaussianHyperparameterizedModel(DerivedModel):
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
-        zs = np.random.randn(modelparams.shape[0], expparams.shape[0])
+        zs = np.random.randn(repeat, modelparams.shape[0], expparams.shape[0])
 
         # Next, we sample a bunch of underlying outcomes to figure out
         # how to rescale everything.
-- 
2.43.0


From 8d49161b324a7ae1f5038e7be2611aa72c792bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 07/81] fix: setting n_outcomes_cutoff recursed without end

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e3fe645..b1d9e2f 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -603,7 +603,7 @@ class FiniteOutcomeModel(Model):
 
         :param int value: Cutoff value.
         """
-        self.n_outcomes_cutoff = value
+        self._n_outcomes_cutoff = value
    
     ## ABSTRACT METHODS ##
                 
-- 
2.43.0


From 280c39bf7483cc185d7d3faeee7ad2a8e9d47fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 08/81] fix: simulation of models with varying or
 non-contiguous outcome domains

---
 src/qinfer/abstract_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index b1d9e2f..8452b55 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -640,7 +640,7 @@ class FiniteOutcomeModel(Model):
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
-            outcome_idxs = all_outcomes[np.argmax(cdf > randnum, axis=1)]
+            outcome_idxs = np.argmax(cdf > randnum, axis=1)
             outcomes = all_outcomes[outcome_idxs]
         else:
             # Loop over each experiment, sadly.
@@ -649,7 +649,7 @@ class FiniteOutcomeModel(Model):
             dtype = self.domain(expparams[0, np.newaxis])[0].dtype
             outcomes = np.empty((repeat, modelparams.shape[0], expparams.shape[0]), dtype=dtype)
             for idx_experiment, single_expparams in enumerate(expparams[:, np.newaxis]):
-                all_outcomes = self.domain(single_expparams).values
+                all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
-- 
2.43.0


From 7a67c41129d5e3fba602805a1e3ec087397f7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 09/81] fix: rounding in simulated outcomes could yield an
 impossible outcome

---
 src/qinfer/abstract_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 8452b55..0008f70 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -639,6 +639,8 @@ class FiniteOutcomeModel(Model):
             all_outcomes = self.domain(None).values
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
+            # Rounding must not leave room above the last possible outcome.
+            cdf = cdf / cdf[-1]
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
             outcome_idxs = np.argmax(cdf > randnum, axis=1)
             outcomes = all_outcomes[outcome_idxs]
@@ -652,6 +654,7 @@ class FiniteOutcomeModel(Model):
                 all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
+                cdf = cdf / cdf[-1]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
                 outcomes[:, :, idx_experiment] = all_outcomes[np.argmax(cdf > randnum, axis=1)]
                 
-- 
2.43.0


From 466d4644d78c3e4d7c089b2fa3bfd172144b48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 10/81] fix: scale matrix of models that add parameters covers
 the added parameters

---
 src/qinfer/derived_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index cb90857..193bc73 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -121,7 +121,10 @@ class DerivedModel(Model):
 
     @property
     def Q(self):
-        return self.underlying_model.Q
+        # Parameters added by this model have unit scale.
+        Q = self.underlying_model.Q
+        n_added = self.n_modelparams - len(Q)
+        return np.concatenate([Q, np.ones((n_added,))]) if n_added else Q
     
     def clear_cache(self):
         self.underlying_model.clear_cache()
-- 
2.43.0


From 86f6e0eae346e91b511d384f567f696f9687033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 11/81] fix: derived models claimed a constant number of
 outcomes for any underlying model

---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 193bc73..1fabec5 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -119,6 +119,10 @@ class DerivedModel(Model):
     def modelparam_names(self):
         return self.underlying_model.modelparam_names
 
+    @property
+    def is_n_outcomes_constant(self):
+        return self.underlying_model.is_n_outcomes_constant
+
     @property
     def Q(self):
         # Parameters added by this model have unit scale.
-- 
2.43.0


From 626a0c414929373668b74bfcbd24b72ce1f9dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 12/81] fix: pass scalar experiments on to the model under
 multinomial and differentiable binomial models

---
 src/qinfer/derived_models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 1fabec5..ab73a79 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -386,7 +386,8 @@ class DifferentiableBinomialModel(BinomialModel, DifferentiableModel):
         # FI provided by the underlying model by the number of measurements
         # that we perform.
         two_outcome_fi = self.underlying_model.fisher_information(
-            modelparams, expparams
+            modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
         )
         return two_outcome_fi * expparams['n_meas']
 
@@ -690,6 +691,11 @@ class MultinomialModel(DerivedModel):
         return os[0,0,0] if os.size == 1 else os
 
 
+    def update_timestep(self, modelparams, expparams):
+        return self.underlying_model.update_timestep(modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
+        )
+
 class MLEModel(DerivedModel):
     r"""
     Uses the method of [JDD08]_ to approximate the maximum likelihood
-- 
2.43.0


From 2e4629e947a93a8fd063407efe8bcc3ecccaf0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 13/81] fix: error message for a wrong covariance size raised
 AttributeError

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index ab73a79..8b1b45f 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -850,7 +850,7 @@ class GaussianRandomWalkModel(DerivedModel):
                 if fixed_covariance.ndim != 1:
                     raise ValueError('Diagonal covariance requested, but fixed_covariance has {} dimensions.'.format(fixed_covariance.ndim))
                 if fixed_covariance.size != self._n_rw:
-                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self.n_rw))
+                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self._n_rw))
                 self._fixed_scale = np.sqrt(fixed_covariance)
             else:
                 if fixed_covariance.ndim != 2:
-- 
2.43.0


From dcfc81836b74824c07535fc97e9d6354c985a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 14/81] fix: models that add parameters passed them on to the
 canonical form and time step of the wrapped model

---
 src/qinfer/derived_models.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 8b1b45f..1027357 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -449,6 +449,20 @@ class GaussianHyperparameterizedModel(DerivedModel):
             np.all(sigma2 > 0, axis=-1)
         ], axis=0)
 
+    def canonicalize(self, modelparams):
+        modelparams = modelparams.copy()
+        modelparams[:, self._orig_mps_slice] = self.underlying_model.canonicalize(
+            modelparams[:, self._orig_mps_slice]
+        )
+        return modelparams
+
+    def update_timestep(self, modelparams, expparams):
+        new_mps = np.repeat(modelparams[:, :, np.newaxis], expparams.shape[0], axis=2)
+        new_mps[:, self._orig_mps_slice, :] = self.underlying_model.update_timestep(
+            modelparams[:, self._orig_mps_slice], expparams
+        )
+        return new_mps
+
     def underlying_likelihood(self, binary_outcomes, modelparams, expparams):
         """
         Given outcomes hypothesized for the underlying model, returns the likelihood
@@ -908,6 +922,12 @@ class GaussianRandomWalkModel(DerivedModel):
         else:
             return ud_valid
     
+    def canonicalize(self, modelparams):
+        n_orig = self.underlying_model.n_modelparams
+        modelparams = modelparams.copy()
+        modelparams[:, :n_orig] = self.underlying_model.canonicalize(modelparams[:, :n_orig])
+        return modelparams
+
     def likelihood(self, outcomes, modelparams, expparams):
         super(GaussianRandomWalkModel, self).likelihood(outcomes, modelparams, expparams)
         return self.underlying_model.likelihood(outcomes, modelparams[...,:self.underlying_model.n_modelparams], expparams)
-- 
2.43.0


From 7cd36cc8bae8ca003ca229eb31b98f38c9b3776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 15/81] fix: the reset policy overwrote the fresh weights with
 zeros

---
 src/qinfer/smc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b907c6..4ea8973 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -432,6 +432,7 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'reset':
                 warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
                 self.reset()
+                return
             else:
                 raise ValueError("Invalid zero-weight policy {} encountered.".format(self._zero_weight_policy))
 
-- 
2.43.0


From e48b5ec5db0526c42017f9ed8f6db704123e4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 16/81] fix: partial reset passed incomplete parameter vectors
 to canonicalize

---
 src/qinfer/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 4ea8973..d470630 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -317,7 +317,8 @@ class SMCUpdater(ParticleDistribution):
 
         # Since this changes particle positions, we must recanonicalize.
         if self._canonicalize:
-            self.particle_locations[sl] = self.model.canonicalize(self.particle_locations[sl])
+            # Canonical forms can involve all parameters, even if only some were reset.
+            self.particle_locations[:, :] = self.model.canonicalize(self.particle_locations)
 
     ## UPDATE METHODS #########################################################
 
-- 
2.43.0


From 1b0abff9ab1693b63c82c799cb38915f4de7ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 17/81] fix: Bayes risk and information gain were NaN for
 impossible outcomes and weightless particles

---
 src/qinfer/smc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index d470630..fff9522 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -59,6 +59,7 @@ import numpy as np
 
 from scipy.spatial import ConvexHull, Delaunay
 import scipy.linalg as la
+import scipy.special
 import scipy.stats
 import scipy.interpolate
 from scipy.ndimage.filters import gaussian_filter1d
@@ -589,9 +590,11 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        # (which rounding must not make negative)
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # if the last outcome is impossible, then its weights all stay zero
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1] > 0, N[-1], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
@@ -650,16 +653,19 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        # (which rounding must not make negative)
+        w_hyp_last_outcome = np.clip(1 - L.sum(axis=0), 0, None) * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # if the last outcome is impossible, then its weights all stay zero
+        w_hyp_last_outcome = w_hyp_last_outcome / np.where(N[-1] > 0, N[-1], 1)[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
 
         # compute the Kullback-Liebler divergence for every experiment and possible outcome
         # KLD.shape == (n_out, n_eps)
-        KLD = np.sum(w_hyp * np.log(w_hyp / self.particle_weights), axis=2)
+        # particles without weight do not contribute
+        KLD = np.sum(scipy.special.rel_entr(w_hyp, self.particle_weights), axis=2)
 
         # return the expected KLD (ie expected info gain) for every experiment
         return np.sum(N * KLD, axis=0)
-- 
2.43.0


From 61115a6ad323926a8d59525aae2400ccd5656274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 18/81] fix: SMCUpdaterBCRB dropped most arguments of
 SMCUpdater

---
 src/qinfer/smc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index fff9522..482daf6 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1076,10 +1076,7 @@ class SMCUpdaterBCRB(SMCUpdater):
     def __init__(self, *args, **kwargs):
         SMCUpdater.__init__(self, *args, **{
             key: kwargs[key] for key in kwargs
-            if key in [
-                'resampler_a', 'resampler', 'resample_thresh', 'model',
-                'prior', 'n_particles'
-            ]
+            if key not in ['adaptive', 'initial_bim']
         })
 
         if not isinstance(self.model, DifferentiableModel):
-- 
2.43.0


From 0e4d85f393de20b46a2a8e4b0f34dadb42977cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 19/81] fix: SMCUpdaterBCRB modified the initial_bim array of
 the caller

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 482daf6..f2b4b92 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1096,7 +1096,7 @@ class SMCUpdaterBCRB(SMCUpdater):
                 axis=0
             ) / self.n_particles
         else:
-            self._current_bim = kwargs['initial_bim']
+            self._current_bim = np.array(kwargs['initial_bim'], dtype=float)
 
         # Also track the adaptive BIM, if we've been asked to.
         if "adaptive" in kwargs and kwargs["adaptive"]:
-- 
2.43.0


From f2a65d1cf9b9777d851ef1a83564bee3becf8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 20/81] fix: mixed updater failed when all particles use the
 same model

---
 src/qinfer/smc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index f2b4b92..0bd0618 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1007,11 +1007,16 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         locs_bad = locs[bad_mask, :]
 
         assert_thresh=1e-6
-        assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        assert (
+            np.all(good_mask) or np.all(bad_mask) or
+            np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        )
 
         # Now find L for each of the good and bad models.
-        L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-        L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
+        if np.any(good_mask):
+            L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
+        if np.any(bad_mask):
+            L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
         L = L.transpose([0, 2, 1])
 
         # update the weights sans normalization
-- 
2.43.0


From 49dac509d1783570036dce742b37573a4ca62285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 21/81] fix: Liu-West resampler redrew invalid particles around
 centres of other particles

---
 src/qinfer/resamplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 80531fd..89ad215 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -369,7 +369,7 @@ class LiuWestResampler(Resampler):
             # This may look a little weird, but it should delete the unused
             # elements of js, so that we don't need to reallocate.
             js = js[np.logical_not(valid_mask)]
-            mus = mus[:idxs_to_resample.size, :]
+            mus = mus[np.logical_not(valid_mask), :]
 
         if idxs_to_resample.size:
             # We failed to force all models to be valid within maxiter attempts.
-- 
2.43.0


From 2d3aac770ee502df6b9610ed1f44a30bbd03ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 22/81] fix: rounding of the total weight could make Liu-West
 resampling fail with IndexError

---
 src/qinfer/resamplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 89ad215..fdb472e 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -306,6 +306,8 @@ class LiuWestResampler(Resampler):
 
         new_locs = np.empty((n_particles, n_rvs))
         cumsum_weights = np.cumsum(w)
+        # Rounding must not leave room above the last particle.
+        cumsum_weights = cumsum_weights / cumsum_weights[-1]
 
         idxs_to_resample = np.arange(n_particles, dtype=int)
 
-- 
2.43.0


From 8db3257a637fc81f0d7155392641e3e442ca53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 23/81] fix: rounding of the total weight could make particle
 sampling return a weightless particle

---
 src/qinfer/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index c3b7417..827fa3c 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -327,6 +327,8 @@ class ParticleDistribution(Distribution):
         :rtype: `~numpy.ndarray` of shape ``(n, updater.n_rvs)``.
         """
         cumsum_weights = np.cumsum(self.particle_weights)
+        # Rounding must not leave room above the last particle.
+        cumsum_weights = cumsum_weights / cumsum_weights[-1]
         return self.particle_locations[np.minimum(cumsum_weights.searchsorted(
             np.random.random((n,)),
             side='right'
-- 
2.43.0


From 2bb04f13333cf5687268f27fe51603731988ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 24/81] fix: after a reset to another number of particles,
 resampling went back to the old number

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 0bd0618..caa2fd7 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -155,7 +155,7 @@ class SMCUpdater(ParticleDistribution):
             self.resampler = qinfer.resamplers.LiuWestResampler(a=resample_a)
         else:
             if resampler is None:
-                self.resampler = qinfer.resamplers.LiuWestResampler(default_n_particles=n_particles)
+                self.resampler = qinfer.resamplers.LiuWestResampler()
             else:
                 self.resampler = resampler
 
-- 
2.43.0


From a6a313a09eac9ae901380aa01d24a23ec148ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 25/81] fix: binomial simulation failed for one parameter
 vector and several experiments

---
 src/qinfer/derived_models.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 1027357..b5bc860 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -351,13 +351,10 @@ class BinomialModel(DerivedModel):
             expparams['n_meas'].astype('int'), # ← Really, NumPy?
             pr1[0, :, :]
         )
-        sample = (
-            (lambda: dist.rvs()[np.newaxis, :, :])
-            if pr1.size != 1 else
-            (lambda: np.array([[[dist.rvs()]]]))
-        )
+        # We state the shape explicitly, as SciPy otherwise drops leading
+        # singleton axes.
         os = np.concatenate([
-            sample()
+            dist.rvs(size=pr1.shape)
             for idx in range(repeat)
         ], axis=0)
         return os[0,0,0] if os.size == 1 else os
-- 
2.43.0


From 3a76f16ac2876c313406f8eaaa366806fafed099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 26/81] fix: Gaussian hyperparameterised likelihood was not a
 density over outcomes

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index b5bc860..62bc24e 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -488,7 +488,8 @@ class GaussianHyperparameterizedModel(DerivedModel):
         scaled_outcomes = (outcomes[np.newaxis,:,np.newaxis,np.newaxis] - mu) / sigma
 
         # We can then compute the conditional likelihood Pr(z | underlying_outcome, model).
-        conditional_L = norm(0, 1).pdf(scaled_outcomes)
+        # Dividing by sigma makes this a density over outcomes rather than over z.
+        conditional_L = norm(0, 1).pdf(scaled_outcomes) / sigma
 
         # To find the marginalized likeihood, we now need the underlying likelihood
         # Pr(underlying_outcome | model), so that we can sum over the idx_u_o axis.
-- 
2.43.0


From 7a8f47af1fee256cfd2feba7a7eddc96634b8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 27/81] fix: rounding could make multinomial likelihoods NaN

---
 src/qinfer/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f767048..c00e1b5 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -147,7 +147,8 @@ def multinomial_pdf(n,p):
     if p.shape[0] == n.shape[0] - 1:
         ep = np.empty(n.shape)
         ep[:p.shape[0],...] = p
-        ep[-1,...] = 1-np.sum(p,axis=0)
+        # rounding must not leave a negative probability
+        ep[-1,...] = np.maximum(1-np.sum(p,axis=0), 0)
     else:
         ep = p
     log_p_sum = np.sum(nlogp(n, ep), axis=0)
-- 
2.43.0


From b33202d0db08514e735b318625208e7aed565856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 28/81] fix: ProductDomain rejected a single list of domains

---
 src/qinfer/domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 6b80c7a..9faca42 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -175,8 +175,7 @@ class ProductDomain(Domain):
                 self._domains = domains
         else:
             self._domains = domains
-        
-        self._domains = domains
+
         self._dtypes = [domain.example_point.dtype for domain in self._domains]
         self._example_point = join_struct_arrays(
             [np.array(domain.example_point) for domain in self._domains]
-- 
2.43.0


From 9592a3b90301d64fd6879a952ceebebafbb5ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 29/81] fix: conversion of single or non-contiguous multinomial
 outcomes

---
 src/qinfer/domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 9faca42..e349430 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -669,7 +669,7 @@ class MultinomialDomain(Domain):
         """
         # this could be a static method, but we choose to be consistent with
         # from_regular_array
-        return A.view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
+        return np.ascontiguousarray(A).view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
 
     def from_regular_array(self, A):
         """
@@ -682,7 +682,8 @@ class MultinomialDomain(Domain):
         :rtype: `np.ndarray`
         """
         dims = A.shape[:-1]
-        return A.reshape((np.prod(dims),-1)).view(dtype=self.dtype).squeeze(-1).reshape(dims)
+        A = np.ascontiguousarray(A, dtype=int).reshape((-1, self.n_elements))
+        return A.view(dtype=self.dtype).squeeze(-1).reshape(dims)
 
     def in_domain(self, points):
         """
-- 
2.43.0


From 9f6c1879e577d802391a8a1410a9ec4a959484cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 30/81] fix: separating non-contiguous structured arrays failed

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index c00e1b5..ce305ac 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -585,7 +585,7 @@ def separate_struct_array(array, dtypes):
         offsets = np.cumsum([dtype_size] * num_fields)
         dtypes = [dtypes] * num_fields
     offsets = np.concatenate([[0], offsets]).astype(int)
-    uint_array = array.view(np.uint8).reshape(array.shape + (-1,))
+    uint_array = np.ascontiguousarray(array).view(np.uint8).reshape(array.shape + (-1,))
     return [
         uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype)
         for idx, dtype in enumerate(dtypes)
-- 
2.43.0


From 8cc5af4e44a37b767b482c36d3bfde7095364c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 31/81] fix: ConstrainedSumDistribution samples sum to the
 desired total for negative base totals too

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 827fa3c..cb99b4e 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1416,4 +1416,4 @@ class ConstrainedSumDistribution(Distribution):
     def sample(self, n=1):
         s = self.underlying_distribution.sample(n)
         totals = np.sum(s, axis=1)[:,np.newaxis]
-        return self.desired_total * np.sign(totals) * s / totals
+        return self.desired_total * s / totals
-- 
2.43.0


From 39d0626459f5d89155d830f72ddcd42d8b63fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 32/81] fix: DiscreteUniformDistribution.sample returns shape
 (n, 1) like every distribution

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index cb99b4e..2438fe4 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1164,7 +1164,7 @@ class DiscreteUniformDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        z = np.random.randint(2**self._num_bits,size=n)
+        z = np.random.randint(2**self._num_bits,size=(n, 1))
         return z
 
 class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
-- 
2.43.0


From 03a5c34f7e1ddfbb6762ce1931c90bffd4fa148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 33/81] fix: MixtureDistribution accepts dist_args=None as
 documented

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 2438fe4..fa21b4c 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -185,7 +185,7 @@ class MixtureDistribution(Distribution):
             self._dist = dist
             self._dist_args = dist_args
             self._dist_kw_args = dist_kw_args
-            assert(self._n_dist == self._dist_args.shape[0])
+            assert(self._dist_args is None or self._n_dist == self._dist_args.shape[0])
 
             self._example_dist = self._dist(
                 *self._dist_arg(0),
-- 
2.43.0


From fa51c1234d7e0b96fbb014d2a56da389da0771b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 34/81] fix: HilbertSchmidtUniform.sample takes the number of
 samples, and builds bases above one qubit

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index fa21b4c..4d29e7e 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1189,7 +1189,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     def n_rvs(self):
         return self.dim**2 - 1
 
-    def sample(self):
+    def _sample(self):
         #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
         g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
         q,r = la.qr(g)
@@ -1218,7 +1218,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         else:
             temp = np.zeros([d**2,d,d],dtype='complex128')
             for idx in range(temp.shape[0]):
-                temp[idx,:] = np.kron(paulis[np.trunc(idx/d)], self.paulis1Q[idx % 4])
+                temp[idx,:] = np.kron(paulis[idx // 4], self.paulis1Q[idx % 4])
             return self.make_Paulis(temp,d*2)
 
 
-- 
2.43.0


From 7a736b49bbbff821a1394102e8d889fd7c60aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 35/81] fix: InterpolatedUnivariateDistribution returned NaN
 for draws above the rounded end of the CDF

---
 src/qinfer/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 4d29e7e..0e315c2 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1381,6 +1381,8 @@ class InterpolatedUnivariateDistribution(Distribution):
         norm_factor = np.trapz(pdfs, xs)
 
         self._cdfs = cumtrapz(pdfs / norm_factor, xs, initial=0)
+        # Rounding must not leave room above the last interpolation point.
+        self._cdfs = self._cdfs / self._cdfs[-1]
         self._interp_inv_cdf = interp1d(self._cdfs, xs, bounds_error=False)
 
     @property
-- 
2.43.0


From 9a32a301fdfc4a3fa36300cce0478445b942b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 36/81] fix: particle_clusters works without weights, its
 documented default

---
 src/qinfer/clustering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index f8ac009..d7f1b15 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -100,10 +100,6 @@ def particle_clusters(
     if weighted == True and particle_weights is None:
         raise ValueError("Weights must be specified for weighted clustering.")
 
-    # Allocate new arrays to hold the weights and locations.
-    new_weights = np.empty(particle_weights.shape)
-    new_locs    = np.empty(particle_locations.shape)
-
     # Calculate and possibly reweight the metric.
     if weighted:
         M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
@@ -133,7 +129,7 @@ def particle_clusters(
     # If more than 10% of the particles were labeled as NOISE,
     # warn.
     n_noise = np.sum(cluster_labels == -1)
-    if n_noise / particle_weights.shape[0] >= 0.1:
+    if n_noise / particle_locations.shape[0] >= 0.1:
         warnings.warn("More than 10% of the particles were classified as NOISE. Consider increasing the neighborhood size ``eps``.", ResamplerWarning)
 
     # Print debugging info.
-- 
2.43.0


From dd2da8c531b47d5c696edc5ed0483d97c499ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 37/81] fix: weighted clustering took distances between rows of
 the distance matrix

---
 src/qinfer/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index d7f1b15..3bab0c2 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -102,8 +102,9 @@ def particle_clusters(
 
     # Calculate and possibly reweight the metric.
     if weighted:
-        M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
-        M = metrics.weighted_pairwise_distances(M, particle_weights, w_pow=w_pow)
+        M = metrics.weighted_pairwise_distances(
+            particle_locations, particle_weights, metric=metric, w_pow=w_pow
+        )
 
         # Create and run a SciKit-Learn DBSCAN clusterer.
         clusterer = sklearn.cluster.DBSCAN(
-- 
2.43.0


From e011008559bb31515239f96e5008dea44bf36429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 38/81] fix: cluster means and covariances were not normalised
 by the cluster weight

---
 src/qinfer/distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 0e315c2..59e8ea7 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -517,9 +517,15 @@ class ParticleDistribution(Distribution):
 
             w = self.particle_weights[cluster_particles]
             l = self.particle_locations[cluster_particles]
+            cluster_weight = np.sum(w)
+            # The moments within a cluster need weights that sum to one.
+            if cluster_weight > 0:
+                w = w / cluster_weight
+            else:
+                w = np.ones(w.shape) / w.shape[0]
             yield (
                 cluster_label,
-                sum(w), # The zeroth moment is very useful here!
+                cluster_weight, # The zeroth moment is very useful here!
                 self.particle_mean(w, l),
                 self.particle_covariance_mtx(w, l)
             )
-- 
2.43.0


From bb8b6da903c1b6234de7ae8c88d28de34b71b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 39/81] fix: est_cluster_covs failed for models with one
 parameter

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 59e8ea7..f3cb8cf 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -538,8 +538,8 @@ class ParticleDistribution(Distribution):
             dtype=[
                 ('label', 'int'),
                 ('weight', 'float64'),
-                ('mean', '{}float64'.format(self.n_rvs)),
-                ('cov', '{0},{0}float64'.format(self.n_rvs)),
+                ('mean', 'float64', (self.n_rvs,)),
+                ('cov', 'float64', (self.n_rvs, self.n_rvs)),
             ])
 
         ws = cluster_moments['weight'][:, np.newaxis, np.newaxis]
-- 
2.43.0


From d177f58d66abde64e1e66d1ac0d0ca5c860019f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 40/81] fix: particle weights were left unnormalised after
 clipping negative weights

---
 src/qinfer/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index caa2fd7..b237c78 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -417,7 +417,10 @@ class SMCUpdater(ParticleDistribution):
         # Check for negative weights before applying the update.
         if not np.all(weights >= 0):
             warnings.warn("Negative weights occured in particle approximation. Smallest weight observed == {}. Clipping weights.".format(np.min(weights)), ApproximationWarning)
-            np.clip(weights, 0, 1, out=weights)
+            np.clip(weights, 0, None, out=weights)
+            # Removing the negative weights leaves the others unnormalized.
+            if np.sum(weights) > 0:
+                weights /= np.sum(weights)
 
         # Next, check if we have caused the weights to go to zero, as can
         # happen if the likelihood is identically zero for all particles,
-- 
2.43.0


From 5390cdcd5b22482408c419f0be4d802eb64714f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 41/81] fix: est_credible_region failed at level one and took
 one particle too many at exact partial sums

---
 src/qinfer/distributions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index f3cb8cf..349b787 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -604,11 +604,12 @@ class ParticleDistribution(Distribution):
 
         # Find all the indices where the sum is less than level.
         # We first find id_cred such that
-        # `all(cumsum_weights[id_cred] <= level)`.
-        id_cred = cumsum_weights <= level
+        # `all(cumsum_weights[id_cred] < level)`.
+        id_cred = cumsum_weights < level
         # By construction, by adding the next particle to id_cred, it must be
-        # true that `cumsum_weights[id_cred] >= level`, as required.
-        id_cred[np.sum(id_cred)] = True
+        # true that `cumsum_weights[id_cred] >= level`, as required. If there
+        # is no next particle, then all of them are already credible.
+        id_cred[min(np.sum(id_cred), len(id_cred) - 1)] = True
 
         # We now return a slice onto the particle_locations by first permuting
         # the particles according to the sort order, then by selecting the
-- 
2.43.0


From b5ec39c74faabbae98987b854e46f3d3c8b701e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 42/81] fix: posterior covariance ellipsoids of listed
 parameters used the diagonal instead of the covariance

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 349b787..90c0868 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -730,7 +730,7 @@ class ParticleDistribution(Distribution):
 
         if method == 'pce':
             s_ = np.s_[modelparam_slice] if modelparam_slice is not None else np.s_[:]
-            A = self.est_covariance_mtx()[s_, s_]
+            A = self.est_covariance_mtx()[s_, :][:, s_]
             c = self.est_mean()[s_]
             # chi-squared distribution gives correct level curve conversion
             mult = st.chi2.ppf(level, c.size)
-- 
2.43.0


From 87e5def9e79b3447a0db50ac6525d75e844617e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 43/81] fix: region_est_ellipsoid returned the inverse of the
 documented covariance matrix

---
 src/qinfer/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 90c0868..4842d24 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -671,8 +671,9 @@ class ParticleDistribution(Distribution):
         """
         _, vertices = self.region_est_hull(level=level, modelparam_slice=modelparam_slice)
 
-        A, centroid = u.mvee(vertices, tol)
-        return A, centroid
+        # mvee returns the inverse of the covariance matrix of the ellipsoid.
+        invA, centroid = u.mvee(vertices, tol)
+        return la.inv(invA), centroid
 
     def in_credible_region(self, points, level=0.95, modelparam_slice=None, method='hpd-hull', tol=0.0001):
         """
@@ -739,7 +740,7 @@ class ParticleDistribution(Distribution):
         elif method == 'hpd-mvee':
             tol = 0.0001 if tol is None else tol
             A, c = self.region_est_ellipsoid(level=level, tol=tol, modelparam_slice=modelparam_slice)
-            results = u.in_ellipsoid(points, np.linalg.inv(A), c)
+            results = u.in_ellipsoid(points, A, c)
 
         elif method == 'hpd-hull':
             # it would be more natural to call region_est_hull,
-- 
2.43.0


From 7d7c4291c4d2ee97524f2b3ecb00b6fbb1f9ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 44/81] fix: ExpSparseHeuristic with a time field and no other
 fields

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 7abec76..6c784de 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -135,7 +135,7 @@ class ExpSparseHeuristic(Heuristic):
         self._scale = scale
         self._base = base
         self._t_field = t_field
-        self._other_fields = other_fields
+        self._other_fields = other_fields if other_fields is not None else {}
 
     def __call__(self):
         n_exps = len(self._updater.data_record)
-- 
2.43.0


From e711e59fd32c5778a259f5843f67e906fbee20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 45/81] fix: designing experiments from callable guesses

---
 src/qinfer/expdesign.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6c784de..f4495ed 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -309,16 +309,21 @@ class ExperimentDesigner(object):
             raise NotImplementedError("Not yet implemented.")
         elif callable(guess):
             # Generate a new guess by calling the guess function provided.
-            ep = guess(
+            # The result is copied as well, since we manipulate it below.
+            ep = np.copy(guess(
                 idx_exp=len(up.data_record),
                 mean=up.est_mean(),
                 cov=up.est_covariance_mtx()
-            )
+            ))
         else:
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
             ep = np.copy(guess)
         
+        # Remember the starting point, as ep is overwritten by the objective
+        # function.
+        x_guess = np.copy(ep[0][field])
+
         # Define an objective function that wraps a vector of scalars into
         # an appropriate record array.
         if (cost_mult==False):
@@ -354,7 +359,7 @@ class ExperimentDesigner(object):
         if self._opt_algo == OptimizationAlgorithms.NULL:
             # This optimization algorithm does nothing locally, but only
             # exists to leverage the store_guess functionality below.
-            x_opt = guess[0][field]
+            x_opt = x_guess
             
         elif self._opt_algo == OptimizationAlgorithms.CG:
             # Prepare any additional options.
@@ -364,7 +369,7 @@ class ExperimentDesigner(object):
                 
             # Actually call fmin_cg, gathering all outputs we can.
             x_opt, f_opt, func_calls, grad_calls, warnflag = opt.fmin_cg(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
@@ -390,7 +395,7 @@ class ExperimentDesigner(object):
             # anyway.
             try:
                 x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
-                    objective_function, guess[0][field],
+                    objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
                     disp=disp, full_output=True, **opt_options
                 )
@@ -398,7 +403,7 @@ class ExperimentDesigner(object):
                 warnings.warn(
                     "Gradient function too flat for NCG.",
                     RuntimeWarning)
-                x_opt = guess[0][field]
+                x_opt = x_guess
                 f_opt = None
                 
         elif self._opt_algo == OptimizationAlgorithms.NELDER_MEAD:
@@ -409,7 +414,7 @@ class ExperimentDesigner(object):
                 opt_options['maxiter'] = maxiter
                 
             x_opt, f_opt, iters, func_calls, warnflag = opt.fmin(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
-- 
2.43.0


From 35029d6950bfbd99ea07ca06ffbc6a6d9ae80d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 46/81] fix: stored guesses are compared by their objective for
 every algorithm

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index f4495ed..6de45f9 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -423,7 +423,7 @@ class ExperimentDesigner(object):
             # Possibly compute the objective function value at the local optimum
             # if we don't already know it.
             if f_opt is None:
-                guess_qual = objective_function(x_opt)
+                f_opt = objective_function(x_opt)
             
             # Compare to the known best cost so far.
             if self.__best_cost is None or (self.__best_cost > f_opt):
-- 
2.43.0


From f042ae9a3741c790a204490530b39c383e9bebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 47/81] fix: the best known experiment does not alias arrays
 handed to the caller

---
 src/qinfer/expdesign.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6de45f9..f032499 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -431,9 +431,11 @@ class ExperimentDesigner(object):
                 # so record this guess.
                 ep[field] = x_opt
                 self.__best_cost = f_opt
-                self.__best_ep = ep
+                # Keep our own copy, so that changing the returned array does
+                # not change the best known experiment.
+                self.__best_ep = np.copy(ep)
             else:
-                ep = self.__best_ep # Guess is bad, return current best guess
+                ep = np.copy(self.__best_ep) # Guess is bad, return current best guess
         else:
             # We aren't using guess recording, so just pack the local optima
             # into ep for returning.
-- 
2.43.0


From 471e20362a1a2ac8f8e23f82f4dfbbee5f47d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 48/81] fix: NCG experiment design never optimized

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index f032499..4ea4cee 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -394,10 +394,10 @@ class ExperimentDesigner(object):
             # case, since by hypothesis, it's too flat to make much difference
             # anyway.
             try:
-                x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
+                x_opt, func_calls, return_code = opt.fmin_tnc(
                     objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
-                    disp=disp, full_output=True, **opt_options
+                    disp=disp, **opt_options
                 )
             except TypeError:
                 warnings.warn(
-- 
2.43.0


From f6777ba59c94b79a9d3a29e1af58d32fb620581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 49/81] fix: Fisher information for models whose outcome count
 varies

---
 src/qinfer/abstract_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 0008f70..3fe6e25 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -752,12 +752,15 @@ class DifferentiableModel(with_metaclass(abc.ABCMeta, Model)):
             # expectation value over data.
             for idx_experiment, experiment in enumerate(expparams):
                 experiment = experiment.reshape((1,))
-                n_o = self.n_outcomes(experiment)
+                n_o = int(np.ravel(self.n_outcomes(experiment))[0])
             
                 outcomes = np.arange(n_o)
                 scores, L = self.score(outcomes, modelparams, experiment, return_L=True)
                 
-                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijme",
+                if len(scores.shape) == 3:
+                    scores = scores[np.newaxis, :, :, :]
+                
+                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijm",
                     L, scores, scores
                 )
             
-- 
2.43.0


From d6224d4aaea5a2cd2425041a6e5f75213415bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 50/81] fix: pickling a parallelized model dropped most of its
 state

---
 src/qinfer/parallel.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 7989f15..f117de1 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -127,13 +127,9 @@ class DirectViewParallelizedModel(DerivedModel):
     def __getstate__(self):
         # Since instances of this class will be pickled as they are passed to
         # remote engines, we need to be careful not to include _dv
-        return {
-            '_underlying_model': self._underlying_model,
-            '_dv': None,
-            '_call_count': self._call_count,
-            '_sim_count': self._sim_count,
-            '_serial_threshold': self._serial_threshold
-        }
+        state = self.__dict__.copy()
+        state['_dv'] = None
+        return state
     
     ## PROPERTIES ##
 
-- 
2.43.0


From 22d809a434758fbadeed46fc99b84b82baf8d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 51/81] fix: parallelized models gave empty chunks to engines
 when there were fewer models than engines

---
 src/qinfer/parallel.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index f117de1..fb7c513 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -159,6 +159,11 @@ class DirectViewParallelizedModel(DerivedModel):
         return len(self._dv) if self._dv is not None else 0
             
     ## METHODS ##
+
+    def _n_chunks(self, values):
+        # Never split into more chunks than there are values, such that no
+        # engine is asked to work on an empty chunk.
+        return max(1, min(self.n_engines, values.shape[0]))
     
     def clear_cache(self):
         """
@@ -209,12 +214,13 @@ class DirectViewParallelizedModel(DerivedModel):
         # that doesn't use so much memory.
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
+        n_chunks = self._n_chunks(modelparams)
         L = self._dv.map_sync(
             serial_likelihood,
-            np.array_split(modelparams, self.n_engines, axis=0),
-            [self.underlying_model] * self.n_engines,
-            [outcomes] * self.n_engines,
-            [expparams] * self.n_engines
+            np.array_split(modelparams, n_chunks, axis=0),
+            [self.underlying_model] * n_chunks,
+            [outcomes] * n_chunks,
+            [expparams] * n_chunks
         )
 
         return np.concatenate(L, axis=1)
@@ -254,12 +260,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            n_chunks = self._n_chunks(modelparams)
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                np.array_split(modelparams, self.n_engines, axis=0),
-                [expparams] * self.n_engines,
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                np.array_split(modelparams, n_chunks, axis=0),
+                [expparams] * n_chunks,
+                [repeat] * n_chunks
             )
 
             return np.concatenate(os, axis=0)
@@ -272,12 +279,13 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            n_chunks = self._n_chunks(expparams)
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                [modelparams] * self.n_engines,
-                np.array_split(expparams, self.n_engines, axis=0),
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                [modelparams] * n_chunks,
+                np.array_split(expparams, n_chunks, axis=0),
+                [repeat] * n_chunks
             )
 
             return np.concatenate(os, axis=1)
-- 
2.43.0


From 89c7b61f563e2cccf4c2f1b41de19b1ae78c156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 52/81] fix: simulated outcomes of parallelized models were
 joined along the wrong axis

---
 src/qinfer/parallel.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index fb7c513..0e305e3 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -165,6 +165,19 @@ class DirectViewParallelizedModel(DerivedModel):
         # engine is asked to work on an empty chunk.
         return max(1, min(self.n_engines, values.shape[0]))
     
+    def _join_outcomes(self, chunks, modelparams, expparams, repeat, axis):
+        if len(chunks) == 1:
+            return chunks[0]
+        # Simulators unwrap the outcome of a single repetition of a single
+        # experiment on a single model, so that we must restore the axes of
+        # each chunk before joining them along the axis that was split.
+        shape = [repeat, modelparams.shape[0], expparams.shape[0]]
+        shape[axis] = -1
+        outcomes = np.concatenate([
+            np.asarray(chunk).reshape(shape) for chunk in chunks
+        ], axis=axis)
+        return outcomes
+
     def clear_cache(self):
         """
         Clears any cache associated with the serial model and the engines
@@ -269,7 +282,7 @@ class DirectViewParallelizedModel(DerivedModel):
                 [repeat] * n_chunks
             )
 
-            return np.concatenate(os, axis=0)
+            return self._join_outcomes(os, modelparams, expparams, repeat, 1)
 
         else:
             # If there's less models than some threshold, just use the serial model.
@@ -288,5 +301,5 @@ class DirectViewParallelizedModel(DerivedModel):
                 [repeat] * n_chunks
             )
 
-            return np.concatenate(os, axis=1)
+            return self._join_outcomes(os, modelparams, expparams, repeat, 2)
 
-- 
2.43.0


From dc91f8536b91360aba858c981af885f0bb62403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 53/81] fix: random walk models could not be pickled

---
 src/qinfer/derived_models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 62bc24e..07c1849 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -58,6 +58,7 @@ __all__ = [
 
 from builtins import range
 from functools import reduce
+from operator import itemgetter
 from past.builtins import basestring
 
 import numpy as np
@@ -773,6 +774,11 @@ class RandomWalkModel(DerivedModel):
         
         return modelparams[:, :, np.newaxis] + steps
         
+def _unit_scale(expparams):
+    # Default scale of GaussianRandomWalkModel; a module-level function such
+    # that the model can be pickled.
+    return 1
+
 class GaussianRandomWalkModel(DerivedModel):
     r"""
     Model such that after each time step, a random perturbation is 
@@ -881,9 +887,9 @@ class GaussianRandomWalkModel(DerivedModel):
             raise IndexError('random_walk_idxs out of bounds; must index (a subset of ) underlying_model modelparams.')
             
         if scale_mult is None:
-            self._scale_mult_fcn = (lambda expparams: 1)
+            self._scale_mult_fcn = _unit_scale
         elif isinstance(scale_mult, basestring):
-            self._scale_mult_fcn = lambda x: x[scale_mult]
+            self._scale_mult_fcn = itemgetter(scale_mult)
         else:
             self._scale_mult_fcn = scale_mult
             
-- 
2.43.0


From 81cf8ed676db8d0cbe620018dc8b6194edcc82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 54/81] fix: perf_test failed for true_mps given as a single
 vector, the documented form

---
 src/qinfer/perf_testing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 9905c09..fc12c0b 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -228,6 +228,10 @@ def perf_test(
     if true_mps is None:
         true_mps = true_prior.sample()
 
+    # Both forms of true_mps, a single vector and a one-row array, are used
+    # as a one-row array from here on.
+    true_mps = promote_dims_left(np.asarray(true_mps), 2)
+
     if extra_updater_args is None:
         extra_updater_args = {}
 
-- 
2.43.0


From 3a9016984a2a3050948dd20052ed9259480a6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 55/81] fix: a failing trial left the NumPy error policy of
 perf_test_multiple in force

---
 src/qinfer/perf_testing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index fc12c0b..4be227d 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -108,8 +108,10 @@ def timing():
     >>> print t.delta_t # Should return approximately 1.
     """
     t = Timer()
-    yield t
-    t.stop()
+    try:
+        yield t
+    finally:
+        t.stop()
 
 
 @contextmanager
@@ -124,8 +126,10 @@ def numpy_err_policy(**kwargs):
     """
 
     old_errs = np.seterr(**kwargs)
-    yield
-    np.seterr(**old_errs)
+    try:
+        yield
+    finally:
+        np.seterr(**old_errs)
 
 ## CONSTANTS #################################################################
 
-- 
2.43.0


From c43acf90f050b4b119614608f5f2f9cbfc29f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 56/81] fix: perf_test_multiple reported the index of a trial
 as the number of completed trials

---
 src/qinfer/perf_testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 4be227d..86a7083 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -367,16 +367,18 @@ def perf_test_multiple(
             # We'll loop through again to collect results.
             results = [apply(trial_fn) for idx in range(n_trials)]
 
+            n_completed = 0
             for idx, result in enumerate(results):
                 # FIXME: This is bad practice, but I don't feel like rewriting to
                 #        avoid right now.
                 try:
                     performance[idx, :] = result.get()
+                    n_completed += 1
                     if prog is not None:
-                        prog.update(idx)
+                        prog.update(n_completed)
                         if hasattr(prog, 'description'):
                             prog.description = 'Performance testing {} ({} / {})...'.format(
-                                name, idx, n_trials
+                                name, n_completed, n_trials
                             )
 
                 except:
-- 
2.43.0


From d3f8bcc52222ab67777cc47a494088703fa0d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 57/81] fix: truncating negative eigenvalues distorted states
 with repeated eigenvalues

---
 src/qinfer/tomography/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index 1bb2033..b0f697f 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -181,7 +181,9 @@ class TomographyModel(FiniteOutcomeModel):
             set to zero.
         """
         arr = np.tensordot(particle, self._basis.data.conj(), 1)
-        w, v = np.linalg.eig(arr)
+        # States are Hermitian; a general eigensolver need not return
+        # orthogonal eigenvectors for repeated eigenvalues.
+        w, v = np.linalg.eigh(arr)
         if np.all(w >= 0):
             return particle
         else:
-- 
2.43.0


From 1189c534ae824c993b831ea4cc5ad3223a388948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 58/81] fix: tomography.models.heisenberg_weyl_operators used
 QuTiP without importing it

---
 src/qinfer/tomography/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index b0f697f..516db85 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -55,6 +55,12 @@ from qinfer import FiniteOutcomeModel
 
 import numpy as np
 
+# Since the rest of QInfer does not require QuTiP,
+# we need to import it in a way that we don't propagate exceptions if QuTiP
+# is missing or is too early a version.
+from qinfer.utils import get_qutip_module
+qt = get_qutip_module('3.2')
+
 ## EXPORTS ###################################################################
 # TODO
 
-- 
2.43.0


From 3c2666422d65ead35ce62c0f02f7414ca722cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 59/81] fix: RandomStabilizerStateHeuristic could not choose
 from its operators

---
 src/qinfer/tomography/expdesign.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 5daac92..62e6db8 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -124,11 +124,11 @@ class RandomStabilizerStateHeuristic(StateTomographyHeuristic):
         self._hw_group = heisenberg_weyl_operators(self._basis.dim)
     
     def _next_measurement(self):
-        return qt.ket2dm(
-            np.random.choice(np.random.choice(
-                self._hw_group
-            ).eigenstates()[1])
-        )
+        # NB: np.random.choice cannot choose from lists of Qobjs.
+        eigenstates = self._hw_group[
+            np.random.choice(len(self._hw_group))
+        ].eigenstates()[1]
+        return qt.ket2dm(eigenstates[np.random.choice(len(eigenstates))])
 
 
 class RandomPauliHeuristic(StateTomographyHeuristic):
-- 
2.43.0


From 9fd5a2b35dc86c1763705553b7e2d73747d75751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 60/81] fix: state heuristics given a basis used the dimension
 of the model instead

---
 src/qinfer/tomography/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 62e6db8..07ab395 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -88,8 +88,8 @@ class StateTomographyHeuristic(Heuristic):
     def __init__(self, updater, basis=None, other_fields=None):     
         self._up = updater
         self._other_fields = {} if other_fields is None else other_fields
-        self._dim = updater.model.base_model.dim
         self._basis = updater.model.base_model.basis if basis is None else basis
+        self._dim = self._basis.dim
         
     def __call__(self):
         expparams = np.zeros((1,), dtype=self._up.model.expparams_dtype)
-- 
2.43.0


From 035ec8bdec6bf53957e72463a33e51a993ea0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 61/81] fix: BestOfKMetaheuristic failed for diffusive
 tomography models

---
 src/qinfer/tomography/expdesign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 07ab395..1b515c1 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -232,8 +232,10 @@ class BestOfKMetaheuristic(Heuristic):
             self._base_heuristic()[0] for _ in range(self._k)
         ], dtype=self._up.model.expparams_dtype)
         meas = expparams['meas']
+        # Models may have further parameters following those of the state.
+        n_mps = meas.shape[1]
         cov_expectations = np.einsum('ei,ij,ej->e',
-            meas, self._up.est_covariance_mtx(), meas
+            meas, self._up.est_covariance_mtx()[:n_mps, :n_mps], meas
         )
         
         expparams = expparams[np.argmax(cov_expectations), None]
-- 
2.43.0


From 574eb63fc1ee18c8f65ca10c4e0b456093050e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 62/81] fix: TensorProductDistribution could not be constructed

---
 src/qinfer/tomography/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 2e2ef00..0e4ddb7 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -153,9 +153,9 @@ class TensorProductDistribution(DensityOperatorDistribution):
     
     def __init__(self, factors):
         super(TensorProductDistribution, self).__init__(
-            basis=tensor_product_basis(
+            basis=tensor_product_basis(*[
                 factor.basis for factor in factors
-            )
+            ])
         )
         self._factors = tuple(factors)
 
-- 
2.43.0


From db7c8eea2e72ec18a7d94723cc380c6178660461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 63/81] fix: Ginibre states did not carry the dimensions of
 their basis, so they could not be combined with others

---
 src/qinfer/tomography/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 0e4ddb7..449e051 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -193,7 +193,9 @@ class GinibreDistribution(DensityOperatorDistribution):
     def _sample_dm(self):
         # Generate and flatten a density operator, so that we can multiply it
         # by the transformation defined above.
-        return qt.rand_dm_ginibre(self._dim, rank=self._rank)
+        return qt.rand_dm_ginibre(self._dim, rank=self._rank,
+            dims=[self.basis.dims, self.basis.dims]
+        )
 
 class GinibreReditDistribution(DensityOperatorDistribution):
     """
@@ -214,7 +216,9 @@ class GinibreReditDistribution(DensityOperatorDistribution):
     def _sample_dm(self):
         # Generate and flatten a density operator, so that we can multiply it
         # by the transformation defined above.
-        return rand_dm_ginibre_redit(self._dim, rank=self._rank)
+        return rand_dm_ginibre_redit(self._dim, rank=self._rank,
+            dims=[self.basis.dims, self.basis.dims]
+        )
 
 class BCSZChoiDistribution(DensityOperatorDistribution):
     """
-- 
2.43.0


From 2e7a3e9b51dbece5b9796215b4f02a0b2c9dbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 64/81] fix: GADFLIDistribution failed for means with a zero
 eigenvalue and for the maximally mixed mean

---
 src/qinfer/tomography/distributions.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 449e051..6dff681 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -275,16 +275,19 @@ class GADFLIDistribution(DensityOperatorDistribution):
 
         alpha = 1
         lambda_min = min(mean.eigenenergies())
-        if lambda_min < 0:
+        if lambda_min < -1e-10:
             raise ValueError("Negative eigenvalue {} in informative mean.".format(lambda_min))
         d = self.dim
-        beta = (
-            1 / (d * lambda_min - 1) - 1
-        ) if lambda_min > 0.5 else (
-            (d * lambda_min) / (1 - d * lambda_min)
-        )
-        if beta < 0:
-            raise ValueError("Beta < 0 for informative mean.")
+        # Means on the boundary (up to rounding) and the maximally mixed mean
+        # are the limits of no and of infinite beta, respectively.
+        if lambda_min < 1e-10:
+            lambda_min = 0
+        self._maximally_mixed = d * lambda_min > 1 - 1e-10
+        if self._maximally_mixed:
+            self._rho_star = mean
+            return
+
+        beta = (d * lambda_min) / (1 - d * lambda_min)
         self._alpha = alpha
         self._beta = beta
 
@@ -296,6 +299,8 @@ class GADFLIDistribution(DensityOperatorDistribution):
 
     def _sample_dm(self):
         fid_samp = self._fid._sample_dm()
-        eps = np.random.beta(self._alpha, self._beta)
+        if self._maximally_mixed:
+            return fid_samp
+        eps = np.random.beta(self._alpha, self._beta) if self._beta > 0 else 1.0
         return (1 - eps) * fid_samp + eps * self._rho_star
 
-- 
2.43.0


From cbb5752bb301f20066d320e1112a9dd1316e43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 65/81] fix: rebit plots used a matplotlib setting that no
 longer exists

---
 src/qinfer/tomography/plotting_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/plotting_tools.py b/src/qinfer/tomography/plotting_tools.py
index 7cfbb01..700dd44 100644
--- a/src/qinfer/tomography/plotting_tools.py
+++ b/src/qinfer/tomography/plotting_tools.py
@@ -171,7 +171,7 @@ def plot_rebit_prior(prior, rebit_axes=REBIT_AXES,
     :param np.ndarray true_state: State to be plotted as a "true" state for
         comparison.
     """
-    pallette = plt.rcParams['axes.color_cycle']
+    pallette = plt.rcParams['axes.prop_cycle'].by_key()['color']
 
     plot_rebit_modelparams(prior.sample(n_samples),
         c=pallette[0],
@@ -225,7 +225,7 @@ def plot_rebit_posterior(updater, prior=None, true_state=None, n_std=3, rebit_ax
     :param str region_est_method: Method to use to draw region estimation.
         Must be one of None, ``'cov'`` or ``'hull'``.
     """
-    pallette = plt.rcParams['axes.color_cycle']
+    pallette = plt.rcParams['axes.prop_cycle'].by_key()['color']
 
     plot_rebit_modelparams(updater.particle_locations,
         c=pallette[0],
-- 
2.43.0


From 9530524b6c5979b0ea68eced445e8919004160d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 66/81] fix: from_simplex gave NaN on the boundary of the
 simplex

---
 src/qinfer/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index ce305ac..f9fa4d5 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -525,10 +525,19 @@ def from_simplex(x):
     # the last one is always 1, so don't worry about it
     z = np.empty(shape=x.shape)
     z[..., 0] = x[..., 0]
-    z[..., 1:-1] = x[..., 1:-1] / (1 - x[..., :-2].cumsum(axis=-1))
+    # the fractions of the uniform simplex
+    z_uniform = 1 / (n - np.arange(n-1, dtype=float))
+    # where nothing is left of the stick, any fraction will do
+    remaining = 1 - x[..., :-2].cumsum(axis=-1)
+    is_left = remaining > 0
+    z[..., 1:-1] = np.where(is_left,
+        x[..., 1:-1] / np.where(is_left, remaining, 1), z_uniform[1:]
+    )
+    # rounding must not take fractions out of [0,1]
+    z[..., :-1] = np.clip(z[..., :-1], 0, 1)
 
     # now z are the logit-transformed breaking fractions
-    z[..., :-1] = logit(z[..., :-1]) - logit(1 / (n - np.arange(n-1, dtype=np.float)))
+    z[..., :-1] = logit(z[..., :-1]) - logit(z_uniform)
     # set this to 0 manually to avoid subtracting inf-inf
     z[..., -1] = 0
     return z
-- 
2.43.0


From 76818e16d8efc7ef93d305d1c6cdc0415686e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 67/81] fix: assert_sigfigs_equal accepted anything for
 negative numbers

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f9fa4d5..841cfec 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -397,7 +397,7 @@ def assert_sigfigs_equal(x, y, sigfigs=3):
         Default is 3.
     """
     # determine which power of 10 best describes x
-    xpow =  np.floor(np.log10(x))
+    xpow =  np.floor(np.log10(np.abs(x)))
     # now rescale 1 \leq x < 9
     x = x * 10**(- xpow)
     # scale y by the same amount
-- 
2.43.0


From cb20f27d097255ebc4cd1c816457b4401ce9f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 68/81] fix: join_struct_arrays failed for arrays that are not
 contiguous

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 841cfec..b182719 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -572,7 +572,7 @@ def join_struct_arrays(arrays):
     shape = arrays[0].shape
     joint = np.empty(shape + (offsets[-1],), dtype=np.uint8)
     for a, size, offset in zip(arrays, sizes, offsets):
-        joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
+        joint[...,offset:offset+size] = np.ascontiguousarray(a).view(np.uint8).reshape(shape + (size,))
     dtype = sum((a.dtype.descr for a in arrays), [])
     return joint.ravel().view(dtype)
 
-- 
2.43.0


From 79e21658ef9ea1bd82fe5f4a565481e6fc4f1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 69/81] fix: format_uncertainty dropped the leading digits of
 values and uncertainties below one

---
 src/qinfer/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index b182719..6aaea05 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -421,9 +421,9 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
         return "{0:f}".format(value)
     else:
         # Return a string of the form "0.00 \pm 0.01".
-        mag_unc = int(np.log10(np.abs(uncertianty)))
+        mag_unc = int(np.floor(np.log10(np.abs(uncertianty))))
         # Zero should be printed as a single digit; that is, as wide as str "1".
-        mag_val = int(np.log10(np.abs(value))) if value != 0 else 0
+        mag_val = int(np.floor(np.log10(np.abs(value)))) if value != 0 else 0
         n_digits = max(mag_val - mag_unc, 0)
 
 
@@ -439,6 +439,9 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
                 mag_unc
            )
         if abs(mag_val) <= scinotn_break:
+            # Without a scale, the digits of the uncertianty start at its
+            # magnitude, however small the value is.
+            n_digits = max(n_digits, -mag_unc)
             return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=n_digits).format(value, uncertianty)
         else:
             scale = 10**mag_val
-- 
2.43.0


From a695090a42dd85a0dd0ed75b0d8038095e344051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 70/81] fix: sample_multinomial failed for output shapes of
 several dimensions

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 6aaea05..1116de8 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -193,7 +193,7 @@ def sample_multinomial(N, p, size=None):
     samples = samples.reshape(np.concatenate([s, p.shape]))
     # should have shape (p.shape, size)
     samples = samples.transpose(np.concatenate(
-        [np.arange(s.ndim, p.ndim+s.ndim), np.arange(s.ndim)]
+        [np.arange(s.size, p.ndim+s.size), np.arange(s.size)]
     ))
 
     if size is None:
-- 
2.43.0


From 5e19275832db4c7e0db0cd2733af1a0542d19e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 71/81] fix: rescaled_distance_mtx ignored the scale matrix
 when only its second argument was an updater

---
 src/qinfer/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/metrics.py b/src/qinfer/metrics.py
index 9a1bd81..5f216ea 100644
--- a/src/qinfer/metrics.py
+++ b/src/qinfer/metrics.py
@@ -94,7 +94,11 @@ def rescaled_distance_mtx(p, q):
     # TODO: check that models are actually the same!
     p_locs = p.particle_locations if isinstance(p, qinfer.ParticleDistribution) else p
     q_locs = q.particle_locations if isinstance(q, qinfer.ParticleDistribution) else q
-    Q = p.model.Q if isinstance(p, qinfer.smc.SMCUpdater) else 1
+    # Either of the two knows the scale matrix of the model.
+    Q = next(
+        (updater.model.Q for updater in (p, q) if isinstance(updater, qinfer.smc.SMCUpdater)),
+        1
+    )
 
     # Because the modelparam axis is last in each of the three cases, we're
     # good as far as broadcasting goes.
-- 
2.43.0


From 228ac57038bd1e2690e80ddc79a52e21e25ba398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 72/81] fix: simple estimation failed for data files of one row

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index cc9ef1c..0a783dd 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -112,7 +112,7 @@ def load_data_or_txt(data, dtype):
         return data.to_records(index=False)
 
     elif hasattr(data, 'read') or isinstance(data, str):
-        data = np.loadtxt(data, dtype=dtype, delimiter=',')
+        data = np.loadtxt(data, dtype=dtype, delimiter=',', ndmin=1)
         return data
     else:
         raise TypeError("Expected a filename, an array or a file-like object.")
-- 
2.43.0


From e170e8d90d69409c8ca0df6c726eccd9c406b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 73/81] fix: simple_est_prec considered frequencies below the
 minimum feasible one

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 0a783dd..530907d 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -166,7 +166,7 @@ def simple_est_prec(data, freq_min=0.0, freq_max=1.0, n_particles=6000, return_a
         if ``return_all`` is `True`.
     """
     model = BinomialModel(SimplePrecessionModel(freq_min))
-    prior = UniformDistribution([0, freq_max])
+    prior = UniformDistribution([freq_min, freq_max])
 
     data = load_data_or_txt(data, [
         ('counts', 'uint'),
-- 
2.43.0


From 9a48cc74335661de02ee9a1d2e253b5f80ed259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 74/81] fix: data_to_params failed for scalar experiment types
 given by name

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 530907d..44b4f09 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -83,7 +83,7 @@ def data_to_params(data,
     """
     BY_IDX, BY_NAME = range(2)
 
-    is_exp_scalar = np.issctype(expparams_dtype)
+    is_exp_scalar = not np.dtype(expparams_dtype).fields
     is_data_scalar = np.issctype(data.dtype) and not data.dtype.fields
 
     s_ = (
-- 
2.43.0


From 223796cd3e6ff11a76f58d39fe7a17fcdc73c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 75/81] fix: ALEApproximateModel drew samp_step rather than
 min_samp samples to begin with

---
 src/qinfer/ale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/ale.py b/src/qinfer/ale.py
index add7171..ce2876a 100644
--- a/src/qinfer/ale.py
+++ b/src/qinfer/ale.py
@@ -150,14 +150,16 @@ class ALEApproximateModel(DerivedModel):
         
         # Start off with min_samp samples.
         n = np.zeros((modelparams.shape[0], expparams.shape[0]))
+        n_new = self._min_samp
         for N in count(start=self._min_samp, step=self._samp_step):
             sim_data = simulator.simulate_experiment(
-                modelparams, expparams, repeat=self._samp_step
+                modelparams, expparams, repeat=n_new
             )
             n += np.sum(sim_data, axis=0) # Sum over the outcomes axis to find the
                                           # number of 1s.
             error_est_p1 = binom_est_error(binom_est_p(n, N, self._adapt_hedge), N, self._adapt_hedge)
             if np.all(error_est_p1 < self._error_tol): break
+            n_new = self._samp_step
             
         return FiniteOutcomeModel.pr0_to_likelihood_array(outcomes, 1 - binom_est_p(n, N, self._est_hedge))
     
\ No newline at end of file
-- 
2.43.0


From 786ebf22a072a434ee921223e7d466fa44113cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 76/81] fix: posterior_mesh assigned each density to the
 mirrored mesh point

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index b237c78..5729ee4 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -830,7 +830,7 @@ class SMCUpdater(ParticleDistribution):
             np.linspace(np.min(locs[:, 0]), np.max(locs[:, 0]), res1),
             np.linspace(np.min(locs[:, 1]), np.max(locs[:, 1]), res2)
         )
-        plot_locs = np.array([p1s, p2s]).T.reshape((np.prod(p1s.shape), 2))
+        plot_locs = np.array([p1s.ravel(), p2s.ravel()]).T
 
         pr = np.sum( # <- sum over the particles in the SMC approximation.
             np.prod( # <- product over model parameters to get a multinormal
-- 
2.43.0


From 940d3f5fe4cc784ae5018d700a5ad745bf03948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 77/81] fix: posterior_marginal smoothed by more than the
 requested width at low resolution

---
 src/qinfer/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 5729ee4..e3fe06c 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -720,7 +720,8 @@ class SMCUpdater(ParticleDistribution):
         # get distribution from derivative of cdf, and smooth it
         pr = np.gradient(interp(ps), ps[1]-ps[0])
         if smoothing > 0:
-            gaussian_filter1d(pr, res*smoothing/(np.abs(r_max-r_min)), output=pr)
+            # The kernel width is given in units of the grid spacing.
+            gaussian_filter1d(pr, smoothing/np.abs(ps[1]-ps[0]), output=pr)
 
         del interp
 
-- 
2.43.0


From 860cc32ec161c417ee5b5b3d712f2de58b831bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 78/81] fix: plot rebit posteriors without a true state, and
 priors without a known mean

---
 src/qinfer/tomography/plotting_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/tomography/plotting_tools.py b/src/qinfer/tomography/plotting_tools.py
index 700dd44..f69766a 100644
--- a/src/qinfer/tomography/plotting_tools.py
+++ b/src/qinfer/tomography/plotting_tools.py
@@ -235,13 +235,14 @@ def plot_rebit_posterior(updater, prior=None, true_state=None, n_std=3, rebit_ax
         zorder=-10
     )
 
-    plot_rebit_modelparams(true_state,
-        c=pallette[1],
-        label='True', marker='*', s=true_size,
-        rebit_axes=rebit_axes
-    )
+    if true_state is not None:
+        plot_rebit_modelparams(true_state,
+            c=pallette[1],
+            label='True', marker='*', s=true_size,
+            rebit_axes=rebit_axes
+        )
 
-    if prior is not None:
+    if hasattr(prior, '_mean'):
         plot_rebit_modelparams(
             prior._basis.state_to_modelparams(prior._mean)[None, :],
             edgecolors=pallette[3], s=250, facecolors='none', linewidth=3,
-- 
2.43.0


From 8d1f09cadf4084eb5a7f1605e0edbf84e1c2363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 79/81] fix: HilbertSchmidtUniform drew from the Bures ensemble

---
 src/qinfer/distributions.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 4842d24..6f0bc9d 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1198,20 +1198,12 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         return self.dim**2 - 1
 
     def _sample(self):
-        #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
-        g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
-        q,r = la.qr(g)
-        d = np.diag(r)
-
-        ph = d/np.abs(d)
-        ph = np.diag(ph)
-
-        U = np.dot(q,ph)
-
         #Generate random matrix
         z = np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim)
 
-        rho = np.dot(np.dot(np.identity(self.dim)+U,np.dot(z,z.conj().transpose())),np.identity(self.dim)+U.conj().transpose())
+        # With a factor 1 + U on either side, for a random unitary U, this
+        # would be the Bures ensemble instead.
+        rho = np.dot(z,z.conj().transpose())
         rho = rho/np.trace(rho)
 
         x = np.zeros([self.n_rvs])
-- 
2.43.0


From 4cd235d3c2d556fe95a524ba01bf48489fab5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 80/81] fix: count members of multinomial domains exactly

The number was computed in floating point, which is off by one from about
10^8 members and arbitrary for large domains.
---
 src/qinfer/domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index e349430..2e8f341 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -43,7 +43,7 @@ from future.utils import with_metaclass
 from functools import reduce
 
 from operator import mul
-from scipy.special import binom
+from scipy.special import comb
 from math import factorial
 from itertools import combinations_with_replacement, product
 import numpy as np
@@ -622,7 +622,8 @@ class MultinomialDomain(Domain):
 
         :type: ``int``
         """
-        return int(binom(self.n_meas + self.n_elements -1, self.n_elements - 1))
+        # Counted in integers, as floats are exact for small numbers only.
+        return comb(int(self.n_meas) + self.n_elements - 1, self.n_elements - 1, exact=True)
 
     @property
     def example_point(self):
-- 
2.43.0


From 87f449282a1ed50a8635a7bce9d6376c5fb649e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 81/81] fix: multinomial domains with a single element

A field of shape 1 is a scalar field, so that the example point and the
conversions failed; state the shape as a tuple.
---
 src/qinfer/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 2e8f341..60d00db 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -612,7 +612,7 @@ class MultinomialDomain(Domain):
 
         :type: `np.dtype`
         """
-        return np.dtype([('k', np.int, self.n_elements)])
+        return np.dtype([('k', np.int, (self.n_elements,))])
 
     @property
     def n_members(self):
-- 
2.43.0

