From 4cd8ec2ba8def4013982df5449bbf89f1e44575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 01/29] fix: RK2 forward covariance predictor uses A(t), not
 S(t), as linear parameter

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From 2befbd93b9a8df9fddfc858d9bd20c73c8f8bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 02/29] fix: adjoint of the mean equation propagates lambda
 with A transposed

---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..7ed15d1 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (lam * A)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From a73e5b37c614e470bc982a2b4d32c4ca854c188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 03/29] fix: double-well energy uses 16*E[x^6], as its
 gradients do

---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From 0af60b3090ba15794425f91cdd82f2824270920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 04/29] fix: Lorenz models accept a scalar noise value

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From 9d863e6b8dde058b58a72a8418bf4414cd1538e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 05/29] fix: Lorenz noise setters reject every matrix that is
 not positive definite

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..f3cf214 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From baccbf2374b391ee1b6a01a1a9e6d057bc111e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 06/29] fix: 1-D initial KL weights log(s0) by one half

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From a5a18337da2aa7a0f5b30b27dbf6e1c8497728ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 07/29] fix: n-D initial KL uses the outer product of the mean
 difference

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..948fe77 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -85,7 +85,7 @@ class PriorKL0(object):
 
         # Energy of the initial moment.
         kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From 521d769b2b415f42dbb5e47e21e05cf88156f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 08/29] fix: n-D initial KL takes log-determinants of the
 symmetric matrices

---
 src/var_bayes/prior_kl0.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 948fe77..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,14 +77,11 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
                      np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
-- 
2.43.0


From 17e1ec49d2a3311288a42c2a866bdf40033c1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/29] fix: n-D likelihood reads the covariance at the
 observation time

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..cd71d13 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -142,7 +142,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 0e016a4c068f35ff9c161a3a382e1512f0d7294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 10/29] fix: n-D likelihood applies the observation operator to
 the mean, not to the residual

---
 src/var_bayes/gaussian_like.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index cd71d13..a907538 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -116,7 +116,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
@@ -219,7 +219,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 8cc799bdccc83e88b4daaa0abef08c312dbaef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 11/29] fix: n-D likelihood uses the full trace of the mapped
 covariance term

---
 src/var_bayes/gaussian_like.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index a907538..bcb6da7 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -121,8 +121,8 @@ class GaussianLikelihood(Likelihood):
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
+        # Pre-compute this only once.
+        inv_rn_h = H.T.dot(inv_rn).dot(H)
 
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
@@ -130,19 +130,13 @@ class GaussianLikelihood(Likelihood):
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
+            Eobs += zn_sq + np.sum(inv_rn_h * s[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 20c24986140e7877b9c84f8d0980b7e22aa12d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/29] fix: 1-D likelihood and its gradients apply the
 observation operator consistently

---
 src/var_bayes/gaussian_like.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index bcb6da7..1c560c7 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -83,12 +83,15 @@ class GaussianLikelihood(Likelihood):
         # Total number of observations.
         dim_m = obs_t.size
 
+        # Observation operator.
+        H = self.operator
+
         # Second order Gaussian moments,
         # at observation times only.
         Ex2 = (m[obs_t] ** 2) + s[obs_t]
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -179,10 +182,10 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
         dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
-- 
2.43.0


From 9203a01aa173cc94285bfae6caf345c2cf4242e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 13/29] fix: 1-D likelihood gradient w.r.t. the observation
 noise

---
 src/var_bayes/gaussian_like.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 1c560c7..cc5b286 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -188,7 +188,8 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = 0.5 * (1.0 - ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] +
+                                        (H ** 2) * Ex2) / self.noise) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From 6ff9a15b04e92847fdbde1813d1f663a97f3e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 14/29] fix: a random seed of zero is a seed

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From 3a3ade4425fb9a3016acf2e86db9f4d8d4bebeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 15/29] fix: Lorenz path noise uses the lower Cholesky factor
 so its covariance is sigma*dt

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f3cf214..e7e52d1 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..f652fae 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -288,7 +288,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From 1be1f31c5ba29b49b943b79029ea3c1cab56b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 16/29] fix: Lorenz-96 energy evaluates the drift of each sigma
 point separately

---
 src/dynamics/lorenz_96.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index f652fae..cd8caf2 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -376,11 +376,12 @@ class Lorenz96(StochasticProcess):
         # Gradients of Esde w.r.t. 'Sigma'.
         dEsde_dSig = np.zeros((dim_t, dim_d))
 
+        # Define lambda function (one sample per row).
+        fun_2 = lambda xt: np.array([l96(xk, theta) for xk in xt])
+
         # Define lambda function.
-        fun_1 = lambda xt, at, bt: (l96(xt, theta) + xt.dot(at.T) -
+        fun_1 = lambda xt, at, bt: (fun_2(xt) + xt.dot(at.T) -
                                     np.tile(bt, (xt.shape[0], 1))) ** 2
-        # Define lambda function.
-        fun_2 = lambda xt: l96(xt, theta)
 
         # Identity matrix.
         iD = np.eye(dim_d)
-- 
2.43.0


From 65e935e79bff5129d42bc552f339e0921da15116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 17/29] fix: unscented covariance uses the weighted deviations
 from the mean

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..2a7798e 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -299,7 +299,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     y_bar = weights.dot(y).ravel()
 
     # Compute the approximate covariance.
-    w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
+    w_m = np.eye(dim_m) - np.tile(weights.T, (1, dim_m))
     Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
 
     # Compute the new approximate covariance.
-- 
2.43.0


From b1dd6069992b683472856358a0101de91c447670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 18/29] fix: unscented fallback scales the diagonal sigma
 points

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 2a7798e..0b8dbe5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From cfab42879692ca42cd6a279fc2e1d521c03ab9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 19/29] fix: Gaussian moments raise the intended error on shape
 mismatch

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From 188ba53258dc6565d748016f0b4ddfa4eb5eaa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 20/29] fix: Cholesky inversion accepts integer matrices

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 0b8dbe5..4bd9a75 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -227,7 +227,7 @@ def chol_inv(x):
     """
 
     # Make sure input is array.
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
 
     # Check if the input is scalar.
     if x.ndim == 0:
-- 
2.43.0


From 0226d1b68e0a491f29fb5d5d37806d5d9dfdc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 21/29] fix: observation mask may be a numpy array

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..70c2040 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
-- 
2.43.0


From ff756fde11f7046646a8e1972c2e4fe18716d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 22/29] fix: masking down to one observed component keeps its
 dimension

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index 70c2040..5d45035 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -187,7 +187,7 @@ class StochasticProcess(object):
         dim_d = 1 if obs_y.ndim == 1 else obs_y.shape[-1]
 
         # Add noise according to the observation dimensions.
-        if dim_d == 1:
+        if obs_y.ndim == 1:
             # Scalar value.
             obs_noise = rn
 
-- 
2.43.0


From 7c58138f563e9fc67b3d077c0801373815df12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 23/29] fix: initialization accepts observations at the ends of
 the time window

---
 src/var_bayes/variational.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..6239830 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -86,6 +86,10 @@ class VarGP(object):
         # Replicate the first and last time points.
         time_x = [time_window[0], *time_window[self.obs_t], time_window[-1]]
 
+        # Drop a replicated end point that has been observed itself.
+        keep = slice(int(self.obs_t[0] == 0),
+                     len(time_x) - int(self.obs_t[-1] == self.dim_n - 1))
+
         # Switch according to the dimensionality.
         if self.model.single_dim:
             # Replicate the first and last observations.
@@ -96,7 +100,7 @@ class VarGP(object):
 
             # Build a uni-variate extrapolation
             # (with cubic splines).
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x[keep], obs_z[keep])
 
             # Generate the offset parameters on the whole time window.
             b0 = fb0(time_window)
@@ -106,7 +110,7 @@ class VarGP(object):
 
             # Cubic spline extrapolation for
             # each dimension separately.
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x[keep], obs_z[keep])
             mt0 = fb0(time_window)
 
             # Preallocate variational parameters.
-- 
2.43.0


From 6a96fdf0e0219579b4e9d687a47765c514317265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 24/29] fix: simulation with given data sets the observation
 noise

---
 src/var_bayes/simulation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..c98e65f 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -145,7 +145,16 @@ class Simulation(object):
         # This needs to be revisited.
         if data is not None:
             self.m_data["obs_t"] = data[0]
-            self.m_data["obs_y"] = data[1]
+            self.m_data["obs_y"] = np.asarray(data[1])
+
+            # Observation noise, in the form that collect_obs() returns.
+            obs_noise = np.asarray(self.m_data["noise"]["obs"])
+
+            if self.m_data["obs_y"].ndim > 1:
+                obs_noise = obs_noise * np.eye(self.m_data["obs_y"].shape[-1])
+            # _end_if_
+
+            self.m_data["obs_noise"] = obs_noise
         else:
             # Sample observations from the trajectory.
             obs_t, obs_y, obs_noise = self.m_data["model"].collect_obs(self.m_data["obs_setup"]["density"],
-- 
2.43.0


From 6aae94c3893b1ddaa6dce3651bd55f5748b5736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 25/29] fix: saving accepts zero-dimensional arrays

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index c98e65f..16c16a4 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -307,7 +307,7 @@ class Simulation(object):
                 for key in data:
 
                     # Convert scalars to 1D arrays.
-                    if np.isscalar(data[key]):
+                    if np.ndim(data[key]) == 0:
                         data[key] = np.atleast_1d(data[key])
                     # _end_if_
 
-- 
2.43.0


From ed973c5ead7ba8d18fb6ea411ca9f86c63d7275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 26/29] fix: stored moments belong to the returned variational
 parameters

---
 src/var_bayes/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 16c16a4..946fe51 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -242,6 +242,9 @@ class Simulation(object):
         # Stop the timer.
         time_tf = time.perf_counter()
 
+        # Make the stored moments consistent with the result.
+        _ = vgpa.free_energy(x)
+
         # Final gradient test.
         # optimize.check_gradient_function(x.copy())
 
-- 
2.43.0


From 8804fd7a40520cc45346a0c78bd1918b8c23193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 27/29] fix: observations from a csv file reach the simulation
 as (times, values)

---
 vgpa_main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vgpa_main.py b/vgpa_main.py
index 77193b8..d5c7d7f 100755
--- a/vgpa_main.py
+++ b/vgpa_main.py
@@ -112,6 +112,9 @@ def main(params_file=None, data_file=None):
             obs_data = pd.read_csv(input_file,
                                    names=["t", "Yt"])
         # _end_with_
+
+        # Observation times and values.
+        obs_data = (obs_data["t"].to_numpy(), obs_data["Yt"].to_numpy())
     # _end_if_
 
     # Get the output name from the file.
-- 
2.43.0


From b98d4e16f37c38c34ae83daef8dbb6c98fc76759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 28/29] fix: Lorenz-63 covariance gradient shares off-diagonal
 derivatives between both entries

---
 src/dynamics/lorenz_63.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index e7e52d1..53c8752 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,11 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # Each off-diagonal (covariance) value appears twice in S(t), so
+        # its derivative is shared equally between the two entries.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From 7c454c97b38cacba7c116a5c7018e8ffa723f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 29/29] fix: load reads saved datasets with their own type

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 946fe51..9ef9b38 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -349,7 +349,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0

