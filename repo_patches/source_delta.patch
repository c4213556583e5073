From 0d6e67e3cae758fe28aec5e5a63f9367c00032d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 1/8] fix: Student-t likelihood overflows for several hundred
 observations; use gammaln

---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From a9b0a5525a592caa2c33378bbaab6183f92c690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 2/8] fix: Thompson sampling iteration takes the minimum of the
 sampled function over the candidates

---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..bf11b41 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0, :])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From fbe9ce4f15e3671610610a25a3194efb03cd3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 3/8] fix: get_logger attaches its handler only once per logger

---
 bayeso/utils/utils_logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index b12773b..e3b076e 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -30,6 +30,9 @@ def get_logger(str_name: str) -> logging.Logger:
     logger = logging.getLogger(str_name)
     logger.setLevel(logging.DEBUG)
 
+    if logger.handlers:
+        return logger
+
     ch = logging.StreamHandler()
     ch.setLevel(logging.DEBUG)
 
-- 
2.43.0


From f042f566ddadaf2cb5bc5feb21ccf26914cbda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 4/8] fix: GP sample_functions keeps the (num_samples, n) shape
 for a single point

---
 bayeso/gp/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..f924a6a 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -48,7 +48,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
     assert mu.shape[0] == Sigma.shape[0] == Sigma.shape[1]
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
-    list_rvs = [rv.rvs() for _ in range(0, num_samples)]
+    list_rvs = [np.atleast_1d(rv.rvs()) for _ in range(0, num_samples)]
     return np.array(list_rvs)
 
 @utils_common.validate_types
-- 
2.43.0


From 55c88d03265ee34beab4952aa61cb12ec45e03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 5/8] fix: TP sample_functions keeps the (num_samples, n) shape
 for a single point

---
 bayeso/tp/tp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..5b7dff9 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -54,7 +54,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
         x = np.random.chisquare(nu, num_samples) / nu
 
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
-    list_samples = [rv.rvs() for _ in range(0, num_samples)]
+    list_samples = [np.atleast_1d(rv.rvs()) for _ in range(0, num_samples)]
 
     samples = np.array(list_samples)
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
-- 
2.43.0


From 3ffaff18e4dbfb61520eeef6370dc2d891f2c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 6/8] fix: leave-one-out pseudo-likelihood accounts for the
 prior mean

---
 bayeso/gp/gp_likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..a0d895a 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -155,6 +155,7 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
+    new_Y_train = Y_train - prior_mu_train
     hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
@@ -167,10 +168,10 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 #        cur_Y_train = np.vstack((Y_train[:ind_data], Y_train[ind_data+1:]))
 
 #        cur_X_test = np.expand_dims(X_train[ind_data], axis=0)
-        cur_Y_test = Y_train[ind_data]
+        cur_Y_test = new_Y_train[ind_data]
 
         cur_mu = np.squeeze(cur_Y_test) \
-            - np.dot(inv_cov_X_X, Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
+            - np.dot(inv_cov_X_X, new_Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
         cur_sigma = np.sqrt(1.0 / (inv_cov_X_X[ind_data, ind_data] + constants.JITTER_COV))
 
         first_term = -0.5 * np.log(cur_sigma**2)
-- 
2.43.0


From 695e52ae6a4e706595790e82851f5df4b0ed2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 7/8] fix: leave-one-out model selection restores a shared
 lengthscale when use_ard is off

---
 bayeso/gp/gp_kernel.py     | 3 +--
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..d1e9b10 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -93,9 +93,8 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
             use_ard=use_ard, fix_noise=fix_noise,
             use_gradient=use_gradient, debug=debug)
     elif str_modelselection_method == 'loocv':
-        # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug, use_ard=use_ard)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index a0d895a..18ad70a 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,18 +148,18 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
     assert isinstance(fix_noise, bool)
+    assert isinstance(use_ard, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
     new_Y_train = Y_train - prior_mu_train
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
-- 
2.43.0


From 39ccaf7b1ef4e3d2c05ea71c203c2d66e3110710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 8/8] fix: refuse inconsistent initial inputs before evaluating
 the target

---
 bayeso/wrappers/wrappers_bo_class.py    | 1 +
 bayeso/wrappers/wrappers_bo_function.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 03206b9..abc8348 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -425,6 +425,7 @@ class BayesianOptimization:
 
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
+        assert X.shape[1] == self.model_bo.num_dim
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index d94a6a8..8b3ab09 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -181,6 +181,9 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(num_samples_ao, int)
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
+    assert X_train.shape[1] == model_bo.num_dim
+    assert num_samples_ao > 0
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     Y_train = []
-- 
2.43.0

