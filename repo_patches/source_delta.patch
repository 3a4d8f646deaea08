From 3a3629bf494079932505803c4fa5b9edba3d8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 01/58] fix: DRos with lambda_=0 returns NaN when an importance
 weight is zero

---
 obp/ope/estimators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..049cb09 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1667,7 +1667,9 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         """
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
-        if self.lambda_ < np.inf:
+        if self.lambda_ == 0.0:
+            iw_hat = np.zeros_like(iw)
+        elif self.lambda_ < np.inf:
             iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
         else:
             iw_hat = iw
@@ -1750,7 +1752,9 @@ class DoublyRobustWithShrinkage(DoublyRobust):
 
         # estimate the (high probability) upper bound of the bias of DRos
         iw = action_dist[np.arange(n), action, position] / pscore
-        if self.lambda_ < np.inf:
+        if self.lambda_ == 0.0:
+            iw_hat = np.zeros_like(iw)
+        elif self.lambda_ < np.inf:
             iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
         else:
             iw_hat = iw
-- 
2.43.0


From f250122bda44830f8f1844c5f279fad1c91f3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 02/58] fix: balanced multi-logger estimators raise TypeError
 in estimate_interval

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From df260c8391dafe1d2373473d1a41e05e75dc0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 03/58] fix: weighted multi-logger estimators fail when stratum
 labels are not 0..K-1

---
 obp/ope/estimators_multi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..6ae5183 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,14 +683,16 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx_, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = stratum_idx_ == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
 
-        return reward * iw * weight_k[stratum_idx]
+        return reward * iw * weight_k[stratum_idx_]
 
     def estimate_policy_value(
         self,
@@ -1600,16 +1602,18 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx_, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = stratum_idx_ == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
+        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx_]
 
         return estimated_rewards
 
-- 
2.43.0


From 7a6ee3a2269fbb3cc8292756ea3b19ec99ab7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 04/58] fix: Multi-Weighted-DR does not apply the stratum
 weights to the direct-method term

---
 obp/ope/estimators_multi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 6ae5183..83a26ee 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -1613,7 +1613,8 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx_]
+        estimated_rewards += iw * (reward - q_hat_factual)
+        estimated_rewards *= weight_k[stratum_idx_]
 
         return estimated_rewards
 
-- 
2.43.0


From f89ea79986fa48149e5a09e17c45042a1549ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 05/58] fix: kernelized estimators fail on integer-valued
 action arrays

---
 obp/ope/estimators_continuous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/estimators_continuous.py b/obp/ope/estimators_continuous.py
index 1bae79b..895907e 100644
--- a/obp/ope/estimators_continuous.py
+++ b/obp/ope/estimators_continuous.py
@@ -157,7 +157,7 @@ class KernelizedInverseProbabilityWeighting(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= self.bandwidth
         return estimated_rewards
@@ -383,7 +383,7 @@ class KernelizedSelfNormalizedInverseProbabilityWeighting(
 
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= (kernel_func(u) / pscore).mean()
         return estimated_rewards
@@ -604,7 +604,7 @@ class KernelizedDoublyRobust(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = (
             kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
         )
-- 
2.43.0


From fc6d8d3fd2ef4334fa86e03c6a8b382f36ab864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 06/58] fix: tuned estimators reuse the hyperparameter chosen
 for earlier data

---
 obp/ope/estimators_tuning.py | 74 ++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..0de7e6a 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -240,25 +240,24 @@ class BaseOffPolicyEstimatorTuning:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
         # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(
             lambda_=self.best_hyperparam, use_estimated_pscore=self.use_estimated_pscore
@@ -337,25 +336,24 @@ class BaseOffPolicyEstimatorTuning:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
         # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(self.best_hyperparam).estimate_interval(
             reward=reward,
-- 
2.43.0


From 3bff1de232026d975805847a34d559d9dc5791a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 07/58] fix: tuned estimators sort the caller's list of
 candidates in place

---
 obp/ope/estimators_tuning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 0de7e6a..c328198 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -417,7 +417,7 @@ class InverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = InverseProbabilityWeighting
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -617,7 +617,7 @@ class DoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -837,7 +837,7 @@ class SwitchDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SwitchDoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -1057,7 +1057,7 @@ class DoublyRobustWithShrinkageTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobustWithShrinkage
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1286,7 +1286,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
         self.base_ope_estimator = SubGaussianInverseProbabilityWeighting
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1485,7 +1485,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SubGaussianDoublyRobust
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
-- 
2.43.0


From 91580726b494236641b88772140e56e6712d0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 08/58] fix: tuned sub-Gaussian estimators reject estimated
 propensity scores

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index c328198..9d7af7b 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1353,6 +1353,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1433,6 +1434,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1562,6 +1564,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1653,6 +1656,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From f2c70576cabb808e81705ff8cde53b13eb4f3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 09/58] fix: embedding selection of MIPW ignores the last
 accepted subset

---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..e869af3 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -385,7 +385,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -473,7 +473,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From e024556a849e704949cd1759572a76b645d03b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 10/58] fix: SNMIPW is not self-normalized when embedding
 selection is used

---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e869af3..2e68ab5 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -709,7 +709,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From d2036906b0f80a2c6f716a6fae8a11685434b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:18 +0000
Subject: [PATCH 11/58] fix: MIPW multiplies per-dimension marginals instead of
 marginalizing the joint embedding probability

---
 obp/ope/estimators_embed.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 2e68ab5..9df7146 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -163,13 +163,11 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
@@ -688,13 +686,11 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
-- 
2.43.0


From 6e2b511729f5c7fcfd8294cf8676b544d8f97ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 12/58] fix: OffPolicyEvaluation raises NameError when p_e_a is
 given as an array

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From e4181f3452d068a3493bb89127a5137ae5582ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:54 +0000
Subject: [PATCH 13/58] fix: logs whose length differs from the evaluation
 policy are silently evaluated

A one-round log broadcast against an n-round action_dist, other mismatches
surfaced as IndexError instead of the documented ValueError.
---
 obp/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/utils.py b/obp/utils.py
index d3e9780..bf1dc88 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -399,6 +399,10 @@ def check_ope_inputs(
             raise ValueError(
                 "`action` elements must be integers in the range of [0, `action_dist.shape[1]`)"
             )
+        if not (action.shape[0] == action_dist.shape[0]):
+            raise ValueError(
+                "Expected `action.shape[0] == action_dist.shape[0]`, but found it False"
+            )
 
     # pscore
     if pscore is not None:
-- 
2.43.0


From 93c82cc0cf5c6694777c11f3489612d4fdd3d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:02 +0000
Subject: [PATCH 14/58] fix: MIPW silently broadcasts a one-row action_embed
 over the whole log

---
 obp/ope/estimators_embed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 9df7146..c853f03 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -284,6 +284,10 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             action=action,
             reward=reward,
         )
+        if not (action_embed.shape[0] == reward.shape[0]):
+            raise ValueError(
+                "Expected `action_embed.shape[0] == reward.shape[0]`, but found it False"
+            )
         if position is None:
             position = np.zeros(action_dist.shape[0], dtype=int)
         if p_e_a is not None:
@@ -555,6 +559,10 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             action=action,
             reward=reward,
         )
+        if not (action_embed.shape[0] == reward.shape[0]):
+            raise ValueError(
+                "Expected `action_embed.shape[0] == reward.shape[0]`, but found it False"
+            )
         if position is None:
             position = np.zeros(action_dist.shape[0], dtype=int)
         if p_e_a is not None:
-- 
2.43.0


From 36b53a4d3ee32c5c6e5f483c3a1554067573e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:53 +0000
Subject: [PATCH 15/58] fix: online logistic regression ignores observations
 with zero reward

The loss used labels in {-1, 1} while bandit rewards are in {0, 1}, so a
zero reward contributed a constant and never lowered the predicted reward.
---
 obp/policy/logistic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..9badb22 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -322,15 +322,15 @@ class MiniBatchLogisticRegression:
         X, y = args
         return (
             0.5 * (self._q * (w - self._m)).dot(w - self._m)
-            + np.log(1 + np.exp(-y * w.dot(X.T))).sum()
+            + (np.logaddexp(0.0, w.dot(X.T)) - y * w.dot(X.T)).sum()
         )
 
     def grad(self, w: np.ndarray, *args) -> np.ndarray:
         """Calculate gradient."""
         X, y = args
-        return self._q * (w - self._m) + (-1) * (
-            ((y * X.T) / (1.0 + np.exp(y * w.dot(X.T)))).T
-        ).sum(axis=0)
+        return self._q * (w - self._m) + (
+            (sigmoid(w.dot(X.T)) - y) * X.T
+        ).T.sum(axis=0)
 
     def sample(self) -> np.ndarray:
         """Sample coefficient vector from the prior distribution."""
-- 
2.43.0


From 167b15198d3320d7b5ac3fd39651180c14885b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:53 +0000
Subject: [PATCH 16/58] fix: Laplace update of online logistic regression uses
 a wrong probability

The precision update needs p = 1 / (1 + exp(-Xw)) (Chapelle and Li, 2011).
---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 9badb22..858dc7c 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -346,7 +346,7 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = sigmoid(X.dot(self._m))
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
-- 
2.43.0


From 9fd5d3d308702a8030cb0f5a671461984e21745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:53 +0000
Subject: [PATCH 17/58] fix: logistic Thompson sampling uses the variance as
 the standard deviation

_q is a precision, so the posterior standard deviation is _q ** (-1/2).
---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 858dc7c..51b8cad 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -351,7 +351,7 @@ class MiniBatchLogisticRegression:
 
     def sd(self) -> np.ndarray:
         """Standard deviation for the coefficient vector."""
-        return self.alpha * (self._q) ** (-1.0)
+        return self.alpha * (self._q) ** (-0.5)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
         """Predict extected probability by the expected coefficient."""
-- 
2.43.0


From 69d3d4d66654426d94e9c01281a7e4d8fe2ccef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:53 +0000
Subject: [PATCH 18/58] fix: initialize of logistic policies keeps the fitted
 models

---
 obp/policy/logistic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 51b8cad..aa38efa 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -70,6 +70,12 @@ class BaseLogisticPolicy(BaseContextualPolicy):
             for i in np.arange(self.n_actions)
         ]
 
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        for model in self.model_list:
+            model.__post_init__()
+
     def update_params(self, action: int, reward: float, context: np.ndarray) -> None:
         """Update policy parameters.
 
-- 
2.43.0


From fa0f0dbdeefde834a3f27b8b689afcdabdc58759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:03 +0000
Subject: [PATCH 19/58] fix: initialize of linear policies keeps the fitted
 parameters

---
 obp/policy/linear.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..a5194af 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,15 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Initialize the sufficient statistics of the ridge regressions."""
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
-- 
2.43.0


From 163f3125c79a69afd22f1b0ed0202f048a948ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 20/58] fix: logistic Thompson sampling draws identical noise
 for every arm

With an integer random_state each arm's model was seeded identically, so all
arms shared one noise stream and a fresh policy always chose the same arm.
---
 obp/policy/logistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index aa38efa..7094f2c 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -65,7 +65,7 @@ class BaseLogisticPolicy(BaseContextualPolicy):
                 lambda_=self.lambda_list[i],
                 alpha=self.alpha_list[i],
                 dim=self.dim,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             for i in np.arange(self.n_actions)
         ]
@@ -74,6 +74,7 @@ class BaseLogisticPolicy(BaseContextualPolicy):
         """Initialize policy parameters."""
         super().initialize()
         for model in self.model_list:
+            model.random_state = self.random_
             model.__post_init__()
 
     def update_params(self, action: int, reward: float, context: np.ndarray) -> None:
-- 
2.43.0


From 4f21e80af1d31ef514e9750a80c62020bf2bef90 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:33 +0000
Subject: [PATCH 21/58] fix: delayed rewards are lost when they fall due in a
 round without delays

---
 obp/simulator/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..e1aa731 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -361,9 +361,10 @@ class BanditPolicySimulator:
                 self.rounds_played
             )
 
-            # Update policy with all available rounds
-            available_rounds = self.reward_round_lookup.get(self.rounds_played, [])
-            self.delayed_update_policy(available_rounds, self.rounds_played)
+        # Update policy with all rounds that are due by now
+        due_keys = [k for k in self.reward_round_lookup if k <= self.rounds_played]
+        for due_key in sorted(due_keys):
+            self.delayed_update_policy(self.reward_round_lookup[due_key], due_key)
 
         self.rounds_played += 1
 
-- 
2.43.0


From 076f09a1004fdb35e46d6c22778b6222c1f5bdd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:33 +0000
Subject: [PATCH 22/58] fix: contextual policies fail when the simulator draws
 its own rounds

---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index e1aa731..9e65052 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -373,7 +373,7 @@ class BanditPolicySimulator:
             selected_action = self.policy.select_action()[0]
         elif self.policy.policy_type == PolicyType.CONTEXTUAL:
             selected_action = self.policy.select_action(
-                np.expand_dims(self.current_round.context, axis=0)
+                np.reshape(self.current_round.context, (1, -1))
             )[0]
         else:
             raise RuntimeError(
@@ -427,7 +427,7 @@ class BanditPolicySimulator:
             self.policy.update_params(
                 action=action,
                 reward=reward,
-                context=np.expand_dims(context, axis=0),
+                context=np.reshape(context, (1, -1)),
             )
 
 
-- 
2.43.0


From 496557ec36cc8375d54fa3ed6af4a42918aaa6c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:33 +0000
Subject: [PATCH 23/58] fix: next_bandit_round returns only the first row of
 the action context

---
 obp/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 9e65052..568fcc5 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -239,7 +239,7 @@ class BanditEnvironmentSimulator:
         return BanditRound(
             n_actions=self.n_actions,
             context=context,
-            action_context=self.action_context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
-- 
2.43.0


From f68691225d35692b40387b3576cbd59ca0a66f28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:33 +0000
Subject: [PATCH 24/58] fix: ground-truth simulation fails on logs without
 positions

---
 obp/simulator/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 568fcc5..1659f46 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -478,11 +478,14 @@ def calc_ground_truth_policy_value(
 
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
-- 
2.43.0


From c7647400314c0b6b899f316014864d55ab4f9239 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:33 +0000
Subject: [PATCH 25/58] fix: run_bandit_replay always raises TypeError

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..584d142 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
-- 
2.43.0


From f0ed6aba06a1aa1db35e28cb16764399efc801aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:34 +0000
Subject: [PATCH 26/58] fix: run_bandit_replay writes positions into the
 caller's log

---
 obp/simulator/replay.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 584d142..903409f 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
-- 
2.43.0


From 0bfa0d37438fe38d09bf7d13e315dc341eadfbfa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:34 +0000
Subject: [PATCH 27/58] fix: run_bandit_replay fails when the policy picks an
 action above the largest logged one

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 903409f..4c06fec 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -75,7 +75,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=policy_.n_actions,
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From fe6f30084584ff903e9c00747faf721303845a13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:10:34 +0000
Subject: [PATCH 28/58] fix: coefficient drift depends on how the rounds are
 split into requests

---
 obp/simulator/coefficient_drifter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..06ddbf4 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -191,9 +191,7 @@ class CoefficientDrifter:
         if shift_start < 0:
             transition_steps = transition_steps[-shift_start:]
 
-        shift_remainder = self.available_rounds - rounds
-        if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+        transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From 3e4afb4d7962d26768093ca27d4958cb32c12619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:01 +0000
Subject: [PATCH 29/58] fix: synthetic logs draw contexts, actions and reward
 noise from the same random numbers

---
 obp/dataset/synthetic.py            | 4 ++--
 obp/dataset/synthetic_continuous.py | 4 ++--
 obp/dataset/synthetic_embed.py      | 4 ++--
 obp/dataset/synthetic_multi.py      | 2 +-
 obp/dataset/synthetic_slate.py      | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..e7b9314 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
@@ -362,7 +362,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         else:
             pi_b = softmax(self.beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..9a01fb6 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,7 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = truncnorm.pdf(
                 action, a, b, loc=expected_action_values, scale=self.action_noise
@@ -195,7 +195,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=self.min_action_value,
                 scale=(self.max_action_value - self.min_action_value),
                 size=n_rounds,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = uniform.pdf(
                 action,
diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..415dcb0 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -306,14 +306,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             )
         else:
             pi_b = softmax(self.beta * pi_b_logits)
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample action embeddings based on sampled actions
         action_embed = np.zeros((n_rounds, self.n_cat_dim), dtype=int)
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..226e2c2 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -298,7 +298,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         else:
             pi_b = softmax(beta_ * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..e064933 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -719,7 +719,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
-- 
2.43.0


From d79de60ae1e51d29cf35c4cec58e95a0f644f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:01 +0000
Subject: [PATCH 30/58] fix: continuous synthetic rewards are truncated twice,
 so their mean is not the reported expected reward

---
 obp/dataset/synthetic.py       | 3 ++-
 obp/dataset/synthetic_multi.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index e7b9314..aa38595 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -327,6 +327,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -365,7 +366,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 226e2c2..bf84478 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -270,6 +270,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -305,7 +306,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From 132eab6f6aa78ce45b9a3489d3899e3aec560959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:55 +0000
Subject: [PATCH 31/58] fix: multi-logger logs ignore the loggers' betas and
 supports when some actions are deficient

---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index bf84478..71fe455 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -294,7 +294,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -303,7 +303,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
-- 
2.43.0


From 991560b371b8cd17ec0a2678abeac431a8864a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:55 +0000
Subject: [PATCH 32/58] fix: multi-logger logs fail when rounding gives the
 strata more rounds than requested

---
 obp/dataset/synthetic_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 71fe455..50f5a8d 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -259,8 +259,8 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
-        n_rounds_strata = [int(np.round(n_rounds * rho)) for rho in self.rhos]
-        n_rounds_strata[-1] += n_rounds - np.sum(n_rounds_strata)
+        strata_ends = np.round(n_rounds * np.cumsum(self.rhos)).astype(int)
+        n_rounds_strata = np.diff(strata_ends, prepend=0)
         stratum_idx = np.concatenate(
             [np.ones(n_k, dtype=int) * k for k, n_k in enumerate(n_rounds_strata)]
         )
-- 
2.43.0


From ba7ee1ba58e62be885e4e231d1d7d6c195306706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:55 +0000
Subject: [PATCH 33/58] fix: every batch of action-embedding data has a
 different reward function

---
 obp/dataset/synthetic_embed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 415dcb0..53389c5 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -246,6 +246,11 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
                 self.p_e_a[np.arange(self.n_actions, dtype=int), :, d],
                 random_state=self.random_state + d,
             )
+        self.cat_dim_importance = np.zeros(self.n_cat_dim)
+        self.cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
+            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
+            size=1,
+        )
 
     def obtain_batch_bandit_feedback(self, n_rounds: int) -> BanditFeedback:
         """Obtain batch logged bandit data.
@@ -263,12 +268,7 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         """
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
-        cat_dim_importance = np.zeros(self.n_cat_dim)
-        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
-            size=1,
-        )
-        cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
+        cat_dim_importance = self.cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
         # calc expected rewards given context and action (n_data, n_actions)
         q_x_e = np.zeros((n_rounds, self.n_cat_per_dim, self.n_cat_dim))
-- 
2.43.0


From d58188cfa6df0e5b227779a39386709d54d2be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:15 +0000
Subject: [PATCH 34/58] fix: one-round synthetic logs contain a scalar instead
 of an array

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index aa38595..75a722f 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 9a01fb6..51fe14b 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=n_rounds,
                 random_state=self.random_,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From 23025f038d33968fb0fb37937b783cf501b6f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 35/58] fix: sample_action_fast returns the first action when
 the draw exceeds the rounded total probability

---
 obp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/utils.py b/obp/utils.py
index bf1dc88..78b2248 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -109,7 +109,7 @@ def sample_action_fast(
     random_ = check_random_state(random_state)
     uniform_rvs = random_.uniform(size=action_dist.shape[0])[:, np.newaxis]
     cum_action_dist = action_dist.cumsum(axis=1)
-    flg = cum_action_dist > uniform_rvs
+    flg = cum_action_dist > uniform_rvs * cum_action_dist[:, -1:]
     sampled_action = flg.argmax(axis=1)
     return sampled_action
 
-- 
2.43.0


From ea01d7a989df799ad7f06ee57c3f9b1486493142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:36 +0000
Subject: [PATCH 36/58] fix: multi-class reduction fails or mislabels rewards
 when class labels are not 0..K-1

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From c38ee7442c96b5f46f9771b3ec2b80f0584ef159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:36 +0000
Subject: [PATCH 37/58] fix: multi-class reduction draws deficient actions and
 logged actions from the same random numbers

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 95c50b5..5ba73ba 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -274,7 +274,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
                 :, np.newaxis
             ]  # re-normalize the probability distribution
         # sample actions and factual rewards
-        actions = sample_action_fast(pi_b, random_state=random_state)
+        actions = sample_action_fast(pi_b, random_state=random_)
         rewards = self.y_full_ev[np.arange(self.n_rounds_ev), actions]
 
         return dict(
-- 
2.43.0


From 4deb87526e13141a88af366bc1d6e4c022aaba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 38/58] fix: cascade_decay slate rewards ignore all
 interactions between slots

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index e064933..6e2c63d 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1463,7 +1463,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From faeaf1984b94210b7ccbf15995577da491befa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 39/58] fix: 'optimal' and 'anti-optimal' slate evaluation
 policies are swapped

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 6e2c63d..4332a3b 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = (-base_expected_reward).argsort(axis=1)[
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From a467ae2e03aae6329f97addb6985bbd4d4efb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 40/58] fix: slate rewards are those of other actions when
 there are more than 128 actions

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 4332a3b..7684b9c 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int32")
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1426,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list)).astype("int32")
     n_enumerated_slate_actions = len(action) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
-- 
2.43.0


From d3eb70c25f46f9c606dc1f6b43fdd64e4ff2e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 41/58] fix: ground-truth slate value without a reward function
 is summed over rounds and ignores the click model

---
 obp/dataset/synthetic_slate.py | 49 +++++++++++++++-------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 7684b9c..35a704c 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -867,6 +867,21 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _apply_click_model(self, expected_reward: np.ndarray) -> np.ndarray:
+        """Calculate expected rewards of each slot after applying the click model."""
+        expected_reward = expected_reward * self.exam_weight
+        if self.reward_type == "binary":
+            discount_factors = np.ones(expected_reward.shape[0])
+            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            for pos_ in np.arange(self.len_list):
+                discount_factors *= (
+                    previous_slot_expected_reward * self.attractiveness[pos_]
+                    + (1 - previous_slot_expected_reward)
+                )
+                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
+                previous_slot_expected_reward = expected_reward[:, pos_]
+        return expected_reward
+
     def calc_ground_truth_policy_value(
         self,
         context: np.ndarray,
@@ -914,7 +929,6 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
         enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int32")
-        n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
         pscores = []
@@ -948,20 +962,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             expected_slot_reward = self.sample_contextfree_expected_reward(
                 random_state=self.random_state
             )
-            expected_slot_reward_tile = np.tile(
-                expected_slot_reward, (n_rounds * n_slate_actions, 1, 1)
+            expected_slate_rewards = self._apply_click_model(
+                expected_slot_reward[enumerated_slate_actions, np.arange(self.len_list)]
             )
-            expected_slate_rewards = np.array(
-                [
-                    expected_slot_reward_tile[
-                        np.arange(n_slate_actions) % n_slate_actions,
-                        np.array(enumerated_slate_actions)[:, pos_],
-                        pos_,
-                    ]
-                    for pos_ in np.arange(self.len_list)
-                ]
-            ).T
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
@@ -996,21 +1001,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 )
 
                 # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._apply_click_model(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
-- 
2.43.0


From dcf8e9f1bf961d4a999bbc8af98d1e7d5be54a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 42/58] fix: ground-truth slate value under the cascade click
 model is not the expected reward for three or more slots

---
 obp/dataset/synthetic_slate.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 35a704c..2333038 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -871,15 +871,15 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         """Calculate expected rewards of each slot after applying the click model."""
         expected_reward = expected_reward * self.exam_weight
         if self.reward_type == "binary":
-            discount_factors = np.ones(expected_reward.shape[0])
-            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            # the first `len_list` moments of the discount factor, which depends on previous clicks
+            moments = np.ones((self.len_list, expected_reward.shape[0]))
             for pos_ in np.arange(self.len_list):
-                discount_factors *= (
-                    previous_slot_expected_reward * self.attractiveness[pos_]
-                    + (1 - previous_slot_expected_reward)
-                )
-                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
-                previous_slot_expected_reward = expected_reward[:, pos_]
+                click_prob = expected_reward[:, pos_].copy()
+                expected_reward[:, pos_] = moments[0] * click_prob
+                if pos_ + 1 < self.len_list:
+                    order = np.arange(1, self.len_list - pos_)[:, np.newaxis]
+                    decrease = 1 - self.attractiveness[pos_ + 1] ** order
+                    moments = moments[:-1] - decrease * click_prob * moments[1:]
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From a5ef1cc0b70ebbca280f8dab521e620b83c727c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 43/58] fix: expected continuous slate rewards ignore the
 truncation of the reward distribution

---
 obp/dataset/synthetic_slate.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 2333038..929b7ab 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -13,6 +13,7 @@ from typing import Union
 import numpy as np
 from scipy.special import logit
 from scipy.special import perm
+from scipy.stats import norm
 from scipy.stats import truncnorm
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
@@ -823,6 +824,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        if self.reward_type == "continuous":
+            expected_reward_factual = self._apply_click_model(expected_reward_factual)
 
         return dict(
             n_rounds=n_rounds,
@@ -868,7 +871,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         return reward.sum() / np.unique(slate_id).shape[0]
 
     def _apply_click_model(self, expected_reward: np.ndarray) -> np.ndarray:
-        """Calculate expected rewards of each slot after applying the click model."""
+        """Calculate expected rewards of each slot after applying the click model or the truncation."""
         expected_reward = expected_reward * self.exam_weight
         if self.reward_type == "binary":
             # the first `len_list` moments of the discount factor, which depends on previous clicks
@@ -880,6 +883,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     order = np.arange(1, self.len_list - pos_)[:, np.newaxis]
                     decrease = 1 - self.attractiveness[pos_ + 1] ** order
                     moments = moments[:-1] - decrease * click_prob * moments[1:]
+        else:
+            # mean of the truncated normal distribution
+            a = (self.reward_min - expected_reward) / self.reward_std
+            b = (self.reward_max - expected_reward) / self.reward_std
+            shift = (norm.pdf(a) - norm.pdf(b)) / (norm.cdf(b) - norm.cdf(a))
+            expected_reward = expected_reward + self.reward_std * shift
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From 7c03df4e4d289bc5bdbf7ff26db75fa2dea59143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:04 +0000
Subject: [PATCH 44/58] fix: slate rewards of a round are computed from the
 context of another round

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 929b7ab..fa3c9bf 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1429,7 +1429,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int32")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From 4354a826d0f0cee30e28ca4d2003dce6014e45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:56 +0000
Subject: [PATCH 45/58] fix: propensities and importance weights predicted
 without positions are zero or fail

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..aea21c6 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,8 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +523,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From 3fa5062b5095a03804b5ad6dca1390f607606210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:56 +0000
Subject: [PATCH 46/58] fix: importance weight estimation fails when a fold has
 no round at some position

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index aea21c6..7e2a2b1 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -208,6 +208,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if context[idx].shape[0] == 0:
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -335,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if context[test_idx][idx].shape[0] == 0:
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From 6415f66cfd2a157c955ee522d2d023e914164716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:28 +0000
Subject: [PATCH 47/58] fix: estimated propensities are those of other actions
 when an action is absent from the training data

---
 obp/ope/classification_model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 7e2a2b1..f26106e 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -534,11 +534,18 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            estimated_pscore[idx] = self._predict_proba(context[idx], pos_)[
+                np.arange(action[idx].shape[0]), action[idx]
+            ]
         return estimated_pscore
 
+    def _predict_proba(self, context: np.ndarray, pos_: int) -> np.ndarray:
+        """Predict the probabilities of all actions (zero for actions absent from the training data)."""
+        model = self.base_model_list[pos_]
+        proba = np.zeros((context.shape[0], self.n_actions))
+        proba[:, model.classes_] = model.predict_proba(context)
+        return proba
+
     def fit_predict(
         self,
         context: np.ndarray,
@@ -633,9 +640,7 @@ class PropensityScoreEstimator(BaseEstimator):
                     idx = position[test_idx] == pos_
                     if context[test_idx][idx].shape[0] == 0:
                         continue
-                    proba_eval = self.base_model_list[pos_].predict_proba(
-                        context[test_idx][idx]
-                    )
+                    proba_eval = self._predict_proba(context[test_idx][idx], pos_)
                     self.eval_result["proba"].append(proba_eval)
                     self.eval_result["y"].append(action[test_idx][idx])
         return estimated_pscore
-- 
2.43.0


From abb525e121e27cf1242acf7eaa1a678ff77ea19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:43 +0000
Subject: [PATCH 48/58] fix: reward model prediction fails when all training
 rewards are equal

---
 obp/ope/regression_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 421b9cb..c5369e8 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -203,11 +203,14 @@ class RegressionModel(BaseEstimator):
                     action=action_ * np.ones(n, int),
                     action_context=self.action_context,
                 )
-                q_hat_ = (
-                    self.base_model_list[pos_].predict_proba(X)[:, 1]
-                    if is_classifier(self.base_model_list[pos_])
-                    else self.base_model_list[pos_].predict(X)
-                )
+                if is_classifier(self.base_model_list[pos_]):
+                    proba = self.base_model_list[pos_].predict_proba(X)
+                    if proba.shape[1] > 1:
+                        q_hat_ = proba[:, 1]
+                    else:  # all rewards in the training data are equal
+                        q_hat_ = self.base_model_list[pos_].classes_[0]
+                else:
+                    q_hat_ = self.base_model_list[pos_].predict(X)
                 q_hat[np.arange(n), action_, pos_] = q_hat_
         return q_hat
 
-- 
2.43.0


From e27640e12bcaaf8f8d9163bc1995f4ee01bed8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:10 +0000
Subject: [PATCH 49/58] fix: QLearner with importance-weighted fitting always
 fails on an unnormalized action distribution

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..6e4e512 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -440,7 +440,9 @@ class QLearner(BaseOfflinePolicyLearner):
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
-        unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist = (
+            np.ones((context.shape[0], self.n_actions, self.len_list)) / self.n_actions
+        )
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From f894fc0838c97676327d44356add9c6df049ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:10 +0000
Subject: [PATCH 50/58] fix: IPWLearner scores are wrong or fail when an action
 is absent from the training data

---
 obp/policy/offline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 6e4e512..ae8274e 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -235,10 +235,11 @@ class IPWLearner(BaseOfflinePolicyLearner):
         n = context.shape[0]
         score_predicted = np.zeros((n, self.n_actions, self.len_list))
         for p in np.arange(self.len_list):
-            score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
-                context
+            base_classifier = self.base_classifier_list[p]
+            # the classifier knows only the actions observed in the training data
+            score_predicted[:, base_classifier.classes_, p] = (
+                base_classifier.predict_proba(context)
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From ac9e3d316ec0fe2b6db13b55ea06a3cb6edad3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:41 +0000
Subject: [PATCH 51/58] fix: NNPolicyLearner parameters become NaN when a
 mini-batch has a single sample

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index ae8274e..efc185e 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1157,7 +1157,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:  # undefined for a single sample
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1190,7 +1191,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:  # undefined for a single sample
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From 3560e994d7a3a5c2f5eb9c5b5efe54d214c04cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:31 +0000
Subject: [PATCH 52/58] fix: z-scored reward functions are shifted by mean/std
 instead of standardized

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 75a722f..b693006 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -826,8 +826,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From e65c4f4b9b88919b4ddd62674ef93e35f2fb2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 53/58] fix: IPWLearner rejects actions and positions outside
 its declared sets

---
 obp/policy/offline.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index efc185e..c73273a 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -163,6 +163,10 @@ class IPWLearner(BaseOfflinePolicyLearner):
                 "`obp.policy.IPWLearner` cannot handle negative rewards,"
                 "and please use `obp.policy.NNPolicyLearner` instead."
             )
+        if action.max() >= self.n_actions:
+            raise ValueError(
+                f"`action` elements must be smaller than `n_actions`, but the maximum value is {action.max()} (>= {self.n_actions})"
+            )
         if pscore is None:
             n_actions = np.int32(action.max() + 1)
             pscore = np.ones_like(action) / n_actions
@@ -171,6 +175,10 @@ class IPWLearner(BaseOfflinePolicyLearner):
         else:
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
+            if position.max() >= self.len_list:
+                raise ValueError(
+                    f"`position` elements must be smaller than `len_list`, but the maximum value is {position.max()} (>= {self.len_list})"
+                )
 
         for p in np.arange(self.len_list):
             X, sample_weight, y = self._create_train_data_for_opl(
-- 
2.43.0


From 35a929dcf386584670a0e186fe6b5d7b053d07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 54/58] fix: figures show logged-propensity estimates for
 estimators with estimated propensities

---
 obp/ope/meta.py       | 19 ++++++++++++++++---
 obp/ope/meta_multi.py |  8 +++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 0d445db..40454c4 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -529,6 +529,17 @@ class OffPolicyEvaluation:
             )
         return policy_value_df, policy_value_interval_df.T
 
+    @staticmethod
+    def _estimate_round_rewards(
+        estimator: BaseOffPolicyEstimator, inputs: Dict[str, Optional[np.ndarray]]
+    ) -> np.ndarray:
+        """Estimate round-wise rewards, the mean of which is the policy value estimated by the estimator."""
+        inputs = dict(inputs)
+        if getattr(estimator, "use_estimated_pscore", False):
+            for key in ("pscore", "pscore_avg"):
+                inputs[key] = inputs.get(f"estimated_{key}")
+        return estimator._estimate_round_rewards(**inputs)
+
     def visualize_off_policy_estimates(
         self,
         action_dist: np.ndarray,
@@ -626,7 +637,9 @@ class OffPolicyEvaluation:
         for estimator_name, estimator in self.ope_estimators_.items():
             estimated_round_rewards_dict[
                 estimator_name
-            ] = estimator._estimate_round_rewards(**estimator_inputs[estimator_name])
+            ] = self._estimate_round_rewards(
+                estimator, estimator_inputs[estimator_name]
+            )
         estimated_round_rewards_df = DataFrame(estimated_round_rewards_dict)
         estimated_round_rewards_df.rename(
             columns={key: key.upper() for key in estimated_round_rewards_dict.keys()},
@@ -965,8 +978,8 @@ class OffPolicyEvaluation:
             for estimator_name, estimator in self.ope_estimators_.items():
                 estimated_round_rewards_dict[estimator_name][
                     policy_name
-                ] = estimator._estimate_round_rewards(
-                    **estimator_inputs[estimator_name]
+                ] = self._estimate_round_rewards(
+                    estimator, estimator_inputs[estimator_name]
                 )
 
         plt.style.use("ggplot")
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index 3b08a6a..927aa9a 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -490,7 +490,9 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
         for estimator_name, estimator in self.ope_estimators_.items():
             estimated_round_rewards_dict[
                 estimator_name
-            ] = estimator._estimate_round_rewards(**estimator_inputs[estimator_name])
+            ] = self._estimate_round_rewards(
+                estimator, estimator_inputs[estimator_name]
+            )
         estimated_round_rewards_df = DataFrame(estimated_round_rewards_dict)
         estimated_round_rewards_df.rename(
             columns={key: key.upper() for key in estimated_round_rewards_dict.keys()},
@@ -760,8 +762,8 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             for estimator_name, estimator in self.ope_estimators_.items():
                 estimated_round_rewards_dict[estimator_name][
                     policy_name
-                ] = estimator._estimate_round_rewards(
-                    **estimator_inputs[estimator_name]
+                ] = self._estimate_round_rewards(
+                    estimator, estimator_inputs[estimator_name]
                 )
 
         plt.style.use("ggplot")
-- 
2.43.0


From 1e545aa348c71e0e0117c7b00380b594a2a0759c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 55/58] fix: figures of estimates fail for logs without
 positions

---
 obp/ope/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 40454c4..51d331d 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -538,6 +538,8 @@ class OffPolicyEvaluation:
         if getattr(estimator, "use_estimated_pscore", False):
             for key in ("pscore", "pscore_avg"):
                 inputs[key] = inputs.get(f"estimated_{key}")
+        if inputs["position"] is None:
+            inputs["position"] = np.zeros(inputs["action_dist"].shape[0], dtype=int)
         return estimator._estimate_round_rewards(**inputs)
 
     def visualize_off_policy_estimates(
-- 
2.43.0


From 69815a1005aef70b8558bc9e4b87636cecb2a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 56/58] fix: figures of estimates fail for tuned estimators

---
 obp/ope/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 51d331d..1de9ad3 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -23,6 +23,7 @@ from ..utils import check_confidence_interval_arguments
 from .estimators import BaseOffPolicyEstimator
 from .estimators import DirectMethod as DM
 from .estimators import DoublyRobust as DR
+from .estimators_tuning import BaseOffPolicyEstimatorTuning
 
 
 logger = getLogger(__name__)
@@ -540,6 +541,9 @@ class OffPolicyEvaluation:
                 inputs[key] = inputs.get(f"estimated_{key}")
         if inputs["position"] is None:
             inputs["position"] = np.zeros(inputs["action_dist"].shape[0], dtype=int)
+        if isinstance(estimator, BaseOffPolicyEstimatorTuning):
+            estimator.estimate_policy_value(**inputs)  # tune the hyperparameter
+            estimator = estimator.base_ope_estimator(lambda_=estimator.best_hyperparam)
         return estimator._estimate_round_rewards(**inputs)
 
     def visualize_off_policy_estimates(
-- 
2.43.0


From 96ebc7ff96bd79101a0fdaceabb4347f0e3a5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 57/58] fix: comparison figures fail when there are more
 estimators than policies

---
 obp/ope/meta.py            | 2 +-
 obp/ope/meta_continuous.py | 2 +-
 obp/ope/meta_multi.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 1de9ad3..7b87465 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -998,7 +998,7 @@ class OffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index a12941e..60f0cff 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -655,7 +655,7 @@ class ContinuousOffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_by_evaluation_policy_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index 927aa9a..617780a 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -776,7 +776,7 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
-- 
2.43.0


From 1d057188e642c150d7c6dd1694ffb0d8167840ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 58/58] fix: confidence intervals in figures of slate estimates
 are twice as wide as estimated

---
 obp/ope/meta_slate.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/obp/ope/meta_slate.py b/obp/ope/meta_slate.py
index 7785631..ef3b9e9 100644
--- a/obp/ope/meta_slate.py
+++ b/obp/ope/meta_slate.py
@@ -480,14 +480,12 @@ class SlateOffPolicyEvaluation:
             n_bootstrap_samples=n_bootstrap_samples,
             random_state=random_state,
         )
-        estimated_interval_a["errbar_length"] = (
-            estimated_interval_a.drop("mean", axis=1).diff(axis=1).iloc[:, -1].abs()
-        )
         if is_relative:
             estimated_interval_a /= (
                 self.bandit_feedback["reward"].sum()
                 / np.unique(self.bandit_feedback["slate_id"]).shape[0]
             )
+        bounds = estimated_interval_a.drop("mean", axis=1)
 
         plt.style.use("ggplot")
         fig, ax = plt.subplots(figsize=(8, 6))
@@ -506,9 +504,9 @@ class SlateOffPolicyEvaluation:
         plt.xticks(fontsize=25 - 2 * len(self.ope_estimators))
         ax.errorbar(
             np.arange(estimated_interval_a.shape[0]),
-            estimated_interval_a["mean"],
-            yerr=estimated_interval_a["errbar_length"],
-            fmt="o",
+            bounds.mean(axis=1),
+            yerr=bounds.diff(axis=1).iloc[:, -1].abs() / 2,
+            fmt="none",
             color="black",
         )
 
-- 
2.43.0

