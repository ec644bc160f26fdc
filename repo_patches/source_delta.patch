From d91f3431d60e9f44ecb69ae2884e3c1d6acf39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 01/51] fix: run_bandit_replay called the tqdm module and
 always raised TypeError

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..584d142 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
-- 
2.43.0


From f7867d0cb9fb7b3e8ab7e098628ea1dda29f3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 02/51] fix: run_bandit_replay overwrote `position` in the
 caller's logged data

---
 obp/simulator/replay.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 584d142..903409f 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
-- 
2.43.0


From 149bf15d533c5a3626c56b7d2b4fd52b230848c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 03/51] fix: run_bandit_replay failed when the policy selects
 an action above the largest logged one

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 903409f..1ed99f0 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -75,7 +75,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=max(bandit_feedback["action"].max() + 1, policy_.n_actions),
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From 52c2746c8e8734d9f02dda1846defa1d7f8d30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 04/51] fix: drifter started the transition too early when a
 drift interval was requested in parts

---
 obp/simulator/coefficient_drifter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..06ddbf4 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -191,9 +191,7 @@ class CoefficientDrifter:
         if shift_start < 0:
             transition_steps = transition_steps[-shift_start:]
 
-        shift_remainder = self.available_rounds - rounds
-        if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+        transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From fb47640a726fecf07ade4214c2c81042ce21f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 05/51] fix: contextual policies could not be simulated round
 by round (3D context)

---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..76a4034 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -372,7 +372,7 @@ class BanditPolicySimulator:
             selected_action = self.policy.select_action()[0]
         elif self.policy.policy_type == PolicyType.CONTEXTUAL:
             selected_action = self.policy.select_action(
-                np.expand_dims(self.current_round.context, axis=0)
+                np.reshape(self.current_round.context, (1, -1))
             )[0]
         else:
             raise RuntimeError(
@@ -426,7 +426,7 @@ class BanditPolicySimulator:
             self.policy.update_params(
                 action=action,
                 reward=reward,
-                context=np.expand_dims(context, axis=0),
+                context=np.reshape(context, (1, -1)),
             )
 
 
-- 
2.43.0


From eb71e67655e74f7c621819944608ac1a7ec23b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 06/51] fix: a round whose policy call failed left the
 simulation record misaligned

---
 obp/simulator/simulator.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 76a4034..dd08f3f 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -330,9 +330,6 @@ class BanditPolicySimulator:
         else:
             self.current_round = bandit_round
 
-        self.append_contexts(self.current_round.context)
-        self.append_ground_truth_rewards(self.current_round.rewards)
-
     def append_ground_truth_rewards(self, ground_truth_rewards):
         self._ground_truth_rewards.append(ground_truth_rewards)
 
@@ -345,11 +342,16 @@ class BanditPolicySimulator:
 
     def _step(self):
         selected_action = self.select_action()
-        self._selected_actions.append(selected_action)
-
         reward_ = self.current_round.rewards[selected_action]
+
+        # record the round only after the policy has chosen, so that a failing policy leaves no partial round
+        self.append_contexts(self.current_round.context)
+        self.append_ground_truth_rewards(self.current_round.rewards)
+        self._selected_actions.append(selected_action)
         self._obtained_rewards.append(reward_)
         self.total_reward += reward_
+        round_idx = self.rounds_played
+        self.rounds_played += 1
 
         delays = self.current_round.round_delays
         if delays is None:
@@ -357,15 +359,11 @@ class BanditPolicySimulator:
         else:
             # Add the current round to the lookup
             round_delay = delays[selected_action]
-            self.reward_round_lookup[round_delay + self.rounds_played].append(
-                self.rounds_played
-            )
+            self.reward_round_lookup[round_delay + round_idx].append(round_idx)
 
             # Update policy with all available rounds
-            available_rounds = self.reward_round_lookup.get(self.rounds_played, [])
-            self.delayed_update_policy(available_rounds, self.rounds_played)
-
-        self.rounds_played += 1
+            available_rounds = self.reward_round_lookup.get(round_idx, [])
+            self.delayed_update_policy(available_rounds, round_idx)
 
     def select_action(self):
         if self.policy.policy_type == PolicyType.CONTEXT_FREE:
@@ -393,7 +391,8 @@ class BanditPolicySimulator:
     def delayed_update_policy(
         self, available_rounds: List[int], current_round: int
     ) -> None:
-        for available_round_idx in available_rounds:
+        while available_rounds:
+            available_round_idx = available_rounds.pop(0)
             available_action = self._selected_actions[available_round_idx]
             available_context = self._contexts[available_round_idx]
             available_rewards = self._obtained_rewards[available_round_idx]
-- 
2.43.0


From 77e8d531156e6b32a526df8249a88ad4e52a180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 07/51] fix: calc_ground_truth_policy_value failed on logged
 data without positions

---
 obp/simulator/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index dd08f3f..0e8a15b 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -476,11 +476,14 @@ def calc_ground_truth_policy_value(
 
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
-- 
2.43.0


From 33b6d2962aa0348461d58e7bc3c625a3caafe0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 08/51] fix: initialize() of linear policies kept the learned
 parameters

---
 obp/policy/linear.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..f60efc1 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -52,6 +52,15 @@ class BaseLinPolicy(BaseContextualPolicy):
         ).reshape(self.n_actions, self.dim, self.dim)
         self.b_temp = np.zeros((self.dim, self.n_actions))
 
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        identities = np.tile(np.identity(self.dim), (self.n_actions, 1, 1))
+        self.theta_hat = np.zeros((self.dim, self.n_actions))
+        self.A_inv, self.A_inv_temp = identities, np.copy(identities)
+        self.b = np.zeros((self.dim, self.n_actions))
+        self.b_temp = np.zeros((self.dim, self.n_actions))
+
     def update_params(self, action: int, reward: float, context: np.ndarray) -> None:
         """Update policy parameters.
 
-- 
2.43.0


From c6ea0383b8ce2997709c39cf3f5c0ca8bd0b98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 09/51] fix: initialize() of logistic policies kept the learned
 models

---
 obp/policy/logistic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..5f1c699 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -70,6 +70,12 @@ class BaseLogisticPolicy(BaseContextualPolicy):
             for i in np.arange(self.n_actions)
         ]
 
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        for model in self.model_list:
+            model.__post_init__()
+
     def update_params(self, action: int, reward: float, context: np.ndarray) -> None:
         """Update policy parameters.
 
-- 
2.43.0


From 0013f5e2d4bf268e95244bc384f67ba5807f42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 10/51] fix: classification labels other than 0..k-1 gave wrong
 rewards or an IndexError

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From 0e19ac27253ab5f3aadd29e423316137e0ab4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 11/51] fix: tuned OPE estimators reused the hyperparameter of
 the first data they saw

---
 obp/ope/estimators_tuning.py | 74 ++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..0de7e6a 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -240,25 +240,24 @@ class BaseOffPolicyEstimatorTuning:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
         # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(
             lambda_=self.best_hyperparam, use_estimated_pscore=self.use_estimated_pscore
@@ -337,25 +336,24 @@ class BaseOffPolicyEstimatorTuning:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
         # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(self.best_hyperparam).estimate_interval(
             reward=reward,
-- 
2.43.0


From 773cbbc1f6506a6dd88589c13f0c250560d16e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 12/51] fix: tuned OPE estimators reordered the caller's list
 of hyperparameters

---
 obp/ope/estimators_tuning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 0de7e6a..c328198 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -417,7 +417,7 @@ class InverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = InverseProbabilityWeighting
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -617,7 +617,7 @@ class DoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -837,7 +837,7 @@ class SwitchDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SwitchDoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -1057,7 +1057,7 @@ class DoublyRobustWithShrinkageTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobustWithShrinkage
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1286,7 +1286,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
         self.base_ope_estimator = SubGaussianInverseProbabilityWeighting
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1485,7 +1485,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SubGaussianDoublyRobust
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
-- 
2.43.0


From a7a2f7c73067e70859090b4fcff03e2690b62688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 13/51] fix: sample_action_fast returned action 0, even with
 zero probability, for draws above the rounded total

---
 obp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obp/utils.py b/obp/utils.py
index d3e9780..21434d8 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -109,6 +109,8 @@ def sample_action_fast(
     random_ = check_random_state(random_state)
     uniform_rvs = random_.uniform(size=action_dist.shape[0])[:, np.newaxis]
     cum_action_dist = action_dist.cumsum(axis=1)
+    # rounding can leave the last cumulative probability slightly below one
+    cum_action_dist = cum_action_dist / cum_action_dist[:, -1:]
     flg = cum_action_dist > uniform_rvs
     sampled_action = flg.argmax(axis=1)
     return sampled_action
-- 
2.43.0


From 566e2245d65e1ff7e5a42a4ce5c5f9968329c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 14/51] fix: OffPolicyEvaluation could not take `p_e_a` as a
 plain array

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From 9ce6f4371732fdece4c58774475b9ff5da6c2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 15/51] fix: fitting a seeded neural learner depended on other
 users of the global torch generator

---
 obp/policy/offline.py            | 6 ++++++
 obp/policy/offline_continuous.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..37f18fb 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1090,6 +1090,9 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
 
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         # train q function estimator when it is needed to train NNPolicy
         if self.off_policy_objective in ["dr", "dm"]:
             self.q_func_estimator.fit(
@@ -1760,6 +1763,9 @@ class QFuncEstimator:
                 "Expected `context.shape[1] == self.dim_context`, but found it False"
             )
 
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         if self.solver == "sgd":
             optimizer = optim.SGD(
                 self.nn_model.parameters(),
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8ce6a69..043a981 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -426,6 +426,9 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
         if pscore is None:
             pscore = np.ones_like(action)
 
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         # train q function estimator when it is needed to train NNPolicy
         if self.pg_method != "ipw":
             self.q_func_estimator.fit(
@@ -944,6 +947,9 @@ class QFuncEstimatorForContinuousAction:
                 "Expected `context.shape[1] == self.dim_context`, but found it False"
             )
 
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         if self.solver == "sgd":
             optimizer = optim.SGD(
                 self.nn_model.parameters(),
-- 
2.43.0


From 099ddfbc10d2eb8ae69e7946bcc55d859d032ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:52 +0000
Subject: [PATCH 16/51] fix: simulations sharing one batch of rounds skipped
 each other's rounds

---
 obp/simulator/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 0e8a15b..cd1d6c0 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -3,6 +3,7 @@
 
 """Bandit Simulator."""
 from collections import defaultdict
+from copy import copy
 from copy import deepcopy
 from dataclasses import dataclass
 from typing import Callable, Tuple, Optional, List, Any
@@ -65,8 +66,9 @@ class BanditRounds:
         )
 
     def __iter__(self) -> "BanditRounds":
-        self.idx = 0
-        return self
+        rounds = copy(self)
+        rounds.idx = 0
+        return rounds
 
     def __next__(self) -> BanditRound:
         if self.idx < len(self):
-- 
2.43.0


From fb0d07bc7c6ffdc90e33597c577f7f3d60d5d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 17/51] fix: delayed rewards falling due in a round without
 delays were never delivered

---
 obp/simulator/simulator.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index cd1d6c0..3f66d93 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -356,16 +356,13 @@ class BanditPolicySimulator:
         self.rounds_played += 1
 
         delays = self.current_round.round_delays
-        if delays is None:
-            self.update_policy(self.current_round.context, selected_action, reward_)
-        else:
-            # Add the current round to the lookup
-            round_delay = delays[selected_action]
-            self.reward_round_lookup[round_delay + round_idx].append(round_idx)
+        # Add the current round to the lookup
+        round_delay = 0 if delays is None else delays[selected_action]
+        self.reward_round_lookup[round_delay + round_idx].append(round_idx)
 
-            # Update policy with all available rounds
-            available_rounds = self.reward_round_lookup.get(round_idx, [])
-            self.delayed_update_policy(available_rounds, round_idx)
+        # Update policy with all available rounds
+        available_rounds = self.reward_round_lookup.get(round_idx, [])
+        self.delayed_update_policy(available_rounds, round_idx)
 
     def select_action(self):
         if self.policy.policy_type == PolicyType.CONTEXT_FREE:
-- 
2.43.0


From 8e46cd4f4b11e88bbb49489b97addd5e047c8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:16 +0000
Subject: [PATCH 18/51] fix: ContinuousOffPolicyEvaluation wrote a second,
 possibly outdated action entry into the caller's log

---
 obp/ope/meta_continuous.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index a12941e..c1cdd7d 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -100,9 +100,6 @@ class ContinuousOffPolicyEvaluation:
         for key_ in ["action", "reward", "pscore"]:
             if key_ not in self.bandit_feedback:
                 raise RuntimeError(f"Missing key of {key_} in 'bandit_feedback'.")
-        self.bandit_feedback["action_by_behavior_policy"] = self.bandit_feedback[
-            "action"
-        ]
         self.ope_estimators_ = dict()
         self.is_model_dependent = False
         for estimator in self.ope_estimators:
@@ -151,8 +148,9 @@ class ContinuousOffPolicyEvaluation:
                 )
         estimator_inputs = {
             estimator_name: {
-                input_: self.bandit_feedback[input_]
-                for input_ in ["reward", "action_by_behavior_policy", "pscore"]
+                "reward": self.bandit_feedback["reward"],
+                "action_by_behavior_policy": self.bandit_feedback["action"],
+                "pscore": self.bandit_feedback["pscore"],
             }
             for estimator_name in self.ope_estimators_
         }
-- 
2.43.0


From f90253362b2f6cfba7293116a0c02c6ea85c92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:16 +0000
Subject: [PATCH 19/51] fix: marginalized IPW estimators trained one shared
 classifier in place

---
 obp/ope/estimators_embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..d15bb4a 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 from scipy import stats
 from sklearn.base import ClassifierMixin
+from sklearn.base import clone
 from sklearn.base import is_classifier
 from sklearn.linear_model import LogisticRegression
 from sklearn.preprocessing import OneHotEncoder
@@ -210,8 +211,9 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         ).fit_transform(action_embed)
         x_e = np.c_[context, c]
         pi_a_x_e = np.zeros((n, self.n_actions))
-        self.pi_a_x_e_estimator.fit(x_e, action)
-        pi_a_x_e[:, np.unique(action)] = self.pi_a_x_e_estimator.predict_proba(x_e)
+        # fit a copy; the (default) classifier is shared by all estimators
+        classifier = clone(self.pi_a_x_e_estimator).fit(x_e, action)
+        pi_a_x_e[:, np.unique(action)] = classifier.predict_proba(x_e)
         w_x_e = (w_x_a * pi_a_x_e).sum(1)
 
         return w_x_e
-- 
2.43.0


From 8b6cc55915e3ce45efdbbecd4dee069602e09dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:10 +0000
Subject: [PATCH 20/51] fix: tuned sub-Gaussian estimators dropped
 estimated_pscore and always failed with it

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index c328198..9d7af7b 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1353,6 +1353,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1433,6 +1434,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1562,6 +1564,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1653,6 +1656,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From c3d86cee7139331cee932daaccbec880faa3d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:17 +0000
Subject: [PATCH 21/51] fix: confidence intervals of the balanced multi-logger
 estimators always raised TypeError

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From 1872ace29d44458e99fa86e7f435b0c0b6b7f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:36 +0000
Subject: [PATCH 22/51] fix: SlateCascadeDoublyRobust kept the number of slates
 of the last call on the shared object

---
 obp/ope/estimators_slate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/obp/ope/estimators_slate.py b/obp/ope/estimators_slate.py
index a369d96..a941133 100644
--- a/obp/ope/estimators_slate.py
+++ b/obp/ope/estimators_slate.py
@@ -660,10 +660,11 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
         """
         # (n_rounds_ * len_list * n_unique_action, ) -> (n_rounds_, len_list, n_unique_action)
         q_hat_3d = q_hat.reshape((-1, self.len_list, self.n_unique_action))
+        n_rounds = q_hat_3d.shape[0]
         # the estimated Q functions for the action taken by the behavior policy
         # (n_rounds_, len_list, n_unique_action) -> (n_rounds_ * len_list, )
         q_hat_for_observed_action = []
-        for i in range(self.n_rounds_):
+        for i in range(n_rounds):
             for pos_ in range(self.len_list):
                 q_hat_for_observed_action.append(
                     q_hat_3d[i, pos_, action[i * self.len_list + pos_]]
@@ -681,7 +682,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
         # (n_rounds * len_list, )
         iw = evaluation_policy_pscore / behavior_policy_pscore
         iw_prev = np.roll(iw, 1)
-        iw_prev[np.array([i * self.len_list for i in range(self.n_rounds_)])] = 1
+        iw_prev[np.array([i * self.len_list for i in range(n_rounds)])] = 1
         # estimate policy value given each round and slot in a doubly robust manner
         estimated_rewards = (
             iw * (reward - q_hat_for_observed_action)
@@ -751,7 +752,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
             q_hat=q_hat,
             evaluation_policy_action_dist=evaluation_policy_action_dist,
         )
-        self.n_rounds_ = np.unique(slate_id).shape[0]
+        n_rounds = np.unique(slate_id).shape[0]
         return (
             self._estimate_round_rewards(
                 action=action,
@@ -762,7 +763,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
                 q_hat=q_hat,
                 evaluation_policy_action_dist=evaluation_policy_action_dist,
             ).sum()
-            / self.n_rounds_
+            / n_rounds
         )
 
     def estimate_interval(
@@ -839,7 +840,6 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
             q_hat=q_hat,
             evaluation_policy_action_dist=evaluation_policy_action_dist,
         )
-        self.n_rounds_ = np.unique(slate_id).shape[0]
         estimated_rewards = self._estimate_round_rewards(
             action=action,
             reward=reward,
-- 
2.43.0


From be6faf2dd4ad9beee97592a1453b1a14533778e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:36 +0000
Subject: [PATCH 23/51] fix: weighted multi-logger estimators failed when one
 logger contributed no rounds

---
 obp/ope/estimators_multi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..ff570f1 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,9 +683,11 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in range(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
@@ -1600,9 +1602,11 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in range(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
-- 
2.43.0


From ae0cb8dc2dfaa3774c24a58910007a050f4c4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 24/51] fix: continuous synthetic rewards were drawn with the
 same random numbers as the actions

Both used a generator reset to `random_state`, so that given the action the
reward was a draw from a fraction of its distribution only and its mean was far
from the stated `expected_reward`.
---
 obp/dataset/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..6873fb9 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
-- 
2.43.0


From 8c40f32e0ca43876d475907066e9e3a4ef78c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 25/51] fix: batches of one round with truncated normal actions
 or rewards failed or were scalars

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 6873fb9..eab7bbb 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..902f05e 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=expected_action_values.shape,
                 random_state=self.random_state,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From 87d058e9cb11ff39cae79fb33c9398bc0061c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 26/51] fix: continuous synthetic rewards were truncated twice
 and exceeded the stated expected_reward

---
 obp/dataset/synthetic.py       | 4 ++--
 obp/dataset/synthetic_multi.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index eab7bbb..b06546f 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -327,7 +327,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
         # calc expected reward given context and action
-        expected_reward_ = self.calc_expected_reward(contexts)
+        expected_reward_ = reward_location_ = self.calc_expected_reward(contexts)
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -366,7 +366,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..eb9d1f3 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -269,7 +269,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         )[:, np.newaxis]
 
         # calc expected reward given context and action
-        expected_reward_ = self.calc_expected_reward(contexts)
+        expected_reward_ = reward_location_ = self.calc_expected_reward(contexts)
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -305,7 +305,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From b5594fa515fb0c0ec841136850d2d497774c2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:23 +0000
Subject: [PATCH 27/51] fix: action embeddings were drawn with the seeds 0, 1,
 ... that may also have drawn the actions

With `random_state` below the number of embedding dimensions, the embeddings and
hence the rewards given an action did not follow `p_e_a` and `expected_reward`.
---
 obp/dataset/synthetic_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..4c8b139 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -313,7 +313,7 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
-- 
2.43.0


From fc4e245e6a768eb09e8592c98b0814afe14e3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:23 +0000
Subject: [PATCH 28/51] fix: multi-logger data with deficient actions ignored
 the betas and the deficiency in pi_b_avg

---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index eb9d1f3..9b80b49 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -293,7 +293,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -302,7 +302,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
-- 
2.43.0


From 0d22192fbe8b80028bc49787cca2dde34b29249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:23 +0000
Subject: [PATCH 29/51] fix: integer logits with deficient actions gave an
 all-zero behavior policy

---
 obp/dataset/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index b06546f..6dc631a 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -348,7 +348,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
             )
         # create some deficient actions based on the value of `n_deficient_actions`
         if self.n_deficient_actions > 0:
-            pi_b = np.zeros_like(pi_b_logits)
+            pi_b = np.zeros_like(pi_b_logits, dtype=float)
             n_supported_actions = self.n_actions - self.n_deficient_actions
             supported_actions = np.argsort(
                 self.random_.gumbel(size=(n_rounds, self.n_actions)), axis=1
-- 
2.43.0


From 3906bd83434060e19ee3c3adf01300ca80b78bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:49 +0000
Subject: [PATCH 30/51] fix: with more than 128 unique actions slates got the
 rewards of other actions (int8 overflow)

---
 obp/dataset/synthetic_slate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..7d7799e 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions).astype(
+            np.min_scalar_type(self.n_unique_action)
+        )
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1428,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list))
     n_enumerated_slate_actions = len(action) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
-- 
2.43.0


From d205dc4ffe8b1536b80a201d843bfaaa75660f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:49 +0000
Subject: [PATCH 31/51] fix: continuous slate rewards reused the same random
 numbers at every position and in every batch

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 7d7799e..4cb6c82 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -719,7 +719,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
-- 
2.43.0


From 5ae617d6afe460710cd24b92b5545114b62b6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:49 +0000
Subject: [PATCH 32/51] fix: ground-truth slate value without a reward function
 was summed over rounds and ignored the click model

---
 obp/dataset/synthetic_slate.py | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 4cb6c82..465f0fa 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -867,6 +867,21 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _apply_click_model(self, expected_reward: np.ndarray) -> np.ndarray:
+        """Expected rewards at each slot of the given slates under the click model."""
+        expected_reward = expected_reward * self.exam_weight
+        if self.reward_type == "binary":
+            discount_factors = np.ones(expected_reward.shape[0])
+            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            for pos_ in np.arange(self.len_list):
+                discount_factors *= (
+                    previous_slot_expected_reward * self.attractiveness[pos_]
+                    + (1 - previous_slot_expected_reward)
+                )
+                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
+                previous_slot_expected_reward = expected_reward[:, pos_]
+        return expected_reward
+
     def calc_ground_truth_policy_value(
         self,
         context: np.ndarray,
@@ -963,7 +978,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._apply_click_model(expected_slate_rewards)
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
@@ -998,21 +1015,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 )
 
                 # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._apply_click_model(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
-- 
2.43.0


From 396d98b1511d0218e24091efb3ecae5ecf5cf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:49 +0000
Subject: [PATCH 33/51] fix: ground-truth slate value under the cascade click
 model was wrong from the third slot on

The discount factor depends on the clicks so far; multiplying expectations is
exact for the first two slots only.
---
 obp/dataset/synthetic_slate.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 465f0fa..0130492 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -871,15 +871,28 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         """Expected rewards at each slot of the given slates under the click model."""
         expected_reward = expected_reward * self.exam_weight
         if self.reward_type == "binary":
-            discount_factors = np.ones(expected_reward.shape[0])
-            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            # probability of having reached each discount factor (after each click history)
+            discount_probs = {1.0: np.ones(expected_reward.shape[0])}
             for pos_ in np.arange(self.len_list):
-                discount_factors *= (
-                    previous_slot_expected_reward * self.attractiveness[pos_]
-                    + (1 - previous_slot_expected_reward)
-                )
-                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
-                previous_slot_expected_reward = expected_reward[:, pos_]
+                click_probs = {
+                    discount: prob * discount * expected_reward[:, pos_]
+                    for discount, prob in discount_probs.items()
+                }
+                expected_reward[:, pos_] = sum(click_probs.values())
+                next_discount_probs = {}
+                next_attractiveness = self.attractiveness[
+                    min(pos_ + 1, self.len_list - 1)
+                ]
+                for discount, prob in discount_probs.items():
+                    clicked = click_probs[discount]
+                    for discount_, prob_ in (
+                        (discount, prob - clicked),
+                        (discount * next_attractiveness, clicked),
+                    ):
+                        next_discount_probs[discount_] = (
+                            next_discount_probs.get(discount_, 0.0) + prob_
+                        )
+                discount_probs = next_discount_probs
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From 755470f12c60189844dc0fbdd26c2e632d354ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:14 +0000
Subject: [PATCH 34/51] fix: expected rewards and ground-truth value of
 continuous slate data ignored the truncation of the rewards

---
 obp/dataset/synthetic_slate.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 0130492..cfd52a2 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -13,6 +13,7 @@ from typing import Union
 import numpy as np
 from scipy.special import logit
 from scipy.special import perm
+from scipy.stats import norm
 from scipy.stats import truncnorm
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
@@ -823,6 +824,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        if self.reward_type == "continuous":
+            expected_reward_factual = self._calc_truncated_mean(expected_reward_factual)
 
         return dict(
             n_rounds=n_rounds,
@@ -867,6 +870,15 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _calc_truncated_mean(self, mean: np.ndarray) -> np.ndarray:
+        """Expectation of the truncated normal distribution that continuous rewards follow."""
+        mean = mean.astype(float)
+        a = (self.reward_min - mean) / self.reward_std
+        b = (self.reward_max - mean) / self.reward_std
+        return mean + self.reward_std * (norm.pdf(a) - norm.pdf(b)) / (
+            norm.cdf(b) - norm.cdf(a)
+        )
+
     def _apply_click_model(self, expected_reward: np.ndarray) -> np.ndarray:
         """Expected rewards at each slot of the given slates under the click model."""
         expected_reward = expected_reward * self.exam_weight
@@ -893,6 +905,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                             next_discount_probs.get(discount_, 0.0) + prob_
                         )
                 discount_probs = next_discount_probs
+        else:
+            expected_reward = self._calc_truncated_mean(expected_reward)
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From 29893e049b3ed0ba9c2dac657f1ff822232c1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:42 +0000
Subject: [PATCH 35/51] fix: slate rewards were computed from the context of
 another round (round // len_list)

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index cfd52a2..ec01c3a 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1461,7 +1461,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list))
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From 024cac443db58d267503f06ac4b8abc8d2e1cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:11 +0000
Subject: [PATCH 36/51] fix: reward structure 'cascade_decay' had no
 interaction between slots

W(i, j) is documented and built as the effect of slot i on slot j; it was read
as the effect of j on i, which is zero for all earlier slots.
---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index ec01c3a..8f30f1f 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1497,7 +1497,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 09c532b437ed101c63b5abfdff14ce1d4f28ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:57 +0000
Subject: [PATCH 37/51] fix: action-embedding data failed for about one seed in
 a thousand (dirichlet underflow)

---
 obp/dataset/synthetic_embed.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 4c8b139..5fb4aa5 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -264,10 +264,15 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
         cat_dim_importance = np.zeros(self.n_cat_dim)
-        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
-            size=1,
-        )
+        cat_dim_importance[self.n_irrelevant_cat_dim :] = np.nan
+        while np.isnan(cat_dim_importance).any():
+            # all components may underflow when the concentration parameters are tiny
+            cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
+                alpha=self.random_.uniform(
+                    size=self.n_cat_dim - self.n_irrelevant_cat_dim
+                ),
+                size=1,
+            )
         cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
         # calc expected rewards given context and action (n_data, n_actions)
-- 
2.43.0


From 65080faa85536662e3d28e63fd104f2029fb5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 38/51] fix: importance-weight and propensity models predicted
 nothing (zeros) or failed without `position`

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..aea21c6 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,8 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +523,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From eff244ca9fe9767fbe5ff65e48dac6e92c3f04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 39/51] fix: ImportanceWeightEstimator failed when a fold has
 no round at some position

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index aea21c6..e887b1c 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -208,6 +208,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if not idx.any():
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -335,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if not idx.any():
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From 396ecbf745dab0e5c2b652e190797ac35d562b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 40/51] fix: PropensityScoreEstimator read the column of
 another action when an action is missing from a training fold

---
 obp/ope/classification_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index e887b1c..d351463 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -534,9 +534,11 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            base_model = self.base_model_list[pos_]
+            # actions that do not appear in the training data have no column
+            proba = np.zeros((idx.sum(), self.n_actions))
+            proba[:, base_model.classes_] = base_model.predict_proba(context[idx])
+            estimated_pscore[idx] = proba[np.arange(idx.sum()), action[idx]]
         return estimated_pscore
 
     def fit_predict(
-- 
2.43.0


From 4a1519c13300d90ba57d8cc30b7d984f9da6952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 41/51] fix: QLearner always failed with fitting_method 'iw'
 and 'mrdr'

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 37f18fb..4fa0e9c 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -440,7 +440,9 @@ class QLearner(BaseOfflinePolicyLearner):
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
-        unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist = (
+            np.ones((context.shape[0], self.n_actions, self.len_list)) / self.n_actions
+        )
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From f46746226a3e1ea2ed28c4ae318c663128512847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 42/51] fix: IPWLearner.predict_score failed when an action is
 missing from the training data of a position

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 4fa0e9c..bc18af3 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -238,7 +238,9 @@ class IPWLearner(BaseOfflinePolicyLearner):
             score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
                 context
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
+            # actions that do not appear in the training data have no column
+            classes = self.base_classifier_list[p].classes_
+            score_predicted[:, classes, p] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From bd5adcfbb80daeb7b5d5f48f3517242b5261df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:34 +0000
Subject: [PATCH 43/51] fix: marginalized IPW multiplied marginals of the
 embedding dimensions instead of using their joint probability

---
 obp/ope/estimators_embed.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index d15bb4a..179b386 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -164,13 +164,12 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # p(e|a) of the observed embeddings, whose dimensions are independent given `a`
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
@@ -690,13 +689,12 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # p(e|a) of the observed embeddings, whose dimensions are independent given `a`
+            p_e_given_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_given_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_given_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_given_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
-- 
2.43.0


From 2b2c67778dc9ced4c017e255f38a5fec1a98113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:38 +0000
Subject: [PATCH 44/51] fix: shrinkage and sub-Gaussian estimators returned NaN
 for zero importance weights at lambda 0 / 1

---
 obp/ope/estimators.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..af7af46 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1668,7 +1668,9 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            # the weight of a zero importance weight is zero, also when `lambda_` is zero
+            denominator = np.maximum(iw**2 + self.lambda_, np.finfo(float).tiny)
+            iw_hat = (self.lambda_ * iw) / denominator
         else:
             iw_hat = iw
 
@@ -1751,7 +1753,9 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         # estimate the (high probability) upper bound of the bias of DRos
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            # the weight of a zero importance weight is zero, also when `lambda_` is zero
+            denominator = np.maximum(iw**2 + self.lambda_, np.finfo(float).tiny)
+            iw_hat = (self.lambda_ * iw) / denominator
         else:
             iw_hat = iw
         if use_bias_upper_bound:
@@ -1868,7 +1872,9 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         """
         iw = action_dist[np.arange(action.shape[0]), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        # the weight of a zero importance weight is zero, also when `lambda_` is one
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.maximum(denominator, np.finfo(float).tiny)
         estimated_rewards = iw_hat * reward
 
         return estimated_rewards
@@ -1937,7 +1943,9 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         # estimate the (high probability) upper bound of the bias of SGIPW
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        # the weight of a zero importance weight is zero, also when `lambda_` is one
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.maximum(denominator, np.finfo(float).tiny)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
@@ -2057,7 +2065,9 @@ class SubGaussianDoublyRobust(DoublyRobust):
         """
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        # the weight of a zero importance weight is zero, also when `lambda_` is one
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.maximum(denominator, np.finfo(float).tiny)
 
         q_hat_at_position = estimated_rewards_by_reg_model[np.arange(n), :, position]
         q_hat_factual = estimated_rewards_by_reg_model[np.arange(n), action, position]
@@ -2137,7 +2147,9 @@ class SubGaussianDoublyRobust(DoublyRobust):
 
         # estimate the (high probability) upper bound of the bias of SGDR
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        # the weight of a zero importance weight is zero, also when `lambda_` is one
+        denominator = 1 - self.lambda_ + self.lambda_ * iw
+        iw_hat = iw / np.maximum(denominator, np.finfo(float).tiny)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
-- 
2.43.0


From 2f2b53cca99635e0f14030c03517e549d86545cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:35 +0000
Subject: [PATCH 45/51] fix: the optimal slate evaluation policy chose the
 items with the lowest expected rewards (and the anti-optimal one the highest)

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 8f30f1f..83043f0 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1158,12 +1158,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = (-base_expected_reward).argsort(axis=1)[
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From 0fcce106895a4ad7c229b0a33fc613095b081e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:45 +0000
Subject: [PATCH 46/51] fix: draw the coefficients of different actions
 independently in logistic policies

All models of a logistic policy were seeded with the policy's own seed, so LogisticTS drew the
same noise for every action: without feedback it chose the same actions every time, and it never
explored by posterior probability.
---
 obp/policy/logistic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 5f1c699..3e4d52a 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -60,12 +60,19 @@ class BaseLogisticPolicy(BaseContextualPolicy):
 
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
+        # one seed per model: the coefficients of different actions are drawn independently
+        if self.random_state is None:
+            model_seeds = [None] * self.n_actions
+        else:
+            model_seeds = check_random_state(self.random_state).randint(
+                np.iinfo(np.int32).max, size=self.n_actions
+            )
         self.model_list = [
             MiniBatchLogisticRegression(
                 lambda_=self.lambda_list[i],
                 alpha=self.alpha_list[i],
                 dim=self.dim,
-                random_state=self.random_state,
+                random_state=model_seeds[i],
             )
             for i in np.arange(self.n_actions)
         ]
-- 
2.43.0


From b7d559c92b640c1cf97b36e5aa084cfd73f04406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 47/51] fix: embedding selection returned the second to last
 candidate when all were acceptable

The exact and greedy selection of MIPS end with the estimate of the last acceptable candidate, but
when no candidate was rejected they returned the one before it (and failed with UnboundLocalError
when there was nothing to remove, min_emb_dim being the number of dimensions).
---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 179b386..4096c40 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -386,7 +386,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -474,7 +474,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From ff32b8eaec3bafa5fcaa4ed7b222ad5229d4ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 48/51] fix: self-normalized MIPS did not normalise when
 selecting embeddings

With embedding_selection_method set, SelfNormalizedMarginalizedInverseProbabilityWeighting returned
the estimate of the plain (not self-normalised) estimator.
---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 4096c40..1c0231d 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -709,7 +709,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From 50b4a974a0bd4d7b1ac087da2591fea89cd8674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:55 +0000
Subject: [PATCH 49/51] fix: keep the policy network finite when a minibatch
 holds a single round

The variance of one element is NaN, and NaN times a zero var_reg_param is
still NaN: any log whose last minibatch has one round (201 rounds with the
default batch size) turned all parameters of NNPolicyLearner into NaN.
---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index bc18af3..40067a1 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1161,7 +1161,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1194,7 +1195,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From 19612d131ceac9ef9246f9136f18b5ebf3dacc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:20 +0000
Subject: [PATCH 50/51] fix: batches of synthetic data repeated the random
 numbers of the actions

The actions of every batch were drawn with a fresh generator of the same
seed: with a logging policy that does not depend on the context, all batches
had identical actions, and the first batch drew contexts and actions from
the same random numbers.
---
 obp/dataset/synthetic.py            | 2 +-
 obp/dataset/synthetic_continuous.py | 4 ++--
 obp/dataset/synthetic_embed.py      | 2 +-
 obp/dataset/synthetic_multi.py      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 6dc631a..82fcae3 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -363,7 +363,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         else:
             pi_b = softmax(self.beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 902f05e..569aa8b 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -186,7 +186,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=expected_action_values,
                 scale=self.action_noise,
                 size=expected_action_values.shape,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = truncnorm.pdf(
                 action, a, b, loc=expected_action_values, scale=self.action_noise
@@ -196,7 +196,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=self.min_action_value,
                 scale=(self.max_action_value - self.min_action_value),
                 size=n_rounds,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = uniform.pdf(
                 action,
diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 5fb4aa5..a1daae6 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -311,7 +311,7 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             )
         else:
             pi_b = softmax(self.beta * pi_b_logits)
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample action embeddings based on sampled actions
         action_embed = np.zeros((n_rounds, self.n_cat_dim), dtype=int)
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 9b80b49..17ad56b 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -298,7 +298,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         else:
             pi_b = softmax(beta_ * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-- 
2.43.0


From db8164f49dbb6ebb46dbd1eb847b1a9c15561357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:50 +0000
Subject: [PATCH 51/51] fix: z-scored expected rewards were shifted by mean/std
 instead of being standardised

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 82fcae3..e5c71f7 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -825,8 +825,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0

