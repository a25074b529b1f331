From cea00bd42becfee228f09226ca703d146bc3bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 01/30] fix: train_agent_batch: check successful_score also
 after an evaluation score of 0

---
 chainerrl/experiments/train_agent_batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..a2157df 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -107,11 +107,12 @@ def train_agent_batch(agent, env, steps, outdir,
                     ))
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
-                if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
-                    if (successful_score is not None and
-                            evaluator.max_score >= successful_score):
-                        break
+                eval_score = evaluator.evaluate_if_necessary(
+                    t=t, episodes=np.sum(episode_idx))
+                if (eval_score is not None and
+                        successful_score is not None and
+                        evaluator.max_score >= successful_score):
+                    break
 
             if t >= steps:
                 break
-- 
2.43.0


From b128464370d6a3b2152df4f88241d8571002d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 02/30] fix: collect_demonstrations: cut episodes at
 max_episode_len, not one step later

---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..e1a708b 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,11 +52,11 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
             episode_r += r
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
                 terminate = episode_num >= episodes
-- 
2.43.0


From aa1a86f6fcca16f984c7e5aba9de7ba3e05448b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 03/30] fix: NormalizedRewardFilter: eps bounds the variance
 from below

---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From 2b340ac8c0e86b2526a19adc4b2705045b77fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 04/30] fix: PPO: recurrent minibatches when the dataset is not
 a multiple of minibatch_size

---
 chainerrl/agents/ppo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 6ce29fc..78cc833 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -156,7 +156,7 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
     while stack:
         subset = []
         count = 0
-        while count < n_items:
+        while stack and count < n_items:
             sequence = stack.pop()
             subset.append(sequence)
             count += len(sequence)
@@ -167,7 +167,8 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
             assert n_exceeds > 0
             subset[-1] = sequence_to_split[:-n_exceeds]
             stack.append(sequence_to_split[-n_exceeds:])
-        assert sum(len(seq) for seq in subset) == n_items
+        # The last subset is smaller when the items do not divide evenly
+        assert sum(len(seq) for seq in subset) == min(count, n_items)
         yield subset
 
 
-- 
2.43.0


From d196930d58a8fe9eb84fc8172e6d10265f49d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 05/30] fix: FireResetEnv: return the observation of the last
 reset

---
 chainerrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index e6185e9..3790347 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -66,7 +66,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 813e3b1c54f76c77d26882b1bfd55ed0012d1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 06/30] fix: EpisodicLifeEnv: reset when the no-op after a lost
 life ends the game

---
 chainerrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 3790347..b3c23a2 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -108,7 +108,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get('needs_reset', False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 6ceaa0b68db7197a248af27c05e6e07c432d4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 07/30] fix: SerialVectorEnv: spec is the environments' spec

---
 chainerrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..dc7c21e 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], 'spec', None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From cd054cd7571d4396b3e5e1e7738826ababde87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 08/30] fix: unchain_backward: collections.Iterable does not
 exist on Python 3.10+

---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..b1ab428 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+from collections.abc import Iterable
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From 4e76c97b35c76595f642b6b2e5d5a9d2dad75608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 09/30] fix: set_state: restore the initial (None) state of
 LSTM links

---
 chainerrl/recurrent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index b1ab428..f0ae5d6 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -118,7 +118,9 @@ def set_state(chain, state):
         if isinstance(link, chainer.links.LSTM):
             c, h = s
             # LSTM.set_state doesn't accept None state
-            if c is not None:
+            if c is None:
+                link.reset_state()
+            else:
                 link.set_state(c, h)
         elif isinstance(link, Recurrent):
             link.set_state(s)
-- 
2.43.0


From b237ffe4c224027be346e028b707181b2d960a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 10/30] fix: AsyncEvaluator: do not round the best score to
 float32

---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From c6ddad390ef41b10826a5bcf842d4c2f1b21f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 11/30] fix: ALE: start a new game when a null action on reset
 ends the game

---
 chainerrl/envs/ale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/envs/ale.py b/chainerrl/envs/ale.py
index 61fe383..9afdad5 100644
--- a/chainerrl/envs/ale.py
+++ b/chainerrl/envs/ale.py
@@ -221,6 +221,8 @@ class ALE(env.Env):
             n_nullops = np.random.randint(0, self.max_start_nullops + 1)
             for _ in range(n_nullops):
                 self.ale.act(0)
+                if self.ale.game_over():
+                    self.ale.reset_game()
 
         self._reward = 0
 
-- 
2.43.0


From b85aecb0b628a1b73f0dc85165f393db8fb7cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 12/30] fix: LinearDecayEpsilonGreedy: no division by zero with
 decay_steps=0

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From eea7aa83eeb568c4d236c7b210503542e013427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 13/30] fix: Monitor: keep the monitor mode given to the
 constructor

---
 chainerrl/wrappers/monitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/wrappers/monitor.py b/chainerrl/wrappers/monitor.py
index 6e7cab0..c404b8a 100644
--- a/chainerrl/wrappers/monitor.py
+++ b/chainerrl/wrappers/monitor.py
@@ -32,6 +32,8 @@ class Monitor(_GymMonitor):
             directory,
             '{}.episode_batch.{}'.format(self.file_prefix, self.file_infix),
             autoreset=False, env_id=env_id)
+        if mode is not None:
+            self._set_mode(mode)
         return ret
 
 
-- 
2.43.0


From 66499419526ebc3e046262ef0898c2a3cfad8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 14/30] fix: DDPG: discount the bootstrap value of n-step
 transitions by gamma^n

---
 chainerrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..d8cf1de 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -176,6 +176,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch['is_state_terminal']
         batch_state = batch['state']
         batch_actions = batch['action']
+        batch_discount = batch['discount']
         batchsize = len(batch_rewards)
 
         with chainer.no_backprop_mode():
@@ -194,7 +195,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch_discount * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From 34de8929676102ebe39ab49569598c4013eadfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 15/30] fix: TD3: honour n_times_update

---
 chainerrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 4077e77..cb9b6eb 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -130,7 +130,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From f96e78611ed04df02908fab00c2c324b597db6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 16/30] fix: A2C: batch_act honours act_deterministically

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..e1c13a9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From 0a17274ca899f0f943a731f6a8081d96a634997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 17/30] fix: conjugate_gradient returns 0, not NaN, for b = 0

---
 chainerrl/misc/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/misc/conjugate_gradient.py b/chainerrl/misc/conjugate_gradient.py
index 994413f..d7ece3f 100644
--- a/chainerrl/misc/conjugate_gradient.py
+++ b/chainerrl/misc/conjugate_gradient.py
@@ -21,6 +21,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     xp = chainer.cuda.get_array_module(b)
     x = xp.zeros_like(b)
     r0 = b - A_product_func(x)
+    if xp.linalg.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = xp.dot(r0, r0) / xp.dot(A_product_func(p), p)
-- 
2.43.0


From f171ee8a28092098a8e39c0d6a4bfe6573e7d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 18/30] fix: DistributionalDiscreteActionValue accepts Variable
 actions as documented

---
 chainerrl/action_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/action_value.py b/chainerrl/action_value.py
index 2e6a6b2..c705875 100644
--- a/chainerrl/action_value.py
+++ b/chainerrl/action_value.py
@@ -153,6 +153,8 @@ class DistributionalDiscreteActionValue(ActionValue):
             chainer.Variable: Return distributions. Its shape will be
                 (batch_size, n_atoms).
         """
+        if isinstance(actions, chainer.Variable):
+            actions = actions.array
         return self.q_dist[self.xp.arange(self.q_values.shape[0]), actions]
 
     def compute_advantage(self, actions):
-- 
2.43.0


From 74d0973f24b1341d162c95ca97ed8faebb2b64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 19/30] fix: maximum entropy mellowmax policies use their omega

---
 chainerrl/distribution.py        | 3 ++-
 chainerrl/functions/mellowmax.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 529c79f..4e24ac9 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,7 +238,8 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(self.values)
+            return mellowmax.maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     @cached_property
     def all_log_prob(self):
diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index c73bec4..a069ac4 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -47,7 +47,7 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
         outputs (Variable)
     """
     xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, axis=1)
+    mm = mellowmax(values, omega=omega, axis=1)
 
     # Advantage: Q - mellowmax(Q)
     batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-- 
2.43.0


From 37ead10972e58e095bf69e608f9d263662efbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 20/30] fix: EmpiricalNormalization: drop the cached deviation
 when loading

---
 chainerrl/links/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..739039d 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -48,6 +48,11 @@ class EmpiricalNormalization(chainer.Link):
 
         return self._cached_std_inverse
 
+    def serialize(self, serializer):
+        super(EmpiricalNormalization, self).serialize(serializer)
+        # clear cache, since _var may have been loaded
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From 7e74ad8f66e3f6bafddac1f28e97805b38ab8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 21/30] fix: PCL: pair each replayed episode with its own
 weight

---
 chainerrl/agents/pcl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a5aef17..3bdb8f4 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -279,7 +279,11 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             episodes, weights = episodes
         else:
             weights = [1] * len(episodes)
-        sorted_episodes = list(reversed(sorted(episodes, key=len)))
+        # Sort episodes by length, together with their weights
+        order = sorted(range(len(episodes)),
+                       key=lambda i: len(episodes[i]), reverse=True)
+        sorted_episodes = [episodes[i] for i in order]
+        weights = [weights[i] for i in order]
         max_epi_len = len(sorted_episodes[0])
 
         with state_reset(self.model):
-- 
2.43.0


From 9d5c4ac2f804d7c69ca6330d457fbfb39608d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 22/30] fix: PCL: work without a replay buffer, as its default

---
 chainerrl/agents/pcl.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 3bdb8f4..b595ec8 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -412,7 +412,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             (1 - self.average_entropy_decay) *
             (float(action_distrib.entropy.array[0]) - self.average_entropy))
 
-        if self.last_state is not None:
+        if self.replay_buffer is not None and self.last_state is not None:
             assert self.last_action is not None
             assert self.last_action_distrib is not None
             # Add a transition to the replay buffer
@@ -461,15 +461,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             self.model.reset_state()
 
         # Add a transition to the replay buffer
-        self.replay_buffer.append(
-            state=self.last_state,
-            action=self.last_action,
-            reward=reward,
-            next_state=state,
-            next_action=self.last_action,
-            is_state_terminal=done,
-            mu=self.last_action_distrib)
-        self.replay_buffer.stop_current_episode()
+        if self.replay_buffer is not None:
+            self.replay_buffer.append(
+                state=self.last_state,
+                action=self.last_action,
+                reward=reward,
+                next_state=state,
+                next_action=self.last_action,
+                is_state_terminal=done,
+                mu=self.last_action_distrib)
+            self.replay_buffer.stop_current_episode()
 
         self.last_state = None
         self.last_action = None
-- 
2.43.0


From 797a13e4682ec9711e2859c9abbbd16c05973e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 23/30] fix: load optimizers saved before (some of) their
 parameters were updated

---
 chainerrl/agent.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..992d4c1 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 from abc import abstractproperty
 import os
 
+import chainer
 from chainer import serializers
 import numpy
 import warnings
@@ -13,6 +14,12 @@ def load_npz_no_strict(filename, obj):
         serializers.load_npz(filename, obj)
     except KeyError as e:
         warnings.warn(repr(e))
+        if isinstance(obj, chainer.Optimizer):
+            # Drop states the file doesn't have: those of past updates and
+            # the placeholders left by the failed load
+            for param in obj.target.params():
+                if param.update_rule is not None:
+                    param.update_rule._state = None
         with numpy.load(filename) as f:
             d = serializers.NpzDeserializer(f, strict=False)
             d.load(obj)
-- 
2.43.0


From 6275e4765a5b93acc5318d87a8b348165cd7e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 24/30] fix: recurrent state contexts restore the state when
 left by an exception

---
 chainerrl/recurrent.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index f0ae5d6..a8a8b3b 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -78,14 +78,18 @@ class Recurrent(object, metaclass=ABCMeta):
     @contextlib.contextmanager
     def state_reset(self):
         self.push_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
     @contextlib.contextmanager
     def state_kept(self):
         self.push_and_keep_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
 
 def get_state(chain):
@@ -188,8 +192,10 @@ def state_kept(link):
     """
     if isinstance(link, Recurrent):
         link.push_and_keep_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
 
@@ -223,7 +229,9 @@ def state_reset(link):
     """
     if isinstance(link, Recurrent):
         link.push_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
-- 
2.43.0


From 66f88587d1ef094c39f947d4539b70b454ca85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 25/30] fix: Sequence: pass keyword arguments only to the links
 that take them

---
 chainerrl/links/sequence.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/chainerrl/links/sequence.py b/chainerrl/links/sequence.py
index a0b9669..96b2258 100644
--- a/chainerrl/links/sequence.py
+++ b/chainerrl/links/sequence.py
@@ -6,8 +6,16 @@ import chainer
 from chainerrl.recurrent import RecurrentChainMixin
 
 
+def call_signature(layer):
+    # chainer.Link.__call__ takes anything and passes it on to forward
+    if (getattr(type(layer), '__call__', None) is chainer.Link.__call__
+            and hasattr(layer, 'forward')):
+        return signature(layer.forward)
+    return signature(layer)
+
+
 def accept_variable_arguments(func):
-    for param in signature(func).parameters.values():
+    for param in call_signature(func).parameters.values():
         if param.kind in (Parameter.VAR_POSITIONAL,
                           Parameter.VAR_KEYWORD):
             return True
@@ -21,7 +29,7 @@ class Sequence(chainer.ChainList, RecurrentChainMixin):
         self.layers = list(layers)
         links = [layer for layer in layers if isinstance(layer, chainer.Link)]
         # Cache the signatures because it might be slow
-        self.argnames = [set(signature(layer).parameters)
+        self.argnames = [set(call_signature(layer).parameters)
                          for layer in layers]
         self.accept_var_args = [accept_variable_arguments(layer)
                                 for layer in layers]
-- 
2.43.0


From cb5357d0d277b432844757481c3d02af9cf0061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 26/30] fix: FCGaussianPolicyWithStateIndependentCovariance: no
 hidden layer with n_hidden_layers=0

---
 chainerrl/policies/gaussian_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chainerrl/policies/gaussian_policy.py b/chainerrl/policies/gaussian_policy.py
index 005641e..71707a8 100644
--- a/chainerrl/policies/gaussian_policy.py
+++ b/chainerrl/policies/gaussian_policy.py
@@ -150,14 +150,14 @@ class FCGaussianPolicyWithStateIndependentCovariance(
         var_size = {'spherical': 1, 'diagonal': action_size}[var_type]
 
         layers = []
-        layers.append(L.Linear(n_input_channels, n_hidden_channels))
-        for _ in range(n_hidden_layers - 1):
+        last_size = n_input_channels
+        for _ in range(n_hidden_layers):
+            layers.append(L.Linear(last_size, n_hidden_channels))
             layers.append(self.nonlinearity)
-            layers.append(L.Linear(n_hidden_channels, n_hidden_channels))
-        layers.append(self.nonlinearity)
+            last_size = n_hidden_channels
         # The last layer is used to compute the mean
         layers.append(
-            L.Linear(n_hidden_channels, action_size,
+            L.Linear(last_size, action_size,
                      initialW=LeCunNormal(mean_wscale)))
 
         if self.bound_mean:
-- 
2.43.0


From f7f4ba405233042226805933df4367823650b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 27/30] fix: DDPG, TD3, SAC, TRPO: use the given batch_states
 in updates

---
 chainerrl/agents/ddpg.py              | 7 +++++--
 chainerrl/agents/soft_actor_critic.py | 4 +++-
 chainerrl/agents/td3.py               | 4 +++-
 chainerrl/agents/trpo.py              | 7 ++++---
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index d8cf1de..ae6bcfe 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -254,7 +254,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.critic_optimizer.update(lambda: self.compute_critic_loss(batch))
         self.actor_optimizer.update(lambda: self.compute_actor_loss(batch))
 
@@ -272,7 +274,8 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                     break
                 transitions.append([ep[i]])
             batch = batch_experiences(
-                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma)
+                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma,
+                batch_states=self.batch_states)
             batches.append(batch)
 
         with self.model.state_reset(), self.target_model.state_reset():
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index b1258f2..bc40c20 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -282,7 +282,9 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index cb9b6eb..f9f544f 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -229,7 +229,9 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         if self.q_func1_optimizer.t % self.policy_update_delay == 0:
             self.update_policy(batch)
diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..ea96f06 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -356,7 +356,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -376,7 +376,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -404,7 +405,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states([b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0


From c646df8770bf5ba78cadd865cd09d5f223e60886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 28/30] fix: run_async: seed each process differently

The seed was drawn in the child process.  Forked processes inherit the same
random state, so that all of them drew the same seed.
---
 chainerrl/misc/async_.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 480e721..74c3822 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -170,13 +170,16 @@ def run_async(n_process, run_func):
 
     processes = []
 
-    def set_seed_and_run(process_idx, run_func):
-        random_seed.set_random_seed(np.random.randint(0, 2 ** 32))
+    def set_seed_and_run(process_idx, seed, run_func):
+        random_seed.set_random_seed(seed)
         run_func(process_idx)
 
     for process_idx in range(n_process):
+        # Draw a seed here, not in the child process: forked processes inherit
+        # the same random state and thus would draw the same seed.
+        seed = np.random.randint(0, 2 ** 32)
         processes.append(mp.Process(target=set_seed_and_run, args=(
-            process_idx, run_func)))
+            process_idx, seed, run_func)))
 
     for p in processes:
         p.start()
-- 
2.43.0


From d4d04c8e468d3fe4c0bcde8b251b15cad5d2ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 29/30] fix: DDPG: do not update the state of a Q-function
 without one

---
 chainerrl/agents/ddpg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index ae6bcfe..68351d8 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -282,8 +282,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
 
             # Since the target model is evaluated one-step ahead,
             # its internal states need to be updated
-            self.target_q_function.update_state(
-                batches[0]['state'], batches[0]['action'])
+            if isinstance(self.target_q_function, Recurrent):
+                self.target_q_function.update_state(
+                    batches[0]['state'], batches[0]['action'])
             self.target_policy(batches[0]['state'])
 
             # Update critic through time
-- 
2.43.0


From 183e948e868e6236ba4de38eeca46a41d00afcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 30/30] fix: replay buffers: load transitions of v0.2 files as
 lists

---
 chainerrl/replay_buffers/episodic.py      | 5 +++--
 chainerrl/replay_buffers/replay_buffer.py | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/chainerrl/replay_buffers/episodic.py b/chainerrl/replay_buffers/episodic.py
index 68a866b..31de666 100644
--- a/chainerrl/replay_buffers/episodic.py
+++ b/chainerrl/replay_buffers/episodic.py
@@ -57,12 +57,13 @@ class EpisodicReplayBuffer(AbstractEpisodicReplayBuffer):
             # Load v0.2
             # FIXME: The code works with EpisodicReplayBuffer
             # but not with PrioritizedEpisodicReplayBuffer
-            self.memory = RandomAccessQueue(memory)
+            # In v0.2 items are transitions, not lists of transitions.
+            self.memory = RandomAccessQueue([item] for item in memory)
             self.episodic_memory = RandomAccessQueue()
 
             # Recover episodic_memory with best effort.
             episode = []
-            for item in self.memory:
+            for item in memory:
                 episode.append(item)
                 if item['is_state_terminal']:
                     self.episodic_memory.append(episode)
diff --git a/chainerrl/replay_buffers/replay_buffer.py b/chainerrl/replay_buffers/replay_buffer.py
index c43eb5d..f8447da 100644
--- a/chainerrl/replay_buffers/replay_buffer.py
+++ b/chainerrl/replay_buffers/replay_buffer.py
@@ -79,3 +79,7 @@ class ReplayBuffer(replay_buffer.AbstractReplayBuffer):
             # Load v0.2
             self.memory = RandomAccessQueue(
                 self.memory, maxlen=self.memory.maxlen)
+            # In v0.2 items are transitions, not lists of transitions.
+            for i in range(len(self.memory)):
+                if isinstance(self.memory[i], dict):
+                    self.memory[i] = [self.memory[i]]
-- 
2.43.0

