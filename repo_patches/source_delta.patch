From cc525c176727942f5b83af4b25390a68a107ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 01/32] fix: SegmentTree.partial_reduce IndexError for batches
 that include the last leaf

---
 coax/utils/_segment_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..6f5d3c1 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -170,8 +170,10 @@ class SegmentTree:
             if done.all():
                 return self.reducer(a, b)
 
-            # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            # only accumulate right-child value if 'i' was a left child of 'i_parent' (the lookup is
+            # clipped because 'i' may be the very last leaf, whose contribution is masked out anyway)
+            i_right = onp.minimum(i + 1, self._arr.size - 1)
+            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i_right]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
             b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
-- 
2.43.0


From cbe25eb486bcfaba02e610d98e6de7dca94ff500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 02/32] fix: SumTree.inverse_cdf(1.0) selected an entry of
 weight zero or out of range

---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 6f5d3c1..1f48ca3 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -391,7 +391,8 @@ class SumTree(SegmentTree):
 
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
-            pick_left_child = left_child_values > values
+            right_child_is_empty = self._arr[right_child_idx] <= 0  # e.g. if u = 1
+            pick_left_child = (left_child_values > values) | right_child_is_empty
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From 6e8a60653c6783c8ab62a5ba3a2fe31bfb0553ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 03/32] fix: stale identifiers in
 PrioritizedReplayBuffer.update undid updates of the live transition

---
 coax/experience_replay/_prioritized.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..0f6571b 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,9 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)
+        match = _get_transition_batch_idx(self._storage[idx_lookup]) == idx
+        self._sumtree.set_values(idx_lookup[match], new_values[match])  # only update if ids match
 
     def clear(self):
         r""" Clear the experience replay buffer. """
-- 
2.43.0


From 3d40346281c5758bf245bd80def895ea1c8c48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:35 +0000
Subject: [PATCH 04/32] fix: ConnectFourEnv.set_state used a numpy function
 that does not exist

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From 759001bb0db51f9e221abc88b86cdeeea728464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:35 +0000
Subject: [PATCH 05/32] fix: ConnectFourEnv observations showed the wrong
 player as the current player

---
 coax/envs/_connect_four.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..c622852 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -176,15 +176,15 @@ class ConnectFourEnv(Env):
         if a not in self.available_actions:
             raise UnavailableActionError("action is not available")
 
-        # swap players
-        self._players = np.roll(self._players, -1)
-
         # update state
         self._state[self._levels[a], a] = self._players[0]
         self._prev_action = a
 
         # run logic
         self.done, reward = self._done_reward(a)
+
+        # swap players
+        self._players = np.roll(self._players, -1)
         return self.state, reward, self.done, {'state_id': self.state_id}
 
     def render(self, *args, **kwargs):
-- 
2.43.0


From 0c3b2607b4ea06805737453f3b3114621e08cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:07 +0000
Subject: [PATCH 06/32] fix: TrainMonitor.get_counters handed out its live
 internals instead of a snapshot

---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..797070a 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -1,5 +1,6 @@
 import os
 import re
+import copy
 import datetime
 import logging
 import time
@@ -367,7 +368,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return {k: copy.deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}
 
     def set_counters(self, counters):
         r"""
@@ -383,7 +384,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(copy.deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From 57a2130d53980082ed3bf1f135051dabb7a47162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:07 +0000
Subject: [PATCH 07/32] fix: MetaPolicyEnv.step used inspect.getargspec, which
 no longer exists

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From 8eabe79d5fdaa4d7f6ea4ed0b86002e1dab83b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 08/32] fix: BoxActionsToDiscrete produced actions outside of
 the original space (float64 for a float32 Box)

---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..50d917c 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -92,7 +92,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        return onp.asarray(a_rescaled, dtype=self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From d22d07c60d5662aee16a402cad9aed4fcfb965d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 09/32] fix: OrnsteinUhlenbeckNoise clipped the noise instead
 of the output action

---
 coax/utils/_action_noise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coax/utils/_action_noise.py b/coax/utils/_action_noise.py
index 909e413..aa4b01b 100644
--- a/coax/utils/_action_noise.py
+++ b/coax/utils/_action_noise.py
@@ -106,5 +106,4 @@ class OrnsteinUhlenbeckNoise:
 
         white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
         self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise
-        self._noise = onp.clip(self._noise, self.min_value, self.max_value)
-        return a + self._noise
+        return onp.clip(a + self._noise, self.min_value, self.max_value)
-- 
2.43.0


From 0d9d28111c775f7d6a3368479bf3d5fc042d1228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 10/32] fix: RandomPolicy could not return log-propensities for
 discrete actions

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From 1692929478e8b1b7dd67ab95df8c79a2bf042e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:27 +0000
Subject: [PATCH 11/32] fix: Box action wrappers could leave the Box by a
 rounding error at its upper bound

---
 coax/wrappers/_box_spaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 50d917c..78e93d9 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)  # clip rounding errors
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
@@ -91,7 +91,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
-        a_rescaled = lo + a_reshaped * (hi - lo)
+        a_rescaled = onp.clip(lo + a_reshaped * (hi - lo), lo, hi)  # clip rounding errors
         return onp.asarray(a_rescaled, dtype=self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
-- 
2.43.0


From 1e856171cd470f52ca3d31a5965087bc142a97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 12/32] fix: NormalDist.affine_transform did not apply the
 scale to the mean

---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..174c987 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(f_inv(mu) * scale + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From 1c2fdb150c399c978bf5a60cbf1eabb325ad6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 13/32] fix: clean variates of NormalDist and
 SquashedNormalDist could leave the space by a rounding error

---
 coax/proba_dists/_normal.py          | 1 +
 coax/proba_dists/_squashed_normal.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 174c987..f921942 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -193,6 +193,7 @@ class NormalDist(BaseProbaDist):
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
+        X = jnp.clip(X, self._low, self._high)                        # avoid rounding errors
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..06f900f 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -75,6 +75,7 @@ class SquashedNormalDist(BaseProbaDist):
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
+        X = jnp.clip(X, self.space.low, self.space.high)              # avoid rounding errors
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
-- 
2.43.0


From 7f2159bea5544f68a27f55194471df2b1f6f7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 14/32] fix: SquashedNormalDist could not be used with its
 default clip_logvar

---
 coax/proba_dists/_squashed_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 06f900f..bf6d9eb 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -32,7 +32,7 @@ class SquashedNormalDist(BaseProbaDist):
 
     """
 
-    def __init__(self, space, clip_logvar=None):
+    def __init__(self, space, clip_logvar=(-20., 20.)):
         super().__init__(space)
 
         self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
-- 
2.43.0


From a328907ac609bd7cd5f316becaf46ebebc3a6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 15/32] fix: SquashedNormalDist.log_proba ignored the bounds of
 the space and all but its last axis

---
 coax/proba_dists/_squashed_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index bf6d9eb..f642119 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -53,9 +53,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale  # undo the rescaling from [-1, 1] to the Box
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdet = 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))) + jnp.log(self._scale)
+            return logp - jnp.sum(logdet.reshape(X.shape[0], -1), axis=-1)
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From b1f981c5105f1e2531cee95a62e3015c96f1dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 16/32] fix: DiscretizedIntervalDist.preprocess_variate refused
 floats and dropped the upper bound of the interval

---
 coax/proba_dists/_discretized_interval.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 1d3152e..e732f8c 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -141,11 +141,10 @@ class DiscretizedIntervalDist(CategoricalDist):
         return self.__atoms.copy()
 
     def preprocess_variate(self, rng, X):
-        X = jnp.asarray(X)
-        assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-        assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
+        X = jnp.asarray(X).reshape(-1)
         low, high = float(self.space_orig.low), float(self.space_orig.high)
-        return jax.nn.one_hot(jnp.floor((X - low) * self.num_bins / (high - low)), self.num_bins)
+        bins = jnp.floor((X - low) * self.num_bins / (high - low)).astype('int32')
+        return jax.nn.one_hot(jnp.clip(bins, 0, self.num_bins - 1), self.num_bins)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         # map almost-one-hot vectors to bin-indices (ints)
-- 
2.43.0


From 547fded9fbd306441d145a83cdade2fc17f60c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 17/32] fix: ProbaDist.affine_transform could not be called
 with a value_transform

---
 coax/proba_dists/_composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_composite.py b/coax/proba_dists/_composite.py
index 01d01e7..ad098bb 100644
--- a/coax/proba_dists/_composite.py
+++ b/coax/proba_dists/_composite.py
@@ -204,7 +204,7 @@ class ProbaDist(BaseProbaDist):
         self._entropy_func = jit(entropy)
         self._cross_entropy_func = jit(cross_entropy)
         self._kl_divergence_func = jit(kl_divergence)
-        self._affine_transform_func = jit(affine_transform)
+        self._affine_transform_func = affine_transform
 
     @property
     def hyperparams(self):
-- 
2.43.0


From e4a9f42d9dea953d9000e5ca3eba0e011d769c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 18/32] fix: distributional TD losses over a discretized
 interval ignored the sample weights

---
 coax/td_learning/_base.py                   | 8 ++++----
 coax/td_learning/_clippeddoubleqlearning.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..5e90c43 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -261,8 +261,8 @@ class BaseTDLearningV(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.v.value_transform)
 
                 if isinstance(self.v.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.v.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.v.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.v.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
@@ -418,8 +418,8 @@ class BaseTDLearningQ(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index bd2a48b..8a269d5 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -145,8 +145,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
-- 
2.43.0


From 90717da35c09a7a50f13e2040d93acc17a9d7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 19/32] fix: Regularizer.batch_eval always raised for type-1
 stochastic functions

---
 coax/regularizers/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..e5f7955 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -75,7 +75,7 @@ class Regularizer:
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From f5e5f9c8b1ec6ef394b23d3d867ad3c9e399bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 20/32] fix: the optimizer of a policy objective could not be
 replaced

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From fd3b839617a9fa0f578297b8cd07ba67272703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 21/32] fix: coax.Q ignored a custom observation_preprocessor
 when it initialised its parameters

---
 coax/_core/q.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From 8b519ce10a01bc70a9bfe1e711e015b312494797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:54 +0000
Subject: [PATCH 22/32] fix: NStepEntropyRegularizer refused categorical
 policies, unordered steps and counted steps after the end of an episode

---
 coax/regularizers/_nstep_entropy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index c7eff80..c9b704f 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -52,24 +52,26 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._n = jnp.array(n)
         self.beta = beta
         self.gamma = gamma
-        self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
+        self._gammas = jnp.power(self.gamma, self._n)
+
+        def valid_steps(dones):
+            # a step is valid if no earlier step was terminal, whether or not that one is in n
+            return jnp.take(self.valid_from_done(dones), self._n, axis=0)
 
         def entropy(dist_params, dones):
-            valid = self.valid_from_done(dones)
+            valid = valid_steps(dones)
             vf = jax.vmap(lambda p, v, gamma: gamma * self.f.proba_dist.entropy(p) * v)
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
         def function(dist_params, dones, beta):
-            assert len(dist_params) == 2
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            assert len(dist_params) == 2
-            valid = self.valid_from_done(dones)
+            valid = valid_steps(dones)
             return {
                 'EntropyRegularizer/beta': beta,
                 'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) /
-                                                       jnp.sum(valid, axis=0))
+                                                       jnp.maximum(jnp.sum(valid, axis=0), 1))
             }
 
         self._function = jit(function)
@@ -100,7 +102,6 @@ class NStepEntropyRegularizer(EntropyRegularizer):
                     raise TypeError(
                         "f must be derived from BaseStochasticFuncType2")
                 dones = jnp.stack(transition_batch.extra_info['dones'])
-                dones = jnp.take(dones, self._n, axis=0)
 
                 return self.function(dist_params,
                                      dones,
-- 
2.43.0


From 616c57129ec1bdd0801405be7fcbbe50a1a1c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:22 +0000
Subject: [PATCH 23/32] fix: StochasticV and StochasticQ could not be created
 with a LogTransform

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..31e2882 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -244,7 +244,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..e7dd32a 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -204,7 +204,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From 81ec368afcfdb6f312cb5f2b1f79f1fca3775a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 24/32] fix: StochasticV and StochasticQ returned values
 without undoing their value_transform

---
 coax/_core/stochastic_q.py | 9 ++++++---
 coax/_core/stochastic_v.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 31e2882..36e18d5 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -1,3 +1,4 @@
+import jax
 from gymnasium.spaces import Box
 
 from ..utils import default_preprocessor
@@ -162,7 +163,9 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        value, logp = super().__call__(s, a=a, return_logp=True)
+        value = jax.tree_map(self.value_transform.inverse_func, value)
+        return (value, logp) if return_logp else value
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +190,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +215,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index e7dd32a..8c1a72b 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -137,7 +137,9 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        value, logp = super().__call__(s, return_logp=True)
+        value = self.value_transform.inverse_func(value)
+        return (value, logp) if return_logp else value
 
     def mean(self, s):
         r"""
@@ -157,7 +159,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return self.value_transform.inverse_func(super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +179,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return self.value_transform.inverse_func(super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From 27827381fc68b351e97ac8d968188f39333e3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 25/32] fix: StochasticRewardFunction ignored all of its
 optional arguments

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From 353e4d5094c5caa75867b51c51624a9899e23b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 26/32] fix: SuccessorStateQ used rewards without undoing the
 value_transform of the reward function

---
 coax/_core/successor_state_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..4144ea2 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -127,6 +127,7 @@ class SuccessorStateQ:
                 else:
                     R, new_state['r'] = self.r.function_type1(
                         params['r'], state['r'], next(rngs), S, A, is_training)
+                R = self.r.value_transform.inverse_func(R)
 
                 # v(s')
                 if is_stochastic(self.v):
@@ -183,6 +184,7 @@ class SuccessorStateQ:
                     R_rep, new_state['r'] = self.r.function_type2(
                         params['r'], state['r'], next(rngs), S, is_training)
                     R_rep = jax.tree_map(self._reshape_to_replicas, R_rep)
+                R_rep = self.r.value_transform.inverse_func(R_rep)
 
                 # v(s')  # note: since the input S_next is replicated, so is the output V
                 if is_stochastic(self.v):
-- 
2.43.0


From a210a4e040ccd776093ae3562f4d62caaef7d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:09 +0000
Subject: [PATCH 27/32] fix: StochasticQ over quantiles gave the value of the
 first action for all actions

---
 coax/proba_dists/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_base.py b/coax/proba_dists/_base.py
index da88a6c..ac32ae8 100644
--- a/coax/proba_dists/_base.py
+++ b/coax/proba_dists/_base.py
@@ -298,7 +298,7 @@ class BaseProbaDist(ABC):
             :code:`x in self.space`.
 
         """
-        return X if batch_mode else batch_to_single(X)
+        return X if batch_mode else batch_to_single(X, index=index)
 
     def preprocess_variate(self, rng, X):
         r"""
-- 
2.43.0


From efac62b8baaa5f956897d50dcaa7bb21f9885de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:09 +0000
Subject: [PATCH 28/32] fix: SuccessorStateQ could not be used with a
 StochasticTransitionModel

---
 coax/_core/stochastic_transition_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/_core/stochastic_transition_model.py b/coax/_core/stochastic_transition_model.py
index 4cf6139..0fa7bb8 100644
--- a/coax/_core/stochastic_transition_model.py
+++ b/coax/_core/stochastic_transition_model.py
@@ -64,6 +64,7 @@ class StochasticTransitionModel(BaseStochasticFuncType1):
             observation_preprocessor = proba_dist.preprocess_variate
         if action_preprocessor is None:
             action_preprocessor = default_preprocessor(env.action_space)
+        self.observation_postprocessor = proba_dist.postprocess_variate
 
         super().__init__(
             func=func,
-- 
2.43.0


From 7b4ad60abae05ca35822f9cc79675fc2b30445d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:29 +0000
Subject: [PATCH 29/32] fix: the params of EpsilonGreedy and BoltzmannPolicy
 could not be set

---
 coax/_core/value_based_policy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..9f307ff 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -202,7 +202,7 @@ class EpsilonGreedy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict({'epsilon': self.epsilon, 'q': self.q.params})
+        return {'epsilon': self.epsilon, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
@@ -261,8 +261,7 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict(
-            {'temperature': self.temperature, 'q': self.q.params})
+        return {'temperature': self.temperature, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
-- 
2.43.0


From 342812243abd08519b5dd53f7c4363b5aee22424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:15 +0000
Subject: [PATCH 30/32] fix: ModelUpdater could not update a
 StochasticRewardFunction

---
 coax/model_updaters/_model_updater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/model_updaters/_model_updater.py b/coax/model_updaters/_model_updater.py
index fc52d7e..6a57c5a 100644
--- a/coax/model_updaters/_model_updater.py
+++ b/coax/model_updaters/_model_updater.py
@@ -85,6 +85,8 @@ class ModelUpdater:
                 y_true = self.model.observation_preprocessor(next(rngs), transition_batch.S_next)
             elif is_reward_function(self.model):
                 y_true = self.model.value_transform.transform_func(transition_batch.Rn)
+                if is_stochastic(self.model):
+                    y_true = self.model.proba_dist.preprocess_variate(next(rngs), y_true)
             else:
                 raise AssertionError(f"unexpected model type: {type(self.model)}")
 
-- 
2.43.0


From 60c7b1bb0937d6f86f5658e578794fc210966f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:58 +0000
Subject: [PATCH 31/32] fix: safe_sample could return a point outside of the
 Box

---
 coax/utils/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index e52626a..8387ba1 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -806,7 +806,8 @@ def _safe_sample(space, rnd):
         low = onp.clip(space.low, -1e9, 1e9)
         high = onp.clip(space.high, -1e9, 1e9)
         x = low + rnd.rand(*space.shape) * (high - low)
-        return onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x = onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        return onp.clip(x, space.low, space.high)
 
     if isinstance(space, gymnasium.spaces.Tuple):
         return tuple(_safe_sample(sp, rnd) for sp in space.spaces)
-- 
2.43.0


From c3302d0f41fd4bb36e304dc7595ffd75c87e2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 32/32] fix: spec_to_box failed on bounded specs of rank two

---
 coax/utils/_dmc_gym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_dmc_gym.py b/coax/utils/_dmc_gym.py
index d112b4c..ace3fe0 100644
--- a/coax/utils/_dmc_gym.py
+++ b/coax/utils/_dmc_gym.py
@@ -96,7 +96,8 @@ def extract_min_max(s):
         return -bound, bound
     elif type(s) == specs.BoundedArray:
         zeros = onp.zeros(dim, dtype=onp.float32)
-        return s.minimum + zeros, s.maximum + zeros
+        return tuple(
+            onp.broadcast_to(bound, s.shape).ravel() + zeros for bound in (s.minimum, s.maximum))
     else:
         raise ValueError("")
 
-- 
2.43.0

