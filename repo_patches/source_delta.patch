From 16954297ddb6ee73c23ac0262925ab3b9d03be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 01/32] fix: clip inferred yaw change to max_dyaw in
 displacement dynamics

DeltaGlobal._clip_values documents clipping to the action spec but only
wrapped the yaw component, so inverse() could return actions outside the
declared bounds when max_dyaw < pi.
---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From 1ae5f81ae87460d30e9b84fb4cb4a649635b77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 02/32] fix: without valid road edges no object is off-road

compute_signed_distance_to_nearest_road_edge_point fell back to point 0
of the roadgraph, whatever its type or validity, when the map contained
no valid road edge, so objects could be flagged off-road by lanes,
crosswalks or padding.
---
 waymax/metrics/roadgraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..c4119a6 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -228,6 +228,9 @@ def compute_signed_distance_to_nearest_road_edge_point(
       )
   )
   # Shape: (..., num_query_points).
-  return (
+  signed_distances = (
       jnp.linalg.norm(nearest_xys - query_points[:, :2], axis=-1) * offroad_sign
   )
+  # Without any valid road edge no point can be beyond one.
+  has_road_edge = jnp.any(roadgraph_points.valid & is_road_edge, axis=-1)
+  return jnp.where(has_road_edge, signed_distances, -jnp.inf)
-- 
2.43.0


From 9fc81e3d03aa3d20b6445dcefa92e12674e1391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 03/32] fix: broadcast SDC-only metrics over objects in batched
 rewards

Metrics without an object dimension, shape (...), were multiplied with the
(..., num_objects) agent mask without aligning the batch dimensions, which
failed for batched states or, when the batch size equals the number of
objects, mixed up scenarios.
---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..4b19a9f 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Metrics of the SDC only have no object dimension, shape (...).
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From 14152dcfe891ac5da2b740259aaf2d3cc0d2fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 04/32] fix: reward of an empty metric combination is float32

It inherited the boolean dtype of the agent mask, contradicting the
declared reward spec.
---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 4b19a9f..7f2e9ef 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       if metric_all_agents.ndim < agent_mask.ndim:
-- 
2.43.0


From 05d426bfe30dcd5f8020cafe0d2cbf5999686639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 05/32] fix: keep exact ids and types when filtering roadgraph
 points

filter_topk_roadgraph_points gathered the integer fields through float32,
which corrupts identifiers above 2**24.
---
 waymax/datatypes/roadgraph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..147cbdb 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -209,14 +209,15 @@ def filter_topk_roadgraph_points(
             roadgraph.dir_x,
             roadgraph.dir_y,
             roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
             roadgraph.valid,
         ],
         axis=-1,
         dtype=jnp.float32,
     )
     filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
+    # Integer fields are gathered separately: float32 is not exact above 2**24.
+    types = jnp.take_along_axis(roadgraph.types, top_idx, axis=-1)
+    ids = jnp.take_along_axis(roadgraph.ids, top_idx, axis=-1)
 
     return RoadgraphPoints(
         x=filtered[..., 0],
@@ -225,9 +226,9 @@ def filter_topk_roadgraph_points(
         dir_x=filtered[..., 3],
         dir_y=filtered[..., 4],
         dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+        types=types.astype(jnp.int32),
+        ids=ids.astype(jnp.int32),
+        valid=filtered[..., 6].astype(jnp.bool_),
     )
   else:
     return roadgraph
-- 
2.43.0


From eba5deb5140791199ad958adba948cfa95c45d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 06/32] fix: mark every object as the ego of its own
 observation

observation_from_state compared a diagonal of object indices with one, so
only object 1 was marked; the comment asks for the diagonal matrix.
---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 4427a13bfda93a8b3d3d56fe0d599a50c7ee46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 07/32] fix: masked_mean reduces along the requested axis

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..d9114f5 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -278,9 +278,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From 10859aa217d869c914e5f7edd68aa0ab56662eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 08/32] fix: update_by_slice_in_dim accepts one updates index
 for a batch

---
 waymax/datatypes/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index d9114f5..e6cf2c2 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,11 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  elif hasattr(inputs_start_idx, 'shape'):
+    # One start index of the updates may serve all batch elements.
+    updates_start_idx = jnp.broadcast_to(
+        updates_start_idx, inputs_start_idx.shape
+    )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
-- 
2.43.0


From 9dc5f696dd81afd16b7cd5b07bad7a777f501e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 09/32] fix: Observation.for_obj selects along the observer
 axis

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 422ae2fae9ea0d7f9a79a8f9cedccd2f3b7be53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 10/32] fix: select_by_onehot ignores non-finite unselected
 values

---
 waymax/datatypes/operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index e6cf2c2..d8b9e49 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -243,8 +243,12 @@ def select_by_onehot(
     else:
       reshaped_selection = selection
     # Since reshaped_selection is one-hot, use sum to perform the selection.
+    # Masking (instead of multiplying) keeps non-finite values of unselected
+    # elements out of the result.
     return jnp.sum(
-        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims
+        jnp.where(reshaped_selection, x, jnp.zeros_like(x)),
+        axis=(selection.ndim - 1),
+        keepdims=keepdims,
     ).astype(x.dtype)
 
   return jax.tree_util.tree_map(_select, data)
-- 
2.43.0


From dec2d91075b370adb11e2e88683cee4fd4a6d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 11/32] fix: multi-agent action spec accepts scalar bounds
 (StateDynamics)

---
 waymax/env/base_environment.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..1eb713d 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -171,13 +171,13 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     data_spec = specs.BoundedArray(
         shape=(self.config.max_num_objects,) + single_agent_spec.shape,
         dtype=single_agent_spec.dtype,
-        minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
+        minimum=jnp.broadcast_to(
+            single_agent_spec.minimum,
+            (self.config.max_num_objects,) + single_agent_spec.shape,
         ),
-        maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
+        maximum=jnp.broadcast_to(
+            single_agent_spec.maximum,
+            (self.config.max_num_objects,) + single_agent_spec.shape,
         ),
     )
     valid_spec = specs.Array(
-- 
2.43.0


From 7b17ba394635db0958c8940e4efacf6915bb7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 12/32] fix: PlanningAgentDynamics.forward tiles the action
 validity per object

---
 waymax/env/planning_agent_environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..c4164a0 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
-- 
2.43.0


From 6d9c310e787cc4c36a8f4912e8451d2687c613c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 13/32] fix: PlanningAgentDynamics.forward honours
 allow_new_objects

---
 waymax/env/planning_agent_environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index c4164a0..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From 17ce125bbbbc6dde70e4b9c31da4efada64c3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 14/32] fix: make_sdc_dm_environment passes parameters for its
 sim agents

---
 waymax/env/wrappers/dm_env_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..c9c3c2d 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -213,10 +213,12 @@ def make_sdc_dm_environment(
     ]
   else:
     sim_agent_actors = []
+  sim_agent_params = [{} for _ in sim_agent_actors]
   dataset_iterator = dataloader.simulator_state_generator(config=data_config)
   single_env = planning_agent_environment.PlanningAgentEnvironment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=sim_agent_params,
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 72ddf168fd7345733bb6cb6f51854797935f7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 15/32] fix: a failed dm_env reset leaves the simulation not
 initialised

---
 waymax/env/wrappers/dm_env_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index c9c3c2d..b14ec94 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -87,9 +87,10 @@ class DMEnvWrapper(dm_env.Environment):
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
+    self._initialized = False
     if self._cur_state.is_done:
       raise errors.SimulationNotInitializedError()
+    self._initialized = True
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
 
-- 
2.43.0


From 0954462e64122a069014645c55150138a4a1f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 16/32] fix: rollout accepts observations that are plain
 PyTrees

---
 waymax/env/rollout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/env/rollout.py b/waymax/env/rollout.py
index e53bd2f..3e1041c 100644
--- a/waymax/env/rollout.py
+++ b/waymax/env/rollout.py
@@ -87,8 +87,10 @@ class RolloutOutput:
 
   def validate(self):
     """Validates the shape prefix of the actions and timesteps."""
+    # Actions and observations are generic PyTrees, not all have a shape.
+    structures = (self.action, self.observation, self.state, self.reward)
     chex.assert_equal_shape_prefix(
-        (self.action, self.observation, self.state, self.reward),
+        [x for x in structures if hasattr(x, 'shape')],
         prefix_len=len(self.state.shape),
     )
 
-- 
2.43.0


From 535e315050a71196746cf2330c01369218003b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 17/32] fix: Discretizer rejects any mismatch of bounds and
 bins

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..052142a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -47,7 +47,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From 984b71f6f1a593e2fbb6c34af822dc339f117af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 18/32] fix: dm_env observation_spec supports observations that
 are plain PyTrees

---
 waymax/env/wrappers/dm_env_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index b14ec94..b4dd0a8 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -173,7 +173,7 @@ class DMEnvWrapper(dm_env.Environment):
   def observation_spec(self) -> types.PyTree:
     """The observation specs of this environment, without batch dimension."""
     sample_obs = self.observe(self.stateless_env.reset(self._sample_state))
-    batch_ndim = len(sample_obs.batch_dims)
+    batch_ndim = len(self._sample_state.batch_dims)
 
     def array_to_spec(array: jax.Array) -> specs.Array:
       if array.dtype in [jnp.float32, jnp.int32, jnp.bool_]:
-- 
2.43.0


From ffe897c4da0f4481fecdaaf01dac8c26c31d8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 19/32] fix: inverse dynamics and planning metrics accept one
 timestep per scenario

---
 waymax/dynamics/bicycle_model.py         |  4 ++--
 waymax/dynamics/delta.py                 |  8 ++++----
 waymax/dynamics/discretizer.py           | 14 ++++++--------
 waymax/dynamics/state_dynamics.py        |  5 ++---
 waymax/env/planning_agent_environment.py |  6 +++++-
 5 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/waymax/dynamics/bicycle_model.py b/waymax/dynamics/bicycle_model.py
index 347c143..000a172 100644
--- a/waymax/dynamics/bicycle_model.py
+++ b/waymax/dynamics/bicycle_model.py
@@ -74,12 +74,12 @@ def compute_inverse(
   xy_yaw_vel = jnp.stack(
       [traj.x, traj.y, traj.yaw, traj.vel_x, traj.vel_y], axis=-1
   )
-  xy_yaw_vel_slice = jax.lax.dynamic_slice_in_dim(
+  xy_yaw_vel_slice = datatypes.dynamic_slice(
       xy_yaw_vel, start_index=timestep, slice_size=2, axis=-2
   )
   # Each has shape (..., num_timesteps = 2, 1).
   _, _, yaw, vel_x, vel_y = jnp.split(xy_yaw_vel_slice, 5, axis=-1)
-  valids = jax.lax.dynamic_slice_in_dim(
+  valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index 533d657..2cb28fc 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -142,12 +142,12 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
     # Form a tensor of shape (..., num_objects, num_timesteps, 3)
     xy_yaw_ = jnp.stack([trajectory.x, trajectory.y, trajectory.yaw], axis=-1)
     # Sliced before/after values of shape (..., num_objects, num_timesteps=2, 3)
-    xy_yaw = jax.lax.dynamic_slice_in_dim(
+    xy_yaw = datatypes.dynamic_slice(
         xy_yaw_, start_index=timestep, slice_size=2, axis=-2
     )
     raw_action_array = xy_yaw[..., 1, :] - xy_yaw[..., 0, :]
 
-    valids = jax.lax.dynamic_slice_in_dim(
+    valids = datatypes.dynamic_slice(
         trajectory.valid, start_index=timestep, slice_size=2, axis=-1
     )
     valid = valids[..., 0:1] & valids[..., 1:2]
@@ -219,10 +219,10 @@ class DeltaLocal(DeltaGlobal):
     global_actions = super().inverse(trajectory, metadata, timestep)
 
     # Yaw in global coordinates.
-    current_yaw = jax.lax.dynamic_slice_in_dim(
+    current_yaw = datatypes.dynamic_slice(
         trajectory.yaw, timestep, slice_size=1, axis=-1
     )[..., 0]
-    current_valid = jax.lax.dynamic_slice_in_dim(
+    current_valid = datatypes.dynamic_slice(
         trajectory.valid, timestep, slice_size=1, axis=-1
     )[..., 0:1]
 
diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 052142a..f8982cd 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -253,19 +253,22 @@ def inverse_action_by_search(
       (..., num_objects, dim=2).
   """
   is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
-  valids = jax.lax.dynamic_slice_in_dim(
+  valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
 
   def forward_fn(traj, log_traj, is_controlled, timestep, actions_data):
-    return continuous_dynamics.forward(
+    next_traj = continuous_dynamics.forward(
         datatypes.Action(data=actions_data, valid=valid),
         traj,
         log_traj,
         is_controlled,
         timestep,
     )
+    return datatypes.dynamic_slice(
+        next_traj, start_index=timestep + 1, slice_size=1, axis=-1
+    )
 
   trans_fn = jax.tree_util.Partial(
       forward_fn, traj, traj, is_controlled, timestep
@@ -281,12 +284,7 @@ def inverse_action_by_search(
       [1] + list(traj.shape[:-1]) + [1],
   )
   # shape: (..., all_actions, num_objects, 1)
-  next_traj = datatypes.dynamic_slice(
-      jax.vmap(trans_fn)(actions_data),
-      start_index=timestep + 1,
-      slice_size=1,
-      axis=-1,
-  )
+  next_traj = jax.vmap(trans_fn)(actions_data)
   # shape: (..., num_objects, 1)
   log_traj = datatypes.dynamic_slice(
       traj, start_index=timestep + 1, slice_size=1, axis=-1
diff --git a/waymax/dynamics/state_dynamics.py b/waymax/dynamics/state_dynamics.py
index b399691..aa4922b 100644
--- a/waymax/dynamics/state_dynamics.py
+++ b/waymax/dynamics/state_dynamics.py
@@ -14,7 +14,6 @@
 
 """Dynamics model for setting state in global coordinates."""
 from dm_env import specs
-import jax
 import numpy as np
 
 from waymax import datatypes
@@ -85,10 +84,10 @@ class StateDynamics(abstract_dynamics.DynamicsModel):
     # Shape: (..., num_objects, num_timesteps, 5)
     stacked = trajectory.stack_fields(abstract_dynamics.CONTROLLABLE_FIELDS)
     # Shape: (..., num_objects, num_timesteps=1, 5)
-    stacked = jax.lax.dynamic_slice_in_dim(
+    stacked = datatypes.dynamic_slice(
         stacked, start_index=timestep + 1, slice_size=1, axis=-2
     )
-    valids = jax.lax.dynamic_slice_in_dim(
+    valids = datatypes.dynamic_slice(
         trajectory.valid, start_index=timestep + 1, slice_size=1, axis=-1
     )
     # Slice out timestep dimension.
diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 653ba14..496ec7e 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -310,7 +310,11 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
       # necessarily kinematically feasible, so we choose to ignore the first
       # state's sdc_kim value and set it to 0 (kinematically feasible) because
       # the action is not chosen by the actor and is thus not clipped.
-      kim_metric_valid = state.timestep > self.config.init_steps - 1
+      # Shape: (..., num_objects=1).
+      kim_metric_valid = (
+          jnp.asarray(state.timestep)[..., jnp.newaxis]
+          > self.config.init_steps - 1
+      )
       kim_metric = metric_dict['kinematic_infeasibility']
       kim_metric = kim_metric.replace(
           value=kim_metric.value * kim_metric_valid,
-- 
2.43.0


From 48f4500b9745205e98695777147be378f3f99916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 20/32] fix: discrete inverse by search fits every object, not
 only the SDC

---
 waymax/dynamics/discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index f8982cd..e85161c 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,8 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  # Every object follows the candidate action, so that each has a best fit.
+  is_controlled = jnp.ones_like(metadata.is_sdc, dtype=jnp.bool_)
   valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From 50d416257f23523d1b6d4b7e9a7a17d5f0cb9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 21/32] fix: action discretisation can be compiled with
 array-valued bins

---
 waymax/dynamics/discretizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index e85161c..de7b123 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -51,6 +51,8 @@ class Discretizer:
     self._mins = min_value
     self._maxs = max_value
     self._bins = bins
+    # Concrete grid dimensions, so that conversions can be traced under jit.
+    self._dims = tuple(int(num_bins) + 1 for num_bins in bins)
     self._shift = min_value
     self._scale = bins / (max_value - min_value)
     self._max_discrete_idx = jnp.prod(self._bins + 1) - 1
@@ -74,7 +76,7 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        self._dims,
         mode='clip',
     )
     return indices_1d
@@ -91,7 +93,7 @@ class Discretizer:
         value discretized by `indices_1d`.
     """
     indices_nd = jnp.stack(
-        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._bins + 1),
+        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._dims),
         axis=-1,
     )
     # Shape: (..., num_vector_elements)
-- 
2.43.0


From 321aab5f39c2f829656539a2fc1713d4dc28b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:38 +0000
Subject: [PATCH 22/32] fix: IDM look-ahead along the log ignores waypoints
 already passed

---
 waymax/agents/waypoint_following_agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/agents/waypoint_following_agent.py b/waymax/agents/waypoint_following_agent.py
index 8679556..07cb96d 100644
--- a/waymax/agents/waypoint_following_agent.py
+++ b/waymax/agents/waypoint_following_agent.py
@@ -500,6 +500,10 @@ def _find_reference_traj_from_log_traj(
     dists = jnp.linalg.norm(local_xyz[jnp.newaxis, :] - local_traj.xyz, axis=-1)
     dists = jnp.where(local_traj.valid, dists, jnp.inf)
     top_idx = jnp.argmin(dists, axis=-1)
+    # The slice is shifted back to fit near the end of the trajectory; waypoints
+    # before the closest one are not part of the future.
+    is_future = jnp.arange(local_traj.num_timesteps) >= top_idx
+    local_traj = local_traj.replace(valid=local_traj.valid & is_future)
     return datatypes.dynamic_slice(local_traj, top_idx, num_pts, axis=-1)
 
   find_reference_fn = find_reference_helper
-- 
2.43.0


From 3dc299d28a7bf6f5a9161e0fb7e19357df5841c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 23/32] fix: sharded paths may contain @ in a directory name

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..743e830 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -53,7 +53,7 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
     An iterator through the complete set of filenames that the path refers to,
     with each filename having the format `filename-XXXXX-of-YYYYY`
   """
-  base_name, num_shards = path.split('@')
+  base_name, num_shards = path.rsplit('@', 1)
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
   format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-- 
2.43.0


From d2d2505f73b66b940a3eba56bf0c4d708ca544f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 24/32] fix: every loading shard contributes when the dataset
 repeats forever

---
 waymax/dataloader/dataloader_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 743e830..3f55d13 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -162,7 +162,12 @@ def tf_examples_dataset(
   )
   indices = tf.data.Dataset.range(num_shards)
   dataset = indices.interleave(
-      make_dataset_fn, num_parallel_calls=AUTOTUNE, deterministic=deterministic
+      make_dataset_fn,
+      # All shards are read in turn, otherwise an infinite repeat of the first
+      # ones starves the others.
+      cycle_length=num_shards,
+      num_parallel_calls=AUTOTUNE,
+      deterministic=deterministic,
   )
 
   if tf_data_service_address is not None:
-- 
2.43.0


From 9aa05fc1a59d16d93fb4d6f5ff1672c6e231c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 25/32] fix: seed 0 shuffles the order of files too

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 3f55d13..d5c52d6 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -115,7 +115,7 @@ def tf_examples_dataset(
   files_to_load = [path]
   if '@' in os.path.basename(path):
     files_to_load = generate_sharded_filenames(path)
-  if shuffle_seed:
+  if shuffle_seed is not None:
     random.seed(shuffle_seed)
     random.shuffle(files_to_load)
   files = tf.data.Dataset.from_tensor_slices(files_to_load)
-- 
2.43.0


From a66119b07a3c3e3e4583f96432454e34310aaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 26/32] fix: limiting the number of objects keeps the time axis
 of which_time

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..72eb469 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -72,7 +72,10 @@ def preprocess_womd_example(
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        # The time-indexed which_time has no object dimension.
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From e76a266c8dbb3b82baeb9bcc84badbfb13d3e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 27/32] fix: MaskedArray.masked_value aligns the mask with the
 leading axes

---
 waymax/datatypes/array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/array.py b/waymax/datatypes/array.py
index 47490ee..9f0f058 100644
--- a/waymax/datatypes/array.py
+++ b/waymax/datatypes/array.py
@@ -73,4 +73,9 @@ class MaskedArray:
       `value` where invalid elements are replaced with `fill_value`.
     """
     fill_array = jnp.full_like(self.value, fill_value, dtype=self.value.dtype)
-    return jnp.where(self.valid, self.value, fill_array)
+    # The mask has the prefix shape of the value.
+    valid = jnp.reshape(
+        self.valid,
+        self.valid.shape + (1,) * (self.value.ndim - self.valid.ndim),
+    )
+    return jnp.where(valid, self.value, fill_array)
-- 
2.43.0


From cc52b1574d743fe3dbe7d85cef14e505d6fdefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 28/32] fix: comparing structures with different parts is
 False, not an error

---
 waymax/datatypes/array.py      | 3 +++
 waymax/datatypes/operations.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/waymax/datatypes/array.py b/waymax/datatypes/array.py
index 9f0f058..ef963ee 100644
--- a/waymax/datatypes/array.py
+++ b/waymax/datatypes/array.py
@@ -43,6 +43,9 @@ class MaskedArray:
   def __eq__(self, other: Any) -> bool:
     if not isinstance(other, MaskedArray):
       return False
+    self_def = jax.tree_util.tree_structure(self)
+    if self_def != jax.tree_util.tree_structure(other):
+      return False
     flags = jax.tree_util.tree_map(jnp.array_equal, self, other)
     return jax.tree_util.tree_all(flags)
 
diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index d8b9e49..3e2e1dc 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -211,6 +211,9 @@ def compare_all_leaf_nodes(  # pytype: disable=annotation-type-mismatch  # jnp-t
   """
   if not isinstance(second, type(first)):
     return False
+  first_def = jax.tree_util.tree_structure(first)
+  if first_def != jax.tree_util.tree_structure(second):
+    return False
   flags = jax.tree_util.tree_map(compare_func, first, second)
   return jax.tree_util.tree_all(flags)
 
-- 
2.43.0


From d7bc43fe84fcec5c717450e293610c0e40500f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 29/32] fix: metric results and planning states compare like
 their base classes

---
 waymax/env/planning_agent_environment.py | 2 +-
 waymax/metrics/abstract_metric.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 496ec7e..c7dec95 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -146,7 +146,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
     )
 
 
-@chex.dataclass
+@chex.dataclass(eq=False)  # Keeps the equality of the base class.
 class PlanningAgentSimulatorState(datatypes.SimulatorState):
   """Simulator state for the planning agent environment.
 
diff --git a/waymax/metrics/abstract_metric.py b/waymax/metrics/abstract_metric.py
index e79b581..8b3a9ca 100644
--- a/waymax/metrics/abstract_metric.py
+++ b/waymax/metrics/abstract_metric.py
@@ -22,7 +22,7 @@ from jax import numpy as jnp
 from waymax import datatypes
 
 
-@chex.dataclass
+@chex.dataclass(eq=False)  # Keeps the equality of the base class.
 class MetricResult(datatypes.MaskedArray):
   """A metric result holding metric values and a validity mask.
 
-- 
2.43.0


From 92dd37e00084015f796547749f592f70c53c63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 30/32] fix: centring a picture on an agent other than the SDC

---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..caf7179 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From 3e55e40cfb4d2c4853ae9cc69c89375956772b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 31/32] fix: pictures of states without map points or paths

---
 waymax/visualization/viz.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index caf7179..2ffa8a7 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -288,7 +288,8 @@ def plot_simulator_state(
   )  # pytype: disable=wrong-arg-types  # jax-ndarray
 
   # 2. Plots road graph elements.
-  plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
+  if state.roadgraph_points is not None:
+    plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
   plot_traffic_light_signals_as_points(
       ax, state.log_traffic_light, state.timestep, verbose=False
   )
@@ -436,13 +437,15 @@ def plot_single_agent_brax_timestep(
   )
 
   # 2. Plots road graph elements.
-  plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
+  if state.roadgraph_points is not None:
+    plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
   plot_traffic_light_signals_as_points(
       ax, state.log_traffic_light, state.timestep, verbose=False
   )
 
   # Plots paths.
-  _plot_path_points(ax, state.sdc_paths)
+  if state.sdc_paths is not None:
+    _plot_path_points(ax, state.sdc_paths)
 
   # 3. Gets np img, centered on selected agent's current location.
   # [A, 2]
-- 
2.43.0


From 27ed7c120a712897d75bed6ab674b1a2a9fe5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 32/32] fix: plotting a trajectory without a highlighted step

---
 waymax/visualization/viz.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index 2ffa8a7..4a9bf9e 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -148,6 +148,17 @@ def plot_trajectory(
     if time_idx >= num_steps:
       raise ValueError('time_idx is out of range.')
 
+  if time_idx is None:
+    # No step to highlight: only the centers are shown, without boxes.
+    utils.plot_numpy_bounding_boxes(
+        ax=ax,
+        bboxes=traj_5dof[np.asarray(traj.valid)],
+        color=color.COLOR_DICT['history'],
+        as_center_pts=True,
+        label='history' if add_label else None,
+    )
+    return
+
   # Adds id if needed.
   if indices is not None and time_idx is not None:
     for i in range(num_obj):
-- 
2.43.0

