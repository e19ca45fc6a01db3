From 09c22c8c35ac856f8e2795c62751fb1dc4143f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 01/63] fix: keep beam voltage and current when converting
 controls to the material frame

step_and_image rebuilt the control with position and dwell time only, so
observers and the material always saw the default voltage and current.
---
 putting_dune/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..d561f16 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -138,7 +138,12 @@ class PuttingDuneSimulator:
           control.position
       )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          microscope_utils.BeamControl(
+              control_position,
+              control.dwell_time,
+              control.voltage_kv,
+              control.current_na,
+          )
       )
 
       for observer in self._observers:
-- 
2.43.0


From 25d9ed302289b11f0943ac08f9c29b1905626eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 02/63] fix: a failed environment reset does not begin an
 episode

reset cleared _requires_reset before doing the work, so after goal.reset
raised (no valid goal in view) the next step stepped a half reset
environment with the previous episode's goal instead of resetting.
---
 putting_dune/putting_dune_environment.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..348e055 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -85,8 +85,9 @@ class PuttingDuneEnvironment(dm_env.Environment):
       self._action_adapter.rng = self._rng
 
   def reset(self) -> dm_env.TimeStep:
-    # We won't need to reset immediately.
-    self._requires_reset = False
+    # If anything below fails (e.g. no valid goal is in view), no new episode
+    # has begun, so the next step must still reset.
+    self._requires_reset = True
 
     # Generate a realistic doped graphene configuration.
     self.last_microscope_observation = self.sim.reset(
@@ -101,7 +102,7 @@ class PuttingDuneEnvironment(dm_env.Environment):
     )
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
-    return dm_env.TimeStep(
+    time_step = dm_env.TimeStep(
         step_type=dm_env.StepType.FIRST,
         reward=0.0,
         discount=discount,
@@ -110,6 +111,10 @@ class PuttingDuneEnvironment(dm_env.Environment):
         ),
     )
 
+    # We won't need to reset immediately.
+    self._requires_reset = False
+    return time_step
+
   def step(self, action: np.ndarray) -> dm_env.TimeStep:
     if self._requires_reset:
       return self.reset()
-- 
2.43.0


From 623e1f7f51094bd2cd49c449ef02e9aeded5e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 03/63] fix: log an episode under the number its steps were
 logged with

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From cfb807f3a94c866e140a83b58a64bdd7a3b10443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 04/63] fix: flushing the microscope agent log twice does not
 duplicate the episode

---
 putting_dune/microscope_agent.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..4b07481 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,20 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The current episode may still go on, so it isn't recorded as finished.
+    trajectories = list(self._trajectories)
     if self._current_trajectory:
-      self._trajectories.append(
+      trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
       )
+    episode_records = list(self._episode_records)
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +219,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 9a90c00dd8243e1bc92f8d6831f6db4d267fe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 05/63] fix: log the goal return the agent acted on instead of
 asking the goal again

---
 putting_dune/microscope_agent.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 4b07481..c055537 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -48,6 +48,8 @@ class MicroscopeAgent:
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
     self._is_first_step = True
+    # What the goal made of the last step, if it saw a silicon.
+    self.last_goal_return: goals.GoalReturn | None = None
 
   def reset(
       self,
@@ -66,6 +68,7 @@ class MicroscopeAgent:
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     """Steps the agent."""
+    self.last_goal_return = None
     try:
       features = self.feature_constructor.get_features(observation, self.goal)
       goal_return = self.goal.calculate_reward_and_terminal(observation)
@@ -82,6 +85,7 @@ class MicroscopeAgent:
           )
       ]
 
+    self.last_goal_return = goal_return
     elapsed_seconds = observation.elapsed_time.total_seconds()
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
@@ -246,9 +250,12 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    # Goals count steps, so the agent's own goal return has to be used.
+    goal_return = self.__wrapped__.last_goal_return
+    if goal_return is None:  # There was no silicon, so the agent rescans.
+      goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From f052b738a4905c0ed86b60d7a507c488663b0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 06/63] fix: features refer to the silicon nearest the center
 of the view

---
 putting_dune/feature_constructors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..65648b5 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
@@ -188,7 +188,10 @@ class SingleSiliconMaterialFrameFeatureConstructor(FeatureConstructor):
     goal = typing.cast(goals.SingleSiliconGoalReaching, goal)
     grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
 
-    silicon_position = graphene.get_single_silicon_position(grid)
+    # The silicon is selected in the microscope frame, relative to its center.
+    silicon_position = observation.fov.microscope_frame_to_material_frame(
+        graphene.get_single_silicon_position(observation.grid)
+    )
 
     # Ensure the silicon position shape is correct.
     silicon_position = silicon_position.reshape(2)
-- 
2.43.0


From 7b90c1314942e847171d58f595b46f83b5f050da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 07/63] fix: serialise a transition's label images
 independently of its images

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 3eeae23275dc8d7bf19e545dcd0f3318e6ae4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 08/63] fix: read drifts from protos without truncating them to
 integers

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 61ffdc5f2636daaec3382afa191f6ec6644c59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 09/63] fix: keep the label image when applying a drift to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 4252b399058939df78142621f5afd27daadbb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 10/63] fix: read an absent beam voltage or current as absent
 rather than zero

---
 putting_dune/microscope_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..71fae6d 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -215,7 +215,11 @@ class BeamControl(ProtoModel[putting_dune_pb2.BeamControl]):
     position = proto_point_to_shapely_point(control.position)
     dwell_time = dt.timedelta(seconds=control.dwell_time_seconds)
 
-    return cls(position, dwell_time, control.voltage_kv, control.current_na)
+    # The voltage and current are optional.
+    voltage_kv = control.voltage_kv if control.HasField('voltage_kv') else None
+    current_na = control.current_na if control.HasField('current_na') else None
+
+    return cls(position, dwell_time, voltage_kv, current_na)
 
   def to_proto(self) -> putting_dune_pb2.BeamControl:
     """Creates a proto from this object."""
-- 
2.43.0


From 10ad884e1ddd9f3feddfcd46a0de192f492e38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 11/63] fix: bootstrapping can leave an empty test set

---
 putting_dune/rate_learning/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..767e2d5 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -320,7 +320,8 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  # The dtype matters if every example was drawn, leaving nothing to test on.
+  test_indices = np.array(list(test_indices), dtype=int)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From 65838c2313c347dde71383ba843e9d7203526489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 12/63] fix: order the rates of synthetic prior data
 counter-clockwise

---
 putting_dune/rate_learning/data_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 767e2d5..3bc5027 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -249,8 +249,13 @@ def generate_synthetic_data(
         constants.SIGR_PRIOR_RATE_COV * 1.5,
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
+    # The rate towards neighbor k, at an angle of k * 2pi / num_states, is that
+    # of the position rotated back by this angle.
+    rotation_inds = -jnp.arange(num_states) % num_states
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        get_all_position_rotations(position, num_states=num_states)[
+            rotation_inds
+        ],
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From 4ce1468bb5cdb0b1aaf5377506c36528cb2d4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 13/63] fix: leave out transitions with too few visible atoms
 instead of failing

---
 putting_dune/pipeline/train_rate_learner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..f9bd4a3 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -353,6 +353,13 @@ def transitions_to_datapoints(
       wrong_number_of_silicons_count += 1
       continue
 
+    if grid_before.atom_positions.shape[0] < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
+    if grid_after.atom_positions.shape[0] < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
+
     # Get the neighbors of the grid before.
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
-- 
2.43.0


From 6c951ec11b8d208a5c9ab46abbc57ae6284c4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 14/63] fix: remove the evaluation's observers also when an
 episode fails

---
 putting_dune/eval_lib.py | 139 ++++++++++++++++++++-------------------
 1 file changed, 70 insertions(+), 69 deletions(-)

diff --git a/putting_dune/eval_lib.py b/putting_dune/eval_lib.py
index 491c1af..df3f08d 100644
--- a/putting_dune/eval_lib.py
+++ b/putting_dune/eval_lib.py
@@ -107,79 +107,80 @@ def evaluate(
   for observer in observers.values():
     env.sim.add_observer(observer)
 
-  for seed in eval_suite.seeds:
-    logging.info('Evaluating seed %d', seed)
-    num_actions_taken = 0
-    total_reward = 0.0
-
-    # We keep track of environment time and agent time separately, since
-    # the environment time is the elapsed simulated time, but the agent
-    # time is actually wall clock clock time ⏰.
-    agent_elapsed_time = dt.timedelta(seconds=0)
-    environment_elapsed_time = dt.timedelta(seconds=0)
-
-    env.seed(seed)
-    time_step = env.reset()
-
-    environment_elapsed_time += env.last_microscope_observation.elapsed_time
-
-    # Ideally, the timeout should be enforced by the environment wrapper,
-    # but it doesn't know how long the agent spends computing.
-    while agent_elapsed_time + environment_elapsed_time < timeout:
-      # Step the agent.
-      agent_start_time = time.perf_counter()
-      action = agent.step(time_step)
-      agent_delta_seconds = time.perf_counter() - agent_start_time
-
-      # Step the environment.
-      time_step = env.step(action)
-
-      # Update metrics.
-      agent_elapsed_time += dt.timedelta(seconds=agent_delta_seconds)
-      environment_elapsed_time += env.last_microscope_observation.elapsed_time
-      num_actions_taken += 1
-      total_reward += time_step.reward
+  try:
+    for seed in eval_suite.seeds:
+      logging.info('Evaluating seed %d', seed)
+      num_actions_taken = 0
+      total_reward = 0.0
 
-      if time_step.last():
-        break
+      # We keep track of environment time and agent time separately, since
+      # the environment time is the elapsed simulated time, but the agent
+      # time is actually wall clock clock time ⏰.
+      agent_elapsed_time = dt.timedelta(seconds=0)
+      environment_elapsed_time = dt.timedelta(seconds=0)
 
-    reached_goal = (
-        time_step.step_type == dm_env.StepType.LAST
-        and time_step.discount == 0.0
-    )
+      env.seed(seed)
+      time_step = env.reset()
 
-    agent_seconds_to_goal = agent_elapsed_time.total_seconds()
-    environment_seconds_to_goal = environment_elapsed_time.total_seconds()
-    if not reached_goal:
-      agent_seconds_to_goal = float('nan')
-      environment_seconds_to_goal = float('nan')
-
-    eval_result = EvalResult(
-        seed=seed,
-        reached_goal=reached_goal,
-        num_actions_taken=num_actions_taken,
-        agent_seconds_to_goal=agent_seconds_to_goal,
-        environment_seconds_to_goal=environment_seconds_to_goal,
-        total_reward=total_reward,
-    )
-    results.append(eval_result)
-
-    if video_save_dir is not None:
-      epath.Path(video_save_dir).mkdir(parents=True, exist_ok=True)
-      # NOTE: This will not work on Windows, since Windows won't allow us
-      # to open the temp file twice.
-      with tempfile.NamedTemporaryFile(suffix='.gif') as src_f:
-        anim = plotting_utils.generate_video_from_simulator_events(
-            observers['event_observer'].events,
-            env.goal.goal_position_material_frame,  # pylint: disable=protected-access
-        )
-        anim.save(src_f.name)
-
-        with (epath.Path(video_save_dir) / f'{seed}.gif').open('wb') as dest_f:
-          shutil.copyfileobj(src_f, dest_f)
+      environment_elapsed_time += env.last_microscope_observation.elapsed_time
 
-  for observer in observers.values():
-    env.sim.remove_observer(observer)
+      # Ideally, the timeout should be enforced by the environment wrapper,
+      # but it doesn't know how long the agent spends computing.
+      while agent_elapsed_time + environment_elapsed_time < timeout:
+        # Step the agent.
+        agent_start_time = time.perf_counter()
+        action = agent.step(time_step)
+        agent_delta_seconds = time.perf_counter() - agent_start_time
+
+        # Step the environment.
+        time_step = env.step(action)
+
+        # Update metrics.
+        agent_elapsed_time += dt.timedelta(seconds=agent_delta_seconds)
+        environment_elapsed_time += env.last_microscope_observation.elapsed_time
+        num_actions_taken += 1
+        total_reward += time_step.reward
+
+        if time_step.last():
+          break
+
+      reached_goal = (
+          time_step.step_type == dm_env.StepType.LAST
+          and time_step.discount == 0.0
+      )
+
+      agent_seconds_to_goal = agent_elapsed_time.total_seconds()
+      environment_seconds_to_goal = environment_elapsed_time.total_seconds()
+      if not reached_goal:
+        agent_seconds_to_goal = float('nan')
+        environment_seconds_to_goal = float('nan')
+
+      eval_result = EvalResult(
+          seed=seed,
+          reached_goal=reached_goal,
+          num_actions_taken=num_actions_taken,
+          agent_seconds_to_goal=agent_seconds_to_goal,
+          environment_seconds_to_goal=environment_seconds_to_goal,
+          total_reward=total_reward,
+      )
+      results.append(eval_result)
+
+      if video_save_dir is not None:
+        epath.Path(video_save_dir).mkdir(parents=True, exist_ok=True)
+        # NOTE: This will not work on Windows, since Windows won't allow us
+        # to open the temp file twice.
+        with tempfile.NamedTemporaryFile(suffix='.gif') as src_f:
+          anim = plotting_utils.generate_video_from_simulator_events(
+              observers['event_observer'].events,
+              env.goal.goal_position_material_frame,  # pylint: disable=protected-access
+          )
+          anim.save(src_f.name)
+
+          with (epath.Path(video_save_dir) / f'{seed}.gif').open('wb') as dest_f:
+            shutil.copyfileobj(src_f, dest_f)
+  finally:
+    for observer in observers.values():
+      env.sim.remove_observer(observer)
 
   return results
 
-- 
2.43.0


From 389fee37cf949de76b2c5e8026719b82867df024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 15/63] fix: do not carry the shift of one alignment over to
 the next

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..ec935cf 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,7 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    cumulative_drift = np.array(init_shift, dtype=np.float64)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From 1b7b715fe6687fbcc20a504cc07a698baed869d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 16/63] fix: merging does not move the atoms of the first
 observation

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index ec935cf..9141c7d 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -801,7 +801,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From 5789decd820909edd85bd83d15147c9d5713b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 17/63] fix: propagating elements does not modify the given
 ones

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 9141c7d..f4f8268 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -777,6 +777,8 @@ def propagate_atomic_numbers(
         merged_atom_positions.shape[0], dtype=original_atomic_numbers.dtype
     )
     new_atomic_numbers.fill(default_atomic_number)
+  else:
+    new_atomic_numbers = new_atomic_numbers.copy()
 
   new_atomic_numbers[closest_neighbors] = original_atomic_numbers[
       original_atoms
-- 
2.43.0


From 2ef33279da8d54c85c50d2661cc90613e326e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 18/63] fix: tell sublattices apart regardless of neighbor
 order and of where angles wrap

---
 putting_dune/alignment.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index f4f8268..14179f9 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -828,6 +828,26 @@ def naive_merge(
   return positions, counts
 
 
+def get_bond_orientations(relative_neighbor_positions: np.ndarray) -> np.ndarray:
+  """Describes in which of its two orientations a set of bonds is.
+
+  The bonds of an atom are 120 degrees apart, so that all of them agree on three
+  times their angle; the two orientations are 180 degrees apart. Unlike the
+  angles themselves, this does not depend on the order of the neighbors or jump
+  where the angles wrap around.
+
+  Args:
+    relative_neighbor_positions: (num_atoms, 3, 2) ndarray of bond vectors.
+
+  Returns:
+    (num_atoms, 2) ndarray of orientations.
+  """
+  angles = np.stack(
+      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  )
+  return np.stack([np.cos(3 * angles), np.sin(3 * angles)], -1).mean(1)
+
+
 def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   """Trains a K-Means model to classify lattice atoms based on bond angles.
 
@@ -849,13 +869,8 @@ def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
-  )
-  angles = np.sort(angles, axis=-1)
-
   clusters = cluster.KMeans(2)
-  clusters.fit(angles)
+  clusters.fit(get_bond_orientations(relative_neighbor_positions))
   return clusters
 
 
@@ -884,10 +899,9 @@ def classify_lattice_types(
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  classes = clusters.predict(
+      get_bond_orientations(relative_neighbor_positions)
   )
-  classes = clusters.predict(angles)
   classes = propagate_graphene_classes(classes, grid)
 
   return classes
-- 
2.43.0


From 12e66cc874327608cacb03cb5db455b9f09302d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 19/63] fix: find the recorded trajectories in a directory

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From e63a6c245a995a23a8b9e28a639df14978e381f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 20/63] fix: compare grids in both directions, by element, and
 without failing when empty

---
 putting_dune/microscope_utils.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 71fae6d..711878e 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -157,18 +157,20 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
 
-    neighbor_distances, neighbor_indices = (
-        neighbors.NearestNeighbors(n_neighbors=1)
-        .fit(self.atom_positions)
-        .kneighbors(other.atom_positions)
-    )
-
-    neighbor_indices = neighbor_indices.reshape(-1)
-    if (other.atomic_numbers != self.atomic_numbers[neighbor_indices]).any():
-      return False
-
-    if (neighbor_distances > 1e-3).any():
-      return False
+    # Every atom needs an atom of its own kind close by, in both directions.
+    for atomic_number in np.union1d(self.atomic_numbers, other.atomic_numbers):
+      own = self.atom_positions[self.atomic_numbers == atomic_number]
+      others = other.atom_positions[other.atomic_numbers == atomic_number]
+      if not len(own) or not len(others):
+        return False
+      for left, right in ((own, others), (others, own)):
+        neighbor_distances, _ = (
+            neighbors.NearestNeighbors(n_neighbors=1)
+            .fit(left)
+            .kneighbors(right)
+        )
+        if (neighbor_distances > 1e-3).any():
+          return False
 
     return True
 
-- 
2.43.0


From 17b298ea3f444778f392ec6f70cc079ed6c9352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 21/63] fix: re-frame images also between oblong fields of view

---
 putting_dune/alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 14179f9..ee533e9 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -223,8 +223,9 @@ def pad_and_crop_images_by_fov(
   new_lower_left = np.array(new_fov.lower_left)
   original_upper_right = np.array(original_fov.upper_right)
   new_upper_right = np.array(new_fov.upper_right)
-  original_scale = original_upper_right - original_lower_left
-  new_scale = new_upper_right - new_lower_left
+  # The first axis of an image is the y-direction.
+  original_scale = (original_upper_right - original_lower_left)[::-1]
+  new_scale = (new_upper_right - new_lower_left)[::-1]
   resize_factor = original_scale / new_scale
 
   output_shape = image.shape
@@ -254,7 +255,7 @@ def pad_and_crop_images_by_fov(
   )
 
   # The upper-left is actually the privileged point in images, so we find shift
-  # relative to it. Since FOV is square it's just the X from LL and Y from UR.
+  # relative to it: the X from LL and Y from UR.
   x_shift = new_lower_left[0] - original_lower_left[0]
   y_shift = new_upper_right[1] - original_upper_right[1]
 
-- 
2.43.0


From fae5f0cbff86d147cc6cf5809b9ed9864800d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 22/63] fix: carry rounded hundredths over to the seconds of
 the clock

---
 putting_dune/plotting_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..53bbdaf 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,9 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  # Round before splitting, so that the hundredths carry over to the seconds.
+  total_seconds, remainder = divmod(round(delta.total_seconds() * 100), 100)
+  minutes, seconds = divmod(total_seconds, 60)
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 88a6bc9714c0dd45daf829efe065b5ac999f5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 23/63] fix: render videos of events without a control

---
 putting_dune/plotting_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 53bbdaf..288d123 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -195,9 +195,13 @@ def generate_video_from_simulator_events(
         args['grid']
     )
     # We make a grid containing just the goal and control to make it easy
-    # to convert them to the microscope frame.
+    # to convert them to the microscope frame. There is no control to show
+    # if none has been applied.
+    positions = [goal_position]
+    if args['control_position'] is not None:
+      positions.append(args['control_position'])
     material_frame_data = microscope_utils.AtomicGrid(
-        atom_positions=np.stack([goal_position, args['control_position']]),
+        atom_positions=np.stack(positions),
         atomic_numbers=np.asarray(()),  # Unused.
     )
     microscope_frame_data = args['fov'].material_frame_to_microscope_frame(
@@ -207,7 +211,11 @@ def generate_video_from_simulator_events(
         ax=axes[1],
         grid=microscope_grid,
         goal_position=microscope_frame_data.atom_positions[0],
-        control_position=microscope_frame_data.atom_positions[1],
+        control_position=(
+            None
+            if args['control_position'] is None
+            else microscope_frame_data.atom_positions[1]
+        ),
     )
 
     if events_contain_images and args['image'] is not None:
-- 
2.43.0


From 7816abf37fcf76cc2c06f04e8e942ccb2a9aca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 24/63] fix: initialise learned rate predictors with a batch of
 inputs

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..1f159a3 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -677,7 +677,7 @@ class LearnedTransitionRatePredictor:
     all_params = []
     all_states = []
     for key in keys:
-      params, state = self.init_fn(x=jnp.zeros(self.context_dim), rng=key)
+      params, state = self.init_fn(x=jnp.zeros((1, self.context_dim)), rng=key)
       all_params.append(params)
       all_states.append(state)
     self.params = tree_stack(all_params)
-- 
2.43.0


From 45abbe80ff9bce874337d3aac26879f5696ed78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 25/63] fix: package the rates of a learned model, not its raw
 outputs

---
 putting_dune/rate_learning/learn_rates.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 1f159a3..cdbf504 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -897,10 +897,7 @@ class LearnedTransitionRatePredictor:
         fixed_context = jnp.repeat(fixed_context[None], context.shape[0], 0)
         context = jnp.concatenate([fixed_context, context], axis=-1)
 
-      rates, _ = self.batch_apply(
-          self.params, self.state, context, self.rng, False
-      )
-      return jnp.squeeze(rates, axis=0)
+      return self.apply_model(context, self.rng)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From a17b7b46748618890e365ac9c8bcbc1ca4a1092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 26/63] fix: predict rates with learned models that take a
 current or voltage

---
 putting_dune/rate_learning/learn_rates.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index cdbf504..3b9f927 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -956,11 +956,14 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    # The module is only directly callable if it has been loaded from disk.
+    rates = np.asarray(
+        self.packaged_model.__call__(context.astype(np.float32))
+    )[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From f72ffb552e0af8a59b85823cf49be5ef0a0aae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 27/63] fix: save and load the network state of learned models

---
 putting_dune/rate_learning/learn_rates.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 3b9f927..a7b165d 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -844,6 +844,10 @@ class LearnedTransitionRatePredictor:
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
       f.write(flax.serialization.to_bytes(self.params))
+    # The network state (e.g., of the batch normalization) is needed, too.
+    path = epath.Path(os.path.join(save_dir, str(step) + '.state.ckpt'))
+    with path.open('wb') as f:
+      f.write(flax.serialization.to_bytes(self.state))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -872,6 +876,10 @@ class LearnedTransitionRatePredictor:
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
         self.params = flax.serialization.from_bytes(self.params, f.read())
+      path = epath.Path(os.path.join(load_dir, str(step) + '.state.ckpt'))
+      if path.exists():
+        with path.open('rb') as f:
+          self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From 41483d2c1a42793ca6377bff360ef2c08ab81ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 28/63] fix: repackage a learned model after it has been
 trained again

---
 putting_dune/rate_learning/learn_rates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index a7b165d..56a55e8 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -772,6 +772,7 @@ class LearnedTransitionRatePredictor:
             train_config=self.config,
         )
     )
+    self._discard_packaged_model()
 
     return train_metrics
 
@@ -821,9 +822,15 @@ class LearnedTransitionRatePredictor:
     )
     self.params = tree_stack([distillation_params])
     self.state = tree_stack([distillation_state])
+    self._discard_packaged_model()
 
     return distill_metrics
 
+  def _discard_packaged_model(self) -> None:
+    """Forgets the packaged model, which holds the previous parameters."""
+    if hasattr(self, 'packaged_model'):
+      del self.packaged_model
+
   def save(
       self,
       save_dir: str,
-- 
2.43.0


From 868d43662f164f78d61136719b50cee68e3ea555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 29/63] fix: predict with learned models whose inputs were
 partly fixed on saving

---
 putting_dune/rate_learning/learn_rates.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 56a55e8..0ccf2b2 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -932,6 +932,11 @@ class LearnedTransitionRatePredictor:
         ],
     )
 
+    # Remember how many of the inputs have been fixed.
+    tf_module.num_fixed_inputs = tf.Variable(
+        self.context_dim - input_shape[1], trainable=False
+    )
+
     self.packaged_model = tf_module
 
   def predict(
@@ -975,10 +980,11 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
+    # Leave out the inputs that were fixed when the model was packaged.
+    num_fixed_inputs = int(getattr(self.packaged_model, 'num_fixed_inputs', 0))
+    context = context[:, num_fixed_inputs:].astype(np.float32)
     # The module is only directly callable if it has been loaded from disk.
-    rates = np.asarray(
-        self.packaged_model.__call__(context.astype(np.float32))
-    )[0]
+    rates = np.asarray(self.packaged_model.__call__(context))[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 8063b6e70aff7f0c47e020e580f3ed0cb4c31b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 30/63] fix: augment rate data whose context has no columns

---
 putting_dune/rate_learning/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 3bc5027..e7ea8b4 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -144,7 +144,10 @@ def rotate_dataset(
       states, times, rates, position, context
   )
   if context is not None:
-    rot_context = rot_context.reshape(-1, *context.shape[1:])
+    # The number of rows can't be inferred from a context without columns.
+    rot_context = rot_context.reshape(
+        num_states * context.shape[0], *context.shape[1:]
+    )
 
   return (
       rot_states.reshape(-1, *states.shape[1:]),
-- 
2.43.0


From 6a155c964b71e79f6f21013dc50a30bcb0c4e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 31/63] fix: turn the human prior's preferred beam position
 towards each neighbour

---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From c0250d0191e8181a42cb886042a308c8e72426ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 32/63] fix: generate masks of oblong dimensions

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From e32fd94d3577e1bca133f5d7d35bd76c15eb1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 33/63] fix: blur atoms equally in both directions of oblong
 fields of view

---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..3486f58 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The first axis of an image is the y-direction.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From 5d65dc4997cbf7c04f7e3014770a2c4c7aaf73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 34/63] fix: keep blank images blank instead of normalising
 them to NaN

---
 putting_dune/imaging.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 3486f58..54adb49 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -72,6 +72,12 @@ def sample_noisy_image_parameters(
   )
 
 
+def _normalize(image: np.ndarray) -> np.ndarray:
+  """Scales an image to a maximum of 1. Blank images stay blank."""
+  maximum = np.max(image)
+  return image / maximum if maximum > 0 else image
+
+
 def generate_grid_mask(
     grid: microscope_utils.AtomicGrid,
     fov: microscope_utils.MicroscopeFieldOfView,
@@ -168,10 +174,7 @@ def generate_clean_image(
       buffer_width : buffer_width + image_size,
   ]
 
-  # Normalize
-  image = image / np.max(image)
-
-  return image
+  return _normalize(image)
 
 
 def apply_gaussian_noise(
@@ -201,7 +204,7 @@ def apply_poisson_noise(
     image: np.ndarray, poisson_rate_multiplier: float, rng: np.random.Generator
 ) -> np.ndarray:
   image = rng.poisson(image * poisson_rate_multiplier)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_salt_and_pepper_noise(
@@ -212,7 +215,7 @@ def apply_salt_and_pepper_noise(
 
 def apply_blur(image: np.ndarray, amount: float) -> np.ndarray:
   image = ndimage.gaussian_filter(image, amount)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_contrast(image: np.ndarray, gamma: float) -> np.ndarray:
@@ -226,7 +229,7 @@ def apply_exponential_noise(
 ) -> np.ndarray:
   noise = rng.exponential(noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_uniform_noise(
@@ -234,7 +237,7 @@ def apply_uniform_noise(
 ) -> np.ndarray:
   noise = rng.uniform(0.0, noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def generate_stem_image(
-- 
2.43.0


From 94d01d02e3004abd9829feee48a4cfbfe8b167c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 35/63] fix: report atoms of oblong segmentations where they
 are

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index ee533e9..465bb14 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -400,7 +400,7 @@ class ImageAligner:
         c_x, c_y = 0, 0
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
-      centroids.append((c_x / classes.shape[0], 1.0 - c_y / classes.shape[1]))
+      centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
     return centroids
 
   @classmethod
-- 
2.43.0


From 48b1b39a3951e34e494fb1c32363b17d29dfd02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 36/63] fix: clip distances that do not fit into a byte when
 detecting atoms

---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..71b7e5a 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -51,7 +51,8 @@ def compute_centroids(
 
   # Perform distance transform on the masked image
   dists = cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE)
-  dists = (dists * 255).astype(np.uint8)
+  # Distances above 1 are clipped, since they don't fit.
+  dists = (np.clip(dists, 0, 1) * 255).astype(np.uint8)
 
   # Threshold the distances by the threshold value.
   _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
-- 
2.43.0


From 58532b4408499148873c71a692293dc99ee764db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 37/63] fix: locate atoms whose contour encloses no area

---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 71b7e5a..69f1ae8 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -72,7 +72,8 @@ def compute_centroids(
       c_x = int(m["m10"] / m["m00"])
       c_y = int(m["m01"] / m["m00"])
     else:
-      c_x, c_y = 0, 0
+      # The contour doesn't enclose any area.
+      c_x, c_y = contour.reshape(-1, 2).mean(axis=0).astype(int)
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From b023aba8477e8c1bc97a6a002545c12df4bf54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 38/63] fix: mask silicon segmentations by multiplication

---
 putting_dune/atom_detector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69f1ae8..bdb1219 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -161,7 +161,10 @@ class AtomDetector:
     # Mask the silicon segmentation with the dilated carbon segmentation.
 
     # Mask out any silicon that overlaps with likely carbon
-    masked_silicon_probs = cv2.bitwise_xor(silicon_probs, dilated_carbon_probs)
+    masked_silicon_probs = silicon_probs * (1.0 - dilated_carbon_probs)
+    _, masked_silicon_probs = cv2.threshold(
+        masked_silicon_probs, 0.5, 1.0, cv2.THRESH_BINARY
+    )
 
     # Find the centroids for both the carbon and silicon layers
     carbon_centroids = compute_centroids(carbon_probs.astype(np.uint8), 1, 25)
-- 
2.43.0


From c8fdd77c9779fa8039e84757a2bc4187bdbe0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 39/63] fix: detect atoms when there are none of one kind

---
 putting_dune/atom_detector.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index bdb1219..929b859 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -173,15 +173,17 @@ class AtomDetector:
     )
 
     # Construct an array of atomic numbers for both atoms
-    carbon_atomic_numbers = np.array([constants.CARBON] * len(carbon_centroids))
-    silicon_atomic_numbers = np.array(
-        [constants.SILICON] * len(silicon_centroids)
+    carbon_atomic_numbers = np.full(
+        len(carbon_centroids), constants.CARBON, dtype=int
+    )
+    silicon_atomic_numbers = np.full(
+        len(silicon_centroids), constants.SILICON, dtype=int
     )
 
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
-            atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
+            atom_positions=np.reshape(
+                carbon_centroids + silicon_centroids, (-1, 2)
             ),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-- 
2.43.0


From e0d803946bbefef263a4fb6474e49b518bf4e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 40/63] fix: do not mistake an interrupted model download for
 the model

---
 putting_dune/experiments/registry.py | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..cedb078 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -17,6 +17,7 @@
 import dataclasses
 import datetime as dt
 import functools
+import tempfile
 from typing import Callable, Optional, Tuple
 import urllib.request
 import zipfile
@@ -93,19 +94,22 @@ class _TfAgentCreator:
     # Download the file if necessary.
     if not model_path.exists():
       logging.info("Couldn't find agent checkpointing. Downloading...")
-      zip_path = model_weights_path / 'tmp.zip'
-      zip_path_str = str(zip_path)
-      urllib.request.urlretrieve(
-          self.download_url,
-          zip_path_str,
-      )
-
-      logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
-
-      # Delete the zip file.
-      zip_path.unlink()
+      # Only move the model into place once it is complete, so that an
+      # interrupted download isn't mistaken for the model later.
+      with tempfile.TemporaryDirectory(dir=model_weights_path) as tmp_dir:
+        tmp_path = epath.Path(tmp_dir)
+        zip_path = tmp_path / 'tmp.zip'
+        zip_path_str = str(zip_path)
+        urllib.request.urlretrieve(
+            self.download_url,
+            zip_path_str,
+        )
+
+        logging.info('Unzipping agent checkpoint...')
+        with zipfile.ZipFile(zip_path_str, mode='r') as zf:
+          zf.extractall(tmp_path)
+
+        (tmp_path / self.model_name).rename(model_path)
 
     agent = tf_eval_agent.TfEvalAgent(str(model_path))
     logging.info('Agent loaded!')
-- 
2.43.0


From c02045614e429c390e0bbd2527467388d835a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 41/63] fix: end an exposure quietly when no transition has a
 rate

---
 putting_dune/graphene.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 1d90afc..0a6e558 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -660,6 +660,10 @@ class PristineSingleDopedGraphene(Material):
           self.grid, geometry.PointMaterialFrame(control.position)
       )
 
+      # Without any rate, nothing happens for the rest of the exposure.
+      if rates.total_rate <= 0:
+        break
+
       # The time at which the next transition takes place is modeled
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
-- 
2.43.0


From 7da2a15c399a71fa9a07bcaf2c90f2c63527648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 42/63] fix: do not make up a transition after an hour of
 exposure

---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 0a6e558..d301cdb 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -668,8 +668,11 @@ class PristineSingleDopedGraphene(Material):
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
       transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)
-      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour.
-      transition_seconds = min(transition_seconds, 3600)
+      # Avoid np.inf when using very small rates. Anything that is longer than
+      # the dwell time has the same effect.
+      transition_seconds = min(
+          transition_seconds, control.dwell_time.total_seconds() + 1.0
+      )
       transition_time = dt.timedelta(seconds=transition_seconds)
       elapsed_time += transition_time
 
-- 
2.43.0


From 3881fda0dd17b373c362c1fe1fd3c4465bc6b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 43/63] fix: turn the human prior's spread with the neighbour

---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index d301cdb..30b01db 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,9 +220,12 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
+      # The prior, its spread included, is for a neighbor at (1, 0).
+      rotated_beam_position = geometry.rotate_coordinates(
+          relative_beam_position, -angle
+      )
       rate = single_silicon_prior_rates(
-          relative_beam_position, rotated_mean, self.cov, self.max_rate
+          rotated_beam_position, self.mean, self.cov, self.max_rate
       )
       rates[i] = np.asarray(rate)
 
-- 
2.43.0


From 94ad1dd685625a52458051c9f2add865f119c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 44/63] fix: ask learned rates in angstroms, as they are
 trained

---
 putting_dune/rate_learning/learn_rates.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 0ccf2b2..8fbb0e7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -969,7 +968,6 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
-- 
2.43.0


From db22f53049df6f6a271596146c594238c9265079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 45/63] fix: pair every loss with its own example

---
 putting_dune/rate_learning/learn_rates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 8fbb0e7..789021c 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -132,6 +132,11 @@ def batched_loss_fn(
   predicted_rates, network_state = apply_fn(
       params, network_state, key, context, is_training
   )
+  # Synthetic data has a trailing dimension of one in all but the context.
+  next_state = next_state.reshape(-1)
+  elapsed_time = elapsed_time.reshape(-1)
+  did_transition = did_transition.reshape(-1)
+
   predicted_total_rate = predicted_rates[:, -1]
   no_transition_prob = jnp.exp(-predicted_total_rate * elapsed_time)
   no_transition_prob = jnp.clip(no_transition_prob, a_max=1 - 1e-6)
-- 
2.43.0


From cfc0d8c19240495293bd1d934b45b0d3919caff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 46/63] fix: return the rate of every state with the loss

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 789021c..e502593 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -152,7 +152,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From 8d806144dcd618b730b00a5a11b2b3c6273e26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 47/63] fix: train on datasets smaller than a batch

---
 putting_dune/rate_learning/learn_rates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index e502593..73999fc 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -197,6 +197,8 @@ def train_epoch(
   """
   key, data_key = jax.random.split(key)
   data_size = list(train_data.values())[0].shape[0]
+  # A small dataset is one batch.
+  batch_size = min(batch_size, data_size)
   indices = jax.random.permutation(
       data_key, jnp.arange(data_size), independent=True
   )
-- 
2.43.0


From 0d170d3d144fd247c187d9ea9a7fb586241dce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 48/63] fix: let support vector machines predict rates

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index f9bd4a3..8482fdb 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -145,7 +145,7 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From f1e734a77582021e0a8f27a62c200590903fc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 49/63] fix: give the scikit-learn network its learning rate

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 8482fdb..ecb83b8 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
-- 
2.43.0


From 3a00a54e81fab3d34c583ca097d12f644c89633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 50/63] fix: train rate learners on the beam position only

---
 putting_dune/pipeline/train_rate_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index ecb83b8..7cff03c 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -684,6 +684,9 @@ def main(args: Args) -> None:
       dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,
   )
 
+  if stacked_data['context'] is None:
+    stacked_data['context'] = np.zeros((len(processed_transitions), 0))
+
   rng_key = jax.random.PRNGKey(args.seed)
 
   if args.learner_type != LearnerType.RATE_NETWORK:
-- 
2.43.0


From 664aca48419d3da7759a5f8e1ab1065017628c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 51/63] fix: train classification networks with the dwell time
 in their context

---
 putting_dune/pipeline/train_rate_learner.py |  8 ++++++--
 putting_dune/rate_learning/learn_rates.py   | 11 ++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 7cff03c..fca9a2d 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -677,11 +677,12 @@ def main(args: Args) -> None:
     counts[t['next_state']] += 1
   print(counts, flush=True)
 
+  dwell_time_in_context = args.learner_type != LearnerType.RATE_NETWORK
   stacked_data = stack_data(
       processed_transitions,
       use_current=args.use_current,
       use_voltage=args.use_voltage,
-      dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,
+      dwell_time_in_context=dwell_time_in_context,
   )
 
   if stacked_data['context'] is None:
@@ -712,7 +713,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': dwell_time_in_context,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 73999fc..2e1bff8 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -678,7 +678,12 @@ class LearnedTransitionRatePredictor:
         batchnorm=config.batchnorm,
         dropout_rate=config.dropout_rate,
     )
-    self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim = (
+        position_dim
+        + config.use_current
+        + config.use_voltage
+        + config.get('dwell_time_in_context', False)
+    )
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
@@ -953,6 +958,7 @@ class LearnedTransitionRatePredictor:
       neighbor_indices: np.ndarray,
       voltage_kv: float = 60,
       current_na: float = 0.1,
+      dwell_time_s: float = 1.5,
   ) -> np.ndarray:
     """Computes rate constants for transitioning a Si atom.
 
@@ -963,6 +969,7 @@ class LearnedTransitionRatePredictor:
       neighbor_indices: Indices of the atoms on the grid to calculate rates for.
       voltage_kv: beam voltage in kV.
       current_na: beam current in nA.
+      dwell_time_s: beam dwell time in seconds, for models whose context has it.
 
     Returns:
       a 3-dimensional array of rate constants for transitioning to the 3
@@ -980,6 +987,8 @@ class LearnedTransitionRatePredictor:
         neighbor_positions,
     )
     context = new_beam_pos
+    if self.config.get('dwell_time_in_context', False):
+      context = np.concatenate([[[dwell_time_s]], context], axis=-1)
     if self.config.use_voltage:
       context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-- 
2.43.0


From 15b546d14793e69ab09cd881b888426b1179ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 52/63] fix: average classifiers that have not seen every state

---
 putting_dune/pipeline/train_rate_learner.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index fca9a2d..e8da8e1 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -48,6 +48,10 @@ from sklearn import preprocessing as skpreprocessing
 from sklearn import svm as sksvm
 
 
+# The silicon stays, or moves to one of its three neighbors.
+NUM_STATES = 4
+
+
 class LearnerType(str, enum.Enum):
   RATE_NETWORK = 'rate_network'
   CLASSIFICATION_NETWORK = 'classification_network'
@@ -107,6 +111,20 @@ class Dataset(TypedDict):
   rates: np.ndarray
 
 
+class SoftVotingClassifier(skensemble.VotingClassifier):
+  """Averages the probabilities of trained classifiers.
+
+  The dataset of a classifier may lack some of the states. As the classifier
+  has no probabilities for these, they are zero.
+  """
+
+  def predict_proba(self, X):  # pylint: disable=invalid-name
+    probabilities = np.zeros((len(self.estimators_), len(X), NUM_STATES))
+    for i, model in enumerate(self.estimators_):
+      probabilities[i][:, model.classes_.astype(int)] = model.predict_proba(X)
+    return probabilities.mean(0)
+
+
 def get_sklearn_classifier(
     learner_type: Union[str, LearnerType],
     config: config_dict.FrozenConfigDict,
@@ -814,7 +832,7 @@ def main(args: Args) -> None:
         'train_accuracy': np.stack([train_accuracies], axis=0),
         'test_accuracy': np.stack([test_accuracies], axis=0),
     }
-    ensemble = skensemble.VotingClassifier(
+    ensemble = SoftVotingClassifier(
         [(f'{args.learner_type}_{i}', models[i]) for i in range(len(models))],
         voting='soft',
     )
-- 
2.43.0


From 91687eb3727b48d69f6689adb9f72f51944e68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 53/63] fix: draw rates on any number of points with a fixed
 context

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 2e1bff8..fcfdcf2 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -1038,7 +1038,7 @@ def visualize_rates(
   coords = np.stack([xs, ys], -1)
   context = coords.reshape(-1, *coords.shape[2:])
   if fixed_context is not None:
-    fixed_context = np.repeat(fixed_context[None], num_points, 0)
+    fixed_context = np.repeat(fixed_context[None], context.shape[0], 0)
     context = np.concatenate([fixed_context, context], axis=-1)
 
   pred_rates = predict_rates(context)
-- 
2.43.0


From ef9e3f539d25ecaa22ee8b5127cb9dc3920a90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 54/63] fix: let the seed determine scikit-learn models

---
 putting_dune/pipeline/train_rate_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index e8da8e1..3807518 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -802,6 +802,9 @@ def main(args: Args) -> None:
         test_fraction=args.val_frac,
     )
 
+    # The classifiers draw from numpy's global random state.
+    np.random.seed(args.seed)
+
     models = []
     train_accuracies = []
     test_accuracies = []
-- 
2.43.0


From 4942eadbf0e12d06f0605da461a5ec4d048b8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 55/63] fix: only keep completely extracted detection and
 alignment models

---
 putting_dune/alignment.py     | 16 ++++++++++++----
 putting_dune/atom_detector.py | 13 +++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 465bb14..c1e44c9 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -17,6 +17,7 @@
 import collections
 import copy
 import functools
+import tempfile
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
 import zipfile
@@ -482,10 +483,17 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
-      with path.open('rb') as model_zip_fp:
-        with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      # Only move the model into place once it is complete, so that an
+      # interrupted extraction isn't mistaken for the model later.
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as tmp_dir:
+        with path.open('rb') as model_zip_fp:
+          with zipfile.ZipFile(model_zip_fp) as model_zip:
+            model_zip.extractall(tmp_dir)
+        if model_path.exists():
+          # This also deletes the files that the new model doesn't have.
+          model_path.rename(epath.Path(tmp_dir) / 'replaced')
+        (epath.Path(tmp_dir) / model_path.name).rename(model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 929b859..caf280e 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -16,6 +16,7 @@
 import dataclasses
 import functools
 import io
+import tempfile
 from typing import Any, List, Tuple
 import urllib
 import zipfile
@@ -110,10 +111,14 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
-      with urllib.request.urlopen(url) as request:
-        with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      # Only move the model into place once it is complete, so that an
+      # interrupted download isn't mistaken for the model later.
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as tmp_dir:
+        with urllib.request.urlopen(url) as request:
+          with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
+            model_zip.extractall(tmp_dir)
+        (epath.Path(tmp_dir) / model_path.name).rename(model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
-- 
2.43.0


From fa0ab7cb91695ece5d53480196990bd8c01a4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 56/63] fix: save alignment models without changing the working
 directory

---
 putting_dune/image_alignment/save_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..308b24a 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,16 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        path = os.path.join(dirname, filename)
+        zipped.write(path, os.path.relpath(path, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 5b3660fa073adcf4eb04e0fe6c62d9403f866a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 57/63] fix: save detection models in the folder they are
 loaded from

---
 putting_dune/atom_detection/save_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..a2caf4d 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -113,15 +113,17 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
-    zip_path = epath.Path(tmpdir) / 'packaged.zip'
+    # AtomDetector expects the model in a directory of this name.
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
+    zip_path = epath.Path(tmpdir) / 'atom-detection-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        path = os.path.join(dirname, filename)
+        zipped.write(path, os.path.relpath(path, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 35f02c62b8941d47c160e235796d574cfe8422f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:38 +0000
Subject: [PATCH 58/63] fix: save detection models with the input that they are
 fed

---
 putting_dune/atom_detection/save_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index a2caf4d..c1b72f0 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -94,8 +94,11 @@ def save(config: Config):
       predictor_tf,
       autograph=False,
       input_signature=[
+          # AtomDetector feeds the image by this name.
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape,
+              dtype=np.float32,
+              name='preprocessed_inputs_0',
           )
       ],
   )
-- 
2.43.0


From 097747cf59d9f36a58bcc181c7e8373196bd2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 59/63] fix: predict with the step of a rate model that was
 loaded

---
 putting_dune/rate_learning/learn_rates.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index fcfdcf2..00c2673 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -873,6 +873,11 @@ class LearnedTransitionRatePredictor:
         self.packaged_model,
         save_dir,
     )
+    # The model above is replaced by those of later steps.
+    tf.saved_model.save(
+        self.packaged_model,
+        os.path.join(save_dir, str(step) + '.packaged'),
+    )
 
     config_path = epath.Path(os.path.join(save_dir, 'config.json'))
     json_str = self.config.to_json_best_effort()
@@ -898,7 +903,11 @@ class LearnedTransitionRatePredictor:
       if path.exists():
         with path.open('rb') as f:
           self.state = flax.serialization.from_bytes(self.state, f.read())
-    self.packaged_model = tf.saved_model.load(load_dir)
+    # Prefer the packaged model of this step over that of the last one.
+    packaged_dir = os.path.join(load_dir, str(step) + '.packaged')
+    if not load_params or not epath.Path(packaged_dir).exists():
+      packaged_dir = load_dir
+    self.packaged_model = tf.saved_model.load(packaged_dir)
 
     if load_config:
       config_path = epath.Path(os.path.join(load_dir, 'config.json'))
-- 
2.43.0


From 50aed78d346a004e0ec3d2620bdea9eb21d88698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 60/63] fix: detect atoms in images as the simulator generates
 them

---
 putting_dune/atom_detector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index caf280e..fa579bc 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -134,6 +134,12 @@ class AtomDetector:
     # This involves:
     #   1. Downsampling the image to 256 x 256
     #   2. Normalizing the image to be [0, 1]
+    if image.ndim == 2:
+      image = np.expand_dims(image, -1)
+
+    # The model takes single precision images.
+    image = image.astype(np.float32)
+
     image: tf.Tensor = tf.image.resize(
         image,
         (256, 256),
-- 
2.43.0


From 62cc2742ed1139cd92d8abef3c0e04c77aa5c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 61/63] fix: an image without contrast is blank to the models,
 not NaN

---
 putting_dune/alignment.py     | 3 ++-
 putting_dune/atom_detector.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index c1e44c9..002de04 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -539,7 +539,8 @@ class ImageAligner:
         method='nearest',
     )
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
-    image = (image - image_min) / (image_max - image_min)
+    # An image without any contrast becomes blank.
+    image = tf.math.divide_no_nan(image - image_min, image_max - image_min)
     if self.needs_reset:
       self.reset(history_length=self.history_length, example_image=image)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index fa579bc..b865bfa 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -146,7 +146,8 @@ class AtomDetector:
         method="nearest",
     )
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
-    image = (image - image_min) / (image_max - image_min)
+    # An image without any contrast becomes blank.
+    image = tf.math.divide_no_nan(image - image_min, image_max - image_min)
 
     # Feed image through the detection model to get the logits
     logits = self.model.signatures["serving_default"](
-- 
2.43.0


From 12f965d4facefeddca3efcb9388bb1fcc2e47147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 62/63] fix: equalize images that are not normalized

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 002de04..886b121 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -531,6 +531,8 @@ class ImageAligner:
     image = image.astype(np.float32)
 
     if self.adaptive_normalization:
+      # Floating point images have to be in [-1, 1] to be equalized.
+      image = exposure.rescale_intensity(image, out_range=(0.0, 1.0))
       image = exposure.equalize_adapthist(image)
 
     image: tf.Tensor = tf.image.resize(
-- 
2.43.0


From 1bcf9836bbec18d526cfd1095b135f9418d2f564 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 63/63] fix: draw the neighbours of a transition

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 3807518..d6f13e3 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -281,8 +281,8 @@ def plot_transition(
     position = neighbor_positions[neighbor_order[i] + 1]
     position = fov_before.material_frame_to_microscope_frame(position)
     plt.scatter(
-        imsize[0] * position[0],
-        imsize[1] - imsize[1] * position[1],
+        imsize * position[0],
+        imsize - imsize * position[1],
         marker='x' if i + 1 == next_state else '+',
         label='Neighbor {}'.format(i + 1),
     )
-- 
2.43.0

