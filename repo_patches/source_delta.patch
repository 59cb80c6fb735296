From fe3f6735b948c54ab0fadd0bb36e595747930d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 01/65] fix: rotation between exactly antiparallel directions
 has a NaN base

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..d20fa19 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,7 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
-- 
2.43.0


From a3fce5da488277f1113e8a242252f003d3339f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 02/65] fix: rotate_vector_rotation rotates with the own base
 instead of the argument's

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d20fa19..1e17e6e 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From 21e5e60a2f2ed3ddab977a9d331bd4aeb2b3de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 03/65] fix: slow-down factor is NaN when the convergence
 proximity exceeds 1 by rounding

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..beeaceb 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -367,12 +367,13 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
         scaling = np.ones_like(rot_weight)
-        scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-            power_factor
-        )
+        # The dot product of two unit vectors can exceed 1 by a rounding error
+        scaling[ind_pos] = (
+            np.maximum(1 - conv_prox[ind_pos], 0) / rot_weight[ind_pos]
+        ) ** (power_factor)
         # Ensure a max of 1 (!)
         return min(np.min(scaling), 1)
 
-- 
2.43.0


From 71992a11906f78e0353de8594f5fd9c0645b18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 04/65] fix: several saturated weights sum up to more than one

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index beeaceb..80aa4fa 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,8 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        new_weights = np.zeros(len(weights))
+        new_weights[ind_max] = 1.0 / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
-- 
2.43.0


From d30282d1309950c37c394af90e864a290fdecdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 05/65] fix: weights sum to two at a point shared by two
 segments

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..3644624 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From f6e6446a2ce15608e5a8d4afa1fd8c84e1ffe783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 06/65] fix: segmented path dynamics return a scalar at the
 attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 3644624..94ef764 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -180,7 +180,7 @@ class WavyPathFollowing(Dynamics):
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
         if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From cb8da6298b0494ca4a01cbda9a94f061963b35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 07/65] fix: rotation sequence through exactly opposite vectors
 is not rejected

---
 nonlinear_avoidance/vector_rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 1e17e6e..2227b13 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -260,7 +260,8 @@ class VectorRotationSequence:
         vectors_array = vectors_array / array_norm
         dot_prod = np.sum(vectors_array[:, 1:] * vectors_array[:, :-1], axis=0)
 
-        if np.sum(dot_prod == (-1)):  # Any of the values
+        # The dot product of opposite unit vectors differs from -1 by a rounding error
+        if np.any(dot_prod <= -1 + 1e-12):
             raise ValueError("Antiparallel vectors.")
 
         # Evaluate basis and angles
-- 
2.43.0


From f59084745aa1def1b0fdcbd32fe378b3132ab44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 08/65] fix: appended direction does not continue from the end
 of the sequence

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 2227b13..fa962d7 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -305,9 +305,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From f54302799eaa98771ae485c5c418f6aa9e14ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 09/65] fix: parent lookup in the rotation tree raises
 TypeError

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fa962d7..15b8b7d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -437,7 +437,7 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(iter(self._graph.predecessors(node_id)))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-- 
2.43.0


From 0109235ae3f0870209bf26712fe1c13321836ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 10/65] fix: changing the direction of an inner tree node
 raises TypeError

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 15b8b7d..553e2ee 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -560,7 +560,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 972e57308747f67abcc31b88536658d70a3ea4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 11/65] fix: rotating with a rotation tree raises TypeError

---
 nonlinear_avoidance/vector_rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 553e2ee..6f7a95f 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -424,7 +424,7 @@ class VectorRotationTree:
 
     @property
     def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -876,7 +876,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -893,7 +893,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From caa5c30c10d10d2875f7335e62c14e0c92550577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 12/65] fix: zero rotation cannot be created

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 6f7a95f..3f913d5 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -914,4 +914,4 @@ class VectorRotationTree:
 
 def create_zero_vector_rotation(dimension: int) -> VectorRotationXd:
     """Creates a zero vector rotation object."""
-    return VectorRotationXd(base=np.eye((dimension, 2)), rotation_angle=0.0)
+    return VectorRotationXd(base=np.eye(dimension, 2), rotation_angle=0.0)
-- 
2.43.0


From 4d367ed1efa43100e258f5ed364388441a6fb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 13/65] fix: last rotation is doubled if deeper tree levels
 have no weight

---
 nonlinear_avoidance/vector_rotation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 3f913d5..974bc27 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -814,7 +814,12 @@ class VectorRotationTree:
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
                 # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                # (without weight, they do not contribute to the sequence)
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
-- 
2.43.0


From 7b2141e963fefc491aca1e12e3960627ec7d6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 14/65] fix: partially applied sequence turns the following
 planes the wrong way

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 974bc27..b2cd5cc 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -361,7 +361,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From 31f38fac3435fefc00da0b4982142ad080e6aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 15/65] fix: keep the nominal speed when no obstacle has an
 influence

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 80aa4fa..2ac4ef0 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -329,7 +329,8 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            # The sequence only contains the (unit) direction
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From c7905eb7fcf1276e0c8ddf13b1bfe7aa44354dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 16/65] fix: convergence and reference are swapped in the
 weight of the local avoidance

directional_convergence_summing passed them by position in the wrong order;
a convergence that leads away from the obstacle got no weight just above the
surface, and the velocity towards the obstacle was kept.
---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..2a9327a 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,10 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma=gamma,
+            vector_reference=reference_vector,
+            vector_convergence=convergence_vector,
+            base=base,
         )
 
         if weight <= 0:
-- 
2.43.0


From c2c9a81e8a995f12c8b2f758a565d59f8ab61cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 17/65] fix: convergence direction of the first obstacle is
 used for all obstacles

The direction of a local convergence (get_convergence_direction) was stored
in the loop-independent argument, so that it was evaluated only once.
---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 2a9327a..673f264 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
+            local_convergence = convergence_velocity
+            if local_convergence is None:
                 if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
+                    local_convergence = obstacle_list.get_convergence_direction(
                         position=position, it_obs=it_obs
                     )
                 else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+                    local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 8e6bedbb3a247274ba3e592dfc943fa4e8f2811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 18/65] fix: positions in the local frame of compound obstacles

get_gamma and get_gamma_except_components transformed the position as if it
was a pose (and the arch used an attribute it does not have).
---
 nonlinear_avoidance/arch_obstacle.py  | 4 ++--
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..8f147f4 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 0b8657d46c789491351ad49e37ea426c1f2a5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 19/65] fix: free-space query of the obstacle container calls a
 method the trees do not have

---
 nonlinear_avoidance/multi_obstacle_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..4fee60b 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -69,7 +69,7 @@ class MultiObstacleContainer:
         if not in_global_frame:
             raise NotImplementedError()
         for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
+            if obs.is_collision_free(position):
                 continue
             return False
 
-- 
2.43.0


From adda42b27d6dc7386bf06dfa03f132bf521fa94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 20/65] fix: hull obstacle evaluates positions and velocities
 in the wrong frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..9a76d4c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
@@ -247,7 +250,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.transform_relative2global_dir(mean_direction)
 
         return mean_direction
 
-- 
2.43.0


From f09d8135fe5cbe8a81a1d10ccb2664fa18921933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 21/65] fix: linear velocity of compound obstacles with a twist

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 8f147f4..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From 105c2d3741006d4f442366abf3f1e41fd3ab803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 22/65] fix: angular velocity of obstacles in three dimensions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 2ac4ef0..1efd003 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,22 +128,23 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if obs.twist.angular is not None and np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
                         np.hstack((position - pose.position, 0)),
-                    )
+                    )[:2]
                 elif position.shape[0] == 3:
                     angular_velocity = np.cross(
                         obs.twist.angular, (position - pose.position)
                     )
                 else:
                     warnings.warn("No dynamic evaluation for higher dynensions.")
+                    angular_velocity = np.zeros_like(position)
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From 16259d1c69d2f60bc273753276a51fe5642023ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 23/65] fix: orientation of upward pointing limbs

---
 nonlinear_avoidance/multi_body_human.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..d0ebc86 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -427,14 +427,16 @@ class MultiBodyObstacle:
 
         rot_vec = np.cross([0.0, 0, 1.0], axes_direction)
 
-        if rotvec_norm := np.linalg.norm(rot_vec):
-            rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+        if np.linalg.norm(rot_vec):
+            # Shortest rotation of the z-axis onto the axes_direction (normalized below)
+            quat = np.hstack((rot_vec, [1.0 + axes_direction[2]]))
 
-        else:
+        elif axes_direction[2] > 0:
             quat = np.array([0, 0, 0, 1.0])
 
+        else:
+            quat = np.array([1.0, 0, 0, 0])
+
         # breakpoint()
 
         self[idx_obs].pose.orientation = Rotation.from_quat(quat)
-- 
2.43.0


From 02c3565bb28d2b9fa37039c8b86b0823aac56ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 24/65] fix: intersection of obstacles of different types

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From ce470e8c2711b007361b8dee83fe73ef0d0547f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 25/65] fix: root and parent with index zero could be
 overwritten

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From 3cecc7c50c920044d4b90c59f5feb98be51bb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 26/65] fix: intersection of a new component with its parent in
 different frames

---
 nonlinear_avoidance/multi_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..ede4d76 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -149,6 +149,10 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        # Put obstacle to 'global' frame, but store local pose
+        local_pose = obstacle.pose
+        obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
+
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
@@ -165,9 +169,7 @@ class MultiObstacle:
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
         new_id = len(self._obstacle_list)
-        # Put obstacle to 'global' frame, but store local pose
-        self._local_poses.append(obstacle.pose)
-        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
+        self._local_poses.append(local_pose)
         self._obstacle_list.append(obstacle)
 
         self._graph.add_node(
-- 
2.43.0


From f7b9ab0a4d9756a9dcd2113a1e239aa35b58e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 27/65] fix: update of the walls of the arch obstacle

---
 nonlinear_avoidance/arch_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 46aed7d..c99aeea 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -181,7 +181,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
-- 
2.43.0


From b0117a8325cae4bb8e2ebc275ccf6a6431b028a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 28/65] fix: maximum velocity of the circular dynamics is only
 applied near the center

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..f1829da 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -274,13 +274,13 @@ class SimpleCircularDynamics(DynamicalSystem):
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
+            normalized_direction = normalized_direction * (
+                pos_norm / slow_down_distance
             )
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(
+            normalized_direction * self.maximum_velocity
+        )
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From efbd38a4df844e78f684e012154da9aa7e47a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 29/65] fix: pose of the rotated circular dynamics was ignored

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f1829da..3320550 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -175,10 +175,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        relative_position = self.pose.transform_position_to_relative(position)
+        if not LA.norm(relative_position):
+            return relative_position
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ relative_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
@@ -186,7 +187,7 @@ class CircularRotationDynamics(DynamicalSystem):
         rot_dir = self._rotation.rotate(init_direction, rot_factor=rot_weight)
         final_dir = rot_dir * self.constant_velocity
 
-        return self.base_matrix @ final_dir
+        return self.pose.transform_direction_from_relative(self.base_matrix @ final_dir)
 
 
 class SimpleCircularDynamics(DynamicalSystem):
-- 
2.43.0


From daa26181c5b2975df773cfd146d0d3c17c42a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 30/65] fix: velocity of the spiraling dynamics was shifted by
 the position of the pose

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From b416828ee39f42fcb7acbc3eb5c9de17c866d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 31/65] fix: spiraling dynamics returned NaN at its attractor

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index 37566b3..c960c02 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -121,8 +121,10 @@ class SpiralingAttractorDynamics3D:
             velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
 
         combined_velocity = rotating_velocity + velocity_to_attractor
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
-        combined_velocity = combined_velocity * self.speed
+        if not (vel_norm := np.linalg.norm(combined_velocity)):
+            return np.zeros_like(position)
+
+        combined_velocity = combined_velocity / vel_norm * self.speed
         return combined_velocity
 
     def evaluate_convergence_around_obstacle(
-- 
2.43.0


From c2f8864f2f02e0a7a14376f5208f4a803bd7aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 32/65] fix: locally rotated dynamics jumps where the attractor
 is perpendicular to the obstacle

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..da9e637 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -215,7 +215,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From d9c56a74ec2f98f8ed1c88fb5e6da34959f89b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 33/65] fix: locally rotated dynamics with the obstacle at the
 attractor could not be evaluated

---
 .../dynamics/locally_rotated_linear_dynamics.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index da9e637..73acfab 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -53,6 +53,11 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         self.obstacle = obstacle
         self.attractor_position = attractor_position
 
+        self.min_gamma = min_gamma
+        self.max_gamma = max_gamma
+        # Modify if needed
+        self.attractor_influence = 3
+
         self.maximum_velocity = LA.norm(reference_velocity)
         if not self.maximum_velocity:
             raise ValueError("Zero velocity was obtained.")
@@ -62,15 +67,12 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
+            self.rotation = None
             return
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
         )
-        self.min_gamma = min_gamma
-        self.max_gamma = max_gamma
-        # Modify if needed
-        self.attractor_influence = 3
 
         # self.base = get_orthogonal_basis()
         # self.deviation = get_angle_space(reference_velocity, null_matrix=self.base)
@@ -213,6 +215,9 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
             return np.zeros_like(position)
 
         attractor_dir = attractor_dir / dist_attractor
+        if self.rotation is None:
+            return attractor_dir * min(dist_attractor, self.maximum_velocity)
+
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
         if dot_product <= -1 or not weight:
-- 
2.43.0


From c1fb6bf33c32fd45082da81a00cd392448c55cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 34/65] fix: breakpoint left in the update of the moving
 dynamics

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 3320550..4e87598 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From 90bf8b1714017f1f313729ce6b610da1e0c05f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 35/65] fix: convergence velocity of the deviated linear
 dynamics was not limited

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..e3d93f1 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 467e629f656e3a79e8319bf3651bda3ddd349ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 36/65] fix: basis of the deviated linear dynamics in more than
 two dimensions

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index e3d93f1..da4e98d 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -244,7 +244,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         X_relative = X - np.tile(self.attractor_position, (X.shape[0], 1))
 
         self._null_matrices = np.zeros(
-            (self.dimension, self.dimension, 2, self.dimension)
+            (self.dimension, self.dimension, self.dimension, 2)
         )
 
         for dd in range(self.dimension):
-- 
2.43.0


From c626d3408e05ca3ed976b5ec731559384e743abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 37/65] fix: obstacle-rotated dynamics weighted by gamma inside
 of an obstacle

---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index c3855d9..ee0fabd 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -71,7 +71,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
             ]
         )
 
-        if np.any((ind_zero := gammas) <= 1):
+        if np.any(ind_zero := gammas <= 1):
             weights = ind_zero / np.sum(ind_zero)
             weight_sum = 1
 
-- 
2.43.0


From a360996aee0f3b5b9614613229ab632bb5a0922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 38/65] fix: weight of opposing mean directions in the
 obstacle-rotated dynamics

---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index ee0fabd..76d2412 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -141,7 +141,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         weight = min(base0_norm, base1_norm) / self.velocity_scaling
         weight = min(weight, 1.0)
 
-        dot_prod_weight = np.dot(base1, base1) + 1
+        dot_prod_weight = np.dot(base0, base1) + 1
         dot_prod_weight = min(self.dotprod_factor * dot_prod_weight, 1.0)
         weight = weight * dot_prod_weight
 
-- 
2.43.0


From bb13ce305db5cbea0318085b7466667f3d205ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 39/65] fix: obstacle-rotated dynamics without update of the
 center dynamics

---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index 76d2412..e1502b0 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -81,8 +81,11 @@ class ObstacleRotatedDynamics(DynamicalSystem):
                 weights = weights / weight_sum
                 weight_sum = 1
 
+        zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
+        for ii, obs in enumerate(self.obstacle_container):
+            zero_dynamics[:, ii] = self.zero_dynamics.evaluate(obs.center_position)
+
         if update_center_dynamics:
-            zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
             for ii, obs in enumerate(self.obstacle_container):
                 if not gammas[ii]:
                     continue
@@ -91,7 +94,6 @@ class ObstacleRotatedDynamics(DynamicalSystem):
                 self.center_dynamics[:, ii] = self.initial_dynamics.evaluate(
                     obs.center_position
                 )
-                zero_dynamics[:, ii] = self.zero_dynamics.evaluate(obs.center_position)
                 # center_norms = LA.norm(center_dirs, axis=0)
                 # ind_nonzero = center_norms > 0
                 # center_dirs = center_dirs / np.tile(
-- 
2.43.0


From 74c6165d109824a1945623357ce9fb19e46cb3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 40/65] fix: evaluate the convergence around the obstacles in
 reach

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..e0a7f24 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From ae48f8131e06145c6a16d439f7d8d2d02bb9d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 41/65] fix: SingularityConvergenceDynamics.avoid uses the
 weighted convergence

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index e0a7f24..177f427 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -189,7 +189,9 @@ class SingularityConvergenceDynamics(BaseAvoider):
     #     return self._rotation_avoider.convergence_dynamics.evaluate(position)
 
     def avoid(self, position, initial_velocity):
-        convergence_velocity = self.evaluate_convergence_dynamics(position)
+        convergence_velocity = self.evaluate_weighted_dynamics(
+            position, initial_velocity
+        )
         return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
-- 
2.43.0


From ff1a26d1fe73ac14cf370cea68d0c0ce823f4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 42/65] fix: unfolding a position does not change the argument

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..68e7f7e 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -288,7 +288,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0


From 219d75dc89b8502b9b73d42e603da1373ec90fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 43/65] fix: pass the obstacle and the deflation weight on in
 the projected rotation dynamics

---
 .../dynamics/projected_rotation_dynamics.py          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 68e7f7e..233dcfd 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -514,7 +514,9 @@ class ProjectedRotationDynamics:
             return initial_sequence
 
         # Trafo is expected to be not None, as we have: weight > 0
-        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(position)
+        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(
+            position, root_obs
+        )
 
         convergence_sequence = evaluate_dynamics_sequence(
             root_obs.get_reference_point(in_global_frame=True),
@@ -532,7 +534,7 @@ class ProjectedRotationDynamics:
             sequence=initial_sequence,
         )
         obs_id = 2
-        self.conv_tree.add_node(
+        self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=obs_id,
             parent_id=root_id,
@@ -555,10 +557,12 @@ class ProjectedRotationDynamics:
         """
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position,
+            in_obstacle_frame=False,
+            deflation_weight=shrinking_weight,
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
-- 
2.43.0


From 0c248b9f62dbd22260c0fb4ad3dd11848bf67bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 44/65] fix: graph elements are told apart by identity and
 detach from their old parent

---
 nonlinear_avoidance/graph_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..8a033db 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,10 +28,11 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
-        self.children.append(child)
-        child.parent = self
+        child.set_parent(self)
 
     def set_parent(self, parent):
+        if self.parent is not None and self in self.parent.children:
+            self.parent.children.remove(self)
         self.parent = parent
         parent.children.append(self)
 
@@ -41,9 +42,11 @@ class GraphElement:
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
         if self.parent is not None:
             self.parent.children.remove(self)
+            self.parent = None
 
 
 @dataclass
-- 
2.43.0


From b85d371690decc51f901638caba78a57126081ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 45/65] fix: elements added to the graph handler are registered
 at their parent

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 8a033db..e9eee32 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -64,7 +64,9 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        parent.add_child(element)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 6b981d97da18591b009bccb58cad5f4442a725dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 46/65] fix: GraphHandler does not modify the given list of
 nodes

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index e9eee32..2c3f8b5 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -80,7 +80,7 @@ class GraphHandler:
     def __init__(self, n_nodes: int = None, node_values: list = None):
         """Input argument has to be the number of nodes 'n_nodes' or the node_values."""
         if node_values is not None:
-            self._node_values = node_values
+            self._node_values = list(node_values)
         elif n_nodes is not None:
             self._node_values = np.arange(n_nodes).tolist()
         else:
-- 
2.43.0


From 06ee1f45ed5ce00fad0210151f0d0df8ed3c9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 47/65] fix: roots of the GraphHandler returns the root values

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 2c3f8b5..f629a5d 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -95,7 +95,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
-- 
2.43.0


From 6d12ddcfb1542984a2b8428cb5d5f60b3766f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 48/65] fix: an unknown parent leaves the GraphHandler as it is

---
 nonlinear_avoidance/graph_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index f629a5d..b6c781a 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -116,11 +116,11 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
-
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
-- 
2.43.0


From 573e6cf27be350779e9b7fc431b221cdbcfd1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 49/65] fix: GraphHandler detaches a node from its previous
 parent

---
 nonlinear_avoidance/graph_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index b6c781a..2b4c7a8 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -130,6 +130,10 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        # Detach from the previous parent
+        if self._parent_index[ind_node] is not None:
+            self._children_indices[self._parent_index[ind_node]].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From 64fd9c912fb68c9269a2e07d87a530c964ced1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 50/65] fix: get_nodes_hirarchy_descending returns the nodes

---
 nonlinear_avoidance/graph_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 2b4c7a8..9c9f320 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -143,10 +143,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ii] for ii in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 9a0a0fdfa89ed81903bcaf075aceb7b32c7ff69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 51/65] fix: deleting from the rotation container removes one
 obstacle and its dynamics

---
 nonlinear_avoidance/rotation_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..3b0a0ae 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,8 +32,8 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
         super().__setitem__(self._obstacle_list[key])
-- 
2.43.0


From 3162b35d7750e50b66dc96910c679835170bae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 52/65] fix: replacing an obstacle of the rotation container

---
 nonlinear_avoidance/rotation_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 3b0a0ae..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -36,7 +36,7 @@ class RotationContainer(BaseContainer):
         del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From b163ed3561f4be733f2ca080457e401375a41faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 53/65] fix: appending a wall honours the given parent

---
 nonlinear_avoidance/multiboundary_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..063f4d4 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -68,9 +68,9 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+            if parent >= 0:
+                self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
         super().append(value)
-- 
2.43.0


From f97cffb7c48d6123a938cc8b0434fb3caf2bc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 54/65] fix: deleting a wall keeps the hierarchy of the others

---
 nonlinear_avoidance/multiboundary_container.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 063f4d4..5a4e71a 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,11 +73,21 @@ class MultiBoundaryContainer(RotationContainer):
                 self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
-        del self._children_list[key]
+        key = range(self.n_obstacles)[key]
+        super().__delitem__(key)
+
+        # The children become roots, and the indices after the deleted one move up
+        for child in self._children_list[key]:
+            self._parent_array[child] = -1
+            self._parent_intersection_point[child] = None
         self._parent_array = np.delete(self._parent_array, key)
+        self._parent_array[self._parent_array > key] -= 1
 
+        del self._children_list[key]
+        self._children_list = [
+            [it - (it > key) for it in children if it != key]
+            for children in self._children_list
+        ]
         del self._parent_intersection_point[key]
 
     def is_collision_free(self, position):
-- 
2.43.0


From 3c3f5ebf147297e672f3910ee2cb31917e74b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 55/65] fix: extend_graph detaches a wall from its previous
 parent

---
 nonlinear_avoidance/multiboundary_container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 5a4e71a..efbbac6 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -107,6 +107,9 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        if (old_parent := self.get_parent(child)) >= 0:
+            self._children_list[old_parent].remove(child)
+
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
-- 
2.43.0


From e73d20a095ef677cf590ccd891d8f6669d598b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 56/65] fix: get_boundary_list reads is_boundary

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index efbbac6..a14f642 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -175,7 +175,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From 7574a48d7587f58991a6f1c047a6324c0dfcd99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 57/65] fix: convergence directions are seen relative to the
 attractor

---
 nonlinear_avoidance/rotation_container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..e0f09e4 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,7 +78,8 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
+            relative_position = position - attractor
+            pos_norm = LA.norm(relative_position)
             if not pos_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
@@ -88,7 +89,7 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
+            dot_prod = np.dot(relative_position, local_velocity) / (
                 pos_norm * LA.norm(local_velocity)
             )
 
-- 
2.43.0


From 433777f7efcc6528fd4ea15f63c00a14d39fd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 58/65] fix: hand the convergence and the initial dynamics over
 by name and take the attractor from the dynamics

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1efd003..d62768f 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -263,7 +263,7 @@ class MultiObstacleAvoider:
         if hasattr(initial_dynamics, "attractor_position"):
             # TODO: so far this is for stable systems only (!)
             if reference_dynamics is None:
-                reference_functor = lambda x: x - initial_dynamics.attractor
+                reference_functor = lambda x: x - initial_dynamics.attractor_position
             else:
                 reference_functor = reference_dynamics.evaluate
 
@@ -281,7 +281,8 @@ class MultiObstacleAvoider:
                 raise ValueError("What reference dynamics should be taken !?")
 
             return ConvergenceDynamicsWithoutSingularity(
-                initial_dynamics, reference_dynamics
+                convergence_dynamics=reference_dynamics,
+                initial_dynamics=initial_dynamics,
             )
 
     @property
-- 
2.43.0


From 4c0daa372d4366c569f3c646a2113c7eb37c3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 59/65] fix: normals of a k-means region on its surface and at
 its center, keep the given position

---
 .../kmeans_learner/kmeans_obstacle.py         | 40 +++++++------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..2f69b18 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -377,11 +377,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            normal = np.zeros(self.dimension)
+            normal[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                normal = (-1) * normal
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
@@ -396,32 +397,18 @@ class KMeansObstacle(Obstacle):
 
         elif position_norm == surf_norm:
             # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
+            distances_surface = self._get_normal_distances(position, is_boundary=False)
+            distances_surface[self._index] = position_norm - self.radius
 
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
+            # The surface with the largest distance is the one which is touched
+            ind_relevant = self.ind_relevant_and_self
+            ind_surface = ind_relevant[np.argmax(distances_surface[ind_relevant])]
 
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
+            if ind_surface == self._index:
+                normal = relative_position / position_norm
+            else:
+                normal = self.normal_directions[ind_surface, :]
 
-            normal = normal_plane / LA.norm(normal_plane)
             if self.is_boundary:
                 normal = (-1) * normal
             return normal
@@ -550,6 +537,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From 52ad0bbe70e008b3ac83bbf931e2c6b5d28fa47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 60/65] fix: keep the labels of the samples when sparse k-means
 clusters are removed

---
 .../kmeans_learner/kmeans_motion_learner.py       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..db9b65c 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -232,8 +232,11 @@ class KMeansMotionLearner:
         )
 
         n_delta_label = 0
+        # Compare with the initial labels, since they get renumbered during the loop
+        initial_labels = np.copy(self.kmeans.labels_)
+        ind_removed = np.zeros(initial_labels.shape[0], dtype=bool)
         for ii in range(self.kmeans.n_clusters):
-            ind_label = ii == self.kmeans.labels_
+            ind_label = ii == initial_labels
 
             if np.sum(ind_label) < min_num_of_samples:
                 # Remove emtpy clusters
@@ -247,9 +250,7 @@ class KMeansMotionLearner:
                 logger.info(f"Removed cluster with label {ii}.")
                 # print(f"Removed cluster with label {ii}.")
 
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
+                ind_removed = np.logical_or(ind_removed, ind_label)
 
             elif n_delta_label:
                 # Update labels to have sequence of numbers
@@ -257,6 +258,12 @@ class KMeansMotionLearner:
                     self.kmeans.labels_[ind_label] - n_delta_label
                 )
 
+        if np.any(ind_removed):
+            # Assign the remaining samples once the final clusters are known
+            self.kmeans.labels_[ind_removed] = self.kmeans.predict(
+                self.data.position[ind_removed, :]
+            )
+
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
 
-- 
2.43.0


From 07742339c9a3779829157cea747799c8a272514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 61/65] fix: an attractor in the wall of a hull obstacle is
 given to the closest part

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 9a76d4c..b415055 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -159,7 +159,8 @@ class MultiHullAndObstacle(Obstacle):
             warnings.warn("Attractor is in obstacle-wall.")
 
             self._evaluate_weights(position)
-            ind_max = np.argmin(self.weights)
+            # All weights are zero, the closest part has the largest gamma value
+            ind_max = np.argmax(self.gamma_list)
             if ind_max == self._indices_outer:
                 self._local_outside_attractor = position
                 self._attractor_is_outside = True
-- 
2.43.0


From a8d37312c4b4bcea5609376d500ce22866551e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 62/65] fix: hull motion respects the speed limit and stops at
 the attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index b415055..aa1cb9c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -243,10 +243,12 @@ class MultiHullAndObstacle(Obstacle):
         mean_magnitude = np.sum(mean_magnitude * np.array(weights_))
 
         dir_norm = LA.norm(mean_direction)
-        if not dir_norm and np.min(mean_magnitude):
-            # Direction is zero, but not initial one
-            breakpoint()
-            raise ValueError("Zero direction value obtained.")
+        if not dir_norm:
+            if mean_magnitude:
+                # Direction is zero, but not initial one
+                raise ValueError("Zero direction value obtained.")
+
+            return mean_direction
 
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
@@ -276,6 +278,9 @@ class MultiHullAndObstacle(Obstacle):
         linear_velocity = linear_velocity * scaling
 
         vel_norm = LA.norm(linear_velocity)
+        if not vel_norm:
+            # The (local) attractor is reached
+            return np.zeros(self.dimension)
 
         # Rotational Modulation
         normal = obs.get_normal_direction(position, in_global_frame=True)
@@ -300,7 +305,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
-- 
2.43.0


From 1a160fca5b93095821f65ae5b5f9d24fd832cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 63/65] fix: shortest paths through hulls use the distance to
 each connected target

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index aa1cb9c..b14c950 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -321,7 +321,14 @@ class MultiHullAndObstacle(Obstacle):
 
             path_dist = shortest_path_length(self._graph, source=ii, weight="distance")
             for obs in self.inner_obstacles:
-                distances.append(path_dist[ii] + dist_to_entrance)
+                # Only connected hulls in which the attractor lies are of interest
+                if (
+                    not self._graph.nodes[obs]["contains_attractor"]
+                    or obs not in path_dist
+                ):
+                    continue
+
+                distances.append(path_dist[obs] + dist_to_entrance)
                 entrances.append(ii)
                 targets.append(obs)
 
@@ -352,14 +359,18 @@ class MultiHullAndObstacle(Obstacle):
             # Self check (i.e. obs == obs_source) is not needed, since
             # obs_source has "contains_attractor" == False
 
-            if not self._graph.nodes[obs]["contains_attractor"]:
+            if not self._graph.nodes[obs]["contains_attractor"] or obs not in path_dist:
                 continue
 
-            closest_dist.append(path_dist)
+            closest_dist.append(path_dist[obs])
             closest_elems.append(obs)
 
         if self._attractor_is_outside:
             for ii in range(self._entrance_counter):
+                if ii not in path_dist:
+                    # This entrance is not connected to the source
+                    continue
+
                 dist_attractor = LA.norm(
                     get_property_of_node_edge(self._graph, ii, "intersection")
                     - self._local_outside_attractor
-- 
2.43.0


From b37e10bc88f40b47647b30da9d6564784a04fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 64/65] fix: local attractors are assigned along the actual
 entrance of the path

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index b14c950..9599788 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -397,7 +397,7 @@ class MultiHullAndObstacle(Obstacle):
             # Treat 'int' obstacles differently, since they represent the entrance
             # coming from the same obstacle
             if isinstance(path[ii], int):
-                ind0 = 0
+                ind0 = path[ii]
                 obs = self.outer_obstacle
                 attractor = self._local_outside_attractor
 
@@ -411,7 +411,7 @@ class MultiHullAndObstacle(Obstacle):
                 break
 
             # Set projected connection element
-            ind1 = 0 if isinstance(path[ii + 1], int) else path[ii + 1]
+            ind1 = path[ii + 1]
 
             local_attractor = self._graph.edges[ind0, ind1]["intersection"]
             local_attractor = obs.get_point_on_surface(
-- 
2.43.0


From 721211f213e3a1646885ae252d6e3b8851ff9b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 65/65] fix: entrances are only where the outer obstacle is
 free, too

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 9599788..26da396 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -561,7 +561,9 @@ class MultiHullAndObstacle(Obstacle):
                 factors=[-1, 1],
             )
 
-            if obs_ii.is_inside(position) or obs_ii.is_inside(position):
+            if obs_ii.is_inside(
+                position, in_global_frame=True
+            ) or self.outer_obstacle.is_inside(position, in_global_frame=True):
                 continue
 
             self._graph.add_node(
-- 
2.43.0

