T1 = "The only stable test builds one three-node graph; it never calls this code. The property ranges over all real inputs and dimensions, which sampled tests cannot settle."
VRF = N + "vector_rotation.py"
RAF = N + "avoidance/rotational_avoider.py"
MAF = N + "multi_obstacle_avoider.py"
NRF = N + "nonlinear_rotation_avoider.py"

prop("C01", "Planar vector rotations are isometries with an exact inverse",
     "Rotating a vector by a vector rotation (optionally by a fraction of its angle) turns exactly the component in the rotation plane by that angle and leaves the rest: lengths and inner products are preserved, fractions add up, and the inverse rotation undoes it. Rotating another rotation, or a sequence of rotations, carries their planes along and keeps their angles. No argument is modified.",
     "every vector, orthonormal base, angle, fraction and dimension >= 2", T1, [VRF],
     [("rotate_direction", VRF), ("VectorRotationXd.rotate / inverse_rotate / inv / rotate_vector_rotation / rotate_sequence", VRF), ("rotate_array", VRF)])

prop("C02", "A rotation built from two directions carries the first onto the second",
     "The rotation constructed from two nonzero directions has an orthonormal base that starts with the first direction, and its angle is the angle in [0, pi] between them; applied in full it carries the first direction onto the second (up to a small tolerance when they are nearly parallel or nearly opposite), and a fraction of it turns by that fraction of the angle. It also holds for parallel and exactly opposite directions.",
     "every pair of nonzero vectors, every fraction in [0, 1], every dimension >= 2", T1, [VRF],
     [("VectorRotationXd.from_directions", VRF), ("get_second_vector", VRF)])

prop("C03", "Directional addition of two vectors interpolates magnitude and direction",
     "Adding two vectors directionally with a weight in [0, 1] gives a vector whose magnitude is the linear interpolation of both magnitudes and which is turned away from the first vector by the weight's share of the angle between them. Weight 0 returns the first vector and weight 1 the second (up to a small tolerance when nearly parallel or opposite), also for zero vectors; the arguments are not modified.",
     "every pair of vectors (zero included), every weight in [0, 1], every dimension >= 2", T1, [VRF],
     [("directional_vector_addition", VRF)])

prop("C06", "Slowing down near obstacles never reverses, speeds up or stalls needlessly",
     "The slow-down applied in front of obstacles scales a velocity by a factor in [0, 1]: the direction is never changed or reversed and the speed never exceeds the initial speed. A velocity that moves away from the surface keeps its full speed, and moving straight into a surface at contact stops the motion. The slow-down from converging obstacles is a factor in [0, 1] as well, and is 1 when no obstacle has influence.",
     "every velocity, surface normal, distance value and array of weights", T1, [RAF, MAF],
     [("RotationalAvoider.compute_safe_scaling", RAF), ("compute_safe_magnitude", RAF), ("_limit_magnitude", RAF), ("MultiObstacleAvoider.slowfactor_from_convergence", MAF)])

prop("C07", "Obstacle importance weights form a (sub-)partition of one",
     "The weights that distribute influence over obstacles, obstacle components, hulls, path segments or Gaussian components lie in [0, 1] and sum to at most one (to exactly one where a partition is promised: in contact, or when any element is relevant). Elements in contact share all of the weight and elements further away get none; without contact every obstacle keeps an influence and closer ones do not weigh less. The distances passed in are not modified.",
     "every array of distances of any length, every threshold, power and normalisation option", T1,
     [MAF, NRF, N + "multihull_convergence.py", N + "_base_multiobstacle.py", N + "multi_hull_and_obstacle.py", N + "dynamics/segmented_dynamics.py", N + "gmm_obstacle.py"],
     [("compute_gamma_weights / get_limited_weights_to_max_sum", MAF), ("compute_weights_from_distances, evaluate_occlusion_array, compute_averaged_normal_and_gamma", MAF),
      ("get_weight_gamma_for_hulls", N + "multihull_convergence.py"), ("_evaluate_weights", N + "multi_hull_and_obstacle.py"), ("WavyPathFollowing.get_weights", N + "dynamics/segmented_dynamics.py"),
      ("GmmObstacle.evaluate_gamma_weights", N + "gmm_obstacle.py"), ("SingularityConvergenceDynamics.compute_gamma_weights", NRF)])

prop("C08", "Influence factors are bounded, full at contact and fade with distance",
     "Every factor that scales the influence of an obstacle, a rotation or an occlusion lies between zero and one. It is full when the robot touches the surface (or, for factors that protect the attractor or a hidden component, zero in that case), and it fades monotonically as the distance value grows. The radius around the reference direction that has to be left free never falls below the configured radius and never exceeds full repulsion.",
     "every distance value, direction, threshold and dimension >= 2", T1,
     [NRF, MAF, RAF, N + "multi_hull_and_obstacle.py", N + "dynamics/projected_rotation_dynamics.py", N + "gmm_obstacle.py"],
     [("get_convergence_weight, evaluate_projected_weight", NRF), ("ProjectedRotationDynamics.evaluate_projected_weight", N + "dynamics/projected_rotation_dynamics.py"),
      ("compute_tree_weight, compute_convergence_radiuses, compute_single_occlusion_weight, compute_parent_occlusion_weight", MAF),
      ("get_rotation_weight, get_smooth_continuation_weight, _get_directional_deviation_weight, _get_nonlinear_inverted_weight", RAF),
      ("get_boundary_intersection_weight", N + "multi_hull_and_obstacle.py"), ("GmmObstacle.get_obstacle_occlusion_factor", N + "gmm_obstacle.py")])

prop("C04", "Rotation sequences lead from the first direction to the last",
     "A sequence built from a list of directions has one rotation per step, each starting where the last one ended, and ends at the last direction; zero vectors and steps to exactly opposite directions are rejected. Applying a sequence in full applies all rotations in turn; with partial weights the vector's length is kept, a weight on an inner rotation stops there, and no weight leaves it unchanged. Appending and pushing keep the order. Sequences of dynamics start at the base direction and end at the velocity's.",
     "every list of directions, every rotation and weight, every vector, every dimension >= 2 (sequences of up to 3 rotations enumerated)", T1,
     [VRF, N + "dynamics/sequenced_dynamics.py", N + "dynamics/constant_value.py"],
     [("VectorRotationSequence.create_from_vector_array / create_empty / append_* / push_root_* / get_end_vector / rotate / rotate_weighted", VRF),
      ("evaluate_dynamics_sequence", N + "dynamics/sequenced_dynamics.py"), ("ConstantValueWithSequence", N + "dynamics/constant_value.py")])

prop("C05", "The rotation tree averages directions consistently",
     "A rotation tree combines the directions of its nodes by weight: all weight on one node returns exactly that node's direction, also deep in the tree; nodes at the root are averaged by their weighted rotations, and a successor continues from the average of its level. The mean is a unit vector, equal directions give that direction, and neither the listing order nor earlier evaluations matter. The reduced sequence leads from the root to the mean. Zero directions and duplicate nodes are rejected.",
     "every root, direction, weight distribution and dimension >= 2 (trees of up to 4 nodes enumerated; directions equal to or at least 0.003 off their predecessor's axis)", T1, [VRF],
     [("VectorRotationTree.set_root / add_node / add_sequence / from_sequence / set_direction / get_all_childs_children", VRF),
      ("VectorRotationTree.get_weighted_mean / reduce_weighted_to_sequence / update_partial_rotations / evaluate_graph_summing / rotate / inverse_rotate", VRF)])

prop("C09", "Avoidance directions are tangent to the surface and follow the robot's heading",
     "For an obstacle with outward normal n at the robot and a reference direction r that points into it, the avoidance direction derived from a velocity v is a unit vector at the angle of the convergence radius to the surface (tangent for a radius of a right angle): in the direction space around the normal it lies on the circle, on the ray from the reference direction through v, beyond v; for a round obstacle it lies in the plane of v and n on the side of v. Directions that already lead away from the surface are kept unless a tail effect is asked for. In a tree of connected components, the velocity is carried along from the parent's reference direction to the component's, along the parents from the component up to the root, every component with positive influence gets exactly one branch with its own radius, and its nodes form a chain from the obstacle's node. No argument is modified.",
     "every unit normal, reference and velocity with n.r < -0.001 (velocity not equal or opposite to the reference), radii of a right angle, 135 degrees and 3 rad, every dimension >= 2; component chains of up to 3", T1,
     [RAF, MAF, N + "multi_ellipse_obstacle.py"],
     [("get_projected_tangent_from_vectors, get_tangent_convergence_direction, get_pseudo_tangent, get_intermediate_convergence_direction", RAF),
      ("_simple_tangent_branch_update, _compute_normal_and_reference_of_branch, get_normal_at_distance, simple_population_tangent_tree", MAF),
      ("get_normalized_tangent_component", N + "multi_ellipse_obstacle.py")])

prop("C10", "Avoidance keeps the speed limit, the tangent at contact and free motion",
     "Without obstacles, or when none has an influence, the avoided velocity is the nominal one; where the nominal velocity is zero it stays zero. With obstacles the velocity points, in the frame of the moving obstacle, along the avoidance direction and is never faster than the nominal velocity; leaving an obstacle it has the nominal speed, against a surface in contact it stops. An obstacle in contact takes all the weight, so the direction is its tangent, whatever the others are; the weights of the components of an obstacle share its influence in [0, 1], components in contact take everything, and occluded ones nothing. The convergence direction is the local motion where no obstacle has influence (or the attractor lies inside of it), and the motion at the root of the obstacle where one has full influence, transported along the chain of components. The local avoider evaluates each obstacle with its own distance, normal, reference and convergence direction, with the null direction towards the obstacle, obstacles beyond the cut-off are ignored.",
     "every nominal velocity, position, unit avoidance direction, normal, reference, distance and weight in the contracts' ranges and every dimension >= 2; up to 2 trees, 3 components and 2 tangent branches (callees by contract)", T1,
     [MAF, RAF],
     [("evaluate_sequence, compute_convergence_sequence, compute_tree_weight, vector_rotation_reduction, evaluate_avoidance_from_sequence, compute_gamma_and_weights", MAF),
      ("avoid, avoid_sequence, directional_convergence_summing, compute_obstacle_gamma, compute_normal_tensor", RAF)])

prop("C11", "Distances and collisions of compound obstacles are those of the closest part",
     "The distance value (gamma) of an obstacle made of several components, of a body, an arch, a group of ellipses or a container of obstacle trees is the smallest one among its parts, evaluated at the same position; positions in the obstacle's local frame are first brought to the global one. Without some components it is the smallest one of the others, and an error if none is left. A position is collision free exactly if it is outside (gamma > 1) of every component of every tree; inside a hull obstacle only if it lies in the wall, i.e. inside of the outer body and outside of every hull; in a set of boundaries it is free inside of any of them.",
     "any number of components (unbounded), every position, pose offset and distance value, every dimension >= 2", T1,
     [N + "multi_obstacle.py", N + "multi_obstacle_container.py", N + "arch_obstacle.py", N + "multi_ellipse_obstacle.py", N + "multi_hull_and_obstacle.py", N + "multiboundary_container.py", N + "multi_body_human.py"],
     [("MultiObstacle.get_gamma / is_collision_free / get_gamma_except_components", N + "multi_obstacle.py"), ("MultiObstacleContainer.get_gamma / is_collision_free / is_in_free_space", N + "multi_obstacle_container.py"),
      ("BlockArchObstacle.get_gamma / is_collision_free / get_gamma_except_components", N + "arch_obstacle.py"), ("MultiEllipseObstacle.get_gamma / is_inside", N + "multi_ellipse_obstacle.py"),
      ("MultiHullAndObstacle.is_inside", N + "multi_hull_and_obstacle.py"), ("MultiBoundaryContainer.is_collision_free", N + "multiboundary_container.py"), ("MultiBodyObstacle.get_gamma", N + "multi_body_human.py")])

prop("C12", "Compound obstacles move as one body and stay connected",
     "The parts of a compound obstacle are placed by composing the obstacle's pose with their local poses; whenever the pose is updated all parts follow and the local poses stay as they were, so the relative arrangement never drifts. A deformation scales local positions and axes by the same factor, step after step. Hierarchy queries return the root, the parent given when a part was added, and each part's reference point in its own frame (where it meets its parent, if none is given). Limbs of a body are attached to their parents' joints after every update, the root and the orientations are kept; a tracked limb points from its joint to the tracked position, an untracked one turns with its parent. The velocity of an obstacle at the robot is that of the body in contact: v + w x r, plus its deformation. An arch consists of three connected walls.",
     "every pose, rotation (plane and space), translation in any dimension, joint position, deformation, velocity and distance; up to 4 parts", T1,
     [N + "multi_obstacle.py", N + "arch_obstacle.py", N + "multi_ellipse_obstacle.py", N + "multi_body_human.py", N + "geometry.py", MAF],
     [("MultiObstacle.update_pose / update_deformation / set_root / add_component / get_parent_idx / linear_velocity", N + "multi_obstacle.py"), ("BlockArchObstacle, create_arch_obstacle", N + "arch_obstacle.py"),
      ("MultiEllipseObstacle.set_root / set_parent", N + "multi_ellipse_obstacle.py"), ("get_intersection_of_obstacles", N + "geometry.py"),
      ("MultiBodyObstacle.set_root / add_component / align_obstacle_tree / update_orientation_based_on_position / update_using_optitrack", N + "multi_body_human.py"),
      ("compute_multiobstacle_relative_velocity", MAF)])

prop("C13", "Nominal dynamics lead to their goal at the documented speed",
     "Each of the provided nominal flows keeps its documented speed (reduced only close to the attractor or center, where it stops) and leads to its goal: circular flows turn around their center and approach the limit cycle from inside and outside, spirals move along their axis or end at their attractor, segmented paths are approached and followed, wavy, locally rotated and learned deviations turn the velocity of the underlying linear flow by a limited angle without changing its speed. A flow given with a pose only depends on the position relative to that pose; moving or updating it moves the pattern along. The convergence velocity next to a deviated flow has the limited speed as well.",
     "every position, pose, radius, speed, amplitude, segment and attractor; every dimension where the flow allows it", T1,
     [N + "dynamics/" + f for f in ("circular_dynamics.py", "segmented_dynamics.py", "wavy_attractor_dynamics.py", "spiral_dynamics.py", "locally_rotated_linear_dynamics.py", "nonlinear_deviation.py", "constant_value.py", "deviation_dynamics.py")],
     [("SimpleCircularDynamics / CircularRotationDynamics / DynamicDynamics .evaluate", N + "dynamics/circular_dynamics.py"), ("DynamicsSegment, WavyPathFollowing", N + "dynamics/segmented_dynamics.py"),
      ("WavyLinearDynamics.evaluate", N + "dynamics/wavy_attractor_dynamics.py"), ("SpiralingDynamics3D, SpiralingAttractorDynamics3D", N + "dynamics/spiral_dynamics.py"),
      ("LocallyRotatedFromObtacle.evaluate", N + "dynamics/locally_rotated_linear_dynamics.py"), ("DeviationOfConstantFlow, PerpendicularDeviatoinOfLinearDS", N + "dynamics/nonlinear_deviation.py"),
      ("ObstacleRotatedDynamics.evaluate", N + "dynamics/deviation_dynamics.py")])
prop("C14", "Convergence dynamics around obstacles blend initial and obstacle flow",
     "Next to an obstacle the convergence direction goes from the initial dynamics at the robot (no weight) to the dynamics at the reference point of that obstacle (full weight, reached on the obstacle), carried over by the rotation between the directions to the attractor, and it keeps the speed of the initial dynamics; without a singularity it is the velocity at the reference point. Of several obstacles only those in reach count, the closest decides in contact, and the rotations are combined in proportion to the weights, the rest being left to the initial dynamics. At the attractor and on the opposite side nothing is rotated. The weight of an obstacle is positive, at most one, one in contact, and falls with the distance to the obstacle and to its projection. The projection shrinks the obstacle to its reference point radially, folds the space around the attractor, and can be undone.",
     "every position, initial velocity, attractor, obstacle distance, weight; up to three obstacles at once; every dimension (folding: the plane)", T1,
     [N + "nonlinear_rotation_avoider.py", N + "dynamics/projected_rotation_dynamics.py", N + "dynamics/sequenced_dynamics.py"],
     [("SingularityConvergenceDynamics.evaluate / evaluate_weighted_dynamics / evaluate_weighted_dynamics_sequence", N + "nonlinear_rotation_avoider.py"),
      ("ConvergenceDynamicsWithoutSingularity", N + "nonlinear_rotation_avoider.py"),
      ("ProjectedRotationDynamics.evaluate_convergence_around_obstacle / evaluate_projected_weight / get_projected_position", N + "dynamics/projected_rotation_dynamics.py"),
      ("evaluate_dynamics_sequence", N + "dynamics/sequenced_dynamics.py")])
prop("C15", "Hierarchies stay consistent and containers keep their data aligned",
     "In every hierarchy (linked graph elements, graphs of values, walls of a multi-boundary container) an element is listed among the children of exactly its parent, once and in the order of attachment, after any sequence of adding, attaching, moving to another parent and removing; elements are told apart by identity even when their values are equal. Roots are the elements without parent, node 0 is as good a parent as any other, levels and the descending listing name every node once by its depth, an unknown parent is rejected without leaving traces, and lists given by the user are not changed. Containers keep the data they store per obstacle (convergence dynamics, parents, children, intersections) aligned with the obstacles when these are appended, replaced or deleted, and report the dynamics, intersections and boundary flags of the obstacle asked for. The convergence dynamics chosen for an obstacle follow the flow at its center relative to the attractor.",
     "every forest of up to four nodes built in two ways, followed by every single operation (enumerated by the verifier on the real code); any positions, flows and dimension", T1,
     [N + "graph_handler.py", N + "rotation_container.py", N + "multiboundary_container.py", N + "multi_obstacle_container.py"],
     [("GraphElement, BasicGraphHandler, GraphHandler", N + "graph_handler.py"), ("RotationContainer.append / __delitem__ / __setitem__ / set_convergence_directions / get_convergence_direction", N + "rotation_container.py"),
      ("MultiBoundaryContainer.append / extend_graph / __delitem__ / get_level_numbers / get_root / update_intersection_graph / get_convergence_boundary_point", N + "multiboundary_container.py"),
      ("MultiObstacleContainer.append / get_tree / __iter__", N + "multi_obstacle_container.py")])
prop("C16", "Regions of clusters and the sequence in which they are passed",
     "The region of a cluster is the ball around its center, cut by the planes midway to exactly those neighbours that are closer than twice the radius. From the center, the point on the surface is the first one on the ray that lies on the ball or on a plane. The distance value gamma is above one exactly inside of the region (the maximum at the center) and below one outside, in local and in global coordinates; the border to the single successor can be passed freely where it is the one exceeded most, elsewhere the value is the same as without a successor. Normals are unit vectors that point inwards: to the center at the ball, against the border's normal at a border, in between in proportion to the distances. Positions given are not changed. Clusters form one chain to the attractor in the (mean) order of the demonstration; clusters with too few samples are removed and all samples keep or get a label of a remaining cluster; the flow of a predecessor is only blended in close to the common border, with weights that sum to one; outside of all regions and far from them the outside dynamics apply.",
     "every position, radius, direction and distance of neighbours, every dimension >= 2; up to three clusters (labels of five samples enumerated)", T1,
     [N + "kmeans_learner/kmeans_obstacle.py", N + "kmeans_learner/kmeans_motion_learner.py"],
     [("KMeansObstacle.__init__ / get_point_on_surface / get_gamma / is_inside / get_normal_direction", N + "kmeans_learner/kmeans_obstacle.py"),
      ("KMeansMotionLearner._fit_cluster_hierarchy / _fit_remove_sparse_clusters / _fit_region_radius / _predict_sequence_weights / predict", N + "kmeans_learner/kmeans_motion_learner.py")])
prop("C17", "Motion through hulls leads to the attractor on the shortest route",
     "An obstacle made of overlapping hulls (which can be entered) knows exactly the parts in which the attractor is free; an attractor in the wall is given to the closest part, and attractors of earlier calls are forgotten. Two hulls are connected, and a hull has an entrance, only where both parts are free. A hull without the attractor leads to the border point towards the next part of the shortest of all connected routes to a part with the attractor (counting the remaining way outside of an entrance); a position outside leads to the entrance with the shortest total way to a hull with the attractor. Every part on the route gets its own border point, parts already known are kept, and unconnected parts are never chosen. Inside of a part the motion leads straight to its local attractor far from the wall, along the wall at contact and in between it is turned in proportion to the inverse of gamma; its speed is the distance to the local attractor up to the limit, and zero when reached. The motion of the obstacle is the weighted mean (direction and speed) of those of its parts, each asked with its own distance and an up-to-date local attractor; parts without weight are not asked. A container averages its obstacles and passes a new attractor on once.",
     "every position, distance, length, direction and dimension; up to three hulls (six arrangements); the turn between wall and center at gamma 1 and 2", T1,
     [N + "multi_hull_and_obstacle.py"],
     [("MultiHullAndObstacle.set_attractor / get_attractor / evaluate_hirarchy_and_reference_points / update_shortest_attractor_path / update_shortest_attractor_path_starting_from_outside / _assign_local_attractors_along_path / _get_local_dynamics / evaluate", N + "multi_hull_and_obstacle.py"),
      ("MultiRotationalContainer.set_dynamics / set_attractor / evaluate", N + "multi_hull_and_obstacle.py")])
