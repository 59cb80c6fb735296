from plant import bug
RA = "avoidance/rotational_avoider.py"; MA = "multi_obstacle_avoider.py"

bug("c10-occluded-influence", "C10", MA,
    [("tree_influence_weights[ii_tree] = np.sum(obstacle_weights)", "tree_influence_weights[ii_tree] = np.sum(gamma_weights)")],
    "a tree whose components are partly occluded while others are not", "an occluded component still adds to the influence of its tree", '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider, NodeKey
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence
    class Dyn:
        dimension = 2
    class T:
        pass
    class Av(MultiObstacleAvoider):
        def compute_gamma_and_weights(self, position, obstacle, base_velocity):
            return np.array([2.0, 2.0]), np.array([0.4, 0.4])
        def compute_parent_occlusion_weight(self, position, tree):
            return np.array([1.0, 0.0])
        def simple_population_tangent_tree(self, obstacle, base_velocity, position, obs_idx, obstacle_weights, start_id, gamma_values=None):
            self._tangent_tree.add_node(node_id=NodeKey(obs_idx, 0, 0), parent_id=start_id, direction=np.array([0.0, 1.0]))
            self._normal_vectors.append(np.array([-1.0, 0.0]))
            return [NodeKey(obs_idx, 0, 0)]
    av = Av(initial_dynamics=Dyn(), obstacle_container=[T()])
    v = np.array([1.0, 0.0])
    seq = VectorRotationSequence.create_from_vector_array(np.vstack((v, v)).T)
    av.evaluate_avoidance_from_sequence(np.zeros(2), seq)
    assert np.isclose(np.sum(av._cluster_weights), 0.4), av._cluster_weights
    ''')

bug("c10-absolute-speed", "C10", RA,
    [("                initial_magintude=LA.norm(initial_velocity),", "                initial_magintude=norm_initial,")],
    "a moving obstacle", "the avoided velocity has the nominal speed in the obstacle's frame instead of the relative one, so the robot is accelerated next to an obstacle that moves along", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider
    class Dyn:
        dimension = 2
        def evaluate(self, x): return np.array([1.0, 0.2])
    class Obs:
        is_boundary = False
        linear_velocity = np.array([0.9, 0.0]); angular_velocity = None
        def get_gamma(self, x, in_global_frame=True): return np.linalg.norm(x)
        def get_normal_direction(self, x, in_global_frame=True): return x / np.linalg.norm(x)
        def get_reference_direction(self, x, in_global_frame=True): return -x / np.linalg.norm(x)
    a = RotationalAvoider(initial_dynamics=Dyn(), obstacle_environment=[Obs()], convergence_system=Dyn())
    for p in ([-1.2, 0.1], [0.3, 1.4], [1.5, 0.2], [2, -3]):
        v = a.avoid(np.array(p))
        assert np.linalg.norm(v - Obs.linear_velocity) <= np.linalg.norm(Dyn().evaluate(p) - Obs.linear_velocity) + 1e-9, v
    ''')

bug("c10-boundary-null", "C10", RA,
    [("                reference_vector = (-1) * reference_vector\n                base = normal_orthogonal_matrix[:, :, ii]\n",
      "                base = normal_orthogonal_matrix[:, :, ii]\n")],
    "a boundary (hull) among the obstacles of a sequence", "the reference direction of a boundary is not turned towards the wall when a rotation sequence is avoided", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence
    class Wall:
        is_boundary = True
        def get_gamma(self, x, in_global_frame=True): return 2.0 / np.linalg.norm(x)
        def get_normal_direction(self, x, in_global_frame=True): return x / np.linalg.norm(x)
        def get_reference_direction(self, x, in_global_frame=True): return -x / np.linalg.norm(x)
    class Env(list):
        n_obstacles = 1
    seen = []
    class Av(RotationalAvoider):
        def get_pseudo_tangent(self, vector_convergence, vector_reference, base):
            seen.append((vector_reference, base[:, 0]))
            return super().get_pseudo_tangent(vector_convergence, vector_reference, base)
    class Dyn:
        dimension = 2
    a = Av(initial_dynamics=Dyn(), obstacle_environment=Env([Wall()]))
    v = np.array([0.8, 0.6])
    seq = VectorRotationSequence.create_from_vector_array(np.vstack((v, v)).T)
    a.avoid_sequence(np.array([1.9, 0.1]), seq, seq)
    assert len(seen) == 1
    for r, n in seen:
        assert r @ n > 0, (r, n)
    ''')

bug("c10-chain-position", "C10", MA,
    [("                    # Update direction points & id\n                    pred_id = node_id\n                    pred_point = obs_point\n",
      "                    # Update direction points & id\n                    pred_id = node_id\n                    pred_point = position\n")],
    "an obstacle with a component below the root", "every step along the chain of components is measured from the robot instead of from the previous component", '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.vector_rotation import VectorRotationXd, VectorRotationSequence
    x = np.array([-4.0, 0.5])
    pts = [np.array([1.0, 1.0]), np.array([-1.0, 2.0])]
    vel = lambda p: -p / np.linalg.norm(p)
    class Dyn:
        dimension = 2
        attractor_position = np.zeros(2)
        def evaluate(self, p): return vel(p)
    class C:
        def __init__(self, p): self.global_reference_point = p
        def get_reference_point(self, in_global_frame=True): return self.global_reference_point
    comps = [C(p) for p in pts]
    class Tree:
        root_idx = 0
        def get_root(self): return comps[0]
        def get_component(self, i): return comps[i]
        def get_parent_idx(self, i): return None if i == 0 else 0
        def get_gamma(self, p, in_global_frame=True): return 5.0
        def __iter__(self): return iter(comps)
    asked = []
    class Conv:
        def evaluate_projected_weight(self, p, o): return 0.0 if o is comps[0] else 0.7
        def evaluate_rotation_position_to_transform(self, p, o): return VectorRotationXd.from_directions(vel(p), vel(o.global_reference_point))
        def evaluate_rotation_start_to_end(self, a, b, center=None):
            asked.append((a, b))
            return VectorRotationXd.from_directions(vel(a), vel(b))
    av = MultiObstacleAvoider(initial_dynamics=Dyn(), obstacle_container=[Tree()], convergence_dynamics=Conv())
    v = vel(x)
    seq = VectorRotationSequence.create_from_vector_array(np.vstack((v, v)).T)
    av.compute_convergence_sequence(x, seq)
    want = [(x, pts[1]), (pts[1], pts[0])]
    assert len(asked) == 2 and all(np.allclose(a, c) and np.allclose(b, d) for (a, b), (c, d) in zip(asked, want)), asked
    ''')
