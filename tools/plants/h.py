from plant import bug
P = "dynamics/projected_rotation_dynamics.py"
R = "nonlinear_rotation_avoider.py"

SETUP = '''
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence
    class Flow:
        def __init__(self, f, attractor): self.f, self.attractor_position, self.dimension = f, attractor, 2
        def evaluate(self, x): return self.f(x)
    def turn(v, a): return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]) @ v
    class Obs:
        def __init__(self, ref, gamma=3.0): self.global_reference_point, self.gamma = np.array(ref), gamma
        def get_reference_point(self, in_global_frame=False): return self.global_reference_point
        def get_gamma(self, x, in_global_frame=False, **k): return self.gamma
'''

bug("c14-back-rotation-full", "C14", P,
    [("averaged_direction_transformed, rot_factor=(-1) * (1 - weight)", "averaged_direction_transformed, rot_factor=(-1)")],
    "an obstacle with a weight above zero that lies in another direction from the attractor than the robot", "the convergence is rotated back completely whatever the weight, so that it is not the dynamics at the obstacle in contact", SETUP + '''
    ds = ProjectedRotationDynamics(np.zeros(2), initial_dynamics=Flow(lambda x: turn(-x, 0.3), np.zeros(2)))
    ds.evaluate_projected_weight = lambda p, o: 1.0
    v = ds.evaluate_convergence_around_obstacle(np.array([0.0, 3.0]), Obs([2.0, 0.0]))
    assert np.allclose(v / np.linalg.norm(v), turn(np.array([-1.0, 0.0]), 0.3)), v
    ''')

bug("c14-rotation-to-position", "C14", P,
    [("""        dir_attr_to_obs = self.attractor_position - obstacle.global_reference_point
        if not (obs_norm := LA.norm(dir_attr_to_obs)):
            raise NotImplementedError("Obstacle is at attractor.")
        dir_attr_to_obs = dir_attr_to_obs / obs_norm

        if np.dot(dir_attr_to_pos, dir_attr_to_obs) <= -1:
            return None

        rotation_pos_to_transform = VectorRotationXd.from_directions(
            dir_attr_to_pos, dir_attr_to_obs
        )
        return rotation_pos_to_transform

    def compute_obstacle_convergence_sequence""", """        dir_attr_to_obs = self.attractor_position - obstacle.global_reference_point
        if not (obs_norm := LA.norm(dir_attr_to_obs)):
            raise NotImplementedError("Obstacle is at attractor.")
        dir_attr_to_obs = dir_attr_to_obs / obs_norm

        # Behind the attractor there is no weight
        if np.dot(dir_attr_to_pos, dir_attr_to_obs) <= 0:
            return None

        rotation_pos_to_transform = VectorRotationXd.from_directions(
            dir_attr_to_pos, dir_attr_to_obs
        )
        return rotation_pos_to_transform

    def compute_obstacle_convergence_sequence""")],
    "an obstacle that is more than 90 degrees away seen from the attractor", "the obstacle is ignored for the whole half plane instead of on the opposite ray only", SETUP + '''
    ds = ProjectedRotationDynamics(np.zeros(2), initial_dynamics=Flow(lambda x: -x, np.zeros(2)))
    for a in (0.5, 1.2, 2.0, 3.0):
        r = ds.evaluate_rotation_position_to_transform(np.array([2.0, 0.0]), Obs(turn(np.array([1.0, 0.0]), a)))
        assert r is not None and np.allclose(r.rotate(np.array([-1.0, 0.0])), -turn(np.array([1.0, 0.0]), a)), a
    ''')

bug("c14-deflates-attractor-with-own-weight", "C14", P,
    [("        if pos_norm < radius:\n            # TODO: we could keep partial position (?)\n", "        if pos_norm < radius * deflation_weight:\n            # TODO: we could keep partial position (?)\n")],
    "a partial deflation of a position inside of the obstacle", "positions inside of the obstacle are no longer mapped to its reference point", '''
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    class Obs:
        global_reference_point = np.array([1.0, 2.0])
        def get_local_radius(self, p, in_global_frame=False): return 1.0
    ds = ProjectedRotationDynamics(np.zeros(2), initial_dynamics=object(), obstacle=Obs())
    for w in (1.0, 0.5):
        p = ds._get_position_after_deflating_obstacle(np.array([1.0, 2.8]), in_obstacle_frame=False, deflation_weight=w)
        assert np.allclose(p, [1.0, 2.0]), (w, p)
    ''')

bug("c14-weight-of-the-closer-gamma", "C14", P,
    [("        weight = (1.0 / ((proj_gamma - 1) * (gamma - 1) + 1)) ** weight_power\n", "        weight = (1.0 / ((proj_gamma - 1) * (gamma - 1))) ** weight_power\n")],
    "a position near the obstacle whose projection is near it too, or a product of distances close to one", "the weight reaches one before contact and no longer falls with the distance close to the obstacle", SETUP + '''
    ds = ProjectedRotationDynamics(np.zeros(2), initial_dynamics=Flow(lambda x: -x, np.zeros(2)))
    ds.get_projected_position = lambda p: p
    w = [ds.evaluate_projected_weight(np.array([1.0, 2.0]), Obs([0.0, 0.0], g)) for g in (1.0, 1.3, 1.6, 2.0, 4.0)]
    assert w[0] == 1 and all(a > b for a, b in zip(w, w[1:])), w
    ''')

bug("c14-sequence-weights-shared-early", "C14", R,
    [("        if (weight_sum := np.sum(node_weights)) >= 1:\n", "        if (weight_sum := np.sum(node_weights)) >= 1 or len(node_list) > 1:\n")],
    "two obstacles with weights above zero whose sum is below one", "far from both obstacles the convergence does not consider the initial dynamics any more", SETUP + '''
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    step = lambda a, b: VectorRotationSequence.create_from_vector_array(np.array([a, b]).T)
    x = np.array([1.0, 0.0])
    class Conv:
        def evaluate_projected_weight(self, p, o): return 0.1
        def evaluate_convergence_sequence_around_obstacle(self, p, obstacle, initial_sequence): return step(x, turn(x, 1.0))
    class Inner: obstacle_environment = [Obs([2.0, 0.0]), Obs([3.0, 0.0])]
    av = SingularityConvergenceDynamics.__new__(SingularityConvergenceDynamics)
    av._rotation_avoider, av.obstacle_convergence = Inner(), Conv()
    v = av.evaluate_weighted_dynamics_sequence(np.zeros(2), step(x, turn(x, 0.1))).get_end_vector()
    assert np.allclose(v, turn(x, 0.28)), v
    ''')

bug("c14-unreachable-obstacles", "C14", R,
    [("            ind_obs = gamma_array < self._rotation_avoider.cut_off_gamma\n", "            ind_obs = gamma_array <= np.min(gamma_array) * 2\n")],
    "a single obstacle (or a few) beyond the cut-off distance", "the convergence is the one around an obstacle far out of reach", SETUP + '''
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    class Conv:
        def evaluate_convergence_around_obstacle(self, p, obstacle): return np.array([0.0, 1.0])
    class Inner:
        obstacle_environment = [Obs([2.0, 0.0], 15.0)]
        cut_off_gamma = 10
        initial_dynamics = Flow(lambda x: -x, np.zeros(2))
    av = SingularityConvergenceDynamics.__new__(SingularityConvergenceDynamics)
    av._rotation_avoider, av.obstacle_convergence = Inner(), Conv()
    u = np.array([1.0, 0.0])
    assert np.allclose(av.evaluate_weighted_dynamics(np.zeros(2), u), u)
    Inner.obstacle_environment[0].gamma = 3.0
    assert np.allclose(av.evaluate_weighted_dynamics(np.zeros(2), u), [0.0, 1.0])
    ''')
