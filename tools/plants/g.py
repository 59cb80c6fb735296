from plant import bug
D = "dynamics/"

bug("c13-deviation-per-axis", "C13", D + "nonlinear_deviation.py",
    [("""        if (dev_norm := LA.norm(deviation)) > self.maximal_deviation:
            deviation = deviation / dev_norm * self.maximal_deviation
        return deviation
""", """        return np.clip(deviation, -self.maximal_deviation, self.maximal_deviation)
""")],
    "a flow in at least three dimensions whose regressor predicts large deviations about two axes", "the deviation is limited per axis, so that the combined angle exceeds a right angle and the flow moves backwards", '''
    from nonlinear_avoidance.dynamics.nonlinear_deviation import DeviationOfConstantFlow, ConstantRegressor
    v = np.array([1.0, 0.0, 0.0])
    for a in ([1.5, 1.5], [-1.5, 1.5], [1.0, 3.0], [0.2, 0.1]):
        ds = DeviationOfConstantFlow(v, ConstantRegressor(np.array(a)))
        assert ds.evaluate(np.ones(3)) @ v > 0, (a, ds.evaluate(np.ones(3)))
    ''')

bug("c13-segment-unit-length", "C13", D + "segmented_dynamics.py",
    [("""        tt = min(self.length, max(tt, 0))
""", """        tt = self.length * min(1, max(tt, 0))
""")],
    "a position inside of the strip of a segment whose length is not one", "the coordinate along the segment (a length) is treated as a fraction", '''
    from nonlinear_avoidance.dynamics.segmented_dynamics import DynamicsSegment
    s = DynamicsSegment(np.array([0.0, 0.0]), np.array([4.0, 0.0]))
    assert np.isclose(s.get_distance(np.array([2.0, 1.0])), 1.0)
    assert np.isclose(s.get_distance(np.array([5.0, 0.0])), 1.0)
    ''')

bug("c13-base-overshoots", "C13", D + "circular_dynamics.py",
    [("""            weight = (self.decent_factor * self.influence_radius - dist_center) / (
                ((self.decent_factor - 1) * self.influence_radius)
            )
""", """            weight = (max_radius - dist_center) / (max_radius / self.decent_factor)
""")],
    "a decent factor different from two and a position between the influence radius and its multiple", "the speed of the base jumps at the influence radius and may exceed the speed of its dynamics", '''
    from vartools.states import Pose
    from nonlinear_avoidance.dynamics.circular_dynamics import DynamicDynamics
    class Main: pose = Pose(np.zeros(2), 0.0)
    class Base:
        def evaluate(self, p): return np.array([1.0, 0.0])
    m = Main()
    d = DynamicDynamics(m, Base(), influence_radius=1.0, frequency=1.0); d.decent_factor = 3.0
    d.update_base(np.array([0.0, 1.0 + 1e-9]))
    assert np.allclose(m.pose.position, [1.0, 0.0], atol=1e-6), m.pose.position
    ''')

bug("c13-spiral-speed-of-the-parts", "C13", D + "spiral_dynamics.py",
    [("""        velocity_to_attractor = self.pose.position - position
        base_vel_norm = np.linalg.norm(velocity_to_attractor)
        if base_vel_norm > self.speed:
            velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
""", """        velocity_to_attractor = self.pose.position - position
        base_vel_norm = np.linalg.norm(velocity_to_attractor)
        if base_vel_norm > self.speed:
            velocity_to_attractor = velocity_to_attractor / self.speed
""")],
    "a spiral with a speed other than one, far from its attractor", "the pull towards the attractor grows with the distance, so that the flow does not spiral any more", '''
    from vartools.states import Pose
    from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
    from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingAttractorDynamics3D
    c = SimpleCircularDynamics(pose=Pose.create_trivial(2))
    d = SpiralingAttractorDynamics3D(Pose(np.zeros(3), None), np.array([0, 1.0, 0]), c, 0.5)
    p = np.array([1.0, 40.0, 0.0])
    v = d.evaluate(p)
    r = np.array([0.0, 0.0, 1.0]) * 1.0; a = -p / np.linalg.norm(p) * 0.5
    w = (r + a) / np.linalg.norm(r + a) * 0.5
    assert np.allclose(v, w, atol=1e-6), (v, w)
    ''')

bug("c13-opposing-obstacle-flow", "C13", D + "deviation_dynamics.py",
    [("""        weight = min(base0_norm, base1_norm) / self.velocity_scaling
""", """        weight = base1_norm / self.velocity_scaling
""")],
    "an obstacle close to the attractor of the linear dynamics", "obstacles next to the attractor turn the flow by the full angle, the influence does not vanish with the linear velocity", '''
    from nonlinear_avoidance.dynamics.deviation_dynamics import ObstacleRotatedDynamics
    class Obs:
        def __init__(self, c): self.center_position = np.array(c)
        def get_gamma(self, p, in_global_frame=True): return 1.0
    class Env(list): dimension = 2
    class Flow:
        def evaluate(self, p): return np.array([0.0, 1.0])
    d = ObstacleRotatedDynamics(Env([Obs([0.05, 0.0])]), Flow())
    v = d.evaluate(np.array([1.0, 0.0]))
    assert abs(np.arctan2(v[1], -v[0])) < 0.2, v
    ''')
