from plant import bug
VR = "vector_rotation.py"; RA = "avoidance/rotational_avoider.py"; MA = "multi_obstacle_avoider.py"; NR = "nonlinear_rotation_avoider.py"

bug("c01-sequence-planes-mixed", "C01", VR,
    [("        sequence.basis_array = base_rotated.reshape(self.dimension, -1, 2)\n",
      "        sequence.basis_array = base_rotated.reshape(self.dimension, 2, -1).swapaxes(1, 2)\n")],
    "a sequence of at least two rotations", "rotate_sequence permutes the vectors of the planes of a longer sequence", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd, VectorRotationSequence
    seq = VectorRotationSequence.create_from_vector_array(np.array([[1., 0, 0.2], [0, 1, 0.5], [0.3, 0.1, 1]]).T)
    rot = VectorRotationXd.from_directions(np.array([1., 0.4, 0]), np.array([0, 1., 0.3]))
    out = rot.rotate_sequence(seq)
    for i in range(2):
        for k in range(2):
            assert np.allclose(out.basis_array[:, i, k], rot.rotate(seq.basis_array[:, i, k])), "planes are not carried along"
    ''')

bug("c01-outside-plane", "C01", VR,
    [("    out_direction += direction - np.sum(dot_prods * base, axis=1)\n",
      "    if dot_prods.any():\n        out_direction += direction - np.sum(dot_prods * base, axis=1)\n")],
    "a vector exactly orthogonal to the rotation plane (three dimensions or more)", "rotate_direction maps a vector orthogonal to the plane to zero", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd
    rot = VectorRotationXd.from_directions(np.array([1., 0, 0]), np.array([0, 1., 0]))
    v = np.array([0, 0, 2.0])
    assert np.allclose(rot.rotate(v), v), rot.rotate(v)
    ''')

bug("c01-inverse-negative-angle", "C01", VR,
    [("            direction=direction,\n            rotation_angle=(-1) * self.rotation_angle,",
      "            direction=direction,\n            rotation_angle=(-1) * abs(self.rotation_angle),")],
    "a rotation with a negative angle (e.g. one obtained with inv())", "inverse_rotate turns in the wrong sense for a negative angle", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd
    rot = VectorRotationXd.from_directions(np.array([1., 0]), np.array([1., 1.])).inv()
    v = np.array([0.3, 2.0])
    assert np.allclose(rot.inverse_rotate(rot.rotate(v)), v)
    ''')

bug("c02-parallel-axis", "C02", VR,
    [("            if not LA.norm(vec_init[:2]):\n                vec_perp[0] = 1\n            else:\n                vec_perp[0] = vec_init[1]\n                vec_perp[1] = vec_init[0] * (-1)\n                vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])\n        else:",
      "            if not vec_init[1]:\n                vec_perp[0] = 1\n            else:\n                vec_perp[0] = vec_init[1]\n                vec_perp[1] = vec_init[0] * (-1)\n                vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])\n        else:")],
    "two parallel directions whose second coordinate is exactly zero", "the base of the rotation is degenerate for parallel directions along the first axis", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd
    for s in (2.0, -3.0):
        rot = VectorRotationXd.from_directions(np.array([1., 0, 0.5]), s * np.array([1., 0, 0.5]))
        assert np.allclose(rot.base.T @ rot.base, np.eye(2)), rot.base
    ''')

bug("c02-obtuse-angle", "C02", VR,
    [("        angle = np.arccos(min(max(dot_prod, -1), 1))\n",
      "        angle = np.arccos(min(max(dot_prod, -1), 1))\n        if np.allclose(vec_perp, vec_rot):\n            angle = LA.norm(vec_rot - vec_init)\n")],
    "two exactly perpendicular directions", "the rotation angle is the chord instead of the angle for perpendicular directions", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd
    rot = VectorRotationXd.from_directions(np.array([1., 0, 0]), np.array([0., 0, 2.0]))
    assert abs(rot.rotation_angle - math.pi / 2) < 1e-6, rot.rotation_angle
    ''')

bug("c03-zero-first-vector", "C03", VR,
    [("        return vector2 * weight\n", "        return vector2\n")],
    "the first vector is zero and the weight is below one", "the magnitude is not interpolated when the first vector is zero", '''
    from nonlinear_avoidance.vector_rotation import directional_vector_addition
    out = directional_vector_addition(np.zeros(2), np.array([2., 0]), 0.25)
    assert np.allclose(out, [0.5, 0]), out
    ''')

bug("c03-mutates-argument", "C03", VR,
    [("    vector1 = vector1 / norm1\n    vector2 = vector2 / norm2\n\n    vector = VectorRotationXd",
      "    vector1 = vector1 / norm1\n    vector2 /= norm2\n\n    vector = VectorRotationXd")],
    "the caller uses the second vector again after the call", "the second argument is normalised in place", '''
    from nonlinear_avoidance.vector_rotation import directional_vector_addition
    a, b = np.array([1., 0]), np.array([0., 3])
    first = directional_vector_addition(a, b, 0.5)
    assert np.allclose(first, directional_vector_addition(a, b, 0.5)), b
    ''')

bug("c06-limit-largest-dot", "C06", RA,
    [("            if dot_prod < min_dot_prod:\n", "            if abs(dot_prod) > abs(min_dot_prod):\n")],
    "several obstacles, one of which the velocity leaves", "_limit_magnitude speeds the robot up when it moves away from an obstacle", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider as R
    v = np.array([1., 0])
    n = np.array([[-0.1, 1.0], [0.995, 0.0]])
    out = R._limit_magnitude(v, 1.0, np.array([1.5, 1.5]), n, np.array([0.5, 0.5]))
    assert np.linalg.norm(out) <= 1 + 1e-6, out
    ''')

bug("c06-contact-averaged", "C06", RA,
    [("        elif gamma <= 1.0:\n            if dot_product < (-1e-3):\n                return 0.0\n            return 1.0\n",
      "        elif gamma < 1.0:\n            if dot_product < (-1e-3):\n                return 0.0\n            return 1.0\n        elif gamma == 1.0:\n            return 1.0\n")],
    "the robot is exactly at the surface (gamma == 1) and moves into it", "compute_safe_scaling keeps the full speed into the surface at contact", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider as R
    s = R.compute_safe_scaling(np.array([-1., 0]), np.array([1., 0]), 1.0)
    assert s == 0, s
    ''')

bug("c06-convergence-min", "C06", MA,
    [("        return min(np.min(scaling), 1)\n", "        return np.min(scaling)\n"),
     ("        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)\n", "        ind_pos = np.logical_or(rot_weight >= 1.0, 0.0 < conv_prox)\n        rot_weight = np.maximum(rot_weight, 1e-6)\n")],
    "every obstacle has influence and small proximity, or a negative proximity at full weight", "the convergence slow-down exceeds one and speeds the robot up", '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider as M
    m = M.__new__(M)
    for w, c in (([0.2], [0.1]), ([1.0], [-1.0])):
        m._rotation_weights, m._convergence_reference_proximity = w, c
        s = m.slowfactor_from_convergence()
        assert 0 <= s <= 1, s
    ''')

bug("c07-contact-normalisation", "C07", MA,
    [("        if np.sum(critical_points) >= 2:\n", "        if np.sum(critical_points) > 2:\n")],
    "exactly two obstacles in contact", "the weights of two touching obstacles sum to two", '''
    from nonlinear_avoidance.multi_obstacle_avoider import compute_gamma_weights
    w = compute_gamma_weights(np.array([0.9, 1.0, 3.0]))
    assert abs(np.sum(w) - 1) < 1e-9, w
    ''')

bug("c07-distances-in-place", "C07", MA,
    [("    distances = np.array(distances)\n    n_points = distances.shape[0]\n", "    distances = np.asarray(distances)\n    n_points = distances.shape[0]\n"),
     ("    distances = distances - min_distance\n    weights = (1.0 / distances)", "    distances -= min_distance\n    weights = (1.0 / distances)")],
    "the distances are passed as a float array and used again", "compute_gamma_weights shifts the caller's distances", '''
    from nonlinear_avoidance.multi_obstacle_avoider import compute_gamma_weights
    d = np.array([2.0, 3.0])
    compute_gamma_weights(d)
    assert np.allclose(d, [2, 3]), d
    ''')

bug("c07-segment-last", "C07", "dynamics/segmented_dynamics.py",
    [("            weights = weights / np.sum(weights)\n            return np.append(weights, 0)\n\n    def evaluate_dynamics_sequence",
      "            return np.append(weights / max(weight_sum, self.n_segments), 0)\n\n    def evaluate_dynamics_sequence")],
    "several segments whose raw weights sum to a value between 1 and the number of segments", "segment weights do not sum to one near the path", '''
    from nonlinear_avoidance.dynamics.segmented_dynamics import WavyPathFollowing
    class Seg:
        def __init__(s, d): s.d = d; s.direction = np.array([1., 0])
        def get_distance(s, p): return s.d
    w = WavyPathFollowing.__new__(WavyPathFollowing)
    w.segments = [Seg(3.0), Seg(5.0)]
    type(w).n_segments = property(lambda s: 2)
    w.evaluate_global_dynamics = lambda p: np.array([1., 0])
    out = w.get_weights(np.zeros(2))
    assert abs(np.sum(out) - 1) < 1e-9, out
    ''')

bug("c08-tree-weight-limit", "C08", MA,
    [("        return (tree_gamma - 1.0) / (gamma_decreasing_influence - 1.0)\n", "        return tree_gamma / gamma_decreasing_influence\n")],
    "the attractor lies just outside of the obstacle", "the weight of an obstacle that (nearly) contains the attractor does not fade to zero", '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider as M
    m = M.__new__(M)
    class D: attractor_position = np.zeros(2)
    class O:
        def get_gamma(s, p, in_global_frame=False): return 1.5
    m.initial_dynamics = D()
    w = m.compute_tree_weight(O(), 3.0)
    assert abs(w - 0.25) < 1e-9, w
    ''')

bug("c08-repulsion-center", "C08", MA,
    [("            inside_gamma = np.linalg.norm(position - center) / np.linalg.norm(\n                surface_point - center\n            )\n            if inside_gamma",
      "            inside_gamma = np.linalg.norm(position - center) / np.linalg.norm(\n                surface_point - position\n            )\n            if inside_gamma")],
    "the robot penetrates an obstacle and a repulsion limit is set", "the convergence radius drops below the configured one inside an obstacle", '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider as M
    m = M.__new__(M); m.convergence_radius = math.pi / 2; m.gamma_maximum_repulsion = 0.5
    class C:
        center_position = np.zeros(2)
        def get_intersection_with_surface(s, c, d, in_global_frame=True): return 2 * d / np.linalg.norm(d)
    class T:
        def get_component(s, i): return C()
    r = m.compute_convergence_radiuses([0.9], np.array([1.8, 0]), T())
    assert math.pi / 2 - 1e-9 <= r[0] <= math.pi, r
    ''')

bug("c08-inverted-weight", "C08", RA,
    [("        return weight * delta_nonl / (delta_nonl + delta_conv)\n", "        return weight * delta_nonl / max(delta_nonl, delta_conv)\n")],
    "both directions lie outside of the radius", "the modified weight does not share between both directions", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider as R
    w = R._get_nonlinear_inverted_weight(2.0, 2.5, 1.5, 0.8)
    assert abs(w - 0.8 * 1.0 / 1.5) < 1e-9, w
    ''')
