from plant import bug
RA = "avoidance/rotational_avoider.py"; MA = "multi_obstacle_avoider.py"

OBS = '''
    class Comp:
        """a round component"""
        is_boundary = False
        def __init__(self, center, radius=1.0, tail_effect=False, ref=None):
            self.center_position = np.array(center, dtype=float)
            self.radius, self.tail_effect = radius, tail_effect
            self.global_reference_point = self.center_position if ref is None else np.array(ref, dtype=float)
        def get_reference_point(self, in_global_frame=True):
            return self.global_reference_point
        def get_reference_direction(self, x, in_global_frame=True):
            d = self.global_reference_point - x
            return d / np.linalg.norm(d)
        def get_normal_direction(self, x, in_global_frame=True):
            d = x - self.center_position
            return d / np.linalg.norm(d)
        def get_gamma(self, x, in_global_frame=True):
            return np.linalg.norm(x - self.center_position) / self.radius
        def get_intersection_with_surface(self, start, direction, in_global_frame=True):
            d = direction / np.linalg.norm(direction)
            s = start - self.center_position
            b = d @ s
            return start + d * (-b + math.sqrt(b * b - s @ s + self.radius ** 2))
    class Tree:
        def __init__(self, comps, parents):
            self.comps, self.parents = comps, parents
            self.root_idx = parents.index(None)
            self.n_components = len(comps)
        def get_component(self, i):
            return self.comps[i]
        def get_parent_idx(self, i):
            return self.parents[i]
    '''

bug("c09-chain-restarts", "C09", MA,
    [("            velocity = rotation.rotate(velocity)\n            # print", "            velocity = rotation.rotate(base_velocity)\n            # print")],
    "a component at least two parents away from the root of its tree", "each step along the parents restarts from the original velocity instead of continuing from the parent's", OBS + '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider, NodeKey
    from nonlinear_avoidance.vector_rotation import VectorRotationTree, VectorRotationXd
    tree = Tree([Comp([0, 0, 0], ref=[0.1, 0, 0]), Comp([1.5, 0, 0.3], ref=[0.8, 0, 0.1]), Comp([2.5, 1.2, 0.2], ref=[2, 0.6, 0.25])], [None, 0, 1])
    av = MultiObstacleAvoider.__new__(MultiObstacleAvoider)
    av._normal_vectors = []
    v = np.array([0.6, 0.0, 0.8])
    av._tangent_tree = VectorRotationTree()
    av._tangent_tree.set_root(root_idx=NodeKey(-1, -1, -1), direction=v)
    av._tangent_tree.add_node(node_id=NodeKey(0, -1, -1), parent_id=NodeKey(-1, -1, -1), direction=v)
    x = np.array([4.0, 2.0, 0.9])
    parents, normals, refs = av._compute_normal_and_reference_of_branch(x, 2, obstacle_tree=tree)
    av._simple_tangent_branch_update(x, 2, v, tree, 0, convergence_radius=math.pi / 2)
    w = v
    for i in (2, 1):
        w = VectorRotationXd.from_directions(refs[i], refs[i - 1]).rotate(w)
        d = av._tangent_tree._graph.nodes[NodeKey(0, 2, parents[i])]["direction"]
        assert np.allclose(d, w), (i, d, w)
    ''')

bug("c09-away-radius", "C09", RA,
    [("            tmp_radius = math.pi - convergence_radius\n", "            tmp_radius = min(convergence_radius, math.pi * 0.5)\n")],
    "a convergence radius above a right angle and a velocity that leads away from the surface", "tangents of velocities that lead away lie on the wrong circle around the normal", '''
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider as R
    n, r = np.array([0., 0, 1]), np.array([0.1, 0, -1]) / math.sqrt(1.01)
    for rad in (math.pi / 2, 2.2):
        for v in ([0.6, 0.1, -0.3], [0.2, -0.4, 0.95]):
            v = np.array(v) / np.linalg.norm(v)
            t = R.get_projected_tangent_from_vectors(v, n, r, rad)
            assert abs(t @ n + math.cos(rad)) < 1e-6, (rad, v, t)
    ''')

bug("c09-tail-check-on-raw-velocity", "C09", MA,
    [("            or np.dot(normal_directions[0], velocity) < 0\n", "            or np.dot(normal_directions[0], base_velocity) < 0\n")],
    "a component that is not the root, whose carried-along velocity points into it although the raw velocity leads away", "such a velocity is kept and points into the surface", OBS + '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider, NodeKey
    from nonlinear_avoidance.vector_rotation import VectorRotationTree
    rng = np.random.default_rng(0)
    tree = Tree([Comp([0, 0], ref=[0.1, 0]), Comp([1.2, 0.8], ref=[0.6, 0.5])], [None, 0])
    for k in range(300):
        a, b = rng.uniform(0, 2 * math.pi, 2)
        x = np.array([1.2, 0.8]) + 1.3 * np.array([math.cos(a), math.sin(a)])
        v = np.array([math.cos(b), math.sin(b)])
        av = MultiObstacleAvoider.__new__(MultiObstacleAvoider)
        av._normal_vectors = []
        av._tangent_tree = VectorRotationTree()
        av._tangent_tree.set_root(root_idx=NodeKey(-1, -1, -1), direction=v)
        av._tangent_tree.add_node(node_id=NodeKey(0, -1, -1), parent_id=NodeKey(-1, -1, -1), direction=v)
        try:
            out = av._simple_tangent_branch_update(x, 1, v, tree, 0, convergence_radius=math.pi / 2)
        except ValueError:
            continue
        d = av._tangent_tree._graph.nodes[out]["direction"]
        assert d @ av._normal_vectors[0] > -1e-6, (k, d)
    ''')

bug("c09-parent-reference-at-robot", "C09", MA,
    [("                obs_parent.get_reference_direction(intersection, in_global_frame=True)\n",
      "                obs_parent.get_reference_direction(position, in_global_frame=True)\n")],
    "a tree of at least two components with the robot away from the line through the reference points", "the parent's reference direction is taken at the robot instead of at the parent's surface point", OBS + '''
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    tree = Tree([Comp([0, 0], ref=[0.1, 0]), Comp([1.2, 0.8], ref=[0.6, 0.5])], [None, 0])
    av = MultiObstacleAvoider.__new__(MultiObstacleAvoider)
    x = np.array([3.0, 0.2])
    parents, normals, refs = av._compute_normal_and_reference_of_branch(x, 1, obstacle_tree=tree)
    child, root = tree.comps[1], tree.comps[0]
    s = child.get_intersection_with_surface(child.global_reference_point, x - child.global_reference_point)
    p = root.get_intersection_with_surface(child.global_reference_point, s - child.global_reference_point)
    assert np.allclose(refs[1], root.get_reference_direction(p)), refs
    assert np.allclose(normals[1], root.get_normal_direction(p))
    ''')
