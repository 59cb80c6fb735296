from plant import bug
VR = "vector_rotation.py"; SD = "dynamics/sequenced_dynamics.py"

bug("c04-base-order", "C04", VR,
    [("        base_rotated = rotate_array(", "        base_rotated = rotate_array("),
     ("        self.basis_array = np.append(\n            base0.reshape(self.dimension, 1, 2), self.basis_array, axis=1\n        )",
      "        self.basis_array = np.append(\n            base0.reshape(self.dimension, 1, 2), self.basis_array, axis=1\n        )[:, : max(self.n_rotations + 1, 2), :]\n        self.basis_array[:, 1:, :] = self.basis_array[:, 1:, :][:, ::-1, :] if self.n_rotations > 2 else self.basis_array[:, 1:, :]")],
    "pushing a root in front of a sequence that already has at least two rotations", "push_root_from_base_and_angle reverses the planes of the existing rotations but not their angles", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationXd, VectorRotationSequence
    seq = VectorRotationSequence.create_from_vector_array(np.array([[1., 0, 0.2], [0, 1, 0.5], [0.3, 0.1, 1]]).T)
    before = seq.basis_array.copy()
    rot = VectorRotationXd.from_directions(np.array([0, 0.2, 1.]), before[:, 0, 0])
    seq.push_root_from_base_and_angle(rot.base, rot.rotation_angle)
    assert np.allclose(seq.basis_array[:, 1:, :], before)
    ''')

bug("c04-attractor-direction", "C04", SD,
    [("attractor_position - position", "attractor_position")],
    "dynamics with an attractor away from the origin", "the sequence of a dynamics starts at the attractor's position instead of the direction to it", '''
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
    class Dyn:
        attractor_position = np.array([2., 0])
        def evaluate(self, position): return np.array([0., 1.0])
    seq = evaluate_dynamics_sequence(np.array([1., 1.]), Dyn())
    d = np.array([1., -1.]) / math.sqrt(2)
    assert np.allclose(seq.basis_array[:, 0, 0], d), seq.basis_array[:, 0, 0]
    ''')

bug("c05-stale-weights", "C05", VR,
    [("        for node_id in self._graph.nodes:\n            self._graph.nodes[node_id][\"weight\"] = 0\n",
      "        for node_id in self._graph.nodes:\n            if self._graph.out_degree(node_id):\n                self._graph.nodes[node_id][\"weight\"] = 0\n")],
    "two evaluations of the same tree, the second not listing a leaf the first one weighted", "weights of an earlier evaluation leak into the next one", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationTree
    t = VectorRotationTree(root_idx=0, root_direction=np.array([1., 0]))
    t.add_node(node_id=1, direction=np.array([0., 1]), parent_id=0)
    t.add_node(node_id=2, direction=np.array([0.5, -1]), parent_id=0)
    t.get_weighted_mean([1], [1.0])
    r = t.get_weighted_mean([2], [1.0])
    assert np.allclose(r, np.array([0.5, -1]) / np.linalg.norm([0.5, -1])), r
    ''')

bug("c05-first-basis", "C05", VR,
    [("                    rotation_angle=(-1)\n                    * self._graph.nodes[node_id][\"part_orientation\"].rotation_angle,\n                )\n\n                all_successors += successors",
      "                    rotation_angle=(-1)\n                    * self._graph.nodes[nodelevel_ids[0]][\n                        \"part_orientation\"\n                    ].rotation_angle,\n                )\n\n                all_successors += successors")],
    "a level with at least two weighted nodes of which a later one has weighted successors", "successors are turned back by the angle of the wrong sibling", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationTree
    t = VectorRotationTree(root_idx=0, root_direction=np.array([1., 0]))
    t.add_node(node_id=1, direction=np.array([1., 0.3]), parent_id=0)
    t.add_node(node_id=2, direction=np.array([0., 1.]), parent_id=0)
    t.add_node(node_id=3, direction=np.array([-1., 1.]), parent_id=2)
    a1 = math.atan2(0.3, 1)
    r = t.get_weighted_mean([1, 2, 3], [0.5, 0.0, 0.5])
    ang = 0.5 * a1 + 0.5 * math.pi / 2 + 0.5 * math.pi / 4
    assert np.allclose(r, [math.cos(ang), math.sin(ang)]), (r, ang)
    ''')

bug("c05-grandchildren", "C05", VR,
    [("        ii = 0\n        while ii < len(successor_list):\n            # Add all children elements to the list\n            successor_list += [jj for jj in self._graph.successors(successor_list[ii])]\n            ii += 1\n",
      "        for successor in list(successor_list):\n            # Add all children elements to the list\n            successor_list += [jj for jj in self._graph.successors(successor)]\n")],
    "a tree with at least four levels", "descendants beyond the grandchildren are not rotated with their ancestors", '''
    from nonlinear_avoidance.vector_rotation import VectorRotationTree
    ang = [0, 0.7, 1.5, 1.1, 0.2]
    vec = lambda a: np.array([math.cos(a), math.sin(a)])
    t = VectorRotationTree(root_idx=0, root_direction=vec(0))
    for i in range(1, 5):
        t.add_node(node_id=i, direction=vec(ang[i]), parent_id=i - 1)
    assert np.allclose(t.get_weighted_mean([4], [1.0]), vec(0.2))
    t2 = VectorRotationTree(root_idx=0, root_direction=np.array([1., 0, 0]))
    d = [np.array(x, float) for x in ([1, 1, 0], [0, 1, 1], [-1, 0.5, 1], [-1, -1, 0.3])]
    for i, x in enumerate(d):
        t2.add_node(node_id=i + 1, direction=x, parent_id=i)
    r = t2.get_weighted_mean([0, 4], [0.5, 0.5])
    assert sorted(t2.get_all_childs_children(0)) == [1, 2, 3, 4], "descendants missing"
    assert abs(np.linalg.norm(r) - 1) < 1e-9
    ''')
