from plant import bug
MO = "multi_obstacle.py"; AR = "arch_obstacle.py"; HU = "multi_body_human.py"; MA = "multi_obstacle_avoider.py"

bug("c12-deform-drift", "C12", MO,
    [("            pose.position = factor * pose.position\n", "            obs.pose.position = factor * pose.position\n")],
    "two deformation steps, or a deformation followed by a motion", "the deformation does not reach the local poses, so the parts drift apart from the second step on", '''
    from vartools.states import Pose
    from dynamic_obstacle_avoidance.obstacles import Obstacle
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    o = MultiObstacle(Pose(np.array([1.0, 2.0]), 0.3))
    c = Obstacle(pose=Pose(np.array([2.0, 0.0]), 0.0)); c.axes_length = np.ones(2)
    o.set_root(c)
    o.deformation_rate = 0.5
    o.update_deformation(1.0); o.update_deformation(1.0)
    assert np.allclose(o._pose.transform_position_to_relative(c.pose.position), [4.5, 0.0]), c.pose.position
    ''')

bug("c12-limbs-leaves-first", "C12", HU,
    [("""    def align_obstacle_tree(self):
        obs_indeces = list(self._graph.successors(self.root_idx))
        it_node = 0
        while it_node < len(obs_indeces):
            idx_node = obs_indeces[it_node]
            obs_indeces = obs_indeces + list(self._graph.successors(idx_node))

            it_node += 1  # Iterate

            self.align_position_with_parent(idx_node)
""", """    def align_obstacle_tree(self):
        obs_indeces = list(self._graph.successors(self.root_idx))
        it_node = 0
        while it_node < len(obs_indeces):
            idx_node = obs_indeces[it_node]
            obs_indeces = obs_indeces + list(self._graph.successors(idx_node))

            it_node += 1  # Iterate

        for idx_node in reversed(obs_indeces):
            self.align_position_with_parent(idx_node)
""")],
    "a body with limbs on two levels", "limbs are aligned before the limb they hang on", '''
    from vartools.states import Pose
    from dynamic_obstacle_avoidance.obstacles import Obstacle
    from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
    b = MultiBodyObstacle()
    def limb(p): return Obstacle(pose=Pose(np.array(p, float), None))
    b.set_root(limb([0, 0, 0]), name="body")
    b.add_component(limb([1, 1, 1]), "arm", [0, 0, 0.5], "body", [1, 0, 0])
    b.add_component(limb([2, 0, 1]), "hand", [0, 0.2, 0], "arm", [0, 0, -0.5])
    b.align_obstacle_tree()
    p = [o.pose.position for o in b._obstacle_list]
    assert np.allclose(p[1] + [0, 0, 0.5], p[0] + [1, 0, 0]) and np.allclose(p[2] + [0, 0.2, 0], p[1] + [0, 0, -0.5]), p
    ''')

bug("c12-joint-of-sibling", "C12", HU,
    [('''        idx_local_ref = self._graph.nodes[idx_parent]["indeces_children"].index(idx_obs)

        local_reference_parent = self._graph.nodes[idx_parent]["references_children"][
            idx_local_ref
        ]
        reference_parent = self[idx_parent].pose.transform_position_from_relative(
            local_reference_parent
        )

        delta_ref''', '''        idx_local_ref = idx_obs - min(self._graph.nodes[idx_parent]["indeces_children"])

        local_reference_parent = self._graph.nodes[idx_parent]["references_children"][
            idx_local_ref % self._graph.out_degree(idx_parent)
        ]
        reference_parent = self[idx_parent].pose.transform_position_from_relative(
            local_reference_parent
        )

        delta_ref''')],
    "a parent whose limbs do not have consecutive indices", "a limb is attached to the joint of another limb", '''
    from vartools.states import Pose
    from dynamic_obstacle_avoidance.obstacles import Obstacle
    from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
    b = MultiBodyObstacle()
    def limb(p): return Obstacle(pose=Pose(np.array(p, float), None))
    z = [0, 0, 0]
    b.set_root(limb([0, 0, 0]), name="body")
    b.add_component(limb([1, 1, 1]), "arm", z, "body", [1, 0, 0])
    b.add_component(limb([2, 0, 1]), "hand", z, "arm", [0, 0, -0.5])
    b.add_component(limb([2, 0, 1]), "arm2", z, "body", [-1, 0, 0])
    b.align_obstacle_tree()
    assert np.allclose(b[3].pose.position, [-1, 0, 0]), b[3].pose.position
    ''')

bug("c12-rotation-about-origin", "C12", MA,
    [("                        np.hstack((position - pose.position, 0)),", "                        np.hstack((position, 0)),")],
    "a rotating obstacle that is not at the origin", "the surface velocity of a rotating obstacle is computed around the origin of the world", '''
    from vartools.states import Pose, Twist
    from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity as f
    class O:
        twist = Twist(linear=np.zeros(2), angular=1.0)
        def get_gamma(self, x, in_global_frame=True): return 1.0
        def get_pose(self): return Pose(np.array([3.0, 0.0]), 0.0)
    assert np.allclose(f(np.array([4.0, 0.0]), [O()]), [0.0, 1.0])
    ''')

bug("c12-untracked-keeps-orientation", "C12", HU,
    [("                self[idx_node].orientation = self[idx_parent].orientation\n", "                self[idx_node].orientation = self[self.root_idx].orientation\n")],
    "an untracked limb that hangs on a tracked one", "an untracked limb turns with the body instead of the limb it hangs on", '''
    from scipy.spatial.transform import Rotation
    from vartools.states import Pose
    from dynamic_obstacle_avoidance.obstacles import Obstacle
    from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
    class F:
        position = rotation = None
        def run_once(self, v): self.position = self.rotation = v
    class M:
        obs_id = 7; position = np.array([1.0, 0.0, 1.0]); rotation = Rotation.identity()
    class U:
        def get_messages(self): return [M()]
    b = MultiBodyObstacle(pose_updater=U())
    def limb(p): return Obstacle(pose=Pose(np.array(p, float), Rotation.identity()))
    z = [0, 0, 0]
    b.set_root(limb([0, 0, 0]), name="body")
    b.add_component(limb([1, 1, 1]), "arm", z, "body", z)
    b.add_component(limb([2, 0, 1]), "hand", z, "arm", [0, 0, 0.5])
    b._graph.nodes[1]["update_id"] = 7
    b.position_filters = [None, F(), None]; b.orientation_filters = [None, F(), None]
    b.update_using_optitrack()
    assert np.allclose(b[2].orientation.as_matrix(), b[1].orientation.as_matrix())
    assert not np.allclose(b[2].orientation.as_matrix(), np.eye(3))
    ''')
