from plant import bug
K = "kmeans_learner/kmeans_obstacle.py"
L = "kmeans_learner/kmeans_motion_learner.py"

REGION = '''
    from unittest.mock import MagicMock
    for name in ("sklearn", "sklearn.svm", "sklearn.cluster", "sklearn.mixture", "sklearn.model_selection"):
        sys.modules[name] = MagicMock()
    from types import SimpleNamespace
    from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle
    def region(centers, radius, index=0):
        return KMeansObstacle(SimpleNamespace(cluster_centers_=np.array(centers, dtype=float), n_clusters=len(centers)), radius, index)
'''
LEARNER = REGION + '''
    import networkx as nx
    from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner
'''

bug("c16-neighbours-within-radius", "C16", K,
    [("self.ind_relevant = self.ind_relevant[dists < 2 * self.radius]", "self.ind_relevant = self.ind_relevant[dists < self.radius]")],
    "a neighbour whose center is between one and two radii away", "the region reaches beyond the border to that neighbour", REGION + '''
    ob = region([[0, 0], [1.5, 0]], 1.0)
    p = ob.get_point_on_surface(np.array([0.5, 0.0]), in_global_frame=True)
    assert abs(p[0] - 0.75) < 1e-9, p
    ''')

bug("c16-last-intersection-wins", "C16", K,
    [("                surface_distance = LA.norm(self.center_position - intersection)\n                boundary_position = intersection", "                boundary_position = intersection")],
    "a ray that crosses the borders to two neighbours within the radius, the closer one listed first", "the point on the surface lies behind a border", REGION + '''
    ob = region([[0, 0], [1.0, 0], [1.2, 1.2]], 2.0)
    p = ob.get_point_on_surface(np.array([1.0, 0.1]), in_global_frame=True)
    assert p[0] <= 0.5 + 1e-9, p
    ''')

bug("c16-plane-index-shifted", "C16", K,
    [("                inbetweeners[ii, :],\n                normals[ii, :],", "                inbetweeners[ii, :],\n                normals[self.ind_relevant[0], :],")],
    "two neighbours in different directions", "the border to the second neighbour is tilted", REGION + '''
    ob = region([[0, 0], [-1.0, 0], [0, 1.0]], 2.0)
    p = ob.get_point_on_surface(np.array([-0.2, 0.5]), in_global_frame=True)
    assert abs(p[1] - 0.5) < 1e-9, p
    ''')

bug("c16-local-position-as-global", "C16", K,
    [('''        else:
            relative_position = position
            position = position + self.center_position

        if not (position_norm := LA.norm(relative_position)):
            if self.is_boundary:
                return sys.float_info.max''', '''        else:
            relative_position = position

        if not (position_norm := LA.norm(relative_position)):
            if self.is_boundary:
                return sys.float_info.max''')],
    "a position given relative to a center away from the origin", "gamma inside is that of another position", REGION + '''
    ob = region([[5.0, 0], [5.0, 1.0]], 1.0)
    x = np.array([0.0, 0.4])
    a, b = ob.get_gamma(x), ob.get_gamma(x + ob.center_position, in_global_frame=True)
    assert abs(a - b) < 1e-9, (a, b)
    ''')

bug("c16-transparent-everywhere", "C16", K,
    [("                weights = np.maximum(weights - weights[ind_transparent], 0)\n", "                weights = np.maximum(weights - np.max(weights), 0)\n")],
    "a region with a successor, left beside the border to it", "the region can be left anywhere next to the successor", REGION + '''
    ob = region([[0, 0], [1.0, 0], [0, 1.0]], 2.0)
    ob.successor_index = [1]
    g = ob.get_gamma(np.array([0.55, 1.5]), in_global_frame=True)
    assert g < 1e3, g
    ''')

bug("c16-weights-to-the-successor", "C16", L,
    [("parents = self.get_predecessors(cluster_label)", "parents = self.get_successors(cluster_label)")],
    "a cluster in the middle of the sequence, position near the border to its predecessor", "the flow of the successor is blended in where the predecessor enters", LEARNER + '''
    m = KMeansMotionLearner()
    m.kmeans = SimpleNamespace(n_clusters=3, cluster_centers_=np.array([[0.0, 0], [2.0, 0], [4.0, 0]]))
    m._graph.add_edge(2, 1); m._graph.add_edge(1, 0)
    m.region_obstacles = [SimpleNamespace(get_gamma=lambda *a, **k: 10.0)] * 3
    w = m._predict_sequence_weights(np.array([2.9, 0.0]), 1)
    assert w[0] == 0 and w[2] > 0, w
    ''')

bug("c16-order-of-first-sample", "C16", L,
    [("average_sequence[ii] = np.mean(\n                self.data.sequence_value", "average_sequence[ii] = np.max(\n                self.data.sequence_value")],
    "a cluster that is passed twice, the last time late in the demonstration", "the order of the clusters is that of their last samples", LEARNER + '''
    m = KMeansMotionLearner()
    m.kmeans = SimpleNamespace(n_clusters=2, cluster_centers_=np.array([[0.0, 0], [2.0, 0]]), labels_=np.array([0, 0, 1, 1, 0]))
    m.data = SimpleNamespace(sequence_value=np.array([0.0, 0.1, 0.6, 0.7, 0.8]), attractor=np.array([3.0, 0.0]), dimension=2)
    m._fit_cluster_hierarchy()
    assert m.get_successors(0) == [1], m.get_successors(0)
    ''')

bug("c10-reference-around-origin", "C10", "multi_obstacle_avoider.py",
    [("                attractor_position=initial_dynamics.attractor_position,\n                initial_dynamics=initial_dynamics,", "                attractor_position=initial_dynamics.attractor_position * 0,\n                initial_dynamics=initial_dynamics,")],
    "an attractor away from the origin", "convergence is rotated around the origin instead of the attractor", '''
    from types import SimpleNamespace
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    flow = SimpleNamespace(attractor_position=np.array([2.0, 1.0]), dimension=2, evaluate=lambda x: np.array([2.0, 1.0]) - x)
    av = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=[], initial_dynamics=flow)
    assert np.allclose(av.convergence_dynamics.attractor_position, [2.0, 1.0])
    ''')
