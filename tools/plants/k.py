from plant import bug
H = "multi_hull_and_obstacle.py"

HULL = '''
    import networkx as nx
    from types import SimpleNamespace
    from nonlinear_avoidance.multi_hull_and_obstacle import MultiHullAndObstacle, MultiRotationalContainer
    class Part:
        dimension = 2
        def __init__(self, inside=False, gamma=1.0, normal=(1.0, 0.0), reference=(1.0, 0.0)):
            self.inside, self.gamma, self.normal, self.reference = inside, gamma, np.array(normal), np.array(reference)
        def is_inside(self, position, in_global_frame=False):
            return self.inside
        def get_gamma(self, position, in_global_frame=False):
            return self.gamma
        def get_normal_direction(self, position, in_global_frame=False):
            return self.normal
        def get_reference_direction(self, position, in_global_frame=False):
            return self.reference
        def get_point_on_surface(self, position, in_global_frame=False):
            return np.array(position)
    def build(n, links, doors, contains, outside=None, position=(0.0, 0.0)):
        from vartools.states import Pose
        h = MultiHullAndObstacle.__new__(MultiHullAndObstacle)
        h.pose = Pose(np.array(position), 0.0)
        h.inner_obstacles, h.outer_obstacle = [Part() for _ in range(n)], Part()
        h._entrance_counter, h._graph = len(doors), nx.Graph()
        h._graph.add_nodes_from(h.inner_obstacles)
        goal = np.array([9.0, 9.0])
        for i, o in enumerate(h.inner_obstacles):
            h._graph.nodes[o]["contains_attractor"] = i in contains
            h._graph.nodes[o]["local_attractor"] = goal if i in contains else None
        for i, j, d in links:
            h._graph.add_edge(h.inner_obstacles[i], h.inner_obstacles[j], distance=d, intersection=np.array([i + 0.1 * j, 1.0]))
        for k, (i, d, at) in enumerate(doors):
            h._graph.add_edge(k, h.inner_obstacles[i], distance=d, intersection=np.array(at))
        h._attractor_is_outside, h._local_outside_attractor = outside is not None, None if outside is None else np.array(outside)
        return h
'''

bug("c17-longest-hop-first", "C17", H,
    [('''            source=obs_hash_source,
            target=closest_elems[ind_min],
            weight="distance",
''', '''            source=obs_hash_source,
            target=closest_elems[ind_min],
''')],
    "three overlapping hulls where the direct connection is longer than the way through the third", "the hull leads along the longer route with fewer hops", HULL + '''
    h = build(3, [(0, 1, 1.0), (1, 2, 1.0), (0, 2, 5.0)], [], {2})
    h.update_shortest_attractor_path(h.inner_obstacles[0])
    p = h._graph.nodes[h.inner_obstacles[0]]["local_attractor"]
    assert np.allclose(p, [0.1, 1.0]), p
    ''')

bug("c17-entrance-without-remaining-way", "C17", H,
    [("                closest_dist.append(path_dist[ii] + dist_attractor)\n", "                closest_dist.append(dist_attractor)\n")],
    "an attractor outside and two entrances, the farther one only slightly closer to the attractor", "the way inside to the entrance is not counted", HULL + '''
    h = build(1, [], [(0, 1.0, (0.0, 0.0)), (0, 4.0, (1.0, 0.0))], set(), outside=(3.0, 0.0))
    h.update_shortest_attractor_path(h.inner_obstacles[0])
    p = h._graph.nodes[h.inner_obstacles[0]]["local_attractor"]
    assert np.allclose(p, [0.0, 0.0]), p
    ''')

bug("c17-distance-to-first-entrance", "C17", H,
    [("                position - get_property_of_node_edge(self._graph, ii, \"intersection\")\n", "                position - get_property_of_node_edge(self._graph, 0, \"intersection\")\n")],
    "two entrances, the position outside close to the second one", "the motion outside leads to the wrong entrance", HULL + '''
    h = build(1, [], [(0, 1.0, (0.0, 0.0)), (0, 1.5, (5.0, 0.0))], {0})
    h.update_shortest_attractor_path_starting_from_outside(np.array([6.0, 0.0]))
    assert np.allclose(h._local_outside_attractor, [5.0, 0.0]), h._local_outside_attractor
    ''')

bug("c17-surface-of-the-outer-part", "C17", H,
    [('''            if isinstance(path[ii], int):
                self._local_outside_attractor = local_attractor
''', '''            if ii == 0 or isinstance(path[ii], int):
                self._local_outside_attractor = local_attractor
''')],
    "a route that starts in a hull", "the local attractor of the hull is written to the outside", HULL + '''
    h = build(2, [(0, 1, 1.0)], [], {1})
    h.update_shortest_attractor_path(h.inner_obstacles[0])
    assert h._graph.nodes[h.inner_obstacles[0]]["local_attractor"] is not None
    ''')

bug("c17-known-attractor-overwritten", "C17", H,
    [('''                # If the first assigned one is found, it implies that the shortest path
                # subsequent shortest path is already assigned
                break
''', '''                # If the first assigned one is found, it implies that the shortest path
                # subsequent shortest path is already assigned
                pass
''')],
    "an attractor in two hulls, the route to the closer one passing nothing; or a hull on the way that is up to date", "up-to-date local attractors are overwritten", HULL + '''
    h = build(3, [(0, 1, 1.0), (1, 2, 1.0)], [], {2})
    keep = np.array([7.0, 7.0])
    h._graph.nodes[h.inner_obstacles[1]]["local_attractor"] = keep
    h.update_shortest_attractor_path(h.inner_obstacles[0])
    assert h._graph.nodes[h.inner_obstacles[1]]["local_attractor"] is keep
    ''')

bug("c17-stale-attractor", "C17", H,
    [('''                self._graph.nodes[obs]["local_attractor"] = None
                self._graph.nodes[obs]["contains_attractor"] = False
''', '''                self._graph.nodes[obs].setdefault("local_attractor", None)
                self._graph.nodes[obs]["contains_attractor"] = False
''')],
    "an attractor that is moved from one hull to another", "the first hull keeps leading to the old attractor", HULL + '''
    h = build(2, [(0, 1, 1.0)], [], {0})
    h.outer_obstacle.inside = h.inner_obstacles[0].inside = True
    h.set_attractor(np.array([1.0, 2.0]))
    assert h._graph.nodes[h.inner_obstacles[0]]["local_attractor"] is None
    ''')

bug("c17-tangent-weight-square", "C17", H,
    [("        weight = 1 / gamma\n", "        weight = 1 / gamma**2\n")],
    "a position between the wall and the center", "the motion turns too late along the wall", HULL + '''
    h = build(0, [], [], set(), outside=(1.0, 1.0))
    h.outer_obstacle = Part(normal=(1.0, 0.0), reference=(1.0, 0.0))
    v = h._get_local_dynamics(np.array([0.0, 0.0]), 2.0)
    assert abs(math.atan2(v[1], v[0]) - 3 * math.pi / 8) < 1e-6, v
    ''')

bug("c17-weights-of-positions-in-list", "C17", H,
    [("                    gamma=self.gamma_list[ii],\n", "                    gamma=self.gamma_list[len(weights_) - 1],\n")],
    "a hull without weight listed before one with a weight", "the distance of another hull decides how the motion is turned", HULL + '''
    h = build(2, [], [], {0, 1})
    h.inner_obstacles[0].gamma, h.inner_obstacles[1].gamma, h.outer_obstacle.gamma = 0.5, 3.0, 0.5
    asked = []
    h._get_local_dynamics = lambda position, gamma, obs_hash=None: asked.append(gamma) or np.array([1.0, 0.0])
    h.evaluate(np.array([0.0, 0.0]))
    assert asked == [3.0], asked
    ''')

bug("c17-container-sum-of-first", "C17", H,
    [("            vectors[:, ii] = obs.evaluate(position, in_global_frame=True)\n", "            vectors[:, ii] = obs.evaluate(position, in_global_frame=(ii == 0))\n")],
    "a container with a second obstacle with a pose of its own", "the second obstacle is evaluated in its local frame", HULL + '''
    c = MultiRotationalContainer()
    asked = []
    def ev(position, in_global_frame=False):
        asked.append(in_global_frame)
        return np.array([1.0, 0.0])
    c._obstacle_list = [SimpleNamespace(evaluate=ev), SimpleNamespace(evaluate=ev)]
    c.evaluate(np.array([0.0, 0.0]))
    assert asked == [True, True], asked
    ''')
