from plant import bug
G = "graph_handler.py"
M = "multiboundary_container.py"
R = "rotation_container.py"

WALLS = '''
    from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
    class Wall:
        is_boundary = True
        def __init__(self, center=(0.0, 0.0)): self.center_position = np.array(center)
        def get_characteristic_length(self): return 1.0
'''

bug("c15-roots-by-truth", "C15", G,
    [("return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]", "return [ii for ii, ind_par in enumerate(self._parent_index) if not ind_par]")],
    "a node attached to the very first node of the graph", "the children of node 0 are reported as roots", '''
    from nonlinear_avoidance.graph_handler import GraphHandler
    g = GraphHandler()
    g.set_root("a"); g.add_element_with_parent("b", "a"); g.add_element_with_parent("c", "b")
    assert g.get_root_indices() == [0], g.get_root_indices()
    ''')

bug("c15-expel-to-grandparent", "C15", G,
    [("            child.parent = None\n", "            child.parent = self.parent\n")],
    "an element with a parent and children is removed", "the children name the grandparent as parent but are not among its children", '''
    from nonlinear_avoidance.graph_handler import GraphElement
    a, b, c = GraphElement(1), GraphElement(2), GraphElement(3)
    a.add_child(b); b.add_child(c); b.expel()
    assert c.parent is None or any(c is k for k in c.parent.children)
    ''')

bug("c15-levels-lose-branches", "C15", M,
    [("ind_children = ind_children + self.get_children(it=it_p)", "ind_children = self.get_children(it=it_p) or ind_children")],
    "two walls on the same level that both have children", "only the last branch gets levels, the walls of the others keep -1", WALLS + '''
    c = MultiBoundaryContainer()
    for _ in range(5): c.append(Wall())
    for k, p in ((1, 0), (2, 0), (3, 1), (4, 2)): c.extend_graph(child=k, parent=p)
    assert list(c.get_level_numbers()) == [0, 1, 1, 2, 2], c.get_level_numbers()
    ''')

bug("c15-intersection-of-children-of-first", "C15", M,
    [("            if self.get_parent(ii) < 0:  # Root element\n                self._parent_intersection_point[ii] = None", "            if self.get_parent(ii) <= 0:  # Root element\n                self._parent_intersection_point[ii] = None")],
    "walls attached to the first wall of the container", "walls attached to wall 0 are treated as roots and get no intersection", WALLS + '''
    c = MultiBoundaryContainer()
    for _ in range(3): c.append(Wall())
    c.extend_graph(child=1, parent=0); c.extend_graph(child=2, parent=1)
    c._get_intersection = lambda it_obs1, it_obs2: np.array([it_obs1, it_obs2])
    c.update_intersection_graph(np.zeros(2))
    assert c.get_parent_intersection(0) is None and np.allclose(c.get_parent_intersection(2), [2, 1])
    assert c.get_parent_intersection(1) is not None and np.allclose(c.get_parent_intersection(1), [1, 0])
    ''')

bug("c15-children-overwritten", "C15", M,
    [("self._children_list[it] = self._children_list[it] + children", "self._children_list[it] = children + self._children_list[it][1:]")],
    "a wall with at least two children", "attaching another child drops one attached before", WALLS + '''
    c = MultiBoundaryContainer()
    for _ in range(3): c.append(Wall())
    c.extend_graph(child=1, parent=0); c.extend_graph(child=2, parent=0)
    assert sorted(c.get_children(0)) == [1, 2]
    ''')

bug("c15-rotation-seen-from-attractor", "C15", R,
    [("null_direction=(attractor - position)", "null_direction=(position - attractor)")],
    "a flow at the obstacle that does not lead straight to the attractor", "the local rotation is measured from the direction away from the attractor", WALLS + '''
    from nonlinear_avoidance.rotation_container import RotationContainer
    class Flow:
        attractor_position = np.array([4.0, 0.0])
        def evaluate(self, x): return np.array([1.0, 0.2])
    c = RotationContainer(); c.append(Wall((1.0, 0.0)))
    c.set_convergence_directions(Flow())
    assert abs(np.linalg.norm(c._convergence_dynamics[0].max_rotation) - math.atan2(0.2, 1.0)) < 1e-6
    ''')

bug("c15-swapped-projection", "C15", M,
    [("direction=(intersection_point - self[it_surf_obs].center_position)", "direction=(intersection_point - self[it_child].center_position)")],
    "projection on the parent wall", "the intersection is projected onto the parent in the direction seen from the child", WALLS + '''
    class Round(Wall):
        def get_intersection_with_surface(self, direction, in_global_frame=False):
            return self.center_position + direction / np.linalg.norm(direction)
    c = MultiBoundaryContainer()
    c.append(Round((0.0, 0.0))); c.append(Round((2.0, 0.0))); c.extend_graph(child=1, parent=0)
    c._parent_intersection_point[1] = np.array([1.0, 1.0])
    p = c.get_convergence_boundary_point(it_child=1, project_on_child=False, it_parent=0)
    assert np.allclose(p, np.array([1.0, 1.0]) / math.sqrt(2)), p
    ''')
