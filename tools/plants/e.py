from plant import bug
MO = "multi_obstacle.py"; AR = "arch_obstacle.py"; CO = "multi_obstacle_container.py"; HO = "multi_hull_and_obstacle.py"; ME = "multi_ellipse_obstacle.py"

bug("c11-excluded-later", "C11", MO,
    [("            if ii in excluded_components:\n                continue\n\n            gammas.append", "            if len(gammas) in excluded_components:\n                continue\n\n            gammas.append")],
    "components excluded that are not the last ones of the list", "the distance without some components counts the components that were kept instead of the index, so everything after the first excluded one is dropped", '''
    from vartools.states import Pose
    from nonlinear_avoidance.multi_obstacle import MultiObstacle
    class C:
        def __init__(self, g): self.g = g
        def get_gamma(self, x, in_global_frame=True): return self.g
    o = MultiObstacle(Pose(np.zeros(2), 0.0))
    o._obstacle_list = [C(3.0), C(4.0), C(2.0)]
    assert o.get_gamma_except_components(np.zeros(2), [1]) == 2.0
    assert o.get_gamma_except_components(np.zeros(2), [0, 2]) == 4.0
    ''')

bug("c11-container-first-free", "C11", CO,
    [("            if obstacle_tree.is_collision_free(position):\n                continue\n            return False\n\n        return True",
      "            if not obstacle_tree.is_collision_free(position):\n                continue\n            return True\n\n        return not self._obstacle_list")],
    "several obstacle trees, the position inside one of them only", "the container is collision free as soon as one of the trees is", '''
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
    class T:
        def __init__(self, free): self.free = free
        def is_collision_free(self, x, in_global_frame=True): return self.free
    c = MultiObstacleContainer()
    assert c.is_collision_free(np.zeros(2))
    c.append(T(True)); c.append(T(False))
    assert not c.is_collision_free(np.zeros(2))
    ''')

bug("c11-hull-needs-outside", "C11", HO,
    [("        for ii, obs in enumerate(self.inner_obstacles):\n            if not obs.is_inside(position, in_global_frame=True):\n                in_free_space = True\n\n        return",
      "        for ii, obs in enumerate(self.inner_obstacles):\n            in_free_space = not obs.is_inside(position, in_global_frame=True)\n\n        return")],
    "two hulls, the position in the first one", "only the last hull decides whether the position is free", '''
    from vartools.states import Pose
    from nonlinear_avoidance.multi_hull_and_obstacle import MultiHullAndObstacle
    class O:
        center_position = np.zeros(2); dimension = 2
        def __init__(self, inside): self.inside = inside
        def is_inside(self, x, in_global_frame=False): return self.inside
    h = MultiHullAndObstacle(inner_obstacles=[O(False), O(True)], outer_obstacle=O(True))
    assert not h.is_inside(np.zeros(2))
    h = MultiHullAndObstacle(inner_obstacles=[O(True), O(True)], outer_obstacle=O(True))
    assert h.is_inside(np.zeros(2))
    ''')

bug("c11-surface-free", "C11", AR,
    [("            if obstacle.get_gamma(position, in_global_frame=True) <= 1:", "            if obstacle.get_gamma(position, in_global_frame=True) < 1:")],
    "a position exactly on the surface of a wall", "the arch is collision free on its own surface, in contrast to the other obstacles", '''
    from vartools.states import Pose
    from nonlinear_avoidance.arch_obstacle import BlockArchObstacle
    a = object.__new__(BlockArchObstacle)
    class C:
        def get_gamma(self, x, in_global_frame=True): return 1.0
    a._obstacle_list = [C()]
    assert not a.is_collision_free(np.zeros(2))
    ''')
