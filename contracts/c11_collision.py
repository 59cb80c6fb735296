"""C11: collision and distance queries of compound obstacles are those of the closest component."""
from pyvc.contract import contract

N = "nonlinear_avoidance."
MO = N + "multi_obstacle:MultiObstacle"
CO = N + "multi_obstacle_container:MultiObstacleContainer"
ME = N + "multi_ellipse_obstacle:MultiEllipseObstacle"
AR = N + "arch_obstacle:BlockArchObstacle"
MB = N + "multiboundary_container:MultiBoundaryContainer"
POSE = "vartools.states:Pose"
HU = N + "multi_body_human:MultiBodyObstacle"
HO = N + "multi_hull_and_obstacle:MultiHullAndObstacle"


def parts(S, n, g, x, asked=None):
    """n components with the distances g at the global position x (elsewhere 1000)"""
    def comp(j):
        return S.mock(methods={"get_gamma": lambda o, position, in_global_frame=False: S.ite(S.And(S.eq(position, x), in_global_frame), S.at(g, j), 1000)})
    return S.objects(n, comp)


def closest(S, n, g, value):
    return S.And(S.forall(n, lambda j: S.le(value, S.at(g, j))), S.exists(n, lambda j: S.eq(value, S.at(g, j))))


@contract("C11", MO + ".get_gamma", MO + ".is_collision_free", timeout_ms=15000)
def compound_obstacle_is_its_closest_component(S):
    D = S.dim()
    n = S.size("n_components", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)
    t = S.vec("offset", D)
    pose = S.new(POSE, t, None)
    a = S.raw(MO, _obstacle_list=parts(S, n, g, x), _pose=pose)
    local = S.bool("local_frame")
    at = x - t if local else x
    S.ensure("distance of the closest component", closest(S, n, g, S.m(a, "get_gamma", at, in_global_frame=not local)))
    free = S.m(a, "is_collision_free", at, in_global_frame=not local)
    S.ensure("free if outside of every component", S.Iff(free, S.forall(n, lambda j: S.at(g, j) > 1)))
    S.ensure("global frame by default", local or closest(S, n, g, S.m(a, "get_gamma", x)))


def frame(S, D, x, t, local):
    return x - t if local else x


@contract("C11", MO + ".get_gamma_except_components", AR + ".get_gamma_except_components", timeout_ms=15000)
def distance_without_some_components(S):
    D = S.dim()
    n = S.size("n_components", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x, t = S.vec("position", D), S.vec("offset", D)
    cls = S.choice("class", [MO, AR])
    pose = S.new(POSE, t, None)
    a = S.raw(cls, _obstacle_list=parts(S, n, g, x), **({"_pose": pose} if cls == MO else {"pose": pose}))
    local = S.bool("local_frame")
    out = S.choice("excluded", [[], [0], [0, 2], [1, 3, 4]])
    r = S.catch(lambda: S.m(a, "get_gamma_except_components", frame(S, D, x, t, local), out, in_global_frame=not local))
    inside = lambda j: S.And(*[S.Not(S.eq(j, k, 0)) for k in out])
    some = S.exists(n, inside)
    if S.true(some):
        S.ensure("distance of the closest component that is not excluded", S.And(not S.raised(r), S.forall(n, lambda j: S.Implies(inside(j), S.le(r, S.at(g, j)))),
                                                                                 S.exists(n, lambda j: S.And(inside(j), S.eq(r, S.at(g, j))))))
    else:
        S.ensure("nothing left is an error", S.raised(r, "ValueError"))


@contract("C11", AR + ".get_gamma", AR + ".is_collision_free", timeout_ms=15000)
def arch_is_its_closest_wall(S):
    D = S.dim()
    n = S.size("n_components", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x, t = S.vec("position", D), S.vec("offset", D)
    a = S.raw(AR, _obstacle_list=parts(S, n, g, x), pose=S.new(POSE, t, None))
    local = S.bool("local_frame")
    S.ensure("distance of the closest component", closest(S, n, g, S.m(a, "get_gamma", frame(S, D, x, t, local), in_global_frame=not local)))
    S.ensure("free if outside of every component", S.Iff(S.m(a, "is_collision_free", x), S.forall(n, lambda j: S.at(g, j) > 1)))


@contract("C11", ME + ".get_gamma", ME + ".is_inside", timeout_ms=15000)
def group_of_ellipses_is_its_closest_one(S):
    D = S.dim()
    n = S.size("n_components", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)
    a = S.raw(ME, _obstacle_list=parts(S, n, g, x))
    S.ensure("distance of the closest component", closest(S, n, g, S.m(a, "get_gamma", x)))
    S.ensure("inside if any component contains the position", S.Iff(S.m(a, "is_inside", x), S.exists(n, lambda j: S.at(g, j) <= 1)))
    S.ensure("local frame is refused", S.raised(S.catch(lambda: S.m(a, "get_gamma", x, in_global_frame=False)), "NotImplementedError"))


@contract("C11", CO + ".get_gamma", CO + ".is_collision_free", timeout_ms=15000)
def container_is_its_closest_tree(S):
    D = S.dim()
    n = S.size("n_trees", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)

    def tree(j):
        return S.mock(methods={"get_gamma": lambda o, position, in_global_frame=True: S.ite(S.And(S.eq(position, x), in_global_frame), S.at(g, j), 1000),
                               "is_collision_free": lambda o, position, in_global_frame=True: S.And(S.at(g, j) > 1, S.eq(position, x))})
    a = S.raw(CO, _obstacle_list=S.objects(n, tree))
    S.ensure("distance of the closest tree", closest(S, n, g, S.m(a, "get_gamma", x)))
    S.ensure("free if every tree is free", S.Iff(S.m(a, "is_collision_free", x), S.forall(n, lambda j: S.at(g, j) > 1)))
    S.ensure("local frame is refused", S.raised(S.catch(lambda: S.m(a, "get_gamma", x, in_global_frame=False)), "NotImplementedError"))


@contract("C11", MB + ".is_collision_free", timeout_ms=15000)
def inside_of_any_boundary_is_free(S):
    D = S.dim()
    n = S.size("n_boundaries", 0, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)
    a = S.raw(MB, _obstacle_list=parts(S, n, g, x))
    S.ensure("free if inside of a boundary", S.Iff(S.m(a, "is_collision_free", x), S.exists(n, lambda j: S.at(g, j) > 1)))


@contract("C11", HU + ".get_gamma", timeout_ms=15000)
def body_is_its_closest_limb(S):
    D = S.dim()
    n = S.size("n_components", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)
    a = S.raw(HU, _obstacle_list=parts(S, n, g, x))
    S.ensure("distance of the closest component", closest(S, n, g, S.m(a, "get_gamma", x)))


@contract("C11", CO + ".is_in_free_space", timeout_ms=15000)
def free_space_of_all_trees(S):
    D = S.dim()
    n = S.size("n_trees", 1, 5)
    g = S.arr("gammas", n, 0, 30)
    x = S.vec("position", D)

    def tree(j):
        def gam(o, position, in_global_frame=True):
            return S.ite(S.And(S.eq(position, x), in_global_frame), S.at(g, j), 0)
        return S.mock(cls=MO, methods={"get_gamma": gam})
    a = S.raw(CO, _obstacle_list=S.objects(n, tree))
    S.ensure("free if every tree is free", S.Iff(S.m(a, "is_in_free_space", x), S.forall(n, lambda j: S.at(g, j) > 1)))
    S.ensure("local frame is refused", S.raised(S.catch(lambda: S.m(a, "is_in_free_space", x, in_global_frame=False)), "NotImplementedError"))


@contract("C11", HO + ".is_inside", timeout_ms=15000)
def hull_is_inside_in_the_wall_only(S):
    """a position collides where it is inside of the outer obstacle and outside of every hull"""
    D = S.dim()
    n = S.size("n_hulls", 0, 5)
    g = S.arr("gammas", n, 0, 30)
    g_out = S.real("outer_gamma", 0, 30)
    x, t = S.vec("position", D), S.vec("offset", D)

    def body(gamma):
        return S.mock(methods={"is_inside": lambda o, position, in_global_frame=False: S.ite(S.And(S.eq(position, x), in_global_frame), gamma() <= 1, gamma() > 1),
                               "get_gamma": lambda o, position, in_global_frame=False: S.ite(S.And(S.eq(position, x), in_global_frame), gamma(), 1000)})
    a = S.raw(HO, inner_obstacles=S.objects(n, lambda j: body(lambda: S.at(g, j))), outer_obstacle=body(lambda: g_out), pose=S.new(POSE, t, None))
    glob = S.bool("global_frame")
    r = S.m(a, "is_inside", x + t, in_global_frame=True) if glob else S.m(a, "is_inside", x, in_global_frame=False)
    S.ensure("inside only if no part is free", S.Iff(r, S.And(g_out <= 1, S.forall(n, lambda j: S.at(g, j) <= 1))))
