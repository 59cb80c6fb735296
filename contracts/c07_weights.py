"""C07: obstacle importance weights form a (sub-)partition of one.  C08: influence factors stay in [0, 1]."""
from pyvc.contract import contract

MOD = "nonlinear_avoidance.multi_obstacle_avoider:"
MA = MOD + "MultiObstacleAvoider"
RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"
NR = "nonlinear_avoidance.nonlinear_rotation_avoider:"
HULL = "nonlinear_avoidance.multi_hull_and_obstacle:"
SEG = "nonlinear_avoidance.dynamics.segmented_dynamics:"
PRD = "nonlinear_avoidance.dynamics.projected_rotation_dynamics:ProjectedRotationDynamics"


def all_in(S, w, n, lo=0, hi=1):
    return S.forall(n, lambda j: S.within(lo, S.at(w, j), hi))


@contract("C07", MOD + "compute_gamma_weights")
def distance_weights_are_a_subpartition(S):
    n = S.size("n", 1, 5)
    d = S.arr("distances", n, -3, 50)
    m, p = S.real("min_distance", -2, 2), S.choice("power", [1, 2])
    d0 = S.copy(d)
    w = S.fn(MOD + "compute_gamma_weights")(d, m, p)
    S.ensure("one weight per obstacle", S.eq(S.len(w), n))
    S.ensure("weights between 0 and 1", all_in(S, w, n))
    S.ensure("weights sum to at most one", S.le(S.sum(w), 1))
    contact = S.exists(n, lambda j: S.at(d, j) <= m)
    S.ensure("an obstacle in contact takes all the weight", S.Implies(contact, S.eq(S.sum(w), 1)))
    S.ensure("in contact, obstacles further away get nothing",
             S.Implies(contact, S.forall(n, lambda j: S.Implies(S.at(d, j) > m, S.eq(S.at(w, j), 0)))))
    S.ensure("every obstacle has an influence when there is no contact",
             S.Implies(S.Not(contact), S.forall(n, lambda j: S.at(w, j) > 0)))
    S.ensure("distances unchanged", S.eq(d, d0))


@contract("C07", MOD + "compute_gamma_weights")
def closer_obstacles_weigh_more(S):
    n = S.size("n", 2, 5)
    d = S.arr("distances", n, 1.01, 50)
    w = S.fn(MOD + "compute_gamma_weights")(d, 1, 1)
    S.ensure("closer obstacle has the larger weight",
             S.Implies(S.at(d, 0) <= S.at(d, 1), S.ge(S.at(w, 0), S.at(w, 1))))


@contract("C07", MOD + "get_limited_weights_to_max_sum")
def limited_weights_sum_to_at_most_one(S):
    n = S.size("n", 1, 5)
    w0 = S.arr("weights", n, 0, 3)
    keep = S.copy(w0)
    w, total = S.fn(MOD + "get_limited_weights_to_max_sum")(w0)
    S.ensure("weights between 0 and 1", all_in(S, w, n))
    S.ensure("returned total is the sum", S.eq(S.sum(w), total))
    S.ensure("total at most one", S.le(total, 1))
    S.ensure("small weights are kept", S.Implies(S.sum(keep) < 1 - 1e-9, S.forall(n, lambda j: S.eq(S.at(w, j), S.at(keep, j)))))
    S.ensure("large weights are scaled to a total of one", S.Implies(S.sum(keep) > 1 + 1e-9, S.eq(total, 1)))
    S.ensure("saturated weights take everything", S.Implies(
        S.exists(n, lambda j: S.at(keep, j) >= 1),
        S.forall(n, lambda j: S.Implies(S.at(keep, j) < 1, S.eq(S.at(w, j), 0)))))
    S.ensure("zero weight stays zero", S.forall(n, lambda j: S.Implies(S.eq(S.at(keep, j), 0, 1e-12), S.eq(S.at(w, j), 0))))
    S.ensure("input unchanged", S.eq(w0, keep))


@contract("C07", MA + ".compute_weights_from_distances")
def component_weights_are_a_subpartition(S):
    n = S.size("n", 1, 5)
    d = S.arr("distances", n, -3, 50)
    m = S.real("distance_min", -2, 2)
    norm = S.bool("normalize")
    d0 = S.copy(d)
    w = S.m(S.cls(MA), "compute_weights_from_distances", d, m, normalize=norm)
    contact = S.exists(n, lambda j: S.at(d, j) <= m)
    S.ensure("weights are not negative", S.forall(n, lambda j: S.ge(S.at(w, j), 0)))
    S.ensure("an obstacle in contact takes all the weight", S.Implies(contact, S.eq(S.sum(w), 1)))
    S.ensure("in contact, obstacles further away get nothing",
             S.Implies(contact, S.forall(n, lambda j: S.Implies(S.at(d, j) > m, S.eq(S.at(w, j), 0)))))
    S.ensure("every obstacle has an influence when there is no contact",
             S.Implies(S.Not(contact), S.forall(n, lambda j: S.at(w, j) > 0)))
    if norm:
        S.ensure("normalized weights sum to at most one", S.le(S.sum(w), 1))
        S.ensure("normalized weights between 0 and 1", all_in(S, w, n))
    S.ensure("distances unchanged", S.eq(d, d0))


@contract("C07", "nonlinear_avoidance.multihull_convergence:get_weight_gamma_for_hulls")
def hull_weights_are_a_partition(S):
    n = S.size("n", 1, 5)
    g = S.arr("gammas", n, 0, 50)
    g0 = S.copy(g)
    w = S.fn("nonlinear_avoidance.multihull_convergence:get_weight_gamma_for_hulls")(g)
    free = S.exists(n, lambda j: S.at(g, j) > 1)
    S.ensure("weights between 0 and 1", all_in(S, w, n))
    S.ensure("partition of one when inside of a hull", S.Implies(free, S.eq(S.sum(w), 1)))
    S.ensure("no weight outside of a hull", S.forall(n, lambda j: S.Implies(S.at(g, j) <= 1, S.eq(S.at(w, j), 0))))
    S.ensure("gammas unchanged", S.eq(g, g0))


@contract("C07", MA + ".evaluate_occlusion_array")
def occlusion_weights_are_a_partition(S):
    n = S.size("n", 1, 5)
    w0 = S.arr("weights", n, -3, 3)
    keep = S.copy(w0)
    w = S.m(S.cls(MA), "evaluate_occlusion_array", w0)
    S.ensure("weights between 0 and 1", all_in(S, w, n))
    S.ensure("weights sum to one", S.eq(S.sum(w), 1))
    S.ensure("occluded components get nothing while another is visible", S.Implies(
        S.exists(n, lambda j: S.at(keep, j) > 0),
        S.forall(n, lambda j: S.Implies(S.at(keep, j) <= 0, S.eq(S.at(w, j), 0)))))
    S.ensure("input unchanged", S.eq(w0, keep))


def _gamma_obstacles(S, n, name="gamma", lo=0, hi=50):
    g = [S.real(f"{name}{i}", lo, hi) for i in range(n)]
    return g, [S.mock(methods={"get_gamma": (lambda i: lambda o, p, in_global_frame=False, **k: g[i])(i)}) for i in range(n)]


@contract("C07", "nonlinear_avoidance._base_multiobstacle:BaseMulitObstacle._evaluate_weights")
def base_multi_obstacle_weights(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    g, obs = _gamma_obstacles(S, n)
    o = S.mock(cls="nonlinear_avoidance._base_multiobstacle:BaseMulitObstacle", fields=dict(n_elements=n, all_obstacles=obs))
    S.m(o, "_evaluate_weights", S.vec("position", D))
    w, gl = S.get(o, "weights"), S.get(o, "gamma_list")
    _free_space_weights(S, n, g, w, gl)


def _free_space_weights(S, n, g, w, gl):
    S.ensure("weights between 0 and 1", S.And(*[S.within(0, w[i], 1) for i in range(n)]))
    S.ensure("partition of one in free space", S.Implies(S.Or(*[g[i] > 1.001 for i in range(n)]), S.eq(S.sum(w), 1)))
    S.ensure("no weight behind the wall", S.And(*[S.Implies(g[i] <= 1, S.eq(w[i], 0)) for i in range(n)]))
    S.ensure("distances stored", S.And(*[S.eq(gl[i], g[i]) for i in range(n)]))


@contract("C07", HULL + "MultiHullAndObstacle._evaluate_weights")
def multi_hull_weights(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    g, obs = _gamma_obstacles(S, n)
    o = S.raw(HULL + "MultiHullAndObstacle", inner_obstacles=obs[:-1], outer_obstacle=obs[-1])
    S.m(o, "_evaluate_weights", S.vec("position", D))
    _free_space_weights(S, n, g, S.get(o, "weights"), S.get(o, "gamma_list"))


@contract("C07", NR + "SingularityConvergenceDynamics.compute_gamma_weights")
def convergence_obstacle_weights(S):
    D = S.dim()
    n = S.int("n", 0, 3)
    g, obs = _gamma_obstacles(S, n, lo=0)
    rot = S.mock(fields=dict(obstacle_environment=obs, cut_off_gamma=10))
    o = S.raw(NR + "SingularityConvergenceDynamics", _rotation_avoider=rot)
    ind = S.m(o, "compute_gamma_weights", S.vec("position", D))
    w = S.get(o, "weights")
    S.ensure("one weight per obstacle", S.eq(S.len(w), n))
    S.ensure("weights between 0 and 1", S.And(True, *[S.within(0, w[i], 1) for i in range(n)]))
    near = S.Or(False, *[g[i] < 9.99 for i in range(n)])
    S.ensure("weights of the influencing obstacles sum to one", S.Implies(near, S.eq(S.sum(w), 1)))
    S.ensure("no weight beyond the cut-off distance", S.And(True, *[S.Implies(g[i] >= 10, S.eq(w[i], 0)) for i in range(n)]))
    touch = S.Or(False, *[g[i] <= 1 for i in range(n)])
    S.ensure("in contact, obstacles further away get nothing",
             S.And(True, *[S.Implies(S.And(touch, g[i] > 1), S.eq(w[i], 0)) for i in range(n)]))


@contract("C07", SEG + "WavyPathFollowing.get_weights", timeout_ms=20000)
def path_weights_off_the_segments(S):
    """any number of segments, none of them touched"""
    n = S.size("n_segments", 1, 5)
    dist = S.arr("distances", n, 0.01, 20)
    x, t = S.vec("position", 2), S.vec("to_attractor", 2)
    d = S.unit("direction", 2)
    S.lemma_cauchy(t, d)
    segs = S.objects(n, lambda j: S.mock(fields={"direction": d}, methods={"get_distance": lambda o, position: S.ite(S.eq(position, x), S.at(dist, j), 1000)}))
    w = S.m(S.raw(SEG + "WavyPathFollowing", segments=segs, attractor_position=x + t), "get_weights", x)
    S.ensure("one weight per segment and one for the attractor", S.eq(S.len(w), n + 1))
    S.ensure("no negative weight", S.forall(n + 1, lambda j: S.ge(S.at(w, j), 0)))
    S.ensure("weights sum to one", S.eq(S.sum(w), 1))
    S.ensure("close to a segment the attractor has no weight",
             S.Implies(S.And(S.dot(t, d) >= 0, S.exists(n, lambda j: S.at(dist, j) <= 3)), S.eq(S.at(w, n), 0)))


@contract("C07", SEG + "WavyPathFollowing.get_weights", timeout_ms=20000)
def path_weights_on_the_segments(S):
    """any number of segments, at least one of them touched"""
    n = S.size("n_segments", 1, 5)
    dist = S.arr("distances", n, 0, 20)
    touched = S.index("touched", n)

    def away(j):
        return S.ite(touched == j, 0, S.at(dist, j))
    x = S.vec("position", 2)
    segs = S.objects(n, lambda j: S.mock(fields={"direction": S.array([1, 0])}, methods={"get_distance": lambda o, position: S.ite(S.eq(position, x), away(j), 1000)}))
    w = S.m(S.raw(SEG + "WavyPathFollowing", segments=segs, attractor_position=x), "get_weights", x)
    S.ensure("one weight per segment and one for the attractor", S.eq(S.len(w), n + 1))
    S.ensure("no negative weight", S.forall(n + 1, lambda j: S.ge(S.at(w, j), 0)))
    S.ensure("weights sum to one", S.eq(S.sum(w), 1))
    S.ensure("on a segment only the segments touched count", S.And(S.eq(S.at(w, n), 0), S.at(w, touched) > 0,
             S.forall(n, lambda j: S.Implies(away(j) > 1e-6, S.eq(S.at(w, j), 0)))))


@contract("C07", SEG + "WavyPathFollowing.get_weights")
def path_segment_weights_are_a_partition(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    dist = [S.real(f"distance{i}", 0, 20) for i in range(n)]
    segs = [S.mock(fields=dict(direction=S.unit(f"direction{i}", D)),
                   methods={"get_distance": (lambda i: lambda o, p: dist[i])(i)}) for i in range(n)]
    p = S.vec("position", D)
    a = S.vec("attractor", D)
    S.lemma_cauchy(a - p, S.get(segs[-1], "direction"))
    w = S.m(S.raw(SEG + "WavyPathFollowing", segments=segs, attractor_position=a), "get_weights", p)
    S.ensure("one weight per segment and one for the attractor", S.eq(S.len(w), n + 1))
    S.ensure("weights between 0 and 1", S.And(*[S.within(0, w[i], 1) for i in range(n + 1)]))
    S.ensure("weights sum to one", S.eq(S.sum(w), 1))
    on = S.Or(*[dist[i] <= 0 for i in range(n)])
    S.ensure("on a segment only the segments touched count", S.Implies(on, S.And(*[
        S.Implies(dist[i] > 0.001, S.eq(w[i], 0)) for i in range(n)])))


@contract("C07", "nonlinear_avoidance.gmm_obstacle:GmmObstacle.evaluate_gamma_weights")
def gmm_component_weights(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    g = [S.real(f"gamma{i}", 0, 50) for i in range(n)]
    f = [S.real(f"occlusion{i}", 0, 1) for i in range(n)]
    o = S.mock(cls="nonlinear_avoidance.gmm_obstacle:GmmObstacle", fields=dict(n_gmms=n), methods={
        "get_gamma_proportional": lambda o, p, i: g[int(i)],
        "get_obstacle_occlusion_factor": lambda o, p, *a: S.array(f)})
    S.m(o, "evaluate_gamma_weights", S.vec("position", D))
    w = S.get(o, "relative_weights")
    S.ensure("weights between 0 and 1", S.And(*[S.within(0, w[i], 1) for i in range(n)]))
    touch = S.Or(*[g[i] <= 1 for i in range(n)])
    S.ensure("in contact, components further away get nothing",
             S.And(*[S.Implies(S.And(touch, g[i] > 1), S.eq(w[i], 0)) for i in range(n)]))
    S.ensure("weights sum to one", S.Implies(S.Or(touch, *[f[i] > 0.001 for i in range(n)]), S.eq(S.sum(w), 1)))


@contract("C07", MA + ".compute_averaged_normal_and_gamma")
def averaged_normal_is_a_subconvex_combination(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    g = [S.real(f"gamma{i}", 0.01, 50) for i in range(n)]
    ns = [S.unit(f"normal{i}", D) for i in range(n)]
    obs = [S.mock(methods={"get_gamma": (lambda i: lambda o, p, in_global_frame=False: g[i])(i),
                           "get_normal_direction": (lambda i: lambda o, p, in_global_frame=False: S.copy(ns[i]))(i)})
           for i in range(n)]
    av = S.raw(MA, tree_list=[S.mock(fields=dict(_obstacle_list=obs))])
    normal, gm = S.m(av, "compute_averaged_normal_and_gamma", S.vec("position", D))
    S.lemma_triangle(normal)
    S.ensure("closest distance", S.eq(gm, S.min(*g)))
    S.ensure("averaged normal is not longer than a unit vector", S.le(S.norm(normal), 1))
    if n > 1:
        S.ensure("the touching obstacle alone gives the normal",
                 S.Implies(S.And(g[0] <= 1, *[x > 1.001 for x in g[1:]]), S.eq(normal, ns[0])))
