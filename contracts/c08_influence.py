"""C08: influence factors stay in [0, 1], are full at contact and do not grow with the distance."""
from pyvc.contract import contract

MOD = "nonlinear_avoidance.multi_obstacle_avoider:"
MA = MOD + "MultiObstacleAvoider"
RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"
NR = "nonlinear_avoidance.nonlinear_rotation_avoider:"
HULL = "nonlinear_avoidance.multi_hull_and_obstacle:"
PRD = "nonlinear_avoidance.dynamics.projected_rotation_dynamics:ProjectedRotationDynamics"
GMM = "nonlinear_avoidance.gmm_obstacle:GmmObstacle"


def gamma_obstacle(value, **extra):
    return dict(methods={"get_gamma": lambda o, p, in_global_frame=False: value}, **extra)


@contract("C08", NR + "get_convergence_weight")
def convergence_weight(S):
    f = S.fn(NR + "get_convergence_weight")
    g, h = S.real("gamma", 0, 50), S.real("gamma2", 0, 50)
    w = f(g)
    S.ensure("between 0 and 1", S.And(w > 0, S.le(w, 1)))
    S.ensure("full influence at contact", S.Implies(g <= 1, S.eq(w, 1)))
    S.ensure("decays with the distance", S.Implies(g <= h, S.ge(w, f(h))))
    S.ensure("partial influence away from the surface", S.Implies(g > 1.001, w < 1))


@contract("C08", NR + "ConvergenceDynamicsWithoutSingularity.evaluate_projected_weight")
def projected_weight_without_singularity(S):
    D = S.dim()
    g = S.real("gamma", 0, 50)
    o = S.raw(NR + "ConvergenceDynamicsWithoutSingularity")
    w = S.m(o, "evaluate_projected_weight", S.vec("position", D), S.mock(**gamma_obstacle(g)))
    S.ensure("between 0 and 1", S.And(w > 0, S.le(w, 1)))
    S.ensure("full influence at contact", S.Implies(g <= 1, S.eq(w, 1)))
    S.ensure("decays with the distance", S.Implies(g >= 1, S.eq(w * g, 1)))


@contract("C08", PRD + ".evaluate_projected_weight")
def projected_weight_with_singularity(S):
    D = S.dim()
    p, q = S.vec("position", D), S.vec("projected", D)
    g, pg = S.real("gamma", 0, 50), S.real("projected_gamma", 0, 50)
    S.assume(S.norm(p - q) > 0.01)
    obs = S.mock(methods={"get_gamma": lambda o, x, in_global_frame=False: S.ite(S.eq(x, q), pg, g)})
    o = S.mock(cls=PRD, fields=dict(_pos=p), methods={"get_projected_position": lambda o, x, *a, **k: S.copy(q)})
    w = S.m(o, "evaluate_projected_weight", p, obs)
    S.ensure("between 0 and 1", S.And(w > 0, S.le(w, 1)))
    S.ensure("full influence at contact", S.Implies(S.Or(g <= 1, pg <= 1), S.eq(w, 1)))
    S.ensure("partial influence away from the surface", S.Implies(S.And(g > 1.1, pg > 1.1), w < 1))
    S.ensure("influence decays with both distances",
             S.Implies(S.And(g > 1, pg > 1), S.eq(w * w * ((pg - 1) * (g - 1) + 1), 1)))


@contract("C08", MA + ".compute_tree_weight")
def tree_weight(S):
    D = S.dim()
    g, lim = S.real("gamma", 0, 50), S.real("limit", 1.01, 20)
    att = S.vec("attractor", D)
    some = S.bool("has_singularity")
    av = S.raw(MA, initial_dynamics=S.mock(fields=dict(attractor_position=att) if some else {}, absent=() if some else ("attractor_position",)))
    w = S.m(av, "compute_tree_weight", S.mock(**gamma_obstacle(g)), lim)
    S.ensure("between 0 and 1", S.within(0, w, 1))
    if some:
        S.ensure("no influence when the attractor lies inside", S.Implies(g <= 1, S.eq(w, 0)))
        S.ensure("full influence beyond the limit", S.Implies(g >= lim, S.eq(w, 1)))
        S.ensure("linear in between", S.Implies(S.And(g >= 1, g <= lim), S.eq(w * (lim - 1), g - 1)))
    else:
        S.ensure("full influence without attractor", S.eq(w, 1))


@contract("C08", RA + ".get_rotation_weight")
def rotation_weight(S):
    D = S.dim()
    n, r, c = S.unit("normal", D), S.unit("reference", D), S.unit("convergence", D)
    g = S.real("gamma", 0, 50)
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75, S.pi])
    w = S.defined(lambda: S.m(S.cls(RA), "get_rotation_weight", n, r, c, g, convergence_radius=rad,
                              smooth_continuation_power=S.real("power", 0, 1)))
    if S.raised(w, "undefined"):
        return          # reference and convergence direction coincide: 1 / 0 as the exponent
    S.ensure("between 0 and 1", S.within(0, w, 1))
    S.ensure("full influence at contact", S.Implies(g <= 1, S.eq(w, 1)))
    S.ensure("decays at least with the distance", S.Implies(g >= 1, S.le(w * g, 1)))


@contract("C08", RA + ".get_smooth_continuation_weight")
def smooth_continuation_weight(S):
    D = S.dim()
    base = S.obasis("base", D)
    r, c = S.unit("reference", D), S.unit("convergence", D)
    g = S.real("gamma", 0.01, 50)
    av = S.raw(RA, convergence_radius=S.pi / 2, smooth_continuation_power=S.real("power", 0, 1))
    S.assume(S.abs(S.dot(base[:, 0], r)) > 0.0001)
    w = S.m(av, "get_smooth_continuation_weight", g, r, c, base)
    S.ensure("between 0 and 1", S.within(0, w, 1))
    S.ensure("full influence at contact", S.Implies(g <= 1, S.eq(w, 1)))
    S.ensure("decays at least with the distance", S.Implies(g >= 1, S.le(w * g, 1)))


@contract("C08", HULL + "get_boundary_intersection_weight")
def boundary_intersection_weight(S):
    D = S.dim()
    go, gi, gp = S.real("gamma_outer", 0, 5), S.real("gamma_inner", 0, 5), S.real("gamma_projected", 0, 50)
    p, q = S.vec("position", D), S.vec("on_surface", D)
    S.assume(S.norm(p - q) > 0.01)
    outer = S.mock(methods={"get_gamma": lambda o, x, in_global_frame=False: go,
                            "get_point_on_surface": lambda o, x, in_global_frame=False: S.copy(q)})
    inner = S.mock(methods={"get_gamma": lambda o, x, in_global_frame=False: S.ite(S.eq(x, q), gp, gi)})
    w = S.fn(HULL + "get_boundary_intersection_weight")(p, inner, outer)
    S.ensure("between 0 and 1", S.within(0, w, 1))
    S.ensure("no influence inside the inner or outside of the outer obstacle", S.Implies(S.Or(gi <= 1, go >= 1), S.eq(w, 0)))
    S.ensure("full influence where the projection is inside the inner obstacle",
             S.Implies(S.And(gi > 1, go < 1, gp <= 1), S.eq(w, 1)))


@contract("C08", RA + "._get_directional_deviation_weight")
def directional_deviation_weight(S):
    w0, d = S.real("weight", 0, 1), S.real("deviation", -1, 2)
    w = S.m(S.cls(RA), "_get_directional_deviation_weight", w0, d)
    S.ensure("between 0 and 1", S.within(0, w, 1))
    S.ensure("nothing without a deviation", S.Implies(d <= 0, S.eq(w, 0)))
    S.ensure("full at maximal deviation or weight", S.Implies(S.And(d > 0, S.Or(d >= 1, w0 >= 1)), S.eq(w, 1)))
    S.ensure("no weight stays no weight", S.Implies(S.And(S.eq(w0, 0, 0), d < 1), S.eq(w, 0)))


@contract("C08", RA + "._get_nonlinear_inverted_weight")
def nonlinear_inverted_weight(S):
    w0, c, nl, r = S.real("weight", 0, 1), S.real("convergence_norm", 0, 7), S.real("nonlinear_norm", 0, 7), S.real("radius", 0, 4)
    w = S.m(S.cls(RA), "_get_nonlinear_inverted_weight", c, nl, r, w0)
    S.ensure("between 0 and the given weight", S.within(0, w, w0))
    S.ensure("nothing within the radius", S.Implies(nl <= r, S.eq(w, 0)))
    S.ensure("kept when only the nonlinear direction is outside", S.Implies(S.And(nl > r, c <= r), S.eq(w, w0)))
    S.ensure("shared proportionally otherwise", S.Implies(S.And(nl > r, c > r), S.eq(w * (nl - r + c - r), w0 * (nl - r))))


@contract("C08", MA + ".compute_convergence_radiuses")
def convergence_radiuses(S):
    D = S.dim()
    n = S.int("n", 1, 2)
    g = [S.real(f"gamma{i}", 0, 5) for i in range(n)]
    p = S.vec("position", D)
    cen = [S.vec(f"center{i}", D) for i in range(n)]
    srf = [S.vec(f"surface{i}", D) for i in range(n)]
    for i in range(n):
        S.assume(S.norm(srf[i] - cen[i]) > 0.01)
        S.assume(S.norm(p - cen[i]) <= S.norm(srf[i] - cen[i]))
    comp = [S.mock(fields=dict(center_position=cen[i]),
                   methods={"get_intersection_with_surface": (lambda i: lambda o, *a, **k: S.copy(srf[i]))(i)}) for i in range(n)]
    tree = S.mock(fields=dict(comp=comp), methods={"get_component": lambda o, i: comp[int(i)]})
    R = S.real("convergence_radius", 1, 3.1)
    some = S.bool("has_limit")
    lim = S.real("maximum_repulsion", 0, 0.99)
    av = S.raw(MA, convergence_radius=R, gamma_maximum_repulsion=lim if some else None)
    out = S.m(av, "compute_convergence_radiuses", S.array(g), p, tree)
    S.ensure("one radius per component", S.eq(S.len(out), n))
    for i in range(n):
        S.ensure("between the set radius and full repulsion", S.within(R, out[i], S.pi))
        S.ensure("set radius outside of the component", S.Implies(g[i] >= 1, S.eq(out[i], R)))
        if not some:
            S.ensure("set radius without limit", S.eq(out[i], R))


@contract("C08", MA + ".compute_single_occlusion_weight")
def single_occlusion_weight(S):
    g = S.real("gamma", 0, 50)
    w = S.m(S.cls(MA), "compute_single_occlusion_weight", g)
    S.ensure("at most 1", S.le(w, 1))
    S.ensure("positive only outside", S.Iff(w > 0, g > 1))


@contract("C08", MA + ".compute_parent_occlusion_weight")
def parent_occlusion_weight(S):
    D = S.dim()
    n = S.int("n", 1, 2)
    p = S.vec("position", D)
    ref = [S.vec(f"reference{i}", D) for i in range(n)]
    g = [S.real(f"gamma{i}", 0, 10) for i in range(n)]
    og = [S.real(f"occlusion{i}", 0, 5) for i in range(n)]
    srf = [S.vec(f"surface{i}", D) for i in range(n)]
    root = S.int("root", 0, 1)
    S.assume(root < n)
    for i in range(n):
        S.assume(S.norm(p - ref[i]) > 0.01)
        S.assume(S.norm(p - srf[i]) > 0.01)
        if i != root:
            S.assume(S.norm(ref[root] - ref[i]) > 0.01)
    comp = [S.mock(methods={
        "get_reference_direction": (lambda i: lambda o, x, in_global_frame=False: ref[i] - x)(i),
        "get_intersection_with_surface": (lambda i: lambda o, x, d, in_global_frame=False: S.copy(srf[i]))(i),
        "get_reference_point": (lambda i: lambda o, in_global_frame=False: S.copy(ref[i]))(i),
        "get_gamma": (lambda i: lambda o, x, in_global_frame=False: S.ite(S.eq(x, p), g[i], og[i]))(i)}) for i in range(n)]
    tree = S.mock(fields=dict(root_idx=root, n_components=n, comp=comp), methods={
        "get_component": lambda o, i: comp[int(i)], "get_parent_idx": lambda o, i: root, "__iter__": lambda o: iter(comp)})
    w = S.m(S.raw(MA), "compute_parent_occlusion_weight", p, tree)
    S.ensure("one weight per component", S.eq(S.len(w), n))
    for i in range(n):
        S.ensure("between 0 and 1", S.within(0, w[i], 1))
    S.ensure("the root is never occluded", S.eq(w[root], 1))
    S.ensure("visible components have full weight", S.Implies(og[root] >= 1, S.And(*[S.eq(w[i], 1) for i in range(n)])))


@contract("C08", GMM + ".get_obstacle_occlusion_factor")
def gmm_occlusion_factor(S):
    D = S.dim()
    n = S.int("n", 1, 2)
    p = S.vec("position", D)
    ref = S.vecs("reference", n, D)
    mean = S.vec("mean", D)
    og = S.real("occlusion", 0, 5)
    for i in range(n):
        S.assume(S.norm(p - S.col(ref, i)) > 0.01)
        S.assume(S.norm(mean - S.col(ref, i)) > 0.01)
    graph = S.mock(methods={"get_parent": lambda o, i: None if int(i) == 0 else 0})
    means = S.mock(methods={"__getitem__": lambda o, k: S.copy(mean)})
    o = S.mock(cls=GMM, fields=dict(n_gmms=n, _reference_points=ref, gmm_index_graph=graph, _gmm=S.mock(fields=dict(means_=means))),
               methods={"project_point_on_surface_with_offcenter_point": lambda o, *a: S.copy(p),
                        "get_gamma_proportional": lambda o, x, i: og})
    w = S.m(o, "get_obstacle_occlusion_factor", p)
    for i in range(n):
        S.ensure("between 0 and 1", S.within(0, w[i], 1))
    S.ensure("components without parent are visible", S.eq(w[0], 1))
    S.ensure("visible from outside of the parent", S.Implies(og >= 1, S.And(*[S.eq(w[i], 1) for i in range(n)])))
