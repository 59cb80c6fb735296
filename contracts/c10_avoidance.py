"""C10: the modulated velocity is tangent at contact, never faster than the nominal one, and the nominal one without obstacles."""
from pyvc.contract import contract

MOD = "nonlinear_avoidance.multi_obstacle_avoider:"
MA = MOD + "MultiObstacleAvoider"
RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"
VR = "nonlinear_avoidance.vector_rotation:"


def dynamics(S, D, v, attractor=None, magnitude=None):
    fields = dict(dimension=S.dval(D))
    if attractor is not None:
        fields["attractor_position"] = attractor
    methods = {"evaluate": lambda o, x: S.copy(v)}
    absent = ["evaluate_dynamics_sequence"] + ([] if attractor is not None else ["attractor_position"])
    if magnitude is not None:
        methods["evaluate_magnitude"] = lambda o, x: magnitude
    else:
        absent.append("evaluate_magnitude")
    return S.mock(fields=fields, methods=methods, absent=absent)


@contract("C10", MA + ".evaluate_sequence", MA + ".evaluate", modular=(VR + "VectorRotationXd.from_directions",), timeout_ms=20000)
def without_obstacles_the_motion_is_unchanged(S):
    D = S.dim()
    v, x = S.vec("velocity", D), S.vec("position", D)
    S.assume(S.norm(v) > 0.001)
    a = S.bool("attractor")
    att = None
    if a:
        att = S.vec("attractor", D)
        S.assume(S.norm(att - x) > 0.001)
        b, u = (att - x) / S.norm(att - x), v / S.norm(v)
        S.assume(S.And(S.norm(b - u) > 0.003, S.norm(b + u) > 0.003))
    scaled = S.bool("own_magnitude")
    m = S.real("magnitude", 0, 10) if scaled else None
    av = S.new(MA, initial_dynamics=dynamics(S, D, v, att, m), obstacle_container=[])
    out = S.m(av, "evaluate", x)
    if scaled:
        S.ensure("nominal direction at the dynamics' magnitude", S.eq(out, v / S.norm(v) * m))
    else:
        S.ensure("nominal velocity", S.eq(out, v))


@contract("C10", MA + ".evaluate_sequence")
def at_rest_it_stays_at_rest(S):
    D = S.dim()
    x = S.vec("position", D)
    at = S.bool("at_attractor")
    att = x if at else S.vec("attractor", D)
    v = x * 0
    obs = S.int("n_obstacles", 0, 1)
    av = S.new(MA, initial_dynamics=dynamics(S, D, v, att), obstacle_container=[S.mock() for _ in range(obs)])
    S.ensure("zero velocity", S.eq(S.norm(S.m(av, "evaluate", x)), 0))


def obstacle(S, gamma, linear=None):
    twist = None if linear is None else S.mock(fields=dict(linear=linear, angular=None))
    return S.mock(methods={"get_gamma": lambda o, x, in_global_frame: gamma, "get_pose": lambda o: None},
                  fields=dict(twist=twist), absent=("deformation_rate",))


@contract("C10", MA + ".evaluate_sequence", timeout_ms=20000)
def never_faster_than_nominal_and_along_the_avoidance_direction(S):
    D = S.dim()
    v, x, f = S.vec("velocity", D), S.vec("position", D), S.unit("avoidance_direction", D)
    S.assume(S.norm(v) > 0.001)
    n = S.int("n_branches", 0, 2)
    moving = S.bool("moving")
    gamma = S.choice("gamma", [0.5, 1]) if moving else S.real("gamma", 0.5, 30)
    u = S.vec("obstacle_velocity", D) if moving else None
    ws = [S.real(f"weight{i}", 0.001, 1) for i in range(n)]
    S.assume(sum(ws) <= 1)
    normals = [S.unit(f"normal{i}", D) for i in range(n)]
    rot = [S.real("rotation_weight", 0, 1)]
    prox = [S.real("proximity", -1, 1)]
    seen = []
    first, second = S.mock(), S.mock(methods={"get_end_vector": lambda o: S.copy(f)})

    def conv(o, position, sequence):
        seen.append((position, sequence))
        return first

    def avoid(o, position, sequence):
        seen.append((position, sequence is first))
        S.set(o, "_cluster_weights", S.array(ws))
        S.set(o, "_normal_vectors", list(normals))
        S.set(o, "_rotation_weights", rot)
        S.set(o, "_convergence_reference_proximity", prox)
        return second
    for nv in normals:
        S.lemma_cauchy(f, nv)
    av = S.mock(cls=MA, fields=dict(initial_dynamics=dynamics(S, D, v), tree_list=[obstacle(S, gamma, u)]), methods={
        "compute_convergence_sequence": conv, "evaluate_avoidance_from_sequence": avoid})
    mean = sum((nv * w for nv, w in zip(normals, ws)), f * 0)
    if n:
        S.lemma_cauchy(f, mean)
        S.assume(S.norm(mean) <= 1)
    out = S.m(av, "evaluate", x)
    rel = u if moving else x * 0
    own = out - rel
    S.ensure("convergence first, then avoidance, at the robot's position", S.And(len(seen) == 2, S.eq(seen[0][0], x), S.eq(seen[1][0], x), seen[1][1]))
    S.ensure("the initial sequence leads to the nominal direction", S.eq(S.m(seen[0][1], "get_end_vector") * S.norm(v), v))
    S.ensure("along the avoidance direction in the frame of the obstacles", S.eq(own, f * S.norm(own)))
    S.ensure("never faster than the nominal velocity", S.le(S.norm(own), S.norm(v)))
    if n == 0:
        S.ensure("nominal speed when no obstacle has influence", S.eq(S.norm(own), S.norm(v)))
    elif S.true(S.And(S.dot(mean, f) > 0.001, prox[0] <= 0)):
        S.ensure("nominal speed when leaving the obstacles", S.eq(S.norm(own), S.norm(v)))
    elif n == 1 and S.true(S.And(ws[0] >= 1, S.dot(mean, f) < -0.0011)):
        S.ensure("stops in front of a surface in contact", S.eq(S.norm(own), 0))


@contract("C10", MA + ".compute_gamma_and_weights", modular=(RA + ".get_rotation_weight",), timeout_ms=20000)
def component_weights_share_the_rotation_weight(S):
    D = S.dim()
    x, v = S.vec("position", D), S.unit("velocity", D)
    n = S.int("n_components", 1, 3)
    root = S.int("root", 0, n - 1)
    gs = [S.real(f"gamma{i}", 0, 30) for i in range(n)]
    normal, ref = S.unit("normal", D), S.unit("reference", D)
    S.assume(S.And(S.norm(v - ref) > 0.001, S.norm(v + ref) > 0.001))

    def comp(i):
        ms = {"get_gamma": lambda o, p, in_global_frame: gs[i]}
        if i == root:
            ms["get_normal_direction"] = lambda o, p, in_global_frame: S.copy(normal)
            ms["get_reference_direction"] = lambda o, p, in_global_frame: S.copy(ref)
        return S.mock(methods=ms)
    comps = [comp(i) for i in range(n)]
    tree = S.mock(fields=dict(n_components=n, root_idx=root), methods={"get_component": lambda o, i: comps[i]})
    av = S.raw(MA, _rotation_weights=[], _convergence_reference_proximity=[], smooth_continuation_power=S.real("power", 0, 1))
    gammas, w = S.m(av, "compute_gamma_and_weights", position=x, obstacle=tree, base_velocity=v)
    rot = S.get(av, "_rotation_weights")
    S.ensure("one rotation weight is stored", len(rot) == 1)
    S.ensure("rotation weight between 0 and 1", S.within(0, rot[0], 1))
    S.ensure("proximity of the velocity to the reference direction is stored",
             S.eq(S.get(av, "_convergence_reference_proximity")[0], S.dot(v, ref)))
    S.ensure("weights of the components are not negative", S.And(*[S.ge(w[i], 0) for i in range(n)]))
    S.ensure("weights share the rotation weight", S.eq(S.sum(w), rot[0]))
    S.ensure("distances of the components", S.Implies(rot[0] > 0, S.And(*[S.eq(gammas[i], gs[i]) for i in range(n)])))
    S.ensure("full weight in contact", S.Implies(S.Or(*[g <= 1 for g in gs]), S.eq(S.sum(w), 1)))
    S.ensure("in contact only touching components have weight", S.Implies(
        S.Or(*[g <= 1 for g in gs]), S.And(*[S.Implies(g > 1, S.eq(w[i], 0)) for i, g in enumerate(gs)])))


KEY = MOD + "NodeKey"
LENGTHS = (VR + "rotate_direction#length", VR + "rotate_array#angles", VR + "VectorRotationXd.from_directions")
ANGLES = (VR + "rotate_direction", VR + "rotate_array#angles", VR + "VectorRotationXd.from_directions")
DISTINCT = (VR + "rotate_direction", VR + "rotate_array", VR + "VectorRotationXd.from_directions")


def avoidance(S, D, trees, weights, occlusion, dirs, v, calls=None):
    """evaluate_avoidance_from_sequence with its callees by contract: weights[i][k] >= 0 with a sum of at most one and
    occlusion[i][k] in [0, 1] for component k of tree i; one tangent dirs[i][k] for every component with influence"""
    key = S.fn(KEY)

    def populate(o, obstacle, base_velocity, position, obs_idx, obstacle_weights, start_id, gamma_values=None):
        t = S.get(o, "_tangent_tree")
        S.m(t, "add_node", node_id=key(obs_idx, -1, -1), parent_id=start_id, direction=base_velocity)
        out = []
        for k in range(len(weights[obs_idx])):
            if S.true(obstacle_weights[k] > 0):
                S.m(t, "add_node", node_id=key(obs_idx, k, k), parent_id=key(obs_idx, -1, -1), direction=S.copy(dirs[obs_idx][k]))
                out.append((obs_idx, k, k))
                S.get(o, "_normal_vectors").append(S.copy(dirs[obs_idx][k]))
        if calls is not None:
            calls.append((obs_idx, base_velocity, position, obstacle_weights))
        return out
    av = S.mock(cls=MA, fields=dict(tree_list=trees, _BASE_VEL_ID=key(-1, -1, -1)), methods={
        "compute_gamma_and_weights": lambda o, position, obstacle, base_velocity: ([2.0] * len(weights[trees.index(obstacle)]), S.array(weights[trees.index(obstacle)])),
        "compute_parent_occlusion_weight": lambda o, position, tree: S.array(occlusion[trees.index(tree)]),
        "simple_population_tangent_tree": populate})
    seq = S.mock(methods={"get_end_vector": lambda o: S.copy(v)})
    return av, seq


@contract("C10", MA + ".evaluate_avoidance_from_sequence", timeout_ms=20000, modular=DISTINCT)
def full_influence_gives_the_tangent_and_none_the_motion(S):
    D = S.dim()
    x, r = S.vec("position", D), S.turned("velocity", None, D)
    n = S.int("n_trees", 1, 2)
    k = S.choice("in_contact", [None, 0, 1])
    S.assume(k is None or k < n)
    ds = [S.turned(f"tangent{i}", r) for i in range(n)]
    hidden = S.bool("hidden")
    other = 0 if k is None else S.real("other_weight", 0, 1, hi_open=True)
    ws = [[1.0 if i == k else other] for i in range(n)]
    trees = [S.mock() for _ in range(n)]
    occ = [[0.0 if hidden else 1.0] for _ in range(n)]
    av, seq = avoidance(S, D, trees, ws, occ, [[d.v] for d in ds], r.v)
    out = S.m(av, "evaluate_avoidance_from_sequence", x, seq)
    end = S.m(out, "get_end_vector")
    if k is None or hidden:
        S.ensure("the velocity is kept when no obstacle has influence", S.eq(end, r.v))
        S.ensure("no weights", S.len(S.get(av, "_cluster_weights")) == 0)
    else:
        S.ensure("the tangent of the obstacle in contact", S.eq(end, ds[k].v))
        S.ensure("all weight on the obstacle in contact", S.eq(S.sum(S.get(av, "_cluster_weights")), 1))


@contract("C10", MA + ".evaluate_avoidance_from_sequence", timeout_ms=20000, modular=LENGTHS)
def weights_of_the_branches(S):
    D = S.dim()
    x, r = S.vec("position", D), S.turned("velocity", None, D)
    shape = S.choice("components", [(1,), (2,), (1, 1)])
    w = [[S.real(f"weight{i}{k}", 0, 1) for k in range(m)] for i, m in enumerate(shape)]
    o = [[S.real(f"occlusion{i}{k}", 0, 1) for k in range(m)] for i, m in enumerate(shape)]
    for i in range(len(shape)):
        S.assume(sum(w[i]) <= 1)
    ds = [[S.turned(f"tangent{i}{k}", r) for k in range(m)] for i, m in enumerate(shape)]
    trees = [S.mock() for _ in shape]
    calls = []
    av, seq = avoidance(S, D, trees, w, o, [[d.v for d in y] for y in ds], r.v, calls)
    out = S.m(av, "evaluate_avoidance_from_sequence", x, seq)
    end = S.m(out, "get_end_vector")
    S.ensure("unit direction", S.eq(S.norm(end), 1))
    S.ensure("every tree is asked once with the convergence velocity at the robot", S.And([c[0] for c in calls] == list(range(len(shape))), *[
        S.And(S.eq(c[1], r.v), S.eq(c[2], x), *[S.eq(c[3][k], w[i][k] * o[i][k]) for k in range(shape[i])]) for i, c in enumerate(calls)]))
    cw = S.get(av, "_cluster_weights")
    used = [S.true(w[i][k] * o[i][k] > 0) for i in range(len(shape)) for k in range(shape[i])]
    S.ensure("one weight and one normal for each branch", S.And(len(cw) == sum(used), len(S.get(av, "_normal_vectors")) == sum(used)))
    S.ensure("weights between 0 and 1", S.And(*[S.within(0, c, 1) for c in cw]))
    S.ensure("weights sum to at most one", S.le(S.sum(cw), 1))
    total = sum(w[i][k] * o[i][k] for i in range(len(shape)) for k in range(shape[i]))
    if len(shape) == 1:
        S.ensure("the influence of the tree is kept", S.eq(S.sum(cw), total))
        if all(used):
            S.ensure("shared in the ratio of the component weights", S.And(*[S.eq(cw[k], w[0][k] * o[0][k]) for k in range(shape[0])]))


ROT = VR + "VectorRotationXd"
SEQ = VR + "VectorRotationSequence"


def one_step(S, start, end):
    return S.m(S.cls(SEQ), "create_from_vector_array", S.stack([S.copy(start), S.copy(end)]))


@contract("C10", MA + ".vector_rotation_reduction", timeout_ms=20000, modular=DISTINCT)
def the_convergence_weight_moves_from_the_local_to_the_obstacle_motion(S):
    D = S.dim()
    r = S.turned("start", None, D)
    f1 = S.turned("local", r)
    a = S.turned("reference", r)
    f2 = S.turned("there", a)
    s1, s2 = one_step(S, r.v, f1.v), one_step(S, a.v, f2.v)
    w = S.choice("weight", [-0.5, 0, 1])
    none = S.bool("no_transform")
    tr = None if none else S.m(S.cls(ROT), "from_directions", S.copy(r.v), S.copy(a.v))
    out = S.m(S.cls(MA), "vector_rotation_reduction", s1, tr, s2, w)
    end = S.m(out, "get_end_vector")
    S.ensure("starts where the local sequence starts", S.eq(S.get(out, "basis_array")[:, 0, 0], r.v))
    if none or w <= 0:
        S.ensure("no weight: the local motion", S.eq(end, f1.v))
    else:
        S.ensure("full weight: the motion at the obstacle", S.eq(end, f2.v))


@contract("C10", MA + ".vector_rotation_reduction", timeout_ms=20000, modular=ANGLES)
def partial_convergence_weight_gives_a_direction(S):
    D = S.dim()
    r = S.turned("start", None, D)
    f1 = S.turned("local", r)
    a = S.turned("reference", r)
    f2 = S.turned("there", a)
    s1, s2 = one_step(S, r.v, f1.v), one_step(S, a.v, f2.v)
    w = S.real("weight", 0, 1, lo_open=True, hi_open=True)
    out = S.m(S.cls(MA), "vector_rotation_reduction", s1, S.m(S.cls(ROT), "from_directions", S.copy(r.v), S.copy(a.v)), s2, w)
    S.ensure("unit direction", S.eq(S.norm(S.m(out, "get_end_vector")), 1))


def avoider(S, D, v, obs, **kw):
    conv = kw.pop("conv", None)
    fields = dict(initial_dynamics=dynamics(S, D, v), obstacle_environment=obs, convergence_system=conv, cut_off_gamma=kw.pop("cut_off", 1e6),
                  smooth_continuation_power=0.3, tail_rotation=False, convergence_radius=S.pi / 2)
    return fields


def local_obstacle(S, gamma, normal, ref, u=None, boundary=False):
    return S.mock(fields=dict(is_boundary=boundary, linear_velocity=u, angular_velocity=None), methods={
        "get_gamma": lambda o, p, in_global_frame: gamma, "get_normal_direction": lambda o, p, in_global_frame: S.copy(normal),
        "get_reference_direction": lambda o, p, in_global_frame: S.copy(ref)})


@contract("C10", RA + ".avoid", RA + ".evaluate", timeout_ms=20000)
def local_avoidance_without_obstacles_keeps_the_velocity(S):
    D = S.dim()
    v, x = S.vec("velocity", D), S.vec("position", D)
    far = S.bool("far_obstacle")
    obs = []
    if far:
        n = S.unit("normal", D)
        obs = [local_obstacle(S, S.real("gamma", 100, 1000), n, -n)]
    a = S.mock(cls=RA, fields=avoider(S, D, v, obs, cut_off=100))
    S.ensure("nominal velocity", S.eq(S.m(a, "evaluate", x), v))


@contract("C10", RA + ".avoid", timeout_ms=20000)
def local_avoidance_speed_and_direction(S):
    D = S.dim()
    rel, x, d = S.vec("relative_velocity", D), S.vec("position", D), S.unit("avoidance_direction", D)
    n = S.unit("normal", D)
    r = S.unit("reference", D)
    S.assume(S.dot(r, n) < -0.001)
    moving = S.bool("moving")
    u = S.vec("obstacle_velocity", D) if moving else None
    v = rel + u if moving else rel
    S.assume(S.norm(rel) > 0.001)
    g = S.real("gamma", 1, 50)
    calls = []

    def summing(o, convergence_vector, reference_vector, gamma, nonlinear_velocity, base, convergence_radius):
        calls.append((convergence_vector, reference_vector, gamma, nonlinear_velocity, base[:, 0]))
        return S.copy(d)
    c = S.vec("convergence", D)
    S.assume(S.norm(c) > 0.001)
    S.lemma_cauchy(d, n)
    S.lemma_cauchy(rel, n)
    a = S.mock(cls=RA, fields=avoider(S, D, v, [local_obstacle(S, g, n, r, u)], conv=dynamics(S, D, c)),
               methods={"directional_convergence_summing": summing})
    out = S.m(a, "avoid", x)
    own = out - u if moving else out
    S.ensure("rotation with respect to the obstacle", S.And(len(calls) == 1, S.eq(calls[0][0], c), S.eq(calls[0][1], r), S.eq(calls[0][2], g),
                                                            S.eq(calls[0][3], rel), S.eq(calls[0][4], -n)))
    S.ensure("along the avoidance direction", S.eq(own, d * S.norm(own)))
    S.ensure("not faster", S.le(S.norm(own), S.norm(rel)))
    S.ensure("full speed along or away from the surface", S.Implies(S.dot(d, n) >= 0, S.eq(S.norm(own), S.norm(rel))))


@contract("C10", RA + ".avoid", timeout_ms=20000)
def local_avoidance_of_two_obstacles(S):
    """one obstacle in contact and one at any distance: every obstacle is asked with its own data, contact decides"""
    D = S.dim()
    v, x = S.vec("velocity", D), S.vec("position", D)
    S.assume(S.norm(v) > 0.001)
    k = S.choice("in_contact", [0, 1])
    boundary = S.bool("boundary")
    ns = [S.unit(f"normal{i}", D) for i in range(2)]
    rs = [S.unit(f"reference{i}", D) for i in range(2)]
    ds = [S.unit(f"avoidance_direction{i}", D) for i in range(2)]
    cs = [S.vec(f"convergence{i}", D) for i in range(2)]
    for i in range(2):
        S.assume(S.dot(rs[i], ns[i]) < -0.001)
        S.assume(S.norm(cs[i]) > 0.001)
        S.lemma_cauchy(ds[k], ns[i])
        S.lemma_cauchy(v, ns[i])
    g = S.real("other_gamma", 1, 50, lo_open=True)
    gs = [1, g] if k == 0 else [g, 1]
    calls = []

    def summing(o, convergence_vector, reference_vector, gamma, nonlinear_velocity, base, convergence_radius):
        calls.append((convergence_vector, reference_vector, gamma, nonlinear_velocity, base[:, 0]))
        return S.copy(ds[len(calls) - 1])
    obs = [local_obstacle(S, gs[i], ns[i], rs[i], boundary=boundary) for i in range(2)]
    own = S.bool("own_convergence")
    if own:
        items = obs
        obs = S.mock(methods={"get_convergence_direction": lambda o, position, it_obs: S.copy(cs[it_obs]), "__len__": lambda o: 2,
                              "__getitem__": lambda o, i: items[i], "__iter__": lambda o: iter(items)}, absent=(
            "update_relative_reference_point", "convergence_radiuses"))
    a = S.mock(cls=RA, fields=avoider(S, D, v, obs, conv=None if own else dynamics(S, D, cs[0])), methods={"directional_convergence_summing": summing})
    out = S.m(a, "avoid", x, initial_velocity=v)
    s = -1 if boundary else 1
    S.ensure("every obstacle with its own direction", S.And(len(calls) == 2, *[S.And(
        S.eq(c[0], cs[i if own else 0]), S.eq(c[1], rs[i] * s), S.eq(c[2], gs[i]), S.eq(c[3], v)) for i, c in enumerate(calls)]))
    S.ensure("the null direction leads to the obstacle", S.And(*[S.gt(S.dot(c[4], c[1]), 0) for c in calls]))
    S.ensure("along the tangent of the obstacle in contact", S.eq(out, ds[k] * S.norm(out)))
    S.ensure("not faster", S.le(S.norm(out), S.norm(v)))


@contract("C10", RA + ".directional_convergence_summing", modular=DISTINCT, timeout_ms=20000)
def local_rotation_follows_the_weight(S):
    """weight one: the tangent; no weight: the velocity; the weight and the tangent belong to convergence and reference"""
    D = S.dim()
    c = S.turned("convergence", None, D)
    u = S.turned("velocity", c)
    base = S.obasis("base", D)
    null = base[:, 0]
    S.assume(S.And(S.norm(null - c.v) > 0.003, S.norm(null + c.v) > 0.003))
    ts = [S.turned("tangent", c)]
    t = ts[0].v
    S.assume(S.And(S.norm(null - t) > 0.003, S.norm(null + t) > 0.003))
    r = S.unit("reference", D)
    w = S.choice("weight", [0, 1])
    g = S.real("gamma", 0.5, 30)
    calls = []

    def weight(o, gamma, vector_reference, vector_convergence, base):
        calls.append((vector_reference, vector_convergence, base[:, 0], gamma))
        return w

    def tangent(o, vector_convergence, vector_reference, base):
        calls.append((vector_reference, vector_convergence, base[:, 0], g))
        return S.copy(t)
    a = S.mock(cls=RA, fields=dict(convergence_radius=S.pi / 2, tail_rotation=False), methods={"get_smooth_continuation_weight": weight, "get_pseudo_tangent": tangent})
    out = S.m(a, "directional_convergence_summing", convergence_vector=S.copy(c.v), reference_vector=S.copy(r), base=base, gamma=g, nonlinear_velocity=S.copy(u.v))
    S.ensure("weight and tangent of the convergence with respect to the reference", S.And(*[
        S.And(S.eq(k[0], r), S.eq(k[1], c.v), S.eq(k[2], null), S.eq(k[3], g)) for k in calls]))
    S.ensure("the tangent at full weight, the velocity without", S.eq(out, t if w else u.v))


@contract("C10", RA + ".compute_obstacle_gamma", RA + ".compute_normal_tensor", timeout_ms=20000)
def distances_and_normals_of_the_obstacles(S):
    D = S.dim()
    x = S.vec("position", D)
    n = S.int("n_obstacles", 1, 2)
    gs = [S.real(f"gamma{i}", 0, 30) for i in range(n)]
    bs = [S.bool("boundary")] * n
    ns = [S.unit(f"normal{i}", D) for i in range(n)]
    asked = []

    def obs(i):
        def gamma(o, p, in_global_frame=False):
            asked.append((p, in_global_frame))
            return gs[i]

        def normal(o, p, in_global_frame=False):
            asked.append((p, in_global_frame))
            return S.copy(ns[i])
        return S.mock(fields=dict(is_boundary=bs[i]), methods={"get_gamma": gamma, "get_normal_direction": normal})
    obstacles = [obs(i) for i in range(n)]
    out = S.m(S.cls(RA), "compute_obstacle_gamma", x, obstacles)
    S.ensure("distance, at least the surface for obstacles", S.And(*[S.eq(out[i], gs[i] if bs[i] else S.max(gs[i], 1)) for i in range(n)]))
    skip = S.choice("skipped", [None, 0, 1])
    S.assume(skip is None or skip < n)
    S.assume(skip is None or n > 1)
    keep = [i for i in range(n) if i != skip]
    tens = S.m(S.cls(RA), "compute_normal_tensor", x, obstacles, None if skip is None else S.array([i in keep for i in range(n)]))
    S.ensure("the normals of the selected obstacles", S.And(*[S.eq(tens[:, :, k][:, 0], ns[i]) for k, i in enumerate(keep)]))
    S.ensure("at the robot in the global frame", S.And(*[S.And(S.eq(p, x), f) for p, f in asked]))


@contract("C10", RA + ".avoid_sequence", modular=DISTINCT, timeout_ms=20000)
def local_avoidance_of_sequences(S):
    D = S.dim()
    x = S.vec("position", D)
    r = S.turned("start", None, D)
    f = S.turned("initial", r)
    c = S.turned("convergence", r)
    t = S.turned("tangent", c)
    normal, ref = S.unit("normal", D), S.unit("reference", D)
    first, conv = one_step(S, r.v, f.v), one_step(S, r.v, c.v)
    n = S.int("n_obstacles", 0, 1)
    default = S.bool("convergence_default")
    boundary = S.bool("boundary")
    w = S.choice("weight", [0, 1])
    g = S.real("gamma", 1, 30)
    calls = []

    def weight(o, gamma, vector_reference, vector_convergence, base):
        calls.append((vector_reference, vector_convergence, base[:, 0], gamma))
        return w

    def tangent(o, vector_convergence, vector_reference, base):
        calls.append((vector_reference, vector_convergence, base[:, 0], g))
        return S.copy(t.v)
    obs = [local_obstacle(S, g, normal, ref, boundary=boundary)] * n
    if n:
        items = obs
        obs = S.mock(fields=dict(n_obstacles=n), methods={"__len__": lambda o: n, "__getitem__": lambda o, i: items[i], "__iter__": lambda o: iter(items)})
    else:
        obs = S.mock(fields=dict(n_obstacles=0), methods={"__len__": lambda o: 0})
    a = S.mock(cls=RA, fields=dict(obstacle_environment=obs, convergence_radius=S.pi / 2, tail_rotation=False),
               methods={"get_smooth_continuation_weight": weight, "get_pseudo_tangent": tangent})
    out = S.m(a, "avoid_sequence", x, first, conv, convergence_default=default)
    end = S.m(out, "get_end_vector")
    s = -1 if boundary else 1
    S.ensure("weight and tangent of the convergence with respect to the reference", S.And(*[
        S.And(S.eq(k[0], ref * s), S.eq(k[1], c.v), S.eq(k[2], normal * -s), S.eq(k[3], g)) for k in calls]))
    if n and w:
        S.ensure("tangent in contact", S.eq(end, t.v))
    elif n and default:
        S.ensure("close to an obstacle that does not matter: the convergence", S.eq(end, c.v))
    else:
        S.ensure("without influence: the initial motion", S.eq(end, f.v))


@contract("C10", MA + ".compute_convergence_sequence", MA + ".compute_tree_weight", modular=DISTINCT, timeout_ms=20000)
def convergence_follows_the_obstacle_with_the_weight(S):
    """no weight (or the attractor inside of the obstacle): the local motion; full weight: the motion at the root of the obstacle"""
    D = S.dim()
    x = S.vec("position", D)
    p = [S.vec(f"reference_point{i}", D) for i in range(2)]
    r = S.turned("start", None, D)
    f1 = S.turned("local", r)
    b = S.turned("at_component", r)
    a = S.turned("at_root", b, same=True)
    f2 = S.turned("there", a)
    initial = one_step(S, r.v, f1.v)
    there = one_step(S, a.v, f2.v)
    n = S.choice("components", [0, 1, 2])
    root = S.choice("root", [0, 1])
    S.assume(root == 0 or n == 2)
    full = S.choice("full_weight", [None, 0, 1])
    S.assume(full is None or full < n)
    sing = S.choice("singularity", ["none", "free", "inside"])
    center = None if sing == "none" else S.vec("singularity", D)
    own = S.bool("default_dynamics")
    asked = []

    def seq(o, position):
        asked.append(position)
        return there
    dyn = S.mock(methods={"evaluate_dynamics_sequence": seq})
    comps = [S.mock(fields=dict(global_reference_point=p[i]), methods={"get_reference_point": (lambda o, in_global_frame=False, i=i: p[i] if in_global_frame else p[i] * 0)})
             for i in range(2)]

    steps = []

    def turn(o, start, end, center=None):
        steps.append((start, end, center))
        if S.true(S.eq(start, x)):
            return S.m(S.cls(ROT), "from_directions", S.copy(r.v), S.copy(b.v))
        return S.m(S.cls(ROT), "from_directions", S.copy(b.v), S.copy(a.v))
    conv = S.mock(methods={
        "evaluate_projected_weight": lambda o, position, obstacle: 1.0 if full is not None and obstacle is comps[full] else 0.0,
        "evaluate_rotation_position_to_transform": lambda o, position, obstacle: S.m(S.cls(ROT), "from_directions", S.copy(r.v), S.copy(a.v)),
        "evaluate_rotation_start_to_end": turn})
    tree = S.mock(fields=dict(root_idx=root, n_components=n), methods={
        "get_gamma": lambda o, position, in_global_frame=False: 0.5 if sing == "inside" else 3.0,
        "get_root": lambda o: comps[root], "get_component": lambda o, i: comps[i], "get_parent_idx": lambda o, i: None if i == root else root,
        "__iter__": lambda o: iter(comps[:n])})
    for q in p:
        S.assume(S.norm(x - q) > 0.001)
    av = S.mock(cls=MA, fields=dict(tree_list=[tree] if n else [], convergence_dynamics=conv, singularity=center,
                                    default_dynamics=dyn if own else None, initial_dynamics=None if own else dyn))
    out = S.m(av, "compute_convergence_sequence", x, initial)
    end = S.m(out, "get_end_vector")
    if full is None or sing == "inside":
        S.ensure("no weight: the local motion", S.eq(end, f1.v))
    else:
        S.ensure("full weight: the motion at the root of the obstacle", S.eq(end, f2.v))
        S.ensure("evaluated at the reference point of the root", S.And(*[S.eq(q, p[root]) for q in asked]))
        if full != root:
            want = [(x, p[full]), (p[full], p[root])]
            S.ensure("from the robot along the reference points of the chain", S.And(len(steps) == 2, *[
                S.And(S.eq(s, a_), S.eq(e, b_), (center is None) == (z is None)) for (s, e, z), (a_, b_) in zip(steps, want)]))


@contract("C10", MA + ".compute_convergence_direction", modular=DISTINCT, timeout_ms=20000)
def convergence_direction_is_the_end_of_the_sequence(S):
    D = S.dim()
    x, r = S.vec("position", D), S.turned("start", None, D)
    f, c = S.turned("initial", r), S.turned("convergence", r)
    asked = []

    def conv(o, position, initial_sequence):
        asked.append((position, S.m(initial_sequence, "get_end_vector")))
        return one_step(S, r.v, c.v)
    flow = S.mock(methods={"evaluate_dynamics_sequence": lambda o, position: one_step(S, r.v, f.v) if S.true(S.eq(position, x)) else None})
    av = S.mock(cls=MA, fields=dict(initial_dynamics=flow), methods={"compute_convergence_sequence": conv})
    out = S.m(av, "compute_convergence_direction", x)
    S.ensure("end of the convergence sequence", S.eq(out, c.v))
    S.ensure("from the initial sequence at the position", S.And(len(asked) == 1, S.eq(asked[0][0], x), S.eq(asked[0][1], f.v)))


@contract("C10", MA + ".create_with_convergence_dynamics", MA + ".create_local_convergence_dynamics", MA + ".__init__", MA + ".singularity",
          MA + ".obstacle_list", MA + ".obstacle_container")
def avoiders_are_built_for_their_flow(S):
    """the convergence dynamics belong to the nominal flow; flows without attractor need a reference"""
    D = S.dim()
    a, v, x = S.vec("attractor", D), S.vec("velocity", D), S.vec("position", D)
    stable, given = S.choice("stable", [True, False]), S.choice("reference", [True, False])
    radius = S.real("radius", 1.2, 3.5)
    repulsion, power = S.real("repulsion", 0, 1), S.real("power", 0.1, 1)
    flow = S.mock(fields=dict(attractor_position=a, dimension=S.dval(D)) if stable else dict(dimension=S.dval(D)), methods={"evaluate": lambda o, p: S.copy(v)},
                  absent=() if stable else ("attractor_position",))
    ref = S.mock(methods={"evaluate": lambda o, p: S.copy(v)}) if given else None
    trees, other = [S.mock()], S.mock()
    av = S.catch(lambda: S.m(S.cls(MA), "create_with_convergence_dynamics", obstacle_container=trees, initial_dynamics=flow, reference_dynamics=ref,
                             convergence_radius=radius, gamma_maximum_repulsion=repulsion, smooth_continuation_power=power, default_dynamics=other))
    valid = S.And(radius >= S.pi / 2, radius <= S.pi)
    bad = S.raised(av, "ValueError")
    if not stable and not given:
        S.ensure("a flow without attractor needs a reference", bad)
        return
    S.ensure("radii from a right angle to pi", S.Iff(bad, S.Not(valid)))
    if bad:
        return
    conv = S.get(av, "convergence_dynamics")
    S.ensure("obstacles", S.get(av, "tree_list") is trees and S.get(av, "obstacle_list") is trees and S.get(av, "obstacle_container") is trees)
    S.ensure("flow", S.get(av, "initial_dynamics") is flow and S.get(conv, "initial_dynamics") is flow and S.get(av, "default_dynamics") is other)
    S.ensure("settings", S.And(S.eq(S.get(av, "convergence_radius"), radius), S.eq(S.get(av, "gamma_maximum_repulsion"), repulsion),
                               S.eq(S.get(av, "smooth_continuation_power"), power)))
    if stable:
        S.ensure("rotated around the attractor", S.And(S.isa(conv, "ProjectedRotationDynamics"), S.eq(S.get(conv, "attractor_position"), a)))
        S.ensure("singularity at the attractor", S.eq(S.get(av, "singularity"), a))
    else:
        S.ensure("without singularity", S.isa(conv, "ConvergenceDynamicsWithoutSingularity") and S.get(conv, "convergence_dynamics") is ref)
        S.ensure("no singularity", S.get(av, "singularity") is None)
    new = [S.mock()]
    S.set(av, "obstacle_list", new)
    S.ensure("replaced obstacles", S.get(av, "tree_list") is new)
    one = S.new(MA, obstacle=trees[0], initial_dynamics=flow, create_convergence_dynamics=stable)
    S.ensure("a single obstacle", S.len(S.get(one, "tree_list")) == 1 and S.get(one, "tree_list")[0] is trees[0])
    if stable:
        S.ensure("with its own convergence dynamics", S.eq(S.get(S.get(one, "convergence_dynamics"), "attractor_position"), a))
    else:
        S.ensure("without convergence dynamics", S.get(one, "convergence_dynamics") is None)
