"""C14: the convergence dynamics around obstacles blend the initial dynamics with the dynamics at the obstacles."""
from pyvc.contract import contract

N = "nonlinear_avoidance."
VR = N + "vector_rotation:"
DISTINCT = (VR + "rotate_direction", VR + "rotate_array", VR + "VectorRotationXd.from_directions")
NR = N + "nonlinear_rotation_avoider:"
FREE = NR + "ConvergenceDynamicsWithoutSingularity"
SING = NR + "SingularityConvergenceDynamics"
PROJ = N + "dynamics.projected_rotation_dynamics:ProjectedRotationDynamics"
SEQD = N + "dynamics.sequenced_dynamics:evaluate_dynamics_sequence"
WSUM = "vartools.directional_space:get_directional_weighted_sum"


def same_point(S, p, q):
    return S.true(S.eq(p, q))


def flow(S, values, **fields):
    """dynamics with the given velocities at the given points (the last one anywhere else)"""
    def evaluate(o, position):
        for p, v in values[:-1]:
            if same_point(S, position, p):
                return S.copy(v)
        return S.copy(values[-1][1])
    return S.mock(fields=fields, methods={"evaluate": evaluate}, absent=("evaluate_dynamics_sequence", "evaluate_magnitude") + (() if "attractor_position" in fields else ("attractor_position",)))


def obstacle(S, reference, gamma=None):
    def get_reference_point(o, in_global_frame=False):
        if not in_global_frame:
            raise ValueError("global frame expected")
        return reference
    return S.mock(fields=dict(global_reference_point=reference), methods={
        "get_reference_point": get_reference_point, "get_gamma": lambda o, position, in_global_frame=True: gamma})


@contract("C14", SEQD, modular=DISTINCT, timeout_ms=20000)
def dynamics_as_a_rotation_of_the_attractor_direction(S):
    D = S.dim()
    kind = S.choice("kind", ["attractor", "default", "neither"])
    base = S.turned("base", None, D)
    v = S.turned("velocity", base)
    n, m = S.real("distance", 0.1, 10), S.real("speed", 0.1, 10)
    x = S.vec("position", D)
    ds = flow(S, [(x, v.v * m)], **({"attractor_position": x + base.v * n} if kind == "attractor" else {}))
    default = flow(S, [(x, base.v * n)]) if kind == "default" else None
    seq = S.fn(SEQD)(x, ds, default)
    S.ensure("ends in the velocity", S.eq(S.m(seq, "get_end_vector"), v.v))
    S.ensure("starts in the base direction", S.eq(S.get(seq, "basis_array")[:, 0, 0], v.v if kind == "neither" else base.v))
    S.ensure("angle in between", S.eq(S.at(S.get(seq, "rotation_angles"), 0), 0 if kind == "neither" else v.angle))
    still = flow(S, [(x, v.v * 0)], **({"attractor_position": x + base.v * n} if kind == "attractor" else {}))
    S.ensure("nothing without a velocity", S.fn(SEQD)(x, still, default) is None)
    own = S.mock(methods={"evaluate_dynamics_sequence": lambda o, position: (o, position)})
    S.ensure("own sequence of the dynamics", S.fn(SEQD)(x, own, default)[0] is own)


@contract("C14", PROJ + ".evaluate_rotation_position_to_transform", PROJ + ".evaluate_rotation_start_to_end", modular=DISTINCT, timeout_ms=20000)
def rotation_from_the_position_to_the_obstacle(S):
    """carries the direction to the attractor at the position onto the one at the obstacle"""
    D = S.dim()
    a = S.vec("attractor", D)
    p = S.turned("from_position", None, D)
    o = S.turned("from_obstacle", p)
    opposed = S.choice("opposed", [False, True])
    np_, no = S.real("distance", 0.1, 10), S.real("distance_obstacle", 0.1, 10)
    x, ref = a - p.v * np_, a + p.v * no if opposed else a - o.v * no
    ds = S.new(PROJ, attractor_position=a, initial_dynamics=flow(S, [(x, p.v)]))
    rots = [S.m(ds, "evaluate_rotation_position_to_transform", x, obstacle(S, ref)),
            S.m(ds, "evaluate_rotation_start_to_end", x, ref, a)]
    if opposed:
        for r in rots:
            S.ensure("none on the opposite side of the attractor", r is None or S.eq(S.m(r, "rotate", p.v), -p.v))
        return
    for r in rots:
        S.ensure("carries the direction to the attractor", S.eq(S.m(r, "rotate", p.v), o.v))
    for r in (S.m(ds, "evaluate_rotation_position_to_transform", S.copy(a), obstacle(S, ref)), S.m(ds, "evaluate_rotation_start_to_end", S.copy(a), ref, a)):
        S.ensure("none at the attractor", r is None)


@contract("C14", PROJ + ".evaluate_convergence_sequence_around_obstacle", SEQD, modular=DISTINCT, timeout_ms=20000)
def convergence_sequence_around_an_obstacle(S):
    """from the attractor direction at the position over the one at the obstacle to the velocity at the obstacle"""
    D = S.dim()
    a = S.vec("attractor", D)
    p = S.turned("from_position", None, D)
    o = S.turned("from_obstacle", p)
    v = S.turned("velocity", o)
    x, ref = a - p.v * S.real("distance", 0.1, 10), a - o.v * S.real("distance_obstacle", 0.1, 10)
    initial = flow(S, [(ref, v.v * S.real("speed", 0.1, 10)), (x, p.v)], attractor_position=a)
    ds = S.new(PROJ, attractor_position=a, initial_dynamics=initial)
    fallback = S.mock()
    seq = S.m(ds, "evaluate_convergence_sequence_around_obstacle", x, obstacle(S, ref), fallback)
    S.ensure("starts at the direction to the attractor", S.eq(S.get(seq, "basis_array")[:, 0, 0], p.v))
    S.ensure("ends in the velocity at the obstacle", S.eq(S.m(seq, "get_end_vector"), v.v))
    S.ensure("two rotations", S.And(S.eq(S.get(seq, "n_rotations"), 2), S.eq(S.at(S.get(seq, "rotation_angles"), 0), o.angle), S.eq(S.at(S.get(seq, "rotation_angles"), 1), v.angle)))
    S.ensure("initial sequence at the attractor", S.m(ds, "evaluate_convergence_sequence_around_obstacle", S.copy(a), obstacle(S, ref), fallback) is fallback)
    far = S.m(ds, "evaluate_convergence_sequence_around_obstacle", a + o.v, obstacle(S, ref), fallback)
    S.ensure("initial sequence on the opposite side", far is fallback or S.eq(S.get(far, "basis_array")[:, 0, 0], -o.v))


@contract("C14", SING + ".evaluate_weighted_dynamics", SING + ".compute_gamma_weights", modular=DISTINCT, timeout_ms=20000)
def the_closest_obstacle_determines_the_convergence(S):
    """one obstacle in reach: the convergence is the one around that obstacle, the initial velocity without any"""
    D = S.dim()
    n = S.choice("obstacles", [0, 1, 2, 3])
    k = S.choice("close", [None, 0, 1, 2])
    if n == 0 and k is not None or k is not None and k >= n:
        k = None
    contact = S.choice("contact", [True, False])
    u = S.turned("initial", None, D)
    x = S.vec("position", D)
    obs, dirs = [], []
    for i in range(n):
        g = S.real(f"gamma{i}", 10, 20)
        if i == k:
            g = S.real("gamma", 0.1, 1) if contact else 1 + 9 / (1 + 9 * S.real("closeness", 0, 100, lo_open=True))
        S.true(g <= 1)
        obs.append(obstacle(S, None, g))
        dirs.append(S.turned(f"dir{i}", u))
    conv = S.mock(methods={"evaluate_convergence_around_obstacle": lambda o, position, obstacle: S.copy(dirs[[b is obstacle for b in obs].index(True)].v)})
    ds = S.raw(SING, _rotation_avoider=S.mock(fields=dict(obstacle_environment=obs, cut_off_gamma=10, initial_dynamics=S.mock(fields=dict(dimension=S.dval(D))))), obstacle_convergence=conv)
    r = S.m(ds, "evaluate_weighted_dynamics", x, S.copy(u.v))
    S.ensure("direction around the obstacle in reach", S.eq(r, u.v if k is None else dirs[k].v))


LENGTH = (VR + "rotate_direction#length", VR + "VectorRotationXd.from_directions", WSUM)


def projected(S, D, w, v, equal=False):
    """dynamics around an obstacle of the projected weight w"""
    a = S.vec("attractor", D)
    p = S.turned("from_position", None, D)
    o = S.turned("from_obstacle", p)
    speed = S.real("speed", 0.1, 10)
    x, ref = a - p.v * S.real("distance", 0.1, 10), a - o.v * S.real("distance_obstacle", 0.1, 10)
    u, v = v(p, o)
    initial = flow(S, [(ref, v * S.real("speed_obstacle", 0.1, 10)), (x, u * speed)])
    ds = S.mock(fields=dict(attractor_position=a, initial_dynamics=initial, dimension=S.dval(D)), methods={"evaluate_projected_weight": lambda o, position, obstacle: w}, cls=PROJ)
    return ds, x, ref, u, v, o, speed


@contract("C14", PROJ + ".evaluate_convergence_around_obstacle", modular=LENGTH, timeout_ms=20000)
def convergence_keeps_the_speed_of_the_initial_dynamics(S):
    D = S.dim()
    ds, x, ref, u, v, o, speed = projected(S, D, S.real("weight", 0, 1), lambda p, o: (S.unit("initial", D), S.unit("velocity", D)))
    r = S.m(ds, "evaluate_convergence_around_obstacle", x, obstacle(S, ref))
    S.ensure("speed of the initial dynamics", S.eq(S.norm(r), speed))


@contract("C14", PROJ + ".evaluate_convergence_around_obstacle", modular=DISTINCT, timeout_ms=20000)
def convergence_between_the_initial_and_the_obstacle_velocity(S):
    """without weight the initial velocity, with full weight the direction of the velocity at the obstacle"""
    D = S.dim()
    w = S.choice("weight", [0, 1])
    ds, x, ref, u, v, o, speed = projected(S, D, w, lambda p, o: (p.v, S.turned("velocity", o).v))
    r = S.m(ds, "evaluate_convergence_around_obstacle", x, obstacle(S, ref))
    S.ensure("initial velocity or obstacle velocity", S.eq(r, (u if w == 0 else v) * speed))


@contract("C14", PROJ + ".evaluate_convergence_around_obstacle", modular=DISTINCT + (WSUM,), timeout_ms=20000)
def no_rotation_around_the_obstacle_at_the_attractor(S):
    D = S.dim()
    ds, x, ref, u, v, o, speed = projected(S, D, S.real("weight", 0, 1), lambda p, o: (p.v, o.v))
    a = S.copy(S.get(ds, "attractor_position"))
    S.ensure("initial velocity at the attractor", S.eq(S.m(ds, "evaluate_convergence_around_obstacle", a, obstacle(S, ref)), u * speed))
    S.ensure("towards the attractor", S.eq(S.m(ds, "get_base_convergence", x), -(x - a) / S.norm(x - a)))
    S.ensure("gradient towards the attractor", S.eq(S.m(ds, "_get_lyapunov_gradient", x), -(x - a) / S.norm(x - a)))
    S.ensure("no direction at the attractor", S.And(S.eq(S.m(ds, "get_base_convergence", a), S.zero(D)), S.eq(S.m(ds, "_get_lyapunov_gradient", a), S.zero(D))))
    S.set(ds, "obstacle", obstacle(S, ref))
    S.ensure("projected gradient from the obstacle to the attractor", S.eq(S.m(ds, "_get_projected_lyapunov_gradient", x), o.v))


@contract("C14", FREE + ".evaluate_convergence_around_obstacle", FREE + ".evaluate_convergence_sequence_around_obstacle", FREE + ".get_base_convergence",
          FREE + ".evaluate_projected_weight", FREE + ".evaluate_rotation_position_to_transform", FREE + ".evaluate_rotation_start_to_end",
          modular=DISTINCT, timeout_ms=20000)
def convergence_without_singularity(S):
    """the convergence around an obstacle is the velocity at its reference point, there is nothing to rotate"""
    D = S.dim()
    ref, x = S.vec("reference", D), S.vec("position", D)
    S.assume(S.norm(x - ref) > 0.01)
    b = S.turned("base", None, D)
    v, c = S.turned("velocity", b), S.vec("convergence", D)
    m, g = S.real("speed", 0.1, 10), S.real("gamma", 0.1, 10)
    initial = flow(S, [(ref, v.v * m), (x, b.v * m)], attractor_position=ref + b.v)
    ds = S.new(FREE, convergence_dynamics=flow(S, [(x, c)]), initial_dynamics=initial)
    o = obstacle(S, ref, g)
    S.ensure("velocity at the reference point", S.eq(S.m(ds, "evaluate_convergence_around_obstacle", x, o), v.v * m))
    seq = S.m(ds, "evaluate_convergence_sequence_around_obstacle", x, o, None)
    S.ensure("sequence of the velocity at the reference point", S.And(S.eq(S.m(seq, "get_end_vector"), v.v), S.eq(S.get(seq, "basis_array")[:, 0, 0], b.v)))
    S.ensure("base convergence", S.eq(S.m(ds, "get_base_convergence", x), c))
    S.ensure("full weight in contact, then the inverse of the distance", S.eq(S.m(ds, "evaluate_projected_weight", x, o) * S.max(g, 1), 1))
    q = S.vec("any", D)
    if S.true(S.norm(c) > 0.01):
        S.ensure("no rotation", S.eq(S.m(S.m(ds, "evaluate_rotation_position_to_transform", x, o), "rotate", q), q))
    S.ensure("no rotation on the way", S.eq(S.m(S.m(ds, "evaluate_rotation_start_to_end", x, ref, ref), "rotate", q), q))


@contract("C14", SING + ".evaluate", SING + ".avoid", SING + ".__init__", SING + ".evaluate_initial_dynamics", modular=DISTINCT, timeout_ms=20000)
def avoidance_with_the_convergence_around_the_obstacles(S):
    """the direction of the initial dynamics, avoided with the weighted convergence, at the initial speed"""
    D = S.dim()
    x = S.vec("position", D)
    u = S.turned("initial", None, D)
    c = S.turned("convergence", u)
    speed = S.real("speed", 0.1, 10)
    out = S.vec("rotated", D)
    calls = []

    def avoid(o, position, initial_velocity, convergence_velocity=None):
        calls.append((position, initial_velocity, convergence_velocity))
        return S.copy(out)
    g = S.choice("reach", ["near", "far", "none"])
    obs = [] if g == "none" else [obstacle(S, None, S.real("gamma", 0.1, 1) if g == "near" else S.real("gamma", 10, 20))]
    for o in obs:
        S.true(S.m(o, "get_gamma", x) <= 1)
    conv = S.mock(methods={"evaluate_convergence_around_obstacle": lambda o, position, obstacle: S.copy(c.v)})
    av = S.new(SING, initial_dynamics=flow(S, [(x, u.v * speed)], dimension=S.dval(D)), obstacle_environment=obs, obstacle_convergence=conv)
    inner = S.get(av, "_rotation_avoider")
    S.set(av, "_rotation_avoider", S.mock(fields=dict(initial_dynamics=S.get(inner, "initial_dynamics"), obstacle_environment=obs, cut_off_gamma=10), methods={"avoid": avoid}))
    S.ensure("reach of the obstacles", S.get(inner, "cut_off_gamma") == 10 and S.get(inner, "obstacle_environment") is obs)
    r = S.m(av, "evaluate", x)
    want = c.v if g == "near" else u.v
    S.ensure("avoided from the unit initial velocity", S.And(len(calls) == 1, S.eq(calls[0][0], x), S.eq(calls[0][1], u.v)))
    S.ensure("towards the weighted convergence", S.eq(calls[0][2], want * speed))
    S.ensure("initial speed", S.eq(r, out * speed))
    r = S.m(av, "avoid", x, S.copy(u.v))
    S.ensure("avoid a given velocity", S.And(S.eq(r, out), S.eq(calls[1][1], u.v), S.eq(calls[1][2], want)))
    S.set(S.get(av, "_rotation_avoider"), "initial_dynamics", flow(S, [(x, S.zero(D))]))
    S.ensure("at rest stays at rest", S.And(S.eq(S.m(av, "evaluate", x), S.zero(D)), len(calls) == 2))


@contract("C14", SING + ".__init__", timeout_ms=20000)
def default_convergence_around_the_obstacles(S):
    D = S.dim()
    a = S.vec("attractor", D)
    init = S.mock(fields=dict(attractor_position=a))
    av = S.new(SING, initial_dynamics=init, obstacle_environment=[], obstacle_convergence=None)
    c = S.get(av, "obstacle_convergence")
    S.ensure("towards the attractor of the initial dynamics", S.And(S.eq(S.get(c, "attractor_position"), a), S.get(c, "initial_dynamics") is init))


@contract("C14", SING + ".evaluate_sequence", SING + ".evaluate_initial_dynamics_sequence", modular=DISTINCT, timeout_ms=20000)
def sequence_avoidance_at_the_initial_speed(S):
    D = S.dim()
    x = S.vec("position", D)
    b = S.turned("base", None, D)
    u = S.turned("initial", b)
    c = S.turned("convergence", b)
    e = S.turned("avoided", b)
    speed, own = S.real("speed", 0.1, 10), S.choice("own_magnitude", [False, True])
    mag = S.real("magnitude", 0.1, 10)
    got = []

    def weighted(o, position, initial_sequence):
        got.append((position, S.m(initial_sequence, "get_end_vector")))
        return c

    def avoid(o, position, initial_sequence, convergence_sequence, convergence_default=True):
        got.append((position, S.m(initial_sequence, "get_end_vector")))
        got.append(convergence_sequence is c and not convergence_default)
        return S.mock(methods={"get_end_vector": lambda o: S.copy(e.v)})

    def dyn(v, m):
        return S.mock(fields=dict(attractor_position=x + b.v), methods=dict(
            evaluate=lambda o, position: S.copy(v), **({"evaluate_magnitude": lambda o, position: m} if own else {})),
            absent=("evaluate_dynamics_sequence",) + (() if own else ("evaluate_magnitude",)))
    av = S.mock(cls=SING, fields=dict(dimension=S.dval(D), _rotation_avoider=S.mock(fields=dict(initial_dynamics=dyn(u.v * speed, mag)), methods={"avoid_sequence": avoid})),
                methods={"evaluate_weighted_dynamics_sequence": weighted})
    r = S.m(av, "evaluate_sequence", x)
    S.ensure("avoided direction at the initial speed", S.eq(r, e.v * (mag if own else speed)))
    S.ensure("from the initial dynamics", S.And(*[S.And(S.eq(g[0], x), S.eq(g[1], u.v)) for g in got[:2]]))
    S.ensure("towards the convergence, without default", got[2])
    for v, m in ((S.zero(D), mag), (S.zero(D), 0)):
        S.set(S.get(av, "_rotation_avoider"), "initial_dynamics", dyn(v, m))
        S.ensure("at rest stays at rest", S.eq(S.m(av, "evaluate_sequence", x), S.zero(D)))


def one_step(S, start, end):
    return S.m(S.cls(VR + "VectorRotationSequence"), "create_from_vector_array", S.stack([S.copy(start), S.copy(end)]))


@contract("C14", SING + ".evaluate_weighted_dynamics_sequence", modular=DISTINCT, timeout_ms=20000)
def weighted_convergence_over_the_obstacles(S):
    """no weight: the initial dynamics; full weight of one obstacle: the dynamics around that one; too much weight is shared"""
    D = S.dim()
    n = S.choice("obstacles", [0, 1, 2, 3])
    k = S.choice("full", [None, 0, 1, 2])
    if k is not None and k >= n:
        k = None
    x = S.vec("position", D)
    r = S.turned("root", None, D)
    u = S.turned("initial", r)
    v = [S.turned(f"around{i}", r) for i in range(n)]
    initial = one_step(S, r.v, u.v)
    obs = [obstacle(S, None) for _ in range(n)]
    heavy = S.real("weight", 1, 10)
    which = lambda obstacle: [b is obstacle for b in obs].index(True)

    def seq(o, position, obstacle, initial_sequence):
        if initial_sequence is not initial or not S.true(S.eq(position, x)):
            raise ValueError("wrong arguments")
        return one_step(S, r.v, v[which(obstacle)].v)
    conv = S.mock(methods={"evaluate_projected_weight": lambda o, position, obstacle: heavy if which(obstacle) == k else 0,
                           "evaluate_convergence_sequence_around_obstacle": seq})
    av = S.raw(SING, _rotation_avoider=S.mock(fields=dict(obstacle_environment=obs)), obstacle_convergence=conv)
    out = S.m(av, "evaluate_weighted_dynamics_sequence", x, initial)
    S.ensure("initial dynamics, or the one around the obstacle", S.eq(S.m(out, "get_end_vector"), u.v if k is None else v[k].v))
    S.ensure("same root", S.eq(S.get(out, "basis_array")[:, 0, 0], r.v))


@contract("C14", SING + ".evaluate_weighted_dynamics_sequence", modular=DISTINCT, timeout_ms=20000)
def convergence_in_proportion_to_the_weights(S):
    """the rotations from the root add up weighted: the projected weight of an obstacle for that obstacle (shared if they
    exceed one), the rest for the initial dynamics"""
    D = S.dim()
    n = S.choice("obstacles", [1, 2])
    total = S.choice("total", ["less", "more"])
    x = S.vec("position", D)
    r = S.turned("root", None, D)
    u = S.turned("initial", r)
    v = [S.turned(f"around{i}", r) for i in range(n)]
    initial = one_step(S, r.v, u.v)
    if total == "less":
        w = [S.real("weight0", 0.05, 0.45), S.real("weight1", 0.05, 0.45)][:n]
        rest = 1 - sum(w)
        parts = w
    else:
        q = S.real("share", 0.05, 0.95)
        parts, rest = ([1], 0) if n == 1 else ([q, 1 - q], 0)
        total = S.real("total", 1.1, 3)
        w = [p * total for p in parts]
    obs = [obstacle(S, None) for _ in range(n)]
    which = lambda obstacle: [b is obstacle for b in obs].index(True)
    conv = S.mock(methods={"evaluate_projected_weight": lambda o, position, obstacle: w[which(obstacle)],
                           "evaluate_convergence_sequence_around_obstacle": lambda o, position, obstacle, initial_sequence: one_step(S, r.v, v[which(obstacle)].v)})
    av = S.raw(SING, _rotation_avoider=S.mock(fields=dict(obstacle_environment=obs)), obstacle_convergence=conv)
    out = S.m(av, "evaluate_weighted_dynamics_sequence", x, initial)
    m = u.p * (rest * u.angle)
    for t, p in zip(v, parts):
        m = m + t.p * (t.angle * p)
    a = S.norm(m)
    want = r.v * S.cos(a) + m / a * S.sin(a) if S.true(a > 0) else r.v
    S.ensure("turned from the root by the weighted sum of the rotations", S.eq(S.m(out, "get_end_vector"), want))


@contract("C14", PROJ + ".compute_obstacle_convergence_sequence", modular=DISTINCT, timeout_ms=20000)
def convergence_sequence_between_initial_and_obstacle(S):
    """no weight: the initial sequence; full weight: the one over the obstacle"""
    D = S.dim()
    a = S.vec("attractor", D)
    p = S.turned("from_position", None, D)
    o = S.turned("from_obstacle", p)
    v = S.turned("velocity", o)
    u = S.turned("initial", p)
    w = S.choice("weight", [0, 1])
    x, ref = a - p.v * S.real("distance", 0.1, 10), a - o.v * S.real("distance_obstacle", 0.1, 10)
    dyn = flow(S, [(ref, v.v), (x, u.v)], attractor_position=a)
    ds = S.mock(fields=dict(attractor_position=a, initial_dynamics=dyn, dimension=S.dval(D)), methods={"evaluate_projected_weight": lambda o, position, obstacle: w}, cls=PROJ)
    initial = one_step(S, p.v, u.v)
    r = S.m(ds, "compute_obstacle_convergence_sequence", x, obstacle(S, ref), initial)
    S.ensure("initial dynamics or the one at the obstacle", S.eq(S.m(r, "get_end_vector"), v.v if w else u.v))
    S.ensure("starts towards the attractor", S.eq(S.get(r, "basis_array")[:, 0, 0], p.v))


@contract("C14", PROJ + ".evaluate_projected_weight", timeout_ms=20000)
def weight_of_an_obstacle(S):
    """full on the obstacle and if the projected position is on it; falls with both distances, never above one"""
    D = S.dim()
    x, z = S.vec("position", D), S.vec("projected", D)
    S.assume(S.norm(x - z) > 0.1)
    on, pon = S.choice("contact", [False, True]), S.choice("projected_contact", [False, True])
    g = S.real("gamma", 0.1, 1) if on else S.real("gamma", 1.001, 100)
    h = S.real("projected_gamma", 0.1, 1) if pon else S.real("projected_gamma", 1.001, 100)
    S.true(g <= 1), S.true(h <= 1)

    def get_gamma(o, position, in_global_frame=False):
        if not in_global_frame:
            raise ValueError("global frame expected")
        return g if S.true(S.eq(position, x)) else h
    obs = S.mock(methods={"get_gamma": get_gamma})
    asked = []

    def project(o, position):
        asked.append(S.get(o, "obstacle") is obs and S.true(S.eq(position, x)))
        return S.copy(z)
    ds = S.mock(cls=PROJ, methods={"get_projected_position": project})
    w = S.m(ds, "evaluate_projected_weight", x, obs)
    S.ensure("projection with respect to the obstacle", S.And(len(asked) == 1, asked[0]))
    if on or pon:
        S.ensure("full weight", S.eq(w, 1))
    else:
        S.ensure("between none and full", S.And(w > 0, w <= 1))
        S.ensure("falls with the distances", S.eq(w * w * ((h - 1) * (g - 1) + 1), 1))


def shape(S, ref, radius, local=True):
    def get_local_radius(o, position, in_global_frame=False):
        if in_global_frame == local:
            raise ValueError("wrong frame")
        return radius
    return S.mock(fields=dict(global_reference_point=ref), methods={"get_local_radius": get_local_radius})


@contract("C14", PROJ + "._get_position_after_deflating_obstacle", PROJ + "._get_position_after_inflating_obstacle", PROJ + ".evaluate_rotation_shrunkposition_to_transform",
          PROJ + "._get_deflation_weight", timeout_ms=20000)
def shrinking_an_obstacle_to_its_reference_point(S):
    """points move radially by the local radius, what is inside ends up at the reference point; growing undoes it"""
    D = S.dim()
    local = S.choice("local_frame", [True, False])
    u = S.unit("direction", D)
    r = S.real("radius", 0.1, 5)
    w = S.real("weight", 0, 1)
    q = S.real("distance", 0.01, 5)
    ref = S.zero(D) if local else S.vec("reference", D)
    ds = S.new(PROJ, attractor_position=S.vec("attractor", D), initial_dynamics=S.mock(), obstacle=shape(S, ref, r, local))
    x = ref + u * (r + q)
    keep = S.copy(x)
    y = S.m(ds, "_get_position_after_deflating_obstacle", x, in_obstacle_frame=local, deflation_weight=w)
    S.ensure("radially towards the reference point by the radius", S.eq(y, ref + u * (r + q - r * w)))
    S.ensure("by default all of the radius", S.eq(S.m(ds, "_get_position_after_deflating_obstacle", x, in_obstacle_frame=local), ref + u * q))
    S.ensure("position unchanged", S.eq(x, keep))
    z = S.m(ds, "_get_position_after_inflating_obstacle", y, in_obstacle_frame=local, deflation_weight=w)
    S.ensure("growing undoes it", S.eq(z, x))
    S.ensure("growing: away by the radius", S.eq(S.m(ds, "_get_position_after_inflating_obstacle", x, in_obstacle_frame=local), ref + u * (2 * r + q)))
    S.ensure("unchanged", S.eq(x, keep))
    f = S.real("inside", 0.01, 0.99)
    inside = ref + u * (r * f)
    c = S.m(ds, "_get_position_after_deflating_obstacle", inside, in_obstacle_frame=local, deflation_weight=w)
    S.ensure("inside of the obstacle: the reference point", S.eq(c, ref))
    S.ensure("full deflation", S.eq(S.m(ds, "_get_deflation_weight", 1 + q), 1))


@contract("C14", PROJ + ".evaluate_rotation_shrunkposition_to_transform", modular=DISTINCT, timeout_ms=20000)
def rotation_with_the_obstacle_shrunk(S):
    D = S.dim()
    a = S.vec("attractor", D)
    p = S.turned("from_position", None, D)
    o = S.turned("from_obstacle", p)
    at = S.choice("at_attractor", [False, True])
    x, ref = S.vec("position", D), a - o.v * S.real("distance_obstacle", 0.1, 10)
    S.assume(S.norm(x - a) > 0.1)
    asked = []

    def deflate(s, position, in_obstacle_frame=True, deflation_weight=0.0):
        asked.append((in_obstacle_frame, deflation_weight))
        return S.copy(a) if S.true(S.eq(position, a)) else S.copy(a) if at else a - p.v * S.real("distance", 0.1, 10)
    ds = S.mock(cls=PROJ, fields=dict(attractor_position=a), methods={"_get_position_after_deflating_obstacle": deflate})
    r = S.m(ds, "evaluate_rotation_shrunkposition_to_transform", x, obstacle(S, ref))
    S.ensure("in the global frame, fully deflated", S.And(*[S.And(not f, S.eq(w, 1)) for f, w in asked]))
    S.ensure("carries the direction to the attractor", r is None if at else S.eq(S.m(r, "rotate", p.v), o.v))


@contract("C14", PROJ + ".get_projected_position", timeout_ms=20000)
def projection_shrinks_folds_and_grows(S):
    """in the frame of the obstacle; positions on the obstacle and obstacles over the attractor are left alone"""
    D = S.dim()
    a, x = S.vec("attractor", D), S.vec("position", D)
    lx, la = S.vec("local_position", D), S.vec("local_attractor", D)
    dx, da, fx, gx, out = (S.vec(n, D) for n in ("shrunk", "shrunk_attractor", "folded", "grown", "global"))
    S.assume(S.And(S.norm(a - x) > 0.1, S.norm(lx - la) > 0.1))
    case = S.choice("case", ["attractor_inside", "inside", "outside", "far"])
    ga = S.real("gamma_attractor", 0.1, 0.99) if case == "attractor_inside" else S.real("gamma_attractor", 1.01, 10)
    g = S.real("gamma", 0.1, 1) if case == "inside" else S.real("gamma", 1.01, 10)
    S.assume(S.norm(fx) > 2e10 if case == "far" else S.norm(fx) < 1e9) if case != "far" else None
    if case == "far":
        fx = S.unit("far", D) * 2e10

    def pick(position, p, one, other):
        return S.copy(one if S.true(S.eq(position, p)) else other)
    calls = []
    pose = S.mock(methods={"transform_position_to_relative": lambda o, position: pick(position, x, lx, la),
                           "transform_position_from_relative": lambda o, position: pick(position, gx, out, x)})

    def get_gamma(o, position, in_global_frame=False, in_obstacle_frame=False):
        if in_global_frame or not in_obstacle_frame:
            raise ValueError("local frame expected")
        return ga if S.true(S.eq(position, la)) else g
    obs = S.mock(fields=dict(pose=pose), methods={"get_gamma": get_gamma})

    def deflate(o, position, in_obstacle_frame=False, deflation_weight=1.0):
        calls.append(("deflate", in_obstacle_frame, deflation_weight))
        return pick(position, lx, dx, da)

    def fold(o, position, attractor_position, in_obstacle_frame=False):
        calls.append(("fold", in_obstacle_frame, 1, S.eq(position, dx), S.eq(attractor_position, da)))
        return S.copy(fx)

    def inflate(o, position, in_obstacle_frame=False, deflation_weight=1.0):
        calls.append(("inflate", in_obstacle_frame, deflation_weight, S.eq(position, fx)))
        return S.copy(gx)
    ds = S.mock(cls=PROJ, fields=dict(attractor_position=a, obstacle=obs), methods={
        "_get_position_after_deflating_obstacle": deflate, "_get_folded_position_opposite_kernel_point": fold, "_get_position_after_inflating_obstacle": inflate})
    r = S.m(ds, "get_projected_position", x)
    S.ensure("projected", S.eq(r, {"attractor_inside": x, "inside": x, "outside": out, "far": fx}[case]))
    S.ensure("in the local frame, with the same weight", S.And(*[S.And(c[1], S.eq(c[2], 1), *c[3:]) for c in calls]))
    names = [c[0] for c in calls]
    S.ensure("shrunk, folded and grown again", names == {"outside": ["deflate", "deflate", "fold", "inflate"], "far": ["deflate", "deflate", "fold"]}.get(case, []))


def around(S, dirs, q):
    """a position in the plane, at the polar angle arccos(c) from the obstacle around the attractor, q = log of the relative distance"""
    b = S.array(S.choice("from_attractor", dirs))
    d = S.real("distance_obstacle", 0.5, 5)
    c = S.real("cos", -0.99, 0.99)
    s = S.sqrt(1 - c * c)
    side = S.array([-b[1], b[0]]) * S.choice("side", [1, -1])
    local = S.choice("local_frame", [True, False])
    ref = S.zero(2) if local else S.vec("reference", 2)
    ds = S.new(PROJ, attractor_position=S.zero(2), initial_dynamics=S.mock(), obstacle=shape(S, ref, 1, local))
    a = ref - b * d
    return ds, a, a + (b * c + side * s) * (d * S.exp(q)), b, side, d, c, s, ref, local


@contract("C14", PROJ + "._get_folded_position_opposite_kernel_point", timeout_ms=20000)
def folding_opens_the_circle_around_the_attractor(S):
    """the obstacle stays, the distance from the attractor becomes its logarithm along the axis, the angle goes to infinity
    opposite to the obstacle"""
    q = S.real("log_distance", -3, 3)
    ds, a, x, b, side, d, c, s, ref, local = around(S, [[1.0, 0.0], [-1.0, 0.0]], q)
    keep = S.copy(x)
    y = S.m(ds, "_get_folded_position_opposite_kernel_point", x, a, in_obstacle_frame=local)
    tan = S.sqrt(2 / (1 + c) - 1)
    S.ensure("logarithmic distance along the axis, half tangent across", S.eq(y, ref + b * (d * d * q) + side * tan))
    S.ensure("position unchanged", S.eq(x, keep))
    S.ensure("the reference point stays", S.eq(S.m(ds, "_get_folded_position_opposite_kernel_point", S.copy(ref), a, in_obstacle_frame=local), ref))
    S.ensure("attractor in the obstacle: not folded", S.eq(S.m(ds, "_get_folded_position_opposite_kernel_point", x, S.copy(ref), in_obstacle_frame=local), x))


@contract("C14", PROJ + "._get_folded_position_opposite_kernel_point", PROJ + "._get_unfolded_position_opposite_kernel_point", timeout_ms=20000)
def unfolding_undoes_folding(S):
    """on the circle around the attractor through the obstacle"""
    ds, a, x, b, side, d, c, s, ref, local = around(S, [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.6, -0.8]], 0)
    y = S.m(ds, "_get_folded_position_opposite_kernel_point", x, a, in_obstacle_frame=local)
    keep = S.copy(y)
    z = S.m(ds, "_get_unfolded_position_opposite_kernel_point", y, a, in_obstacle_frame=local)
    S.ensure("position again", S.eq(z, x))
    S.ensure("argument unchanged", S.eq(y, keep))
