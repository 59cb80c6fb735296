"""C13: the nominal dynamics keep their speed and lead to their attractor or limit cycle."""
from contracts.c12_rigid import Frame
from pyvc.contract import contract

N = "nonlinear_avoidance.dynamics."
CIRC = N + "circular_dynamics:SimpleCircularDynamics"
ROTC = N + "circular_dynamics:CircularRotationDynamics"
MOVE = N + "circular_dynamics:DynamicDynamics"
VR = "nonlinear_avoidance.vector_rotation:"
DISTINCT = (VR + "rotate_direction", VR + "rotate_array", VR + "VectorRotationXd.from_directions")
SEG = N + "segmented_dynamics:DynamicsSegment"
PATH = N + "segmented_dynamics:WavyPathFollowing"
WAVY = N + "wavy_attractor_dynamics:WavyLinearDynamics"
SPI3 = N + "spiral_dynamics:SpiralingDynamics3D"
SPIA = N + "spiral_dynamics:SpiralingAttractorDynamics3D"
LOC = N + "locally_rotated_linear_dynamics:LocallyRotatedFromObtacle"
CONST = N + "constant_value:ConstantValueWithSequence"
DEV = N + "nonlinear_deviation:DeviationOfConstantFlow"
PERP = N + "nonlinear_deviation:PerpendicularDeviatoinOfLinearDS"
OBSR = N + "deviation_dynamics:ObstacleRotatedDynamics"


@contract("C13", CIRC + ".evaluate", CIRC + ".get_phi", CIRC + ".get_grad", timeout_ms=30000)
def circle_is_approached_at_the_given_speed(S):
    kind = S.choice("space", ["plane", "space", "shift", "shift3"])
    D = 2 if kind in ("plane", "shift") else 3
    frame = Frame(S, "pose", kind.rstrip("3"), D)
    R, vmax = S.real("radius", 0.1, 10), S.real("maximum_velocity", 0, 10)
    ds = S.new(CIRC, pose=frame.pose(), radius=R, maximum_velocity=vmax)
    r = S.vec("relative", D)
    v = S.m(ds, "evaluate", frame.at(r))
    x, y = S.at(r, 0), S.at(r, 1)
    rho2 = x * x + y * y
    dist = S.norm(r)
    S.ensure("speed, slower around the center only", S.eq(3 * S.norm(v), vmax * S.ite(3 * dist < R, 3 * dist / R, 1) * 3))
    w = back(S, frame, v)
    vx, vy = S.at(w, 0), S.at(w, 1)
    if S.true(S.And(rho2 > 0, vmax > 0)):
        S.ensure("counter-clockwise", x * vy - y * vx > 0)
        radial = x * vx + y * vy
        S.ensure("outwards inside the circle", S.Implies(rho2 < 0.99 * R * R, radial > 0))
        S.ensure("inwards outside of the circle", S.Implies(rho2 > 1.01 * R * R, radial < 0))
        S.ensure("along the circle", S.Implies(S.eq(rho2, R * R), S.eq(radial, 0)))
    if D == 3:
        S.ensure("towards the plane of the circle", S.le(S.at(r, 2) * S.at(w, 2), 0))


def back(S, frame, v):
    if frame.kind == "plane":
        c, s = S.cos(frame.a), S.sin(frame.a)
        return S.array([c * S.at(v, 0) + s * S.at(v, 1), c * S.at(v, 1) - s * S.at(v, 0)])
    if frame.kind == "space":
        return S.m(S.m(frame.a, "inv"), "apply", v)
    return v


@contract("C13", ROTC + ".evaluate", ROTC + ".get_rotation_weight", ROTC + ".get_initial_direction", ROTC + ".sigmoid", timeout_ms=30000)
def rotated_circle_is_approached_at_constant_speed(S):
    frame = Frame(S, "pose", S.choice("space", ["plane", "shift"]), 2)
    R, speed = S.real("radius", 0.1, 10), S.real("constant_velocity", 0, 10)
    sign = S.choice("direction", [1, -1])
    a = S.real("base")
    base = S.array([[S.cos(a), -S.sin(a)], [S.sin(a), S.cos(a)]])
    ds = S.new(ROTC, pose=frame.pose(), radius=R, constant_velocity=speed, direction=sign, base_matrix=base,
               inside_approaching_factor=S.real("inside", 0.1, 20), outside_approaching_factor=S.real("outside", 0.1, 20))
    r = S.vec("relative", 2)
    v = S.m(ds, "evaluate", frame.at(r))
    if S.true(S.eq(S.norm(r), 0)):
        S.ensure("stops at the center", S.eq(S.norm(v), 0))
        return
    S.ensure("constant speed", S.eq(S.norm(v), speed))
    w = back(S, frame, v)
    vx, vy, x, y = S.at(w, 0), S.at(w, 1), S.at(r, 0), S.at(r, 1)
    if S.true(speed > 0):
        radial = x * vx + y * vy
        S.ensure("around the center in the given direction", sign * (x * vy - y * vx) > 0)
        S.ensure("outwards inside the circle", S.Implies(S.norm(r) < 0.99 * R, radial > 0))
        S.ensure("inwards outside of the circle", S.Implies(S.norm(r) > 1.01 * R, radial < 0))
        S.ensure("along the circle", S.Implies(S.eq(S.norm(r), R), S.eq(radial, 0)))


def segment(S, name="segment"):
    """segment from start along a unit vector"""
    start, d, length = S.vec(name + "_start", 2), S.unit(name + "_direction", 2), S.real(name + "_length", 0.1, 20)
    return start, d, length, S.new(SEG, start, start + d * length)


@contract("C13", SEG + ".__post_init__", SEG + ".get_distance", timeout_ms=30000)
def distance_to_the_segment(S):
    start, d, length, seg = segment(S)
    S.ensure("length", S.eq(S.get(seg, "length"), length))
    S.ensure("unit direction", S.eq(S.get(seg, "direction"), d))
    p = S.vec("offset", 2)
    dist = S.m(seg, "get_distance", start + p)
    t = S.real("along", 0, 1) * length
    S.ensure("no point of the segment is closer", S.le(dist, S.norm(p - d * t)))
    along = S.dot(p, d)
    near = S.ite(along < 0, 0, S.ite(along > length, length, along))
    S.ensure("distance to the closest point", S.eq(dist, S.norm(p - d * near)))


@contract("C13", SEG + ".evaluate", timeout_ms=30000)
def segment_is_approached_and_followed(S):
    start, d, length, seg = segment(S)
    p = S.vec("offset", 2)
    v = S.m(seg, "evaluate", start + p)
    off = p - d * S.dot(p, d)
    S.ensure("unit speed", S.eq(S.norm(v), 1))
    S.ensure("along the segment", S.dot(v, d) > 0)
    S.ensure("towards the line", S.le(S.dot(v, off), 0))
    S.ensure("straight to the line", S.Implies(S.norm(off) > 1e-6, S.dot(v, off) < 0))
    S.ensure("no sidewards motion on the line", S.Implies(S.eq(S.norm(off), 0), S.eq(v, d)))


@contract("C13", SEG + ".__post_init__")
def segment_needs_a_length(S):
    p = S.vec("point", 2)
    S.ensure("equal points are rejected", S.raised(S.catch(lambda: S.new(SEG, S.copy(p), S.copy(p))), "ValueError"))


@contract("C13", PATH + ".evaluate_global_dynamics")
def attractor_direction_of_the_path(S):
    x, t = S.vec("position", 2), S.vec("to_attractor", 2)
    g = S.m(S.raw(PATH, attractor_position=x + t), "evaluate_global_dynamics", x)
    S.ensure("towards the attractor", S.eq(g * S.norm(t), t))
    S.ensure("unit direction unless at the attractor", S.Or(S.eq(S.norm(g), 1), S.eq(S.norm(t), 0)))


@contract("C13", PATH + ".evaluate", PATH + ".evaluate_magnitude", timeout_ms=20000)
def speed_along_the_path(S):
    x, t = S.vec("position", 2), S.vec("to_attractor", 2)
    vmax, slow = S.real("maximum_velocity", 0, 10), S.real("slowdown_distance", 0.1, 10)
    u = S.unit("direction", 2)
    a = S.mock(cls=PATH, fields=dict(segments=[], attractor_position=x + t, maximum_velocity=vmax, slowdown_distance=slow),
               methods={"evaluate_dynamics_sequence": lambda o, position: S.mock(methods={"get_end_vector": lambda o: S.copy(u)})})
    v = S.m(a, "evaluate", x)
    dist = S.norm(t)
    S.ensure("speed shrinks linearly with the distance of the attractor", S.eq(S.norm(v) * slow, vmax * S.ite(dist < slow, dist, slow)))
    S.ensure("direction of the sequence", S.eq(v, u * S.norm(v)))


@contract("C13", PATH + ".evaluate", PATH + ".evaluate_dynamics_sequence", PATH + ".get_weights", modular=DISTINCT, timeout_ms=30000)
def path_is_followed_on_its_segments(S):
    """a position on a segment is moved along that segment"""
    D = S.dim()
    n = S.choice("n", [1, 2])
    k = S.choice("segment", [0, 1]) if n == 2 else 0
    dirs = [S.turned("dir0", None, D)]
    for j in range(1, n):
        dirs.append(S.turned(f"dir{j}", dirs[-1]))
    t = S.turned("to_attractor", dirs[-1])
    x, tn = S.vec("position", D), S.real("distance", 0.01, 20)
    attr = x + t.v * tn
    far = S.vec("offset", D)
    segs = []
    for j in range(n):
        before, length = S.real(f"before{j}", -5, 5), S.real(f"length{j}", 0.5, 10)
        if j == k:
            S.assume(S.And(before >= 0, before <= length))
        start = x - dirs[j].v * before + (far if j != k else 0)
        segs.append(S.raw(SEG, start=start, end=start + dirs[j].v * length, direction=dirs[j].v, length=length, orientation=0.0))
    if n == 2:
        S.assume(S.m(segs[1 - k], "get_distance", x) > 1e-3)
    vmax = S.real("maximum_velocity", 0.1, 10)
    ds = S.raw(PATH, segments=segs, attractor_position=attr, maximum_velocity=vmax, slowdown_distance=1.0)
    v = S.m(ds, "evaluate", x)
    S.ensure("along the segment", S.eq(v, dirs[k].v * S.norm(v)))


@contract("C13", WAVY + ".evaluate", WAVY + ".get_rotation_matrix", timeout_ms=20000)
def waves_around_the_way_to_the_attractor(S):
    attr, r = S.vec("attractor", 2), S.vec("relative", 2)
    top = S.real("maximum_deviation", 0, 1.57)
    vmax, stretch = S.real("maximum_velocity", 0.1, 10), S.real("distance_stretch", 0, 10)
    ds = S.new(WAVY, attractor_position=attr, distance_strech_factor=stretch, maximum_deviation=top, maximum_velocity=vmax)
    v = S.m(ds, "evaluate", attr + r)
    dist = S.norm(r)
    S.ensure("speed of the linear dynamics", S.eq(S.norm(v), S.ite(dist < vmax, dist, vmax)))
    S.ensure("moves closer to the attractor", S.Or(dist < 1e-6, S.dot(v, r) < 0))
    S.ensure("turned by at most the maximum deviation", S.eq(S.dot(v, r) * -1, S.cos(top * S.sin(dist * stretch)) * S.norm(v) * dist))


@contract("C13", SPI3 + ".evaluate", timeout_ms=20000)
def spiral_moves_along_its_axis(S):
    frame = Frame(S, "pose", S.choice("space", ["space", "shift"]), 3)
    R, speed, vmax = S.real("radius", 0.1, 10), S.real("speed", 0, 10), S.real("circular_velocity", 0, 10)
    circular = S.new(CIRC, pose=S.new("vartools.states:Pose", S.zero(2), 0.0), radius=R, maximum_velocity=vmax)
    axis = frame.turn(S.array([1, 0, 0]))
    r = S.vec("relative", 3)
    ds = S.new(SPI3, frame.pose(), axis, circular, speed)
    v = S.m(ds, "evaluate", frame.at(r))
    S.ensure("constant speed", S.eq(S.norm(v), speed))
    w = back(S, frame, v)
    vy, vz, y, z = S.at(w, 1), S.at(w, 2), S.at(r, 1), S.at(r, 2)
    if S.true(speed > 0):
        S.ensure("forward along the axis", S.dot(v, axis) > 0)
        S.ensure("spiraling around the axis", S.Implies(S.And(y * y + z * z > 0, vmax > 0), y * vz - z * vy > 0))
        S.ensure("straight on the axis", S.Implies(S.eq(y * y + z * z, 0), S.eq(v, axis * speed)))
        S.ensure("approaches the radius from outside", S.Implies(S.And(y * y + z * z > 1.01 * R * R, vmax > 0), y * vy + z * vz < 0))
        S.ensure("approaches the radius from inside", S.Implies(S.And(y * y + z * z < 0.99 * R * R, y * y + z * z > 0, vmax > 0), y * vy + z * vz > 0))


@contract("C13", SPI3 + ".create_from_direction", SPI3 + ".evaluate", timeout_ms=20000)
def spiral_around_a_direction(S):
    center, d, x = S.vec("center", 3), S.vec("direction", 3, nonzero=True), S.vec("position", 3)
    R, speed = S.real("radius", 0.1, 10), S.real("speed", 0, 10)
    S.assume(S.norm(d) > 1e-3)
    ds = S.m(S.cls(SPI3), "create_from_direction", center, d, R, speed)
    S.ensure("center", S.eq(S.get(S.get(ds, "pose"), "position"), center))
    S.ensure("radius", S.eq(S.get(S.get(ds, "circular_dynamics"), "radius"), R))
    S.ensure("axis", S.And(S.eq(S.m(S.get(ds, "pose"), "transform_direction_from_relative", S.array([1, 0, 0])) * S.norm(d), d), S.eq(S.get(ds, "direction"), d)))
    S.ensure("speed", S.eq(S.get(ds, "speed"), speed))
    S.ensure("along the axis at the center", S.eq(S.m(ds, "evaluate", S.copy(center)) * S.norm(d), d * speed))


@contract("C13", SPIA + ".evaluate", SPIA + ".attractor_position", timeout_ms=20000)
def spiral_around_an_attractor(S):
    attr, x = S.vec("attractor", 3), S.vec("position", 3)
    R, speed = S.real("radius", 0.1, 10), S.real("speed", 0, 10)
    circular = S.new(CIRC, pose=S.new("vartools.states:Pose", S.zero(2), 0.0), radius=R)
    ds = S.new(SPIA, S.new("vartools.states:Pose", attr, None), S.array([0, 1, 0]), circular, speed)
    S.ensure("attractor", S.eq(S.get(ds, "attractor_position"), attr))
    v = S.m(ds, "evaluate", x)
    S.ensure("constant speed unless at rest", S.Or(S.eq(S.norm(v), speed), S.eq(S.norm(v), 0)))
    if S.true(S.And(S.eq(S.at(x, 0), 0), S.eq(S.at(x, 2), 0), S.eq(S.at(attr, 0), 0), S.eq(S.at(attr, 2), 0))):
        S.ensure("along the axis to the attractor", S.eq(v * S.norm(attr - x), (attr - x) * speed))


def local_rotation(S, D, center_to_attractor, reference, speed, attr, dist, gamma, **kw):
    obs = S.mock(fields={"center_position": attr - center_to_attractor * dist}, methods={"get_gamma": lambda o, position, in_global_frame=False: S.ite(in_global_frame, gamma, 1000)})
    return S.new(LOC, obstacle=obs, attractor_position=attr, reference_velocity=reference * speed, **kw)


@contract("C13", LOC + ".evaluate", LOC + ".__init__", modular=DISTINCT, timeout_ms=20000)
def local_rotation_keeps_the_speed(S):
    D = S.dim()
    a = S.turned("center_to_attractor", None, D)
    ref = S.turned("reference", a)
    u = S.turned("to_attractor", a)
    attr, speed = S.vec("attractor", D), S.real("speed", 0.1, 10)
    dist, gamma = S.real("distance", 0, 30), S.real("gamma", 0.1, 20)
    ds = local_rotation(S, D, a.v, ref.v, speed, attr, S.real("center_distance", 0.1, 20), gamma, min_gamma=1, max_gamma=10)
    v = S.m(ds, "evaluate", attr - u.v * dist)
    S.ensure("speed is limited and vanishes at the attractor", S.eq(S.norm(v), S.ite(dist < speed, dist, speed)))
    S.ensure("straight to the attractor away from the obstacle", S.Implies(gamma > 10, S.eq(v, u.v * S.norm(v))))
    S.lemma_cos(ref.angle)
    S.ensure("turned by at most the reference's rotation", S.ge(S.dot(v, u.v), S.cos(ref.angle) * S.norm(v)))


@contract("C13", LOC + ".evaluate", LOC + ".__init__", modular=DISTINCT, timeout_ms=20000)
def local_rotation_in_line_with_the_obstacle(S):
    """on the line between the attractor and the obstacle's center and beyond"""
    D = S.dim()
    a = S.turned("center_to_attractor", None, D)
    ref = S.turned("reference", a)
    attr, speed = S.vec("attractor", D), S.real("speed", 0.1, 10)
    dist, gamma = S.real("distance", 0, 30), S.real("gamma", 0.1, 20)
    ds = local_rotation(S, D, a.v, ref.v, speed, attr, S.real("center_distance", 0.1, 20), gamma, min_gamma=1, max_gamma=10)
    v = S.m(ds, "evaluate", attr - a.v * dist)
    S.ensure("speed", S.eq(S.norm(v), S.ite(dist < speed, dist, speed)))
    S.ensure("velocity of the reference in the obstacle", S.Implies(gamma <= 1, S.eq(v, ref.v * S.norm(v))))
    S.ensure("straight to the attractor away from the obstacle", S.Implies(gamma > 10, S.eq(v, a.v * S.norm(v))))


@contract("C13", LOC + ".evaluate", LOC + ".__init__")
def no_local_rotation_around_the_attractor(S):
    D = S.dim()
    attr, x, w = S.vec("attractor", D), S.vec("position", D), S.vec("reference", D)
    obs = S.mock(fields={"center_position": S.copy(attr)}, methods={"get_gamma": lambda o, position, in_global_frame=False: S.real("gamma", 0.1, 20)})
    out = S.catch(lambda: S.new(LOC, obstacle=obs, attractor_position=attr, reference_velocity=w))
    if S.true(S.eq(S.norm(w), 0, 0)):
        S.ensure("a reference velocity is needed", S.raised(out, "ValueError"))
        return
    v, d = S.m(out, "evaluate", x), attr - x
    S.ensure("straight to the attractor", S.eq(v * S.norm(d), d * S.norm(v)))
    S.ensure("limited speed", S.eq(S.norm(v), S.ite(S.norm(d) < S.norm(w), S.norm(d), S.norm(w))))


@contract("C13", CIRC + ".__init__", timeout_ms=20000)
def circle_in_the_plane_of_the_base(S):
    """a base matrix sets the orientation of the circle"""
    frame = Frame(S, "pose", "space", 3)
    cols = [frame.turn(S.array(e)) for e in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
    base = S.array([[S.at(c, i) for c in cols] for i in range(3)])
    given = S.bool("pose_given")
    x = S.vec("position", 3)
    R, vmax = S.real("radius", 0.1, 10), S.real("maximum_velocity", 0, 10)
    pose = S.new("vartools.states:Pose", frame.p, None) if given else None
    ds = S.new(CIRC, base_matrix=base, pose=pose, radius=R, maximum_velocity=vmax)
    p = S.get(ds, "pose")
    S.ensure("circle around the given position or the origin", S.eq(S.get(p, "position"), frame.p if given else S.zero(3)))
    S.ensure("plane of the circle", S.eq(S.m(p, "transform_direction_from_relative", x), frame.turn(x)))
    S.ensure("radius and speed", S.And(S.eq(S.get(ds, "radius"), R), S.eq(S.get(ds, "maximum_velocity"), vmax)))


@contract("C13", MOVE + ".update_base", MOVE + ".evaluate", MOVE + ".position", timeout_ms=20000)
def dynamics_move_while_the_agent_is_close(S):
    D = S.dim()
    center, x, shift, w = S.vec("center", D), S.vec("position", D), S.vec("base_velocity", D), S.vec("velocity", D)
    R, f = S.real("radius", 0.1, 10), S.real("frequency", 1, 100)
    main = S.mock(fields={"pose": S.new("vartools.states:Pose", center, None)}, methods={"evaluate": lambda o, position: S.ite(S.eq(position, x), w, w * 0)})
    base = S.mock(methods={"evaluate": lambda o, position: S.ite(S.eq(position, center), shift, shift * 0)})
    ds = S.new(MOVE, main, base, influence_radius=R, frequency=f)
    k = S.real("decent_factor", 1.1, 5)
    S.set(ds, "decent_factor", k)
    dist = S.norm(x - center)
    x0 = S.copy(x)
    S.m(ds, "update_base", x)
    moved = S.get(ds, "position") - center
    S.ensure("moves with the velocity of the base", S.Implies(dist < R, S.eq(moved * f, shift)))
    S.ensure("rests if the agent is far away", S.Implies(dist > k * R, S.eq(moved, S.zero(D))))
    S.ensure("slower with the distance in between", S.Implies(S.And(dist > R, dist < k * R), S.eq(moved * (f * (k - 1) * R), shift * (k * R - dist))))
    S.ensure("position unchanged", S.eq(x, x0))
    S.ensure("velocity of the main dynamics", S.eq(S.m(ds, "evaluate", x), w))


@contract("C13", CONST + ".evaluate", CONST + ".evaluate_dynamics_sequence", modular=(), timeout_ms=20000)
def constant_velocity_everywhere(S):
    D = S.dim()
    w, x = S.vec("velocity", D), S.vec("position", D)
    S.assume(S.norm(w) > 1e-3)
    ds = S.new(CONST, w)
    S.ensure("constant velocity", S.eq(S.m(ds, "evaluate", x), w))
    seq = S.m(ds, "evaluate_dynamics_sequence", x)
    S.ensure("sequence ends in the direction of the velocity", S.eq(S.m(seq, "get_end_vector") * S.norm(w), w))
    S.ensure("no rotation", S.eq(S.at(S.get(seq, "rotation_angles"), 0), 0))


@contract("C13", DEV + ".evaluate", DEV + ".evaluate_deviation", DEV + ".evaluate_convergence_velocity", timeout_ms=20000)
def deviation_of_the_constant_flow_is_limited(S):
    D = S.dim()
    ref, x, speed = S.turned("reference", None, D), S.vec("position", D), S.real("speed", 0.1, 10)
    side, scale = S.turned("side", ref), S.real("scale", 0, 3)
    ref = ref.v * speed
    out = []
    ds = S.new(DEV, S.copy(ref), S.mock(methods={"predict": lambda o, X: [S.copy(out[0])]}))
    raw = S.fn("vartools.directional_space:get_angle_space")(side.v, null_matrix=S.get(ds, "base")) * scale
    out.append(raw)
    dev = S.m(ds, "evaluate_deviation", x)
    top = 0.99 * S.arccos(0)
    S.ensure("deviation within the limit", S.le(S.norm(dev), top))
    S.ensure("direction of the deviation is kept", S.eq(dev * S.norm(raw), raw * S.norm(dev)))
    S.ensure("small deviations are kept", S.Implies(S.norm(raw) < 0.99 * top, S.eq(dev, raw)))
    v = S.m(ds, "evaluate", x)
    S.ensure("speed of the reference", S.eq(S.norm(v), S.norm(ref)))
    S.ensure("forward along the reference", S.dot(v, ref) > 0)
    S.ensure("convergence velocity", S.eq(S.m(ds, "evaluate_convergence_velocity", x), ref))


@contract("C13", PERP + ".get_velocity_factor", PERP + ".get_weights", PERP + ".evaluate_convergence_velocity", PERP + ".get_lyapunov_gradient_direction", timeout_ms=20000)
def linear_dynamics_with_limited_speed(S):
    D = S.choice("D", [2, 3])
    attr, d = S.vec("attractor", D), S.vec("to_attractor", D)
    vmax, prox = S.real("max_velocity", 0, 10), S.real("prox_distance", 0.1, 10)
    ds = S.raw(PERP, attractor_position=attr, max_velocity=vmax, prox_distance=prox, max_angle=1.5, regressors=[])
    v = S.m(ds, "evaluate_convergence_velocity", attr - d)
    n = S.norm(d)
    S.ensure("speed shrinks linearly with the distance of the attractor", S.eq(S.norm(v) * prox, vmax * S.ite(n < prox, n, prox)))
    S.ensure("towards the attractor", S.eq(v * n, d * S.norm(v)))
    g = S.m(ds, "get_lyapunov_gradient_direction", attr - d)
    S.ensure("gradient points to the attractor", S.And(S.eq(g * n, d), S.Or(S.eq(S.norm(g), 1), S.eq(n, 0))))
    if S.true(n > 1e-6):
        w = S.m(ds, "get_weights", d)
        S.ensure("weights of the axes are a partition of one", S.And(S.eq(S.sum(w), 1), *[S.within(0, S.at(w, j), 1) for j in range(D)]))
        S.ensure("an axis without a distance has no weight", S.And(*[S.Implies(S.eq(S.at(d, j), 0, 0), S.eq(S.at(w, j), 0)) for j in range(D)]))


WSUM = "vartools.directional_space:get_directional_weighted_sum"


@contract("C13", WSUM, timeout_ms=20000)
def weighted_sum_of_directions_has_unit_length(S):
    """of the stand-in of the dependency"""
    D = S.dim()
    ref = S.turned("null_direction", None, D)
    n = S.choice("n", [1, 2, 3])
    dirs = [S.turned(f"direction{j}", ref) for j in range(n)]
    m = S.fn(WSUM)(null_direction=ref.v, weights=S.array([S.real(f"w{j}", -2, 2) for j in range(n)]), directions=S.stack([d.v for d in dirs]))
    S.ensure("unit length", S.eq(S.norm(m), 1))


@contract("C13", PERP + ".__init__", PERP + ".fit_from_velocities", PERP + ".evaluate", PERP + ".velocity_to_direction", modular=(WSUM,), timeout_ms=20000)
def learned_deviation_keeps_the_speed(S):
    """the deviations of the regressors turn the velocity, the speed is the one of the linear dynamics"""
    D = S.choice("D", [2, 3])
    attr, n = S.vec("attractor", D), S.real("distance", 0, 10)
    r = S.unit("direction", D) * n
    raw = [0.0, 0.0] if D == 3 else [S.choice("deviation", [0.0, 0.3, -2.0])]
    log = []
    reg = S.mock(methods={"fit": lambda o, X, y: log.append(1), "predict": lambda o, X: S.array([raw])})
    ds = S.new(PERP, S.copy(attr), reg)
    S.set(ds, "max_velocity", S.real("max_velocity", 0, 10))
    S.m(ds, "fit_from_velocities", S.array([[1.0] * D, [-1.0] * D]) + S.array([[S.at(attr, j) for j in range(D)]] * 2), S.array([[1.0] * D, [1.0] * D]))
    S.ensure("every half-axis is fitted", len(log) == 2 * D)
    base = S.get(ds, "_null_matrices")
    for d in range(D):
        for k, sign in enumerate([-1, 1]):
            S.ensure("direction to the center of every half-axis", S.And(*[S.eq(base[j, 0, d, k], -sign if j == d else 0) for j in range(D)]))
    if D == 3:
        return
    v = S.m(ds, "evaluate", attr + r)
    S.ensure("speed shrinks with the distance of the attractor", S.eq(S.norm(v), S.get(ds, "max_velocity") * S.min(1, n)))


@contract("C13", PERP + ".evaluate", PERP + ".fit_from_velocities", timeout_ms=20000)
def learned_deviation_is_limited_on_the_axes(S):
    attr, far, a = S.vec("attractor", 2), S.real("distance", 0.1, 10), S.real("deviation", 0.01, 4) * S.choice("side", [1, -1])
    r = S.choice("axis", [[1, 0], [-1, 0], [0, 1], [0, -1]])
    reg = S.mock(methods={"fit": lambda o, X, y: None, "predict": lambda o, X: S.array([[a]])})
    ds = S.new(PERP, S.copy(attr), reg)
    S.m(ds, "fit_from_velocities", S.array([[1.0] * 2, [-1.0] * 2]) + S.array([[S.at(attr, j) for j in range(2)]] * 2), S.array([[1.0] * 2, [1.0] * 2]))
    v = S.m(ds, "evaluate", attr + S.array(r) * far)
    top = S.get(ds, "max_angle")
    S.ensure("largest angle below a right angle", S.within(0, top, 0.99 * S.arccos(0)))
    S.ensure("turned by the deviation, at most the largest angle", S.eq(-S.dot(v, S.array(r)), S.cos(top if S.true(S.abs(a) > top) else a) * S.min(1, far)))
    S.ensure("moves closer to the attractor", S.dot(v, S.array(r)) < 0)


def rotated_by_obstacles(S, centers, gammas, velocity, D):
    obs = [S.mock(fields=dict(center_position=c), methods={"get_gamma": lambda o, p, in_global_frame=True, g=g: g}) for c, g in zip(centers, gammas)]
    initial = S.mock(methods={"evaluate": lambda o, p: S.copy(velocity)})
    return S.new(OBSR, obstacle_container=S.mock(fields=dict(dimension=S.dval(D)), methods={
        "__len__": lambda o: len(obs), "__iter__": lambda o: iter(obs), "__getitem__": lambda o, i: obs[i]}), initial_dynamics=initial)


def linear(S, p):
    """velocity of the linear dynamics with limited speed"""
    n = S.norm(p)
    return -p if S.true(n <= 1) else -p / n


@contract("C13", OBSR + ".evaluate", modular=(VR + "rotate_direction#length", VR + "VectorRotationXd.from_directions", WSUM), timeout_ms=20000)
def obstacles_turn_the_linear_dynamics_without_changing_the_speed(S):
    D = S.dim()
    n = S.choice("obstacles", [0, 1, 2])
    zero = S.turned("zero_velocity", None, D)
    v = S.turned("velocity", zero)
    gammas = [S.real(f"gamma{i}", 0.1, 10) for i in range(n)]
    ds = rotated_by_obstacles(S, [-zero.v * S.real(f"distance{i}", 0.1, 10) for i in range(n)], gammas, v.v * S.real("speed", 0.1, 10), D)
    p = S.vec("position", D)
    S.assume(S.norm(p) > 0.01)
    r = S.m(ds, "evaluate", p)
    if n == 0:
        S.ensure("initial dynamics without obstacle", S.eq(r, S.m(S.get(ds, "initial_dynamics"), "evaluate", p)))
        return
    S.ensure("speed of the linear dynamics", S.eq(S.norm(r), S.norm(linear(S, p))))


@contract("C13", OBSR + ".evaluate", modular=DISTINCT + (WSUM,), timeout_ms=20000)
def only_obstacles_which_are_not_opposed_turn_the_dynamics(S):
    """turned towards the flow at the obstacle, up to its surface by the full angle, and not at all for the opposite flow"""
    D = S.dim()
    dist, speed = S.real("distance", 0.1, 10), S.real("speed", 0.1, 10)
    zero = S.turned("zero_velocity", None, D)
    opposed = S.choice("opposed", [True, False])
    v = -zero.v if opposed else S.turned("velocity", zero).v
    ds = rotated_by_obstacles(S, [-zero.v * dist], [S.real("gamma", 0.1, 1)], v * speed, D)
    far = S.real("position", 0.1, 10)
    r = S.m(ds, "evaluate", -zero.v * far)
    S.ensure("same without an update of the known centers", S.eq(S.m(ds, "evaluate", -zero.v * far, update_center_dynamics=False), r))
    slow = dist if S.true(dist <= 1) else 1
    at = far if S.true(far <= 1) else 1
    w = S.min(S.min(slow, speed), 1) * S.min(5 * (S.dot(zero.v, v) + 1), 1)
    if opposed:
        S.ensure("not turned by an opposed flow", S.eq(r, zero.v * at))
    else:
        S.ensure("turned towards the flow at the obstacle", S.eq(S.dot(r, zero.v), at * S.cos(S.arccos(S.dot(zero.v, v)) * w)))
        S.ensure("not turned away", S.ge(S.dot(r, v - zero.v * S.dot(zero.v, v)), 0))


@contract("C13", PERP + ".evaluate", PERP + ".fit_from_velocities", timeout_ms=20000)
def learned_deviation_in_space_is_limited_on_the_axes(S):
    """the combined angle of the deviations about all axes is limited"""
    attr, far = S.vec("attractor", 3), S.real("distance", 0.1, 10)
    n, u = S.real("deviation", 0.01, 4), S.unit("about", 2)
    r = S.choice("axis", [[1, 0, 0], [0, -1, 0], [0, 0, 1]])
    reg = S.mock(methods={"fit": lambda o, X, y: None, "predict": lambda o, X: S.array([[S.at(u, 0) * n, S.at(u, 1) * n]])})
    ds = S.new(PERP, S.copy(attr), reg)
    S.m(ds, "fit_from_velocities", S.array([[1.0] * 3, [-1.0] * 3]) + S.array([[S.at(attr, j) for j in range(3)]] * 2), S.array([[1.0] * 3, [1.0] * 3]))
    v = S.m(ds, "evaluate", attr + S.array(r) * far)
    top = S.get(ds, "max_angle")
    S.ensure("turned by the deviation, at most the largest angle", S.eq(-S.dot(v, S.array(r)), S.cos(top if S.true(n > top) else n) * S.min(1, far)))
    S.ensure("moves closer to the attractor", S.dot(v, S.array(r)) < 0)


@contract("C13", N + "segmented_dynamics:create_segment_from_points", SEG + ".__post_init__", PATH + ".__init__", PATH + ".n_segments", timeout_ms=20000)
def paths_through_points(S):
    """one segment per step, shortened by the margin at both ends, in the direction of travel"""
    n = S.choice("points", [2, 3])
    m = S.real("margin", 0, 1)
    pts, dirs, lengths = [S.vec("point0", 2)], [], []
    for i in range(1, n):
        u, q = S.unit(f"direction{i}", 2), S.real(f"length{i}", 0.1, 10)
        dirs.append(u)
        lengths.append(q)
        pts.append(pts[-1] + u * (q + 2 * m))
    path = S.fn(N + "segmented_dynamics:create_segment_from_points")([S.copy(p) for p in pts], margin=m)
    S.ensure("one segment per step", S.get(path, "n_segments") == n - 1)
    for i, s in enumerate(S.get(path, "segments")):
        S.ensure("from one point to the next", S.And(S.eq(S.get(s, "start"), pts[i] + dirs[i] * m), S.eq(S.get(s, "end"), pts[i + 1] - dirs[i] * m)))
        S.ensure("direction and length", S.And(S.eq(S.get(s, "direction"), dirs[i]), S.eq(S.get(s, "length"), lengths[i])))
    S.ensure("ends at the last point", S.eq(S.get(path, "attractor_position"), pts[-1] - dirs[-1] * m))
    r = S.catch(lambda: S.fn(N + "segmented_dynamics:create_segment_from_points")([S.copy(pts[0]), S.copy(pts[0])], margin=m))
    S.ensure("equal points are rejected", S.raised(r, "ValueError"))
