"""C04: rotation sequences.  A chain of planar rotations leads from the first direction to the last."""
from pyvc.contract import contract

VR = "nonlinear_avoidance.vector_rotation:"
SEQ = VR + "VectorRotationSequence"
SD = "nonlinear_avoidance.dynamics.sequenced_dynamics:"
ROT2 = (VR + "rotate_direction", VR + "rotate_array")
CV = "nonlinear_avoidance.dynamics.constant_value:ConstantValueWithSequence"


def planar(S, B, v, phi):
    b0, b1 = S.col(B, 0), S.col(B, 1)
    x, y = S.dot(b0, v), S.dot(b1, v)
    c, s = S.cos(phi), S.sin(phi)
    return v - b0 * x - b1 * y + b0 * (c * x - s * y) + b1 * (s * x + c * y)


def chain(S, n, D, closed=False):
    """any sequence of n rotations (closed: every plane starts where the last rotation ended)"""
    bases = [S.basis(f"seq{i}", D) for i in range(n)]
    angles = [S.real(f"angle{i}", -3, 3) for i in range(n)]
    seq = S.m(S.cls(SEQ), "create_empty", S.dval(D))
    for b, a in zip(bases, angles):
        S.m(seq, "append_from_base_and_angle", b, a)
    return seq, bases, angles


@contract("C04", SEQ + ".create_empty", SEQ + ".append_from_base_and_angle", SEQ + ".push_root_from_base_and_angle",
          SEQ + ".get_end_vector")
def append_and_push_keep_order(S):
    D = S.dim()
    n = S.int("n", 0, 2)
    seq, bases, angles = chain(S, n, D)
    B, a = S.basis("new", D), S.real("new_angle", -3, 3)
    push = S.bool("push")
    S.m(seq, "push_root_from_base_and_angle" if push else "append_from_base_and_angle", B, a)
    bases = [B] + bases if push else bases + [B]
    angles = [a] + angles if push else angles + [a]
    arr, ang = S.get(seq, "basis_array"), S.get(seq, "rotation_angles")
    S.ensure("one more rotation", S.And(S.eq(S.get(seq, "n_rotations"), n + 1), S.eq(S.get(seq, "dimension"), S.dval(D))))
    for i in range(n + 1):
        S.ensure("angles in order", S.eq(ang[i], angles[i]))
        for j in range(2):
            S.ensure("planes in order", S.eq(arr[:, i, j], S.col(bases[i], j)))
    end = S.m(seq, "get_end_vector")
    S.ensure("end vector is the first axis of the last plane turned by its angle",
             S.eq(end, planar(S, bases[-1], S.col(bases[-1], 0), angles[-1])))
    S.ensure("unit length", S.eq(S.norm(end), 1))


@contract("C04", SEQ + ".create_from_vector_array", timeout_ms=20000)
def sequence_from_vectors(S):
    D = S.dim()
    n = S.int("n", 2, 3)
    vs = S.vecs("v", n, D)
    v0 = S.copy(vs)
    out = S.catch(lambda: S.m(S.cls(SEQ), "create_from_vector_array", vs))
    V = [S.col(v0, i) for i in range(n)]
    zero = S.Or(*[S.norm(v) <= 1e-8 for v in V])
    if S.true(zero):
        S.ensure("zero vectors are rejected", S.raised(out, "ValueError"))
        return
    U = [v / S.norm(v) for v in V]
    dots = [S.dot(U[i], U[i + 1]) for i in range(n - 1)]
    if S.raised(out):
        S.ensure("only opposite directions are rejected", S.And(S.raised(out, "ValueError"), S.Or(*[S.le(d, -1 + 1e-9) for d in dots])))
        return
    arr, ang = S.get(out, "basis_array"), S.get(out, "rotation_angles")
    S.ensure("one rotation per step", S.eq(S.get(out, "n_rotations"), n - 1))
    S.ensure("argument unchanged", S.eq(vs, v0))
    for i in range(n - 1):
        b0, b1 = arr[:, i, 0], arr[:, i, 1]
        S.ensure("every plane starts with the normalised vector", S.eq(b0, U[i]))
        S.ensure("planes are orthonormal", S.And(S.eq(S.norm(b1), 1), S.eq(S.dot(b0, b1), 0)))
        S.ensure("angle in [0, pi]", S.within(0, ang[i], S.pi))
        rot = S.m(S.fn(VR + "VectorRotationXd")(base=S.stack([b0, b1]), rotation_angle=ang[i]), "rotate", U[i])
        if S.true(S.norm(U[i] - U[i + 1]) <= 0.003):
            S.ensure("nearly parallel vectors: stays or moves onto the next", S.Or(S.eq(rot, U[i]), S.eq(rot, U[i + 1])))
        else:
            S.ensure("carries every vector onto the next", S.eq(rot, U[i + 1]))
            S.ensure("angle between the vectors", S.eq(S.cos(ang[i]), dots[i]))


@contract("C04", SEQ + ".append_from_direction", timeout_ms=20000, strong=True)
def append_direction(S):
    D = S.dim()
    n = S.int("n", 1, 2)
    seq, bases, angles = chain(S, n, D)
    w = S.vec("w", D, nonzero=True)
    end = S.m(seq, "get_end_vector")
    wn = w / S.norm(w)
    S.assume(S.And(S.norm(end - wn) > 0.003, S.norm(end + wn) > 0.003))
    S.m(seq, "append_from_direction", w)
    arr = S.get(seq, "basis_array")
    S.ensure("one more rotation", S.eq(S.get(seq, "n_rotations"), n + 1))
    S.ensure("the new rotation starts at the old end", S.eq(arr[:, n, 0], end))
    S.ensure("the sequence ends at the new direction", S.eq(S.m(seq, "get_end_vector"), wn))


@contract("C04", SEQ + ".rotate_weighted", SEQ + ".rotate", modular=(VR + "rotate_direction#length", VR + "rotate_array#angles"))
def weighted_rotation_is_isometry(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    seq, bases, angles = chain(S, n, D)
    v = S.vec("v", D)
    ws = [S.real(f"w{i}", 0, 1) for i in range(n)]
    r = S.m(seq, "rotate_weighted", v, weights=S.array(ws))
    S.ensure("length preserved", S.eq(S.norm(r), S.norm(v)))
    for i in range(n):
        for j in range(2):
            S.ensure("sequence unchanged", S.eq(S.get(seq, "basis_array")[:, i, j], S.col(bases[i], j)))
        S.ensure("angles unchanged", S.eq(S.get(seq, "rotation_angles")[i], angles[i]))


@contract("C04", SEQ + ".rotate_weighted", SEQ + ".rotate", timeout_ms=20000, modular=ROT2)
def full_rotation_applies_every_rotation(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    seq, bases, angles = chain(S, n, D)
    v = S.vec("v", D)
    want = v
    for b, a in zip(bases, angles):
        want = planar(S, b, want, a)
    S.ensure("full weight on the last one applies all rotations in turn", S.eq(S.m(seq, "rotate", v), want))
    S.ensure("no weight leaves the vector unchanged", S.eq(S.m(seq, "rotate", v, rot_factor=0), v))


@contract("C04", SEQ + ".rotate_weighted", timeout_ms=20000, modular=ROT2)
def partial_weight_stops_at_that_vector(S):
    D = S.dim()
    seq, bases, angles = chain(S, 1, D)
    v, w = S.vec("v", D), S.real("w", 0, 1)
    S.ensure("a single rotation is applied in part",
             S.eq(S.m(seq, "rotate_weighted", v, weights=S.array([w])), planar(S, bases[0], v, w * angles[0])))
    seq, bases, angles = chain(S, 2, D)
    r = S.m(seq, "rotate_weighted", v, weights=S.array([1.0, 0.0]))
    S.ensure("full weight on the first rotation applies only that one", S.eq(r, planar(S, bases[0], v, angles[0])))


@contract("C04", SEQ + ".rotate_weighted", timeout_ms=20000, modular=ROT2)
def partial_rotations_carry_the_following_planes(S):
    """weights: what is left out of a rotation turns the planes behind it back"""
    D = S.dim()
    n = S.int("n", 2, 3)
    if n == 2:
        seq, bases, angles = chain(S, n, D)
        v = S.vec("v", D)
    else:                                      # connected rotations, applied to the first direction
        at = S.turned("root", None, D)
        seq, bases, angles, v = S.m(S.cls(SEQ), "create_empty", S.dval(D)), [], [], at.v
        for i in range(n):
            nxt = S.turned(f"step{i}", at)
            bases.append(S.stack([at.v, nxt.p]))
            angles.append(nxt.angle)
            S.m(seq, "append_from_base_and_angle", bases[-1], nxt.angle)
            at = nxt
    cum = [S.real(f"c{i}", 0, 1) for i in range(n)]
    for i in range(n - 1):
        S.assume(cum[i + 1] <= cum[i])
    w = [cum[i] - (cum[i + 1] if i + 1 < n else 0) for i in range(n)]
    r = S.m(seq, "rotate_weighted", v, weights=S.array(w))
    planes = [[S.col(b, 0), S.col(b, 1)] for b in bases]
    for i in reversed(range(n - 1)):
        for j in range(i + 1, n):
            planes[j] = [planar(S, bases[i], x, (cum[i] - 1) * angles[i]) for x in planes[j]]
    want = v
    for i in range(n):
        want = planar(S, S.stack(planes[i]), want, cum[i] * angles[i])
    S.ensure("partial rotations in turn", S.eq(r, want))


@contract("C04", SD + "evaluate_dynamics_sequence", timeout_ms=20000, strong=True)
def sequence_of_dynamics(S):
    D = S.dim()
    p, vel, att, dv = S.vec("position", D), S.vec("velocity", D), S.vec("attractor", D), S.vec("default_velocity", D)
    kind = S.choice("kind", ["own", "default", "attractor", "plain"])
    p0 = S.copy(p)
    meth = {"evaluate": lambda o, x: S.copy(vel)}
    absent = ["evaluate_dynamics_sequence"]
    fields, default = {}, None
    if kind == "own":
        meth["evaluate_dynamics_sequence"] = lambda o, x: "own sequence"
        absent = []
    if kind == "default":
        default = S.mock(methods={"evaluate": lambda o, x: S.copy(dv)})
    if kind in ("own", "attractor"):
        fields["attractor_position"] = att
    else:
        absent.append("attractor_position")
    dyn = S.mock(fields=fields, methods=meth, absent=tuple(absent))
    base = dv if kind == "default" else att - p0 if kind == "attractor" else vel
    if kind != "own":
        for x in (base, vel):
            S.assume(S.Or(S.eq(S.norm(x), 0, 0), S.norm(x) > 1e-6))
    out = S.catch(lambda: S.fn(SD + "evaluate_dynamics_sequence")(p, dyn, default))
    if kind == "own":
        S.ensure("dynamics that provide a sequence decide themselves", out == "own sequence")
        return
    if S.true(S.Or(S.eq(S.norm(base), 0, 0), S.eq(S.norm(vel), 0, 0))):
        S.ensure("no sequence for a zero velocity", S.isnone(out))
        return
    bn, vn = base / S.norm(base), vel / S.norm(vel)
    if S.raised(out):
        S.ensure("only opposite directions are rejected", S.And(S.raised(out, "ValueError"), S.le(S.dot(bn, vn), -1 + 1e-9)))
        return
    S.ensure("starts at the base direction", S.eq(S.get(out, "basis_array")[:, 0, 0], bn))
    if S.true(S.norm(bn - vn) > 0.003):
        S.ensure("ends at the velocity direction", S.eq(S.m(out, "get_end_vector"), vn))
    else:
        end = S.m(out, "get_end_vector")
        S.ensure("ends at the nearly parallel base or velocity direction", S.Or(S.eq(end, bn), S.eq(end, vn)))
    S.ensure("position unchanged", S.eq(p, p0))


@contract("C04", CV + ".evaluate_dynamics_sequence", CV + ".evaluate")
def constant_value_sequence(S):
    D = S.dim()
    v = S.vec("velocity", D, nonzero=True)
    S.assume(S.norm(v) > 1e-6)
    v0 = S.copy(v)
    dyn = S.new(CV, velocity=v)
    p = S.vec("position", D)
    S.ensure("velocity is constant", S.eq(S.m(dyn, "evaluate", p), v0))
    seq = S.m(dyn, "evaluate_dynamics_sequence", p)
    S.ensure("the sequence ends at the velocity direction", S.eq(S.m(seq, "get_end_vector"), v0 / S.norm(v0)))
    S.ensure("no turn", S.eq(S.get(seq, "rotation_angles")[0], 0))
