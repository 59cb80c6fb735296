"""C01: planar rotations are isometries.  C02: rotation from two directions.  C03: directional addition."""
from pyvc.contract import contract

VR = "nonlinear_avoidance.vector_rotation:"
ROT = VR + "VectorRotationXd"


def rotation(S, D, name="R"):
    B = S.basis(name + "_base", D)
    th = S.real(name + "_angle", -7, 7)
    return B, th, S.new(ROT, base=S.copy(B), rotation_angle=th)


def planar(S, B, v, phi):
    """spec: rotate the component in the plane, keep the rest"""
    b0, b1 = S.col(B, 0), S.col(B, 1)
    x, y = S.dot(b0, v), S.dot(b1, v)
    c, s = S.cos(phi), S.sin(phi)
    return v - b0 * x - b1 * y + b0 * (c * x - s * y) + b1 * (s * x + c * y)


@contract("C01", VR + "rotate_direction")
def rotate_direction_is_planar_rotation(S):
    D = S.dim()
    B, v, th = S.basis("base", D), S.vec("v", D), S.real("angle", -7, 7)
    v0, B0 = S.copy(v), S.copy(B)
    r = S.fn(VR + "rotate_direction")(direction=v, base=B, rotation_angle=th)
    S.ensure("length preserved", S.eq(S.norm(r), S.norm(v0)))
    S.ensure("plane component turned by the angle, rest kept", S.eq(r, planar(S, B0, v0, th)))
    S.ensure("argument vector unchanged", S.eq(v, v0))
    S.ensure("argument base unchanged", S.eq(B, B0))


@contract("C01", ROT + ".rotate")
def rotate_is_planar_rotation(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    v, f = S.vec("v", D), S.real("factor", -2, 2)
    r = S.m(rot, "rotate", v, rot_factor=f)
    S.ensure("length preserved", S.eq(S.norm(r), S.norm(v)))
    S.ensure("turned by factor * angle", S.eq(r, planar(S, B, v, f * th)))
    r1 = S.m(rot, "rotate", v)
    S.ensure("default factor is the full angle", S.eq(r1, planar(S, B, v, th)))


@contract("C01", ROT + ".rotate")
def rotate_preserves_angles_between_vectors(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    v, w = S.vec("v", D), S.vec("w", D)
    a, b = S.m(rot, "rotate", v), S.m(rot, "rotate", w)
    S.ensure("inner product preserved", S.eq(S.dot(a, b), S.dot(v, w)))


@contract("C01", ROT + ".rotate", ROT + ".inverse_rotate", ROT + ".inv")
def inverse_undoes(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    v = S.vec("v", D)
    S.ensure("inverse after rotate", S.eq(S.m(rot, "inverse_rotate", S.m(rot, "rotate", v)), v))
    S.ensure("rotate after inverse", S.eq(S.m(rot, "rotate", S.m(rot, "inverse_rotate", v)), v))
    inv = S.m(rot, "inv")
    S.ensure("inverse rotation object", S.eq(S.m(inv, "rotate", S.m(rot, "rotate", v)), v))
    S.ensure("inv keeps the original", S.And(S.eq(S.get(rot, "rotation_angle"), th), S.eq(S.get(rot, "base"), B)))


@contract("C01", ROT + ".rotate")
def rotations_compose_and_fix_zero(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    v, f, g = S.vec("v", D), S.real("f", -2, 2), S.real("g", -2, 2)
    r = S.m(rot, "rotate", S.m(rot, "rotate", v, rot_factor=f), rot_factor=g)
    S.ensure("fractions add", S.eq(r, S.m(rot, "rotate", v, rot_factor=f + g)))
    S.ensure("zero fraction is the identity", S.eq(S.m(rot, "rotate", v, rot_factor=0), v))
    S.ensure("zero vector stays zero", S.eq(S.norm(S.m(rot, "rotate", S.zero(D))), 0))


@contract("C01", VR + "rotate_array")
def rotate_array_rotates_columns(S):
    D = S.dim()
    B, th = S.basis("base", D), S.real("angle", -7, 7)
    n = S.int("n", 1, 3)
    vs = S.vecs("v", n, D)
    for i in range(n):
        S.assume(S.norm(S.col(vs, i)) > 0.001)
    v0 = S.copy(vs)
    out = S.fn(VR + "rotate_array")(directions=vs, base=B, rotation_angle=th)
    for i in range(n):
        v = S.col(v0, i)
        S.ensure("column is the rotated unit direction", S.eq(S.col(out, i), planar(S, B, v / S.norm(v), th)))
    S.ensure("argument unchanged", S.eq(vs, v0))


@contract("C01", VR + "rotate_array")
def rotate_array_keeps_angles_between_columns(S):
    D = S.dim()
    B, th = S.basis("base", D), S.real("angle", -7, 7)
    vs = S.vecs("v", 2, D)
    a, b = S.col(vs, 0), S.col(vs, 1)
    S.assume(S.And(S.norm(a) > 0.001, S.norm(b) > 0.001))
    out = S.fn(VR + "rotate_array")(directions=S.copy(vs), base=B, rotation_angle=th)
    x, y = S.col(out, 0), S.col(out, 1)
    S.ensure("unit columns", S.And(S.eq(S.norm(x), 1), S.eq(S.norm(y), 1)))
    S.ensure("angles between the columns preserved", S.eq(S.dot(x, y) * S.norm(a) * S.norm(b), S.dot(a, b)))


@contract("C01", ROT + ".rotate_vector_rotation")
def rotating_a_rotation_rotates_its_plane(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    B2, th2, rot2 = rotation(S, D, "R2")
    f = S.real("factor", -2, 2)
    out = S.m(rot, "rotate_vector_rotation", rot2, rot_factor=f)
    S.ensure("same angle", S.eq(S.get(out, "rotation_angle"), th2))
    for i in range(2):
        S.ensure("plane is carried along", S.eq(S.col(S.get(out, "base"), i), planar(S, B, S.col(B2, i), f * th)))
    S.ensure("original kept", S.eq(S.get(rot2, "base"), B2))


@contract("C01", ROT + ".rotate_sequence")
def rotating_a_sequence_rotates_every_plane(S):
    D = S.dim()
    B, th, rot = rotation(S, D)
    n = S.int("n", 1, 2)
    seq = S.m(S.cls(VR + "VectorRotationSequence"), "create_empty", S.dval(D))
    bases, angles = [], []
    for i in range(n):
        b, a = S.basis(f"seq{i}", D), S.real(f"seqangle{i}", -3, 3)
        S.m(seq, "append_from_base_and_angle", b, a)
        bases.append(b)
        angles.append(a)
    f = S.real("factor", -2, 2)
    out = S.m(rot, "rotate_sequence", seq, rotation_factor=f)
    arr = S.get(out, "basis_array")
    for i in range(n):
        for j in range(2):
            S.ensure("plane is carried along", S.eq(arr[:, i, j], planar(S, B, S.col(bases[i], j), f * th)))
            S.ensure("original kept", S.eq(S.get(seq, "basis_array")[:, i, j], S.col(bases[i], j)))
        S.ensure("angles kept", S.eq(S.get(out, "rotation_angles")[i], angles[i]))


def close_to(S, a, b):
    return S.norm(a - b) <= 0.003


@contract("C02", ROT + ".from_directions", timeout_ms=20000)
def from_directions_orthonormal_and_carries(S):
    D = S.dim()
    v, w = S.vec("v", D, nonzero=True), S.vec("w", D, nonzero=True)
    rot = S.m(S.cls(ROT), "from_directions", v, w)
    base, ang = S.get(rot, "base"), S.get(rot, "rotation_angle")
    b0, b1 = S.col(base, 0), S.col(base, 1)
    vn, wn = v / S.norm(v), w / S.norm(w)
    S.ensure("first base vector is the first direction", S.eq(b0, vn))
    S.ensure("base orthonormal", S.And(S.eq(S.norm(b1), 1), S.eq(S.dot(b0, b1), 0)))
    S.ensure("angle in [0, pi]", S.within(0, ang, S.pi))
    S.ensure("angle is the angle between the directions", S.eq(S.cos(ang), S.dot(vn, wn)))
    r = S.m(rot, "rotate", vn)
    r2 = S.m(rot, "get_second_vector")
    if S.true(S.Or(close_to(S, vn, wn), close_to(S, vn, wn * (-1)))):
        sg = 1 if S.true(close_to(S, vn, wn)) else -1
        S.ensure("same distance to the axis of the first direction",
                 S.eq(S.norm(r - vn * sg), S.norm(wn - vn * sg)))
        S.lemma_cauchy(r - vn * sg, wn - vn * sg)
        S.ensure("carries first close to second (nearly aligned)", S.near(r, wn, 0.01))
        S.ensure("second vector (nearly aligned)", S.eq(r2, r))
    else:
        S.ensure("carries first onto second", S.eq(r, wn))
        S.ensure("second vector", S.eq(r2, wn))
        S.ensure("inverse carries second onto first", S.eq(S.m(rot, "inverse_rotate", wn), vn))
    S.ensure("first vector", S.eq(S.m(rot, "get_first_vector"), vn))


@contract("C02", ROT + ".from_directions", timeout_ms=20000)
def base_of_distinct_directions(S):
    D = S.dim()
    v, w = S.vec("v", D, nonzero=True), S.vec("w", D, nonzero=True)
    vn, wn = v / S.norm(v), w / S.norm(w)
    d = S.dot(vn, wn)
    S.assume(S.And(S.norm(vn - wn) > 0.003, S.norm(vn + wn) > 0.003))
    rot = S.m(S.cls(ROT), "from_directions", v, w)
    base, ang = S.get(rot, "base"), S.get(rot, "rotation_angle")
    S.ensure("starts with the first direction", S.eq(S.col(base, 0), vn))
    S.ensure("spanned by the two directions", S.eq(S.col(base, 1) * S.norm(wn - vn * d), wn - vn * d))
    S.ensure("angle between the directions", S.eq(ang, S.arccos(d)))


@contract("C02", ROT + ".from_directions", timeout_ms=20000)
def fraction_turns_by_that_fraction(S):
    D = S.dim()
    v, w, t = S.vec("v", D, nonzero=True), S.vec("w", D, nonzero=True), S.real("t", 0, 1)
    rot = S.m(S.cls(ROT), "from_directions", v, w)
    ang = S.get(rot, "rotation_angle")
    vn = v / S.norm(v)
    r = S.m(rot, "rotate", vn, rot_factor=t)
    S.ensure("unit length", S.eq(S.norm(r), 1))
    S.ensure("angle to the first direction is the fraction", S.eq(S.dot(r, vn), S.cos(t * ang)))


@contract("C03", VR + "directional_vector_addition", timeout_ms=20000)
def directional_addition(S):
    D = S.dim()
    v, w, t = S.vec("v", D), S.vec("w", D), S.real("t", 0, 1)
    v0, w0 = S.copy(v), S.copy(w)
    r = S.fn(VR + "directional_vector_addition")(v, w, t)
    nv, nw = S.norm(v0), S.norm(w0)
    S.ensure("magnitude interpolates linearly", S.eq(S.norm(r), (1 - t) * nv + t * nw))
    S.ensure("arguments unchanged", S.And(S.eq(v, v0), S.eq(w, w0)))


@contract("C03", VR + "directional_vector_addition", timeout_ms=20000)
def directional_addition_endpoints(S):
    D = S.dim()
    v, w = S.vec("v", D), S.vec("w", D)
    f = S.fn(VR + "directional_vector_addition")
    nv, nw = S.norm(v), S.norm(w)
    S.ensure("weight 0 gives the first vector", S.eq(f(v, w, 0.0), v))
    r1 = f(v, w, 1.0)
    if S.true(S.And(nv > 0, nw > 0)):
        vn, wn = v / nv, w / nw
        if S.true(S.Or(close_to(S, vn, wn), close_to(S, vn, wn * (-1)))):
            sg = 1 if S.true(close_to(S, vn, wn)) else -1
            u = r1 / nw
            S.ensure("same distance to the axis of the first direction",
                     S.eq(S.norm(u - vn * sg), S.norm(wn - vn * sg)))
            S.lemma_cauchy(u - vn * sg, wn - vn * sg)
            S.ensure("weight 1 gives the second vector (nearly aligned)", S.near(u, wn, 0.01))
        else:
            S.ensure("weight 1 gives the second vector", S.eq(r1, w))
    else:
        S.ensure("weight 1 gives the second vector", S.eq(r1, w))


@contract("C03", VR + "directional_vector_addition", timeout_ms=20000)
def directional_addition_angle(S):
    D = S.dim()
    v, w, t = S.vec("v", D, nonzero=True), S.vec("w", D, nonzero=True), S.real("t", 0, 1)
    r = S.fn(VR + "directional_vector_addition")(v, w, t)
    vn, wn = v / S.norm(v), w / S.norm(w)
    m = (1 - t) * S.norm(v) + t * S.norm(w)
    ang = S.arccos(S.dot(vn, wn))
    S.ensure("turned away from the first vector by the weight's share of the angle",
             S.eq(S.dot(r, vn), m * S.cos(t * ang)))
