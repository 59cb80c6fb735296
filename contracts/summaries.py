"""Callee contracts: callers listed with modular=(...) are verified against these instead of the callee's body.
Every summary names the contract that proves it; that contract is re-proved in every check that uses the summary."""
from pyvc.contract import summary

VR = "nonlinear_avoidance.vector_rotation:"


def planar(S, B, v, phi):
    """the component of v in the plane of B turned by phi, the rest kept"""
    b0, b1 = S.col(B, 0), S.col(B, 1)
    x, y = S.dot(b0, v), S.dot(b1, v)
    c, s = S.cos(phi), S.sin(phi)
    return v - b0 * x - b1 * y + b0 * (c * x - s * y) + b1 * (s * x + c * y)


def orthonormal(S, B):
    b0, b1 = S.col(B, 0), S.col(B, 1)
    return S.And(S.eq(S.dot(b0, b0), 1, 0), S.eq(S.dot(b1, b1), 1, 0), S.eq(S.dot(b0, b1), 0, 0))


@summary(VR + "rotate_direction", "C01/rotate_direction_is_planar_rotation")
def rotate_direction(S, direction, base, rotation_angle):
    if not S.holds(orthonormal(S, base)):
        return NotImplemented
    return planar(S, base, direction, rotation_angle)


@summary(VR + "rotate_array", "C01/rotate_array_rotates_columns")
def rotate_array(S, directions, base, rotation_angle):
    n = len(directions.cols)
    if not S.holds(orthonormal(S, base)):
        return NotImplemented
    out = []
    for i in range(n):
        v = S.col(directions, i)
        q = S.dot(v, v)
        if S.holds(S.eq(q, 1, 0)):
            out.append(planar(S, base, v, rotation_angle))
        elif S.holds(q > 0):
            out.append(planar(S, base, v / S.norm(v), rotation_angle))
        else:
            return NotImplemented
    return S.stack(out)


@summary(VR + "rotate_direction#length", "C01/rotate_direction_is_planar_rotation")
def rotate_direction_length(S, direction, base, rotation_angle):
    if not S.holds(orthonormal(S, base)):
        return NotImplemented
    if S.holds(S.eq(rotation_angle, 0, 0)):
        return S.copy(direction)
    return S.any_vec("rotated", direction, S.norm(direction))


@summary(VR + "rotate_array#angles", "C01/rotate_array_rotates_columns", "C01/rotate_array_keeps_angles_between_columns")
def rotate_array_angles(S, directions, base, rotation_angle):
    """only the angles between the columns are specified"""
    n = len(directions.cols)
    cols = [S.col(directions, i) for i in range(n)]
    if not S.holds(orthonormal(S, base)) or not all(S.holds(S.eq(S.dot(v, v), 1, 0)) for v in cols):
        return NotImplemented
    if S.holds(S.eq(rotation_angle, 0, 0)):
        return S.stack([S.copy(v) for v in cols])
    out = [S.any_vec("rotated", v, 1) for v in cols]
    for i in range(n):
        for j in range(i):
            S.set_dot(out[i], out[j], S.dot(cols[i], cols[j]))
    return S.stack(out)


@summary(VR + "VectorRotationXd.from_directions", "C02/from_directions_orthonormal_and_carries", "C02/base_of_distinct_directions")
def from_directions(S, cls, vec_init, vec_rot):
    """the plane of distinct directions; for nearly parallel ones only an orthonormal base"""
    nv, nw = S.norm(vec_init), S.norm(vec_rot)
    if not S.holds(S.And(nv > 0, nw > 0)):
        return NotImplemented
    v, w = vec_init / nv, vec_rot / nw
    d = S.dot(v, w)
    if S.holds(S.And(S.norm(v - w) > 0.003, S.norm(v + w) > 0.003)):
        perp = w - v * d
        S.assume(S.norm(perp) > 0)      # two different unit vectors that are not opposite
        perp = perp / S.norm(perp)
    else:
        x = S.any_vec("any", v, 1)
        perp = x - v * S.dot(x, v)
        S.assume(S.norm(perp) > 0)
        perp = perp / S.norm(perp)
    return cls_call(S, cls, base=S.stack([v, perp]), rotation_angle=S.arccos(d))


def cls_call(S, cls, **kw):
    return S.I.call(cls, [], kw)


RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"


@summary(RA + ".get_projected_tangent_from_vectors", "C09/projected_tangent_is_tangent")
def projected_tangent(S, initial_vector, normal, reference, convergence_radius=None):
    """unit vector at the angle of the radius to the normal"""
    rad = S.pi / 2 if convergence_radius is None else convergence_radius
    v, n, r = initial_vector, normal, reference
    if not S.holds(S.And(S.eq(S.dot(v, v), 1, 0), S.eq(S.dot(n, n), 1, 0), S.eq(S.dot(r, r), 1, 0))):
        return NotImplemented
    if not S.holds(S.And(S.dot(n, r) < -0.001, S.norm(v - r) > 0.001, S.norm(v + r) > 0.001, S.Or(S.eq(rad, S.pi / 2, 0), S.eq(rad, S.pi * 0.75, 0)))):
        return NotImplemented
    t = S.any_vec("tangent", v, 1)
    S.set_dot(t, n, -S.cos(rad))
    return t


@summary(RA + ".get_rotation_weight", "C08/rotation_weight")
def rotation_weight(S, normal_vector, reference_vector, convergence_vector, gamma_value, convergence_radius=None,
                    smooth_continuation_power=1.0, radius_base=None):
    """between zero and one, one in contact, at most 1 / gamma"""
    n, r, v = normal_vector, reference_vector, convergence_vector
    if convergence_radius is not None and not S.holds(S.eq(convergence_radius, S.pi / 2, 0)) or radius_base is not None and not S.holds(
            S.eq(radius_base, S.pi / 2, 0)):
        return NotImplemented
    if not S.holds(S.And(*[S.eq(S.dot(a, a), 1, 0) for a in (n, r, v)], S.norm(v - r) > 0, S.norm(v + r) > 0,
                         gamma_value >= 0, smooth_continuation_power >= 0, smooth_continuation_power <= 1)):
        return NotImplemented
    return S.any_real("rotation_weight", lambda w: S.And(
        S.within(0, w, 1), S.Implies(gamma_value <= 1, S.eq(w, 1, 0)), S.Implies(gamma_value >= 1, w * gamma_value <= 1)))


@summary("vartools.directional_space:get_directional_weighted_sum", "C13/weighted_sum_of_directions_has_unit_length")
def directional_weighted_sum(S, null_direction, weights, directions, **options):
    """a unit vector (dependency: read from the stand-in of /verif/stubs)"""
    if options not in ({}, {"unit_directions": True, "normalize": True, "normalize_reference": True, "total_weight": 1}) or not S.holds(
            S.norm(null_direction) > 0):
        return NotImplemented
    return S.any_vec("mean_direction", null_direction, 1)
