"""C06: slowing down in front of an obstacle never reverses, never speeds up."""
from pyvc.contract import contract

RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"
MA = "nonlinear_avoidance.multi_obstacle_avoider:MultiObstacleAvoider"


def unitball(S, name, D):
    return S.vec(name, D, max_norm=1)


@contract("C06", RA + ".compute_safe_scaling")
def safe_scaling_in_unit_interval(S):
    D = S.dim()
    v, n = unitball(S, "velocity", D), unitball(S, "normal", D)
    S.lemma_cauchy(v, n)
    g = S.real("gamma", 0, 50)
    v0, n0 = S.copy(v), S.copy(n)
    s = S.m(S.cls(RA), "compute_safe_scaling", v, n, g)
    S.ensure("scaling between 0 and 1", S.within(0, s, 1))
    S.ensure("no slow-down when moving away from the surface", S.Implies(S.dot(v, n) > 1e-9, S.eq(s, 1)))
    S.ensure("no slow-down without a velocity", S.Implies(S.eq(S.norm(v), 0), S.eq(s, 1)))
    S.ensure("stop when moving into the obstacle at contact",
             S.Implies(S.And(g <= 1, S.dot(v, n) < -0.0011, S.norm(n) > 1e-4), S.eq(s, 0)))
    S.ensure("only contact stops the motion", S.Implies(g > 1.001, s > 0))
    S.ensure("inputs unchanged", S.And(S.eq(v, v0), S.eq(n, n0)))


@contract("C06", RA + ".compute_safe_scaling")
def approaching_slows_down(S):
    D = S.dim()
    v, n = S.unit("velocity", D), S.unit("normal", D)
    S.lemma_cauchy(v, n)
    g = S.real("gamma", 1.01, 50)
    s = S.m(S.cls(RA), "compute_safe_scaling", v, n, g)
    S.ensure("slower than full speed when moving towards the surface", S.Implies(S.dot(v, n) < -0.01, s < 1))


@contract("C06", RA + ".compute_safe_magnitude")
def safe_magnitude_keeps_direction_and_bounds_speed(S):
    D = S.dim()
    v, n = unitball(S, "velocity", D), unitball(S, "normal", D)
    S.lemma_cauchy(v, n)
    g, m = S.real("gamma", 0, 50), S.real("initial_norm", 0, 20)
    v0, n0 = S.copy(v), S.copy(n)
    out = S.m(S.cls(RA), "compute_safe_magnitude", v, m, n, g)
    S.ensure("inputs unchanged", S.And(S.eq(v, v0), S.eq(n, n0)))
    nz = S.norm(v0) > 1e-9
    S.ensure("zero velocity stays zero", S.Implies(S.eq(S.norm(v0), 0), S.eq(S.norm(out), 0)))
    if S.true(S.norm(v0) > 1e-9):
        S.ensure("never faster than the initial speed", S.le(S.norm(out), m))
        S.ensure("same direction, never reversed", S.eq(out * S.norm(v0), v0 * S.norm(out)))
        S.ensure("full initial speed when moving away",
                 S.Implies(S.dot(v0, n0) > 1e-9, S.eq(S.norm(out), m)))
        S.ensure("stop when moving into the obstacle at contact",
                 S.Implies(S.And(g <= 1, S.dot(v0, n0) < -0.0011), S.eq(S.norm(out), 0)))


@contract("C06", RA + "._limit_magnitude")
def surface_limit_never_reverses(S):
    D = S.dim()
    v = S.unit("velocity", D)
    n = S.int("n", 1, 3)
    m = S.real("initial_magnitude", 0, 20)
    gammas = S.arr("gammas", n, 1, 100)
    normals = S.vecs("normals", n, D, unit=True)
    weights = S.arr("weights", n, 0, 1)
    for i in range(n):
        S.lemma_cauchy(v, S.col(normals, i))
    out = S.m(S.cls(RA), "_limit_magnitude", v, m, gammas, normals, weights)
    S.ensure("never faster than the initial speed", S.le(S.norm(out), m))
    S.ensure("same direction, never reversed", S.eq(out, v * S.norm(out)))
    away = S.And(*[S.dot(v, S.col(normals, i)) >= 0 for i in range(n)])
    S.ensure("full speed when moving away from all surfaces", S.Implies(away, S.eq(out, v * m)))
    if n == 1:
        S.ensure("head-on contact stops the motion",
                 S.Implies(S.And(S.eq(gammas[0], 1), S.eq(S.dot(v, S.col(normals, 0)), -1)), S.eq(S.norm(out), 0)))


@contract("C06", MA + ".slowfactor_from_convergence")
def convergence_slow_factor_in_unit_interval(S):
    n = S.size("n", 1, 5)
    w = S.arr("rotation_weights", n, 0, 1)
    c = S.arr("convergence_proximity", n, -1, 1.000001)
    av = S.raw(MA, _rotation_weights=w, _convergence_reference_proximity=c)
    s = S.m(av, "slowfactor_from_convergence")
    S.ensure("factor between 0 and 1", S.within(0, s, 1))
    S.ensure("no slow-down when no obstacle has influence or is approached",
             S.Implies(S.forall(n, lambda j: S.Or(S.at(w, j) <= 0, S.at(c, j) <= 0)), S.eq(s, 1)))
