"""C09: the directions around an obstacle are tangent to its surface and on the side the robot is heading to."""
from pyvc.contract import contract

MOD = "nonlinear_avoidance.multi_obstacle_avoider:"
MA = MOD + "MultiObstacleAvoider"
RA = "nonlinear_avoidance.avoidance.rotational_avoider:RotationalAvoider"


def angle_vector(S, null, v):
    """v in the direction space of null, as a vector perpendicular to null (length: angle between null and v)"""
    perp = v - null * S.dot(null, v)
    a = S.norm(perp)
    if S.true(a > 0):
        return perp / a * S.arccos(S.dot(null, v))
    return perp * 0


@contract("C09", RA + ".get_projected_tangent_from_vectors", timeout_ms=20000)
def projected_tangent_is_tangent(S):
    D = S.dim()
    n, r, v = S.unit("normal", D), S.unit("reference", D), S.unit("velocity", D)
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75, 3])
    S.assume(S.dot(n, r) < -0.001)
    S.assume(S.And(S.norm(v - r) > 0.001, S.norm(v + r) > 0.001))
    t = S.m(S.cls(RA), "get_projected_tangent_from_vectors", v, n, r, rad)
    S.ensure("unit length", S.eq(S.norm(t), 1))
    S.ensure("angle to the surface normal", S.eq(S.dot(t, n), -S.cos(rad)))


@contract("C09", RA + ".get_projected_tangent_from_vectors", timeout_ms=20000)
def projected_tangent_of_round_obstacle(S):
    D = S.dim()
    n, v = S.unit("normal", D), S.unit("velocity", D)
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75, 3])
    perp = v - n * S.dot(n, v)
    S.assume(S.norm(perp) > 0.001)
    t = S.m(S.cls(RA), "get_projected_tangent_from_vectors", v, n, -n, rad)
    S.ensure("in the plane of velocity and normal, on the side of the velocity",
             S.eq(t, n * -S.cos(rad) + perp / S.norm(perp) * S.sin(rad)))


@contract("C09", RA + ".get_projected_tangent_from_vectors", timeout_ms=20000)
def projected_tangent_lies_beyond_the_velocity(S):
    """in the direction space of the normal: on the ray from the reference direction through the velocity"""
    D = S.dim()
    n, r, v = S.unit("normal", D), S.unit("reference", D), S.unit("velocity", D)
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75])
    S.assume(S.dot(n, r) < -0.001)
    S.assume(S.And(S.norm(v - r) > 0.001, S.norm(v + r) > 0.001, S.norm(v - n) > 0.001, S.norm(v + n) > 0.001))
    t = S.m(S.cls(RA), "get_projected_tangent_from_vectors", v, n, r, rad)
    side = -1 if S.true(-S.dot(v, n) > S.cos(rad)) else 1    # towards or away from the obstacle
    null = n * side
    a, b, c = angle_vector(S, null, r * -side), angle_vector(S, null, v), angle_vector(S, null, t)
    S.ensure("towards the velocity", S.ge(S.dot(c - b, b - a), 0))
    S.ensure("on the ray", S.eq(S.dot(c - b, b - a) * S.dot(c - b, b - a), S.dot(c - b, c - b) * S.dot(b - a, b - a)))


def unit_circle_vec(S, base0, t, rad):
    return S.And(S.eq(S.norm(t), 1), S.eq(S.dot(base0, t), S.cos(rad)))


@contract("C09", RA + ".get_tangent_convergence_direction", timeout_ms=20000)
def tangent_in_direction_space(S):
    D = S.dim()
    a, r = S.vec("convergence", D), S.vec("reference", D)
    rad = S.real("radius", 0.5, 3)
    S.assume(S.And(S.norm(a) <= rad, S.norm(r) <= rad))
    same = S.bool("aligned")
    if same:
        a = S.copy(r)
    else:
        S.assume(S.norm(a - r) > 0.001)
    a0, r0 = S.copy(a), S.copy(r)
    t = S.m(S.cls(RA), "get_tangent_convergence_direction", a, r, rad)
    S.ensure("on the circle", S.eq(S.norm(t), rad))
    S.ensure("arguments unchanged", S.And(S.eq(a, a0), S.eq(r, r0)))
    if not same:
        S.ensure("towards the convergence direction", S.ge(S.dot(t - a, a - r), 0))
        S.ensure("on the ray", S.eq(S.dot(t - a, a - r) * S.dot(t - a, a - r), S.dot(t - a, t - a) * S.dot(a - r, a - r)))


@contract("C09", RA + ".get_pseudo_tangent", timeout_ms=20000)
def pseudo_tangent(S):
    D = S.dim()
    base = S.obasis("base", D)
    n, r, v = base[:, 0], S.unit("reference", D), S.unit("velocity", D)
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75])
    tail = S.bool("tail_rotation")
    S.assume(S.dot(n, r) > 0.001)
    S.assume(S.norm(v - r) > 0.001)
    av = S.raw(RA, convergence_radius=rad, tail_rotation=tail)
    t = S.m(av, "get_pseudo_tangent", v, r, base)
    if S.true(S.And(S.dot(n, v) < S.cos(rad), not tail)):
        S.ensure("directions that lead away are kept", S.eq(t, v))
    else:
        S.ensure("unit vector on the circle", unit_circle_vec(S, n, t, rad))


@contract("C09", RA + ".get_intermediate_convergence_direction", timeout_ms=20000)
def intermediate_direction(S):
    D = S.dim()
    base = S.obasis("base", D)
    n, r, v = base[:, 0], S.unit("reference", D), S.unit("velocity", D)
    S.assume(S.dot(n, r) > 0.001)
    S.assume(S.norm(v - r) > 0.001)
    av = S.raw(RA, convergence_radius=S.pi * 0.75, tail_rotation=False)
    t = S.m(av, "get_intermediate_convergence_direction", v, r, base)
    S.ensure("tangent to the surface", unit_circle_vec(S, n, t, S.pi / 2))


VR = "nonlinear_avoidance.vector_rotation:"
KEY = MOD + "NodeKey"


def node_dir(S, tree, node):
    return S.get(tree, "_graph").nodes[node]["direction"]


def has_node(S, tree, node):
    return node in S.get(tree, "_graph").nodes


def branch_avoider(S, tree, normals=None, refs=None, levels=None, **fields):
    return S.mock(cls=MA, fields=dict(_tangent_tree=tree, _normal_vectors=[], **fields), methods={} if normals is None else {
        "_compute_normal_and_reference_of_branch": lambda o, *a, **k: (list(levels), list(normals), list(refs))})


@contract("C09", MA + "._simple_tangent_branch_update", timeout_ms=20000, modular=(VR + "VectorRotationXd.from_directions", RA + ".get_projected_tangent_from_vectors"))
def branch_of_the_root(S):
    """a single obstacle (or the root of a tree)"""
    D = S.dim()
    n, r, v = S.unit("normal", D), S.unit("reference", D), S.unit("velocity", D)
    S.assume(S.dot(n, r) < -0.001)
    S.assume(S.And(S.norm(v - r) > 0.001, S.norm(v + r) > 0.001))
    rad = S.choice("radius", [S.pi / 2, S.pi * 0.75])
    tail = S.bool("tail_effect")
    key = S.fn(KEY)
    t = S.new(VR + "VectorRotationTree", root_idx=key(-1, -1, -1), root_direction=v)
    S.m(t, "add_node", node_id=key(0, -1, -1), parent_id=key(-1, -1, -1), direction=v)
    av = branch_avoider(S, t, [n], [r], [0])
    obs = S.mock(methods={"get_component": lambda o, i: S.mock(fields=dict(tail_effect=tail))})
    out = S.m(av, "_simple_tangent_branch_update", S.vec("position", D), 0, v, obs, 0, convergence_radius=rad)
    S.ensure("node of the component", tuple(out) == (0, 0, 0))
    d = node_dir(S, t, out)
    S.ensure("normal is kept", S.And(len(S.get(av, "_normal_vectors")) == 1, S.eq(S.get(av, "_normal_vectors")[0], n)))
    if not tail and S.true(S.dot(n, v) >= 0):
        S.ensure("velocities that lead away are kept without tail effect", S.eq(d, v))
        S.ensure("attached to the obstacle's node", tuple(S.m(t, "get_parent", out)) == (0, -1, -1))
        return
    S.ensure("direction on the circle around the normal", S.And(S.eq(S.norm(d), 1), S.eq(S.dot(d, n), -S.cos(rad))))
    mid = key(0, 0, -1)
    if S.true(rad > S.pi / 2):
        S.ensure("intermediate direction is tangent", S.eq(S.dot(node_dir(S, t, mid), n), 0))
        S.ensure("chain of directions", S.And(tuple(S.m(t, "get_parent", out)) == tuple(mid), tuple(S.m(t, "get_parent", mid)) == (0, -1, -1)))
    else:
        S.ensure("attached to the obstacle's node", tuple(S.m(t, "get_parent", out)) == (0, -1, -1))


SUCC = (VR + "VectorRotationXd.from_directions", RA + ".get_projected_tangent_from_vectors")


def successor(S, D, v, tail, rad):
    """a component whose parent is the root: reference directions r1 (root) and r0"""
    n, n1 = S.unit("normal", D), S.unit("parent_normal", D)
    r1 = S.turned("parent_reference", None, D)
    r0 = S.turned("reference", r1)
    x, y = S.dot(r1.v, v), S.dot(r0.p, v)
    w = v - r1.v * x - r0.p * y + r1.v * (x * r0.c - y * r0.s) + r0.p * (x * r0.s + y * r0.c)
    S.assume(S.dot(n, r0.v) < -0.001)
    S.assume(S.And(S.norm(w - r0.v) > 0.001, S.norm(w + r0.v) > 0.001))
    key = S.fn(KEY)
    t = S.new(VR + "VectorRotationTree", root_idx=key(-1, -1, -1), root_direction=v)
    S.m(t, "add_node", node_id=key(0, -1, -1), parent_id=key(-1, -1, -1), direction=v)
    av = branch_avoider(S, t, [n, n1], [r0.v, r1.v], [1, 0])
    obs = S.mock(methods={"get_component": lambda o, i: S.mock(fields=dict(tail_effect=tail))})
    out = S.m(av, "_simple_tangent_branch_update", S.vec("position", D), 1, v, obs, 0, convergence_radius=rad)
    return n, w, t, av, out


@contract("C09", MA + "._simple_tangent_branch_update", timeout_ms=20000, modular=SUCC)
def branch_of_a_successor(S):
    """the velocity is carried along from the parent's reference direction to the component's"""
    D = S.dim()
    v = S.unit("velocity", D)
    tail, rad = S.bool("tail_effect"), S.choice("radius", [S.pi / 2, S.pi * 0.75])
    n, w, t, av, out = successor(S, D, v, tail, rad)
    key = S.fn(KEY)
    mid, tan = key(0, 1, 0), key(0, 1, -1)
    d = node_dir(S, t, out)
    away = not tail and S.true(S.dot(n, w) >= 0)
    over = not away and S.true(rad > S.pi / 2)
    S.ensure("node of the component", tuple(out) == (0, 1, 1))
    S.ensure("carried along", S.eq(node_dir(S, t, mid), w))
    S.ensure("chain of directions", S.And(tuple(S.m(t, "get_parent", out)) == tuple(tan if over else mid), tuple(S.m(t, "get_parent", mid)) == (0, -1, -1)))
    S.ensure("only the component's normal is kept", S.And(len(S.get(av, "_normal_vectors")) == 1, S.eq(S.get(av, "_normal_vectors")[0], n)))
    if away:
        S.ensure("velocities that lead away are kept without tail effect", S.eq(d, w))
    else:
        S.ensure("direction on the circle around the normal", S.And(S.eq(S.norm(d), 1), S.eq(S.dot(d, n), -S.cos(rad))))
    if over:
        S.ensure("intermediate direction is tangent", S.And(S.eq(S.dot(node_dir(S, t, tan), n), 0), tuple(S.m(t, "get_parent", tan)) == tuple(mid)))


def carried(S, v, a, b):
    """v turned like direction a to its successor b"""
    x, y = S.dot(a.v, v), S.dot(b.p, v)
    return v - a.v * x - b.p * y + a.v * (x * b.c - y * b.s) + b.p * (x * b.s + y * b.c)


@contract("C09", MA + "._simple_tangent_branch_update", timeout_ms=20000, modular=SUCC)
def branch_of_a_grandchild(S):
    """two parents: the velocity is carried along from one to the next"""
    D = S.dim()
    v, n = S.unit("velocity", D), S.unit("normal", D)
    r2 = S.turned("root_reference", None, D)
    r1 = S.turned("parent_reference", r2)
    r0 = S.turned("reference", r1)
    w1 = carried(S, v, r2, r1)
    w0 = carried(S, w1, r1, r0)
    S.assume(S.dot(n, w0) >= 0)
    key = S.fn(KEY)
    t = S.new(VR + "VectorRotationTree", root_idx=key(-1, -1, -1), root_direction=v)
    S.m(t, "add_node", node_id=key(0, -1, -1), parent_id=key(-1, -1, -1), direction=v)
    av = branch_avoider(S, t, [n, S.unit("parent_normal", D), S.unit("root_normal", D)], [r0.v, r1.v, r2.v], [2, 1, 0])
    obs = S.mock(methods={"get_component": lambda o, i: S.mock(fields=dict(tail_effect=False))})
    out = S.m(av, "_simple_tangent_branch_update", S.vec("position", D), 2, v, obs, 0, convergence_radius=S.pi / 2)
    a, b = key(0, 2, 0), key(0, 2, 1)
    S.ensure("node of the component", tuple(out) == (0, 2, 2))
    S.ensure("carried along from the root to its child", S.eq(node_dir(S, t, a), w1))
    S.ensure("carried along to the component", S.eq(node_dir(S, t, b), w0))
    S.ensure("velocities that lead away are kept without tail effect", S.eq(node_dir(S, t, out), w0))
    S.ensure("chain of directions", [tuple(S.m(t, "get_parent", x)) for x in (out, b, a)] == [tuple(b), tuple(a), (0, -1, -1)])


@contract("C09", "nonlinear_avoidance.multi_ellipse_obstacle:MultiEllipseObstacle.get_normalized_tangent_component")
def tangent_component_of_an_ellipse_tree(S):
    D = S.dim()
    n, r, v = S.unit("normal", D), S.unit("reference", D), S.unit("velocity", D)
    S.assume(S.dot(n, r) < -0.001)
    t0 = v - r * (S.dot(v, n) / S.dot(r, n))
    S.assume(S.norm(t0) > 0.001)
    keep = [S.copy(x) for x in (n, r, v)]
    t = S.m(S.cls("nonlinear_avoidance.multi_ellipse_obstacle:MultiEllipseObstacle"), "get_normalized_tangent_component", v, n, r)
    S.ensure("unit length", S.eq(S.norm(t), 1))
    S.ensure("tangent to the surface", S.eq(S.dot(t, n), 0))
    S.ensure("velocity moved along the reference direction", S.eq(t * S.norm(t0), t0))
    S.ensure("arguments unchanged", S.And(*[S.eq(a, b) for a, b in zip(keep, (n, r, v))]))


def component(S, name, D, log, gamma, root=False):
    """a component by the contract of its geometry: records where it is asked, answers with arbitrary vectors"""
    ref_point, center = S.vec(name + "_reference_point", D), S.vec(name + "_center", D)
    hit, ref, normal = S.vec(name + "_hit", D), S.unit(name + "_reference", D), S.unit(name + "_normal", D)

    def rec(kind, out):
        def f(o, *a, **k):
            log.append((name, kind) + tuple(a) + (k.get("in_global_frame"),))
            return S.copy(out)
        return f
    return S.mock(fields=dict(global_reference_point=ref_point, center_position=center), methods={
        "get_reference_direction": rec("reference", ref), "get_normal_direction": rec("normal", normal),
        "get_gamma": lambda o, x, in_global_frame: gamma, "get_intersection_with_surface": rec("hit", hit),
        "get_reference_point": lambda o, in_global_frame: ref_point}), ref_point, hit, ref, normal


@contract("C09", MA + "._compute_normal_and_reference_of_branch", timeout_ms=20000)
def branch_follows_the_parents_to_the_root(S):
    D = S.dim()
    pos = S.vec("position", D)
    depth = S.int("depth", 0, 2)
    gamma = S.choice("gamma", [0.5, 2])
    log = []
    ids = [4, 2, 7][:depth + 1]
    parts = [component(S, f"comp{i}", D, log, gamma) for i in range(depth + 1)]
    tree = S.mock(fields=dict(root_idx=ids[-1]), methods={
        "get_component": lambda o, i: parts[ids.index(i)][0],
        "get_parent_idx": lambda o, i: ids[ids.index(i) + 1]})
    av = S.raw(MA)
    parents, normals, refs = S.m(av, "_compute_normal_and_reference_of_branch", pos, ids[0], obstacle_tree=tree)
    S.ensure("chain of parents up to the root", tuple(parents) == tuple(ids))
    S.ensure("one normal and one reference per component of the chain", len(normals) == depth + 1 and len(refs) == depth + 1)
    S.ensure("normal and reference direction of each component",
             S.And(*[S.And(S.eq(normals[i], p[4]), S.eq(refs[i], p[3])) for i, p in enumerate(parts)]))

    def asked(i, kind):
        return [e[2:] for e in log if e[:2] == (f"comp{i}", kind)]
    S.ensure("every question is about the global frame", all(e[-1] for e in log))
    S.ensure("reference direction at the robot", S.And(*[S.eq(x[0], pos) for x in asked(0, "reference")]))
    start, direction = asked(0, "hit")[-1][:2]
    S.ensure("surface point on the side of the robot", S.And(
        S.eq(start, parts[0][1] if S.true(gamma > 1) else pos), S.eq(direction, -1 * parts[0][3])))
    for i in range(depth + 1):
        S.ensure("normal at the surface point", S.And(*[S.eq(x[0], parts[i][2]) for x in asked(i, "normal")]))
        if i:
            start, direction = asked(i, "hit")[-1][:2]
            S.ensure("parent's surface point on the ray from the child's reference point through its surface point",
                     S.And(S.eq(start, parts[i - 1][1]), S.eq(direction, parts[i - 1][2] - parts[i - 1][1])))
            S.ensure("parent's reference direction at its surface point", S.eq(asked(i, "reference")[-1][0], parts[i][2]))


@contract("C09", MA + ".get_normal_at_distance", timeout_ms=20000)
def normal_of_a_box_is_taken_at_the_distance_of_the_robot(S):
    D = S.dim()
    center, x, n = S.vec("center", D), S.vec("surface_point", D), S.unit("normal", D)
    d = S.real("distance", 0, 10)
    S.assume(S.norm(x - center) > 0.001)
    box = S.bool("box")
    asked = []

    def normal(o, p, in_global_frame):
        asked.append((p, in_global_frame))
        return n
    obs = S.mock(fields=dict(center_position=center), methods={"get_normal_direction": normal},
                 cls="dynamic_obstacle_avoidance.obstacles:" + ("CuboidXd" if box else "EllipseWithAxes"))
    out = S.m(S.raw(MA), "get_normal_at_distance", obs, x, d)
    S.ensure("the obstacle's normal", S.And(len(asked) > 0, S.eq(out, n)))
    p = asked[-1][0]
    S.ensure("global frame", all(a[1] for a in asked))
    if box:
        S.ensure("on the ray from the centre, as far from the surface as the robot",
                 S.eq((p - center) * S.norm(x - center), (x - center) * (S.norm(x - center) + d)))
    else:
        S.ensure("at the surface point", S.eq(p, x))


@contract("C09", MA + ".simple_population_tangent_tree", timeout_ms=20000)
def one_branch_per_relevant_component(S):
    D = S.dim()
    v, pos = S.unit("velocity", D), S.vec("position", D)
    n = S.int("n_components", 1, 3)
    ws = [S.real(f"weight{i}", 0, 1) for i in range(n)]
    gammas = S.arr("gammas", n, 0.1, 20)
    radii = [S.real(f"radius{i}", 1.6, 3) for i in range(n)]
    key = S.fn(KEY)
    root = key(-1, -1, -1)
    t = S.new(VR + "VectorRotationTree", root_idx=root, root_direction=v)
    calls = []
    obs = S.mock(fields=dict(n_components=n))

    def update(o, position, comp_id, base_velocity, obstacle, obs_idx, convergence_radius):
        calls.append((position, comp_id, base_velocity, obstacle is obs, obs_idx, convergence_radius))
    av = S.mock(cls=MA, fields=dict(_tangent_tree=t, _BASE_VEL_ID=root), methods={
        "_simple_tangent_branch_update": update, "compute_convergence_radiuses": lambda o, g, position, obstacle_tree: list(radii)})
    use = [S.true(w > 0) for w in ws]
    start = S.choice("start", [None, root])
    nodes = S.m(av, "simple_population_tangent_tree", obstacle=obs, base_velocity=v, position=pos, obs_idx=5,
                obstacle_weights=ws, start_id=start, gamma_values=gammas)
    want = [i for i in range(n) if use[i]]
    S.ensure("one node for each component with influence, in order", [tuple(x) for x in nodes] == [(5, i, i) for i in want])
    S.ensure("one branch for each of them, with its own radius", S.And([c[1] for c in calls] == want, *[
        S.And(S.eq(c[0], pos), S.eq(c[2], v), c[3], c[4] == 5, S.eq(c[5], radii[c[1]])) for c in calls]))
    S.ensure("obstacle node keeps the velocity", S.And(S.eq(node_dir(S, t, key(5, -1, -1)), v),
             tuple(S.m(t, "get_parent", key(5, -1, -1))) == (-1, -1, -1)))
