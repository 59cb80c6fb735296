"""C05: averaging directions over a tree of rotations."""
from pyvc.contract import contract

VR = "nonlinear_avoidance.vector_rotation:"
TREE = VR + "VectorRotationTree"
SEQ = VR + "VectorRotationSequence"
ROT2 = (VR + "rotate_direction", VR + "rotate_array")


@contract("C05", TREE + ".set_root", TREE + ".add_node", TREE + ".get_parent", TREE + ".get_children")
def nodes_and_links(S):
    D = S.dim()
    r, p, q = S.vec("root", D), S.vec("first", D), S.vec("second", D)
    S.assume(S.norm(r) > 1e-6)
    for x in (p, q):
        S.assume(S.Or(S.eq(S.norm(x), 0, 0), S.norm(x) > 1e-6))
    p0, q0 = S.copy(p), S.copy(q)
    t = S.new(TREE, root_idx=0, root_direction=r)
    out = S.catch(lambda: S.m(t, "add_node", node_id=1, direction=p, parent_id=0))
    if S.true(S.eq(S.norm(p0), 0, 0)):
        S.ensure("zero directions are rejected", S.raised(out, "ValueError"))
        return
    S.ensure("accepted", not S.raised(out))
    out = S.catch(lambda: S.m(t, "add_node", node_id=1, direction=q, parent_id=0))
    S.ensure("duplicate or zero nodes are rejected", S.raised(out, "ValueError"))
    S.ensure("parent", S.m(t, "get_parent", 1) == 0)
    n = S.get(t, "_graph").nodes[1]
    S.ensure("unit direction", S.eq(n["direction"], p0 / S.norm(p0)))
    S.ensure("argument unchanged", S.eq(p, p0))


SHAPES = {                       # node -> parent
    "chain1": {1: 0}, "chain2": {1: 0, 2: 1}, "chain3": {1: 0, 2: 1, 3: 2},
    "star2": {1: 0, 2: 0}, "star3": {1: 0, 2: 0, 3: 0},
    "fork": {1: 0, 2: 1, 3: 1}, "side": {1: 0, 2: 0, 3: 1},
}
LENGTHS = (VR + "rotate_direction#length", VR + "rotate_array#angles", VR + "VectorRotationXd.from_directions")
DISTINCT = (VR + "rotate_direction", VR + "rotate_array", VR + "VectorRotationXd.from_directions")


def tree(S, D, shape, same=()):
    """a tree of the given shape; directions equal to the parent's for the nodes in `same`, otherwise at any angle
    (0.003 off the parent's direction and its opposite)"""
    dirs = {0: S.turned("root", None, D)}
    t = S.new(TREE, root_idx=0, root_direction=S.copy(dirs[0].v))
    for n, p in shape.items():
        dirs[n] = S.turned(f"dir{n}", dirs[p], same=n in same)
        S.m(t, "add_node", node_id=n, direction=S.copy(dirs[n].v), parent_id=p)
    return t, dirs


@contract("C05", TREE + ".get_weighted_mean", TREE + ".reduce_weighted_to_sequence", TREE + ".update_partial_rotations",
          TREE + ".evaluate_graph_summing", TREE + ".evaluate_all_orientations", modular=DISTINCT, timeout_ms=20000)
def full_weight_gives_that_direction(S):
    D = S.dim()
    shape = SHAPES[S.choice("shape", sorted(SHAPES))]
    t, dirs = tree(S, D, shape)
    k = S.choice("node", sorted(shape))
    nodes = sorted(dirs)
    r = S.m(t, "get_weighted_mean", nodes, S.array([1.0 if n == k else 0.0 for n in nodes]))
    S.ensure("mean is the direction of the node with all the weight", S.eq(r, dirs[k].v))


def wts(S, shape):
    """weights >= 0 of all nodes, summing to one.  Parametrised by the weight at and behind every node: zero, strictly
    between zero and one, or (only child of a node with all of the weight) one."""
    cum, w = {0: 1}, {0: 1}
    for n, p in shape.items():
        kinds = ["between", "zero"] if S.true(S.gt(cum[p], 0)) else ["zero"]
        if isinstance(cum[p], int) and cum[p] == 1 and list(shape.values()).count(p) == 1:
            kinds.append("one")
        kind = S.choice(f"w{n}_kind", kinds)
        cum[n] = S.real(f"w{n}", 0, 1, lo_open=True, hi_open=True) if kind == "between" else 0 if kind == "zero" else 1
        w[n] = cum[n]
        w[p] = w[p] - cum[n]
        S.assume(w[p] >= 0)
    return [w[n] for n in sorted(w)]


def planar2(S, a, b, v, phi):
    """v with its component in the plane of the orthonormal (a, b) turned by phi"""
    x, y = S.dot(a, v), S.dot(b, v)
    c, s = S.cos(phi), S.sin(phi)
    return v - a * x - b * y + a * (c * x - s * y) + b * (s * x + c * y)


def star_mean(S, D, dirs, w):
    m = S.zero(D)
    for i in range(1, len(w)):
        m = m + dirs[i].p * (w[i] * dirs[i].angle)
    a = S.norm(m)
    if S.true(a > 0):
        return dirs[0].v * S.cos(a) + m / a * S.sin(a)
    return dirs[0].v


@contract("C05", TREE + ".get_weighted_mean", modular=DISTINCT, timeout_ms=20000)
def star_average(S):
    """nodes attached to the root: the mean is at the weighted sum of the rotation vectors"""
    D = S.dim()
    n = S.int("n", 1, 3)
    same = [i for i in range(1, n + 1) if S.bool(f"same{i}")] if n <= 2 else []
    t, dirs = tree(S, D, {i: 0 for i in range(1, n + 1)}, same)
    w = wts(S, {i: 0 for i in range(1, n + 1)})
    weights = S.array(w)
    wkeep = S.copy(weights)
    r = S.m(t, "get_weighted_mean", list(range(n + 1)), weights)
    S.ensure("turned from the root by the weighted sum of the rotations", S.eq(r, star_mean(S, D, dirs, w)))
    S.ensure("unit length", S.eq(S.norm(r), 1))
    S.ensure("weights unchanged", S.eq(weights, wkeep))


@contract("C05", TREE + ".get_weighted_mean", modular=DISTINCT, timeout_ms=20000)
def chain_average(S):
    """a chain of nodes: every rotation is applied in proportion to the weight at and behind its node"""
    D = S.dim()
    t, dirs = tree(S, D, {1: 0, 2: 1})
    w1 = S.real("w1", 0, 1, lo_open=True, hi_open=True) if S.bool("partial") else 1   # weight at and behind node 1
    w2 = S.real("w2", 0, 1, lo_open=True, hi_open=True) if S.bool("reached") else 0   # weight of node 2
    S.assume(w2 <= w1)
    r = S.m(t, "get_weighted_mean", [0, 1, 2], S.array([1 - w1, w1 - w2, w2]))
    want = dirs[1].v * S.cos(w2 * dirs[2].angle) + dirs[2].p * S.sin(w2 * dirs[2].angle)
    want = planar2(S, dirs[0].v, dirs[1].p, want, -(1 - w1) * dirs[1].angle)
    S.ensure("partial rotations in turn", S.eq(r, want))
    S.ensure("unit length", S.eq(S.norm(r), 1))


@contract("C05", TREE + ".get_weighted_mean", modular=DISTINCT, timeout_ms=20000)
def equal_directions_give_the_root(S):
    D = S.dim()
    shape = SHAPES[S.choice("shape", ["chain2", "star2", "fork"])]
    t, dirs = tree(S, D, shape, sorted(shape))
    w = wts(S, shape)
    r = S.m(t, "get_weighted_mean", [0] + sorted(shape), S.array(w))
    S.ensure("the common direction", S.eq(r, dirs[0].v))


@contract("C05", TREE + ".get_weighted_mean", modular=LENGTHS, timeout_ms=20000)
def mean_is_a_unit_vector(S):
    D = S.dim()
    shape = SHAPES[S.choice("shape", sorted(SHAPES))]
    t, dirs = tree(S, D, shape)
    w = wts(S, shape)
    r = S.m(t, "get_weighted_mean", [0] + sorted(shape), S.array(w))
    S.ensure("unit length", S.eq(S.norm(r), 1))


@contract("C05", TREE + ".get_weighted_mean", TREE + ".reset_node_weights", modular=DISTINCT, timeout_ms=20000)
def earlier_calls_and_order_do_not_matter(S):
    D = S.dim()
    shape = SHAPES[S.choice("shape", ["star2", "chain2"])]
    t, dirs = tree(S, D, shape)
    w = wts(S, shape)
    r = S.m(t, "get_weighted_mean", [0, 1, 2], S.array(w))
    S.m(t, "get_weighted_mean", [1, 2], S.array([0.25, 0.75]))
    r2 = S.m(t, "get_weighted_mean", [0, 1, 2], S.array(w))
    S.ensure("same result after another evaluation", S.eq(r2, r))
    r3 = S.m(t, "get_weighted_mean", [2, 0, 1], S.array([w[2], w[0], w[1]]))
    S.ensure("order of the nodes does not matter", S.eq(r3, r))
    if S.true(S.eq(w[0], 0, 0)):
        S.ensure("the root need not be listed", S.eq(S.m(t, "get_weighted_mean", [1, 2], S.array(w[1:])), r))
    out = S.catch(lambda: S.m(t, "get_weighted_mean", [0, 1, 2], S.array(w[1:])))
    S.ensure("a missing weight is rejected", S.raised(out, "ValueError"))


@contract("C05", TREE + ".reduce_weighted_to_sequence", modular=DISTINCT, timeout_ms=20000)
def reduced_sequence_leads_from_root_to_mean(S):
    D = S.dim()
    shape = SHAPES[S.choice("shape", ["star2", "chain2"])]
    t, dirs = tree(S, D, shape)
    w = wts(S, shape)
    seq = S.m(t, "reduce_weighted_to_sequence", [0, 1, 2], S.array(w))
    mean = S.m(t, "get_weighted_mean", [0, 1, 2], S.array(w))
    S.ensure("starts at the root", S.eq(S.get(seq, "basis_array")[:, 0, 0], dirs[0].v))
    n = S.get(seq, "n_rotations")
    for i in range(n):
        arr, ang = S.get(seq, "basis_array"), S.get(seq, "rotation_angles")
        end = arr[:, i, 0] * S.cos(ang[i]) + arr[:, i, 1] * S.sin(ang[i])
        S.ensure("every rotation starts where the last one ended", S.eq(end, arr[:, i + 1, 0] if i + 1 < n else mean))


@contract("C05", TREE + ".rotate", TREE + ".inverse_rotate", modular=DISTINCT, timeout_ms=20000)
def rotating_with_the_tree(S):
    D = S.dim()
    t, dirs = tree(S, D, {1: 0})
    w = S.real("w", 0, 1, lo_open=True)
    v = S.vec("v", D)
    phi = w * dirs[1].angle
    S.assume(S.within(-1 + 5e-6, S.cos(phi), 1 - 5e-6))
    r = S.m(t, "rotate", v, [0, 1], S.array([1 - w, w]))
    S.ensure("turned in the plane of root and mean", S.eq(r, planar2(S, dirs[0].v, dirs[1].p, v, phi)))
    S.ensure("inverse", S.eq(S.m(t, "inverse_rotate", r, [0, 1], S.array([1 - w, w])), v))


@contract("C05", TREE + ".set_direction", TREE + ".get_all_childs_children", modular=DISTINCT, timeout_ms=20000)
def changed_direction_is_used(S):
    D = S.dim()
    t, dirs = tree(S, D, {1: 0})
    S.m(t, "get_weighted_mean", [0, 1], S.array([0.5, 0.5]))
    new = S.turned("new", dirs[0])
    nxt = S.turned("next", new)
    S.m(t, "set_direction", 1, new.v)
    S.m(t, "add_node", node_id=2, direction=nxt.v, parent_id=1)
    S.ensure("mean uses the new direction", S.eq(S.m(t, "get_weighted_mean", [1], S.array([1.0])), new.v))
    S.ensure("successor uses its own", S.eq(S.m(t, "get_weighted_mean", [2], S.array([1.0])), nxt.v))
    S.ensure("all successors", S.And(list(S.m(t, "get_all_childs_children", 0)) == [1, 2], list(S.m(t, "get_all_childs_children", 2)) == []))


@contract("C05", TREE + ".from_sequence", TREE + ".add_sequence", modular=DISTINCT, timeout_ms=20000)
def tree_of_a_sequence(S):
    D = S.dim()
    n = S.int("n", 1, 3)
    at = S.turned("root", None, D)
    root = at
    seq = S.m(S.cls(SEQ), "create_empty", S.dval(D))
    for i in range(n):
        nxt = S.turned(f"step{i}", at)
        S.m(seq, "append_from_base_and_angle", S.stack([at.v, nxt.p]), nxt.angle)
        at = nxt
    t = S.m(S.cls(TREE), "from_sequence", "start", "end", seq)
    S.ensure("full weight gives the end of the sequence", S.eq(S.m(t, "get_weighted_mean", ["end"], S.array([1.0])), at.v))
    S.ensure("no weight gives the start", S.eq(S.m(t, "get_weighted_mean", ["start"], S.array([1.0])), root.v))
    S.m(t, "add_sequence", node_id="second", parent_id="start", sequence=seq)
    S.ensure("a second branch ends there as well", S.eq(S.m(t, "get_weighted_mean", ["second"], S.array([1.0])), at.v))
    out = S.catch(lambda: S.m(t, "add_sequence", node_id="third", parent_id="end", sequence=seq))
    if not S.true(S.norm(at.v - root.v) <= 0.1):
        S.ensure("a branch that does not start at its parent is rejected", S.raised(out, "ValueError"))


@contract("C05", TREE + ".get_all_childs_children", TREE + ".get_nodes_ascending", TREE + ".get_children", TREE + ".get_parent")
def tree_structure(S):
    """descendants and order for every tree with up to five nodes behind the root"""
    D = S.dim()
    n = S.int("n", 1, 5)
    r = S.unit("root", D)
    t = S.new(TREE, root_idx=0, root_direction=r)
    shape = {}
    for i in range(1, n + 1):
        shape[i] = S.choice(f"parent{i}", list(range(max(0, i - 2), i)))
        S.m(t, "add_node", node_id=i, direction=r, parent_id=shape[i])

    def level(i):
        return 0 if i == 0 else 1 + level(shape[i])

    def behind(i, k):
        return i != 0 and (shape[i] == k or behind(shape[i], k))
    for k in range(n + 1):
        out = list(S.m(t, "get_all_childs_children", k))
        S.ensure("every descendant once", sorted(out) == [i for i in range(n + 1) if behind(i, k)])
        S.ensure("children", sorted(S.m(t, "get_children", k)) == [i for i in range(1, n + 1) if shape[i] == k])
        if k:
            S.ensure("parent", S.m(t, "get_parent", k) == shape[k])
    order = list(S.m(t, "get_nodes_ascending"))
    S.ensure("all nodes once", sorted(order) == list(range(n + 1)))
    S.ensure("parents first", all(level(order[i]) <= level(order[i + 1]) for i in range(n)))


@contract("C05", TREE + ".get_weighted_mean", modular=DISTINCT, timeout_ms=20000)
def branch_next_to_a_node_average(S):
    """two nodes at the root, one with a successor: the successor's rotation continues from the average of the first level"""
    D = S.dim()
    k = S.choice("inner", [1, 2])
    shape = {1: 0, 2: 0, 3: k}
    t, dirs = tree(S, D, shape)
    w = wts(S, shape)
    r = S.m(t, "get_weighted_mean", [0, 1, 2, 3], S.array(w))
    ang, root = w[3] * dirs[3].angle, dirs[0].v
    cum = [None, w[1], w[2]]
    cum[k] = cum[k] + w[3]
    back = planar2(S, root, dirs[k].p, dirs[3].p, -dirs[k].angle)
    x = root * S.cos(ang) + back * S.sin(ang)
    m = dirs[1].p * (cum[1] * dirs[1].angle) + dirs[2].p * (cum[2] * dirs[2].angle)
    a = S.norm(m)
    if S.true(a > 0):
        x = planar2(S, root, m / a, x, a)
    S.ensure("mean", S.eq(r, x))


@contract("C05", TREE + ".get_weighted_mean", modular=DISTINCT, timeout_ms=20000)
def planar_tree_adds_angles(S):
    """all directions in one plane: the angles add up with the weight at and behind every node"""
    D = S.dim()
    shape = S.choice("shape", [{1: 0, 2: 1, 3: 2}, {1: 0, 2: 1, 3: 2, 4: 3}, {1: 0, 2: 1, 3: 1}])
    B = S.basis("plane", D)
    u, q = S.col(B, 0), S.col(B, 1)
    t = S.new(TREE, root_idx=0, root_direction=S.copy(u))
    w = [0.5 if i == 0 else 0 for i in range(len(shape) + 1)]
    cum = {}
    al, th = {0: 0}, {}
    for n, p in shape.items():
        c = S.real(f"cos{n}", -1 + 5e-6, 1 - 5e-6)
        th[n] = S.arccos(c)
        al[n] = al[p] + th[n]
        S.m(t, "add_node", node_id=n, direction=u * S.cos(al[n]) + q * S.sin(al[n]), parent_id=p)
    leaves = [n for n in shape if n not in shape.values()]
    wl = S.real("w", 0, 1, lo_open=True, hi_open=True)
    r = S.m(t, "get_weighted_mean", [0] + leaves, S.array([1 - wl] + [wl / len(leaves)] * len(leaves)))
    phi = 0
    for n in shape:
        behind = [x for x in leaves if x == n or shape.get(x) == n or shape.get(shape.get(x)) == n or n == 1]
        phi = phi + wl * len(behind) / len(leaves) * th[n]
    S.ensure("angles add up", S.eq(r, u * S.cos(phi) + q * S.sin(phi)))
