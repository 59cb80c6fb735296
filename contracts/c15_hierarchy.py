"""C15: parents and children of a hierarchy agree after any operation, and containers keep their data aligned."""
from itertools import product
from pyvc.contract import contract

N = "nonlinear_avoidance."
GE = N + "graph_handler:GraphElement"
BG = N + "graph_handler:BasicGraphHandler"
GH = N + "graph_handler:GraphHandler"
RC = N + "rotation_container:RotationContainer"
MB = N + "multiboundary_container:MultiBoundaryContainer"
MC = N + "multi_obstacle_container:MultiObstacleContainer"


def forests(n):
    """parent of each of the n nodes (an earlier one or None)"""
    return [list(p) for p in product(*[[None] + list(range(i)) for i in range(n)])]


FORESTS = [p for n in range(1, 5) for p in forests(n)]


def depth(parents, i):
    return 0 if parents[i] is None else 1 + depth(parents, parents[i])


def below(parents, i):
    """the nodes of the subtree of i"""
    return [j for j in range(len(parents)) if j == i or (parents[j] is not None and j in below_of(parents, i))]


def below_of(parents, i):
    out, grown = [i], True
    while grown:
        grown = False
        for j, p in enumerate(parents):
            if p in out and j not in out:
                out.append(j)
                grown = True
    return out


def same_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def elements(S, parents, ways):
    """linked elements, all with the same value (elements are told apart by identity, not by value)"""
    es = [S.new(GE, value=7) for _ in parents]
    for i, p in enumerate(parents):
        if p is not None:
            if ways == "add_child":
                S.m(es[p], "add_child", es[i])
            else:
                S.m(es[i], "set_parent", es[p])
    return es


def linked(S, es, parents, order=None):
    """parents and children of all elements as given, each child once, in the order in which they were attached"""
    order = order or list(range(len(es)))
    ok = True
    for i, e in enumerate(es):
        p = S.get(e, "parent")
        ok = ok and (p is None if parents[i] is None else p is es[parents[i]])
        ok = ok and same_list(S.get(e, "children"), [es[j] for j in order if parents[j] == i])
        ok = ok and S.get(e, "number_of_children") == len([j for j in order if parents[j] == i])
    return ok


@contract("C15", GE + ".add_child", GE + ".set_parent", GE + ".expel", GE + ".number_of_children", max_paths=20000, con_seconds=8)
def parents_and_children_agree(S):
    """any forest of up to four elements, then one operation"""
    parents = S.choice("forest", FORESTS)
    n = len(parents)
    es = elements(S, parents, S.choice("built_with", ["add_child", "set_parent"]))
    S.ensure("built", linked(S, es, parents))
    op = S.choice("operation", ["add_child", "set_parent", "expel"])
    i, j = S.choice("element", [0, 1, 2, 3]), S.choice("other", [0, 1, 2, 3])
    if i >= n or j >= n:
        return
    want = list(parents)
    order = list(range(n))
    if op == "expel":
        S.m(es[i], "expel")
        want = [None if k == i or p == i else p for k, p in enumerate(parents)]
    else:
        if j in below_of(parents, i):
            return
        if op == "add_child":
            S.m(es[j], "add_child", es[i])
        else:
            S.m(es[i], "set_parent", es[j])
        want[i] = j
        order = [k for k in order if k != i] + [i]
    S.ensure("parents and children agree after the operation", linked(S, es, want, order))


@contract("C15", BG + ".add_element_with_parent", BG + ".root", BG + ".delete_element", GE + ".add_child", GE + ".expel")
def handler_of_linked_elements(S):
    g = S.new(BG)
    S.ensure("no root at first", S.get(g, "root") is None and S.len(S.get(g, "_graph")) == 0)
    S.set(g, "root", 5)
    root = S.get(g, "root")
    n = S.int("children", 0, 3)
    for k in range(n):
        S.m(g, "add_element_with_parent", 5 if S.choice(f"same_value{k}", [True, False]) else 10 + k, root)
    graph = S.get(g, "_graph")
    es = list(graph)
    S.ensure("registered at the parent", linked(S, es, [None] + [0] * n))
    k = S.choice("deleted", [None, 0, 1, 2, 3])
    if k is None or k > n:
        return
    S.m(g, "delete_element", es[k])
    left = [e for q, e in enumerate(es) if q != k]
    S.ensure("only that element is gone", same_list(list(S.get(g, "_graph")), left))
    S.ensure("links of the others", linked(S, left, [None] * n if k == 0 else [None] + [0] * (n - 1)))


def index_graph(S, parents, values):
    if S.choice("built_with", ["nodes", "elements"]) == "nodes":
        given = list(values)
        g = S.new(GH, node_values=given)
        for i, p in enumerate(parents):
            if p is not None:
                S.m(g, "set_parent_of_element", values[i], values[p])
        S.ensure("the given list of nodes is not changed", same_list(given, values))
        return g
    g = S.new(GH)
    for v, p in zip(values, parents):
        if p is None:
            S.m(g, "set_root", v)
        else:
            S.m(g, "add_element_with_parent", v, values[p])
    return g


def indexed(S, g, parents, values, order=None):
    order = order or list(range(len(values)))
    ok = S.get(g, "n_nodes") == len(values)
    for i, v in enumerate(values):
        ok = ok and S.m(g, "get_parent", v) == (None if parents[i] is None else values[parents[i]])
        ok = ok and list(S.m(g, "get_children", v)) == [values[j] for j in order if parents[j] == i]
    roots = [i for i in range(len(values)) if parents[i] is None]
    return ok and list(S.m(g, "get_root_indices")) == roots and list(S.get(g, "roots")) == [values[i] for i in roots]


@contract("C15", GH + ".__init__", GH + ".set_root", GH + ".add_element_with_parent", GH + ".set_parent_of_element", GH + ".get_parent", GH + ".get_children",
          GH + ".get_root_indices", GH + ".roots", GH + ".n_nodes", GH + ".get_nodes_hirarchy_descending", max_paths=20000, con_seconds=8)
def graph_of_values(S):
    """any forest of up to four values, then one operation"""
    parents = S.choice("forest", FORESTS)
    values = ["d", "b", "a", "c"][:len(parents)]
    n = len(values)
    g = index_graph(S, parents, values)
    S.ensure("parents and children agree", indexed(S, g, parents, values))
    down = list(S.m(g, "get_nodes_hirarchy_descending"))
    S.ensure("every node once, by level", sorted(down) == sorted(values) and [depth(parents, values.index(v)) for v in down] == sorted(depth(parents, i) for i in range(n)))
    op = S.choice("operation", ["none", "add", "move", "unknown_parent", "root"])
    i, j = S.choice("element", [0, 1, 2, 3]), S.choice("other", [0, 1, 2, 3])
    if i >= n or j >= n or (op != "move" and i):
        return
    if op == "add":
        S.m(g, "add_element_with_parent", "new", values[j])
        S.ensure("added below the parent", indexed(S, g, parents + [j], values + ["new"]))
    elif op == "root":
        S.m(g, "set_root", "new")
        S.ensure("added as a root", indexed(S, g, parents + [None], values + ["new"]))
    elif op == "unknown_parent":
        r = S.catch(lambda: S.m(g, "add_element_with_parent", "new", "unknown"))
        S.ensure("unknown parents are rejected", S.raised(r, "ValueError"))
        S.ensure("and leave the graph as it is", indexed(S, g, parents, values))
    elif op == "move" and j not in below_of(parents, i):
        S.m(g, "set_parent_of_element", values[i], values[j])
        S.ensure("moved below the other", indexed(S, g, parents[:i] + [j] + parents[i + 1:], values, [k for k in range(n) if k != i] + [i]))


@contract("C15", GH + ".__init__", GH + ".get_root_indices")
def graph_of_numbered_nodes(S):
    n = S.int("nodes", 0, 4)
    g = S.new(GH, n_nodes=n)
    S.ensure("unconnected numbered nodes", indexed(S, g, [None] * n, list(range(n))))


def walls(S, n):
    return [S.mock(fields=dict(is_boundary=i % 2 == 0)) for i in range(n)]


def tree(S, c, parents):
    ok = S.get(c, "n_obstacles") == len(parents)
    for i, p in enumerate(parents):
        ok = ok and S.m(c, "get_parent", i) == (-1 if p is None else p)
        ok = ok and sorted(S.m(c, "get_children", i)) == [j for j in range(len(parents)) if parents[j] == i]
    ok = ok and S.len(S.get(c, "_children_list")) == len(parents) and S.len(S.get(c, "_parent_intersection_point")) == len(parents)
    ok = ok and S.len(S.get(c, "_parent_array")) == len(parents) and S.len(S.get(c, "_convergence_dynamics")) == len(parents)
    roots = S.m(c, "get_root", return_multi_values=True)
    return ok and [int(r) for r in roots] == [i for i, p in enumerate(parents) if p is None]


@contract("C15", MB + ".append", MB + ".extend_graph", MB + ".__delitem__", MB + ".get_parent", MB + ".get_children", MB + ".get_root", MB + ".set_parent", MB + ".add_children",
          MB + ".get_level_numbers", RC + ".append", RC + ".__delitem__", max_paths=20000, con_seconds=8)
def hierarchy_of_the_walls(S):
    """any forest of up to four walls, then one operation"""
    parents = S.choice("forest", FORESTS)
    n = len(parents)
    ws = walls(S, n)
    c = S.new(MB)
    how = S.choice("built_with", ["extend", "append"])
    for i, p in enumerate(parents):
        if how == "extend":
            S.m(c, "append", ws[i])
        else:
            S.m(c, "append", ws[i], parent=-1 if p is not None and p == i - 1 else p)
    if how == "extend":
        for i, p in enumerate(parents):
            if p is not None:
                S.m(c, "extend_graph", child=i, parent=p)
    S.ensure("parents and children agree", tree(S, c, parents))
    S.ensure("levels", [int(q) for q in S.m(c, "get_level_numbers")] == [depth(parents, i) for i in range(n)])
    S.ensure("obstacles in order", same_list([S.m(c, "__getitem__", i) for i in range(n)], ws))
    op = S.choice("operation", ["delete", "move"])
    i, j = S.choice("element", [0, 1, 2, 3]), S.choice("other", [0, 1, 2, 3])
    if i >= n or j >= n:
        return
    points = [S.mock() for _ in range(n)]
    pts = S.get(c, "_parent_intersection_point")
    dyn = [S.mock() for _ in range(n)]
    for k in range(n):
        pts[k] = points[k] if parents[k] is not None else None
        S.get(c, "_convergence_dynamics")[k] = dyn[k]
    if op == "delete":
        if j:
            return
        key = i - n if S.choice("from_the_end", [False, True]) else i
        S.m(c, "__delitem__", key)
        keep = [k for k in range(n) if k != i]
        new = [None if parents[k] is None or parents[k] == i else keep.index(parents[k]) for k in keep]
        S.ensure("the rest of the hierarchy stays, children become roots", tree(S, c, new))
        S.ensure("obstacles stay in order", same_list([S.m(c, "__getitem__", k) for k in range(n - 1)], [ws[k] for k in keep]))
        S.ensure("intersections stay with their obstacle", all(
            S.m(c, "get_parent_intersection", q) is (None if new[q] is None else points[k]) for q, k in enumerate(keep)))
        S.ensure("dynamics stay with their obstacle", same_list(list(S.get(c, "_convergence_dynamics")), [dyn[k] for k in keep]))
    elif j not in below_of(parents, i):
        S.m(c, "extend_graph", child=i, parent=j)
        S.ensure("moved below the other", tree(S, c, parents[:i] + [j] + parents[i + 1:]))


@contract("C15", MB + ".is_collision_free", MB + ".get_boundary_list", MB + ".get_boundary_ind", MB + ".reset_relative_references", MB + ".update_intersection_graph", MB + ".get_parent_intersection",
          MB + ".get_convergence_boundary_point")
def queries_of_the_walls(S):
    n = S.int("n", 0, 3)
    D = S.dim()
    x = S.vec("position", D)
    gs = [S.real(f"gamma{i}", 0.1, 5) for i in range(n)]
    bs = [S.bool(f"boundary{i}") for i in range(n)]
    reset, hits = [], []
    centers, surface = [S.vec(f"center{i}", D) for i in range(n)], [S.vec(f"surface{i}", D) for i in range(n)]

    def wall(i):
        def get_intersection_with_surface(o, direction, in_global_frame=False):
            hits.append((i, direction, in_global_frame))
            return S.copy(surface[i])
        return S.mock(fields=dict(is_boundary=bs[i], center_position=centers[i]), methods={
            "get_gamma": lambda o, position, in_global_frame=False: gs[i] if in_global_frame else 0,
            "reset_relative_reference": lambda o: reset.append(i), "get_intersection_with_surface": get_intersection_with_surface})
    ws = [wall(i) for i in range(n)]
    crossings = [S.vec(f"crossing{i}", D) for i in range(n)]
    c = S.mock(cls=MB, fields=dict(_obstacle_list=ws, _parent_array=[i - 1 for i in range(n)], _children_list=[[i + 1] if i + 1 < n else [] for i in range(n)],
                                   _parent_intersection_point=[None] * n, _attractor_position=None),
               methods={"_get_intersection": lambda o, it_obs1, it_obs2: S.copy(crossings[it_obs1]) if it_obs2 == it_obs1 - 1 else None})
    free = S.m(c, "is_collision_free", x)
    S.ensure("free inside of any of the walls", S.Iff(free, S.Or(*[g > 1 for g in gs])) if n else not S.true(free))
    S.ensure("boundaries", same_list(list(S.m(c, "get_boundary_list")), [w for w, b in zip(ws, bs) if b]))
    ind = S.m(c, "get_boundary_ind")
    S.ensure("boundary flags", S.len(ind) == n and all(bool(S.at(ind, i)) == b for i, b in enumerate(bs)))
    S.m(c, "reset_relative_references")
    S.ensure("all references are reset", reset == list(range(n)))
    a = S.vec("attractor", D)
    S.m(c, "update_intersection_graph", attractor_position=a)
    S.ensure("attractor", S.eq(S.get(c, "_attractor_position"), a))
    for i in range(n):
        p = S.m(c, "get_parent_intersection", i)
        if i == 0:
            S.ensure("the root has no intersection", p is None)
        else:
            S.ensure("intersection with the parent", S.eq(p, crossings[i]))
            q = S.m(c, "get_convergence_boundary_point", it_child=i, project_on_child=True)
            S.ensure("projected on the child", S.And(S.eq(q, surface[i]), hits[-1][0] == i, S.eq(hits[-1][1], crossings[i] - centers[i]), hits[-1][2]))
            q = S.m(c, "get_convergence_boundary_point", it_child=i, project_on_child=False, it_parent=i - 1)
            S.ensure("projected on the parent", S.And(S.eq(q, surface[i - 1]), hits[-1][0] == i - 1, S.eq(hits[-1][1], crossings[i] - centers[i - 1]), hits[-1][2]))
            r = S.catch(lambda: S.m(c, "get_convergence_boundary_point", it_child=i, project_on_child=False))
            S.ensure("the parent has to be given", S.raised(r, "ValueError"))


@contract("C15", RC + ".append", RC + ".__delitem__", RC + ".__setitem__", RC + ".get_convergence_direction", RC + ".get_intersection_position", RC + ".__init__")
def dynamics_stay_with_their_obstacle(S):
    n = S.int("n", 0, 3)
    c = S.new(RC)
    obs = [S.mock() for _ in range(n)]
    for o in obs:
        S.m(c, "append", o)
    S.ensure("no dynamics at first", S.get(c, "n_obstacles") == n and S.len(S.get(c, "_convergence_dynamics")) == n and all(d is None for d in S.get(c, "_convergence_dynamics")))
    if not n:
        return
    values, attr = [S.mock() for _ in range(n)], [S.mock() for _ in range(n)]
    at = S.mock()
    dyn = [S.mock(fields=dict(attractor_position=attr[i]), methods={"evaluate": lambda o, position, i=i: (values[i], position)}) for i in range(n)]
    for i in range(n):
        S.get(c, "_convergence_dynamics")[i] = dyn[i]
    k = S.choice("k", [0, 1, 2])
    if k >= n:
        return
    r = S.m(c, "get_convergence_direction", at, k)
    S.ensure("direction of the own dynamics", r[0] is values[k] and r[1] is at)
    S.ensure("attractor of the own dynamics", S.m(c, "get_intersection_position", k) is attr[k])
    op = S.choice("operation", ["delete", "replace"])
    left = lambda xs: [q for i, q in enumerate(xs) if i != k]
    if op == "delete":
        S.m(c, "__delitem__", k)
        S.ensure("aligned after deleting", same_list(list(S.get(c, "_obstacle_list")), left(obs)) and same_list(list(S.get(c, "_convergence_dynamics")), left(dyn)))
    else:
        new = S.mock()
        S.m(c, "__setitem__", k, new)
        S.ensure("replaced", same_list(list(S.get(c, "_obstacle_list")), obs[:k] + [new] + obs[k + 1:]))
        S.ensure("dynamics of the new obstacle are unset", same_list(list(S.get(c, "_convergence_dynamics")), dyn[:k] + [None] + dyn[k + 1:]))


@contract("C15", RC + ".set_convergence_directions", timeout_ms=20000)
def convergence_dynamics_of_an_obstacle(S):
    """from the flow at the center of the obstacle, seen relative to the attractor"""
    D = S.dim()
    kind = S.choice("kind", ["given", "free", "free_stop", "at_attractor", "straight", "rotated"])
    n = S.int("before", 0, 2)
    t = S.turned("to_attractor", None, D)
    v = S.turned("flow", t)
    attr, radius, far, speed = S.vec("attractor", D), S.real("radius", 0.1, 2), S.real("distance", 0.1, 10), S.real("speed", 0.1, 10)
    center = S.copy(attr) if kind == "at_attractor" else attr - t.v * far
    flow_there = S.zero(D) if kind == "free_stop" else (t.v if kind == "straight" else v.v) * speed
    flow = S.mock(fields=dict(attractor_position=None if kind in ("free", "free_stop") else attr),
                  methods={"evaluate": lambda o, position: flow_there if S.true(S.eq(position, center)) else t.v * 0})
    c = S.new(RC)
    S.m(c, "append", S.mock(fields=dict(center_position=center), methods={"get_characteristic_length": lambda o: radius}))
    if kind == "given":
        common = S.mock()
        for _ in range(n):
            S.m(c, "append", S.mock())
        S.m(c, "set_convergence_directions", converging_dynamics=common)
        S.ensure("the given dynamics for all", same_list(list(S.get(c, "_convergence_dynamics")), [common] * (n + 1)))
        return
    S.m(c, "set_convergence_directions", flow)
    ds = S.get(c, "_convergence_dynamics")
    S.ensure("one for the obstacle", S.len(ds) == 1)
    ds = ds[0]
    if kind == "free":
        S.ensure("constant flow", S.eq(S.get(ds, "constant_velocity"), flow_there))
        return
    to = S.get(ds, "attractor_position")
    S.ensure("attractor", S.eq(to, center if kind == "free_stop" else attr))
    S.ensure("reported as intersection", S.eq(S.m(c, "get_intersection_position", 0), to))
    rotated = S.isa(ds, "LocallyRotated")
    if kind in ("free_stop", "at_attractor"):
        S.ensure("straight to it", not rotated)
    if kind == "rotated":
        S.ensure("rotated", rotated)
    if rotated:
        S.ensure("around the obstacle", S.And(S.eq(S.get(S.get(ds, "influence_pose"), "position"), center), S.eq(S.get(ds, "influence_radius"), radius)))
        want = S.fn("vartools.directional_space:get_angle_space")(direction=flow_there, null_direction=attr - center)
        S.ensure("by the angles of the flow to the attractor direction", S.eq(S.get(ds, "max_rotation"), want))


@contract("C15", MC + ".append", MC + ".get_tree", MC + ".get_obstacle_tree", MC + ".__iter__", MC + ".__len__")
def trees_stay_in_order(S):
    n = S.int("n", 0, 4)
    c, other = S.new(MC), S.new(MC)
    trees = [S.mock() for _ in range(n)]
    for t in trees:
        S.m(c, "append", t)
    S.ensure("number", S.m(c, "__len__") == n and S.m(other, "__len__") == 0)
    S.ensure("order", same_list([S.m(c, "get_tree", i) for i in range(n)], trees) and same_list([S.m(c, "get_obstacle_tree", i) for i in range(n)], trees))
    S.ensure("iteration", same_list(list(S.m(c, "__iter__")), trees))
