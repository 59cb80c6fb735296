"""C17: motion through overlapping hulls leads to the attractor along the shortest connected route."""
import networkx as nx
from pyvc.contract import contract

N = "nonlinear_avoidance."
HU = N + "multi_hull_and_obstacle:"
HO = HU + "MultiHullAndObstacle"
RC = HU + "MultiRotationalContainer"
POSE = "vartools.states:Pose"
DESCENT = N + "utils:gamma_normal_gradient_descent"


def hull(S, x, inside, gamma, name="", **fields):
    """a component that only knows whether it collides with x (global frame of the components)"""
    def check(o, position, in_global_frame=False):
        here = S.true(S.And(S.eq(position, x), in_global_frame))
        return inside if here else not inside
    return S.mock(fields=fields, methods={"is_inside": check, "get_gamma": lambda o, position, in_global_frame=False: S.ite(S.And(S.eq(position, x), in_global_frame), gamma, 1000)})


@contract("C17", HO + ".set_attractor", HO + ".get_attractor", HO + ".local_attractor_iterator", timeout_ms=15000)
def attractor_is_given_to_the_free_parts_around_it(S):
    D = S.dim()
    n = S.choice("n_hulls", [0, 1, 2, 3])
    x, t = S.vec("attractor", D), S.vec("offset", D)
    collides = [S.bool(f"collides{i}") if i <= n else True for i in range(4)]
    gammas = [S.real(f"gamma{i}", 0.1, 1) for i in range(n + 1)]
    hulls = [hull(S, x, collides[i + 1], gammas[i + 1]) for i in range(n)]
    graph = nx.Graph()
    graph.add_nodes_from(hulls)
    old = S.vec("old_attractor", D)
    if S.bool("set_before"):
        for h in hulls:
            graph.nodes[h]["local_attractor"] = old
            graph.nodes[h]["contains_attractor"] = True
    a = S.raw(HO, inner_obstacles=hulls, outer_obstacle=hull(S, x, collides[0], gammas[0]), _graph=graph, pose=S.new(POSE, t, None), _local_outside_attractor=old, _attractor_is_outside=True)
    local = S.bool("local_frame")
    if local:
        S.m(a, "set_attractor", x)
    else:
        S.m(a, "set_attractor", x + t, in_global_frame=True)
    free = [not c for c in collides[:n + 1]]
    outside, contains = S.get(a, "_attractor_is_outside"), [graph.nodes[h]["contains_attractor"] for h in hulls]
    if any(free):
        S.ensure("exactly the parts in which the attractor is free contain it", outside == free[0] and contains == free[1:])
    else:
        marked = [outside] + contains
        S.ensure("one part only gets an attractor in the wall", sum(1 for m in marked if m) == 1)
        S.ensure("the closest one", S.And(*[S.Implies(marked[i], S.le(gammas[j], gammas[i])) for i in range(n + 1) for j in range(n + 1)]))
    marked = [outside] + contains
    at = [S.get(a, "_local_outside_attractor")] + [graph.nodes[h]["local_attractor"] for h in hulls]
    S.ensure("it is the local attractor of these parts; those of the others are to be updated", S.And(*[S.eq(p, x) if m else p is None for p, m in zip(at, marked)]))
    S.ensure("get_attractor", S.eq(S.m(a, "get_attractor"), x))
    listed = list(S.m(a, "local_attractor_iterator"))
    S.ensure("all local attractors are listed, the one outside at last", len(listed) == n + 1 and all(p is q for p, q in zip(listed, at[1:] + at[:1])))


# hulls, connections between hulls, the hull of each entrance
SCENES = [(1, [], [0, 0]), (2, [(0, 1)], [0, 1]), (2, [(0, 1)], [1]), (2, [], [0, 1]), (3, [(0, 1), (1, 2), (0, 2)], [1]), (3, [(0, 1), (1, 2)], [2, 0])]


class Scene:
    """a graph of hulls and entrances with any positive lengths; each part has its own surface"""

    def __init__(self, S, D, outside, contains, **fields):
        self.S = S
        self.n, self.links, self.entrances = S.choice("scene", SCENES)
        self.goal = S.vec("attractor", D)
        self.hulls, self.shift = [], []
        for i in range(self.n + 1):
            v = S.vec(f"surface{i}", D)
            self.shift.append(v)
            self.hulls.append(S.mock(methods={"get_point_on_surface": lambda o, position, in_global_frame=False, v=v: position + v if in_global_frame else position - v}))
        self.outer = self.hulls.pop()
        self.contains = [contains[i] if i < len(contains) else False for i in range(self.n)]
        self.outside = outside
        g = nx.Graph()
        g.add_nodes_from(self.hulls)
        for h, c in zip(self.hulls, self.contains):
            g.nodes[h]["contains_attractor"] = c
            g.nodes[h]["local_attractor"] = self.goal if c else None
        self.length, self.cross = {}, {}
        for k, (i, j) in enumerate(self.links):
            self.connect(g, self.hulls[i], self.hulls[j], ("h", i), ("h", j), f"link{k}", D)
        for k, i in enumerate(self.entrances):
            self.connect(g, k, self.hulls[i], ("e", k), ("h", i), f"entrance{k}", D)
        self.graph = g
        self.a = S.raw(HO, inner_obstacles=self.hulls, outer_obstacle=self.outer, _graph=g, _entrance_counter=len(self.entrances),
                       _attractor_is_outside=outside, _local_outside_attractor=self.goal if outside else None, **fields)

    def connect(self, g, p, q, u, v, name, D):
        d, at = self.S.real(f"length_{name}", 0.1, 5), self.S.vec(f"at_{name}", D)
        g.add_edge(p, q, distance=d, intersection=at)
        for e in ((u, v), (v, u)):
            self.length[e], self.cross[e] = d, at

    def routes(self, start, end):
        """all routes without repetition"""
        out, todo = [], [[start]]
        while todo:
            r = todo.pop()
            if r[-1] == end:
                out.append(r)
                continue
            for (u, v) in self.length:
                if u == r[-1] and v not in r and (v[0] == "h" or v == end):
                    todo.append(r + [v])
        return out

    def cost(self, r):
        return sum(self.length[(u, v)] for u, v in zip(r, r[1:]))

    def attractor(self, u):
        return self.S.get(self.a, "_local_outside_attractor") if u[0] == "e" else self.graph.nodes[self.hulls[u[1]]]["local_attractor"]

    def followed(self, r, known=()):
        """each part of the route leads to its border point towards the next part (until one is known)"""
        ok, before = [], True
        for u, v in zip(r, r[1:]):
            before = before and u not in known
            if not before:
                break
            p = self.attractor(u)
            s = self.shift[self.n if u[0] == "e" else u[1]]
            ok.append(p is not None and self.S.eq(p, self.cross[(u, v)] + s))
        return self.S.And(*ok)


def shortest(S, sc, routes, costs, known=()):
    """one of the shortest routes is the one followed"""
    return S.Or(*[S.And(sc.followed(r, known), *[S.le(c, k) for k in costs]) for r, c in zip(routes, costs)])


@contract("C17", HO + ".update_shortest_attractor_path", HO + "._assign_local_attractors_along_path", timeout_ms=15000, max_paths=20000)
def hull_leads_along_the_shortest_route(S):
    D = S.dim()
    goal = S.choice("attractor_in", ["outside", "one_hull", "two_hulls", "hull_and_outside", "last_hull"])
    sc = Scene(S, D, goal in ("outside", "hull_and_outside"), [False] + {"outside": [], "one_hull": [True], "two_hulls": [True, True], "hull_and_outside": [True], "last_hull": [False, True]}[goal])
    start = ("h", 0)
    routes, costs = [], []
    for i, c in enumerate(sc.contains):
        if c:
            for r in sc.routes(start, ("h", i)):
                routes.append(r)
                costs.append(sc.cost(r))
    if sc.outside:
        for k in range(len(sc.entrances)):
            for r in sc.routes(start, ("e", k)):
                routes.append(r)
                costs.append(sc.cost(r) + S.norm(sc.cross[(r[-1], r[-2])] - sc.goal))
    if not routes:
        return
    if sc.n > 2 and not sc.contains[1] and S.bool("second_is_known"):
        sc.graph.nodes[sc.hulls[1]]["local_attractor"] = S.vec("known", D)
    before = {u: sc.attractor(u) for u in [("h", i) for i in range(sc.n)] + [("e", 0)]}
    S.m(sc.a, "update_shortest_attractor_path", sc.hulls[0])
    S.ensure("along the shortest of all routes to a part with the attractor", shortest(S, sc, routes, costs, [u for u in before if before[u] is not None]))
    S.ensure("known local attractors are kept", all(sc.attractor(u) is p for u, p in before.items() if p is not None))


@contract("C17", HO + ".update_shortest_attractor_path_starting_from_outside", HO + "._assign_local_attractors_along_path", timeout_ms=15000, max_paths=20000)
def outside_leads_to_the_best_entrance(S):
    D = S.dim()
    goal = S.choice("attractor_in", ["first", "last", "two"])
    sc = Scene(S, D, False, {"first": [True], "last": [False, True], "two": [True, False, True]}[goal])
    x = S.vec("position", D)
    routes, costs = [], []
    for k in range(len(sc.entrances)):
        for i, c in enumerate(sc.contains):
            if c:
                for r in sc.routes(("e", k), ("h", i)):
                    routes.append(r)
                    costs.append(sc.cost(r) + S.norm(x - sc.cross[(r[0], r[1])]))
    if not routes:
        return
    known = [("h", i) for i, c in enumerate(sc.contains) if c]
    S.m(sc.a, "update_shortest_attractor_path_starting_from_outside", x)
    S.ensure("along the shortest of all routes from the position to a hull with the attractor", shortest(S, sc, routes, costs, known))
    S.ensure("known local attractors are kept", all(sc.attractor(u) is sc.goal for u in known))


@contract("C17", HO + ".evaluate", timeout_ms=15000)
def velocity_is_the_weighted_one_of_the_free_parts(S):
    """direction and speed are the weighted means of those of the parts; parts without weight are not asked"""
    D = S.dim()
    n = S.choice("n_hulls", [0, 1, 2])
    x, t = S.vec("position", D), S.vec("offset", D)
    weights = S.choice("weights", [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.25, 0.75, 0.0], [0.25, 0.25, 0.5], [0.25, 0.0, 0.75]])[:n + 1]
    speeds = [S.real(f"speed{i}", 0, 1) for i in range(n + 1)]
    dirs = [S.unit(f"direction{i}", D) for i in range(n + 1)]
    missing = S.bool("without_local_attractor")
    hulls = [S.mock() for _ in range(n)]
    graph = nx.Graph()
    graph.add_nodes_from(hulls)
    goal = S.vec("goal", D)
    for h in hulls:
        graph.nodes[h]["local_attractor"] = None if missing else goal
    updated, good = [], []

    def weigh(o, position):
        good.append(S.eq(position, x))
        S.set(o, "weights", S.array([weights[(i + 1) % (n + 1)] for i in range(n + 1)]))
        S.set(o, "gamma_list", S.array([10.0 + i for i in range(n + 1)]))

    def local(o, position, gamma, obs_hash=None, scaling=1, max_velocity=1):
        i = n if obs_hash is None else [k for k in range(n) if hulls[k] is obs_hash][0]
        good.append(S.And(S.eq(position, x), S.eq(gamma, 10.0 + i), updated.count(i) == (1 if missing else 0)))
        j = (i + 1) % (n + 1)
        return dirs[j] * speeds[j]

    a = S.mock(cls=HO, fields=dict(inner_obstacles=hulls, outer_obstacle=S.mock(fields=dict(dimension=S.dval(D))), _graph=graph, pose=S.new(POSE, t, None),
                                   _local_outside_attractor=None if missing else goal),
               methods={"_evaluate_weights": weigh, "_get_local_dynamics": local, "update_shortest_attractor_path": lambda o, h: updated.append([k for k in range(n) if hulls[k] is h][0]),
                        "update_shortest_attractor_path_starting_from_outside": lambda o, position: updated.append(n)})
    frame = S.bool("local_frame")
    used = [i for i in range(n + 1) if weights[i]]
    mean = S.zero(D)
    for i in used:
        mean = mean + dirs[i] * speeds[i] * weights[i]
    speed = sum(speeds[i] * weights[i] for i in used)
    S.assume(S.Or(S.norm(mean) > 0.01, S.And(*[S.eq(speeds[i], 0, 0) for i in used])))
    v = S.m(a, "evaluate", x if frame else x + t, in_global_frame=not frame)
    S.ensure("every part with a weight is asked once at the position, with its own distance and an up-to-date local attractor", S.And(len(good) == 1 + len(used), *good))
    S.ensure("parts without weight are left alone", len(updated) == (len(used) if missing else 0))
    S.ensure("direction of the weighted mean", S.eq(v * S.norm(mean), mean * speed))
    S.ensure("weighted mean of the speeds", S.eq(S.norm(v), speed))


@contract("C17", HO + "._get_local_dynamics", timeout_ms=20000)
def local_motion_turns_from_the_attractor_to_the_tangent(S):
    """straight to the local attractor far from the walls, along the wall at contact; never faster than given or than allowed"""
    D = S.dim()
    S.strong_forms()
    outside, side, limit, contact = S.choice("variant", [(True, 1, None, True), (False, -1, 0.3, True), (True, -1, 2.0, False), (False, 1, None, False)])
    x = S.vec("position", D)
    ref = S.turned("reference_direction", None, D)
    v = S.turned("direction", ref)
    ct = S.real("cos_tangent", -0.99, 0.99)
    st = S.sqrt(1 - ct * ct)
    far = 0.0 if S.bool("reached") else S.real("distance", 0.01, 20) * st
    n = (ref.v * st - v.p * ct) * side
    gamma = 1.0 if contact else 2.0
    here = lambda position, in_global_frame: S.true(S.And(S.eq(position, x), in_global_frame))
    obs = S.mock(fields=dict(dimension=S.dval(D)), methods={
        "get_normal_direction": lambda o, position, in_global_frame=False: S.copy(n) if here(position, in_global_frame) else -n,
        "get_reference_direction": lambda o, position, in_global_frame=False: S.copy(ref.v) if here(position, in_global_frame) else -ref.v})
    goal = x + v.v * far
    graph, other = nx.Graph(), S.mock()
    graph.add_nodes_from([obs, other])
    graph.nodes[obs]["local_attractor"] = None if outside else goal
    graph.nodes[other]["local_attractor"] = x - v.v
    a = S.raw(HO, inner_obstacles=[other] if outside else [other, obs], outer_obstacle=obs if outside else S.mock(fields=dict(dimension=S.dval(D))), _graph=graph,
              _local_outside_attractor=goal if outside else x - v.v)
    angle = (1 - 1 / gamma) * v.angle + 1 / gamma * S.arccos(ct)
    S.ensure("angle between those of the attractor and of the tangent (the order for the solver)", angle > 0)
    S.assume(angle > 0)
    r = S.m(a, "_get_local_dynamics", x, gamma, obs_hash=None if outside else obs, **({} if limit is None else dict(max_velocity=limit)))
    limit = 1 if limit is None else limit
    speed = limit if S.true(far > limit) else far
    S.ensure("speed is the distance to the local attractor, limited", S.eq(S.norm(r), speed))
    if S.true(far > 0):
        S.ensure("turned from the direction of the attractor to the tangent by the inverse of gamma", S.eq(r, (ref.v * S.cos(angle) + v.p * S.sin(angle)) * speed))
        if contact:
            S.ensure("along the wall at contact", S.eq(S.dot(r, n), 0))


def descent_free(S, name, D, free, u, radius, center):
    """a part with the gamma 10 and the normal u everywhere: the search of the common point stays at the midpoint of the centers"""
    return S.mock(fields=dict(center_position=center, axes_length=S.array([radius, radius]), dimension=S.dval(D)), methods={
        "get_gamma": lambda o, position, in_global_frame=False: 10.0, "get_normal_direction": lambda o, position, in_global_frame=False: u,
        "is_inside": lambda o, position, in_global_frame=False: not (in_global_frame and any(S.true(S.eq(position, m)) for m in free))})


@contract("C17", HO + ".evaluate_hirarchy_and_reference_points", HO + "._update_intersections_with_outer_obstacle", N + "multi_hull_and_obstacle:get_property_of_node_edge", timeout_ms=15000, max_paths=20000)
def parts_are_connected_where_both_are_free(S):
    D = S.dim()
    n, doors, walls, links = S.choice("parts", [
        (0, "", "", []), (1, "0", "", []), (1, "0", "0", []), (1, "", "", []), (2, "01", "", [(0, 1)]), (2, "01", "0", []), (2, "1", "", [(0, 1)]), (2, "0", "1", [(0, 1)]),
        (3, "02", "", [(0, 2)]), (3, "12", "1", [(0, 1), (1, 2), (0, 2)])])
    u = S.unit("normal", D)
    step = S.unit("line", D)
    base = S.vec("outer_center", D)
    r, ro = [1.0, 2.0, 0.5], 3.0
    places = [S.real(f"place{i}", 0.02, 6) for i in range(n)] if n < 3 else [p * S.real("scale", 0.3, 3) for p in (1, 0.5, 1.8)]
    apart = {(i, j): S.max(places[i] - places[j], places[j] - places[i]) for i in range(n) for j in range(i + 1, n)}
    S.assume(S.And(*[S.And(d > 0.01, S.Not(S.eq(d, r[i] + r[j], 0.001))) for (i, j), d in apart.items()], *[S.Not(S.eq(p, ro - q, 0.001)) for p, q in zip(places, r)]))
    centers = [base + step * p for p in places]
    door, wall = [str(i) in doors for i in range(n)], [str(i) in walls for i in range(n)]
    link = {e: e in links for e in apart}
    free = []
    for i in range(n):
        free.append([(centers[i] + base) * 0.5] if door[i] else [])
    for (i, j), f in link.items():
        if f:
            free[i].append((centers[i] + centers[j]) * 0.5)
        if f or (i, j) == (0, 1):
            free[j].append((centers[i] + centers[j]) * 0.5)
    hulls = [descent_free(S, f"hull{i}", D, free[i], u, r[i], centers[i]) for i in range(n)]
    outer = descent_free(S, "outer", D, [(centers[i] + base) * 0.5 for i in range(n) if not wall[i]], u, ro, base)
    a = S.raw(HO, inner_obstacles=hulls, outer_obstacle=outer, _graph=None, _entrance_counter=7)
    S.m(a, "evaluate_hirarchy_and_reference_points")
    g = S.get(a, "_graph")
    doors = [i for i in range(n) if door[i] and not wall[i] and S.true(places[i] >= ro - r[i])]
    links = [e for e, f in link.items() if f and S.true(apart[e] <= r[e[0]] + r[e[1]])]
    S.ensure("one entrance for each hull that reaches out of the outer part, where both are free", S.get(a, "_entrance_counter") == len(doors))
    S.ensure("parts and connections", len(g.nodes) == n + len(doors) and len(g.edges) == len(doors) + len(links))
    for k, i in enumerate(doors):
        S.ensure("entrance", k in g.nodes and g.has_edge(k, hulls[i]) and S.And(
            S.eq(g.edges[k, hulls[i]]["intersection"], (centers[i] + base) * 0.5), S.eq(g.edges[k, hulls[i]]["distance"], 0.5 * places[i]),
            S.eq(S.fn(HU + "get_property_of_node_edge")(g, k, "intersection"), (centers[i] + base) * 0.5)))
    for i, j in links:
        S.ensure("link", g.has_edge(hulls[i], hulls[j]) and S.And(
            S.eq(g.edges[hulls[i], hulls[j]]["intersection"], (centers[i] + centers[j]) * 0.5),
            S.eq(g.edges[hulls[i], hulls[j]]["distance"], apart[i, j])))


@contract("C17", RC + ".evaluate", RC + ".set_dynamics", RC + ".set_attractor", RC + ".append", RC + ".__init__", timeout_ms=15000)
def container_averages_its_obstacles(S):
    D = S.dim()
    n = S.choice("n_obstacles", [1, 2, 3])
    x, goal = S.vec("position", D), S.vec("attractor", D)
    vel = [S.vec(f"velocity{i}", D) for i in range(n)]
    log = []
    obs = [S.mock(methods={"evaluate": lambda o, position, in_global_frame=False, i=i: vel[i] if S.true(S.And(S.eq(position, x), in_global_frame)) else -vel[i],
                           "evaluate_hirarchy_and_reference_points": lambda o, i=i: log.append(("graph", i)),
                           "set_attractor": lambda o, p, in_global_frame=False, i=i: log.append(("attractor", i, S.true(S.And(S.eq(p, goal), in_global_frame))))}) for i in range(n)]
    c = S.new(RC)
    for o in obs:
        S.m(c, "append", o)
    S.m(c, "set_dynamics", S.mock(fields=dict(attractor_position=goal)))
    S.ensure("the hierarchy of every obstacle is set up before its attractor, once", all([e for e in log if e[1] == i] == [("graph", i), ("attractor", i, True)] for i in range(n)))
    S.m(c, "set_attractor", S.copy(goal))
    S.ensure("the same attractor changes nothing", len(log) == 2 * n)
    S.ensure("mean of the obstacles", S.eq(S.m(c, "evaluate", x) * n, sum((vel[i] for i in range(1, n)), vel[0])))
    S.m(c, "set_dynamics", None)
    S.ensure("no dynamics keep the attractor", len(log) == 2 * n)
    S.assume(S.norm(goal) < 900)
    goal = goal + S.unit("shift", D)
    S.m(c, "set_attractor", goal)
    S.ensure("another attractor is passed on", len(log) == 4 * n and all(e[2] for e in log[2 * n:] if e[0] == "attractor"))


@contract("C17", HO + "._get_local_dynamics", modular=("vartools.directional_space:get_directional_weighted_sum",), timeout_ms=15000)
def local_motion_keeps_the_speed_limit(S):
    """for any distance to the wall"""
    D = S.dim()
    x, far = S.vec("position", D), S.real("distance", 0.01, 5)
    ref = S.turned("reference_direction", None, D)
    v = S.turned("direction", ref)
    n = S.turned("normal", ref)
    S.assume(S.Or(n.c > 0.05, n.c < -0.05))
    obs = S.mock(fields=dict(dimension=S.dval(D)), methods={
        "get_normal_direction": lambda o, position, in_global_frame=False: S.copy(n.v), "get_reference_direction": lambda o, position, in_global_frame=False: S.copy(ref.v)})
    a = S.raw(HO, inner_obstacles=[], outer_obstacle=obs, _graph=nx.Graph(), _local_outside_attractor=x + v.v * far)
    limit, scale = S.real("max_velocity", 0.1, 3), S.choice("scaling", [1.0, 0.5])
    r = S.m(a, "_get_local_dynamics", x, S.real("gamma", 1, 100), scaling=scale, max_velocity=limit)
    S.ensure("speed is the scaled distance to the local attractor, limited", S.eq(S.norm(r), limit if S.true(far * scale > limit) else far * scale))
