"""C16: the region of a cluster is the ball around its center cut by the planes midway to its neighbours."""
from pyvc.contract import contract

N = "nonlinear_avoidance."
KO = N + "kmeans_learner.kmeans_obstacle:KMeansObstacle"
WSUM = "vartools.directional_space:get_directional_weighted_sum"


def kmeans(S, centers):
    return S.mock(fields=dict(cluster_centers_=S.stack(centers).T))


def cell(S, D, neighbours, index=0, boundary=True, successors=(), at=None):
    """region of cluster 'index', with the planes at the distances h along the unit directions n (h, n)"""
    c = S.vec("center", D)
    centers = [c + n * (2 * h) for h, n in neighbours]
    centers.insert(index, c)
    relevant = [i for i in range(len(neighbours) + 1) if i != index]
    fields = dict(kmeans=kmeans(S, centers), radius=S.real("radius", 0.1, 10), _index=index, is_boundary=boundary,
               ind_relevant=S.array(relevant), successor_index=list(successors),
               _inbetween_points=S.stack([c + n * h for h, n in neighbours]).T,
               _normal_directions=S.stack([n for h, n in neighbours]).T)
    if at is None:
        return S.raw(KO, **fields), c
    u, surface, fields["radius"] = at

    def get_point_on_surface(o, position, in_global_frame=False):
        """as shown by surface_point_of_a_region"""
        direction = position - c if in_global_frame else position
        if not S.true(S.eq(direction, u * S.dot(direction, u))) or not S.true(S.dot(direction, u) > 0):
            raise ValueError("position off the ray")
        return c + u * surface if in_global_frame else u * surface
    return S.mock(fields=fields, methods=dict(get_point_on_surface=get_point_on_surface), cls=KO), c


@contract("C16", KO + ".get_point_on_surface", timeout_ms=20000)
def surface_point_of_a_region(S):
    """the first point on the ray from the center on the sphere or on one of the planes"""
    D = S.dim()
    planes = S.choice("planes", [1, 2])
    u = S.turned("direction", None, D)
    ns = [(S.real("height%d" % i, 0.05, 5), S.unit("normal%d" % i, D)) for i in range(planes)]
    index = S.choice("index", list(range(planes + 1)))
    ob, c = cell(S, D, ns, index)
    r = S.get(ob, "radius")
    glob = S.choice("global", [True, False])
    d = S.real("distance", 0.05, 10)
    x = c + u.v * d
    p = S.m(ob, "get_point_on_surface", x if glob else u.v * d, in_global_frame=glob)
    p = p if glob else p + c
    s = S.dot(p - c, u.v)
    S.ensure("on the ray", S.And(S.eq(p, c + u.v * s), s > 0))
    S.ensure("within the sphere", S.le(s, r))
    for h, n in ns:
        S.ensure("on the inner side of every plane", S.le(s * S.dot(u.v, n), h))
    S.ensure("on the sphere or a plane", S.Or(S.eq(s, r), *[S.eq(s * S.dot(u.v, n), h) for h, n in ns]))
    S.ensure("position kept", S.eq(x, c + u.v * d))


@contract("C16", KO + ".__init__", timeout_ms=20000)
def regions_of_the_clusters(S):
    """planes midway to exactly the clusters closer than twice the radius, with the unit directions to them"""
    D = S.dim()
    n = S.choice("others", [0, 1, 2])
    index = S.choice("index", list(range(3))[:n + 1])
    c = S.vec("center", D)
    r = S.real("radius", 0.1, 10)
    dirs = [(S.real("distance%d" % i, 0.05, 10), S.unit("direction%d" % i, D)) for i in range(n)]
    centers = [c + u * d for d, u in dirs]
    centers.insert(index, c)
    dirs.insert(index, None)
    ob = S.new(KO, kmeans(S, centers), r, index, is_boundary=S.choice("boundary", [True, False]))
    near = [i for i in range(n + 1) if i != index and S.true(dirs[i][0] < 2 * r)]
    S.ensure("neighbours closer than twice the radius", [int(i) for i in S.get(ob, "ind_relevant")] == near and S.eq(S.get(ob, "num_relevant"), len(near)))
    S.ensure("self", [int(i) for i in S.get(ob, "ind_relevant_and_self")] == near + [index])
    normals, points = S.get(ob, "normal_directions"), S.get(ob, "inbetween_points")
    for i in range(n + 1):
        if i in near:
            S.ensure("planes midway", S.eq(points[i, :], c + dirs[i][1] * (0.5 * dirs[i][0])))
            S.ensure("unit normals towards the neighbour", S.eq(normals[i, :], dirs[i][1]))
        else:
            S.ensure("no planes to the others", S.And(S.eq(points[i, :], S.zero(D)), S.eq(normals[i, :], S.zero(D))))
    S.ensure("center", S.And(S.eq(S.get(ob, "center_position"), c), S.eq(S.get(ob, "reference_point"), c)))
    S.ensure("no transparent border yet", len(S.get(ob, "successor_index")) == 0)


@contract("C16", KO + "._get_normal_distances", KO + ".get_reference_direction", timeout_ms=20000)
def distances_to_the_planes(S):
    D = S.dim()
    ns = [(S.real("height%d" % i, 0.05, 5), S.unit("normal%d" % i, D)) for i in range(2)]
    index = S.choice("index", [0, 1, 2])
    ob, c = cell(S, D, ns, index)
    u, d = S.unit("direction", D), S.real("distance", 0.05, 10)
    dist = S.m(ob, "_get_normal_distances", c + u * d, is_boundary=False)
    want = [d * S.dot(u, n) - h for h, n in ns]
    want.insert(index, 0)
    for i in range(3):
        S.ensure("signed distance, zero for itself", S.eq(dist[i], want[i]))
    S.ensure("towards the center", S.And(S.eq(S.m(ob, "get_reference_direction", c + u * d, in_global_frame=True), -u), S.eq(S.m(ob, "get_reference_direction", u * d), -u)))
    S.ensure("none at the center", S.eq(S.m(ob, "get_reference_direction", S.copy(c), in_global_frame=True), S.zero(D)))


def surface(S, u, ns):
    """distance of the surface in direction u, the radius, and the planes (of which one may be met there)"""
    r, s = S.real("radius", 0.1, 10), S.real("surface", 0.01, 10)
    k = S.choice("surface on", ["sphere", 0, 1])
    if k == "sphere":
        s = r
    else:
        S.assume(k < len(ns))
        S.assume(S.And(s <= r, S.dot(u, ns[k][1]) > 0.01))
        ns = [(s * S.dot(u, n) if i == k else h, n) for i, (h, n) in enumerate(ns)]
    S.assume(S.And(*[s * S.dot(u, n) <= h for i, (h, n) in enumerate(ns) if i != k]))
    return (u, s, r), ns


@contract("C16", KO + ".get_gamma", KO + ".is_inside", timeout_ms=20000)
def inside_of_a_region(S):
    """gamma is above one exactly inside of the region, below one exactly outside of it"""
    D = S.dim()
    planes = S.choice("planes", [1, 2])
    u, d = S.unit("direction", D), S.real("distance", 0.05, 10)
    ns = [(S.real("height%d" % i, 0.05, 5), S.unit("normal%d" % i, D)) for i in range(planes)]
    index = 1
    at, ns = surface(S, u, ns)
    ob, c = cell(S, D, ns, index, at=at)
    s = at[1]
    inside = S.true(d < s)
    S.assume(d < s * 0.999 if inside else d > s * 1.001)
    outer = s * s / d if inside else d
    for h, n in ns:
        S.lemma_cauchy(u, n)
        beyond = S.true(outer * S.dot(u, n) > h)
        if beyond:
            S.ensure("nearest along the normal", S.le(outer * S.dot(u, n) - h, outer - s))
            S.assume(outer * S.dot(u, n) - h <= outer - s + 1e-9)
    glob = planes == 1
    x = c + u * d if glob else u * d
    g = S.m(ob, "get_gamma", x, in_global_frame=glob)
    S.ensure("above one inside" if inside else "below one outside", g > 1 if inside else g < 1)
    S.ensure("position kept", S.eq(x, c + u * d if glob else u * d))


@contract("C16", KO + ".get_gamma", KO + ".is_inside", timeout_ms=20000)
def inside_test_of_a_region(S):
    """inside where the gamma without transparent border is above one"""
    D = S.dim()
    ob, c = cell(S, D, [(S.real("height", 0.05, 5), S.unit("normal", D))])
    S.ensure("far inside at the center", S.And(S.m(ob, "get_gamma", S.copy(c), in_global_frame=True) > 1e300, S.m(ob, "get_gamma", S.zero(D)) > 1e300))
    S.ensure("center inside", S.m(ob, "is_inside", S.copy(c), in_global_frame=True))
    x, g, glob = S.vec("position", D), S.real("gamma", 0, 3), S.choice("global", [True, False])

    def get_gamma(o, position, in_global_frame=False, ind_transparent=None):
        if in_global_frame is not glob or ind_transparent is None or ind_transparent >= 0:
            raise ValueError("gamma through the transparent border")
        return g
    ob = S.mock(methods=dict(get_gamma=get_gamma), cls=KO)
    S.ensure("gamma above one", S.Iff(S.true(S.m(ob, "is_inside", x, in_global_frame=glob)), g > 1))


@contract("C16", KO + ".get_gamma", timeout_ms=20000)
def border_to_the_successor(S):
    """beyond only the border to the successor the region is left freely, elsewhere it is as without successor"""
    D = S.dim()
    u, d = S.unit("direction", D), S.real("distance", 0.05, 10)
    ns = [(S.real("height%d" % i, 0.05, 5), S.unit("normal%d" % i, D)) for i in range(2)]
    t = S.choice("successor", [0, 1])
    at, ns = surface(S, u, ns)
    by = S.choice("successors", ["one", "given", "two"])
    ob, c = cell(S, D, ns, 1, at=at, successors={"one": [2 * t], "given": [], "two": [0, 2]}[by])
    s, r = at[1], at[2]
    x = c + u * d
    inside = S.true(d < s)
    S.assume(d < s * 0.999 if inside else d > s * 1.001)
    if by == "two":
        S.ensure("one successor only", S.raised(S.catch(lambda: S.m(ob, "get_gamma", x, in_global_frame=True)), "NotImplementedError"))
        return
    outer = s * s / d if inside else d
    S.assume(S.Or(outer < r * 0.999, outer > r * 1.001))
    beyond = [S.true(outer * S.dot(u, n) > h) for h, n in ns]
    for (h, n), b in zip(ns, beyond):
        S.lemma_cauchy(u, n)
        S.assume(S.Or(outer * S.dot(u, n) > h * 1.001, outer * S.dot(u, n) < h * 0.999))
        if b:
            S.assume(outer * S.dot(u, n) - h <= outer - s + 1e-9)
    S.assume(any(beyond) or outer > r)      # follows
    S.assume(not beyond[t] or outer < r)
    g = S.m(ob, "get_gamma", x, in_global_frame=True, **({} if by == "one" else {"ind_transparent": 2 * t}))
    dist = [outer * S.dot(u, n) - h for h, n in ns]
    if beyond[t] and (not beyond[1 - t] or S.true(dist[t] > dist[1 - t])):
        S.ensure("free towards the border to the successor", g > 1e300)
    elif beyond[t]:
        S.assume(dist[t] < 0.9 * dist[1 - t])
        other = (dist[1 - t] - dist[t]) / (dist[t] + dist[1 - t])
        S.ensure("the other border weighs less", S.eq(g * d, other * (outer - dist[1 - t]) + (1 - other) * (outer - dist[t]) / other))
    if not beyond[t]:
        S.ensure("same as without successor", S.eq(g, S.m(ob, "get_gamma", x, in_global_frame=True, ind_transparent=-1)))


@contract("C16", KO + ".get_normal_direction", timeout_ms=20000)
def normals_of_a_region(S):
    """towards the center at the sphere, against the normal at a plane, in between elsewhere; a unit vector"""
    D = S.dim()
    kind = S.choice("position", ["inside", "outside", "surface"])
    planes = 1 if kind != "surface" else 2
    u, d = S.turned("direction", None, D), S.real("distance", 0.05, 10)
    ns = [(S.real("height%d" % i, 0.05, 5), S.turned("normal%d" % i, u, D)) for i in range(planes)]
    turns, ns = [n for h, n in ns], [(h, n.v) for h, n in ns]
    u = u.v
    at, ns = surface(S, u, ns)
    ob, c = cell(S, D, ns, 1, at=at)
    s, r = at[1], at[2]
    glob = S.choice("global", [True, False])
    if kind == "surface":
        outer = d = s
    else:
        S.assume(d < s * 0.999 if kind == "inside" else d > s * 1.001)
        outer = s * s / d if kind == "inside" else d
    dist = [outer * S.dot(u, n) - h for h, n in ns]
    sphere = S.true(S.eq(s, r)) if kind == "surface" else S.true(outer > r)
    touched = [S.true(S.eq(x, 0) if kind == "surface" else x > 0) for x in dist]
    if kind == "surface":
        S.assume(sum(touched) + sphere == 1)
    else:
        for x in dist + [outer - r]:
            S.assume(S.Or(x > 1e-3, x < -1e-3))
        S.lemma_cauchy(u, ns[0][1])
    x = c + u * d if glob else u * d
    n = S.m(ob, "get_normal_direction", x, in_global_frame=glob)
    S.ensure("position kept", S.eq(x, c + u * d if glob else u * d))
    S.ensure("unit vector", S.eq(S.dot(n, n), 1))
    if not any(touched):
        S.ensure("towards the center", S.eq(n, -u))
    elif kind == "surface":
        S.ensure("against the normal of the border", S.eq(n, -ns[touched.index(True)][1]))
    else:
        # the angle to the normal in proportion to the distances, hence the normal itself within the sphere
        w0, w1 = S.max(dist[0], 0), S.max(outer - r, 0)
        part = w0 / (w0 + w1)
        angle = part * S.arccos(S.dot(u, ns[0][1]))
        S.ensure("in between by the distances", S.eq(S.dot(n, u), -S.cos(angle)))
        S.ensure("against the normal of the border", sphere or S.eq(part, 1))
        S.ensure("towards the normal of the border", S.dot(n, turns[0].p) <= 1e-9)


@contract("C16", KO + ".get_normal_direction", KO + ".get_point_on_surface", timeout_ms=20000)
def center_of_a_region(S):
    """unit direction and point on the sphere also at the center, which is not changed"""
    D = S.dim()
    ob, c = cell(S, D, [(S.real("height", 20, 30), S.unit("normal", D))], 0)
    glob = S.choice("global", [True, False])
    for f in ("get_normal_direction", "get_point_on_surface"):
        x = S.copy(c) if glob else S.zero(D)
        n = S.m(ob, f, x, in_global_frame=glob)
        if f == "get_normal_direction":
            S.ensure("unit direction at the center", S.eq(S.dot(n, n), 1))
        else:
            n = n - x
            S.ensure("on the sphere", S.eq(S.dot(n, n), S.get(ob, "radius") * S.get(ob, "radius")))
        S.ensure("position kept", S.eq(x, c if glob else S.zero(D)))


ML = N + "kmeans_learner.kmeans_motion_learner:KMeansMotionLearner"


def graph(S, edges):
    """chain of clusters: successors and predecessors as given"""
    return S.mock(methods=dict(successors=lambda o, i: [b for a, b in edges if a == i], predecessors=lambda o, i: [a for a, b in edges if b == i]))


@contract("C16", ML + "._predict_sequence_weights", ML + ".get_predecessors", ML + ".get_successors", ML + ".n_clusters", timeout_ms=20000)
def weights_of_the_sequence(S):
    """all on the cluster of the position, except for a share of its predecessor near their common border"""
    D = S.dim()
    label = S.choice("cluster", [0, 1, 2])
    n, h = S.unit("direction", D), S.real("half distance", 0.1, 5)
    c = S.vec("center", D)
    centers = [None] * 3
    centers[label] = c
    parent = {0: 1, 1: 2, 2: None}[label]      # 2 -> 1 -> 0
    for i in range(3):
        if centers[i] is None:
            centers[i] = c - n * (2 * h) if i == parent else S.vec("other%d" % i, D)
    height = S.real("height", -1, 4)
    side = S.vec("side", D)
    side = side - n * S.dot(side, n)
    x = c + n * (height * h - h) + side
    g = S.real("gamma", 1, 10)

    def get_gamma(o, position, in_global_frame=False, ind_transparent=None):
        if not in_global_frame or ind_transparent != parent or not S.true(S.eq(position, x)):
            raise ValueError("gamma towards the predecessor expected")
        return g
    wrong = S.mock(methods=dict(get_gamma=lambda o, *a, **k: 1 / 0))
    learner = S.raw(ML, kmeans=S.mock(fields=dict(n_clusters=3, cluster_centers_=S.stack(centers).T)), _graph=graph(S, [(2, 1), (1, 0)]),
                    region_obstacles=[S.mock(methods=dict(get_gamma=get_gamma)) if i == label else wrong for i in range(3)])
    w = S.m(learner, "_predict_sequence_weights", x, label)
    S.ensure("one in sum", S.eq(w[0] + w[1] + w[2], 1))
    for i in range(3):
        S.ensure("within zero and one", S.within(0, w[i], 1))
        if i not in (label, parent):
            S.ensure("none for the others", S.eq(w[i], 0))
    if parent is None:
        S.ensure("all on the first of the sequence", S.eq(w[label], 1))
        return
    S.ensure("share of the predecessor", S.eq(w[parent], S.max(1 - S.max(height, 0) * 2, 0) * (1 - 1 / (1 + S.max(g - 2, 0)))))


@contract("C16", ML + ".get_distance_from_centers", ML + ".compute_distances_to_neighbours", ML + "._fit_cluster_hierarchy", ML + ".get_feature_labels",
          ML + ".get_number_of_features", ML + ".get_successors", ML + ".attractor_position", timeout_ms=20000, samples=60)
def hierarchy_of_the_clusters(S):
    """a chain towards the attractor in the order of the demonstration, with the distances along it"""
    D = S.dim()
    order = S.choice("order", [[0, 1, 2], [2, 0, 1], [1, 0, 2], [1, 0]])      # from the attractor on
    a = S.vec("attractor", D)
    centers, dirs, at = [None] * len(order), [None] * len(order), a
    dist = [S.real("distance%d" % i, 0.1, 10) for i in range(len(order))]
    for k, i in enumerate(order):
        dirs[i] = S.unit("direction%d" % k, D)
        centers[i] = at = at + dirs[i] * dist[k]
    labels = [0, 1, 2, 0, 2][:5 if len(order) == 3 else 2]
    start = S.real("start", 0, 1)
    spread = S.choice("spread", [0.25, 2.0])
    sequence = [start - order.index(l) + (0 if labels.count(l) == 1 else -spread if k > 2 else spread) * (order.index(l) + 1) for k, l in enumerate(labels)]
    data = S.mock(fields=dict(sequence_value=S.array(sequence), attractor=a, attractor_position=a, dimension=S.dval(D)))
    km = S.mock(fields=dict(n_clusters=len(order), cluster_centers_=S.stack(centers).T, labels_=S.array(labels)))
    learner = S.new(ML)
    S.set(learner, "kmeans", km)
    S.set(learner, "data", data)
    S.m(learner, "_fit_cluster_hierarchy")
    for k, i in enumerate(order):
        S.ensure("succeeded by the next one towards the attractor", [int(j) for j in S.m(learner, "get_successors", i)] == order[max(k - 1, 0):k])
        S.ensure("preceded by the one before", [int(j) for j in S.m(learner, "get_predecessors", i)] == order[k + 1:k + 2])
        S.ensure("distance along the chain, twice to the attractor", S.eq(S.at(S.get(learner, "distances_parent"), k), dist[k] * (1 if k else 2)))
        S.ensure("distance to the next one", S.eq(S.at(S.m(learner, "compute_distances_to_neighbours"), k), dist[k]))
        S.ensure("level and direction", S.And(S.eq(node(S, learner, i, "level"), k), S.eq(node(S, learner, i, "direction"), dirs[i])))
    x = S.vec("position", D)
    S.ensure("distances to the centers", S.And(*[S.eq(d, S.norm(x - c)) for d, c in zip(list(S.m(learner, "get_distance_from_centers", x)), centers)]))


def node(S, learner, i, key):
    return S.get(S.get(learner, "_graph"), "nodes")[i][key]


@contract("C16", ML + "._fit_remove_sparse_clusters", timeout_ms=20000, max_paths=20000, con_seconds=8)
def sparse_clusters_are_removed(S):
    """exactly the ones with too few samples; the other samples stay with their center, the orphans go to the predicted one"""
    D = S.dim()
    labels = [S.choice("label%d" % i, [0, 1, 2]) for i in range(5)]
    factor = S.choice("factor", [0.2, 1.0])
    centers = [S.vec("center%d" % i, D) for i in range(3)]
    kept = [i for i in range(3) if labels.count(i) >= factor * 5 / 3]
    points = [S.vec("point%d" % i, D) for i in range(5)]
    last = len(kept) - 1

    def predict(o, positions):
        return S.array([last] * len(positions))
    km = S.mock(fields=dict(n_clusters=3, cluster_centers_=S.stack(centers).T, labels_=S.array(labels)), methods=dict(predict=predict))
    learner = S.new(ML)
    S.set(learner, "kmeans", km)
    S.set(learner, "data", S.mock(fields=dict(n_samples=5, position=S.stack(points).T)))
    S.m(learner, "_fit_remove_sparse_clusters", factor)
    S.ensure("number of clusters", S.get(km, "n_clusters") == len(kept) and len(S.get(km, "cluster_centers_")) == len(kept))
    for k, i in enumerate(kept):
        S.ensure("centers kept", S.eq(S.get(km, "cluster_centers_")[k, :], centers[i]))
    S.ensure("samples with their center", [int(l) for l in S.get(km, "labels_")] == [kept.index(l) if l in kept else last for l in labels])


@contract("C16", N + "kmeans_learner.kmeans_motion_learner:create_kmeans_learner_from_learner", ML + "._fit_region_obstacles", timeout_ms=20000)
def one_region_for_each_cluster(S):
    """built from the clustering with the radius of the regions, open to the successor"""
    D = S.dim()
    n, d, r = S.unit("direction", D), S.real("distance", 0.1, 10), S.real("radius", 0.1, 10)
    c = S.vec("center", D)
    km = S.mock(fields=dict(n_clusters=2, cluster_centers_=S.stack([c, c + n * d]).T))
    learner = S.raw(ML, kmeans=km, region_radius_=r, _graph=graph(S, [(1, 0)]))
    S.m(learner, "_fit_region_obstacles")
    obs = S.get(learner, "region_obstacles")
    S.ensure("one region for each cluster", len(obs) == 2)
    for i in range(2):
        S.ensure("of this cluster", S.eq(S.get(obs[i], "center_position"), c + n * (d * i)))
        S.ensure("with the radius of the regions", S.eq(S.get(obs[i], "radius"), r))
        S.ensure("a boundary", S.get(obs[i], "is_boundary") is True)
        S.ensure("open to the successor", [int(j) for j in S.get(obs[i], "successor_index")] == [0][:i])
        S.ensure("neighbours", [int(j) for j in S.get(obs[i], "ind_relevant")] == ([1 - i] if S.true(d < 2 * r) else []))


@contract("C16", ML + "._fit_region_radius", timeout_ms=20000)
def radius_of_the_regions(S):
    """the larger one of the share of the distance to a parent, and twice this share of the distance of a sample to its center"""
    centers = [S.vec("center%d" % i, 2) for i in range(2)]
    points = [S.vec("point%d" % i, 2) for i in range(2)]
    f = S.real("factor", 0.1, 2)
    dist = [S.real("distance%d" % i, 0, 10) for i in range(2)]
    learner = S.raw(ML, kmeans=S.mock(fields=dict(n_clusters=2, cluster_centers_=S.stack(centers).T)), radius_factor=f,
                    distances_parent=S.array(dist), data=S.mock(fields=dict(position=S.stack(points).T)))
    S.m(learner, "_fit_region_radius")
    near = [S.min(*[S.norm(p - c) for c in centers]) for p in points]
    S.ensure("radius", S.eq(S.get(learner, "region_radius_"), S.max(f * S.max(*dist), 2 * f * S.max(*near))))


@contract("C16", ML + "._is_pointing_towards_parent", timeout_ms=20000)
def directions_towards_the_parent(S):
    """the surface of the region in this direction is the border to the parent"""
    D = S.dim()
    u = S.unit("direction", D)
    ns = [(S.real("height%d" % i, 0.05, 5), S.unit("normal%d" % i, D)) for i in range(2)]
    at, ns = surface(S, u, ns)
    ob, c = cell(S, D, ns, 1, at=at)
    learner = S.raw(ML, kmeans=S.get(ob, "kmeans"), region_obstacles=[None, ob, None])
    (h, n), s = ns[0], at[1]
    q = s * S.dot(u, n)
    border = S.true(S.eq(q, h))
    S.assume(border or q < h - 0.1)
    S.assume(s < 5)
    S.ensure("the border to the parent", S.Iff(S.true(S.m(learner, "_is_pointing_towards_parent", u, 1, 0)), border))


@contract("C16", ML + ".predict", ML + ".evaluate", ML + "._predict_outside_of_obstacle", timeout_ms=20000)
def outside_of_all_regions(S):
    """the motion of the outside dynamics, far away from all clusters exactly"""
    D = S.dim()
    x = S.vec("position", D)
    r = S.real("radius", 0.1, 5)
    us = [S.unit("direction%d" % i, D) for i in range(2)]
    ds = [S.real("distance%d" % i, 0.1, 100) for i in range(2)]
    label = S.choice("cluster", [0, 1])
    v = S.vec("velocity", D)

    def get_gamma(o, position, in_global_frame=False, ind_transparent=None):
        if not in_global_frame or not S.true(S.eq(position, x)):
            raise ValueError("global position expected")
        return g
    g = S.real("gamma", 0, 0.99)

    def predict(o, positions):
        if len(positions) != 1 or not S.true(S.eq(positions[0], x)):
            raise ValueError("one position expected")
        return S.array([label])
    km = S.mock(fields=dict(n_clusters=2, cluster_centers_=S.stack([x + u * d for u, d in zip(us, ds)]).T), methods=dict(predict=predict))
    S.assume(S.And(*[d > 4 * r + 0.001 for d in ds]))

    def evaluate(o, position):
        if not S.true(S.eq(position, x)):
            raise ValueError("at the position")
        return S.copy(v)
    learner = S.raw(ML, kmeans=km, region_radius_=r, convergence_radius=S.pi, outside_dynamics=S.mock(methods=dict(evaluate=evaluate)),
                    region_obstacles=[S.mock(methods=dict(get_gamma=get_gamma)) if i == label else None for i in range(2)])
    S.ensure("outside dynamics far away", S.eq(S.m(learner, S.choice("method", ["predict", "evaluate"]), x), v))


@contract("C16", ML + ".predict_averaged_lyapunov", ML + "._predict_initial_direction", timeout_ms=20000)
def directions_of_one_cluster(S):
    """with all the weight on one cluster its own directions"""
    D = S.dim()
    x = S.vec("position", D)
    k, n = S.choice("cluster", [0, 1]), 2
    l = S.turned("lyapunov", None, D)
    v = S.turned("velocity", l)
    wrong = S.mock(methods=dict(get_lyapunov_gradient_direction=lambda o, p: 1 / 0))
    own = S.mock(methods=dict(get_lyapunov_gradient_direction=lambda o, p: S.copy(l.v), evaluate_without_lyapunov_check=lambda o, p: S.copy(v.v)))
    weights = S.array([1.0 if i == k else 0.0 for i in range(n)])
    learner = S.raw(ML, _dynamics=[own if i == k else wrong for i in range(n)], data=S.mock(fields=dict(dimension=S.dval(D))))
    rel = weights > 0
    S.ensure("direction of convergence", S.eq(S.m(learner, "predict_averaged_lyapunov", x, rel, weights), l.v))
    S.ensure("initial direction", S.eq(S.m(learner, "_predict_initial_direction", x, l.v, rel, weights), v.v))
