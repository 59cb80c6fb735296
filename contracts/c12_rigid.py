"""C12: compound obstacles move as one body and stay connected."""
from pyvc.contract import contract

N = "nonlinear_avoidance."
MO = N + "multi_obstacle:MultiObstacle"
ME = N + "multi_ellipse_obstacle:MultiEllipseObstacle"
AR = N + "arch_obstacle:BlockArchObstacle"
HU = N + "multi_body_human:MultiBodyObstacle"
REL = N + "multi_obstacle_avoider:compute_multiobstacle_relative_velocity"
POSE = "vartools.states:Pose"
TWIST = "vartools.states:Twist"
OBS = "dynamic_obstacle_avoidance.obstacles:Obstacle"
ROT = "scipy.spatial.transform:Rotation"


class Frame:
    """pose of an arbitrary space: a plane with an angle, three dimensions with a rotation, or a translation"""

    def __init__(self, S, name, kind, D):
        self.S, self.kind = S, kind
        self.p = S.vec(name, D)
        if kind == "plane":
            self.a = S.real(name + "_angle")
        elif kind == "space":
            q = S.vec(name + "_quat", 4, nonzero=True)
            self.a = S.m(S.cls(ROT), "from_quat", q)
        else:
            self.a = None

    def pose(self):
        return self.S.new(POSE, self.S.copy(self.p), self.a)

    def turn(self, v):
        return turn(self.S, self.kind, self.a, v)

    def at(self, v):
        return self.turn(v) + self.p


def turn(S, kind, a, v):
    if kind == "plane":
        c, s = S.cos(a), S.sin(a)
        return S.array([c * S.at(v, 0) - s * S.at(v, 1), s * S.at(v, 0) + c * S.at(v, 1)])
    if kind == "space":
        return S.m(a, "apply", v)
    return v


def space(S, kinds=("plane", "space", "shift")):
    kind = S.choice("space", list(kinds))
    return kind, {"plane": 2, "space": 3}.get(kind) or S.dim()


def same_pose(S, kind, D, pose, frame, local):
    """pose is the composition of the frame and the local pose"""
    ok = S.eq(S.get(pose, "position"), frame.at(local.p))
    if kind == "shift":
        return S.And(ok, S.get(pose, "orientation") is None)
    v = S.array([2, 3, 5][:D])
    return S.And(ok, S.eq(turn(S, kind, S.get(pose, "orientation"), v), frame.turn(local.turn(v))))


def component(S, j, local):
    return S.new(OBS, pose=local.pose())


@contract("C12", MO + ".update_pose", MO + ".get_pose", MO + ".pose", timeout_ms=20000)
def components_follow_the_pose(S):
    kind, D = space(S)
    n = S.choice("n", [0, 1, 3])
    loc = [Frame(S, f"local{j}", kind, D) for j in range(n)]
    first, new = Frame(S, "first", kind, D), Frame(S, "new", kind, D)
    comps = [component(S, j, Frame(S, f"stale{j}", kind, D)) for j in range(n)]
    lp = [f.pose() for f in loc]
    a = S.raw(MO, _pose=Frame(S, "old", kind, D).pose(), _local_poses=lp, _obstacle_list=comps)
    S.m(a, "update_pose", first.pose())
    S.m(a, "update_pose", new.pose())
    for j in range(n):
        S.ensure("component moves along with the obstacle", same_pose(S, kind, D, S.get(comps[j], "pose"), new, loc[j]))
        S.ensure("local pose is kept", S.eq(S.get(lp[j], "position"), loc[j].p))
    p = S.m(a, "get_pose")
    S.ensure("pose of the obstacle", S.eq(S.get(p, "position"), new.p))
    S.set(p, "position", new.p * 0)
    S.ensure("a copy is handed out", S.eq(S.get(S.get(a, "pose"), "position"), new.p))


@contract("C12", MO + ".set_root", MO + ".add_component", MO + ".get_parent_idx", MO + ".get_root", MO + ".get_component", timeout_ms=20000)
def components_are_placed_in_the_frame_of_the_obstacle(S):
    kind, D = space(S)
    frame = Frame(S, "pose", kind, D)
    a = S.new(MO, frame.pose())
    n = S.choice("n", [1, 2, 3])
    parents = S.choice("parents", [[None, 0, 0], [None, 0, 1]])
    loc = [Frame(S, f"local{j}", kind, D) for j in range(n)]
    comps = [component(S, j, loc[j]) for j in range(n)]
    refs = [S.vec(f"ref{j}", D) for j in range(n)]
    S.ensure("root has the first index", S.m(a, "set_root", comps[0]) == 0)
    for j in range(1, n):
        S.ensure("indices count up", S.m(a, "add_component", comps[j], parent_ind=parents[j], reference_position=refs[j]) == j)
    for j in range(n):
        S.ensure("component is placed in the obstacle's frame", same_pose(S, kind, D, S.get(comps[j], "pose"), frame, loc[j]))
        S.ensure("parent", S.m(a, "get_parent_idx", j) == parents[j])
        S.ensure("component by its index", S.m(a, "get_component", j) is comps[j])
        if j:
            S.ensure("reference point in the frame of the component", S.eq(S.m(comps[j], "get_reference_point", in_global_frame=False), refs[j]))
    S.ensure("root", S.m(a, "get_root") is comps[0])
    S.ensure("number of components", S.get(a, "n_components") == n)
    new = Frame(S, "new", kind, D)
    S.m(a, "update_pose", new.pose())
    for j in range(n):
        S.ensure("moves as one body", same_pose(S, kind, D, S.get(comps[j], "pose"), new, loc[j]))


@contract("C12", MO + ".update_deformation", timeout_ms=20000)
def deformation_scales_the_body(S):
    kind, D = space(S)
    n = S.choice("n", [0, 1, 3])
    frame = Frame(S, "pose", kind, D)
    loc = [Frame(S, f"local{j}", kind, D) for j in range(n)]
    axes = [S.vec(f"axes{j}", D) for j in range(n)]
    comps = [component(S, j, Frame(S, f"stale{j}", kind, D)) for j in range(n)]
    for j in range(n):
        S.set(comps[j], "axes_length", S.copy(axes[j]))
    was = [S.copy(S.get(S.get(c, "pose"), "position")) for c in comps]
    a = S.raw(MO, _pose=frame.pose(), _local_poses=[f.pose() for f in loc], _obstacle_list=comps)
    dt = S.real("step", 0, 2)
    S.m(a, "update_deformation", dt)
    for j in range(n):
        S.ensure("rigid unless it deforms", S.And(S.eq(S.get(S.get(comps[j], "pose"), "position"), was[j]), S.eq(S.get(comps[j], "axes_length"), axes[j])))
    rate = S.real("rate", -1, 1)
    S.set(a, "deformation_rate", rate)
    S.m(a, "update_deformation", dt)
    f = 1 + rate * dt
    for j in range(n):
        loc[j].p = loc[j].p * f
        S.ensure("positions are scaled around the obstacle's center", same_pose(S, kind, D, S.get(comps[j], "pose"), frame, loc[j]))
        S.ensure("axes are scaled", S.eq(S.get(comps[j], "axes_length"), axes[j] * f))
    new = Frame(S, "new", kind, D)
    S.m(a, "update_pose", new.pose())
    for j in range(n):
        S.ensure("the deformed shape moves along", same_pose(S, kind, D, S.get(comps[j], "pose"), new, loc[j]))


@contract("C12", MO + ".linear_velocity", MO + ".dimension", timeout_ms=20000)
def velocity_of_the_obstacle(S):
    D = S.dim()
    a = S.new(MO, S.new(POSE, S.vec("position", D), None))
    u, v, w = S.vec("u", D), S.vec("v", D), S.real("w")
    S.ensure("at rest without a twist", S.eq(S.get(a, "linear_velocity"), S.zero(D)))
    S.set(a, "linear_velocity", u)
    S.ensure("velocity as assigned", S.eq(S.get(a, "linear_velocity"), u))
    S.set(a, "twist", S.new(TWIST, linear=u, angular=w))
    S.set(a, "linear_velocity", v)
    S.ensure("velocity as assigned later", S.And(S.eq(S.get(a, "linear_velocity"), v), S.eq(S.get(S.get(a, "twist"), "linear"), v)))
    S.ensure("the angular velocity is kept", S.eq(S.get(S.get(a, "twist"), "angular"), w))


def cross(S, D, w, r):
    if D == 2:
        return S.array([-w * S.at(r, 1), w * S.at(r, 0)])
    x, y, z = [S.at(r, i) for i in range(3)]
    a, b, c = [S.at(w, i) for i in range(3)]
    return S.array([b * z - c * y, c * x - a * z, a * y - b * x])


@contract("C12", REL, timeout_ms=30000)
def surface_velocity_of_the_obstacle_in_contact(S):
    """the obstacle in contact moves with v + w x r at the robot, obstacles further away have no part in it"""
    D = S.choice("D", [2, 3])
    x = S.vec("position", D)
    n = S.choice("n", [1, 2])
    touch = S.choice("touching", [0, 1]) if n == 2 else 0
    gam = [S.real(f"gamma{j}", 0.2, 1) if j == touch else S.real(f"gamma{j}", 1, 30, lo_open=True) for j in range(n)]
    trees, want = [], None
    for j in range(n):
        c = S.vec(f"center{j}", D)
        kind = S.choice(f"motion{j}", ["rest", "shift", "turn", "deform"]) if j == touch else S.choice(f"other{j}", ["rest", "turn"])
        fields, v, absent = {"twist": None}, S.zero(D), ("deformation_rate",)
        if kind == "shift":
            v = S.vec(f"velocity{j}", D)
            fields["twist"] = S.new(TWIST, linear=v, angular=None)
        if kind == "turn":
            w = S.real(f"angular{j}") if D == 2 else S.vec(f"angular{j}", 3)
            u = S.vec(f"velocity{j}", D)
            fields["twist"] = S.new(TWIST, linear=u, angular=w)
            v = u + cross(S, D, w, x - c)
        if kind == "deform":
            rate = S.real(f"rate{j}", -1, 1)
            fields["deformation_rate"], absent = rate, ()
            v = (x - c) * rate

        def make(c=c, g=gam[j], fields=fields, absent=absent):
            return S.mock(fields=fields, absent=absent, methods={"get_gamma": lambda o, position, in_global_frame=True: g,
                                                                 "get_pose": lambda o: S.new(POSE, c, 0.0 if D == 2 else None)})
        trees.append(make())
        if j == touch:
            want = v
    S.ensure("velocity of the rigid body in contact", S.eq(S.fn(REL)(x, trees), want))


@contract("C12", REL, timeout_ms=30000)
def surface_velocity_is_an_average(S):
    D = S.choice("D", [2, 3])
    x, u = S.vec("position", D), S.vec("velocity", D)
    n = S.choice("n", [0, 1, 2, 3])

    def tree(j):
        g = S.real(f"gamma{j}", 1, 30, lo_open=True)
        return S.mock(fields={"twist": S.new(TWIST, linear=u, angular=None)}, absent=("deformation_rate",),
                      methods={"get_gamma": lambda o, position, in_global_frame=True: g, "get_pose": lambda o: S.new(POSE, x, 0.0 if D == 2 else None)})
    r = S.fn(REL)(x, [tree(j) for j in range(n)])
    i = S.choice("coordinate", [0, 1])
    a, b = S.at(u, i), S.at(r, i)
    S.ensure("obstacles that move alike never give a larger velocity", S.Or(S.And(S.le(0, b), S.le(b, a)), S.And(S.le(a, b), S.le(b, 0))))


def chain(S, kind, D, n, parents):
    """a body of n limbs; parents[j] is the limb that limb j hangs on"""
    a = S.new(HU)
    frames = [Frame(S, f"limb{j}", kind, D) for j in range(n)]
    comps = [component(S, j, frames[j]) for j in range(n)]
    own = [S.vec(f"own{j}", D) for j in range(n)]
    on = [S.vec(f"on_parent{j}", D) for j in range(n)]
    S.m(a, "set_root", comps[0], name="limb0")
    for j in range(1, n):
        S.m(a, "add_component", comps[j], name=f"limb{j}", reference_position=own[j], parent_name=f"limb{parents[j]}", parent_reference_position=on[j])
    return a, frames, comps, own, on


@contract("C12", HU + ".set_root", HU + ".add_component", HU + ".get_parent_idx", HU + ".get_obstacle_id_from_name", HU + ".get_name", timeout_ms=20000)
def limbs_are_known_by_name_and_index(S):
    D = S.dim()
    n = S.choice("n", [1, 2, 4])
    parents = S.choice("parents", [[None, 0, 0, 1], [None, 0, 1, 2], [None, 0, 1, 0]])
    a, frames, comps, own, on = chain(S, "shift", D, n, parents)
    for j in range(n):
        S.ensure("name and index", S.And(S.m(a, "get_name", j) == f"limb{j}", S.m(a, "get_obstacle_id_from_name", f"limb{j}") == j))
        S.ensure("limb by its index", S.m(a, "get_component", j) is comps[j])
        S.ensure("parent", S.m(a, "get_parent_idx", j) == parents[j])
        if j:
            S.ensure("reference point in the limb's frame", S.eq(S.m(comps[j], "get_reference_point", in_global_frame=False), own[j]))
    S.ensure("root", S.And(S.m(a, "get_root") is comps[0], S.get(a, "n_components") == n))


@contract("C12", HU + ".align_obstacle_tree", HU + ".align_position_with_parent", timeout_ms=20000)
def limbs_stay_connected(S):
    kind, D = space(S, ("space", "shift"))
    n = S.choice("n", [1, 2, 4])
    parents = S.choice("parents", [[None, 0, 0, 1], [None, 0, 1, 2], [None, 0, 1, 0]])
    a, frames, comps, own, on = chain(S, kind, D, n, parents)
    S.m(a, "align_obstacle_tree")
    S.ensure("the root keeps its place", S.eq(S.get(S.get(comps[0], "pose"), "position"), frames[0].p))
    pos = [S.get(S.get(c, "pose"), "position") for c in comps]
    for j in range(1, n):
        k = parents[j]
        S.ensure("the limb is attached to its parent's joint", S.eq(frames[j].turn(own[j]) + pos[j], frames[k].turn(on[j]) + pos[k]))
    if kind == "space":
        v = S.array([2, 3, 5])
        for j in range(n):
            S.ensure("orientations are kept", S.eq(S.m(S.get(S.get(comps[j], "pose"), "orientation"), "apply", v), frames[j].turn(v)))


@contract("C12", HU + ".update_orientation_based_on_position", timeout_ms=20000)
def limb_points_from_its_joint_to_the_tracked_position(S):
    parent = Frame(S, "parent", "space", 3)
    limb = Frame(S, "limb", "space", 3)
    d = S.vec("direction", 3)
    own, on = S.vec("own", 3), S.vec("on_parent", 3)
    limb.p = parent.at(on) + d
    comps = [component(S, 0, parent), component(S, 1, limb)]
    a = S.new(HU)
    S.m(a, "set_root", comps[0], name="body")
    S.m(a, "add_component", comps[1], name="limb", reference_position=own, parent_name="body", parent_reference_position=on)
    x, y, z = [S.at(d, i) for i in range(3)]
    level = x * x + y * y
    S.assume(S.Or(level > 1e-6, S.And(S.eq(x, 0, 0), S.eq(y, 0, 0))))
    S.m(a, "update_orientation_based_on_position", 1)
    pose = S.get(comps[1], "pose")
    length = S.norm(d)
    if S.true(length > 0):
        S.ensure("the limb's axis points to the tracked position", S.eq(S.m(S.get(pose, "orientation"), "apply", S.array([0, 0, 1])) * length, d))
    else:
        v = S.array([2, 3, 5])
        S.ensure("no information: orientation is kept", S.eq(S.m(S.get(pose, "orientation"), "apply", v), limb.turn(v)))
    S.ensure("the position is kept", S.eq(S.get(pose, "position"), limb.p))
    S.ensure("the parent is kept", S.eq(S.get(S.get(comps[0], "pose"), "position"), parent.p))


def body(S, j):
    """a body whose drawn shape is a point: its intersection with another one is the segment between both centers"""
    p, t = S.vec(f"local{j}", 2), S.real(f"angle{j}")
    o = S.mock(cls=OBS, fields={"pose": S.new(POSE, p, t), "_relative_reference_point": S.zero(2)}, methods={"create_shape": draw(S)})
    return o, p, t


def draw(S):
    def create_shape(o):
        S.set(o, "shape", shape(S, S.get(S.get(o, "pose"), "position")))
    return create_shape


def shape(S, p):
    def intersection(s, other):
        q = S.get(other, "at")
        xy = [[S.at(p, 0), S.at(q, 0)], [S.at(p, 1), S.at(q, 1)]]
        return S.mock(fields={"exterior": S.mock(fields={"coords": S.mock(fields={"xy": xy})})})
    return S.mock(fields={"at": p}, methods={"intersection": intersection})


@contract("C12", MO + ".add_component", ME + ".set_parent", N + "geometry:get_intersection_of_obstacles", timeout_ms=20000)
def components_without_reference_are_linked_where_they_meet(S):
    o1, p1, t1 = body(S, 1)
    o2, p2, t2 = body(S, 2)
    kind = S.choice("kind", ["tree", "ellipses"])
    if kind == "tree":
        frame = Frame(S, "pose", "plane", 2)
        a = S.new(MO, frame.pose())
        S.m(a, "set_root", o1)
        S.m(a, "add_component", o2, parent_ind=0)
        middle = (frame.at(p1) + frame.at(p2)) / 2
    else:
        a = S.new(ME)
        S.m(a, "append", o1)
        S.m(a, "append", o2)
        S.m(a, "set_root", 0)
        S.m(a, "set_parent", 1, 0)
        middle = (p1 + p2) / 2
        S.ensure("hierarchy", S.And(S.get(a, "root_idx") == 0, S.m(a, "get_parent_idx", 1) == 0))
    S.ensure("reference point in the intersection", S.eq(S.m(o2, "get_reference_point", in_global_frame=True), middle))


@contract("C12", ME + ".set_root", ME + ".set_parent", ME + ".append", timeout_ms=20000)
def hierarchy_of_ellipses_is_not_overwritten(S):
    bodies = [body(S, j)[0] for j in range(3)]
    a = S.new(ME)
    for b in bodies:
        S.m(a, "append", b)
    root = S.choice("root", [0, 1, 2])
    S.m(a, "set_root", root)
    others = [j for j in range(3) if j != root]
    S.m(a, "set_parent", others[0], root)
    k = S.choice("parent", [0, 1])
    parent = [root, others[0]][k]
    S.m(a, "set_parent", others[1], parent)
    again = S.catch(lambda: S.m(a, "set_root", others[0]))
    S.ensure("only one root", S.And(S.raised(again, "NotImplementedError"), S.get(a, "root_idx") == root))
    again = S.catch(lambda: S.m(a, "set_parent", others[1], others[0]))
    S.ensure("only one parent", S.And(S.raised(again, "NotImplementedError"), S.m(a, "get_parent_idx", others[1]) == parent, S.m(a, "get_parent_idx", others[0]) == root))
    S.ensure("number of components", S.get(a, "n_components") == 3)


@contract("C12", AR + ".__init__", AR + ".update_obstacles", AR + ".set_root", AR + ".add_component", AR + ".get_parent_idx", N + "arch_obstacle:create_arch_obstacle", timeout_ms=20000)
def arch_is_one_connected_body(S):
    frame = Frame(S, "pose", "plane", 2)
    w, L, H = S.real("wall", 0.1, 1), S.real("length", 1, 9), S.real("height", 2, 9)
    margin = S.real("margin", 0, 1)
    which = S.choice("kind", ["class", "factory"])
    if which == "class":
        a = S.new(AR, wall_width=w, axes_length=S.array([L, H]), pose=frame.pose(), margin_absolut=margin)
    else:
        a = S.fn(N + "arch_obstacle:create_arch_obstacle")(wall_width=w, axes_length=S.array([L, H]), pose=frame.pose(), margin_absolut=margin)
    walls = [S.m(a, "get_component", j) for j in range(3)]
    S.ensure("three walls", S.get(a, "n_components") == 3)
    moved = S.bool("moved")
    if moved:
        frame = Frame(S, "new", "plane", 2)
        if which == "class":
            S.set(a, "pose", frame.pose())
            S.m(a, "update_obstacles", 0.1)
        else:
            S.m(a, "update_pose", frame.pose())
    S.ensure("the arms hang on the root", S.And(S.m(a, "get_parent_idx", 0) is None, S.m(a, "get_parent_idx", 1) == 0, S.m(a, "get_parent_idx", 2) == 0))
    local = [S.array([0, 0]), S.array([(L - w) / 2, (H - w) / 2]), S.array([(L - w) / 2, -(H - w) / 2])]
    for j in range(3):
        S.ensure("walls form an arch", S.eq(S.get(S.get(walls[j], "pose"), "position"), frame.at(local[j])))
        S.ensure("size of the walls", S.eq(S.get(walls[j], "axes_length"), S.array([w, H] if j == 0 else [L, w])))
        S.ensure("margin of the walls", S.eq(S.get(walls[j], "margin_absolut"), margin))
    for j in (1, 2):
        r = S.m(walls[j], "get_reference_point", in_global_frame=False)
        x = S.at(r, 0) + (L - w) / 2
        S.ensure("reference point in the arm and in the root wall",
                 S.And(S.eq(S.at(r, 1), 0), S.within(-L / 2, S.at(r, 0), L / 2), S.within(-w / 2, x, w / 2)))


@contract("C12", HU + ".update_using_optitrack", HU + ".optitrack_indeces", timeout_ms=20000)
def tracked_limbs_move_and_stay_connected(S):
    """limb 1 is tracked (seen from the robot's base), limb 2 hangs on it and is not tracked"""
    own, on = [None, S.vec("own1", 3), S.vec("own2", 3)], [None, S.vec("on1", 3), S.vec("on2", 3)]
    frames = [Frame(S, f"limb{j}", "space", 3) for j in range(3)]
    comps = [component(S, j, frames[j]) for j in range(3)]
    robot_at = S.vec("robot", 3)
    in_robot_frame = S.bool("in_robot_frame")
    seen = S.bool("seen")
    d = S.vec("direction", 3)
    joint = frames[0].at(on[1])
    m = joint + d + robot_at if in_robot_frame else joint + d
    spin = Frame(S, "measured_rotation", "space", 3).a

    def position_filter():
        return S.mock(fields={"position": S.zero(3)}, methods={"run_once": lambda o, position: S.set(o, "position", position)})

    def rotation_filter():
        return S.mock(fields={"rotation": None}, methods={"run_once": lambda o, rotation: S.set(o, "rotation", rotation)})
    msgs = [S.mock(fields={"obs_id": 99, "position": robot_at, "rotation": None})]
    if seen:
        msgs.append(S.mock(fields={"obs_id": 17, "position": m, "rotation": spin}))
    a = S.new(HU, pose_updater=S.mock(methods={"get_messages": lambda o: msgs}),
              robot=S.mock(fields={"optitrack_id": 99, "pose": S.new(POSE, S.zero(3), None)}))
    S.m(a, "set_root", comps[0], name="limb0")
    for j in (1, 2):
        S.m(a, "add_component", comps[j], name=f"limb{j}", reference_position=own[j], parent_name=f"limb{j - 1}", parent_reference_position=on[j])
    S.m(S.get(a, "_graph"), "add_node", 1, update_id=17)
    S.set(a, "position_filters", [None, position_filter(), None])
    S.set(a, "orientation_filters", [None, rotation_filter(), None])
    S.ensure("tracked limbs", S.get(a, "optitrack_indeces") == [-1, 17, -1])
    x, y = S.at(d, 0), S.at(d, 1)
    if seen:
        S.assume(x * x + y * y > 1e-6)
    S.m(a, "update_using_optitrack", transform_to_robot_frame=in_robot_frame)
    pose = [S.get(c, "pose") for c in comps]
    R = [S.get(p, "orientation") for p in pose]
    pos = [S.get(p, "position") for p in pose]
    S.ensure("the root keeps its place", S.eq(pos[0], frames[0].p))
    for j in (1, 2):
        S.ensure("the limb is attached to its parent's joint", S.eq(S.m(R[j], "apply", own[j]) + pos[j], S.m(R[j - 1], "apply", on[j]) + pos[j - 1]))
    v = S.array([2, 3, 5])
    S.ensure("a limb that is not tracked turns with its parent", S.eq(S.m(R[2], "apply", v), S.m(R[1], "apply", v)))
    if seen:
        S.ensure("the limb's axis points to the tracked position", S.eq(S.m(R[1], "apply", S.array([0, 0, 1])) * S.norm(d), d))
    else:
        S.ensure("a limb out of sight turns with its parent", S.eq(S.m(R[1], "apply", v), frames[0].turn(v)))
