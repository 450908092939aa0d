"""Kinematic stand-in for pybullet_tools.utils (caelan's pybullet-planning): boxes, cylinders, rigid multi-box bodies and
toy robots whose tool pose is given by their first six joints.  Same conventions: poses are (point, quaternion xyzw)."""
import math, random
from collections import namedtuple
from itertools import count
import numpy as np
from stubgap import StubGap, module_getattr

__getattr__ = module_getattr("pybullet_tools.utils")
INF, PI = np.inf, np.pi
AABB = namedtuple("AABB", ["lower", "upper"])
OOBB = namedtuple("OOBB", ["aabb", "pose"])
GraspInfo = namedtuple("GraspInfo", ["get_grasps", "approach_pose"])
RGBA = namedtuple("RGBA", ["red", "green", "blue", "alpha"])
RED, GREEN, BLUE = RGBA(1, 0, 0, 1), RGBA(0, 1, 0, 1), RGBA(0, 0, 1, 1)
BLACK, WHITE, BROWN = RGBA(0, 0, 0, 1), RGBA(1, 1, 1, 1), RGBA(.4, .2, 0, 1)
TAN, GREY, YELLOW = RGBA(.8, .7, .5, 1), RGBA(.5, .5, .5, 1), RGBA(1, 1, 0, 1)
STATIC_MASS, BASE_LINK, NULL_ID, CLIENT = 0, -1, -1, 0
TURTLEBOT_URDF, DRAKE_IIWA_URDF, STOVE_URDF, SINK_URDF = "turtlebot.urdf", "iiwa14.urdf", "stove.urdf", "sink.urdf"

# ---- poses ---------------------------------------------------------------------------------------------------
def Point(x=0., y=0., z=0.):
    return np.array([x, y, z])

def Euler(roll=0., pitch=0., yaw=0.):
    return np.array([roll, pitch, yaw])

def quat_from_euler(euler):
    r, p, y = [float(v) / 2 for v in euler]
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return (sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy)

def matrix_from_quat(quat):
    x, y, z, w = np.asarray(quat, float) / np.linalg.norm(quat)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

def quat_from_matrix(m):
    m = np.asarray(m)[:3, :3]
    t = [1 + m[0, 0] - m[1, 1] - m[2, 2], 1 - m[0, 0] + m[1, 1] - m[2, 2], 1 - m[0, 0] - m[1, 1] + m[2, 2], 1 + m[0, 0] + m[1, 1] + m[2, 2]]
    i = int(np.argmax(t)); s = 2 * math.sqrt(t[i])
    if i == 3:
        q = ((m[2, 1] - m[1, 2]) / s, (m[0, 2] - m[2, 0]) / s, (m[1, 0] - m[0, 1]) / s, s / 4)
    elif i == 0:
        q = (s / 4, (m[0, 1] + m[1, 0]) / s, (m[0, 2] + m[2, 0]) / s, (m[2, 1] - m[1, 2]) / s)
    elif i == 1:
        q = ((m[0, 1] + m[1, 0]) / s, s / 4, (m[1, 2] + m[2, 1]) / s, (m[0, 2] - m[2, 0]) / s)
    else:
        q = ((m[0, 2] + m[2, 0]) / s, (m[1, 2] + m[2, 1]) / s, s / 4, (m[1, 0] - m[0, 1]) / s)
    return tuple(float(v) for v in q)

def euler_from_quat(quat):
    m = matrix_from_quat(quat)
    p = math.asin(max(-1., min(1., -m[2, 0])))
    if abs(m[2, 0]) < 1 - 1e-9:
        return (math.atan2(m[2, 1], m[2, 2]), p, math.atan2(m[1, 0], m[0, 0]))
    return (math.atan2(-m[1, 2], m[1, 1]), p, 0.)

def unit_point(): return (0., 0., 0.)
def unit_quat(): return quat_from_euler([0, 0, 0])
def unit_pose(): return (unit_point(), unit_quat())

def Pose(point=None, euler=None):
    point = Point() if point is None else point
    euler = Euler() if euler is None else euler
    return point, quat_from_euler(euler)

def point_from_pose(pose): return pose[0]
def quat_from_pose(pose): return pose[1]

def multiply(*poses):
    p, m = np.array(poses[0][0], float), matrix_from_quat(poses[0][1])
    for b in poses[1:]:
        p = p + m @ np.array(b[0], float)
        m = m @ matrix_from_quat(b[1])
    return tuple(float(v) for v in p), quat_from_matrix(m)

def invert(pose):
    m = matrix_from_quat(pose[1]).T
    return tuple(float(v) for v in -m @ np.array(pose[0], float)), quat_from_matrix(m)

def tform_point(pose, point): return tuple(np.array(pose[0], float) + matrix_from_quat(pose[1]) @ np.array(point, float))
def tform_points(pose, points): return [tform_point(pose, x) for x in points]

def convex_combination(x, y, w=0.5): return (1 - w) * np.array(x, float) + w * np.array(y, float)

def quat_combination(q1, q2, fraction=0.5):
    a, b = np.array(q1, float), np.array(q2, float)
    d = float(a @ b)
    if d < 0:
        b, d = -b, -d
    if d > 1 - 1e-12:
        q = a + fraction * (b - a)
    else:
        t = math.acos(d)
        q = (math.sin((1 - fraction) * t) * a + math.sin(fraction * t) * b) / math.sin(t)
    return tuple(q / np.linalg.norm(q))

def get_distance(p1, p2, **kw): return float(np.linalg.norm(np.array(p2, float) - np.array(p1, float)))
def quat_angle_between(q1, q2): return 2 * math.acos(min(1., abs(float(np.dot(q1, q2)))))

def interpolate_poses(pose1, pose2, pos_step_size=0.01, ori_step_size=PI / 16, num_steps=None):
    if num_steps is None:
        num_steps = max(2, int(math.ceil(max(get_distance(pose1[0], pose2[0]) / pos_step_size,
                                             quat_angle_between(pose1[1], pose2[1]) / ori_step_size))))
    yield pose1
    for w in np.linspace(0, 1, num=max(num_steps, 2), endpoint=True)[1:-1]:
        yield (convex_combination(pose1[0], pose2[0], w), quat_combination(pose1[1], pose2[1], w))
    yield pose2

# ---- boxes ---------------------------------------------------------------------------------------------------
def get_aabb_center(aabb): return (np.array(aabb[0]) + np.array(aabb[1])) / 2.
def get_aabb_extent(aabb): return np.array(aabb[1]) - np.array(aabb[0])
def aabb_from_extent_center(extent, center=None):
    extent = np.array(extent, float)
    center = np.zeros(len(extent)) if center is None else np.array(center, float)
    return AABB(center - extent / 2., center + extent / 2.)
def aabb_from_points(points): return AABB(np.min(points, axis=0), np.max(points, axis=0))
def aabb_empty(aabb): return bool(np.less(aabb[1], aabb[0]).any())
def sample_aabb(aabb): return np.random.uniform(np.array(aabb[0]), np.array(aabb[1]))
def get_aabb_vertices(aabb):
    import itertools
    return [tuple(aabb[i[k]][k] for k in range(len(aabb[0]))) for i in itertools.product(range(2), repeat=len(aabb[0]))]
def get_oobb_vertices(oobb): return tform_points(oobb[1], get_aabb_vertices(oobb[0]))
def aabb_overlap(a, b): return bool(np.less_equal(a[0], b[1]).all() and np.less_equal(b[0], a[1]).all())
def aabb_union(aabbs):
    return AABB(np.min([a[0] for a in aabbs], axis=0), np.max([a[1] for a in aabbs], axis=0))
def get_box_geometry(width, length, height): return {"shapeType": "box", "halfExtents": [width / 2., length / 2., height / 2.]}
def get_cylinder_geometry(radius, height): return {"shapeType": "cylinder", "radius": radius, "length": height}

# ---- the world -----------------------------------------------------------------------------------------------
class Body:
    def __init__(self, kind, half=(0., 0., 0.), pose=None, name="", joints=(), radius=None, links=()):
        self.kind, self.half, self.name, self.radius = kind, np.array(half, float), name, radius
        self.pose = pose or unit_pose()
        self.joints, self.q = list(joints), [0.] * len(joints)
        self.links = list(links)               # boxes (half, pose) rigidly attached

WORLD = {}
_ids = count(1)
LOG = []                                       # observers may look at what was executed

def add_body(b):
    i = next(_ids); WORLD[i] = b
    return i
def reset_world():
    WORLD.clear(); SHAPE.clear(); del LOG[:]
    GUI[0] = False

def create_box(w, l, h, mass=0, color=None, **kw): return add_body(Body("box", (w / 2., l / 2., h / 2.)))
def create_cylinder(radius, height, mass=0, color=None, **kw):
    return add_body(Body("cylinder", (radius, radius, height / 2.), radius=radius))
def create_sphere(radius, mass=0, color=None, **kw): return add_body(Body("sphere", (radius,) * 3, radius=radius))
ROBOT_HALF = {"turtlebot.urdf": (0.179, 0.179, 0.2)}
def load_model(path, pose=None, fixed_base=True, scale=1.):
    n = str(path).split("/")[-1]
    if n == TURTLEBOT_URDF:
        b = Body("robot", scale * np.array(ROBOT_HALF[n]), name="turtlebot", joints=["x", "y", "theta"])
    elif n == DRAKE_IIWA_URDF:
        b = Body("robot", (0.01,) * 3, name="iiwa14", joints=["j%d" % i for i in range(7)])
    elif n == STOVE_URDF:
        b = Body("box", (0.1, 0.1, 0.05), name="stove")
    else:
        b = Body("box", (0.5, 0.5, 0.005), name=n)
    if pose is not None:
        b.pose = pose
    return add_body(b)
load_pybullet = load_model
def get_bodies(): return list(WORLD)
def remove_body(b, **kw): WORLD.pop(b)
def get_body_name(b): return WORLD[b].name
get_name = get_body_name
def get_pose(b, **kw): return WORLD[b].pose
def set_pose(b, pose, **kw): WORLD[b].pose = (tuple(float(v) for v in pose[0]), tuple(float(v) for v in pose[1]))
def get_point(b, **kw): return get_pose(b)[0]
def get_quat(b, **kw): return get_pose(b)[1]
def get_euler(b, **kw): return euler_from_quat(get_quat(b))
def set_point(b, point): set_pose(b, (point, get_quat(b)))
def set_quat(b, quat): set_pose(b, (get_point(b), quat))
def set_euler(b, euler): set_quat(b, quat_from_euler(euler))
def body_pose(i):
    b = WORLD[i]
    if b.kind == "robot" and b.joints[:2] == ["x", "y"]:
        return multiply(b.pose, ((b.q[0], b.q[1], 0.), quat_from_euler([0, 0, b.q[2]])))
    return b.pose
SHAPE = {}                                     # body -> function giving its boxes where it is now
def boxes_of(i):
    b = WORLD[i]
    if i in SHAPE:
        return SHAPE[i](i)
    if b.links:
        return [(np.array(h), multiply(b.pose, q)) for h, q in b.links]
    return [(b.half, body_pose(i))]
def get_aabb(body, link=None, **kw):
    bs = boxes_of(body)
    if link is not None and WORLD[body].links and link >= 0:
        bs = bs[link:link + 1]
    return aabb_union([aabb_from_points(tform_points(q, get_aabb_vertices(AABB(-h, h)))) for h, q in bs])
def get_center_extent(body, **kw):
    a = get_aabb(body, **kw)
    return get_aabb_center(a), get_aabb_extent(a)
def get_oobb(body, **kw):
    return OOBB(AABB(-WORLD[body].half, WORLD[body].half), body_pose(body))
def get_aabbs(body, **kw): return [get_aabb(body)]
MIDDLE = {}                                    # body -> where its middle is in its own frame
def approximate_as_prism(body, body_pose=unit_pose(), **kw):
    h = WORLD[body].half
    a = aabb_from_points(tform_points(body_pose, [np.array(MIDDLE.get(body, (0., 0., 0.))) + v for v in get_aabb_vertices(AABB(-h, h))]))
    return get_aabb_center(a), get_aabb_extent(a)
def stable_z(body, surface, **kw): return float(get_aabb(surface)[1][2] - get_aabb(body)[0][2] + get_point(body)[2])
def stable_z_on_aabb(body, aabb): return float(aabb[1][2] - get_aabb(body)[0][2] + get_point(body)[2])
def boxes_apart(h1, q1, h2, q2):
    a, b = matrix_from_quat(q1[1]), matrix_from_quat(q2[1])
    d = np.array(q2[0], float) - np.array(q1[0], float)
    ax = [a[:, i] for i in range(3)] + [b[:, i] for i in range(3)] + [np.cross(a[:, i], b[:, j]) for i in range(3) for j in range(3)]
    gap = -INF
    for x in ax:
        n = np.linalg.norm(x)
        if n > 1e-9:
            x = x / n
            gap = max(gap, abs(d @ x) - np.abs(x @ a) @ h1 - np.abs(x @ b) @ h2)
    return gap
def pairwise_collision(b1, b2, max_distance=0., **kw):
    return min(boxes_apart(h1, q1, h2, q2) for h1, q1 in boxes_of(b1) for h2, q2 in boxes_of(b2)) <= max_distance - 1e-12
def is_placement(body, surface, **kw):
    a, s = get_aabb(body), get_aabb(surface)
    return bool(abs(a[0][2] - s[1][2]) < 5e-3 and (np.array(s[0])[:2] <= np.array(a[0])[:2]).all() and (np.array(a[1])[:2] <= np.array(s[1])[:2]).all())
def sample_placement(top_body, bottom_body, top_pose=unit_pose(), bottom_link=None, percent=1.0, max_attempts=50, epsilon=1e-3, theta=None, scale=1., **kw):
    a = get_aabb(bottom_body, link=bottom_link)
    for _ in range(max_attempts):
        t = random.uniform(-PI, PI) if theta is None else theta
        set_pose(top_body, multiply(Pose(euler=Euler(yaw=t)), top_pose))
        c, e = get_center_extent(top_body)
        lo, hi = np.array(a[0])[:2] + e[:2] / 2, np.array(a[1])[:2] - e[:2] / 2
        if (hi < lo).any():
            continue
        m = (lo + hi) / 2
        x, y = np.random.uniform(m - scale * (m - lo), m + scale * (hi - m))
        z = float(a[1][2] + e[2] / 2 + epsilon)
        pose = multiply(Pose(np.array([x, y, z]) + np.array(get_point(top_body)) - c, Euler(yaw=t)), top_pose)
        set_pose(top_body, pose)
        return pose
    return None

# ---- robots --------------------------------------------------------------------------------------------------
def joint_from_name(body, name): return WORLD[body].joints.index(name)
def joints_from_names(body, names): return [joint_from_name(body, n) for n in names]
def get_joints(body): return list(range(len(WORLD[body].joints)))
def get_movable_joints(body, **kw): return get_joints(body)
def get_joint_positions(body, joints): return tuple(WORLD[body].q[j] for j in joints)
def get_configuration(body): return get_joint_positions(body, get_joints(body))
def set_joint_positions(body, joints, values):
    assert len(joints) == len(values)
    for j, v in zip(joints, values):
        WORLD[body].q[j] = float(v)
    LOG.append(("q", body, tuple(float(v) for v in values)))
def set_configuration(body, values): set_joint_positions(body, get_joints(body), values)
def link_from_name(body, name): return 7
def child_link_from_joint(joint): return joint
def get_moving_links(body, joints): return [0]
def flatten_links(body, links=None): return {(body, frozenset([0]))}
def get_link_pose(body, link):
    q = WORLD[body].q
    if len(q) >= 6:
        return multiply(WORLD[body].pose, ((q[0], q[1], q[2]), quat_from_euler(q[3:6])))
    return body_pose(body)
REACH = [None]                                # optional predicate: is this tool pose reachable
IK = [None]                                   # optional script: (robot, link, pose) -> joint values or None
def inverse_kinematics(robot, link, target_pose, **kw):
    if IK[0] is not None:
        q = IK[0](robot, link, target_pose)
        if q is not None:
            for j, v in enumerate(q):
                WORLD[robot].q[j] = float(v)
        return q
    if REACH[0] is not None and not REACH[0](target_pose):
        return None
    p = multiply(invert(WORLD[robot].pose), target_pose)
    q = tuple(p[0]) + tuple(euler_from_quat(p[1])) + (0.,)
    for j, v in enumerate(q):
        WORLD[robot].q[j] = float(v)
    return q
def end_effector_from_body(body_pose, grasp_pose): return multiply(body_pose, invert(grasp_pose))
def approach_from_grasp(approach_pose, end_effector_pose): return multiply(approach_pose, end_effector_pose)
def get_sample_fn(body, joints, **kw): return lambda: tuple(random.uniform(-1, 1) for _ in joints)
def refine_path(body, joints, waypoints, num_steps):
    out = []
    for a, b in zip(waypoints, waypoints[1:]):
        for i in range(num_steps + 1):
            out.append(tuple(convex_combination(a, b, i / float(num_steps + 1))))
    return out + [tuple(waypoints[-1])] if len(waypoints) else out
def get_refine_fn(body, joints, num_steps=0): return lambda a, b: iter(refine_path(body, joints, [a, b], num_steps)[1:])
PLAN = [lambda body, joints, q: [get_joint_positions(body, joints), tuple(q)]]
ASKED = {}                                    # arguments of the planner's last call
def plan_joint_motion(body, joints, end_conf, obstacles=[], attachments=[], self_collisions=True, **kw):
    ASKED.clear()
    ASKED.update(kw, obstacles=obstacles, attachments=attachments, self_collisions=self_collisions, wheels=False)
    return PLAN[0](body, joints, end_conf)
def plan_nonholonomic_motion(body, joints, end_conf, obstacles=[], attachments=[], self_collisions=True, **kw):
    ASKED.clear()
    ASKED.update(kw, obstacles=obstacles, attachments=attachments, self_collisions=self_collisions, wheels=True)
    return PLAN[0](body, joints, end_conf)
plan_direct_joint_motion = plan_joint_motion
class Attachment:
    def __init__(self, parent, parent_link, grasp_pose, child):
        self.parent, self.parent_link, self.grasp_pose, self.child = parent, parent_link, grasp_pose, child
    def assign(self):
        pose = multiply(get_link_pose(self.parent, self.parent_link), self.grasp_pose)
        set_pose(self.child, pose)
        LOG.append(("attached", self.child))
        return pose
def add_fixed_constraint(body, robot, link=-1, **kw): LOG.append(("fix", body, robot, link))
def remove_fixed_constraint(body, robot, link=-1): LOG.append(("free", body, robot, link))
def joint_controller(body, joints, target, **kw):
    LOG.append(("control", body, tuple(target)))
    for _ in range(1):
        set_joint_positions(body, joints, target)
        yield target

# ---- the rest ------------------------------------------------------------------------------------------------
def flatten(xss): return [x for xs in xss for x in xs]
def _nothing(*a, **k): return None
enable_gravity = disable_gravity = enable_real_time = disable_real_time = step_simulation = wait_for_duration = wait_if_gui = _nothing
wait_for_user = wait_for_interrupt = dump_world = dump_body = set_default_camera = draw_pose = draw_aabb = disconnect = _nothing
set_camera_pose = add_data_path = set_color = _nothing
GUI = [False]
def connect(use_gui=True, **k):
    GUI[0] = bool(use_gui)
    return CLIENT
def has_gui(*a): return GUI[0]
def str_from_object(o): return str(o)
class _Ctx:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def restore(self): pass
    def save(self): pass
Profiler = LockRenderer = HideOutput = _Ctx
class WorldSaver:
    """Poses and joint positions of all bodies there are; leaving a block restores them."""
    def __init__(self, bodies=None, **k):
        self.bodies = bodies
        self.save()
    def save(self):
        self.saved = {b: (x.pose, list(x.q)) for b, x in WORLD.items() if self.bodies is None or b in self.bodies}
    def restore(self):
        for b, (pose, q) in self.saved.items():
            WORLD[b].pose, WORLD[b].q[:] = pose, q
    def __enter__(self):
        self.save()
    def __exit__(self, *a):
        self.restore()
