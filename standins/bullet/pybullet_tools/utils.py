"""Stand-in for pybullet_tools.utils on top of the tiny kinematic world."""
import math
import random
from collections import namedtuple

import numpy as np
import tinybullet as tb

INF = np.inf
PI = np.pi
GREY, TAN, YELLOW, GREEN = (.5, .5, .5, 1), (.8, .6, .4, 1), (1, 1, 0, 1), (0, 1, 0, 1)
TURTLEBOT_URDF, DRAKE_IIWA_URDF, STOVE_URDF = "turtlebot", "iiwa", "stove"
BASE_LINK = -1
AABB = namedtuple("AABB", ["lower", "upper"])
OOBB = namedtuple("OOBB", ["aabb", "pose"])
GraspInfo = namedtuple("GraspInfo", ["get_grasps", "approach_pose"])
TURTLEBOT_RADIUS = 0.179


# ------------------------------------------------------------------ poses
def Point(x=0., y=0., z=0.):
    return np.array([x, y, z])


def Euler(roll=0., pitch=0., yaw=0.):
    return np.array([roll, pitch, yaw])


def Pose(point=None, euler=None):
    point = Point() if point is None else point
    euler = Euler() if euler is None else euler
    return point, tb.quat_from_euler(euler)


quat_from_euler, euler_from_quat = tb.quat_from_euler, tb.euler_from_quat
matrix_from_quat, quat_from_matrix = tb.matrix_from_quat, tb.quat_from_matrix


def unit_point():
    return 0., 0., 0.


def unit_quat():
    return 0., 0., 0., 1.


def unit_pose():
    return unit_point(), unit_quat()


def multiply(*poses):
    return tb.mul(*poses)


def invert(pose):
    return tb.inv(pose)


def point_from_pose(pose):
    return pose[0]


def quat_from_pose(pose):
    return pose[1]


def euler_from_pose(pose):
    return euler_from_quat(pose[1])


def tform_point(affine, point):
    return multiply(affine, (point, unit_quat()))[0]


def apply_affine(affine, points):
    return [tform_point(affine, p) for p in points]


def interpolate_poses(pose1, pose2, num_steps=None, pos_step_size=0.01, ori_step_size=np.pi / 16):
    (p1, q1), (p2, q2) = pose1, pose2
    p1, p2 = np.asarray(p1, float), np.asarray(p2, float)
    if num_steps is None:
        ang = 2 * math.acos(min(1.0, abs(float(np.dot(q1, q2)))))
        num_steps = max(2, int(math.ceil(max(np.linalg.norm(p2 - p1) / pos_step_size, ang / ori_step_size))))
    for i in range(num_steps):
        f = i / num_steps
        yield (1 - f) * p1 + f * p2, tb.slerp(q1, q2, f)
    yield pose2


def end_effector_from_body(body_pose, grasp_pose):
    return multiply(body_pose, invert(grasp_pose))


def body_from_end_effector(end_effector_pose, grasp_pose):
    return multiply(end_effector_pose, grasp_pose)


def approach_from_grasp(approach_pose, end_effector_pose):
    return multiply(approach_pose, end_effector_pose)


# ------------------------------------------------------------------ boxes
def get_aabb_extent(aabb):
    lower, upper = aabb
    return np.array(upper) - np.array(lower)


def get_aabb_center(aabb):
    lower, upper = aabb
    return (np.array(lower) + np.array(upper)) / 2.


def aabb_from_extent_center(extent, center=None):
    extent = np.array(extent)
    center = np.zeros(len(extent)) if center is None else np.array(center)
    return AABB(center - extent / 2., center + extent / 2.)


def get_aabb_vertices(aabb):
    d = len(aabb[0])
    return [tuple(aabb[(i >> k) & 1][k] for k in range(d)) for i in range(2 ** d)]


def get_oobb_vertices(oobb):
    aabb, pose = oobb
    return apply_affine(pose, get_aabb_vertices(aabb))


def aabb_empty(aabb):
    lower, upper = aabb
    return bool(np.any(np.array(lower) > np.array(upper)))


def aabb_overlap(aabb1, aabb2):
    (lower1, upper1), (lower2, upper2) = aabb1, aabb2
    return bool(np.less_equal(lower1, upper2).all() and np.less_equal(lower2, upper1).all())


def sample_aabb(aabb):
    lower, upper = aabb
    return np.array([random.uniform(a, b) for a, b in zip(lower, upper)])


def get_aabb(body, link=None, **kw):
    boxes = [tb.shape_aabb(s, p) for s, p in tb.body(body).world_shapes(link)]
    return AABB(np.min([b[0] for b in boxes], axis=0), np.max([b[1] for b in boxes], axis=0))


def get_center_extent(body, **kw):
    aabb = get_aabb(body, **kw)
    return get_aabb_center(aabb), get_aabb_extent(aabb)


def approximate_as_prism(body, body_pose=None, **kw):
    body_pose = unit_pose() if body_pose is None else body_pose
    b = tb.body(body)
    old = b.pose
    b.pose = (tuple(body_pose[0]), tuple(body_pose[1]))
    try:
        return get_center_extent(body)
    finally:
        b.pose = old


def get_oobb(body, link=None, **kw):
    b = tb.body(body)
    old = b.pose
    b.pose = tb.UNIT
    try:
        aabb = get_aabb(body, link)
    finally:
        b.pose = old
    return OOBB(aabb, old)


# ------------------------------------------------------------------ bodies
def get_box_geometry(width, length, height):
    return {"shapeType": 3, "halfExtents": [width / 2., length / 2., height / 2.]}


def create_box(w, l, h, mass=0, color=None, **kw):
    return tb.Body([tb.Shape("box", (w / 2., l / 2., h / 2.))], name="box").id


def create_cylinder(radius, height, mass=0, color=None, **kw):
    return tb.Body([tb.Shape("cyl", (radius, height))], name="cylinder").id


def load_model(name, pose=None, fixed_base=True, scale=1., **kw):
    if name == TURTLEBOT_URDF:
        b = tb.Body([tb.Shape("cyl", (TURTLEBOT_RADIUS * scale, 0.4 * scale), ((0, 0, 0.2 * scale), (0, 0, 0, 1)))], "turtlebot", "rover", 3)
        b.scale = scale
    elif name == DRAKE_IIWA_URDF:
        b = tb.Body([tb.Shape("box", (.005, .005, .005))], "iiwa14", "arm", 7)
    elif name == STOVE_URDF:
        b = tb.Body([tb.Shape("box", (.3, .4, .05), ((0, 0, -.05), (0, 0, 0, 1)))], "stove")
    else:
        b = tb.Body([tb.Shape("box", (1, 1, .005), ((0, 0, -.105), (0, 0, 0, 1)))], "floor")
    if pose is not None:
        set_pose(b.id, pose)
    return b.id


def get_bodies():
    return sorted(tb.BODIES)


def remove_body(body):
    tb.log("remove", body)
    del tb.BODIES[body]


def get_body_name(body):
    return tb.body(body).name


def set_pose(body, pose, **kw):
    tb.body(body).pose = (tuple(float(v) for v in pose[0]), tuple(float(v) for v in pose[1]))


def get_pose(body, **kw):
    return tb.body(body).pose


def get_point(body, **kw):
    return get_pose(body)[0]


def get_quat(body, **kw):
    return get_pose(body)[1]


def set_point(body, point, **kw):
    set_pose(body, (point, get_pose(body)[1]))


def set_quat(body, quat, **kw):
    set_pose(body, (get_pose(body)[0], quat))


def stable_z(body, surface, surface_link=None):
    _, extent = get_center_extent(body)
    lower = get_aabb(body).lower[2]
    return get_aabb(surface, surface_link).upper[2] + (get_point(body)[2] - lower) + 0 * extent[2]


# ------------------------------------------------------------------ joints and links
_JOINTS = {"rover": ["x", "y", "theta"], "arm": ["j%d" % i for i in range(7)]}


def joint_from_name(body, name):
    return _JOINTS[tb.body(body).kind].index(name)


def joints_from_names(body, names):
    return tuple(joint_from_name(body, n) for n in names)


def get_movable_joints(body):
    return list(range(len(tb.body(body).q)))


def get_joint_positions(body, joints):
    return tuple(tb.body(body).q[j] for j in joints)


def get_configuration(body):
    return get_joint_positions(body, get_movable_joints(body))


def set_joint_positions(body, joints, values):
    assert len(joints) == len(values)
    for j, v in zip(joints, values):
        tb.body(body).q[j] = float(v)
    tb.log("joints", body, tuple(joints), tuple(float(v) for v in values))


def child_link_from_joint(joint):
    return joint


def get_moving_links(body, joints):
    return list(joints)


def flatten_links(body, links=None):
    return (body, tuple(links or ()))


def link_from_name(body, name):
    if tb.body(body).kind != "arm":
        raise ValueError(name)
    return 6


def get_link_pose(body, link):
    b = tb.body(body)
    return b.tool() if b.kind == "arm" else get_pose(body)


def get_sample_fn(body, joints, **kw):
    def fn():
        return tuple([random.uniform(-1, 1) for _ in range(3)] + [random.uniform(-.2, .2) for _ in range(len(joints) - 3)])
    return fn


def inverse_kinematics(robot, link, target_pose, **kw):
    """The arm's configuration with its tool at the pose (and puts it there), or None where it cannot reach."""
    b = tb.body(robot)
    if np.linalg.norm(target_pose[0]) > 5 or (tb.REACHABLE[0] is not None and not tb.REACHABLE[0](target_pose)):
        tb.log("ik", None)
        return None
    p, q = multiply(invert(b.pose), target_pose)
    conf = tuple(p) + tuple(float(v) for v in euler_from_quat(q)) + (0.0,)
    tb.log("ik", conf)
    b.q = list(conf)
    return conf


class Attachment(object):
    def __init__(self, parent, parent_link, grasp_pose, child):
        self.parent, self.parent_link, self.grasp_pose, self.child = parent, parent_link, grasp_pose, child

    @property
    def bodies(self):
        return {self.child, self.parent}

    def assign(self):
        pose = body_from_end_effector(get_link_pose(self.parent, self.parent_link), self.grasp_pose)
        set_pose(self.child, pose)
        return pose


def pairwise_collision(body1, body2, max_distance=0., **kw):
    hit = tb.collide(body1, body2, max_distance)
    tb.log("pair", body1, body2, max_distance, hit)
    return hit


def get_distance(p1, p2):
    return float(np.linalg.norm(np.array(p2) - np.array(p1)))


def get_pairs(seq):
    seq = list(seq)
    return list(zip(seq[:-1], seq[1:]))


def flatten(it):
    return (x for y in it for x in y)


def get_difference_fn(body, joints):
    return lambda q2, q1: tuple(np.array(q2) - np.array(q1))


def get_refine_fn(body, joints, num_steps=0):
    difference_fn = get_difference_fn(body, joints)
    num_steps = num_steps + 1

    def fn(q1, q2):
        q = q1
        for i in range(num_steps):
            q = tuple((1. / (num_steps - i)) * np.array(difference_fn(q2, q)) + q)
            yield q
    return fn


def refine_path(body, joints, waypoints, num_steps):
    refine_fn = get_refine_fn(body, joints, num_steps)
    out = []
    for v1, v2 in get_pairs(waypoints):
        out.extend(refine_fn(v1, v2))
    return out


def plan_joint_motion(body, joints, end_conf, obstacles=(), attachments=(), self_collisions=True, **kw):
    start = get_joint_positions(body, joints)
    tb.log("plan", body, tuple(joints), start, tuple(end_conf), tuple(obstacles), tuple(attachments), self_collisions,
           tuple((b, tb.body(b).pose) for b in sorted(set(obstacles))))
    if tb.PLANNER[0] is not None:
        return tb.PLANNER[0](body, joints, start, tuple(end_conf), obstacles, attachments)
    return [tuple(start), tuple(end_conf)]


plan_direct_joint_motion = plan_joint_motion
plan_nonholonomic_motion = plan_joint_motion


# ------------------------------------------------------------------ placements
def sample_placement(top_body, bottom_body, bottom_link=None, top_pose=None, percent=1.0, max_attempts=50, epsilon=1e-3,
                     theta=None, scale=1.0, **kw):
    top_pose = unit_pose() if top_pose is None else top_pose
    bottom = get_aabb(bottom_body, bottom_link)
    for _ in range(max_attempts):
        th = random.uniform(-np.pi, np.pi) if theta is None else theta
        rotation = Euler(yaw=th)
        set_pose(top_body, multiply(Pose(euler=rotation), top_pose))
        center, extent = get_center_extent(top_body)
        lower = (np.array(bottom[0]) + percent * extent / 2)[:2]
        upper = (np.array(bottom[1]) - percent * extent / 2)[:2]
        if aabb_empty(AABB(lower, upper)):
            continue
        mid = (lower + upper) / 2
        xy = mid + scale * (sample_aabb(AABB(lower, upper)) - mid)
        z = (bottom[1] + extent / 2.)[2] + epsilon
        point = np.array([xy[0], xy[1], z]) + (np.array(get_point(top_body)) - center)
        pose = multiply(Pose(point, rotation), top_pose)
        set_pose(top_body, pose)
        return pose
    return None


def is_placement(body, surface, epsilon=1e-2, **kw):
    a, s = get_aabb(body), get_aabb(surface)
    return bool(np.all(s.lower[:2] <= a.lower[:2]) and np.all(a.upper[:2] <= s.upper[:2]) and abs(a.lower[2] - s.upper[2]) < epsilon)


# ------------------------------------------------------------------ the rest of the simulator
def add_fixed_constraint(body, robot, link, **kw):
    tb.log("fix", body, robot, link)


def remove_fixed_constraint(body, robot, link):
    tb.log("unfix", body, robot, link)


def joint_controller(body, joints, values, **kw):
    set_joint_positions(body, joints, values)
    yield values


def _note(name):
    def fn(*a, **k):
        tb.log(name)
    return fn


enable_gravity, disable_real_time, enable_real_time = _note("gravity"), _note("not-real-time"), _note("real-time")
step_simulation, set_default_camera, dump_world = _note("step"), _note("camera"), _note("dump")
wait_if_gui, wait_for_user, disconnect = _note("wait"), _note("wait"), _note("disconnect")


def wait_for_duration(duration):
    tb.log("duration", duration)


def connect(use_gui=False, **kw):
    tb.log("connect", use_gui)
    tb.GUI[0] = bool(use_gui)


def has_gui():
    return tb.GUI[0]


def str_from_object(o):
    return str(o)


class WorldSaver(object):
    def __init__(self, **kw):
        self.state = {i: (b.pose, list(b.q)) for i, b in tb.BODIES.items()}

    def restore(self):
        for i, (p, q) in self.state.items():
            if i in tb.BODIES:
                tb.BODIES[i].pose, tb.BODIES[i].q = p, list(q)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.restore()


class LockRenderer(object):
    def __init__(self, lock=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Profiler(LockRenderer):
    def __init__(self, *a, **k):
        pass
