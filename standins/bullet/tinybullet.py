"""A tiny kinematic world standing in for the physics engine: bodies made of boxes and cylinders, no dynamics.

Poses are (point, xyzw quaternion) as in PyBullet, Euler angles are fixed-axis roll, pitch, yaw.
EVENTS records what was asked of the world; REACHABLE may be set to a predicate on tool poses.
"""
import itertools
import math
import random

import numpy as np

EVENTS = []
REACHABLE = [None]
PLANNER = [None]
GUI = [False]
HOOK = [None]
BODIES = {}
_next = itertools.count(1)


def log(*ev):
    EVENTS.append(ev)
    if HOOK[0] is not None:
        HOOK[0](ev)


def clear():
    """An empty world."""
    global _next
    BODIES.clear()
    EVENTS.clear()
    REACHABLE[0] = None
    PLANNER[0] = None
    GUI[0] = False
    HOOK[0] = None
    _next = itertools.count(1)


# ---------------------------------------------------------------- rotations
def quat_from_euler(e):
    r, p, y = [float(v) / 2 for v in e]
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return (sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy)


def matrix_from_quat(q):
    x, y, z, w = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def euler_from_matrix(R):
    sp = -R[2, 0]
    if abs(sp) < 1 - 1e-12:
        return (math.atan2(R[2, 1], R[2, 2]), math.asin(max(-1.0, min(1.0, sp))), math.atan2(R[1, 0], R[0, 0]))
    return (0.0, math.copysign(math.pi / 2, sp), math.atan2(-R[0, 1], R[1, 1]))


def euler_from_quat(q):
    return euler_from_matrix(matrix_from_quat(q))


def quat_from_matrix(R):
    return quat_from_euler(euler_from_matrix(np.asarray(R, float)[:3, :3]))


def quat_mul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return (aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz)


def slerp(q1, q2, f):
    q1, q2 = np.asarray(q1, float), np.asarray(q2, float)
    q1, q2 = q1 / np.linalg.norm(q1), q2 / np.linalg.norm(q2)
    d = float(np.dot(q1, q2))
    if d < 0:
        q2, d = -q2, -d
    if d > 1 - 1e-12:
        q = q1 + f * (q2 - q1)
    else:
        th = math.acos(min(1.0, d))
        q = (math.sin((1 - f) * th) * q1 + math.sin(f * th) * q2) / math.sin(th)
    return tuple(q / np.linalg.norm(q))


def mul(*poses):
    pos, q = np.asarray(poses[0][0], float), tuple(poses[0][1])
    for p2, q2 in poses[1:]:
        pos = pos + matrix_from_quat(q) @ np.asarray(p2, float)
        q = quat_mul(q, q2)
    return tuple(float(v) for v in pos), tuple(float(v) for v in q)


def inv(pose):
    q = pose[1]
    qi = (-q[0], -q[1], -q[2], q[3])
    return tuple(float(v) for v in -(matrix_from_quat(qi) @ np.asarray(pose[0], float))), qi


UNIT = ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0))


# ---------------------------------------------------------------- bodies
class Shape:
    def __init__(self, kind, dims, pose=UNIT):
        self.kind, self.dims, self.pose = kind, tuple(float(d) for d in dims), (tuple(float(v) for v in pose[0]), tuple(pose[1]))


class Body:
    def __init__(self, shapes, name="", kind="rigid", joints=0):
        self.id = next(_next)
        self.shapes = list(shapes)          # the k-th shape is link k - first (or the base, if there is one shape only)
        self.name, self.kind = name, kind
        self.pose = UNIT
        self.q = [0.0] * joints
        self.scale = 1.0
        BODIES[self.id] = self

    def tool(self):
        """The tool frame of an arm: its first six joints are the tool's position and angles."""
        q = self.q
        return mul(self.pose, ((q[0], q[1], q[2]), quat_from_euler(q[3:6])))

    def world_shapes(self, link=None):
        out = []
        for k, s in enumerate(self.shapes):
            if link is not None and link != k and not (link == -1):
                continue
            base = self.pose
            if self.kind == "rover":
                base = mul(self.pose, ((self.q[0], self.q[1], 0.0), quat_from_euler((0, 0, self.q[2]))))
            elif self.kind == "arm":
                base = self.tool()
            out.append((s, mul(base, s.pose)))
        return out


def body(b):
    return BODIES[b]


def support(shape, pose, d):
    R = matrix_from_quat(pose[1])
    l = R.T @ d
    if shape.kind == "box":
        p = np.where(l >= 0, shape.dims, np.negative(shape.dims))
    else:
        r, h = shape.dims
        n = math.hypot(l[0], l[1])
        p = np.array([r * l[0] / n if n > 1e-12 else r, r * l[1] / n if n > 1e-12 else 0.0, h / 2 if l[2] >= 0 else -h / 2])
    return np.asarray(pose[0]) + R @ p


def shape_aabb(shape, pose):
    lo, up = np.zeros(3), np.zeros(3)
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1
        up[i] = support(shape, pose, e)[i]
        lo[i] = support(shape, pose, -e)[i]
    return lo, up


def _closest(S):
    """Closest point to the origin of the hull of up to four points, and the points it needs."""
    best = None
    n = len(S)
    for m in range(1, 1 << n):
        idx = [i for i in range(n) if m >> i & 1]
        A = np.array([S[i] for i in idx])
        if len(idx) == 1:
            lam = np.array([1.0])
        else:
            D = A[1:] - A[0]
            G = D @ D.T
            try:
                t = np.linalg.solve(G, -D @ A[0])
            except np.linalg.LinAlgError:
                continue
            lam = np.concatenate([[1 - t.sum()], t])
        if lam.min() < -1e-12:
            continue
        p = lam @ A
        d = float(p @ p)
        if best is None or d < best[0] - 1e-18:
            best = (d, p, [S[i] for i in idx])
    return best


def shape_distance(sa, pa, sb, pb):
    """Distance of two convex shapes (0 if they meet), by Gilbert, Johnson and Keerthi."""
    d = np.asarray(pa[0], float) - np.asarray(pb[0], float)
    if not np.any(d):
        return 0.0
    v = support(sa, pa, -d) - support(sb, pb, d)
    S = [v]
    for _ in range(60):
        n2 = float(v @ v)
        if n2 < 1e-20:
            return 0.0
        w = support(sa, pa, -v) - support(sb, pb, v)
        if n2 - float(v @ w) <= 1e-10 * n2 or any(np.allclose(w, s, atol=1e-14) for s in S):
            return math.sqrt(n2)
        S.append(w)
        b = _closest(S)
        if b is None:
            return math.sqrt(n2)
        _, v, S = b
        if len(S) == 4:
            return 0.0
    return math.sqrt(float(v @ v))


def collide(a, b, max_distance=0.0, link_a=None, link_b=None):
    for sa, pa in BODIES[a].world_shapes(link_a):
        la, ua = shape_aabb(sa, pa)
        for sb, pb in BODIES[b].world_shapes(link_b):
            lb, ub = shape_aabb(sb, pb)
            if np.any(la > ub + max_distance) or np.any(lb > ua + max_distance):
                continue
            if shape_distance(sa, pa, sb, pb) <= max_distance:
                return True
    return False


RNG = random
