"""Motion checks of the two robot experiments (C40, C41), path interpolation (C42) and the motion streams (C43)."""
import itertools
import math
import random

import numpy as np
from checks.tamp_load import load
from checks.tamp_geom import gaps, rot
from rtm.core import StepBudgetExceeded, step_budget

STEP2 = 0.08          # documented checking steps: metres per axis, and 6-D norm
STEP6 = 0.03


# ============================================================================ planar oracle
def hull2(P):
    P = sorted(set(map(tuple, np.asarray(P, float).tolist())))

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(p)
        return out
    return np.array(half(P)[:-1] + half(P[::-1])[:-1])


class Planar:
    """Where a footprint that only moves, without turning, meets fixed convex obstacles."""

    def __init__(self, robot_verts, obstacle_verts):
        self.polys = []
        for ov in obstacle_verts:
            M = hull2([np.asarray(o) - np.asarray(r) for o in ov for r in robot_verts])   # placements that touch
            E = np.roll(M, -1, 0) - M
            L = np.linalg.norm(E, axis=1)
            keep = L > 1e-12
            N = np.stack([E[:, 1], -E[:, 0]], 1)[keep] / L[keep][:, None]
            self.polys.append((M, N, (N * M[keep]).sum(1)))

    def stretches(self, s, g, grow):
        """[t0, t1] per obstacle during which the placement is inside the obstacle grown by `grow`."""
        s, d = np.asarray(s, float), np.asarray(g, float) - np.asarray(s, float)
        out = []
        for _, N, c in self.polys:
            a, b = N @ s - c - grow, N @ d
            t0, t1 = 0.0, 1.0
            for ai, bi in zip(a, b):        # ai + t bi <= 0
                if bi == 0:
                    if ai > 0:
                        t0 = 2.0
                elif bi > 0:
                    t1 = min(t1, -ai / bi)
                else:
                    t0 = max(t0, -ai / bi)
            if t0 <= t1:
                out.append((t0, t1))
        return out

    def verdict(self, s, g, tol=1e-7):
        """'free', 'hit' (the check has to notice) or None (it may or may not)."""
        if not self.stretches(s, g, tol):
            return "free"
        far = float(np.max(np.abs(np.asarray(g) - np.asarray(s))))
        for t0, t1 in self.stretches(s, g, -tol):
            if t0 <= 0 or t1 >= 1 or (t1 - t0) * far > STEP2 + 1e-6:
                return "hit"
        return None

    def inside(self, p, tol=1e-7):
        return bool(self.stretches(p, p, -tol))


def flat(pbu, oobb):
    return hull2(np.array(pbu.get_oobb_vertices(oobb))[:, :2].round(12))


def planar_world(rng, pbu):
    p = rng.random()
    m = int(rng.integers(1, 6)) if p < .85 else int(rng.integers(8, 26)) if p < .97 else int(rng.integers(30, 120))
    obs = []
    for _ in range(m):
        ext = np.append(10.0 ** rng.uniform(-1.3, .2 if m < 30 else -.7, 2), .1)
        yaw = float(rng.uniform(-math.pi, math.pi)) if rng.random() < .7 else 0.0
        obs.append(pbu.OOBB(pbu.aabb_from_extent_center(ext), pbu.Pose(np.append(rng.uniform(-1.5, 1.5, 2), .05), pbu.Euler(yaw=yaw))))
    ext = np.append(10.0 ** rng.uniform(-2, -.3, 2), .1)
    mid = None if rng.random() < .6 else np.append(rng.uniform(-.3, .3, 2), 0.0)
    return obs, pbu.aabb_from_extent_center(ext, mid)


def planar_motion(rng, oracle):
    """Random motions, and ones that clip a corner by a little more than the checking step."""
    s = rng.uniform(-2, 2, 2)
    kind = str(rng.choice(["any", "any", "short", "none", "clip", "clip", "end", "axis", "long"]))
    if kind == "none":
        return s, s.copy(), kind
    if kind == "short":
        return s, s + rng.normal(size=2) * .05, kind
    if kind == "axis":
        g = s.copy()
        g[int(rng.integers(2))] += float(rng.normal())
        return s, g, kind
    M, N, c = oracle.polys[int(rng.integers(len(oracle.polys)))]
    if kind == "end":       # one end just inside or just outside
        i = int(rng.integers(len(N)))
        w = rng.random()
        p = M[i] * w + M[(i + 1) % len(M)] * (1 - w)
        n = (M.mean(0) - p)
        p = p + n * float(rng.choice([1e-4, 1e-3, -1e-3, .02]))
        q = p + rng.normal(size=2) * 10.0 ** float(rng.uniform(-2.5, .3))
        return (p, q, kind) if rng.random() < .5 else (q, p, kind)
    long = kind == "long"           # from far away to far away
    if kind in ("clip", "long"):
        th = float(rng.uniform(0, 2 * math.pi))
        d = np.array([math.cos(th), math.sin(th)])
        n = np.array([-d[1], d[0]])
        off = M @ n
        lo, hi = off.max(), off.mean()
        want = float(rng.uniform(.0805, .13))

        def chord(o):
            L = Planar.__new__(Planar)
            L.polys = [(M, N, c)]
            a = n * o + d * (-20)
            st = L.stretches(a, a + 40 * d, 0.0)
            return (st[0], a) if st else (None, a)
        for _ in range(40):
            mid = (lo + hi) / 2
            st, a = chord(mid)
            if st and (st[1] - st[0]) * 40 * np.abs(d).max() > want:
                hi = mid
            else:
                lo = mid
        st, a = chord(hi)
        if not st:
            return s, rng.uniform(-2, 2, 2), "any"
        m = a + 40 * d * (st[0] + st[1]) / 2
        back, forth = rng.uniform(.05, 1.5, 2) if not long else 10.0 ** rng.uniform(0, 1.1, 2)
        return m - d * back, m + d * forth, kind
    return s, rng.uniform(-2, 2, 2), kind


def uniform_in(mon, pts, lo, hi, kind, **detail):
    """All inside, and spread evenly: a test that fails by chance once in 1e10 runs."""
    pts, lo, hi = np.asarray(pts, float), np.asarray(lo, float), np.asarray(hi, float)
    if not mon.expect(pts.shape[1:] == lo.shape, kind + "-shape", shape=pts.shape, **detail):
        return
    w = hi - lo
    bad = (pts < lo - 1e-9).any(1) | (pts > hi + 1e-9).any(1)
    if bad.any():
        mon.violate(kind + "-outside", sample=pts[bad][0], lower=lo, upper=hi, **detail)
        return
    n = len(pts)
    for k in range(len(lo)):
        if w[k] < 1e-9:
            continue
        cells = np.bincount(np.minimum((4 * (pts[:, k] - lo[k]) / w[k]).astype(int), 3), minlength=4)
        # Hoeffding for each of four cells
        if np.max(np.abs(cells / n - .25)) > math.sqrt(math.log(2 / 1e-12) / (2 * n)):
            mon.violate(kind + "-not-uniform", axis=k, cells=cells, **detail)
    mon.count("samples_judged", n)


def planar_motions(mon):
    import pybullet_tools.utils as pbu
    st = load("turtlebot_move", "streams")
    rng = mon.rng("planar-motions")
    for w in range(mon.n(480, 6000)):
        obs, robot = planar_world(rng, pbu)
        random.seed(int(rng.integers(2 ** 31)))
        env = st.BagOfBoundingBoxes(seed=int(rng.integers(100)), robot_shape=robot, obstacle_oobbs=obs, custom_limits={})
        rv = hull2(np.array(pbu.get_aabb_vertices(robot))[:, :2])
        oracle = Planar(rv, [flat(pbu, o) for o in obs])
        for b in range(6):
            k = 0 if (w % 7 == 0 and b == 0) else int(rng.choice([1, 1, 2, 5, 12])) if w % 20 != 3 or b else int(rng.integers(260, 700))
            mon.peak("largest_batch", k)
            M = [planar_motion(rng, oracle) for _ in range(k)]
            S = np.array([m[0] for m in M]).reshape(k, 2)
            G = np.array([m[1] for m in M]).reshape(k, 2)
            S0, G0 = S.copy(), G.copy()
            with mon.guard("motion-check-failed", start=S, goal=G):
                got = np.asarray(env.is_motion_valid(S, G))
                mon.count("batches")
                if not mon.expect(got.shape == (k,) and got.dtype == bool, "verdict-shape", shape=got.shape, rows=k, dtype=str(got.dtype)):
                    continue
                mon.expect(np.array_equal(S, S0) and np.array_equal(G, G0), "argument-changed")
                mon.count("empty_batches", k == 0)
                for r in range(k):
                    v = oracle.verdict(S[r], G[r])
                    mon.case((S[r].tobytes(), G[r].tobytes(), w))
                    mon.count("rows_" + str(v))
                    if v == "hit" and M[r][2] in ("clip", "end", "long"):
                        mon.count("hits_" + M[r][2])
                    if k > 1 and v == "free" and any(oracle.verdict(S[q], G[q]) == "hit" for q in range(k) if q != r):
                        mon.count("free_beside_hit")
                    if v is not None:
                        mon.expect(bool(got[r]) == (v == "free"), "motion-verdict", start=S[r], goal=G[r], got=bool(got[r]), expected=v, rows=k,
                                   robot=robot, obstacles=obs, how=M[r][2])
                        mon.sample({"start": S[r], "goal": G[r], "verdict": v, "how": M[r][2]})
        if w % 8 == 0:
            V = np.concatenate([np.array(pbu.get_oobb_vertices(o)) for o in obs])
            pts = [env.sample_from_env() for _ in range(400)]
            uniform_in(mon, pts, V[:, :2].min(0), V[:, :2].max(0), "sample", world=w)
        if mon.hurry():
            break


# ============================================================================ spatial oracle
class Spatial:
    def __init__(self, half, obstacles, tb):
        """half extents of the moving box; obstacles: (centre, half extents, rotation)."""
        self.h, self.obs, self.tb = np.asarray(half, float), obstacles, tb

    def poses(self, s, g, ts):
        q1, q2 = self.tb.quat_from_euler(s[3:]), self.tb.quat_from_euler(g[3:])
        P = np.array([(1 - t) * s[:3] + t * g[:3] for t in ts])
        R = np.stack([self.tb.matrix_from_quat(self.tb.slerp(q1, q2, t)) for t in ts])
        ang = 2 * math.acos(min(1.0, abs(float(np.dot(q1, q2)))))
        return P, R, ang

    def gap(self, P, R):
        n = len(P)
        out = np.full((len(self.obs), n), np.inf)
        for k, (c, h, O) in enumerate(self.obs):
            out[k] = gaps(np.tile(c, (n, 1)), np.tile(h, (n, 1)), np.tile(O, (n, 1, 1)), P, np.tile(self.h, (n, 1)), R).max(1)
        return out

    def verdict(self, s, g, tol=1e-7, fine=.1):
        s, g = np.asarray(s, float), np.asarray(g, float)
        D = float(np.linalg.norm(g - s))
        n = max(1, int(math.ceil(D / (STEP6 * fine))))
        ts = np.linspace(0, 1, n + 1)
        P, R, ang = self.poses(s, g, ts)
        G = self.gap(P, R)
        reach = (np.linalg.norm(g[:3] - s[:3]) + ang * np.linalg.norm(self.h)) / n / 2 + tol   # how far a point moves in half a step
        if (G > reach).all():
            return "free"
        if (G[:, [0, -1]] < -tol).any():
            return "hit"
        for row in G < -reach:          # one obstacle is hit all along
            run = best = 0
            for x in row:
                run = run + 1 if x else 0
                best = max(best, run)
            if best > 1 and (best - 1) / n * D > STEP6 * 1.0001:
                return "hit"
        return None


def box_of(tb, pbu, oobb):
    return (np.asarray(oobb.pose[0], float), np.asarray(pbu.get_aabb_extent(oobb.aabb)) / 2, tb.matrix_from_quat(oobb.pose[1]))


def spatial_world(rng, pbu):
    obs = []
    if rng.random() < .4:       # walls of a bin
        w, t, h = float(rng.uniform(.1, .3)), float(rng.uniform(.005, .03)), float(rng.uniform(.05, .2))
        for ax, sg in ((0, -1), (0, 1), (1, -1), (1, 1), (2, -1)):
            ext = np.array([w, w, h])
            ext[ax] = t
            c = np.zeros(3)
            c[ax] = sg * (([w, w, h][ax]) - t) / 2
            obs.append(pbu.OOBB(pbu.aabb_from_extent_center(ext), pbu.Pose(c)))
    else:
        many = rng.random() < .15
        for _ in range(int(rng.integers(9, 40)) if many else int(rng.integers(1, 5))):
            ext = 10.0 ** rng.uniform(-1.7, -.9 if many else -.4, 3)
            e = rng.uniform(-math.pi, math.pi, 3) if rng.random() < .7 else np.zeros(3)
            obs.append(pbu.OOBB(pbu.aabb_from_extent_center(ext), pbu.Pose(rng.uniform(-.3, .3, 3), e)))
    half = 10.0 ** rng.uniform(-1.9, -.8, 3)
    return obs, half


def spatial_motion(rng, oracle, kind=None):
    kind = str(rng.choice(["any", "short", "none", "turn", "graze", "graze", "end"])) if kind is None else kind
    s = np.concatenate([rng.uniform(-.4, .4, 3), rng.uniform(-1, 1, 3) * float(rng.choice([0, .3, 1.5]))])
    g = np.concatenate([rng.uniform(-.4, .4, 3), rng.uniform(-1, 1, 3) * float(rng.choice([0, .3, 1.5]))])
    if kind == "none":
        return s, s.copy(), kind
    if kind == "short":
        return s, s + rng.normal(size=6) * .01, kind
    if kind == "turn":
        g[:3] = s[:3]
        return s, g, kind
    c, h, R = oracle.obs[int(rng.integers(len(oracle.obs)))]
    if kind == "swing":         # turns on the spot, clear at both ends, and reaches the obstacle in between
        i = int(np.argmax(oracle.h[:2]))
        a = float(rng.uniform(-math.pi, math.pi))
        u = np.array([math.cos(a), math.sin(a), 0.0])
        yaw = a - i * math.pi / 2
        lo, hi = 0.0, 3.0
        for _ in range(30):
            m = (lo + hi) / 2
            s[:] = np.concatenate([c + u * m, [0, 0, yaw]])
            P, Q, _ = oracle.poses(s, s, [0.0])
            if oracle.gap(P, Q).min() <= 0:
                lo = m
            else:
                hi = m
        s[:3] = c + u * (lo - float(rng.uniform(.1, .9)) * max(oracle.h[i] - oracle.h[1 - i], 1e-3))
        g[:] = s
        s[5], g[5] = yaw - float(rng.uniform(.2, 1.4)), yaw + float(rng.uniform(.2, 1.4))
        return s, g, kind
    if kind == "far":           # very far, through something thin if there is
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        p = c + R @ (h * rng.uniform(-1, 1, 3))
        a, b = 10.0 ** rng.uniform(.2, .9, 2)
        s[:3], g[:3] = p - a * d, p + b * d
        g[3:] = s[3:]
        return s, g, kind
    if kind == "long":          # straight through, from far away to far away
        p = c + R @ (h * rng.uniform(-1, 1, 3))
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        a, b = 10.0 ** rng.uniform(-1, .5, 2)
        s[:3], g[:3] = p - a * d, p + b * d
        if rng.random() < .7:
            g[3:] = s[3:]
        return s, g, kind
    if kind == "end":
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        lo, hi = 0.0, 3.0
        for _ in range(30):
            m = (lo + hi) / 2
            P, Q, _ = oracle.poses(np.concatenate([c + u * m, s[3:]]), np.concatenate([c + u * m, s[3:]]), [0.0])
            if oracle.gap(P, Q).min() <= 0:
                lo = m
            else:
                hi = m
        s[:3] = c + u * (lo - float(rng.choice([1e-4, 2e-3])))
        g[:3] = c + u * (lo + 10.0 ** float(rng.uniform(-3, -.5)))
        if rng.random() < .5:
            g[3:] = s[3:]
        return (s, g, kind) if rng.random() < .5 else (g, s, kind)
    if kind == "graze":         # passes near an edge of the obstacle
        p = c + R @ (h * rng.choice([-1.0, 1.0], 3)) + rng.normal(size=3) * (oracle.h.mean() * .7)
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        a, b = rng.uniform(.03, .3, 2)
        s[:3], g[:3] = p - a * d, p + b * d
        if rng.random() < .5:
            g[3:] = s[3:]
    return s, g, kind


def spatial_motions(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    run = load("kuka_carry", "run")
    rng = mon.rng("spatial-motions")
    for w in range(mon.n(160, 2400)):
        obs, half = spatial_world(rng, pbu)
        aabb = pbu.aabb_from_extent_center(2 * half)
        random.seed(int(rng.integers(2 ** 31)))
        margin = float(rng.uniform(.05, 1))
        start = pbu.OOBB(aabb, pbu.Pose(rng.uniform(-.5, .5, 3), rng.uniform(-.3, .3, 3)))
        end = pbu.OOBB(aabb, pbu.Pose(rng.uniform(-.5, .5, 3), rng.uniform(-.3, .3, 3)))
        env = run.BagOfBoundingBoxes(seed=int(rng.integers(100)), start_oobb=start, end_oobb=end, obstacle_oobbs=obs, theta_margin=margin)
        oracle = Spatial(half, [box_of(tb, pbu, o) for o in obs], tb)
        for b in range(4):
            k = 0 if (w % 7 == 0 and b == 0) else int(rng.choice([1, 1, 2, 5, 9]))
            M = [spatial_motion(rng, oracle) for _ in range(k)]
            if b == 3:
                k, M = 1, [spatial_motion(rng, oracle, ("swing", "far")[w % 3 == 0])]
            if b == 1 and w % 10 == 3:
                k = int(rng.integers(260, 420))
                M = [spatial_motion(rng, oracle, str(rng.choice(["none", "short"]))) for _ in range(k)]
                mon.peak("largest_batch", k)
            if 0 < k < 10 and b != 3 and rng.random() < .25:        # one long motion, alone or among hardly any movement
                if rng.random() < .7:
                    M = [spatial_motion(rng, oracle, str(rng.choice(["none", "short"]))) for _ in range(k)]
                M[int(rng.integers(k))] = spatial_motion(rng, oracle, "long")
            S = np.array([m[0] for m in M]).reshape(k, 6)
            G = np.array([m[1] for m in M]).reshape(k, 6)
            S0, G0 = S.copy(), G.copy()
            with mon.guard("motion-check-failed", start=S, goal=G):
                got = np.asarray(env.is_motion_valid(S, G))
                mon.count("batches")
                if not mon.expect(got.shape == (k,) and got.dtype == bool, "verdict-shape", shape=got.shape, rows=k, dtype=str(got.dtype)):
                    continue
                mon.expect(np.array_equal(S, S0) and np.array_equal(G, G0), "argument-changed")
                mon.count("empty_batches", k == 0)
                V = [oracle.verdict(S[r], G[r]) for r in range(k)]
                for r in range(k):
                    v = V[r]
                    mon.case((S[r].tobytes(), G[r].tobytes(), w))
                    mon.count("rows_" + str(v))
                    if v == "hit" and M[r][2] in ("graze", "end", "long", "swing", "far"):
                        mon.count("hits_" + M[r][2])
                    if v == "free" and "hit" in V:
                        mon.count("free_beside_hit")
                    if v is not None:
                        mon.expect(bool(got[r]) == (v == "free"), "motion-verdict", start=S[r], goal=G[r], got=bool(got[r]), expected=v, rows=k,
                                   half=half, obstacles=obs, how=M[r][2])
                        mon.sample({"start": S[r], "goal": G[r], "verdict": v, "how": M[r][2]})
        if w % 4 == 0:
            P = np.concatenate([np.array(pbu.get_oobb_vertices(o)) for o in obs] + [np.array([start.pose[0]])])
            pts = [env.sample_from_env() for _ in range(400)]
            uniform_in(mon, pts, np.append(P.min(0), [-margin] * 3), np.append(P.max(0), [margin] * 3), "sample", world=w)
            conversions(mon, run, pbu, tb, rng)
        if mon.hurry():
            break


def conversions(mon, run, pbu, tb, rng):
    """Poses survive the trip through the planner's six numbers."""
    for _ in range(20):
        pose = pbu.Pose(rng.normal(size=3), rng.uniform(-1.4, 1.4, 3))
        flat6 = run.to_flat(pose)
        mon.expect(len(flat6) == 6, "flat-length", got=flat6)
        back = run.to_pose(np.array(flat6))
        mon.expect(np.allclose(back[0], pose[0], atol=1e-9) and np.allclose(tb.matrix_from_quat(back[1]), tb.matrix_from_quat(pose[1]), atol=1e-7),
                   "flat-round-trip", pose=pose, flat=flat6, back=back)
        mon.count("conversions")


# ============================================================================ C42
def interpolation(mon):
    st = load("turtlebot_move", "streams")
    rng = mon.rng("interpolation")
    for i in range(mon.n(12000, 120000)):
        d = int(rng.choice([1, 2, 2, 2, 3, 6]))
        k = int(rng.choice([1, 2, 2, 3, 5, 9]))
        scale = 10.0 ** float(rng.uniform(-2, 2))
        P = rng.normal(size=(k, d)) * scale
        th = scale * 10.0 ** float(rng.uniform(-2, 1))
        if rng.random() < .3 and k > 1:
            P[int(rng.integers(1, k))] = P[int(rng.integers(k - 1))]
        exact = rng.random() < .3
        if exact:                   # a step that is a whole multiple of the threshold
            P = np.round(P / th) * th
        mon.case((P.tobytes(), th))
        arg = [list(p) for p in P.tolist()] if i % 2 else P.copy()
        with mon.guard("interpolation-failed", path=P, threshold=th):
            with step_budget(400000):
                out = np.asarray(st.interpolate_vectors(arg, th), float)
        if i % 2 == 0:
            mon.expect(np.array_equal(arg, P), "argument-changed", path=P)
        if not mon.expect(out.ndim == 2 and out.shape[1] == d and len(out) >= k, "interpolated-shape", shape=out.shape, path=P):
            continue
        judge_interpolation(mon, P, th, out)
        mon.count("points_added", len(out) - k)
        mon.count("paths_longer", len(out) > k)
        mon.count("exact_multiples", exact)
        mon.sample({"path": P, "threshold": th, "points": len(out)})
        if mon.hurry():
            break


def judge_interpolation(mon, P, th, out):
    tol = 1e-9 * (np.abs(P).max() + th)
    steps = np.linalg.norm(np.diff(out, axis=0), axis=1)
    if len(steps) and steps.max() > th + tol:
        mon.violate("step-too-long", path=P, threshold=th, step=steps.max())
    if not np.array_equal(out[0], P[0]):
        mon.violate("first-point", path=P, got=out[0])
        return
    j = 1
    for a, b in zip(P[:-1], P[1:]):
        L = np.linalg.norm(b - a)
        last = 0.0
        while j < len(out) and not np.array_equal(out[j], b):
            t = float((out[j] - a) @ (b - a) / (L * L)) if L > 0 else 0.0
            off = np.linalg.norm(out[j] - a - t * (b - a))
            if off > tol or not last - 1e-9 <= t <= 1 + 1e-9:
                mon.violate("waypoint-lost-or-point-off-path", path=P, threshold=th, index=j, point=out[j], before=a, after=b)
                return
            last = t
            j += 1
        if j >= len(out):
            mon.violate("waypoint-lost-or-point-off-path", path=P, threshold=th, index=j, point=None, before=a, after=b)
            return
        j += 1
        mon.count("segments_followed")
    if j != len(out):
        mon.violate("points-after-the-end", path=P, extra=out[j:])
