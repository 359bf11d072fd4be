"""Motion streams (C43): what is asked of the roadmap is recorded through its public methods."""
import math
import random
from types import SimpleNamespace

import numpy as np
from checks.tamp_load import load
from checks.tamp_motion import Planar, Spatial, STEP2, box_of, flat, hull2
from rtm.core import StepBudgetExceeded, step_budget

LOG = []
SCRIPT = [None]       # a double that finds a path from so many samples on: (threshold, path(start, goal))


def instrument():
    """Puts a recording roadmap (real or scripted) where the streams take theirs from."""
    import nonasymptotic.prm as prm
    real = prm.SimpleNearestNeighborRadiusPRM

    class Recording(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._n = 0

        def grow_to_n_samples(self, n):
            if SCRIPT[0] is None:
                r = super().grow_to_n_samples(n)
            else:
                if n <= self._n:
                    raise ArithmeticError("PRM is already %i large, cannot grow to %i samples." % (self._n, n))
                r = None
            self._n = n
            LOG.append(("grow", n, type(n) is int or isinstance(n, np.integer)))
            return r

        def query_best_solution(self, start, goal):
            if SCRIPT[0] is None:
                r = super().query_best_solution(start, goal)
            else:
                th, path = SCRIPT[0]
                s, g = np.ravel(start), np.ravel(goal)
                r = (1.0, path(s, g)) if self._n >= th else (float("inf"), np.zeros((0, self.d)))
            LOG.append(("ask", self._n, len(r[1])))
            return r

        def num_vertices(self):
            return super().num_vertices() if SCRIPT[0] is None else self._n

        def num_edges(self):
            return super().num_edges() if SCRIPT[0] is None else 0
    prm.SimpleNearestNeighborRadiusPRM = Recording
    return real


def asked():
    return [(e[1], e[2]) for e in LOG if e[0] == "ask"]


def judge_budget(mon, failed, budget, **detail):
    """Never more samples than the budget; failure only once the whole budget was asked in vain."""
    qs = asked()
    mon.count("roadmaps_asked", len(qs))
    mon.peak("roadmaps_per_plan", len(qs))
    grown = [e[1] for e in LOG if e[0] == "grow"]
    mon.expect(all(n <= budget for n in grown), "over-budget", grown=grown, budget=budget, **detail)
    if failed:
        mon.expect(bool(qs) and qs[-1] == (budget, 0), "gave-up-early", asked=qs[-3:], budget=budget, **detail)
    else:
        mon.expect(bool(qs) and qs[-1][1] > 0, "plan-without-path", asked=qs[-3:], budget=budget, **detail)


def schedule(rng):
    lo = int(rng.choice([2, 3, 7, 10, 50, 99, 100, 499]))
    span = int(rng.choice([0, 1, 1, 2, 5, 40, 900, 20000]))
    return lo, lo + span, float(rng.choice([1.0, 1.05, 1.1, 1.1, 1.5, 2.0, 3.0]))


def conf(values, joints=(0, 1), init=False):
    return SimpleNamespace(values=values, joints=joints, body=None)


# ============================================================================ planar
def make_room(rng, pbu, gap=None):
    """Two rooms side by side, joined by a door of the given width."""
    h = 1.0
    ids = []

    def wall(cx, cy, ex, ey):
        b = pbu.create_box(ex, ey, .1)
        pbu.set_point(b, pbu.Point(cx, cy, .05))
        ids.append(b)
    for cx, cy, ex, ey in ((0, h, 2 * h + .1, .1), (0, -h, 2 * h + .1, .1), (h, 0, .1, 2 * h + .1), (-h, 0, .1, 2 * h + .1)):
        wall(cx, cy, ex, ey)
    if gap is not None:
        y = float(rng.uniform(-.4, .4))
        lo, up = -h, h
        wall(0, (lo + y - gap / 2) / 2, .1, y - gap / 2 - lo)
        wall(0, (up + y + gap / 2) / 2, .1, up - y - gap / 2)
    crowd = rng.random() < .25          # many small things instead of a few large ones
    for _ in range(int(rng.integers(10, 24)) if crowd else int(rng.integers(0, 3))):
        b = pbu.create_box(*(float(v) for v in rng.uniform(.05, .08 if crowd else .3, 2)), .1)
        pbu.set_pose(b, pbu.Pose(pbu.Point(*rng.uniform(-.7, .7, 2), .05), pbu.Euler(yaw=float(rng.uniform(-1, 1)))))
        ids.append(b)
    return ids


def footprint(pbu, body):
    e = pbu.get_aabb_extent(pbu.get_aabb(body)) / 2
    return np.array([[-e[0], -e[1]], [e[0], -e[1]], [e[0], e[1]], [-e[0], e[1]]])


def free_point(rng, oracle, lo, hi):
    for _ in range(200):
        p = rng.uniform(lo, hi)
        if not any(o.stretches(p, p, .01) for o in [oracle]):
            return p
    return None


def judge_planar_path(mon, oracle, path, start, goal, fine, **detail):
    P = np.asarray(path, float)
    ok = mon.expect(np.allclose(P[0], start, atol=1e-9) and np.allclose(P[-1], goal, atol=1e-9), "ends", first=P[0], last=P[-1], start=start, goal=goal, **detail)
    if not ok:
        return
    if fine:
        # a stretch of the path that collides all along must be short
        steps = np.linalg.norm(np.diff(P, axis=0), axis=1)
        mon.expect(len(P) < 2 or steps.max() <= .025 + 1e-9, "trajectory-step", longest=steps.max() if len(P) > 1 else 0, **detail)
        run = 0.0
        for a, b in zip(P[:-1], P[1:]):
            bad = any(t0 <= 0 and t1 >= 1 for t0, t1 in oracle.stretches(a, b, -1e-6))
            run = run + float(np.linalg.norm(b - a)) if bad else 0.0
            if run > 2 * STEP2:
                mon.violate("trajectory-collides", near=a, **detail)
                return
    else:
        for a, b in zip(P[:-1], P[1:]):
            if not mon.expect(oracle.verdict(a, b, 1e-6) != "hit", "motion-collides", a=a, b=b, **detail):
                return
    mon.count("motions_judged", len(P) - 1)


def planar_stream(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    instrument()
    from nonasymptotic.bound import compute_numerical_bound
    st = load("turtlebot_move", "streams")
    rng = mon.rng("planar-stream")
    for i in range(mon.n(320, 3000)):
        tb.clear()
        LOG.clear()
        random.seed(int(rng.integers(2 ** 31)))
        holding = bool(rng.random() < .5)
        adaptive = bool(rng.random() < .3)
        scripted = bool(adaptive or rng.random() < .6)
        teleport = bool(rng.random() < .5)
        rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=float(rng.uniform(.15, .4)))
        obj = pbu.create_cylinder(float(rng.uniform(.05, .15)), .1) if rng.random() < .5 else pbu.create_box(*rng.uniform(.08, .3, 2), .1)
        moved = obj if holding else rover
        fp = footprint(pbu, moved)
        gap = None if rng.random() < .25 else float(2 * fp.max() * rng.choice([1.2, 2.0, 3.0]) if rng.random() < .7 else
                                                    np.mean([footprint(pbu, obj)[:, 1].max(), footprint(pbu, rover)[:, 1].max()]) * 2)
        obstacles = make_room(rng, pbu, gap)
        oracle = Planar(fp, [flat(pbu, pbu.get_oobb(o)) for o in obstacles])
        s = free_point(rng, oracle, [-.9, -.9], [-.15, .9])
        g = free_point(rng, oracle, [.15, -.9], [.9, .9])
        if s is None or g is None:
            continue
        hall = float(rng.uniform(.3, .6))
        problem = SimpleNamespace(obstacles=obstacles, hallway_gap=hall, init_conf=None)
        lo, hi, factor = schedule(rng) if scripted else (int(rng.integers(5, 25)), int(rng.integers(26, 50)), float(rng.choice([1.1, 1.5, 2.0])))
        budget = hi
        if adaptive:
            width = float(2 * fp[:, 0].max())
            budget = compute_numerical_bound(hall - width + .05, .99, 16, 2, None)[0] if hall - width + .05 > .02 else None
            if budget is None:
                continue
            mon.count("adaptive")
        th = None
        if scripted:
            th = int(rng.choice([lo, (lo + budget) // 2, budget, budget, budget + 1]))
            stops = np.concatenate([rng.uniform(-.9, .9, (int(rng.choice([0, 1, 4, 12, 30, 120])), 2)), [(s + g) / 2]])
            SCRIPT[0] = (th, lambda a, b, stops=stops: stops.copy())
        else:
            SCRIPT[0] = None
        fn = st.get_anytime_motion_fn(problem, teleport=teleport, start_samples=lo, end_samples=hi, factor=factor, adaptive_n=adaptive, holding=holding)
        args = (rover, conf(tuple(s), (7, 8)), conf(tuple(g), (5, 6))) + ((obj,) if holding else ())
        detail = dict(start_samples=lo, end_samples=hi, factor=factor, adaptive=adaptive, threshold=th, holding=holding, gap=gap)
        world = {b: tb.BODIES[b].pose for b in tb.BODIES}
        try:
            with step_budget(60_000_000):
                out = fn(*args)
        except StepBudgetExceeded:
            mon.violate("does-not-end", **detail)
            continue
        except Exception as e:      # noqa: BLE001
            mon.violate("stream-failed", exception=repr(e), **detail)
            continue
        mon.case((i, mon.shard, s.tobytes()))
        mon.sample(dict(detail, asked=asked()[-4:], found=out is not None))
        mon.expect(all(tb.BODIES[b].pose == p for b, p in world.items() if b != rover), "world-changed", **detail)
        judge_budget(mon, out is None, budget, **detail)
        mon.count("plans_scripted" if scripted else "plans_real")
        if scripted:
            mon.expect((out is None) == (th > budget), "scripted-outcome", found=out is not None, budget=budget, **detail)
        if out is None:
            mon.count("failures")
            continue
        mon.count("found_holding" if holding else "found")
        traj, = out
        path = [list(q.values) for q in traj.path]
        mon.expect(all(tuple(q.joints) == (5, 6) and q.body == rover for q in traj.path), "trajectory-joints", joints=[q.joints for q in traj.path][:2], **detail)
        if scripted:
            ok = np.allclose(path[0], s) and np.allclose(path[-1], g)
            mon.expect(ok, "ends", path=path[:3], start=s, goal=g, **detail)
            at = 0          # every way point, in order, and nothing off the straight lines between them
            P = np.array(path, float)
            for k, p in enumerate(stops):
                hits = np.flatnonzero(np.abs(P[at:] - p).max(axis=1) < 1e-9)
                if not mon.expect(len(hits) > 0, "way-point-left-out", number=k, of=len(stops), **detail):
                    break
                nxt = at + int(hits[0])
                a = np.array(stops[k - 1] if k else s, float)
                d = p - a
                off = np.abs(d[0] * (P[at:nxt + 1, 1] - a[1]) - d[1] * (P[at:nxt + 1, 0] - a[0])) / max(np.linalg.norm(d), 1e-12)
                mon.expect(off.max() < 1e-6, "off-the-line", number=k, off=off.max(), **detail)
                at = nxt
            mon.peak("way_points", len(stops))
            if not teleport:
                steps = np.linalg.norm(np.diff(np.array(path), axis=0), axis=1)
                mon.expect(steps.max() <= .025 + 1e-9, "trajectory-step", longest=steps.max(), **detail)
        else:
            judge_planar_path(mon, oracle, path, s, g, not teleport, **detail)
        if mon.hurry():
            break
    refused_ends(mon, st, pbu, tb, rng)
    other_streams(mon, st, pbu, tb, rng)


def refused_ends(mon, st, pbu, tb, rng):
    """No plan from or to a place where the moving shape collides."""
    for i in range(mon.n(320, 2400)):
        tb.clear()
        SCRIPT[0] = (2, lambda a, b: np.array([(a + b) / 2]))
        rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=.2)
        obj = pbu.create_box(.3, .24, .1)
        obstacles = make_room(rng, pbu)
        holding = bool(rng.random() < .5)
        fp = footprint(pbu, obj if holding else rover)
        d, sg, by = int(rng.integers(2)), float(rng.choice([-1, 1])), float(rng.choice([-.02, -.002, .001, .002, .02]))    # reaches into a wall, or not quite
        bad, good = np.array([-.5, .3]), np.array([-.5, 0.0])
        bad[d] = sg * (1.0 - .05 - fp[:, d].max() + by)
        oracle = Planar(fp, [flat(pbu, pbu.get_oobb(o)) for o in obstacles])
        hit = oracle.inside(bad) or oracle.inside(good)
        clear = not oracle.stretches(bad, bad, .0005) and not oracle.stretches(good, good, .0005)
        a, b = (bad, good) if rng.random() < .5 else (good, bad)
        fn = st.get_anytime_motion_fn(SimpleNamespace(obstacles=obstacles, hallway_gap=1, init_conf=None), start_samples=5, end_samples=9, holding=holding)
        try:
            out = fn(rover, conf(tuple(a)), conf(tuple(b)), *((obj,) if holding else ()))
        except AssertionError:
            out = None
        if hit:
            mon.count("ends_refused")
            mon.expect(out is None, "plan-from-collision", holding=holding, a=a, b=b)
        elif clear:
            mon.count("ends_accepted")
            mon.expect(out is not None, "free-ends-refused", holding=holding, a=a, b=b)


def other_streams(mon, st, pbu, tb, rng):
    """The placement stream puts the base where the object is and leaves the problem alone; plain motion streams hand on what the planner found."""
    for i in range(mon.n(80, 500)):
        tb.clear()
        rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=.2)
        init = conf((0.1, 0.2), (0, 1))
        problem = SimpleNamespace(init_conf=init, fixed=[], obstacles=[])
        pose = SimpleNamespace(pose=pbu.Pose(rng.normal(size=3), rng.uniform(-1, 1, 3)))
        out, = st.get_ik(problem)(rover, 3, pose)
        mon.expect(np.allclose(np.asarray(out.values, float), np.asarray(pose.pose[0])[:2]) and len(out.values) == 2, "placement-conf", got=out.values, pose=pose.pose)
        mon.expect(tuple(init.values) == (0.1, 0.2) and out is not init, "problem-changed", values=init.values)
        mon.count("placements")


# ============================================================================ spatial
def spatial_stream(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    instrument()
    from nonasymptotic.bound import compute_numerical_bound
    run, kp = load("kuka_carry", "run", "kuka_primitives")
    BodyConf, BodyGrasp = run.BodyConf, run.get_grasp_gen.__globals__["BodyGrasp"]
    rng = mon.rng("spatial-stream")
    for i in range(mon.n(240, 2000)):
        tb.clear()
        LOG.clear()
        random.seed(int(rng.integers(2 ** 31)))
        adaptive = bool(rng.random() < .3)
        scripted = bool(adaptive or rng.random() < .7)
        robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
        w = float(rng.uniform(.1, .2))
        obj_w = float(rng.uniform(.02, .06))
        body = pbu.create_box(obj_w, obj_w * float(rng.uniform(.6, 1)), float(rng.uniform(.03, .2)))
        _, local = run.create_hollow("bin", width=w, length=w, height=.15)
        shift = pbu.Pose(pbu.Point(*rng.uniform(-.5, .5, 2)))
        obs = [pbu.OOBB(o[0], pbu.multiply(shift, o[1])) for o in local]
        half = pbu.get_aabb_extent(pbu.get_aabb(body)) / 2
        oracle = Spatial(half, [box_of(tb, pbu, o) for o in obs], tb)
        base = np.array(shift[0])
        # the object in the bin and above it
        above = pbu.Pose(base + np.array([float(rng.uniform(-.01, .01)), 0, .2 + half[2]]))
        inside = pbu.Pose(base + np.array([0, 0, .011 + half[2] + float(rng.uniform(.002, .02))]))
        grasp = BodyGrasp(body, pbu.Pose(pbu.Point(z=-half[2]), pbu.Euler(yaw=float(rng.uniform(-.5, .5)))), pbu.Pose(.01 * pbu.Point(z=1)), robot, 6)

        def conf_for(pose):
            tool = pbu.multiply(pose, pbu.invert(grasp.grasp_pose))
            q = tuple(tool[0]) + tuple(float(v) for v in pbu.euler_from_quat(tool[1])) + (0.0,)
            return BodyConf(robot, q)
        c1, c2 = conf_for(above), conf_for(inside)
        lo, hi, factor = schedule(rng) if scripted else (int(rng.integers(6, 12)), int(rng.integers(13, 22)), float(rng.choice([1.1, 1.5, 2.0])))
        buffer, margin = float(rng.uniform(0, .04)), float(rng.uniform(.05, .3))
        budget = hi
        flat6 = lambda p: np.concatenate([np.asarray(p[0], float), pbu.euler_from_quat(p[1])])  # noqa: E731
        s, g = flat6(above), flat6(inside)
        if adaptive:
            V = np.concatenate([np.array(pbu.get_oobb_vertices(o)) for o in obs] + [s[None, :3]])
            vol = float(np.prod(V.max(0) - V.min(0)) * (2 * margin) ** 3)
            hall = (obs[2].pose[0][0] + obs[2].aabb.upper[0]) - (obs[0].pose[0][0] - obs[0].aabb.lower[0])
            delta = hall - (2 * half[0] + buffer) / 2
            want = {compute_numerical_bound(delta * (1 + e), .99, vol * (1 + f), 6, None)[0] for e in (-1e-9, 0, 1e-9) for f in (-1e-9, 0, 1e-9)}
            mon.count("adaptive")
        detour = bool(rng.random() < .5)
        via = np.array([g + np.array([0, 0, .05, 0, 0, 0])] if not detour else
                       [s + np.array([.1, .05, .02, .1, 0, 0]), s + np.array([.02, .1, 0, 0, .1, .2]), (s + g) / 2])
        if rng.random() < .25:      # a long way round
            t = np.linspace(0, 1, int(rng.integers(8, 40)) if rng.random() < .85 else int(rng.integers(70, 200)))[:, None]
            ring = np.concatenate([.12 * np.cos(2 * np.pi * t), .12 * np.sin(2 * np.pi * t), .02 + .05 * np.sin(np.pi * t), 0 * t, 0 * t, .3 * np.sin(np.pi * t)], axis=1)
            via = np.concatenate([s + ring, g[None] + np.array([0, 0, .05, 0, 0, 0])])
            mon.count("long_ways")
        th = None
        if scripted:
            th = int(rng.choice([lo, (lo + hi) // 2, hi, hi, hi + 1])) if not adaptive else int(rng.choice([2, 10 ** 18]))
            SCRIPT[0] = (th, lambda a, b, via=via: via.copy())
        else:
            SCRIPT[0] = None
        lost = scripted and rng.random() < .25
        if lost:            # the arm cannot reach one of the waypoints
            stops = np.concatenate([via, g[None]])
            k = int(rng.choice([len(via), int(rng.integers(len(via)))]))
            bad = np.asarray(pbu.multiply(pbu.Pose(stops[k][:3], stops[k][3:]), pbu.invert(grasp.grasp_pose))[0])
            tb.REACHABLE[0] = lambda pose, bad=bad: abs(np.asarray(pose[0]) - bad)[:2].max() > 1e-3 or abs(pose[0][2] - bad[2]) > .0125
        fn = run.get_insert_motion_gen(robot, body_aabb_map={body: pbu.get_aabb(body)}, body_obstacle_map={body: obs}, start_samples=lo, end_samples=hi,
                                       factor=factor, collision_buffer=buffer, theta_margin=margin, adaptive_n=adaptive)
        detail = dict(start_samples=lo, end_samples=hi, factor=factor, adaptive=adaptive, threshold=th, lost=lost)
        failed = out = None
        try:
            with step_budget(60_000_000):
                out = fn(c1, c2, body, grasp)
        except StepBudgetExceeded:
            mon.violate("does-not-end", **detail)
            continue
        except run.SubplanFailed:
            failed = True
        except Exception as e:      # noqa: BLE001
            mon.violate("stream-failed", exception=repr(e), **detail)
            continue
        mon.case((i, mon.shard, s.tobytes()))
        mon.sample(dict(detail, asked=asked()[-4:], found=out is not None))
        mon.count("plans_scripted" if scripted else "plans_real")
        if adaptive:
            grown = [e[1] for e in LOG if e[0] == "grow"]
            mon.expect(max(grown) <= max(want), "over-budget", grown=grown, budget=want, **detail)
            if failed:
                mon.expect(asked()[-1][0] in want and asked()[-1][1] == 0, "gave-up-early", asked=asked()[-2:], budget=want, **detail)
                mon.count("failures")
        else:
            judge_budget(mon, failed or (out is None and not lost), budget, **detail)
            if scripted and not lost:
                mon.expect(bool(failed) == (th > budget) and (out is None) == bool(failed), "scripted-outcome", found=out is not None, budget=budget, **detail)
        if out is None:
            mon.count("failures")
            mon.count("lost_refused", bool(lost))
            continue
        mon.count("found")
        tb.REACHABLE[0] = None
        cmd, = out
        replay(mon, tb, pbu, run, cmd, robot, body, grasp, s, g, oracle, via if scripted else None, detail)
        if mon.hurry():
            break


def same_pose(tb, a, p):
    """Six numbers and a pose."""
    return np.allclose(a[:3], p[0], atol=1e-6) and np.allclose(tb.matrix_from_quat(tb.quat_from_euler(a[3:])), tb.matrix_from_quat(p[1]), atol=1e-6)


def replay(mon, tb, pbu, run, cmd, robot, body, grasp, s, g, oracle, via, detail):
    """Runs the command in the kinematic world and watches where the object goes."""
    seen = []
    mon.expect(cmd.bodies() == {robot, body}, "moved-bodies", bodies=cmd.bodies(), **detail)
    for part in cmd.body_paths:
        for _ in part.iterator():
            seen.append(pbu.get_pose(body))
    if not mon.expect(len(seen) >= 2, "short-trajectory", length=len(seen), **detail):
        return
    mon.expect(same_pose(tb, s, seen[0]) and same_pose(tb, g, seen[-1]), "ends", first=seen[0], last=seen[-1], start=s, goal=g, **detail)
    if via is not None:
        todo = [s] + list(via) + [g]
        k = 0
        for p in seen:
            if k < len(todo) and same_pose(tb, todo[k], p):
                k += 1
        mon.expect(k == len(todo), "waypoint-lost", reached=k, waypoints=todo, **detail)
    else:
        flat6 = [np.concatenate([np.asarray(p[0], float), pbu.euler_from_quat(p[1])]) for p in seen]
        for a, b in zip(flat6[:-1], flat6[1:]):
            if not mon.expect(oracle.verdict(a, b, 1e-6) != "hit", "motion-collides", a=a, b=b, **detail):
                break
            mon.count("motions_judged")
    mon.count("replayed", len(seen))


def streams(mon):
    if mon.shard % 2:
        planar_stream(mon)
    else:
        spatial_stream(mon)
