"""Manipulation primitives (C46): placements, grasps, arm configurations, transit and transfer motions, the movable-object test, captured states."""
import itertools
import math
import random
from types import SimpleNamespace

import numpy as np
from checks.tamp_load import load
from rtm.core import StepBudgetExceeded, step_budget


def near(tb, a, b, tol=1e-9):
    return np.allclose(a[0], b[0], atol=tol) and np.allclose(tb.matrix_from_quat(a[1]), tb.matrix_from_quat(b[1]), atol=tol)


def snapshot(tb):
    return {b: (w.pose, tuple(w.q)) for b, w in tb.BODIES.items()}


def table(rng, tb, pbu):
    """A surface, things on it and elsewhere, and an object."""
    s = pbu.create_box(float(rng.uniform(.2, .6)), float(rng.uniform(.2, .6)), .05)
    pbu.set_pose(s, pbu.Pose(pbu.Point(*rng.uniform(-.5, .5, 2), float(rng.uniform(0, .3)))))
    c, e = pbu.get_center_extent(s)
    things = []
    crowd = rng.random() < .15
    for _ in range(int(rng.integers(8, 20)) if crowd else int(rng.integers(0, 5))):
        b = pbu.create_box(*rng.uniform(.02, .05 if crowd else .15, 3)) if rng.random() < .7 or crowd else pbu.create_cylinder(float(rng.uniform(.02, .08)), float(rng.uniform(.02, .1)))
        xy = c[:2] + rng.uniform(-.7, .7, 2) * e[:2] / 2 * (1 if rng.random() < .7 else 3)
        pbu.set_pose(b, pbu.Pose(pbu.Point(*xy, c[2] + e[2] / 2 + .06), pbu.Euler(yaw=float(rng.uniform(-3, 3)))))
        things.append(b)
    o = pbu.create_box(*rng.uniform(.02, .12, 2), float(rng.uniform(.02, .1)))
    pbu.set_pose(o, pbu.Pose(pbu.Point(*rng.uniform(-2, 2, 3))))
    return s, things, o


def rests(tb, pbu, o, s, link=None):
    a, b = pbu.get_aabb(o), pbu.get_aabb(s, link)
    return np.all(np.array(a[0][:2]) >= np.array(b[0][:2]) - 1e-9) and np.all(np.array(a[1][:2]) <= np.array(b[1][:2]) + 1e-9) and -1e-9 <= a[0][2] - b[1][2] < .01


# ============================================================================ placements
def placements(mon, rng, tb, pbu, kp):
    ways = [0, 0, 0, 0]
    for i in range(mon.n(1200, 12000)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        s, things, o = table(rng, tb, pbu)
        cut = int(rng.integers(0, len(things) + 1))
        fixed, obst = [s] + things[:cut], things[cut:]
        links = {s: None}
        # the four fixed placements: exactly those that are free
        want = []
        for theta in (0, math.pi / 2, math.pi, -math.pi / 2):
            pose = pbu.sample_placement(o, s, theta=theta, scale=0)
            hit = pose is None or any(tb.collide(o, b) for b in fixed + obst)
            close = pose is not None and any(tb.collide(o, b, 1e-6) for b in fixed + obst if b != s) != any(tb.collide(o, b) for b in fixed + obst if b != s)
            want.append((pose, hit, close))
        gen = kp.get_fixed_stable_gen(list(fixed), links)(o, s, obstacles=list(obst)) if obst or rng.random() < .5 else kp.get_fixed_stable_gen(list(fixed), links)(o, s)
        got = []
        for (bp,) in gen:
            got.append(bp)
            bp.assign()
            mon.expect(rests(tb, pbu, o, s), "placement-not-on-surface", which="fixed", at=bp.pose)
            mon.expect(bp.body == o, "placement-of-other-body", body=bp.body)
            if len(got) > 8:
                break
        mon.case((i, mon.shard, "fixed"))
        mon.count("fixed_placements", len(got))
        if not any(c for _, _, c in want):
            w = [p for p, h, _ in want if not h]
            ok = len(got) == len(w) and all(any(near(tb, g.pose, p, 1e-6) for p in w) for g in got) and all(any(near(tb, g.pose, p, 1e-6) for g in got) for p in w)
            mon.expect(ok, "fixed-placements", got=[g.pose for g in got], want=w)
            mon.count("fixed_refused", 4 - len(w))
        # the random ones
        if all(p is None for p, _, _ in want) or not any(not h for _, h, _ in want):
            continue
        gen = kp.get_stable_gen(list(fixed), links)(o, s, obstacles=list(obst))
        seen = []
        try:
            with step_budget(20_000_000):
                for (bp,) in itertools.islice(gen, 6):
                    bp.assign()
                    seen.append(bp.pose)
                    ways[int(pbu.euler_from_quat(bp.pose[1])[2] % (2 * math.pi) / (math.pi / 2 + 1e-12))] += 1
                    mon.expect(rests(tb, pbu, o, s), "placement-not-on-surface", which="random", at=bp.pose)
                    mon.expect(not any(tb.collide(o, b) for b in fixed + obst), "placement-collides", at=bp.pose, fixed=len(fixed), obstacles=len(obst))
                    mon.count("random_placements")
        except StepBudgetExceeded:
            mon.count("slow_placements")
            continue
        mon.expect(len(seen) == 6, "placements-end", got=len(seen))
        mon.expect(len({p[0] for p in seen}) == len(seen), "placements-repeat", got=seen)
        if mon.hurry():
            break
    if sum(ways) >= 300:
        mon.expect(min(ways) > 0, "placement-directions", quarters=ways)
        mon.count("placement_directions", 4)


def rover_placements(mon, rng, tb, pbu, pr):
    """sample_placements of the rover worlds: everything placed at a distance, or False."""
    for i in range(mon.n(800, 8000)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        surfaces = []
        for k in range(2):
            s = pbu.create_box(*rng.uniform(.5, 1.2, 2), .001)
            pbu.set_point(s, pbu.Point(2.0 * k, 0, -.0005))
            surfaces.append(s)
        obst = []
        for _ in range(int(rng.integers(0, 4))):
            b = pbu.create_box(*rng.uniform(.05, .3, 2), .1)
            pbu.set_point(b, pbu.Point(*(np.array([2.0 * rng.integers(2), 0]) + rng.uniform(-.4, .4, 2)), .05))
            obst.append(b)
        bodies = [pbu.create_cylinder(float(rng.uniform(.02, .07)), .1) for _ in range(int(rng.integers(1, 4)))]
        for b in bodies:        # out of the way until they are placed
            pbu.set_point(b, pbu.Point(float(rng.uniform(-20, -10)), float(rng.uniform(-9, 9)), 3))
        bs = {b: surfaces[int(rng.integers(2))] for b in bodies}
        huge = rng.random() < .2
        if huge:
            b = pbu.create_cylinder(1.5, .1)
            pbu.set_point(b, pbu.Point(-30, 0, 3))
            bs[b] = surfaces[0]
        mins = {b: float(rng.uniform(0, .08)) for b in bodies if rng.random() < .4}
        others = {b: p for b, p in snapshot(tb).items() if b not in bs}
        implicit = rng.random() < .4
        obs = None if implicit else list(obst)
        known = [b for b in tb.BODIES if b not in bs] if implicit else list(obst)
        given = None if implicit else list(obs)
        try:
            with step_budget(30_000_000):
                ok = pr.sample_placements(dict(bs), obstacles=obs, min_distances=dict(mins)) if mins else pr.sample_placements(dict(bs), obstacles=obs)
        except StepBudgetExceeded:
            mon.count("slow_placements")        # nowhere to put one of them: tries for ever, as documented
            continue
        mon.case((i, mon.shard, "rover"))
        mon.expect(obs == given, "obstacle-list-changed", was=given, now=obs)
        mon.expect(all(snapshot(tb)[b] == p for b, p in others.items()), "bystander-moved")
        detail = dict(bodies=list(bs), minimum=mins, implicit=implicit)
        if huge:
            mon.expect(ok is False, "impossible-placement", got=ok, **detail)
            mon.count("impossible_refused")
            continue
        mon.expect(ok is True, "placements-refused", got=ok, **detail)
        for k, b in enumerate(bodies):
            mon.expect(rests(tb, pbu, b, bs[b]), "placement-not-on-surface", which="rover", body=b, **detail)
            d = mins.get(b, .01)
            for o in known + bodies[:k]:
                if o != bs[b]:
                    mon.expect(not tb.collide(b, o, d - 1e-7), "placement-too-close", body=b, to=o, want=d, **detail)
            mon.count("rover_placements")


# ============================================================================ grasps and arm configurations
def grasps(mon, rng, tb, pbu, kp):
    for i in range(mon.n(800, 8000)):
        tb.clear()
        robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
        half = rng.uniform(.01, .1, 3)
        if rng.random() < .4:       # square from above, or a cube
            half[1] = half[0]
            half[2] = half[0] if rng.random() < .3 else half[2]
        off = rng.uniform(-.05, .05, 3) if rng.random() < .3 else np.zeros(3)
        o = tb.Body([tb.Shape("box", half, (tuple(off), (0, 0, 0, 1)))], "thing").id
        got = [g for (g,) in kp.get_grasp_gen(robot)(o)] if rng.random() < .5 else [g for (g,) in kp.get_grasp_gen(robot, "top")(o)]
        mon.case((i, mon.shard, "grasps"))
        mon.expect(len(got) == 4, "grasp-count", got=len(got))
        yaw = float(rng.uniform(-3, 3))
        pose = pbu.Pose(rng.uniform(-1, 1, 3), pbu.Euler(yaw=yaw))
        yaws = []
        top = pbu.multiply(pose, pbu.Pose(off + np.array([0, 0, half[2]])))[0]
        for g in got:
            mon.expect(g.body == o and g.robot == robot and g.link == 6 and g.value == g.grasp_pose and g.approach == g.approach_pose, "grasp-fields", body=g.body, robot=g.robot, link=g.link)
            tool = pbu.multiply(pose, pbu.invert(g.grasp_pose))
            R = tb.matrix_from_quat(tool[1])
            mon.expect(np.allclose(tool[0], top, atol=1e-9), "grasp-not-at-top", tool=tool, top=top)
            mon.expect(np.allclose(R[:, 2], [0, 0, -1], atol=1e-9), "grasp-not-from-above", axis=R[:, 2])
            yaws.append(math.atan2(R[1, 0], R[0, 0]) % (2 * math.pi))
            ap = pbu.multiply(g.approach_pose, tool)
            mon.expect(ap[0][2] > tool[0][2] + 1e-6 and np.allclose(ap[0][:2], tool[0][:2], atol=1e-9), "approach-not-above", approach=ap, tool=tool)
            # taking hold puts the object where the grasp says, wherever the tool is
            for j in range(7):
                tb.BODIES[robot].q[j] = float(rng.uniform(-1, 1))
            g.assign()
            want = pbu.multiply(tb.BODIES[robot].tool(), g.grasp_pose)
            mon.expect(near(tb, pbu.get_pose(o), want), "grasp-assign", got=pbu.get_pose(o), want=want)
            mon.count("grasps_judged")
        yaws.sort()
        gaps = np.diff(yaws + [yaws[0] + 2 * math.pi]) if yaws else np.array([])
        mon.expect(len(yaws) != 4 or np.allclose(gaps, math.pi / 2, atol=1e-6), "grasp-directions", yaws=yaws)


def arm_confs(mon, rng, tb, pbu, kp):
    for i in range(mon.n(1600, 16000)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        robot = tb.Body([tb.Shape("box", (.03, .03, .03))], "iiwa14", "arm", 7).id
        o = pbu.create_box(*rng.uniform(.02, .1, 3))
        things = []
        crowd = rng.random() < .1
        for _ in range(int(rng.integers(7, 25)) if crowd else int(rng.integers(0, 4))):
            b = pbu.create_box(*rng.uniform(.05, .1 if crowd else .4, 3))
            pbu.set_pose(b, pbu.Pose(rng.uniform(-.5, .5, 3), rng.uniform(-1, 1, 3)))
            things.append(b)
        cut = int(rng.integers(0, len(things) + 1))
        fixed = things[:cut]
        pose = kp.BodyPose(o, pbu.Pose(rng.uniform(-.4, .4, 3), rng.uniform(-1, 1, 3)))
        if fixed and rng.random() < .3:
            pbu.set_point(fixed[int(rng.integers(len(fixed)))], np.array(pose.pose[0]) + rng.uniform(-.15, .15, 3))
        grasp = kp.BodyGrasp(o, pbu.Pose(rng.uniform(-.1, .1, 3), rng.uniform(-3, 3, 3)), pbu.Pose(.01 * pbu.Point(z=1)), robot, 6)
        fails = int(rng.choice([0, 0, 0, 1, 2, 5, 9, 10, 11, 30, 10 ** 9]))
        left = [fails]

        def reach(p, left=left):
            left[0] -= 1
            return left[0] < 0
        tb.REACHABLE[0] = reach
        n = int(rng.choice([1, 3, 10, 10, 25]))
        kw = {} if n == 10 else dict(num_attempts=n)
        if rng.random() < .5:
            kw["randomize"] = bool(rng.random() < .5)
        tb.EVENTS.clear()
        others = {b: p for b, p in snapshot(tb).items() if b != robot}
        out = kp.get_ik_fn(robot, o, pose, grasp, fixed=list(fixed), teleport=bool(rng.random() < .5), **kw)
        asked = sum(e[0] == "ik" for e in tb.EVENTS)
        tool = pbu.multiply(pose.pose, pbu.invert(grasp.grasp_pose))
        want = pbu.multiply(grasp.approach_pose, tool)
        tb.REACHABLE[0] = None
        pbu.inverse_kinematics(robot, 6, want)
        hit = [tb.collide(robot, b) for b in fixed]
        close = any(tb.collide(robot, b, 1e-6) != h for b, h in zip(fixed, hit))
        mon.case((i, mon.shard, "ik"))
        detail = dict(failures=fails, attempts=n, collides=any(hit), options=kw)
        mon.expect(asked <= n, "too-many-attempts", asked=asked, **detail)
        mon.expect(all(snapshot(tb)[b] == p for b, p in others.items()), "bystander-moved", **detail)
        if close:
            continue
        possible = fails < n and not any(hit)
        mon.expect((out is not None) == possible, "ik-verdict", found=out is not None, asked=asked, **detail)
        if out is None:
            mon.expect(asked == n, "gave-up-early", asked=asked, **detail)
            mon.count("ik_collides" if any(hit) else "ik_unreachable")
            continue
        mon.count("ik_found")
        mon.expect(out.body == robot and list(out.joints) == list(range(7)), "conf-of-other-body", body=out.body, joints=out.joints)
        tb.BODIES[robot].q = [0.0] * 7
        out.assign()
        mon.expect(near(tb, tb.BODIES[robot].tool(), want, 1e-7), "conf-misses-grasp", got=tb.BODIES[robot].tool(), want=want, **detail)
        mon.count("ik_retried", fails > 0)


# ============================================================================ motions
def transits(mon, rng, tb, pbu, kp):
    for i in range(mon.n(2400, 24000)):
        tb.clear()
        robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
        bodies = [pbu.create_box(.1, .1, .1) for _ in range(6 if rng.random() < .9 else 40)]
        for b in bodies:
            pbu.set_pose(b, pbu.Pose(rng.uniform(-9, 9, 3)))
        nf = int(rng.integers(0, 4))
        fixed = bodies[:nf]
        poses = {b: kp.BodyPose(b, pbu.Pose(rng.uniform(-3, 3, 3), rng.uniform(-1, 1, 3))) for b in bodies[3:] if rng.random() < .5}
        fluents = [("atpose", b, p) for b, p in poses.items()]
        joints = list(range(7)) if rng.random() < .7 else [0, 1, 2]
        c1 = kp.BodyConf(robot, tuple(float(v) for v in rng.uniform(-1, 1, len(joints))), joints)
        c2 = kp.BodyConf(robot, tuple(float(v) for v in rng.uniform(-1, 1, len(joints))), joints)
        for j in range(7):
            tb.BODIES[robot].q[j] = float(rng.uniform(-1, 1))
        holding, teleport = bool(rng.random() < .5), bool(rng.random() < .2)
        selfc = bool(rng.random() < .5)
        path = None if rng.random() < .25 else [c1.configuration] + [tuple(float(v) for v in rng.uniform(-1, 1, len(joints))) for _ in range(int(rng.integers(0, 4)) if rng.random() < .97 else int(rng.integers(30, 200)))] + [c2.configuration]
        seen = []

        def plan(body, jn, start, end, obstacles, attachments):
            seen.append((body, list(jn), start, end, set(obstacles), [(a.parent, a.parent_link, a.child, a.grasp_pose) for a in attachments], {b: pbu.get_pose(b) for b in poses}))
            return path
        tb.PLANNER[0] = plan
        tb.EVENTS.clear()
        held = bodies[3]
        grasp = kp.BodyGrasp(held, pbu.Pose(rng.uniform(-.1, .1, 3), rng.uniform(-1, 1, 3)), pbu.Pose(.01 * pbu.Point(z=1)), robot, 6)
        kw = dict(teleport=teleport)
        if rng.random() < .7:
            kw["self_collisions"] = selfc
        else:
            selfc = True
        gen = (kp.get_holding_motion_gen if holding else kp.get_free_motion_gen)(robot, list(fixed), **kw)
        args = (c1, c2, held, grasp) if holding else (c1, c2)
        out = gen(*args, fluents=list(fluents)) if fluents or rng.random() < .5 else gen(*args)
        mon.case((i, mon.shard, "transit"))
        detail = dict(holding=holding, teleport=teleport, fixed=fixed, fluents=[f[1] for f in fluents])
        mon.sample(detail)
        if teleport:
            mon.count("teleports")
            want = [c1.configuration, c2.configuration]
            mon.expect(not seen, "planned-teleport", **detail)
        else:
            want = path
            ok = len(seen) == 1
            mon.expect(ok, "plans-made", made=len(seen), **detail)
            if ok:
                body, jn, start, end, obstacles, att, at = seen[0]
                mon.expect(body == robot and jn == joints, "planned-other-joints", got=(body, jn), **detail)
                mon.expect(np.allclose(start, c1.configuration) and np.allclose(end, c2.configuration), "planned-other-ends", start=start, end=end, **detail)
                mon.expect(obstacles == set(fixed) | set(poses), "obstacles-missed", got=obstacles, want=set(fixed) | set(poses), **detail)
                for b, p in poses.items():
                    mon.expect(near(tb, at[b], p.pose), "obstacle-misplaced", body=b, got=at[b], want=p.pose, **detail)
                    mon.count("obstacles_placed")
                mon.expect(len(att) == int(holding) and (not holding or (att[0][:3] == (robot, 6, held) and near(tb, att[0][3], grasp.grasp_pose))), "held-object-forgotten", got=att, **detail)
                ev = [e for e in tb.EVENTS if e[0] == "plan"][0]
                mon.expect(bool(ev[7]) == selfc, "self-collisions", got=ev[7], want=selfc, **detail)
        if want is None:
            mon.expect(out is None, "plan-without-path", got=out, **detail)
            mon.count("transit_failures")
            continue
        if not mon.expect(isinstance(out, tuple) and len(out) == 1, "no-command", got=out, **detail):
            continue
        parts = out[0].body_paths
        if not mon.expect(len(parts) == 1, "command-parts", got=len(parts), **detail):
            continue
        p = parts[0]
        mon.expect(p.body == robot and list(p.joints) == joints and [tuple(q) for q in p.path] == [tuple(q) for q in want], "command-path", got=p.path, want=want, **detail)
        mon.expect([a.body for a in p.attachments] == ([held] if holding else []), "command-attachments", got=[a.body for a in p.attachments], **detail)
        mon.count("transfers" if holding else "transits")
        # configurations of other bodies or joints, and fluents of other kinds, are refused
        if rng.random() < .2 and not teleport:
            bad = kp.BodyConf(robot, (0.0,) * 2, [0, 1])
            for a, kind in (((c1, bad) + args[2:], "joints"), (args, "fluent")):
                try:
                    gen(*a, fluents=[("atgrasp", held, grasp)] if kind == "fluent" else [])
                    mon.violate("refused-" + kind, **detail)
                except (AssertionError, ValueError):
                    mon.count("motions_refused")


def rover_motions(mon, rng, tb, pbu, st):
    """The library-planned motion stream of the rover: everything that is there is handed on."""
    from pybullet_tools.pr2_primitives import Trajectory
    for i in range(mon.n(800, 8000)):
        tb.clear()
        rover = pbu.load_model(pbu.TURTLEBOT_URDF)
        bodies = [pbu.create_box(.1, .1, .1) for _ in range(5 if rng.random() < .9 else 40)]
        fixed = bodies[:int(rng.integers(0, 3))]
        moved = {}
        poses = {}
        for b in bodies[2:]:
            if rng.random() < .5:
                poses[b] = pbu.Pose(rng.uniform(-3, 3, 3))
                moved[b] = SimpleNamespace(assign=lambda b=b: pbu.set_pose(b, poses[b]))
        fl = [("atpose", b, p) for b, p in moved.items()]
        hold = rng.random() < .4
        if hold:
            fl.insert(int(rng.integers(0, len(fl) + 1)), ("atgrasp", rover, bodies[4], SimpleNamespace(value=pbu.Pose(rng.uniform(-.1, .1, 3)))))

        class Q:
            def __init__(self, v):
                self.joints, self.values = (0, 1, 2), v

            def assign(self):
                pbu.set_joint_positions(rover, self.joints, self.values)
        q1, q2 = (Q(tuple(float(v) for v in rng.uniform(-1, 1, 3))) for _ in range(2))
        path = None if rng.random() < .3 else [q1.values, tuple(float(v) for v in rng.uniform(-1, 1, 3)), q2.values]
        seen = []

        def plan(body, jn, start, end, obstacles, attachments):
            seen.append((body, tuple(jn), start, end, set(obstacles), [(a.parent, a.child) for a in attachments], {b: pbu.get_pose(b) for b in moved}))
            return path
        tb.PLANNER[0] = plan
        coll, tele = bool(rng.random() < .7), bool(rng.random() < .2)
        fn = st.get_motion_fn(SimpleNamespace(fixed=list(fixed)), collisions=coll, teleport=tele, holonomic=bool(rng.random() < .5))
        out = fn(rover, q1, q2, fluents=fl)
        mon.case((i, mon.shard, "rover-motion"))
        mon.count("rover_motions")
        detail = dict(fixed=fixed, moved=list(moved), collisions=coll, teleport=tele, holding=bool(hold))
        if tele:
            mon.expect(not seen and isinstance(out[0], Trajectory) and list(out[0].path) == [q1, q2], "teleport-path", **detail)
            continue
        if not mon.expect(len(seen) == 1, "plans-made", made=len(seen), **detail):
            continue
        body, jn, start, end, obstacles, att, at = seen[0]
        mon.expect(body == rover and jn == (0, 1, 2) and np.allclose(start, q1.values) and np.allclose(end, q2.values), "planned-other-ends", start=start, end=end, **detail)
        mon.expect(obstacles == ((set(fixed) | set(moved)) if coll else set()), "obstacles-missed", got=obstacles, **detail)
        mon.expect(all(near(tb, at[b], poses[b]) for b in moved), "obstacle-misplaced", got=at, want={b: poses[b] for b in moved}, **detail)
        mon.expect(att == ([(rover, bodies[4])] if hold else []), "held-object-forgotten", got=att, **detail)
        if path is None:
            mon.expect(out is None, "plan-without-path", got=out, **detail)
        else:
            mon.expect(out is not None and [tuple(c.values) for c in out[0].path] == path, "command-path", **detail)


# ============================================================================ collisions with movable objects
def movable_test(mon, rng, tb, pbu, kp):
    test = kp.get_movable_collision_test()
    for i in range(mon.n(1600, 16000)):
        tb.clear()
        robot = tb.Body([tb.Shape("box", tuple(rng.uniform(.02, .06, 3)))], "iiwa14", "arm", 7).id
        rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=.3)
        objs = [pbu.create_box(*rng.uniform(.02, .12, 3)) for _ in range(4)]
        for o in objs:
            pbu.set_pose(o, pbu.Pose(rng.uniform(-9, -8, 3)))
        target = objs[0]
        parts = []
        where = rng.uniform(-.3, .3, 3)
        for _ in range(int(rng.choice([0, 1, 1, 2, 3]))):
            r = rng.random()
            if r < .15:
                parts.append(kp.Attach(objs[1], robot, 6))
                continue
            b = robot if r < .85 else rover
            n = int(rng.choice([1, 2, 4]))
            stray = rng.random() < .05      # a long path that is close only for a moment
            if stray:
                n = int(rng.integers(20, 90))
                near_at = int(rng.integers(n))
            dim = len(tb.BODIES[b].q)
            path = [tuple(float(v) for v in np.concatenate([where + rng.uniform(-.25, .25, 3), rng.uniform(-1, 1, max(0, dim - 3))])[:dim]) for _ in range(n)]
            if stray:
                path = [tuple(float(v) for v in np.concatenate([where + rng.uniform(-.04, .04, 3) if k == near_at else rng.uniform(3, 6, 3), q[3:]])[:dim]) for k, q in enumerate(path)]
                mon.count("long_paths")
            att = [kp.BodyGrasp(o, pbu.Pose(rng.uniform(-.15, .15, 3), rng.uniform(-1, 1, 3)), pbu.Pose(.01 * pbu.Point(z=1)), robot, 6)
                   for o in objs[1:] if b == robot and rng.random() < .3]
            parts.append(kp.BodyPath(b, path, list(range(dim)), att))
        own = rng.random() < .1 and any(isinstance(p, kp.BodyPath) for p in parts)
        if own:
            k = next(k for k, p in enumerate(parts) if isinstance(p, kp.BodyPath))
            p = parts[k]
            if p.body == robot:
                p.attachments = list(p.attachments) + [kp.BodyGrasp(target, pbu.Pose(), pbu.Pose(), robot, 6)]
            else:
                own = False
        cmd = kp.Command([p for p in parts if isinstance(p, kp.BodyPath)])
        pose = kp.BodyPose(target, pbu.Pose(where + rng.uniform(-.1, .1, 3), rng.uniform(-1, 1, 3)))
        # by brute force in the same world
        hit = close = False
        if not own:
            for p in cmd.body_paths:
                for q in p.path:
                    tb.BODIES[target].pose = (tuple(float(v) for v in pose.pose[0]), tuple(pose.pose[1]))
                    tb.BODIES[p.body].q[:len(q)] = list(q)
                    for g in p.attachments:
                        pbu.set_pose(g.body, pbu.multiply(tb.BODIES[robot].tool(), g.grasp_pose))
                    for m in [p.body] + [g.body for g in p.attachments]:
                        h = tb.collide(m, target)
                        hit |= h
                        close |= h != tb.collide(m, target, 1e-6)
        for o in objs:
            pbu.set_pose(o, pbu.Pose(rng.uniform(-9, -8, 3)))
        for b in (robot, rover):
            tb.BODIES[b].q = [-5.0] * len(tb.BODIES[b].q)
        got = test(cmd, target, pose)
        mon.case((i, mon.shard, "movable"), nontrivial=bool(cmd.body_paths))
        detail = dict(parts=len(cmd.body_paths), own=bool(own))
        if own:
            mon.expect(not got, "collides-with-itself", **detail)
            mon.count("own_object")
        elif not (close and bool(got) != hit):
            mon.expect(bool(got) == hit, "movable-verdict", got=got, want=hit, **detail)
            mon.count("movable_hit" if hit else "movable_free")


# ============================================================================ captured states
def states(mon, rng, tb, pbu, kp, pr):
    for i in range(mon.n(800, 8000)):
        tb.clear()
        robot, rover, box = pbu.load_model(pbu.DRAKE_IIWA_URDF), pbu.load_model(pbu.TURTLEBOT_URDF), pbu.create_box(.1, .1, .1)
        caught = []
        for step in range(int(rng.integers(2, 7))):
            pbu.set_pose(box, pbu.Pose(rng.uniform(-3, 3, 3), rng.uniform(-3, 3, 3)))
            for b in (robot, rover):
                tb.BODIES[b].q = [float(v) for v in rng.uniform(-1, 1, len(tb.BODIES[b].q))]
            r = int(rng.integers(6))
            joints = sorted(int(j) for j in rng.choice(7, size=int(rng.integers(1, 8)), replace=False))
            bj = [0, 1] if rng.random() < .5 else [0, 1, 2]
            if r == 0:
                c, want = kp.BodyPose(box), ("pose", box, pbu.get_pose(box))
            elif r == 1:
                p = pbu.Pose(rng.uniform(-3, 3, 3), rng.uniform(-1, 1, 3))
                c, want = kp.BodyPose(box, p), ("pose", box, p)
            elif r == 2:
                c, want = kp.BodyConf(robot), ("conf", robot, list(range(7)), list(tb.BODIES[robot].q))
            elif r == 3:
                c, want = kp.BodyConf(robot, joints=joints), ("conf", robot, joints, [tb.BODIES[robot].q[j] for j in joints])
            elif r == 4:
                v = tuple(float(x) for x in rng.uniform(-1, 1, len(joints)))
                c, want = kp.BodyConf(robot, v, joints), ("conf", robot, joints, list(v))
            else:
                if rng.random() < .5:
                    c, want = pr.Conf(rover, bj), ("conf", rover, bj, [tb.BODIES[rover].q[j] for j in bj])
                else:
                    v = tuple(float(x) for x in rng.uniform(-1, 1, len(bj)))
                    c, want = pr.Conf(rover, bj, v), ("conf", rover, bj, list(v))
            caught.append((c, want))
        # every captured state comes back as it was, whatever happened since
        for k in rng.permutation(len(caught)):
            c, want = caught[k]
            before = snapshot(tb)
            c.assign()
            after = snapshot(tb)
            if want[0] == "pose":
                mon.expect(near(tb, after[want[1]][0], want[2]), "pose-not-restored", got=after[want[1]][0], want=want[2])
                mon.expect(c.body == want[1] and near(tb, c.pose, want[2]), "pose-fields", got=c.pose, want=want[2])
            else:
                now = [after[want[1]][1][j] for j in want[2]]
                mon.expect(np.allclose(now, want[3], atol=1e-12), "conf-not-restored", got=now, want=want[3])
                rest = [j for j in range(len(after[want[1]][1])) if j not in want[2]]
                mon.expect(all(after[want[1]][1][j] == before[want[1]][1][j] for j in rest), "other-joints-moved", joints=want[2])
                mon.expect(np.allclose(c.values, want[3], atol=1e-12), "conf-fields", got=c.values, want=want[3])
            mon.expect(all(after[b] == before[b] for b in after if b != want[1]), "bystander-moved", state=want[0])
            mon.count("states_restored")
        mon.case((i, mon.shard, "states"))


def primitives(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    st, pr = load("turtlebot_move", "streams", "problems")
    kp = load("kuka_carry", "kuka_primitives")
    placements(mon, mon.rng("placements"), tb, pbu, kp)
    rover_placements(mon, mon.rng("rover-placements"), tb, pbu, pr)
    grasps(mon, mon.rng("grasps"), tb, pbu, kp)
    arm_confs(mon, mon.rng("ik"), tb, pbu, kp)
    transits(mon, mon.rng("transits"), tb, pbu, kp)
    rover_motions(mon, mon.rng("rover-motions"), tb, pbu, st)
    movable_test(mon, mon.rng("movable"), tb, pbu, kp)
    states(mon, mon.rng("states"), tb, pbu, kp, pr)
