"""What the task planner is told (C48): facts, goals and streams, judged against the world they were made from."""
import contextlib
import io
import math
import random

import numpy as np
from checks.tamp_load import load
from checks.tamp_pddl import read, key
from checks.tamp_streams import instrument, LOG, SCRIPT
import checks.tamp_streams as ts

ROADMAPS = []


def watch_roadmaps():
    """Remembers what every roadmap is built on."""
    import nonasymptotic.prm as prm
    instrument()
    base = prm.SimpleNearestNeighborRadiusPRM

    class Watched(base):
        def __init__(self, *a, **k):
            names = ("k_neighbors", "valid", "sample")
            got = dict(zip(names, a))
            ROADMAPS.append({"valid": a[1] if len(a) > 1 else k.get("check_motion_valid", k.get("motion_valid")), "self": self})
            super().__init__(*a, **k)
            del got
    prm.SimpleNearestNeighborRadiusPRM = Watched


def facts_of(problem, name):
    return [f for f in problem.init if f[0].lower() == name.lower()]


def declared(mon, problem, dom, streams, **detail):
    """Every fact and goal that uses a declared predicate has its number of arguments (others are inert); every stream is there."""
    static = {l[0]: len(l) - 1 for s in streams.values() for l in s["domain"] + s["certified"]}
    goal = [g for g in problem.goal[1:]] if str(problem.goal[0]).lower() == "and" else [problem.goal]
    for f in list(problem.init) + goal:
        p = str(f[0]).lower()
        n = dom["predicates"].get(p, static.get(p))
        mon.expect(n is None or n == len(f) - 1, "other-arity", fact=(f[0], len(f) - 1), want=n, **detail)
        mon.count("facts_read")
    mon.expect(set(problem.stream_map) == set(streams), "stream-map", got=sorted(problem.stream_map), want=sorted(streams), **detail)
    return goal


def call(problem, streams, name, *args, fluents=None):
    """All answers of a stream as the planner sees them."""
    kw = {"fluents": fluents} if streams[name]["fluents"] and fluents is not None else {}
    out = []
    for batch in problem.stream_map[name](*args, **kw):
        out += [tuple(o) for o in batch]
    return out


# ============================================================================ rover
def rover_problems(mon, rng, tb, pbu, pr, run):
    dom, streams = read("turtlebot_move")
    from nonasymptotic.bound import compute_numerical_bound
    quiet = io.StringIO()
    for i in range(mon.n(160, 1600)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        np.random.seed(int(rng.integers(2 ** 31)))
        k, dd = int(rng.choice([1, 2, 3, 3, 5, 8])), float(rng.uniform(.05, .3))
        lo, hi, factor = ts.schedule(rng)
        hi = min(hi, lo + 900)
        adaptive, tele = bool(rng.random() < .3), bool(rng.random() < .3)
        detail = dict(num_target=k, dd=dd, min_samples=lo, max_samples=hi, factor=factor, adaptive=adaptive)
        with contextlib.redirect_stdout(quiet):
            world = pr.hallway_manip(robot_scale=.3, dd=dd, num_target=k)
            here = {t: pbu.get_pose(t) for t in world.targets}
            at = tuple(tb.BODIES[world.rover].q)
            prob = run.pddlstream_from_problem(world, collisions=True, teleport=tele, holonomic=True, reversible=True, use_aabb=True, min_samples=lo, max_samples=hi,
                                               factor=factor, adaptive_n=adaptive, animate=False, save_dir=None)
        mon.case((i, mon.shard, "rover", k, dd))
        mon.sample(detail)
        goal = declared(mon, prob, dom, streams, folder="turtlebot_move", **detail)
        mon.expect({f[1] for f in facts_of(prob, "target")} == set(world.targets), "targets", got=facts_of(prob, "target"), **detail)
        confs = facts_of(prob, "atconf")
        ok = len(confs) == 1 and confs[0][1] == world.rover and np.allclose(confs[0][2].values, at[:2])
        mon.expect(ok, "robot-place", got=[getattr(f[2], "values", f) for f in confs], at=at, **detail)
        mon.expect(any(f[2] is confs[0][2] for f in facts_of(prob, "conf")), "conf-undeclared", **detail)
        mon.expect([f[1] for f in facts_of(prob, "rover")] == [world.rover] and len(facts_of(prob, "hfree")) == 1, "robot-facts", **detail)
        mon.expect(not facts_of(prob, "holding"), "holds-something", **detail)
        poses = facts_of(prob, "pose")
        for t in world.targets:
            now = [f for f in facts_of(prob, "atpose") if f[1] == t]
            ok = len(now) == 1 and np.allclose(now[0][2].pose[0], here[t][0]) and np.allclose(now[0][2].pose[1], here[t][1])
            mon.expect(ok, "object-place", got=[f[2].pose for f in now], at=here[t], **detail)
            want = [g for g in goal if g[0].lower() == "atpose" and g[1] == t]
            ok = len(want) == 1 and want[0][2] is world.target_goal_poses[world.targets.index(t)]
            mon.expect(ok, "goal", got=[g[2].pose for g in want], **detail)
            mine = [f[2] for f in poses if f[1] == t]
            mon.expect(len(now) == 1 and len(want) == 1 and any(p is now[0][2] for p in mine) and any(p is want[0][2] for p in mine), "pose-undeclared", **detail)
            mon.count("objects_judged")
        mon.expect(len(goal) == k, "goal-count", goals=len(goal), **detail)
        # the streams: shape, budget, load
        t = world.targets[int(rng.integers(k))]
        gp = [f[2] for f in poses if f[1] == t]
        with contextlib.redirect_stdout(quiet):
            confs_ = [call(prob, streams, "sample-ik", world.rover, t, p) for p in gp]
        mon.expect(all(len(c) == 1 and len(c[0]) == 1 and np.allclose(np.asarray(c[0][0].values, float)[:2], np.asarray(p.pose[0])[:2]) for c, p in zip(confs_, gp)), "ik-stream", **detail)
        q2 = confs_[0][0][0]
        q1 = confs[0][2]
        th = int(rng.choice([2, hi, hi + 1]))
        for name, load_ in (("sample-motion", None), ("sample-motion-holding", t)):
            LOG.clear()
            ROADMAPS.clear()
            SCRIPT[0] = (10 ** 18 if adaptive else th, lambda a, b: np.array([(a + b) / 2]))
            args = (world.rover, q1, q2) + ((load_,) if load_ is not None else ())
            if tb_free(tb, pbu, world, load_ or world.rover, (q1, q2)):
                with contextlib.redirect_stdout(quiet):
                    try:
                        out = call(prob, streams, name, *args)
                    except Exception as e:      # noqa: BLE001
                        mon.violate("stream-failed", stream=name, exception=repr(e), **detail)
                        continue
                asked = ts.asked()
                budget = hi
                if adaptive:
                    w = pbu.get_aabb_extent(pbu.get_aabb(load_ or world.rover))[0]
                    budget = compute_numerical_bound(world.hallway_gap - w + .05, .99, 16, 2, None)[0]
                mon.expect(all(n <= budget for n, _ in asked) and bool(asked), "stream-over-budget", stream=name, asked=asked[-3:], budget=budget, **detail)
                if not adaptive:
                    mon.expect((len(out) == 1) == (th <= hi), "stream-budget", stream=name, found=len(out), threshold=th, **detail)
                    mon.expect(asked[0][0] == lo or lo < 2, "stream-start", stream=name, asked=asked[:2], **detail)
                    grown = [n for n, _ in asked]
                    if factor > 1.3 and len(grown) > 2:
                        steps = [b / a for a, b in zip(grown[:-1], grown[1:-1]) if a > 20]
                        mon.expect(all(abs(s - factor) < .2 for s in steps), "stream-growth", stream=name, grown=grown, **detail)
                else:
                    mon.expect(asked and asked[-1][0] == budget, "stream-budget", stream=name, asked=asked[-2:], budget=budget, **detail)
                mon.expect(all(len(o) == len(streams[name]["outputs"]) for o in out), "stream-outputs", stream=name, got=[len(o) for o in out], **detail)
                # what the roadmap asks about is the shape that moves
                if ROADMAPS:
                    shape_probe(mon, tb, pbu, world, ROADMAPS[-1]["valid"], load_ or world.rover, rng, detail)
                mon.count("streams_called")
        quiet.truncate(0)
        quiet.seek(0)
        if mon.hurry():
            break


def tb_free(tb, pbu, world, body, confs):
    e = pbu.get_aabb_extent(pbu.get_aabb(body)) / 2
    for q in confs:
        c = np.asarray(q.values, float)[:2]
        for o in world.obstacles:
            lo, up = pbu.get_aabb(o)
            if np.all(c - e[:2] < np.array(up[:2]) + 1e-6) and np.all(c + e[:2] > np.array(lo[:2]) - 1e-6):
                return False
    return True


def shape_probe(mon, tb, pbu, world, valid, body, rng, detail):
    """Placements just clear of a wall and just in it, for the shape that moves."""
    e = pbu.get_aabb_extent(pbu.get_aabb(body))[:2] / 2
    hits = []
    for _ in range(40):
        o = world.obstacles[int(rng.integers(len(world.obstacles)))]
        lo, up = (np.array(v[:2]) for v in pbu.get_aabb(o))
        c = rng.uniform(lo, up)
        ax, sg = int(rng.integers(2)), int(rng.choice([-1, 1]))
        gap = float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-4, -2))
        c[ax] = (up if sg > 0 else lo)[ax] + sg * (e[ax] + gap)
        boxes = [(np.array(pbu.get_aabb(w)[0][:2]), np.array(pbu.get_aabb(w)[1][:2])) for w in world.obstacles]
        d = max(min((c - e - b1).min() if False else -max((b0 - (c + e)).max(), ((c - e) - b1).max()), 1e9) for b0, b1 in boxes)     # > 0: overlaps
        if abs(d) < 1e-5:
            continue
        hits.append((c, d > 0))
    if not hits:
        return
    P = np.array([c for c, _ in hits])
    got = np.asarray(valid(P, P)).ravel()
    for (c, hit), v in zip(hits, got):
        if not mon.expect(bool(v) != hit, "stream-other-shape", body=body, at=c, collides=hit, **detail):
            break
        mon.count("probes")


# ============================================================================ arm
def arm_problems(mon, rng, tb, pbu, run):
    dom, streams = read("kuka_carry")
    quiet = io.StringIO()
    for i in range(mon.n(96, 900)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        np.random.seed(int(rng.integers(2 ** 31)))
        gap = float(rng.uniform(.02, .12))
        with contextlib.redirect_stdout(quiet):
            robot, names, movable, sink_oobbs, fixed, links = run.load_world(min_gap=gap)
        movable = movable[:int(rng.integers(1, len(movable) + 1))]
        bins = [b for b in fixed if "sink" in names[b]]
        lost = None
        r = rng.random()
        if r < .15:         # the arm does not reach one of the bins
            lost = int(rng.integers(len(bins)))
            at = np.array(pbu.get_point(bins[lost])[:2])
            tb.REACHABLE[0] = lambda pose, at=at, gap=gap: np.abs(np.asarray(pose[0][:2]) - at).max() > .5 * (.06 + gap)
        elif r < .25:       # or one of the objects
            lost = int(rng.integers(len(movable)))
            at = np.array(pbu.get_point(movable[lost])[:2])
            tb.REACHABLE[0] = lambda pose, at=at: np.abs(np.asarray(pose[0][:2]) - at).max() > 1e-6
        lo, hi, factor = ts.schedule(rng)
        hi = min(hi, lo + 300)
        buffer, margin = float(rng.uniform(0, .04)), float(rng.uniform(.05, .3))
        detail = dict(min_gap=gap, objects=len(movable), lost=lost, min_samples=lo, max_samples=hi, factor=factor)
        here = {b: pbu.get_pose(b) for b in movable}
        with contextlib.redirect_stdout(quiet):
            prob = run.pddlstream_from_problem(robot, names=names, placement_links=links, movable=list(movable), sink_obstacle_oobbs=sink_oobbs, fixed=list(fixed), teleport=False,
                                               min_samples=lo, max_samples=hi, factor=factor, adaptive_n=False, collision_buffer=buffer, theta_margin=margin)
        tb.REACHABLE[0] = None
        mon.case((i, mon.shard, "arm", gap))
        if lost is not None:
            beyond = lost >= len(movable) and r < .15
            mon.expect((prob is None) == (not beyond), "unreachable-problem", posed=prob is not None, **detail)
            mon.count("unreachable_refused", prob is None)
            if prob is None:
                continue
        if not mon.expect(prob is not None, "no-problem", **detail):
            continue
        goal = declared(mon, prob, dom, streams, folder="kuka_carry", **detail)
        at = facts_of(prob, "atconf")
        ok = len(at) == 1 and len(at[0][1].values) == 7 and np.allclose(at[0][1].values, run.DEFAULT_ARM_POS) and at[0][1].body == robot
        mon.expect(ok, "robot-place", got=[f[1].values for f in at], **detail)
        mon.expect(len(facts_of(prob, "handempty")) == 1 and len(facts_of(prob, "canmove")) == 1 and not facts_of(prob, "atgrasp") and not facts_of(prob, "cleaned") and not facts_of(prob, "cooked"), "hand-facts", **detail)
        mon.expect({f[1] for f in facts_of(prob, "sink")} == set(bins), "sink-facts", got=facts_of(prob, "sink"), **detail)
        mon.expect({names[f[1]] for f in facts_of(prob, "stove")} <= {"stove"}, "stove-facts", **detail)
        conf_ids = {id(f[1]) for f in facts_of(prob, "conf")}
        pose_ids = {(f[1], id(f[2])) for f in facts_of(prob, "pose")}
        mon.expect(id(at[0][1]) in conf_ids if at else False, "conf-undeclared", **detail)
        mon.expect({f[1] for f in facts_of(prob, "graspable")} == set(movable), "graspable-facts", **detail)
        mon.expect(any(g[0].lower() == "atconf" and g[1] is at[0][1] for g in goal) and {g[1] for g in goal if g[0].lower() == "cleaned"} == set(movable) and len(goal) == len(movable) + 1, "goal", got=[g[0] for g in goal], **detail)
        for f in facts_of(prob, "stackable"):
            mon.expect(f[2] in bins or names[f[2]] == "stove", "stackable-facts", got=f, **detail)
        # every claim that the arm can hold an object somewhere
        snap = {b: (w.pose, list(w.q)) for b, w in tb.BODIES.items()}
        kins = facts_of(prob, "kin")
        for _, b, p, g, q in kins:
            want = pbu.multiply(g.approach_pose, pbu.multiply(p.pose, pbu.invert(g.grasp_pose)))
            q.assign()
            tool = tb.BODIES[robot].tool()
            ok = np.allclose(tool[0], want[0], atol=1e-7) and np.allclose(tb.matrix_from_quat(tool[1]), tb.matrix_from_quat(want[1]), atol=1e-7)
            mon.expect(ok and q.body == robot and g.body == b and p.body == b, "kin-untrue", body=b, tool=tool, want=want, **detail)
            mon.expect(not any(tb.collide(robot, o) for o in fixed), "kin-collides", body=b, **detail)
            mon.expect((b, id(p)) in pose_ids and id(q) in conf_ids and any(f[1] == b and f[2] is g for f in facts_of(prob, "grasp")), "kin-undeclared", body=b, **detail)
            mon.count("kin_judged")
        supported = {}
        for _, b, p, s in facts_of(prob, "supported"):
            pbu.set_pose(b, p.pose)
            box, bottom = pbu.get_aabb(b), pbu.get_aabb(s, links[s])
            ok = np.all(np.array(box[0][:2]) >= np.array(bottom[0][:2]) - 1e-9) and np.all(np.array(box[1][:2]) <= np.array(bottom[1][:2]) + 1e-9) and -1e-9 <= box[0][2] - bottom[1][2] < .011
            mon.expect(ok and p.body == b, "supported-untrue", body=b, box=box, surface=bottom, **detail)
            if names[s].startswith("sink"):
                mon.expect(not any(tb.collide(b, o) for o in fixed), "supported-collides", body=b, **detail)
            supported.setdefault(b, []).append((p, s))
            mon.count("supported_judged")
        pre, post = ({id(f[1]) for f in facts_of(prob, n)} for n in ("preinsert", "postinsert"))
        mon.expect(not pre & post and (pre | post) <= conf_ids, "insert-facts", **detail)
        taken = []
        for b in movable:
            now = [f for f in facts_of(prob, "atpose") if f[1] == b]
            ok = len(now) == 1 and np.allclose(now[0][2].pose[0], here[b][0]) and np.allclose(now[0][2].pose[1], here[b][1])
            mon.expect(ok and (b, id(now[0][2])) in pose_ids, "object-place", body=b, got=[f[2].pose for f in now], at=here[b], **detail)
            gr = [f[2] for f in facts_of(prob, "grasp") if f[1] == b]
            mon.expect(len(gr) >= 1, "no-grasp", body=b, **detail)
            mon.expect(any(k[1] == b and k[2] is now[0][2] for k in kins), "object-not-held", body=b, **detail)
            k_post = [k for k in kins if k[1] == b and id(k[4]) in post]
            k_pre = [k for k in kins if k[1] == b and id(k[4]) in pre]
            if not mon.expect(len(k_post) >= 1 and len(k_pre) >= 1, "no-insertion", body=b, **detail):
                continue
            inside = [(p, s) for p, s in supported.get(b, []) if names[s].startswith("sink") and p is k_post[0][2]]
            if not mon.expect(len(inside) == 1, "not-in-bin", body=b, **detail):
                continue
            s = inside[0][1]
            taken.append(s)
            mon.expect(any(f[1] == b and f[2] == s for f in facts_of(prob, "stackable")), "stackable-facts", body=b, bin=s, **detail)
            above = k_pre[0][2].pose[0]
            top = pbu.get_aabb(s)
            mon.expect(np.all(np.array(above[:2]) > np.array(top[0][:2])) and np.all(np.array(above[:2]) < np.array(top[1][:2])) and above[2] > k_post[0][2].pose[0][2] + .05, "not-above-bin", body=b, above=above, bin=top, **detail)
            # its insertion is planned against the walls of that bin, within the budget
            for q in (k_pre[0][4], k_post[0][4]):
                q.assign()
                mon.expect(not any(tb.collide(robot, o) for o in fixed), "insert-conf-collides", body=b, **detail)
            if rng.random() < .5:
                insertion(mon, tb, pbu, run, prob, streams, b, s, k_pre[0], k_post[0], lo, hi, rng, quiet, detail)
            mon.count("objects_judged")
        mon.expect(len(set(taken)) == len(taken), "bin-shared", bins=taken, **detail)
        for b, (p, q) in snap.items():
            tb.BODIES[b].pose, tb.BODIES[b].q = p, list(q)
        quiet.truncate(0)
        quiet.seek(0)
        if mon.hurry():
            break


def insertion(mon, tb, pbu, run, prob, streams, b, s, k_pre, k_post, lo, hi, rng, quiet, detail):
    LOG.clear()
    ROADMAPS.clear()
    th = int(rng.choice([2, hi, hi + 1]))
    SCRIPT[0] = (th, lambda a, g: np.array([g + np.array([0, 0, .05, 0, 0, 0])]))
    world = {x: w.pose for x, w in tb.BODIES.items() if x != b}
    failed = False
    out = []
    with contextlib.redirect_stdout(quiet):
        try:
            out = call(prob, streams, "plan-insert-motion", k_pre[4], k_post[4], b, k_post[3], fluents=[])
        except run.SubplanFailed:
            failed = True
        except AssertionError:
            mon.count("tight_bins")         # start or goal in collision: 1 cm above the pose that was checked
            return
        except Exception as e:      # noqa: BLE001
            mon.violate("stream-failed", stream="plan-insert-motion", exception=repr(e), **detail)
            return
    asked = ts.asked()
    mon.expect(failed == (th > hi) and (failed or (len(out) == 1 and len(out[0]) == 1)), "stream-budget", stream="plan-insert-motion", failed=failed, threshold=th, asked=asked[-2:], **detail)
    mon.expect(bool(asked) and asked[0][0] == lo and max(n for n, _ in asked) <= hi, "stream-start", asked=asked[:2], **detail)
    mon.expect(all(tb.BODIES[x].pose == p for x, p in world.items()), "bystander-moved", **detail)
    if ROADMAPS and ROADMAPS[-1]["valid"] is not None:
        # the object held with its middle in a wall of its own bin, and in the middle of the bin
        g = np.array(k_post[2].pose[0], float)
        box = pbu.get_aabb(s)
        half = (np.array(box[1]) - np.array(box[0])) / 2
        mid = (np.array(box[1]) + np.array(box[0])) / 2
        yaw = pbu.euler_from_quat(k_post[2].pose[1])
        stay = np.concatenate([[mid[0], mid[1], g[2] + .02], yaw])
        rows = []
        for ax in (0, 1):
            for sg in (-1, 1):
                f = stay.copy()
                f[ax] += sg * (half[ax] - .005)
                rows.append(f)
        valid = ROADMAPS[-1]["valid"]
        got = np.asarray(valid(np.array(rows), np.array(rows))).ravel()
        mon.expect(not got.any(), "walls-of-other-bin", body=b, bin=s, verdicts=got, at=rows, box=box, **detail)
        stay = np.array([stay])
        mon.expect(bool(np.asarray(valid(stay, stay)).ravel()[0]), "own-bin-blocked", body=b, bin=s, **detail)
        mon.count("insertions_probed")


def problems(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    watch_roadmaps()
    run2, pr = load("turtlebot_move", "run", "problems")
    run = load("kuka_carry", "run")
    rover_problems(mon, mon.rng("rover"), tb, pbu, pr, run2)
    arm_problems(mon, mon.rng("arm"), tb, pbu, run)
