"""From plans to commands (C44): what a plan becomes, and what its commands do when they run."""
import io
import contextlib
import os
import random
import re

import numpy as np
from checks.tamp_load import load, BASE


def actions_with_motion():
    """Names and parameters of the actions in the domain file, and where their motion stands."""
    txt = re.sub(r";[^\n]*", "", open(os.path.join(BASE, "kuka_carry", "domain.pddl")).read())
    acts = re.findall(r"\(:action\s+(\S+)\s+:parameters\s*\(([^)]*)\)", txt)
    return {n: p.split() for n, p in acts}


# ============================================================================ plan -> commands
def rover_plans(mon, rng, run, tb):
    from pybullet_tools.pr2_primitives import Attach, Detach
    quiet = io.StringIO()
    for i in range(mon.n(16000, 200000)):
        nv = int(rng.integers(1, 4))
        held = {}
        plan, motions, want = [], [], []
        for _ in range(int(rng.choice([0, 1, 2, 3, 4, 8, 20])) if rng.random() < .98 else int(rng.integers(30, 150))):
            v = 100 + int(rng.integers(nv))
            t = object()
            if v in held:
                o = held.pop(v)
                plan.append(("place", (v, "q1", t, "q2", "p", o)))
                want.append(("off", t, v, o))
            else:
                o = int(rng.integers(1, 6)) if rng.random() < .5 else "o%d" % rng.integers(6)
                held[v] = o
                plan.append(("pick", (v, "q1", t, "q2", "p", o)))
                want.append(("on", t, v, o))
            motions.append(t)
        if rng.random() < .5:
            from collections import namedtuple
            Action = namedtuple("Action", ["name", "args"])
            plan = [Action(*p) for p in plan]
        with contextlib.redirect_stdout(quiet):
            out = run.post_process(None, plan)
        quiet.truncate(0)
        quiet.seek(0)
        mon.case((i, mon.shard, len(plan)), nontrivial=len(plan) > 1)
        mon.count("rover_plans")
        mon.count("many_rovers", nv > 1 and len(plan) > 3)
        detail = dict(plan=[(n, a[0], a[5]) for n, a in plan])
        if not mon.expect(out is not None and [c for c in out if any(c is t for t in motions)] == motions, "motions-lost", got=out, **detail):
            continue
        mon.expect(len(out) == 2 * len(plan), "extra-commands", got=out, **detail)
        for k, (what, t, v, o) in enumerate(want):
            at = next(j for j, c in enumerate(out) if c is t)
            c = out[at + 1] if at + 1 < len(out) else None
            ok = isinstance(c, Attach if what == "on" else Detach) and c.robot == v and c.body == o and c.arm == run.BASE_LINK
            if not mon.expect(ok, "grip-order", step=k, want=(what, v, o), got=None if c is None else (type(c).__name__, c.robot, c.body, c.arm), **detail):
                break
            mon.count("grips_judged")
    # no plan, and steps that are neither
    mon.expect(run.post_process(None, None) is None, "no-plan")
    for name in ("move", "clean", "pick_up", "placed", ""):
        try:
            with contextlib.redirect_stdout(quiet):
                got = run.post_process(None, [(name, (1, 2, 3, 4, 5, 6))])
            mon.violate("unknown-step-accepted", name=name, got=got)
        except ValueError:
            mon.count("unknown_refused")


def arm_plans(mon, rng, run, kp):
    acts = actions_with_motion()
    moving = [n for n, p in acts.items() if "?t" in p]
    assert moving and len(moving) < len(acts), acts
    for i in range(mon.n(16000, 200000)):
        plan, want, k = [], [], 0
        for _ in range(int(rng.choice([0, 1, 2, 5, 12, 30])) if rng.random() < .98 else int(rng.integers(40, 200))):
            n = moving[int(rng.integers(len(moving)))] if rng.random() < .6 else list(acts)[int(rng.integers(len(acts)))]
            args = []
            for prm in acts[n]:
                if prm == "?t":
                    parts = []
                    for _ in range(int(rng.choice([0, 1, 1, 1, 2, 3]))):
                        parts.append(kp.BodyPath(1, [(float(k),) * 2], joints=[0, 1]))
                        k += 1
                    want += parts
                    args.append(kp.Command(parts))
                else:
                    args.append(prm)
            plan.append((n, tuple(args)))
            mon.count("step_" + n)
        before = [list(a.body_paths) for _, args in plan for a in args if isinstance(a, kp.Command)]
        out = run.postprocess_plan(plan)
        mon.case((i, mon.shard, "arm", len(plan)), nontrivial=len(want) > 1)
        got = list(out.body_paths)
        mon.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "paths-lost", plan=[n for n, _ in plan], got=len(got), want=len(want))
        after = [list(a.body_paths) for _, args in plan for a in args if isinstance(a, kp.Command)]
        mon.expect(before == after, "plan-changed", plan=[n for n, _ in plan])
        mon.count("arm_plans")


# ============================================================================ commands
def make_command(rng, tb, pbu, kp):
    robot = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    rover = pbu.load_model(pbu.TURTLEBOT_URDF)
    objs = [pbu.create_box(*rng.uniform(.02, .1, 3)) for _ in range(3)]
    for o in objs:
        pbu.set_pose(o, pbu.Pose(rng.uniform(-3, 3, 3), rng.uniform(-1, 1, 3)))
    parts = []
    large = rng.random() < .03
    for _ in range(int(rng.integers(10, 40)) if large else int(rng.choice([0, 1, 1, 2, 3, 6]))):
        r = rng.random()
        if r < .2:
            parts.append((kp.Attach if rng.random() < .5 else kp.Detach)(objs[int(rng.integers(3))], robot, 6))
            continue
        b = robot if r < .8 else rover
        joints = list(range(len(tb.body(b).q)))
        if rng.random() < .3:
            joints = joints[:int(rng.integers(1, len(joints)))]
        n = int(rng.choice([1, 2, 2, 3, 7])) if rng.random() < .98 else int(rng.integers(50, 200))
        path = [tuple(float(v) for v in rng.uniform(-.5, .5, len(joints))) for _ in range(n)]
        if rng.random() < .2:
            path = [path[0]] * n
        att = []
        if b == robot:
            for o in objs:
                if rng.random() < .4:
                    att.append(kp.BodyGrasp(o, pbu.Pose(rng.uniform(-.1, .1, 3), rng.uniform(-1, 1, 3)), pbu.Pose(.01 * pbu.Point(z=1)), robot, 6))
        if len(joints) == len(tb.body(b).q) and rng.random() < .3 and not att:
            parts.append(kp.BodyPath(b, path))
        else:
            parts.append(kp.BodyPath(b, path, joints, att) if att or rng.random() < .5 else kp.BodyPath(b, path, joints=joints))
    return kp.Command(parts), robot, rover, objs


def shape_of(part, kp):
    """What a command's part says, as plain data."""
    if isinstance(part, kp.BodyPath):
        return ("path", part.body, tuple(part.joints), tuple(tuple(float(x) for x in q) for q in part.path), tuple(id(a) for a in part.attachments))
    return ("on" if isinstance(part, kp.Attach) else "off" if isinstance(part, kp.Detach) else type(part).__name__, part.body, part.robot, part.link)


def shape(cmd, kp):
    return [shape_of(p, kp) for p in cmd.body_paths]


def mirrored(s):
    out = []
    for p in reversed(s):
        if p[0] == "path":
            out.append(("path", p[1], p[2], p[3][::-1], p[4]))
        else:
            out.append(({"on": "off", "off": "on"}[p[0]],) + p[1:])
    return out


def moved(s, kp, grasps):
    out = set()
    for p in s:
        if p[0] == "path":
            out |= {p[1]} | {grasps[a].body for a in p[4]}
        else:
            out |= {p[1], p[2]}
    return out


def judge_refined(mon, old, new, steps, **detail):
    """Each path keeps its later way points in order, with `steps` points evenly in between."""
    if not mon.expect(len(old) == len(new), "refined-parts", **detail):
        return
    for a, b in zip(old, new):
        if a[0] != "path":
            mon.expect(a == b, "refined-grip", was=a, now=b, **detail)
            continue
        mon.expect(a[1:3] == b[1:3] and a[4] == b[4], "refined-other-body", was=a, now=b, **detail)
        want = []
        for p, q in zip(a[3][:-1], a[3][1:]):
            p, q = np.array(p), np.array(q)
            want += [p + (q - p) * k / (steps + 1) for k in range(1, steps + 2)]
        got = list(b[3])
        if len(got) == len(want) + 1 and np.allclose(got[0], a[3][0], atol=1e-9):
            got = got[1:]           # the first way point may be kept as well
        ok = len(got) == len(want) and all(np.allclose(g, w, atol=1e-9) for g, w in zip(got, want))
        mon.expect(ok, "refined-way-points", was=a[3], now=b[3], steps=steps, **detail)
        mon.count("paths_refined")


def commands(mon, rng, tb, pbu, kp):
    for i in range(mon.n(9600, 100000)):
        tb.clear()
        cmd, robot, rover, objs = make_command(rng, tb, pbu, kp)
        s = shape(cmd, kp)
        grasps = {id(a): a for p in cmd.body_paths if isinstance(p, kp.BodyPath) for a in p.attachments}
        mon.case((i, mon.shard, repr(s)), nontrivial=len(s) > 0)
        mon.sample(dict(parts=[p[:2] for p in s]))
        mon.count("commands")
        # who moves
        mon.expect(set(cmd.bodies()) == moved(s, kp, grasps), "moved-bodies", got=cmd.bodies(), parts=s)
        for p, d in zip(cmd.body_paths, s):
            mon.expect(set(p.bodies()) == moved([d], kp, grasps), "part-bodies", got=p.bodies(), part=d)
        # backwards
        back = cmd.reverse()
        mon.expect(shape(back, kp) == mirrored(s), "reverse", was=s, now=shape(back, kp))
        mon.expect(shape(back.reverse(), kp) == s, "reverse-twice", was=s, now=shape(back.reverse(), kp))
        mon.count("grips_reversed", sum(p[0] != "path" for p in s))
        # finer
        steps = int(rng.choice([0, 1, 2, 3, 10]))
        judge_refined(mon, s, shape(cmd.refine(num_steps=steps), kp), steps)
        # finer and backwards
        back2 = shape(cmd.reverse().refine(num_steps=steps), kp)
        judge_refined(mon, mirrored(s), back2, steps)
        mon.expect(shape(cmd, kp) == s, "command-changed", was=s, now=shape(cmd, kp))
        # run it
        for how in ("execute", "step", "control"):
            run_command(mon, rng, tb, pbu, kp, cmd, s, grasps, how)
        mon.expect(shape(cmd, kp) == s, "command-changed", was=s, now=shape(cmd, kp))
        if mon.hurry():
            break


def run_command(mon, rng, tb, pbu, kp, cmd, s, grasps, how):
    """Watches the world while the command runs: every configuration is reached in order, whatever is held goes along, grips come in order."""
    tb.EVENTS.clear()
    seen = []
    start = {b: (w.pose, tuple(w.q)) for b, w in tb.BODIES.items()}
    dt = float(rng.choice([0.0, .001, .05]))
    live = bool(rng.random() < .3)
    snap = lambda: {b: (w.pose, tuple(w.q)) for b, w in tb.BODIES.items()}  # noqa: E731
    real_log = tb.log

    def log(*ev):
        real_log(*ev)
        if ev[0] in ("duration", "wait", "fix", "unfix"):
            seen.append((ev, snap()))
        elif how == "control" and ev[0] == "joints":
            seen.append((ev, snap()))
    tb.log = log
    old = {}
    for name in ("wait_if_gui", "wait_for_duration"):
        old[name] = getattr(kp, name, None)
    sleeps = []
    real_sleep = kp.time.sleep if hasattr(kp, "time") else None
    try:
        if real_sleep:
            kp.time.sleep = lambda d: sleeps.append(d)
        if how == "execute":
            cmd.execute(time_step=dt)
        elif how == "step":
            cmd.step()
        else:
            cmd.control(real_time=live, dt=dt)
    finally:
        tb.log = real_log
        if real_sleep:
            kp.time.sleep = real_sleep
    k = 0
    detail = dict(how=how, parts=[p[:2] + (len(p[3]),) if p[0] == "path" else p for p in s])
    for part in s:
        if part[0] != "path":
            if how == "control":
                ok = k < len(seen) and seen[k][0] == ({"on": "fix", "off": "unfix"}[part[0]],) + part[1:]
                if not mon.expect(ok, "grip-not-made", want=part, got=seen[k][0] if k < len(seen) else None, **detail):
                    return
                k += 1
                mon.count("grips_made")
            continue
        _, body, joints, path, att = part
        for q in path:
            if not mon.expect(k < len(seen), "run-too-short", reached=k, **detail):
                return
            ev, world = seen[k]
            k += 1
            at = tuple(world[body][1][j] for j in joints)
            if not mon.expect(np.allclose(at, q, atol=1e-12), "configuration-missed", want=q, got=at, **detail):
                return
            mon.count("configurations_seen")
            if how == "execute":
                mon.expect(ev[0] == "duration" and abs(ev[1] - dt) < 1e-15, "wrong-wait", event=ev, want=dt, **detail)
            if how != "control":
                for a in att:
                    g = grasps[a]
                    w = tb.BODIES[g.robot]
                    tool = tb.mul(world[g.robot][0], (world[g.robot][1][:3], tb.quat_from_euler(world[g.robot][1][3:6])))
                    want = tb.mul(tool, g.grasp_pose)
                    got = world[g.body][0]
                    ok = np.allclose(got[0], want[0], atol=1e-9) and np.allclose(tb.matrix_from_quat(got[1]), tb.matrix_from_quat(want[1]), atol=1e-9)
                    mon.expect(ok, "held-object-left", body=g.body, want=want, got=got, **detail)
                    mon.count("held_seen")
    mon.expect(k == len(seen), "run-too-long", reached=k, events=len(seen), **detail)
    end = snap()
    touched = {p[1] for p in s if p[0] == "path"} | {grasps[a].body for p in s if p[0] == "path" for a in p[4]}
    for b in end:
        if b not in touched:
            mon.expect(end[b] == start[b], "bystander-moved", body=b, **detail)
    if how == "control":
        n = sum(len(p[3]) for p in s if p[0] == "path")
        steps = sum(e[0] == "step" for e in tb.EVENTS)
        mon.expect((steps == 0) if live else (steps >= n), "simulation-steps", steps=steps, real_time=live, waypoints=n, **detail)
        modes = [e[0] for e in tb.EVENTS if e[0] in ("real-time", "not-real-time")]
        mon.expect(all(m == ("real-time" if live else "not-real-time") for m in modes) and bool(modes) == any(p[0] == "path" for p in s), "real-time-mode", modes=modes[:3], **detail)


def plans(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    run2 = load("turtlebot_move", "run")
    run, kp = load("kuka_carry", "run", "kuka_primitives")
    random.seed(int(mon.rng("global").integers(2 ** 31)))
    rover_plans(mon, mon.rng("rover"), run2, tb)
    arm_plans(mon, mon.rng("arm"), run, kp)
    commands(mon, mon.rng("commands"), tb, pbu, kp)
