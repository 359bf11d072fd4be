"""Whole runs of the robot experiments (C50): main() with a scripted planner in place of PDDLStream and a kinematic world in place of the engine."""
import contextlib
import io
import logging
import os
import random
import re
import shutil
import sys
import time

import numpy as np
from checks.tamp_load import load
from checks.tamp_pddl import read, State, solve, conj, apply, ground, true
from checks.tamp_streams import instrument, LOG, SCRIPT, asked
import checks.tamp_streams as ts


@contextlib.contextmanager
def as_program(argv, cwd):
    """Runs with the given command line, in the given folder; gives back the streams and log handlers afterwards."""
    root = logging.getLogger()
    keep = (sys.argv, sys.stdout, sys.stderr, list(root.handlers), root.level, os.getcwd())
    out = io.StringIO()
    root.handlers[:] = []
    sys.argv, sys.stdout, sys.stderr = argv, out, out
    os.chdir(cwd)
    try:
        yield out
    finally:
        for h in list(root.handlers):
            if h not in keep[3]:
                h.flush()
                h.close()
        sys.argv, sys.stdout, sys.stderr, root.handlers[:] = keep[0], keep[1], keep[2], keep[3]
        root.setLevel(keep[4])
        os.chdir(keep[5])


def snapshot(tb):
    return {i: (tuple(b.pose[0]), tuple(b.pose[1]), tuple(b.q)) for i, b in tb.BODIES.items()}


def same_world(a, b, tol=1e-9):
    return set(a) == set(b) and all(all(len(x) == len(y) and np.allclose(x, y, atol=tol) for x, y in zip(a[i], b[i])) for i in a)


def geometry(tb):
    """The world as numbers: shapes, places and joints."""
    return [(b.kind, [(s.kind, s.dims, s.pose) for s in b.shapes], b.pose, tuple(b.q)) for _, b in sorted(tb.BODIES.items())]


def stated(problem):
    """Where the facts and goals put things, as numbers."""
    return [f[2].pose for f in list(problem.init) + list(problem.goal[1:]) if f[0].lower() in ("atpose", "pose")]


class Refused(Exception):
    pass


class Player:
    """Builds the intended course of actions with the real streams, and holds it against the domain file."""

    def __init__(self, folder, problem):
        self.dom, self.streams = read(folder)
        self.st = State(self.dom, problem.init)
        self.problem = problem
        self.plan = []

    def stream(self, name, *args):
        want = self.streams[name]["fluents"]      # what the planner's state says of these is handed on, nothing else
        kw = {"fluents": [f for p in want for f in self.st.of(p)]} if want else {}
        for batch in self.problem.stream_map[name](*args, **kw):
            for o in batch:
                s = self.streams[name]
                b = dict(zip(s["inputs"] + s["outputs"], tuple(args) + tuple(o)))
                for c in s["certified"]:
                    self.st.add(ground(c, b))
                return tuple(o)
        return None

    def act(self, name, *args):
        a = self.dom["actions"][name]
        b = dict(zip(a["params"], args))
        for c in conj(a["pre"]):
            if not true(c, b, self.st):
                raise Refused("%s: %s" % (name, c))
        apply(a["eff"], b, self.st)
        self.plan.append((name, tuple(args)))

    def goals_met(self):
        g = self.problem.goal
        return all(true(x, {}, self.st) if not isinstance(x[0], str) else true((x[0].lower(),) + tuple(x[1:]), {}, self.st) for x in g[1:])


def log_lines(mon, save, out, args, detail):
    """One run, one folder: a log with the arguments, and the files of the planner."""
    dirs = sorted(os.listdir(save)) if os.path.isdir(save) else []
    if not mon.expect(len(dirs) == 1, "run-folder", folders=dirs, **detail):
        return
    d = os.path.join(save, dirs[0])
    logs = [f for f in os.listdir(d) if f.endswith(".log")]
    mon.expect(len(logs) == 1 and os.path.isdir(os.path.join(d, "pddl")), "run-files", files=os.listdir(d), **detail)
    text = open(os.path.join(d, logs[0])).read() if logs else ""
    for k, v in args.items():
        mon.expect(re.search(r"['\"]?%s['\"]?\s*[:=]\s*%s\b" % (re.escape(k), re.escape(repr(v))), text) is not None, "argument-not-logged", name=k, value=v, text=text[:300], **detail)
    mon.count("logs_read")
    return text


def outcome(mon, text, solved, elapsed, detail):
    text = text or ""
    said = re.findall(r"Solved: (\w+)", text)
    mon.expect(bool(said) and all(s == str(solved) for s in said), "outcome-not-logged", logged=said, solved=solved, **detail)
    t = re.findall(r"^Time: ([-\d.e]+)", text, re.M)
    mon.expect(len(t) == 1 and -1e-3 <= float(t[0]) <= elapsed + .1, "time-not-logged", logged=t, elapsed=elapsed, **detail)


# ============================================================================ rover
def rover_path(a, b):
    """Through the middle of each room."""
    side = [2.25 if p[0] > 0 else -2.25 for p in (a, b)]
    return np.array([[side[0], .75], [side[1], .75]])


def corridor(tb, pbu, world_targets):
    """Free width at the middle of the corridor."""
    lo, up = -9.0, 9.0
    for i, b in tb.BODIES.items():
        if b.kind == "rover" or i in world_targets:
            continue
        a, z = pbu.get_aabb(i)
        if z[2] < .02 or a[0] > 0 or z[0] < 0:
            continue
        if a[1] > .75:
            up = min(up, a[1])
        if z[1] < .75:
            lo = max(lo, z[1])
    return up - lo


def rover_runs(mon, rng, tb, pbu, run, meta):
    import pybullet_tools.pr2_primitives as pp
    from nonasymptotic.bound import compute_numerical_bound
    for i in range(mon.n(96, 1200)):
        lo, hi, factor = ts.schedule(rng)
        real = bool(rng.random() < .3)
        if real:
            lo, factor = min(lo, 100), max(factor, 1.5)
        hi = min(hi, lo + (100 if real else 900))
        k = int(rng.integers(1, 4)) if not real else 1
        seed = 0 if rng.random() < .15 else int(rng.integers(0, 1000))
        dd = float(round(rng.uniform(.05, .3), 3))
        adaptive = bool(rng.random() < .2) and not real
        randomize = bool(rng.random() < .2)
        vis, tele, sim = bool(rng.random() < .8), bool(rng.random() < .3), bool(rng.random() < .4)
        args = {"seed": seed, "min_samples": lo, "max_samples": hi, "factor": factor, "delta": dd, "num_targets": k}
        argv = ["run.py"]
        for n in rng.permutation(sorted(args)):
            argv += ["--" + n.replace("_", "-"), repr(args[n])]
        optimal = bool(rng.random() < .3)
        flags = [f for f, on in (("--optimal", optimal), ("--adaptive-n", adaptive), ("--randomize-delta", randomize), ("--vis", vis), ("--teleport", tele), ("--simulate", sim)) if on]
        save = os.path.join(mon.scratch, "run%d" % i)
        argv += flags + ["--save-dir", save]
        detail = dict(argv=argv[1:-2])
        th = int(rng.choice([2, lo, hi, hi + 1])) if not adaptive else int(rng.choice([2, 10 ** 12]))
        worlds = []
        for turn in range(2):
            tb.clear()
            LOG.clear()
            SCRIPT[0] = None if real else (th, rover_path)
            note = {}
            order = rng.permutation(k) if turn == 0 else None

            def planner(problem, **kw):
                said_here(note)
                note["start"] = snapshot(tb)
                note["geo"] = (geometry(tb), stated(problem))
                note["kw"] = kw
                note["problem"] = problem
                targets = [f[1] for f in problem.init if f[0].lower() == "target"]
                note["targets"] = targets
                note["gap"] = corridor(tb, pbu, targets)
                if turn == 1:
                    return None, float("inf"), []
                pl = Player("turtlebot_move", problem)
                note["player"] = pl
                v = pl.st.of("rover")[0][1]
                q = pl.st.of("atconf")[0][2]
                for j in order:
                    o = targets[j]
                    p0 = [f[2] for f in pl.st.of("atpose") if f[1] == o][0]
                    p1 = [g[2] for g in problem.goal[1:] if g[1] == o][0]
                    qs = []
                    for act, stream, p, extra in (("pick", "sample-motion", p0, ()), ("place", "sample-motion-holding", p1, (o,))):
                        q2, = pl.stream("sample-ik", v, o, p)
                        LOG.clear()
                        t = pl.stream(stream, v, q, q2, *extra)
                        note.setdefault("asked", []).append((asked(), o if extra else v))
                        if t is None:
                            return None, float("inf"), []
                        pl.act(act, v, q, t[0], q2, p, o)
                        q = q2
                # leaves the world in some other state
                for b in targets:
                    pbu.set_point(b, pbu.Point(9, 9, 9))
                tb.BODIES[v].q[:2] = [7.0, 7.0]
                note["done"] = True
                return pl.plan, 0.0, []
            meta.SOLVE[0] = planner
            hooks = []
            tb.HOOK[0] = lambda ev: hooks.append((ev, snapshot(tb))) if ev[0] in ("apply", "control") else None
            t0 = time.monotonic()
            failed = None
            os.makedirs(mon.scratch, exist_ok=True)
            with as_program(argv, mon.scratch) as out:
                try:
                    run.main()
                except SystemExit as e:
                    failed = repr(e)
                except Refused as e:
                    failed = "refused " + str(e)
            elapsed = time.monotonic() - t0
            tb.HOOK[0] = None
            if not mon.expect(failed is None, "run-failed", error=failed, output=out.getvalue()[-400:], **detail):
                break
            worlds.append(note["geo"])
            if turn == 1:
                shutil.rmtree(save, ignore_errors=True)
                continue
            mon.case((i, mon.shard, tuple(argv[1:-2])))
            mon.sample(detail)
            text = log_lines(mon, save, out, args, detail)
            shutil.rmtree(save, ignore_errors=True)
            done = bool(note.get("done"))
            outcome(mon, text, done, elapsed, detail)
            judge_noise(mon, text, note, detail)
            kw = note["kw"]
            mon.expect(kw.get("success_cost") == (0 if optimal else pbu.INF), "other-success-cost", optimal=optimal, got=kw.get("success_cost"), **detail)
            mon.expect(kw.get("max_time") in (None, float("inf")), "other-time-limit", got=kw.get("max_time"), **detail)
            mon.expect(os.path.abspath(os.path.join(mon.scratch, kw.get("temp_dir") or "")).startswith(os.path.abspath(save) + os.sep), "planner-files-elsewhere", got=kw.get("temp_dir"), **detail)
            mon.expect([e for e in tb.EVENTS if e[0] == "connect"] == [("connect", vis)], "gui", events=[e for e in tb.EVENTS if e[0] == "connect"], **detail)
            # the arguments reach the world
            targets = note["targets"]
            mon.expect(len(targets) == k == len(note["problem"].goal) - 1, "other-number-of-targets", got=len(targets), **detail)
            widest = max(float(pbu.get_aabb_extent(pbu.get_aabb(t))[0]) for t in targets)
            free = note["gap"] - widest
            if randomize:
                mon.expect(.01 - 1e-9 <= free <= .2 + 1e-9, "delta-out-of-range", gap=free, **detail)
            else:
                mon.expect(abs(free - dd) < 1e-6, "other-delta", gap=free, **detail)
            said = re.findall(r"^Delta: ([-\d.e]+)", text or "", re.M)
            mon.expect(len(said) == 1 and abs(float(said[0]) - free) < 1e-6, "delta-not-logged", logged=said, gap=free, **detail)
            # and the streams
            for qs, body in note.get("asked", []):
                if adaptive:
                    w = float(pbu.get_aabb_extent(pbu.get_aabb(body))[0])
                    budget = compute_numerical_bound(note["gap"] - w + .05, .99, 16, 2, None)[0]
                    mon.expect(bool(qs) and all(n <= budget for n, _ in qs) and qs[0][0] >= budget - 1, "other-adaptive-budget", asked=qs[:2], budget=budget, **detail)
                    mon.count("adaptive_asked")
                else:
                    first = min(lo, hi)
                    mon.expect(bool(qs) and qs[0][0] == first and all(n <= hi for n, _ in qs), "other-budget", asked=qs[:3], **detail)
                    sizes = [n for n, _ in qs]
                    ok = all(b == min(hi, max(a + 1, b)) and (b == hi or abs(b - max(a * factor, a + 1)) <= max(factor, 2) + 1) for a, b in zip(sizes, sizes[1:]))
                    mon.expect(ok, "other-growth", sizes=sizes, **detail)
                    mon.count("sizes_judged", len(sizes))
            if not real and not adaptive:
                mon.expect(done == (th <= hi), "stream-outcome", found=done, threshold=th, **detail)
            mon.count("solved" if done else "unsolved")
            # execution
            ran = [h for h in hooks]
            mon.expect(len(ran) == (1 if done and vis else 0), "executed", times=len(ran), solved=done, vis=vis, **detail)
            if not (done and vis) or len(ran) != 1:
                continue
            ev, at = ran[0]
            mon.expect(ev[0] == ("control" if sim else "apply"), "other-execution", got=ev[0], **detail)
            mon.expect(same_world(note["start"], at), "world-not-restored", moved=[b for b in at if at[b] != note["start"].get(b)][:5], **detail)
            if not mon.expect(note["player"].goals_met(), "plan-misses-goal", **detail):
                continue
            execute(mon, tb, pbu, pp, ev[1], note, tele, real, detail)
        if len(worlds) == 2:
            mon.expect(repr(worlds[0]) == repr(worlds[1]), "seed-ignored", **detail)
            mon.count("seeds_repeated")
        tb.clear()
        if mon.hurry():
            break
    # other seeds, other worlds
    seen, sizes, gaps = {}, {}, []
    draws = [j * mon.nshards + mon.shard for j in range(mon.n(80, 400))] + [int(v) for v in rng.integers(2 ** 10, 2 ** 31, mon.n(240, 900))]
    for s in draws:
        tb.clear()
        save = os.path.join(mon.scratch, "seed%d" % s)

        def look(problem, **kw):
            targets = [f[1] for f in problem.init if f[0].lower() == "target"]
            w = sorted(float(pbu.get_aabb_extent(pbu.get_aabb(t))[0]) for t in targets)
            seen[s] = repr((geometry(tb), stated(problem)))
            sizes[s] = tuple(w)
            gaps.append(corridor(tb, pbu, targets) - w[-1])
            return None, float("inf"), []
        meta.SOLVE[0] = look
        with as_program(["run.py", "--seed", str(s), "--num-targets", "3", "--randomize-delta", "--save-dir", save], mon.scratch):
            run.main()
        shutil.rmtree(save, ignore_errors=True)
    mon.expect(len(set(seen.values())) == len(seen), "seeds-alike", seeds=len(seen), worlds=len(set(seen.values())))
    for k in range(2):      # the sizes of the smaller ones are drawn, the largest is as large as allowed
        mon.expect(len({w[k] for w in sizes.values()}) == len(sizes), "seeds-alike-in-size", seeds=len(sizes), sizes=len({w[k] for w in sizes.values()}))
    if len(gaps) >= 38:     # 2^-38
        mon.expect(min(gaps) < .105 < max(gaps), "deltas-narrow", least=min(gaps), most=max(gaps), number=len(gaps))
        mon.count("deltas_drawn", len(gaps))
    mon.count("seeds_told_apart", len(seen))


def execute(mon, tb, pbu, pp, commands, note, tele, real, detail):
    """Carries out the commands in the kinematic world."""
    rover = [i for i, b in tb.BODIES.items() if b.kind == "rover"][0]
    held, offset = None, None
    walls = [i for i, b in tb.BODIES.items() if b.kind != "rover" and i not in note["targets"] and pbu.get_aabb(i)[1][2] > .02]
    boxes = [(np.array(pbu.get_aabb(w)[0][:2]), np.array(pbu.get_aabb(w)[1][:2])) for w in walls]
    grips = 0
    for c in commands:
        if isinstance(c, pp.Trajectory):
            shape = held if held is not None else rover
            half = np.asarray(pbu.get_aabb_extent(pbu.get_aabb(shape)))[:2] / 2
            prev = tuple(tb.BODIES[rover].q[:2])
            first = tuple(c.path[0].values)
            mon.expect(np.allclose(first, prev, atol=1e-9), "jump", at=prev, next=first, **detail)
            for q in c.path:
                v = np.asarray(q.values, float)
                if not tele:
                    mon.expect(np.linalg.norm(v - prev) <= .025 + 1e-9, "step-too-long", a=prev, b=v, **detail)
                pbu.set_joint_positions(rover, q.joints, q.values)
                if held is not None:
                    pbu.set_point(held, pbu.Point(v[0] + offset[0], v[1] + offset[1], offset[2]))
                if not tele:
                    # a placement may touch a corner between two checks, never by more than half a step
                    deep = max((np.minimum(v + half - a, b - (v - half)).min() for a, b in boxes), default=-1)
                    mon.peak("depth", deep)
                    mon.expect(deep <= .04 + 1e-6, "executed-through-wall", at=v, half=half, depth=deep, holding=held is not None, **detail)
                prev = tuple(v)
                mon.count("configurations")
        elif isinstance(c, pp.Attach):
            at, r = pbu.get_point(c.body), tb.BODIES[rover].q
            mon.expect(held is None and abs(at[0] - r[0]) < 1e-6 and abs(at[1] - r[1]) < 1e-6, "grips-nothing", object=at, robot=r[:2], **detail)
            held, offset = c.body, (at[0] - r[0], at[1] - r[1], at[2])
            grips += 1
        elif isinstance(c, pp.Detach):
            mon.expect(held == c.body, "releases-other", held=held, released=c.body, **detail)
            held = None
    mon.expect(grips == len(note["targets"]) and held is None, "grips", grips=grips, **detail)
    for g in note["problem"].goal[1:]:
        at, want = pbu.get_point(g[1]), g[2].pose[0]
        mon.expect(np.allclose(at[:2], want[:2], atol=1e-6), "target-not-there", object=g[1], at=at, want=want, **detail)
        mon.expect(want[0] < -1.5 < 1.5 < note["start"][g[1]][0][0], "target-rooms", start=note["start"][g[1]][0], goal=want, **detail)
        mon.count("targets_delivered")
    mon.count("executed")
    mon.count("executed_real", real)


# ============================================================================ arm
def arm_runs(mon, rng, tb, pbu, run, meta):
    from nonasymptotic.bound import compute_numerical_bound
    for i in range(mon.n(64, 800)):
        lo, hi, factor = ts.schedule(rng)
        hi = min(hi, lo + 300)
        delta = float(round(rng.uniform(.03, .12), 3))
        buffer, margin = float(round(rng.uniform(.005, .04), 3)), float(round(rng.uniform(.05, .3), 3))
        adaptive = bool(rng.random() < .2)
        vis = bool(rng.random() < .8)
        seed = int(rng.integers(0, 1000))
        args = {"seed": seed, "min_samples": lo, "max_samples": hi, "factor": factor, "delta": delta, "theta_margin": margin, "collision_buffer": buffer}
        argv = ["run.py"]
        for n in rng.permutation(sorted(args)):
            argv += ["--" + n.replace("_", "-"), repr(args[n])]
        argv += [f for f, on in (("--adaptive-n", adaptive), ("--vis", vis)) if on]
        save = os.path.join(mon.scratch, "arm%d" % i)
        argv += ["--save-dir", save]
        detail = dict(argv=argv[1:-2])
        th = int(rng.choice([2, lo, hi, hi + 1])) if not adaptive else int(rng.choice([2, 10 ** 15]))
        refusals = int(rng.choice([0, 0, 0, 1, 2]))
        gives_up = bool(rng.random() < .1)
        tb.clear()
        np.random.seed(int(rng.integers(2 ** 31)))
        random.seed(int(rng.integers(2 ** 31)))
        LOG.clear()
        SCRIPT[0] = (th, lambda a, g: np.array([[g[0], g[1], a[2], a[3], a[4], a[5]]]))
        note, hooks = {"asked": []}, []
        loaded = set()
        tb.REACHABLE[0] = reach_after(tb, loaded, refusals)

        def planner(problem, **kw):
            said_here(note)
            # the world the facts speak of
            note["start"], note["problem"], note["kw"] = snapshot(tb), problem, kw
            for f in problem.init:
                if f[0].lower() == "atpose":
                    note["start"][f[1]] = (tuple(f[2].pose[0]), tuple(f[2].pose[1]), ())
                elif f[0].lower() == "atconf":
                    note["start"][f[1].body] = note["start"][f[1].body][:2] + (tuple(f[1].values),)
            if gives_up:
                return None, float("inf"), []
            pl = note["player"] = Player("kuka_carry", problem)
            st = pl.st
            q0 = q = st.of("atconf")[0][1]
            todo = [g[1] for g in problem.goal[1:] if g[0].lower() == "cleaned"]
            note["objects"] = todo

            def motion(*a):
                n = len(tb.EVENTS)
                t = pl.stream(*a)
                for e in tb.EVENTS[n:]:
                    if e[0] == "plan":
                        note.setdefault("around", []).append((a[0], {f[1] for f in st.of("atpose")} - set(e[5]), len(e[5])))
                return t
            pre = {id(f[1]) for f in st.of("preinsert")}
            post = {id(f[1]) for f in st.of("postinsert")}
            for o in [todo[j] for j in rng.permutation(len(todo))]:
                p0 = [f[2] for f in st.of("atpose") if f[1] == o][0]
                kin = [f for f in st.of("kin") if f[1] == o]
                at0 = [f for f in kin if f[2] is p0][0]
                above = [f for f in kin if id(f[4]) in pre][0]
                inside = [f for f in kin if id(f[4]) in post][0]
                g = at0[3]
                t, = motion("plan-free-motion", q, at0[4])
                pl.act("move_free", q, at0[4], t)
                pl.act("pick", o, p0, g, at0[4])
                t, = motion("plan-holding-motion", at0[4], above[4], o, g)
                pl.act("move_holding", at0[4], above[4], o, g, t)
                pl.act("place", o, above[2], g, above[4])
                pl.act("pick", o, above[2], g, above[4])
                LOG.clear()
                try:
                    t, = pl.stream("plan-insert-motion", above[4], inside[4], o, g)
                finally:
                    note["asked"].append((asked(), o))
                pl.act("move_insert", above[4], inside[4], o, g, t)
                note.setdefault("inserts", {})[o] = (t, above, inside)
                pl.act("place", o, inside[2], g, inside[4])
                sink = [f[3] for f in st.of("supported") if f[1] == o and f[2] is inside[2]][0]
                note.setdefault("bins", {})[o] = sink
                pl.act("clean", o, sink)
                q = inside[4]
            t, = motion("plan-free-motion", q, q0)
            pl.act("move_free", q, q0, t)
            for b in todo:
                pbu.set_point(b, pbu.Point(9, 9, 9))
            note["done"] = True
            return pl.plan, 1.0, []
        meta.SOLVE[0] = planner
        robots = lambda: [b for b in tb.BODIES.values() if b.kind == "arm"]
        tb.HOOK[0] = lambda ev: hooks.append((ev[0], len(tb.EVENTS), snapshot(tb))) if "done" in note and ev[0] in ("wait", "duration") else None
        t0 = time.monotonic()
        failed = None
        with as_program(argv, mon.scratch) as out:
            try:
                run.main()
            except SystemExit as e:
                failed = repr(e)
            except Refused as e:
                failed = "refused " + str(e)
        elapsed = time.monotonic() - t0
        tb.HOOK[0] = tb.REACHABLE[0] = None
        mon.case((i, mon.shard, tuple(argv[1:-2])))
        mon.sample(detail)
        text = log_lines(mon, save, out, args, detail)
        shutil.rmtree(save, ignore_errors=True)
        if not mon.expect(failed is None and "problem" in note, "run-failed", error=failed, output=(text or "")[-400:], **detail):
            continue
        done = bool(note.get("done"))
        outcome(mon, text, done, elapsed, detail)
        judge_noise(mon, text, note, detail)
        mon.expect([e for e in tb.EVENTS if e[0] == "connect"] == [("connect", vis)], "gui", **detail)
        mon.count("worlds_retried", max(0, len(loaded) - 1))
        mon.expect(len(robots()) == 1 and len(tb.BODIES) == 19, "worlds-mixed", bodies=len(tb.BODIES), arms=len(robots()), retries=max(0, len(loaded) - 1), **detail)
        # the arguments reach the world and the stream
        sinks = [f[1] for f in note["problem"].init if f[0].lower() == "sink"]
        for s in sinks:
            e = pbu.get_aabb_extent(pbu.get_aabb(s))
            mon.expect(abs(e[0] - .06 - delta) < 1e-6 and abs(e[1] - .06 - delta) < 1e-6, "other-delta", bin=s, extent=e, **detail)
        for qs, body in note["asked"]:
            if adaptive:
                mon.expect(bool(qs) and qs[0][0] >= max(n for n, _ in qs) - 1, "other-adaptive-budget", asked=qs[:3], **detail)
                mon.count("adaptive_asked")
            else:
                mon.expect(bool(qs) and qs[0][0] == lo and all(n <= hi for n, _ in qs), "other-budget", asked=qs[:3], **detail)
                sizes = [n for n, _ in qs]
                ok = all(b == hi or abs(b - max(a * factor, a + 1)) <= max(factor, 2) + 1 for a, b in zip(sizes, sizes[1:]))
                mon.expect(ok, "other-growth", sizes=sizes, **detail)
                mon.count("sizes_judged", len(sizes))
        for name, missed, n in note.get("around", []):
            mon.expect(not missed, "objects-not-avoided", stream=name, objects=sorted(missed), obstacles=n, **detail)
            mon.count("library_motions")
        m = re.findall(r"Total volume: ([-\d.e]+)", text or "")
        mon.count("volumes_logged", len(m))
        if not gives_up and not adaptive:
            mon.expect(done == (th <= hi), "stream-outcome", found=done, threshold=th, **detail)
        mon.count("solved" if done else "unsolved")
        mon.count("gave_up", gives_up)
        moves = [h for h in hooks if h[0] == "duration"]
        mon.expect(bool(moves) == (done and vis), "executed", steps=len(moves), solved=done, vis=vis, **detail)
        if not (done and vis) or not moves:
            continue
        if not mon.expect(note["player"].goals_met(), "plan-misses-goal", **detail):
            continue
        first = [h for h in hooks if h[0] == "wait"]
        if mon.expect(bool(first), "not-asked", **detail):
            mon.expect(same_world(note["start"], first[0][2]), "world-not-restored", moved=[b for b in first[0][2] if not same_world({b: first[0][2][b]}, {b: note["start"].get(b, ((), (), ()))})][:5], **detail)
        carried(mon, tb, pbu, note, moves, detail)
        if mon.hurry():
            break
    known_seed(mon, tb, run, meta)


def said_here(note):
    """A planner that writes to both streams."""
    note["marks"] = ["out-%d" % id(note), "err-%d" % id(note)]
    print("planner says", note["marks"][0])
    sys.stderr.write("planner warns %s\n" % note["marks"][1])
    # as planners do: a listing in one write, and one very long line
    rows = ["row-%d-%d" % (k, id(note)) for k in range(400)]
    note["marks"] += [rows[0], rows[200], rows[-1], "far-%d" % id(note), "war-%d" % id(note)]
    print("\n".join(rows))
    print("axiom " * 2000 + note["marks"][-2])
    sys.stderr.write("\n".join("warning %d" % k for k in range(400)) + "\n" + note["marks"][-1] + "\n")


def judge_noise(mon, text, note, detail):
    for m in note.get("marks", []):
        mon.expect(m in (text or ""), "output-not-logged", which=m[:3], **detail)
        mon.count("outputs_logged")


def reach_after(tb, loaded, refusals):
    """Refuses the bins (behind the robot) in as many worlds."""
    def reach(pose):
        loaded.update(i for i, b in tb.BODIES.items() if b.kind == "arm")
        return not (len(loaded) <= refusals and pose[0][0] < -.4)
    return reach


def carried(mon, tb, pbu, note, moves, detail):
    """What the recorded configurations did to the objects."""
    objs = note["objects"]
    prev = note["start"]
    seen = {o: [] for o in objs}
    for _, _, w in moves:
        for o in objs:
            if w[o][0] != prev[o][0] or w[o][1] != prev[o][1]:
                seen[o].append(w[o])
        for b in w:
            if b not in objs and tb.BODIES[b].kind != "arm":
                if not mon.expect(w[b] == prev[b], "scenery-moved", body=b, **detail):
                    return
        prev = w
        mon.count("configurations")
    end = snapshot(tb)
    for o in objs:
        s = note["bins"][o]
        at = pbu.get_aabb(o)
        box = pbu.get_aabb(s)
        want = note["inserts"][o][2][2].pose
        mon.expect(np.allclose(end[o][0][:2], want[0][:2], atol=1e-6) and -1e-6 <= end[o][0][2] - want[0][2] <= .0205, "object-not-there", object=o, at=end[o][0], want=want[0], **detail)
        inside = np.all(np.array(at[0][:2]) >= np.array(box[0][:2]) - 1e-6) and np.all(np.array(at[1][:2]) <= np.array(box[1][:2]) + 1e-6)
        mon.expect(inside, "object-outside-bin", object=o, at=at, bin=box, **detail)
        mon.expect(len(seen[o]) > 3, "object-not-carried", object=o, steps=len(seen[o]), **detail)
        # on its way down it keeps clear of the walls
        down = [p for p in seen[o] if np.all(np.abs(np.array(p[0][:2]) - np.array(want[0][:2])) < .005) and p[0][2] < want[0][2] + .14]
        for p in down[::3]:
            pbu.set_pose(o, (p[0], p[1]))
            if not mon.expect(not tb.collide(o, s), "inserted-through-wall", object=o, at=p, bin=box, **detail):
                break
            mon.count("insertion_points")
        pbu.set_pose(o, end[o][:2])
        mon.count("objects_inserted")
    arm = [i for i, b in tb.BODIES.items() if b.kind == "arm"][0]
    mon.expect(np.allclose(end[arm][2], note["start"][arm][2], atol=1e-6), "arm-not-home", at=end[arm][2], home=note["start"][arm][2], **detail)
    mon.count("executed")


def known_seed(mon, tb, run, meta):
    """The same seed again: the same world?"""
    if mon.shard != mon.nshards - 1:
        return
    worlds = []
    for turn in range(2):
        tb.clear()
        np.random.seed(turn)
        random.seed(turn)
        meta.SOLVE[0] = lambda problem, **kw: (worlds.append(repr((geometry(tb), stated(problem)))), (None, float("inf"), []))[1]
        save = os.path.join(mon.scratch, "again%d" % turn)
        with as_program(["run.py", "--seed", "5", "--save-dir", save], mon.scratch):
            run.main()
        shutil.rmtree(save, ignore_errors=True)
    mon.expect(len(worlds) == 2 and worlds[0] == worlds[1], "kuka-seed-ignored", seed=5)
    # other arguments that the command line offers
    import pybullet_tools.utils as pbu
    got = []

    def look(problem, **kw):
        bins = [pbu.get_aabb_extent(pbu.get_aabb(f[1]))[0] - .06 for f in problem.init if f[0].lower() == "sink"]
        got.append((len([g for g in problem.goal[1:] if g[0].lower() == "cleaned"]), sorted(round(float(b), 9) for b in bins)))
        return None, float("inf"), []
    for turn, extra in enumerate((["--num-targets", "2"], ["--delta", "0.05", "--randomize-delta"], ["--delta", "0.05", "--randomize-delta"])):
        tb.clear()
        random.seed(turn)
        np.random.seed(turn)
        meta.SOLVE[0] = look
        save = os.path.join(mon.scratch, "more%d" % turn)
        with as_program(["run.py"] + extra + ["--save-dir", save], mon.scratch):
            run.main()
        shutil.rmtree(save, ignore_errors=True)
    mon.expect(got[0][0] == 2, "kuka-num-targets-ignored", num_targets=2, objects=got[0][0])
    mon.expect(not all(abs(b - .05) < 1e-6 for g in got[1:] for b in g[1]), "kuka-randomize-delta-ignored", delta=.05, gaps=[g[1] for g in got[1:]])


def same_folder(mon, tb, run, meta):
    """Two runs into the same folder, one right after the other: each has one of its own."""
    save = os.path.join(mon.scratch, "both")
    meta.SOLVE[0] = lambda problem, **kw: (None, float("inf"), [])
    clock, base = [0], time.time() // 1 + .1
    keep = time.time

    def quick():
        clock[0] += 1
        return base + 1e-4 * clock[0]
    time.time = quick
    try:
        for turn in range(2):
            tb.clear()
            with as_program(["run.py", "--save-dir", save], mon.scratch), mon.guard("run-failed"):
                run.main()
    finally:
        time.time = keep
    mon.expect(len(os.listdir(save)) == 2, "runs-share-folder", folders=os.listdir(save))
    mon.count("folders_told_apart", len(os.listdir(save)))
    shutil.rmtree(save, ignore_errors=True)


def runs(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    import pddlstream.algorithms.meta as meta
    instrument()
    os.makedirs(mon.scratch, exist_ok=True)
    if mon.shard % 2 == 0:
        run = load("turtlebot_move", "run")
        rover_runs(mon, mon.rng("rover"), tb, pbu, run, meta)
        same_folder(mon, tb, run, meta)
    else:
        run = load("kuka_carry", "run")
        arm_runs(mon, mon.rng("arm"), tb, pbu, run, meta)
        same_folder(mon, tb, run, meta)
