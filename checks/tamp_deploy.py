"""The scripts that hand the robot experiments to a cluster (C51), run against stand-ins of the queue commands."""
import contextlib
import io
import math
import os
import random
import re
import runpy
import shutil
import subprocess
import sys
import time

import numpy as np
from checks.tamp_load import BASE

TOOLS = {
    "sbatch": r'''#!/bin/sh
range=1-1
for a in "$@"; do case "$a" in --array=*) range="${a#--array=}";; [0-9]*-[0-9]*) range="$a";; esac; done
lo=${range%-*}; hi=${range#*-}
i=$lo; while [ "$i" -le "$hi" ]; do echo "$i main run $USER PD 0:00 1 (Priority)" >> "$LAB/queue"; i=$((i+1)); done
n=$(wc -l < "$LAB/queue")
echo "sbatch $n $*" >> "$LAB/events"
echo "Submitted batch job 1"
''',
    "squeue": r'''#!/bin/sh
[ -f "$LAB/broken" ] && { echo "squeue broken" >> "$LAB/events"; exit 1; }
echo "squeue $(wc -l < "$LAB/queue") $(grep -ci held "$LAB/queue") $*" >> "$LAB/events"
echo "JOBID PARTITION NAME USER ST TIME NODES NODELIST(REASON)"
cat "$LAB/queue"
''',
    "scancel": r'''#!/bin/sh
echo "scancel $(wc -l < "$LAB/queue") $(grep -ci held "$LAB/queue") $*" >> "$LAB/events"
: > "$LAB/queue"
''',
    "python": r'''#!/bin/sh
{ echo "omp=$OMP_NUM_THREADS"; for a in "$@"; do echo "$a"; done; echo "--end--"; } >> "$LAB/runs"
''',
}


class Over(BaseException):
    """The script went on for longer than any course of the queue explains."""


class Lab:
    """A scratch folder with stand-ins of the queue commands, and a queue that drains while the script sleeps."""

    def __init__(self, mon, name, rng):
        self.dir = os.path.join(mon.scratch, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "bin"))
        for t, text in TOOLS.items():
            f = os.path.join(self.dir, "bin", t)
            with open(f, "w") as h:
                h.write(text)
            os.chmod(f, 0o755)
        for f in ("queue", "events", "runs", "tmux_lock.txt"):
            open(os.path.join(self.dir, f), "w").close()
        self.rng, self.sleeps, self.slept = rng, 0, 0.0
        self.unlock_at = None

    def path(self, f):
        return os.path.join(self.dir, f)

    def lines(self, f):
        with open(self.path(f)) as h:
            return h.read().splitlines()

    def fill(self, n, held=False):
        with open(self.path("queue"), "w") as h:
            for i in range(n):
                h.write("%d main run tester PD 0:00 1 (%s)\n" % (i, "JobHeldAdmin" if held else "Priority"))

    def sleep(self, dt):
        self.sleeps += 1
        self.slept += dt
        if self.sleeps > 30000:
            raise Over()
        if dt < 1:
            return
        q = self.lines("queue")
        r = self.rng.random()
        if r < .1:
            q = [re.sub(r"\(.*\)", "(launch failed requeued held)", l) for l in q]      # all of it stuck
        elif r < .2:
            q = [re.sub(r"\(.*\)", "(launch failed requeued held)", l) if k % 2 else l for k, l in enumerate(q)]
        else:
            keep = self.rng.random(len(q)) > float(self.rng.choice([.05, .3, .7, 1.0]))
            q = [l for l, k in zip(q, keep) if k]
        with open(self.path("queue"), "w") as h:
            h.write("".join(l + "\n" for l in q))
        broken = self.path("broken")
        if os.path.exists(broken):
            os.remove(broken)
        elif self.break_rate and self.rng.random() < self.break_rate:
            open(broken, "w").close()
        if self.unlock_at is not None and self.sleeps >= self.unlock_at and os.path.exists(self.path("tmux_lock.txt")):
            os.remove(self.path("tmux_lock.txt"))
            with open(self.path("events"), "a") as h:
                h.write("unlocked\n")

    break_rate, grace = 0.0, 0

    @contextlib.contextmanager
    def active(self):
        keep = dict(os.environ), os.getcwd(), time.sleep, sys.stdout
        os.environ.update(LAB=self.dir, PATH=self.path("bin") + os.pathsep + os.environ["PATH"], USER="tester")
        os.chdir(self.dir)
        time.sleep = self.sleep
        sys.stdout = io.StringIO()
        try:
            yield
        finally:
            os.chdir(keep[1])
            time.sleep, sys.stdout = keep[2], keep[3]
            os.environ.clear()
            os.environ.update(keep[0])


def run_script(mon, lab, name, detail):
    """Runs a deployment script to its end; returns what ended it."""
    with lab.active():
        try:
            runpy.run_path(os.path.join(BASE, name), run_name="__main__")
            return "ended"
        except AssertionError:
            return "refused"
        except Over:
            mon.violate("never-ends", script=name, sleeps=lab.sleeps, **detail)
            return "over"


def submissions(lab):
    """(queue length after it, range, script, arguments) of every submission, in order."""
    out = []
    for l in lab.lines("events"):
        f = l.split()
        if f[0] == "sbatch":
            rest = f[2:]
            arr = [a for a in rest if a.startswith("--array")]
            pos = [a for a in rest if not a.startswith("--")]
            out.append((int(f[1]), arr[0].split("=")[-1] if arr else None, pos[0], tuple(pos[1:])))
    return out


def judge_queue(mon, lab, limit, room, detail):
    """Submits only after a look at a queue that leaves room; cancels only what is all held."""
    looked, unlocked, seen, late = None, False, False, 0
    for l in lab.lines("events"):
        f = l.split()
        if f[0] == "unlocked":
            unlocked = True
        elif f[0] == "squeue":
            looked = None if f[1] == "broken" else int(f[1])
            seen = True
            if f[1] != "broken":
                mon.expect("tester" in f[3:], "other-user", event=l, **detail)
            mon.count("queue_looked")
            mon.count("queue_broken", f[1] == "broken")
        elif f[0] == "scancel":
            n, held = int(f[1]), int(f[2])
            mon.expect(n > 0 and n == held and "tester" in f[3:], "cancelled-running-jobs", jobs=n, stuck=held, event=l, **detail)
            mon.count("cancelled")
        elif f[0] == "sbatch":
            mon.expect(seen, "submitted-blindly", event=l, **detail)
            if not lab.break_rate:
                mon.expect(int(f[1]) <= limit, "queue-overfull", jobs=int(f[1]), limit=limit, **detail)
                mon.expect(looked is not None and looked < room, "no-room", looked=looked, event=l, **detail)
                mon.peak("queue", int(f[1]))
            late += unlocked
            mon.expect(late <= lab.grace, "submitted-without-lock", late=late, event=l, **detail)
            mon.count("submitted")


def wanted_sets(subs, floor, top, times):
    """What one deployment asks for, that many times: the adaptive budget, and twenty random budgets, each both from the least and from all samples on."""
    kinds = {}
    for _, _, _, a in subs:
        kinds[a] = kinds.get(a, 0) + 1
    adaptive = {a: n for a, n in kinds.items() if a[-1] == "1"}
    ramps = {a[1]: n for a, n in kinds.items() if a[-1] == "0" and a[0] == str(floor)}
    singles = {a[1]: n for a, n in kinds.items() if a[-1] == "0" and a[0] != str(floor) and int(a[0]) == int(a[1]) - 1}
    ok = list(adaptive.values()) == [times] and ramps == singles and sum(ramps.values()) == 20 * times     # two budgets may come out the same
    ok = ok and all(n % times == 0 for n in ramps.values()) and len(kinds) == 1 + len(ramps) + len(singles)
    return ok and all(floor < int(k) <= top for k in ramps), kinds


def turtlebot(mon, lab, detail):
    end = run_script(mon, lab, "deploy_tamp_experiments.py", detail)
    subs = submissions(lab)
    judge_queue(mon, lab, 100, 50, detail)
    for n, r, script, a in subs:
        mon.expect(r == "1-50" and os.path.isfile(os.path.join(BASE, script)) and len(a) == 3, "submission", range=r, script=script, args=a, **detail)
    if lab.unlock_at is None:
        ok, kinds = wanted_sets(subs, 99, 50000, 1)
        mon.expect(end == "ended" and ok, "sets-not-once", end=end, sets={str(k): n for k, n in kinds.items()}, **detail)
        mon.count("turtlebot_complete")
    else:
        mon.expect(end in ("refused", "ended") and (len(subs) >= 41 or end == "refused"), "went-on-without-lock", end=end, submitted=len(subs), **detail)
        mon.count("stopped", end == "refused")


def arm(mon, lab, detail):
    end = run_script(mon, lab, "deploy_tamp_experiments_kuka.py", detail)
    subs = submissions(lab)
    judge_queue(mon, lab, 100, 50, detail)
    for n, r, script, a in subs:
        mon.expect(r == "1-1" and os.path.isfile(os.path.join(BASE, script)) and "kuka" in script and len(a) == 3, "submission", range=r, script=script, args=a, **detail)
    if lab.unlock_at is None:
        ok, kinds = wanted_sets(subs, 499, 100000, 50)
        mon.expect(end == "ended" and ok, "sets-not-fifty-times", end=end, sets={str(k): n for k, n in kinds.items()}, **detail)
        mon.count("arm_complete")
    else:
        mon.expect(end in ("refused", "ended") and (len(subs) >= 2050 or end == "refused"), "went-on-without-lock", end=end, submitted=len(subs), **detail)
        mon.count("stopped", end == "refused")


def adaptive(mon, lab, detail):
    end = run_script(mon, lab, "deploy_tamp_adaptive_kuka.py", detail)
    subs = submissions(lab)
    got = {}
    for n, r, script, a in subs:
        ok = r == "1-1" and os.path.isfile(os.path.join(BASE, script)) and "adaptive" in script and len(a) == 3
        if mon.expect(ok, "submission", range=r, script=script, args=a, **detail):
            k = tuple(round(float(x), 9) for x in a)
            got[k] = got.get(k, 0) + 1
    want = {(d, c, round(t, 9)): 5 for d in (.02, .03, .04) for c in (.02, .03, .04) for t in (math.pi / 18, math.pi / 32)}
    mon.expect(end == "ended" and got == want, "sets-not-five-times", end=end, got={str(k): n for k, n in got.items()}, **detail)
    mon.count("adaptive_complete")
    mon.count("submitted", len(subs))


SCRIPTS = {"deploy_experiments.sh": "turtlebot_move", "deploy_experiments_kuka.sh": "kuka_carry", "deploy_experiments_kuka_adaptive.sh": "kuka_carry"}


def task(mon, lab, script, task_id, args, detail):
    """One task of the array: exactly one run, with its own seed and the arguments handed on."""
    open(lab.path("runs"), "w").close()
    env = dict(os.environ, LAB=lab.dir, PATH=lab.path("bin") + os.pathsep + os.environ["PATH"], SLURM_ARRAY_TASK_ID=str(task_id))
    r = subprocess.run(["bash", os.path.join(BASE, script)] + [str(a) for a in args], cwd=lab.dir, env=env, capture_output=True, text=True, timeout=120)
    runs, now = [], []
    for l in lab.lines("runs"):
        if l == "--end--":
            runs.append(now)
            now = []
        else:
            now.append(l)
    detail = dict(detail, script=script, task=task_id, args=args)
    mon.case((script, task_id, tuple(args)), nontrivial=bool(runs))
    known = 1 <= task_id <= 200
    wanted = known and (script.endswith("adaptive.sh") or args[2] in (0, 1))
    if not mon.expect(len(runs) == (1 if wanted else 0), "runs-of-a-task", runs=len(runs), stderr=r.stderr[-200:], **detail) or not wanted:
        mon.count("tasks_outside", not known)
        return None
    omp, prog, opts = runs[0][0], runs[0][1], {}
    for o in runs[0][2:]:
        k, _, v = o.partition("=")
        opts[k] = v
    want = {"--seed": str(task_id)}
    if script.endswith("adaptive.sh"):
        want.update({"--delta": str(args[0]), "--collision-buffer": str(args[1]), "--theta-margin": str(args[2]), "--adaptive-n": ""})
    elif args[2] == 1:
        want["--adaptive-n"] = ""
    else:
        want.update({"--min-samples": str(args[0]), "--max-samples": str(args[1])})
    save = opts.pop("--save-dir", None)
    mon.expect(opts == want and omp == "omp=4", "task-arguments", got=opts, want=want, omp=omp, **detail)
    mon.expect(os.path.normpath(prog) == os.path.join(SCRIPTS[script], "run.py") and os.path.isfile(os.path.join(BASE, prog)), "task-program", got=prog, **detail)
    mon.expect(save is not None and re.search(r"-%d-" % task_id, save) is not None, "task-folder", got=save, **detail)
    mon.count("tasks")
    return runs[0][2:]


def accepted(mon, rng, lab, mains, detail):
    """What the task scripts hand to the experiments is what the experiments take."""
    import tinybullet as tb
    import pddlstream.algorithms.meta as meta
    from checks.tamp_runs import as_program
    script = list(SCRIPTS)[int(rng.integers(3))]
    n = int(rng.integers(2, 3000))
    args = [.03, round(float(rng.uniform(.01, .04)), 3), round(float(rng.uniform(.05, .2)), 4)] if script.endswith("adaptive.sh") else [int(rng.integers(1, n)), n, int(rng.integers(2))]
    tid = int(rng.integers(1, 201))
    opts = task(mon, lab, script, tid, args, detail)
    if opts is None:
        return
    save = lab.path("logs")
    tb.clear()
    got = []
    meta.SOLVE[0] = lambda problem, **kw: (got.append(problem), (None, float("inf"), []))[1]
    failed = None
    with as_program(["run.py"] + opts + ["--save-dir=" + save], lab.dir):
        try:
            mains[SCRIPTS[script]].main()
        except SystemExit as e:
            failed = repr(e)
    mon.expect(failed is None and len(got) == 1, "task-refused", script=script, options=opts, error=failed, **detail)
    shutil.rmtree(save, ignore_errors=True)
    tb.clear()
    mon.count("tasks_accepted")


def counting(mon, rng, lab, name):
    """The scripts' look at the queue, by itself: tells the number of jobs, and clears the queue only if all of it is stuck."""
    lab.fill(int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 120))])))
    q = lab.lines("queue")
    stuck = rng.random(len(q)) < float(rng.choice([0, .3, .5, .8, 1]))
    if len(q) and rng.random() < .3:
        stuck[:] = True
        stuck[int(rng.integers(len(q)))] = rng.random() < .3
    with open(lab.path("queue"), "w") as h:
        for l, k in zip(q, stuck):
            h.write((re.sub(r"\(.*\)", str(rng.choice(["(launch failed requeued held)", "(JobHeldAdmin)"])), l) if k else l) + "\n")
    open(lab.path("events"), "w").close()
    with lab.active():
        fn = runpy.run_path(os.path.join(BASE, name), run_name="looked_at").get("count_lines_of_command_output")
        if fn is None:
            mon.count("looks_not_offered")
            return
        got = fn()
    ev = [l.split()[0] for l in lab.lines("events")]
    detail = dict(script=name, jobs=len(q), stuck=int(stuck.sum()), events=ev)
    mon.expect(ev.count("sbatch") == 0 and ev.count("squeue") >= 1, "look-submits", **detail)
    mon.expect(got == len(q), "queue-miscounted", got=got, **detail)
    mon.expect((ev.count("scancel") > 0) == bool(len(q) and stuck.all()), "cancelled-running-jobs" if "scancel" in ev else "stuck-queue-left", **detail)
    mon.case((mon.shard, "look", name, tuple(stuck)), nontrivial=bool(stuck.any()))
    mon.count("looks")
    mon.count("looks_part_stuck", bool(stuck.any() and not stuck.all()))
    mon.count("looks_all_stuck", bool(len(q) and stuck.all()))


def monitor_script(mon, rng, lab, detail):
    """The job monitor tells the last line of every output file."""
    names = ["slurm-%d.out" % k for k in rng.choice(1000, int(rng.integers(1, 6)), replace=False)]
    want = set()
    for n in names:
        lines = ["line %d of %s" % (k, n) for k in range(int(rng.integers(1, 5)))]
        with open(lab.path(n), "w") as h:
            h.write("\n".join(lines) + ("\n" if rng.random() < .5 else ""))
        want.add("%s: %s" % (n, lines[-1]))
    r = subprocess.run(["bash", os.path.join(BASE, "monitor_jobs.sh")], cwd=lab.dir, capture_output=True, text=True, timeout=60)
    mon.expect(set(r.stdout.splitlines()) == want, "monitor", got=r.stdout, want=sorted(want), **detail)
    mon.case((mon.shard, tuple(names)))
    mon.count("monitored")


def deploy(mon):
    from checks.tamp_load import load
    from checks.tamp_streams import instrument
    instrument()
    rng = mon.rng("deploy")
    for i in range(mon.n(8, 96)):
        for what, name in ((turtlebot, "turtlebot"), (arm, "arm"), (adaptive, "adaptive")):
            reps = {"turtlebot": 3, "arm": 1, "adaptive": 1}[name]
            for r in range(reps):
                lab = Lab(mon, "%s%d" % (name, i), rng)
                random.seed(int(rng.integers(2 ** 31)))
                start = int(rng.choice([0, 0, 49, 50, 99, 150]))
                held = bool(rng.random() < .3)
                lab.fill(start, held)
                mode = str(rng.choice(["plain", "plain", "broken", "lock"])) if name != "adaptive" else "plain"
                if mode == "broken":
                    lab.break_rate = .3
                if mode == "lock":
                    lab.unlock_at = int(rng.integers(1, 40)) if name == "turtlebot" else int(rng.integers(1, 2500))
                    lab.grace = 1 if name == "turtlebot" else 50        # what was already decided on
                detail = dict(deployment=name, queue=start, held=held, mode=mode)
                what(mon, lab, detail)
                mon.count("mode_" + mode)
                mon.case((mon.shard, i, r, name, start, mode))
                mon.sample(detail)
                shutil.rmtree(lab.dir, ignore_errors=True)
        if mon.hurry():
            break
    # tasks of the array
    lab = Lab(mon, "tasks", rng)
    ids = [t for t in range(0, 203) if mon.mine(t)]
    if mon.tier == "quick":
        ids = [t for t in ids if t in (0, 1, 2, 199, 200, 201)] + [ids[k] for k in rng.choice(len(ids), 6, replace=False)]
    for t in ids:
        for s in SCRIPTS:
            args = [.02, .03, .1] if s.endswith("adaptive.sh") else [int(rng.integers(1, 500)), int(rng.integers(500, 9999)), int(rng.choice([0, 0, 1, 1, 2]))]
            task(mon, lab, s, t, args, {})
    mains = {"turtlebot_move": load("turtlebot_move", "run"), "kuka_carry": load("kuka_carry", "run")}
    for _ in range(mon.n(32, 300)):
        accepted(mon, rng, lab, mains, {})
        if mon.hurry():
            break
    for _ in range(mon.n(80, 800)):
        for name in ("deploy_tamp_experiments.py", "deploy_tamp_experiments_kuka.py", "deploy_tamp_adaptive_kuka.py"):
            counting(mon, rng, lab, name)
    for _ in range(mon.n(40, 400)):
        sub = Lab(mon, "monitor", rng)
        monitor_script(mon, rng, sub, {})
        shutil.rmtree(sub.dir, ignore_errors=True)
    shutil.rmtree(lab.dir, ignore_errors=True)
