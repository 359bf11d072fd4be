"""Evaluation of the robot experiments (C52): plots and notebooks over folders of logs that real runs have written."""
import contextlib
import json
import os
import re
import runpy
import shutil
import sys
import tempfile

import numpy as np
from checks.tamp_load import load, BASE
from checks.tamp_runs import as_program, Player, rover_path, corridor
from checks.tamp_streams import instrument, LOG, SCRIPT, asked


class Broken(Exception):
    pass


def make_groups(rng):
    out = []
    for _ in range(int(rng.integers(1, 5))):
        hi = int(rng.integers(12, 400))
        how = str(rng.choice(["single", "growing", "adaptive"]))
        lo = hi - 1 if how == "single" else int(rng.integers(2, hi - 1))
        g = (lo, hi, how == "adaptive")
        if g not in out:
            out.append(g)
    return out


def stamp(rng):
    return "20%02d%02d%02d-%02d%02d%02d" % tuple(int(rng.integers(a, b)) for a, b in ((20, 40), (1, 13), (1, 29), (0, 24), (0, 60), (0, 60)))


def one_run(mon, rng, g, folder, run, meta, tb, pbu, base):
    """One real run with a scripted planner.  Tells what happened, as the planner saw it."""
    lo, hi, adaptive = g
    seed = int(rng.integers(0, 10 ** 6))
    fate = str(rng.choice(["solved", "solved", "solved", "given-up", "no-path", "broken"]))
    delta = float(round(rng.uniform(.03, .2), 3))
    save = os.path.join(base, "prm-%d--%s" % (seed, stamp(rng)))
    argv = ["run.py", "--seed", str(seed), "--min-samples", str(lo), "--max-samples", str(hi), "--delta", repr(delta), "--save-dir", save]
    argv += ["--adaptive-n"] if adaptive else []
    if folder == "kuka_carry":
        fate = "given-up" if fate == "no-path" and rng.random() < .5 else fate
    tb.clear()
    LOG.clear()
    th = {"solved": int(rng.integers(2, hi + 1)) if not adaptive else 2}.get(fate, 10 ** 18)
    SCRIPT[0] = (th, rover_path)
    if fate == "no-path" and adaptive:
        th = 10 ** 18
    note = {"solved": False, "samples": None}

    def planner(problem, **kw):
        if fate == "broken":
            raise Broken()
        if folder == "kuka_carry":
            if fate == "no-path":
                raise run.SubplanFailed()
            note["solved"] = fate == "solved"
            return ([], 0.0, []) if fate == "solved" else (None, float("inf"), [])
        targets = [f[1] for f in problem.init if f[0].lower() == "target"]
        widest = max(float(pbu.get_aabb_extent(pbu.get_aabb(t))[0]) for t in targets)
        note["delta"] = corridor(tb, pbu, targets) - widest
        if fate == "given-up":
            return None, float("inf"), []
        pl = Player(folder, problem)
        v, q = pl.st.of("rover")[0][1], pl.st.of("atconf")[0][2]
        o = targets[0]
        p0 = [f[2] for f in pl.st.of("atpose") if f[1] == o][0]
        p1 = [x[2] for x in problem.goal[1:] if x[1] == o][0]
        for act, stream, p, extra in (("pick", "sample-motion", p0, ()), ("place", "sample-motion-holding", p1, (o,))):
            q2, = pl.stream("sample-ik", v, o, p)
            LOG.clear()
            t = pl.stream(stream, v, q, q2, *extra)
            if t is None:
                return None, float("inf"), []
            note["samples"] = asked()[-1][0]
            pl.act(act, v, q, t[0], q2, p, o)
            q = q2
        note["solved"] = True
        return pl.plan, 0.0, []
    meta.SOLVE[0] = planner
    os.makedirs(base, exist_ok=True)
    tb.REACHABLE[0] = None
    with as_program(argv, mon.scratch) as out:
        try:
            run.main()
        except Broken:
            note["broken"] = True
        except SystemExit as e:
            mon.violate("run-failed", error=repr(e), output=out.getvalue()[-300:], argv=argv)
    logs = [os.path.join(r, f) for r, _, fs in os.walk(save) for f in fs if f.endswith(".log")]
    text = "".join(open(p).read() for p in logs)
    t = re.findall(r"^Time: ([-+\d.e]+)", text, re.M)
    note.update(group=g, time=float(t[0]) if len(t) == 1 else None, log=logs)
    mon.count("runs_" + ("broken" if note.get("broken") else "solved" if note["solved"] else "unsolved"))
    return note


@contextlib.contextmanager
def figures():
    """What is on the figures when they are shown or saved; nothing is drawn on a screen."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    plt.rcdefaults()
    seen = []
    keep = plt.show, plt.savefig, matplotlib.figure.Figure.savefig
    plt.show = lambda *a, **k: seen.append(("show", plt.gcf()))

    def save(f, p, *a, **k):
        seen.append(("save", f))
        return keep[2](f, p, *a, **k)
    matplotlib.figure.Figure.savefig = save
    try:
        yield seen
    finally:
        plt.show, plt.savefig, matplotlib.figure.Figure.savefig = keep
        plt.close("all")
        plt.rcdefaults()


def play(path, cwd):
    """Runs a script, or the code of a notebook from its first cell to its last."""
    with as_program([os.path.basename(path)], cwd):
        if path.endswith(".ipynb"):
            with open(path) as f:
                cells = json.load(f)["cells"]
            g = {"__name__": "__main__"}
            for n, c in enumerate(cells):
                if c["cell_type"] == "code":
                    exec(compile("".join(c["source"]), "%s#%d" % (path, n), "exec"), g)
        else:
            runpy.run_path(path, run_name="__main__")


def group_stats(notes):
    """{group: (mean, error) of success and of time} over the runs that came to an end"""
    by = {}
    for n in notes:
        if n["time"] is not None:
            by.setdefault(n["group"], []).append(n)
    out = {}
    for g, l in by.items():
        s, t = np.array([float(n["solved"]) for n in l]), np.array([n["time"] for n in l])
        k = len(l)
        out[g] = (s.sum() / k, np.sqrt(((s - s.sum() / k) ** 2).sum() / k) / np.sqrt(k), t.sum() / k, np.sqrt(((t - t.sum() / k) ** 2).sum() / k) / np.sqrt(k))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def judge_bars(mon, fig, want, detail):
    axes = {a.get_ylabel(): a for a in fig.axes}
    if not mon.expect({"Success Rate", "Time"} <= set(axes), "axes", labels=sorted(axes), **detail):
        return
    a = axes["Success Rate"]
    at = {float(x): t.get_text() for x, t in zip(a.get_xticks(), a.get_xticklabels())}
    for name, j in (("Success Rate", 0), ("Time", 2)):
        bars = [c for c in axes[name].containers if hasattr(c, "patches")]
        if not mon.expect(len(bars) == 1 and len(bars[0].patches) == len(want), "bars", of=name, number=len(want), bars=[len(b.patches) for b in bars], **detail):
            continue
        segs = bars[0].errorbar.lines[2][0].get_segments()
        seen = {}
        for p, s in zip(bars[0].patches, segs):
            x = p.get_x() + p.get_width() / 2
            label = at[min(at, key=lambda v: abs(v - x))]
            seen[label] = (p.get_height(), (s[1][1] - s[0][1]) / 2, (s[1][1] + s[0][1]) / 2)
        for g, w in want.items():
            got = seen.get("%d-%d-%d" % g)
            mon.expect(got is not None and close(got[0], w[j]) and close(got[1], w[j + 1]) and close(got[2], w[j]), "bar-of-group", of=name, group=g, drawn=got, wanted=w[j:j + 2],
                       labels=sorted(seen), **detail)
            mon.count("bars")


def judge_points(mon, fig, want, detail):
    """Three series: fixed, growing and adaptive sample counts, with their legend."""
    a = fig.axes[0]
    series = [c for c in a.containers if type(c).__name__ == "ErrorbarContainer"]
    names = [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else []
    if not mon.expect(len(series) == 3 and sorted(names) == ["aPRM", "iPRM", "sPRM"], "series", series=len(series), legend=names, **detail):
        return
    import matplotlib.colors as mc

    def colour(h):
        return tuple(np.round(mc.to_rgba_array(h.get_color())[0], 6))
    of = {colour(h.lines[0] if hasattr(h, "lines") else h): n for n, h in zip(names, a.get_legend().legend_handles)}
    if not mon.expect(sorted(of.get(colour(c.lines[0]), "") for c in series) == sorted(names), "legend-colours", **detail):
        return
    for c in series:
        name = of[colour(c.lines[0])]
        mine = [w for g, w in want.items() if name == ("aPRM" if g[2] else "sPRM" if g[0] == g[1] - 1 else "iPRM")]
        line, _, bars = c.lines
        xy = np.column_stack([line.get_xdata(), line.get_ydata()]).reshape(-1, 2)
        ex = [(s[1][0] - s[0][0]) / 2 for s in bars[0].get_segments()]
        ey = [(s[1][1] - s[0][1]) / 2 for s in bars[1].get_segments()]
        got = sorted((y, e2, x, e1) for (x, y), e1, e2 in zip(xy.tolist(), ex, ey))
        ok = len(xy) == len(got) == len(mine) and all(all(close(p, q) for p, q in zip(a_, b_)) for a_, b_ in zip(got, sorted(mine)))
        mon.expect(ok, "points-of-series", series=name, drawn=got[:6], wanted=sorted(mine)[:6], **detail)
        mon.count("points_" + name, len(mine))


def judge_bound(mon, fig, notes, bound, detail):
    a = fig.axes[0]
    pts = np.concatenate([np.asarray(c.get_offsets()).reshape(-1, 2) for c in a.collections]) if a.collections else np.zeros((0, 2))
    found = sorted((n["delta"], n["samples"]) for n in notes if n["samples"] is not None)
    got = sorted(map(tuple, pts.tolist()))
    ok = len(got) == len(found) and all(abs(x - d) < 1e-6 and int(y) == s for (x, y), (d, s) in zip(got, found))
    mon.expect(ok, "samples-drawn", drawn=got[:6], wanted=found[:6], **detail)
    mon.count("samples_drawn", len(found))
    lines = a.get_lines()
    if mon.expect(len(lines) == 1 and len(lines[0].get_xdata()) >= 10, "bound-line", lines=len(lines), **detail):
        x, y = np.asarray(lines[0].get_xdata(), float), np.asarray(lines[0].get_ydata(), float)
        mon.expect(x.min() <= .03 and x.max() >= .19 and np.all(np.diff(x) > 0), "bound-range", lo=x.min(), hi=x.max(), **detail)
        for j in range(len(x)):
            w = bound(float(x[j]))
            mon.expect(y[j] == w, "bound-drawn", delta=x[j], drawn=y[j], wanted=w, **detail)
        mon.count("bounds_drawn", len(x))


def plots(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    import pddlstream.algorithms.meta as meta
    from nonasymptotic.bound import compute_numerical_bound
    instrument()
    os.makedirs(mon.scratch, exist_ok=True)
    folder = "turtlebot_move" if mon.shard % 2 == 0 else "kuka_carry"
    run = load(folder, "run")
    known = {}

    def bound(d):
        if d not in known:
            known[d] = compute_numerical_bound(d, .9, 1, 2, None)[0]
        return known[d]
    for i in range(mon.n(64, 800)):
        if mon.hurry():
            break
        rng = mon.rng("plots", i, folder)
        top = tempfile.mkdtemp(dir=mon.scratch)
        cwd = os.path.join(top, "exps", "tamp_environment", folder)
        os.makedirs(cwd)
        os.makedirs(os.path.join(top, "figures"))
        base = os.path.join(cwd, "runs")
        groups = make_groups(rng)
        notes = []
        for g in groups:
            for _ in range(int(rng.integers(1, 5))):
                notes.append(one_run(mon, rng, g, folder, run, meta, tb, pbu, base))
        # other files beside the logs
        for r, _, fs in list(os.walk(base)):
            if rng.random() < .2:
                with open(os.path.join(r, str(rng.choice(["notes.txt", "old.log.bak", "table.csv"]))), "w") as f:
                    f.write("Experiment arguments:\n{}\nDelta: 5\nFound solution in\n7\nSolved: True\nTime: 1\n")
        want = group_stats(notes)
        detail = dict(groups=groups, runs=[(n["group"], n["solved"], n["time"], n["samples"]) for n in notes][:8])
        mon.case((folder, mon.shard, i, repr(groups), len(notes)))
        mon.sample(detail, 1)
        programs = ["time_success_plot.py", "bound_plot.py", "time_success_scatter.ipynb"] if folder == "turtlebot_move" else ["time_success_scatter.ipynb", "time_success_scatter_adaptive.ipynb"]
        for prog in programs:
            path = os.path.join(BASE, folder, prog)
            with figures() as seen:
                with mon.guard("evaluation-fails"):
                    play(path, cwd)
                    mon.count("programs_run")
                    if not mon.expect(len(seen) == 1, "figures", number=len(seen), program=prog, **detail):
                        continue
                    fig = seen[0][1]
                    d = dict(program=prog, **detail)
                    if prog == "time_success_plot.py":
                        judge_bars(mon, fig, want, d)
                    elif prog == "bound_plot.py":
                        judge_bound(mon, fig, notes, bound, d)
                    else:
                        judge_points(mon, fig, want, d)
        shutil.rmtree(top, ignore_errors=True)
    tb.clear()
