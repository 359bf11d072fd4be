"""Experiment monitors (C33-C37): the scripts run as they are, in forked processes, on small configurations."""
import hashlib
import json
import math
import os
import re
import shutil
import stat
import subprocess
import sys
import tempfile

import numpy as np

from checks import exps_run
from checks.exps_run import run, sweep, table, canon, EXPS
from checks.prm_model import Facts, connections, search

SCRIPT = {"knn": "run_knn_radius_trial.py", "narrow": "run_narrow_passage_clearance_trial.py",
          "line": "run_straight_line_optimality_trial.py"}


def preload(kgraph=True):
    if not kgraph:
        sys.modules["kgraph"] = None
    import envs, prm, ann, pandas, networkit, pynndescent  # noqa: F401,E401
    import nonasymptotic.envs, nonasymptotic.prm, nonasymptotic.ann  # noqa: F401,E401
    import runpy, itertools, argparse, glob, datetime, traceback  # noqa: F401,E401
    sys.path.insert(0, EXPS)


def stub_line():
    """The completeness check of the line experiment does not exist any more in the environment; the stand-in for it
    is a fixed function of what it is asked."""
    import envs

    def verdict(self, prm, tol=0.1, n_samples_per_check=100, timeout=60.0, area_tol=1e-8, **kw):
        h = hashlib.sha256(repr((float(np.sum(prm.prm_samples)), round(float(tol), 9))).encode()).digest()
        return bool(h[0] & 1), ("timed out" if h[1] < 40 else "")
    envs.StraightLine.is_prm_epsilon_delta_complete = verdict


def ints(rng, lo, hi, n):
    return sorted(int(v) for v in rng.choice(np.arange(lo, hi), size=n, replace=False))


def make_config(rng, kind, small=False):
    dims = [int(v) for v in rng.permutation([2, 3, 4, 5])[:int(rng.integers(1, 4))]]
    nt = int(rng.integers(1, 4))
    if kind == "knn":
        return {"dims_to_test": dims, "n_trials": nt, "delta": float(rng.uniform(.05, 1)),
                "sample_schedule": ints(rng, 5, 40, int(rng.integers(1, 4))),
                "neighbor_schedule": ints(rng, 1, 5, 1) + ints(rng, 5, 30, int(rng.integers(0, 4)))}
    if kind == "line":
        return {"dims_to_test": dims, "n_trials": nt, "delta": float(rng.uniform(.05, 1)),
                "sample_schedule": ints(rng, 6, 40, int(rng.integers(1, 4))), "n_samples_per_check_round": 10,
                "ed_check_timeout": 5.0, "area_tol": 1e-8, "prm_max_k_neighbors": int(rng.choice([4, 8]))}
    ds = [float(v) for v in rng.choice([.08, .15, .22, .3, .4], size=int(rng.integers(1, 3)), replace=False)]
    return {"deltas": ds, "radius_dims_to_test": dims[:2] if rng.random() < .85 else [], "knn_dims_to_test": dims[-1:] if rng.random() < .85 else [],
            "n_trials": min(nt, 2) if small else nt, "radius_sample_schedule": ints(rng, 3, 30, int(rng.integers(1, 3))),
            "knn_sample_schedule": ints(rng, 6, 40, int(rng.integers(1, 3))),
            "radius_prm_max_radius": float(rng.uniform(.3, 3)), "knn_prm_max_neighbors": int(rng.choice([4, 8, 16]))}


def many_trials(rng, kind, trials):
    """Many short trials: about that many combinations."""
    dims = [int(v) for v in rng.permutation([2, 3, 4])[:int(rng.integers(1, 3))]]
    if kind == "narrow":
        r, k = (dims[:1], []) if rng.random() < .5 else (dims[:1], dims[-1:])
        ds = [float(v) for v in rng.choice([.15, .22, .3], size=int(rng.integers(1, 3)), replace=False)]
        per = len(ds) * (len(r) + len(k))
        return {"deltas": ds, "radius_dims_to_test": r, "knn_dims_to_test": k, "n_trials": -(-trials // per), "radius_sample_schedule": ints(rng, 2, 6, int(rng.integers(1, 4))),
                "knn_sample_schedule": ints(rng, 5, 9, int(rng.integers(1, 4))), "radius_prm_max_radius": float(rng.uniform(.3, 2)), "knn_prm_max_neighbors": 4}
    c = {"dims_to_test": dims, "n_trials": -(-trials // len(dims)), "delta": float(rng.uniform(.05, 1))}
    if kind == "knn":
        return dict(c, sample_schedule=ints(rng, 4, 8, int(rng.integers(1, 3))), neighbor_schedule=ints(rng, 1, 4, int(rng.integers(1, 3))))
    return dict(c, sample_schedule=ints(rng, 6, 10, int(rng.integers(1, 3))), n_samples_per_check_round=10, ed_check_timeout=5.0, area_tol=1e-8, prm_max_k_neighbors=4)


def combos(kind, c):
    """{combination: rows it should have}"""
    if kind == "knn":
        n = sum(1 for s in c["sample_schedule"] for k in c["neighbor_schedule"] if k < s)
        return {(d, t): n for d in c["dims_to_test"] for t in range(c["n_trials"])}
    if kind == "line":
        return {(d, t): len(c["sample_schedule"]) for d in c["dims_to_test"] for t in range(c["n_trials"])}
    out = {}
    for p in ("radius", "knn"):
        for x in c["deltas"]:
            for d in c[p + "_dims_to_test"]:
                for t in range(c["n_trials"]):
                    out[(p, x, d, t)] = len(c[p + "_sample_schedule"])
    return out


def key_of(kind, r):
    if kind == "narrow":
        return (r["prm_type"], r["delta_clearance"], int(r["dim"]), int(r["trial"]))
    return (int(r["dim"]), int(r["trial"]))


class Box:
    """One experiment directory."""

    def __init__(self, mon, kind, config):
        self.kind, self.config = kind, config
        self.dir = tempfile.mkdtemp(dir=mon.scratch)
        self.save = os.path.join(self.dir, "run")
        os.mkdir(self.save)
        self.path = os.path.join(self.dir, "config.json")
        with open(self.path, "w") as f:
            json.dump(config, f)

    def task(self, t, n, **kw):
        res = run(SCRIPT[self.kind], [t, n, self.path, self.save], self.dir, prepare=stub_line if self.kind == "line" else None, **kw)
        sweep(res, self.dir)
        return res

    def out(self, t):
        return os.path.join(self.save, "out%d.csv" % t)

    def clear(self):
        for p in os.listdir(self.save):
            os.remove(os.path.join(self.save, p))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


KINDS = ["knn", "narrow", "line", "narrow"]


# ------------------------------------------------------------------------------- C33
def partition(mon):
    preload(mon.shard % 2 == 0)
    for i in range(mon.n(640, 8000)):
        if mon.hurry():
            break
        rng = mon.rng("partition", i)
        kind = KINDS[i % len(KINDS)]
        c = make_config(rng, kind, small=True)
        want = combos(kind, c)
        n = int(rng.choice([1, 2, 3, 4, 5, 7, max(1, len(want)), len(want) + 1, len(want) + 3]))
        if i % 40 == 3:       # an array job of the size they are made for
            n = int(rng.choice([49, 65, 101, 130, 260]))
            kind = ("knn", "narrow", "line")[(mon.shard + i // 40) % 3]
            c = many_trials(rng, kind, n * int(rng.integers(1, 4)) - int(rng.integers(0, 9)))
            want = combos(kind, c)
            mon.count("array_jobs")
            mon.peak("processes_of_one_job", n)
        box = Box(mon, kind, c)
        order = [int(t) for t in rng.permutation(n)]
        rows, seen = [], {}
        for t in order:
            before = {p: os.stat(os.path.join(box.save, p)).st_mtime_ns for p in os.listdir(box.save)}
            res = box.task(t, n)
            mon.count("processes")
            if not mon.expect(res.code == 0, "process-fails", experiment=kind, task=t, of=n, config=c, error=res.error):
                continue
            after = {p: os.stat(os.path.join(box.save, p)).st_mtime_ns for p in os.listdir(box.save)}
            touched = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
            mon.expect(set(touched) <= {"out%d.csv" % t}, "writes-other-files", touched=touched, task=t, experiment=kind)
            if os.path.exists(box.out(t)):
                mine = table(box.out(t))
                rows += mine
                for r in mine:
                    seen.setdefault(key_of(kind, r), set()).add(t)
            else:
                mon.count("processes_without_work")
        count = {}
        for r in rows:
            count[key_of(kind, r)] = count.get(key_of(kind, r), 0) + 1
        mon.expect(set(count) == set(want), "combinations", missing=sorted(set(want) - set(count))[:4],
                   extra=sorted(set(count) - set(want))[:4], experiment=kind, processes=n, config=c)
        twice = [k for k, v in seen.items() if len(v) > 1]
        mon.expect(not twice, "combination-run-twice", which=twice[:4], by=[sorted(seen[k]) for k in twice[:4]], experiment=kind, processes=n)
        wrong = {str(k): [count[k], want[k]] for k in count if k in want and count[k] != want[k]}
        mon.expect(not wrong, "rows-of-combination", found_and_wanted=dict(list(wrong.items())[:4]), experiment=kind, processes=n, config=c)
        # trials stand for independent draws: none repeats the seed of another, in whichever process it ran
        by_seed = {}
        for r in rows:
            by_seed.setdefault(int(r["seed"]), set()).add(key_of(kind, r))
        mon.count("seeds", len(by_seed))
        same = {str(k): sorted(map(str, v))[:3] for k, v in by_seed.items() if len(v) > 1}
        mon.expect(not same, "seed-of-several-trials", which=dict(list(same.items())[:3]), experiment=kind, processes=n, config=c)
        mon.count("combinations", len(want))
        mon.case((kind, json.dumps(c, sort_keys=True), n), n > 1)
        mon.sample({"experiment": kind, "processes": n, "combinations": len(want), "config": c}, 1)
        box.close()


# ------------------------------------------------------------------------------- C34
def resuming(mon):
    preload(mon.shard % 2 == 0)
    for i in range(mon.n(240, 4000)):
        if mon.hurry():
            break
        rng = mon.rng("resume", i)
        kind = KINDS[i % len(KINDS)]
        c = make_config(rng, kind, small=True)
        if kind == "narrow":         # many short trials
            c["radius_sample_schedule"] = ints(rng, 2, 12, int(rng.integers(1, 3)))
            c["knn_sample_schedule"] = ints(rng, 5, 14, int(rng.integers(1, 3)))
        c["n_trials"] = max(2, c["n_trials"])
        # mostly several trials for the process, so that it resumes from a file with results
        n = int(rng.integers(1, 4)) if rng.random() < .3 else int(rng.integers(1, max(2, len(combos(kind, c)) // 2)))
        if i % 10 == 3:       # one process with many trials behind it
            kind = ("knn", "narrow", "line")[(mon.shard + i // 10) % 3]
            n, c = int(rng.integers(1, 3)), many_trials(rng, kind, int(rng.choice([30, 70, 130])))
            mon.count("long_processes")
        t = int(rng.integers(n))
        box = Box(mon, kind, c)
        whole = box.task(t, n)
        if not mon.expect(whole.code == 0, "process-fails", experiment=kind, config=c, error=whole.error):
            box.close()
            continue
        if not os.path.exists(box.out(t)):
            box.close()
            continue
        want = canon(table(box.out(t)))
        mon.count("trials", len({key_of(kind, r) for r in table(box.out(t))}))
        mon.peak("events", whole.events)
        # some single crash points, then some multiple ones
        points = sorted({int(v) for v in rng.integers(1, whole.events + 1, size=2)} | {int(v) for v in rng.integers(whole.events // 2, whole.events + 1, size=2) if v}
                        | {1, whole.events})
        plans = [[p] for p in points] + [[int(v) for v in rng.integers(1, whole.events + 1, size=int(rng.integers(2, 6)))] for _ in range(3)]
        for plan in plans:
            box.clear()
            mode = "kill" if rng.random() < .7 else "interrupt"
            ok, hit = True, []
            for p in plan:
                res = box.task(t, n, crash_at=p, mode=mode)
                mon.count("runs_crashed" if res.code == 77 else "runs_ended")
                if res.code == 77:
                    hit.append(str(res.error).replace(box.dir, ""))
                    mon.count("crash_while_writing", "row" in str(res.error))
                elif not mon.expect(res.code == 0, "cannot-resume", experiment=kind, plan=plan, mode=mode, crashed_at=hit, error=res.error, config=c):
                    ok = False
                    break
            if not ok:
                continue
            held = os.path.exists(box.out(t)) and canon(table(box.out(t)))
            mon.count("resumed_from_results", bool(held) and held != want)
            mon.count("resumed_%s_from_results" % kind, bool(held) and held != want)
            res = box.task(t, n)
            if not mon.expect(res.code == 0, "cannot-resume", experiment=kind, plan=plan, mode=mode, crashed_at=hit, error=res.error, config=c):
                continue
            if not mon.expect(os.path.exists(box.out(t)), "no-result", experiment=kind, plan=plan, crashed_at=hit):
                continue
            got = canon(table(box.out(t)))
            mon.count("resumed_compared")
            mon.expect(got == want, "resumed-result-differs", experiment=kind, plan=plan, mode=mode, crashed_at=hit, rows=[len(got), len(want)],
                       missing=[r for r in want if r not in got][:2], extra=[r for r in got if r not in want][:2], config=c)
            again = box.task(t, n)       # started once more although complete
            mon.expect(again.code == 0 and canon(table(box.out(t))) == want, "complete-result-changed", experiment=kind, code=again.code, error=again.error, config=c)
            mon.case((kind, json.dumps(c, sort_keys=True), t, n, tuple(plan), mode), bool(hit))
            mon.sample({"experiment": kind, "task": [t, n], "crash_events": plan, "mode": mode, "crashed_at": hit}, 1)
        box.close()


# ------------------------------------------------------------------------------- C35
def watch_narrow():
    """Records, through public calls, every roadmap a trial builds and every question it asks."""
    import nonasymptotic.prm as P
    log = []

    def wrap(cls, name, after):
        f = getattr(cls, name)

        def g(self, *a, **k):
            out = f(self, *a, **k)
            after(self, a, out)
            return out
        setattr(cls, name, g)

    for cls in (P.SimpleFullConnRadiusPRM, P.SimpleNearestNeighborRadiusPRM):
        wrap(cls, "grow_to_n_samples", lambda s, a, out: log.append(["grow", np.asarray(s.prm_samples).tolist()]))
    wrap(P.SimplePRM, "query_best_solution", lambda s, a, out: log.append(["query", np.asarray(a[0]).tolist(), np.asarray(a[1]).tolist(),
                                                                               float(out[0]), len(out[1])]))
    return log


class NarrowOracle:
    """Which settings let the query through, judged without the repository's roadmap code."""

    def __init__(self, env, x, start, goal, kgraph):
        self.env, self.x, self.s, self.g, self.kgraph = env, np.array(x), np.array(start), np.array(goal), kgraph
        self.f = Facts(self, self.x)

    dim = property(lambda s: s.x.shape[1])

    def valid(self, a, b):
        return np.asarray(self.env.is_motion_valid(np.ascontiguousarray(a), np.ascontiguousarray(b))).reshape(-1).astype(bool)

    def valid1(self, p, q):
        p, q = np.atleast_2d(p), np.atleast_2d(q)
        n = max(len(p), len(q))
        return self.valid(np.broadcast_to(p, (n, self.dim)).copy(), np.broadcast_to(q, (n, self.dim)).copy())

    def solve(self, adj, r):
        """(distance, hops) or None"""
        si, sd, _ = connections(self, self.x, self.s, r)
        gi, gd, _ = connections(self, self.x, self.g, r)
        n = len(self.x)
        nb = {u: [(v, float(self.f.d[u, v])) for v in np.nonzero(adj[u])[0]] for u in range(n)}
        nb["s"] = [(int(v), float(d)) for v, d in zip(si, sd)]
        for v, d in zip(gi, gd):
            nb[int(v)] = nb[int(v)] + [("g", float(d))]
        import heapq
        q, done, k = [(0.0, 0, "s", 0)], set(), 0
        while q:
            d, _, u, hops = heapq.heappop(q)
            if u in done:
                continue
            done.add(u)
            if u == "g":
                return d, hops - 1
            for v, w in nb.get(u, ()):
                if v not in done:
                    k += 1
                    heapq.heappush(q, (d + w, k, v, hops + 1))
        return None

    def radius(self, r):
        return self.solve((self.f.d <= r * (1 + 1e-12)) & self.f.ok & self.f.off, r)

    def settings_radius(self, top):
        d = self.f.d[np.triu((self.f.d <= top) & self.f.ok & self.f.off)]
        return np.unique(d)

    def neighbours(self, k, top):
        n = len(self.x)
        eff = min(n - 1, top)
        order = np.argsort(np.where(self.f.off, self.f.d, np.inf), axis=1, kind="stable")
        less = 0 if self.kgraph else 1       # pynndescent spends one on the point itself
        kk = max(0, min(k, eff) - less)
        adj = np.zeros((n, n), bool)
        for u in range(n):
            adj[u, order[u, :kk]] = True
        last = eff - less
        r = float(np.min(np.take_along_axis(self.f.d, order, axis=1)[:, last - 1])) if last >= 1 else 0.0
        # the certified radius is a float32
        return self.solve((adj | adj.T) & self.f.ok & self.f.off, r), r


def narrow(mon):
    kg = mon.shard % 2 == 0
    preload(kg)
    from nonasymptotic.envs import NarrowPassage
    for i in range(mon.n(1200, 16000)):
        if mon.hurry():
            break
        rng = mon.rng("narrow", i)
        c = {"deltas": [float(rng.choice([.1, .2, .3, .4, .45, rng.uniform(.05, .45)]))], "radius_dims_to_test": [], "knn_dims_to_test": [], "n_trials": 1,
             "radius_sample_schedule": ints(rng, 1, 30, int(rng.integers(1, 5))), "knn_sample_schedule": ints(rng, 3, 60, int(rng.integers(1, 4))),
             "radius_prm_max_radius": float(rng.choice([.3, 1.0, 2.0, 3.5, rng.uniform(.2, 3.5)])), "knn_prm_max_neighbors": int(rng.choice([4, 8, 16, 32]))}
        typ = "radius" if rng.random() < .5 else "knn"
        big = i % 25 == 4
        if big:
            mon.count("large_trials")
            c.update(radius_sample_schedule=ints(rng, 5, 140, int(rng.integers(2, 4))), knn_sample_schedule=ints(rng, 30, 300, int(rng.integers(2, 4))),
                     radius_prm_max_radius=float(rng.uniform(.3, 3.5)), knn_prm_max_neighbors=int(rng.choice([32, 64, 128])))
        c[typ + "_dims_to_test"] = [int(rng.choice([2, 2, 3, 4]))]
        box = Box(mon, "narrow", c)
        n = int(rng.integers(1, 3 if big else 6))
        # seeds follow from the process number: run one process of many, with n of the trials
        of = int(rng.integers(2, 4000))
        task = int(rng.integers(of))
        c["n_trials"] = (n - 1) * of + task + 1
        with open(box.path, "w") as f:
            json.dump(c, f)
        res = run(SCRIPT["narrow"], [task, of, box.path, box.save], box.dir, prepare=watch_narrow, collect=lambda log: log)
        sweep(res, box.dir)
        if mon.expect(res.code == 0, "trial-fails", config=c, error=res.error):
            rows = table(box.out(task))
            judge_narrow(mon, NarrowPassage, c, typ, rows, res.extra, kg, list(range(task, c["n_trials"], of)))
        mon.case((task, json.dumps(c, sort_keys=True), kg))
        mon.sample({"config": c}, 1)
        box.close()


def judge_narrow(mon, NarrowPassage, c, typ, rows, log, kg, trials):
    sched = c[typ + "_sample_schedule"]
    top = c["radius_prm_max_radius"] if typ == "radius" else c["knn_prm_max_neighbors"]
    dim, delta = c[typ + "_dims_to_test"][0], c["deltas"][0]
    if not mon.expect([(r["trial"], r["n_samples"]) for r in rows] == [(t, s) for t in trials for s in sched],
                      "one-record-per-size", got=[(r["trial"], r["n_samples"]) for r in rows], schedule=sched, config=c):
        return
    grows = []
    for e in log:        # the roadmap of each size, with what it was asked
        if e[0] == "grow":
            if grows and grows[-1][0] == e[1]:
                continue         # a rebuild of the same samples for another radius
            grows.append((e[1], []))
        else:
            grows[-1][1].append((e[1], e[2], e[3], e[4]))
    if not mon.expect([len(g[0]) for g in grows] == [r["n_samples"] for r in rows], "roadmap-sizes",
                      got=[len(g[0]) for g in grows], config=c):
        return
    asked = {json.dumps(q[:2]) for g in grows for q in g[1]}
    mon.expect(len(asked) <= 1, "query-changes-within-run", asked=sorted(asked)[:3], config=c)
    if not asked:
        mon.count("never_asked")
        return
    start, goal = [np.array(p) for p in json.loads(asked.pop())]
    far = np.array([-1.0] + [0.0] * (dim - 1)) - (.5 - delta)
    mon.expect(start.shape == goal.shape == (dim,) and np.allclose(start, far, atol=1e-9, rtol=0) and np.allclose(goal, -far, atol=1e-9, rtol=0),
               "other-query", start=start, goal=goal, wanted=[far, -far], config=c)
    seeds = {r["trial"]: r["seed"] for r in rows}
    mon.expect(len(set(seeds.values())) == len(seeds), "seed-used-twice", seeds=seeds)
    for r, (x, answers) in zip(rows, grows):
        d = dict(record={k: v for k, v in r.items()}, config=c, kgraph=kg)
        seed = int(r["seed"])
        mon.expect(r["prm_type"] == typ and r["dim"] == dim and r["delta_clearance"] == delta and r["build_time"] >= 0 and r["check_time"] >= 0,
                   "record-fields", **d)
        env = NarrowPassage(dim=dim, clearance=delta, seed=seed)
        stream = np.array([env.sample_from_env() for _ in range(len(x) + 3)])
        mon.expect(any(np.array_equal(stream[o:o + len(x)], np.array(x)) for o in range(4)), "samples-of-other-seed", **d)
        o = NarrowOracle(NarrowPassage(dim=dim, clearance=delta, seed=0), x, start, goal, kg)
        lb, ub = float(r["conn_lb"]), float(r["conn_ub"])
        if typ == "radius":
            sets = o.settings_radius(top)
            largest = o.radius(top)
            at = lambda v: largest if len(sets) == 0 or abs(v - sets[-1]) < 1e-12 or abs(v - top) < 1e-12 else o.radius(v)   # noqa: E731
            # the longest connection stands for the largest setting when it is an upper setting only
            at_lb = lambda v: o.radius(v)    # noqa: E731
            near = lambda v: len(sets) and np.min(np.abs(sets - v)) < 1e-12 or abs(v - top) < 1e-12    # noqa: E731
        else:
            sets = 2.0 ** np.arange(2, round(math.log2(top)) + 1)
            largest, cert = o.neighbours(top, top)
            if np.any(np.abs(np.linalg.norm(np.array(x) - start, axis=1) - cert) < 1e-6) or np.any(np.abs(np.linalg.norm(np.array(x) - goal, axis=1) - cert) < 1e-6):
                mon.count("ambiguous")
                continue
            at = at_lb = lambda v: o.neighbours(int(v), top)[0]    # noqa: E731
            near = lambda v: v in sets    # noqa: E731
        mon.count("records_" + typ)
        if ub == ub:
            got = at(ub)
            mon.count("records_with_path")
            if mon.expect(near(ub), "upper-setting-unknown", settings=sets, **d) and \
                    mon.expect(got is not None, "upper-setting-fails", **d):
                # the path recorded is that of the upper setting
                alt = o.radius(ub) if typ == "radius" else None
                cand = [g for g in (got, alt) if g is not None]
                mon.expect(any(abs(r["thresh_path_dist"] - g[0]) <= 1e-5 * (1 + g[0]) for g in cand), "path-distance", shortest=cand, **d)
                mon.expect(any(r["thresh_path_len"] == q[3] and abs(r["thresh_path_dist"] - q[2]) <= 1e-12 * q[2] for q in answers),
                           "path-of-no-answer", answers=[q[2:] for q in answers], **d)
        else:
            mon.count("records_without_path")
            mon.expect(largest is None, "path-reported-missing", largest_setting_finds=largest, **d)
            mon.expect(not r["thresh_path_dist"] == r["thresh_path_dist"], "distance-of-missing-path", **d)
            mon.expect(isinstance(r["info"], str) and r["info"] != "", "missing-path-unexplained", **d)
        if lb == lb:
            mon.count("records_with_lower")
            if mon.expect(near(lb), "lower-setting-unknown", settings=sets, **d):
                mon.expect(at_lb(lb) is None, "lower-setting-succeeds", **d)
        if len(sets) and lb == lb and ub != ub:
            mon.expect(abs(lb - sets[-1]) < 1e-12 or abs(lb - top) < 1e-12, "lower-setting-not-largest", settings=sets, **d)
        if len(sets) and lb != lb and ub == ub:
            mon.count("records_with_upper_only")
            mon.expect(abs(ub - sets[0]) < 1e-12 or abs(ub - top) < 1e-12 and len(sets) == 1, "lower-setting-lost", settings=sets, **d)
        if lb == lb and ub == ub:
            mon.count("records_with_both")
            mon.expect(lb < ub, "settings-out-of-order", **d)
            i, j = [int(np.argmin(np.abs(np.array(sets) - v))) for v in (lb, ub)]
            mon.expect(j == i + 1 or abs(ub - top) < 1e-12, "settings-not-adjacent", positions=[i, j], of=len(sets), **d)


# ------------------------------------------------------------------------------- C36
def knn(mon):
    preload(True)
    from nonasymptotic.envs import StraightLine
    for i in range(mon.n(1200, 16000)):
        if mon.hurry():
            break
        rng = mon.rng("knn", i)
        c = {"dims_to_test": [int(v) for v in rng.permutation([2, 3, 4, 5, 8])[:int(rng.integers(1, 3))]], "n_trials": int(rng.integers(1, 3)),
             "delta": float(rng.choice([.05, .5, 1.0, 3.0, rng.uniform(.01, 2)])),
             "sample_schedule": ints(rng, 3, 90, int(rng.integers(1, 5))), "neighbor_schedule": ints(rng, 1, 3, 1) + ints(rng, 3, 60, int(rng.integers(0, 5)))}
        if i % 15 == 4:
            mon.count("large_trials")
            c.update(dims_to_test=c["dims_to_test"][:1], n_trials=1, sample_schedule=ints(rng, 100, 800, 2),
                     neighbor_schedule=ints(rng, 1, 60, 2) + ints(rng, 60, 700, 3))
        # seeds follow from the process number: run one process of many
        n = int(rng.integers(2, 4000))
        t = int(rng.integers(n))
        c["n_trials"] = -(-(t + 1 + n * (c["n_trials"] - 1)) // len(c["dims_to_test"]))
        box = Box(mon, "knn", c)
        for t in [t]:
            res = box.task(t, n)
            if not mon.expect(res.code == 0, "trial-fails", config=c, error=res.error):
                continue
            if not os.path.exists(box.out(t)):
                continue
            rows = table(box.out(t))
            mon.count("trials", len({r["seed"] for r in rows}))
            by = {}
            for r in rows:
                by.setdefault((r["dim"], r["trial"]), []).append(r)
            for (dim, trial), rs in by.items():
                want = sorted((s, k) for s in c["sample_schedule"] for k in c["neighbor_schedule"] if k < s)
                if not mon.expect(sorted((r["n_samples"], r["n_neighbors"]) for r in rs) == want, "one-record-per-size",
                                  got=sorted((r["n_samples"], r["n_neighbors"]) for r in rs)[:5], wanted=len(want), config=c):
                    continue
                seeds = {r["seed"] for r in rs}
                if not mon.expect(len(seeds) == 1, "several-seeds", seeds=sorted(seeds), config=c):
                    continue
                env = StraightLine(int(dim), c["delta"], seed=int(seeds.pop()))
                for s in c["sample_schedule"]:
                    x = np.array([env.sample_from_env() for _ in range(s)])
                    d = np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2))
                    np.fill_diagonal(d, np.inf)
                    d.sort(axis=1)
                    for r in rs:
                        if r["n_samples"] == s:
                            v = d[:, int(r["n_neighbors"]) - 1].min()
                            mon.count("records_judged")
                            mon.expect(abs(r["eff_rad"] - v) <= 2e-6 * v + 1e-6, "radius", record=r, actual=v, config=c)
                            mon.expect(r["delta_clearance"] == c["delta"] and r["build_time"] >= 0, "record-fields", record=r, config=c)
        mon.case(json.dumps(c, sort_keys=True))
        mon.sample({"config": c}, 1)
        box.close()


# ------------------------------------------------------------------------------- C54

def radius_of(tol, delta):
    return 2 * delta * (1 + tol) / math.sqrt(1 + tol * tol)


def watch_line(threshold, slow):
    """The completeness check of the environment does not exist any more: verdicts by a rule of this monitor."""
    import envs
    import prm as P
    log = []
    grow = P.SimpleNearestNeighborRadiusPRM.grow_to_n_samples

    def grown(self, n):
        out = grow(self, n)
        log.append({"grow": np.asarray(self.prm_samples).tolist()})
        return out

    def verdict(self, prm, tol=None, n_samples_per_check=None, timeout=None, area_tol=None, **kw):
        x = np.asarray(prm.prm_samples)
        h = hashlib.sha256(repr((float(np.sum(x)), round(float(tol), 9))).encode()).digest()
        half = (self.bounds_upper[1] - self.bounds_lower[1]) / 2
        r = radius_of(float(tol), float(half))
        if threshold is None:
            yes = bool(h[0] & 1)
        else:
            yes = bool(r >= threshold * float(half) / math.sqrt(len(x)))
        late = h[1] < slow * 256 and not yes
        log.append({"tol": float(tol), "n": n_samples_per_check, "timeout": timeout, "area": area_tol, "yes": yes, "late": bool(late),
                    "samples": [len(x), float(np.sum(x))], "lower": self.bounds_lower.tolist(), "upper": self.bounds_upper.tolist()})
        return yes, ("timed out" if late else "all done")
    P.SimpleNearestNeighborRadiusPRM.grow_to_n_samples = grown
    envs.StraightLine.is_prm_epsilon_delta_complete = verdict
    return log


def line(mon):
    kg = mon.shard % 2 == 0
    preload(kg)
    from nonasymptotic.envs import StraightLine
    for i in range(mon.n(800, 12000)):
        if mon.hurry():
            break
        rng = mon.rng("line", i)
        c = {"dims_to_test": [int(rng.choice([2, 3, 4]))], "n_trials": 1, "delta": float(rng.choice([.3, .5, 1.0, rng.uniform(.2, 1.2)])),
             "sample_schedule": ints(rng, 8, 70, int(rng.integers(1, 4))), "n_samples_per_check_round": int(rng.integers(5, 200)),
             "ed_check_timeout": float(rng.choice([1.0, 5.0, 60.0, 7200.0])), "area_tol": float(rng.choice([1e-8, 1e-6, 1e-3])),
             "prm_max_k_neighbors": int(rng.choice([4, 8, 16, 100]))}
        if i % 25 == 4:
            mon.count("large_trials")
            c.update(sample_schedule=ints(rng, 20, 500, int(rng.integers(2, 6))), prm_max_k_neighbors=int(rng.choice([16, 100, 254])))
        threshold = None if rng.random() < .3 else float(rng.choice([0, .2, .5, 1, 2, 9, rng.uniform(0, 3)]))
        slow = float(rng.choice([0, .3, 1]))
        n = int(rng.integers(1, 3))
        of = int(rng.integers(2, 4000))
        task = int(rng.integers(of))
        c["n_trials"] = (n - 1) * of + task + 1
        box = Box(mon, "line", c)
        res = run(SCRIPT["line"], [task, of, box.path, box.save], box.dir, prepare=lambda: watch_line(threshold, slow), collect=lambda log: log)
        sweep(res, box.dir)
        if mon.expect(res.code == 0, "trial-fails", config=c, error=res.error):
            judge_line(mon, StraightLine, c, table(box.out(task)), res.extra, kg, list(range(task, c["n_trials"], of)))
        mon.case((task, json.dumps(c, sort_keys=True), kg, threshold))
        mon.sample({"config": c, "threshold": threshold}, 1)
        box.close()


def judge_line(mon, StraightLine, c, rows, log, kg, trials):
    sched, dim, delta = c["sample_schedule"], c["dims_to_test"][0], c["delta"]
    if not mon.expect([(r["trial"], r["n_samples"]) for r in rows] == [(t, s) for t in trials for s in sched],
                      "one-record-per-size", got=[(r["trial"], r["n_samples"]) for r in rows], schedule=sched, config=c):
        return
    grows = []
    for e in log:
        if "grow" in e:
            grows.append((np.array(e["grow"]), []))
        else:
            grows[-1][1].append(e)
    if not mon.expect([len(g[0]) for g in grows] == [r["n_samples"] for r in rows], "roadmap-sizes", got=[len(g[0]) for g in grows], config=c):
        return
    seeds = {r["trial"]: r["seed"] for r in rows}
    mon.expect(len(set(seeds.values())) == len(seeds), "seed-used-twice", seeds=seeds)
    for r, (x, checks) in zip(rows, grows):
        d = dict(record=dict(r), config=c, kgraph=kg)
        mon.count("records")
        mon.expect(r["dim"] == dim and r["delta_clearance"] == delta and r["build_time"] >= 0 and r["check_time"] >= 0, "record-fields", **d)
        env = StraightLine(dim, delta, seed=int(r["seed"]))
        stream = np.array([env.sample_from_env() for _ in range(len(x) + 3)])
        mon.expect(any(np.array_equal(stream[o:o + len(x)], x) for o in range(4)), "samples-of-other-seed", **d)
        # the radii there are: distances to the nearest neighbours, up to the smallest distance to a last one
        dist = np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2))
        np.fill_diagonal(dist, np.inf)
        dist.sort(axis=1)
        k = min(len(x) - 1, c["prm_max_k_neighbors"]) - (0 if kg else 1)
        top = float(dist[:, k - 1].min())
        rads = np.unique(dist[:, :k])
        rads = rads[rads <= top * (1 + 1e-9)]
        eps = 1e-5 * top
        lb, ub = float(r["rad_lbs"]), float(r["rad_ubs"])
        asked = []
        for e in checks:
            mon.count("completeness_questions")
            mon.expect(e["n"] == c["n_samples_per_check_round"] and e["timeout"] == c["ed_check_timeout"] and e["area"] == c["area_tol"], "check-settings", asked=e, **d)
            mon.expect(e["samples"] == [len(x), float(np.sum(x))] and np.allclose(e["lower"], env.bounds_lower) and np.allclose(e["upper"], env.bounds_upper),
                       "other-roadmap-or-world-checked", asked=e, **d)
            if not mon.expect(e["tol"] == e["tol"] or top > delta * 2.8, "tolerance-undefined", asked=e, largest_radius=top, **d):
                continue
            if e["tol"] != e["tol"]:
                asked.append(None)
                continue
            q = radius_of(e["tol"], delta)
            mon.expect(np.min(np.abs(rads - q)) <= eps, "tolerance-of-no-radius", radius=q, nearest=rads[np.argmin(np.abs(rads - q))], asked=e, **d)
            asked.append((q, e["yes"], e["late"]))
        if None in asked or len(set(round(a[0] / eps) for a in asked)) != len(asked):
            mon.count("records_without_tolerance")
            continue
        says = r["info"] if isinstance(r["info"], str) else ""
        late = [a for a in asked if a[2]]
        mon.count("timeouts", len(late))
        mon.expect(says.count("timed out") == len(late), "timeouts-noted", info=says, timed_out=[a[0] for a in late], **d)
        for a in late:
            named = [float(v) for v in re.findall(r"[0-9]+\.[0-9]+", says)]
            mon.expect(any(abs(v - a[0]) <= eps + 1e-6 for v in named), "timed-out-radius-not-named", radius=a[0], info=says, **d)
        yes, no = [a[0] for a in asked if a[1]], [a[0] for a in asked if not a[1]]
        if yes:
            mon.count("records_complete")
            mon.expect(abs(ub - min(yes)) <= eps, "upper-radius-not-smallest-complete", smallest_complete=min(yes), **d)
        else:
            mon.expect(abs(ub - top) <= eps, "upper-radius-not-largest", largest=top, **d)
        if no:
            mon.count("records_incomplete")
            mon.expect(abs(lb - max(no)) <= eps, "lower-radius-not-largest-incomplete", largest_incomplete=max(no), **d)
        if asked:
            mon.expect(lb < ub, "radii-out-of-order", **d)
            between = rads[(rads > lb + eps) & (rads < ub - eps)]
            mon.expect(len(between) == 0, "radii-not-adjacent", between=between, of=len(rads), **d)
            mon.count("records_judged")
            mon.expect("went wrong" not in says, "search-reported-failed", info=says, **d)
        else:
            mon.count("records_without_question")
            mon.expect(len(rads) <= 4, "nothing-asked", radii=len(rads), **d)


# ------------------------------------------------------------------------------- C37
LLSUB = """#!/bin/bash
printf '%s\\0' "$@" > "$STUB_LOG.$(ls -d "$STUB_LOG".* 2>/dev/null | wc -l)"
if [ -x "$1" ]; then touch "$STUB_LOG-executable"; fi
"""
PY = """#!/bin/bash
printf '%s\\0' "$@" > "$STUB_LOG.$(printf %03d $(ls -d "$STUB_LOG".* 2>/dev/null | wc -l))"
"""
JOB = """source() { :; }
module() { :; }
python() { printf '%s\\0' "$@" > "$STUB_OUT"; printf '%s' "$PYTHONPATH" > "$STUB_OUT.path"; }
python3() { python "$@"; }
export LLSUB_RANK=3 LLSUB_SIZE=8
. "$1"
"""


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = ""
    return out


class Desk:
    """A scratch copy of the layout the job scripts expect, with stand-ins for the cluster's commands."""

    def __init__(self, mon):
        self.dir = tempfile.mkdtemp(dir=mon.scratch)
        self.cwd = os.path.join(self.dir, "exps")
        self.bin = os.path.join(self.dir, "bin")
        os.makedirs(os.path.join(self.cwd, "results"))
        os.makedirs(self.bin)
        for name, text in (("LLsub", LLSUB), ("python", PY)):
            p = os.path.join(self.bin, name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
        self.log = os.path.join(self.dir, "calls")
        self.env = {"PATH": self.bin + ":/usr/bin:/bin", "STUB_LOG": self.log}
        self.results = os.path.join(self.cwd, "results")

    def run(self, script, *argv, cwd=None, heard=False):
        for p in os.listdir(self.dir):
            if p.startswith("calls"):
                os.remove(os.path.join(self.dir, p))
        kw = dict(prepare=listen, collect=lambda out: out.getvalue()) if heard else {}
        return run(script, argv, cwd or self.cwd, env=self.env, **kw)

    def calls(self):
        out = []
        for p in sorted(os.listdir(self.dir)):
            if p.startswith("calls."):
                with open(os.path.join(self.dir, p), "rb") as f:
                    out.append([a.decode() for a in f.read().split(b"\0")[:-1]])
        return out

    def executable(self):
        return os.path.exists(self.log + "-executable")

    def job(self, script):
        out = os.path.join(self.dir, "job-out")
        for p in (out, out + ".path"):
            if os.path.exists(p):
                os.remove(p)
        wrap = os.path.join(self.dir, "wrap.sh")
        with open(wrap, "w") as f:
            f.write(JOB)
        subprocess.run(["bash", wrap, script], cwd=self.cwd, env=dict(self.env, STUB_OUT=out), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(out):
            return None, ""
        with open(out, "rb") as f, open(out + ".path") as g:
            return [a.decode() for a in f.read().split(b"\0")[:-1]], g.read()

    def old_run(self, rng, name, stamp, config, triples, age, rows=None, files=None, script="echo old"):
        """A finished earlier run."""
        d = os.path.join(self.results, "%s_%s" % (name, stamp))
        os.makedirs(d)
        with open(os.path.join(d, "config.json"), "w") as f:
            json.dump(dict(config, name=name, triples=triples), f)
        with open(os.path.join(d, "submit_job.sh"), "w") as f:
            f.write("#!/bin/bash\n%s\n" % script)
        for fn, text in (files or {}).items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(text)
        os.utime(d, (1.7e9 - age, 1.7e9 - age))
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def listen():
    """In the forked process: what it prints is kept."""
    import io
    sys.stdout = io.StringIO()
    return sys.stdout


def stamp(age):
    import datetime
    return datetime.datetime.fromtimestamp(1.7e9 - age, datetime.timezone.utc).strftime("%Y%m%d-%H%M%S")


def names(rng):
    base = str(rng.choice(["knn", "line", "exp", "narrow-full", "a", "run_1"]))
    return [base, base + "_small", base + "2", "x" + base]


def job_scripts(mon):
    preload(True)
    for i in range(mon.n(640, 8000)):
        if mon.hurry():
            break
        rng = mon.rng("job", i)
        what = ["submit", "resume", "aggregate", "submit-bad"][i % 4]
        {"submit": submit, "resume": resume, "aggregate": aggregate, "submit-bad": submit_bad}[what](mon, rng)
        mon.count("case_" + what)
    for i in range(mon.n(48, 400)):
        tune(mon, mon.rng("tune", i))


def submit(mon, rng):
    desk = Desk(mon)
    kind = str(rng.choice(["knn", "line", "narrow"]))
    c = make_config(rng, kind)
    if rng.random() < .3:
        c["triples"] = [9, 9, 9]
        c["name"] = "something else"
    if rng.random() < .3:
        c["comment"] = {"nested": [1, 2.5, None, "ü"], "flag": True}
    name = names(rng)[0]
    for k, other in enumerate(names(rng)):
        if rng.random() < .4:
            desk.old_run(rng, other, stamp(1000 * (k + 1)), {"a": 1}, [1, 1, 1], 1000 * (k + 1), files={"out0.csv": "x"})
    cp = os.path.join(desk.dir, "my config.json")
    with open(cp, "w") as f:
        json.dump(c, f)
    triples = [int(v) for v in rng.integers(1, 48, 3)]
    before = tree(desk.results)
    res = desk.run("submit_and_run_experiment_job.py", "--type", kind, "--name", name, "--config-path", cp, "--triples-args", *triples)
    d = dict(type=kind, name=name, triples=triples, config=c)
    calls = desk.calls()
    after = tree(desk.results)
    mon.case(("submit", kind, name, tuple(triples), json.dumps(c, sort_keys=True)))
    mon.sample({"submit": kind, "name": name, "triples": triples}, 1)
    if mon.expect(res.code == 0, "submission-fails", error=res.error, **d) and mon.expect(len(calls) == 1, "submitted-once", calls=calls, **d):
        new = sorted(set(after) - set(before))
        dirs = [p for p in new if p.endswith("/")]
        mon.expect({k: v for k, v in after.items() if k in before} == before, "earlier-runs-changed", **d)
        with open(cp) as f:
            mon.expect(json.load(f) == c, "original-config-changed", **d)
        if mon.expect(len(dirs) == 1 and dirs[0].startswith(name + "_"), "run-directory", new=new, **d):
            run_dir = os.path.join(desk.results, dirs[0])
            try:
                with open(os.path.join(run_dir, "config.json")) as f:
                    got = json.load(f)
            except (OSError, ValueError) as e:
                got = repr(e)
            mon.expect(got == dict(c, name=name, triples=triples), "stored-config", stored=got, **d)
            script = os.path.join(desk.cwd, calls[0][0])
            mon.expect(os.path.realpath(script).startswith(os.path.realpath(run_dir)), "submitted-script", call=calls[0], **d)
            mon.expect(calls[0][1:] == ["[%d,%d,%d]" % tuple(triples)], "submitted-triples", call=calls[0], **d)
            mon.expect(desk.executable(), "script-not-executable", **d)
            argv, pypath = desk.job(script)
            mon.count("jobs_run")
            if mon.expect(argv is not None and len([a for a in argv if not a.startswith("-")]) == 5, "job-arguments", argv=argv, **d):
                a = [a for a in argv if not a.startswith("-")]
                mon.expect(os.path.basename(a[0]) == SCRIPT[kind] and os.path.exists(os.path.join(EXPS, a[0])), "job-script", argv=argv, **d)
                mon.expect(a[1:3] == ["3", "8"], "job-rank-and-size", argv=argv, **d)
                mon.expect(os.path.realpath(os.path.join(desk.cwd, a[3])) == os.path.realpath(os.path.join(run_dir, "config.json")), "job-config", argv=argv, **d)
                mon.expect(os.path.realpath(os.path.join(desk.cwd, a[4])) == os.path.realpath(run_dir), "job-save-path", argv=argv, **d)
                mon.expect(any(os.path.realpath(p) == os.path.realpath(desk.dir) for p in pypath.split(":") if p), "job-python-path", path=pypath, **d)
    desk.close()


def submit_bad(mon, rng):
    """Nothing may be submitted without a configuration, or from elsewhere, or when there is nothing to resume."""
    desk = Desk(mon)
    how = str(rng.choice(["no-config", "no-results", "resume-none", "bad-type", "no-triples"]))
    kind = str(rng.choice(["knn", "line", "narrow"]))
    cp = os.path.join(desk.dir, "c.json")
    if how != "no-config":
        with open(cp, "w") as f:
            json.dump(make_config(rng, kind), f)
    name = names(rng)[0]
    desk.old_run(rng, name + "_other", stamp(50), {"a": 1}, [1, 1, 1], 50)
    desk.old_run(rng, "x" + name, stamp(70), {"a": 1}, [1, 1, 1], 70)
    if how == "no-results":
        shutil.rmtree(desk.results)
    args = ["--type", "other" if how == "bad-type" else kind, "--name", name, "--config-path", cp]
    args += [] if how == "no-triples" else ["--triples-args", 1, 2, 3]
    args += ["--resume"] if how == "resume-none" else []
    before = tree(desk.results)
    res = desk.run("submit_and_run_experiment_job.py", *args)
    mon.expect(not desk.calls(), "submitted-in-spite-of-" + how, calls=desk.calls())
    mon.expect(res.code != 0, "no-failure-reported", how=how, code=res.code)
    after = tree(desk.results)
    mon.expect({k: v for k, v in after.items() if k in before} == before, "earlier-runs-changed", how=how)
    mon.count("bad_" + how)
    mon.case(("bad", how, kind, name))
    desk.close()


def resume(mon, rng):
    desk = Desk(mon)
    ns = names(rng)
    name = ns[0]
    runs = []
    ages = [int(v) for v in rng.permutation(np.arange(1, 12))]
    for k in range(int(rng.integers(1, 4))):
        runs.append((ages[k] * 86400, name))
    for k in range(3, 3 + int(rng.integers(0, 4))):
        runs.append((ages[k] * 86400, str(rng.choice(ns[1:]))))
    made = {}
    for age, nm in runs:
        tr = [int(v) for v in rng.integers(1, 40, 3)]
        d = desk.old_run(rng, nm, stamp(age), {"a": age}, tr, age, files={"out%d.csv" % j: "row %d" % j for j in range(int(rng.integers(0, 3)))},
                         script="echo %d" % age)
        made[(age, nm)] = (d, tr)
    cp = os.path.join(desk.dir, "c.json")
    with open(cp, "w") as f:
        json.dump({"a": 0}, f)
    before = tree(desk.results)
    res = desk.run("submit_and_run_experiment_job.py", "--type", str(rng.choice(["knn", "line", "narrow"])), "--name", name, "--config-path", cp,
                   "--triples-args", 41, 42, 43, "--resume")
    latest = made[min(k for k in made if k[1] == name)]
    d = dict(name=name, runs=sorted(runs), expected=os.path.basename(latest[0]), triples=latest[1])
    calls = desk.calls()
    if mon.expect(res.code == 0 and len(calls) == 1, "resume-fails", error=res.error, calls=calls, **d):
        mon.expect(os.path.realpath(os.path.join(desk.cwd, calls[0][0])) == os.path.realpath(os.path.join(latest[0], "submit_job.sh")),
                   "resumed-other-run", call=calls[0], **d)
        mon.expect(calls[0][1:] == ["[%d,%d,%d]" % tuple(latest[1])], "resumed-triples", call=calls[0], **d)
        mon.expect(desk.executable(), "script-not-executable", **d)
    mon.expect(tree(desk.results) == before, "resume-changed-results", **d)
    mon.case(("resume", name, tuple(sorted(runs))))
    desk.close()


def aggregate(mon, rng):
    desk = Desk(mon)
    import pandas as pd
    prefix = str(rng.choice(["knn", "line", "narrow", "exp-a", "my_agg", "out", "table_agg_out-2", "line_agg_out"]))
    cols = ["dim", "seed", "n_samples", "n_neighbors", "build_time", "check_time", "value", "info", "trial"]
    large = rng.random() < .15
    mon.count("large_tables", large)
    ages = [int(v) for v in rng.permutation(np.arange(1, 12))]
    dirs = []
    for k in range(int(rng.integers(1, 4))):
        nm = prefix if rng.random() < .6 else prefix + "_more"
        files, rows, kept = {}, [], []
        for j in [int(v) for v in rng.permutation(300 if large else 40)[:int(rng.integers(20, 150) if large and rng.random() < .5 else rng.integers(1, 13))]]:
            part = []
            seeds = [int(v) for v in rng.integers(2 ** 32, size=3)]
            for _ in range(int(rng.integers(100, 300) if large and rng.random() < .05 else rng.integers(1, 6))):
                # trials of several sizes and neighbour counts; records of a process may agree in all but a value, or in everything
                part.append((int(rng.integers(2, 5)), seeds[int(rng.integers(3))], int(rng.choice([10, 100])), int(rng.choice([1, 2])),
                             float(rng.uniform()), float(10 ** rng.uniform(-3, 3)), float("nan") if rng.random() < .2
                             else float(rng.uniform()), str(rng.choice(["", "no paths found", "a, b"])), int(rng.integers(3))))
                if rng.random() < .1:
                    part.append(part[-1])
            df = pd.DataFrame(part, columns=cols)
            files["out%d.csv" % j] = df.to_csv()
            rows += part
            kept += part[1:]
        dirs.append((ages[k] * 86400, desk.old_run(rng, nm, stamp(ages[k] * 86400), {"a": k}, [1, 1, 1], ages[k] * 86400, files=files), rows, kept))
    desk.old_run(rng, "z" + prefix, stamp(10), {"a": 9}, [1, 1, 1], 10, files={"out0.csv": "not,a\nreal,table\n"})
    _, d, rows, kept = min(dirs)
    out_name = str(rng.choice(["", "table", "out_all"]))
    args = ["--name-prefix", prefix] + (["--df-out-name", out_name] if out_name else [])
    before = tree(desk.results)
    again = rng.random() < .4
    for turn in range(2 if again else 1):
        res = desk.run("aggregate_runtimes_for_tuning.py", *args, heard=True)
        after = tree(desk.results)
        info = dict(prefix=prefix, out_name=out_name, files=len([p for p in os.listdir(d) if p.startswith("out")]), rows=len(rows), turn=turn)
        if not mon.expect(res.code == 0, "aggregation-fails", error=res.error, **info):
            break
        mon.expect({k: v for k, v in after.items() if k in before} == before, "aggregation-changed-results",
                   changed=[k for k in before if after.get(k) != before[k]], **info)
        new = [p for p in after if p not in before]
        if not mon.expect(len(new) == 1 and os.path.dirname(new[0]) == os.path.basename(d), "one-table", new=new, expected_in=os.path.basename(d), **info):
            break
        got = canon(table(os.path.join(desk.results, new[0])), drop=())
        want = canon([dict(zip(cols, (v if v != "" else float("nan") for v in r))) for r in rows], drop=())
        mon.count("rows_aggregated", len(rows))
        mon.expect(got == want, "table-rows", got=len(got), wanted=len(want), missing=[r for r in want if r not in got][:2],
                   extra=[r for r in got if r not in want][:2], **info)
        said = re.findall(r"([-+\d.e]+|nan)\s*\+/-\s*([-+\d.e]+|nan)", res.extra or "")
        for j, col in ((0, 4), (1, 5)):
            v = np.array([r[col] for r in kept])
            w = [float(v.mean()) if len(v) else np.nan, float(v.std(ddof=1)) if len(v) > 1 else np.nan]
            ok = len(said) == 2 and all((a != a and b != b) or abs(a - b) <= 6e-7 + 1e-9 * abs(b) for a, b in zip(map(float, said[j]), w))
            mon.expect(ok, "statistics", said=said, wanted=w, of="build_time check_time".split()[j], rows_kept=len(kept), **info)
        mon.count("statistics", len(kept) > 1)
        os.utime(d, (1.7e9 - min(dirs)[0],) * 2)
    mon.case(("aggregate", prefix, out_name, again, len(rows), rows[0][1]))
    desk.close()


def tune(mon, rng):
    desk = Desk(mon)
    which = str(rng.choice(["nppn", "threads"]))
    other = int(rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 48, 49, 100]))
    kind = str(rng.choice(["narrow", "line", "knn"]))
    res = desk.run("tune_experiment_triples.py", "--type", kind, "--config-path", "config/x y.json", "--triple-to-test", which, "--other-arg-fill-in", other)
    calls = desk.calls()
    d = dict(which=which, other=other, type=kind)
    mon.case(("tune", which, other, kind))
    if mon.expect(res.code == 0, "tuning-fails", error=res.error, **d):
        got, seen = [], set()
        for a in calls:
            try:
                opt = {}
                k = 1
                while k < len(a):
                    n = 3 if a[k] == "--triples-args" else 1
                    opt[a[k]] = a[k + 1:k + 1 + n]
                    k += 1 + n
                got.append([int(v) for v in opt["--triples-args"]])
                mon.expect(os.path.basename(a[0]) == "submit_and_run_experiment_job.py" and opt["--type"] == [kind]
                           and opt["--config-path"] == ["config/x y.json"], "tuning-call", call=a, **d)
                mon.expect(opt["--name"][0] not in seen, "tuning-name-twice", name=opt["--name"], **d)
                seen.add(opt["--name"][0])
            except (KeyError, IndexError, ValueError) as e:
                mon.violate("tuning-call", call=a, error=repr(e), **d)
        tested = [1, 2, 4, 8, 16, 24, 32, 48]
        want = [[1, v, other] if which == "nppn" else [1, other, v] for v in tested if v * other <= 48]
        mon.expect(sorted(got) == sorted(want), "tuning-triples", got=got, wanted=want, **d)
        mon.count("triples", len(got))
    desk.close()
