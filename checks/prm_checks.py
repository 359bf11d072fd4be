"""Roadmap and neighbour-index monitors (C23-C32): random histories of real roadmap operations, every
observable compared online with the brute-force model of prm_model."""
import hashlib
import json
import os
import sys
import tempfile

import numpy as np

from checks.prm_model import (World, Facts, edges_of, snapshot, search, adjacency, connections, best, MAXD, REL, ABS)

FAR = 1e300      # no real path is this long
nk = None
P = None
KGRAPH = None


def load(mon):
    """Odd shards run without kgraph, so that both index libraries are exercised."""
    global nk, P, KGRAPH
    KGRAPH = mon.shard % 2 == 0
    if not KGRAPH:
        sys.modules["kgraph"] = None
    import networkit as nk_
    from nonasymptotic import prm as p_
    nk, P = nk_, p_


class Roadmap:
    """A real roadmap together with the model's view of it."""

    def __init__(self, rng, world, kind=None, exp=False, params=None):
        self.w = world
        self.kind = kind or str(rng.choice(["full", "nn", "nn-plain", "radius"]))
        self.exp = exp
        self.n, self.r, self.facts = 0, None, None
        self.start = self.mark = None
        if params is None:
            params = {"r": float(rng.choice([rng.uniform(.15, .9), rng.uniform(.1, .4), 2.5])),
                      "k": int(rng.choice([1, 2, 3, 5, 8, 16, 24])),
                      "cap": int(rng.choice([4, 20, 512, 512]))}
        self.params = params
        w = world
        if self.kind == "full":
            self.prm = P.SimpleFullConnRadiusPRM(params["r"], w.check, w.sample)
            self.r = params["r"]
        elif self.kind == "radius":
            self.prm = P.SimpleRadiusPRM(params["r"], w.check, w.sample, w.dist_to_path,
                                         max_k_connection_neighbors=params["cap"])
            self.r = params["r"]
        else:
            self.prm = P.SimpleNearestNeighborRadiusPRM(params["k"], w.check, w.sample, w.dist_to_path,
                                                        truncate_to_eff_rad=self.kind == "nn")
        self.k = params["k"]           # neighbours in force
        self.built_k = self.k          # neighbours of the last build
        self.prm.in_mp_exp_mode = exp

    def describe(self):
        return dict(roadmap=self.kind, params=self.params, world=self.w.kind, dim=self.w.dim, n=self.n,
                    radius=self.r, k=self.k, exp_mode=self.exp, kgraph=KGRAPH)

    @property
    def is_nn(self):
        return self.kind.startswith("nn")

    # ----------------------------------------------------------------- operations
    def grow(self, n):
        before = None if self.n == 0 else np.array(self.prm.prm_samples)
        mark = len(self.w.log)
        self.prm.grow_to_n_samples(n)
        self.before, self.drawn = before, self.w.log[mark:]
        self.n = n
        self.facts = Facts(self.w, self.prm.prm_samples)
        if self.is_nn:
            self.built_k = self.k
            self.cert = float(self.prm.certified_max_conn_r)
            self.r = self.cert if self.kind == "nn" else None

    def set_radius(self, r):
        self.prm.set_connection_radius(r)
        self.r = r

    def set_k(self, k):
        self.prm.set_nearest_neighbors(k)
        self.k = k

    def reset(self):
        self.prm.reset()
        self.n, self.facts = 0, None
        if self.is_nn:
            self.r = None

    # ----------------------------------------------------------------- model
    def force(self):
        """Radius by which queries connect."""
        return self.r if self.r is not None else self.cert

    def listed(self, k):
        """Of k listed neighbours, pynndescent spends one on the point itself."""
        kk = min(self.n - 1, k)
        return (kk if KGRAPH else kk - 1), kk

    def capped(self):
        if self.kind != "radius":
            return False
        within = (self.facts.d <= self.params["r"] * (1 + REL) + ABS).sum(axis=1).max()
        return bool(within > self.params["cap"])       # counts the point itself

    def bounds(self):
        """(must, may): adjacency matrices every correct roadmap lies between."""
        f = self.facts
        if self.kind == "full":
            return f.radius(self.r, 1e-9)
        if self.kind == "radius":
            must, may = f.radius(self.r)
            return (must & False if self.capped() else must), may
        kmin, kmax = self.listed(self.k)
        must, may = f.nearest(kmin, kmax)
        if self.r is not None:
            rm, ra = f.radius(self.r)
            must, may = must & rm, may & ra
        return must, may


def observe(mon, R, tag, sound=True, complete=True):
    """Compares the roadmap with the model; returns its edges."""
    f = R.facts
    g = R.prm.prm_graph
    e, bad = edges_of(g)
    must, may = R.bounds()
    have = np.zeros((R.n, R.n), bool)
    outside = [k for k in e if k[1] >= R.n]
    for (u, v) in e:
        if v < R.n:
            have[u, v] = have[v, u] = True
    mon.count("edges_observed", len(e))
    mon.count("roadmaps_observed")
    same = int((f.d[np.triu_indices(f.n, 1)] == 0).sum())
    mon.count("coincident_pairs", same)
    mon.count("roadmaps_with_coincident_samples", same > 0)
    if sound:
        mon.expect(not bad, tag + "degenerate-edges", defects=bad[:5], **R.describe())
        mon.expect(not outside, tag + "edge-to-no-sample", edges=outside[:5], **R.describe())
        extra = np.argwhere(np.triu(have & ~may))
        if len(extra):
            u, v = map(int, extra[0])
            why = ("invalid motion" if not f.ok[u, v] else "too long" if R.r is not None and f.d[u, v] > R.r else "not a neighbour")
            mon.violate(tag + "edge-not-allowed", why=why, edge=[u, v], number=len(extra), distance=f.d[u, v],
                        u=f.x[u], v=f.x[v], **R.describe())
        for (u, v), w in e.items():
            if v < R.n and abs(w - f.d[u, v]) > 5e-6 * f.d[u, v] + 1e-6:
                mon.violate(tag + "edge-weight", edge=[u, v], weight=w, distance=f.d[u, v], **R.describe())
                break
        mon.expect(list(g.iterNodes()) == list(range(R.n)), tag + "vertices", count=g.numberOfNodes(), **R.describe())
        mon.expect(R.prm.num_vertices() == R.n and R.prm.num_edges() == len(e) + 0 * len(bad), tag + "counts-reported",
                   vertices=R.prm.num_vertices(), edges=R.prm.num_edges(), seen=len(e), **R.describe())
    if complete:
        miss = np.argwhere(np.triu(must & ~have))
        if len(miss):
            u, v = map(int, miss[0])
            mon.violate(tag + "edge-missing", edge=[u, v], number=len(miss), distance=f.d[u, v], u=f.x[u], v=f.x[v],
                        **R.describe())
        if R.is_nn and R.n >= 2:
            # the promise behind the certified radius: every valid pair within it is a listed pair
            kmin, kmax = R.listed(R.built_k)
            lo = float(f.kth(kmin).min()) if kmin >= 1 else 0.0
            hi = float(f.kth(kmax).min())
            mon.expect(lo * (1 - REL) - ABS <= R.cert <= hi * (1 + REL) + ABS, tag + "certified-radius",
                       certified=R.cert, nearest_last_neighbour=[lo, hi], **R.describe())
            if R.k == R.built_k and (R.r is None or R.r >= R.cert):
                cm, _ = f.radius(R.cert)
                lost = np.argwhere(np.triu(cm & ~have))
                mon.expect(not len(lost), tag + "certified-radius-incomplete", number=len(lost), **R.describe())
                mon.count("certified_pairs", int(cm.sum()) // 2)
        mon.count("pairs_promised", int(must.sum()) // 2)
        if R.kind == "radius":
            mon.count("capped" if R.capped() else "uncapped")
    mon.count("pairs_invalid_within_reach", int((~f.ok & (f.d < R.force()) & f.off).sum()) // 2 if R.n else 0)
    return e


def points(rng, R, n=1):
    """Query points: mostly inside, sometimes on a sample, sometimes far outside."""
    out = []
    for _ in range(n):
        u = rng.random()
        if u < .12 and R.n:
            out.append(np.array(R.facts.x[int(rng.integers(R.n))]))
        elif u < .2:
            out.append(rng.uniform(1.5, 9, R.w.dim))
        else:
            out.append(rng.uniform(0, 1, R.w.dim))
    return out


def judge_query(mon, R, e, s, t, ans, tag=""):
    """One answer of query_best_solution against an independent search of the observed roadmap."""
    dist, path = ans
    path = np.asarray(path)
    r = R.force()
    want, amb = best(R.w, R.facts.x, e, s, t, r)
    if amb:
        mon.count("ambiguous")
        return
    d = R.describe()
    dist = float(dist)
    mon.count("queries_judged")
    if want is None:
        mon.count("queries_without_path")
        mon.expect(dist > FAR, tag + "distance-of-missing-path", start=s, goal=t, reported=dist, **d)
        mon.expect(len(path) == 0, tag + "path-of-missing-path", start=s, goal=t, path=path, **d)
        return
    mon.count("queries_with_path")
    if not mon.expect(abs(dist - want) <= 1e-9 * (1 + want), tag + "distance", start=s, goal=t, reported=dist, shortest=want, **d):
        return
    if not mon.expect(path.ndim == 2 and path.shape[1:] == (R.w.dim,) and len(path) >= 1, tag + "path-shape", shape=path.shape, **d):
        return
    ids = []
    for p in path:
        hit = np.nonzero((R.facts.x == p).all(axis=1))[0]
        if not mon.expect(len(hit) >= 1, tag + "path-not-of-samples", point=p, **d):
            return
        ids.append(int(hit[0]))
    mon.peak("path_samples", len(ids))
    total = float(np.linalg.norm(R.facts.x[ids[0]] - s) + np.linalg.norm(R.facts.x[ids[-1]] - t))
    for u, v in zip(ids, ids[1:]):
        k = (min(u, v), max(u, v))
        if not mon.expect(k in e, tag + "path-off-roadmap", hop=[u, v], **d):
            return
        total += e[k]
    mon.expect(bool(R.w.valid1(s, R.facts.x[ids[0]])[0]) and bool(R.w.valid1(t, R.facts.x[ids[-1]])[0]),
               tag + "path-ends-invalid", start=s, goal=t, ids=ids, **d)
    mon.expect(np.linalg.norm(R.facts.x[ids[0]] - s) <= r * (1 + 1e-12) and np.linalg.norm(R.facts.x[ids[-1]] - t) <= r * (1 + 1e-12),
               tag + "path-ends-too-far", start=s, goal=t, ids=ids, **d)
    mon.expect(abs(total - dist) <= 1e-9 * (1 + want), tag + "path-length", reported=dist, length=total, ids=ids, **d)


def next_size(rng, R, big=False):
    if big:
        return R.n + int(rng.choice([150, 210, 260, 320, 420] if R.n == 0 else [1, 10, 60, 130]))
    if R.n == 0:
        return int(rng.choice([2, 3, 5, 12, 17, 30, 40, 60, 80], p=[.06, .06, .08, .15, .15, .2, .15, .1, .05]))
    return R.n + int(rng.choice([1, 2, 5, 10, 16, 25, 40]))


def restrict(rng, R, knob):
    """One setting of the chosen knob (no two knobs between growths)."""
    if R.kind == "full" or (R.is_nn and knob == "r"):
        top = R.cert if R.is_nn else 1.2
        if R.is_nn and rng.random() < .4:
            top = float(R.facts.d.max()) * 1.05     # above the certified radius, too
        r = float(rng.uniform(0, top)) if rng.random() < .95 else 0.0
        R.set_radius(r)
        return ("r", r)
    if R.is_nn:
        k = int(rng.integers(1, R.built_k + 1))
        R.set_k(k)
        return ("k", k)
    return None


def histories(mon, rounds, kinds, visit, exp=lambda rng: False, length=(2, 8), ops=None, grow_same=True, empty=None,
              mixed=0.0, big=48):
    """Drives random histories; visit(R, op, rng) looks at the roadmap after each."""
    ops = ops or {"grow": 3, "restrict": 3, "query": 2, "reset": .3}
    names, wt = list(ops), np.array(list(ops.values()), float)
    for i in range(rounds):
        if mon.hurry():
            break
        rng = mon.rng("history", i)
        w = World(rng, seed=int(rng.integers(2 ** 31)))
        R = Roadmap(rng, w, kind=str(rng.choice(kinds)), exp=exp(rng))
        trail = []
        knob, restricted = str(rng.choice(["r", "k"])), False
        both = rng.random() < mixed
        large = i % big == big - 1      # now and then, roadmaps of hundreds of samples
        mon.count("large_roadmaps", large)
        if empty is not None:
            empty(R, "make")
        for step in range(int(rng.integers(*length))):
            op = "grow" if R.n == 0 else str(rng.choice(names, p=wt / wt.sum()))
            if op == "grow" and R.n > (400 if large else 130):
                op = "query"
            if op == "restrict" and both:
                knob = str(rng.choice(["r", "k"]))
            if op == "restrict" and R.kind == "radius":
                op = "query"
            if op == "reset" and restricted:
                op = "query"        # whether settings outlive a reset is left open
            if op == "grow":
                n = next_size(rng, R, large)
                R.grow(n)
                knob = "r" if R.k != R.params["k"] else str(rng.choice(["r", "k"]))
                trail.append(("grow", n))
            elif op == "restrict":
                trail.append(restrict(rng, R, knob))
                restricted = True
            elif op == "reset":
                R.reset()
                trail.append(("reset",))
            elif op == "query":
                s, t = points(rng, R, 2)
                R.prm.query_best_solution(s, t)
                trail.append(("query",))
            mon.count("op_" + op)
            if R.n:
                visit(R, op, rng)
            elif empty is not None:
                empty(R, op)
        mon.case((R.kind, w.kind, w.dim, R.params["r"], R.params["k"], tuple(trail)), len(trail) > 1)
        mon.sample({"roadmap": R.kind, "world": w.kind, "dim": w.dim, "params": R.params, "history": trail[:10]}, 1)
        mon.count("batches_checked", w.calls)
        mon.count("motions_checked", w.pairs)


# ------------------------------------------------------------------------------- C23, C24
ALL = ["full", "nn", "nn-plain", "radius", "radius"]


def soundness(mon):
    load(mon)
    histories(mon, mon.n(1920, 80000), ALL, lambda R, op, rng: observe(mon, R, op + "-", complete=False))


def completeness(mon):
    load(mon)
    histories(mon, mon.n(1920, 80000), ALL, lambda R, op, rng: observe(mon, R, op + "-", sound=False),
              ops={"grow": 4, "restrict": 1, "query": 1, "reset": .4})


# ------------------------------------------------------------------------------- C25
def queries(mon):
    load(mon)

    def visit(R, op, rng):
        e, _ = edges_of(R.prm.prm_graph)
        for _ in range(6):
            s, t = points(rng, R, 2)
            u = rng.random()
            if u < .1:
                t = s.copy()
            s0, t0 = s.copy(), t.copy()
            judge_query(mon, R, e, s, t, R.prm.query_best_solution(s, t))
            mon.expect(np.array_equal(s, s0) and np.array_equal(t, t0), "query-points-changed", **R.describe())
    histories(mon, mon.n(1680, 60000), ALL, visit, ops={"grow": 2, "restrict": 2, "query": 1, "reset": .2})


# ------------------------------------------------------------------------------- C26
def same_answer(a, b):
    return float(a[0]) == float(b[0]) or abs(float(a[0]) - float(b[0])) <= 1e-12 * (1 + abs(float(a[0])))


def no_trace(mon):
    """A roadmap that is queried and its twin that is not go through the same history."""
    load(mon)
    for i in range(mon.n(1440, 50000)):
        if mon.hurry():
            break
        rng = mon.rng("twin", i)
        seed = int(rng.integers(2 ** 31))
        w = World(rng, seed=seed)
        exp = rng.random() < .3
        A = Roadmap(rng, w, kind=str(rng.choice(ALL)), exp=exp)
        B = Roadmap(rng, w.twin(seed), kind=A.kind, exp=exp, params=A.params)
        knob, trail, asked = str(rng.choice(["r", "k"])), [], []
        for step in range(int(rng.integers(2, 7))):
            if A.n == 0 or (rng.random() < .5 and A.n < 120) or (A.kind == "radius" and A.n < 400):
                n = next_size(rng, A, i % 40 == 39)
                A.grow(n)
                B.grow(n)
                knob = "r" if A.k != A.params["k"] else str(rng.choice(["r", "k"]))
                trail.append(("grow", n))
                asked = []
            else:
                st = rng.bit_generator.state
                trail.append(restrict(rng, A, knob))
                rng.bit_generator.state = st
                restrict(rng, B, knob)
                asked = []
            sa, sb = snapshot(A.prm), snapshot(B.prm)
            mon.count("twins_compared")
            if not mon.expect(sa == sb, "queried-roadmap-differs", trail=trail, vertices=[len(sa[0]), len(sb[0])],
                              edges=[len(sa[1]), len(sb[1])], lost=sorted(set(sb[1]) - set(sa[1]))[:3],
                              gained=sorted(set(sa[1]) - set(sb[1]))[:3], samples_equal=sa[2] == sb[2], **A.describe()):
                break
            for _ in range(int(rng.integers(1, 5))):
                s, t = points(rng, A, 2)
                ans = A.prm.query_best_solution(s, t)
                asked.append((s, t, ans))
                if A.exp:
                    try:
                        A.prm.query_all_graph_connections(A.w.on_path(rng.random()), A.w.on_path(rng.random()))
                        mon.count("listings")
                    except (IndexError, NotImplementedError):
                        mon.count("listings_refused")
                mon.count("queries")
                s2 = snapshot(A.prm)
                if not mon.expect(s2 == sa, "query-changed-roadmap", start=s, goal=t, vertices=[len(sa[0]), len(s2[0])],
                                  edges=[len(sa[1]), len(s2[1])], **A.describe()):
                    break
            for s, t, ans in asked:
                again = A.prm.query_best_solution(s, t)
                mon.count("repeated_queries")
                mon.expect(same_answer(ans, again), "repeated-query-differs", start=s, goal=t, first=ans[0], again=again[0], **A.describe())
            if snapshot(A.prm) != sa:
                break
        mon.case((A.kind, w.kind, w.dim, tuple(trail), seed))
        mon.sample({"roadmap": A.kind, "world": w.kind, "history": trail, "seed": seed}, 1)


# ------------------------------------------------------------------------------- C27
def settings(mon):
    load(mon)
    for i in range(mon.n(1200, 40000)):
        if mon.hurry():
            break
        rng = mon.rng("settings", i)
        w = World(rng, seed=int(rng.integers(2 ** 31)))
        R = Roadmap(rng, w, kind=str(rng.choice(["full", "nn", "nn-plain", "nn-plain", "nn"])), exp=rng.random() < .25)
        trail = []
        large = i % 40 == 39
        mon.count("large_roadmaps", large)
        for phase in range(int(rng.integers(1, 4))):
            if R.n > (250 if large else 110):
                break
            R.grow(next_size(rng, R, large))
            trail.append(("grow", R.n))
            knobs = str(rng.choice(["r", "k", "rk"])) if R.is_nn else "r"
            for step in range(int(rng.integers(2, 9))):
                st = restrict(rng, R, str(rng.choice(list(knobs))))
                mon.count("settings_mixed", knobs == "rk")
                trail.append(st)
                mon.count("settings_" + st[0])
                e = observe(mon, R, "set-" + st[0] + "-")
                if rng.random() < .4:
                    s, t = points(rng, R, 2)
                    judge_query(mon, R, e, s, t, R.prm.query_best_solution(s, t), "after-setting-")
                if rng.random() < .2 and R.is_nn:
                    snap = snapshot(R.prm)
                    try:
                        R.prm.set_nearest_neighbors(R.params["k"] + int(rng.integers(1, 9)))
                        mon.violate("too-many-neighbours-accepted", **R.describe())
                    except Exception:
                        mon.count("refusals")
                    mon.expect(snapshot(R.prm) == snap, "refusal-changed-roadmap", **R.describe())
        mon.case((R.kind, w.kind, w.dim, tuple(trail)))
        mon.sample({"roadmap": R.kind, "world": w.kind, "history": trail[:12]}, 1)


# ------------------------------------------------------------------------------- C28
def growth(mon):
    load(mon)

    def visit(R, op, rng):
        d = R.describe()
        x = np.asarray(R.prm.prm_samples)
        mon.expect(x.shape == (R.n, R.w.dim), "sample-shape", shape=x.shape, **d)
        if x.shape != (R.n, R.w.dim):
            return
        if op == "grow":
            old = 0 if R.before is None else len(R.before)
            if old:
                mon.count("growths_kept")
                mon.expect(np.array_equal(x[:old], R.before), "samples-changed", **d)
            mon.expect(len(R.drawn) == R.n - old and np.array_equal(x[old:], np.array(R.drawn).reshape(-1, R.w.dim)),
                       "samples-not-from-sampler", drawn=len(R.drawn), wanted=R.n - old, **d)
        else:
            mon.expect(np.array_equal(x, R.facts.x), "samples-changed-by-" + op, **d)
        mon.expect(R.prm.num_vertices() == R.n, "vertex-count", vertices=R.prm.num_vertices(), **d)
        if R.n >= 2 and rng.random() < .5:
            snap, force = snapshot(R.prm), R.force()
            s, t = points(rng, R, 2)
            ans = R.prm.query_best_solution(s, t)
            m = int(rng.integers(1, R.n))
            try:
                R.prm.grow_to_n_samples(m)
                mon.violate("shrink-accepted", to=m, left=len(R.prm.prm_samples), **d)
                raise StopIteration
            except StopIteration:
                raise
            except Exception:
                mon.count("shrinks_refused")
            mon.expect(snapshot(R.prm) == snap, "refused-shrink-changed-roadmap", to=m, **d)
            mon.expect(same_answer(ans, R.prm.query_best_solution(s, t)), "refused-shrink-changed-answers", to=m, **d)
            e, _ = edges_of(R.prm.prm_graph)
            judge_query(mon, R, e, s, t, R.prm.query_best_solution(s, t), "after-shrink-")
    def empty(R, op):
        mon.count("empty_roadmaps")
        v, e = R.prm.num_vertices(), R.prm.num_edges()
        mon.expect(v == 0 and e == 0, "empty-roadmap-reports-content", after=op, vertices=v, edges=e, **R.describe())

    for i in range(mon.n(1, 1)):
        histories(mon, mon.n(1440, 50000), ALL, lambda R, op, rng: _stop(visit, R, op, rng), exp=lambda rng: rng.random() < .2,
                  ops={"grow": 4, "restrict": 1.5, "query": 1.5, "reset": .7}, empty=empty)
    # growing in steps against growing at once
    for i in range(mon.n(720, 24000)):
        if mon.hurry():
            break
        rng = mon.rng("steps", i)
        seed = int(rng.integers(2 ** 31))
        w = World(rng, seed=seed)
        A = Roadmap(rng, w, kind=str(rng.choice(ALL)))
        B = Roadmap(rng, w.twin(seed), kind=A.kind, params=A.params)
        sizes = []
        for _ in range(int(rng.integers(2, 5))):
            A.grow(next_size(rng, A, i % 40 == 39))
            sizes.append(A.n)
            if rng.random() < .5:
                A.prm.query_best_solution(*points(rng, A, 2))
        B.grow(A.n)
        mon.count("stepwise_twins")
        mon.expect(np.array_equal(A.prm.prm_samples, B.prm.prm_samples), "stepwise-growth-draws-others", sizes=sizes, **A.describe())
        mon.case(("steps", A.kind, w.kind, tuple(sizes), seed))


def _stop(visit, R, op, rng):
    try:
        visit(R, op, rng)
    except StopIteration:
        R.n, R.facts = R.n, R.facts


# ------------------------------------------------------------------------------- C29
def listings(mon):
    load(mon)

    def visit(R, op, rng):
        e, _ = edges_of(R.prm.prm_graph)
        adj = adjacency(e)
        for _ in range(3):
            d = R.describe()
            on = R.exp and rng.random() < .8
            s, t = ((R.w.on_path(rng.random()), R.w.on_path(rng.random())) if on else points(rng, R, 2))
            r = R.force()
            si, _, a1 = connections(R.w, R.facts.x, s, r)
            gi, _, a2 = connections(R.w, R.facts.x, t, r)
            near = R.w.dist_to_path(R.facts.x)
            if a1 or a2 or np.any(np.abs(near - r) < 1e-9):
                continue
            try:
                pts, dist, ids = R.prm.query_all_graph_connections(s, t)
            except Exception as ex:
                mon.count("refused")
                # samples near the path are promised; others may be refused
                mon.expect(not (R.exp and on and R.kind != "full"), "listing-refused", exception=repr(ex), start=s, goal=t, **d)
                continue
            pts, dist, ids = np.asarray(pts), np.asarray(dist, dtype=float), np.asarray(ids)
            mon.count("listings")
            want = {(int(a), int(b)) for a in si for b in gi}
            if not mon.expect(ids.shape == (len(want), 2) and dist.shape == (len(want),) and pts.shape == (len(want), 2, R.w.dim),
                              "listing-shape", shapes=[ids.shape, dist.shape, pts.shape], pairs=len(want), **d):
                continue
            got = [(int(a), int(b)) for a, b in ids]
            if not mon.expect(set(got) == want, "listing-pairs", missing=sorted(want - set(got))[:4],
                              extra=sorted(set(got) - want)[:4], start=s, goal=t, **d):
                continue
            mon.expect(np.array_equal(pts, np.stack([R.facts.x[ids[:, 0]], R.facts.x[ids[:, 1]]], axis=1)), "listing-coordinates", **d)
            some = [int(a) for a in (si if len(si) <= 40 else rng.choice(si, 25, replace=False))]
            trees = {a: search(adj, {a: 0.0}) for a in some}
            for (a, b), v in zip(got, dist):
                if a not in trees:
                    continue
                w = trees[a].get(b)
                mon.count("pairs_judged" if w is not None else "pairs_unreachable")
                ok = v > FAR if w is None else abs(v - w) <= 1e-9 * (1 + w)
                if not mon.expect(ok, "listing-distance", pair=[a, b], reported=v, shortest=w, **d):
                    break
    histories(mon, mon.n(1440, 50000), ["full", "nn", "nn", "nn-plain", "radius", "radius"], visit, exp=lambda rng: rng.random() < .85,
              ops={"grow": 3, "restrict": 3, "query": 1, "reset": .3}, mixed=.3, big=150)


# ------------------------------------------------------------------------------- C30
class Files:
    """Every file opened for writing by this process, seen through the interpreter's audit events."""

    def __init__(self):
        self.made = []
        self.on = False
        sys.addaudithook(self._see)

    def _see(self, event, args):
        if self.on and event == "open":
            path, mode, flags = args
            if isinstance(path, (str, bytes, os.PathLike)) and (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                p = os.path.realpath(os.fsdecode(path))
                if p not in self.made and not p.startswith("/dev/"):
                    self.made.append(p)

    def left(self):
        return [p for p in self.made if os.path.exists(p)]

    def take(self):
        m, self.made = self.made, []
        return m

    def wipe(self):
        for p in self.left():
            os.remove(p)
        self.made = []


def program(rng, R, steps=6):
    """A fixed list of operations, to be replayed alone and in company."""
    ops, n, k, ratio = [], 0, R.params["k"], None
    knob = str(rng.choice(["r", "k"]))
    for _ in range(steps):
        u = rng.random()
        if n == 0 or (u < .25 and n < 60):
            n += int(rng.integers(6, 30)) if rng.random() < .93 else int(rng.integers(90, 260))
            ops.append(("grow", n))
            knob = knob if k == R.params["k"] else "r"
        elif u < .75 and R.kind != "radius":
            if R.kind == "full" or knob == "r":
                ops.append(("r", float(rng.uniform(.05, 1.0))))
            else:
                k2 = int(rng.integers(1, R.params["k"] + 1))
                ops.append(("k", k2))
        else:
            ops.append(("q", rng.uniform(0, 1, R.w.dim).tolist(), rng.uniform(0, 1, R.w.dim).tolist()))
    return ops


def step(R, op):
    if op[0] == "grow":
        R.grow(op[1])
    elif op[0] == "r":
        R.set_radius(op[1])
    elif op[0] == "k":
        R.set_k(min(op[1], R.built_k))
    elif op[0] == "q":
        d, p = R.prm.query_best_solution(np.array(op[1]), np.array(op[2]))
        return [float(d), np.asarray(p).tolist()]
    snap = snapshot(R.prm)
    return [len(snap[1]), hashlib.sha256(repr(snap).encode()).hexdigest()]


def spawn(rng, kind=None):
    seed = int(rng.integers(2 ** 31))
    w = World(rng, seed=seed)
    kind = kind or str(rng.choice(["nn", "nn-plain", "nn-plain", "full", "radius"]))
    R = Roadmap(rng, w, kind=kind)
    return R, (w, seed, kind, R.params)


def respawn(spec):
    w, seed, kind, params = spec
    return Roadmap(None, w.twin(seed), kind=kind, params=params)


def isolation(mon):
    load(mon)
    files = Files()
    for i in range(mon.n(360, 16000)):
        if mon.hurry():
            break
        rng = mon.rng("crowd", i)
        specs, progs, alone = [], [], []
        m = int(rng.integers(2, 5))
        alike = rng.random() < .4
        for j in range(m):
            if alike and specs:      # same kind, seed and world, other program
                specs.append(specs[0])
            else:
                specs.append(spawn(rng)[1])
            progs.append(program(rng, respawn(specs[-1])))
        # each by itself
        files.on = True
        for s, p in zip(specs, progs):
            files.take()
            R = respawn(s)
            alone.append([step(R, op) for op in p])
            R.reset()
            mon.expect(not files.left(), "files-left-after-reset", files=files.left(), **R.describe())
            files.wipe()
        # all at once, interleaved
        Rs = [respawn(s) for s in specs]
        out, at, left = [[] for _ in Rs], [0] * m, [j for j in range(m) for _ in progs[j]]
        order = [int(j) for j in rng.permutation(left)]
        ended = set()
        for j in order:
            out[j].append(step(Rs[j], progs[j][at[j]]))
            at[j] += 1
            if at[j] == len(progs[j]):
                Rs[j].reset()
                ended.add(j)
                mon.count("resets_among_others", len(ended) < m)
        left_over = files.left()
        made = len(files.take())
        files.on = False
        mon.count("files_seen", made)
        mon.expect(not left_over, "files-left-in-company", files=left_over, kinds=[s[2] for s in specs])
        for p in left_over:
            os.remove(p)
        for j in range(m):
            mon.count("solo_comparisons")
            mon.expect(out[j] == alone[j], "company-changes-result", which=j, program=progs[j], order=order, kinds=[s[2] for s in specs],
                       first_difference=next(k for k, (a, b) in enumerate(zip(out[j] + [None], alone[j] + [0])) if a != b))
        mon.case((tuple(s[1:3] for s in specs), tuple(order)))
        mon.sample({"kinds": [s[2] for s in specs], "interleaving": order, "alike": alike}, 1)
        if i % 3 == 0:
            crowd_of_processes(mon, rng, specs[0], progs[0], alone[0], files)
    trial_files(mon, files)


def crowd_of_processes(mon, rng, spec, prog, alone, files):
    """The same roadmap in several forked processes that take turns operation by operation."""
    k = int(rng.integers(2, 4))
    kids = []
    for c in range(k):
        to_kid, to_us = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                files.on, files.made = True, []
                os.close(to_kid[1]), os.close(to_us[0])
                R, out = None, []
                for op in prog:
                    if not os.read(to_kid[0], 1):
                        os._exit(3)
                    try:
                        R = R or respawn(spec)
                        # children differ in their samples, so a file of another child shows
                        if not out:
                            R.w.seed(spec[1] + c)
                        out.append(step(R, op))
                    except Exception as ex:
                        out.append(["raised", repr(ex)])
                    os.write(to_us[1], b".")
                os.read(to_kid[0], 1)
                try:
                    R.reset()
                except Exception as ex:
                    out.append(["raised", repr(ex)])
                os.write(to_us[1], b".")
                data = json.dumps({"out": out, "left": files.left(), "made": files.made}).encode()
                with os.fdopen(to_us[1], "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(to_kid[0]), os.close(to_us[1])
        kids.append((pid, to_kid[1], to_us[0]))
    turns = [int(c) for c in rng.permutation([c for c in range(k) for _ in range(len(prog) + 1)])]
    alive = set(range(k))
    for c in turns:
        try:
            os.write(kids[c][1], b"g")
            os.read(kids[c][2], 1)
        except OSError:
            alive.discard(c)
    res = []
    for pid, w, r in kids:
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res.append(json.loads(data) if data else None)
    if any(x is None for x in res):
        mon.undecided("a forked roadmap process died")
        return
    mon.count("process_crowds")
    names = [set(x["made"]) for x in res]
    for c, x in enumerate(res):
        mon.count("process_files_seen", len(x["made"]))
        shared = [p for d in range(c) for p in names[c] & names[d]]
        mon.expect(not shared, "processes-share-file", files=shared, roadmap=spec[2])
        mon.expect(not x["left"], "process-leaves-files", files=x["left"], roadmap=spec[2])
        # the same seed alone
        R = respawn(spec)
        R.w.seed(spec[1] + c)
        files.on = True
        want = []
        for op in prog:
            want.append(step(R, op))
        R.reset()
        files.wipe()
        files.on = False
        want = json.loads(json.dumps(want))
        mon.expect(x["out"] == want, "other-process-changes-result", child=c, of=k, turns=turns, program=prog, roadmap=spec[2],
                   got=[a for a, b in zip(x["out"], want) if a != b][:1])
    for x in res:
        for p in x["left"]:
            if os.path.exists(p):
                os.remove(p)
    mon.case(("fork", spec[1], tuple(turns)))


def trial_files(mon, files):
    """No file of a finished narrow-passage trial remains."""
    import importlib
    narrow = importlib.import_module("exps.run_narrow_passage_clearance_trial")
    for i in range(mon.n(72, 1600)):
        if mon.hurry():
            break
        rng = mon.rng("trial", i)
        kind = str(rng.choice(["knn", "radius"]))
        files.take()
        files.on = True
        cwd = os.getcwd()
        try:
            narrow_trial(narrow, rng, kind)
        finally:
            files.on = False
            os.chdir(cwd)
        mon.count("trials")
        mon.count("trial_files_seen", len(files.made))
        mon.expect(not files.left(), "files-left-after-trial", files=files.left(), trial=kind)
        files.wipe()
        mon.case(("trial", kind, i))


def narrow_trial(narrow, rng, kind):
    top = 60 if rng.random() < .85 else 260
    sizes = sorted(int(v) for v in rng.choice(np.arange(5, top), size=int(rng.integers(1, 4)), replace=False))
    return narrow.narrow_passage_clearance(
        float(rng.uniform(.05, .4)), int(rng.integers(2, 4)), int(rng.integers(2 ** 31)), sizes, kind,
        int(rng.choice([4, 8, 16])) if kind == "knn" else float(rng.uniform(.3, 2.5)))


# ------------------------------------------------------------------------------- C31
def true_neighbours(x):
    d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(axis=2))
    return d


def judge_index(mon, x, k, ids, dist, lib, tag, **info):
    """Rows are the k true nearest (pynndescent counts the point itself as its first)."""
    n = len(x)
    info = dict(info, n=n, k=k, dim=x.shape[1], library=lib)
    ids, dist = np.asarray(ids), np.asarray(dist, dtype=float)
    if not mon.expect(ids.shape == (n, k) and dist.shape == (n, k), tag + "index-shape", shapes=[ids.shape, dist.shape], **info):
        return
    if not mon.expect(np.issubdtype(ids.dtype, np.integer), tag + "index-dtype", dtype=str(ids.dtype), **info):
        return
    if not mon.expect(ids.min() >= 0 and ids.max() < n, tag + "index-range", low=ids.min(), high=ids.max(), **info):
        return
    d = true_neighbours(x)
    scale = float(np.abs(x).max()) + 1e-9
    tol = 4e-6 * scale
    named = np.take_along_axis(d, ids, axis=1)
    off = np.abs(named - dist)
    mon.count("neighbours_judged", n * k)
    bad = np.argwhere(off > tol)
    mon.expect(not len(bad), tag + "distance-of-other-point", at=bad[:2], reported=dist[tuple(bad[0])] if len(bad) else 0,
               actual=named[tuple(bad[0])] if len(bad) else 0, **info)
    mon.expect(bool(np.all(np.diff(dist, axis=1) >= -tol)), tag + "not-ascending", **info)
    mon.expect(all(len(set(r)) == k for r in ids.tolist()), tag + "neighbour-twice", **info)
    own = d.copy()
    if lib == "kgraph":
        np.fill_diagonal(own, np.inf)
        mon.expect(not np.any(ids == np.arange(n)[:, None]), tag + "point-is-own-neighbour", **info)
    best_k = np.sort(own, axis=1)[:, :k]
    worse = np.argwhere(np.abs(best_k - np.sort(named, axis=1)) > tol)
    mon.expect(not len(worse), tag + "not-the-nearest", at=worse[:2], **info)


def index(mon):
    load(mon)
    from nonasymptotic.ann import get_ann
    for i in range(mon.n(2400, 100000)):
        if mon.hurry():
            break
        rng = mon.rng("index", i)
        name = str(rng.choice(["kgraph", "kgraph", "pynndescent"]))
        lib = "kgraph" if name == "kgraph" and KGRAPH else "pynndescent"
        dim = int(rng.integers(1, 10)) if rng.random() < .93 else int(rng.integers(10, 65))
        scale = float(rng.choice([1e-3, 1.0, 1.0, 50.0, 1e5]))
        n = int(rng.integers(4, 90)) if i % 25 else int(rng.choice([100, 257, 400, 600]))
        k = int(rng.integers(1, min(n - 1, 40 if i % 50 else 120) + 1))
        lay = str(rng.choice(["even", "even", "even", "aside", "clusters", "grid", "repeats"]))
        hubs = rng.uniform(-scale, scale, (3, dim))

        def draw(m, past=None):
            y = rng.uniform(-scale, scale, (m, dim))
            if lay == "aside":
                return y + 3 * scale
            if lay == "clusters":
                return hubs[rng.integers(3, size=m)] + y * 1e-2
            if lay == "grid":
                return np.round(y / scale * 3) / 3 * scale
            if lay == "repeats":
                pool = y if past is None else np.concatenate([past, y])
                again = rng.random(m) < .3
                y[again] = pool[rng.integers(len(pool), size=int(again.sum()))]
            return y
        x = draw(n)
        mon.count("layout_" + lay)
        if rng.random() < .2:
            x = x.astype("float32")
        if rng.random() < .2:
            x[:, 0] = 0.0
        ann = get_ann(name)
        if rng.random() < .15:
            try:
                ann.update_graph_with_data(x)
                mon.violate("update-before-build-accepted", library=lib)
            except Exception:
                mon.count("refused")
        keep = x.copy()
        files_before = None
        ids, dist = ann.new_graph_from_data(x, k)
        mon.count("built_" + lib)
        mon.expect(np.array_equal(x, keep), "points-changed", library=lib)
        judge_index(mon, x.astype(float), k, ids, dist, lib, "build-")
        parts = [n]
        allx = x
        for _ in range(int(rng.integers(0, 4))):
            m = int(rng.integers(1, 20)) if rng.random() < .96 else int(rng.integers(100, 300))
            y = draw(m, allx)
            allx = np.concatenate([allx, y])
            ids, dist = ann.update_graph_with_data(y)
            parts.append(m)
            mon.count("updates_" + lib)
            judge_index(mon, allx.astype(float), k, ids, dist, lib, "update-", parts=parts)
            ids2, dist2 = get_ann(name).new_graph_from_data(allx, k)
            mon.expect(np.asarray(dist).shape == np.asarray(dist2).shape
                       and np.allclose(dist, dist2, rtol=0, atol=8e-6 * float(np.abs(allx).max())), "update-differs-from-build", library=lib, parts=parts)
        if rng.random() < .3:       # the same index for a new set of points
            n2 = int(rng.integers(4, 60))
            k2 = int(rng.integers(1, n2))
            z = rng.uniform(-scale, scale, (n2, dim))
            ids, dist = ann.new_graph_from_data(z, k2)
            mon.count("rebuilds")
            judge_index(mon, z, k2, ids, dist, lib, "rebuild-")
        mon.case((lib, n, k, dim, tuple(parts), scale, float(x[0, -1])))
        mon.sample({"library": lib, "n": n, "k": k, "dim": dim, "scale": scale, "updates": parts[1:]}, 1)
    rng = mon.rng("names")
    for name in ["", "faiss", "kgraphs", "KGraph", "pynn", "kgraph ", "pynndescent2", "x" * int(rng.integers(1, 9)), None]:
        try:
            got = get_ann(name)
            mon.violate("unknown-name-accepted", name=name, got=type(got).__name__)
        except Exception:
            mon.count("names_refused")


# ------------------------------------------------------------------------------- C32
def saving(mon):
    load(mon)
    box = tempfile.mkdtemp(dir=mon.scratch)
    made = [0]

    def visit(R, op, rng):
        d = R.describe()
        made[0] += 1
        base = os.path.join(box, "roadmap%d%s" % (made[0], str(rng.choice(["", ".v1", " b"]))))
        if rng.random() < .2 and made[0] > 1:
            base = os.path.join(box, "again")      # saved over an earlier roadmap
        snap = snapshot(R.prm)
        mark = len(nk.LOG)
        R.prm.save(base)
        mon.count("saves")
        mon.expect(snapshot(R.prm) == snap, "save-changed-roadmap", **d)
        wrote = [p for what, p in nk.LOG[mark:] if what == "write"]
        mine = sorted(p for p in os.listdir(box) if p.startswith(os.path.basename(base)))
        if not mon.expect(len(wrote) == 1 and os.path.realpath(wrote[0]).startswith(os.path.realpath(base)), "graph-file", wrote=wrote, base=base, **d):
            return
        arrays = [p for p in mine if p.endswith(".npy") or p.endswith(".npz")]
        if not mon.expect(len(arrays) == 1, "sample-file", files=mine, **d):
            return
        x = np.load(os.path.join(box, arrays[0]))
        x = x if isinstance(x, np.ndarray) else x[x.files[0]]
        g = nk.readGraph(wrote[0], nk.Format.NetworkitBinary)
        e, bad = edges_of(g)
        mon.expect(np.array_equal(x, np.asarray(R.prm.prm_samples)) and x.dtype == np.float64, "saved-samples", shape=x.shape, dtype=str(x.dtype), **d)
        mon.expect(not bad and tuple(sorted(e.items())) == snap[1], "saved-edges", saved=len(e), had=len(snap[1]), **d)
        mon.expect(tuple(sorted(g.iterNodes())) == snap[0], "saved-vertices", saved=g.numberOfNodes(), had=len(snap[0]), **d)
        mon.count("edges_reloaded", len(e))
        for p in mine:
            if p.startswith("roadmap"):
                os.remove(os.path.join(box, p))

    histories(mon, mon.n(1440, 50000), ALL, visit, exp=lambda rng: rng.random() < .2, ops={"grow": 2, "restrict": 2, "query": 3, "reset": .3})
    for kind in ["full", "nn", "nn-plain", "radius"]:
        rng = mon.rng("empty", kind)
        R = Roadmap(rng, World(rng, seed=1), kind=kind)
        for again in (False, True):
            before = set(os.listdir(box))
            try:
                R.prm.save(os.path.join(box, "empty"))
                mon.violate("empty-roadmap-saved", roadmap=kind, after_reset=again)
            except Exception:
                mon.count("refused")
            mon.expect(set(os.listdir(box)) == before, "refused-save-left-files", left=sorted(set(os.listdir(box)) - before), roadmap=kind)
            R.grow(8)
            R.reset()
