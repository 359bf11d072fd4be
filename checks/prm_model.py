"""Independent model of what a roadmap should be: brute-force neighbours, brute-force search, own worlds.

The code under test is driven through its public interface only (constructors, grow_to_n_samples,
set_connection_radius, set_nearest_neighbors, query_*, save, reset, prm_graph, prm_samples, conn_r,
certified_max_conn_r).  networkit, pynndescent and kgraph are stand-ins (see standins/).
"""
import heapq
import sys

import numpy as np

MAXD = sys.float_info.max
ABS = 1e-6
REL = 2e-6        # the index hands out float32 distances


class World:
    """A sampler, a motion checker and a path to measure distances to.  Nothing from the repository."""

    def __init__(self, rng, dim=None, kind=None, seed=0):
        self.dim = int(dim or rng.integers(2, 6))
        self.kind = kind or str(rng.choice(["free", "discs", "wall", "dense", "islands"]))
        self.centers = np.zeros((0, self.dim))
        self.rad = 0.0
        self.gap = None
        self.p0, self.p1 = np.full(self.dim, .1), np.full(self.dim, .9)
        if self.kind in ("discs", "dense"):
            m = int(rng.integers(1, 6) if self.kind == "discs" else rng.integers(8, 16))
            self.centers = rng.uniform(0, 1, (m, self.dim))
            self.rad = float(rng.uniform(.03, .12))
        if self.kind == "wall":        # x0 = .5 is closed but for a window
            self.gap = float(rng.uniform(.05, .4))
        if self.kind == "islands":     # x0 = .5 is closed
            self.gap = -1.0
        # samplers may hit the same place again, and may live on a grid
        self.repeats = float(rng.choice([0, 0, 0, 0, 0, 0, .1, .4]))
        self.grid = int(rng.choice([0] * 12 + [4, 10]))
        self.calls = 0
        self.pairs = 0
        self.shape_errors = 0
        self.seed(seed)

    def seed(self, s):
        self._rng = np.random.default_rng(s)
        self.log = []

    def twin(self, s):
        w = object.__new__(World)
        w.__dict__.update(self.__dict__)
        w.seed(s)
        return w

    def sample(self):
        p = self._rng.uniform(0, 1, self.dim)
        if self.grid:
            p = np.round(p * self.grid) / self.grid
        if self.repeats and self.log and self._rng.random() < self.repeats:
            p = self.log[int(self._rng.integers(len(self.log)))].copy()
        self.log.append(p.copy())
        return p

    def check(self, a, b):
        self.calls += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.ndim != 2 or a.shape != b.shape or a.shape[1] != self.dim:
            self.shape_errors += 1
            raise ValueError("motions come as two equally large batches, got %r and %r" % (a.shape, b.shape))
        self.pairs += len(a)
        return self.valid(a, b)

    def valid(self, a, b):
        # one orientation, so that a motion and its reverse get the very same verdict
        flip = a[:, 0] > b[:, 0]
        a, b = np.where(flip[:, None], b, a), np.where(flip[:, None], a, b)
        ok = np.ones(len(a), bool)
        d = b - a
        l2 = np.maximum((d * d).sum(axis=1), 1e-300)
        for c in self.centers:
            t = np.clip(((c - a) * d).sum(axis=1) / l2, 0, 1)
            q = a + t[:, None] * d - c
            ok &= np.sqrt((q * q).sum(axis=1)) > self.rad
        if self.gap is not None:
            cross = (a[:, 0] <= .5) & (b[:, 0] > .5)
            t = np.where(cross, (.5 - a[:, 0]) / np.where(cross, d[:, 0], 1.0), 0.0)
            y = a + t[:, None] * d
            ok &= ~cross | (np.abs(y[:, 1:] - .5).max(axis=1) < self.gap)
        return ok

    def valid1(self, p, q):
        """One point against many (or pairwise)."""
        p, q = np.atleast_2d(p), np.atleast_2d(q)
        n = max(len(p), len(q))
        return self.valid(np.broadcast_to(p, (n, self.dim)).copy(), np.broadcast_to(q, (n, self.dim)).copy())

    def dist_to_path(self, pts):
        pts = np.atleast_2d(pts)
        d = self.p1 - self.p0
        t = np.clip((pts - self.p0) @ d / (d @ d), 0, 1)
        return np.linalg.norm(pts - (self.p0 + t[:, None] * d), axis=1)

    def on_path(self, t):
        return self.p0 + t * (self.p1 - self.p0)


class Facts:
    """Everything true about a sample set, computed once."""

    def __init__(self, world, samples):
        self.x = np.array(samples, dtype=float)
        n = self.n = len(self.x)
        self.d = np.sqrt(((self.x[:, None, :] - self.x[None, :, :]) ** 2).sum(axis=2)) if n else np.zeros((0, 0))
        iu = np.triu_indices(n, 1)
        self.ok = np.zeros((n, n), bool)
        if len(iu[0]):
            self.ok[iu] = world.valid(self.x[iu[0]], self.x[iu[1]])
        self.ok |= self.ok.T
        self.off = ~np.eye(n, dtype=bool)
        self._sorted = np.sort(np.where(self.off, self.d, np.inf), axis=1) if n else self.d

    def radius(self, r, slack=REL):
        # float32 coordinates are off by 6e-8, whatever the distance
        t = slack * r + min(1.0, slack * 1e6) * ABS
        return (self.d < r - t) & self.ok & self.off, (self.d <= r + t) & self.ok & self.off

    def kth(self, k):
        """Distance of every sample to its k-th nearest other sample (k >= 1)."""
        return self._sorted[:, k - 1]

    def nearest(self, kmin, kmax):
        """(must, may): one end lists the other among its kmin (kmax) nearest."""
        n = self.n
        must = np.zeros((n, n), bool)
        may = np.zeros((n, n), bool)
        for u in range(n):
            row = self._sorted[u]
            le = np.searchsorted(row, self.d[u] * (1 + REL) + ABS, side="right")
            lt = np.searchsorted(row, self.d[u] * (1 - REL) - ABS, side="left")
            must[u] = le <= kmin
            may[u] = lt < kmax
        return (must | must.T) & self.ok & self.off, (may | may.T) & self.ok & self.off


def edges_of(graph):
    """({(u, v): w}, list of defects) of a graph, ids as they are."""
    out, bad = {}, []
    for u, v, w in list(graph.iterEdgesWeights()):
        u, v, w = int(u), int(v), float(w)
        k = (min(u, v), max(u, v))
        if u == v:
            bad.append(("self-loop", k))
        elif k in out:
            bad.append(("parallel", k))
        out[k] = w
    return out, bad


def snapshot(prm):
    g = prm.prm_graph
    e, _ = edges_of(g)
    return (tuple(sorted(g.iterNodes())), tuple(sorted(e.items())), np.asarray(prm.prm_samples).tobytes())


def search(adj, src):
    dist, done, q = dict(src), set(), [(d, u) for u, d in src.items()]
    heapq.heapify(q)
    while q:
        d, u = heapq.heappop(q)
        if u in done:
            continue
        done.add(u)
        for v, w in adj.get(u, ()):
            if d + w < dist.get(v, MAXD):
                dist[v] = d + w
                heapq.heappush(q, (d + w, v))
    return dist


def adjacency(e):
    adj = {}
    for (u, v), w in e.items():
        adj.setdefault(u, []).append((v, w))
        adj.setdefault(v, []).append((u, w))
    return adj


def connections(world, x, p, r):
    """(ids, distances, ambiguous): samples p can connect to within r."""
    d = np.sqrt(((x - p) ** 2).sum(axis=1))
    near = np.nonzero(d <= r)[0]
    amb = bool(np.any(np.abs(d - r) < 1e-9 * max(1.0, r)))
    ok = world.valid1(p, x[near]) if len(near) else np.zeros(0, bool)
    return near[ok], d[near][ok], amb


def best(world, x, e, start, goal, r):
    """(distance or None, ambiguous)"""
    si, sd, a1 = connections(world, x, start, r)
    gi, gd, a2 = connections(world, x, goal, r)
    if not len(si) or not len(gi):
        return None, a1 or a2
    dist = search(adjacency(e), dict(zip(map(int, si), map(float, sd))))
    c = [dist[int(g)] + float(d) for g, d in zip(gi, gd) if int(g) in dist]
    return (min(c) if c else None), a1 or a2
