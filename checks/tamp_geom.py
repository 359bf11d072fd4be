"""Collision checks and generators for the planar and spatial box tests (C38, C39)."""
import itertools
import math

import numpy as np
from checks.tamp_load import load


# ============================================================================ C38
def polygon(rng, size):
    """A random convex polygon: corners on an ellipse, possibly thin, possibly with points on its sides."""
    k = int(rng.integers(3, 9))
    while True:
        ang = np.sort(rng.uniform(0, 2 * math.pi, k))
        gaps = np.diff(np.concatenate([ang, ang[:1] + 2 * math.pi]))
        if gaps.min() > .05:
            break
    ax = size * np.array([1.0, float(rng.choice([1.0, .5, .05]))])
    P = np.stack([np.cos(ang), np.sin(ang)], 1) * ax
    th = float(rng.uniform(0, 2 * math.pi)) if rng.random() < .8 else 0.0
    P = P @ np.array([[math.cos(th), math.sin(th)], [-math.sin(th), math.cos(th)]])
    if rng.random() < .2:           # a corner on the middle of a side
        i = int(rng.integers(k))
        P = np.insert(P, i + 1, (P[i] + P[(i + 1) % k]) / 2, axis=0)
    if rng.random() < .5:
        P = P[::-1]
    return np.roll(P, int(rng.integers(len(P))), axis=0)


def rect(rng):
    w, h = [float(v) for v in rng.integers(1, 9, 2)]
    x, y = [float(v) for v in rng.integers(-9, 10, 2)]
    P = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]])
    if rng.random() < .5:
        P = P[::-1]
    return np.roll(P, int(rng.integers(4)), axis=0), (x, y, x + w, y + h)


def planar_pairs(rng, mon):
    """One pair with a certain verdict: (a, b, collides, how)."""
    from shapely.geometry import Polygon
    from shapely import affinity
    how = str(rng.choice(["near", "near", "near", "random", "inside", "rect", "far"]))
    if how == "rect":
        (a, A), (b, B) = rect(rng), rect(rng)
        hit = A[0] <= B[2] and B[0] <= A[2] and A[1] <= B[3] and B[1] <= A[3]
        if A[0] == B[2] or B[0] == A[2] or A[1] == B[3] or B[1] == A[3]:
            mon.count("exact_touch", hit)
        return a, b, hit, how
    size = 10.0 ** float(rng.uniform(-2, 2) if rng.random() < .7 else rng.uniform(-9, 6))
    a, b = polygon(rng, size), polygon(rng, size * 10.0 ** float(rng.uniform(-1, .3)))
    off = rng.normal(size=2) * size * float(rng.choice([0, 1, 50]))
    if how == "inside":
        b = b * .01 * size / max(np.abs(b).max(), 1e-300)
        w = rng.dirichlet(np.ones(len(a)))
        b = b + w @ a
    elif how == "random":
        b = b + rng.normal(size=2) * size
    elif how == "far":
        d = rng.normal(size=2)
        b = b + d / np.linalg.norm(d) * size * 5
    else:
        pa, pb = Polygon(a), Polygon(b)
        d = rng.normal(size=2)
        d /= np.linalg.norm(d)
        lo, hi = 0.0, 8 * size
        b = b + (a.mean(0) - b.mean(0))
        pb = Polygon(b)
        for _ in range(50):
            mid = (lo + hi) / 2
            if pa.intersects(affinity.translate(pb, *(d * mid))):
                lo = mid
            else:
                hi = mid
        eps = size * 10.0 ** float(rng.uniform(-5, -2))
        b = b + d * (lo + eps * (1 if rng.random() < .5 else -1))
    pa, pb = Polygon(a), Polygon(b)
    if not pa.is_valid or not pb.is_valid or min(pa.area, pb.area) < 1e-7 * size * size * .0001:
        return None
    scale = max(np.abs(a).max(), np.abs(b).max()) + np.abs(off).max()
    dist = pa.distance(pb)
    if dist > 1e-9 * scale:
        hit = False
    else:
        # deep enough that a shrunken copy of one still meets the other
        c = a.mean(0)
        if not Polygon(c + (a - c) * (1 - 1e-6)).intersects(pb):
            return None
        hit = True
    return a + off, b + off, hit, how


def planar(mon):
    sa = load("turtlebot_move", "separating_axis")
    rng = mon.rng("planar")
    groups, history = {}, {}
    for i in range(mon.n(20000, 200000)):
        c = planar_pairs(rng, mon)
        if c is None:
            mon.count("too_close_to_judge")
            continue
        a, b, hit, how = c
        key = (a.tobytes(), b.tobytes())
        mon.case(key)
        mon.sample({"a": a, "b": b, "collides": hit, "how": how})
        mon.count("colliding" if hit else "apart")
        mon.count("made_" + how)
        a0, b0 = a.copy(), b.copy()
        for u, v, arg in ((a, b, "a,b"), (b, a, "b,a")):
            form = i % 3
            if form == 0:
                got = sa.separating_axis_theorem(u, v)
            elif form == 1:
                got = sa.separating_axis_theorem([tuple(p) for p in u.tolist()], [tuple(p) for p in v.tolist()])
            else:
                got = sa.separating_axis_theorem(list(u), list(v))
            mon.expect(bool(got) == hit, "scalar-verdict", a=u, b=v, got=bool(got), expected=hit, how=how, order=arg)
        mon.expect(np.array_equal(a, a0) and np.array_equal(b, b0), "argument-changed", a=a0, b=b0)
        mon.count("unequal_counts", len(a) != len(b))
        g = groups.setdefault((len(a), len(b)), [])
        g.append((a, b, hit))
        if len(g) >= rng.integers(1, 12):
            old = history.setdefault((len(a), len(b)), [])
            if len(old) > 3 and rng.random() < .08:     # a long batch, of pairs seen before too
                judge_batch(mon, sa, rng, g + [old[k] for k in rng.integers(0, len(old), int(rng.integers(40, 700)))])
                mon.count("long_batches")
            else:
                judge_batch(mon, sa, rng, g)
            old += g
            del old[:-300]
            g.clear()
        if mon.hurry():
            break
    for g in groups.values():
        if g:
            judge_batch(mon, sa, rng, g)
    ints(mon, sa, rng)


def judge_batch(mon, sa, rng, g):
    A, B = np.stack([x[0] for x in g]), np.stack([x[1] for x in g])
    want = np.array([x[2] for x in g])
    mon.count("batches")
    mon.peak("batch", len(g))
    A0, B0 = A.copy(), B.copy()
    for u, v, order in ((A, B, "a,b"), (B, A, "b,a")):
        got = np.asarray(sa.vec_separating_axis_theorem(u, v))
        if got.shape != want.shape:
            mon.violate("batch-shape", shape=got.shape, rows=len(g))
            continue
        for r in np.flatnonzero(got.astype(bool) != want):
            mon.violate("batch-verdict", a=u[r], b=v[r], got=bool(got[r]), expected=bool(want[r]), order=order, rows=len(g))
        mon.count("rows_judged", len(g))
    mon.expect(np.array_equal(A, A0) and np.array_equal(B, B0), "argument-changed", a=A0, b=B0)
    if want.any() and not want.all():
        mon.count("mixed_batches")


def ints(mon, sa, rng):
    """Integer coordinates, as in the file's own examples."""
    for _ in range(mon.n(200, 1000)):
        (a, A), (b, B) = rect(rng), rect(rng)
        hit = A[0] <= B[2] and B[0] <= A[2] and A[1] <= B[3] and B[1] <= A[3]
        got = sa.vec_separating_axis_theorem(a[None].astype(int), b[None].astype(int))
        mon.expect(bool(np.asarray(got)[0]) == hit, "batch-verdict-integers", a=a, b=b, expected=hit)
        got = sa.separating_axis_theorem(a.astype(int), b.astype(int))
        mon.expect(bool(got) == hit, "scalar-verdict-integers", a=a, b=b, expected=hit)
        mon.count("integer_pairs")


# ============================================================================ C39
def rot(rng, kind):
    if kind == "id":
        return np.eye(3)
    if kind == "perm":
        P = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], 3)[:, None]
        if np.linalg.det(P) < 0:
            P[0] *= -1
        return P
    if kind == "axis":
        k, t = int(rng.integers(3)), float(rng.uniform(-math.pi, math.pi))
        c, s = math.cos(t), math.sin(t)
        i, j = [x for x in range(3) if x != k]
        R = np.eye(3)
        R[i, i] = R[j, j] = c
        R[i, j], R[j, i] = -s, s
        return R if np.linalg.det(R) > 0 else R.T
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def gaps(c1, h1, R1, c2, h2, R2):
    """Gap along each of the fifteen candidate axes (-inf where two edges are parallel); shapes (n,..)."""
    n = len(c1)
    out = np.full((n, 15), -np.inf)
    d = c2 - c1

    def one(ax):
        r1 = (np.abs(np.einsum("ni,nik->nk", ax, R1)) * h1).sum(1)
        r2 = (np.abs(np.einsum("ni,nik->nk", ax, R2)) * h2).sum(1)
        return np.abs((ax * d).sum(1)) - r1 - r2
    for i in range(3):
        out[:, i] = one(R1[:, :, i])
        out[:, 3 + i] = one(R2[:, :, i])
        for j in range(3):
            ax = np.cross(R1[:, :, i], R2[:, :, j])
            nrm = np.linalg.norm(ax, axis=1)
            ok = nrm > 1e-7
            out[ok, 6 + 3 * i + j] = one(ax / np.maximum(nrm, 1e-300)[:, None])[ok]
    return out


def lp_margin(c1, h1, R1, c2, h2, R2):
    """Largest t such that the boxes shrunken by t on all sides still share a point (negative: grown)."""
    from scipy.optimize import linprog
    A, b = [], []
    for c, h, R in ((c1, h1, R1), (c2, h2, R2)):
        for k in range(3):
            for s in (1.0, -1.0):
                A.append(list(s * R[:, k]) + [1.0])
                b.append(h[k] + s * float(R[:, k] @ c))
    r = linprog([0, 0, 0, -1.0], A_ub=np.array(A), b_ub=np.array(b), bounds=[(None, None)] * 4, method="highs")
    return float(-r.fun) if r.status == 0 else None


def box_batch(rng, n):
    kinds = ["any", "any", "any", "axis", "perm", "id"]
    near = rng.random(n) < .25          # nearly parallel

    def turned(R):
        a = rng.normal(size=3)
        t = 10.0 ** rng.uniform(-4, -1)
        K = np.cross(np.eye(3), a / -np.linalg.norm(a))
        return (np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K) @ R

    def second(R):
        r = rng.random()
        if r < .4:
            return R
        if r < .7:
            return R @ rot(rng, "perm")
        return R @ rot(rng, "axis")         # one pair of edges nearly parallel
    k1 = [str(rng.choice(kinds)) for _ in range(n)]
    R1 = np.stack([rot(rng, k) for k in k1])
    R2 = np.stack([R1[i] @ rot(rng, str(rng.choice(["axis", "perm"]))) if rng.random() < .2 else rot(rng, str(rng.choice(kinds))) for i in range(n)])
    for i in np.flatnonzero(near):
        R2[i] = turned(second(R1[i]))
    size = 10.0 ** rng.uniform(-1.5, 1.5, n)
    along = rng.integers(0, 3, n)

    def half():
        h = 10.0 ** rng.uniform(-1, .3, (n, 3))
        cube = rng.random(n) < .15
        h[cube] = h[cube][:, :1]
        flat = rng.random(n) < .25
        h[flat, rng.integers(0, 3, n)[flat]] *= .02
        stick = np.flatnonzero((rng.random(n) < np.where(near, .7, .1)))        # long and thin, mostly along the same axis
        for i in stick:
            h[i] *= 10.0 ** rng.uniform(-3, -1)
            h[i, along[i]] = 10.0 ** rng.uniform(-.3, .3)
        return h * size[:, None]
    return half(), R1, half(), R2, size


def spatial(mon):
    sa = load("kuka_carry", "separating_axis")
    rng = mon.rng("spatial")
    todo = mon.n(40000, 600000)
    done = 0
    while done < todo and not mon.hurry():
        n = int(rng.choice([1, 2, 7, 30, 120]))
        h1, R1, h2, R2, size = box_batch(rng, n)
        c1 = rng.normal(size=(n, 3)) * size[:, None] * rng.choice([0.0, 1.0, 30.0], n)[:, None]
        u = rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        # move the second box outward along u until the boxes just touch
        lo, hi = np.zeros(n), 20 * size
        for _ in range(45):
            mid = (lo + hi) / 2
            hit = gaps(c1, h1, R1, c1 + u * mid[:, None], h2, R2).max(1) <= 0
            lo, hi = np.where(hit, mid, lo), np.where(hit, hi, mid)
        mode = rng.integers(0, 5, n)
        near = lo * (1 + 10.0 ** rng.uniform(-5, -1.5, n) * rng.choice([-1.0, 1.0], n))
        t = np.select([mode <= 2, mode == 3], [near, rng.uniform(0, 1.2, n) * lo], rng.uniform(0, .05, n) * lo)
        c2 = c1 + u * t[:, None]
        g = gaps(c1, h1, R1, c2, h2, R2)
        top = g.max(1)
        scale = size + np.abs(c1).max(1) + np.abs(c2).max(1)
        sure = np.abs(top) > 1e-9 * scale
        want = top < 0
        mon.count("too_close_to_judge", (~sure).sum())
        sole = (g > 1e-9 * scale[:, None]).sum(1) == 1
        for k in np.argmax(g, 1)[sole & sure & ~want]:
            mon.count("only_axis_%d" % k)
        par = np.abs(np.einsum("nij,nik->njk", R1, R2)).reshape(n, 9)
        for r in np.flatnonzero(sole & sure & ~want):
            k = int(np.argmax(g[r])) - 6
            mon.count("only_nearly_parallel_edges", k >= 0 and .9998 < par[r, k] < 1 - 1e-9)
        mon.count("colliding", (want & sure).sum())
        mon.count("apart", (~want & sure).sum())
        inside = want & sure & (t < .06 * lo)
        mon.count("deep_inside", inside.sum())
        # the oracle itself, against linear programming
        for r in range(n):
            if sure[r] and rng.random() < .02:
                m = lp_margin(c1[r], h1[r], R1[r], c2[r], h2[r], R2[r])
                if m is not None and abs(m) > 1e-9 * scale[r]:
                    mon.count("oracle_cross_checked")
                    if (m > 0) != want[r]:
                        raise RuntimeError("the two oracles disagree")
        A = np.concatenate([c1, h1, R1.reshape(n, 9)], 1)
        B = np.concatenate([c2, h2, R2.reshape(n, 9)], 1)
        if rng.random() < .5:       # through the box class
            A = np.stack([sa.OBB(c1[r], h1[r], R1[r]).to_vectorized() for r in range(n)])
        A0, B0 = A.copy(), B.copy()
        for X, Y, order in ((A, B, "a,b"), (B, A, "b,a")):
            got = np.asarray(sa.separating_axis_theorem(X, Y))
            if got.shape != (n,):
                mon.violate("batch-shape", shape=got.shape, rows=n)
                continue
            for r in np.flatnonzero(sure & (got.astype(bool) != want))[:3]:
                mon.violate("verdict", first=X[r], second=Y[r], got=bool(got[r]), expected=bool(want[r]), gap=top[r], order=order, rows=n)
        mon.expect(np.array_equal(A, A0) and np.array_equal(B, B0), "argument-changed", rows=n)
        mon.cases(np.concatenate([A, B], 1))
        done += n
        mon.count("batches")
        mon.sample({"first": A[0], "second": B[0], "gap": top[0]})
    from_oobb(mon, sa, rng)


def from_oobb(mon, sa, rng):
    """Boxes made from the physics tools' own oriented boxes are the same boxes."""
    import pybullet_tools.utils as pbu
    signs = np.array(list(itertools.product([-1, 1], repeat=3)))
    for _ in range(mon.n(400, 4000)):
        ext = 10.0 ** rng.uniform(-2, 1, 3)
        pose = pbu.Pose(rng.normal(size=3), rng.uniform(-3, 3, 3))
        oobb = pbu.OOBB(pbu.aabb_from_extent_center(ext), pose)
        v = np.asarray(sa.OBB.from_oobb(oobb).to_vectorized(), float)
        mon.count("converted")
        if not mon.expect(v.shape == (15,), "converted-shape", shape=v.shape):
            continue
        c, h, R = v[:3], v[3:6], v[6:].reshape(3, 3)
        got = np.array(sorted((c + (R @ (signs * h).T).T).round(9).tolist()))
        want = np.array(sorted(np.array(pbu.get_oobb_vertices(oobb)).round(9).tolist()))
        mon.expect(np.abs(h * 2 - ext).max() < 1e-9 and np.abs(got - want).max() < 1e-6, "converted-box", extent=ext, pose=pose, got=v)
