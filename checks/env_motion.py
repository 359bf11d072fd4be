"""Motion-validity monitors for the analytic environments (C01, C02, C03, C11)."""
import numpy as np
from checks import geom
from nonasymptotic.envs import StraightLine, NarrowPassage, GrayCodeWalls


def as_bool(v):
    return bool(np.asarray(v).reshape(-1)[0])


# ------------------------------------------------------------------------------- C01
def straight(mon):
    rng = mon.rng("straight")
    rounds = mon.n(480, 9600)
    for r in range(rounds):
        if mon.hurry():
            break
        dim = int(rng.integers(2, 9))
        delta = float(rng.choice([0.0, 1e-6, 0.0625, 0.1, 0.5, 1.0, 3.0, rng.uniform(0.01, 2)]))
        length = float(rng.choice([0.125, 0.5, 1.0, 2.0, 7.0, rng.uniform(0.05, 20)]))
        with mon.guard("constructor-raises", dim=dim, delta=delta, length=length):
            env = (StraightLine(dim, delta, length=length, seed=r) if rng.random() < .8 or length != 1.0
                   else StraightLine(dim, delta, seed=r))
            lo = np.array([-delta] * dim)
            hi = np.array([length + delta] + [delta] * (dim - 1))
            n = 40
            P = rng.uniform(lo - 0.6 * (delta + .1), hi + 0.6 * (delta + .1), size=(2 * n, dim))
            # mostly inside, one coordinate pushed out / onto a face
            for i in range(2 * n):
                u = rng.random()
                if u < .7:
                    P[i] = rng.uniform(lo, hi)
                if u < .45:
                    k = int(rng.integers(dim))
                    w = rng.choice([0, 1])
                    face = (lo, hi)[w][k]
                    off = float(rng.choice([0.0, 1e-9, -1e-9, 1e-4, -1e-4, .3, -.3])) * (1 if w else -1)
                    P[i, k] = face + off
                if u < .1:
                    P[i] = np.where(rng.random(dim) < .5, lo, hi)
            A, B = P[:n], P[n:]
            gap = np.minimum(np.min(P - lo, axis=1), np.min(hi - P, axis=1))
            exact = float(delta * 64).is_integer() and float(length * 64).is_integer()
            ok = gap >= 0
            # within rounding of a face the verdict is only pinned where the face is representable
            pinned = (np.abs(gap) > 1e-12 * (1 + length + delta)) | (exact & (gap == 0))
            want, use = ok[:n] & ok[n:], pinned[:n] & pinned[n:]
            A0, B0 = A.copy(), B.copy()
            got = np.asarray(env.is_motion_valid(A, B))
            mon.expect(got.shape == (n,), "batch-shape", got=got.shape, n=n)
            got = got.reshape(-1).astype(bool)
            for i in range(n):
                s = as_bool(env.is_motion_valid(A[i], B[i]))
                if use[i]:
                    mon.count("valid" if want[i] else "invalid")
                    mon.expect(s == want[i], "scalar-verdict", dim=dim, delta=delta, length=length,
                               start=A[i], goal=B[i], reported=s, actual=want[i])
                    mon.expect(bool(got[i]) == want[i], "batch-verdict", dim=dim, delta=delta,
                               length=length, start=A[i], goal=B[i], reported=got[i], actual=want[i])
            if r % 12 == 0:     # the same motions within a very long batch
                rep = rng.integers(0, n, size=int(rng.choice([1000, 5000, 12000, 70000])))
                many = np.asarray(env.is_motion_valid(A[rep], B[rep]))
                mon.expect(many.shape == (len(rep),), "batch-shape", got=many.shape, n=len(rep))
                wrong = np.nonzero((many.reshape(-1).astype(bool) != want[rep]) & use[rep])[0] if many.size == len(rep) else []
                mon.expect(len(wrong) == 0, "long-batch-verdict", dim=dim, delta=delta, length=length, rows=len(rep),
                           first_wrong=wrong[:3], start=A[rep[wrong[:1]]], goal=B[rep[wrong[:1]]])
                mon.count("long_batches")
            # batches of one and of two
            for w in range(0, n, 8):
                k = int(rng.integers(1, 3))
                few = np.asarray(env.is_motion_valid(A[w:w + k], B[w:w + k]))
                mon.expect(few.shape == (k,), "batch-shape", got=few.shape, n=k)
                few = few.reshape(-1).astype(bool)
                mon.expect(len(few) == k and all(few[j] == want[w + j] for j in range(k) if use[w + j]), "small-batch-verdict", dim=dim, delta=delta,
                           length=length, start=A[w:w + k], goal=B[w:w + k], reported=few, actual=want[w:w + k])
            mon.expect(np.array_equal(A, A0) and np.array_equal(B, B0), "input-mutated", dim=dim)
            mon.cases(np.hstack([A, B]), use)
            mon.sample({"dim": dim, "delta": delta, "length": length, "start": A[0], "goal": B[0], "valid": want[0]}, 1)


# ------------------------------------------------------------------------------- C02
def narrow_free_points(rng, n, d, c):
    """Free configurations, biased to corners, walls and the hallway mouth."""
    out = np.empty((n, d))
    for i in range(n):
        u = rng.random()
        if u < .35:
            p = np.concatenate([[rng.uniform(-.5, .5)], rng.uniform(-c, c, d - 1)])
        elif u < .8:
            s = rng.choice([-1, 1])
            p = np.concatenate([[s * rng.uniform(.5, 1.5)], rng.uniform(-.5, .5, d - 1)])
        else:
            s = rng.choice([-1, 1])
            p = np.concatenate([[s * rng.uniform(.5, .6)], rng.uniform(-1, 1, d - 1) * min(.5, 1.2 * c)])
        if u > .9 or rng.random() < .25:   # snap a coordinate to something special
            k = int(rng.integers(d))
            special = [-.5, .5, -1.5, 1.5, 0.0, c, -c, 1.0, -1.0, c / 2] if k == 0 else [0.0, c, -c, c / 2, .25, .5, -.5]
            eps = float(rng.choice([0, 0, 1e-7, -1e-7, 1e-3, -1e-3]))
            q = p.copy(); q[k] = float(rng.choice(special)) + eps
            if geom.narrow_free(q, c)[0]:
                p = q
        out[i] = p
    return out


def narrow_targeted(rng, n, d, c):
    """Pairs engineered to graze a corner of the passage at distance about eps on either side."""
    A, B = np.empty((n, d)), np.empty((n, d))
    m = 0
    for _ in range(60 * n):
        if m == n:
            break
        s, w = rng.choice([-1, 1]), rng.choice([-1, 1])
        k = int(rng.integers(1, d))
        corner = np.zeros(d); corner[0] = .5 * s; corner[k] = c * w
        for j in range(1, d):
            if j != k:
                corner[j] = rng.uniform(-c, c) * .6
        off = np.zeros(d)
        off[k] = w * float(rng.choice([1, -1])) * 10.0 ** rng.uniform(-7, -1)
        dirv = rng.normal(size=d); dirv[0] = abs(dirv[0]) * 2 + .1
        dirv[1:] *= rng.choice([0.02, .2, 1.0])
        base = corner + off
        t1, t2 = rng.uniform(.01, 1.0), rng.uniform(.01, 1.0)
        a, b = base - t1 * dirv, base + t2 * dirv
        if geom.narrow_free(a, c)[0] and geom.narrow_free(b, c)[0]:
            A[m], B[m] = a, b
            m += 1
    return A[:m], B[:m]


def narrow(mon):
    rng = mon.rng("narrow")
    rounds = mon.n(320, 6400)
    T = 1e-9
    for r in range(rounds):
        if mon.hurry():
            break
        d = int(rng.choice([2, 2, 3, 3, 4, 5, 6, 7]))
        c = float(rng.choice([.05, .1, .125, .2, .25, .3, .4, .45, .499, 0.01, rng.uniform(.005, .495)]))
        with mon.guard("motion-check-raises", dim=d, clearance=c):
            env = NarrowPassage(d, c, int(rng.integers(1 << 30)))
            n = 90
            A = narrow_free_points(rng, n, d, c)
            B = narrow_free_points(rng, n, d, c)
            near = rng.random(n) < .35     # short motions
            B[near] = A[near] + rng.normal(size=(near.sum(), d)) * 10.0 ** rng.uniform(-4, -0.5, size=(near.sum(), 1))
            ax = rng.random(n) < .2        # axis-parallel motions, often along a wall's own line
            for i in np.nonzero(ax)[0]:
                k = int(rng.integers(d))
                keep = B[i, k]
                B[i] = A[i]; B[i, k] = keep
                if rng.random() < .5 and k == 0:
                    j = int(rng.integers(1, d))
                    A[i, j] = B[i, j] = c * rng.choice([-1, 1])
            still = rng.random(n) < .05
            B[still] = A[still]
            A2, B2 = narrow_targeted(rng, 30, d, c)
            A, B = np.vstack([A, A2]), np.vstack([B, B2])
            ok = geom.narrow_free(A, c) & geom.narrow_free(B, c)
            A, B = A[ok], B[ok]
            hit_big, hit_small = geom.narrow_hits(A, B, c, T), geom.narrow_hits(A, B, c, -T)
            use = hit_big == hit_small
            A0, B0 = A.copy(), B.copy()
            got = np.asarray(env.is_motion_valid(A, B))
            mon.expect(got.shape == (len(A),), "batch-shape", got=got.shape, n=len(A))
            got = got.reshape(-1).astype(bool)
            want = ~hit_big
            bad = np.nonzero(use & (got != want))[0]
            for i in bad[:3]:
                kind = "blocked-motion-accepted" if got[i] else "free-motion-rejected"
                mon.violate(kind, dim=d, clearance=c, start=A[i], goal=B[i], reported=got[i], actual=want[i])
            mon.count("free_motions", (use & want).sum())
            mon.count("blocked_motions", (use & ~want).sum())
            mon.count("boundary_skipped", (~use).sum())
            mon.count("through_passage", (use & want & (A[:, 0] * B[:, 0] < -.25)).sum())
            mon.count("zero_length", int(((A == B).all(axis=1) & use).sum()))
            mon.expect(np.array_equal(A, A0) and np.array_equal(B, B0), "input-mutated")
            if r % 10 == 0:     # the same motions within a very long batch
                rep = rng.integers(0, len(A), size=int(rng.choice([1000, 5000, 12000, 70000], p=[.3, .4, .25, .05])))
                many = np.asarray(env.is_motion_valid(A[rep], B[rep]))
                mon.expect(many.shape == (len(rep),), "batch-shape", got=many.shape, n=len(rep))
                wrong = np.nonzero((many.reshape(-1).astype(bool) != want[rep]) & use[rep])[0] if many.size == len(rep) else []
                mon.expect(len(wrong) == 0, "long-batch-verdict", dim=d, clearance=c, rows=len(rep),
                           first_wrong=wrong[:3], start=A[rep[wrong[:1]]], goal=B[rep[wrong[:1]]])
                mon.count("long_batches")
            # single-motion batches agree with the verdict in the large batch
            for i in rng.choice(len(A), 6, replace=False):
                g1 = np.asarray(env.is_motion_valid(A[i:i + 1], B[i:i + 1])).reshape(-1)
                if use[i]:
                    mon.expect(bool(g1[0]) == want[i], "single-verdict", dim=d, clearance=c, start=A[i], goal=B[i],
                               reported=g1[0], actual=want[i])
            mon.cases(np.hstack([A, B]), use)
            mon.sample({"dim": d, "clearance": c, "start": A[0], "goal": B[0], "valid": want[0]}, 1)


# ------------------------------------------------------------------------------- C03
GC_CONFIGS = [(2, 1, .1), (2, 2, 0.0), (2, 2, .1), (2, 2, .375), (2, 3, .1), (2, 3, 0.0), (2, 4, .25), (2, 5, .05),
              (3, 1, .1), (3, 2, .1), (3, 2, 0.0), (3, 3, .2), (3, 4, .1), (4, 2, .15), (4, 1, .05), (3, 3, .4), (5, 1, .1)]


def corridor_points(rng, C, n, wallish=.2):
    P = np.empty((n, C.dim))
    for i in range(n):
        c = np.array(C.cubes[int(rng.integers(len(C.cubes)))], float)
        u = rng.random(C.dim)
        if rng.random() > wallish:
            # inside the free part, biased to the openings
            lo = np.maximum(C.lo[tuple(int(v) for v in c)], c)
            hi = np.minimum(C.hi[tuple(int(v) for v in c)], c + 1)
            p = lo + u * (hi - lo)
            if rng.random() < .3:
                k = int(rng.integers(C.dim))
                p[k] = lo[k] + (hi[k] - lo[k]) * rng.choice([1e-5, .02, .98, 1 - 1e-5])
        else:
            p = c + u
        P[i] = p
    return P


def corridor_pairs(rng, C, n):
    """Start/goal pairs; half of them built backwards from a straight line through a run of
    consecutive cubes, so that long free motions are common."""
    A = corridor_points(rng, C, n)
    B = corridor_points(rng, C, n)
    for i in range(n):
        if rng.random() < .6:
            k = int(rng.integers(len(C.cubes)))
            j = min(len(C.cubes) - 1, max(0, k + int(rng.integers(-4, 5))))
            a = np.array(C.cubes[k], float) + .5
            b = np.array(C.cubes[j], float) + .5
            sp = (1.0 - 2 * C.h) / 2
            A[i] = a + rng.uniform(-1, 1, C.dim) * sp
            B[i] = b + rng.uniform(-1, 1, C.dim) * sp
            if rng.random() < .5:
                # aim through the middle of an edge of the corridor: extends into the openings
                e = rng.choice([.45, .49, .3])
                s = np.sign(b - a)
                A[i] = a + s * rng.uniform(0, e, C.dim) + rng.uniform(-.05, .05, C.dim)
                B[i] = b - s * rng.uniform(0, e, C.dim) + rng.uniform(-.05, .05, C.dim)
    return A, B


def graycode(mon):
    rng = mon.rng("gray")
    per = mon.n(24000, 480000) // len(GC_CONFIGS) + 1
    T = 1e-9
    for (d, L, h) in GC_CONFIGS:
        C = geom.Corridor(d, L, h)
        with mon.guard("constructor-raises", dim=d, length=L, thickness=h):
            env = GrayCodeWalls(d, L, h, seed=3)
            A, B = corridor_pairs(rng, C, per)
            for a, b in zip(A, B):
                if mon.hurry():
                    break
                if C.cube_of(a) not in C.index or C.cube_of(b) not in C.index:
                    continue
                want = C.motion(a, b, T)
                if want is None:
                    mon.count("boundary_skipped")
                    continue
                span = abs(C.index[C.cube_of(a)] - C.index[C.cube_of(b)]) + 1
                a0, b0 = a.copy(), b.copy()
                got = None
                with mon.guard("motion-check-raises", dim=d, length=L, thickness=h, start=a, goal=b):
                    got = as_bool(env.is_motion_valid(a, b))
                if got is None:
                    continue
                mon.case((d, L, h, tuple(a), tuple(b)), nontrivial=span > 1 or not want)
                mon.count("valid_span_%d" % min(span, 5) if want else "invalid")
                if got != want:
                    mon.violate("blocked-motion-accepted" if got else "free-motion-rejected",
                                dim=d, length=L, thickness=h, start=a, goal=b, cubes_spanned=span,
                                reported=got, actual=want)
                mon.expect(np.array_equal(a, a0) and np.array_equal(b, b0), "input-mutated")
                mon.sample({"dim": d, "length": L, "thickness": h, "start": a, "goal": b, "valid": want}, 1)


# ------------------------------------------------------------------------------- C11
def coherent(mon):
    """Metamorphic: symmetric, independent of the batch, closed under sub-motions, pure."""
    rng = mon.rng("coherent")
    rounds = mon.n(160, 3200)
    for r in range(rounds):
        if mon.hurry():
            break
        kind = ["line", "narrow", "narrow", "gray"][r % 4]
        with mon.guard("motion-check-raises", env=kind):
            if kind == "gray":
                d, L, h = GC_CONFIGS[int(rng.integers(len(GC_CONFIGS)))]
                C = geom.Corridor(d, L, h)
                env = GrayCodeWalls(d, L, h, seed=r)
                A, B = corridor_pairs(rng, C, 60)
                keep = [C.cube_of(a) in C.index and C.cube_of(b) in C.index and C.motion(a, b, 1e-7) is not None
                        for a, b in zip(A, B)]
                A, B = A[keep], B[keep]

                def ask(a, b):
                    return np.array([as_bool(env.is_motion_valid(x, y)) for x, y in zip(a, b)], bool)
                usable = lambda a, b: np.array([C.cube_of(x) in C.index and C.cube_of(y) in C.index
                                                and C.motion(x, y, 1e-7) is not None for x, y in zip(a, b)], bool)
            elif kind == "narrow":
                d = int(rng.integers(2, 7))
                c = float(rng.uniform(.02, .48))
                env = NarrowPassage(d, c, r)
                A, B = narrow_free_points(rng, 120, d, c), narrow_free_points(rng, 120, d, c)
                A2, B2 = narrow_targeted(rng, 60, d, c)
                A, B = np.vstack([A, A2]), np.vstack([B, B2])

                def usable(a, b):
                    return geom.narrow_hits(a, b, c, 1e-7) == geom.narrow_hits(a, b, c, -1e-7)

                def ask(a, b):
                    return np.asarray(env.is_motion_valid(a, b)).reshape(-1).astype(bool)
                k = usable(A, B)
                A, B = A[k], B[k]
            else:
                d = int(rng.integers(2, 7))
                delta = float(rng.uniform(.05, 1))
                env = StraightLine(d, delta, length=float(rng.uniform(.5, 3)), seed=r)
                A = rng.uniform(-1.2 * delta, 1.2 * delta, (120, d))
                B = rng.uniform(-1.2 * delta, 1.2 * delta, (120, d))
                usable = lambda a, b: np.ones(len(a), bool)

                def ask(a, b):
                    return np.asarray(env.is_motion_valid(a, b)).reshape(-1).astype(bool)
            if not len(A):
                continue

            def q(a, b):
                a0, b0 = a.copy(), b.copy()
                got = ask(a, b)
                mon.expect(np.array_equal(a, a0) and np.array_equal(b, b0), "input-mutated", env=kind, dim=d)
                mon.count("inputs_compared", 2 * len(a0))
                return got
            v = q(A, B)
            w = q(B, A)
            for i in np.nonzero(v != w)[0][:2]:
                mon.violate("asymmetric", env=kind, start=A[i], goal=B[i], forward=v[i], backward=w[i], dim=d)
            mon.count("symmetry_pairs", len(A))
            # order / split of the batch
            perm = rng.permutation(len(A))
            vp = q(A[perm], B[perm])
            mon.expect(np.array_equal(vp, v[perm]), "batch-order-dependent", env=kind, dim=d)
            cut = int(rng.integers(1, len(A))) if len(A) > 1 else 1
            vs = np.concatenate([q(A[:cut], B[:cut]), q(A[cut:], B[cut:])]) if len(A) > cut else v
            mon.expect(np.array_equal(vs, v), "batch-split-dependent", env=kind, dim=d)
            # repeat after other work: no hidden state
            env.sample_from_env()
            mon.expect(np.array_equal(q(A, B), v), "verdict-changed-on-repeat", env=kind, dim=d)
            # sub-motions of free motions are free
            t = np.sort(rng.random((len(A), 2)), axis=1)
            S, G = A + t[:, :1] * (B - A), A + t[:, 1:] * (B - A)
            u = v & usable(S, G)
            if u.any():
                vv = q(S[u], G[u])
                for i in np.nonzero(~vv)[0][:2]:
                    mon.violate("sub-motion-rejected", env=kind, dim=d, start=A[u][i], goal=B[u][i], sub_start=S[u][i], sub_goal=G[u][i])
                mon.count("sub_motions", int(u.sum()))
            # two halves both free => whole free
            M = A + rng.random((len(A), 1)) * (B - A)
            u = usable(A, M) & usable(M, B)
            if u.any():
                both = q(A[u], M[u]) & q(M[u], B[u])
                for i in np.nonzero(both & ~v[u])[0][:2]:
                    mon.violate("halves-free-whole-rejected", env=kind, dim=d, start=A[u][i], mid=M[u][i], goal=B[u][i])
                mon.count("halved_motions", int(both.sum()))
            mon.cases(np.hstack([A, B]))
            mon.sample({"env": kind, "dim": d, "motions": len(A), "valid": int(v.sum())}, 2)
