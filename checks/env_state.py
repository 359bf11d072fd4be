"""Corridor structure, samplers, volume, reference curves, reproducibility (C04-C10)."""
import random as pyrandom
import numpy as np
from checks import geom
from checks.geom import ALPHA
from nonasymptotic.envs import StraightLine, NarrowPassage, GrayCodeWalls


def as_bool(v):
    return bool(np.asarray(v).reshape(-1)[0])


GC_ALL = [(d, L, h) for d, Ls in ((2, range(1, 9)), (3, range(1, 6)), (4, range(1, 4)), (5, (1, 2)), (6, (1,)))
          for L in Ls for h in (0.0, .05, .1, .25, .375, .45)]


# ------------------------------------------------------------------------------- C04
def corridor(mon):
    rng = mon.rng("corridor")
    k = mon.n(60, 1200) * mon.nshards // len(GC_ALL) + 12
    for i, (d, L, h) in enumerate(GC_ALL):
        if not mon.mine(i) or mon.hurry():
            continue
        C = geom.Corridor(d, L, h)
        with mon.guard("corridor-raises", dim=d, length=L, thickness=h):
            env = GrayCodeWalls(d, L, h, seed=1)
            # the corridor visits every cube of the grid exactly once, in a chain of adjacent cubes
            s, e = np.asarray(env.start_point()), np.asarray(env.end_point())
            mon.expect(np.allclose(s, .5), "start-cell", start=s)
            mon.expect(np.allclose(e, C.centers[-1]), "end-cell", end=e, want=C.centers[-1], dim=d, length=L)
            cur, on_faces = C.centers, 0
            cubes = set(C.cubes)
            for c in C.cubes:
                ctr = np.array(c, float) + .5
                mon.expect(abs(env.distance_to_wall(ctr) - (.5 - h)) < 1e-9, "centre-distance", cube=c, dim=d, length=L,
                           thickness=h, got=env.distance_to_wall(ctr))
                # every face of every cube: passable iff it joins consecutive cubes
                for ax in range(d):
                    for sg in (-1, 1):
                        nb = list(c); nb[ax] += sg
                        nb = tuple(nb)
                        open_ = nb in cubes and abs(C.index[nb] - C.index[c]) == 1
                        q = ctr.copy(); q[ax] += sg * .499
                        w = float(env.distance_to_wall(q))
                        want = (.5 - h) if open_ else (.001 - h)
                        mon.case((d, L, h, c, ax, sg))
                        mon.count("open_faces" if open_ else "closed_faces")
                        mon.expect(abs(w - want) < 1e-9, "face-distance", dim=d, length=L, thickness=h, cube=c,
                                   axis=ax, side=sg, got=w, want=want)
                        if nb in cubes:
                            other = np.array(nb, float) + .5
                            v = as_bool(env.is_motion_valid(ctr + sg * np.eye(d)[ax] * .01, other))
                            mon.expect(v == open_, "face-passable", dim=d, length=L, thickness=h, cube=c, axis=ax,
                                       side=sg, reported=v, actual=open_)
            # random configurations: signed distance to the nearest wall
            for _ in range(k * 4):
                c = np.array(C.cubes[int(rng.integers(len(C.cubes)))], float)
                p = c + rng.random(d)
                if rng.random() < .3:
                    j = int(rng.integers(d))
                    p[j] = c[j] + float(rng.choice([1e-9, h, 1 - h, 1 - 1e-9, h / 2, .5]))
                if np.any(np.abs(p - np.round(p)) < 1e-10):
                    continue
                p0 = p.copy()
                got, want = float(env.distance_to_wall(p)), C.wall_distance(p)
                mon.case((d, L, h, tuple(p)))
                mon.count("free_points" if want > 0 else "wall_points")
                mon.expect(abs(got - want) < 1e-9, "wall-distance", dim=d, length=L, thickness=h, point=p, got=got, want=want)
                mon.expect(np.array_equal(p, p0), "input-mutated")
        mon.sample({"dim": d, "length": L, "thickness": h, "cubes": len(C.cubes)}, 1)


# ------------------------------------------------------------------------------- C05
def free_samples(mon):
    rng = mon.rng("free")
    per = mon.n(24000, 480000)
    done = 0
    r = 0
    while done < per and not mon.hurry():
        r += 1
        kind = ["line", "narrow", "gray"][r % 3]
        n = 60 if kind == "gray" else 150
        seed = int(rng.integers(1 << 40))
        with mon.guard("sampler-raises", env=kind, seed=seed):
            if kind == "line":
                d, dl, L = int(rng.integers(2, 9)), float(rng.choice([0.0, 1e-3, .1, .5, 2.0])), float(rng.choice([.25, 1, 3.5]))
                env = StraightLine(d, dl, length=L, seed=seed)
                S = np.array([env.sample_from_env() for _ in range(n)])
                ok = (S >= -dl - 1e-12).all(axis=1) & (S[:, 0] <= L + dl + 1e-12) & (S[:, 1:] <= dl + 1e-12).all(axis=1)
                cfg = (d, dl, L)
                # zero-length motions at samples are valid
                v = np.asarray(env.is_motion_valid(S, S)).astype(bool)
            elif kind == "narrow":
                d, c = int(rng.integers(2, 8)), float(rng.choice([.01, .1, .25, .4, .499, rng.uniform(.01, .49)]))
                env = NarrowPassage(d, c, seed)
                S = np.array([env.sample_from_env() for _ in range(n)])
                ok = geom.narrow_free(S, c, 1e-12) if S.shape == (n, d) else np.zeros(n, bool)
                cfg = (d, c)
                v = np.asarray(env.is_motion_valid(S, S)).astype(bool)
                mon.count("hallway_samples", int((np.abs(S[:, 0]) < .5).sum()))
            else:
                d, L, h = GC_ALL[int(rng.integers(len(GC_ALL)))]
                C = geom.Corridor(d, L, h)
                env = GrayCodeWalls(d, L, h, seed=seed)
                S = np.array([env.sample_from_env() for _ in range(n)])
                ok, v = np.zeros(n, bool), np.ones(n, bool)
                for i in range(n):
                    if S.shape == (n, d) and C.cube_of(S[i]) in C.index:
                        ok[i] = C.wall_distance(S[i]) >= -1e-12
                        if C.wall_distance(S[i]) > 1e-9 and i < 12:
                            v[i] = as_bool(env.is_motion_valid(S[i], S[i]))
                cfg = (d, L, h)
            mon.expect(S.shape == (n, d), "sample-shape", env=kind, shape=S.shape, dim=d)
            mon.expect(np.isfinite(S).all(), "sample-not-finite", env=kind)
            for i in np.nonzero(~ok)[0][:2]:
                mon.violate("sample-in-collision", env=kind, config=cfg, seed=seed, sample=S[i], index=int(i))
            for i in np.nonzero(ok & ~v)[0][:2]:
                mon.violate("sample-rejected-by-checker", env=kind, config=cfg, seed=seed, sample=S[i])
            mon.cases(S)
            mon.count("samples_" + kind, n)
            mon.sample({"env": kind, "config": cfg, "sample": S[0]}, 2)
            done += n


# ------------------------------------------------------------------------------- C06
def _box_cells(S, lo, hi, bins):
    """Cell index of each sample in an axis-aligned grid of the box."""
    u = (S - lo) / np.where(hi > lo, hi - lo, 1.0)
    idx = np.clip(np.floor(u * bins).astype(int), 0, bins - 1)
    return idx


def uniform(mon):
    rng = mon.rng("uniform")
    n = 40000 if mon.tier == "quick" else 400000
    configs = []
    for d in (2, 3, 4):
        configs += [("line", (d, .5, 1.0)), ("line", (d, .2, 3.0))]
        configs += [("narrow", (d, .45)), ("narrow", (d, .25))]
    configs += [("narrow", (2, .1)), ("narrow", (6, .4)), ("line", (7, 1.0, 1.0)), ("narrow", (3, .49))]
    configs += [("gray", c) for c in ((2, 2, .1), (2, 1, .3), (2, 3, .25), (3, 1, .2), (3, 2, .1), (3, 3, .05), (2, 4, 0.0), (4, 1, .2), (4, 2, .15), (5, 1, .1))]
    for _ in range(6 if mon.tier == "quick" else 40):
        configs += [("line", (int(rng.integers(2, 7)), float(rng.uniform(.05, 1.5)), float(rng.choice([1.0, rng.uniform(.3, 6)])))),
                    ("narrow", (int(rng.integers(2, 6)), float(rng.uniform(.1, .5)))),
                    ("gray", (int(rng.integers(2, 5)), int(rng.integers(1, 5)), float(rng.uniform(.02, .4))))]
    for ci, (kind, cfg) in enumerate(configs):
        if not mon.mine(ci):
            continue
        seed = int(rng.integers(1 << 40))
        m = n
        with mon.guard("sampler-raises", env=kind, config=cfg, seed=seed):
            if kind == "line":
                d, dl, L = cfg
                env = StraightLine(d, dl, length=L, seed=seed)
                boxes = [(np.array([-dl] * d), np.array([L + dl] + [dl] * (d - 1)))]
            elif kind == "narrow":
                d, c = cfg
                env = NarrowPassage(d, c, seed)
                boxes = [(np.array([-1.5] + [-.5] * (d - 1)), np.array([-.5] + [.5] * (d - 1))),
                         (np.array([-.5] + [-c] * (d - 1)), np.array([.5] + [c] * (d - 1))),
                         (np.array([.5] + [-.5] * (d - 1)), np.array([1.5] + [.5] * (d - 1)))]
            else:
                d, L, h = cfg
                env = GrayCodeWalls(d, L, h, seed=seed)
                boxes = geom.Corridor(d, L, h).regions()
            S = np.array([env.sample_from_env() for _ in range(m)])
            lo = np.array([b[0] for b in boxes]); hi = np.array([b[1] for b in boxes])
            vol = np.prod(hi - lo, axis=1)
            # region of every sample
            reg = np.full(m, -1)
            for b in range(len(boxes)):
                inside = ((S >= lo[b] - 1e-12) & (S <= hi[b] + 1e-12)).all(axis=1)
                reg[inside & (reg < 0)] = b
            mon.expect((reg >= 0).all(), "sample-outside-free-space", env=kind, config=cfg, n=int((reg < 0).sum()))
            k = reg >= 0
            S, reg = S[k], reg[k]

            def judge(name, counts, probs):
                lp, x, cells = geom.chi2_test(counts, probs)
                mon.case((kind, cfg, name, seed))
                mon.count("tests")
                mon.count("cells", cells)
                mon.peak("neg_log_p", -lp)
                if lp < ALPHA:
                    mon.violate("not-uniform", env=kind, config=cfg, seed=seed, test=name, log_p=lp, statistic=x,
                                samples=len(S), observed=list(np.asarray(counts)[:12]),
                                expected=list((np.asarray(probs) * np.sum(counts))[:12]))
            judge("regions", np.bincount(reg, minlength=len(boxes)), vol / vol.sum())
            if kind == "gray":
                # interiors against passages, the ends against the rest
                names = np.array([nm for nm, _ in geom.Corridor(d, L, h).named_regions()])
                for parts in (sorted(set(names)), ["interior"], ["entrance"], ["exit"]):
                    groups = [names == q for q in parts] if len(parts) > 1 else [np.char.endswith(names, parts[0])]
                    if len(parts) == 1:
                        groups.append(~groups[0])
                    if all(g.any() for g in groups):
                        judge("kinds " + " ".join(parts), [int(g[reg].sum()) for g in groups], [vol[g].sum() / vol.sum() for g in groups])
            # no value comes back, and every wall is approached
            for a in range(d):
                again = np.unique(np.unique(S[:, a], return_counts=True)[1])[-1]
                mon.count("tests")
                mon.expect(again <= 2, "value-repeated", env=kind, config=cfg, seed=seed, axis=a, times=int(again), samples=len(S))
            # position within the region, pooled over the regions of the same kind, per axis pair
            U = (S - lo[reg]) / (hi[reg] - lo[reg])
            for a in range(d):
                judge("axis%d" % a, np.bincount(np.clip((U[:, a] * 20).astype(int), 0, 19), minlength=20), np.full(20, .05))
                b = (a + 1) % d
                cell = np.clip((U[:, a] * 6).astype(int), 0, 5) * 6 + np.clip((U[:, b] * 6).astype(int), 0, 5)
                judge("axes%d,%d" % (a, b), np.bincount(cell, minlength=36), np.full(36, 1 / 36))
                for b in range(len(boxes)):
                    u = U[reg == b, a]
                    if len(u) > 300:
                        mon.count("tests")
                        mon.expect(u.min() <= 30 / len(u) and u.max() >= 1 - 30 / len(u), "edge-of-region-never-sampled", env=kind, config=cfg,
                                   seed=seed, region=[lo[b], hi[b]], axis=a, least=float(u.min()), most=float(u.max()), samples=len(u))
            # absolute position, first axis x second axis, box by box
            for b in range(len(boxes)):
                s = reg == b
                if s.sum() > 400:
                    cell = np.clip((U[s, 0] * 8).astype(int), 0, 7) * 8 + np.clip((U[s, 1] * 8).astype(int), 0, 7)
                    judge("box%d" % b, np.bincount(cell, minlength=64), np.full(64, 1 / 64))
                    for a in range(d):
                        judge("box%d axis%d" % (b, a), np.bincount(np.clip((U[s, a] * 10).astype(int), 0, 9), minlength=10), np.full(10, .1))
            # consecutive samples are independent of each other
            q = np.clip((U[:, 0] * 5).astype(int), 0, 4)
            judge("serial", np.bincount(q[:-1] * 5 + q[1:], minlength=25), np.full(25, .04))
            pr = vol / vol.sum()
            if len(boxes) > 1:
                R = min(len(boxes), 12)
                kk = np.minimum(reg, R - 1)
                p = pr.copy() if len(boxes) <= R else np.concatenate([pr[:R - 1], [pr[R - 1:].sum()]])
                judge("serial-region", np.bincount(kk[:-1] * R + kk[1:], minlength=R * R), np.outer(p, p).ravel())
            mon.count("samples", m)
            mon.sample({"env": kind, "config": cfg, "samples": m}, 2)


# ------------------------------------------------------------------------------- C07
def volume(mon):
    rng = mon.rng("volume")
    for r in range(mon.n(4000, 40000)):
        d = int(rng.integers(2, 12))
        seed = int(rng.integers(1 << 30))
        if r % 2:
            dl = float(rng.choice([1e-3, .1, .5, 1.0, 2.5, rng.uniform(.001, 3)]))
            L = float(rng.choice([1.0, .1, 2.0, 10.0, rng.uniform(.01, 30)]))
            want = (L + 2 * dl) * (2 * dl) ** (d - 1)
            cfg = ("line", d, dl, L)
            with mon.guard("volume-raises", config=cfg):
                env = StraightLine(d, dl, length=L, seed=seed) if L != 1.0 or r % 4 == 1 else StraightLine(d, dl, seed=seed)
                v1 = float(env.volume)
        else:
            c = float(rng.choice([.01, .1, .25, .4, .5, rng.uniform(.001, .499)]))
            want = 2.0 + (2 * c) ** (d - 1)
            cfg = ("narrow", d, c)
            with mon.guard("volume-raises", config=cfg):
                env = NarrowPassage(d, c, seed)
                v1 = float(env.volume)
        with mon.guard("volume-raises", config=cfg):
            mon.case(cfg)
            mon.expect(abs(v1 - want) <= 1e-12 * want * (1 + d), "wrong-volume", config=cfg, got=v1, want=want)
            if r % 40 < 2:
                # the reported measure is the one the sampler uses, and use does not change it
                for _ in range(20):
                    env.sample_from_env()
                P = np.array([env.sample_from_env() for _ in range(4)])
                env.is_motion_valid(P, P[::-1])
                mon.expect(float(env.volume) == v1, "volume-drifts", config=cfg, before=v1, after=float(env.volume))
                mon.count("after_use")
            if d == 2 and r % 100 < 10:
                # agreement with a Monte-Carlo estimate through the motion checker itself
                m = 4000
                if cfg[0] == "line":
                    lo, hi = np.array([-dl - .1 * L] * d), np.array([L + dl + .1 * L] + [dl + .1 * L])
                    X = rng.uniform(lo, hi, (m, d))
                    f = np.asarray(env.is_motion_valid(X, X)).astype(bool).mean()
                    est, p = f * np.prod(hi - lo), f
                    tot = np.prod(hi - lo)
                    sd = tot * np.sqrt(max(want / tot * (1 - want / tot), 1e-9) / m)
                    mon.expect(abs(est - want) < 7 * sd + 1e-9, "volume-disagrees-with-free-space", config=cfg, estimate=est, reported=v1, sd=sd)
                    mon.count("monte_carlo")
    mon.sample({"config": cfg, "volume": want}, 1)


# ------------------------------------------------------------------------------- C08
def curve(mon):
    rng = mon.rng("curve")
    rounds = mon.n(800, 16000)
    for r in range(rounds):
        if mon.hurry():
            break
        kind = ["line", "narrow", "gray"][r % 3]
        if kind == "line":
            d, dl, L = int(rng.integers(2, 9)), float(rng.uniform(0, 2)), float(rng.choice([1.0, .3, 5.0]))
            cfg = (kind, d, dl, L)
            total = L
            exact = lambda t: np.array([min(max(t, 0), 1) * L] + [0.0] * (d - 1))
        elif kind == "narrow":
            d, c = int(rng.integers(2, 9)), float(rng.uniform(.01, .49))
            cfg = (kind, d, c)
            total = 1.0
            exact = lambda t: np.array([min(max(t, 0), 1) - .5] + [0.0] * (d - 1))
        else:
            d, L, h = GC_ALL[int(rng.integers(len(GC_ALL)))]
            cfg = (kind, d, L, h)
            C = geom.Corridor(d, L, h)
            total = C.total
            exact = C.curve
        with mon.guard("curve-raises", config=cfg):
            env = (StraightLine(d, dl, length=L, seed=1) if kind == "line" else
                   NarrowPassage(d, c, 1) if kind == "narrow" else GrayCodeWalls(d, L, h, seed=1))
            ts = list(rng.random(10)) + [0.0, 1.0, .5, -.3, 1.7, 1e-12, 1 - 1e-12, 1 - 1e-9]
            if kind == "gray":
                j = rng.integers(0, 2 * int(total) + 1, 8)
                ts += list(j / (2 * total)) + list(np.clip(j / (2 * total) + rng.choice([-1, 1], 8) * 1e-7, 0, 1))
                s, e = np.asarray(env.start_point()), np.asarray(env.end_point())
                mon.expect(abs(env.get_curve_arclength() - total) < 1e-9, "arclength", config=cfg,
                           got=env.get_curve_arclength(), want=total)
                mon.expect(np.allclose(s, exact(0.0), atol=1e-9) and np.allclose(e, exact(1.0), atol=1e-9), "endpoints", config=cfg, start=s, end=e)
            P = []
            for t in ts:
                p = np.asarray(env.arclength_to_curve_point(t))
                mon.case((cfg, t))
                mon.count("points_" + kind)
                if not mon.expect(p.shape == (d,), "point-dimension", env=kind, config=cfg, t=t, shape=p.shape):
                    P.append(exact(t)); continue
                mon.expect(np.allclose(p, exact(t), atol=1e-8 * (1 + total)), "wrong-curve-point", env=kind, config=cfg, t=t, got=p, want=exact(t))
                P.append(p.copy())
                p += 7.0  # a caller may scribble on what it was given
                again = np.asarray(env.arclength_to_curve_point(t))
                mon.expect(again.shape == (d,) and np.allclose(again, exact(t), atol=1e-8 * (1 + total)), "curve-state-leaks", env=kind, config=cfg, t=t, got=again)
            # constant speed: chords never exceed the arc, and equal it on straight stretches
            o = np.argsort(np.clip(ts, 0, 1))
            T, Q = np.clip(np.array(ts)[o], 0, 1) * total, np.array(P)[o]
            step = np.linalg.norm(np.diff(Q, axis=0), axis=1)
            mon.expect((step <= np.diff(T) + 1e-7 * (1 + total)).all(), "curve-too-fast", env=kind, config=cfg)
            # clearance: the curve keeps the stated distance from every obstacle
            for p in P:
                if kind == "line":
                    m = min((p + dl).min(), (L + dl) - p[0], dl - np.max(np.abs(p[1:])))
                    mon.expect(m >= dl - 1e-9 * (1 + L), "curve-clearance", env=kind, config=cfg, point=p, clearance=m)
                elif kind == "narrow":
                    mon.expect(np.abs(p[1:]).max() <= 1e-9 and abs(p[0]) <= .5 + 1e-9, "curve-clearance", env=kind, config=cfg, point=p)
                else:
                    if np.all(np.abs(p - np.round(p)) > 1e-9):
                        m = float(env.distance_to_wall(p))
                        mon.expect(m >= (.5 - h) - 1e-7, "curve-clearance", env=kind, config=cfg, point=p, clearance=m)
            if kind == "narrow" and r % 5 == 1:
                v = np.asarray(env.is_motion_valid(Q[:-1], Q[1:])).astype(bool)
                mon.expect(v.all(), "curve-in-collision", env=kind, config=cfg)
            if kind == "gray" and h < .45:
                for a, b in zip(Q[:-1], Q[1:]):
                    if np.all(np.abs(a - np.round(a)) > 1e-9) and np.all(np.abs(b - np.round(b)) > 1e-9) and np.linalg.norm(a - b) < .5:
                        if C.motion(a, b, 1e-9):
                            mon.expect(as_bool(env.is_motion_valid(a, b)), "curve-in-collision", env=kind, config=cfg, start=a, goal=b)
                            mon.count("curve_pieces_checked")
        mon.sample({"config": cfg, "t": ts[0], "point": P[0]}, 2)


# ------------------------------------------------------------------------------- C09
def path_distance(mon):
    rng = mon.rng("dist")
    for r in range(mon.n(1600, 32000)):
        if mon.hurry():
            break
        d = int(rng.integers(2, 9))
        n = int(rng.integers(1, 25))
        if r % 25 == 0:
            n = int(rng.choice([300, 1500, 5000, 20000, 70000], p=[.3, .3, .2, .15, .05]))
            mon.count("long_arrays")
        if r % 2:
            L = float(rng.choice([1.0, .25, 4.0, rng.uniform(.1, 9)]))
            cfg, a, b = ("line", d, L), 0.0, L
        else:
            c = float(rng.uniform(.02, .48))
            cfg, a, b = ("narrow", d, c), -.5, .5
        X = rng.uniform(-2, 2, (n, d)) * (1.0 if r % 2 == 0 else max(1, L))
        if rng.random() < .3:
            X[:, 1:] *= 1e-6
        if rng.random() < .2:
            X[0] = 0; X[0, 0] = rng.choice([a, b, a - .25, b + .25, (a + b) / 2])
        want = np.sqrt((X[:, 0] - np.clip(X[:, 0], a, b)) ** 2 + (X[:, 1:] ** 2).sum(axis=1))
        if r % 10 in (3, 4):      # callers hand over whatever their arrays are: whole numbers, single precision
            X = np.round(X * 3).astype([np.int64, np.int32, np.int16][r // 10 % 3]) if r // 10 % 2 else X.astype(np.float32)
            Xf = X.astype(float)
            want = np.sqrt((Xf[:, 0] - np.clip(Xf[:, 0], a, b)) ** 2 + (Xf[:, 1:] ** 2).sum(axis=1))
            mon.count("other_dtypes", n)
        rel = 2e-6 if X.dtype == np.float32 else 1e-9
        X0 = X.copy()
        got = None
        with mon.guard("distance-raises", config=cfg, env=cfg[0]):
            env = StraightLine(d, .3, length=L, seed=1) if r % 2 else NarrowPassage(d, c, 1)
            got = np.asarray(env.distance_to_path(X))
        if got is None:
            continue
        mon.cases(np.hstack([X, np.full((n, 1), float(r))])[:200])
        mon.count("queries_" + cfg[0], n)
        mon.count("beyond_ends", int(((X[:, 0] < a) | (X[:, 0] > b)).sum()))
        if mon.expect(got.shape == (n,), "distance-shape", config=cfg, shape=got.shape, n=n):
            bad = np.nonzero(~(np.abs(got - want) <= rel * (1 + want)))[0]
            for i in bad[:2]:
                mon.violate("wrong-distance", env=cfg[0], config=cfg, point=X[i], got=got[i], want=want[i])
        mon.expect(np.array_equal(X, X0), "input-mutated")
        # consistent with the curve the environment itself publishes
        if r % 8 < 2:
            with mon.guard("distance-raises", config=cfg, env=cfg[0]):
                ts = np.linspace(0, 1, 33)
                Q = np.array([env.arclength_to_curve_point(t) for t in ts])
                few = slice(max(0, n - 200), n)
                dd = np.linalg.norm(X[few, None, :] - Q[None], axis=2).min(axis=1)
                slack = (b - a) / 32
                mon.expect(((got[few] <= dd + 10 * rel) & (got[few] >= dd - slack - 10 * rel)).all(), "distance-disagrees-with-curve", config=cfg)
                mon.expect(np.allclose(env.distance_to_path(Q), 0, atol=1e-9), "curve-not-at-zero", config=cfg)
        mon.sample({"config": cfg, "point": X[0], "distance": want[0]}, 2)


# ------------------------------------------------------------------------------- C10
def make(kind, cfg, seed):
    if kind == "line":
        return StraightLine(*cfg, seed=seed)
    if kind == "narrow":
        return NarrowPassage(*cfg, seed)
    return GrayCodeWalls(*cfg, seed=seed)


CFG10 = [("line", (2, .5)), ("line", (5, .1)), ("narrow", (2, .1)), ("narrow", (4, .4)), ("gray", (2, 3, .1)), ("gray", (3, 2, .2))]


def disturb(env, kind, cfg, rng):
    """Everything that is not sampling; none of it may move the sample stream."""
    d = cfg[0]
    u = int(rng.integers(6))
    if u == 0:
        P = rng.uniform(0.11, .4, (4, d)) * (1 if kind != "line" else .1)
        if kind == "gray":
            env.is_motion_valid(P[0] + .1, P[1] + .1)
        else:
            env.is_motion_valid(P, P[::-1])
    elif u == 1:
        env.arclength_to_curve_point(float(rng.random()))
    elif u == 2 and kind != "gray":
        env.distance_to_path(rng.uniform(-1, 1, (5, d)))
    elif u == 3 and kind != "gray":
        env.volume
    elif u == 4:
        np.random.seed(int(rng.integers(1 << 30)))
        np.random.random(3)
        pyrandom.seed(int(rng.integers(1 << 30)))
        pyrandom.random()
    else:
        make(*CFG10[int(rng.integers(len(CFG10)))], seed=int(rng.integers(99))).sample_from_env()
    return u


def reproducible(mon):
    from nonasymptotic.sampler import random_point_in_mpolygon
    from shapely.geometry import Polygon
    rng = mon.rng("repro")
    for r in range(mon.n(600, 12000)):
        if mon.hurry():
            break
        kind, cfg = CFG10[r % len(CFG10)]
        seed = int(rng.choice([0, 1, 1999, int(rng.integers(2 ** 32))]))
        n = 10
        with mon.guard("env-raises", env=kind, config=cfg):
            ref_env = make(kind, cfg, seed)
            ref = np.array([ref_env.sample_from_env() for _ in range(n)])
            st_np, st_py = np.random.get_state()[1].copy(), pyrandom.getstate()
            # interleave: the same environment twice, another seed, and disturbances in between
            a, b, other = make(kind, cfg, seed), make(kind, cfg, seed), make(kind, cfg, seed + 1)
            A, B, O = [], [], []
            trace = []
            while len(A) < n or len(B) < n:
                u = int(rng.integers(5))
                trace.append(u)
                if u == 0 and len(A) < n:
                    s = a.sample_from_env(); A.append(np.array(s)); s += 3.0   # scribble on the returned array
                elif u == 1 and len(B) < n:
                    s = b.sample_from_env(); B.append(np.array(s))
                elif u == 2:
                    O.append(np.array(other.sample_from_env()))
                else:
                    disturb([a, b, other][int(rng.integers(3))], kind, cfg, rng)
                    mon.count("disturbances")
            mon.case((kind, cfg, seed, tuple(trace)))
            mon.count("interleavings")
            mon.expect(np.array_equal(np.array(A), ref), "stream-not-reproducible", env=kind, config=cfg, seed=seed, schedule=trace, got=A, want=ref)
            mon.expect(np.array_equal(np.array(B), ref), "stream-not-reproducible", env=kind, config=cfg, seed=seed, schedule=trace, got=B, want=ref)
            k = min(len(O), n)
            if k:
                mon.expect(not np.array_equal(np.array(O[:k]), ref[:k]), "seed-ignored", env=kind, config=cfg, seed=seed)
            if r % 5 == 0:      # every bit of the seed matters
                for far in (2 ** 31, 2 ** 16, 2 ** 32, 2 ** 40):
                    with mon.guard("env-raises", env=kind, config=cfg, seed=seed + far):
                        e = make(kind, cfg, seed + far)
                        mon.expect(not np.array_equal([e.sample_from_env() for _ in range(3)], ref[:3]), "seed-ignored", env=kind, config=cfg, seed=seed, other=seed + far)
                        mon.count("distant_seeds")
            # sampling leaves the process-global generators alone
            np.random.seed(7); pyrandom.seed(7)
            g1, g2 = np.random.get_state()[1].copy(), pyrandom.getstate()
            e = make(kind, cfg, seed); e.sample_from_env()
            mon.expect(np.array_equal(np.random.get_state()[1], g1) and pyrandom.getstate() == g2, "global-generator-touched", env=kind)
            # unseeded environments are not all the same
            if r % 30 < len(CFG10) and kind != "narrow":
                x, y = make(kind, cfg, None), make(kind, cfg, None)
                mon.expect(not np.array_equal([x.sample_from_env() for _ in range(3)], [y.sample_from_env() for _ in range(3)]), "unseeded-streams-equal", env=kind)
            if r % 4 == 0:
                poly = Polygon([(0, 0), (3, 0), (3, 2), (1, 1), (0, 2)], [[(.5, .2), (.5, .5), (1, .5), (1, .2)]])
                xs = []
                for rep in range(2):
                    g = np.random.default_rng(seed)
                    if rep:
                        np.random.seed(3); pyrandom.seed(3)
                    xs.append([tuple(random_point_in_mpolygon(poly, rng=g).coords[0]) for _ in range(3)])
                mon.expect(xs[0] == xs[1], "polygon-stream-not-reproducible", seed=seed, got=xs)
                mon.expect(len(set(xs[0])) == 3, "polygon-stream-constant", seed=seed, got=xs[0])
                mon.count("polygon_streams")
            mon.sample({"env": kind, "config": cfg, "seed": seed, "schedule": trace[:12]}, 1)
