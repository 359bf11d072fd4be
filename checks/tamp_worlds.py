"""What the benchmark worlds are made of: hollow containers (C45), rooms, corridors, objects (C47)."""
import contextlib
import io
import itertools
import math
import random

import numpy as np
from checks.tamp_load import load

SIDES = [(i, s) for i in range(3) for s in (-1, 1)]


def walls_wanted(sides, dims, t):
    """One plate per side, flush with the outer box that stands on the origin."""
    out = []
    for i, s in sides:
        half = np.array(dims, float) / 2
        half[i] = t / 2
        c = np.array([0, 0, dims[2] / 2.0])
        c[i] += s * (dims[i] - t) / 2
        out.append((c, half))
    return out


def in_world(tb, c, half, pose):
    """Corner points of a box, which say where it is and how large."""
    R = tb.matrix_from_quat(pose[1])
    return np.array([np.asarray(pose[0]) + R @ (c + np.array(v) * half) for v in itertools.product((-1, 1), repeat=3)])


def oobb_corners(tb, o):
    lo, up = np.asarray(o[0][0], float), np.asarray(o[0][1], float)
    return in_world(tb, (lo + up) / 2, (up - lo) / 2, o[1])


def shape_corners(tb, shape, pose):
    return in_world(tb, np.zeros(3), np.array(shape.dims), pose)


def same_corners(A, B, tol=1e-9):
    """The same eight points, in whatever order."""
    return all(np.min(np.abs(B - a).max(1)) < tol for a in A) and all(np.min(np.abs(A - b).max(1)) < tol for b in B)


def match(As, Bs):
    """Every box of one list is one of the other, each once."""
    left = list(range(len(Bs)))
    for a in As:
        for k in left:
            if same_corners(a, Bs[k]):
                left.remove(k)
                break
        else:
            return False
    return not left


def containers(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    run = load("kuka_carry", "run")
    rng = mon.rng("hollow")
    # any set of sides
    for i in range(mon.n(12000, 200000)):
        dims = np.exp(rng.uniform(np.log(.02), np.log(3), 3))
        if rng.random() < .2:
            dims[:] = dims[0]
        t = float(dims.min() * rng.uniform(.01, .6))
        sides = [x for x in SIDES if rng.random() < .5]
        idx = [[s for j, s in sides if j == k] for k in range(3)]
        for k in range(3):
            if rng.random() < .5:
                idx[k] = set(idx[k])
            elif rng.random() < .5:
                idx[k] = idx[k][::-1]
        shapes, oobbs = run.create_hollow_shapes(idx, width=float(dims[0]), length=float(dims[1]), height=float(dims[2]), thickness=t)
        mon.case((tuple(dims), t, tuple(sides)), nontrivial=bool(sides))
        want = [in_world(tb, c, h, tb.UNIT) for c, h in walls_wanted(sides, dims, t)]
        got = [oobb_corners(tb, o) for o in oobbs]
        detail = dict(sides=sides, dims=dims, thickness=t)
        mon.expect(match(want, got), "reported-walls", got=got, want=want, **detail)
        built = [in_world(tb, np.zeros(3), np.array(g["halfExtents"], float), p) for _, g, p in shapes]
        mon.expect(match(want, built), "built-walls", got=built, want=want, **detail)
        mon.expect(len(built) == len(got) and all(same_corners(a, b) for a, b in zip(built, got)), "walls-out-of-step", **detail)
        mon.count("hollows")
        mon.count("walls", len(sides))
        mon.sample(dict(sides=sides, dims=dims, thickness=t))
    # the named containers, built
    quiet = io.StringIO()
    for i in range(mon.n(2400, 20000)):
        tb.clear()
        name = list(run.SHAPE_INDICES)[int(rng.integers(len(run.SHAPE_INDICES)))]
        kw = {}
        dims, t = [.3, .4, .15], .01
        for k, (key, lo, hi) in enumerate((("width", .05, 1), ("length", .05, 1), ("height", .05, 1))):
            if rng.random() < .8:
                dims[k] = kw[key] = float(rng.uniform(lo, hi))
        if rng.random() < .8:
            t = kw["thickness"] = float(rng.uniform(.001, .02))
        with contextlib.redirect_stdout(quiet):
            body, oobbs = run.create_hollow(name, **kw)
        sides = [(k, s) for k, ss in enumerate(run.SHAPE_INDICES[name]) for s in ss]
        mon.case((name, tuple(dims), t))
        want = [in_world(tb, c, h, tb.UNIT) for c, h in walls_wanted(sides, dims, t)]
        got = [oobb_corners(tb, o) for o in oobbs]
        built = [shape_corners(tb, s, p) for s, p in tb.BODIES[body].world_shapes()]
        mon.expect(match(want, got), "reported-walls", category=name, got=got, want=want)
        mon.expect(match(want, built), "built-walls", category=name, got=built, want=want)
        mon.count("built_" + name)
    # the sides that the named containers are known by
    names = {"tray": [(0, -1), (0, 1), (1, -1), (1, 1), (2, -1)], "bin": [(0, -1), (0, 1), (1, -1), (1, 1), (2, -1)],
             "cubby": [(0, -1), (1, -1), (1, 1), (2, -1), (2, 1)], "fence": [(0, -1), (0, 1), (1, -1), (1, 1)],
             "x_walls": [(0, -1), (0, 1), (2, -1)], "y_walls": [(1, -1), (1, 1), (2, -1)]}
    for n, sides in names.items():
        if n in run.SHAPE_INDICES:
            got = sorted((k, s) for k, ss in enumerate(run.SHAPE_INDICES[n]) for s in ss)
            mon.expect(got == sorted(sides), "category-sides", category=n, got=got, want=sides)
    # and where the world puts them
    for i in range(mon.n(160, 1200)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        np.random.seed(int(rng.integers(2 ** 31)))
        with contextlib.redirect_stdout(quiet):
            w = run.load_world(min_gap=float(rng.uniform(.01, .2)))
        robot, names_, movable, sink_oobbs, fixed, links = w
        bins = [b for b in fixed if "sink" in names_[b]]
        mon.expect(len(bins) == len(sink_oobbs), "one-wall-set-per-bin", bins=len(bins), sets=len(sink_oobbs))
        for b, oo in zip(bins, sink_oobbs):
            built = [shape_corners(tb, s, p) for s, p in tb.BODIES[b].world_shapes()]
            mon.expect(match([oobb_corners(tb, o) for o in oo], built), "placed-walls", bin=b, pose=tb.BODIES[b].pose)
            mon.count("bins_placed")
        mon.case(("world", i, mon.shard))
        quiet.truncate(0)
        quiet.seek(0)
        if mon.hurry():
            break


# ============================================================================ worlds
def rects(tb, bodies):
    out = []
    for b in bodies:
        for s, p in tb.BODIES[b].world_shapes():
            lo, up = tb.shape_aabb(s, p)
            out.append((lo, up))
    return out


def flood(boxes, z, start, lo, hi, step, grow=0.0):
    """Grid cells reachable from a point at height z, four neighbours at a time, staying out of the (grown) boxes."""
    xs, ys = np.arange(lo[0], hi[0], step), np.arange(lo[1], hi[1], step)
    free = np.ones((len(xs), len(ys)), bool)
    for b0, b1 in boxes:
        if not b0[2] <= z <= b1[2]:
            continue
        # cells whose centre is closer than `grow` to the box
        dx = np.maximum(np.maximum(b0[0] - xs, xs - b1[0]), 0)[:, None]
        dy = np.maximum(np.maximum(b0[1] - ys, ys - b1[1]), 0)[None, :]
        free &= ~(dx * dx + dy * dy <= grow * grow)
    seen = np.zeros_like(free)
    i, j = int(round((start[0] - lo[0]) / step)), int(round((start[1] - lo[1]) / step))
    if not free[i, j]:
        return xs, ys, seen
    todo = [(i, j)]
    seen[i, j] = True
    while todo:
        i, j = todo.pop()
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= a < len(xs) and 0 <= b < len(ys) and free[a, b] and not seen[a, b]:
                seen[a, b] = True
                todo.append((a, b))
    return xs, ys, seen


def reaches(grid, p):
    xs, ys, seen = grid
    i, j = int(np.argmin(abs(xs - p[0]))), int(np.argmin(abs(ys - p[1])))
    return bool(seen[max(0, i - 1):i + 2, max(0, j - 1):j + 2].any())


def opening(boxes, x, y, z):
    """Free interval of the line x = const through (x, y)."""
    lo, hi = -math.inf, math.inf
    for b0, b1 in boxes:
        if b0[0] <= x <= b1[0] and b0[2] <= z <= b1[2]:
            if b0[1] <= y <= b1[1]:
                return 0.0, 0.0
            if b1[1] < y:
                lo = max(lo, b1[1])
            else:
                hi = min(hi, b0[1])
    return lo, hi


def corridor(mon, tb, prob, gap, **detail):
    """The narrowest opening on the line between the rooms is exactly the gap, all along."""
    boxes = rects(tb, prob.obstacles)
    z = .05
    y = prob.init_conf.values[1]
    widths = []
    for x in np.linspace(-1.6, 1.6, 129):
        lo, hi = opening(boxes, x, y, z)
        widths.append(hi - lo)
    mon.count("openings", len(widths))
    mon.expect(abs(min(widths) - gap) < 1e-9, "corridor-width", narrowest=min(widths), want=gap, **detail)
    inner = widths[8:-8]
    mon.expect(max(inner) - min(inner) < 1e-9, "corridor-uneven", widths=[min(inner), max(inner)], **detail)


def world_manip(mon, tb, pbu, pr, rng):
    quiet = io.StringIO()
    for i in range(mon.n(400, 4000)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        np.random.seed(int(rng.integers(2 ** 31)))
        scale, dd, k = float(rng.uniform(.1, .6)), float(rng.uniform(.005, .3)), int(rng.choice([1, 1, 2, 3, 5]))
        if rng.random() < .12:
            scale, k = float(rng.uniform(.05, .2)), int(rng.integers(7, 15))
            mon.count("crowded_rooms")
        detail = dict(robot_scale=scale, dd=dd, num_target=k)
        with contextlib.redirect_stdout(quiet):
            prob = pr.hallway_manip(robot_scale=scale, dd=dd, num_target=k)
        mon.case((i, mon.shard, scale, dd, k))
        mon.count("worlds_manip")
        mon.sample(detail)
        sizes = [prob.target_sizes[t] for t in prob.targets] if isinstance(prob.target_sizes, dict) else list(prob.target_sizes)
        mon.expect(len(prob.targets) == k == len(prob.target_init_poses) == len(prob.target_goal_poses) == len(sizes), "target-count", got=len(prob.targets), **detail)
        real = [float(tb.BODIES[t].world_shapes()[0][0].dims[0]) for t in prob.targets]
        mon.expect(np.allclose(real, sizes), "target-sizes", said=sizes, built=real, **detail)
        rmin = scale * pr.BOT_RADIUS
        mon.expect(all(rmin - 1e-12 <= r <= rmin + .1 + 1e-12 for r in real), "target-size-range", sizes=real, **detail)
        mon.expect(abs(max(real) - (rmin + .1)) < 1e-9, "largest-target", sizes=real, **detail)
        mon.expect(abs(prob.hallway_gap - (2 * max(real) + dd)) < 1e-9, "gap-said", gap=prob.hallway_gap, sizes=real, **detail)
        corridor(mon, tb, prob, 2 * max(real) + dd, **detail)
        boxes = rects(tb, prob.obstacles)
        # the rooms and the hallway are closed: a fine probe does not get out
        start = prob.init_conf.values[:2]
        grid = flood(boxes, .05, start, (-4, -1), (4, 2.5), .02)
        mon.expect(not (grid[2][0].any() or grid[2][-1].any() or grid[2][:, 0].any() or grid[2][:, -1].any()), "rooms-open", **detail)
        mon.expect(not any(tb.collide(prob.rover, o) for o in prob.obstacles), "start-collides", start=start, **detail)
        here = [pbu.get_pose(t) for t in prob.targets]
        mon.expect(all(np.allclose(h[0], p.pose[0]) for h, p in zip(here, prob.target_init_poses)), "targets-not-at-start", **detail)
        # every target at its initial and at its goal pose: in free space that the corridor joins, apart from the others
        wide = flood(boxes, .05, start, (-4, -1), (4, 2.5), .02, grow=max(real))
        for which, poses, sign in (("init", prob.target_init_poses, 1), ("goal", prob.target_goal_poses, -1)):
            for t, p in zip(prob.targets, poses):
                pbu.set_pose(t, p.pose)
            for a, t in enumerate(prob.targets):
                x, y, _ = pbu.get_point(t)
                mon.expect(sign * x > 1.5 and 0 < y < 1.5, "target-room", which=which, at=(x, y), **detail)
                mon.expect(not any(tb.collide(t, o, .01 - 1e-6) for o in prob.obstacles), "target-collides", which=which, at=(x, y), **detail)
                mon.expect(not any(tb.collide(t, u, .01 - 1e-6) for u in prob.targets[:a]), "targets-collide", which=which, at=(x, y), **detail)
                a0, a1 = (np.array(v) for v in pbu.get_aabb(t))     # motions move the box around the object
                mon.expect(not any(np.all(a0[:2] < np.array(b1[:2]) - 1e-9) and np.all(a1[:2] > np.array(b0[:2]) + 1e-9) for b0, b1 in map(pbu.get_aabb, prob.obstacles)),
                           "target-box-collides", which=which, at=(x, y), **detail)
                mon.expect(abs(pbu.get_aabb(t)[0][2]) < .01, "target-floats", which=which, bottom=pbu.get_aabb(t)[0][2], **detail)
                if dd > .1 and tb.BODIES[t].world_shapes()[0][0].dims[0] == max(real):
                    mon.expect(reaches(wide, (x, y)) or any(tb.collide(t, o, .06) for o in prob.obstacles), "target-cut-off", which=which, at=(x, y), **detail)
                    mon.count("targets_joined")
                mon.count("targets_placed")
        if mon.hurry():
            break


def world_plain(mon, tb, pbu, pr, rng):
    for i in range(mon.n(400, 4000)):
        tb.clear()
        scale, dd = float(rng.uniform(.1, .6)), float(rng.uniform(.005, .3))
        which = ("hallway", "corner")[int(rng.integers(2))]
        prob = getattr(pr, which)(robot_scale=scale, dd=dd)
        detail = dict(world=which, robot_scale=scale, dd=dd)
        mon.case((i, mon.shard, which, scale, dd))
        mon.count("worlds_" + which)
        r = pr.BOT_RADIUS * scale
        at = tb.BODIES[prob.rover].q
        mon.expect(np.allclose(at[:2], prob.init_conf.values[:2]), "robot-not-at-start", at=at, **detail)
        for c in ("init_conf", "goal_conf"):
            getattr(prob, c).assign()
            mon.expect(not any(tb.collide(prob.rover, o) for o in prob.obstacles), "end-collides", which=c, at=getattr(prob, c).values, **detail)
        boxes = rects(tb, prob.obstacles)
        if which == "hallway":
            corridor(mon, tb, prob, 2 * r + dd, **detail)
        s, g = prob.init_conf.values[:2], prob.goal_conf.values[:2]
        lo, hi = ((-4, -1), (4, 2.5)) if which == "hallway" else ((-2, -2), (2, 2))
        tight = flood(boxes, .05, s, lo, hi, .02)
        mon.expect(not (tight[2][0].any() or tight[2][-1].any() or tight[2][:, 0].any() or tight[2][:, -1].any()), "rooms-open", **detail)
        if dd > .06:
            mon.expect(reaches(flood(boxes, .05, s, lo, hi, .02, grow=r), g), "goal-cut-off", **detail)
            mon.count("goals_joined")


def world_arm(mon, tb, pbu, run, rng):
    quiet = io.StringIO()
    for i in range(mon.n(240, 2400)):
        tb.clear()
        random.seed(int(rng.integers(2 ** 31)))
        np.random.seed(int(rng.integers(2 ** 31)))
        gap = float(rng.uniform(.01, .12))
        left = [None]
        if rng.random() < .4:       # the arm reaches half of the stove only
            edge = float(rng.uniform(-.2, .2))
            tb.REACHABLE[0] = lambda pose, edge=edge: pose[0][1] > edge
            left[0] = edge
        with contextlib.redirect_stdout(quiet):
            robot, names, movable, sink_oobbs, fixed, links = run.load_world(min_gap=gap)
        quiet.truncate(0)
        quiet.seek(0)
        detail = dict(min_gap=gap, edge=left[0])
        mon.case((i, mon.shard, gap))
        mon.count("worlds_arm")
        stove = [b for b in names if names[b] == "stove"]
        bins = [b for b in names if "sink" in names[b]]
        mon.expect(len(stove) == 1 and set(fixed) == set(stove + bins), "fixed-bodies", fixed=fixed, **detail)
        mon.expect(set(names) == set(tb.BODIES) - {robot} and len(set(names.values())) == len(names), "names", names=names, **detail)
        mon.expect(len(movable) <= len(bins), "bin-per-object", objects=len(movable), bins=len(bins), **detail)
        w = max(2 * max(tb.BODIES[b].world_shapes()[0][0].dims[:2]) for b in movable)
        for b in bins:
            e = pbu.get_aabb_extent(pbu.get_aabb(b))
            mon.expect(np.allclose(e[:2], w + gap, atol=1e-9), "bin-size", extent=e, largest=w, **detail)
            mon.expect(abs(pbu.get_aabb(b)[0][2]) < 1e-9, "bin-floats", **detail)
            mon.expect(abs(e[2] - .15) < 1e-9, "bin-height", extent=e, **detail)
            # the surface that objects are put on is the bottom of the bin
            bottom = pbu.get_aabb(b, links[b])
            mon.expect(abs(bottom[0][2]) < 1e-9 and bottom[1][2] < .05 and np.allclose(pbu.get_aabb_extent(bottom)[:2], e[:2]), "bin-bottom", link=links[b], box=bottom, **detail)
        for a, b in itertools.combinations(bins, 2):
            la, lb = pbu.get_aabb(a), pbu.get_aabb(b)
            apart = np.any(np.array(la[0][:2]) >= np.array(lb[1][:2]) - 1e-9) or np.any(np.array(lb[0][:2]) >= np.array(la[1][:2]) - 1e-9)
            mon.expect(apart, "bins-overlap", a=la, b=lb, **detail)
        top = pbu.get_aabb(stove[0])
        for k, b in enumerate(movable):
            box = pbu.get_aabb(b)
            mon.expect(np.all(np.array(box[0][:2]) >= np.array(top[0][:2]) - 1e-9) and np.all(np.array(box[1][:2]) <= np.array(top[1][:2]) + 1e-9)
                       and 0 <= box[0][2] - top[1][2] < .01, "object-not-on-stove", box=box, stove=top, **detail)
            others = [o for o in fixed + movable[:k]]
            mon.expect(not any(tb.collide(b, o) for o in others), "object-collides", body=b, **detail)
            if left[0] is not None:
                mon.expect(pbu.get_point(b)[1] > left[0] - .02, "object-out-of-reach", at=pbu.get_point(b), **detail)
            mon.count("objects_placed")
        if mon.hurry():
            break


def worlds(mon):
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    pr = load("turtlebot_move", "problems")
    run = load("kuka_carry", "run")
    parts = [lambda: world_manip(mon, tb, pbu, pr, mon.rng("manip")), lambda: world_plain(mon, tb, pbu, pr, mon.rng("plain")),
             lambda: world_arm(mon, tb, pbu, run, mon.rng("arm"))]
    for p in parts:
        p()
