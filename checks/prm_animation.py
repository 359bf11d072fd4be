"""Animations of roadmaps (C53): every frame of real animations is looked at by a writer of the monitor's own."""
import os
import random
import shutil
import tempfile
from collections import Counter
from types import SimpleNamespace

import numpy as np
from checks import prm_checks
from checks.prm_model import World, edges_of


class Moved(World):
    """The same world elsewhere and larger, so that coordinates are not confined to the unit square."""

    def __init__(self, rng, **kw):
        self.at, self.size = np.round(rng.uniform(-6, 4, 2), 3), float(rng.choice([.3, 1, 2.5, 9]))
        super().__init__(rng, dim=2, **kw)

    def sample(self):
        return super().sample() * self.size + self.at

    def valid(self, a, b):
        return super().valid((a - self.at) / self.size, (b - self.at) / self.size)

    def dist_to_path(self, pts):
        return super().dist_to_path((np.atleast_2d(pts) - self.at) / self.size)


def key(p, q):
    p, q = tuple(float(v) for v in p), tuple(float(v) for v in q)
    return (p, q) if p <= q else (q, p)


def look(fig):
    """All points and all segments on the figure, with their colours."""
    import matplotlib.colors as mc
    import matplotlib.collections as cl
    pts, segs = [], []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, cl.LineCollection):
                col = [tuple(v) for v in np.atleast_2d(mc.to_rgba_array(c.get_color()))[:, :3]]
                for k, s in enumerate(c.get_segments()):
                    segs += [(key(s[j], s[j + 1]), col[k % len(col)]) for j in range(len(s) - 1)]
            else:
                fc = c.get_facecolor()
                for k, o in enumerate(np.asarray(c.get_offsets()).reshape(-1, 2)):
                    pts.append((tuple(float(v) for v in o), tuple(fc[k % len(fc)][:3]) if len(fc) else None))
        for l in ax.get_lines():
            xy, col = l.get_xydata(), mc.to_rgba(l.get_color())[:3]
            segs += [(key(xy[j], xy[j + 1]), col) for j in range(len(xy) - 1) if np.isfinite(xy[j:j + 2]).all()]
    return pts, segs


def make_writer(frames):
    import matplotlib.animation as an

    class Looker(an.AbstractMovieWriter):
        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi = fig, outfile, dpi or 100

        def grab_frame(self, **kw):
            frames.append(look(self.fig))

        def finish(self):
            pass
    return Looker(fps=10)


def judge(mon, frames, fig, x, edges, sol, detail):
    xs = Counter(tuple(float(v) for v in p) for p in x)
    es = Counter(key(x[a], x[b]) for a, b in edges)
    ps = [key(sol[i], sol[i + 1]) for i in range(len(sol) - 1)]
    whole = es + Counter(ps)
    before = [Counter(), Counter()]
    plain = None
    order = []
    for i, (pts, segs) in enumerate(frames):
        now = Counter(p for p, _ in pts), Counter(s for s, _ in segs)
        if not (mon.expect(not now[0] - xs, "point-not-a-sample", frame=i, points=list((now[0] - xs))[:3], **detail)
                and mon.expect(not now[1] - whole, "segment-not-of-the-roadmap", frame=i, segments=list((now[1] - whole))[:3], **detail)
                and mon.expect(not before[0] - now[0] and not before[1] - now[1], "disappears", frame=i, **detail)):
            return
        new = now[1] - before[1]
        if sum(before[1].values()) == 0 and sum(new.values()):
            mon.expect(now[0] == xs, "edges-before-samples", frame=i, shown=sum(now[0].values()), total=len(x), **detail)
            plain = segs[0][1] if es else None
        if sum(before[1].values()) < sum(es.values()):
            pass                # still connecting: nothing but edges
        else:
            order += list(new.elements())
        before = list(now)
    pts, segs = frames[-1]
    mon.expect(before[0] == xs, "samples-missing", shown=sum(before[0].values()), total=len(x), **detail)
    mon.expect(before[1] == whole, "segments-missing", missing=list((whole - before[1]).elements())[:3], shown=sum(before[1].values()), edges=len(edges), path=len(ps), **detail)
    if len(sol):
        if plain is not None and ps:
            other = Counter(s for s, c in segs if c != plain)
            mon.expect(not Counter(ps) - other, "path-not-marked", unmarked=list(Counter(ps) - other)[:3], **detail)
            mon.expect(not other - Counter(ps), "edge-marked-as-path", marked=list(other - Counter(ps))[:3], **detail)
        if sum(es.values()):
            mon.expect(order == ps, "path-order", drawn=order[:5], wanted=ps[:5], **detail)
        mon.count("paths_followed", bool(ps))
    else:
        cols = {c for _, c in segs} | {c for _, c in pts}
        first = {c for _, c in frames[0][0]}
        mon.expect(len(cols) == 1 and (not first or cols != first), "failure-not-marked", colours=sorted(map(str, cols)), at_first=sorted(map(str, first)), **detail)
        mon.count("failures_marked")
    for ax in fig.axes:
        (a, b), (c, d) = ax.get_xlim(), ax.get_ylim()
        ok = a < x[:, 0].min() and b > x[:, 0].max() and c < x[:, 1].min() and d > x[:, 1].max()
        mon.expect(ok, "outside-the-view", xlim=(a, b), ylim=(c, d), lo=x.min(0), hi=x.max(0), **detail)
    mon.expect(len(fig.axes) == 1, "axes", number=len(fig.axes), **detail)
    mon.count("frames_seen", len(frames))
    mon.count("edges_drawn", len(edges))


def animations(mon):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    prm_checks.load(mon)
    import nonasymptotic.prm as P
    keep = FigureCanvasAgg.draw_idle, FigureCanvasAgg.draw
    for i in range(mon.n(400, 6000)):
        if mon.hurry():
            break
        rng = mon.rng("animate", i)
        w = Moved(rng, seed=int(rng.integers(2 ** 31)))
        big = i % 45 == 44
        R = prm_checks.Roadmap(rng, w, kind=str(rng.choice(["nn", "nn-plain"] if big else ["nn", "nn-plain", "radius"])),
                               params={"k": int(rng.integers(1, 5)), "r": 0, "cap": 0} if big else None)
        n = int(rng.choice([2, 3, int(rng.integers(4, 40)), int(rng.integers(4, 40)), int(rng.integers(40, 80))]))
        if big:
            n = int(rng.integers(600, 1700))
        R.grow(n)
        for _ in range(int(rng.integers(0, 3))):
            if rng.random() < .5:
                n += int(rng.integers(1, 12))
                R.grow(n)
            s, t = rng.uniform(0, 1, (2, 2)) * w.size + w.at
            R.prm.query_best_solution(s, t)
        s, t = rng.uniform(0, 1, (2, 2)) * w.size + w.at
        _, sol = R.prm.query_best_solution(s, t)
        if len(sol) and rng.random() < .7:
            sol = np.concatenate([[s], sol, [t]])
        if len(sol) and rng.random() < .5:
            sol = np.asarray(sol).tolist()
        e, _ = edges_of(R.prm.prm_graph)
        edges = [tuple(k) for k in e]
        x = np.array(R.prm.prm_samples)
        nb = int(rng.choice([1, 5, 50, 1000, max(1, n // 2), n]))
        eb = int(rng.choice([1, 5, 100, 1000, max(1, len(edges) // 2), max(1, len(edges))]))
        if len(edges) / eb > 150:
            eb = max(eb, len(edges) // 20)
        if n > 500:
            nb, eb = max(nb, n // int(rng.integers(2, 40))), max(eb, len(edges) // 6 + 1)
            mon.peak("samples", n)
            mon.peak("edges", len(edges))
        limit = None if rng.random() < .5 else int(2 ** rng.integers(10, 50))
        detail = dict(roadmap=R.kind, samples=n, edges_expected=len(edges), path_points=len(sol), node_batches=nb, edge_batches=eb)
        was = matplotlib.rcParams["animation.embed_limit"]
        frames = []
        FigureCanvasAgg.draw_idle = lambda self, *a, **k: None
        try:
            with mon.guard("animation-fails"):
                kw = {} if rng.random() < .1 else dict(node_batches=nb, edge_batches=eb, interval=50)
                ani = P.animate_knn_prm(R.prm, sol, animation_embed_limit=limit, **kw)
                ani.save("unused", writer=make_writer(frames))
                fig = ani._fig
                mon.expect(matplotlib.rcParams["animation.embed_limit"] == (was if limit is None else limit), "embed-limit", given=limit, now=matplotlib.rcParams["animation.embed_limit"])
                if mon.expect(len(frames) > 1, "frames", number=len(frames), **detail):
                    judge(mon, frames, fig, x, edges, sol, detail)
                e2, _ = edges_of(R.prm.prm_graph)
                mon.expect(e2 == e and np.array_equal(R.prm.prm_samples, x), "roadmap-changed", **detail)
        finally:
            FigureCanvasAgg.draw_idle = keep[0]
            matplotlib.rcParams["animation.embed_limit"] = was
            plt.close("all")
        mon.case((R.kind, n, len(edges), nb, eb, x.tobytes()), bool(edges))
        mon.sample(detail, 1)
        mon.count("without_edges", not edges)
        mon.count("animations")
    recorded(mon, plt)


def recorded(mon, plt):
    """Motion streams asked to animate: one file per plan, and the plan they would have given anyway."""
    import tinybullet as tb
    import pybullet_tools.utils as pbu
    from PIL import Image
    from checks.tamp_load import load
    from checks.tamp_streams import conf, free_point, footprint, make_room
    from checks.tamp_motion import Planar, flat
    st = load("turtlebot_move", "streams")
    for i in range(mon.n(24, 160)):
        if mon.hurry():
            break
        rng = mon.rng("recorded", i)
        tb.clear()
        rover = pbu.load_model(pbu.TURTLEBOT_URDF, scale=float(rng.uniform(.15, .3)))
        obj = pbu.create_box(*rng.uniform(.08, .2, 2), .1)
        holding = bool(rng.random() < .5)
        fp = footprint(pbu, obj if holding else rover)
        gap = None if rng.random() < .4 else float(2 * fp.max() * 3)
        obstacles = make_room(rng, pbu, gap)
        oracle = Planar(fp, [flat(pbu, pbu.get_oobb(o)) for o in obstacles])
        s, g = free_point(rng, oracle, [-.9, -.9], [-.15, .9]), free_point(rng, oracle, [.15, -.9], [.9, .9])
        if s is None or g is None:
            continue
        lo = int(rng.integers(4, 9))
        hi = int(rng.integers(lo, 16))
        problem = SimpleNamespace(obstacles=obstacles, hallway_gap=.5, init_conf=None)
        args = (rover, conf(tuple(s), (7, 8)), conf(tuple(g), (5, 6))) + ((obj,) if holding else ())
        got = []
        d = tempfile.mkdtemp(dir=mon.scratch)
        detail = dict(start_samples=lo, end_samples=hi, holding=holding, gap=gap)
        with mon.guard("stream-fails-to-animate"):
            for animate in (False, True):
                tb.BODIES[rover].q[:2] = [0, 0]
                random.seed(3)
                np.random.seed(3)
                fn = st.get_anytime_motion_fn(problem, teleport=True, start_samples=lo, end_samples=hi, factor=1.5, adaptive_n=False, holding=holding, animate=animate, save_dir=d)
                out = fn(*args)
                got.append(None if out is None else [tuple(q.values) for q in out[0].path])
                files = sorted(os.listdir(d))
                mon.expect(len(files) == (1 if animate else 0), "animation-files", files=files, animate=animate, **detail)
            mon.expect(got[0] == got[1], "animation-changes-plan", plain=str(got[0])[:200], animated=str(got[1])[:200], **detail)
            for f in files:
                im = Image.open(os.path.join(d, f))
                mon.expect(im.format == "GIF" and getattr(im, "n_frames", 1) >= 2, "not-an-animation", file=f, frames=getattr(im, "n_frames", 1), **detail)
                mon.count("files_played")
            mon.count("recorded_solved" if got[1] else "recorded_unsolved")
        mon.case(("recorded", i, mon.shard, s.tobytes()))
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    tb.clear()
