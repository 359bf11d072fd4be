"""Polygon sampler (C12, C13) and segment intersection (C14)."""
import itertools
from fractions import Fraction
import numpy as np
from checks import geom
from checks.geom import ALPHA
from nonasymptotic.sampler import random_point_in_mpolygon
from nonasymptotic.util import detect_intersect
from shapely.geometry import Polygon, MultiPolygon, Point, box
from shapely import affinity, unary_union
import shapely


def star(rng, n, r=1.0, jag=.6):
    ang = np.sort(rng.uniform(0, 2 * np.pi, n))
    while np.min(np.diff(np.concatenate([ang, [ang[0] + 2 * np.pi]]))) < .08 or np.max(np.diff(np.concatenate([ang, [ang[0] + 2 * np.pi]]))) > 3.0:
        ang = np.sort(rng.uniform(0, 2 * np.pi, n))
    rad = r * (1 - jag * rng.random(n))
    return Polygon(np.column_stack([rad * np.cos(ang), rad * np.sin(ang)]))


def ngon(rng, x, y, r):
    """A polygon around (x, y) between the radii .6 r and r, and the radius of a circle inside it."""
    n = int(rng.integers(5, 9))
    ang = 2 * np.pi * (np.arange(n) + rng.uniform(-.15, .15, n)) / n + rng.uniform(0, 7)
    rad = r * rng.uniform(.8, 1, n)
    inner = .8 * r * np.cos(np.pi * 1.3 / n)
    return np.column_stack([x + rad * np.cos(ang), y + rad * np.sin(ang)])[:: int(rng.choice([1, -1]))], inner


PLACES = {1: (0., .9), 2: (.5, .42), 3: (.53, .4), 4: (.6, .35)}


def spots(rng, x, y, r, most):
    n = int(rng.integers(0, most + 1))
    if not n:
        return []
    off, size = PLACES[n]
    a = rng.uniform(0, 7)
    return [(x + off * r * np.cos(a + 2 * np.pi * k / n), y + off * r * np.sin(a + 2 * np.pi * k / n), size * r * rng.uniform(.6, 1)) for k in range(n)]


def region(rng, x, y, r, depth):
    """Parts of a region with holes, islands in holes, holes in islands, ..."""
    shell, inner = ngon(rng, x, y, r)
    holes, parts = [], []
    for hx, hy, hr in spots(rng, x, y, inner, 4 if depth > 1 else 3):
        h, hin = ngon(rng, hx, hy, hr)
        holes.append(h)
        if depth:
            for ix, iy, ir in spots(rng, hx, hy, hin, 3):
                parts += region(rng, ix, iy, ir, depth - 1)
    return [Polygon(shell, holes)] + parts


def touching(rng, k=None):
    """Valid shapes whose rings meet in single points."""
    k = int(rng.integers(5)) if k is None else k
    if k == 0:      # cells of one colour of a chess board: they meet at corners and may enclose gaps
        n = int(rng.integers(2, 6)) if rng.random() < .7 else int(rng.integers(6, 12))
        cells = [(i, j) for i in range(n) for j in range(n) if (i + j) % 2 == int(n > 3) and rng.random() < .85]
        return MultiPolygon([box(i, j, i + 1, j + 1) for i, j in cells]), "chess"
    w = rng.uniform(.2, .8, 4)
    if k == 1:      # an island that touches the border of its hole twice, and so splits it
        isl = Polygon([(1, 3), (3, 3 - w[0]), (5, 3), (3, 3 + w[1])])
        return MultiPolygon([Polygon(box(0, 0, 6, 6).exterior, [box(1, 1, 5, 5).exterior]), isl][:: int(rng.choice([1, -1]))]), "split-hole"
    if k == 2:      # holes that meet in a corner
        return Polygon(box(0, 0, 6, 6).exterior, [box(1, 1, 3, 3).exterior, box(3, 3, 5, 3 + 2 * w[0]).exterior]), "holes-meet"
    if k == 3:      # a hole that touches the outer border
        return Polygon(box(0, 0, 6, 6).exterior, [[(0, 3), (2, 3 - w[0]), (2 + w[1], 3 + w[2])]]), "hole-at-border"
    # a closed ring of parts around a gap
    n = int(rng.integers(3, 7))
    c = np.column_stack([np.cos(2 * np.pi * np.arange(n) / n), np.sin(2 * np.pi * np.arange(n) / n)])
    return MultiPolygon([Polygon([c[i], c[(i + 1) % n], (c[i] + c[(i + 1) % n]) * rng.uniform(.8, 1.5)]) for i in range(n)]), "ring-of-parts"


def fine(rng, k=None):
    """Valid shapes of many small things: a sieve of holes, a crowd of crumbs, a finely toothed edge."""
    k = int(rng.integers(4)) if k is None else k
    if k == 0:      # a sieve, its holes of different sizes
        n = int(rng.integers(2, 7))
        return Polygon(box(0, 0, n, n).exterior, [ngon(rng, i + .5, j + .5, rng.uniform(.15, .45))[0] for i in range(n) for j in range(n)
                                                  if rng.random() < .9]), "sieve"
    if k == 1:      # a large part, and many crumbs that together are as large
        n = int(rng.integers(4, 9))
        w = rng.uniform(.2, .9, (n, n))
        parts = [box(-n * .8, 0, 0, n * .8)] + [box(1 + i, j, 1 + i + w[i, j], j + w[i, j]) for i in range(n) for j in range(n)]
        return MultiPolygon([parts[i] for i in rng.permutation(len(parts))]), "crumbs"
    if k == 2:      # a comb: a bar with many thin teeth
        n = int(rng.integers(8, 40))
        t = rng.uniform(.2, .7)
        pts = [(n, 0), (0, 0)]
        for i in range(n):
            h = rng.uniform(1, 4)
            pts += [(i, .5), (i, .5 + h), (i + t, .5 + h), (i + t, .5)]
        return Polygon(pts), "comb"
    n = int(rng.integers(270, 330) if rng.random() < .6 else rng.integers(60, 150))      # a ring, finely discretised
    a = 2 * np.pi * np.arange(n) / n
    r = 1 + .05 * rng.random(n)
    return Polygon(np.column_stack([r * np.cos(a), r * np.sin(a)]), [np.column_stack([.8 * np.cos(a), .8 * np.sin(a)])]), "fine-ring"


KINDS = [(u, None) for u in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10)] + [(8, k) for k in range(5)] + [(11, k) for k in range(4)]


def shape(rng, most=150, kind=None):
    """A valid polygon or multipolygon: convex, concave, with holes, several parts, nested parts."""
    given, (u, k) = most, kind or (int(rng.integers(12)), None)
    if u == 11:
        most = 5000
    if u == 0:
        g, name = star(rng, int(rng.integers(3, 5)), jag=.3), "simple"
    elif u == 1:
        g, name = star(rng, int(rng.integers(6, 14))), "concave"
    elif u == 2:
        g, name = box(-2, -2, 2, 2).difference(star(rng, 7, 1.2)), "hole"
    elif u == 3:
        g = box(-3, -3, 3, 3)
        for cx, cy in ((-1.5, -1.5), (1.5, 1.5), (1.4, -1.6)):
            g = g.difference(affinity.translate(star(rng, 6, 1.0), cx, cy))
        name = "holes"
    elif u == 4:
        g, name = MultiPolygon([affinity.translate(star(rng, 6), 0, 0), affinity.translate(star(rng, 5), 4, 1)]), "parts"
    elif u == 5:
        a = box(-4, -4, 4, 4).difference(box(-3, -3, 3, 3))
        b = box(-2, -2, 2, 2).difference(star(rng, 6, 1.0))
        g, name = MultiPolygon([a, b]), "nested"
    elif u == 6:
        a = box(-6, -4, 4, 4).difference(box(-3, -3, 3, 3)).difference(box(-5.5, -1, -3.5, 1))
        b = star(rng, 8, 2.0)
        c = affinity.translate(star(rng, 5, 1.0), 8, 0)
        g, name = MultiPolygon([a, b, c]), "nested+parts"
    elif u == 7:
        w = float(rng.choice([.02, .1]))
        g, name = Polygon([(0, 0), (5, 0), (5, 3), (0, 3), (0, 3 - w), (5 - w, 3 - w), (5 - w, w), (0, w)]), "thin"
    elif u == 8:
        g, name = touching(rng, k)
        most = max(most, 400)
    elif u == 11:
        g, name = fine(rng, k)
    else:
        parts = []
        for k in range(int(rng.integers(1, 4))):
            parts += region(rng, 5. * k, 0., 2.3 * rng.uniform(.3, 1), int(rng.integers(3)))
        g = parts[0] if len(parts) == 1 and rng.random() < .5 else MultiPolygon([parts[i] for i in rng.permutation(len(parts))])
        name = "compound"
    ang = float(rng.uniform(0, 360)) if rng.random() < .7 else 0.0
    g = affinity.rotate(g, ang, origin=(0, 0))
    sc = float(rng.choice([1, 1, 1, .05, 30]))
    g = affinity.scale(g, sc, sc, origin=(0, 0))
    dx, dy = [(0, 0), (0, 0), (50, -20), (-100, -100), (-99, -101), (-1000, -1000), (1000, 300)][int(rng.integers(7))]
    g = affinity.translate(g, dx, dy)
    if not g.is_valid or g.area <= 0 or shapely.get_num_coordinates(g) > most:
        return shape(rng, given, kind)
    return g, {"kind": name, "rotate": ang, "scale": sc, "translate": (dx, dy), "wkt": g.wkt if len(g.wkt) < 1500 else g.wkt[:1500]}


def member(mon):
    rng = mon.rng("member")
    for r in range(mon.n(900, 16000)):
        if mon.hurry():
            break
        g, what = shape(rng, 150, None if r % 2 else KINDS[(r // 2 * mon.nshards + mon.shard) % len(KINDS)])
        seed = int(rng.integers(1 << 40))
        gen = np.random.default_rng(seed)
        tol = 1e-9 * max(1.0, np.abs(np.array(g.bounds)).max())
        before = g.wkb
        mon.journal(call="random_point_in_mpolygon", **what)
        for k in range(6):
            p = None
            with mon.guard("sampler-raises", shape=what, seed=seed):
                p = random_point_in_mpolygon(g, rng=gen)
            if p is None:
                break
            mon.case((what["wkt"], k, seed), nontrivial=what["kind"] != "simple")
            mon.count("points_" + what["kind"])
            if g.distance(p) > tol:
                mon.violate("point-outside-polygon", shape=what, seed=seed, point=(p.x, p.y), distance=g.distance(p))
        if what["translate"] in ((-100, -100), (-99, -101)) and g.covers(Point(-100, -100)):
            mon.count("covers_sentinel_location")
        mon.expect(g.wkb == before, "polygon-mutated", shape=what)
        mon.sample({"shape": what["kind"], "translate": what["translate"]}, 2)
    with mon.guard("sampler-raises", shape="default generator"):
        g = box(0, 0, 1, 1)
        p = random_point_in_mpolygon(g)
        mon.expect(g.distance(p) == 0, "point-outside-polygon", shape="unit square, default generator")


def poly_uniform(mon):
    rng = mon.rng("polyuniform")
    shapes = mon.n(56, 200)
    most = 1800 if mon.tier == "quick" else 6000
    for r in range(shapes):
        if mon.hurry():
            mon.count("stopped_early")
            break
        g, what = shape(rng, 70, KINDS[(r * mon.nshards + mon.shard) % len(KINDS)])
        seed = int(rng.integers(1 << 40))
        gen = np.random.default_rng(seed)
        P = None
        # fewer draws where each is slow
        n = max(most // (1 + shapely.get_num_coordinates(g) // 70 + 2 * sum(len(q.interiors) for q in getattr(g, "geoms", [g])) // 6), 320)
        mon.journal(call="random_point_in_mpolygon", **what)
        with mon.guard("sampler-raises", shape=what, seed=seed):
            P = np.array([random_point_in_mpolygon(g, rng=gen).coords[0] for _ in range(n)])
        if P is None:
            continue
        x0, y0, x1, y1 = g.bounds
        for k in (4, 9):
            xs, ys = np.linspace(x0, x1, k + 1), np.linspace(y0, y1, k + 1)
            area = np.array([[box(xs[i], ys[j], xs[i + 1], ys[j + 1]).intersection(g).area for j in range(k)] for i in range(k)])
            ci = np.clip(np.searchsorted(xs, P[:, 0], side="right") - 1, 0, k - 1)
            cj = np.clip(np.searchsorted(ys, P[:, 1], side="right") - 1, 0, k - 1)
            cnt = np.bincount(ci * k + cj, minlength=k * k)
            pr = area.ravel() / area.sum()
            empty = pr <= 1e-12
            if (cnt[empty] > 0).sum() > 2:
                mon.violate("mass-where-no-area", shape=what, seed=seed)
            lp, x, cells = geom.chi2_test(cnt[~empty], pr[~empty])
            mon.case((what["wkt"], seed, k))
            mon.count("tests"); mon.count("cells", cells); mon.peak("neg_log_p", -lp)
            if lp < ALPHA:
                mon.violate("not-uniform", shape=what, seed=seed, grid=k, log_p=lp, statistic=x, cells=cells)
        # by the size of the pieces of a triangulation: small ones are as likely, for their area, as large ones
        pieces = shapely.intersection(shapely.get_parts(shapely.delaunay_triangles(g)), g)
        size = shapely.area(pieces)
        pieces, size = pieces[np.argsort(size)], np.sort(size)
        if len(pieces) >= 4 and abs(size.sum() - g.area) < 1e-9 * g.area:
            tree = shapely.STRtree(pieces)
            at, piece = tree.query(shapely.points(P), predicate="intersects")
            home = np.full(len(P), -1)
            home[at] = piece
            mass = np.cumsum(size) / size.sum()
            for cut in (np.minimum((np.arange(len(pieces)) * 8) // len(pieces), 7), np.minimum((mass * 8).astype(int), 7)):
                cnt = np.bincount(cut[home[home >= 0]], minlength=8)
                pr = np.bincount(cut, weights=size, minlength=8) / size.sum()
                keep = pr > 1e-12
                lp, x, cells = geom.chi2_test(cnt[keep], pr[keep])
                mon.case((what["wkt"], seed, "pieces", len(pieces)))
                mon.count("tests"); mon.count("piece_tests"); mon.peak("neg_log_p", -lp)
                if lp < ALPHA:
                    mon.violate("small-pieces-not-by-area", shape=what, seed=seed, counts=cnt, expected=pr * n, log_p=lp)
        parts = list(getattr(g, "geoms", [g]))
        if len(parts) > 1:
            cnt = np.array([shapely.covers(q.buffer(1e-9 * max(1, abs(x0), abs(y0))), shapely.points(P)).sum() for q in parts])
            pr = np.array([q.area for q in parts]) / g.area
            lp, x, cells = geom.chi2_test(cnt, pr)
            mon.case((what["wkt"], seed, "parts"))
            mon.count("tests")
            if lp < ALPHA:
                mon.violate("parts-not-by-area", shape=what, seed=seed, counts=cnt, expected=pr * n, log_p=lp)
        mon.count("points", n)
        mon.count("shapes_" + what["kind"])
        mon.sample({"shape": what["kind"], "points": n, "last_log_p": lp}, 3)


# ------------------------------------------------------------------------------- C14
def intersect(mon):
    rng = mon.rng("intersect")
    for r in range(mon.n(2400, 48000)):
        if mon.hurry():
            break
        n = int(rng.integers(1, 30)) if r % 200 else int(rng.choice([300, 2000]))
        mode = int(rng.integers(6))
        if mode == 5:        # misses and hits by a hair, where the coordinates are exact
            m = float(2.0 ** -rng.integers(3, 41))
            S = np.zeros((4, n, 2))
            x, y = rng.integers(-4, 5, n) / 4, rng.integers(-4, 5, n) / 4
            ln, off = rng.integers(1, 9, n) / 4, rng.integers(-1, 2, n) * m
            S[0] = np.stack([x, y], 1); S[1] = np.stack([x + ln, y], 1)
            end = rng.random(n) < .5
            f = np.where(end, np.where(rng.random(n) < .5, x - off, x + ln + off), x + ln / 2)     # past an end of the first, or
            e = np.where(end, -.5, off)                                                          # an end of the second short of it
            S[2] = np.stack([f, y + e], 1); S[3] = np.stack([f, y + rng.integers(1, 5, n) / 4], 1)
            if rng.random() < .5:
                S = S[..., ::-1].copy()
            if rng.random() < .5:
                S = S * -1.0
            for k in (0, 2):
                sw = rng.random(n) < .5
                S[k][sw], S[k + 1][sw] = S[k + 1][sw].copy(), S[k][sw].copy()
        elif mode == 0:        # small integer grid: every degenerate configuration occurs
            m = int(rng.choice([1, 2, 3, 5]))
            S = rng.integers(-m, m + 1, (4, n, 2)).astype(float)
        elif mode == 1:      # dyadic grid
            S = rng.integers(-64, 65, (4, n, 2)) / float(rng.choice([8, 64, 1024]))
        elif mode == 2:      # collinear by construction (integer multiples of one direction)
            base, dv = rng.integers(-5, 6, (1, n, 2)), rng.integers(-3, 4, (1, n, 2))
            S = (base + dv * rng.integers(-6, 7, (4, n, 1))).astype(float)
        elif mode == 3:      # T-junctions and shared endpoints on integers
            S = rng.integers(-6, 7, (4, n, 2)).astype(float)
            S[2] = S[0] + 2 * (S[1] - S[0]) // 2
            sw = rng.random(n) < .4
            S[2][sw] = S[0][sw]
        else:                # continuous
            S = rng.uniform(-1, 1, (4, n, 2)) * 10.0 ** rng.uniform(-2, 2)
        if mode < 4 and rng.random() < .4:      # on other scales (exactly), and elsewhere
            S = S * 2.0 ** int(rng.integers(-40, 41)) if rng.random() < .6 else (S * 1024 + rng.integers(-2 ** 16, 2 ** 16, 2) * 16)
            mon.count("rescaled", n)
        S0 = S.copy()
        shared = mode != 3 and rng.random() < .35     # one wall against a batch, as the environments do
        if shared:
            c, e = S[2][:1], S[3][:1]
            S[2], S[3] = c, e
            S0 = S.copy()
        want = np.array([geom.seg_intersect_exact(S[0, i], S[1, i], S[2, i], S[3, i]) for i in range(n)])
        if mode == 4:
            use = np.array([not want[i] and geom.seg_seg_dist2(*S[:, i]) > Fraction(1, 10 ** 18) * Fraction(float(np.abs(S).max())) ** 2 or
                            want[i] and robust_hit(S[:, i]) for i in range(n)])
        else:
            use = np.ones(n, bool)
        got = None
        with mon.guard("intersect-raises", segments=S[:, :3], mode=mode):
            if shared:
                got = detect_intersect(S[0], S[1], S[2][:1], S[3][:1])
                if rng.random() < .3:
                    g1 = detect_intersect(S[0], S[1], S[2][0], S[3][0])
                    mon.expect(np.array_equal(np.asarray(got), np.asarray(g1)), "flat-wall-differs")
                if rng.random() < .3:
                    g1 = detect_intersect(S[2][0], S[3][0], S[0], S[1])
                    g2 = [np.asarray(detect_intersect(S[2][0], S[3][0], S[0][k], S[1][k])).reshape(-1) for k in range(min(n, 4))]
                    mon.expect(np.array_equal(np.asarray(g1), np.asarray(detect_intersect(S[2][:1], S[3][:1], S[0], S[1])))
                               and np.array_equal(np.concatenate(g2), np.asarray(g1)[:4]), "flat-segment-differs")
                    mon.count("flat")
                if rng.random() < .3:
                    g1 = detect_intersect(S[2][:1], S[3][:1], S[0], S[1])
                    bad = np.nonzero((np.asarray(g1) != np.asarray(got)) & use)[0]
                    mon.expect(not len(bad), "not-symmetric", segments=S[:, bad[:1]])
            else:
                got = detect_intersect(S[0], S[1], S[2], S[3])
        if got is None:
            continue
        got = np.asarray(got)
        if not mon.expect(got.shape == (n,), "shape", got=got.shape, n=n):
            continue
        got = got.astype(bool)
        for i in np.nonzero(use & (got != want))[0][:3]:
            col = abs(geom._orient(*[tuple(Fraction(float(v)) for v in S[k, i]) for k in (0, 1, 2)])) == 0
            mon.violate("false-intersection" if got[i] else "missed-intersection", segment1=[S[0, i], S[1, i]],
                        segment2=[S[2, i], S[3, i]], reported=got[i], actual=want[i], mode=mode)
        mon.count("crossing", int((use & want).sum())); mon.count("apart", int((use & ~want).sum()))
        mon.count("mode_%d" % mode, n)
        mon.expect(np.array_equal(S, S0), "input-mutated")
        # invariance under reversing / exchanging the segments
        with mon.guard("intersect-raises", segments=S[:, :3], mode=mode):
            for perm in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
                g2 = np.asarray(detect_intersect(*[S[k] for k in perm])).astype(bool)
                bad = np.nonzero((g2 != want) & use)[0]
                if len(bad):
                    mon.violate("false-intersection" if g2[bad[0]] else "missed-intersection", order=perm,
                                segment1=[S[perm[0], bad[0]], S[perm[1], bad[0]]], segment2=[S[perm[2], bad[0]], S[perm[3], bad[0]]],
                                reported=g2[bad[0]], actual=want[bad[0]], mode=mode)
        mon.cases(S.transpose(1, 0, 2).reshape(n, 8), use)
        mon.sample({"mode": mode, "segments": S[:, 0], "intersect": want[0]}, 3)


def robust_hit(s):
    """Crossing that survives a relative perturbation of 1e-9 of any endpoint."""
    s = np.asarray(s, float)
    sc = np.abs(s).max()

    def o(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    a, b, c, d = s
    eps = 1e-9 * sc * sc
    return all(abs(v) > eps for v in (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)))
