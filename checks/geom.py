"""Independent geometric oracles (numpy + fractions only; nothing imported from the repository)."""
from fractions import Fraction
import itertools
import numpy as np


# ---------------------------------------------------------------- narrow passage
def narrow_free(p, c, tol=0.0):
    """Is p (n x d) in the closed free space; tol>0 relaxes, tol<0 tightens."""
    p = np.atleast_2d(p)
    x, y = p[:, 0], np.abs(p[:, 1:]).max(axis=1)
    outer = (np.abs(x) <= 1.5 + tol) & (y <= 0.5 + tol)
    return outer & ((np.abs(x) >= 0.5 - tol) | (y <= c + tol))


def narrow_hits(a, b, c, grow):
    """Does the open segment/closed segment a-b meet any block {|x|<.5+grow, |x_i|>c-grow}?"""
    a, b = np.atleast_2d(a).astype(float), np.atleast_2d(b).astype(float)
    n, d = a.shape
    dx = b - a
    hit = np.zeros(n, bool)
    w = 0.5 + grow
    with np.errstate(all="ignore"):
        # t-interval with |x| < w
        x0, vx = a[:, 0], dx[:, 0]
        t1, t2 = (-w - x0) / vx, (w - x0) / vx
        lo, hi = np.minimum(t1, t2), np.maximum(t1, t2)
        still = vx == 0
        inside = np.abs(x0) < w
        lo = np.where(still, np.where(inside, -np.inf, np.inf), lo)
        hi = np.where(still, np.where(inside, np.inf, -np.inf), hi)
        lo, hi = np.maximum(lo, 0.0), np.minimum(hi, 1.0)
        k = c - grow
        for i in range(1, d):
            for s in (1.0, -1.0):
                y0, vy = s * a[:, i], s * dx[:, i]
                # y0 + t vy > k
                tc = (k - y0) / vy
                l = np.where(vy > 0, tc, np.where(vy < 0, -np.inf, np.where(y0 > k, -np.inf, np.inf)))
                h = np.where(vy > 0, np.inf, np.where(vy < 0, tc, np.where(y0 > k, np.inf, -np.inf)))
                L, H = np.maximum(l, lo), np.minimum(h, hi)
                # a single point of a zero-length motion counts as well
                hit |= (L < H)
    return hit


# ---------------------------------------------------------------- gray-code corridor
def gray(n):
    if n == 0:
        return [()]
    g = gray(n - 1)
    return [(0,) + x for x in g] + [(1,) + x for x in reversed(g)]


def corridor_cubes(dim, length):
    g = gray(dim - 1)
    out = []
    for i in range(length):
        out += [(i,) + x for x in (g if i % 2 == 0 else reversed(g))]
    return out


class Corridor:
    def __init__(self, dim, length, thickness):
        self.dim, self.length, self.h = dim, length, thickness
        self.cubes = corridor_cubes(dim, length)
        self.index = {c: i for i, c in enumerate(self.cubes)}
        self.lo, self.hi = {}, {}
        for i, c in enumerate(self.cubes):
            lo = np.array(c, float) + thickness
            hi = np.array(c, float) + 1.0 - thickness
            for j in (i - 1, i + 1):
                if 0 <= j < len(self.cubes):
                    d = np.array(self.cubes[j]) - np.array(c)
                    k = int(np.nonzero(d)[0][0])
                    if d[k] > 0:
                        hi[k] = np.inf
                    else:
                        lo[k] = -np.inf
            self.lo[c], self.hi[c] = lo, hi
        self.centers = np.array(self.cubes, float) + 0.5
        self.total = float(len(self.cubes) - 1)

    def cube_of(self, p):
        return tuple(int(v) for v in np.floor(p))

    def wall_distance(self, p):
        c = self.cube_of(p)
        return float(min(np.min(p - self.lo[c]), np.min(self.hi[c] - p)))

    def motion(self, a, b, tol):
        """True / False / None (None: within tol of a decision boundary)."""
        d = b - a
        ts = []
        for k in range(self.dim):
            if d[k] != 0.0:
                l, h = sorted((a[k], b[k]))
                for m in range(int(np.ceil(l)), int(np.floor(h)) + 1):
                    ts.append((m - a[k]) / d[k])
        # ends (or crossings of several planes at once) on cube faces are measure-zero: no verdict
        for p in (a, b):
            if np.any(np.abs(p - np.round(p)) < tol):
                return None
        ts = sorted(t for t in ts if 0.0 < t < 1.0)
        ln = max(1e-300, np.linalg.norm(d))
        cuts = [0.0] + ts + [1.0]
        if any((t2 - t1) * ln < 10 * tol for t1, t2 in zip(ts, ts[1:])):
            return None
        verdict = True
        prev = None
        for t1, t2 in zip(cuts, cuts[1:]):
            mid = a + d * ((t1 + t2) / 2)
            c = self.cube_of(mid)
            if c not in self.index:
                verdict = False
                continue
            if prev is not None and abs(self.index[c] - self.index.get(prev, -9)) != 1:
                verdict = False
            prev = c
            for t in (t1, t2):
                q = a + d * t
                m = min(np.min(q - self.lo[c]), np.min(self.hi[c] - q))
                if abs(m) < tol:
                    return None
                if m < 0:
                    verdict = False
        return verdict

    def curve(self, t):
        s = min(max(t, 0.0), 1.0) * self.total
        i = min(int(np.floor(s)), len(self.cubes) - 2)
        f = s - i
        return (1 - f) * self.centers[i] + f * self.centers[i + 1]

    def regions(self):
        """The boxes a sample may fall in: cube centres and open passages (lo, hi)."""
        return [r for _, r in self.named_regions()]

    def named_regions(self):
        out = []
        for i, c in enumerate(self.cubes):
            lo = np.array(c, float) + self.h
            hi = np.array(c, float) + 1.0 - self.h
            end = "end-" if i in (0, len(self.cubes) - 1) else ""
            out.append((end + "interior", (lo, hi)))
            if self.h > 0:
                for j in (i - 1, i + 1):
                    if 0 <= j < len(self.cubes):
                        d = np.array(self.cubes[j]) - np.array(c)
                        k = int(np.nonzero(d)[0][0])
                        l2, h2 = lo.copy(), hi.copy()
                        if d[k] > 0:
                            l2[k], h2[k] = c[k] + 1.0 - self.h, c[k] + 1.0
                        else:
                            l2[k], h2[k] = float(c[k]), c[k] + self.h
                        out.append((end + ("exit" if j > i else "entrance"), (l2, h2)))
        return out


# ---------------------------------------------------------------- exact segment intersection
def _orient(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def _on(p, q, r):
    return min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])


def seg_intersect_exact(p1, p2, p3, p4):
    P = [tuple(Fraction(float(v)) for v in p) for p in (p1, p2, p3, p4)]
    p1, p2, p3, p4 = P

    def sgn(v):
        return (v > 0) - (v < 0)
    o1, o2 = sgn(_orient(p1, p2, p3)), sgn(_orient(p1, p2, p4))
    o3, o4 = sgn(_orient(p3, p4, p1)), sgn(_orient(p3, p4, p2))
    if o1 != o2 and o3 != o4:
        # degenerate (point) segments give zero orientations everywhere; handled below
        if not (p1 == p2 or p3 == p4):
            return True
    return ((o1 == 0 and _on(p1, p2, p3)) or (o2 == 0 and _on(p1, p2, p4)) or
            (o3 == 0 and _on(p3, p4, p1)) or (o4 == 0 and _on(p3, p4, p2)))


def seg_seg_dist2(p1, p2, p3, p4):
    """Exact squared distance between two segments (Fractions)."""
    if seg_intersect_exact(p1, p2, p3, p4):
        return Fraction(0)

    def pt_seg(p, a, b):
        ab = (b[0] - a[0], b[1] - a[1])
        L = ab[0] ** 2 + ab[1] ** 2
        if L == 0:
            return (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2
        t = ((p[0] - a[0]) * ab[0] + (p[1] - a[1]) * ab[1]) / L
        t = min(Fraction(1), max(Fraction(0), t))
        return (a[0] + t * ab[0] - p[0]) ** 2 + (a[1] + t * ab[1] - p[1]) ** 2
    P = [tuple(Fraction(float(v)) for v in p) for p in (p1, p2, p3, p4)]
    p1, p2, p3, p4 = P
    return min(pt_seg(p1, p3, p4), pt_seg(p2, p3, p4), pt_seg(p3, p1, p2), pt_seg(p4, p1, p2))


# ---------------------------------------------------------------- statistics
def chi2_logsf(x, k):
    """log of the upper tail of chi-square (Wilson-Hilferty; conservative use only)."""
    import mpmath
    mpmath.mp.dps = 30
    v = mpmath.gammainc(mpmath.mpf(k) / 2, mpmath.mpf(float(x)) / 2, mpmath.inf, regularized=True)
    return float(mpmath.log(v)) if v > 0 else -1e9


def chi2_test(counts, probs):
    """(log p-value, statistic, cells) of observed counts against cell probabilities; cells with
    small expectation are pooled."""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    order = np.argsort(-probs)
    c2, p2 = [], []
    ac = ap = 0.0
    for i in order:
        if n * probs[i] >= 25:
            c2.append(counts[i]); p2.append(probs[i])
        else:
            ac += counts[i]; ap += probs[i]
    if ap > 0:
        if n * ap >= 25 or not c2:
            c2.append(ac); p2.append(ap)
        else:
            c2[-1] += ac; p2[-1] += ap
    c2, p2 = np.array(c2), np.array(p2) / np.sum(p2)
    if len(c2) < 2:
        return 0.0, 0.0, len(c2)
    x = float((((c2 - n * p2) ** 2) / (n * p2)).sum())
    return chi2_logsf(x, len(c2) - 1), x, len(c2)


ALPHA = -23.0  # log of 1e-10: a correct sampler trips one of these tests with that probability
