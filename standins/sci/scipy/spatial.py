"""Planar convex hull: corner indices in counterclockwise order, as scipy.spatial.ConvexHull gives them."""
import numpy as np


class QhullError(RuntimeError):
    pass


class ConvexHull:
    def __init__(self, points, **kw):
        self.points = np.asarray(points, float)
        if self.points.ndim != 2 or self.points.shape[1] != 2:
            raise NotImplementedError("planar hulls only")
        if len(self.points) < 3:
            raise QhullError("not enough points")
        order = sorted(range(len(self.points)), key=lambda i: (self.points[i][0], self.points[i][1]))
        P = self.points

        def cross(o, a, b):
            return (P[a][0] - P[o][0]) * (P[b][1] - P[o][1]) - (P[a][1] - P[o][1]) * (P[b][0] - P[o][0])

        def half(seq):
            out = []
            for i in seq:
                while len(out) >= 2 and cross(out[-2], out[-1], i) <= 1e-15:
                    out.pop()
                out.append(i)
            return out
        lo, up = half(order), half(order[::-1])
        self.vertices = np.array(lo[:-1] + up[:-1])
        if len(self.vertices) < 3:
            raise QhullError("flat")
        x, y = P[self.vertices].T
        self.volume = 0.5 * abs(float(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))))
