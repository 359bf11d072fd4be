"""Exact stand-in for kgraph (absent here): neighbours exclude the point itself, distances are half squared
Euclidean, and the text form holds one line per point after a line with the number of points.  Up to L
neighbours are kept, as in the library, so lines may be longer than K."""
import os

import numpy as np

STATS = {"builds": 0, "saves": 0}
LOG = []


class KGraph:
    def __init__(self, data, metric):
        data = np.asarray(data)
        if metric != "euclidean":
            raise RuntimeError("unknown metric")
        if data.ndim != 2 or data.shape[1] % 4:
            raise RuntimeError("dimension has to be a multiple of four")
        self._x = data.astype(np.float32).astype(np.float64)
        self._g = None

    def build(self, iterations=30, L=100, delta=0.002, recall=0.99, K=25, prune=0, reverse=0, S=10, seed=1998, **kw):
        STATS["builds"] += 1
        n = len(self._x)
        keep = min(max(L, K), n - 1)
        d2 = ((self._x[:, None, :] - self._x[None, :, :]) ** 2).sum(axis=2)
        np.fill_diagonal(d2, np.inf)
        order = np.argsort(d2, axis=1, kind="stable")[:, :keep]
        self._g = (order, np.take_along_axis(d2, order, axis=1) / 2)

    def save_text(self, path):
        STATS["saves"] += 1
        LOG.append(os.fspath(path))
        order, half = self._g
        with open(path, "w") as f:
            f.write("%d\n" % len(order))
            for ids, ds in zip(order, half):
                f.write("%d" % len(ids))
                for i, d in zip(ids, ds):
                    f.write(" %d %s" % (i, repr(float(np.float32(d)))))
                f.write("\n")
