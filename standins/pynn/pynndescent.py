"""Exact stand-in for pynndescent (absent here): a point is its own first neighbour, distances are float32,
missing neighbours are -1 at infinite distance, update() appends points."""
import numpy as np

STATS = {"builds": 0, "updates": 0}


class NNDescent:
    def __init__(self, data, metric="euclidean", metric_kwds=None, n_neighbors=30, n_trees=None, leaf_size=None,
                 pruning_degree_multiplier=1.5, diversify_prob=1.0, tree_init=True, init_graph=None, init_dist=None,
                 random_state=None, low_memory=True, max_candidates=None, n_iters=None, delta=0.001, n_jobs=None,
                 compressed=False, parallel_batch_queries=False, verbose=False, **kw):
        assert metric == "euclidean"
        self.n_neighbors = int(n_neighbors)
        self._raw_data = np.asarray(data).astype(np.float32)
        self._build()

    def _build(self):
        STATS["builds"] += 1
        x = self._raw_data.astype(np.float64)
        n, k = len(x), self.n_neighbors
        d2 = ((x[:, None, :] - x[None, :, :]) ** 2).sum(axis=2)
        np.fill_diagonal(d2, -1.0)          # the point itself comes first
        order = np.argsort(d2, axis=1, kind="stable")[:, :k]
        np.fill_diagonal(d2, 0.0)
        dist = np.sqrt(np.take_along_axis(d2, order, axis=1))
        ind = np.full((n, k), -1, dtype=np.int32)
        dis = np.full((n, k), np.inf, dtype=np.float32)
        ind[:, :order.shape[1]] = order
        dis[:, :order.shape[1]] = dist
        self._neighbor_graph = (ind, dis)

    @property
    def neighbor_graph(self):
        return self._neighbor_graph[0].copy(), self._neighbor_graph[1].copy()

    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        STATS["updates"] += 1
        if xs_updated is not None:
            self._raw_data[np.asarray(updated_indices)] = np.asarray(xs_updated, dtype=np.float32)
        if xs_fresh is not None:
            xs_fresh = np.asarray(xs_fresh)
            if xs_fresh.ndim != 2 or xs_fresh.shape[1] != self._raw_data.shape[1]:
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
            self._raw_data = np.vstack([self._raw_data, xs_fresh.astype(np.float32)])
        self._build()

    def prepare(self):
        pass
