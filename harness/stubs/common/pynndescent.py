"""Stand-in for pynndescent: exact neighbours, each sample is its own first neighbour, float32 distances."""
import numpy as np
from _knn import exact
from stubgap import StubGap, module_getattr as _mg


class NNDescent:
    def __init__(self, data, metric="euclidean", metric_kwds=None, n_neighbors=30, **kw):
        self._data = np.array(data, dtype=np.float32)
        if self._data.ndim != 2:
            raise ValueError("Expected 2D array")
        self.n_neighbors, self._metric = int(n_neighbors), metric
        self._build()
    def _build(self):
        n, k = len(self._data), self.n_neighbors
        ids, d2s = exact(self._data, k, True, self._metric)
        self._i = np.full((n, k), -1, dtype=np.int32)
        self._d = np.full((n, k), np.inf, dtype=np.float32)
        for r in range(n):
            self._i[r, :len(ids[r])] = ids[r]
            self._d[r, :len(ids[r])] = np.sqrt(d2s[r])
    @property
    def neighbor_graph(self):
        return self._i.copy(), self._d.copy()
    def prepare(self): pass
    def query(self, q, k=10, epsilon=0.1):
        q = np.asarray(q, dtype=np.float32)
        d = np.linalg.norm(q[:, None, :].astype(float) - self._data[None, :, :], axis=2)
        o = np.argsort(d, axis=1, kind="stable")[:, :k]
        return o.astype(np.int32), np.take_along_axis(d, o, 1).astype(np.float32)
    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        if xs_updated is not None:
            self._data[np.asarray(updated_indices)] = np.asarray(xs_updated, dtype=np.float32)
        if xs_fresh is not None:
            f = np.asarray(xs_fresh, dtype=np.float32)
            if f.size:
                self._data = np.vstack([self._data, f])
        self._build()


__getattr__ = _mg("pynndescent")
