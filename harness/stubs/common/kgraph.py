"""Stand-in for kgraph: exact neighbours (self excluded); save_text writes up to L of them with half the squared
distance, as the C++ library does."""
import os
import numpy as np
if os.environ.get("STUB_NO_KGRAPH"):
    raise ImportError("kgraph switched off")
from _knn import exact
from stubgap import StubGap, module_getattr as _mg


class KGraph:
    def __init__(self, data=None, metric="euclidean"):
        self._d = np.ascontiguousarray(data)
        if self._d.ndim != 2:
            raise RuntimeError("wrong data dimension")
        if self._d.shape[1] % 4:
            raise RuntimeError("wrong data dimension: must be a multiple of 4")
        self._m = metric
    def build(self, iterations=1000000, L=100, delta=0.002, recall=0.99, prune=0, reverse=0, K=25, S=10, R=100,
              controls=100, seed=1998, **kw):
        self._L, self._K = int(L), int(K)
        self._ids, d2s = exact(self._d, max(self._L, self._K), False, self._m)
        self._half = [[v / 2 for v in r] for r in d2s]
    def save_text(self, path):
        with open(path, "w") as f:
            f.write("%d\n" % len(self._ids))
            for i, d in zip(self._ids, self._half):
                f.write(str(len(i)) + "".join(" %d %.6g" % e for e in zip(i, d)) + "\n")
    def get_nn(self, i):
        return np.array(self._ids[i]), np.array(self._half[i])
    def save(self, *a): raise StubGap("kgraph.save")
    def load(self, *a): raise StubGap("kgraph.load")
    def search(self, *a, **k): raise StubGap("kgraph.search")


__getattr__ = _mg("kgraph")
