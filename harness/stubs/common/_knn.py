import numpy as np


def exact(data, k, include_self, metric="euclidean"):
    """Exact neighbours in increasing order of distance, ties by index (self first when included)."""
    if metric not in ("euclidean", "l2"):
        from stubgap import StubGap
        raise StubGap("metric " + str(metric))
    x = np.asarray(data, dtype=np.float32).astype(np.float64)
    n = len(x)
    ids, d2s = [], []
    for i in range(n):
        d2 = np.sum((x - x[i]) ** 2, axis=1)
        o = sorted(range(n), key=lambda j: (-1.0 if j == i else d2[j], j))
        if not include_self:
            o = o[1:]
        ids.append(o[:k]); d2s.append([d2[j] for j in o[:k]])
    return ids, d2s
