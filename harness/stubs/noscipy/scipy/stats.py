import numpy as np
def entropy(pk, qk=None, base=None, axis=0):
    pk = np.asarray(pk, dtype=float); pk = pk / pk.sum(axis=axis, keepdims=True)
    with np.errstate(divide="ignore", invalid="ignore"):
        if qk is None:
            t = np.where(pk > 0, -pk * np.log(pk), 0.0)
        else:
            qk = np.asarray(qk, dtype=float); qk = qk / qk.sum(axis=axis, keepdims=True)
            t = np.where(pk > 0, pk * np.log(pk / qk), 0.0)
    s = t.sum(axis=axis)
    return s if base is None else s / np.log(base)
