"""C08: the neighbour adapters against specs/Neighbours*.tla."""
import os
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

POOL = [[0, 0], [1, 3], [4, 1], [6, 6], [2, 9], [11, 4], [3, 5]]
INV = "SPECIFICATION Spec\nINVARIANTS Exact PrintHist\nCHECK_DEADLOCK FALSE\n"


def table(o, scale):
    """Recorded answer -> (out, ids, distances in thousandths of a unit)"""
    if o[0] == "raise":
        return "error", [], []
    if o[0] != "ok":
        return o[0], [], []
    try:
        e, d = np.asarray(o[1][0]), np.asarray(o[1][1], dtype=float)
        if e.ndim != 2 or d.ndim != 2 or e.dtype.kind not in "iu":
            return "shape", [], []
        dd = np.where(np.isfinite(d), np.clip(np.rint(np.nan_to_num(d, posinf=9e8) / scale * 1000), -1e9, 1e9), -1)
        return "ok", (e + 1).astype(int).tolist(), dd.astype(int).tolist()
    except Exception:
        return "shape", [], []


def play(job):
    """Two adapters of one kind used side by side; the histories are interleaved call by call."""
    kind, dim, scale, dtype, plans, order, scratch = job
    import nonasymptotic.ann as A
    A.TEMP_DIR = scratch
    objs, tr = [], []
    with quiet(), np.errstate(all="ignore"):
        for _ in plans:
            o = guard(A.KGraphANN if kind == "kgraph" else A.PyNNDescentANN)
            objs.append(o[1] if o[0] == "ok" else None)
            tr.append(dict(kind=kind, own=kind != "kgraph", dim=dim, scale=repr(scale), ev=[]))
        at = [0] * len(plans)
        for w in order:
            op, pts, k = plans[w][at[w]]
            at[w] += 1
            x = (np.array(pts, float).reshape(len(pts), dim) * scale).astype(dtype)
            if op == "new":
                o = guard(lambda: objs[w].new_graph_from_data(x, k))
            else:
                o = guard(lambda: objs[w].update_graph_with_data(x))
            out, e, d = table(o, scale)
            tr[w]["ev"].append(dict(op=op, out=out, pts=pts, k=k, e=e, d=d))
            x[:] = -3.0     # the caller's array is the caller's
    return tr


def lookup():
    import nonasymptotic.ann as A
    ev = []
    keep = A.KGRAPH_AVAILABLE
    with quiet():
        for avail in (True, False):
            A.KGRAPH_AVAILABLE = avail
            for name, want in (("pynndescent", "PyNNDescentANN"), ("kgraph", "KGraphANN" if avail else "PyNNDescentANN"), ("nope", "error"), ("", "error")):
                o = guard(A.get_ann, name)
                ev.append(dict(op="get", out="error" if o[0] == "raise" else type(o[1]).__name__ if o[0] == "ok" else o[0], want=want))
        o = guard(A.get_ann)
        ev.append(dict(op="get", out=type(o[1]).__name__ if o[0] == "ok" else o[0], want="PyNNDescentANN"))
    A.KGRAPH_AVAILABLE = keep
    return dict(kind="lookup", own=False, ev=ev)


def run(ctx):
    env.use("common", "noscipy")
    with quiet():
        import nonasymptotic.ann  # noqa
    hs = []
    P = dict(pool=POOL, sizes=[3, 4], ks=[1, 2], fresh=[1, 2], maxhist=ctx.q(3, 4), variant="fixed")
    for own in (False, True):
        r = ctx.tlc("NeighboursMC", INV, params=dict(P, own=own), workers=1, label="incremental = from scratch, own=%s" % own)
        hs += [x["h"] for x in r.records]
    ctx.refuted("NeighboursMC", INV, params=dict(P, own=False, variant="norows", maxhist=2))
    rng = ctx.rng
    rng.shuffle(hs)
    if len(hs) < 100:
        raise Machinery("too few histories")
    jobs = []

    def pts(n, dim, span, have):
        out = []
        while len(out) < n:
            c = [rng.randint(-span, span) for _ in range(dim)]
            if c not in have and c not in out or rng.random() < 0.02:
                out.append(c)
        return out

    def plan(h, dim, span, f, kf):
        out, have = [], []
        for op, m, k in h:
            n = m * f + (1 if op == "new" else 0)
            if op == "new":
                have = []
            p = pts(n, dim, span, have)
            have = have + p
            out.append([op, p, min(k * kf, n - 1) if op == "new" else 0])
        return out
    for i in range(ctx.q(220, 2400)):
        dim = rng.choice([1, 2, 2, 3, 4, 5, 7, 8, 9, 12])
        span = {1: 22, 2: 15, 3: 12, 4: 10, 5: 9}.get(dim, 6)
        f = rng.choice([1, 2, 4, 4, 9])
        plans = [plan(rng.choice(hs), dim, span, f, rng.choice([1, 2, f])) for _ in range(2)]
        order = [0] * len(plans[0]) + [1] * len(plans[1])
        rng.shuffle(order)
        for kind in ("kgraph", "pynndescent"):
            jobs.append((kind, dim, rng.choice([1.0, 1.0, 0.125, 2.0 ** -8, 16.0]), rng.choice(["float64", "float32"]), plans, order, ctx.scratch))
    tr = [t for ts in pmap(play, jobs) for t in ts] + [lookup()]
    ctx.cov["tables"] = sum(len(t["ev"]) for t in tr)
    ctx.validate("NeighboursTrace", tr)
    ctx.assumptions += ["the neighbour libraries are stand-ins that answer exactly, with the libraries' own conventions (half squared distances and self excluded for kgraph; self first for pynndescent)",
                        "more samples than requested neighbours"]
