"""C01-C07: the roadmap classes against specs/Roadmap*.tla."""
import itertools, math, os
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

POOL = [[0, 0], [1, 3], [4, 1], [6, 6], [2, 9], [11, 4], [3, 5], [9, 9], [13, 2], [0, 14]]
KINDS = {"C01": ["full"], "C02": ["nn"], "C03": ["nn"], "C04": ["rad"], "C05": ["full", "nn", "rad"], "C06": ["nn", "rad"],
         "C07": ["full", "nn", "rad"]}
INST = dict(pool=POOL, sizes=[3, 4, 5], ks=[1, 2, 3], radii=[21, 50, 61, 121], blocked=[[], [[1, 2], [3, 4]], [[2, 3], [1, 5], [4, 6]]],
            trunc=False, cap=64, k0=3, r0=61, variant="fixed", gen=False, maxhist=0)
INV = "SPECIFICATION Spec\nINVARIANTS Exact NodesAreSamples Certificate DrawsAddUp\nPROPERTIES Monotone MonotoneRad\nCHECK_DEADLOCK FALSE\n"


def model(ctx):
    """The algorithms, every history, against the history-free definition; the unrepaired algorithms must be rejected."""
    for kind in KINDS[ctx.pid]:
        for kw in ([dict(trunc=False), dict(trunc=True)] if kind == "nn" else [dict(k0=1), dict(k0=1, cap=2)] if kind == "rad" else [{}]):
            p = dict(INST, kind=kind, **kw)
            if ctx.thorough:
                p.update(sizes=[3, 4, 5, 6], ks=[1, 2, 3, 4], k0=1 if kind == "rad" else 4, radii=[21, 50, 61, 121, 171])
            ctx.tlc("RoadmapMC", INV, params=p, label="design %s %s" % (kind, kw))
        if kind != "full":
            ctx.refuted("RoadmapMC", INV, params=dict(INST, kind=kind, variant="found", k0=1 if kind == "rad" else 3),
                        label="sensitivity %s" % kind)


def histories(ctx, kind):
    """One history per (abstract state, call) of the model, plus long random ones."""
    p = dict(INST, kind=kind, gen=True, maxhist=ctx.q(5, 6), k0=1 if kind == "rad" else 3, blocked=[[]])
    r = ctx.tlc("RoadmapMC", "SPECIFICATION Spec\nVIEW view\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", params=p, workers=1,
                label="histories " + kind)
    hs = [x["h"] for x in r.records]
    depth = 12
    p["maxhist"] = depth
    r = ctx.tlc("RoadmapMC", "SPECIFICATION Spec\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", params=p, workers=1, label="long histories " + kind,
                args=["-simulate", "num=%d" % ctx.q(60, 500), "-depth", str(depth), "-seed", str(ctx.seed)])
    long = [x["h"] for x in r.records if len(x["h"]) == depth]
    ctx.rng.shuffle(long)
    hs += long[:ctx.q(120, 1500)]
    if len(hs) < 50:
        raise Machinery("too few histories")
    return hs


# ------------------------------------------------------------------------------------------------- geometry
def d2(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


class Geometry:
    """Samples on even lattice points, query points on odd ones (so a query never lies at a sample-to-sample distance);
    distances from one sample are pairwise different when `distinct`; blocked pairs; candidate radii."""
    def __init__(self, rng, dim, n, span, distinct=True, nq=3, pblock=0.15, axis=False, ties=False, quant=(0.12, 0.3, 0.5, 0.75)):
        self.dim, self.axis = dim, axis
        top = max(span, {1: 22, 2: 15, 3: 12}.get(dim, span))
        # the code sees lattice points p as off + unit * p (exact in floating point)
        self.unit = rng.choice([1.0, 1.0, 2.0 ** -4, 2.0 ** -10, 8.0])
        self.off = np.array([0.0] * dim if axis or rng.random() < 0.5 else [2 * rng.randint(-span, span) for _ in range(dim)])
        while True:
            P, tries = [], 0
            D = []
            while len(P) < n and tries < 3000:
                tries += 1
                c = [2 * rng.randint(0, span) for _ in range(dim)]
                ds = [d2(c, p) for p in P]
                if 0 in ds or (distinct and (len(set(ds)) < len(ds) or any(x in D[i] for i, x in enumerate(ds)))):
                    continue
                for i, x in enumerate(ds):
                    D[i].add(x)
                P.append(c); D.append(set(ds))
            if len(P) == n:
                break
            span = min(span + 1, top)
        self.P = P
        # short distances between points that can be held together, for the radii
        loc = sorted(d2(P[i], P[j]) for i in range(min(n, 14)) for j in range(i))
        self.radii = sorted({2 * loc[int(f * (len(loc) - 1))] + 1 for f in quant})
        if ties:    # exact ties: perfect squares
            sq = sorted({q for q in loc if math.isqrt(q) ** 2 == q})
            if len(sq) > 1:
                self.radii = sorted({2 * sq[len(sq) // 3], 2 * sq[len(sq) // 2], self.radii[0], self.radii[-1]})
        while len(self.radii) < 4:
            self.radii.append(self.radii[-1] + 20)
        self.blk = [[i + 1, j + 1] for i in range(n) for j in range(i + 1, n) if rng.random() < pblock]
        self.qs = []
        blk = {}
        for _ in range(nq):
            pair = []
            for _ in range(2):
                c = [2 * rng.randint(0, span - 1) + 1] + [0 if axis else 2 * rng.randint(0, span - 1) + 1 for _ in range(dim - 1)]
                b = blk.setdefault(tuple(c), [i + 1 for i in range(n) if rng.random() < pblock])
                pair.append(dict(p=c, b=b))
            self.qs.append(pair)
        self.L = 2 * span


    def real(self, p):
        return self.unit * (self.off + np.array(p, float))


class Oracle:
    """The motion checker handed to the roadmap: symmetric, batched, by coordinates."""
    def __init__(self, geo):
        self.key = {tuple(geo.real(p)): ("s", i + 1) for i, p in enumerate(geo.P)}
        self.block = {frozenset((("s", a), ("s", b))) for a, b in geo.blk}
        for pr in geo.qs:
            for e in pr:
                self.key[tuple(geo.real(e["p"]))] = ("q", tuple(e["p"]))
                self.block |= {frozenset((("q", tuple(e["p"])), ("s", i))) for i in e["b"]}

    def __call__(self, starts, goals):
        starts, goals = np.asarray(starts, float), np.asarray(goals, float)
        if starts.ndim == 1:
            starts, goals = starts[None], goals[None]
        out = np.ones(len(starts), dtype=bool)
        for i in range(len(starts)):
            a, b = self.key.get(tuple(starts[i])), self.key.get(tuple(goals[i]))
            out[i] = frozenset((a, b)) not in self.block
        return out


class Sampler:
    def __init__(self, geo):
        self.pts, self.i, self.armed, self.dim = [geo.real(p) for p in geo.P], 0, False, geo.dim
    def __call__(self):
        if not self.armed:
            return np.full(self.dim, -9999.0)
        if self.i >= len(self.pts):
            raise RuntimeError("sampler exhausted")
        self.i += 1
        return self.pts[self.i - 1].copy()


def sdf(geo):
    def f(x):
        x = np.asarray(x, float) / geo.unit - geo.off
        c = x.copy(); c[:, 0] = np.clip(c[:, 0], 0, geo.L + 60); c[:, 1:] = 0
        return geo.unit * np.linalg.norm(x - c, axis=1)
    return f


# ------------------------------------------------------------------------------------------------- recording
def milli(x, unit=1.0):
    x = float(x) / unit
    if x != x:
        return -3
    if x > 1e300:
        return -1
    if not -2e6 < x < 2e6:
        return -4
    return int(round(x * 1000))


class Recorder:
    def __init__(self, ctx, geo, kind, k0, r0, trunc=False, exp=False, cap=512, rad_k=None):
        import nonasymptotic.prm as prm_mod
        import nonasymptotic.ann as ann_mod
        ann_mod.TEMP_DIR = ctx.scratch
        self.geo, self.kind, self.sc = geo, kind, ctx.scratch
        self.sam, mv = Sampler(geo), Oracle(geo)
        r = geo.unit * math.sqrt(r0 / 2)
        with quiet():
            if kind == "full":
                p = prm_mod.SimpleFullConnRadiusPRM(r, mv, self.sam)
            elif kind == "nn":
                p = prm_mod.SimpleNearestNeighborRadiusPRM(k0, mv, self.sam, sdf(geo), truncate_to_eff_rad=trunc)
            else:
                p = prm_mod.SimpleRadiusPRM(r, mv, self.sam, sdf(geo), max_k_connection_neighbors=cap)
                if rad_k and hasattr(p, "k_neighbors"):
                    p.k_neighbors = rad_k
        if hasattr(p, "tmp_graph_cache_path"):
            p.tmp_graph_cache_path = os.path.join(ctx.scratch, os.path.basename(p.tmp_graph_cache_path))
        p.in_mp_exp_mode = exp
        self.sam.armed = True
        self.p, self.ev = p, []

    def milli(self, x):
        return milli(x, self.geo.unit)

    def row(self, x):
        x = np.asarray(x, float)
        for i, p in enumerate(self.geo.P):
            if len(x) == len(p) and all(x == self.geo.real(p)):
                return i + 1
        return -1

    def proj(self):
        p = self.p
        g, s = p.prm_graph, p.prm_samples
        rec = dict(drawn=self.sam.i, n=0 if s is None else len(s), S=[] if s is None else [self.row(x) for x in s],
                   nv=int(p.num_vertices()), ne=int(p.num_edges()))
        V, E, nl = [], [], 0
        if g is not None:
            V = sorted(int(v) + 1 for v in g.iterNodes())
            for u, v, w in g.iterEdgesWeights():
                if u == v:
                    nl += 1
                else:
                    E.append([min(u, v) + 1, max(u, v) + 1, self.milli(w)])
        c = getattr(p, "conn_r", "?")
        rec.update(V=V, E=sorted(E), nl=nl, conn=-1 if c is None else -2 if not isinstance(c, (int, float, np.floating)) else self.milli(c))
        return rec

    def call(self, op, a, **extra):
        p = self.p
        rec = dict(op=op, a=a, **extra)
        with quiet():
            if op == "grow":
                o = guard(p.grow_to_n_samples, a)
                if self.kind == "full":
                    rec["ret"] = sorted({self.milli(x) for x in np.asarray(o[1]).ravel()}) if o[0] == "ok" and o[1] is not None else []
                c = getattr(p, "certified_max_conn_r", None)
                rec["cert"] = -5 if c is None else self.milli(c)
                if self.kind == "nn" and o[0] == "ok" and isinstance(o[1], tuple):
                    rec["cert"] = self.milli(o[1][0])
            elif op == "setr":
                o = guard(p.set_connection_radius, self.geo.unit * math.sqrt(a / 2))
            elif op == "setk":
                o = guard(p.set_nearest_neighbors, a)
            elif op == "reset":
                o = guard(p.reset)
            elif op in ("query", "conns"):
                s, g = self.geo.qs[extra["q"] - 1]
                s, g = self.geo.real(s["p"]), self.geo.real(g["p"])
                o = guard(p.query_best_solution if op == "query" else p.query_all_graph_connections, s, g)
            elif op == "save":
                f = os.path.join(self.sc, "saved")
                for x in (".nkb", ".npy"):
                    if os.path.exists(f + x):
                        os.remove(f + x)
                o = guard(p.save, f)
        rec["ok"] = o[0] == "ok"
        if op == "query":
            rec.update(d=-9, path=[-1])
            if rec["ok"]:
                ids = guard(lambda: self.path_ids(o[1][1]))
                rec.update(d=self.milli(o[1][0]), path=ids[1] if ids[0] == "ok" else [-1])
        elif op == "conns":
            rec["rows"] = []
            if rec["ok"]:
                z = guard(lambda: self.conn_rows(o[1]))
                rec["rows"] = z[1] if z[0] == "ok" else [[-1, -1, -1, -1, -1]]
        elif op == "save":
            z = guard(self.read_back, f)
            rec["ok"] = rec["ok"] and z[0] == "ok"
            rec["E2"], rec["S2"] = z[1] if z[0] == "ok" else ([], [])
        pr = guard(self.proj)
        if pr[0] != "ok":
            rec["ok"] = False
            pr = (0, dict(drawn=self.sam.i, n=-1, S=[], V=[], E=[], nl=0, nv=-1, ne=-1, conn=-2))
        rec.update(pr[1])
        self.ev.append(rec)

    def path_ids(self, path):
        S = self.p.prm_samples
        out = []
        for x in np.asarray(path).reshape(-1, self.geo.dim):
            m = [i + 1 for i in range(len(S)) if np.array_equal(S[i], x)]
            out.append(m[0] if m else -1)
        return out

    def conn_rows(self, res):
        io, d, ids = res
        io, d, ids = np.asarray(io), np.asarray(d, float), np.asarray(ids)
        if not (len(io) == len(d) == len(ids)):
            return [[-1, -1, -1, -1, -1]]
        S = {tuple(x): i + 1 for i, x in enumerate(self.p.prm_samples)}
        return [[int(ids[i][0]) + 1, int(ids[i][1]) + 1, self.milli(d[i]), S.get(tuple(io[i][0]), -1), S.get(tuple(io[i][1]), -1)]
                for i in range(len(d))]

    def read_back(self, f):
        import networkit as nk
        g = nk.readGraph(f + ".nkb", nk.Format.NetworkitBinary)
        return (sorted([min(u, v) + 1, max(u, v) + 1, self.milli(w)] for u, v, w in g.iterEdgesWeights() if u != v),
                [self.row(x) for x in np.load(f + ".npy")])

    def trace(self, pid, k0, r0, selfslot, trunc, exp, capped):
        return dict(pid=pid, kind=self.kind, pts=self.geo.P, blk=self.geo.blk, qs=[dict(s=a, g=b) for a, b in self.geo.qs], k0=k0,
                    self=selfslot, trunc=trunc, exp=exp, capped=capped, r0=0 if self.kind == "nn" else r0, ev=self.ev)


def play(ctx, kind, hist, geo, rng, opts):
    """Replay a history of the model on a geometry."""
    pid = ctx.pid
    sizes = dict(zip([3, 4, 5], opts["sizes"]))
    kmap = dict(zip([1, 2, 3], opts["ks"]))
    rmap = dict(zip(INST["radii"], geo.radii))
    r0 = rmap[61]
    k0 = kmap[3]
    rec = Recorder(ctx, geo, kind, k0, r0, trunc=opts["trunc"], exp=opts["exp"], cap=opts["cap"], rad_k=opts.get("rad_k"))
    n = 0

    def queries(allq):
        if n < 2:
            return
        for q in range(1, len(geo.qs) + 1):
            if allq or rng.random() < 0.5:
                rec.call("query", 0, q=q)
                if opts["exp"] and kind != "full":
                    rec.call("conns", 0, q=q)
    for op, a in hist:
        if op == "grow":
            if kind == "nn" and sizes[a] == n:
                continue
            rec.call("grow", sizes[a])
            n = max(n, sizes[a])
        elif op == "setr":
            rec.call("setr", rmap[a])
        elif op == "setk":
            rec.call("setk", kmap[a])
        elif op == "reset":
            rec.call("reset", 0); n = 0
        elif op == "query":
            queries(False)
            if pid == "C07" and n:
                rec.call("save", 0)
            if pid == "C02" and n and rng.random() < 0.3:
                rec.call("setk", k0 + rng.randint(1, 3))
        if op in ("grow", "setr", "setk") and pid in ("C05", "C06", "C07") and rng.random() < (0.8 if pid != "C07" else 0.5):
            queries(False)
    if pid in ("C05", "C06", "C07"):
        queries(True)
    return rec.trace(pid, k0, r0, opts["self"], opts["trunc"], opts["exp"], opts["capped"])


def geometries(ctx, kind):
    rng, out = ctx.rng, []
    exp = ctx.pid == "C06" or (ctx.pid in ("C02", "C05", "C07") and kind != "full")
    for i in range(ctx.q(16, 48)):
        dim = [2, 3, 2, 1][i % 4]
        big = {1: [3, 4, 4], 2: [4, 5, 6], 3: [4, 6, 7]}[dim]
        g = Geometry(rng, dim, 2 * big[2], {1: 16, 2: 10, 3: 6}[dim], distinct=kind == "nn", axis=ctx.pid == "C06" or (exp and i % 8 < 4),
                     ties=kind == "full" and i % 2 == 0, pblock=[0.0, 0.15, 0.3][i % 3], **(dict(quant=(0.04, 0.1, 0.18, 0.4)) if ctx.pid == "C03" else {}))
        out.append((g, big))
    return out


def one(job):
    ctx, kind, h, g, opts, seed = job
    import random
    import nonasymptotic.ann as ann_mod
    ann_mod.KGRAPH_AVAILABLE = not opts["self"]
    return play(ctx, kind, h, g, random.Random(seed), opts)


def big_rad(job):
    ctx, i, seed = job
    import random
    import nonasymptotic.ann as ann_mod
    ann_mod.KGRAPH_AVAILABLE = True
    rng = random.Random(seed)
    g = Geometry(rng, 2, 60, 15, distinct=False, axis=False, pblock=0.1)
    g.radii = [2 * x + 1 for x in ([90, 150, 260, 400] if i % 2 else [20, 40, 60, 120])]
    rec = Recorder(ctx, g, "rad", 4, g.radii[2])
    for m in sorted(rng.sample(range(5, 61), 4)):
        rec.call("grow", m)
        if rng.random() < 0.6:
            rec.call("query", 0, q=rng.randint(1, len(g.qs)))
    return rec.trace(ctx.pid, 4, g.radii[2], 0, False, False, False)


def large(job):
    """Two roadmaps alive at once, their calls interleaved."""
    ctx, kind, i, seed = job
    import random
    import nonasymptotic.ann as ann_mod
    pyn = kind == "nn" and i % 4 == 3
    ann_mod.KGRAPH_AVAILABLE = not pyn
    rng = random.Random(seed)
    live, out = [walk(ctx, kind, i, pyn, random.Random(rng.getrandbits(30))) for _ in range(2)], []
    while live:
        w = rng.choice(live)
        t = next(w)
        if t is not None:
            out.append(t); live.remove(w)
    return out


def walk(ctx, kind, i, pyn, rng):
    """A random history with more samples, neighbours, dimensions and calls than the enumerated ones; yields between calls."""
    pid = ctx.pid
    dim = rng.choice([2, 3, 4, 5, 6, 8])
    n = rng.choice([20, 30, 44]) if kind != "full" else rng.choice([24, 40, 60])
    exp = pid == "C06" or (pid in ("C02", "C05", "C07") and kind == "nn" and i % 2 == 1)
    g = Geometry(rng, dim, n, {2: 60, 3: 40}.get(dim, 20), distinct=kind == "nn", nq=4, pblock=rng.choice([0.0, 0.05, 0.3]), axis=exp,
                 ties=kind == "full" and i % 2 == 0, quant=(0.05, 0.12, 0.2, 0.35, 0.6, 0.95))
    k0 = rng.randint(3, 12)
    r0 = rng.choice(g.radii)
    trunc = kind == "nn" and i % 3 == 0
    rec = Recorder(ctx, g, kind, k0, r0, trunc=trunc, exp=exp)
    have, dead = 0, 0
    for step in range(rng.choice([6, 10, 14])):
        yield
        ops = ["grow", "grow"] + (["setr", "setr", "setk"] if kind == "nn" and have else []) + (["query"] if have > 1 and pid in ("C05", "C06", "C07") else []) \
            + (["refuse"] if have > 3 and pid == "C07" else [])
        op = rng.choice(ops)
        if op == "grow" and have < n - dead:
            m = min(n - dead, have + rng.choice([1, 2, 5, 11])) if have else rng.randint(max(2, min(k0, 6)), max(3, n // 2))
            if rng.random() < 0.08 and have and n - dead - have > 3 and kind != "full":
                rec.call("reset", 0)
                dead, have = dead + have, 0
                m = min(n - dead, m)
                if m < 3:
                    break
            rec.call("grow", m); have = m
        elif op == "setr":
            rec.call("setr", rng.choice(g.radii))
        elif op == "setk":
            rec.call("setk", rng.randint(2, k0))
        elif op == "refuse":
            rec.call("grow", rng.randint(1, have - 1))
        elif op == "query":
            q = rng.randint(1, len(g.qs))
            if pid != "C06":
                rec.call("query", 0, q=q)
            if exp and pid in ("C06", "C07") and kind != "full":
                rec.call("conns", 0, q=q)
    if pid == "C07" and have:
        rec.call("save", 0)
    if pid in ("C05", "C06", "C07") and have > 1:
        for q in range(1, len(g.qs) + 1):
            yield
            rec.call("conns" if pid == "C06" else "query", 0, q=q)
    yield rec.trace(pid, k0, r0, 1 if pyn else 0, trunc, exp, False)


def run(ctx):
    os.environ.pop("STUB_NO_KGRAPH", None)
    env.use("common", "noscipy")
    pid = ctx.pid
    model(ctx)
    rng = ctx.rng
    traces = []
    with quiet():
        import nonasymptotic.prm, nonasymptotic.ann  # noqa
    for kind in KINDS[pid]:
        hs = histories(ctx, kind)
        geos = geometries(ctx, kind)
        per = {"full": ctx.q(4, 12), "nn": ctx.q(4, 12), "rad": ctx.q(6, 20)}[kind]
        if len(KINDS[pid]) > 1:
            hs = [h for h in hs if len(h) > 2 or rng.random() < 0.5]
            per = max(2, per // 2)
        jobs = []
        for h in hs:
            for rep in range(per):
                g, big = geos[rng.randrange(len(geos))]
                pyn = kind != "full" and rng.random() < 0.25
                capped = kind == "rad" and rng.random() < 0.15 and pid in ("C04", "C05")
                opts = dict(sizes=big, ks=[2, 3, 4] if pyn or rng.random() < 0.5 else [1, 2, 3], trunc=kind == "nn" and (rng.random() < 0.5),
                            exp=kind != "full" and (pid == "C06" or g.axis and rng.random() < 0.5), cap=2 if capped else 512, capped=capped,
                            rad_k=rng.choice([1, 2, 3, 16]) if not pyn else rng.choice([2, 3, 16]), self=1 if pyn else 0)
                jobs.append((ctx, kind, h, g, opts, rng.getrandbits(30)))
        traces += pmap(one, jobs)
        # larger neighbour-doubling roadmaps with the default start of 16 neighbours
        if kind == "rad" and pid in ("C04", "C07", "C05"):
            traces += pmap(big_rad, [(ctx, i, rng.getrandbits(30)) for i in range(ctx.q(16, 60))])
        n = len(traces)
        for ts in pmap(large, [(ctx, kind, i, rng.getrandbits(30)) for i in range(ctx.q(16, 100) // len(KINDS[pid]))]):
            traces += ts
        ctx.cov["larger random histories"] = ctx.cov.get("larger random histories", 0) + len(traces) - n
    rng.shuffle(traces)
    ctx.log("%d histories replayed" % len(traces))
    ctx.cov["calls"] = sum(len(t["ev"]) for t in traces)
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[t["kind"] + "." + e["op"]] = ops.get(t["kind"] + "." + e["op"], 0) + 1
    ctx.cov["calls_by_kind"] = ops
    ev = [e for t in traces for e in t["ev"]]
    ctx.cov["outcomes"] = dict(solved=sum(e["op"] == "query" and e["d"] >= 0 for e in ev), unsolved=sum(e["op"] == "query" and e["d"] == -1 for e in ev),
                               pairs_connected=sum(x[2] >= 0 for e in ev if e["op"] == "conns" for x in e["rows"]),
                               pairs_disconnected=sum(x[2] == -1 for e in ev if e["op"] == "conns" for x in e["rows"]),
                               refused=sum(not e["ok"] for e in ev), edges=sum(len(e["E"]) for e in ev),
                               radii_within_certificate=sum(e["op"] == "setr" and e["ok"] and 0 < e["conn"] <= c for t in traces if t["kind"] == "nn"
                                                            for c in [max([x["cert"] for x in t["ev"] if x["op"] == "grow"] + [0])] for e in t["ev"]))
    ctx.validate("RoadmapTrace", traces)
    ctx.assumptions += ["neighbour libraries and networkit replaced by exact stand-ins with the documented interface",
                        "samples on an integer lattice with pairwise different distances for k-nearest roadmaps",
                        "motion validity given by a symmetric table of blocked pairs"]
