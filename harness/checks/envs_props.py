"""C12 maze structure and wall distances, C13 reference curves, C14 samplers -- against specs/Environments*.tla."""
import hashlib, itertools, os
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.geometry import maze_cubes

INV = "SPECIFICATION Spec\nINVARIANTS BoxesAreFree VolumeOk Corridor CurveOk StreamsOwn PrintHist\nCHECK_DEADLOCK FALSE\n"


def milli(x, unit=1.0):
    x = float(x) / unit * 1000
    return int(round(x)) if abs(x) < 1e9 else (10 ** 9 if x > 0 else -10 ** 9)


def model(ctx, hist=False):
    p = dict(objs=3 if hist else 1, seeds=2, maxhist=1, variant="own", maxdim=ctx.q(5, 6), maxlen=ctx.q(4, 6))
    if not hist:
        p["maxhist"] = 0
        ctx.tlc("EnvironmentsMC", INV, params=p, label="boxes, corridor, curve")
        return []
    cfg = INV
    p["objs"], p["maxhist"] = 2, 4
    r = ctx.tlc("EnvironmentsMC", cfg, params=dict(p, maxdim=3, maxlen=2), workers=1, label="streams, every interleaving")
    hs = [x["h"] for x in r.records if any(o[0] == "draw" for o in x["h"])]
    p["objs"], p["maxhist"], depth = 3, 14, 14
    r = ctx.tlc("EnvironmentsMC", "SPECIFICATION Spec\nINVARIANTS StreamsOwn PrintHist\nCHECK_DEADLOCK FALSE\n", params=dict(p, maxdim=2, maxlen=1),
                workers=1, args=["-simulate", "num=%d" % ctx.q(400, 3000), "-depth", str(depth + 1), "-seed", str(ctx.seed)], label="long interleavings")
    hs += [x["h"] for x in r.records if sum(o[0] == "draw" for o in x["h"]) >= 4]
    if len(hs) < 100:
        raise Machinery("too few interleavings")
    ctx.refuted("EnvironmentsMC", INV, params=dict(p, objs=2, maxhist=4, variant="shared", maxdim=2, maxlen=1))
    return hs


def make(e, seed=7):
    """The real environment for a parameter record; `u` is the size of a lattice unit."""
    from nonasymptotic import envs
    if e["cls"] == "straight":
        u = e["u"]
        return envs.StraightLine(e["dim"], e["C"] * u, length=e["L"] * u, seed=seed), u
    if e["cls"] == "narrow":
        u = 0.5 / e["H"]
        return envs.NarrowPassage(e["dim"], e["C"] * u, seed), u
    return envs.GrayCodeWalls(e["dim"], e["len"], thickness=e["W"] / e["S"], seed=seed), 1.0 / e["S"]


def rec(e):
    return {k: v for k, v in e.items() if k != "u"}


def ok(outs):
    return "ok" if all(o[0] == "ok" for o in outs) else "error"


# ------------------------------------------------------------------------------------------------- C12
def struct_job(job):
    e, adj = job
    t = dict(kind="struct", e=rec(e), out="ok", nodes=[], edges=[], adj=[], start=[], end=[])
    with quiet(), np.errstate(all="ignore"):
        o = guard(make, e)
        if o[0] != "ok":
            return dict(t, out="error")
        g = o[1][0]
        if hasattr(g, "no_walls_linear_list"):
            t["nodes"] = [[int(v) for v in c] for c in g.no_walls_linear_list]
        if hasattr(g, "no_walls_graph"):
            t["edges"] = [[[int(v) for v in a], [int(v) for v in b]] for a, b in g.no_walls_graph.edges]
        else:
            t["nodes"] = []
        if adj:
            cubes = maze_cubes(e["dim"], e["len"])
            s = set(cubes)
            for c in cubes:
                for j in range(e["dim"]):
                    d = tuple(v + (i == j) for i, v in enumerate(c))
                    if d in s:
                        a, b = np.array(c, float) + 0.5, np.array(d, float) + 0.5
                        vs = [guard(g.is_motion_valid, x, y, limit=5.0) for x, y in ((a, b), (b, a))]
                        t["adj"].append([list(c), list(d)] + [int(bool(v[1])) if v[0] == "ok" else 9 for v in vs])
        st, en = guard(g.start_point), guard(g.end_point)
        t["out"] = ok([st, en])
        if t["out"] == "ok":
            t["start"], t["end"] = [milli(v) for v in st[1]], [milli(v) for v in en[1]]
    return t


def clear_job(job):
    e, pts = job
    with quiet(), np.errstate(all="ignore"):
        o = guard(make, e)
        if o[0] != "ok":
            return dict(kind="clear", e=rec(e), out="error", cases=[])
        g, u = o[1]
        rs = [guard(g.distance_to_wall, np.array(p, float) * u) for p in pts]
    return dict(kind="clear", e=rec(e), out=ok(rs), cases=[list(p) + [milli(r[1], u)] for p, r in zip(pts, rs) if r[0] == "ok"])


def c12(ctx):
    model(ctx)
    rng = ctx.rng
    shapes = [(d, n) for d in range(2, ctx.q(7, 8)) for n in range(1, ctx.q(6, 9))]
    jobs = [(dict(cls="maze", dim=d, len=n, S=4, W=rng.choice([0, 1])), d <= 4 and n <= 5) for d, n in shapes if 2 ** (d - 1) * n <= 600]
    tr = pmap(struct_job, jobs)
    jobs = []
    for d, n in [(2, 1), (2, 2), (2, 3), (2, 5), (3, 1), (3, 2), (3, 4), (4, 2), (4, 3), (5, 2)]:
        for S, W in [(16, 0), (16, 1), (16, 3), (8, 2), (32, 5), (4, 1)]:
            cubes = maze_cubes(d, n)
            k = ctx.q(150, 1500)
            pts = [[c * S + rng.randint(1, S - 1) for c in rng.choice(cubes)] for _ in range(k)]
            for p in pts[:k // 3]:      # close to the middle of a face
                j = rng.randrange(d)
                p[j] = p[j] // S * S + rng.choice([1, S - 1, W + 1 if W + 1 < S else 1])
            jobs.append((dict(cls="maze", dim=d, len=n, S=S, W=W), pts))
    tr += pmap(clear_job, jobs)
    ctx.cov["mazes"] = len(shapes)
    ctx.cov["wall_distances"] = sum(len(t["cases"]) for t in tr if t["kind"] == "clear")
    ctx.validate("EnvironmentsTrace", tr)
    ctx.assumptions.append("points strictly inside cubes, on a dyadic lattice")


# ------------------------------------------------------------------------------------------------- C13
def curve_job(job):
    e, ss = job         # arclengths in thousandths of a lattice unit (cube for the maze)
    t = dict(kind="curve", e=rec(e), out="ok", cases=[], length=-1)
    with quiet(), np.errstate(all="ignore"):
        o = guard(make, e)
        if o[0] != "ok":
            return dict(t, out="error")
        g, u = o[1]
        if e["cls"] == "maze":
            u, L = 1.0, 1000 * (2 ** (e["dim"] - 1) * e["len"] - 1)
            ln = guard(g.get_curve_arclength)
            t["length"] = milli(ln[1]) if ln[0] == "ok" else -1
        else:
            L = 1000 * (e["L"] if e["cls"] == "straight" else 2 * e["H"])
            t["length"] = L if e["cls"] == "narrow" or not hasattr(g, "length") else milli(g.length, u)
        bad = []
        for s, eps in ss:
            tn = s / L + eps
            r = guard(g.arclength_to_curve_point, tn)
            if r[0] != "ok" or np.asarray(r[1]).ndim != 1:
                bad.append(r); continue
            t["cases"].append([s] + [milli(v, u) for v in np.asarray(r[1])])
        if bad:
            t["out"] = "error"
    return t


def dist_job(job):
    e, pts = job
    t = dict(kind="dist", e=rec(e), out="ok", cases=[])
    with quiet(), np.errstate(all="ignore"):
        o = guard(make, e)
        r = guard(lambda: np.asarray(o[1][0].distance_to_path(np.array(pts, float) * o[1][1])))
        one = guard(lambda: [np.asarray(o[1][0].distance_to_path(np.array([p], float) * o[1][1])).reshape(-1)[0] for p in pts[:20]])
        if o[0] != "ok" or r[0] != "ok" or one[0] != "ok" or r[1].shape != (len(pts),):
            return dict(t, out="error")
        u = o[1][1]
        t["cases"] = [list(p) + [milli(v, u)] for p, v in zip(pts, r[1])] + [list(p) + [milli(v, u)] for p, v in zip(pts, one[1])]
    return t


def c13(ctx):
    model(ctx)
    rng = ctx.rng
    jobs, dj = [], []
    es = [dict(cls="maze", dim=d, len=n, S=4, W=rng.choice([0, 1])) for d in range(2, 6) for n in range(1, ctx.q(5, 8))]
    for d in (2, 3, 4, 6):
        es += [dict(cls="straight", dim=d, C=rng.randint(1, 6), L=L, u=u) for L, u in ((1, 1.0), (8, 0.125), (20, 0.25), (30, 2.0), (3, 2.0 ** -10))]
        es += [dict(cls="narrow", dim=d, H=H, C=rng.randint(1, H)) for H in (1, 4, 10)]
    for e in es:
        L = 1000 * (2 ** (e["dim"] - 1) * e["len"] - 1 if e["cls"] == "maze" else e["L"] if e["cls"] == "straight" else 2 * e["H"])
        ss = {0, L, -1, -L, L + 1, 2 * L, -5 * L, 500 if L >= 500 else 0} | {rng.randint(0, L) for _ in range(ctx.q(60, 600))}
        if e["cls"] == "maze":      # every half edge of the corridor and its neighbourhood
            ks = range(0, 2 * L // 1000 + 1)
            ss |= {500 * k for k in (ks if len(ks) < 150 else rng.sample(ks, 150))}
        cases = [(s, 0.0) for s in sorted(ss)]
        cases += [(s, x) for s in rng.sample(sorted(ss), 12) for x in (1e-9, -1e-9)]
        jobs.append((e, cases))
        if e["cls"] != "maze":
            lim = {2: 15, 3: 12, 4: 10, 6: 8}[e["dim"]]
            lo, hi = (0, e["L"]) if e["cls"] == "straight" else (-e["H"], e["H"])
            pts = [[rng.randint(lo - lim, hi + lim)] + [rng.randint(-lim, lim) for _ in range(e["dim"] - 1)] for _ in range(ctx.q(150, 1500))]
            pts += [[x] + [0] * (e["dim"] - 1) for x in (lo, hi, lo - 1, hi + 1)]
            dj.append((e, pts))
    tr = pmap(curve_job, jobs) + pmap(dist_job, dj)
    ctx.cov["curve_points"] = sum(len(t["cases"]) for t in tr if t["kind"] == "curve")
    ctx.cov["path_distances"] = sum(len(t["cases"]) for t in tr if t["kind"] == "dist")
    ctx.validate("EnvironmentsTrace", tr)
    ctx.assumptions.append("the maze offers no path distance (raises NotImplementedError), so none is checked there")


# ------------------------------------------------------------------------------------------------- C14
def hist_job(job):
    e, n, seed = job
    t = dict(kind="hist", e=rec(e), out="ok", n=n, cells=[], vol=-1)
    with quiet(), np.errstate(all="ignore"):
        o = guard(make, e, seed)
        if o[0] != "ok":
            return dict(t, out="error")
        g, u = o[1]
        r = guard(lambda: np.array([np.asarray(g.sample_from_env(), float) for _ in range(n)]), limit=300)
        if r[0] != "ok" or r[1].shape != (n, e["dim"]) or not np.all(np.isfinite(r[1])):
            return dict(t, out="error")
        c = np.clip(np.floor(r[1] / u), -10 ** 6, 10 ** 6).astype(int)
        vals, cnt = np.unique(c, axis=0, return_counts=True)
        t["cells"] = [[int(x) for x in v] + [int(k)] for v, k in zip(vals, cnt)]
        if e["cls"] != "maze":
            v = guard(lambda: float(g.volume))
            t["vol"] = milli(v[1], u ** e["dim"]) if v[0] == "ok" else 0
    return t


def digest(x):
    a = np.ascontiguousarray(np.asarray(x, dtype=float))
    return hashlib.md5(repr(a.shape).encode() + a.tobytes()).hexdigest()[:12]


def stream_job(job):
    e, h, seeds, tag = job
    ev, outs, objs = [], [], {}
    with quiet(), np.errstate(all="ignore"):
        for i, (op, o, s) in enumerate(h):
            np.random.seed(i)           # the global generator is nobody's business
            if op == "make":
                r = guard(make, e, seeds[s - 1]); outs.append(r)
                objs[o] = r[1][0] if r[0] == "ok" else None
                ev.append(["make", "%s.%d" % (tag, o), s, ""])
            elif op == "draw":
                r = guard(lambda: digest(objs[o].sample_from_env())); outs.append(r)
                ev.append(["draw", "%s.%d" % (tag, o), 0, r[1] if r[0] == "ok" else "?"])
            else:
                p = guard(objs[o].arclength_to_curve_point, (i % 5) / 4); outs.append(p)
                if p[0] == "ok" and e["cls"] == "maze":
                    outs += [guard(objs[o].distance_to_wall, p[1]), guard(objs[o].is_motion_valid, p[1], p[1])]
                elif p[0] == "ok":
                    a = np.asarray(p[1]).reshape(1, -1)
                    outs += [guard(objs[o].is_motion_valid, a, a), guard(objs[o].distance_to_path, a), guard(lambda: objs[o].volume)]
    return ev, ok(outs)


def c14(ctx):
    hs = model(ctx, True)
    rng = ctx.rng
    n = ctx.q(30000, 300000)
    es = [dict(cls="straight", dim=2, C=2, L=8, u=0.125), dict(cls="straight", dim=3, C=1, L=3, u=1.0), dict(cls="straight", dim=4, C=2, L=1, u=0.25),
          dict(cls="narrow", dim=2, H=8, C=2), dict(cls="narrow", dim=2, H=4, C=4), dict(cls="narrow", dim=3, H=4, C=2), dict(cls="narrow", dim=4, H=2, C=1),
          dict(cls="maze", dim=2, len=1, S=8, W=1), dict(cls="maze", dim=2, len=3, S=8, W=2), dict(cls="maze", dim=2, len=4, S=8, W=0),
          dict(cls="maze", dim=3, len=1, S=4, W=1), dict(cls="maze", dim=3, len=3, S=4, W=1), dict(cls="maze", dim=4, len=2, S=4, W=1)]
    if ctx.thorough:
        es += [dict(cls="maze", dim=3, len=2, S=8, W=3), dict(cls="narrow", dim=3, H=8, C=1), dict(cls="straight", dim=5, C=1, L=2, u=0.5), dict(cls="maze", dim=4, len=3, S=4, W=1)]
    tr = pmap(hist_job, [(e, n, rng.getrandbits(31)) for e in es])
    if ctx.thorough:
        tr += pmap(hist_job, [(e, n, rng.getrandbits(31)) for e in es])
    ctx.cov["samples_drawn"] = sum(t["n"] for t in tr)
    rng.shuffle(hs)
    seeds = [rng.getrandbits(31), rng.getrandbits(31)]
    se = [es[0], es[5], es[8], es[11]]
    per = ctx.q(60, 600)
    runs = [(e, hs[(k * per + i) % len(hs)], seeds, "r%d" % i) for k, e in enumerate(se) for i in range(per)]
    res = pmap(stream_job, runs)
    for k, e in enumerate(se):      # several processes' interleavings judged together
        for a in range(0, per, 20):
            ch = res[k * per + a:k * per + a + 20]
            tr.append(dict(kind="streams", e=rec(e), out="ok" if all(c[1] == "ok" for c in ch) else "error", ev=[x for c in ch for x in c[0]]))
    ctx.cov["interleavings"] = len(runs)
    ctx.validate("EnvironmentsTrace", tr)
    ctx.assumptions += ["statistical: counts of regions, slabs and quadrants within about six standard deviations of their expectation",
                        "the maze advertises no volume (raises NotImplementedError)"]


def run(ctx):
    env.use("common", "noscipy")
    with quiet():
        import nonasymptotic.envs  # noqa
    {"C12": c12, "C13": c13, "C14": c14}[ctx.pid](ctx)
