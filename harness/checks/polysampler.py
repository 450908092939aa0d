"""C15: the polygon sampler against specs/Polygons*.tla."""
import hashlib, math
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

INV = "SPECIFICATION Spec\nINVARIANTS Partition Uniform RingsAgree\nCHECK_DEADLOCK FALSE\n"


def spun(ring, rng):
    """the same ring from another starting vertex and possibly the other way round"""
    r = list(ring)
    k = rng.randrange(len(r))
    r = r[k:] + r[:k]
    return r[::-1] if rng.random() < 0.5 else r


def region(cells, rng, multi):
    """shapely geometry of a cell set"""
    from shapely import MultiPolygon, Polygon, box, unary_union
    g = unary_union([box(x, y, x + 1, y + 1) for x, y in cells]).simplify(0)
    ps = list(g.geoms) if isinstance(g, MultiPolygon) else [g]
    rng.shuffle(ps)
    out = []
    for p in ps:
        hs = [list(h.coords)[:-1] for h in p.interiors]
        rng.shuffle(hs)
        out.append(Polygon(spun(list(p.exterior.coords)[:-1], rng), [spun(h, rng) for h in hs]))
    return MultiPolygon(out) if multi or len(out) > 1 else out[0]


def rings(parts, multi):
    from shapely import MultiPolygon, Polygon
    out = [Polygon(p["ext"], p["holes"]) for p in parts]
    return MultiPolygon(out) if multi or len(out) > 1 else out[0]


def draws(poly, n, seed):
    from nonasymptotic.sampler import random_point_in_mpolygon
    g = np.random.default_rng(seed)
    return guard(lambda: np.array([[p.x, p.y] for p in (random_point_in_mpolygon(poly, rng=g) for _ in range(n))]), limit=200)


def cells_job(job):
    import random
    cells, off, n, seed, multi, scale = job
    rng = random.Random(seed)
    cells = [[x + off[0], y + off[1]] for x, y in cells]
    t = dict(kind="cells", cells=cells, out="ok", hist=[], n=n, quad=[0] * 4)
    with quiet():
        from shapely.affinity import scale as sc
        g = region(cells, rng, multi)
        o = draws(sc(g, scale, scale, origin=(0, 0)) if scale != 1 else g, n, seed)
    if o[0] != "ok" or o[1].shape != (n, 2) or not np.all(np.isfinite(o[1])):
        return dict(t, out="error " + str(o[1:3])[:200])
    o = (o[0], o[1] / scale)
    c = np.clip(np.floor(o[1]), -10 ** 6, 10 ** 6).astype(int)
    f = o[1] - np.floor(o[1])
    q = (f[:, 0] >= 0.5) * 2 + (f[:, 1] >= 0.5)
    v, k = np.unique(c, axis=0, return_counts=True)
    t["hist"] = [[int(a), int(b), int(m)] for (a, b), m in zip(v, k)]
    t["quad"] = [int((q == i).sum()) for i in range(4)]
    return t


def rings_job(job):
    parts, n, seed, multi, K = job
    t = dict(kind="rings", parts=parts, out="ok", pts=[], K=K)
    with quiet():
        o = draws(rings(parts, multi), n, seed)
    if o[0] != "ok" or o[1].shape != (n, 2) or not np.all(np.isfinite(o[1])):
        return dict(t, out="error " + str(o[1:3])[:200])
    t["pts"] = np.clip(np.rint(o[1] * K), -30000, 30000).astype(int).tolist()
    return t


def streams_job(job):
    import random
    polys, seed, seeds = job
    from nonasymptotic.sampler import random_point_in_mpolygon
    rng = random.Random(seed)
    ev, outs = [], []
    with quiet():
        gens, at = [(s, np.random.default_rng(s)) for s in seeds + seeds], {}
        geo = [rings(p, len(p) > 1) for p in polys]
        last = {}
        # both generators of a seed see the same polygons in the same order
        plan = {s: [rng.randrange(len(geo)) for _ in range(40)] for s in seeds}
        todo = [i for i in range(len(gens)) for _ in range(12)]
        rng.shuffle(todo)
        for i in todo:
            s, g = gens[i]
            k = at.get(i, 0); at[i] = k + 1
            np.random.seed(rng.randrange(100))
            if rng.random() < 0.2:
                guard(random_point_in_mpolygon, geo[0])      # a draw without a generator of its own
            r = guard(lambda: random_point_in_mpolygon(geo[plan[s][k]], rng=g)); outs.append(r)
            d = hashlib.md5(repr((r[1].x, r[1].y)).encode()).hexdigest()[:12] if r[0] == "ok" else "?"
            ev.append([k + 1, "s%d" % s, plan[s][k] + 1, d])
    return dict(kind="streams", out="ok" if all(r[0] == "ok" for r in outs) else "error", ev=ev)


def star(rng, cx, cy, r0, r1, k):
    out = []
    for i in range(k):
        a = 2 * math.pi * (i + rng.random() * 0.6) / k
        r = rng.uniform(r0, r1)
        p = [round(cx + r * math.cos(a)), round(cy + r * math.sin(a))]
        if p not in out:
            out.append(p)
    return out


def general(rng):
    """Star-shaped parts in separate blocks, some with holes, some of those with islands (again with holes)."""
    from shapely import Polygon
    while True:
        parts, ok = [], True
        for bx in range(-1, 2):
            for by in range(-1, 2):
                if rng.random() < 0.45:
                    continue
                cx, cy = 28 * bx, 28 * by
                p = dict(ext=star(rng, cx, cy, 9.6, 13, rng.randint(4, 9)), holes=[])
                t = rng.random()
                if t < 0.7:
                    p["holes"].append(star(rng, cx, cy, 5, 6.3, rng.randint(5, 8)))
                parts.append(p)
                if t < 0.4:
                    isl = dict(ext=star(rng, cx, cy, 2.3, 3.2, rng.randint(4, 6)), holes=[])
                    parts.append(isl)
        for p in parts:
            p["ext"] = spun(p["ext"], rng)
            p["holes"] = [spun(h, rng) for h in p["holes"]]
        if not parts:
            continue
        ps = [Polygon(p["ext"], p["holes"]) for p in parts]
        ok = all(p.is_valid and Polygon(p.exterior).buffer(-0.2).geom_type == "Polygon" for p in ps)
        ok = ok and all(Polygon(q["ext"]).contains(Polygon(h)) and Polygon(q["ext"]).exterior.distance(Polygon(h)) > 0.3 for q in parts for h in q["holes"])
        ok = ok and all(ps[i].distance(ps[j]) > 0.3 for i in range(len(ps)) for j in range(i))
        if ok:
            rng.shuffle(parts)
            return parts


RING = lambda n, k=0: [[x, y] for x in range(k, n - k) for y in range(k, n - k) if x in (k, n - k - 1) or y in (k, n - k - 1)]
SPECIAL = [RING(5) + [[2, 2]], RING(7) + RING(7, 2), RING(9) + RING(9, 2) + [[4, 4]],
           RING(7) + [[2, 2], [4, 4], [2, 4], [4, 2]], RING(3) + [[x + 5, y] for x, y in RING(3)],
           RING(5) + [[x + 7, y + 1] for x, y in RING(3)] + [[2, 2]],
           [[0, y] for y in range(9)] + [[x, 0] for x in range(9)] + [[8, y] for y in range(6)] + [[4, y] for y in range(2, 7)],
           [[x, y] for x in range(8) for y in range(8) if (x, y) not in ((1, 1), (1, 3), (3, 1), (6, 6), (5, 3), (3, 5))],
           [[x, 0] for x in range(12)] + [[3, 5]], [[x + 2 * (y % 2), y] for y in range(0, 6, 2) for x in range(10)]]


def run(ctx):
    env.use("common", "noscipy")
    with quiet():
        import nonasymptotic.sampler, shapely  # noqa
    P = dict(w=4, h=3, variant="area")
    r = ctx.tlc("PolygonsMC", INV, params=P, label="every region of a 4x3 grid")
    sets = [x["c"] for x in r.records]
    if ctx.thorough:
        sets += [x["c"] for x in ctx.tlc("PolygonsMC", INV, params=dict(P, w=4, h=4), label="every region of a 4x4 grid").records]
    ctx.refuted("PolygonsMC", INV, params=dict(P, w=3, h=3, variant="parts"))
    rng = ctx.rng
    sets.sort()
    rng.shuffle(sets)
    n = ctx.q(1500, 6000)
    jobs = []
    many = [s for s in sets if len(s) >= 4]
    for s in many[:ctx.q(60, 600)] + SPECIAL * ctx.q(2, 10):
        jobs.append((s, (rng.randint(-20, 15), rng.randint(-20, 15)), n, rng.getrandbits(31), rng.random() < 0.4, 1))
    # anywhere in the plane, and of any size
    for s in SPECIAL * ctx.q(1, 6):
        a, b = rng.choice(s)
        jobs.append((s, rng.choice([(-100 - a - d, -100 - b - e) for d in (0, 1) for e in (0, 1)]), n, rng.getrandbits(31), rng.random() < 0.5, 1))
        k = rng.choice([2.0 ** -6, 2.0 ** -3, 16.0, 64.0])
        jobs.append((s, (rng.randint(-4000, 4000), rng.randint(-4000, 4000)), n, rng.getrandbits(31), rng.random() < 0.5, k))
        jobs.append((s, (math.floor(-100 / 32) - a, math.floor(-100 / 32) - b), n, rng.getrandbits(31), rng.random() < 0.5, 32.0))
    tr = pmap(cells_job, jobs)
    gj = [(general(rng), n, rng.getrandbits(31), rng.random() < 0.5, 64) for _ in range(ctx.q(30, 300))]
    tr += pmap(rings_job, gj)
    tr += pmap(streams_job, [([general(rng) for _ in range(3)], rng.getrandbits(30), [rng.getrandbits(20) for _ in range(3)]) for _ in range(ctx.q(8, 60))])
    ctx.cov["polygons"] = len(tr)
    ctx.cov["points_drawn"] = n * (len(jobs) + len(gj))
    ctx.validate("PolygonsTrace", tr)
    ctx.assumptions += ["parts and holes do not touch", "statistical clauses use six standard deviations"]
