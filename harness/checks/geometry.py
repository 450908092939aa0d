"""C09 segment intersection, C10 narrow-passage motions, C11 maze motions, C45 tube motions -- against specs/Geometry.tla."""
import itertools, os
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

INV = "SPECIFICATION Spec\nINVARIANTS SegSymmetric SegSampled NarrowSampled MazeSampled TubeSampled GrayCorridor CurveOk\nCHECK_DEADLOCK FALSE\n"
BASE = dict(n=3, k=60, H=4, C=1, X=8, dim=2, len=2, S=4, W=1, maxdim=4, maxlen=4)
CH = 400


def bit(o, i=None):
    """One answer of the code as 0/1, 9 when there is none."""
    if o[0] != "ok":
        return 9
    try:
        v = o[1] if i is None else o[1][i]
        v = np.asarray(v)
        return int(bool(v.item())) if v.size == 1 else 9
    except Exception:
        return 9


def run(ctx):
    env.use("common", "noscipy")
    with quiet():
        import nonasymptotic.envs, nonasymptotic.util  # noqa
    np.seterr(all="ignore")
    {"C09": seg, "C10": narrow, "C11": maze, "C45": tube}[ctx.pid](ctx)


def chunks(xs, n=CH):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def report(ctx, traces, label):
    seen = ctx.validate("GeometryTrace", traces, label=label)
    return seen


# ------------------------------------------------------------------------------------------------- C09
def seg_chunk(job):
    cases, scale, off, seed = job
    from nonasymptotic.util import detect_intersect
    import random
    rng = random.Random(seed)
    a = np.array(cases, float) * scale
    a[:, 0::2] += off[0]; a[:, 1::2] += off[1]
    P = [a[:, 2 * i:2 * i + 2] for i in range(4)]
    out = []
    with quiet(), np.errstate(all="ignore"):
        full = guard(detect_intersect, *P)
        swap = guard(detect_intersect, P[2], P[3], P[0], P[1])
        rev1 = guard(detect_intersect, P[1], P[0], P[2], P[3])
        rev2 = guard(detect_intersect, P[0], P[1], P[3], P[2])
        perm = list(range(len(a))); rng.shuffle(perm)
        pm = guard(detect_intersect, *[x[perm] for x in P])
        inv = {p: i for i, p in enumerate(perm)}
        for i in range(len(a)):
            one = guard(detect_intersect, *[x[i:i + 1] for x in P])
            # the caller's own use: many first segments against one second segment
            bc = bit(guard(detect_intersect, np.vstack([P[0][i:i + 1], P[0]]), np.vstack([P[1][i:i + 1], P[1]]), P[2][i:i + 1], P[3][i:i + 1]), 0) \
                if i % 7 == 0 else bit(one)
            ones = []
            if i % 5 == 0:      # single points instead of batches, and one segment against many
                v = [x[i] for x in P]
                ones = [bit(guard(detect_intersect, *v)), bit(guard(detect_intersect, v[2], v[3], v[0], v[1])),
                        bit(guard(detect_intersect, P[0], P[1], v[2], v[3]), i), bit(guard(detect_intersect, v[0], v[1], P[2], P[3]), i)]
            out.append(cases[i] + [bit(full, i), bit(swap, i), bit(rev1, i), bit(rev2, i), bit(pm, inv[i]), bit(one), bc] + ones)
    return dict(kind="seg", cases=out, scale=repr(scale))


def seg(ctx):
    ctx.tlc("GeometryMC", INV, params=dict(BASE, parts=["seg"], n=ctx.q(3, 4), k=ctx.q(60, 840 // 2)), label="definition vs sampled crossings")
    rng = ctx.rng
    g = list(itertools.product(range(4), repeat=2))
    cases = [list(p + q + r + s) for p in g for q in g for r in g for s in g]
    rng.shuffle(cases)
    n = ctx.q(2, 6)
    rnd = []
    for _ in range(ctx.q(20000, 150000)):
        m = rng.choice([5, 9, 40, 2000])
        c = [rng.randint(-m, m) for _ in range(8)]
        t = rng.random()
        if t < 0.15:    # parallel
            k = rng.randint(-3, 3); c[6], c[7] = c[4] + k * (c[2] - c[0]), c[5] + k * (c[3] - c[1])
        elif t < 0.35:  # collinear
            dx, dy, z = rng.randint(-4, 4), rng.randint(-4, 4), [rng.randint(-9, 9) for _ in range(4)]
            c = [v for x in z for v in (c[0] + x * dx, c[1] + x * dy)]
        elif t < 0.42:  # point against segment
            c[2], c[3] = c[0], c[1]
        elif t < 0.49:
            c[6], c[7] = c[4], c[5]
        elif t < 0.6:   # near misses of an end point
            c[4], c[5] = c[0] + rng.choice([0, 1, -1]), c[1] + rng.choice([0, 1, -1])
        if max(abs(v) for v in c) <= 8000:
            rnd.append(c)
    jobs = []
    for rep in range(n):
        for ch in chunks(cases):
            sc = rng.choice([1.0, 0.5, 2.0 ** -12, 2.0 ** -24, 1024.0])
            jobs.append((ch, sc, (rng.randint(-64, 64) * sc, rng.randint(-64, 64) * sc), rng.getrandbits(30)))
    for ch in chunks(rnd):
        sc = rng.choice([1.0, 0.25, 2.0 ** -10, 2.0 ** -20])
        jobs.append((ch, sc, (0.0, 0.0), rng.getrandbits(30)))
    tr = pmap(seg_chunk, jobs)
    ctx.cov["segment_pairs"] = sum(len(t["cases"]) for t in tr)
    ctx.validate("GeometryTrace", tr)
    ctx.assumptions.append("coordinates exactly representable (dyadic), so that the float computation is exact")


# ------------------------------------------------------------------------------------------------- C10
def narrow_chunk(job):
    dim, H, C, cases, seed = job
    from nonasymptotic.envs import NarrowPassage
    import random
    rng = random.Random(seed)
    u = 0.5 / H
    with quiet(), np.errstate(all="ignore"):
        e = guard(NarrowPassage, dim, C * u, seed=1)
        a = np.array(cases, float) * u
        p, q = a[:, :dim], a[:, dim:]
        chk = (lambda x, y: e[1].is_motion_valid(x, y)) if e[0] == "ok" else (lambda x, y: 1 / 0)
        full, back = guard(chk, p, q), guard(chk, q, p)
        perm = list(range(len(a))); rng.shuffle(perm)
        k = rng.randint(1, len(perm))
        pm = guard(chk, p[perm[:k]], q[perm[:k]])
        out = []
        for i in range(len(a)):
            one = bit(guard(chk, p[i:i + 1], q[i:i + 1]), 0)
            out.append(cases[i] + [bit(full, i), bit(back, i), one])
        for j, i in enumerate(perm[:k]):
            out[i].append(bit(pm, j))
    return dict(kind="narrow", dim=dim, H=H, C=C, cases=out)


def narrow_free(x, H, C):
    return abs(x[0]) >= H or all(abs(v) <= C for v in x[1:])


def narrow(ctx):
    ctx.tlc("GeometryMC", INV, params=dict(BASE, parts=["narrow"], k=ctx.q(60, 120), X=8, H=4, C=1), label="definition vs sampled walls")
    if ctx.thorough:
        ctx.tlc("GeometryMC", INV, params=dict(BASE, parts=["narrow"], k=60, X=8, H=4, C=2), label="definition vs sampled walls")
    rng = ctx.rng
    jobs = []
    # two dimensions, every pair of lattice points of the free space
    for H, C in ctx.q([(4, 1), (4, 4)], [(4, 1), (4, 2), (4, 3), (4, 4)]):
        pts = [(x, y) for x in range(-3 * H, 3 * H + 1, 2 if not ctx.thorough else 1) for y in range(-H, H + 1) if narrow_free((x, y), H, C)]
        allc = [list(p + q) for p in pts for q in pts]
        rng.shuffle(allc)
        for ch in chunks(allc[:ctx.q(25000, 10 ** 6)]):
            jobs.append((2, H, C, ch, rng.getrandbits(30)))
    for _ in range(ctx.q(120, 1200)):
        dim = rng.choice([2, 2, 3, 3, 4, 5])
        H = rng.choice([16, 64, 64, 256])
        C = rng.choice([1, 2, H // 8, H // 4, H // 2, H - 1])
        cs = []
        while len(cs) < 200:
            def pt():
                t = rng.random()
                if t < 0.4:
                    x = [rng.randint(-H, H)] + [rng.randint(-C, C) for _ in range(dim - 1)]
                else:
                    x = [rng.choice([-1, 1]) * rng.randint(H, 3 * H)] + [rng.randint(-H, H) for _ in range(dim - 1)]
                    if t > 0.8:
                        x[1:] = [max(-H, min(H, v // max(1, H // (2 * C)))) for v in x[1:]]
                return x
            p, q = pt(), pt()
            t = rng.random()
            if t < 0.12:      # moves along one axis only
                q = list(p); i = rng.randrange(dim)
                q[i] += rng.randint(-H, H)
            elif t < 0.18:
                q = list(p)
            elif t < 0.35:    # grazing a corner
                i = rng.randrange(1, dim)
                s, sx = rng.choice([-1, 1]), rng.choice([-1, 1])
                d = [rng.randint(-H, H) for _ in range(dim)]
                cor = [sx * H + rng.choice([-1, 0, 1])] + [rng.randint(-C, C) for _ in range(dim - 1)]
                cor[i] = s * (C + rng.choice([-1, 0, 1]))
                p = [a - b for a, b in zip(cor, d)]; q = [a + b for a, b in zip(cor, d)]
            ok = all(abs(v[0]) <= 3 * H and all(abs(w) <= H for w in v[1:]) and narrow_free(v, H, C) for v in (p, q))
            if ok:
                cs.append(list(p) + list(q))
        jobs.append((dim, H, C, cs, rng.getrandbits(30)))
    tr = pmap(narrow_chunk, jobs)
    ctx.cov["motions"] = sum(len(t["cases"]) for t in tr)
    ctx.validate("GeometryTrace", tr)
    ctx.assumptions.append("end points on a dyadic lattice inside the free space")


# ------------------------------------------------------------------------------------------------- C11
def gray(n):
    return [()] if n == 0 else [(0,) + g for g in gray(n - 1)] + [(1,) + g for g in reversed(gray(n - 1))]


def maze_cubes(dim, length):
    g = gray(dim - 1)
    return [(i,) + c for i in range(length) for c in (g if i % 2 == 0 else g[::-1])]


def strictly(cubes, S, W, x):
    """positive distance from every wall (walls sit on the inside of the closed faces)"""
    at = [i for i, c in enumerate(cubes) if all(c[j] * S <= x[j] <= (c[j] + 1) * S for j in range(len(x)))]
    for i in at:
        for j in range(len(x)):
            for s in (-1, 1):
                if not any(0 <= k < len(cubes) and cubes[k][j] == cubes[i][j] + s for k in (i - 1, i + 1)):
                    if (x[j] - cubes[i][j] * S if s < 0 else (cubes[i][j] + 1) * S - x[j]) <= W:
                        return False
    return bool(at)


def maze_chunk(job):
    dim, ln, S, W, cases = job
    from nonasymptotic.envs import GrayCodeWalls
    with quiet(), np.errstate(all="ignore"):
        e = guard(GrayCodeWalls, dim, ln, thickness=W / S, seed=1)
        out = []
        for c in cases:
            p, q = np.array(c[:dim], float) / S, np.array(c[dim:], float) / S
            if e[0] != "ok":
                out.append(c + [9]); continue
            out.append(c + [bit(guard(e[1].is_motion_valid, p, q, limit=5.0)), bit(guard(e[1].is_motion_valid, q, p, limit=5.0))])
    return dict(kind="maze", dim=dim, len=ln, S=S, W=W, cases=out)


def maze(ctx):
    for ln, S, W in ctx.q([(2, 4, 1), (3, 2, 0)], [(2, 4, 1), (3, 4, 1), (3, 4, 0), (4, 2, 0)]):
        ctx.tlc("GeometryMC", INV, params=dict(BASE, parts=["maze"], len=ln, S=S, W=W, k=ctx.q(30, 60)), label="definition vs sampled motions")
    rng = ctx.rng
    jobs = []

    # exhaustive two-dimensional lattices
    for ln, S, W in ctx.q([(2, 4, 1), (3, 4, 0)], [(2, 8, 1), (3, 4, 1), (3, 4, 0), (4, 4, 1), (1, 8, 2)]):
        cubes = maze_cubes(2, ln)
        pts = [(x, y) for x in range(0, ln * S + 1) for y in range(0, 2 * S + 1) if strictly(cubes, S, W, (x, y))]
        allc = [list(p + q) for p in pts for q in pts]
        rng.shuffle(allc)
        for ch in chunks(allc[:ctx.q(8000, 60000)], 200):
            jobs.append((2, ln, S, W, ch))
    for _ in range(ctx.q(160, 1500)):
        dim = rng.choice([2, 2, 3, 3, 4])
        ln = rng.randint(1, 4 if dim < 4 else 2)
        S = rng.choice([16, 32])
        W = rng.choice([0, 1, 2, S // 4])
        cubes = maze_cubes(dim, ln)
        cs, tries = [], 0
        while len(cs) < 120 and tries < 20000:
            tries += 1
            i = rng.randrange(len(cubes))
            j = max(0, min(len(cubes) - 1, i + rng.choice([-3, -2, -2, -1, -1, 0, 1, 1, 2, 2, 3])))
            p, q = ([c * S + rng.randint(0, S) for c in cubes[z]] for z in (i, j))
            if rng.random() < 0.25:   # near the line through an opening edge
                k = rng.randrange(dim)
                q[k] = p[k]
            if strictly(cubes, S, W, p) and strictly(cubes, S, W, q):
                cs.append(p + q)
        if cs:
            jobs.append((dim, ln, S, W, cs))
    # one end inside a thick wall, in cubes next to each other and in the same one
    n0 = len(jobs)
    for _ in range(ctx.q(60, 500)):
        dim = rng.choice([2, 2, 3, 3, 4])
        ln = rng.randint(1, 4 if dim < 4 else 2)
        S = rng.choice([16, 32])
        W = rng.choice([2, S // 8, S // 4, S // 4 + 2])
        cubes = maze_cubes(dim, ln)
        cs, tries = [], 0
        while len(cs) < 60 and tries < 20000:
            tries += 1
            i = rng.randrange(len(cubes))
            j = max(0, min(len(cubes) - 1, i + rng.choice([-1, -1, 0, 1, 1, 2, -2])))
            p, q = ([c * S + rng.randint(1, S - 1) for c in cubes[z]] for z in (i, j))
            if strictly(cubes, S, 0, p) and not strictly(cubes, S, W, p):
                cs.append(p + q)
        if cs:
            jobs.append((dim, ln, S, W, cs))
    ctx.cov["motions with an end in a wall"] = 2 * sum(len(j[-1]) for j in jobs[n0:])
    tr = pmap(maze_chunk, jobs)
    ctx.cov["motions"] = 2 * sum(len(t["cases"]) for t in tr)
    ctx.validate("GeometryTrace", tr)
    ctx.assumptions.append("end points on a dyadic lattice, inside the cubes of the maze")


# ------------------------------------------------------------------------------------------------- C45
def tube_chunk(job):
    dim, L, C, u, cases, seed = job
    from nonasymptotic.envs import StraightLine
    import random
    rng = random.Random(seed)
    with quiet(), np.errstate(all="ignore"):
        e = guard(StraightLine, dim, C * u, length=L * u, seed=1)
        a = np.array(cases, float) * u
        p, q = a[:, :dim], a[:, dim:]
        chk = (lambda x, y: e[1].is_motion_valid(x, y)) if e[0] == "ok" else (lambda x, y: 1 / 0)
        full, back = guard(chk, p, q), guard(chk, q, p)
        perm = list(range(len(a))); rng.shuffle(perm)
        k = rng.randint(1, len(perm))
        pm = guard(chk, p[perm[:k]], q[perm[:k]])
        out = []
        for i in range(len(a)):
            out.append(cases[i] + [bit(full, i), bit(back, i), bit(guard(chk, p[i:i + 1], q[i:i + 1]), 0), bit(guard(chk, p[i], q[i]))])
        for j, i in enumerate(perm[:k]):
            out[i].append(bit(pm, j))
    return dict(kind="tube", dim=dim, L=L, C=C, cases=out)


def tube(ctx):
    for C in ctx.q([1], [0, 1, 2]):
        ctx.tlc("GeometryMC", INV, params=dict(BASE, parts=["tube"], H=3, X=4, C=C, k=4), label="definition vs sampled distance to the line")
    rng = ctx.rng
    jobs = []
    for L, C in ctx.q([(3, 1), (0, 2), (4, 0)], [(3, 1), (0, 2), (4, 0), (5, 2), (1, 3)]):
        pts = list(itertools.product(range(-C - 2, L + C + 3), range(-C - 2, C + 3)))
        allc = [list(p + q) for p in pts for q in pts]
        rng.shuffle(allc)
        for ch in chunks(allc[:ctx.q(4000, 10 ** 5)]):
            jobs.append((2, L, C, 0.25, ch, rng.getrandbits(30)))
    for _ in range(ctx.q(100, 1500)):
        dim = rng.choice([2, 3, 3, 4, 5, 7])
        L, C = rng.choice([0, 1, 8, 64, 1000]), rng.choice([0, 1, 2, 16, 200])
        cs = []
        for _ in range(120):
            def pt():
                x = [rng.choice([-C, L + C, rng.randint(-C, L + C)])] + [rng.choice([-C, C, rng.randint(-C, C)]) for _ in range(dim - 1)]
                if rng.random() < 0.3:      # leave the tube through one face, by one step or by more
                    i = rng.randrange(dim)
                    d = rng.choice([1, 1, rng.randint(1, L + C + 1)])
                    x[i] = -C - d if rng.random() < 0.5 else C + d + (L if i == 0 else 0)
                return x
            cs.append(pt() + pt())
        jobs.append((dim, L, C, rng.choice([1.0, 0.25, 2.0 ** -10, 2.0 ** -30]), cs, rng.getrandbits(30)))
    tr = pmap(tube_chunk, jobs)
    ctx.cov["motions"] = sum(len(t["cases"]) for t in tr)
    ctx.validate("GeometryTrace", tr)
    ctx.assumptions.append("tube and end points on a dyadic lattice (length and clearance are representable exactly)")
