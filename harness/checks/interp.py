"""C32: path interpolation against specs/Polyline.tla."""
import math, random
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.collide import load

INV = "SPECIFICATION Spec\nINVARIANTS Right LineRight\nCHECK_DEADLOCK FALSE\n"


def one(job):
    way, thr, unit, sc, form = job
    w = [[x * unit for x in p] for p in way]
    arg = {"list": [list(p) for p in w], "array": np.array(w, float), "tuples": [tuple(p) for p in w]}[form]
    with quiet(), np.errstate(all="ignore"):
        r = guard(STREAMS.interpolate_vectors, arg, thr * unit)
        if r[0] == "raise":
            r = guard(STREAMS.interpolate_vectors, arg, threshold=thr * unit)
    t = dict(way=[[v * sc for v in p] for p in way], thr=int(math.floor(thr * sc)), out=[], rc="ok", exact=False)
    try:
        o = np.asarray(r[1], float)
        assert r[0] == "ok" and o.ndim == 2 and o.shape[1] == len(way[0]) and np.isfinite(o).all() and np.abs(o / unit * sc).max() < 1e6
    except Exception:
        t["rc"] = str(r[0])
        return t
    # every way point itself, in order (first and last included)
    k, keep = 0, list(w)
    for p in o:
        if k < len(keep) and np.allclose(p, keep[k], rtol=0, atol=1e-9 * unit):
            k += 1
    t["exact"] = bool(k == len(keep) and np.allclose(o[0], w[0], atol=1e-9 * unit) and np.allclose(o[-1], w[-1], atol=1e-9 * unit))
    t["out"] = [[int(round(v / unit * sc)) for v in p] for p in o]
    return t


def gen(rng):
    d = rng.choice([1, 2, 2, 2, 3, 6])
    m = rng.choice([3, 10, 40])
    n = rng.randint(1, 7)
    way = [[rng.randint(-m, m) for _ in range(d)] for _ in range(n)]
    for i in range(1, n):
        t = rng.random()
        if t < 0.15:
            way[i] = list(way[i - 1])
        elif t < 0.35:
            j = rng.randrange(d)
            way[i] = list(way[i - 1]); way[i][j] += rng.randint(-5, 5)
    thr = rng.choice([0.5, 1, 1, 2, 2.5, 5, 7, m, 3 * m])
    if m == 40:
        thr = max(thr, 2)
    sc = max(2, min(2000, 14000 // m))
    return (way, thr, rng.choice([1.0, 0.01, 0.1, 1.0 / 3, 64.0]), sc - sc % 2, rng.choice(["list", "array", "tuples"]))


def run(ctx):
    global STREAMS
    env.use("common", "noscipy", "tamp")
    ctx.tlc("InterpMC", INV, params=dict(n=ctx.q(3, 4), k=ctx.q(4, 6), variant="ok"), label="even division; refinement relation on a line")
    for v in ("floor", "drop", "once"):
        ctx.refuted("InterpMC", INV, params=dict(n=3, k=0, variant=v))
    STREAMS = load("turtlebot_move", "streams")
    rng = ctx.rng
    jobs = [gen(rng) for _ in range(ctx.q(4000, 40000))]
    # exact multiples of the threshold, and just above and below
    for k in range(1, 30):
        for e in (0, 1, -1):
            jobs.append(([[0, 0], [100 * k + e, 0], [0, 0]], 100, rng.choice([0.01, 0.1, 0.00025]), 4, "list"))
    tr = pmap(one, jobs)
    ctx.cov["interpolations"] = len(tr)
    ctx.validate("InterpTrace", tr)
    ctx.assumptions.append("finite coordinates, positive threshold, at least one waypoint; coordinates compared to 1/2 unit of a lattice of at least 350 units per waypoint coordinate step")
