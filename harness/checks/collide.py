"""C26 separating-axis tests, C27 motion checks and samplers of the box worlds -- against specs/Collide*.tla."""
import itertools, math, os, random
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.geometry import bit, chunks

INV = "SPECIFICATION Spec\nINVARIANTS PolyRight BoxRight WindowRight FlyRight\nCHECK_DEADLOCK FALSE\n"
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def mats():
    """Rational rotations as (columns, length)."""
    out = [(np.array(I3), 1)]
    c, s = 3, 4
    base = [np.array([[c, -s, 0], [s, c, 0], [0, 0, 5]]), np.array([[5, 0, 0], [0, c, -s], [0, s, c]]), np.array([[c, 0, s], [0, 5, 0], [-s, 0, c]])]
    out += [(m, 5) for m in base] + [(m.T.copy(), 5) for m in base]
    out += [(a @ b, 25) for a in base for b in base if a is not b]
    out += [(np.array([[1, 2, 2], [2, 1, -2], [-2, 2, -1]]).T, 3), (np.array([[2, 3, 6], [3, -6, 2], [6, 2, -3]]), 7),
            (np.array([[1, 4, 8], [4, 7, -4], [8, -4, 1]]), 9), (np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), 1),
            (np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]), 1)]
    res = []
    for m, n in out:
        if round(np.linalg.det(m / n)) < 0:
            m = m * np.array([[1, 1, -1]])
        assert np.allclose(m @ m.T, n * n * np.eye(3))
        res.append((m, n))
    return res


MATS = mats()


def run(ctx):
    env.use("common", "noscipy", "tamp")
    np.seterr(all="ignore")
    {"C26": c26, "C27": c27}[ctx.pid](ctx)


def load(which, name):
    """A module of one of the two planning problems, by path (both have modules of the same names)."""
    import importlib.util, sys
    from core import REPO
    d = os.path.join(REPO, "exps", "tamp_environment", which)
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location("%s_%s" % (which, name), os.path.join(d, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    with quiet():
        spec.loader.exec_module(m)
    return m


MC = dict(n=2, k=12, variant="ok")


def models(ctx, parts):
    for p in parts:
        ctx.tlc("CollideMC", INV, params=dict(MC, parts=[p], n=ctx.q(2, 3) if p in ("poly",) else 2, k=ctx.q(12, 60)), label="verdicts vs independent definitions: " + p)


# ------------------------------------------------------------------------------------------------- C26
def hull(pts):
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1]) if len(pts) > 2 else []


def rpoly(rng, n, m):
    while True:
        h = hull([(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n + rng.randint(0, 6))])
        if len(h) == n:
            k = rng.randrange(n)
            h = h[k:] + h[:k]
            return [list(p) for p in (h if rng.random() < 0.7 else h[::-1])]


def poly_chunk(job):
    cases, sc, off, seed = job
    sat = SAT2
    rng = random.Random(seed)
    A = np.array([c[0] for c in cases], float) * sc + off
    B = np.array([c[1] for c in cases], float) * sc + off
    perm = list(range(len(cases))); rng.shuffle(perm)
    perm = perm[:rng.randint(1, len(perm))]
    out = []
    with quiet(), np.errstate(all="ignore"):
        f = guard(sat.vec_separating_axis_theorem, A, B)
        g = guard(sat.vec_separating_axis_theorem, B, A)
        p = guard(sat.vec_separating_axis_theorem, A[perm], B[perm])
        r = guard(sat.vec_separating_axis_theorem, np.roll(A, 1, axis=1)[:, ::-1], np.roll(B, 2, axis=1))
        at = {x: i for i, x in enumerate(perm)}
        for i, c in enumerate(cases):
            a = [bit(f, i), bit(g, i), bit(r, i), bit(guard(sat.vec_separating_axis_theorem, A[i:i + 1], B[i:i + 1]), 0)]
            if i in at:
                a.append(bit(p, at[i]))
            a.append(bit(guard(sat.separating_axis_theorem, A[i], B[i])))
            a.append(bit(guard(sat.separating_axis_theorem, [list(x) for x in B[i]], [tuple(x) for x in A[i]])))
            out.append(dict(x=list(c), a=a))
    return dict(kind="poly", cases=out)


def mkbox(c, e, k):
    m, n = MATS[k]
    return [list(c), list(e), [[int(v) for v in m[:, j]] for j in range(3)], n]


def vbox(b, sc=1.0):
    m = np.array(b[2], float).T / b[3]
    return np.array(b[0], float) * sc, np.array(b[1], float) * sc, m


def box_chunk(job):
    cases, sc, seed = job
    sat = SAT3
    rng = random.Random(seed)
    V = [np.stack([sat.OBB(*vbox(c[s], sc)).to_vectorized() for c in cases]) for s in (0, 1)]
    perm = list(range(len(cases))); rng.shuffle(perm)
    perm = perm[:rng.randint(1, len(perm))]
    out = []
    with quiet(), np.errstate(all="ignore"):
        f, g = guard(sat.separating_axis_theorem, V[0], V[1]), guard(sat.separating_axis_theorem, V[1], V[0])
        p = guard(sat.separating_axis_theorem, V[0][perm], V[1][perm])
        at = {x: i for i, x in enumerate(perm)}
        for i, c in enumerate(cases):
            a = [bit(f, i), bit(g, i), bit(guard(sat.separating_axis_theorem, V[0][i:i + 1], V[1][i:i + 1]), 0)]
            if i in at:
                a.append(bit(p, at[i]))
            out.append(dict(x=list(c), a=a))
    return dict(kind="box", cases=out)


def near_boxes(rng):
    """Pairs near the contact distance, so that every kind of axis decides."""
    k1, k2 = rng.randrange(len(MATS)), rng.randrange(len(MATS))
    e1, e2 = ([rng.choice([1, 1, 2, 3, 6]) for _ in range(3)] for _ in range(2))
    m = 3 + max(e1) + max(e2)
    c1 = [rng.randint(-3, 3) for _ in range(3)]
    c2 = [c1[i] + rng.randint(-m, m) for i in range(3)]
    return (mkbox(c1, e1, k1), mkbox(c2, e2, k2))


def c26(ctx):
    global SAT2, SAT3
    SAT2, SAT3 = load("turtlebot_move", "separating_axis"), load("kuka_carry", "separating_axis")
    models(ctx, ["poly", "box"])
    ctx.refuted("CollideMC", INV, params=dict(MC, parts=["poly"], variant="aonly"))
    rng = ctx.rng
    jobs = []
    for _ in range(ctx.q(40, 600)):
        na, nb = rng.choice([(3, 3), (4, 4), (4, 4), (5, 5), (3, 4), (5, 3), (4, 6), (6, 6)])
        m = rng.choice([4, 6, 12, 40])
        cs = []
        for _ in range(150):
            A, B = rpoly(rng, na, m), rpoly(rng, nb, m)
            d = (rng.randint(-m, m), rng.randint(-m, m))
            cs.append((A, [[p[0] + d[0], p[1] + d[1]] for p in B]))
        sc = rng.choice([1.0, 0.5, 2.0 ** -8, 64.0])
        jobs.append((cs, sc, np.array([rng.randint(-9, 9), rng.randint(-9, 9)]) * sc, rng.getrandbits(30)))
    tr = pmap(poly_chunk, jobs)
    bj = [([near_boxes(rng) for _ in range(150)], rng.choice([1.0, 0.5, 2.0 ** -6]), rng.getrandbits(30)) for _ in range(ctx.q(40, 600))]
    tr += pmap(box_chunk, bj)
    ctx.cov["pairs"] = sum(len(t["cases"]) for t in tr)
    ctx.validate("CollideTrace", tr)
    ctx.assumptions.append("non-degenerate convex polygons and boxes with rational orientations; contact without common inner points is unspecified")


# ------------------------------------------------------------------------------------------------- C27
U2, U3 = 0.02, 0.01


def rect(c, h, rot):
    """Corners of a rectangle; rot: turned by the 3-4-5 angle (half extents are then multiples of 5)."""
    P = [(-h[0], -h[1]), (h[0], -h[1]), (h[0], h[1]), (-h[0], h[1])]
    if rot:
        P = [((3 * x - 4 * y) // 5, (4 * x + 3 * y) // 5) for x, y in P]
    return [[c[0] + x, c[1] + y] for x, y in P]


def move2_chunk(job):
    shape, obs, cases, seed = job
    import pybullet_tools.utils as u
    rng = random.Random(seed)
    out = []
    with quiet(), np.errstate(all="ignore"):
        def mk():
            oo = []
            for c, h, rot in obs:
                e = np.array([h[0], h[1], 5]) * U2
                oo.append(u.OOBB(u.AABB(-e, e), u.Pose(u.Point(c[0] * U2, c[1] * U2, 0.1), u.Euler(yaw=math.atan2(4, 3) if rot else 0))))
            e = np.array([shape[0], shape[1], 3]) * 2 * U2
            return STREAMS.BagOfBoundingBoxes(seed=0, robot_shape=u.aabb_from_extent_center(e), obstacle_oobbs=oo, custom_limits={})
        o = guard(mk)
        p, q = (np.array([c[s] for c in cases], float) * U2 for s in (0, 1))
        chk = (lambda x, y: o[1].is_motion_valid(x, y)) if o[0] == "ok" else (lambda x, y: 1 / 0)
        f, g = guard(chk, p, q), guard(chk, q, p)
        ok = True
        for i, c in enumerate(cases):
            a = [bit(f, i), bit(g, i), bit(guard(chk, p[i:i + 1], q[i:i + 1]), 0)]
            j = rng.randrange(len(cases))
            a.append(bit(guard(chk, p[[j, i]], q[[j, i]]), 1))
            out.append(dict(x=[list(c[0]), list(c[1])], a=a))
        if o[0] == "ok":
            random.seed(seed)
            draws = guard(lambda: [np.asarray(o[1].sample_from_env(), float) for _ in range(150)])
        else:
            draws = o
    cs = [rect(*x) for x in obs]
    lim = [[min(v[i] for r in cs for v in r) * 1000 - 1 for i in (0, 1)], [max(v[i] for r in cs for v in r) * 1000 + 1 for i in (0, 1)]]
    return [dict(kind="move2", shape=rect((0, 0), shape, False), obs=cs, step=4, cases=out), draw_trace(draws, lim, U2)]


def draw_trace(draws, lim, u):
    if draws[0] == "ok":
        try:
            d = [[[math.floor(v / w * 1000), math.ceil(v / w * 1000)] for v, w in zip(x, u if isinstance(u, list) else [u] * len(x))] for x in draws[1]]
            if all(len(x) == len(lim[0]) for x in d):
                return dict(kind="draws", out="ok", draws=d, lo=lim[0], hi=lim[1])
        except Exception:
            pass
        return dict(kind="draws", out="shape", draws=[], lo=lim[0], hi=lim[1])
    return dict(kind="draws", out=str(draws[:2]), draws=[], lo=lim[0], hi=lim[1])


def gen2(rng):
    if rng.random() < 0.4:      # a thin wall to be crossed between its ends: total thickness just above the step
        ax, k = rng.randrange(2), rng.choice([1, 2])
        swap = lambda x, y: (x, y) if ax == 0 else (y, x)
        shape, c = swap(3 - k, rng.randint(1, 4)), (rng.randint(-20, 20), rng.randint(-20, 20))
        cases = []
        for _ in range(40):
            a, b = rng.randint(4, 40), rng.randint(4, 40)
            y = rng.randint(-3, 3)
            m = min(a + b, 10)
            sg = rng.choice([-1, 1])
            cases.append(tuple([c[i] + v for i, v in enumerate(swap(*q))] for q in ((-sg * a, y), (sg * b, y + rng.randint(-m, m)))))
        return (shape, [(c, swap(k, 40), False)], cases, rng.getrandbits(30))
    shape = (rng.randint(1, 9), rng.randint(1, 9))
    obs = []
    for _ in range(rng.randint(1, 6)):
        rot = rng.random() < 0.35
        h = (5 * rng.randint(1, 3), 5 * rng.randint(1, 4)) if rot else (rng.choice([1, 2, 3, 10, 25]), rng.choice([1, 2, 5, 12]))
        obs.append(((rng.randint(-45, 45), rng.randint(-45, 45)), h, rot))
    cases = []
    for _ in range(40):
        s = [rng.randint(-50, 50), rng.randint(-50, 50)]
        t = rng.random()
        if t < 0.45:
            d = [rng.randint(-9, 9), rng.randint(-9, 9)]
        elif t < 0.55:
            d = [0, 0]
        elif t < 0.8:     # along an axis
            d = [0, 0]; d[rng.randrange(2)] = rng.randint(-40, 40)
        else:
            d = [rng.randint(-50, 50), rng.randint(-50, 50)]
        if rng.random() < 0.4:       # start next to an obstacle
            c = rng.choice(obs)
            s = [c[0][i] + rng.choice([-1, 1]) * (c[1][i] + shape[i] + rng.randint(-1, 4)) if rng.random() < 0.6 else c[0][i] + rng.randint(-4, 4) for i in (0, 1)]
        cases.append((s, [s[0] + d[0], s[1] + d[1]]))
    return (shape, obs, cases, rng.getrandbits(30))


A345 = [("0", 0.0, 1), ("90", math.pi / 2, 1), ("p", math.atan2(4, 3), 5), ("n", -math.atan2(4, 3), 5)]


def rot3(i, a):
    c, s, n = {"0": (1, 0, 1), "90": (0, 1, 1), "p": (3, 4, 5), "n": (3, -4, 5)}[a]
    return [np.array([[n, 0, 0], [0, c, -s], [0, s, c]]), np.array([[c, 0, s], [0, n, 0], [-s, 0, c]]), np.array([[c, -s, 0], [s, c, 0], [0, 0, n]])][i], n


def euler_of(abc):
    """Angle names (roll, pitch, yaw) -> floats and the exact matrix."""
    f = [dict((x[0], x[1]) for x in A345)[a] for a in abc]
    (x, a), (y, b), (z, c) = rot3(0, abc[0]), rot3(1, abc[1]), rot3(2, abc[2])
    return f, z @ y @ x, a * b * c


def box3(c, e, abc):
    _, m, n = euler_of(abc)
    return [list(c), list(e), [[int(v) for v in m[:, j]] for j in range(3)], int(n)]


def move3_chunk(job):
    kind, e, start, obs, cases, seed, theta = job
    import pybullet_tools.utils as u
    rng = random.Random(seed)
    def oobb(c, e, abc):
        h = np.array(e, float) * U3
        return u.OOBB(u.AABB(-h, h), u.Pose(u.Point(*(np.array(c, float) * U3)), u.Euler(*euler_of(abc)[0])))
    def vec(x):
        return list(np.array(x[0], float) * U3) + euler_of(x[1])[0]
    out = []
    with quiet(), np.errstate(all="ignore"):
        o = guard(lambda: RUN3.BagOfBoundingBoxes(seed=0, start_oobb=oobb(start, e, ("0", "0", "0")), end_oobb=oobb(start, e, ("0", "0", "0")),
                                                  obstacle_oobbs=[oobb(*x) for x in obs], theta_margin=theta))
        chk = (lambda x, y: o[1].is_motion_valid(x, y)) if o[0] == "ok" else (lambda x, y: 1 / 0)
        p, q = (np.array([vec(c[s]) for c in cases]) for s in (0, 1))
        f, g = guard(chk, p, q), guard(chk, q, p)
        for i, c in enumerate(cases):
            a = [bit(f, i), bit(g, i), bit(guard(chk, p[i:i + 1], q[i:i + 1]), 0)]
            if kind == "move3":
                x = [list(c[0][0]), list(c[1][0])]
            else:
                x = [box3(c[0][0], e, c[0][1]), box3(c[1][0], e, c[1][1])]
            out.append(dict(x=x, a=a))
        if o[0] == "ok":
            random.seed(seed)
            draws = guard(lambda: [np.asarray(o[1].sample_from_env(), float) for _ in range(150)])
        else:
            draws = o
    V = [np.array(start, float)]
    for c, h, abc in obs:
        _, m, n = euler_of(abc)
        V += [np.array(c) + (m @ (np.array(s) * np.array(h))) / n for s in itertools.product((-1, 1), repeat=3)]
    V = np.array(V)
    t = int(round(theta * 1000))
    lim = [[math.floor(v * 1000) - 1 for v in V.min(0)] + [-t] * 3, [math.ceil(v * 1000) + 1 for v in V.max(0)] + [t] * 3]
    tr = dict(kind=kind, obs=[box3(*x) for x in obs], step=3, cases=out)
    if kind == "move3":
        b = box3((0, 0, 0), e, cases[0][0][1])
        tr.update(e=b[1], m=b[2], n=b[3])
    return [tr, draw_trace(draws, lim, [U3] * 3 + [1.0] * 3)]


def gen3(rng, kind):
    e = [rng.randint(1, 5) for _ in range(3)]
    if kind == "move3" and rng.random() < 0.4:
        ax, z = rng.randrange(3), ("0", "0", "0")
        e = [1 if i == ax else rng.randint(1, 4) for i in range(3)]
        c = [rng.randint(-9, 9) for _ in range(3)]
        cases = []
        for _ in range(14):
            a, sg, o = [rng.randint(3, 25), rng.randint(3, 25)], rng.choice([-1, 1]), [rng.randint(-3, 3) for _ in range(3)]
            d = [rng.randint(-3, 3) for _ in range(3)]
            s = [c[i] + (-sg * a[0] if i == ax else o[i]) for i in range(3)]
            cases.append(((s, z), ([c[i] + (sg * a[1] if i == ax else o[i] + d[i]) for i in range(3)], z)))
        return (kind, e, c, [(tuple(c), tuple(1 if i == ax else 20 for i in range(3)), z)], cases, rng.getrandbits(30), 0.25)
    turned = rng.random() < 0.5
    spin = lambda: tuple(rng.choice([("p", "0", "0"), ("0", "n", "0"), ("0", "0", "p"), ("90", "0", "p")]))
    none = ("0", "0", "0")
    if kind == "move3":
        rob = spin() if turned and rng.random() < 0.5 else rng.choice([none, ("90", "0", "0"), ("0", "0", "90")])
        ob = (lambda: spin() if rng.random() < 0.6 else none) if euler_of(rob)[2] == 1 else (lambda: none)
    else:
        rob, ob = none, (lambda: rng.choice([none, none, ("0", "0", "p")]))
    obs = []
    for _ in range(rng.randint(1, 5)):
        obs.append((tuple(rng.randint(-20, 20) for _ in range(3)), tuple(rng.choice([1, 2, 4, 10]) for _ in range(3)), ob()))
    cases = []
    for _ in range(14):
        s = [rng.randint(-25, 25) for _ in range(3)]
        d = [rng.randint(-4, 4) for _ in range(3)] if rng.random() < 0.5 else [rng.randint(-20, 20) for _ in range(3)]
        if rng.random() < 0.25:
            d = [0, 0, 0]; d[rng.randrange(3)] = rng.randint(-20, 20)
        if rng.random() < 0.6:
            c = rng.choice(obs)
            s = [c[0][i] + (rng.choice([-1, 1]) * (c[1][i] + e[i] + rng.randint(-1, 4)) if rng.random() < 0.45 else rng.randint(-3, 3)) for i in range(3)]
        g = [s[i] + d[i] for i in range(3)]
        if kind == "turn3":
            two = lambda: rng.choice([none, ("p", "0", "0"), ("0", "0", "n"), ("0", "p", "0"), ("90", "0", "0"), ("p", "0", "n"), ("0", "n", "p"), ("0", "p", "90")])
            cases.append(((s, two()), (g, two())))
        else:
            cases.append(((s, rob), (g, rob)))
    return (kind, e, [rng.randint(-30, 30) for _ in range(3)], obs, cases, rng.getrandbits(30), rng.choice([0.25, 0.5, 0.125]))


def c27(ctx):
    global STREAMS, RUN3
    models(ctx, ["move", "fly"])
    rng = ctx.rng
    STREAMS = load("turtlebot_move", "streams")
    j2 = [gen2(rng) for _ in range(ctx.q(90, 1200))]
    tr = [t for ts in pmap(move2_chunk, j2) for t in ts]
    import sys
    for m in ("separating_axis", "streams", "problems", "run"):
        sys.modules.pop(m, None)
    sys.path[:] = [p for p in sys.path if not p.endswith("turtlebot_move")]
    RUN3 = load("kuka_carry", "run")
    j3 = [gen3(rng, k) for k in ("move3", "turn3") for _ in range(ctx.q(130, 1500))]
    tr += [t for ts in pmap(move3_chunk, j3) for t in ts]
    ctx.cov["motions"] = sum(len(t.get("cases", [])) for t in tr)
    ctx.validate("CollideTrace", tr)
    ctx.assumptions += ["contact without common inner points, and overlaps shorter than the examination step (0.08 resp. 0.03 in every coordinate), are unspecified"]
