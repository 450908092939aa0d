"""C25, C33: the anytime motion planners of both planning problems against specs/Anytime*.tla."""
import itertools, math, random, sys, types
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.collide import load

INV = "SPECIFICATION Spec\nINVARIANTS Right Short\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"
FACTORS = [[1, 1], [11, 10], [3, 2], [2, 1], [5, 2], [101, 100]]
U = 0.01                                  # one spec unit in metres


class Spy:
    """Stands in for the search behind the roadmap class: grows and answers as told."""
    def __init__(self, first, path):
        self.first, self.path = first, path
        self.ev, self.seq, self.checker, self.sampler, self.pending = [], True, None, None, None
    def install(self, cls):
        spy = self
        def init(self, *a, **k):
            import inspect
            b = inspect.signature(cls._real_init).bind(self, *a, **k).arguments
            spy.checker, spy.sampler = b["motion_validity_checker"], b["valid_state_sampler"]
        def grow(self, n_samples=None, *a, **k):
            n = n_samples if n_samples is not None else k.get("n")
            if spy.pending is not None or int(n) != n or (spy.ev and n <= spy.ev[-1][0]):
                spy.seq = False
            spy.pending = int(n)
            if len(spy.ev) > 4000:
                raise ArithmeticError("endless growth")
            return 0.1, np.zeros((0,))
        def query(self, start, goal, *a, **k):
            s, g = start, goal
            if spy.pending is None:
                spy.seq = False
                spy.pending = 0
            good = close(s, spy.s) and close(g, spy.g)
            i = len(spy.ev) + 1
            ok = spy.first != 0 and i >= spy.first
            spy.ev.append([spy.pending, int(good), int(ok)])
            spy.pending = None
            return (1.25, np.array(spy.path, float)) if ok else (sys.float_info.max, np.zeros((0, len(spy.s))))
        for n, f in (("__init__", init), ("grow_to_n_samples", grow), ("query_best_solution", query),
                     ("num_vertices", lambda self: 3), ("num_edges", lambda self: 2), ("__del__", lambda self: None)):
            setattr(cls, n, f)


def close(a, b):
    a = np.asarray(a, float).ravel()
    return a.shape == np.asarray(b).ravel().shape and bool(np.allclose(a, b, atol=1e-9))


def prep():
    import nonasymptotic.prm as P
    cls = P.SimpleNearestNeighborRadiusPRM
    cls._real_init = cls.__init__
    return cls


def f(x):
    return float(x) * U


# ------------------------------------------------------------------------------------------------- rover
def rover_run(job):
    import pybullet_tools.utils as u
    rng = random.Random(job["seed"])
    u.reset_world()
    half = job["robot"]                                        # half sides in spec units (odd), the body scaled to it
    rover = u.load_model(u.TURTLEBOT_URDF)
    u.WORLD[rover].half = np.array([f(half), f(half), 0.1])
    for nm in ("x", "y"):
        u.WORLD[rover].q[u.WORLD[rover].joints.index(nm)] = rng.choice([0.0, 1.5])
    obj = u.create_box(2 * f(job["obj"]), 2 * f(job["obj"]), 0.2) if rng.random() < 0.5 else u.create_cylinder(f(job["obj"]), 0.3)
    obs = []
    for c, h in job["obs"]:
        b = u.create_box(2 * f(h[0]), 2 * f(h[1]), 0.5)
        u.set_pose(b, u.Pose(u.Point(f(c[0]), f(c[1]), 0.25)))
        obs.append(b)
    from pybullet_tools.pr2_primitives import Conf
    s, g = [f(v) for v in job["s"]], [f(v) for v in job["g"]]
    q1, q2 = Conf(rover, [0, 1, 2], (s[0], s[1], 0.5)), Conf(rover, [0, 1, 2], (g[0], g[1], -0.5))
    problem = types.SimpleNamespace(obstacles=obs, fixed=obs, rover=rover, hallway_gap=job["gap"], limits=None, init_conf=q1)
    pth = [[f(v) for v in p] for p in job["path"]]
    h = job["obj"] if job["hold"] else half
    t = dict(kind="run", s=job["s"], g=job["g"], h=[h, h], obs=job["obs"], p=job["p"], q=job["q"], mn=job["mn"], mx=job["mx"])
    if job["adapt"]:
        from nonasymptotic.bound import compute_numerical_bound
        n = [int(compute_numerical_bound(job["gap"] - 2 * f(h) + 0.05 + e, 0.99, 16, 2, None)[0]) for e in (0, 1e-10, -1e-10)]
    spy = Spy(job["first"], pth)
    spy.s, spy.g = np.array(s), np.array(g)
    spy.install(CLS)
    kw = dict(custom_limits={}, teleport=job["tele"], start_samples=job["mn"], end_samples=job["mx"], factor=job["p"] / job["q"] if job["q"] > 1 else job["p"],
              adaptive_n=job["adapt"], holding=job["hold"], animate=False)
    def go():
        fn = STREAMS.get_anytime_motion_fn(problem, **kw)
        return fn(rover, q1, q2, obj) if job["hold"] else fn(rover, q1, q2)
    with quiet(), np.errstate(all="ignore"):
        r = guard(go)
        probes(t, spy, job, lambda p: np.array([[f(v) for v in p]]))
        draws(t, spy, [(min(c[i] - hh[i] for c, hh in job["obs"]) * U, max(c[i] + hh[i] for c, hh in job["obs"]) * U) for i in (0, 1)])
    if job["adapt"]:
        k = spy.ev[-1][0] if spy.ev and spy.ev[-1][0] in n else n[0]
        if spy.ev and spy.ev[0][0] + 1 in n:
            k = spy.ev[0][0] + 1
        t["mn"], t["mx"] = k - 1, k
    t.update(ev=spy.ev, seq=spy.seq and spy.pending is None, path=[i + 3 for i in range(len(pth))], reach=[1, 2] + [i + 3 for i in range(len(pth))],
             mode="codes" if job["tele"] else "fine", codes=[], fine=[], carry=False, pts=[])
    code = {tuple(np.round(p, 7)): i for i, p in reversed(list(enumerate([s, g] + pth, 1)))}
    K = 10000
    t["pts"] = [[int(round(v * K)) for v in p] for p in [s, g] + pth]
    if r[0] == "ok" and r[1] is None:
        t["out"] = "none"
    elif r[0] == "ok":
        t["out"] = "path"
        try:
            tr = list(r[1])[0]
            vals = [tuple(float(v) for v in c.values) for c in tr.path]
            t["carry"] = all(c.body == rover and list(c.joints) == [0, 1, 2] for c in tr.path)
            t["codes"] = [code.get(tuple(np.round(v[:2], 7)), 0) for v in vals]
            t["fine"] = [[int(round(x * K)) for x in v[:2]] for v in vals]
        except Exception:
            t["out"] = "shape"
        # equal points share the first code on both sides
        t["path"] = [code[tuple(np.round(p, 7))] for p in pth]
    else:
        t["out"] = "raise"
    if t["out"] != "path":
        t["path"] = []
    if t["out"] == "path" and code[tuple(np.round(g, 7))] != 2:
        t["mode"] = "fine"
    return t


def probes(t, spy, job, vec):
    t["probes"] = []
    if spy.checker is None:
        return
    for p in job["probes"]:
        v = guard(spy.checker, vec(p), vec(p))
        if v[0] == "ok" and np.asarray(v[1]).size == 1:
            t["probes"].append([p, int(bool(np.asarray(v[1]).ravel()[0]))])
        else:
            t["probes"].append([p, 2])


def draws(t, spy, lim):
    t["draws"] = True
    if spy.sampler is None:
        return
    for _ in range(6):
        v = guard(spy.sampler)
        t["draws"] = t["draws"] and v[0] == "ok" and np.shape(v[1]) == (len(lim),) and all(a - 1e-6 <= x <= b + 1e-6 for x, (a, b) in zip(v[1], lim))


# ------------------------------------------------------------------------------------------------- arm
def arm_run(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    rng = random.Random(job["seed"])
    u.reset_world()
    robot = u.load_model(u.DRAKE_IIWA_URDF)
    other = u.create_box(0.9, 0.9, 0.9)
    h = job["h"]
    body = u.create_box(*[2 * f(x) for x in h])
    obs = [u.OOBB(u.AABB(-np.array([f(x) for x in k]), np.array([f(x) for x in k])), u.Pose(u.Point(*[f(x) for x in c]))) for c, k in job["obs"]]
    far = [u.OOBB(x.aabb, u.multiply(x.pose, u.Pose(u.Point(f(3), f(7), f(11))))) for x in obs]
    lift = job["lift"]
    grasp = kp.BodyGrasp(body, u.Pose(u.Point(0, 0, job["hold"])), u.Pose(u.Point(0, 0, lift)), robot, 7)
    def conf_at(v):
        """Arm configuration at which the grasped body is at pose v (six numbers)."""
        w = u.multiply(u.Pose(u.Point(*v[:3]), u.Euler(*v[3:])), u.invert(grasp.grasp_pose))
        return kp.BodyConf(robot, tuple(w[0]) + tuple(u.euler_from_quat(w[1])) + (0.,))
    s, g = [f(v) for v in job["s"]] + [0., 0., 0.], [f(v) for v in job["g"]] + [0., 0., 0.]
    pth = [[f(v) for v in p[:3]] + [a / 100. for a in p[3:]] for p in job["path"]]
    body_aabb = u.get_aabb(body)
    t = dict(kind="run", s=job["s"], g=job["g"], h=h, obs=job["obs"], p=job["p"], q=job["q"], mn=job["mn"], mx=job["mx"])
    spy = Spy(job["first"], pth)
    spy.s, spy.g = np.array(s), np.array(g)
    spy.install(CLS)
    asked = watch_bound()
    way = [s, g] + pth
    bad = [way[i - 1][:3] for i in job["unreach"]]
    u.REACH[0] = lambda pose: not any(np.allclose(np.array(u.multiply(pose, grasp.grasp_pose)[0]) - [0, 0, lift], b, atol=1e-6) for b in bad)
    kw = dict(body_aabb_map={body: body_aabb, other: u.get_aabb(other)}, body_obstacle_map={body: obs, other: far}, teleport=False, start_samples=job["mn"], end_samples=job["mx"],
              factor=job["p"] / job["q"] if job["q"] > 1 else job["p"], collision_buffer=job["buffer"], theta_margin=job["theta"], adaptive_n=job["adapt"])
    c1, c2 = conf_at(s), conf_at(g)
    def go():
        return RUN3.get_insert_motion_gen(robot, **kw)(c1, c2, body, grasp)
    with quiet(), np.errstate(all="ignore"):
        r = guard(go)
        probes(t, spy, job, lambda p: np.array([[f(v) for v in p] + [0., 0., 0.]]))
        pts = [[c[i] + sg * k[i] for c, k in job["obs"] for sg in (-1, 1)] + [job["s"][i]] for i in range(3)]
        draws(t, spy, [(min(x) * U, max(x) * U) for x in pts] + [(-job["theta"], job["theta"])] * 3)
    u.REACH[0] = None
    t["asked"] = [a for a, _ in asked]
    if job["adapt"] and asked:
        t["mn"], t["mx"] = int(asked[-1][1]) - 1, int(asked[-1][1])
    t.update(ev=spy.ev, seq=spy.seq and spy.pending is None, mode="codes", codes=[], fine=[], carry=False, pts=[], out="raise",
             path=[i + 3 for i in range(len(pth))], reach=[i for i in range(1, len(way) + 1) if i not in job["unreach"]])
    if r[0] == "raise" and r[1] == "SubplanFailed" or r[0] == "ok" and r[1] is None:
        t["out"] = "none"
    elif r[0] == "ok":
        t["out"] = "path"
        try:
            (cmd,) = r[1]
            bps = list(cmd.body_paths)
            t["carry"] = all(b.body == robot and list(b.joints) == u.get_movable_joints(robot) and list(b.attachments) == [grasp] for b in bps) and len(bps) >= 1
            for q in [q for b in bps for q in b.path]:
                w = u.multiply(((q[0], q[1], q[2]), u.quat_from_euler(q[3:6])), grasp.grasp_pose)
                c = 0
                for i, x in enumerate(way, 1):
                    if np.linalg.norm(np.array(w[0]) - x[:3]) < lift + 1e-6 and u.quat_angle_between(w[1], u.quat_from_euler(x[3:])) < 1e-4:
                        c = i
                        break
                t["codes"].append(c)
        except Exception:
            t["out"] = "shape"
    return t


def watch_bound():
    import nonasymptotic.bound as B
    if not hasattr(B, "_true"):
        B._true = B.compute_numerical_bound
    asked = []
    def rec(clearance, success_prob, coll_free_volume, dim, tol):
        r = B._true(clearance, success_prob, coll_free_volume, dim, tol)
        asked.append(([float(clearance), float(success_prob), int(dim), tol is None], r[0]))
        return r
    B.compute_numerical_bound = rec
    if hasattr(RUN3, "compute_numerical_bound"):
        RUN3.compute_numerical_bound = rec
    return asked


def mono_run(seed):
    """Clearance handed to the bound: base, wider bin, larger object, larger buffer, elsewhere."""
    rng = random.Random(seed)
    w, hb, buf = rng.randint(30, 40), rng.choice([5, 7]), rng.choice([0.01, 0.02])
    def one(w, hb, buf, d=(0, 0, 0)):
        job = moved(arm_job(rng, 1, 1, 1, 1, 0, w=w, h=[hb, hb, 5], s=[0, 0, 60], g=[0, 0, 40]), d)
        job.update(adapt=True, buffer=buf, unreach=[])
        return arm_run(job)["asked"]
    a = [one(w, hb, buf), one(w + 4, hb, buf), one(w, hb + 2, buf), one(w, hb, buf + 0.02), one(w, hb, buf, [20 * rng.choice([-2, -1, 1, 2]), 20 * rng.choice([-2, -1, 1, 2]), 0])]
    if not all(a):
        return None
    d = [int(round(x[-1][0] * 10000)) for x in a]
    return dict(kind="mono", d=d, args=all(abs(x[-1][1] - 0.99) < 1e-9 and x[-1][2] == 6 and x[-1][3] for x in a))


# ------------------------------------------------------------------------------------------------- scenarios
def rover_job(rng, mn, mx, p, q, first):
    """Two rooms and a corridor between two walls; obstacle half sizes even, shapes odd: no exact contact."""
    robot, obj = rng.choice([1, 3, 5]), rng.choice([7, 9, 11])
    if rng.random() < 0.3:
        robot, obj = obj, robot
    obs = [[[0, 40], [20, 28]], [[0, -40], [20, 28]], [[-70, 0], [2, 70]], [[70, 0], [2, 70]]]
    for _ in range(rng.randint(0, 2)):
        obs.append([[rng.choice([-50, -40, 40, 50]), rng.choice([-40, -30, 30, 40])], [rng.choice([2, 4]), rng.choice([2, 4])]])
    hold = rng.random() < 0.5
    h = [obj if hold else robot] * 2
    def pt(free):
        for _ in range(500):
            x = [2 * rng.randint(-33, 33), 2 * rng.randint(-30, 30)]
            if is_free(x, h, obs) == free:
                return x
        raise Machinery("no such point")
    s, g = pt(True), pt(True)
    if rng.random() < 0.2:
        s = pt(False)
    if rng.random() < 0.2:
        g = pt(False)
    path = [[2 * rng.randint(-33, 33), 2 * rng.randint(-30, 30)] for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.15:
        path.append(list(path[-1]))
    if rng.random() < 0.15:
        path = [list(s)] + path + [list(g)]
    # probes where the two shapes disagree, and others
    pr = [[2 * rng.randint(-33, 33), 2 * rng.randint(-30, 30)] for _ in range(6)]
    for c, k in rng.sample(obs, 2):
        i = rng.randrange(2)
        x = list(c); x[i] = c[i] + rng.choice([-1, 1]) * (k[i] + 6)
        pr.append(x)
    job = dict(robot=robot, obj=obj, obs=obs, hold=hold, s=s, g=g, path=path, probes=pr, mn=mn, mx=mx, p=p, q=q, first=first, adapt=False,
               tele=rng.random() < 0.5, gap=rng.choice([0.3, 0.36, 0.5]), seed=rng.getrandbits(30))
    job["blocked"] = not (is_free(s, h, obs) and is_free(g, h, obs))
    return job


def is_free(x, h, obs):
    return not any(all(abs(x[i] - c[i]) < h[i] + k[i] for i in range(len(x))) for c, k in obs)


def bin_boxes(w, height, rng):
    """Four walls and a floor of thickness 2 (half 1) around an even width; even half heights keep exact contact away."""
    a, t = w // 2, 2
    z = height // 2
    return [[[-a, 0, z], [1, a, z]], [[a, 0, z], [1, a, z]], [[0, -a, z], [a, 1, z]], [[0, a, z], [a, 1, z]], [[0, 0, 0], [a, a, 1]]]


def moved(job, d):
    """The same scene somewhere else."""
    add = lambda p: [p[i] + d[i] for i in range(3)] + list(p[3:])
    return dict(job, obs=[[add(c), k] for c, k in job["obs"]], s=add(job["s"]), g=add(job["g"]), path=[add(p) for p in job["path"]], probes=[add(p) for p in job["probes"]])


def arm_job(rng, mn, mx, p, q, first, w=None, h=None, s=None, g=None):
    w = w or rng.choice([24, 30, 40])
    w -= w % 2
    obs = bin_boxes(w, 16, rng)
    h = h or [rng.choice([3, 5, 7]), rng.choice([3, 5, 7]), rng.choice([2, 4, 10])]
    half = [0.5] * 3
    def pt(free):
        for _ in range(2000):
            x = [rng.randint(-w, w), rng.randint(-w, w), rng.randint(-5, 60)]
            if is_free(x, h, obs) == free and not touch(x, h, obs):
                return x
        raise Machinery("no such pose")
    given = s is not None
    s, g = s or pt(True), g or pt(True)
    if not given and rng.random() < 0.2:
        s = pt(False)
    if not given and rng.random() < 0.2:
        g = pt(False)
    lat = [[10 * rng.randint(-4, 4) + 3, 10 * rng.randint(-4, 4) + 3, 10 * rng.randint(0, 6) + 3] for _ in range(rng.randint(1, 5))]
    path = []
    for x in lat:
        if all(sum((x[i] - y[i]) ** 2 for i in range(3)) > 9 for y in path + [s, g]):
            path.append(x + [rng.choice([0, 10, -10]), rng.choice([0, 10]), rng.choice([0, 20, -10])])
    pr = []
    while len(pr) < 8:
        x = [rng.randint(-w, w), rng.randint(-w, w), rng.randint(-5, 40)]
        if not touch(x, h, obs):
            pr.append(x)
    n = len(path) + 2
    unreach = [i for i in range(1, n + 1) if rng.random() < 0.12] if rng.random() < 0.4 else []
    if len(unreach) == n or not path or s == g:
        unreach = []
    job = dict(obs=obs, h=h, s=s, g=g, path=path, probes=pr, mn=mn, mx=mx, p=p, q=q, first=first if path else 0, adapt=False, lift=rng.choice([0.0, 0.01]), hold=rng.choice([0.0, 0.1]),
               buffer=0.02, theta=rng.choice([0.25, 0.5]), unreach=unreach, seed=rng.getrandbits(30))
    if sum((s[i] - g[i]) ** 2 for i in range(3)) <= 9:
        job["g"] = [g[0], g[1], g[2] + 8] if is_free([g[0], g[1], g[2] + 8], h, obs) and not touch([g[0], g[1], g[2] + 8], h, obs) else [0, 0, 80]
    return job


def touch(x, h, obs):
    """Within one unit of contact."""
    return any(max(abs(x[i] - c[i]) - h[i] - k[i] for i in range(3)) in (-1, 0, 1) for c, k in obs)


def search_model(ctx):
    prm = dict(n=ctx.q(12, 24), factors=FACTORS[:-1], variant="ok")
    ctx.tlc("AnytimeMC", INV, params=prm, label="search loop, exact budgets")
    for v, fs in (("stuck", [[11, 10]]), ("last", [[1, 1]]), ("on", [[2, 1]]), ("over", [[1, 1]])):
        ctx.refuted("AnytimeMC", INV, params=dict(n=6, factors=fs, variant=v))
    return prm


def run(ctx):
    global STREAMS, RUN3, CLS
    env.use("common", "noscipy", "tamp")
    np.seterr(all="ignore")
    ctxt = ctx.pid == "C33"                   # the collision context and the adaptive budget; C25: the search itself
    prm = search_model(ctx)
    r = ctx.tlc("AnytimeMC", "SPECIFICATION Spec\nINVARIANTS Scenario\nCHECK_DEADLOCK FALSE\n", params=dict(prm, n=ctx.q(9, 14)), label="scenarios")
    sc = [(x["mn"], x["mx"], x["p"], x["q"], x["t"]) for x in r.records]
    sc = sorted(set(sc))
    rng = ctx.rng
    for _ in range(ctx.q(300, 3000)):
        mn = rng.choice([1, 2, 5, 10, 100, 500, 997])
        mx = mn + rng.choice([0, 1, 2, 7, 50, 100, 1000, 30000])
        fc = rng.choice(FACTORS if mx < 3000 else FACTORS[1:5])
        sc.append((mn, mx, fc[0], fc[1], rng.choice([0, 0, 1, 2, 3, 5, 8])))
    if len(sc) < 300:
        raise Machinery("too few scenarios")
    CLS = prep()
    STREAMS = load("turtlebot_move", "streams")
    jobs = [rover_job(rng, *x) for x in (sc if ctx.thorough else rng.sample(sc, min(len(sc), 1500)))]
    for j in jobs:
        if ctxt and rng.random() < 0.3:
            j["adapt"] = True
            j["first"] = rng.choice([0, 1, 2])
            j["p"], j["q"] = 1, 1
    # with factor 1 the schedule in adaptive mode is the bound minus one, then the bound
    tr = pmap(rover_run, jobs)
    for m in ("separating_axis", "streams", "problems", "run"):
        sys.modules.pop(m, None)
    sys.path[:] = [p for p in sys.path if not p.endswith("turtlebot_move")]
    RUN3 = load("kuka_carry", "run")
    jobs3 = [arm_job(rng, *x) for x in (sc if ctx.thorough else rng.sample(sc, min(len(sc), 800)))]
    for j in jobs3:
        if ctxt and rng.random() < 0.3:
            j["adapt"], j["first"], j["p"], j["q"] = True, rng.choice([0, 1, 2]) if j["path"] else 0, 1, 1
    jobs3 = [moved(j, [20 * rng.randint(-3, 3), 20 * rng.randint(-3, 3), 20 * rng.randint(0, 2)]) if rng.random() < 0.4 else j for j in jobs3]
    tr3 = pmap(arm_run, jobs3)
    mono = [m for m in pmap(mono_run, [rng.getrandbits(30) for _ in range(ctx.q(24, 90))]) if m] if ctxt else []
    ctx.cov.update(rover_runs=len(tr), arm_runs=len(tr3), clearance_comparisons=len(mono), scenarios_from_model=len(r.records))
    for t, j in zip(tr + tr3, jobs + jobs3):
        t.pop("asked", None)
        t["scope"], t["adapt"] = "context" if ctxt else "loop", j["adapt"]
    ctx.validate("AnytimeTrace", tr + tr3 + mono)
    ctx.assumptions += ["minimum not above the maximum, factor at least 1", "the roadmap's answers are scripted; poses an exact contact away from an obstacle are not used"]
