"""C40, C41: job arrays and single planner runs against specs/Runs*.tla."""
import hashlib, logging, os, random, subprocess, sys, tempfile
import numpy as np
import env
from core import Machinery, REPO, guard, pmap, quiet
from checks.collide import load
from checks.planexec import purge

T = os.path.join(REPO, "exps", "tamp_environment")
ARRAYS = [("deploy_experiments.sh", "turtlebot_move", "limits"), ("deploy_experiments_kuka.sh", "kuka_carry", "limits"),
          ("deploy_experiments_kuka_adaptive.sh", "kuka_carry", "margins")]
MC = "SPECIFICATION Spec\nINVARIANTS Once\nCHECK_DEADLOCK FALSE\n"
SEED = "SPECIFICATION Spec\nINVARIANTS Same Other\nCHECK_DEADLOCK FALSE\n"
N = 200
I = lambda x: int(round(float(x) * 100000))


# ---- arrays ----------------------------------------------------------------------------------------------------
RECORD = "#!/bin/bash\n{ for a in \"$@\"; do printf '%s\\0' \"$a\"; done; printf '\\n\\0'; } >> \"$RUNS_OUT\"\n"


def options(argv):
    """The program and its options; a repeated option counts as it was given last."""
    k = [i for i, a in enumerate(argv) if a.endswith(".py")]
    if not k:
        return None, {}
    o, i = {}, k[0] + 1
    while i < len(argv):
        a = argv[i]
        if a.startswith("--"):
            name, eq, v = a[2:].partition("=")
            if not eq and i + 1 < len(argv) and not argv[i + 1].startswith("--"):
                v = argv[i + 1]
                i += 1
            o[name] = v
        i += 1
    return argv[k[0]], o


def num(s):
    try:
        return repr(float(s))
    except ValueError:
        return s


def task(job):
    script, i, args = job
    with tempfile.TemporaryDirectory() as d:
        b = os.path.join(d, "bin")
        os.mkdir(b)
        for x in ("python", "python3"):
            with open(os.path.join(b, x), "w") as f:
                f.write(RECORD)
            os.chmod(os.path.join(b, x), 0o755)
        out = os.path.join(d, "out")
        open(out, "w").close()
        e = {k: v for k, v in os.environ.items() if not k.startswith("SLURM")}
        e.update(PATH=b + ":" + e["PATH"], RUNS_OUT=out, SLURM_ARRAY_TASK_ID=str(i), HOME=d)
        # a copy of the launched text, as the cluster makes one; the working directory is the submitter's
        try:
            r = subprocess.run(["bash", os.path.join(T, script), *args], cwd=T, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(i=i, runs=[])
        raw = open(out, "rb").read().split(b"\0")[:-1]
    runs, cur = [], []
    for a in raw:
        if a == b"\n":
            runs.append(cur)
            cur = []
        else:
            cur.append(a.decode())
    res = []
    for argv in runs:
        prog, o = options(argv)
        path = os.path.normpath(os.path.join(T, prog or "?"))
        s = o.get("seed", "-1")
        res.append(dict(prog=os.path.basename(os.path.dirname(path)), there=bool(os.path.isfile(path) and os.path.basename(path) == "run.py"), seed=int(s) if s.lstrip("-").isdigit() else -7,
                        mode="bound" if "adaptive-n" in o else "limits", min=num(o.get("min-samples", "")), max=num(o.get("max-samples", "")),
                        margins=[num(o.get(x, "")) for x in ("delta", "collision-buffer", "theta-margin")], save=o.get("save-dir", "")))
    return dict(i=i, runs=res)


def c40(ctx):
    rng = ctx.rng
    ctx.tlc("RunsMC", MC, params=dict(n=ctx.q(12, 60), variant="ok"), label="the array, every task")
    for v in ("zero", "inside", "two", "rest"):
        ctx.refuted("RunsMC", MC, params=dict(n=4, variant=v))
    arrays = []
    for script, prog, form in ARRAYS:
        for k in range(ctx.q(3, 8)):
            if form == "margins":
                args = [repr(rng.choice([0.02, 0.03, 0.04, rng.uniform(0.01, 0.1)])), repr(rng.choice([0.02, 0.03, 0.04])), repr(rng.choice([np.pi / 18, np.pi / 32, rng.uniform(0.05, 0.3)]))]
            elif k == 1:
                args = ["0", "0", "1"]
            else:
                m = rng.randint(600, 100000)
                args = [str(rng.choice([m - 1, 99, 499])), str(m), "0" if k != 2 else rng.choice("01")]
            ids = list(range(1, N + 1)) if k == 0 or ctx.tier == "thorough" else sorted(set([1, 2, 10, 50, 100, 199, 200] + rng.sample(range(1, N + 1), 12)))
            ids += [0, N + 1, N + 2, 1000]
            arrays.append((script, prog, form, args, ids))
    flat = pmap(task, [(s, i, a) for s, _, _, a, ids in arrays for i in ids])
    tr, at = [], 0
    for s, prog, form, args, ids in arrays:
        tr.append(dict(kind="array", form=form, prog=prog, n=N, args=[num(a) if form == "margins" or i < 2 else a for i, a in enumerate(args)], tasks=flat[at:at + len(ids)]))
        at += len(ids)
    ctx.cov["array_tasks"] = len(flat)
    ctx.validate("RunsTrace", tr)
    ctx.assumptions += ["the job array runs its script by bash in the directory it was submitted from; the planner itself is a recorder"]


# ---- single runs -----------------------------------------------------------------------------------------------
def perform(mod, argv, seed, answer=None):
    """mod.main() on a command line, with whatever random state the process happens to have; the solver is a recorder."""
    import pybullet_tools.utils as u
    from pddlstream.algorithms import meta
    u.reset_world()
    random.seed(seed); np.random.seed(seed % 2 ** 31)
    got = []
    def solve(problem, **k):
        got.append((problem, k))
        return answer(problem) if answer else (None, float("inf"), [])
    root, old = logging.getLogger(), (list(logging.getLogger().handlers), logging.getLogger().level)
    root.handlers[:] = []
    real, meta.SOLVE[0] = sys.argv, solve
    sys.argv = ["run.py"] + argv
    try:
        with quiet(), np.errstate(all="ignore"):
            r = guard(mod.main, limit=60)
    finally:
        sys.argv, meta.SOLVE[0] = real, None
        for h in list(root.handlers):
            h.close()
        root.handlers[:] = old[0]
        root.setLevel(old[1])
    return r, got


def fingerprint(u):
    xs = []
    for b, x in u.WORLD.items():
        xs.append((x.kind, x.name, [round(float(v), 9) for v in x.half], [round(float(v), 9) for v in x.pose[0]], [round(abs(float(v)), 9) for v in x.pose[1]]))
    return sorted(map(repr, xs))


def digest(xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:16]


def facts(pp, name):
    return [tuple(f[1:]) for f in pp.init if str(f[0]).lower() == name]


def bound(clearance, dim, vol):
    import nonasymptotic.bound as B
    with quiet(), np.errstate(all="ignore"):
        return B.compute_numerical_bound(clearance, 0.99, vol, dim, None)[0]


def run_one(job):
    """A run with options; its summary, its world, and the budgets of its motion streams."""
    import pybullet_tools.utils as u
    kind, o, rest, seed = job
    rng = random.Random(seed)
    mod = RUN if kind == "rover" else RUN3
    with tempfile.TemporaryDirectory() as d:
        here = os.getcwd()
        os.chdir(d)
        save = rng.choice(["out", "a/b", os.path.join(d, "abs")])
        argv = [x for k, v in o.items() for x in ([] if v is False else ["--" + k] if v is True else ["--%s=%s" % (k, v)])] + ["--save-dir", save]
        rng.shuffle(rest)
        try:
            if rest and rest[0] == "unlucky":
                fail_once(u, rng)
            r, got = perform(mod, argv, rng.getrandbits(30))
        finally:
            u.REACH[0] = None
            os.chdir(here)
        t = dict(kind="run", prog=kind, rc="ok" if r[0] == "ok" else ":".join(map(str, r[:3])), solved=len(got), clear=0, objects=0, only=True, dirs=True, angle=[],
                 opts=dict(random=bool(o.get("randomize-delta", False)), delta=I(o.get("delta", 0.05 if kind == "rover" else 0.04)),
                           targets=int(o.get("num-targets", 1)) if kind == "rover" else 8, angle=I(o.get("theta-margin", np.pi / 12)) if kind == "arm" else 0))
        res = dict(t=t, world="", wires=[], clearances=[])
        if r[0] != "ok" or not got:
            return res
        pp, kw = got[0]
        top = os.path.realpath(os.path.join(d, save))
        tmp = os.path.realpath(os.path.join(d, kw.get("temp_dir") or "."))
        logs = [os.path.join(a, x) for a, _, fs in os.walk(d) for x in fs]
        first = lambda p: os.path.relpath(p, top).split(os.sep)[0]
        t["dirs"] = tmp.startswith(top + os.sep) and os.path.isdir(tmp) and bool(logs) and all(os.path.realpath(x).startswith(top + os.sep) and first(os.path.realpath(x)) == first(tmp) for x in logs)
    fp = fingerprint(u)
    mn, mx = int(o.get("min-samples", 10 if kind == "rover" else 500)), int(o.get("max-samples", 2000 if kind == "rover" else 30000))
    p, q = {None: (11, 10), "1.5": (3, 2), "2": (2, 1), "1.1": (11, 10), "2.5": (5, 2)}[o.get("factor")]
    adapt = bool(o.get("adaptive-n", False))
    (rover if kind == "rover" else arm)(u, pp, t, res, mn, mx, p, q, adapt, rng, o)
    res["world"] = digest((fp, res.pop("more", None)))
    return res


def rover(u, pp, t, res, mn, mx, p, q, adapt, rng, o):
    boxes = [b for b, x in u.WORLD.items() if x.kind == "box" and x.half[2] > 0.01]
    tgt = sorted(x[0] for x in facts(pp, "target"))
    t["objects"] = len(tgt)
    y = 0.75
    cross = [(u.body_pose(b)[0], u.WORLD[b].half) for b in boxes if abs(u.body_pose(b)[0][0]) < u.WORLD[b].half[0]]
    up = [c[1] - h[1] for c, h in cross if c[1] > y]
    dn = [c[1] + h[1] for c, h in cross if c[1] < y]
    gap = (min(up) - max(dn)) if up and dn else 9.
    t["clear"] = I(gap - 2 * max(u.WORLD[b].radius for b in tgt)) if tgt else -1
    res["more"] = sorted(repr([round(float(v), 9) for v in f[1].pose[0]]) for f in facts(pp, "pose"))
    (v, q0), = facts(pp, "atconf")
    obs = [(u.body_pose(b)[0][:2], u.WORLD[b].half[:2]) for b in boxes]
    lim = [(min(c[i] - k[i] for c, k in obs), max(c[i] + k[i] for c, k in obs)) for i in (0, 1)]
    ik = pp.stream_map["sample-ik"]
    goal = [f for f in facts(pp, "pose")]
    at = dict(facts(pp, "atpose"))
    for b in rng.sample(tgt, min(2, len(tgt))):
        a = at[b]
        z = [x for o_, x in goal if o_ == b and x is not a][0]
        with quiet():
            q1, q2 = ik(v, b, a)[0], ik(v, b, z)[0]
        for fn, args, s, g, h in ((pp.stream_map["sample-motion"], (v, q0, q1), list(q0.values), list(a.pose[0][:2]), u.WORLD[v].half[:2]),
                                  (pp.stream_map["sample-motion-holding"], (v, q1, q2, b), list(a.pose[0][:2]), list(z.pose[0][:2]), u.WORLD[b].half[:2])):
            m = (mn, mx)
            if adapt:
                c = gap - 2 * h[0] + 0.05
                B = bound(c, 2, 16)
                if B > 10 ** 9:
                    continue
                m = (B - 1, B)
            w = PDDL.wire(fn, args, s, g, list(h), obs, m[0], m[1], p, q, list, lim)
            w["adapt"] = adapt
            res["wires"].append(w)


def arm(u, pp, t, res, mn, mx, p, q, adapt, rng, o):
    movable = [x[0] for x in facts(pp, "graspable")]
    sinks = [x[0] for x in facts(pp, "sink")]
    stove = [x[0] for x in facts(pp, "stove")]
    t["objects"] = len(movable)
    kinds = sorted((x.kind, x.name or "") for b, x in u.WORLD.items() if b not in movable and b not in sinks)
    t["only"] = len(kinds) == 3 and set(movable) | set(sinks) | set(stove) <= set(u.WORLD) and len(sinks) == 8
    a = u.get_aabb(sinks[0])
    t["clear"] = I(a[1][0] - a[0][0] - 0.06)
    res["more"] = sorted(repr([round(float(v), 9) for v in f[1].pose[0]]) for f in facts(pp, "pose"))
    by = lambda w: facts(pp, w)
    pre, post = [x[0] for x in by("preinsert")], [x[0] for x in by("postinsert")]
    margin = float(o.get("theta-margin", np.pi / 12))
    asked = PDDL_A.watch_bound()
    for b in [movable[0], rng.choice(movable[1:])]:
        K = [f[1:] for f in by("kin") if f[0] == b]
        (p1, g, q1), = [f for f in K if any(f[2] is x for x in pre)]
        (p2, _, q2), = [f for f in K if any(f[2] is x for x in post)]
        s_, = [x[2] for x in by("supported") if x[0] == b and x[1] is p2]
        obs = [(np.array(pose[0]), np.array(h)) for h, pose in u.boxes_of(s_)]
        at = lambda c: np.array(u.multiply((c.values[:3], u.quat_from_euler(c.values[3:6])), g.value)[0])
        s, e = at(q1), at(q2)
        pts = [[x[i] + sg * y[i] for x, y in obs for sg in (-1, 1)] + [s[i]] for i in range(3)]
        def fn(*args):
            return pp.stream_map["plan-insert-motion"](*args)
        del asked[:]
        m = (mn, mx)
        if adapt:
            # the bound is asked for within the call: called once to learn it
            w = PDDL.wire(fn, (q1, q2, b, g), list(s), list(e), list(u.WORLD[b].half), obs, mn, mx, p, q, lambda x: list(x) + [0., 0., 0.], [(-9, 9)] * 6)
            if not asked:
                w["ev"] = w["ev"] or [[0, 0, 0]]
                res["wires"].append(dict(w, mn=1, mx=1))
                continue
            B = asked[-1][1]
            if B > 10 ** 9:
                continue
            m = (B - 1, B)
        w = PDDL.wire(fn, (q1, q2, b, g), list(s), list(e), list(u.WORLD[b].half), obs, m[0], m[1], p, q, lambda x: list(x) + [0., 0., 0.], [(min(x), max(x)) for x in pts] + [(-margin, margin)] * 3)
        w["adapt"] = adapt
        res["wires"].append(w)
        if asked:
            res["clearances"].append(I(asked[-1][0][0]))
        sm = SPY[0].sampler if SPY[0] else None
        if sm is not None:
            x = np.array([sm() for _ in range(120)])
            t["angle"] += [I(np.abs(x[:, k]).max()) for k in (3, 4, 5)]


SPY = [None]


def watch_spy():
    import checks.anytime as A
    real = A.Spy.install
    if getattr(A.Spy, "_kept", False):
        return
    def install(self, cls):
        SPY[0] = self
        real(self, cls)
    A.Spy.install, A.Spy._kept = install, True


def fail_once(u, rng):
    """Inverse kinematics fails for one call while the first problem is built; the world is built anew."""
    n, at = [0], rng.randint(10, 26)
    def reach(pose):
        n[0] += 1
        return not at <= n[0] < at + 60
    u.REACH[0] = reach


def c41(ctx):
    global RUN, RUN3, PDDL, PDDL_A
    import checks.pddl as PDDL_
    import checks.anytime as A
    PDDL, PDDL_A = PDDL_, A
    rng = ctx.rng
    ctx.tlc("SeedMC", SEED, params=dict(n=2, variant="ok"), label="seeded runs from any random state")
    for v in ("late", "half", "fixed", "none"):
        ctx.refuted("SeedMC", SEED, params=dict(n=1, variant=v))
    watch_spy()
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    RUN = load("turtlebot_move", "run")
    PDDL_.CLS = A.prep()
    R = lambda: rng.getrandbits(30)
    def limits():
        o = {}
        if rng.random() < 0.8:
            o["min-samples"] = rng.choice([1, 5, 40])
        if rng.random() < 0.8:
            o["max-samples"] = rng.choice([40, 60, 300])
        if "max-samples" in o and o.get("min-samples", 500) > o["max-samples"]:
            o["min-samples"] = 7
        if rng.random() < 0.6:
            o["factor"] = rng.choice(["1.5", "2", "1.1", "2.5"])
        return o
    def rover_opts():
        o = limits()
        if rng.random() < 0.7:
            o["delta"] = rng.choice([0.02, 0.1, 0.15, round(rng.uniform(0.01, 0.2), 4)])
        o["seed"] = rng.randint(0, 10 ** 6)
        if rng.random() < 0.6:
            o["num-targets"] = rng.randint(1, 4)
        if rng.random() < 0.25:
            o["randomize-delta"] = True
        if rng.random() < 0.35:
            o["adaptive-n"] = True
        return o
    n = ctx.q(40, 300)
    jobs = [("rover", rover_opts(), [], R()) for _ in range(n)]
    pairs = []
    for k in range(ctx.q(12, 80)):
        a, b = rover_opts(), limits()
        if k % 3 == 2:
            a["randomize-delta"] = True
        a["seed"] = {0: 0, 1: 0, 4: 1}.get(k, a["seed"])
        c = dict(a, **b)
        if k % 2 and k % 3 != 2:
            c["seed"] = a["seed"] + rng.choice([1, 7])
        if k % 3 == 2:
            c["seed"] = a["seed"] + (k % 2)
        pairs.append((("rover", a, [], R()), ("rover", c, [], R())))
    res = pmap(run_one, jobs + [x for p in pairs for x in p])
    tr = [r["t"] for r in res]
    wires = [w for r in res for w in r["wires"]]
    for i, (a, b) in enumerate(pairs):
        x, y = res[len(jobs) + 2 * i: len(jobs) + 2 * i + 2]
        if x["world"] and y["world"]:
            tr.append(dict(kind="pair", prog="rover", what="seed", s=[a[1]["seed"], b[1]["seed"]], w=[x["world"], y["world"]], c=[]))
            if a[1].get("randomize-delta") and a[1]["seed"] != b[1]["seed"]:
                tr.append(dict(kind="pair", prog="rover", what="random", s=[0, 0], w=[str(x["t"]["clear"]), str(y["t"]["clear"])], c=[]))
    # the arm
    purge()
    RUN3 = load("kuka_carry", "run")
    A.RUN3 = RUN3
    def arm_opts():
        o = limits()
        o["delta"] = rng.choice([0.03, 0.05, 0.06, round(rng.uniform(0.03, 0.1), 4)])
        if rng.random() < 0.7:
            o["theta-margin"] = rng.choice([0.1, 0.3, round(rng.uniform(0.02, 0.6), 4)])
        o["collision-buffer"] = rng.choice([0.01, 0.02, 0.03])
        o["seed"] = rng.randint(0, 10 ** 6)
        if rng.random() < 0.35:
            o["adaptive-n"] = True
        return o
    jobs = [("arm", arm_opts(), ["unlucky"] if rng.random() < 0.3 else [], R()) for _ in range(ctx.q(24, 160))]
    pairs = []
    for k in range(ctx.q(6, 30)):
        a = arm_opts()
        c = dict(a)
        if k % 2:
            c["collision-buffer"] = a["collision-buffer"] + rng.choice([0.01, 0.02])
        pairs.append((("arm", a, [], R()), ("arm", c, [], R())))
    res = pmap(run_one, jobs + [x for p in pairs for x in p])
    tr += [r["t"] for r in res]
    wires += [w for r in res for w in r["wires"]]
    for i, (a, b) in enumerate(pairs):
        x, y = res[len(jobs) + 2 * i: len(jobs) + 2 * i + 2]
        if x["world"] and y["world"] and i % 2 == 0:
            tr.append(dict(kind="pair", prog="arm", what="seed", s=[a[1]["seed"], b[1]["seed"]], w=[x["world"], y["world"]], c=[]))
        elif i % 2:
            tr.append(dict(kind="pair", prog="arm", what="buffer", s=[0, 0], w=["", ""], c=[list(z) for z in zip(x["clearances"][:1], y["clearances"][:1])]))
    ctx.cov.update(runs=sum(t["kind"] == "run" for t in tr), pairs=sum(t["kind"] == "pair" for t in tr), stream_calls=len(wires))
    ctx.validate("RunsTrace", tr, key=lambda t, v: "arm-seed" if t["kind"] == "pair" and t["prog"] == "arm" and v["c"] == "equal seeds, different worlds" else None)
    ctx.validate("AnytimeTrace", wires)
    ctx.assumptions += ["bodies are placed by a kinematic stand-in for the simulator", "the solver is a recorder; streams are called the way it would call them"]


def run(ctx):
    {"C40": c40, "C41": c41}[ctx.pid](ctx)
