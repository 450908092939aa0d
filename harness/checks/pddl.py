"""C28, C29, C34, C35, C36: the planning files and the generated planning problems against specs/Carry.tla and specs/Kitchen.tla."""
import copy, inspect, itertools, os, random, re, sys
import numpy as np
import env
from core import Machinery, REPO, guard, pmap, quiet
from checks.collide import load

TAMP = os.path.join(REPO, "exps", "tamp_environment")


# ---- reading the planning language -----------------------------------------------------------------------------
def sexp(text):
    text = re.sub(r";[^\n]*", "", text).lower()
    toks, stack = re.findall(r"[()]|[^\s()]+", text), [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            if len(stack) < 2:
                raise ValueError("unbalanced planning file")
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    if len(stack) != 1 or len(stack[0]) != 1:
        raise ValueError("unbalanced planning file")
    return stack[0][0]


def untype(xs):
    out, skip = [], False
    for x in xs:
        if skip:
            skip = False
        elif x == "-":
            skip = True
        else:
            out.append(x)
    return out


class Reader:
    def __init__(self):
        self.n = 0

    def formula(self, x, free, positive=True, env=None):
        env = env or {}
        op = x[0] if x else "and"
        if op == "and":
            xs = [self.formula(y, free, positive, env) for y in x[1:]]
            late = [y for y in xs if y["op"] in ("not", "eq", "exists")]
            return dict(op="and", xs=[y for y in xs if y not in late] + late)
        if op == "or":
            return dict(op="or", xs=[self.formula(y, free, positive, env) for y in x[1:]])
        if op == "not":
            return dict(op="not", x=self.formula(x[1], free, False, env))
        if op == "=":
            return dict(op="eq", a=[env.get(t, t) for t in x[1:]])
        if op == "exists":
            vs = untype(x[1])
            e = dict(env)
            new = []
            for v in vs:
                self.n += 1
                e[v] = "%s_%d" % (v, self.n)
                new.append(e[v])
            if positive:
                free += new
                return self.formula(x[2], free, True, e)
            return dict(op="exists", vars=new, x=self.formula(x[2], free, True, e))
        if op in ("forall", "imply", "when"):
            raise Machinery("planning language: %s is not supported" % op)
        return dict(op="atom", a=[x[0]] + [env.get(t, t) for t in x[1:]])

    def effect(self, x):
        if not x:
            return [], []
        if x[0] == "and":
            r = [self.effect(y) for y in x[1:]]
            return sum((a for a, _ in r), []), sum((d for _, d in r), [])
        if x[0] == "not":
            return [], [x[1]]
        if x[0] in ("forall", "when", "increase"):
            if x[0] == "increase":
                return [], []
            raise Machinery("planning language: effect %s is not supported" % x[0])
        return [x], []

    def fields(self, xs):
        return {xs[i]: xs[i + 1] for i in range(0, len(xs) - 1, 2)}

    def order(self, x, fl):
        """Conjuncts about changing facts first (they bind the most)."""
        if x["op"] == "and":
            key = lambda y: 0 if y["op"] == "atom" and y["a"][0] in fl else 2 if y["op"] in ("not", "eq", "exists") else 1
            x["xs"] = sorted((self.order(y, fl) for y in x["xs"]), key=key)
        return x

    def domain(self, text):
        acts, ders = [], []
        for d in sexp(text)[1:]:
            if d[0] == ":action":
                f, free = self.fields(d[2:]), []
                add, dele = self.effect(f.get(":effect", []))
                pre = self.formula(f.get(":precondition", ["and"]), free)
                acts.append(dict(name=d[1], params=untype(f.get(":parameters", [])), pre=pre, add=add, free=free, **{"del": dele}))
            elif d[0] in (":derived", ":axiom"):
                free = []
                x = self.formula(d[2], free)
                ders.append(dict(head=untype(d[1]), x=x, free=free))
        fl = {e[0] for a in acts for e in a["add"] + a["del"]} | {d["head"][0] for d in ders}
        for d in acts:
            self.order(d["pre"], fl)
        for d in ders:
            self.order(d["x"], fl)
        return acts, ders

    def streams(self, text):
        out = []
        for d in sexp(text)[1:]:
            if d and d[0] == ":stream":
                f, free = self.fields(d[2:]), []
                cert, _ = self.effect(f.get(":certified", []))
                out.append(dict(name=d[1], dom=self.formula(f.get(":domain", ["and"]), free), free=free, out=untype(f.get(":outputs", [])), cert=cert,
                                fluents=f.get(":fluents", []), **{"in": untype(f.get(":inputs", []))}))
        return out


class Names:
    """Stable names for the values of a planning problem: bodies by number, everything else by identity."""
    def __init__(self):
        self.keep, self.at = [], {}
    def __call__(self, x):
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            return "b%d" % x
        if id(x) not in self.at:
            self.at[id(x)] = "%s%d" % (type(x).__name__.lower(), len(self.keep))
            self.keep.append(x)
        return self.at[id(x)]
    def fact(self, f):
        return [str(f[0]).lower()] + [self(x) for x in f[1:]]
    def goal(self, g):
        if isinstance(g, str):
            raise Machinery("goal shape")
        op = str(g[0]).lower()
        if op in ("and", "or"):
            xs = [self.goal(y) for y in g[1:]]
            return dict(op=op, xs=xs)
        if op == "not":
            return dict(op="not", x=self.goal(g[1]))
        return dict(op="atom", a=[op] + [self(x) for x in g[1:]])


def bound(x):
    """Variables that a formula ties to facts."""
    if x["op"] == "atom":
        return {t for t in x["a"][1:] if t.startswith("?")}
    if x["op"] == "and":
        return set().union(*[bound(y) for y in x["xs"]])
    if x["op"] == "or":
        bs = [bound(y) for y in x["xs"]]
        return set.intersection(*bs) if bs else set()
    if x["op"] == "exists":
        return bound(x["x"]) - set(x["vars"])
    return set()


def used(fs):
    return {t for f in fs for t in f[1:] if t.startswith("?")}


def loose(acts, ders, sts):
    for a in acts:
        b = bound(a["pre"])
        if not set(a["params"]) <= b or not used(a["add"] + a["del"]) <= set(a["params"]):
            return "an action parameter is not tied to any fact"
    for d in ders:
        if not used([d["head"]]) <= bound(d["x"]):
            return "a derived fact is not tied to any fact"
    for t in sts:
        if not set(t["in"]) <= bound(t["dom"]) or not used(t["cert"]) <= set(t["in"]) | set(t["out"]):
            return "a stream input is not tied to any fact"
    return ""


class Loose(ValueError):
    pass


def parse(domain, stream):
    rd = Reader()
    acts, ders = rd.domain(domain)
    sts = rd.streams(stream)
    bad = loose(acts, ders, sts)
    if bad:
        raise Loose(bad)
    return acts, ders, sts


def shape_trouble(streams, smap, skip=()):
    if sorted(s["name"] for s in streams) != sorted(str(k).lower() for k in smap):
        return "declared streams and implemented streams differ"
    for s in streams:
        f = smap[[k for k in smap if str(k).lower() == s["name"]][0]]
        try:
            sg = inspect.signature(f)
            sg.bind(*s["in"], **({"fluents": []} if s["fluents"] else {}))
        except TypeError:
            return "a stream function does not take the declared inputs"
    return ""


# ---- the rover -------------------------------------------------------------------------------------------------
ROVER_NAMES = dict(ik="sample-ik", move="sample-motion", hold="sample-motion-holding")


def rover_instance(n, seed):
    import pybullet_tools.utils as u
    random.seed(seed); np.random.seed(seed % 2 ** 31)
    u.reset_world()
    with quiet():
        pb = PROBLEMS.hallway_manip(robot_scale=0.3, dd=0.05 + (seed % 7) / 50.0, num_target=n)
        pp = RUN.pddlstream_from_problem(pb, min_samples=10, max_samples=20, factor=1.5, adaptive_n=False, teleport=True)
    nm = Names()
    v, q0 = nm(pb.rover), nm(pb.init_conf)
    os_ = [nm(t) for t in pb.targets]
    ini, goal = [nm(p) for p in pb.target_init_poses], [nm(p) for p in pb.target_goal_poses]
    acts, ders, sts = parse(pp.domain_pddl, pp.stream_pddl)
    bad = shape_trouble(sts, pp.stream_map)
    return dict(dom="carry", actions=acts, derived=ders, streams=sts, init=[nm.fact(f) for f in pp.init], goal=nm.goal(pp.goal), bad=bad,
                world=dict(v=v, q0=q0, names=ROVER_NAMES, poses={o: sorted({a, b}) for o, a, b in zip(os_, ini, goal)},
                           at0=dict(zip(os_, ini)), goal=dict(zip(os_, goal))))


def wire(fn, args, s, g, h, obs, mn, mx, p, q, vec, lim):
    """One call of a motion stream over a roadmap that never answers: which shape, obstacles and budget does it plan with?  Units of 0.01 mm."""
    from checks.anytime import Spy, probes as ask, draws, close
    I = lambda v: [int(round(x * 100000)) for x in v]
    rng = random.Random(int(1000 * s[0]) + mn)
    pr = []
    while len(pr) < 60:
        c, k = rng.choice(obs)
        x = list(rng.choice((s, g, c))) if rng.random() < 0.3 else [c[i] + rng.uniform(-1, 1) * k[i] for i in range(len(s))]
        if rng.random() < 0.8:
            i = rng.randrange(len(s))
            x[i] = c[i] + rng.choice((-1, 1)) * (k[i] + rng.uniform(0.02, 1.3) * h[i])
        if all(abs(max(abs(x[i] - c[i]) - k[i] - h[i] for i in range(len(s)))) > 1e-3 for c, k in obs):
            pr.append(x)
    t = dict(kind="run", scope="all", adapt=False, s=I(s), g=I(g), h=I(h), obs=[[I(c), I(k)] for c, k in obs], mn=mn, mx=mx, p=p, q=q, path=[], reach=[], mode="codes", codes=[], fine=[], carry=False, pts=[])
    spy = Spy(0, [])
    spy.s, spy.g = np.array(vec(s)), np.array(vec(g))
    spy.install(CLS)
    with quiet(), np.errstate(all="ignore"):
        r = guard(fn, *args)
        ask(t, spy, dict(probes=[[int(round(v * 100000)) for v in x] for x in pr]), lambda x: np.array([vec([v / 100000. for v in x])]))
        draws(t, spy, lim)
    t.update(ev=spy.ev, seq=spy.seq and spy.pending is None, out="none" if r[0] == "ok" and r[1] is None or r[0] == "raise" and r[1] == "SubplanFailed" else "raise")
    return t


def rover_wires(n, seed):
    import pybullet_tools.utils as u
    rng = random.Random(seed)
    random.seed(seed); np.random.seed(seed % 2 ** 31)
    u.reset_world()
    mn, mx, (p, q) = rng.choice([1, 5, 40]), rng.choice([40, 60, 300]), rng.choice([(3, 2), (2, 1), (5, 4)])
    with quiet():
        pb = PROBLEMS.hallway_manip(robot_scale=0.3, dd=0.05 + (seed % 7) / 50.0, num_target=n)
        pp = RUN.pddlstream_from_problem(pb, min_samples=mn, max_samples=mx, factor=p / q, adaptive_n=False, teleport=True)
    out = []
    ik = pp.stream_map["sample-ik"]
    obs = [(u.body_pose(b)[0][:2], u.WORLD[b].half[:2]) for b in pb.obstacles]
    lim = [(min(c[i] - k[i] for c, k in obs), max(c[i] + k[i] for c, k in obs)) for i in (0, 1)]
    with quiet():
        out.append(rover_ik(pb, pp, rng))
    for o, a, b in zip(pb.targets, pb.target_init_poses, pb.target_goal_poses):
        q1, q2 = ik(pb.rover, o, a)[0], ik(pb.rover, o, b)[0]
        s, g = list(a.pose[0][:2]), list(b.pose[0][:2])
        V = lambda x: list(x)
        out.append(wire(pp.stream_map["sample-motion"], (pb.rover, pb.init_conf, q1), list(pb.init_conf.values), s, list(u.WORLD[pb.rover].half[:2]), obs, mn, mx, p, q, V, lim))
        out.append(wire(pp.stream_map["sample-motion-holding"], (pb.rover, q1, q2, o), s, g, list(u.WORLD[o].half[:2]), obs, mn, mx, p, q, V, lim))
    return out


def rover_wires1(job):
    return rover_wires(*job)


def rover_ik(pb, pp, rng):
    """Inverse kinematics for every pose, in any order and again; afterwards, what became of earlier answers."""
    ik = pp.stream_map["sample-ik"]
    I = lambda v: [int(round(float(x) * 100000)) for x in list(v)[:2]]
    ask = list(zip(pb.targets, pb.target_init_poses)) + list(zip(pb.targets, pb.target_goal_poses))
    ask += [rng.choice(ask) for _ in range(3)]
    rng.shuffle(ask)
    before, got = I(pb.init_conf.values), []
    t = dict(kind="ik", start=before, ask=[I(a.pose[0]) for _, a in ask], now=[], later=[], own=True, after=[])
    for o, a in ask:
        r = guard(ik, pb.rover, o, a)
        if r[0] != "ok" or r[1] is None or len(r[1]) != 1:
            t["now"].append([])
            continue
        c = r[1][0]
        t["own"] = t["own"] and c.body == pb.rover and list(c.joints) == list(pb.init_conf.joints)
        t["now"].append(I(c.values))
        got.append(c)
    t["later"] = [I(c.values) for c in got]
    t["after"] = I(pb.init_conf.values)
    return t


def rover_synth(n, k, rng):
    """The planning files with hand-made worlds: several poses per object, some objects already in place."""
    acts, ders, sts = parse(*[open(os.path.join(TAMP, "turtlebot_move", x)).read() for x in ("domain.pddl", "stream.pddl")])
    base = rover_instance(1, 3)
    names = {f[0] for f in base["init"]}
    os_ = ["o%d" % i for i in range(n)]
    poses = {o: ["p%s_%d" % (o, j) for j in range(k)] for o in os_}
    at0 = {o: rng.choice(poses[o]) for o in os_}
    goal = {o: rng.choice(poses[o]) for o in os_}
    # the real initial facts with objects, poses and the rover renamed
    w = base["world"]
    (b,) = w["at0"]
    init = []
    for f in base["init"]:
        for o in (os_ if b in f else [None]):
            m = {w["v"]: "v", w["q0"]: "q0", b: o}
            if w["at0"][b] in f or w["goal"][b] in f:
                for p in (poses[o] if f[0] == "pose" else [at0[o]]):
                    init.append([f[0]] + [m.get(x, p if x in (w["at0"][b], w["goal"][b]) else x) for x in f[1:]])
            else:
                init.append([f[0]] + [m.get(x, x) for x in f[1:]])
    g = dict(op="and", xs=[dict(op="atom", a=["atpose", o, goal[o]]) for o in os_])
    return dict(dom="carry", actions=acts, derived=ders, streams=sts, init=sorted(map(list, {tuple(f) for f in init})), goal=g, bad="",
                world=dict(v="v", q0="q0", names=ROVER_NAMES, poses=poses, at0=at0, goal=goal))


# ---- the arm ---------------------------------------------------------------------------------------------------
ARM_NAMES = dict(free="plan-free-motion", hold="plan-holding-motion", insert="plan-insert-motion")


def arm_instance(n, seed, mn=10, mx=20, p=3, q=2, keep=None):
    import pybullet_tools.utils as u
    rng = random.Random(seed)
    random.seed(seed); np.random.seed(seed % 2 ** 31)
    u.reset_world()
    gap = rng.choice([0.03, 0.05, 0.08])
    with quiet():
        robot = u.load_model(u.DRAKE_IIWA_URDF, fixed_base=True)
        stove = u.load_model(u.STOVE_URDF, pose=u.Pose(u.Point(x=0.9)))
        bodies, bins, oobbs = [], [], []
        sizes = [(rng.choice([0.02, 0.04, 0.06]), rng.choice([0.02, 0.05, 0.06]), rng.choice([0.2, 0.2, 0.25])) for _ in range(n)]
        for i in range(n):
            bodies.append(u.create_box(*sizes[i]))
            u.set_pose(bodies[-1], u.Pose(u.Point(0.8 + 0.07 * i, 0.3 - 0.11 * i, 0.05 + sizes[i][2] / 2 + 0.001)))
        W = 0.06 + gap
        for i in range(n + rng.randint(0, 1)):
            b, oo = RUN3.create_hollow("bin", width=W, length=W, height=0.15)
            pose = u.Pose(u.Point(x=-0.7, y=0.5 * i))
            u.set_pose(b, pose)
            bins.append(b)
            oobbs.append([u.OOBB(o[0], u.multiply(pose, o[1])) for o in oo])
        names = {stove: "stove"}
        names.update({b: "sink_%d" % b for b in bins}); names.update({b: "radish_%d" % b for b in bodies})
        links = {b: (4 if "sink" in nme else None) for b, nme in names.items()}
        real = {b: u.get_pose(b) for b in bodies}
        r = guard(RUN3.pddlstream_from_problem, robot, names=names, placement_links=links, movable=bodies, sink_obstacle_oobbs=oobbs, fixed=[stove] + bins,
                  min_samples=mn, max_samples=mx, factor=p / q, adaptive_n=False, collision_buffer=0.02, theta_margin=0.2)
    if keep is not None:
        keep.update(bodies=bodies, oobbs=oobbs, pp=r[1] if r[0] == "ok" else None, sizes=sizes)
    facts = dict(rc="ok" if r[0] == "ok" and r[1] is not None else "none", objs=[], sinks=[], kin=[], lift=100, roles=False, start=False)
    if facts["rc"] != "ok":
        return None, facts
    pp = r[1]
    nm = Names()
    init = [nm.fact(f) for f in pp.init]
    by = lambda p: [tuple(f[1:]) for f in pp.init if str(f[0]).lower() == p]
    pt = lambda pose: [int(round(x * 10000)) for x in pose[0]]
    for b, oo in zip(bins, oobbs):
        a = u.get_aabb(b)
        facts["sinks"].append(dict(lo=[int(round(x * 10000)) for x in a[0]], hi=[int(round(x * 10000)) for x in a[1]], t=100))
    for o, p, g, q in by("kin"):
        t = u.multiply(((q.values[0], q.values[1], q.values[2]), u.quat_from_euler(q.values[3:6])), g.value)
        facts["kin"].append([pt(t), pt(p.value)])
    post, pre = [x[0] for x in by("postinsert")], [x[0] for x in by("preinsert")]
    for i, b in enumerate(bodies):
        at = [p for o, p in by("atpose") if o == b]
        K = [(p, q) for o, p, g, q in by("kin") if o == b]
        po = [p for p, q in K if any(q is x for x in post)]
        pe = [p for p, q in K if any(q is x for x in pre)]
        sk = [s for o, p, s in by("supported") if o == b and any(p is x for x in po)]
        facts["objs"].append(dict(nat=len(at), pose=pt(at[0].value) if at else [0, 0, 0], real=pt(real[b]), half=[int(round(x * 5000)) for x in sizes[i]],
                                  home=sum(1 for p, q in K if at and p is at[0]), sink=bins.index(sk[0]) + 1 if sk else 0,
                                  npost=len(po), post=pt(po[0].value) if po else [0, 0, 0], npre=len(pe), pre=pt(pe[0].value) if pe else [0, 0, 0]))
    facts["roles"] = sorted(x[0] for x in by("sink")) == sorted(bins) and [x[0] for x in by("stove")] == [stove] and \
        sorted(by("stackable")) == sorted((b, s) for b in bodies for s in bins)
    q0 = [x[0] for x in by("atconf")]
    facts["start"] = len(q0) == 1 and tuple(q0[0].values) == (0.,) * 7
    if not q0:
        return None, facts
    acts, ders, sts = parse(pp.domain_pddl, pp.stream_pddl)
    S = lambda p: [nm.fact((p,) + f)[1:] for f in by(p)]
    world = dict(q0=nm(q0[0]), names=ARM_NAMES, confs=sorted(x[0] for x in S("conf")), kin=S("kin"), pre=[x[0] for x in S("preinsert")], post=[x[0] for x in S("postinsert")],
                 sup=S("supported"), stack=S("stackable"), sinks=[nm(b) for b in bins], stoves=[nm(stove)],
                 at0={nm(b): nm([p for o, p in by("atpose") if o == b][0]) for b in bodies if [p for o, p in by("atpose") if o == b]})
    return dict(dom="kitchen", actions=acts, derived=ders, streams=sts, init=init, goal=nm.goal(pp.goal), bad=shape_trouble(sts, pp.stream_map), world=world), facts


def arm_wires(job):
    """The insertion stream of every object: its own shape, its own bin, the configured budget."""
    import pybullet_tools.utils as u
    n, seed = job
    rng = random.Random(seed)
    mn, mx, (p, q) = rng.choice([1, 5, 40]), rng.choice([40, 60, 300]), rng.choice([(3, 2), (2, 1), (5, 4)])
    k = {}
    arm_instance(n, seed, mn, mx, p, q, k)
    if not k.get("pp"):
        return []
    pp, out = k["pp"], []
    by = lambda w: [tuple(f[1:]) for f in pp.init if str(f[0]).lower() == w]
    pre, post = [x[0] for x in by("preinsert")], [x[0] for x in by("postinsert")]
    for b, size, oo in zip(k["bodies"], k["sizes"], k["oobbs"]):
        K = [f[1:] for f in by("kin") if f[0] == b]
        a = [f for f in K if any(f[2] is x for x in pre)]
        c = [f for f in K if any(f[2] is x for x in post)]
        if not a or not c:
            continue
        (p1, g, q1), (p2, _, q2) = a[0], c[0]
        obs = [(o.pose[0], (np.array(o.aabb[1]) - np.array(o.aabb[0])) / 2) for o in oo]
        at = lambda f: np.array(u.multiply((f[2].values[:3], u.quat_from_euler(f[2].values[3:6])), f[1].value)[0])
        s, e = at(a[0]), at(c[0])
        pts = [[x[i] + sg * y[i] for x, y in obs for sg in (-1, 1)] + [s[i]] for i in range(3)]
        # the grasped body is turned by its grasp and pose; a probe has no turn
        fn = lambda *args: pp.stream_map["plan-insert-motion"](*args)
        out.append(wire(fn, (q1, q2, b, g), list(s), list(e), [x / 2 for x in size], obs, mn, mx, p, q, lambda x: list(x) + [0., 0., 0.],
                        [(min(x), max(x)) for x in pts] + [(-0.2, 0.2)] * 3))
    return out


def arm_synth(n, rng, odd=False):
    """The planning files with a hand-made world in which objects may also be cooked, and share confs, poses and surfaces."""
    acts, ders, sts = parse(*[open(os.path.join(TAMP, "kuka_carry", x)).read() for x in ("domain.pddl", "stream.pddl")])
    os_ = ["o%d" % i for i in range(n)]
    kin, pre, post, sup, confs = [], set(), set(), [], {"q0"}
    for o in os_:
        gs = ["g" + o] if rng.random() < 0.6 else ["g" + o, "h" + o]
        for j in range(4):
            for g in gs if rng.random() < 0.3 else gs[:1]:
                q = "q_%s_%d_%s" % (o, j, g) if rng.random() < 0.9 else "q_shared_%d" % j
                confs.add(q)
                kin.append([o, "p%s_%d" % (o, j), g, q])
                if j in (1, 3):
                    pre.add(q)
                if j == 2:
                    post.add(q)
        sup += [[o, "p%s_2" % o, "sink"], [o, "p%s_3" % o, "stove"]]
    stack = [[o, s] for o in os_ for s in ("sink", "stove") if (s == "stove" if odd else rng.random() < 0.9)]
    init = [["canmove"], ["handempty"], ["atconf", "q0"], ["sink", "sink"], ["stove", "stove"]] + [["conf", q] for q in sorted(confs)]
    init += [["kin"] + k for k in kin] + [["grasp", k[0], k[2]] for k in kin] + [["pose", k[0], k[1]] for k in kin] + [["atpose", o, "p%s_0" % o] for o in os_]
    init += [["preinsert", q] for q in sorted(pre)] + [["postinsert", q] for q in sorted(post)] + [["supported"] + s for s in sup] + [["stackable"] + s for s in stack] + [["graspable", o] for o in os_]
    goal = dict(op="and", xs=[dict(op="atom", a=["atconf", "q0"])] + [dict(op="atom", a=["cleaned", o]) for o in os_])
    world = dict(q0="q0", names=ARM_NAMES, confs=sorted(confs), kin=kin, pre=sorted(pre), post=sorted(post), sup=sup, stack=stack, sinks=["sink"], stoves=["stove"],
                 at0={o: "p%s_0" % o for o in os_})
    return dict(dom="kitchen", actions=acts, derived=ders, streams=sts, init=init, goal=goal, bad="", world=world)


# ----------------------------------------------------------------------------------------------------------------
def product(ctx, insts, must):
    """Explores planning files and specification together; the instances in `must` have to reach their goal."""
    import json
    p = os.path.join(ctx.scratch, "plan.ndjson")
    with open(p, "w") as f:
        for t in insts:
            f.write(json.dumps(t) + "\n")
    res = ctx.tlc("PlanTrace", "SPECIFICATION Spec\nINVARIANTS Reached\nCHECK_DEADLOCK FALSE\n", env=dict(TRACE=p), label="planning files with the specification")
    bad, done, goals = {}, set(), set()
    for x in res.records:
        if x["k"] == "V":
            bad.setdefault(x["t"], x)
        elif x["k"] == "D":
            done.add(x["t"])
        else:
            goals.add(x["t"])
    if done != set(range(1, len(insts) + 1)):
        raise Machinery("planning instances without a verdict")
    ctx.traces += len(insts)
    for i, x in sorted(bad.items()):
        ctx.violation(x["c"], dict(spec="PlanTrace", detail=x["d"], trace=insts[i - 1]))
    for i in must:
        if i + 1 not in goals and i + 1 not in bad:
            ctx.violation("the goal cannot be reached", dict(spec="PlanTrace", trace=insts[i]))
    ctx.cov["planning_states"] = res.distinct
    ctx.cov["instances_reaching_their_goal"] = len(goals)


def read_or_fail(ctx, fn):
    try:
        return fn()
    except Machinery:
        raise
    except Loose as e:
        ctx.violation(str(e), {})
        return None
    except ValueError as e:
        ctx.violation("the planning files cannot be read", dict(error=str(e)))
        return None


MCINV = "SPECIFICATION Spec\nINVARIANTS Sane NoRun Inserted CookedClean\nPROPERTIES CleanedSink\nCHECK_DEADLOCK FALSE\n"
GOAL = "SPECIFICATION Spec\nINVARIANTS NeverGoal\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    {"C28": c28, "C29": c29, "C34": c34, "C35": c35, "C36": c36}[ctx.pid](ctx)


def c28(ctx):
    global PROBLEMS, RUN
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    for n in ctx.q((1, 2, 3), (1, 2, 3, 4)):
        ctx.tlc("PlanMC", MCINV, params=dict(dom="carry", n=n, variant="ok"), label="carrying, %d objects" % n)
    ctx.refuted("PlanMC", GOAL, params=dict(dom="carry", n=2, variant="ok"), label="the goal is reachable")
    ctx.refuted("PlanMC", MCINV, params=dict(dom="carry", n=2, variant="two"))
    PROBLEMS, RUN = load("turtlebot_move", "problems"), load("turtlebot_move", "run")
    rng = ctx.rng
    def make():
        insts = [rover_instance(n, rng.getrandbits(20)) for n in ctx.q((1, 1, 2, 2, 3), (1, 1, 2, 2, 3, 3, 4))]
        k = len(insts)
        for n, m in ctx.q([(1, 1), (1, 3), (2, 2), (2, 3), (2, 3), (3, 2)], [(1, 1), (1, 4), (2, 2), (2, 3), (2, 4), (2, 4), (3, 2), (3, 3), (4, 2)]):
            insts.append(rover_synth(n, m, rng))
        return insts
    insts = read_or_fail(ctx, make)
    if insts:
        product(ctx, insts, range(len(insts)))
    ctx.assumptions += ["streams may return any output for any input in their domain; more certified facts only enable more actions, so the closure over all stream calls covers every history of calls"]


def c29(ctx):
    global RUN3
    env.use("common", "noscipy", "tamp", tamp="kuka_carry")
    for n in ctx.q((1, 2), (1, 2, 3)):
        ctx.tlc("PlanMC", MCINV, params=dict(dom="kitchen", n=n, variant="ok"), label="kitchen, %d objects" % n)
    ctx.refuted("PlanMC", GOAL, params=dict(dom="kitchen", n=2, variant="ok"), label="the goal is reachable")
    for v in ("fly", "run", "raw"):
        ctx.refuted("PlanMC", MCINV, params=dict(dom="kitchen", n=1, variant=v))
    RUN3 = load("kuka_carry", "run")
    rng = ctx.rng
    def make():
        real = [arm_instance(n, rng.getrandbits(20)) for n in ctx.q((1, 1, 1, 2, 2), (1, 1, 1, 1, 2, 2, 2, 2))]
        syn = [arm_synth(n, rng, i == 0) for i, n in enumerate(ctx.q((1,) * 7 + (2,), (1,) * 14 + (2, 2, 2, 2)))]
        return real, syn
    got = read_or_fail(ctx, make)
    if got:
        real, syn = got
        insts = [i for i, _ in real if i]
        if not insts:
            ctx.violation("no planning problem was built", {})
        else:
            product(ctx, insts + syn, range(len(insts)))
    ctx.assumptions += ["streams may return any output for any input in their domain"]


def c34(ctx):
    """The rover's streams answer what they are asked: shape, obstacles and budget of the motions; places of the configurations."""
    global PROBLEMS, RUN, CLS
    from checks.anytime import prep, search_model
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    search_model(ctx)
    PROBLEMS, RUN = load("turtlebot_move", "problems"), load("turtlebot_move", "run")
    rng = ctx.rng
    CLS = prep()
    w = sum(pmap(rover_wires1, [(n, rng.getrandbits(20)) for n in (1, 2, 3, 4) * ctx.q(3, 12)]), [])
    ctx.cov["motion_streams_called"] = sum(t["kind"] == "run" for t in w)
    ctx.validate("AnytimeTrace", w)


def c35(ctx):
    """The arm's initial facts are true of the world it was made from."""
    global RUN3
    env.use("common", "noscipy", "tamp", tamp="kuka_carry")
    ctx.tlc("FactsMC", "SPECIFICATION Spec\nINVARIANTS Honest Sound\nCHECK_DEADLOCK FALSE\n", params=dict(n=ctx.q(4, 6), variant="ok"), label="what facts may say")
    for v in ("share", "rim", "float"):
        ctx.refuted("FactsMC", "SPECIFICATION Spec\nINVARIANTS Honest Sound\nCHECK_DEADLOCK FALSE\n", params=dict(n=4, variant=v))
    RUN3 = load("kuka_carry", "run")
    rng = ctx.rng
    facts = read_or_fail(ctx, lambda: [arm_instance(n, rng.getrandbits(20))[1] for n in [1, 2, 3, 4, 5] * ctx.q(6, 40)])
    if facts:
        ctx.validate("WorldFacts", facts)
    ctx.assumptions += ["orientations are not looked at in the initial facts", "the simulator is a kinematic stand-in"]


def c36(ctx):
    """The insertion stream plans for the object's own shape, its own sink's walls and the configured budget."""
    global RUN3, CLS
    from checks.anytime import prep, search_model
    env.use("common", "noscipy", "tamp", tamp="kuka_carry")
    search_model(ctx)
    RUN3 = load("kuka_carry", "run")
    rng = ctx.rng
    CLS = prep()
    sys.modules["checks.anytime"].RUN3 = RUN3
    w = sum(pmap(arm_wires, [(n, rng.getrandbits(20)) for n in (1, 2, 3) * ctx.q(5, 20)]), [])
    if not w:
        raise Machinery("no insertion stream could be called")
    ctx.cov["insertion_streams_called"] = len(w)
    ctx.validate("AnytimeTrace", w)
