"""C46: what a planner run shows of the plan it found, against specs/Playback*.tla."""
import os, random, tempfile
from collections import namedtuple
import numpy as np
import env
from core import guard, pmap
from checks.collide import load
from checks.planexec import purge
from checks.runs import facts, perform

MC = "SPECIFICATION Spec\nINVARIANTS Grasps Only Whole Scenario\nCHECK_DEADLOCK FALSE\n"
Act = namedtuple("Action", ["name", "args"])


def near(a, b):
    return np.allclose(a[0], b[0], atol=1e-6) and abs(abs(float(np.dot(a[1], b[1]))) - 1) < 1e-6


def one(job):
    import pybullet_tools.utils as u
    prog, sc, seed = job
    rng = random.Random(seed)
    mod = RUN if prog == "rover" else RUN3
    n = sc["objects"] if prog == "rover" else 8
    t = dict(kind="play", prog=prog, vis=sc["vis"], found=sc["found"], sim=prog == "rover" and rng.random() < 0.4, tele=prog == "rover" and rng.random() < 0.4,
             rc="ok", objects=n, plan=sc["plan"] if sc["found"] else [], plays=[], start=True, moved=[], paths=[], home=[], at=[])
    o = ["--seed=%d" % rng.randint(0, 9999)] + ["--vis"] * t["vis"] + ["--teleport"] * t["tele"] + ["--simulate"] * t["sim"]
    if prog == "rover":
        o += ["--num-targets=%d" % n]
    rng.shuffle(o)
    P = (Rover if prog == "rover" else Arm)(u, mod, rng, t, sc)
    with tempfile.TemporaryDirectory() as d:
        here = os.getcwd()
        os.chdir(d)
        try:
            r, got = perform(mod, o + ["--save-dir", "out"], rng.getrandbits(30), P.answer)
            P.over()
        finally:
            os.chdir(here)
            P.release()
    if r[0] != "ok" or len(got) != 1:
        t["rc"] = ":".join(map(str, r[:3])) if r[0] != "ok" else "%d problems" % len(got)
    return t


class Show:
    """A solver that upsets the world and answers with a given plan; watches what is shown of it."""
    def __init__(self, u, mod, rng, t, sc):
        self.u, self.mod, self.rng, self.t, self.sc = u, mod, rng, t, sc
        self.places, self.home = [], None
        self.setup()

    def pose(self, k):
        return self.u.body_pose(self.objs[k])

    def code(self, k):
        for p, x in self.places[k]:
            if near(self.pose(k), x):
                return p
        return 9

    def stated(self):
        """Everything stands where the problem says, and whatever else there is where it was when the search began."""
        u = self.u
        return bool(all(near(self.pose(k), self.places[k][0][1]) for k in range(len(self.objs))) and np.allclose([u.WORLD[self.robot].q[j] for j in self.joints], self.home, atol=1e-9)
                    and all(b in u.WORLD and near(u.body_pose(b), x) for b, x in self.rest.items()))

    def answer(self, problem):
        u, rng = self.u, self.rng
        at = dict(facts(problem, "atpose"))
        self.read(problem)
        self.objs = sorted(at)
        self.rest = {b: u.body_pose(b) for b in u.WORLD if b not in self.objs and b != self.robot}
        plan = self.plan(problem)
        # the search leaves the world anyhow
        left = self.sc["left"]
        for k, b in enumerate(self.objs):
            c = left[k % len(left)] if left else rng.randint(0, 2)
            if c == 1:
                u.set_pose(b, self.places[k][1][1])
            elif c == 2:
                u.set_pose(b, ((rng.uniform(-3, 3), rng.uniform(-3, 3), 0.3), u.quat_from_euler([0, 0, rng.random()])))
        if rng.random() < 0.8:
            u.WORLD[self.robot].q[:] = [rng.uniform(-1, 1) for _ in u.WORLD[self.robot].q]
        if rng.random() < 0.3:
            b = rng.choice(sorted(self.rest))
            u.set_pose(b, u.multiply(((0.01, 0.02, 0.), u.unit_quat()), u.get_pose(b)))
        self.began()
        return (plan if self.t["found"] else None), 1., []

    def over(self):
        self.t["at"] = [self.code(k) for k in range(len(self.objs))] if self.places else []


class Rover(Show):
    def setup(self):
        import pybullet_tools.pr2_primitives as pr
        self.pr = pr
        pr.SHOW[0] = self.show

    def release(self):
        self.pr.SHOW[0] = None

    def read(self, pp):
        (self.robot, q0), = facts(pp, "atconf")
        self.home, self.joints = list(q0.values), list(q0.joints)
        at, self.P = dict(facts(pp, "atpose")), {}
        for b, p in facts(pp, "pose"):
            if p is not at[b]:
                self.P[b] = p
        self.at, self.q0 = at, q0
        self.places = [[(0, at[b].pose), (1, self.P[b].pose)] for b in sorted(at)]

    def plan(self, pp):
        pr, rng, v = self.pr, self.rng, self.robot
        steps, self.paths, q = [], [], self.q0
        where = {b: self.at[b] for b in self.objs}
        conf = lambda x: pr.Conf(v, self.joints, tuple(x)[:len(self.joints)])
        for k, to in self.sc["plan"]:
            b = self.objs[k - 1]
            new = self.at[b] if to == 0 else self.P[b]
            for name, p in (("pick", where[b]), ("place", new)):
                end = conf((p.pose[0][0], p.pose[0][1], 0.))
                way = [q] + [conf([rng.uniform(-2, 2), rng.uniform(-2, 2), 0.]) for _ in range(rng.randint(0, 3))] + [end]
                self.paths.append([tuple(c.values) for c in way])
                T = pr.Trajectory(way)
                steps.append(Act(name, (v, q, T, end, p, b)) if rng.random() < 0.5 else (name, (v, q, T, end, p, b)))
                q = end
            where[b] = new
        return steps

    def began(self):
        pass

    def show(self, how, commands, step):
        u, t, v = self.u, self.t, self.robot
        if not t["plays"]:
            t["start"] = self.stated()
        t["plays"].append([how, step is not None])
        held = []
        for c in commands:
            if isinstance(c, self.pr.Trajectory):
                path = [tuple(x.values) for x in c.path]
                hit = [i + 1 for i, x in enumerate(self.paths) if np.shape(x) == np.shape(path) and np.allclose(x, path)]
                # two trips may be alike: the one that is due
                due = len([e for e in t["moved"] if e[0] == "go"]) + 1
                t["moved"].append(["go", due if due in hit else hit[0] if hit else 0])
                for x in path:
                    u.WORLD[v].q[:2] = list(x)[:2]
                    for b in held:
                        u.set_pose(b, ((x[0], x[1], u.get_pose(b)[0][2]), u.get_pose(b)[1]))
            elif isinstance(c, (self.pr.Attach, self.pr.Detach)):
                fix = isinstance(c, self.pr.Attach)
                ok = c.robot == v and c.body in self.objs
                t["moved"].append(["fix" if fix else "free", self.objs.index(c.body) + 1 if ok else 0])
                if fix and ok and np.allclose(u.get_pose(c.body)[0][:2], u.WORLD[v].q[:2], atol=1e-6):
                    held.append(c.body)
                elif not fix and c.body in held:
                    held.remove(c.body)
            else:
                t["moved"].append(["?", 0])


class Arm(Show):
    def setup(self):
        self.u.REACH[0] = None

    def release(self):
        self.u.LOG = []

    def read(self, pp):
        (q0,), = facts(pp, "atconf")
        self.q0, self.robot, self.home, self.joints = q0, q0.body, list(q0.values), list(q0.joints)
        by = lambda w: [x[0] for x in facts(pp, w)]
        pre, post = by("preinsert"), by("postinsert")
        at = dict(facts(pp, "atpose"))
        self.K = {}
        for b in at:
            K = [f[1:] for f in facts(pp, "kin") if f[0] == b]
            first = [f for f in K if f[0] is at[b]][0]
            (a,), (z,) = [f for f in K if any(f[2] is x for x in pre)], [f for f in K if any(f[2] is x for x in post)]
            self.K[b] = (first, a, z)
        # where the hand holds the object when it stands over a place
        u = self.u
        def held(q, g):
            keep, u.WORLD[self.robot].q[:] = list(u.WORLD[self.robot].q), list(q.values)
            x = u.multiply(u.get_link_pose(self.robot, g.link), g.value)
            u.WORLD[self.robot].q[:] = keep
            return x
        self.places = [[(0, at[b].pose), (1, held(self.K[b][2][2], self.K[b][2][1])), (0, held(self.K[b][0][2], self.K[b][0][1]))] for b in sorted(at)]

    def plan(self, pp):
        import kuka_primitives as kp
        rng, t = self.rng, self.t
        self.codes = [tuple(self.home)]
        def code(q):
            q = tuple(float(v) for v in q)
            for i, c in enumerate(self.codes):
                if np.allclose(c, q, atol=1e-9):
                    return i + 1
            self.codes.append(q)
            return len(self.codes)
        rnd = lambda: tuple(rng.uniform(-1, 1) for _ in range(7))
        def path(a, z, att):
            way = [tuple(a.values)] + [rnd() for _ in range(rng.randint(0, 2))] + [tuple(z.values)]
            t["paths"].append(dict(way=[code(q) for q in way], att=[self.objs.index(g.body) + 1 for g in att]))
            return kp.Command([kp.BodyPath(self.robot, way, attachments=att)])
        steps, q, st = [], self.q0, {b: 0 for b in self.objs}
        for k, to in self.sc["plan"]:
            b = self.objs[k - 1]
            (p1, g, q1), (pa, _, qa), (p3, _, q3) = self.K[b]
            src, dst = ((p1, q1), (p3, q3)) if to else ((p3, q3), (p1, q1))
            steps += [("move_free", (q, src[1], path(q, src[1], []))), ("pick", (b, src[0], g, src[1]))]
            if to:
                steps += [("move_holding", (q1, qa, b, g, path(q1, qa, [g]))), ("move_insert", (qa, q3, b, g, path(qa, q3, [g])))]
            else:
                steps += [("move_holding", (q3, q1, b, g, path(q3, q1, [g])))]
            steps += [("place", (b, dst[0], g, dst[1]))] + ([("clean", (b, "sink"))] if to else [])
            q = dst[1]
        if rng.random() < 0.7:
            steps.append(("move_free", (q, self.q0, path(q, self.q0, []))))
        t["home"] = [1, []]
        return [Act(*s) if rng.random() < 0.5 else s for s in steps]

    def began(self):
        me = self
        class Log(list):
            def append(self, e):
                list.append(self, e)
                me.saw(e)
        self.shots = []
        self.u.LOG = Log()

    def saw(self, e):
        t = self.t
        if e[0] == "q" and e[1] == self.robot:
            c = [i + 1 for i, q in enumerate(self.codes) if np.allclose(q, e[2], atol=1e-7)]
            c = c[0] if c else 0
            if c != 1 and not t["plays"]:
                t["plays"].append(["steps", True])
                self.moving = True
                # nothing has been carried yet
                keep, self.u.WORLD[self.robot].q[:] = list(self.u.WORLD[self.robot].q), self.home
                t["start"] = self.stated() and bool(self.shots)
                self.u.WORLD[self.robot].q[:] = keep
            self.shots.append([c, []])
        elif e[0] == "attached" and self.shots and e[1] in self.objs:
            self.shots[-1][1].append(self.objs.index(e[1]) + 1)

    def over(self):
        super().over()
        s = [[c, sorted(a)] for c, a in getattr(self, "shots", [])]
        # taking on the initial position shows nothing
        while s and not self.t["plays"] and s[-1] == [1, []]:
            s.pop()
        self.t["moved"] = s
        self.u.LOG = []


def run(ctx):
    global RUN, RUN3
    rng = ctx.rng
    R = lambda: rng.getrandbits(30)
    par = dict(k=2, n=ctx.q(3, 4), variant="ok", emit=False)
    ctx.tlc("PlaybackMC", MC, params=par, label="runs with and without viewer and plan")
    for v in ("norestore", "early", "hidden", "twice", "partial"):
        ctx.refuted("PlaybackMC", MC, params=dict(par, n=2, variant=v))
    sc = ctx.tlc("PlaybackMC", MC, params=dict(k=2, n=2, variant="ok", emit=True), label="scenarios").records
    sc = [dict(vis=x["vis"], found=x["found"], plan=x["plan"], left=x["left"], objects=2) for x in sc]
    rng.shuffle(sc)
    some = [x for x in sc if x["found"] and x["vis"]][:ctx.q(40, 400)] + [x for x in sc if not (x["found"] and x["vis"])][:ctx.q(14, 80)]
    def rand(n):
        at, plan = {}, []
        for _ in range(rng.randint(1, 2 * n)):
            k = rng.randint(1, n)
            at[k] = 1 - at.get(k, 0)
            plan.append([k, at[k]])
        return dict(vis=rng.random() < 0.85, found=rng.random() < 0.85, plan=plan, left=[], objects=n)
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    RUN = load("turtlebot_move", "run")
    tr = pmap(one, [("rover", x, R()) for x in some] + [("rover", rand(rng.randint(1, 5)), R()) for _ in range(ctx.q(30, 300))])
    purge()
    RUN3 = load("kuka_carry", "run")
    tr += pmap(one, [("arm", x, R()) for x in some] + [("arm", rand(8), R()) for _ in range(ctx.q(16, 150))])
    ctx.cov.update(runs=len(tr), shown=sum(t["vis"] and t["found"] for t in tr), scenarios_from_model=len(some))
    ctx.validate("PlaybackTrace", tr)
    ctx.assumptions += ["the solver answers with a given plan; the viewer and the simulator are kinematic stand-ins"]
