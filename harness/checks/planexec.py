"""C30: translation of plans and execution of commands against specs/Commands*.tla and ExecMC.tla."""
import random, sys
from collections import namedtuple
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.collide import load

Act = namedtuple("Action", ["name", "args"])
LAWS = "SPECIFICATION Spec\nINVARIANTS Twice Backwards Undo SameBodies Dense Scenario\nCHECK_DEADLOCK FALSE\n"
EXEC = "SPECIFICATION Spec\nINVARIANTS Ends Scenario\nCHECK_DEADLOCK FALSE\n"


# ---- the rover's plans ---------------------------------------------------------------------------------------
def carry(job):
    from pybullet_tools.pr2_primitives import Attach, Conf, Detach, Trajectory
    plan, seed = job
    rng = random.Random(seed)
    r1, ids, steps, real = {}, {}, [], []
    body = lambda x: ids.setdefault(x, len(ids) + 3)
    traj = []
    t = dict(kind="carry", plan=[], rc="ok", out=[])
    for name, v, o in plan:
        T = Trajectory([Conf(body(v), [0, 1, 2], (rng.random(), rng.random(), 0.)) for _ in range(rng.randint(1, 4))])
        traj.append(T)
        q1, q2, p = (Conf(body(v), [0, 1, 2], (0., 0., 0.)) for _ in range(3))
        args = (body(v), q1, T, q2, p, body(o))
        real.append(Act(name, args) if rng.random() < 0.5 else (name, args))
        t["plan"].append([name, v, "t%d" % len(traj), o])
    back = {i: x for x, i in ids.items()}
    with quiet():
        r = guard(RUN.post_process, None, real if rng.random() < 0.7 else tuple(real))
    if r[0] != "ok" or r[1] is None:
        t["rc"] = r[1] if r[0] == "raise" else r[0] if r[0] != "ok" else "none"
        return t
    for c in r[1]:
        k = [i for i, x in enumerate(traj) if x is c]
        if k:
            t["out"].append(["go", "t%d" % (k[0] + 1)])
        elif isinstance(c, (Attach, Detach)):
            t["out"].append(["fix" if isinstance(c, Attach) else "free", back.get(c.robot, "?"), back.get(c.body, "?")])
        else:
            t["out"].append(["?"])
    return t


# ---- the arm's plans -----------------------------------------------------------------------------------------
def kitchen(job):
    import kuka_primitives as kp
    plan, seed = job
    rng = random.Random(seed)
    parts, steps, real = [], [], []
    for name in plan:
        if name.startswith("move"):
            ps = [kp.BodyPath(1, [(0.,) * 7], joints=list(range(7))) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            real.append((name, tuple(["x"] * rng.randint(2, 4) + [kp.Command(ps)])))
            steps.append([name, ["t%d" % (len(parts) + i + 1) for i in range(len(ps))]])
            parts += ps
        else:
            real.append((name, ("o", "p", "g", "q")[:rng.choice([2, 4])]))
            steps.append([name, []])
    real = [Act(*a) if rng.random() < 0.5 else a for a in real]
    t = dict(kind="kitchen", plan=steps, rc="ok", out=[])
    with quiet():
        r = guard(RUN3.postprocess_plan, real)
    if r[0] != "ok" or not hasattr(r[1], "body_paths"):
        t["rc"] = r[1] if r[0] == "raise" else "none"
        return t
    for c in r[1].body_paths:
        k = [i for i, x in enumerate(parts) if x is c]
        t["out"].append("t%d" % (k[0] + 1) if k else "?")
    return t


# ---- commands ------------------------------------------------------------------------------------------------
class Watch(list):
    """Looks at the world just before every new robot position."""
    def __init__(self, look):
        self.look, self.shots, self.on = look, [], False
    def append(self, e):
        if e[0] == "q":                                  # the robot has moved, what it carries has not yet
            if self.on:
                self.shots.append(self.look(self.q))
            self.on, self.q = True, e[2]
        list.append(self, e)
    def done(self):
        if self.on:
            self.shots.append(self.look(self.q))
        return self.shots


def cmd(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    parts, n, seed = job
    rng = random.Random(seed)
    u.reset_world()
    robot = u.load_model(u.DRAKE_IIWA_URDF)
    tool = u.link_from_name(robot, "x")
    body = {x: u.create_box(0.05, 0.05, 0.1) for x in "ab"}
    back = {i: x for x, i in body.items()}
    back[robot] = "r"
    home = {x: u.Pose(u.Point(3 + rng.random(), i, 0.5)) for i, x in enumerate("ab")}
    grasp = {x: kp.BodyGrasp(body[x], u.Pose(u.Point(0, 0, rng.uniform(0.05, 0.2)), u.Euler(0, 0, rng.random())), u.Pose(u.Point(0, 0, 0.01)), robot, tool) for x in "ab"}
    conf = {w: tuple(rng.uniform(-1, 1) for _ in range(7)) for w in range(1, 5)}
    joints = u.get_movable_joints(robot)
    def build():
        out = []
        for p in parts:
            if p["k"] == "path":
                way = [conf[w] for w in p["way"]]
                kw = dict(joints=joints) if rng.random() < 0.7 else {}
                if p["att"] or rng.random() < 0.5:
                    kw["attachments"] = [grasp[x] for x in p["att"]]
                out.append(kp.BodyPath(robot, way, **kw))
            else:
                out.append((kp.Attach if p["k"] == "fix" else kp.Detach)(body[p["b"]], robot, tool))
        return kp.Command(out)
    def code(q):
        for w, v in conf.items():
            if np.allclose(q, v, atol=1e-9):
                return w
        return 0
    seen = dict(a=[], b=[])
    def held(x, q):
        keep = list(u.WORLD[robot].q)
        u.WORLD[robot].q[:] = list(q)
        g = u.multiply(u.get_link_pose(robot, tool), grasp[x].grasp_pose)
        u.WORLD[robot].q[:] = keep
        pose = u.WORLD[body[x]].pose
        return np.allclose(pose[0], g[0], atol=1e-7) and u.quat_angle_between(pose[1], g[1]) < 1e-5
    def where(x, q):
        """The way point a body was carried to: -1 home, 0 in between way points, -2 anywhere else."""
        pose = u.WORLD[body[x]].pose
        if np.allclose(pose[0], home[x][0], atol=1e-9):
            return -1
        for w, v in conf.items():
            if held(x, v):
                return w
        if held(x, q):
            seen[x].append(pose)
            return 0
        return 0 if any(np.allclose(pose[0], y[0], atol=1e-7) for y in seen[x]) else -2
    def look(q=None):
        q = list(u.WORLD[robot].q) if q is None else q
        return dict(conf=code(q), at={x: where(x, q) for x in "ab"})
    def fresh():
        for x in "ab":
            u.set_pose(body[x], home[x])
            seen[x] = []
        u.WORLD[robot].q[:] = [0.] * 7
    def play(run):
        fresh()
        u.LOG = Watch(look)
        run()
        s = u.LOG.done()
        u.LOG = []
        return s
    who = []
    def control(c):
        fresh()
        u.LOG = []
        c.control(real_time=rng.random() < 0.5, dt=0)
        out = []
        for e in u.LOG:
            if e[0] == "control":
                out.append(["go", code(e[2])])
                who.append(e[1] == robot)
            elif e[0] in ("fix", "free"):
                out.append([e[0], back.get(e[1], "?")])
                who.append(e[2] == robot and e[3] == tool)
        u.LOG = []
        return out
    def each(c):
        fresh()
        u.LOG = []
        return [look() for p in c.body_paths for _ in p.iterator()]
    def go():
        c = build()
        r, b = c.reverse(), c.reverse().reverse()
        f = c.refine(num_steps=n)
        t.update(play=play(lambda: c.execute(time_step=0.0)), each=each(c), step=play(c.step), ctl=control(c), rplay=play(r.execute), rctl=control(r), bplay=play(b.execute), bctl=control(b),
                 fplay=play(f.execute), fctl=control(f), bodies=sorted(back.get(x, "?") for x in c.bodies()), who=all(who))
        # looking at a command does not change it
        if play(c.execute) != t["play"] or control(c) != t["ctl"]:
            t["rc"] = "changed"
    t = dict(kind="cmd", c=parts, n=n, all=["a", "b"], rc="ok", play=[], each=[], step=[], ctl=[], rplay=[], rctl=[], bplay=[], bctl=[], fplay=[], fctl=[], bodies=[], who=True)
    with quiet():
        r = guard(go)
    if r[0] != "ok":
        t["rc"] = "%s" % (r[1] if r[0] == "raise" else r[0],)
    return t


def rand_parts(rng):
    out = []
    for _ in range(rng.randint(1, 7)):
        if rng.random() < 0.6:
            w = [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
            out.append(dict(k="path", way=w, att=rng.choice([[], ["a"], ["b"], ["a", "b"]])))
        else:
            out.append(dict(k=rng.choice(["fix", "free"]), b=rng.choice("ab")))
    return out


def purge():
    for m in ("separating_axis", "streams", "problems", "run", "kuka_primitives"):
        sys.modules.pop(m, None)
    sys.path[:] = [p for p in sys.path if not p.endswith("turtlebot_move")]


def run(ctx):
    global RUN, RUN3
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    rng = ctx.rng
    ctx.tlc("CommandsMC", LAWS, params=dict(n=ctx.q(2, 3), l=2, variant="ok", emit=False), label="laws of commands")
    for v in ("same", "order", "way"):
        ctx.refuted("CommandsMC", LAWS, params=dict(n=2, l=2, variant=v, emit=False))
    sc = ctx.tlc("CommandsMC", LAWS, params=dict(n=2, l=ctx.q(1, 2), variant="ok", emit=True), label="command scenarios").records
    plans = ctx.tlc("ExecMC", EXEC, params=dict(dom="carry", n=ctx.q(6, 8), variant="ok"), label="carrying plans").records
    kplans = ctx.tlc("ExecMC", EXEC, params=dict(dom="kitchen", n=ctx.q(5, 6), variant="ok"), label="kitchen plans").records
    ctx.refuted("ExecMC", EXEC, params=dict(dom="carry", n=3, variant="late"))
    # the rover
    RUN = load("turtlebot_move", "run")
    jobs = sorted({tuple((a[0], "v", a[1][5]) for a in x["plan"]) for x in plans})
    for _ in range(ctx.q(150, 1500)):                     # longer, more objects, two rovers taking turns; unknown actions
        p, at = [], []
        for _ in range(rng.randint(1, 8)):
            v, o = rng.choice(["v", "w"]), "o%d" % rng.randint(1, 5)
            p += [("pick", v, o), ("place", v, o)]
        p = p[:rng.randint(1, len(p))]
        if rng.random() < 0.15:
            i = rng.randrange(len(p))
            p[i] = (rng.choice(["move", "push", "clean", ""]),) + p[i][1:]
        jobs.append(tuple(p))
    tr = pmap(carry, [(j, rng.getrandbits(30)) for j in jobs])
    r = guard(RUN.post_process, None, None)
    if r[0] != "ok" or r[1] is not None:
        ctx.violation("a missing plan yields commands", dict(got=str(r)[:200]))
    # the arm
    purge()
    RUN3 = load("kuka_carry", "run")
    kj = sorted({tuple(a[0] for a in x["plan"]) for x in kplans})
    for _ in range(ctx.q(150, 1500)):
        kj.append(tuple(rng.choice(["move", "move_free", "move_holding", "move_insert", "pick", "place", "clean", "cook"]) for _ in range(rng.randint(0, 14))))
    tr2 = pmap(kitchen, [(j, rng.getrandbits(30)) for j in kj])
    cj = [(x["c"], rng.randint(0, 3), rng.getrandbits(30)) for x in sc] + [(rand_parts(rng), rng.randint(0, 4), rng.getrandbits(30)) for _ in range(ctx.q(800, 8000))]
    tr3 = pmap(cmd, cj)
    ctx.cov.update(rover_plans=len(tr), arm_plans=len(tr2), commands=len(tr3), plans_from_model=len(plans) + len(kplans), commands_from_model=len(sc))
    ctx.validate("CommandsTrace", tr + tr2 + tr3)
    ctx.assumptions += ["a rover plan holds one object at a time, as its domain demands", "the simulator is a kinematic stand-in: positions are taken on at once, controllers reach their target"]
