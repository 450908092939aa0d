"""C38, C39: motion streams, collision tests, grasps, placements and inverse kinematics against specs/Motion*.tla and Hold*.tla."""
import math, random, sys
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.collide import load
from checks.planexec import purge

CALLS = "SPECIFICATION Spec\nINVARIANTS Asking NeverAsked%s\n%sCHECK_DEADLOCK FALSE\n"
SWEEP = "SPECIFICATION Spec\nINVARIANTS Meaning Complete\nCHECK_DEADLOCK FALSE\n"
HOLD = "SPECIFICATION Spec\nINVARIANTS Grasps Loop Reach\nCHECK_DEADLOCK FALSE\n"
S = 0.01                                         # a unit of the models' codes


# ---- motion streams ------------------------------------------------------------------------------------------
def place(p):
    return ((S * p, 1.0, 0.5), (0., 0., 0., 1.))


class Calls:
    """One simulator; streams called one after the other, with disturbances in between."""
    def __init__(self, u, kind, rng):
        self.u, self.kind, self.rng = u, kind, rng
        u.reset_world()
        self.robot = u.load_model(u.DRAKE_IIWA_URDF if kind == "arm" else u.TURTLEBOT_URDF)
        self.n = 7 if kind == "arm" else 3
        self.joints = u.get_movable_joints(self.robot)
        self.body = {x: u.create_box(.02, .02, .02) for x in ("a", "b", "f", "g")}
        self.back = {i: x for x, i in self.body.items()}
        for i, x in enumerate("ab"):
            u.set_pose(self.body[x], ((5. + i, 5., 5.), (0., 0., 0., 1.)))
        self.fixed = [x for x in ("f", "g") if rng.random() < 0.6]
        self.ids = [self.body[x] for x in self.fixed]
        self.selfc, self.fns = rng.random() < 0.5, {}
        self.kw = dict(custom_limits={0: (-1., 1.)}, holonomic=rng.random() < 0.5, reversible=rng.random() < 0.5, algorithm=rng.choice(["prm", "rrt"]),
                       num_samples=rng.choice([5, 10]), connect_radius=rng.choice([None, 0.5]))

    def stream(self, make, *key):
        """One stream serves many calls."""
        if key not in self.fns:
            self.fns[key] = make()
        return self.fns[key]

    def q(self, c):
        return tuple([S * c] + [0.25] * (self.n - 1)) if c else (7.,) * self.n

    def code(self, q):
        c = int(round(q[0] / S))
        return c if len(q) == self.n and np.allclose(q, self.q(c), atol=1e-9) else -1

    def at(self, x):
        p = self.u.get_pose(self.body[x])
        c = int(round(p[0][0] / S))
        return c if np.allclose(p[0], place(c)[0], atol=1e-9) and abs(p[1][3]) > 1 - 1e-9 else -1

    def disturb(self):
        if self.rng.random() < 0.7:
            self.u.set_joint_positions(self.robot, self.joints, self.q(self.rng.choice([0, 1, 2, 3])))
        for x in "ab":
            if self.rng.random() < 0.5:
                self.u.set_pose(self.body[x], place(self.rng.choice([1, 2, 3])))

    def hold(self, x):
        """Where the held object must be, given where the robot is."""
        u = self.u
        return u.multiply(u.get_link_pose(self.robot, self.link), self.grasp[x])

    def run(self, c, out):
        u, rng = self.u, self.rng
        fixed, ids, selfc, kw = self.fixed, self.ids, self.selfc, self.kw
        self.link = u.link_from_name(self.robot, "t") if self.kind == "arm" else 0
        self.grasp = {x: u.Pose(u.Point(0, 0.03, 0.1 + 0.01 * i), u.Euler(0, 0, math.pi / 2)) for i, x in enumerate("ab")}
        t = dict(kind="call", c=c, fixed=fixed, rc="ok", asked=0, w=dict(conf=0, at=dict(a=0, b=0)), path=[], out=[], carry=True,
                 r=dict(to=0, obs=[], att=[], grasp=True, opts=True))
        n = rng.choice([1, 2, 3, 5])
        path = [c["c1"]] + [rng.choice([4, 5, 6]) for _ in range(n)] + [c["c2"]] if out == "path" else None
        def planner(body, joints, end):
            a = u.ASKED
            t["asked"] += 1
            t["w"] = dict(conf=self.code(u.get_joint_positions(self.robot, self.joints)), at={x: self.at(x) for x in "ab"})
            att, good = [], True
            for z in a["attachments"]:
                x = self.back.get(z.child, "?")
                att.append(x)
                good &= z.parent == self.robot and x in self.grasp and np.allclose(z.grasp_pose[0], self.grasp[x][0]) and np.allclose(z.grasp_pose[1], self.grasp[x][1])
            opts = body == self.robot and tuple(joints) == tuple(self.joints)
            if self.kind == "arm":
                opts &= a["self_collisions"] == selfc and all(z.parent_link == self.link for z in a["attachments"])
            else:
                opts &= a["wheels"] == (not kw["holonomic"]) and a["self_collisions"] is False and all(a.get(k) == v for k, v in (
                    ("custom_limits", kw["custom_limits"]), ("algorithm", kw["algorithm"]), ("num_samples", kw["num_samples"]), ("connect_distance", kw["connect_radius"])))
                opts &= not a["wheels"] or a.get("reversible") == kw["reversible"]
            t["r"] = dict(to=self.code(tuple(end)), obs=sorted(self.back.get(b, "?") for b in set(a["obstacles"])), att=att, grasp=bool(good), opts=bool(opts))
            # a search moves robot and load about
            u.set_joint_positions(self.robot, self.joints, self.q(rng.choice([1, 2, 6])))
            return None if path is None else [self.q(x) for x in path]
        u.PLAN[0] = planner
        t["path"] = path or []
        fl = [("atpose", self.body[o], POSE(self, o, p)) for o, p in c["fl"]]
        if self.kind == "arm":
            import kuka_primitives as kp
            conf = lambda x: kp.BodyConf(self.robot, configuration=self.q(x), joints=self.joints)
            args = [conf(c["c1"]), conf(c["c2"])]
            if c["bad"]:
                fl.insert(rng.randint(0, len(fl)), ("ongrill", self.body["f"]) if rng.random() < 0.5 else ("atconf", conf(1)))
            if c["held"]:
                g = kp.BodyGrasp(self.body[c["held"]], self.grasp[c["held"]], u.Pose(u.Point(0, 0, 0.01)), self.robot, self.link)
                fn = self.stream(lambda: kp.get_holding_motion_gen(self.robot, fixed=ids, teleport=c["teleport"], self_collisions=selfc), "hold", c["teleport"])
                args += [self.body[c["held"]], g]
            else:
                fn = self.stream(lambda: kp.get_free_motion_gen(self.robot, fixed=ids, teleport=c["teleport"], self_collisions=selfc), "free", c["teleport"])
        else:
            from pybullet_tools.pr2_primitives import Conf
            conf = lambda x: Conf(self.robot, self.joints, self.q(x))
            args = [self.robot, conf(c["c1"]), conf(c["c2"])]
            if c["bad"]:
                fl.insert(rng.randint(0, len(fl)), ("atconf", self.robot, conf(1)))
            if c["held"]:
                g = type("G", (), dict(value=self.grasp[c["held"]]))()
                fl.insert(rng.randint(0, len(fl)), ("atgrasp", self.robot, self.body[c["held"]], g))
            fn = self.stream(lambda: STREAMS.get_motion_fn(type("P", (), dict(fixed=ids))(), collisions=c["coll"], teleport=c["teleport"], **kw), c["coll"], c["teleport"])
        with quiet():
            r = guard(fn, *args, **(dict(fluents=fl) if fl or rng.random() < 0.5 else {}))
        if r[0] != "ok":
            t["rc"] = r[0]
            return t
        if r[1] is None:
            t["rc"] = "none"
            return t
        def read():
            cmd = r[1][0]
            if self.kind == "rover":
                t["out"] = [self.code(x.values) for x in cmd.path]
                t["carry"] = all(x.body == self.robot and tuple(x.joints) == tuple(self.joints) for x in cmd.path)
                return
            for part in cmd.body_paths:
                for _ in part.iterator():
                    t["out"].append(self.code(u.get_joint_positions(self.robot, self.joints)))
                    if c["held"]:
                        a, b = u.get_pose(self.body[c["held"]]), self.hold(c["held"])
                        t["carry"] &= bool(np.allclose(a[0], b[0], atol=1e-9) and u.quat_angle_between(a[1], b[1]) < 1e-6)
                t["carry"] &= part.bodies() == {self.robot} | ({self.body[c["held"]]} if c["held"] else set())
        r = guard(read)
        if r[0] != "ok":
            t["rc"] = "answer"
        return t


def POSE(k, o, p):
    if k.kind == "arm":
        import kuka_primitives as kp
        return kp.BodyPose(k.body[o], place(p))
    body, u = k.body[o], k.u
    return type("P", (), dict(assign=lambda self: u.set_pose(body, place(p)), pose=place(p)))()


def calls(job):
    import pybullet_tools.utils as u
    kind, seq, seed = job
    rng = random.Random(seed)
    k = Calls(u, kind, rng)
    out = []
    for c, o in seq:
        k.disturb()
        t = k.run(c, o)
        out.append(t)
    u.PLAN[0] = None
    return out


def rand_call(rng, kind):
    held = rng.choice(["", "", "a", "b"])
    fl = [[o, rng.choice([1, 2, 3])] for o in "ab" if o != held and rng.random() < 0.6]
    rng.shuffle(fl)
    tele, bad = rng.random() < 0.1, rng.random() < 0.1
    return dict(kind=kind, c1=rng.randint(1, 6), c2=rng.randint(1, 6), held=held, fl=fl, bad=bad and not tele, teleport=tele, coll=kind == "arm" or rng.random() < 0.8)


# ---- collision of a command with a standing object -------------------------------------------------------------
def sweep(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    seed = job
    rng = random.Random(seed)
    u.reset_world()
    h = dict(r=[rng.randint(1, 4), rng.randint(1, 4)], **{x: [rng.randint(0, 3) or 1, rng.randint(1, 3)] for x in "ab"}, c=[rng.randint(1, 4), rng.randint(1, 4)])
    robot = u.add_body(u.Body("robot", (S * h["r"][0], S * h["r"][1], 0.5), name="turtlebot", joints=["x", "y", "theta"]))
    body = {x: u.create_box(2 * S * h[x][0], 2 * S * h[x][1], 0.6) for x in "abc"}
    off = {x: [rng.choice([-1, 1]) * rng.randint(0, 8) for _ in range(2)] for x in "ab"}
    grasp = {x: kp.BodyGrasp(body[x], u.Pose(u.Point(S * off[x][0], S * off[x][1], 0.)), u.Pose(), robot, 0) for x in "ab"}
    parts, out = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.15:
            out.append((kp.Attach if rng.random() < 0.5 else kp.Detach)(body[rng.choice("ab")], robot, 0))
            parts.append(dict(way=[], att=[[{i: x for x, i in body.items()}[out[-1].body], [0, 0]]]))
            continue
        x, way = [rng.randint(-12, 12), rng.randint(-12, 12)], []
        for _ in range(rng.randint(1, 5)):
            way.append(list(x))
            x[rng.randint(0, 1)] += rng.randint(-12, 12)
        att = [o for o in "ab" if rng.random() < 0.4]
        parts.append(dict(way=way, att=[[o, off[o]] for o in att]))
        kw = dict(attachments=[grasp[o] for o in att])
        out.append(kp.BodyPath(robot, [(S * p[0], S * p[1], 0.) for p in way], **(kw if att else {})))
    b = rng.choice("abcc")
    pose = [rng.randint(-16, 16), rng.randint(-16, 16)]
    t = dict(kind="sweep", parts=parts, h=h, b=b, pose=pose, hit="?")
    far = ((9., 9., 0.), (0., 0., 0., 1.))
    for x in "abc":
        u.set_pose(body[x], far if rng.random() < 0.5 else ((S * rng.randint(-12, 12), 0., 0.), (0., 0., 0., 1.)))
    p = kp.BodyPose(body[b], ((S * pose[0], S * pose[1], 0.), (0., 0., 0., 1.)))
    with quiet():
        r = guard(kp.get_movable_collision_test(), kp.Command(out), body[b], p)
    if r[0] == "ok" and r[1] in (True, False):
        t["hit"] = "T" if r[1] else "F"
    return t


# ---- poses with quarter turns ----------------------------------------------------------------------------------
FLIP = math.pi


def mat(u, q):
    m = u.matrix_from_quat(q)
    r = np.rint(m).astype(int)
    return r.tolist() if np.abs(m - r).max() < 1e-6 else [[9] * 3] * 3


def ipose(u, p, unit=1000.):
    x = np.array(p[0], float) * unit
    return dict(p=[int(round(v)) for v in x] if np.abs(x - np.rint(x)).max() < 1e-3 else [99999] * 3, m=mat(u, p[1]))


def grasp(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    rng = random.Random(job)
    u.reset_world()
    robot = u.load_model(u.DRAKE_IIWA_URDF)
    h = [rng.randint(1, 30) for _ in range(3)]
    mid = [0, 0, 0] if rng.random() < 0.4 else [rng.randint(-10, 10) for _ in range(3)]
    b = u.create_box(*[2e-3 * x for x in h])
    u.MIDDLE[b] = [1e-3 * x for x in mid]
    u.set_pose(b, ((rng.random(), rng.random(), 0.4), u.quat_from_euler((0, 0, rng.random()))))
    t = dict(kind="grasp", h=h, mid=mid, open=1000000, depth=0, under=True, rc="ok", gs=[], own=True)
    with quiet():
        if rng.random() < 0.5:
            r = guard(lambda: [x[0] for x in kp.get_grasp_gen(robot, *(["top"] if rng.random() < 0.5 else []))(b)])
            if r[0] == "ok":
                t["own"] = all(g.body == b and g.robot == robot and g.link == u.link_from_name(robot, "t") and np.allclose(g.approach[0], (0, 0, 0.01)) for g in r[1])
                gs = [g.value for g in r[1]]
        else:
            t.update(open=rng.choice([1, 2 * h[0] - 1, 2 * h[0] + 1, 2 * h[1] - 1, 2 * h[1] + 1, 100]), depth=rng.randint(0, 8), under=rng.random() < 0.5)
            r = guard(kp.get_top_grasps, b, under=t["under"], tool_pose=u.Pose(), max_width=1e-3 * t["open"], grasp_length=1e-3 * t["depth"])
            gs = r[1] if r[0] == "ok" else []
            if t["open"] in (2 * h[0], 2 * h[1]):
                t["open"] += 1
                r = guard(kp.get_top_grasps, b, under=t["under"], tool_pose=u.Pose(), max_width=1e-3 * t["open"], grasp_length=1e-3 * t["depth"])
                gs = r[1] if r[0] == "ok" else []
    if r[0] != "ok":
        t["rc"] = "raise"
        return t
    t["gs"] = [ipose(u, g) for g in gs]
    return t


def ik(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    rng = random.Random(job)
    u.reset_world()
    robot = u.load_model(u.DRAKE_IIWA_URDF)
    b = u.create_box(.02, .02, .04)
    walls = [u.create_box(.1, .1, .1) for _ in range(rng.choice([1, 2, 3]))]
    for i, w in enumerate(walls):
        u.set_pose(w, ((2. + i, 0., 0.), (0., 0., 0., 1.)))
    turn = lambda k, down=False: u.multiply(u.Pose(euler=(0, 0, k * math.pi / 2)), u.Pose(euler=(0, FLIP if down else 0, 0)))[1]
    pt = lambda: tuple(1e-3 * rng.randint(-300, 300) for _ in range(3))
    pose = (pt(), turn(rng.randint(0, 3)))
    g = (tuple(1e-3 * rng.randint(-40, 40) for _ in range(3)), turn(rng.randint(0, 3), rng.random() < 0.7))
    ap = ((0., 0., 1e-3 * rng.choice([0, 10, 50])), (0., 0., 0., 1.))
    n = rng.choice([None, 1, 2, 3, 5])
    bad = rng.choice([0, 0.5, 0.8, 0.95, 1])
    tries = ["ok" if rng.random() >= bad else rng.choice(["none", "hit"]) for _ in range(n or 10)]
    asked, own = [], [True]
    def solve(r, link, target):
        i = len(asked)
        asked.append(ipose(u, target))
        own[0] = own[0] and r == robot and link == 7
        if i >= len(tries) or tries[i] == "none":
            return None
        # the last joint says whether an elbow is in a wall
        return (0.,) * 6 + (float(i + 1 if tries[i] == "ok" else 100 + i),)
    u.IK[0] = solve
    hand = (np.array((.01,) * 3), ((0., -3., 0.), (0., 0., 0., 1.)))
    wall = rng.choice(walls)
    elbow = lambda i: [hand, (np.array((.01,) * 3), (u.get_pose(wall)[0] if u.WORLD[robot].q[6] >= 100 else (0., -2., 0.), (0., 0., 0., 1.)))]
    u.SHAPE[robot] = elbow
    t = dict(kind="ik", pose=ipose(u, pose), g=ipose(u, g), ap=ipose(u, ap), tries=tries, asked=[], got=-1, rc="ok", own=True)
    with quiet():
        r = guard(kp.get_ik_fn, robot, b, kp.BodyPose(b, pose), kp.BodyGrasp(b, g, ap, robot, 7), fixed=walls, randomize=rng.random() < 0.6, **({} if n is None else dict(num_attempts=n)))
    u.IK[0] = None
    t["asked"], t["own"] = asked, own[0]
    if r[0] != "ok":
        t["rc"] = "raise"
    elif r[1] is None:
        t["got"] = 0
    else:
        v = tuple(r[1].values)
        t["got"] = int(round(v[6])) if len(v) == 7 and tuple(r[1].joints) == tuple(range(7)) and r[1].body == robot else -1
    return t


def table(u, rng):
    """A surface whose link 2 is the plate to stand on; everything in millimetres."""
    half = [rng.randint(10, 60), rng.randint(10, 60), rng.randint(2, 10)]
    mid = [rng.randint(-200, 200), rng.randint(-200, 200), rng.randint(0, 300)]
    s = u.create_box(.2, .2, .2)
    other = lambda: (tuple(1e-3 * rng.randint(5, 90) for _ in range(3)), ((1e-3 * rng.randint(-90, 90), 1e-3 * rng.randint(-90, 90), -.5), (0., 0., 0., 1.)))
    u.WORLD[s].links = [other(), other(), (tuple(1e-3 * x for x in half), (tuple(1e-3 * x for x in mid), (0., 0., 0., 1.))), other()]
    return s, [m - h for m, h in zip(mid, half)], [m + h for m, h in zip(mid, half)]


def fixed(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    rng = random.Random(job)
    u.reset_world()
    s, lo, hi = table(u, rng)
    odd = lambda n: n if (hi[0] - lo[0]) != 2 * n and (hi[1] - lo[1]) != 2 * n else n + 1
    h = [odd(rng.randint(3, 45)), odd(rng.randint(3, 45)), rng.randint(3, 30)]
    if rng.random() < 0.6:
        m = min(hi[0] - lo[0], hi[1] - lo[1]) // 2
        h[:2] = [min(x, max(m - 1, 1)) for x in h[:2]]
    b = u.create_box(*[2e-3 * x for x in h])
    obs, ids = [], []
    for _ in range(rng.choice([0, 0, 1, 2])):
        e = [rng.randint(2, 20) for _ in range(3)]
        c = [(lo[i] + hi[i]) // 2 + rng.randint(-50, 50) for i in range(2)] + [hi[2] + rng.choice([-20, 10, 10, 80])]
        o = u.create_box(*[2e-3 * x for x in e])
        u.set_pose(o, (tuple(1e-3 * x for x in c), (0., 0., 0., 1.)))
        obs.append([c, e])
        ids.append(o)
    k = rng.randint(0, len(ids))
    lid = None
    if rng.random() < 0.4:                        # an earlier question with something covering the surface
        lid = u.create_box(1., 1., .01)
        u.set_pose(lid, ((1e-3 * lo[0], 1e-3 * lo[1], 1e-3 * (hi[2] + h[2])), (0., 0., 0., 1.)))
    t = dict(kind="fixed", h=h, lo=lo, hi=hi, obs=obs, ks=[], rc="ok")
    def go():
        out, gen = [], kp.get_fixed_stable_gen(fixed=ids[:k], links={s: 2})
        if lid:
            list(gen(b, s, [lid]))
        for x in gen(b, s, *([ids[k:]] if k < len(ids) else [])):
            p = x[0].value
            out.append((p, x[0].body))
            u.set_pose(b, ((1., 1., 1.), (0., 0., 0., 1.)))
        return out
    with quiet():
        r = guard(go)
    if r[0] != "ok":
        t["rc"] = "raise"
        return t
    for p, w in r[1]:
        want = np.array([(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, hi[2] + h[2] + 1]) / 1000
        m = mat(u, p[1])
        q = [i for i, r2 in enumerate(([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]])) if r2 == m]
        t["ks"].append(q[0] if q and w == b and np.abs(np.array(p[0]) - want).max() < 2.1e-3 else 9)
    return t


def anywhere(job):
    import pybullet_tools.utils as u
    import kuka_primitives as kp
    rng = random.Random(job)
    random.seed(job)
    np.random.seed(job % 2 ** 31)
    u.reset_world()
    s, lo, hi = table(u, rng)
    m = min(hi[0] - lo[0], hi[1] - lo[1])
    h = [max(1, int(m * rng.uniform(.05, .3))) for _ in range(2)] + [rng.randint(3, 30)]
    b = u.create_box(*[2e-3 * x for x in h])
    obs, ids = [], []
    for _ in range(rng.choice([0, 1, 1, 2])):
        e = [rng.randint(1, 8) for _ in range(2)] + [100]
        c = [rng.choice([lo[i], hi[i]]) for i in range(2)] if rng.random() < 0.5 else [rng.randint(lo[i], hi[i]) for i in range(2)]
        o = u.create_box(*[2e-3 * x for x in e])
        u.set_pose(o, (tuple(1e-3 * x for x in c + [hi[2] + 20]), (0., 0., 0., 1.)))
        obs.append([10 * (c[0] - e[0]) + 2, 10 * (c[1] - e[1]) + 2, 10 * (c[0] + e[0]) - 2, 10 * (c[1] + e[1]) - 2])
        ids.append(o)
    k = rng.randint(0, len(ids))
    t = dict(kind="any", lo=[10 * x for x in lo], hi=[10 * x for x in hi], obs=obs, ps=[], rc="ok")
    def go():
        import itertools
        out, gen = [], kp.get_stable_gen(fixed=ids[:k], links={s: 2})
        for x in itertools.islice(gen(b, s, *([ids[k:]] if k < len(ids) else [])), 4):
            out.append((x[0].value, x[0].body))
            u.set_pose(b, ((1., 1., 1.), (0., 0., 0., 1.)))
        return out
    with quiet():
        r = guard(go, limit=5)
    if r[0] == "timeout":
        return None                               # there may be no room at all
    if r[0] != "ok":
        t["rc"] = "raise"
        return t
    for p, w in r[1]:
        v = u.tform_points(p, [(1e-3 * h[0] * x, 1e-3 * h[1] * y, -1e-3 * h[2]) for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))])
        up = w == b and all(abs(x[2] - 1e-3 * hi[2]) < 3e-3 for x in v)
        t["ps"].append(dict(up=bool(up), v=[[int(round(1e4 * x[0])), int(round(1e4 * x[1]))] for x in v]))
    return t


# ----------------------------------------------------------------------------------------------------------------
def c38(ctx):
    global STREAMS
    prm = dict(variant="ok", calls=ctx.q(2, 3))
    ctx.tlc("MotionMC", CALLS % ("", "VIEW View\n"), params=prm, label="motion streams in a disturbed simulator")
    for v in ("noconf", "late", "stay", "forget", "back", "nohold"):
        ctx.refuted("MotionMC", CALLS % ("", "VIEW View\n"), params=dict(variant=v, calls=1))
    ctx.tlc("SweepMC", SWEEP, params=dict(n=ctx.q(2, 3), variant="ok"), label="collision test of a command")
    for v in ("ends", "first", "bare", "self"):
        ctx.refuted("SweepMC", SWEEP, params=dict(n=2, variant=v))
    r = ctx.tlc("MotionMC", CALLS % (" Scenario", ""), params=dict(variant="ok", calls=1), label="scenarios")
    sc = {}
    for x in r.records:
        for y in x["h"]:
            sc[repr(y)] = y
    sc = [sc[k] for k in sorted(sc)]
    if len(sc) < 100:
        raise Machinery("too few scenarios")
    rng = ctx.rng
    jobs = []
    for kind in ("arm", "rover"):
        mine = [(x["call"], x["out"]) for x in sc if x["call"]["kind"] == kind]
        for k in range(ctx.q(2, 8)):
            rng.shuffle(mine)
            jobs += [(kind, mine[i:i + 3], rng.getrandbits(30)) for i in range(0, len(mine), 3)]
        jobs += [(kind, [(rand_call(rng, kind), rng.choice(["path", "path", "none"])) for _ in range(4)], rng.getrandbits(30)) for _ in range(ctx.q(150, 2000))]
    for _, seq, _ in jobs:
        for i, (c, o) in enumerate(seq):
            seq[i] = (c, "path" if c["teleport"] else o)
    STREAMS = load("turtlebot_move", "streams")
    a = pmap(calls, [j for j in jobs if j[0] == "rover"])
    purge()
    load("kuka_carry", "kuka_primitives")
    a += pmap(calls, [j for j in jobs if j[0] == "arm"])
    tr = [t for x in a for t in x]
    sw = pmap(sweep, [rng.getrandbits(30) for _ in range(ctx.q(1200, 12000))])
    ctx.cov.update(stream_calls=len(tr), collision_tests=len(sw), scenarios_from_model=len(sc), collisions=sum(t["hit"] == "T" for t in sw))
    ctx.validate("HoldTrace", tr + sw)
    ctx.assumptions += ["the joint-space planner is scripted; its search may leave the robot anywhere", "bodies that merely touch may or may not collide"]


def c39(ctx):
    ctx.tlc("HoldMC", HOLD, params=dict(n=ctx.q(2, 3), variant="ok", modes=["grasp", "ik"]), label="composed grasps against their meaning; attempts")
    for v in ("flip", "swap", "top", "mid", "twice"):
        ctx.refuted("HoldMC", HOLD, params=dict(n=2, variant=v, modes=["grasp"]))
    for v in ("hit", "once"):
        ctx.refuted("HoldMC", HOLD, params=dict(n=2, variant=v, modes=["ik"]))
    rng = ctx.rng
    load("kuka_carry", "kuka_primitives")
    n = ctx.q(500, 6000)
    seeds = lambda k: [rng.getrandbits(30) for _ in range(k)]
    tr = pmap(grasp, seeds(n)) + pmap(ik, seeds(n)) + pmap(fixed, seeds(n))
    an = pmap(anywhere, seeds(n))
    if sum(t is None for t in an) > n // 4:
        raise Machinery("no room on most surfaces")
    an = [t for t in an if t]
    ctx.cov.update(calls=len(tr) + len(an), free_placements=sum(len(t["ps"]) for t in an), central_placements=sum(len(t["ks"]) for t in tr if t["kind"] == "fixed"))
    ctx.validate("HoldTrace", tr + an)
    ctx.assumptions += ["placements and the reach of the arm are those of a kinematic stand-in for the simulator", "quarter turns only, except for free placements"]


def run(ctx):
    env.use("common", "noscipy", "tamp")
    {"C38": c38, "C39": c39}[ctx.pid](ctx)
