"""C31: generated worlds of both planning problems against specs/Worlds*.tla."""
import random, sys
import numpy as np
import env
from core import Machinery, guard, pmap, quiet
from checks.collide import load
from checks.planexec import purge

INV = "SPECIFICATION Spec\nINVARIANTS Crosses Closed\nCHECK_DEADLOCK FALSE\n"
BOT = 0.179
I = lambda x: int(round(float(x) * 100000))


def flat(u, b):
    p, q = u.body_pose(b)
    m = np.abs(u.matrix_from_quat(q))
    return [[I(p[0]), I(p[1])], [I(v) for v in (m @ u.WORLD[b].half)[:2]]]


def box3(u, half, pose):
    m = np.abs(u.matrix_from_quat(pose[1]))
    return [[I(v) for v in pose[0]], [I(v) for v in m @ np.array(half, float)]]


def set_up(u, seed):
    random.seed(seed); np.random.seed(seed % 2 ** 31)
    u.reset_world()


def there(u, pb):
    c = pb.init_conf
    r = u.WORLD[pb.rover]
    return c.body == pb.rover and [r.joints[j] for j in c.joints][:2] == ["x", "y"] and np.allclose(r.q[:2], list(c.values)[:2])


def manip(job):
    import pybullet_tools.utils as u
    scale, dd, n, seed = job
    set_up(u, seed)
    t = dict(kind="manip", rc="ok", room=150000, hall=300000, n=n, robot=I(scale * BOT), dd=I(dd))
    with quiet():
        r = guard(PROBLEMS.hallway_manip, robot_scale=scale, dd=dd, num_target=n)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    pb = r[1]
    xy = lambda p: [I(p.pose[0][0]), I(p.pose[0][1])]
    gap = I(pb.hallway_gap)
    t.update(obs=[flat(u, b) for b in pb.obstacles], gap=gap, radii=[I(u.WORLD[b].radius) for b in pb.targets], said=[I(pb.target_sizes[b]) for b in pb.targets],
             init=[xy(p) for p in pb.target_init_poses], goal=[xy(p) for p in pb.target_goal_poses], now=[[I(v) for v in u.WORLD[b].pose[0][:2]] for b in pb.targets],
             start=[I(v) for v in list(pb.init_conf.values)[:2]], there=bool(there(u, pb)), hs=[1, gap // 2 - 5, gap // 2 + 5, t["robot"]])
    return t


def hall(job):
    import pybullet_tools.utils as u
    scale, dd, seed = job
    set_up(u, seed)
    t = dict(kind="hall", rc="ok", room=100000, hall=300000, robot=I(scale * BOT), dd=I(dd), gap=I(2 * scale * BOT + dd))
    with quiet():
        r = guard(PROBLEMS.hallway, robot_scale=scale, dd=dd)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    pb = r[1]
    t.update(obs=[flat(u, b) for b in pb.obstacles], start=[I(v) for v in list(pb.init_conf.values)[:2]], end=[I(v) for v in list(pb.goal_conf.values)[:2]],
             there=bool(there(u, pb)), hs=[1, t["gap"] // 2 - 5, t["gap"] // 2 + 5, t["robot"]])
    return t


def corner(job):
    import pybullet_tools.utils as u
    scale, dd, seed = job
    set_up(u, seed)
    t = dict(kind="corner", rc="ok", robot=I(scale * BOT))
    with quiet():
        r = guard(PROBLEMS.corner, robot_scale=scale, dd=dd)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    pb = r[1]
    t.update(obs=[flat(u, b) for b in pb.obstacles], start=[I(v) for v in list(pb.init_conf.values)[:2]], end=[I(v) for v in list(pb.goal_conf.values)[:2]], there=bool(there(u, pb)))
    return t


def scatter(job):
    import pybullet_tools.utils as u
    n, scale, seed = job
    set_up(u, seed)
    t = dict(kind="scatter", rc="ok", n=n)
    with quiet():
        r = guard(PROBLEMS.random_obstacles, n_obstacles=n, robot_scale=scale)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    pb = r[1]
    rob = [b for b in u.WORLD if u.WORLD[b].kind == "robot"]
    boxes = [b for b in u.WORLD if u.WORLD[b].kind == "box" and abs(u.WORLD[b].half[2] - 0.2) < 1e-9]
    h = [I(scale * BOT)] * 2
    at = lambda c: [[I(v) for v in list(c.values)[:2]], h]
    t.update(boxes=[flat(u, b) for b in boxes], keep=[at(pb.init_conf), at(pb.goal_conf)], there=bool(there(u, pb) and rob == [pb.rover]))
    return t


def hollow(job):
    import pybullet_tools.utils as u
    cat, (w, l, h, th), seed = job
    set_up(u, seed)
    t = dict(kind="hollow", rc="ok", dims=[I(w), I(l), I(h)], t=I(th), faces=FACES[cat])
    with quiet():
        r = guard(RUN3.create_hollow, cat, width=w, length=l, height=h, thickness=th)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    body, oo = r[1]
    parts = [box3(u, hh, q) for hh, q in u.boxes_of(body)]
    obs = [box3(u, (np.array(o[0][1]) - np.array(o[0][0])) / 2, o[1]) for o in oo]
    mid = all(np.allclose(np.array(o[0][1]) + np.array(o[0][0]), 0) for o in oo)
    t.update(parts=parts, same=bool(mid and len(obs) == len(parts) and all(np.abs(np.array(a) - np.array(b)).max() <= 1 for a, b in zip(sorted(obs), sorted(parts)))))
    return t


# faces of the hollow shapes: axis and side
FACES = dict(tray=[[1, -1], [1, 1], [2, -1], [2, 1], [3, -1]], bin=[[1, -1], [1, 1], [2, -1], [2, 1], [3, -1]], cubby=[[1, -1], [2, -1], [2, 1], [3, -1], [3, 1]],
             fence=[[1, -1], [1, 1], [2, -1], [2, 1]], x_walls=[[1, -1], [1, 1], [3, -1]], y_walls=[[2, -1], [2, 1], [3, -1]])


def loaded(job):
    import pybullet_tools.utils as u
    gap, seed = job
    set_up(u, seed)
    t = dict(kind="load", rc="ok", gap=I(gap))
    with quiet():
        r = guard(RUN3.load_world, min_gap=gap, limit=45.0)
    if r[0] != "ok":
        t["rc"] = ":".join(map(str, r[:2]))
        return t
    robot, names, movable, oobbs, fixed, links = r[1]
    sinks = [b for b in fixed if "sink" in names[b]]
    stove = [b for b in fixed if "stove" in names[b]]
    B = lambda b: [box3(u, h, q) for h, q in u.boxes_of(b)]
    def hull_(b, link=None):
        a = u.get_aabb(b, link=link)
        return [[(I(x) + I(y)) // 2 for x, y in zip(*a)], [(I(y) - I(x)) // 2 for x, y in zip(*a)]]
    clear = all(not u.pairwise_collision(a, b) for i, a in enumerate(movable) for b in list(movable[:i]) + list(fixed))
    roles = sorted(fixed) == sorted(sinks + stove) and len(stove) == 1 and u.WORLD[stove[0]].name == "stove" and u.WORLD[robot].name == "iiwa14" and \
        all(u.WORLD[b].kind == "multi" for b in sinks) and len(set(movable)) == len(movable) and set(names) >= set(fixed) | set(movable) and \
        not any("sink" in names[b] or "stove" in names[b] for b in movable)
    t.update(bins=[sorted(B(b)) for b in sinks], bobs=[sorted(box3(u, (np.array(o[0][1]) - np.array(o[0][0])) / 2, o[1]) for o in oo) for oo in oobbs],
             outer=[hull_(b) for b in sinks], floors=[hull_(b, links[b]) if links.get(b) is not None and 0 <= links[b] < len(u.boxes_of(b)) else [[0, 0, 9], [0, 0, 0]] for b in sinks],
             objs=[[[0, 0, 0], [I(v) for v in u.WORLD[b].half]] for b in movable], aabbs=[hull_(b) for b in movable], stove=hull_(stove[0]) if stove else [[0] * 3] * 2,
             clear=bool(clear), roles=bool(roles))
    return t


def call(x):
    return x[0](x[1])


def run(ctx):
    {"C31": c31, "C37": c37}[ctx.pid](ctx)


def c31(ctx):
    global PROBLEMS
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    rng = ctx.rng
    ctx.tlc("WorldsMC", INV, params=dict(room=ctx.q(10, 14), hall=6, t=1, variant="ok"), label="two rooms, every corridor and shape")
    for v in ("slit", "wall", "open"):
        ctx.refuted("WorldsMC", INV, params=dict(room=8, hall=6, t=1, variant=v))
    PROBLEMS = load("turtlebot_move", "problems")
    # widths stay below the room's: the flaps beside the corridor have a length
    jobs = []
    for _ in range(ctx.q(40, 300)):
        sc = rng.choice([0.1, 0.2, 0.3, 0.3, 0.5, rng.uniform(0.05, 0.8)])
        jobs.append((manip, (sc, rng.choice([0.01, 0.05, 0.1, 0.2, rng.uniform(0.001, 0.3)]), rng.choice([1, 1, 2, 3, 4, 5]), rng.getrandbits(30))))
        jobs.append((hall, (rng.choice([0.2, 0.3, rng.uniform(0.05, 1.0)]), rng.choice([0.01, 0.1, rng.uniform(0.002, 0.3)]), rng.getrandbits(30))))
        jobs.append((corner, (rng.choice([0.2, 0.3, rng.uniform(0.05, 0.9)]), rng.choice([0.01, 0.1, rng.uniform(0.002, 0.3)]), rng.getrandbits(30))))
    for n in ctx.q((0, 1, 10, 50, 50), (0, 1, 10, 50, 50, 50, 80)):
        jobs.append((scatter, (n, rng.choice([0.5, 1, 1.5]), rng.getrandbits(30))))
    tr = pmap(call, jobs)
    ctx.cov["worlds"] = len(tr)
    ctx.validate("WorldsTrace", tr)
    ctx.assumptions += ["the corridor is narrower than the rooms", "bodies are placed by a kinematic stand-in for the simulator; cylinders collide by their bounding boxes"]


def c37(ctx):
    global RUN3
    env.use("common", "noscipy", "tamp", tamp="kuka_carry")
    rng = ctx.rng
    HINV = "SPECIFICATION Spec\nINVARIANTS Exact\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("HollowMC", HINV, params=dict(n=ctx.q(2, 3), variant="ok"), label="plates of every hollow box")
    for v in ("inner", "centre", "thin"):
        ctx.refuted("HollowMC", HINV, params=dict(n=2, variant=v))
    RUN3 = load("kuka_carry", "run")
    jobs = []
    for cat in sorted(FACES):
        for _ in range(ctx.q(8, 60)):
            th = rng.choice([0.01, 0.01, 0.005, 0.02])
            d = [round(rng.uniform(2.5 * th, 0.5), 3) for _ in range(3)]
            jobs.append((hollow, (cat, tuple(d) + (th,), rng.getrandbits(30))))
    jobs += [(loaded, (rng.choice([0.03, 0.04, 0.06, rng.uniform(0.02, 0.2)]), rng.getrandbits(30))) for _ in range(ctx.q(16, 100))]
    tr2 = pmap(call, jobs)
    ctx.cov["worlds"] = len(tr2)
    ctx.validate("WorldsTrace", tr2)
    ctx.assumptions += ["bodies are placed by a kinematic stand-in for the simulator; cylinders collide by their bounding boxes"]
