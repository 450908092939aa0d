"""C47: films of roadmaps against specs/Movie*.tla."""
import glob, os, random, tempfile
import numpy as np
import env
from core import guard, pmap, quiet
from checks.collide import load
from checks.runs import facts, perform

MC = "SPECIFICATION Spec\nINVARIANTS Right Whole\nPROPERTIES Smooth\nCHECK_DEADLOCK FALSE\n"


def kind(c):
    from matplotlib.colors import to_rgba
    c = np.atleast_2d(to_rgba(c) if isinstance(c, str) else c)[0]
    for n in ("red", "blue", "lime"):
        if np.allclose(c[:3], to_rgba(n)[:3]):
            return n
    return "?"


class Eye:
    """What is on a figure: points, and segments with their colours."""
    def __init__(self, ax):
        self.ax = ax
    def look(self):
        from matplotlib.collections import LineCollection, PathCollection
        pts, pc, seg = [], [], []
        for c in self.ax.collections:
            if isinstance(c, PathCollection):
                o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
                o = o[~np.isnan(o).any(axis=1)]
                if len(o):
                    fc = c.get_facecolor()
                    if len(fc) == 0:
                        fc = c.get_edgecolor()
                    pts += [tuple(x) for x in o]
                    pc += [kind(fc[i % len(fc)]) for i in range(len(o))]
            elif isinstance(c, LineCollection):
                col = c.get_colors()
                for i, s in enumerate(c.get_segments()):
                    seg += [(tuple(a), tuple(b), kind(col[i % len(col)])) for a, b in zip(s, s[1:])]
        for l in self.ax.lines:
            x = np.array(l.get_data(), float).T
            seg += [(tuple(a), tuple(b), kind(l.get_color())) for a, b in zip(x, x[1:]) if not np.isnan([a, b]).any()]
        return pts, pc, seg


def film(job):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt, animation
    import prm as P
    n, k, nb, eb, mode, seed = job
    rng = np.random.default_rng(seed)
    unit = [0.05, 1., 30.][seed % 3]
    off = [0., 0., -2.5, 40.][seed % 4]
    free = lambda a, b: (np.floor(np.abs(np.asarray(a)[:, 0] + np.asarray(b)[:, 0]) / unit * 7.3 + np.abs(np.asarray(a)[:, 1] + np.asarray(b)[:, 1]) / unit * 3.1) % 4 != 0) | (mode == "open")
    t = dict(kind="film", rc="ok", n=n, legs=0, found=False, edges=[], nb=nb, eb=eb, same=True, frames=[], files=0)
    kw = [dict(truncate_to_eff_rad=False), {}][seed % 2]
    with quiet():
        r = P.SimpleNearestNeighborRadiusPRM(k, free, lambda: off + unit * rng.uniform(size=2), lambda x: np.zeros(len(x)), seed=0, verbose=False, **kw)
        r.grow_to_n_samples(n)
        if mode == "none":
            sol = []
        elif mode == "query":
            a, z = off + unit * rng.uniform(size=(2, 2))
            _, sol = r.query_best_solution(a, z)
            if len(sol):
                sol = [list(a)] + [list(x) for x in sol] + [list(z)]
        else:
            sol = (off + unit * rng.uniform(size=(rng.integers(1, 7), 2))).tolist()
    S = np.array(r.prm_samples)
    at = {tuple(x): i for i, x in enumerate(S)}
    E = sorted({(min(u, v), max(u, v)) for u, v in r.prm_graph.iterEdges()})
    found = len(sol) > 0
    t.update(legs=max(0, len(sol) - 1), found=found, edges=[list(e) for e in E])
    seen, last = set(), []
    def shot(ax):
        pts, pc, seg = Eye(ax).look()
        m = len(pts)
        fresh, legs, reds, now = [], [], 0, []
        drawn = []
        for a, b, c in seg:
            if c == "lime":
                legs.append((a, b))
                continue
            e = (at.get(a, -1), at.get(b, -1))
            drawn.append((min(e), max(e)))
            reds += c == "red"
        red = (m > 0 and all(c == "red" for c in pc)) if m else False
        anyred = any(c == "red" for c in pc) or reds > 0
        full = all(c == "red" for c in pc) and reds == len(drawn) and m > 0
        x0, x1 = sorted(ax.get_xlim()); y0, y1 = sorted(ax.get_ylim())
        f = dict(n=m, first=m <= n and sorted(pts) == sorted(map(tuple, S[:m])), new=[list(e) for e in sorted(set(drawn) - seen)], fresh=len(set(drawn)) == len(drawn) and seen <= set(drawn),
                 g=len(legs), order=all(i + 1 < len(sol) and {a, b} == {tuple(map(float, sol[i])), tuple(map(float, sol[i + 1]))} for i, (a, b) in enumerate(legs)),
                 red=anyred, part=not anyred or full, inside=all(x0 <= p[0] <= x1 and y0 <= p[1] <= y1 for p in pts))
        seen.update(drawn)
        t["frames"].append(f)
    class Writer(animation.AbstractMovieWriter):
        def setup(self, fig, outfile, dpi=None):
            self.fig = fig
        def grab_frame(self, **kw):
            shot(self.fig.axes[0])
        def finish(self):
            pass
    before = (S.copy(), E, r.num_vertices(), r.num_edges(), [list(x) for x in sol])
    def go():
        ani = P.animate_knn_prm(r, sol if seed % 5 else np.array(sol), node_batches=nb, edge_batches=eb, interval=50)
        for i in plt.get_fignums():
            plt.figure(i).canvas.draw_idle = lambda *a: None
        ani.save(os.devnull, writer=Writer())
    with quiet():
        x = guard(go, limit=120)
    plt.close("all")
    after = (np.array(r.prm_samples), sorted({(min(u, v), max(u, v)) for u, v in r.prm_graph.iterEdges()}), r.num_vertices(), r.num_edges(), [list(x) for x in sol])
    t["same"] = bool(np.array_equal(before[0], after[0]) and before[1:] == after[1:])
    if x[0] != "ok":
        t["rc"] = ":".join(map(str, x[:3]))[:120]
    return t


def query(job):
    """A rover's motion query with and without a film, in the same world from the same random state."""
    import matplotlib
    matplotlib.use("Agg")
    from pybullet_tools.pr2_primitives import Conf
    far, seed = job
    rng = random.Random(seed)
    world = rng.randint(0, 9999)
    n = rng.randint(5, 14)
    res = []
    t = dict(kind="query", rc="ok", n=0, legs=0, found=False, edges=[], nb=1, eb=1, same=True, frames=[], files=0)
    dx, dy = rng.uniform(0.05, 0.2), rng.uniform(-0.2, 0.2)
    for ani in (True, False):
        got = []
        def answer(pp):
            (v, q0), = facts(pp, "atconf")
            q1 = pp.stream_map["sample-ik"](v, facts(pp, "atpose")[0][0], facts(pp, "atpose")[0][1])[0] if far else Conf(v, q0.joints, (q0.values[0] + dx, q0.values[1] + dy))
            random.seed(seed); np.random.seed(seed % 2 ** 31)
            r = pp.stream_map["sample-motion"](v, q0, q1)
            got.append(None if r is None else [tuple(c.values) for c in r[0].path])
            return None, float("inf"), []
        with tempfile.TemporaryDirectory() as d:
            here = os.getcwd()
            os.chdir(d)
            try:
                r, _ = perform(RUN, ["--seed=%d" % world, "--delta=0.15", "--min-samples=%d" % n, "--max-samples=%d" % (n + 6), "--save-dir", "out"] + ["--ani"] * ani, seed % 1000, answer)
            finally:
                os.chdir(here)
            gifs = [x for x in glob.glob(d + "/**/*", recursive=True) if x.endswith((".gif", ".mp4", ".html", ".webp", ".apng"))]
            good = [x for x in gifs if os.path.getsize(x) > 100 and os.path.realpath(x).startswith(os.path.realpath(d) + "/out/")]
            if ani:
                t["files"] = len(good) if len(good) == len(gifs) else -1
            elif gifs:
                t["files"] = -2
        if r[0] != "ok":
            t["rc"] = ":".join(map(str, r[:3]))[:120]
        res.append(got)
    t["same"] = bool(len(res[0]) == 1 and res[0] == res[1])
    t["found"] = bool(res[0] and res[0][0] is not None)
    import matplotlib.pyplot as plt
    plt.close("all")
    return t


def run(ctx):
    global RUN
    rng = ctx.rng
    R = lambda: rng.getrandbits(30)
    ctx.tlc("MovieMC", MC, params=dict(n=ctx.q(4, 7), variant="ok"), label="films of small roadmaps")
    for v in ("short", "gap", "early", "mixed"):
        ctx.refuted("MovieMC", MC, params=dict(n=3, variant=v))
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    jobs = []
    for i in range(ctx.q(90, 700)):
        n = rng.choice([2, 3, 5, 8, 10, 12, 16, 20, 30])
        nb = rng.choice([1, 2, 3, 5, 7, n, n + 1, max(1, n - 1), 50])
        jobs.append((n, rng.randint(1, min(6, n - 1)), nb, rng.choice([1, 2, 3, 5, 8, 10, 40, 1000]), rng.choice(["none", "query", "open", "open", "points"]), R()))
    tr = pmap(film, jobs)
    RUN = load("turtlebot_move", "run")
    q = pmap(query, [(i % 2 == 0, R()) for i in range(ctx.q(12, 64))])
    ctx.cov.update(films=len(tr), frames=sum(len(t["frames"]) for t in tr), queries=len(q), queries_solved=sum(t["found"] for t in q))
    ctx.validate("MovieTrace", tr + q)
    ctx.assumptions += ["a frame is what the figure holds when the writer grabs it"]
