"""C44: logs of real planner runs, read back by the real summary scripts, against specs/Summary*.tla."""
import os, random, re, runpy, sys, tempfile, types
import numpy as np
import env
from core import Machinery, REPO, guard, pmap, quiet
from checks.collide import load
from checks.planexec import purge

T = os.path.join(REPO, "exps", "tamp_environment", "turtlebot_move")
MC = "SPECIFICATION Spec\nINVARIANTS Right Dots\nCHECK_DEADLOCK FALSE\n"
M = lambda x: int(round(float(x) * 1000000))


class Clock:
    """Time as the planner programs see it: every look takes a little, the search takes what it is told to."""
    def __init__(self, t):
        self.t = t
    def time(self):
        self.t += 1e-6
        return self.t


def search(kind, plan, spies, clock):
    """Stands in for the solver: asks motion streams as told, takes its time, and ends as told."""
    import pybullet_tools.utils as u
    import checks.anytime as A
    def facts(init, name):
        return [tuple(f[1:]) for f in init if str(f[0]).lower() == name]
    def solve(pp):
        init, sm = (pp.init, pp.stream_map) if hasattr(pp, "stream_map") else (pp[4], pp[3])
        if kind == "rover":
            (v, q0), = facts(init, "atconf")
            b, pose = facts(init, "atpose")[0]
            q1 = sm["sample-ik"](v, b, pose)[0]
            ask = lambda: sm["sample-motion"](v, q0, q1)
            dim = 2
        else:
            b = facts(init, "graspable")[0][0]
            K = [f[1:] for f in facts(init, "kin") if f[0] == b]
            pre, post = [x[0] for x in facts(init, "preinsert")], [x[0] for x in facts(init, "postinsert")]
            (_, g, c1), = [f for f in K if any(f[2] is x for x in pre)]
            (_, _, c2), = [f for f in K if any(f[2] is x for x in post)]
            ask = lambda: sm["plan-insert-motion"](c1, c2, b, g)
            dim = 6
        clock.t += plan["t"] / 2.0
        try:
            for first in plan["asks"]:
                spy = A.Spy(first, [])
                spy.path = np.zeros((2, dim))
                spy.s = spy.g = np.zeros(dim)
                spy.install(CLS)
                spies.append(spy)
                ask()
        finally:
            clock.t += plan["t"] / 2.0
        if plan["end"] == "died":
            raise KeyboardInterrupt if plan["t"] % 2 else MemoryError
        return ([] if plan["end"] == "solved" else None), (3.0 if plan["end"] == "solved" else float("inf")), []
    return solve


def one(mod, kind, argv, plan, seed):
    from checks.runs import perform
    clock = Clock(1.7e9 + seed % 10 ** 6)
    old, mod.time = mod.time, clock
    spies = []
    try:
        try:
            r, got = perform(mod, argv, seed, search(kind, plan, spies, clock))
        except KeyboardInterrupt:
            r = ("raise", "KeyboardInterrupt")
    finally:
        mod.time = old
    found = [s.ev[-1][0] for s in spies if s.ev and s.ev[-1][2]]
    fin = plan["end"]
    if fin != "died" and kind == "arm" and any(not (s.ev and s.ev[-1][2]) for s in spies):
        fin = "unsolved"                                   # an insertion without a motion ends the run
    if fin != "died" and r[0] != "ok":
        return None, r
    return dict(found=found, fin=fin, t=plan["t"]), r


def bars(ax, q):
    """Every bar with the setting its tick label names."""
    out = []
    ticks = [(x, t.get_text()) for x, t in zip(ax["ticks"], ax["labels"])]
    for a in ax["axes"]:
        name = a.get_ylabel().lower()
        what = "rate" if "success" in name else "time" if "time" in name else "?"
        for c in a.containers:
            if not hasattr(c, "patches"):
                continue
            segs = []
            if getattr(c, "errorbar", None) is not None:
                for col in c.errorbar[2]:
                    segs += [s for s in col.get_segments()]
            for k, p in enumerate(c.patches):
                x, h = p.get_x() + p.get_width() / 2.0, p.get_height()
                near = [t for t in ticks if abs(t[0] - x) < 0.5]
                lab = min(near, key=lambda t: abs(t[0] - x))[1] if near else ""
                s = [int(float(v)) if v[0].isdigit() else int(v == "True") for v in re.findall(r"\d+(?:\.\d+)?|True|False", lab)]
                e = abs(segs[k][1][1] - segs[k][0][1]) / 2.0 if k < len(segs) else -1
                u = (1000, 100) if what == "rate" else (100, 100)
                f = lambda v, m: int(round(v * m)) if np.isfinite(v) and abs(v * m) < 2e9 else -999999
                out.append(dict(q=what, s=s, v=f(h, u[0]), e=f(e, u[0])))
    return out


def read(script, d):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    here, path = os.getcwd(), list(sys.path)
    os.chdir(d)
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        with quiet(), np.errstate(all="ignore"):
            r = guard(runpy.run_path, os.path.join(T, script), run_name="__main__", limit=200)
        fig = plt.gcf()
        with quiet():
            fig.canvas.draw()
    finally:
        os.chdir(here)
        sys.path[:] = path
        plt.show = show
    return r, fig


def farm(job):
    rng = random.Random(job["seed"])
    mod = MODS[job["kind"]]
    runs = []
    with tempfile.TemporaryDirectory() as d:
        here = os.getcwd()
        os.makedirs(os.path.join(d, "runs", "empty"))
        with open(os.path.join(d, "runs", "notes.txt"), "w") as f:
            f.write("Solved: True\nTime: 1\nFound solution in\n9\n")
        os.chdir(d)
        try:
            for i, (o, plan) in enumerate(job["runs"]):
                argv = [x for k, v in o.items() for x in ([] if v is False else ["--" + k] if v is True else ["--%s=%s" % (k, v)])]
                argv += ["--save-dir", rng.choice(["runs/prm-%d" % i, "./runs/a/b-%d" % i, os.path.join(d, "runs", "x%d" % i)])]
                rng.shuffle(argv) if False else None
                r, why = one(mod, job["kind"], argv, plan, job["seed"] + 7919 * i)
                if r is None:
                    return [dict(kind=k, rc=":".join(map(str, why[:3])), runs=[], bars=[], dots=[], curve=[]) for k in ("chart", "dots")]
                mn, mx = (10, 2000) if job["kind"] == "rover" else (500, 30000)
                r.update(s=[int(o.get("min-samples", mn)), int(o.get("max-samples", mx)), int(bool(o.get("adaptive-n")))], delta=M(o.get("delta", 0.05 if job["kind"] == "rover" else 0.04)))
                runs.append(r)
        finally:
            os.chdir(here)
        out = []
        r, fig = read("time_success_plot.py", d)
        t = dict(kind="chart", rc="ok" if r[0] == "ok" else ":".join(map(str, r[:3])), runs=runs, bars=[])
        if r[0] == "ok" and fig.axes:
            a = fig.axes[0]
            t["bars"] = bars(dict(axes=fig.axes, ticks=a.get_xticks(), labels=a.get_xticklabels()), None)
        out.append(t)
        if job["dots"] and any(r["found"] for r in runs):
            from matplotlib.collections import PathCollection
            r, fig = read("bound_plot.py", d)
            t = dict(kind="dots", rc="ok" if r[0] == "ok" else ":".join(map(str, r[:3])), runs=runs, dots=[], curve=[])
            if r[0] == "ok":
                import nonasymptotic.bound as B
                for a in fig.axes:
                    for c in a.collections:
                        if isinstance(c, PathCollection):
                            t["dots"] += [[M(x), int(np.floor(y + 1e-9))] for x, y in np.asarray(c.get_offsets())]
                    for line in a.lines:
                        xs, ys = line.get_xdata(), line.get_ydata()
                        ks = sorted(set([0, 1, len(xs) - 1] + rng.sample(range(len(xs)), min(8, len(xs)))))
                        with quiet(), np.errstate(all="ignore"):
                            t["curve"] += [[M(xs[k]), int(ys[k]), int(B.compute_numerical_bound(float(xs[k]), 0.9, 1, 2, None)[0])] for k in ks]
            out.append(t)
    return out


def run(ctx):
    global CLS, MODS
    import checks.anytime as A
    rng = ctx.rng
    ctx.tlc("SummaryMC", MC, params=dict(n=2, found=ctx.q(1, 2), variant="ok"), label="logs written side by side and read back")
    for v in ("died", "min", "last", "file"):
        ctx.refuted("SummaryMC", MC, params=dict(n=2, found=1, variant=v))
    env.use("common", "noscipy", "tamp", tamp="turtlebot_move")
    MODS = dict(rover=load("turtlebot_move", "run"))
    CLS = A.prep()
    def jobs(kind, n):
        out = []
        for k in range(n):
            lo, hi = rng.sample([1, 3, 5, 20], 2), rng.sample([40, 60, 100], 2)
            deltas = [0.05, round(rng.uniform(0.02, 0.15), 3), rng.uniform(0.02, 0.15)] if kind == "rover" else [0.04, 0.06]
            runs = []
            for i in range(rng.randint(2, 8)):
                o = {"min-samples": rng.choice(lo), "max-samples": rng.choice(hi), "delta": rng.choice(deltas), "seed": i + 1, "factor": rng.choice(["1.1", "1.5", "2"])}
                if kind == "arm":
                    o.update({"collision-buffer": 0.02})
                if rng.random() < 0.2:
                    del o["min-samples"], o["max-samples"]
                    if rng.random() < 0.6:
                        o["adaptive-n"] = True
                asks = [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.randint(0, 3))]
                if o.get("adaptive-n"):
                    asks = [min(a, 1) for a in asks]
                runs.append((o, dict(asks=asks, t=rng.randint(1, 20), end=rng.choice(["solved"] * 5 + ["unsolved"] * 2 + ["died"]))))
            if all(r[1]["end"] == "died" for r in runs):
                runs[0][1]["end"] = "solved"
            out.append(dict(kind=kind, runs=runs, seed=rng.getrandbits(28), dots=kind == "rover"))
        return out
    res = pmap(farm, jobs("rover", ctx.q(40, 300)))
    purge()
    MODS = dict(arm=load("kuka_carry", "run"))
    res += pmap(farm, jobs("arm", ctx.q(10, 60)))
    tr = [t for r in res for t in r]
    ctx.cov.update(charts=sum(t["kind"] == "chart" for t in tr), scatters=sum(t["kind"] == "dots" for t in tr), planner_runs=sum(len(t["runs"]) for t in tr if t["kind"] == "chart"),
                   runs_that_died=sum(r["fin"] == "died" for t in tr if t["kind"] == "chart" for r in t["runs"]))
    if not any(len(t["bars"]) > 4 for t in tr if t["kind"] == "chart" and t["rc"] == "ok") and all(t["rc"] == "ok" for t in tr):
        raise Machinery("no chart with several bars")
    ctx.validate("SummaryTrace", tr)
    ctx.assumptions += ["the solver is a stand-in that asks the real motion streams over a scripted roadmap and prints its result as the planner library does", "log files of different runs have different names, as their time stamps give them"]
