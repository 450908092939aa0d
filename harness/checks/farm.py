"""C19: the experiment drivers under kills and restarts, against specs/Farm*.tla."""
import inspect, json, os, shutil, time
import env
from core import Machinery, REPO, pmap
from procsim import World

EXPS = os.path.join(REPO, "exps")
DRIVER = {"narrow": "run_narrow_passage_clearance_trial.py", "line": "run_straight_line_optimality_trial.py", "knn": "run_knn_radius_trial.py"}
CONFIGS = {
    "narrow": [dict(deltas=[0.25, 0.125], radius_dims_to_test=[2], knn_dims_to_test=[3], radius_sample_schedule=[6, 9], knn_sample_schedule=[9, 14],
                    radius_prm_max_radius=1.5, knn_prm_max_neighbors=8, n_trials=2),
               dict(deltas=[0.25], radius_dims_to_test=[2, 3], knn_dims_to_test=[2], radius_sample_schedule=[3, 8, 12], knn_sample_schedule=[12],
                    radius_prm_max_radius=0.9, knn_prm_max_neighbors=8, n_trials=1),
               dict(deltas=[0.25], radius_dims_to_test=[], knn_dims_to_test=[2, 3], radius_sample_schedule=[5], knn_sample_schedule=[10, 15],
                    radius_prm_max_radius=0.9, knn_prm_max_neighbors=9, n_trials=3)],
    "line": [dict(delta=0.5, dims_to_test=[2, 3], sample_schedule=[12, 20], n_samples_per_check_round=77, ed_check_timeout=11.5, area_tol=1e-7, prm_max_k_neighbors=6, n_trials=3),
             dict(delta=0.25, dims_to_test=[3, 2, 4], sample_schedule=[16], n_samples_per_check_round=5, ed_check_timeout=3.0, area_tol=1e-3, prm_max_k_neighbors=8, n_trials=2)],
    "knn": [dict(delta=0.5, dims_to_test=[2, 3], sample_schedule=[6, 10], neighbor_schedule=[2, 4, 8], n_trials=3),
            dict(delta=0.25, dims_to_test=[4, 2, 3], sample_schedule=[9], neighbor_schedule=[1, 3, 50], n_trials=2)],
}
TIMES = ("build_time", "check_time", "")


class Dead(BaseException):
    pass


class Farm:
    """Hooks on the environments, roadmaps and csv writer; decides where a process dies."""
    def __init__(self):
        import pandas, nonasymptotic.envs, nonasymptotic.prm, envs, prm, nonasymptotic.ann, ann
        self.pd = pandas
        self.undo = []
        for m in (nonasymptotic.envs, envs):
            for c in ("NarrowPassage", "StraightLine"):
                self.wrap_env(getattr(m, c))
        for m in (nonasymptotic.prm, prm):
            for c in ("SimpleFullConnRadiusPRM", "SimpleNearestNeighborRadiusPRM"):
                self.wrap_prm(getattr(m, c))
        pandas.HOOK[0] = self.csv
        self.arm(None)

    def arm(self, kill, limit=0):
        self.kill, self.dead, self.begun, self.caps, self.checks, self.n, self.limit = kill, False, [], [], [], 0, limit

    def die(self, phase):
        if self.dead:
            raise Dead()
        if self.kill and self.kill == (self.n, phase):
            self.dead = True
            raise Dead()

    def set(self, c, name, f):
        self.undo.append((c, name, c.__dict__[name]))
        setattr(c, name, f)

    def wrap_env(self, c):
        init, sample = c.__init__, c.sample_from_env
        sig, farm = inspect.signature(init), self
        def new_init(s, *a, **k):
            b = sig.bind(s, *a, **k)
            b.apply_defaults()
            g = b.arguments
            farm.n += 1
            if farm.limit and farm.n > farm.limit:
                raise Dead()
            farm.begun.append(dict(d=int(g["dim"]), s=int(g["seed"]), c=float(g.get("clearance", g.get("delta_clearance", -1)))))
            farm.die("begun")
            return init(s, *a, **k)
        def new_sample(s, *a, **k):
            farm.die("mid")
            return sample(s, *a, **k)
        self.set(c, "__init__", new_init)
        self.set(c, "sample_from_env", new_sample)
        if c.__name__ == "StraightLine":
            ed = inspect.signature(c.is_prm_epsilon_delta_complete)
            def complete(s, *a, **k):
                b = ed.bind(s, *a, **k)
                b.apply_defaults()
                g = b.arguments
                tol = float(g["tol"])
                farm.checks.append((g["n_samples_per_check"], g["timeout"], g["area_tol"]))
                h = int(abs(tol) * 1e6) if tol == tol else 5
                return (h % 3 == 0, "timed out" if h % 3 == 2 else "")
            self.set(c, "is_prm_epsilon_delta_complete", complete)

    def wrap_prm(self, c):
        init, farm = c.__init__, self
        def new_init(s, *a, **k):
            b = inspect.signature(init).bind(s, *a, **k)
            farm.caps.append((c.__name__, float(list(b.arguments.values())[1])))
            return init(s, *a, **k)
        self.set(c, "__init__", new_init)

    def csv(self, when, path):
        self.die("computed" if when == "before" else "ready")


def cells(path):
    """Rows of a csv: the values of all columns, timings aside, as comparable text."""
    import csv
    if not os.path.exists(path):
        return []
    out = []
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    for r in rows[1:]:
        d = {}
        for h, v in zip(rows[0], r):
            if h in TIMES:
                continue
            try:
                v = float(v)
            except ValueError:
                pass
            d[h] = v
        out.append(d)
    return out


def project(kind, rows, cfg, ids):
    out = []
    ident = lambda x: ids.setdefault(x, len(ids) + 1)
    for r in rows:
        try:
            m = int(r["n_samples"]) * 1000 + (int(r["n_neighbors"]) if kind == "knn" else 0)
            out.append(dict(t=2 if r.get("prm_type") == "knn" else 1, c=round(float(r.get("delta_clearance")) * 1000), d=int(r["dim"]), n=int(r["trial"]), m=m,
                            s=ident(("seed", float(r["seed"]))), v=ident(json.dumps(sorted(r.items())))))
        except (KeyError, ValueError, TypeError):
            out.append(dict(t=0, c=0, d=0, n=0, m=0, s=0, v=ident(json.dumps(sorted(r.items())))))
    return out


def marks(kind, cfg):
    if kind == "narrow":
        return [n * 1000 for n in cfg["radius_sample_schedule"]], [n * 1000 for n in cfg["knn_sample_schedule"]]
    if kind == "line":
        return [n * 1000 for n in cfg["sample_schedule"]], []
    return [s * 1000 + k for s in cfg["sample_schedule"] for k in cfg["neighbor_schedule"] if k < s], []


def run_driver(farm, kind, p, P, cfgp, save, kill, limit):
    farm.arm(kill, limit)
    w = World(lambda toks, text: (127, ""))
    try:
        r = w.script(os.path.join(EXPS, DRIVER[kind]), [p, P, cfgp, save], EXPS)
    except Dead:
        return "kill" if farm.dead else "raise"
    return "ok" if r[0] == "ok" and not farm.dead else "raise"


def case(a):
    ctx, kind, ci, P, hists = a
    cfg = CONFIGS[kind][ci]
    root = os.path.join(ctx.scratch, "f%d_%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(root)
    farm = Farm()
    try:
        cfgp = os.path.join(root, "config.json")
        with open(cfgp, "w") as f:
            json.dump(cfg, f)
        ids = {}
        ms = marks(kind, cfg)
        cs = [round(1000 * x) for x in (cfg["deltas"] if kind == "narrow" else [cfg["delta"]])]
        ntask = len(cs) * cfg["n_trials"] * (len(cfg["radius_dims_to_test"]) + len(cfg["knn_dims_to_test"]) if kind == "narrow" else len(cfg["dims_to_test"]))
        limit = 3 * ntask + 5
        base, ok, args = [], True, True
        save = os.path.join(root, "base")
        os.makedirs(save)
        caps = {"SimpleFullConnRadiusPRM": cfg.get("radius_prm_max_radius"), "SimpleNearestNeighborRadiusPRM": cfg.get("knn_prm_max_neighbors", cfg.get("prm_max_k_neighbors"))}
        for p in range(P):
            ok &= run_driver(farm, kind, p, P, cfgp, save, None, limit) == "ok"
            rows = cells(os.path.join(save, "out%d.csv" % p))
            base.append(project(kind, rows, cfg, ids))
            seeds = {r.get("seed"): r for r in rows}
            args &= all(b["s"] not in seeds or (float(seeds[b["s"]].get("dim", -1)) == b["d"] and abs(float(seeds[b["s"]].get("delta_clearance", -1)) - b["c"]) < 1e-12) for b in farm.begun)
            args &= all(v == caps[c] for c, v in farm.caps)
            if kind == "line":
                args &= all(tuple(x) == (cfg["n_samples_per_check_round"], cfg["ed_check_timeout"], cfg["area_tol"]) for x in farm.checks)
        out = []
        for hi, h in enumerate(hists):
            save = os.path.join(root, "h%d" % hi)
            os.makedirs(save)
            ev = []
            left = set(range(P))
            for p, n, ph in list(h) + [(p, 0, "end") for p in range(P)]:
                if p not in left:
                    continue
                end = run_driver(farm, kind, p, P, cfgp, save, None if ph == "end" else (n, ph), limit)
                begun = [dict(d=b["d"], s=ids.get(("seed", float(b["s"])), 0)) for b in farm.begun]
                ev.append(dict(p=p, begun=begun, end=end, rows=project(kind, cells(os.path.join(save, "out%d.csv" % p)), cfg, ids)))
                if end != "kill":
                    left.discard(p)
            shutil.rmtree(save, True)
            out.append(dict(kind=kind, P=P, cs=cs, ds=cfg.get("radius_dims_to_test", cfg.get("dims_to_test")), ds2=cfg.get("knn_dims_to_test", []), n=cfg["n_trials"],
                            marks=ms[0], marks2=ms[1], base=base, ok=ok, args=args, ev=ev))
        return out
    finally:
        for c, n, v in farm.undo:
            setattr(c, n, v)
        farm.pd.HOOK[0] = None
        shutil.rmtree(root, True)


def run(ctx):
    env.use("common", "noscipy", "pandas_stub")
    inv = "SPECIFICATION Live\nINVARIANTS Prefix Exact Parts NoRepeat\nPROPERTIES Kept Ends\nCHECK_DEADLOCK FALSE\n"
    p = dict(n=5, p=2, rows=2, kills=ctx.q(2, 3), variant="fixed", gen=False, rare=1)
    ctx.tlc("FarmMC", inv, params=p, label="design")
    ctx.tlc("FarmMC", inv, params=dict(p, n=4, p=3), label="design")
    ctx.tlc("FarmMC", inv, params=dict(p, n=2, p=3), label="design, idle process")
    for v in ("rows", "seeds", "late", "forget", "block", "retry"):
        ctx.refuted("FarmMC", inv, params=dict(p, variant=v, n=4, kills=1), label="sensitivity " + v)
    jobs = []
    for kind, ci, P in [(k, i, P) for k in CONFIGS for i in range(len(CONFIGS[k])) for P in ctx.q((1, 2, 3), (1, 2, 3, 4, 7, 13))]:
        cfg = CONFIGS[kind][ci]
        n = (len(cfg["deltas"]) * (len(cfg["radius_dims_to_test"]) + len(cfg["knn_dims_to_test"])) if kind == "narrow" else len(cfg["dims_to_test"])) * cfg["n_trials"]
        jobs.append((kind, ci, P, n))
    jobs.append(("narrow", 1, 20, 3))
    jobs.append(("knn", 0, 9, 6))
    hs = {}
    for n, P in sorted({(n, P) for _, _, P, n in jobs}):
        rare = max(3, 12 // P)
        r = ctx.tlc("FarmMC", "SPECIFICATION SpecGen\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", workers=1, label="histories n=%d P=%d" % (n, P),
                    params=dict(p, n=n, p=P, kills=6, gen=True, rare=rare), args=["-simulate", "num=%d" % ctx.q(60, 400), "-depth", "600", "-seed", str(ctx.seed * 100 + n * 10 + P)])
        seen = {}
        for x in r.records:
            seen.setdefault(str(x["h"]), x["h"])
        v = list(seen.values())
        ctx.rng.shuffle(v)
        hs[(n, P)] = v
    work = []
    for kind, ci, P, n in jobs:
        v = hs[(n, P)][:ctx.q(8, 120)]
        # every kill point of the first process, once
        v += [[(0, i, ph)] for i in range(1, (n + P - 1) // P + 1) for ph in ("begun", "mid", "computed", "ready")]
        v += [[(0, 1, ph), (0, 1, ph), (0, 2, "computed")] for ph in ("computed", "ready")]
        step = max(1, len(v) // ctx.q(3, 12))
        work += [(ctx, kind, ci, P, v[i:i + step]) for i in range(0, len(v), step)]
    tr = [t for ts in pmap(case, work) for t in ts]
    ctx.cov.update(runs=len(tr), segments=sum(len(t["ev"]) for t in tr), kills=sum(e["end"] == "kill" for t in tr for e in t["ev"]),
                   trials_per_configuration=sorted({n for _, _, _, n in jobs}), processes=sorted({P for _, _, P, _ in jobs}))
    ctx.validate("FarmTrace", tr)
    ctx.assumptions += ["a rewrite of the output file is atomic; pandas is a stand-in (no pandas in this environment)",
                        "processes of one experiment are interleaved at kills and restarts, not instruction by instruction"]
