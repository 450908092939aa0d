"""C20, C21: one experiment trial against specs/Trials*.tla."""
import importlib, inspect, json, math, os, shutil, sys, time
import env
from core import Machinery, REPO, guard, pmap, quiet
from procsim import World

EXPS = os.path.join(REPO, "exps")
BIG = sys.float_info.max


def isnan(x):
    return x is None or (isinstance(x, float) and x != x) or x == ""


def flt(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float("nan")


# ---- narrow passage -----------------------------------------------------------------------------------------------
def corners(dim, delta):
    import numpy as np
    c = 0.5 - delta
    a = np.array([-1.0 - c] + [-c] * (dim - 1))
    return a, -a


class Patched:
    def __init__(self):
        self.undo = []
    def set(self, o, n, v):
        self.undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    def close(self):
        for o, n, v in reversed(self.undo):
            setattr(o, n, v)


def fakes(kind, profiles, queries, start, goal):
    """Roadmap classes whose answers follow a profile: per sample count the candidate settings and the solving threshold."""
    import numpy as np
    import nonasymptotic.prm as P
    class Common:
        def begin(self):
            self.cur, self.nq = None, 0
        def prof(self):
            if self.cur is None:
                raise RuntimeError("queried before growing")
            return profiles[self.cur]
        def answer(self, idx, m):
            # idx: number of candidates at or below the setting in force; m + 1: the maximum
            pr = self.prof()
            if idx < pr["t"]:
                return BIG, np.zeros((0, 2))
            return 60.0 - 1.25 * idx, np.zeros((4 + (idx * 7) % 5, 2))
        def query_best_solution(self, s, g):
            queries.append(bool(np.allclose(s, start) and np.allclose(g, goal)) or bool(np.allclose(g, start) and np.allclose(s, goal)))
            return self.answer(self.index(), len(self.prof()["cand"]))
        def reset(self):
            self.cur = None
        def num_vertices(self):
            return self.cur or 0
        def num_edges(self):
            return 0
        def grow(self, n):
            if n not in profiles:
                raise ArithmeticError("unexpected sample count %r" % (n,))
            if self.cur is not None and n <= self.cur:
                raise ArithmeticError("PRM is already %i large, cannot grow to %i samples." % (self.cur, n))
            self.cur = int(n)
    class Radius(Common, P.SimpleFullConnRadiusPRM):
        def __init__(self, connection_rad, motion_validity_checker, valid_state_sampler, seed=None, verbose=False):
            super().__init__(connection_rad, motion_validity_checker, valid_state_sampler, seed, False)
            self.begin()
            self.true_max = connection_rad
        def grow_to_n_samples(self, n_samples):
            self.grow(n_samples)
            ds = [d for d in self.prof()["cand"] if d <= self.conn_r]
            k = self.prof()["dup"]
            return np.array((ds[k % max(1, len(ds)):] + ds[::-1] + ds[:k % max(1, len(ds))])) if ds else np.array([])
        def set_connection_radius(self, new_conn_r):
            self.conn_r = new_conn_r
        def index(self):
            c = self.prof()["cand"]
            return len(c) + 1 if self.conn_r >= self.true_max else sum(x <= self.conn_r for x in c)
    class Knn(Common, P.SimpleNearestNeighborRadiusPRM):
        def __init__(self, k_neighbors, motion_validity_checker, valid_state_sampler, sdf_to_path, truncate_to_eff_rad=True, seed=None, verbose=False, **k):
            super().__init__(k_neighbors, motion_validity_checker, valid_state_sampler, sdf_to_path, truncate_to_eff_rad=truncate_to_eff_rad, seed=seed, verbose=False, **k)
            self.begin()
            self.cap, self.trunc = 0, truncate_to_eff_rad
        def grow_to_n_samples(self, n_samples):
            self.grow(n_samples)
            self.cap = self.k_neighbors
            self.conn_r = None
            self.certified_max_conn_r = 0.5
            if self.trunc:
                self.conn_r = 0.5
                return 0.5, np.array([0.25, 0.5])
        def set_nearest_neighbors(self, k):
            if k > self.max_k_neighbors:
                raise ArithmeticError("Cannot grow KNN PRM past the original set number of neighbors.")
            self.k_neighbors = k
        def set_connection_radius(self, r):
            self.conn_r = r
        def index(self):
            if self.conn_r is not None:
                return 0                                    # a radius was left in force
            k, c = min(self.k_neighbors, self.cap), self.prof()["cand"]
            return len(c) + 1 if k >= self.max_k_neighbors else sum(x <= k for x in c)
    return Radius, Knn


def narrow_records(df, typ, dim, delta, seed, sched):
    cols = ["prm_type", "dim", "delta_clearance", "n_samples", "conn_lb", "conn_ub", "thresh_path_dist", "thresh_path_len", "build_time", "check_time", "info", "seed"]
    rows = df.to_dict("records")
    ok = all(set(r) == set(cols) and all(r[c] is not None for c in cols) for r in rows)
    ok = ok and [int(r["n_samples"]) for r in rows] == list(sched)
    ok = ok and all(r["prm_type"] == typ and int(r["dim"]) == dim and abs(flt(r["delta_clearance"]) - delta) < 1e-12 and int(r["seed"]) == seed
                    and flt(r["build_time"]) >= 0 and flt(r["check_time"]) >= 0 and isinstance(r["info"], str) for r in rows)
    return rows, ok


def near(x, xs, tol=1e-9):
    """1-based index of the value in the list, 0 for not-a-number, -1 for none of them"""
    if isnan(x):
        return 0
    for i, y in enumerate(xs, 1):
        if abs(float(x) - y) <= tol * max(1.0, abs(y)):
            return i
    return -1


def narrow_trace(typ, r, dim, delta, seed, sched, facts, query_ok):
    """facts: per sample count (candidates, answers per candidate, answer at the maximum), answer = (distance, node count) or None"""
    base = dict(kind="narrow", typ=typ, rc=r[0] if r[0] == "ok" else str(r[1] if len(r) > 1 else r[0]), complete=True, rows=len(sched), query=query_ok, ev=[])
    rows = []
    if r[0] == "ok":
        rows, base["complete"] = narrow_records(r[1], typ, dim, delta, seed, sched)
        base["rows"] = len(rows)
    for i, n in enumerate(sched):
        cand, ans, amax = facts[n]
        row = rows[i] if i < len(rows) else {}
        dists = [a[0] for a in ans + [amax] if a]
        code = lambda a: dict(d=near(a[0], dists), l=int(a[1])) if a else dict(d=0, l=0)
        ln = row.get("thresh_path_len")
        base["ev"].append(dict(n=n, m=len(cand), works=[a is not None for a in ans], wmax=amax is not None, ans=[code(a) for a in ans], amax=code(amax),
                               lo=near(row.get("conn_lb"), cand), hi=near(row.get("conn_ub"), cand), d=near(row.get("thresh_path_dist"), dists),
                               len=0 if isnan(ln) else int(ln), info=bool(row.get("info"))))
    return base


def load_narrow():
    import importlib.util
    if "narrow_driver" not in sys.modules:
        sp = importlib.util.spec_from_file_location("narrow_driver", os.path.join(EXPS, "run_narrow_passage_clearance_trial.py"))
        m = importlib.util.module_from_spec(sp)
        sys.modules["narrow_driver"] = m
        with quiet():
            sp.loader.exec_module(m)
    return sys.modules["narrow_driver"]


def fake_narrow(a):
    ctx, typ, profs, dim, delta, seed, maxc = a
    import nonasymptotic.prm as P
    M = load_narrow()
    start, goal = corners(dim, delta)
    queries, p = [], Patched()
    profiles = {pr["n"]: pr for pr in profs}
    R, K = fakes(typ, profiles, queries, start, goal)
    try:
        for o in (P, M):
            for n, c in (("SimpleFullConnRadiusPRM", R), ("SimpleNearestNeighborRadiusPRM", K)):
                if hasattr(o, n):
                    p.set(o, n, c)
        sched = [pr["n"] for pr in profs]
        with quiet():
            r = guard(M.narrow_passage_clearance, delta, dim, seed, list(sched), typ, maxc, limit=20)
        facts = {}
        for pr in profs:
            m = len(pr["cand"])
            f = lambda i: None if i < pr["t"] else (60.0 - 1.25 * i, 4 + (i * 7) % 5)
            facts[pr["n"]] = (pr["cand"], [f(i) for i in range(1, m + 1)], f(m + 1))
        return narrow_trace(typ, r, dim, delta, seed, sched, facts, all(queries))
    finally:
        p.close()


def real_narrow(a):
    ctx, typ, sched, dim, delta, seed, maxc = a
    import numpy as np
    import nonasymptotic.prm as P
    from nonasymptotic.envs import NarrowPassage
    M = load_narrow()
    with quiet():
        r = guard(M.narrow_passage_clearance, delta, dim, seed, list(sched), typ, maxc, limit=60)
    # what is true of the roadmaps: an independent roadmap over the same samples, asked at every candidate
    e = NarrowPassage(dim=dim, clearance=delta, seed=seed)
    start, goal = corners(dim, delta)
    facts = {}
    def ask(prm):
        d, path = prm.query_best_solution(start, goal)
        return (float(d), len(path)) if len(path) else None
    with quiet():
        if typ == "radius":
            prm = P.SimpleFullConnRadiusPRM(maxc, e.is_motion_valid, e.sample_from_env, seed=seed)
            for n in sched:
                prm.set_connection_radius(maxc) if prm.prm_graph is not None else None
                cand = sorted({float(x) for x in prm.grow_to_n_samples(n)})
                amax = ask(prm)
                ans = []
                for c in cand:
                    prm.set_connection_radius(c)
                    ans.append(ask(prm))
                facts[n] = (cand, ans, amax)
        else:
            prm = P.SimpleNearestNeighborRadiusPRM(maxc, e.is_motion_valid, e.sample_from_env, e.distance_to_path, truncate_to_eff_rad=False, seed=seed)
            for n in sched:
                prm.set_nearest_neighbors(maxc) if prm.prm_graph is not None else None
                prm.grow_to_n_samples(n)
                cand = [2 ** i for i in range(2, int(math.floor(math.log2(maxc) + 0.5)) + 1)]
                amax = ask(prm)
                ans = []
                for c in cand[:-1]:
                    prm.set_nearest_neighbors(c)
                    ans.append(ask(prm))
                prm.set_nearest_neighbors(min(cand[-1], maxc))
                ans.append(ask(prm))
                facts[n] = (cand, ans, amax)
    return narrow_trace(typ, r, dim, delta, seed, sched, facts, True)


# ---- straight line ------------------------------------------------------------------------------------------------
def fake_line(a):
    ctx, profs, dim, delta, kmax, tag = a
    import numpy as np
    import nonasymptotic.prm, nonasymptotic.envs, prm as P2, envs as E2
    root = os.path.join(ctx.scratch, "l%d_%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(root)
    p = Patched()
    by = {pr["n"]: pr for pr in profs}
    st = {pr["n"]: dict(tested=[], tol=True, grown=True) for pr in profs}
    live = dict(cur=None)
    def make(base):
        class Fake(base):
            def __init__(self, k_neighbors, motion_validity_checker, valid_state_sampler, sdf_to_path, truncate_to_eff_rad=True, seed=None, verbose=False, **k):
                super().__init__(k_neighbors, motion_validity_checker, valid_state_sampler, sdf_to_path, truncate_to_eff_rad=truncate_to_eff_rad, seed=seed, verbose=False, **k)
                self.cur = None
            def grow_to_n_samples(self, n):
                if n not in by or (self.cur is not None and n <= self.cur):
                    raise ArithmeticError("PRM is already large")
                self.cur = n
                live["cur"] = n
                self.certified_max_conn_r = self.conn_r = by[n]["eff"]
                if not self.truncate_to_eff_rad:
                    self.conn_r = None
                    return None
                return by[n]["eff"], np.array(by[n]["all"])
            def set_connection_radius(self, r):
                self.conn_r = r
            def reset(self):
                self.cur = None
            def num_vertices(self):
                return self.cur or 0
        return Fake
    def complete(orig):
        sig = inspect.signature(orig)
        def f(s, *a, **k):
            g = sig.bind(s, *a, **k).arguments
            tol, prm = float(g["tol"]), g["prm"]
            n = live["cur"]
            pr = by[n]
            st[n]["grown"] &= getattr(prm, "cur", None) == n
            r = 2 * delta * (1 + tol) / math.sqrt(1 + tol * tol)
            i = near(r, pr["cand"], 1e-6)
            if i <= 0:
                st[n]["tol"] = False
                return False, ""
            if len(st[n]["tested"]) > 50:
                raise RuntimeError("endless checking")
            st[n]["tested"].append(i)
            o = pr["out"][i - 1]
            return o == "pass", ("timed out" if o == "time" else "ok")
        return f
    try:
        for m in (nonasymptotic.prm, P2):
            p.set(m, "SimpleNearestNeighborRadiusPRM", make(m.SimpleNearestNeighborRadiusPRM))
        for m in (nonasymptotic.envs, E2):
            p.set(m.StraightLine, "is_prm_epsilon_delta_complete", complete(m.StraightLine.is_prm_epsilon_delta_complete))
        sched = [pr["n"] for pr in profs]
        cfg = dict(delta=delta, dims_to_test=[dim], sample_schedule=sched, n_samples_per_check_round=7, ed_check_timeout=1.0, area_tol=1e-5, prm_max_k_neighbors=kmax, n_trials=1)
        with open(os.path.join(root, "config.json"), "w") as f:
            json.dump(cfg, f)
        r = guard(World(lambda t, x: (127, "")).script, os.path.join(EXPS, "run_straight_line_optimality_trial.py"), [0, 1, os.path.join(root, "config.json"), root], EXPS, limit=20)
        rc = r[1][0] if r[0] == "ok" else r[0]
        rows = read(os.path.join(root, "out0.csv"))
        t = dict(kind="line", rc=rc, complete=all({"n_samples", "rad_lbs", "rad_ubs", "info", "build_time", "check_time", "dim", "delta_clearance", "seed", "trial"} <= set(x) for x in rows)
                 and [int(flt(x.get("n_samples", -1))) for x in rows] == sched and all(flt(x.get("dim")) == dim and abs(flt(x.get("delta_clearance")) - delta) < 1e-12 for x in rows),
                 rows=len(rows), query=True, ev=[])
        for i, pr in enumerate(profs):
            x = rows[i] if i < len(rows) else {}
            s = st[pr["n"]]
            t["ev"].append(dict(n=pr["n"], m=len(pr["cand"]), out=pr["out"], tested=s["tested"], tol=s["tol"], grown=s["grown"],
                                lo=near(x.get("rad_lbs") or float("nan"), pr["cand"]), hi=near(x.get("rad_ubs") or float("nan"), pr["cand"]), info=bool(x.get("info"))))
        return t
    finally:
        p.close()
        shutil.rmtree(root, True)


def read(path):
    import csv
    if not os.path.exists(path):
        return []
    with open(path, newline="") as f:
        out = list(csv.DictReader(f))
    for r in out:
        for k in ("rad_lbs", "rad_ubs", "eff_rad"):
            if k in r:
                r[k] = flt(r[k])
    return out


# ---- k-nearest radius ---------------------------------------------------------------------------------------------
def knn_trial(a):
    ctx, cfg, box = a
    import numpy as np
    import nonasymptotic.envs, envs as E2
    root = os.path.join(ctx.scratch, "k%d_%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(root)
    p, made = Patched(), []
    for m in (nonasymptotic.envs, E2):
        c = m.StraightLine
        init, sig = c.__init__, inspect.signature(c.__init__)
        def new_init(s, *a, _init=init, _sig=sig, **k):
            b = _sig.bind(s, *a, **k)
            b.apply_defaults()
            g = b.arguments
            _init(s, *a, **k)
            made.append(dict(dim=int(g["dim"]), delta=float(g["delta_clearance"]), length=float(s.length), seed=None if g["seed"] is None else int(g["seed"]), pts=[]))
            s._made, s._rng = made[-1], np.random.default_rng(made[-1]["seed"])
        def sample(s):
            x = s._rng.integers(0, box, s.dim)
            s._made["pts"].append([int(v) for v in x])
            return x.astype(float)
        p.set(c, "__init__", new_init)
        p.set(c, "sample_from_env", sample)
    try:
        with open(os.path.join(root, "config.json"), "w") as f:
            json.dump(cfg, f)
        r = guard(World(lambda t, x: (127, "")).script, os.path.join(EXPS, "run_knn_radius_trial.py"), [0, 1, os.path.join(root, "config.json"), root], EXPS, limit=30)
        rc = r[1][0] if r[0] == "ok" else r[0]
        rows = read(os.path.join(root, "out0.csv"))
        pairs = [(s, k) for s in cfg["sample_schedule"] for k in cfg["neighbor_schedule"] if k < s]
        trials = [(d, t) for d in cfg["dims_to_test"] for t in range(cfg["n_trials"])]
        ok = len(rows) == len(pairs) * len(trials) and len(made) == len(trials)
        t = dict(kind="knn", rc=rc, complete=True, rows=len(rows), query=True, ev=[])
        want = [(d, tr, s, k) for d, tr in trials for s, k in pairs]
        got = [(int(flt(x.get("dim"))), int(flt(x.get("trial"))), int(flt(x.get("n_samples"))), int(flt(x.get("n_neighbors")))) for x in rows] if rc == "ok" else []
        t["complete"] = ok and sorted(got) == sorted(want)
        bys = {e["seed"]: e for e in made}
        for x in rows if t["complete"] else []:
            e = bys.get(int(flt(x["seed"])))
            good = e is not None and e["dim"] == int(flt(x["dim"])) and e["length"] == 1.0 and e["delta"] == cfg["delta"] and abs(flt(x["delta_clearance"]) - cfg["delta"]) < 1e-12
            s = int(flt(x["n_samples"]))
            i = sum(q for q in cfg["sample_schedule"][:cfg["sample_schedule"].index(s)])
            pts = (e["pts"] if e else [])[i:i + s]
            t["complete"] &= good and len(pts) == s
            v = x["eff_rad"]
            t["ev"].append(dict(nn=int(flt(x["n_neighbors"])), pts=pts, r=int(v * 1000) if v == v and v < 1e6 else -5))
        if not t["ev"]:
            t["ev"], t["rows"] = [dict(nn=1, pts=[[0], [0]], r=0)], -1
        return t
    finally:
        p.close()
        shutil.rmtree(root, True)


# ---- the checks ---------------------------------------------------------------------------------------------------
INV = "SPECIFICATION Spec\nINVARIANTS Right Few\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"


def design(ctx, mode, variants):
    p = dict(mode=mode, maxm=9 if mode == "narrow" else ctx.q(7, 9), variant="fixed")
    ctx.tlc("TrialsMC", INV, params=p, label="design " + mode)
    for v in variants:
        ctx.refuted("TrialsMC", INV, params=dict(p, variant=v, maxm=6), label="sensitivity " + v)
    r = ctx.tlc("TrialsMC", "SPECIFICATION Spec\nINVARIANT PrintProfile\nCHECK_DEADLOCK FALSE\n", params=dict(p, maxm=ctx.q(12, 40) if mode == "narrow" else ctx.q(7, 8)), label="profiles", workers=1)
    return r.records


def run(ctx):
    env.use("common", "noscipy", "pandas_stub")
    return narrow(ctx) if ctx.pid == "C20" else line(ctx)


def narrow(ctx):
    import nonasymptotic.prm, nonasymptotic.envs
    load_narrow()
    recs = design(ctx, "narrow", ("noend", "swap", "up"))
    rng, jobs = ctx.rng, []
    def radius_profile(r, n, maxc):
        vals = sorted(rng.sample(range(1, 990), r["m"]))
        return dict(n=n, cand=[v / 1000 * maxc for v in vals], t=r["t"], dup=rng.randrange(20))
    reps = ctx.q(2, 12)
    for _ in range(reps):
        rs = list(recs)
        rng.shuffle(rs)
        i = 0
        while i < len(rs):
            k = rng.choice([1, 1, 2, 3])
            maxc = rng.choice([0.5, 1.0, 2.25])
            ns = sorted(rng.sample(range(2, 400), k))
            dim, delta = rng.choice([2, 3, 5]), rng.choice([0.05, 0.125, 0.3, 0.499])
            jobs.append((ctx, "radius", [radius_profile(r, n, maxc) for r, n in zip(rs[i:i + k], ns)], dim, delta, rng.randrange(2 ** 32), maxc))
            i += k
    for maxc in ctx.q((4, 5, 8, 11, 12, 16, 32, 100, 256), (3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 23, 32, 64, 100, 128, 256, 512, 1024)):
        cand = [2 ** i for i in range(2, int(math.floor(math.log2(maxc) + 0.5)) + 1)]
        for t in range(1, len(cand) + 3):
            for k in (1, 3):
                ts = [t] + [rng.randrange(1, len(cand) + 3) for _ in range(k - 1)]
                if t % 2:
                    ts.reverse()
                ns = sorted(rng.sample(range(2000, 9000), k))
                jobs.append((ctx, "knn", [dict(n=n, cand=cand, t=x, dup=0) for n, x in zip(ns, ts)], rng.choice([2, 4]), rng.choice([0.1, 0.4]), rng.randrange(2 ** 32), maxc))
    # the candidate list is capped by the maximum itself: a power of two equal to it
    tr = pmap(fake_narrow, jobs)
    real = []
    for i in range(ctx.q(60, 700)):
        dim = rng.choice([2, 2, 2, 3])
        sched = sorted(rng.sample(range(2, 16), rng.choice([1, 2]))) + ([rng.randrange(20, 45)] if i % 3 else [])
        real.append((ctx, "radius", sched, dim, rng.choice([0.2, 0.35, 0.45, 0.499]), rng.randrange(2 ** 32), rng.choice([0.05, 0.4, 0.7, 1.0, 1.6])))
    for i in range(ctx.q(40, 400)):
        maxc = rng.choice([4, 6, 8, 11, 16])
        sched = sorted(rng.sample(range(maxc + 2, 60), rng.choice([1, 2, 3])))
        real.append((ctx, "knn", sched, rng.choice([2, 2, 3]), rng.choice([0.2, 0.35, 0.45, 0.499]), rng.randrange(2 ** 32), maxc))
    rt = pmap(real_narrow, real)
    ctx.cov.update(profile_trials=len(tr), real_trials=len(rt), sample_counts=sum(len(t["ev"]) for t in tr + rt),
                   real_solved=sum(e["wmax"] for t in rt for e in t["ev"]), real_without_edges=sum(e["m"] == 0 for t in rt for e in t["ev"]),
                   real_single=sum(e["m"] == 1 for t in rt for e in t["ev"]))
    ctx.validate("TrialsTrace", tr, label="profiles")
    ctx.validate("TrialsTrace", rt, label="real roadmaps")
    ctx.assumptions += ["solvability is monotone in the setting", "a trial is given at least three neighbours (at least one power of two to try)",
                        "pandas and networkit are stand-ins reproducing their documented behaviour"]


def line(ctx):
    import nonasymptotic.prm, nonasymptotic.envs, prm, envs, ann, nonasymptotic.ann
    recs = design(ctx, "line", ("swap", "pass", "up"))
    recs = [r for r in recs if r["m"] >= 2]
    rng, jobs = ctx.rng, []
    rng.shuffle(recs)
    recs = [r for r in recs if r["m"] <= 4] + recs[:ctx.q(250, 1200)]
    i = 0
    while i < len(recs):
        k = rng.choice([1, 2, 3])
        delta = rng.choice([0.1, 0.5, 0.75])
        profs = []
        for r, n in zip(recs[i:i + k], sorted(rng.sample(range(20, 3000), k))):
            ys = sorted(y / 1000 for y in rng.sample([v for v in range(300, 1390) if not 990 <= v <= 1010], r["m"] + 3))
            cand = [2 * delta * y for y in ys[:r["m"]]]
            extra = [2 * delta * y for y in ys[r["m"]:]][:rng.choice([0, 1, 3])]
            out = list(r["out"])
            # ends are never looked at: any outcome
            out[0], out[-1] = rng.choice(["pass", "fail"]), rng.choice(["pass", "fail"])
            profs.append(dict(n=n, cand=cand, all=cand + extra, eff=cand[-1], out=out))
        jobs.append((ctx, profs, rng.choice([2, 3]), delta, rng.choice([4, 254]), i))
        i += k
    tr = pmap(fake_line, jobs)
    kjobs = []
    for i in range(ctx.q(40, 400)):
        ss = sorted(rng.sample(range(3, 15), rng.choice([1, 2, 3])))
        ks = sorted(set(rng.sample(range(1, 17), rng.choice([1, 2, 4])) + [rng.randrange(1, ss[0])]))
        if i % 3 == 0:
            ks = sorted(set(ks + [ss[-1] - 1, ss[-1]]))
        kjobs.append((ctx, dict(delta=rng.choice([0.5, 0.25, 1.0]), dims_to_test=rng.choice([[2], [3, 2], [4]]), sample_schedule=ss, neighbor_schedule=ks, n_trials=rng.choice([1, 2])), rng.choice([4, 9, 20])))
    kt = pmap(knn_trial, kjobs)
    ctx.cov.update(line_trials=len(tr), checks=sum(len(e["tested"]) for t in tr for e in t["ev"]), knn_trials=len(kt), knn_rows=sum(len(t["ev"]) for t in kt))
    ctx.validate("TrialsTrace", tr, label="line")
    ctx.validate("TrialsTrace", kt, label="knn radius")
    ctx.assumptions += ["the completeness check is an oracle (it raises NotImplementedError in the code under test)",
                        "candidate radii below sqrt(2) times twice the clearance and different from it, so that a tolerance belongs to each", "neighbour counts in ascending order"]
