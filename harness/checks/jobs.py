"""C22, C23: job submission, resumption, tuning sweeps and aggregation against specs/Jobs*.tla."""
import json, os, re, shutil, time
import env
from core import Machinery, REPO, pmap
from procsim import REAL, World

EXPS = os.path.join(REPO, "exps")
SUBMIT, TUNE, AGG = (os.path.join(EXPS, n) for n in
                     ("submit_and_run_experiment_job.py", "tune_experiment_triples.py", "aggregate_runtimes_for_tuning.py"))
DRIVER = {"narrow": "run_narrow_passage_clearance_trial.py", "line": "run_straight_line_optimality_trial.py", "knn": "run_knn_radius_trial.py"}
NAMES = ["run", "run_2", "run_20231114-221320", "ru", "r.n", "run 2", "run[1]", "run_2b", "it's", "-x"]
CONFIGS = {"c1": {"delta": 0.5, "dims_to_test": [2, 3], "sample_schedule": [10, 100], "n_trials": 5},
           "c2": {"name": "stale", "triples": [9, 9, 9], "nested": {"a": [1, {"b": None}], "s": "x\"y"}, "tol": 1e-08, "flag": True}}
BASE = 1_600_000_000


class Site:
    """A scratch copy of the exps directory: the scripts are the repository's, results/ is ours."""
    def __init__(self, root):
        self.root = root
        self.cwd = os.path.join(root, "proj", "exps")
        os.makedirs(os.path.join(self.cwd, "results"))
        for f in os.listdir(EXPS):
            if f.endswith(".py"):
                os.symlink(os.path.join(EXPS, f), os.path.join(self.cwd, f))
        os.symlink(os.path.join(REPO, "nonasymptotic"), os.path.join(root, "proj", "nonasymptotic"))
        os.makedirs(os.path.join(self.cwd, "config"))
        for c, v in CONFIGS.items():
            with open(os.path.join(self.cwd, "config", c + ".json"), "w") as f:
                json.dump(v, f)
        self.dirs, self.launches, self.mt, self.nlaunch = [], [], 0, 0
        self.world = World(self.handle)

    def handle(self, toks, text):
        if toks[0] == "LLsub":
            self.launches.append(self.launch(toks))
            return 0, ""
        if toks[0] == "chmod":
            paths = [os.path.realpath(os.path.join(os.getcwd(), t)) for t in toks[2:]]
            if not all(p.startswith(os.path.realpath(self.root) + os.sep) for p in paths):
                raise Machinery("chmod outside of the scratch directory: %s" % text)
            for p in paths:
                if not os.path.exists(p):
                    return 1, ""
            p = REAL["Popen"](["chmod", toks[1], *paths], stdout=-3, stderr=-3)
            return p.wait(), ""
        if toks[0] in ("python", "python3") and os.path.basename(toks[1]) == os.path.basename(SUBMIT):
            r = self.world.script(SUBMIT, toks[2:], self.cwd)
            self.scan()
            return (0 if r[0] == "ok" else 1), ""
        return 127, ""

    def index(self, path):
        p = os.path.realpath(os.path.join(self.cwd, path))
        for i, d in enumerate(self.dirs, 1):
            if os.path.realpath(d["path"]) == p:
                return i
        return 0

    def launch(self, toks):
        self.scan()
        script = os.path.realpath(os.path.join(self.cwd, toks[1] if len(toks) > 1 else ""))
        bad = dict(dir=0, tr=[0, 0, 0], type="?", cfgof=0, saveof=0, rank=False, exec=False, path=False, runs=0)
        if not os.path.isfile(script):
            return bad
        m = re.fullmatch(r"\[(-?\d+),(-?\d+),(-?\d+)\]", toks[2]) if len(toks) == 3 else None
        self.nlaunch += 1
        rank, size = str(3 + self.nlaunch), str(50 + self.nlaunch)
        rec = os.path.join(self.root, "rec")
        fn = 'f() { { printf "%%s\\0" "$#" "$PWD" "$PYTHONPATH" "$@"; } >> %s; }; ' % rec
        pre = fn + "python() { f \"$@\"; }; python3() { f \"$@\"; }; module() { :; }; export -f f python python3 module; "
        if os.path.exists(rec):
            os.remove(rec)
        p = REAL["Popen"](["bash", "-c", pre + 'exec bash "$1"', "x", script], cwd=self.cwd, stdout=-3, stderr=-3, stdin=-3,
                          env=dict(PATH="/usr/bin:/bin", HOME=self.root, LLSUB_RANK=rank, LLSUB_SIZE=size))
        p.wait()
        runs = []
        if os.path.exists(rec):
            fs = open(rec).read().split("\0")[:-1]
            while fs:
                n = int(fs[0])
                runs.append((fs[1], fs[2], fs[3:3 + n]))
                fs = fs[3 + n:]
        out = dict(bad, dir=self.index(os.path.dirname(script)), tr=[int(g) for g in m.groups()] if m else [0, 0, 0],
                   exec=bool(os.stat(script).st_mode & 0o100), runs=len(runs))
        if len(runs) == 1:
            cwd, pp, a = runs[0]
            a = [x for x in a if not (x.startswith("-") and not a.index(x))]       # interpreter options
            if len(a) == 5:
                drv = os.path.normpath(os.path.join(cwd, a[0]))
                kind = [k for k, v in DRIVER.items() if os.path.exists(drv) and os.path.realpath(drv) == os.path.realpath(os.path.join(EXPS, v))]
                out.update(type=kind[0] if kind else "?", rank=a[1] == rank and a[2] == size,
                           cfgof=self.index(os.path.dirname(os.path.join(cwd, a[3]))) if os.path.basename(a[3]) == "config.json" else 0,
                           saveof=self.index(os.path.join(cwd, a[4])),
                           path=any(os.path.exists(os.path.join(cwd, q, "nonasymptotic", "prm.py")) for q in pp.split(":") if q))
        return out

    def scan(self):
        """Experiment directories: those holding a configuration; new ones are numbered as they appear."""
        res = os.path.join(self.cwd, "results")
        known = {d["path"] for d in self.dirs}
        new = sorted(os.path.join(res, n) for n in os.listdir(res))
        for p in new:
            if p not in known and os.path.isfile(os.path.join(p, "config.json")):
                self.mt += 1
                self.dirs.append(dict(path=p, mt=self.mt, stamp=int(self.world.now)))
        self.stamp_times()

    def stamp_times(self):
        for d in self.dirs:
            if os.path.isdir(d["path"]):
                os.utime(d["path"], (BASE + d["mt"], BASE + d["mt"]))

    def project(self):
        out = []
        for d in self.dirs:
            r = dict(name="?", stamp=d["stamp"], cfg="bad", tr=[])
            try:
                c = json.load(open(os.path.join(d["path"], "config.json")))
                r.update(name=str(c["name"]), tr=[int(x) for x in c["triples"]])
                strip = lambda v: {k: x for k, x in v.items() if k not in ("name", "triples")}
                r["cfg"] = next((k for k, v in CONFIGS.items() if strip(v) == strip(c)), "bad")
            except Exception:
                pass
            out.append(r)
        return out

    def sources(self):
        return all(json.load(open(os.path.join(self.cwd, "config", c + ".json"))) == v for c, v in CONFIGS.items())


def play(a):
    ctx, hist = a
    root = os.path.join(ctx.scratch, "h%d_%d" % (os.getpid(), time.monotonic_ns()))
    s = Site(root)
    ev = []
    try:
        for h in hist:
            s.launches = []
            if h[0] == "tick":
                s.world.now += 1
                continue
            if h[0] == "write":
                if h[1] > len(s.dirs):
                    continue
                s.mt += 1
                d = s.dirs[h[1] - 1]
                d["mt"] = s.mt
                with open(os.path.join(d["path"], "out0.csv"), "a") as f:
                    f.write("x\n")
                s.stamp_times()
                ev.append(dict(op="write", i=h[1], mt=s.mt))
                continue
            before = len(s.dirs)
            if h[0] == "submit":
                _, n, ty, c, tr = h
                cp = os.path.join("config", (c or "missing") + ".json")
                r = s.world.script(SUBMIT, ["--type", ty, "--name=" + n, "--config-path", cp, "--triples-args", *tr], s.cwd)
                s.scan()
                e = dict(op="submit", name=n, stamp=int(s.world.now), type=ty, cfg=c, tr=tr)
            else:
                n = h[1]
                r = s.world.script(SUBMIT, ["--type", h[2], "--name=" + n, "--config-path", "config/c1.json", "--triples-args", 7, 7, 7, "--resume"], s.cwd)
                s.scan()
                e = dict(op="resume", name=n)
            e.update(rc=0 if r[0] == "ok" else 1, launch=s.launches, dirs=s.project(), src=s.sources())
            e["mt"] = s.mt
            ev.append(e)
        return dict(kind="jobs", ev=ev)
    finally:
        shutil.rmtree(root, True)


def histories(ctx):
    p = dict(names=NAMES, prefixes=[], types=list(DRIVER), cfgs=["c1", "c2", ""], trs=[[1, 2, 4], [8, 6, 8], [1, 1, 1]], variant="fixed", gen=True)
    hs = []
    # few names, many resumptions; then any names
    for k, (names, depth, num) in enumerate([(["run", "run_2", "run_20231114-221320"], 9, ctx.q(150, 1500)), (["run", "r.n", "run 2"], 8, ctx.q(80, 800)),
                                             (["run[1]", "it's", "-x", "ru", "run_2b"], 8, ctx.q(60, 600)), (NAMES, 14, ctx.q(40, 600))]):
        r = ctx.tlc("JobsMC", "SPECIFICATION Spec\nINVARIANTS PrintHist Right Found Fresh\nCHECK_DEADLOCK FALSE\n",
                    params=dict(p, names=names, maxhist=depth), workers=1, label="histories %d" % k,
                    args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(ctx.seed * 10 + k)])
        h = [x["h"] for x in r.records]
        ctx.rng.shuffle(h)
        hs += h[:ctx.q(350, 6000)]
    # every history of one type and configuration, up to the names' length relation
    r = ctx.tlc("JobsMC", "SPECIFICATION Spec\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", workers=1, label="all short histories",
                params=dict(p, names=["run", "run_2"], types=["line"], cfgs=["c1", ""], trs=[[1, 2, 4]], maxhist=ctx.q(3, 4)))
    hs += [x["h"] for x in r.records]
    # resumptions that have to choose
    for names in (["run", "run_2"], ["run_20231114-221320", "run"], ["r.n", "run"]):
        r = ctx.tlc("JobsMC", "SPECIFICATION Spec\nINVARIANT PrintPick\nCHECK_DEADLOCK FALSE\n", workers=1, label="choices",
                    params=dict(p, names=names, types=["line"], cfgs=["c1"], trs=[[1, 2, 4]], maxhist=ctx.q(5, 6)))
        h = [x["h"] for x in r.records]
        ctx.rng.shuffle(h)
        for x in h[:ctx.q(150, 3000)]:
            for i, o in enumerate(x):
                if o[0] == "submit":       # triples, driver and configuration tell the experiments apart
                    o[2:] = [list(DRIVER)[i % 3], "c%d" % (1 + i % 2), [1, i + 1, 2]]
            hs.append(x)
    for h in hs:
        for o in h:
            if o[0] == "resume":
                o.append(ctx.rng.choice(list(DRIVER)))
    return hs


def jobs(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS Right Found Fresh\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n"
    p = dict(names=["a", "ab", "b"], prefixes=[["a", "ab"]], types=["line"], cfgs=["c1", ""], trs=[[1, 2, 4]], variant="fixed", gen=False, maxhist=ctx.q(6, 7))
    ctx.tlc("JobsMC", inv, params=p, label="design")
    for v in ("prefix", "launch", "name", "overwrite"):
        ctx.refuted("JobsMC", inv, params=dict(p, variant=v, maxhist=5, trs=[[1, 2, 4], [1, 1, 1]]), label="sensitivity " + v)
    hs = histories(ctx)
    tr = pmap(play, [(ctx, h) for h in hs])
    tr = [t for t in tr if t["ev"]]
    ctx.cov.update(histories=len(hs), operations=sum(len(t["ev"]) for t in tr), launches=sum(len(e.get("launch", [])) for t in tr for e in t["ev"]))
    ctx.validate("JobsTrace", tr)
    ctx.assumptions += ["the cluster's LLsub runs the script it is given once per task with LLSUB_RANK and LLSUB_SIZE set (stand-in that runs it with bash and a recording python)"]


# ------------------------------------------------------------------------------------------------ C23
def sweep(a):
    ctx, what, fill, ty, cfg = a
    root = os.path.join(ctx.scratch, "t%d_%d" % (os.getpid(), time.monotonic_ns()))
    s = Site(root)
    try:
        r = s.world.script(TUNE, ["--type", ty, "--config-path", "config/%s.json" % cfg, "--triple-to-test", what, "--other-arg-fill-in", fill], s.cwd)
        s.scan()
        dirs = s.project()
        ls = []
        for x in s.launches:
            d = dirs[x["dir"] - 1] if x["dir"] else dict(name="?", cfg="?", tr=[])
            ls.append(dict(dir=x["dir"], tr=x["tr"], type=x["type"], name=d["name"], cfg=d["cfg"], cfgtr=d["tr"]))
        return dict(kind="tune", ev=[dict(what=what, fill=fill, type=ty, cfg=cfg, rc=0 if r[0] == "ok" else 1, launch=ls)])
    finally:
        shutil.rmtree(root, True)


COLS = ["build_time", "check_time", "eps", "label", "big"]


def row(i, kind):
    c = dict(id=i, build_time=0.5 + i / 64, check_time=1.0 + i / 128, eps=(i % 7) * 0.1, label="a,b%d" % i, big=10 ** 12 + i)
    if i % 5 == 0:
        c["eps"] = float("nan")
    if kind == "knn":
        del c["check_time"]
    return c


def aggregate(a):
    ctx, case = a
    import pandas as pd
    root = os.path.join(ctx.scratch, "g%d_%d" % (os.getpid(), time.monotonic_ns()))
    res = os.path.join(root, "results")
    os.makedirs(res)
    w = World(lambda t, x: (127, ""))
    nid, dirs, ev = 0, [], []
    try:
        clock = 100
        for op in case:
            clock += 1
            if op[0] == "new":
                _, n, np_, counts, ids_, extra, kind = op
                p = os.path.join(res, POOL[n - 1])
                os.makedirs(p)
                json.dump({}, open(os.path.join(p, "config.json"), "w"))
                rows = []
                for j, c in enumerate(counts):
                    ids = list(range(nid + 1, nid + c + 1))
                    nid += c
                    pd.DataFrame([row(i, kind) for i in ids]).to_csv(os.path.join(p, "out%d.csv" % ids_[j]))
                    rows.append(ids)
                for x in extra:
                    pd.DataFrame([row(9000 + i, kind) for i in range(2)]).to_csv(os.path.join(p, x))
                dirs.append(dict(path=p, name=POOL[n - 1], mt=clock, rows=rows, kind=kind))
                continue
            if op[0] == "touch":
                dirs[op[1] - 1]["mt"] = clock
                continue
            _, prefix, outname = op
            for d in dirs:
                os.utime(d["path"], (BASE + d["mt"],) * 2)
            files = {os.path.join(q, f): open(os.path.join(q, f)).read() for q, _, fs in os.walk(res) for f in fs if re.fullmatch(r"out\d+\.csv", f) or f == "config.json"}
            old = {os.path.join(q, f): open(os.path.join(q, f)).read() for q, _, fs in os.walk(res) for f in fs}
            written = []
            pd.HOOK[0] = lambda when, path: written.append(os.path.realpath(path if os.path.isabs(path) else os.path.join(root, path))) if when == "after" else None
            argv = ["--name-prefix", prefix] + (["--df-out-name", outname] if outname else [])
            r = w.script(AGG, argv, root)
            pd.HOOK[0] = None
            aggs = [x for x in written]
            now = {os.path.join(q, f): open(os.path.join(q, f)).read() for q, _, fs in os.walk(res) for f in fs}
            kept = all(now.get(k) == v for k, v in files.items()) and all(k in now for k in old)
            idx = [next((i for i, d in enumerate(dirs, 1) if os.path.dirname(x) == os.path.realpath(d["path"])), 0) for x in aggs]
            got = []
            if len(aggs) == 1 and os.path.exists(aggs[0]):
                kind = dirs[idx[0] - 1]["kind"] if idx[0] else "line"
                d = pd.read_csv(aggs[0], index_col=0)
                for x in d.to_dict("records"):
                    i = int(x["id"]) if "id" in x and x["id"] == x["id"] else 0
                    want = row(i, kind)
                    same = set(want) == set(x) and all((x[k] == v) or (v != v and x[k] != x[k]) for k, v in want.items())
                    got.append(i if same else -1)
            ev.append(dict(dirs=[dict(match=d["name"].startswith(prefix), mt=d["mt"], rows=d["rows"]) for d in dirs], written=idx,
                           named=[os.path.basename(x) for x in aggs] == [(outname or prefix) + "_agg_out.csv"], rows=got, kept=kept))
            for i in idx:
                if i:
                    dirs[i - 1]["mt"] = clock
        return dict(kind="agg", ev=ev)
    finally:
        shutil.rmtree(root, True)


POOL = ["line-triples-tune-nppn_1-4-4_20240101-000000", "other_20250101-000000", "run_20231201-000000", "run_20240101-000000",
        "run_20240102-000000", "run_2_20230101-000000"]
EXTRA = ["outlier_agg_out.csv", "out_summary.csv", "timings.csv", "agg_out.csv", "output1.csv", "out1_old.csv"]


def cases(ctx):
    rng, out = ctx.rng, []
    prefs = [POOL[0], "line-triples-tune-nppn_1-4-4", "other", "run", "run_2", "run_20", "r", "run_20240101-000000", ""]
    for depth, num in ((6, ctx.q(150, 1500)), (10, ctx.q(80, 800))):
        r = ctx.tlc("AggMC", "SPECIFICATION Spec\nINVARIANTS PrintHist Complete LastOne\nCHECK_DEADLOCK FALSE\n", workers=1, label="histories",
                    params=dict(names=[list(n) for n in POOL], outs=["", "out1", "out", "myagg"], prefs=[list(p) for p in prefs], procs=[1, 2, 3, 12],
                                variant="fixed", gen=True, maxhist=depth), args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(ctx.seed)])
        for x in r.records:
            if any(o[0] == "agg" for o in x["h"]):
                out.append([[o[0], "".join(o[1]), o[2]] if o[0] == "agg" else
                            o + [[rng.randint(1, 5) for _ in range(o[2])], list(range(o[2])) if rng.random() < 0.7 else rng.sample(range(200), o[2]),
                                 rng.sample(EXTRA, rng.choice([0, 0, 1, 2])), rng.choice(["line", "line", "knn"])] if o[0] == "new" else o for o in x["h"]])
    rng.shuffle(out)
    return out[:ctx.q(1500, 12000)]


def tuning(ctx):
    fills = list(range(1, 50)) + [60, 96] if ctx.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 24, 25, 32, 47, 48, 49]
    js = [(ctx, w, f, t, c) for w in ("nppn", "threads") for k, f in enumerate(fills) for t, c in
          ([("narrow", "c1"), ("line", "c2"), ("knn", "c1")] if ctx.thorough or f in (1, 3) else [(list(DRIVER)[k % 3], "c1")])]
    tr = pmap(sweep, js)
    env.use("common", "pandas_stub")
    ag = pmap(aggregate, [(ctx, c) for c in cases(ctx)])
    inv = "SPECIFICATION Spec\nINVARIANTS Complete LastOne Sweeps\nCHECK_DEADLOCK FALSE\n"
    p = dict(names=[["a"], ["a", "b"], ["b"]], outs=["", "out1"], prefs=[["a"], ["a", "b"], []], procs=[1, 2], variant="fixed", gen=False, maxhist=ctx.q(5, 6))
    ctx.tlc("AggMC", inv, params=p, label="design")
    for v in ("anyout", "first", "byname"):
        ctx.refuted("AggMC", inv, params=dict(p, variant=v, maxhist=5), label="sensitivity " + v)
    ctx.cov.update(sweeps=len(tr), aggregations=sum(len(t["ev"]) for t in ag))
    ctx.validate("JobsTrace", tr + ag)
    ctx.assumptions += ["pandas is replaced by a stand-in with the same csv semantics for the operations used"]


def run(ctx):
    jobs(ctx) if ctx.pid == "C22" else tuning(ctx)
