"""C48: roadmaps and their files against specs/Store*.tla."""
import hashlib, json, os, random, shutil, tempfile
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

MC = "SPECIFICATION Spec\nINVARIANTS Held Filed\nCHECK_DEADLOCK FALSE\n"
NAMES = ["a", "run.1", "sub/b"]
OTHER = (".txt",)      # the neighbour search's scratch files


def digest(g, s):
    """A roadmap as a value: connections with their exact lengths, and the exact samples."""
    e = sorted((min(u, v), max(u, v), float(w).hex()) for u, v, w in g.iterEdgesWeights())
    s = np.asarray(s)
    x = json.dumps([int(g.numberOfNodes()), e, list(s.shape), [float(y).hex() for y in s.ravel()]])
    return hashlib.md5(x.encode()).hexdigest()[:16]


class Child:
    """A forked process that answers requests."""
    def __init__(self, serve):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(a[1]); os.close(b[0])
                i, o = os.fdopen(a[0], "r"), os.fdopen(b[1], "w")
                f = serve()
                for line in i:
                    if line == "end\n":      # later children hold this pipe open too, so it does not run dry
                        break
                    with quiet():
                        r = f(*json.loads(line))
                    o.write(json.dumps(r) + "\n"); o.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(a[0]); os.close(b[1])
        self.i, self.o = os.fdopen(b[0], "r"), os.fdopen(a[1], "w")
    def __call__(self, *a):
        self.o.write(json.dumps(a) + "\n"); self.o.flush()
        s = self.i.readline()
        if not s:
            raise RuntimeError("a process ended")
        return json.loads(s)
    def close(self):
        try:
            self.o.write("end\n"); self.o.close()
        except OSError:
            pass
        self.i.close()
        os.waitpid(self.pid, 0)


def host(spec, base):
    """Holds roadmaps."""
    def serve():
        import nonasymptotic.prm as P, nonasymptotic.ann as A
        os.makedirs(base + "/nonasymptotic", exist_ok=True); os.makedirs(base + "/temp", exist_ok=True); os.makedirs(base + "/cwd", exist_ok=True)
        P.__file__, A.TEMP_DIR = base + "/nonasymptotic/prm.py", base + "/temp"
        os.chdir(base + "/cwd")
        def make(s):
            g = np.random.default_rng(s["data"])
            mv = lambda a, b: np.floor(np.abs(np.sum(np.asarray(a) + np.asarray(b), axis=1)) * 37.1) % 5 != 0
            sam = lambda: g.uniform(size=s["dim"])
            sdf = lambda x: np.linalg.norm(np.asarray(x)[:, 1:], axis=1)
            kw = dict(seed=s["seed"])
            p = P.SimpleFullConnRadiusPRM(s["rad"], mv, sam, **kw) if s["kind"] == "full" else \
                P.SimpleNearestNeighborRadiusPRM(s["k"], mv, sam, sdf, truncate_to_eff_rad=s["trunc"], **kw) if s["kind"] == "nn" else \
                P.SimpleRadiusPRM(s["rad"], mv, sam, sdf, **kw)
            p.in_mp_exp_mode = s["exp"] and s["kind"] != "full"
            return p
        with quiet():
            ps = [make(s) for s in spec]
        def mem():
            out = []
            for p in ps:
                if p.prm_graph is None or p.prm_samples is None:
                    out.append("none")
                else:
                    r = guard(lambda: digest(p.prm_graph, p.prm_samples))
                    out.append(r[1] if r[0] == "ok" else "?")
            return out
        def f(i, op, a):
            if op == "look":
                return True, "", mem()
            p = ps[i]
            if op == "grow":
                o = guard(p.grow_to_n_samples, a)
            elif op == "setk":
                o = guard(p.set_nearest_neighbors, a)
            elif op == "setr":
                o = guard(p.set_connection_radius, a)
            elif op == "query":
                q = np.random.default_rng(int(a)).uniform(size=(2, spec[i]["dim"]))
                o = guard(p.query_best_solution, q[0], q[1])
                if o[0] == "ok" and p.in_mp_exp_mode:
                    q[:, 1:] = 0
                    guard(p.query_all_graph_connections, q[0], q[1])
            elif op == "save":
                o = guard(p.save, a)
            else:
                o = guard(p.reset)
            return o[0] == "ok", "" if o[0] == "ok" else ":".join(map(str, o[1:3]))[:80], mem()
        return f
    return Child(serve)


def reader(base):
    def serve():
        import networkit as nk
        def one(f):
            there = [os.path.exists(f + x) for x in (".nkb", ".npy")]
            if not any(there):
                return "none"
            if not all(there):
                return "half"
            r = guard(lambda: digest(nk.readGraph(f + ".nkb", nk.Format.NetworkitBinary), np.load(f + ".npy")))
            return r[1] if r[0] == "ok" else "half"
        def f():
            files = {os.path.relpath(os.path.join(d, x), base) for d, _, xs in os.walk(base) for x in xs}
            temp = sorted(x for x in files if x.startswith("temp/") and not x.endswith(OTHER))
            want = {"out/" + n + e for n in NAMES for e in (".nkb", ".npy")}
            stray = [x for x in files if not x.startswith("temp/") and x not in want]
            return [one(base + "/out/" + n) for n in NAMES], len(stray), temp
        return f
    return Child(serve)


def job(j):
    hist, roads, seed, root = j
    rng = random.Random(seed)
    base = tempfile.mkdtemp(dir=root)
    os.makedirs(base + "/out/sub")
    n = len(roads)
    t = dict(r=n, ev=[])
    hs, rd = [], None
    try:
        half = (n + 1) // 2
        groups = [roads[:half], roads[half:]]
        hs = [host(g, base) for g in groups]
        rd = reader(base)
        at = [(h, i) for h, g in enumerate(groups) for i in range(len(g))]
        mems = [h(0, "look", 0)[2] for h in hs]
        sizes = [4, 7, 9, 13]
        radii = [0.15, 0.3, 0.45, 0.7]
        k, r, kg, size = [s["k"] for s in roads], [None] * n, [0] * n, [0] * n
        r = [s["rad"] if s["kind"] != "nn" else None for s in roads]
        def add(op, q, f, ok, err, key):
            d, stray, temp = rd()
            t["ev"].append(dict(op=op, r=q + 1, f=f, ok=ok, err=err, mem=[m for x in mems for m in x], disk=d, stray=stray, temp=temp, key=key))
        add("start", 0, 0, True, "", "")
        for op, q, a in hist:
            q -= 1
            s, (h, i) = roads[q], at[q]
            arg, f = a, 0
            if op in ("set", "query") and not size[q]:
                continue
            if op == "grow":
                arg = sizes[a - 1]
                if s["kind"] == "nn" and size[q] >= arg:
                    continue
            elif op == "set":
                if s["kind"] == "rad":
                    op, arg = "query", rng.getrandbits(20)
                elif s["kind"] == "full" or rng.random() < 0.45:
                    op, arg = "setr", radii[a - 1]
                else:
                    op, arg = "setk", min(a, s["k"])
            elif op == "query":
                arg = rng.getrandbits(20)
            elif op == "save":
                f, arg = a, base + "/out/" + NAMES[a - 1]
            ok, err, mems[h] = hs[h](i, op, arg)
            key = ""
            if op == "grow" and ok:
                size[q], kg[q] = arg, k[q]
                r[q] = "grown" if s["kind"] == "nn" else r[q]
            elif op == "setk" and ok:
                k[q] = arg
            elif op == "setr" and ok:
                r[q] = arg
            elif op == "reset":
                size[q] = 0
                r[q] = r[q] if s["kind"] != "nn" else None
            gen = sum(1 for e in t["ev"] if e["r"] == q + 1 and e["op"] in ("grow", "reset"))
            if s["kind"] != "rad" and op in ("grow", "setk", "setr") and ok:
                key = "%d %d %s %s %s" % (q, gen + (op == "grow"), kg[q], k[q] if s["kind"] == "nn" else "", r[q])
            add(op, q, f, ok, err, key)
    finally:
        for c in hs + [rd]:
            if c:
                c.close()
        shutil.rmtree(base, True)
    return t


def run(ctx):
    rng = ctx.rng
    P = dict(r=2, f=2, k=2, gens=2, variant="ok", gen=False, max=0)
    ctx.tlc("StoreMC", MC, params=dict(P, k=ctx.q(2, 3), r=2), label="two roadmaps, two files")
    for v in ("shared", "lazy", "master", "first", "sweep", "recache"):
        ctx.refuted("StoreMC", MC, params=dict(P, gens=1, variant=v))
    depth, num = ctx.q(30, 44), ctx.q(400, 3000)
    r = ctx.tlc("StoreMC", "SPECIFICATION Spec\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", params=dict(P, r=4, f=3, k=4, gens=4, gen=True, max=depth),
                workers=1, label="histories", args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(ctx.seed)])
    hs = [x["h"] for x in r.records if len(x["h"]) == depth]
    if len(hs) < num // 2:
        raise Machinery("too few histories")
    env.use("common", "noscipy")
    with quiet():
        import nonasymptotic.prm, nonasymptotic.ann, networkit  # noqa
    jobs = []
    for h in hs[:num]:
        # the same samples and seeds for roadmaps that differ in their settings, as in a sweep
        same, data = rng.random() < 0.6, rng.getrandbits(30)
        roads = []
        for i in range(4):
            kind = rng.choice(["nn", "nn", "full", "rad"])
            roads.append(dict(kind=kind, k=rng.randint(2, 3), rad=rng.choice([0.3, 0.45, 0.7]), trunc=rng.random() < 0.4, exp=rng.random() < 0.3, dim=2 if same else rng.randint(2, 3),
                              data=data if same else rng.getrandbits(30), seed=rng.choice([None, 7, 7, i])))
        # the first growth comes early, so that the rest has something to work on
        h = [["grow", q, 1] for q in rng.sample([1, 2, 3, 4], 3)] + [x for x in h if x[:1] + x[2:] != ["grow", 1]] if rng.random() < 0.7 else h
        jobs.append((h, roads, rng.getrandbits(30), ctx.scratch))
    tr = pmap(job, jobs)
    ctx.cov.update(histories=len(tr), steps=sum(len(t["ev"]) for t in tr), saves=sum(e["op"] == "save" and e["ok"] for t in tr for e in t["ev"]),
                   refusals=sum(e["op"] == "save" and not e["ok"] for t in tr for e in t["ev"]), resets=sum(e["op"] == "reset" for t in tr for e in t["ev"]))
    ctx.validate("StoreTrace", tr)
    ctx.assumptions += ["the steps of different processes follow each other; a step is not interrupted", "temporary text files of the neighbour search are left out"]
