"""C24: the cluster deployment scripts against specs/Deploy*.tla."""
import os, random, re, shutil, time
from core import Machinery, REPO, guard, pmap
from procsim import World

T = os.path.join(REPO, "exps", "tamp_environment")
SCRIPTS = {
    "turtlebot": dict(file="deploy_tamp_experiments.py", job="deploy_experiments.sh", lo=99, hi=50000, per=50, plan="points"),
    "kuka": dict(file="deploy_tamp_experiments_kuka.py", job="deploy_experiments_kuka.sh", lo=499, hi=100000, per=50, plan="points"),
    "adaptive": dict(file="deploy_tamp_adaptive_kuka.py", job="deploy_experiments_kuka_adaptive.sh", lo=0, hi=0, per=5, plan="grid", noqueue=True, nolock=True),
}
HEAD = "             JOBID     PARTITION             NAME     USER ST       TIME  NODES NODELIST(REASON)\n"


class Stop(BaseException):
    pass


class Cluster:
    """The environment: what each listing finds is decided by the history [drained, held, fault]; [-1,..] removes the lock."""
    def __init__(self, root, hist, q0, pauses):
        self.root, self.hist, self.queue, self.held = root, list(hist), q0, 0
        self.lock = os.path.join(root, "tmux_lock.txt")
        self.ev, self.runs, self.pauses, self.n = [], [], pauses, 0
        self.failcancel, self.script_ok, self.last = False, True, "start"

    def log(self, **e):
        if e["e"] == "submit" and self.ev and self.ev[-1]["e"] == "submit":
            self.ev[-1]["r"] += e["r"]
            self.ev[-1]["q"] = self.queue
        else:
            self.ev.append(dict(e, q=self.queue))

    def unlock(self, when):
        if os.path.exists(self.lock):
            os.remove(self.lock)
            self.log(e="unlock", when=when)

    def locks(self, when):
        while self.hist and self.hist[0][0] == -1:
            self.hist.pop(0)
            self.unlock(when)

    def handle(self, toks, text):
        self.n += 1
        if self.n > 20000:
            raise Stop()
        if toks[0] == "squeue":
            d, h, f = self.hist.pop(0) if self.hist and self.hist[0][0] >= 0 else (10 ** 6, 0, 0)
            self.queue = max(self.queue - d, 0)
            self.held = {0: 0, 1: min(1, self.queue), 2: max(self.queue - 1, 0), 3: self.queue}[h]
            self.failcancel = f == 2
            if f == 1:
                self.log(e="list", n=-1, held=0)
                self.last = "list"
                self.locks("wait")
                return 1, ("slurm_load_jobs error: Unable to contact slurm controller\n" if self.n % 2 else "")
            self.log(e="list", n=self.queue, held=self.held)
            self.last = "list"
            lines = []
            for i in range(self.queue):
                why = ("(JobHeldUser)", "(launch failed requeued held)", "(JobHeldAdmin)")[i % 3] if i < self.held else ("d-1-2-%d" % i, "(Priority)")[i % 2]
                lines.append("          %7d  xeon-p8 deploy_e  somebody  %s       0:00      1 %s" % (4000000 + i, "PD" if "(" in why else "R", why))
            if self.n % 3 == 0:
                lines.reverse()
            self.locks("wait")
            return 0, ("" if "-h" in toks or "--noheader" in toks else HEAD) + "".join(l + "\n" for l in lines)
        if toks[0] == "scancel":
            self.log(e="cancel")
            if self.failcancel:
                return 1, ""
            self.queue = self.held = 0
            return 0, ""
        if toks[0] == "sbatch":
            opts = [t for t in toks[1:] if t.startswith("-")]
            rest = [t for t in toks[1:] if not t.startswith("-")]
            a = [o.split("=", 1)[1] for o in opts if o.startswith("--array=")]
            ids = set()
            for part in (a[0].split("%")[0].split(",") if a else ["1"]):
                lo, _, hi = part.partition("-")
                ids |= set(range(int(lo), int(hi or lo) + 1))
            self.script_ok &= os.path.normpath(os.path.join(self.root, rest[0])) == os.path.join(self.root, self.job) and len(rest) == 4
            self.queue += len(ids)
            self.runs.append((tuple(rest[1:]), len(ids)))
            self.log(e="submit", r=len(ids))
            self.last = "submit"
            return 0, "Submitted batch job 1\n"
        return 0, ""

    def sleep(self, s):
        self.n += 1
        if self.n > 20000:
            raise Stop()
        if s >= 1:
            self.pauses -= 1
            if self.pauses == 0:
                self.unlock("pause" if self.last == "submit" else "wait")


def number(x, scale):
    try:
        return int(round(float(x) * scale))
    except ValueError:
        return -7


def play(a):
    ctx, which, hist, q0, pauses, seed, nolock0 = a
    sc = SCRIPTS[which]
    root = os.path.join(ctx.scratch, "d%d_%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(root)
    for f in os.listdir(T):
        if f.endswith((".py", ".sh")):
            os.symlink(os.path.join(T, f), os.path.join(root, f))
    try:
        c = Cluster(root, hist, q0, pauses)
        c.job = sc["job"]
        open(c.lock, "w").close()
        if nolock0:
            c.unlock("pause")
        w = World(c.handle, c.sleep)
        random.seed(seed)
        try:
            r = w.script(os.path.join(root, sc["file"]), [], root)
        except Stop:
            r = ("exit", 99)
        c.log(e="end", rc=0 if r[0] == "ok" else 1)
        grid = sc["plan"] == "grid"
        by = {}
        for args, n in c.runs:
            k = tuple(number(x, 10 ** 6 if grid else 1) for x in args)
            by[k] = by.get(k, 0) + n
        sets, counts = [], []
        for k, n in by.items():
            m = max(1, n // sc["per"]) if n % sc["per"] == 0 and not grid and k != (0, 0, 1) else 1     # equal random counts
            sets += [list(k)] * m
            counts += [n // m] * m
        return dict(which=which, total=100, batch=50, q0=q0, ev=c.ev, sets=sets, counts=counts, per=sc["per"], plan=sc["plan"], lo=sc["lo"], hi=sc["hi"],
                    points=20, noqueue=bool(sc.get("noqueue")), nolock=bool(sc.get("nolock")), script=c.script_ok)
    finally:
        shutil.rmtree(root, True)


def run(ctx):
    inv = "SPECIFICATION Live\nINVARIANTS NeverFull Once Locked\nPROPERTIES Submits Cancels Done\nCHECK_DEADLOCK FALSE\n"
    p = dict(total=4, batch=2, batches=ctx.q(2, 3), queue0=[0, 1, 2, 3, 5], drains=[0, 1, 2], variant="fixed", gen=False, faults=ctx.q(2, 3))
    ctx.tlc("DeployMC", inv, params=p, label="design")
    for v in ("empty", "offby", "cancelsome", "blind", "nolock"):
        ctx.refuted("DeployMC", inv, params=dict(p, variant=v, batches=2), label="sensitivity " + v)
    hs = []
    for k, (batches, num) in enumerate([(6, ctx.q(120, 1500)), (20, ctx.q(40, 500))]):
        r = ctx.tlc("DeployMC", "SPECIFICATION SpecGen\nINVARIANT PrintHist\nCHECK_DEADLOCK FALSE\n", workers=1, label="histories",
                    params=dict(total=100, batch=50, batches=batches, queue0=[0, 1, 30, 49, 50, 51, 99, 100, 130], drains=[0, 0, 1, 25, 49, 50, 51, 100], variant="fixed", gen=True, faults=8),
                    args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(ctx.seed + k)])
        h, seen = [], set()
        for x in r.records:
            key = str(x["h"])
            if key not in seen:
                seen.add(key)
                h.append(x["h"])
        ctx.rng.shuffle(h)
        hs += h[:ctx.q(90, 1200) if k == 0 else ctx.q(40, 500)]
    jobs = []
    for i, h in enumerate(hs):
        pauses = ctx.rng.choice([0, 0, 0, 1, 2, 5, 20, 41])
        for which in ("turtlebot", "kuka"):
            jobs.append((ctx, which, h, ctx.rng.choice([0, 1, 30, 49, 50, 51, 99, 100, 130]), pauses, ctx.seed * 1000 + i, i % 17 == 16))
    for i in range(ctx.q(3, 20)):
        jobs.append((ctx, "adaptive", [], 0, 0, ctx.seed + i, False))
    # the boundary itself: the queue stays at one length for a while, then shrinks by one
    for q in (48, 49, 50, 51, 52, 100):
        for which in ("turtlebot", "kuka"):
            jobs.append((ctx, which, [[0, 0, 0]] * 3 + [[1, 0, 0], [0, 0, 1], [0, 0, 0], [0, 3, 2], [0, 3, 0]], q, 0, ctx.seed + q, False))
    tr = pmap(play, jobs)
    ctx.cov.update(deployments=len(tr), listings=sum(e["e"] == "list" for t in tr for e in t["ev"]), failed_listings=sum(e["e"] == "list" and e["n"] < 0 for t in tr for e in t["ev"]),
                   cancellations=sum(e["e"] == "cancel" for t in tr for e in t["ev"]), unlocked=sum(e["e"] == "unlock" for t in tr for e in t["ev"]))
    ctx.validate("DeployTrace", tr)
    ctx.assumptions += ["nobody else submits jobs for the user between a listing and the submission that follows it",
                        "squeue, sbatch and scancel are simulated; sbatch itself does not fail"]
