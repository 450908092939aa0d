"""Runner shared by all checks: TLC invocation, trace files, verdict collection, evidence, exit codes."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Timeout(BaseException):
    pass


class Light:
    """What a worker process needs of the context."""
    def __init__(self, pid, scratch, thorough):
        self.pid, self.thorough = pid, thorough
        self.scratch = os.path.join(scratch, "w%d" % os.getpid())
        os.makedirs(self.scratch, exist_ok=True)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick


class TLCResult:
    def __init__(self, out, code):
        self.out, self.code = out, code
        self.records = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    self.records.append(json.loads(json.loads(line)))
                except ValueError:
                    raise Machinery("unparsable TLC print: " + line[:300])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)   # simulation mode
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.ok = code == 0 and ("No error has been found" in out or "The number of states generated" in out)
        self.invariant = None
        m = re.search(r"(?:Invariant|Action property|Temporal propert\w+|Property) (\S+) (?:is|was|of module)", out)
        if m:
            self.invariant = m.group(1)

    def errors(self):
        out = "\n".join(l for l in self.out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))
        i = out.find("Error:") if "arse Error" not in out else out.find("***Parse Error")
        return out[i:i + 4000] if i >= 0 else out[-3000:]


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 7919 + int(pid[1:]))
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        pid0 = os.getpid()
        atexit.register(lambda: os.getpid() == pid0 and shutil.rmtree(self.scratch, True))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.cov, self.assumptions, self.runs = [], [], {}, [], []
        self._n = 0

    def __reduce__(self):
        return (Light, (self.pid, self.scratch, self.thorough))

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---- TLC -------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, args=(), heap="6g", must_hold=True, label=None,
            params=None):
        """Run TLC on specs/<module>.tla with configuration text `cfg`."""
        self._n += 1
        d = os.path.join(self.scratch, "tlc%d" % self._n)
        os.makedirs(d)
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        if params is not None:
            e["PARAMS"] = os.path.join(d, "params.ndjson")
            open(e["PARAMS"], "w").write(json.dumps(params) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", d, "-config", cfgp, *args,
               os.path.join(SPECS, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on %s" % module)
        res = TLCResult(r.stdout, r.returncode)
        shutil.rmtree(d, True)
        self.states += res.distinct
        self.transitions += res.generated
        self.runs.append(dict(module=module, label=label or "", distinct=res.distinct, generated=res.generated,
                              wall_s=round(time.time() - t, 1)))
        self.log("TLC %s %s: %d generated, %d distinct, %.1fs%s" % (module, label or "", res.generated, res.distinct,
                 time.time() - t, "" if res.ok else "  NOT OK"))
        if must_hold and not res.ok:
            raise Machinery("TLC failed on %s:\n%s" % (module, res.errors()))
        return res

    def refuted(self, module, cfg, params=None, label="sensitivity", **kw):
        """A deliberately wrong variant of the model must violate an invariant or property."""
        r = self.tlc(module, cfg, params=params, must_hold=False, label=label, **kw)
        if r.ok or not r.invariant:
            raise Machinery("a wrong variant of %s was not refuted:\n%s" % (module, "" if r.ok else r.errors()))
        self.cov["refuted_variants"] = self.cov.get("refuted_variants", 0) + 1
        return r

    def validate(self, module, traces, cfg=None, env=None, nev=None, key=None, label=None, **kw):
        """Check recorded traces (list of JSON objects) against a trace specification.
        The specification prints {"k":"V",t,l,c,d} for a rejected trace and {"k":"D",t} for an accepted one."""
        if not traces:
            raise Machinery("no traces recorded for %s" % module)
        p = os.path.join(self.scratch, "trace%d.ndjson" % (self._n + 1))
        with open(p, "w") as f:
            for t in traces:
                f.write(json.dumps(t, allow_nan=False) + "\n")
        cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        records, outside, left = [], {}, list(range(1, len(traces) + 1))
        while True:
            res = self.tlc(module, cfg, env=dict(env or {}, TRACE=p), label=label or "traces", must_hold=False, **kw)
            records += [dict(r, t=left[r["t"] - 1]) for r in res.records if "t" in r]
            if res.ok:
                break
            # A recorded step on which the specification has no value (an index out of range, a negative length) is not
            # a step of the specification: that history is rejected and the others are judged without it.
            m = re.findall(r"^(?:/\\ )?tid = (\d+)", res.out, re.M)
            if not m or "Parse Error" in res.out or "Error: " not in res.out or "OutOfMemory" in res.out:
                raise Machinery("TLC failed on %s:\n%s" % (module, res.errors()))
            bad = left[int(m[-1]) - 1]
            outside[bad] = res.errors()[:600]
            done = {r["t"] for r in records if r.get("k") in ("V", "D")}
            left = [i for i in left if i != bad and i not in done]
            if not left or len(outside) >= 4:      # enough to know: the rest are left unjudged
                records += [dict(k="D", t=i) for i in left]
                break
            with open(p, "w") as f:
                for i in left:
                    f.write(json.dumps(traces[i - 1], allow_nan=False) + "\n")
        seen = {i: dict(k="V", t=i, l=0, c="outside the specification", d=e) for i, e in outside.items()}
        for r in records:
            if r.get("k") == "V":
                if seen.get(r["t"]) is None:
                    seen[r["t"]] = r
            elif r.get("k") == "D":
                seen.setdefault(r["t"], None)
                for a, v in r.items():
                    if a not in ("k", "t") and isinstance(v, int):
                        key_ = "%s.%s" % (module, a)
                        self.cov[key_] = self.cov.get(key_, 0) + v
        missing = [i for i in range(1, len(traces) + 1) if i not in seen]
        if missing:
            raise Machinery("no verdict for %d of %d traces of %s (first %d)" % (len(missing), len(traces), module, missing[0]))
        self.traces += len(traces)
        for i, t in enumerate(traces, 1):
            v = seen[i]
            if v is not None:
                self.violation(v.get("c"), dict(spec=module, event=v.get("l"), detail=v.get("d"), trace=t),
                               key(t, v) if key else None)
        if len(self.samples) < 4:
            self.samples.append(dict(spec=module, trace=shrink(traces[0])))
        return seen

    # ---- verdicts --------------------------------------------------------------------------------------------
    def violation(self, clause, case, key=None):
        self.violations.append(dict(clause=clause, case=case, key=key or str(clause)))

    def finish(self, level="model_checking"):
        known = {}
        kp = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kp):
            for f in json.load(open(kp)).get("findings", []):
                if f["property"] == self.pid:
                    known[f["key"]] = f["what"]
        new = [v for v in self.violations if v["key"] not in known]
        hit = sorted({v["key"] for v in self.violations if v["key"] in known})
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"],
                                tlc_runs=self.runs, **self.cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        if new:
            rp = os.path.join(edir, "replay_%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(new[:50], f, indent=1, default=str)
            clauses = {}
            for v in new:
                clauses[v["clause"]] = clauses.get(v["clause"], 0) + 1
            self.log("violated clauses:", clauses)
            self.log("first:", json.dumps(shrink(new[0]["case"]), default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        print("OK property=%s states=%d traces=%d %.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def shrink(x, depth=0):
    if isinstance(x, dict):
        return {k: shrink(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [shrink(v, depth + 1) for v in list(x)[:12]]
        return y + ["...(%d)" % len(x)] if len(x) > 12 else y
    return x


# ---- running the code under test -------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise Timeout()


def guard(fn, *a, limit=20.0, **k):
    """Call the code under test.  ('ok', value) | ('raise', type name, message) | ('timeout',)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn(*a, **k)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return ("ok", v)
    except Timeout:
        return ("timeout",)
    except (Machinery, KeyboardInterrupt):
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if type(e).__name__ == "StubGap":
            raise Machinery("stub gap: %s" % e)
        return ("raise", type(e).__name__, str(e)[:300], [c.__name__ for c in type(e).__mro__])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _call(a):
    f, x = a
    try:
        return ("ok", f(x))
    except Machinery as e:
        return ("machinery", str(e))
    except (ValueError, OverflowError) as e:
        if re.search(r"cannot convert float (NaN|infinity) to integer", str(e)):
            return ("outside", traceback.format_exc()[-1500:])
        return ("machinery", traceback.format_exc()[-1500:])
    except BaseException:
        return ("machinery", traceback.format_exc()[-1500:])


class Outside(Exception):
    """The code under test answered with something that is no value of the specification (NaN or infinity)."""


def pmap(f, jobs, procs=8):
    """Run jobs in forked workers (the code under test is already imported); order is kept."""
    import multiprocessing as mp
    if not jobs:
        return []
    with mp.get_context("fork").Pool(min(procs, len(jobs))) as pool:
        res = pool.map(_call, [(f, j) for j in jobs], chunksize=max(1, len(jobs) // (procs * 8)))
    for r in res:
        if r[0] == "outside":
            raise Outside(r[1])
        if r[0] != "ok":
            raise Machinery(r[1])
    return [r[1] for r in res]


class quiet:
    """Silence stdout/stderr of the code under test."""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.n = open(os.devnull, "w")
        sys.stdout = sys.stderr = self.n
        return self
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.n.close()
