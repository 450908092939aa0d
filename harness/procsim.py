"""Runs scripts of the repository in this process with the outside world simulated: commands go to a handler, the clock and
sleeping are virtual.  Nothing real is launched."""
import builtins, datetime as _dt, io, os, runpy, shlex, subprocess, sys, time
from core import Machinery

REAL = dict(run=subprocess.run, Popen=subprocess.Popen, time=time.time, sleep=time.sleep)


class World:
    """handler(tokens, text) -> (returncode, stdout); on_sleep(seconds)"""
    def __init__(self, handler, on_sleep=None, now=1_700_000_000.0):
        self.handler, self.on_sleep, self.now = handler, on_sleep or (lambda s: None), now

    # ---- commands
    def _do(self, args, shell=False):
        if isinstance(args, (bytes, bytearray)):
            args = args.decode()
        if isinstance(args, str):
            if not shell and len(args.split()) > 1:
                raise FileNotFoundError(2, "No such file or directory", args)
            text, toks = args, shlex.split(args)
        else:
            toks = [os.fspath(a) for a in args]
            if shell:
                toks = shlex.split(toks[0])
            for a in toks:
                if not isinstance(a, str):
                    raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(a).__name__)
            if len(toks) >= 3 and os.path.basename(toks[0]) in ("sh", "bash") and toks[1] in ("-c", "-lc"):
                toks = shlex.split(toks[2])
            text = " ".join(toks)
        return self.handler(toks, text)

    def run(self, args, *, stdin=None, input=None, stdout=None, stderr=None, capture_output=False, shell=False, cwd=None,
            timeout=None, check=False, encoding=None, errors=None, text=None, env=None, universal_newlines=None, **kw):
        rc, out = self._do(args, shell)
        cap = capture_output or stdout == subprocess.PIPE
        o = (out if (text or encoding or universal_newlines) else out.encode()) if cap else None
        e = ("" if (text or encoding or universal_newlines) else b"") if (capture_output or stderr == subprocess.PIPE) else None
        if check and rc:
            raise subprocess.CalledProcessError(rc, args, o, e)
        return subprocess.CompletedProcess(args, rc, o, e)

    def check_output(self, args, **kw):
        kw.pop("stdout", None)
        return self.run(args, stdout=subprocess.PIPE, check=True, **kw).stdout

    def check_call(self, args, **kw):
        return self.run(args, check=True, **kw).returncode

    def call(self, args, **kw):
        return self.run(args, **kw).returncode

    def getstatusoutput(self, cmd, **kw):
        rc, out = self._do(cmd, True)
        return rc, out.rstrip("\n")

    def getoutput(self, cmd, **kw):
        return self.getstatusoutput(cmd)[1]

    def system(self, cmd):
        return self._do(cmd, True)[0] << 8

    def popen(self, cmd, *a, **k):
        return io.StringIO(self._do(cmd, True)[1])

    def sleep(self, s):
        self.now += s
        self.on_sleep(s)

    # ---- running a script
    def script(self, path, argv, cwd, extra=()):
        """-> ('ok',) | ('exit', code) | ('raise', type, message, mro)"""
        w = self
        class Pop:
            def __init__(p, args, shell=False, text=None, universal_newlines=None, encoding=None, **kw):
                rc, out = w._do(args, shell)
                p.args, p.returncode, p.pid = args, rc, 4711
                p._o = out if (text or universal_newlines or encoding) else out.encode()
                p.stdout, p.stderr = (io.StringIO(out) if isinstance(p._o, str) else io.BytesIO(p._o)), None
            def communicate(p, *a, **k): return p._o, p._o[:0]
            def wait(p, *a, **k): return p.returncode
            def poll(p): return p.returncode
            def __enter__(p): return p
            def __exit__(p, *a): return None
        class DT(_dt.datetime):
            @classmethod
            def now(c, tz=None): return c.fromtimestamp(w.now, tz)
            @classmethod
            def today(c): return c.fromtimestamp(w.now)
            @classmethod
            def utcnow(c): return c.utcfromtimestamp(w.now)
        lt, sf, gm = time.localtime, time.strftime, time.gmtime
        patches = [(subprocess, n, getattr(w, n)) for n in ("run", "check_output", "check_call", "call", "getstatusoutput", "getoutput")]
        patches += [(subprocess, "Popen", Pop), (os, "system", w.system), (os, "popen", w.popen), (time, "sleep", w.sleep),
                    (time, "time", lambda: w.now), (time, "localtime", lambda s=None: lt(w.now if s is None else s)),
                    (time, "gmtime", lambda s=None: gm(w.now if s is None else s)),
                    (time, "strftime", lambda f, t=None: sf(f, lt(w.now) if t is None else t)), (_dt, "datetime", DT)]
        patches += [(os, n, _refuse(n)) for n in ("execv", "execve", "execvp", "execl", "execlp", "spawnv", "spawnl", "posix_spawn", "kill") if hasattr(os, n)]
        patches += list(extra)
        old = [(o, n, getattr(o, n)) for o, n, _ in patches]
        cwd0, argv0, path0, mods = os.getcwd(), sys.argv, list(sys.path), set(sys.modules)
        so, se = sys.stdout, sys.stderr
        null = open(os.devnull, "w")
        try:
            for o, n, v in patches:
                setattr(o, n, v)
            os.chdir(cwd)
            sys.argv = [path] + [str(a) for a in argv]
            sys.path.insert(0, os.path.dirname(path))
            sys.stdout = sys.stderr = null
            try:
                runpy.run_path(path, run_name="__main__")
                return ("ok",)
            except SystemExit as e:
                c = e.code
                return ("ok",) if c in (None, 0) else ("exit", c if isinstance(c, int) else 1)
            except Machinery:
                raise
            except Exception as e:
                if type(e).__name__ == "StubGap":
                    raise Machinery("stub gap: %s" % e)
                return ("raise", type(e).__name__, str(e)[:300], [c.__name__ for c in type(e).__mro__])
        finally:
            sys.stdout, sys.stderr = so, se
            null.close()
            for o, n, v in old:
                setattr(o, n, v)
            os.chdir(cwd0)
            sys.argv, sys.path[:] = argv0, path0


def _refuse(n):
    def f(*a, **k):
        raise Machinery("os.%s called by the code under test: not simulated" % n)
    return f
