import importlib, os, sys, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import core

MODULES = {
    "roadmap": ["C01", "C02", "C03", "C04", "C05", "C06", "C07"], "neighbours": ["C08"],
    "geometry": ["C09", "C10", "C11", "C45"], "envs_props": ["C12", "C13", "C14"], "polysampler": ["C15"],
    "bounds": ["C16", "C17", "C18", "C42", "C43"], "farm": ["C19"], "trials": ["C20", "C21"], "jobs": ["C22", "C23"],
    "deploy": ["C24"], "anytime": ["C25", "C33"], "collide": ["C26", "C27"], "pddl": ["C28", "C29", "C34", "C35", "C36"],
    "arm": ["C38", "C39"], "runs": ["C40", "C41"], "planexec": ["C30"], "worlds": ["C31", "C37"], "interp": ["C32"], "summary": ["C44"], "playback": ["C46"], "movie": ["C47"], "store": ["C48"],
}

def main():
    pid = sys.argv[1]
    mod = [m for m, ids in MODULES.items() if pid in ids]
    if not mod:
        print("unknown property", pid)
        return 2
    try:
        ctx = core.Ctx(pid)
        os.environ.setdefault("MPLCONFIGDIR", ctx.scratch)
        m = importlib.import_module("checks." + mod[0])
        try:
            m.run(ctx)
        except core.Outside as e:
            ctx.violation("outside the specification", dict(detail=str(e)))
        return ctx.finish()
    except core.Machinery as e:
        print("MACHINERY ERROR", pid, e, flush=True)
        return 2
    except BaseException:
        traceback.print_exc()
        print("MACHINERY ERROR", pid, flush=True)
        return 2

if __name__ == "__main__":
    r = main()
    sys.stdout.flush(); sys.stderr.flush()
    import atexit
    sys.exit(r)
