"""Makes the code under test importable, with stand-ins for the libraries that are not installed."""
import os, sys
from core import REPO, VERIF
S = os.path.join(VERIF, "harness", "stubs")

def use(*names, tamp=None):
    """names: stub directories; the repository's own import roots come after them."""
    paths = [os.path.join(S, n) for n in names]
    if "noscipy" in names:
        try:
            import scipy  # noqa: the real one wins when present
            paths = [p for p in paths if not p.endswith("noscipy")]
        except ImportError:
            pass
    if tamp:
        paths.append(os.path.join(REPO, "exps", "tamp_environment", tamp))
    paths += [REPO, os.path.join(REPO, "nonasymptotic")]
    for p in reversed(paths):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
