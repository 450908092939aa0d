"""python3 tools/plant.py SPEC.py : make /verif/seeded/<id>/ from a description (dict B) and confirm it.

SPEC.py defines  id, prop, needs, breaks, edits=[(file, old, new)], demo (python text), stubs=[names].
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, textwrap
V = "/verif"
B = runpy.run_path(sys.argv[1])
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True, capture_output=True).stdout.split()[0]
scratch = tempfile.mkdtemp(prefix="plant")
r = os.path.join(scratch, "repo")
subprocess.run(["cp", "-a", "/repo", r], check=True)
for f, old, new in B["edits"]:
    p = os.path.join(r, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = os.path.join(V, "seeded", B["id"])
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(["git", "-C", r, "diff"], text=True, capture_output=True).stdout
open(os.path.join(d, "patch.diff"), "w").write(diff)
orig = subprocess.run(["git", "-C", "/repo", "grep", "-hFI", "-e", "", base, "--", "*.py", "*.pddl", "*.sh"], text=True, errors="replace", capture_output=True).stdout
olds = set(orig.splitlines())
minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
assert any(m in olds for m in minus if m.strip()) or not minus, "no original line changed"
json.dump({"property": B["prop"], "needs": B["needs"], "what_it_breaks": B["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(B["demo"]).lstrip())
py = B.get("python", "/opt/venv/bin/python")
for s in B.get("stubs", []):
    shutil.copytree(os.path.join(V, "harness", "stubs", s), os.path.join(d, "stubs", s), ignore=shutil.ignore_patterns("__pycache__"))
for s in B.get("files", []):
    shutil.copy(os.path.join(V, s), d)
path = ":".join(['$here'] + ['$here/stubs/%s' % s for s in B.get("stubs", [])] + ['$PWD/%s' % s for s in B.get("paths", [])] + ["$PWD", "$PWD/nonasymptotic", "$PWD/exps"])
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# exit 0 when the property holds on this example, 1 when it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/tmp PYTHONPATH=%s
exec %s -W ignore "$here/demo.py"
""" % (path, py))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
away = os.path.join(scratch, "d")
shutil.copytree(d, away)
run = lambda cwd: subprocess.run(["bash", os.path.join(away, "demo.sh")], cwd=cwd, text=True, capture_output=True, timeout=290)
a, b = run("/repo"), run(r)
print("clean", a.returncode, a.stdout[-300:], a.stderr[-1500:] if a.returncode else "")
print("patched", b.returncode, b.stdout[-300:], b.stderr[-600:])
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", PYTHONPATH=r + ":" + r + "/nonasymptotic")
t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/test_utils.py", "--ignore=tests/test_exps.py", "tests"], cwd=r, env=env, text=True, capture_output=True)
print(t.stdout.strip().splitlines()[-1])
ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
print("CONFIRMED" if ok else "REJECTED", B["id"])
if ok and "--check" in sys.argv:
    c = subprocess.run([V + "/check", B["prop"]], env=dict(os.environ, VERIF_REPO=r), text=True, capture_output=True)
    print("\n".join(l[:400] for l in c.stdout.splitlines() if "TLC" not in l)[-1500:], "-> exit", c.returncode)
if not ok:
    shutil.rmtree(d)
shutil.rmtree(scratch)
