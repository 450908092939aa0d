#!/usr/bin/env python3
"""tools/seeds.py [ID...] : run each planted bug's check against a scratch copy carrying it (exit 1 expected)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
for i in sorted(os.listdir(V + "/seeded")):
    if sys.argv[1:] and not any(i.startswith(a) for a in sys.argv[1:]):
        continue
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    t = time.time()
    r = subprocess.run([V + "/check", m["property"]], env=dict(os.environ, VERIF_REPO=d + "/repo"), text=True, capture_output=True)
    l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    print(i, m["property"], "exit", r.returncode, "%.0fs" % (time.time() - t), (l or [r.stderr[-200:]])[0][:160], flush=True)
    shutil.rmtree(d)
