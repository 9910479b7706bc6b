#!/usr/bin/env python3
"""tryseeds.py [--thorough] [ID...]: runs each planted bug's check on a copy
of the tree with the bug (SIM_REPO), and prints which are caught."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/trywt"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tier = "--thorough" if "--thorough" in sys.argv else "--quick"
ids = args or sorted(os.listdir(V + "/seeded"))
if not os.path.exists(WT):
    subprocess.check_call("git -C /repo worktree add -q --detach %s HEAD" % WT, shell=True)
for i in ids:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    subprocess.check_call("git -C {0} checkout -q -- . && git -C {0} checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C {0} apply {1}/patch.diff".format(WT, d), shell=True)
    e = dict(os.environ, SIM_REPO=WT, SIM_BUILD="/tmp/trybuild", VERIF_SEED="1", SIM_NOEVIDENCE="1")
    import time
    t = time.time()
    r = subprocess.run(["python3", V + "/sim/check.py", m["property"], tier], cwd=V, env=e, text=True, capture_output=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    w = [l for l in r.stdout.splitlines() if l.strip()]
    print("%-32s %s rc=%d %.0fs %s" % (i, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, (w[-1] if w else r.stderr[-300:])[:150]), flush=True)
subprocess.call("git -C %s checkout -q -- ." % WT, shell=True)
