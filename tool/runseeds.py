#!/usr/bin/env python3
"""Development aid: apply each planted bug to a copy of /repo and run its check there (VERIF_REPO)."""
import json, os, subprocess, sys, concurrent.futures as cf, shutil
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
ids = [i for i in sorted(os.listdir(V + "/seeded")) if any(i.startswith(a) for a in ids)]
def one(i):
    W = "/tmp/runseeds/" + i
    subprocess.run(["rm", "-rf", W]); os.makedirs("/tmp/runseeds", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    r = subprocess.run(["git", "apply", V + "/seeded/" + i + "/patch.diff"], cwd=W, capture_output=True, text=True)
    if r.returncode: return i, "PATCH DOES NOT APPLY " + r.stderr[:200]
    prop = json.load(open(V + "/seeded/" + i + "/meta.json"))["property"]
    env = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W + "/.ev")
    r = subprocess.run(["python3", V + "/check.py", prop], cwd=V, env=env, capture_output=True, text=True)
    subprocess.run(["rm", "-rf", W])
    lines = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
    short = [l[:150] for l in lines if l.startswith(("undischarged", "failing input"))]
    return i, "rc %d %s | %s" % (r.returncode, "WEAK" if "no-failing-input-found" in r.stdout else ("caught" if r.returncode == 1 else "MISSED"), " || ".join(short[:3])) + (r.stderr[-300:] if r.returncode not in (0, 1) else "")
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
