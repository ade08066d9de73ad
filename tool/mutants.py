#!/usr/bin/env python3
"""mutants.py MUTANTS.jsonl OUT.jsonl [-j N] [--step K] [--files re]: development.
For every mutant (tool/mutate) that builds and passes /repo's tests, run the
harness cases of the properties and record the first that fails."""
import json, os, re, subprocess, sys, threading, shutil, argparse, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("muts"); ap.add_argument("out"); ap.add_argument("-j", type=int, default=8)
ap.add_argument("--step", type=int, default=1); ap.add_argument("--off", type=int, default=0); ap.add_argument("--files", default="")
ap.add_argument("--budget", default="10"); ap.add_argument("--repo", default="/repo")
a = ap.parse_args()
REL = [("po_highlight", []), ("pkg/po/header", "13 12 05 02 14"), ("mo_parser", "04 03 12"), ("po_parser", "06 05 12"), ("po_compiler", "05 14 12 02"), ("pkg/go/", "11 12"),
       ("cmp.go", "10 07 08 02 05"), ("msgcat", "09 08 12"), ("entry.go", "17 16 15 07 10 02 05"), ("entries.go", "07 15 16 10 08 09 02 14 05"), ("merge.go", "08 07 12"), ("mo_compile", "01 02 03 14 12"),
       ("slices", "15 07 10 09 14 05"), ("equal.go", "17"), ("util.go", "05 06 11 17"), ("prime", "01"), ("hash", "01"), ("po_config", "12 05 06"), ("mo_config", "12 02 04 01"), ("skip", "11"), ("file.go", "15 16 09 17"),
       ("plurals", "10 17 15 02"), ("parse.go", "06 04 12 05"), ("locations", "10 17 05")]
ALL = ["C%02d" % i for i in range(1, 18)]
def props(f):
    for k, v in REL:
        if k in f:
            first = ["C" + x for x in v.split()]
            return first + [x for x in ALL if x not in first]
    return ALL
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done.add((d["file"], d["start"], d["end"], d["new"], d["op"]))
q = queue.Queue(); n = 0
for i, l in enumerate(open(a.muts)):
    m = json.loads(l)
    if i % a.step != a.off or (a.files and not re.search(a.files, m["file"])) or (m["file"], m["start"], m["end"], m["new"], m["op"]) in done: continue
    q.put(m); n += 1
print(n, "mutants", flush=True)
env = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("="); env[k] = v
env.update(GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", GOMEMLIMIT="3GiB", GOMAXPROCS="2")
lock = threading.Lock(); fo = open(a.out, "a")
def work(k):
    W = "/tmp/mut/w%d" % k
    subprocess.run(["rm", "-rf", W]); os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", a.repo, W])
    repl = {W + "/internal/verifharness/" + x: V + "/harness/" + x for x in os.listdir(V + "/harness") if x.endswith(".go")}
    json.dump({"Replace": repl}, open(W + ".ov.json", "w"))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = W + "/" + m["file"]
        src = open(p, "rb").read()
        new = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
        m["res"] = "?"
        try:
            open(p, "wb").write(new)
            r = subprocess.run(["go", "build", "-overlay", W + ".ov.json", "-o", W + ".h", "./internal/verifharness"], cwd=W, env=env, capture_output=True, text=True)
            if r.returncode: m["res"] = "nobuild"; continue
            try:
                r = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], cwd=W, env=env, capture_output=True, text=True, timeout=120)
                bad = r.returncode
            except subprocess.TimeoutExpired: bad = 1
            if bad: m["res"] = "tests"; continue
            m["res"] = "SURVIVED"
            for pr in props(m["file"]):
                T = W + ".t"; subprocess.run(["rm", "-rf", T]); os.makedirs(T)
                e = dict(env, TMPDIR=T)
                try:
                    r = subprocess.run(["bash", "-c", 'ulimit -v 16000000; exec "$@"', "x", W + ".h", "-prop", pr, "-tier", "quick", "-seed", "1", "-budget", a.budget, "-report", T + "/r.json", "-current", T + "/c", "-known", "", "-repo", W], cwd=T, env=e, capture_output=True, text=True, timeout=90)
                    rc = r.returncode
                    rep = json.load(open(T + "/r.json")) if os.path.exists(T + "/r.json") else {}
                    v = rep.get("violation")
                    if v or rc: m["res"] = pr + " " + (v or {}).get("case", "crash"); break
                except subprocess.TimeoutExpired: m["res"] = pr + " timeout"; break
        except Exception as ex: m["res"] = "ERR " + repr(ex)
        finally:
            open(p, "wb").write(src)
            with lock: fo.write(json.dumps(m) + "\n"); fo.flush()
    subprocess.run(["rm", "-rf", W, W + ".h", W + ".t", W + ".ov.json"])
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
