#!/usr/bin/env python3
"""Development aid: plant a bug. seed.py FILE.json with
{id, property, needs, what_it_breaks, pkg, edits:[[file, old, new],...], demo: go test source (package X_test, func TestDemo)}
Confirms the conditions in a scratch copy, then writes /verif/seeded/<id>/."""
import json, os, subprocess, sys, shutil

def sh(cmd, cwd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; " + cmd], cwd=cwd, capture_output=True, text=True, **k)
SCRIPT = '''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
(cd cli && go build -buildvcs=false -o "$W/bin/" ./msgofmt ./msgounfmt ./msgocat ./msgomerge ./xgotext) || exit 1
mkdir "$W/d" && cd "$W/d" || exit 1
fail() { echo "demo_test: $*"; exit 1; }
PATH=$W/bin:$PATH
%s
exit 0
'''

def plant(s):
    id = s["id"]
    W = "/tmp/seedwork/" + id
    sh("rm -rf /tmp/seedwork/" + id + "; mkdir -p /tmp/seedwork; git -C /repo worktree prune; git clone -q /repo " + W, "/tmp")
    out = "/verif/seeded/" + id
    os.makedirs(out, exist_ok=True)
    open(out + "/demo_test.go", "w").write(s.get("demo", ""))
    mod = s.get("module", "")
    pkg = s.get("pkg", "")
    open(out + "/demo.sh", "w").write('''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp)
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$D" > "$O"
timeout 250 go test -vet=off -overlay "$O" -count=1 -run 'TestDemo$' ./%s
''' % (pkg, pkg))
    if s.get("script"):
        os.remove(out + "/demo_test.go")
        open(out + "/demo.sh", "w").write(SCRIPT % s["script"])
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % out, W)
    if r.returncode != 0:
        return id, "DEMO FAILS ON CLEAN: " + r.stdout[-1500:] + r.stderr[-1500:]
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            return id, "edit matches %d times in %s: %r" % (t.count(old), f, old)
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff", W).stdout
    open(out + "/patch.diff", "w").write(d)
    r = sh("go build ./... && (cd cli && go build ./... )", W)
    if r.returncode != 0:
        return id, "does not build: " + r.stderr[-800:]
    r = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'; exit ${PIPESTATUS[0]}", W)
    if r.returncode != 0:
        return id, "tests fail: " + r.stdout[-1500:]
    r = sh("bash %s/demo.sh" % out, W)
    if r.returncode == 0:
        return id, "DEMO PASSES WITH THE BUG"
    msg = [l for l in (r.stdout + r.stderr).splitlines() if "demo_test" in l or "panic" in l]
    return id, "ok: " + "; ".join(msg)[:200]
specs = []
for a in sys.argv[1:]:
    ns = {}
    exec(open(a).read(), ns)
    specs += ns["BUGS"]
for s in specs:
    print(*plant(s), flush=True)
    sh("rm -rf /tmp/seedwork/" + s["id"], "/tmp")
