#!/usr/bin/env python3
"""Translate functions of /repo with their contracts and discharge every
obligation with Verus. Used by check.py; run directly for development."""
import concurrent.futures, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO2V = os.path.join(VERIF, "bin", "go2v")


def goenv():
    """The environment of /opt/vp/env.sh (the pinned Go toolchain, offline)."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode("utf8", "replace").split("\0") if "=" in x)
    env.update({"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": env.get("GOFLAGS", "") })
    return env


def build_tool(env):
    r = subprocess.run(["go", "build", "-o", GO2V, "./go2v"], cwd=os.path.join(VERIF, "tool"), env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout + r.stderr


class Result:
    def __init__(self):
        self.retried = []     # proved only with another seed
        self.dropped = []     # aids left out
        self.labels = {}
        self.failed = []      # dicts: fn, kind, go, text, message
        self.issues = []
        self.verified = 0
        self.obligations = 0
        self.probes = 0
        self.fns = []
        self.trusted = {}
        self.lib = []
        self.log = ""
        self.smt_ms = 0
        self.wall = 0.0
        self.cmd = ""
        self.fatal = ""

    @property
    def ok(self):
        return not self.failed and not self.issues and not self.fatal


def diagnostics(stderr):
    diags, rest = [], ""
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get("level") == "error":
                diags.append(d)
        elif line.strip():
            rest += line + "\n"
    return diags, rest


def classify(diags, labels):
    """The failed obligations, and the vacuity probes that failed as they must."""
    failed, seen_probes = [], set()
    for d in diags:
        if d["message"].startswith("aborting due to"):
            continue
        spans = [s for s in d["spans"] if s["file_name"].endswith("crate.rs")]
        labs = [(s, labels.get(s["line_start"])) for s in spans]
        hit = [(s, l) for s, l in labs if l and l["kind"] == "probe"]
        if hit and "assert" in d["message"]:
            seen_probes.add(hit[0][0]["line_start"])
            continue
        pick = None
        for s, l in labs:
            if l and (s.get("label") or "").startswith("failed this"):
                pick = (s, l)
        if pick is None:
            for s, l in labs:
                if l and s["is_primary"]:
                    pick = (s, l)
                    break
        if pick is None:
            for s, l in labs:
                if l:
                    pick = (s, l)
                    break
        if pick is None and spans:
            # nearest label above the line
            n = spans[0]["line_start"]
            if "esource limit" in d["message"]:
                # reported at the head of the function
                n = min([k for k in labels if k >= n] or [n])
            while n > 0 and n not in labels:
                n -= 1
            if n in labels:
                pick = (spans[0], labels[n])
        f = {"message": d["message"], "rendered": d.get("rendered", "")}
        if pick:
            f.update(fn=pick[1]["fn"], kind=pick[1]["kind"], go=pick[1].get("go", ""), text=pick[1].get("text", ""))
        else:
            f.update(fn="?", kind="verifier", go="", text=d["message"])
        others = [l for s, l in labs if l and (not pick or l is not pick[1])]
        f["also"] = others[:2]
        f["line"] = spans[0]["line_start"] if spans else 0
        failed.append(f)
    return failed, seen_probes


def rust_fn(lines, f):
    """The generated function a failure lies in, and its module."""
    n = f.get("line", 0)
    if not n:
        return None
    order = range(n - 1, min(len(lines), n + 12)) if "esource limit" in f["message"] else range(n - 1, -1, -1)
    for i in order:
        m = re.match(r"\s*pub (?:broadcast )?(?:proof )?fn (\w+)", lines[i])
        if m:
            mod = None
            for j in range(i, -1, -1):
                if re.match(r"\} // mod \w+", lines[j]):
                    break
                k = re.match(r"pub mod (\w+) \{", lines[j])
                if k:
                    mod = k.group(1)
                    break
            return m.group(1), mod
    return None


def retry(res, rs, labels, env, outdir, seeds=(1, 2, 3), limit=6, timeout=150, stop=lambda: False):
    """Ask the solver again, with other random seeds and more resources, about
    the functions it gave no proof for: a proof found with any seed is a proof."""
    lines = open(rs).read().split("\n")
    by = {}
    for f in res.failed:
        if f["kind"] in ("vacuity probe", "verifier"):
            continue
        k = rust_fn(lines, f)
        if k:
            by.setdefault(k, []).append(f)
    if not by or len(by) > limit:
        return
    jobs = []
    t1 = time.time() + timeout
    for (name, mod), fs in by.items():
        for sd in seeds:
            c = os.path.join(outdir, "retry_%s_%d.rs" % (name, sd))
            with open(c, "w") as o:
                o.write(re.sub(r"verifier::rlimit\((\d+)\)", lambda m: "verifier::rlimit(%d)" % (3 * int(m.group(1))), "\n".join(lines)))
            cmd = ["timeout", str(int(timeout)), "verus", c, "--multiple-errors", "6", "--triggers-mode", "silent", "--output-json", "--error-format=json", "--num-threads", "1", "--rlimit", "60", "--smt-option", "smt.random_seed=%d" % sd, "--verify-function", name] + (["--verify-module", mod] if mod else ["--verify-root"])
            jobs.append((name, mod, cmd, c))

    def run(j):
        if stop() or time.time() > t1:
            return j, None
        try:
            return j, subprocess.run(j[2], cwd=outdir, env=env, capture_output=True, text=True)
        except Exception:
            return j, None

    done = set()
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for j, vr in ex.map(run, jobs):
            try:
                os.remove(j[3])
                out = json.loads(vr.stdout[vr.stdout.index("{"):])["verification-results"]
                # errors with a code come from compiling the ghost code, which
                # the run on the whole crate never reaches
                ds = [d for d in diagnostics(vr.stderr.replace(os.path.basename(j[3]), "crate.rs"))[0] if not d.get("code")]
                fl, _ = classify(ds, labels)
                if not fl and not out.get("encountered-vir-error") and out["verified"] + out["errors"] >= 1:
                    done.add((j[0], j[1]))
            except Exception:
                continue
    for k in done:
        for f in by[k]:
            if f in res.failed:
                res.failed.remove(f)
        res.retried.append(k[0])


AID = re.compile(r"(loop invariant|proof hint|loop postcondition|loop termination) (\w+\.vspec:\d+(#\d+)?|auto:[^,]*)$")


def aids(failed):
    """The proof aids (invariants, hints) among the failed obligations. They
    promise nothing to anybody: a proof without them is a proof."""
    out = set()
    for f in failed:
        m = AID.match(f["kind"])
        if m and "esource limit" not in f["message"]:
            out.add(m.group(2))
    return out


def prove(fns, theories, outdir, env=None, rlimit=None, extra=(), threads=8, retries=True, stop=lambda: False, budget=400):
    """Translate and discharge. When an obligation fails, the solver is asked
    again with other seeds, then the proof is tried without the aids that do
    not hold (or no longer make sense) on the current source."""
    env = env or goenv()
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    res = attempt(fns, theories, outdir, env, rlimit, extra, threads, ())
    first, dropped = res, set()
    for _ in range(6):
        if res.ok or not retries or stop() or left() < 20:
            break
        if not res.fatal and res.failed:
            retry(res, os.path.join(outdir, "crate.rs"), res.labels, env, outdir, timeout=min(150, left()), stop=stop)
            if res.ok:
                break
        more = aids(res.failed) - dropped
        if res.issues or not more or stop() or left() < 20:
            break
        dropped |= more
        res = attempt(fns, theories, outdir, env, rlimit, extra, threads, sorted(dropped))
    if not res.ok:
        first.last = res
        res = first
    else:
        res.dropped = sorted(dropped)
    res.wall = time.time() - t0
    return res


def attempt(fns, theories, outdir, env, rlimit, extra, threads, drop):
    res = Result()
    rs, js = os.path.join(outdir, "crate.rs"), os.path.join(outdir, "crate.json")
    for p in (rs, js):
        if os.path.exists(p):
            os.remove(p)
    tr = subprocess.run([GO2V, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-fns", ",".join(fns), "-theory", ",".join(theories), "-o", rs, "-json", js, "-drop", ",".join(drop)], env=env, capture_output=True, text=True)
    res.log += tr.stderr
    if tr.returncode != 0 or not os.path.exists(js):
        res.fatal = "translation failed: " + tr.stderr[-2000:]
        return res
    rep = json.load(open(js))
    res.issues = rep.get("issues") or []
    res.fns = rep.get("fns") or []
    res.trusted = rep.get("trusted") or {}
    res.lib = [x for x in (rep.get("lib") or []) if not x.startswith("fv:")]
    res.probes = rep.get("probes") or 0
    labels = {int(k): v for k, v in (rep.get("labels") or {}).items()}
    res.labels = labels
    cmd = ["verus", rs, "--multiple-errors", "6", "--triggers-mode", "silent", "--output-json", "--error-format=json", "--time", "--num-threads", str(threads)] + list(extra)
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    res.cmd = " ".join(cmd)
    vr = subprocess.run(cmd, cwd=outdir, env=env, capture_output=True, text=True)
    try:
        out = json.loads(vr.stdout[vr.stdout.index("{"):])
        res.verified = out["verification-results"]["verified"]
        res.vir_error = out["verification-results"].get("encountered-vir-error", False)
        res.smt_ms = out.get("times-ms", {}).get("smt", {}).get("total", 0)
        summary = True
    except Exception:
        summary = False
    diags, rest = diagnostics(vr.stderr)
    res.log += rest
    res.failed, seen_probes = classify(diags, labels)
    res.log += "".join(d.get("rendered", "") for d in diags)
    all_probes = {n for n, l in labels.items() if l["kind"] == "probe"}
    early = any(d.get("code") for d in diags) or (diags and res.verified == 0 and not seen_probes and all_probes)
    crashed = "panicked at" in vr.stderr or "internal error" in vr.stderr or res.verified == 0
    if crashed and summary:
        summary = False
        res.failed = [f for f in res.failed if f["fn"] != "?"]
    if not summary or early or getattr(res, "vir_error", False):
        if not res.failed:
            res.fatal = "verus did not complete: " + ((vr.stderr[vr.stderr.find("panicked at"):][:1500] if "panicked at" in vr.stderr else vr.stderr[-2000:]) or vr.stdout[-500:])
        else:
            res.fatal = "the generated crate is not accepted by verus"
    else:
        for n in sorted(all_probes - seen_probes):
            res.failed.append({"fn": labels[n]["fn"], "kind": "vacuity probe", "go": "", "text": "the assumptions of this function contradict each other", "message": "probe verified", "rendered": ""})
    res.probes = len(all_probes)
    res.obligations = sum(f.get("Obl", 0) or f.get("obl", 0) for f in res.fns)
    res.lemmas = sum(1 for l in open(rs) if re.match(r"\s*pub (broadcast )?proof fn ", l)) if os.path.exists(rs) else 0
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("fns")
    ap.add_argument("theories", nargs="?", default="base.rs")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-n", type=int, default=12)
    ap.add_argument("--retry", action="store_true")
    ap.add_argument("--rlimit")
    ap.add_argument("extra", nargs="*")
    a = ap.parse_args()
    env = goenv()
    ok, log = build_tool(env)
    if not ok:
        print(log)
        sys.exit(2)
    d = os.environ.get("PROVE_DIR", "/tmp/t")
    os.makedirs(d, exist_ok=True)
    r = prove([x for x in a.fns.split(",") if x], a.theories.split(","), d, env, a.rlimit, ["--" + x for x in a.extra], retries=a.retry)
    for i in r.issues:
        print("ISSUE", i.get("Fn") or i.get("fn"), i.get("Pos") or i.get("pos"), i.get("Msg") or i.get("msg"))
    for f in r.failed[:a.n]:
        print("FAILED %s | %s | %s | %s" % (f["fn"], f["kind"], f["go"], f["text"][:200]))
        print("       ", f["message"], [("%s %s %s" % (o["fn"], o["kind"], o["go"])) for o in f.get("also", [])])
        if a.v:
            print(f["rendered"])
    if r.fatal:
        print("FATAL", r.fatal)
        print(r.log[-1500:])
    print("failed %d, verified %d, obligations %d, probes %d, fns %d, smt %d ms, wall %.1f s" % (len(r.failed), r.verified, r.obligations, r.probes, len(r.fns), r.smt_ms, r.wall))


if __name__ == "__main__":
    main()
