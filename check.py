#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property.

1. every obligation of the property's functions is generated from /repo's
   current source (go2v) and discharged by Verus/Z3;
2. the contracts are also executed against the real code (harness) on a
   bounded set of inputs: the stand-in for functions out of the verifier's
   reach, and the source of failing inputs for failed obligations.
Exit 0, or exit 1 with a VIOLATION line."""
import argparse, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import prove as P
import props as PR

REPO = P.REPO


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    """Listed findings of this property: case name -> description."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                rest = line.strip().split(" ", 2)[2]
                case, _, desc = rest.partition(" ")
                out[case.replace("case=", "")] = desc
    return out


def build_harness(env, scratch):
    """The harness is compiled inside /repo's module through an overlay."""
    src = os.path.join(VERIF, "harness")
    repl = {}
    for n in sorted(os.listdir(src)):
        if n.endswith(".go"):
            repl[os.path.join(REPO, "internal", "verifharness", n)] = os.path.join(src, n)
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "harness")
    r = subprocess.run(["go", "build", "-overlay", ov, "-modfile", mod, "-o", out, "./internal/verifharness"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stdout + r.stderr
    return out, ""


def run_harness(binary, prop, tier, seed, budget, scratch, replay_dir, known, env):
    """Returns (report dict, violation dict or None)."""
    rep = os.path.join(scratch, "harness-%s.json" % tier)
    cur = os.path.join(scratch, "current")
    e = dict(env)
    e["GOMEMLIMIT"] = "4GiB"
    e["TMPDIR"] = scratch
    cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-budget", str(budget), "-report", rep, "-current", cur, "-known", ",".join(known), "-repo", REPO]
    t0 = time.time()
    p = subprocess.Popen(["bash", "-c", 'ulimit -v 16000000; exec "$@"', "x"] + cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        so, se = p.communicate(timeout=budget + 60)
        timed = False
    except subprocess.TimeoutExpired:
        p.kill()
        so, se = p.communicate()
        timed = True
    data = {}
    if os.path.exists(rep):
        try:
            data = json.load(open(rep))
        except Exception:
            data = {}
    data["wall_s"] = round(time.time() - t0, 2)
    v = data.get("violation")
    if not v and (timed or p.returncode != 0):
        what = "the real code did not finish on this input" if timed else "the real code brought the process down on this input"
        c = open(cur).read() if os.path.exists(cur) else "(unknown)"
        v = {"case": "crash", "what": what, "input": c[:200000], "detail": se[-4000:]}
    return data, v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PR.PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, scratch, t0):
    env = P.goenv()
    known = known_findings(prop)
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay_dir = os.path.join(ev_dir, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, "%s.txt" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    ok, blog = P.build_tool(env)
    if not ok:
        log("cannot build go2v:", blog)
        return 2
    res = {}
    found = threading.Event()

    def do_proof():
        r = P.prove(cfg["fns"], cfg["theories"], scratch, env, stop=found.is_set)
        res["proof"] = r

    th = threading.Thread(target=do_proof)
    th.start()
    harness, hlog = build_harness(env, scratch)
    viol, hrep = None, {}
    budget = cfg.get("budget", 20) if tier == "quick" else cfg.get("thorough_budget", 240)
    if harness:
        hrep, viol = run_harness(harness, prop, tier, seed, budget, scratch, replay_dir, known, env)
    if viol:
        found.set()
    th.join()
    pr = res.get("proof")
    if pr is None:
        pr = P.Result()
        pr.fatal = "the prover stopped"
    failed = list(pr.failed)
    unmet = ["%s: %s (%s)%s" % (f["fn"], f["kind"], f["message"], (" at " + f["go"]) if f.get("go") else "") for f in failed]
    unmet += ["%s: not translated: %s" % (i.get("Fn"), i.get("Msg")) for i in pr.issues]
    if pr.fatal:
        unmet.append(pr.fatal.splitlines()[0][:300])
    if not harness:
        unmet.append("the bounded stand-in no longer builds against the exported API: " + hlog[-800:])
    if unmet and not viol and harness:
        # look harder for an input that shows the failure
        for s in range(1, 4):
            hrep2, viol = run_harness(harness, prop, "search", seed + s * 7919, cfg.get("search_budget", 40), scratch, replay_dir, known, env)
            if viol:
                break
    n_obl = pr.obligations + getattr(pr, "lemmas", 0)
    disch = n_obl - len(failed) - len(pr.issues) if not pr.fatal else 0
    level = cfg.get("level", "proof")
    cov = {
        "obligations": n_obl,
        "discharged": max(0, disch),
        "checker_cmd": "go2v (contracts + current source -> Verus) then " + pr.cmd.replace(scratch, "$SCRATCH"),
        "trusted_base": PR.trusted_base(pr, cfg),
        "back_end": "Verus 0.2026.09.13 / Z3",
        "verus_queries_verified": pr.verified,
        "vacuity_probes": pr.probes,
        "smt_time_ms": pr.smt_ms,
        "proof_wall_s": round(pr.wall, 2),
        "functions_under_contract": [{"function": f.get("Fn"), "source": f.get("Go"), "contract": bool(f.get("Contract")), "requires": f.get("Req", 0), "ensures": f.get("Ens", 0), "loops": f.get("Loops", 0), "obligations": f.get("Obl", 0), "inlined": f.get("Inlined") or []} for f in pr.fns if not f.get("Trusted")],
        "functions_trusted": [{"function": f.get("Fn"), "reason": f.get("Trusted")} for f in pr.fns if f.get("Trusted")],
        "proved_with_another_solver_seed": pr.retried,
        "aids_left_out": pr.dropped,
        "unmet": unmet,
        "bounded": {
            "label": "bounded: the contracts executed against the real code; never counted as proved",
            "covers": cfg.get("bounded", []),
            "evaluations": hrep.get("evaluations", 0),
            "distinct_nontrivial": hrep.get("distinct", 0),
            "rule": hrep.get("rule", ""),
            "by_case": hrep.get("cases", {}),
            "samples": (hrep.get("samples") or [])[:4],
            "wall_s": hrep.get("wall_s", 0),
        },
    }
    if level == "other":
        cov["explanation"] = cfg.get("explanation", "")
    bad = bool(unmet) or viol is not None
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": PR.ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0}
    with open(os.path.join(ev_dir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d obligations generated, %d discharged, %d probes; bounded: %d evaluations; %.1f s" % (prop, n_obl, max(0, disch), pr.probes, hrep.get("evaluations", 0), time.time() - t0))
    for c in hrep.get("known") or []:
        log("KNOWN-FINDING: property=%s %s: %s" % (prop, c, known.get(c, "")))
    for u in unmet:
        log("undischarged:", u)
    if not bad:
        return 0
    with open(replay, "w") as f:
        if viol:
            f.write("property %s fails on the real code\n\ncase: %s\nwhat: %s\n\ninput:\n%s\n\n%s\n" % (prop, viol.get("case"), viol.get("what"), viol.get("input"), viol.get("detail", "")))
            f.write("\nre-run: VERIF_SEED=%d python3 check.py %s --tier %s\n" % (seed, prop, tier))
        if unmet:
            f.write("\nobligations not discharged:\n" + "\n".join(unmet) + "\n\nverifier output:\n" + pr.log[-20000:] + "\n" + pr.fatal)
    if viol:
        log("failing input found:", viol.get("case"), "-", (viol.get("what") or "")[:300])
        log("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    return 1


if __name__ == "__main__":
    main()
