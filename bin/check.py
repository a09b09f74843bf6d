#!/usr/bin/env python3
"""check.py ID : decide one property on /repo's current working tree.  Exit 0 quiet, 1 with VIOLATION line."""
import sys, os, json, time, shutil, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vplib import *
import config

import re
SAFETY = re.compile(r"overflow|underflow|division|precondition|decreases|terminat|shift|unreach|panic|index", re.I)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    cfg = config.CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid.lower())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        code = decide(pid, cfg, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def run_harness(hbin, pid, seed, tier, secs, work, extra):
    out = os.path.join(work, "h.json")
    scratch = os.path.join(work, "scratch"); os.makedirs(scratch, exist_ok=True)
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (100 << 30, 100 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    rc, o, e = run([hbin, pid, str(seed), tier, str(secs), out], secs * 3 + 120, cwd=scratch, env=env(TMPDIR=scratch, **extra), preexec_fn=lim)
    cur = ""
    if os.path.exists(out + ".cur"): cur = open(out + ".cur", errors="replace").read()
    if rc in (0, 1) and os.path.exists(out):
        return json.load(open(out)), None
    return None, dict(rc=rc, current_case=cur, stderr=e[-1500:], stdout=o[-500:])

def decide(pid, cfg, tier, seed, work, t0):
    ex = extractor()
    secs = cfg.get("secs", 40) if tier == "quick" else cfg.get("secs_thorough", 240)
    with cf.ThreadPoolExecutor(8) as pool:
        fh = pool.submit(harness, ex)
        units = [pool.submit(verus_unit, ex, u, work, tier) for u in cfg.get("units", [])]
        fc = pool.submit(cli_binary) if cfg.get("cli") else None
        hbin, feat, hlog = fh.result()
        hres = herr = None
        extra = {}
        if fc:
            cbin, cerr = fc.result()
            if cbin: extra["VP_CLI_BIN"] = cbin
            else: hlog.append("storm-cli build failed: " + cerr)
        if hbin: hres, herr = run_harness(hbin, pid, seed, tier, secs, work, extra)
        units = [u.result() for u in units]
    if cfg.get("safety"):
        # this property is about panics, overflow, bounds and termination: a failed functional obligation decides nothing about it
        for u in units:
            if u["status"] != "failed": continue
            kept = [f for f in u["failed"] if SAFETY.search(f["obligation"]) and "lemma_" not in f["at"]]
            if kept: u["failed"] = kept
            else:
                u["status"] = "undecided"
                u["reason"] = "functional obligations fail (" + ", ".join(sorted({str(f["function"]) for f in u["failed"]})) + "), safety rests on them"
    failures = (hres or {}).get("failures", [])
    crash = None
    if herr and herr["current_case"] and herr["rc"] not in (None, -9):
        # the real code took the whole process down (abort, stack overflow, hang): that is a failing input
        crash = dict(group="process", case=herr["current_case"], message="the process running the real code ended with %s" % herr["rc"])
        failures = [crash]
    proof_fail = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    proved = [u for u in units if u["status"] == "proved"]
    viol = []
    rep = os.path.join(VERIF, "replays", pid + ".json")
    named = [dict(unit=u["unit"], **f) for u in proof_fail for f in u["failed"]]
    if failures:
        viol.append("VIOLATION property=%s replay=%s" % (pid, rep))
    elif proof_fail:
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep))
    if viol:
        json.dump(dict(property=pid, seed=seed, tier=tier, failed_obligations=named, failing_inputs=failures,
                       replay="VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s (the harness regenerates the cases deterministically from the seed; each failing input is written out above)" % (seed, tier, pid),
                       verifier_output=[dict(unit=u["unit"], stderr=u.get("stderr", "")) for u in proof_fail]), open(rep, "w"), indent=1)
    elif os.path.exists(rep): os.remove(rep)
    for u in units:
        print("verus %-10s %-9s %d/%d obligations, %.1fs %s" % (u["unit"], u["status"], u["discharged"], u["obligations"], u["wall_s"], u["reason"][:300].replace("\n", " ")))
    for f in named: print("  FAILED OBLIGATION %(unit)s::%(function)s: %(obligation)s -- %(at)s %(detail)s" % f)
    if hres: print("harness [%s]: %d contract evaluations, %d failures, %.1fs" % (feat, hres["evaluations"], len(failures), hres["wall_s"]))
    for l in hlog: print("note:", l[:400].replace("\n", " "))
    if herr: print("harness ended abnormally:", json.dumps(herr)[:600])
    for f in failures[:5]: print("  FAILING INPUT [%s] %s :: %s" % (f["group"], f["case"][:300], f["message"][:300]))
    for k in (hres or {}).get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ob = sum(u["obligations"] for u in units); di = sum(u["discharged"] for u in units)
    level = cfg["level"]
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd="; ".join(u.get("cmd", "") for u in units) or "none",
        trusted_base=cfg.get("trusted", []) + config.TRUSTED_COMMON,
        back_end="Verus 0.2026.09.13 (Z3)" if units else "none",
        solver_time_s=round(sum(u["smt_ms"] for u in units) / 1000, 2),
        functions_under_contract=sorted({f for u in units for f in u["functions"]}),
        assumed_contracts=sorted({t for u in units for t in u["trusted"]}),
        extraction_rules_applied=sorted({x for u in units for x in u["rules"]}),
        units=[dict(unit=u["unit"], status=u["status"], obligations=u["obligations"], discharged=u["discharged"], smt_ms=u["smt_ms"], wall_s=u["wall_s"], reason=u["reason"][:800]) for u in units],
        proved_part=cfg.get("proved_part", ""), bounded_part=cfg.get("bounded_part", ""),
        bounded_stand_in=dict(label="bounded, not counted as proved", features=feat, **{k: (hres or {}).get(k) for k in ("evaluations", "groups", "bounds", "notes", "wall_s")}),
        evaluations=(hres or {}).get("evaluations", 0), distinct_nontrivial=(hres or {}).get("distinct", 0),
        rule="each evaluation runs the real code on one generated input and compares it with an independent executable specification; distinct_nontrivial counts distinct case texts (the first 5000 of each group)",
        samples=((hres or {}).get("samples") or ["none"])[:12],
        explanation=cfg.get("level_note", ""),
    )
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=cfg.get("assumptions", []) + [("unit %s undecided on this tree: %s; only the bounded stand-in speaks for its functions" % (u["unit"], u["reason"][:300])) for u in undecided] + hlog,
                   wall_s=round(time.time() - t0, 2), violations=len(viol)), open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in viol: print(v)
    if viol: return 1
    if not hres and (undecided or not units):
        # nothing decided anything: fail loudly rather than pass silently
        print("ERROR: neither the verifier nor the stand-in could run"); return 2
    return 0

main()
