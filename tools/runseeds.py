#!/usr/bin/env python3
"""runseeds.py [ids]: apply each planted bug to /repo, run its property's check, undo it"""
import sys, os, json, subprocess
RES = "/verif/bin/seed_results.json"
res = json.load(open(RES)) if os.path.exists(RES) else {}
V = "/verif/seeded"
for i in (sys.argv[1:] or sorted(os.listdir(V))):
    m = json.load(open("%s/%s/meta.json" % (V, i)))
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip() == ""
    r = subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (V, i)])
    if r.returncode: print(i, "PATCH DOES NOT APPLY"); continue
    try:
        p = subprocess.run(["python3", "/verif/bin/check.py", m["property"]], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
    f = [l.strip()[:230] for l in p.stdout.split("\n") if "FAILING INPUT" in l or "FAILED OBLIGATION" in l]
    print("%-32s %s rc=%d %s\n      %s" % (i, m["property"], p.returncode, "CAUGHT" + (" (proof only)" if "no-failing" in v[0] else "") if v else "MISSED", "\n      ".join(f[:2])), flush=True)
    o = "FAILED OBLIGATION" in p.stdout; h = "FAILING INPUT" in p.stdout
    res[i] = ("%s (%s)" % (m["property"], " and ".join(x for x, y in (("proof", o), ("failing input", h)) if y))) if v else "missed"
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
