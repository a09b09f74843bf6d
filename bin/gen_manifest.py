"""write MANIFEST.json from config.py and properties.jsonl"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i not in config.CHECKS: continue
    c = config.CHECKS[i]
    d = dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % i,
             evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["level_note"])
    if c.get("theorems"): d["theorems"] = c["theorems"]
    checks.append(d)
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=config.NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in config.CHECKS])
if config.HOOKS: m["hooks"] = config.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
