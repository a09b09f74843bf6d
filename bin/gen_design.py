#!/usr/bin/env python3
"""DESIGN.md from DESIGN.tmpl.md, config.py, known_findings.json and the last run of tools/runseeds.py (development aid)"""
import json, os, sys
B = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(B)
sys.path.insert(0, B)
import config
t = open(B + "/DESIGN.tmpl.md").read()
rows = []
for i in sorted(config.CHECKS):
    c = config.CHECKS[i]
    rows.append("| %s | %s | %s | %s |" % (i, ", ".join(c["units"]) or "-", c["proved_part"], c["bounded_part"]))
t = t.replace("@@TABLE@@", "\n".join(rows))
for i in config.NOT_APPLICABLE: t = t.replace("@@%s@@" % i, config.NOT_APPLICABLE[i])
k = json.load(open(V + "/known_findings.json"))
t = t.replace("@@FIXES@@", "\n".join("* " + l[len("fixed: property="):] for l in k["fixed"]))
R = json.load(open(B + "/seed_results.json")) if os.path.exists(B + "/seed_results.json") else {}
s = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    s.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], R.get(i, "not run yet")))
t = t.replace("@@SEEDS@@", "\n".join(s))
open(V + "/DESIGN.md", "w").write(t)
