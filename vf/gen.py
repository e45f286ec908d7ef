#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vf/props.py (+ planned, not claimed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.props import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = []
lines, checks = [], []
for pid in sorted(PROPS):
    p = PROPS[pid]
    assert len(p["title"]) <= 80, p["title"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    lines.append(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": p["hook"]}}))
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid, "technique": p["technique"],
        "level": "exploration", "level_note": p["note"]})
open(H + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": checks, "not_applicable": NA,
  "notes": "Every check rebuilds the library units it needs from /repo's working tree with clang++ -fsanitize=address,undefined into /verif/build (git-ignored, keyed by content)."},
  open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

# DESIGN.md = design_head.md + one section per property + which checks catch which planted bugs
d = open(H + "/vf/design_head.md").read() + "\n## The properties\n"
for pid in sorted(PROPS):
    p = PROPS[pid]
    d += "\n### %s %s\n\n%s\n\n" % (pid, p["title"], p["statement"])
    d += "* Workload: %s. Stages of `harness/%s.cpp`: %s.\n" % (p["quant"], pid.lower(), ", ".join(p["stages"]))
    if p["note"]: d += "* Monitor: %s\n" % p["note"]
    d += "* Watches: %s.\n* Why tests do not settle it: %s\n" % ("; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["mechanism"]), p["why"])
if NA:
    d += "\n## Not applicable\n\n" + "".join("* %s: %s\n" % (n["property"], n["reason"]) for n in NA)
d += "\n## Planted bugs\n\nEach lies in seeded/ with its demonstration; `vf/plant.sh` confirms it (demo, build, 1704 stable tests) and runs the check.\n\n| planted bug | property | needs | check, and the clauses that reported it |\n|---|---|---|---|\n"
res = {}
if os.path.exists(H + "/vf/plant_results.txt"):
    for l in open(H + "/vf/plant_results.txt"):
        f = l.rstrip("\n").split("|"); res[f[0]] = f[1]
for i in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    m = json.load(open(H + "/seeded/" + i + "/meta.json"))
    d += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "not run yet"))
t = H + "/vf/design_tail.md"
if os.path.exists(t): d += "\n" + open(t).read()
open(H + "/DESIGN.md", "w").write(d)
