#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if not os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
        continue
    m = importlib.import_module(i.lower())
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=m.TECH, level="exploration",
        level_note="Runs the real library (gcc ASan+UBSan build of the current tree) on generated workloads and judges every recorded event with an independent "
                   "reference; assurance is for the executions observed, counts of which are in the evidence file. " + " ".join(getattr(m, "ASSUME", []))))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py asan msan",
    hooks=dict(guard="VERIF_HOOKS", enable="no hooks are used: the checks compile the unmodified sources of /repo with -fsanitize=address,undefined", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. lib/build.py copies and compiles /repo's current working tree on every run (cached by content)."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])
