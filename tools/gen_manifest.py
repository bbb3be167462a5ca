#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        t = TECH[pid]
        checks.append(dict(property=pid, quick_cmd="bash run.sh " + pid,
                           thorough_cmd="VERIF_TIER=thorough bash run.sh " + pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique=t[0], level=t[2] if len(t) > 2 else "exploration", level_note=t[1]))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Runtime monitors over the real code of /repo's working tree; see DESIGN.md. "
               "No hooks in /repo are needed: all monitors attach at the library's public interfaces. "
               "Seed: VERIF_SEED; tier: VERIF_TIER; replay: bash run.sh CNN --replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
