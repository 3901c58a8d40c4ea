#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
N = json.load(open(os.path.join(H, "check_notes.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and i in N:
        n = N[i]
        checks.append(dict(property=i, quick_cmd="bash run.sh " + i, thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
                           technique=n["technique"], level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=N.get("_na", {}).get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
