#!/usr/bin/env python3
"""Rewrites the fixed list of known_findings.json from the fix: commits (developer tool)."""
import json, subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(H + "/tools/fix_props.json"))
k = json.load(open(H + "/known_findings.json"))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        pr = next((p for key, p in PROP.items() if key in s), None)
        if not pr: print("no property for", s); continue
        out.append("fixed: property=%s %s %s" % (pr, h, s[5:]))
k["fixed"] = out
json.dump(k, open(H + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed")
