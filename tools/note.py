#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE [LEVEL]: record a check's technique in check_notes.json and rebuild MANIFEST.json"""
import json, subprocess, sys
f = "/verif/check_notes.json"; d = json.load(open(f))
d[sys.argv[1]] = dict(d.get(sys.argv[1], {}), technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(f, "w"), indent=1)
print(subprocess.run([sys.executable, "/verif/mkmanifest.py"], capture_output=True, text=True).stdout)
