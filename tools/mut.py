#!/usr/bin/env python3
"""Developer tool: mut.py PROP FILE OLD NEW [COUNT] - run a check on a copy of /repo with one textual change."""
import os, subprocess, sys
W = "/tmp/mut-repo%s" % os.environ.get("PLANT", "")
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
if not os.path.exists(W): sh("git", "clone", "-q", "/repo", W)
sh("git", "-C", W, "fetch", "-q", os.environ.get("MUTSRC", "/repo"), "HEAD"); sh("git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD")
prop, f, old, new = sys.argv[1:5]
old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
p = os.path.join(W, f); s = open(p).read()
n = s.count(old)
assert n >= 1, "not found"
i = int(sys.argv[5]) if len(sys.argv) > 5 else 0
parts = s.split(old); s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
open(p, "w").write(s)
r = sh("bash", "/verif/run.sh", prop, env=dict(os.environ, VERIF_REPO=W))
v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
print(prop, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "BROKEN"), "(%d matches)" % n, v[0][:220] if v else r.stdout[-300:] if r.returncode > 1 else "")
