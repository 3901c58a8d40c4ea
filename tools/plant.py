#!/usr/bin/env python3
"""Make and test planted bugs: plant.py make SPEC.py | demo ID.. | test ID.. | check ID [PROP..]
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, subprocess, sys, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
W = "/tmp/plant-repo%s" % os.environ.get("PLANT", "")
PY = "/opt/venv/bin/python"
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def fresh():
    if os.path.exists(W + "/.git"):
        sh("git", "-C", W, "fetch", "-q", "/repo", "HEAD"); sh("git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"); sh("git", "-C", W, "clean", "-fdq")
        return
    sh("git", "clone", "-q", "/repo", W)
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    items = g.get("BUGS") or [g]
    ids = []
    for g in items:
        fresh()
        for f, old, new in g["EDITS"]:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (g["ID"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(S, g["ID"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git", "-C", W, "diff").stdout)
        open(d + "/demo.py", "w").write(g["DEMO"].strip() + "\n")
        shutil.copy(os.path.join(H, "tools", "party.py"), d)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        ids.append(g["ID"])
    return ids
def apply(i):
    r = sh("git", "-C", W, "apply", os.path.join(S, i, "patch.diff"))
    assert r.returncode == 0, (i, r.stderr)
def demo(i):
    fresh(); t = time.time()
    a = sh("bash", os.path.join(S, i, "demo.sh"), cwd=W)
    apply(i)
    b = sh("bash", os.path.join(S, i, "demo.sh"), cwd=W)
    ok = a.returncode == 0 and b.returncode != 0
    print(i, "demo", "OK" if ok else "BAD", a.returncode, b.returncode, "%.0fs" % (time.time() - t), "" if ok else (a.stdout + a.stderr)[-1500:] + (b.stdout + b.stderr)[-1500:])
    if ok: print("    ", (b.stdout + b.stderr).strip().splitlines()[-1][:200])
    return ok
def check(i, props=None):
    fresh(); apply(i)
    m = json.load(open(os.path.join(S, i, "meta.json")))
    for p in props or [m["property"]]:
        t = time.time()
        r = sh("bash", os.path.join(H, "run.sh"), p, env=dict(os.environ, VERIF_REPO=W))
        v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
        print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "BROKEN %d %s" % (r.returncode, r.stdout[-800:] + r.stderr[-800:]), "%.0fs" % (time.time() - t), (v[0][:220] if v else ""), flush=True)
def test(i):
    """the stable tests of the test modules, in the patched copy"""
    fresh(); apply(i)
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    mods = {}
    for x in st:
        mods.setdefault(".".join(x.split(".")[:3]), []).append(x)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=W, PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", GLOO_SOCKET_IFNAME="lo", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1")
    bad = []
    ch = [v[k:k + 8] for v in mods.values() for k in range(0, len(v), 8)]
    run = []
    def one(c, tries=3):
        for _ in range(tries):
            try:
                r = sh("timeout", "-k", "5", "150", PY, "-m", "unittest", "-q", *c, cwd=W, env=env)
            except Exception as e:
                r = None
            if r and r.returncode == 0:
                return None
        return (c, r and r.stderr[-1500:])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        bad = [b for b in ex.map(one, ch) if b]
    print(i, "tests", "OK" if not bad else "FAIL", flush=True)
    for c, e in bad:
        print("   ", c, e)
if __name__ == "__main__":
    cmd, *a = sys.argv[1:]
    if cmd == "make":
        for s in a:
            for i in make(s):
                if demo(i): check(i)
    elif cmd == "demo":
        for i in a: demo(i)
    elif cmd == "check": check(a[0], a[1:])
    elif cmd == "checks":
        for i in a or sorted(os.listdir(S)): check(i)
    elif cmd == "test":
        for i in a or sorted(os.listdir(S)): test(i)
