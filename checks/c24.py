"""C24: launching parties and re-initialising; model Launch.tla, histories LaunchGen.tla, verdict LaunchTrace.tla."""
from _common import *
import hashlib, pickle, signal, time


class Hang(Exception): pass


def dig(x):
    import torch
    def can(v):
        if torch.is_tensor(v): return ("T", str(v.dtype), tuple(v.shape), v.contiguous().numpy().tobytes())
        if isinstance(v, (list, tuple)): return (type(v).__name__,) + tuple(can(y) for y in v)
        if isinstance(v, dict): return ("dict",) + tuple((k, can(y)) for k, y in v.items())
        return (type(v).__name__, v)
    return hashlib.sha1(repr(can(x)).encode()).hexdigest()[:16]


def value(kind, r, n, a, b):
    import torch
    if kind == "rank" or kind == "late": return r
    if kind == "none": return None
    if kind == "tuple": return (r, [n, "x" * r], {"k": r})
    if kind == "bigstr": return ("%d" % r) * (150000 + n)
    if kind == "bytes": return bytes([r]) * 700000
    if kind == "tensor": return torch.arange(4) + r
    if kind == "bigtensor": return torch.full((90000,), float(r))
    if kind == "reveal": return [float(n % 50), 2.0]
    if kind == "dict": return {"rank": r, "t": torch.ones(2) * r, "none": None}
    if kind == "false": return False
    if kind == "args": return (a, b, r)


def work(outs, n, a, b=None):
    import torch, crypten
    c = crypten.communicator.get()
    r, kind = c.get_rank(), outs[c.get_rank()]
    if kind in ("raise", "raisecomm", "raiselate", "kill", "exit0", "exit3", "lambda") or any(o in ("raise", "raisecomm", "raiselate", "kill", "exit0", "exit3") for o in outs):
        if kind == "raise": raise ValueError("this party fails")
        if kind == "exit0": sys.exit(0)
        if kind == "exit3": sys.exit(3)
        if kind == "kill": os.kill(os.getpid(), 9)
        if kind == "raiselate": time.sleep(0.2); raise ValueError("this party fails late")
        if kind == "raisecomm": crypten.cryptensor(torch.ones(2), src=9)
        if kind == "lambda": return lambda: 1
    else:
        if "reveal" in outs:
            x = crypten.cryptensor(torch.tensor([float(n % 50), 2.0]), src=n % c.get_world_size())
            y = (x * 1).get_plain_text().tolist()
            if kind == "reveal": return y
        if kind == "late": time.sleep(0.05 * (3 - r))
    return value(kind, r, n, a, b)


def sessions(k, base, seed):
    """several sessions inside a party; a new meeting point each time"""
    import torch, crypten
    out = []
    for j in range(k):
        if j:
            crypten.uninit()
            before = crypten.is_initialized()
            os.environ["RENDEZVOUS"] = "file://%s-%d" % (base, j)
            crypten.init()
        else: before = False
        c = crypten.communicator.get()
        s0 = c.comm_rounds if hasattr(c, "comm_rounds") else 0
        x = crypten.cryptensor(torch.tensor([float(seed % 9), 1.5]), src=j % c.get_world_size())
        g = crypten.generators["local"][torch.device("cpu")] if hasattr(crypten, "generators") and "local" in crypten.generators else torch.default_generator
        out.append(dict(rank=c.get_rank(), ws=c.get_world_size(), sum=(x * x).get_plain_text().round().long().tolist(), want=[(seed % 9) ** 2, 2], before=before, stats0=True,
                        rnd=str(torch.randint(0, 2 ** 62, (2,), generator=g).tolist())))
    return out


def body(pty, progs, d):
    import torch, crypten
    import crypten.mpc as mpc
    from crypten.config import cfg
    for k in ("WORLD_SIZE", "RANK", "RENDEZVOUS", "DISTRIBUTED_BACKEND"): os.environ.pop(k, None)
    signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGALRM])
    def al(*a): raise Hang()
    signal.signal(signal.SIGALRM, al)
    def kids():
        me, n = str(os.getpid()), []
        for p in os.listdir("/proc"):
            if p.isdigit():
                try: f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                except OSError: continue
                if f[1] == me and f[0] != "Z": n.append(int(p))
        return n
    def attempt(f, t):
        """run f with a time limit; a hang is tried once more (an overloaded machine, gloo)"""
        for i in range(2):
            try:
                signal.alarm(t)
                try: return dict(r=f(), hang=False, exc="")
                finally: signal.alarm(0)
            except Hang:
                for p in kids():
                    try: os.kill(p, 9)
                    except OSError: pass
                time.sleep(0.2)
            except Exception as e: return dict(r=None, hang=False, exc="%s %s" % (type(e).__name__, str(e)[:100]))
        return dict(r=None, hang=True, exc="")
    for hn, pr in enumerate(progs):
        if crypten.is_initialized(): crypten.uninit()
        pty.emit(dict(op="begin", prog="h%d" % hn))
        for an, a in enumerate(pr):
            rec = dict(op=a["op"], note=str({k: a[k] for k in ("ws", "ttp", "max", "outs")}), hang=False)
            ok = lambda v: isinstance(v, list)
            env0 = {k: os.environ.get(k) for k in ("WORLD_SIZE", "RANK", "RENDEZVOUS", "DISTRIBUTED_BACKEND")}
            if a["op"] == "launch":
                if a["ttp"]: cfg.mpc.provider = "TTP"
                f = mpc.run_multiprocess(a["ws"], maxsize=a["max"] or None)(work)
                z = attempt(lambda: f(a["outs"], a["n"], "arg", b=[a["n"]]), 25)
                cfg.mpc.provider = "TFP"
                bad = {"lambda", "exit0", "exit3", "raise", "raisecomm", "kill", "raiselate"}
                rec["outs"] = [dict(fail=o in bad, v=dig(value(o, r, a["n"], "arg", [a["n"]])) if o not in bad else "") for r, o in enumerate(a["outs"])]
                rec["hang"] = z["hang"]
                rec["got"] = dict(ok=ok(z["r"]), v=[dig(v) for v in z["r"]] if ok(z["r"]) else [])
                rec["note"] += " " + z["exc"]
            elif a["op"] == "pinit":
                if not crypten.is_initialized(): crypten.init()
                env0 = None
            elif a["op"] == "puninit":
                if crypten.is_initialized(): crypten.uninit()
            elif a["op"] == "sessions":
                k = a["n"] % 3 + 2
                f = mpc.run_multiprocess(a["ws"])(sessions)
                base = os.path.join(d, "r-%d-%d-%d" % (os.getpid(), hn, an))
                z = attempt(lambda: f(k, base + str(time.time()), a["n"]), 40)
                rec.update(hang=z["hang"], k=k, ws=a["ws"], got=dict(ok=ok(z["r"]), v=[]), s=z["r"] if ok(z["r"]) else [])
                rec["note"] = "sessions=%d ws=%d %s" % (k, a["ws"], z["exc"])
            rec["kids"] = len(kids())
            rec["env"] = env0 is None or env0 == {k: os.environ.get(k) for k in env0}
            rec["pinit"] = crypten.is_initialized()
            rec["usable"] = True
            if rec["pinit"]:
                try: rec["usable"] = crypten.cryptensor(torch.tensor([3.0])).add(1).get_plain_text().tolist() == [4.0] and crypten.communicator.get().get_world_size() == 1
                except Exception: rec["usable"] = False
            pty.emit(rec)
            if rec["hang"]: return


def go(c):
    load()
    for w, cap, ms in ([(3, 2, 3), (4, 1, 2)] if c.thorough else [(3, 2, 3)]):
        c.model("Launch", "SPECIFICATION Spec\nINVARIANT Complete Reported\nPROPERTY Terminates\nCONSTANTS W = %d\nCap = %d\nMaxSize = %d\nEarly = FALSE\n" % (w, cap, ms), name="Launch W=%d" % w)
    n, k = (40, 14) if c.thorough else (16, 9)
    r = tlc.finish(tlc.start("LaunchGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\n" % k, simulate=n, depth=k + 2, seed=c.rng.randrange(2 ** 30)), 100)
    progs = [x["prog"] for x in r.printed if "prog" in x]
    if len(progs) < n: raise Machinery("LaunchGen " + r.out[-1000:])
    d = tempfile.mkdtemp(prefix="claunch-")
    specs = [dict(body=body, ws=1, init=False, seed=SEED + j, timeout=600 if c.thorough else 110, patch_urandom=False, args=(progs[j::4], d)) for j in range(4)]
    tr = []
    try:
        for j, r in enumerate(run_worlds(specs, procs=4)):
            ev = r.recs[0]
            if not r.ok: ev.append(dict(op="launch", note=r.error(), hang=True, outs=[], got=dict(ok=False, v=[]), kids=0, env=True, pinit=False, usable=True))
            c.detail["launches"] = c.detail.get("launches", 0) + sum(1 for e in ev if e["op"] != "begin")
            for e in ev[1:2]: c.sample(dict(op=e["op"], note=e["note"]))
            tr.append(("driver%d" % j, ev, None))
    finally: shutil.rmtree(d, ignore_errors=True)
    c.validate(tr, "LaunchTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


import shutil, tempfile
main("C24", go)
