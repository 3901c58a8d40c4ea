"""C17: saving and loading; histories from SaveLoadGen.tla, verdict by SaveLoadTrace.tla."""
from _common import *
import shutil, sys, tempfile


def tap():
    """what this party received, as raw bytes (torch.distributed level)"""
    import torch.distributed as d
    got = []
    def keep(t):
        try: got.append(t.detach().contiguous().view(-1).numpy().tobytes())
        except Exception: pass
    def wrap(name, pick):
        f = getattr(d, name)
        def g(*a, **k):
            r = f(*a, **k)
            class W:
                def wait(self, *x):
                    v = r.wait(*x)
                    for t in pick(a, k): keep(t)
                    return v
                def __getattr__(self, n): return getattr(r, n)
            if r is not None and hasattr(r, "wait"): return W()
            for t in pick(a, k): keep(t)
            return r
        setattr(d, name, g)
    one = lambda a, k: [a[0] if a else k["tensor"]]
    for n in ("broadcast", "recv", "irecv", "all_reduce", "reduce", "scatter"): wrap(n, one)
    wrap("all_gather", lambda a, k: list(a[0]))
    wrap("gather", lambda a, k: list((a[1] if len(a) > 1 else k.get("gather_list")) or []))
    return got


def body(pty, progs, d):
    import torch, crypten, random, copy, vnet
    ws, me = pty.ws, pty.rank
    got = tap()
    nn = torch.nn
    def rnd(rng, shape):
        n = 1
        for s in shape: n *= s
        return torch.tensor([rng.randint(-2 ** 18, 2 ** 18) / 65536 for _ in range(n)]).reshape(shape)
    def ints(t): return [int(round(v * 65536)) for v in t.detach().double().reshape(-1).tolist()]
    def vt(t, name="", buf=False): return dict(n=name, s=list(t.shape), b=buf, x=ints(t))
    def vm(m):
        out = [vt(p, n) for n, p in m.named_parameters()] + [vt(b, n, True) for n, b in m.named_buffers()]
        return out
    def make(kind, n, who):
        rng = random.Random("%d-%d" % (n, who))
        k = random.Random(n)
        if kind == "t":
            s = k.choice([(3,), (2, 3), (1,), (), (2, 1, 4), (5, 5)])
            t = rnd(rng, s)
            if len(s) == 2 and k.random() < .5: t = rnd(rng, (s[1], s[0])).t()
            return t
        c = k.randrange(6)
        if c == 0: m = nn.Linear(3, 2)
        elif c == 1: m = nn.BatchNorm1d(4)
        elif c == 2: m = nn.Conv2d(2, 3, 2)
        elif c == 3: m = vnet.Net()
        elif c == 4: m = vnet.Tied()
        else: m = nn.BatchNorm2d(3)
        for t in list(m.parameters()) + [b for b in m.buffers()]:
            t.data.copy_(rnd(rng, t.shape).abs() + 1 if t.dtype.is_floating_point else torch.full_like(t, rng.randint(1, 9)))
        if k.random() < .4 and hasattr(m, "weight"):      # a parameter that is a piece of a larger storage
            big = rnd(rng, (m.weight.numel() + 8,))
            with torch.no_grad(): big[:m.weight.numel()] = m.weight.reshape(-1)
            m.weight.data = big[:m.weight.numel()].view(m.weight.shape)
            m.__dict__["_big"] = None
        if isinstance(m, vnet.Net):
            big = rnd(rng, (40,)) + 9; m.extra = big[:5]
        if k.random() < .3: m.eval()
        return m
    def secrets(o):
        """byte patterns (two adjacent values) of the source's data"""
        ts = [o] if torch.is_tensor(o) else list(o.parameters()) + list(o.buffers())
        out = set()
        for t in ts:
            st = torch.tensor([], dtype=t.dtype).set_(t.untyped_storage()).detach()
            b = st.numpy().tobytes(); w = t.element_size()
            if t.dtype.is_floating_point:
                for i in range(0, len(b) - 2 * w + 1, w):
                    if any(b[i:i + w]) and any(b[i + w:i + 2 * w]): out.add(b[i:i + 2 * w])
        return out
    def desc(o): return dict(k="t", v=[vt(o)]) if torch.is_tensor(o) else dict(k="m", v=vm(o))
    for hn, pr in enumerate(progs):
        base = os.path.join(d, "w%d-h%d" % (ws, hn))
        if me == 0: os.makedirs(base, exist_ok=True)
        crypten.communicator.get().barrier()
        pty.emit(dict(op="begin", prog="h%d" % hn, ws=ws))
        on = {}
        def doload(rec, src, obj, **kw):
            """load, then say what each party has"""
            k = dict(src=src)
            k.update(kw)
            cls = {"Net": vnet.Net, "Tied": vnet.Tied}.get(type(obj).__name__)
            if cls is not None: k["model_class"] = cls
            r = crypten.load_from_party(**k)
            rec["got"] = list(got)             # before anything is revealed on purpose
            rec["sat"] = r.src
            if isinstance(r, torch.nn.Module): rec["val"] = vm(r)
            else: rec["val"] = [vt(r.get_plain_text())]
            return r
        for a in pr:
            f, src = os.path.join(base, "f%d" % a["f"]), a["src"] % ws
            rec = dict(op=a["op"], f=a["f"], src=src, err="", calls=0, note=str({k: a[k] for k in ("kind", "n", "clos", "bad")}), val=[], sat=src, leak=False)
            mine = make(a["kind"], a["n"], me)
            theirs = make(a["kind"], a["n"], src)
            del got[:]
            sec = secrets(theirs)
            try:
                if a["op"] == "save":
                    rec["obj"] = desc(mine)
                    def sc(o, ff, **kw): rec["calls"] += 1; torch.save(o, ff, **kw)
                    on[a["f"]] = theirs
                    if a["clos"]: crypten.save_from_party(mine, f, src=src, save_closure=sc)
                    else: rec["calls"] = 1 if me == src else 0; crypten.save_from_party(mine, f, src=src)
                elif a["op"] == "savefail":
                    rec["obj"] = desc(mine); on.pop(a["f"], None)
                    if me == 0 and os.path.exists(f): os.unlink(f)
                    crypten.communicator.get().barrier()
                    def sc(o, ff, **kw): raise OSError("disk full")
                    crypten.save_from_party(mine, f, src=src, save_closure=sc)
                elif a["op"] == "corrupt":
                    on.pop(a["f"], None)
                    if me == 0: open(f, "wb").write(b"not a saved object")
                    crypten.communicator.get().barrier()
                elif a["op"] == "load":
                    o = on.get(a["f"])
                    if o is not None: sec = secrets(o)
                    kw = dict(f=f) if me == src or a["n"] % 2 else dict(f=f + ".not-here")
                    if a["clos"]: kw.update(load_closure=lambda q, **z: torch.load(q))
                    doload(rec, src, o, **kw)
                elif a["op"] == "preload":
                    rec["obj"] = desc(mine)
                    doload(rec, src, mine, **(dict(preloaded=mine) if me == src or a["n"] % 2 else {}))
                elif a["op"] == "badload":
                    kw = [dict(preloaded=[1, 2]), dict(preloaded={"a": torch.ones(2)}), dict(), dict(f=f, preloaded=torch.ones(2)), dict(f=f, load_closure=lambda q: 1 / 0), dict(preloaded="text")][a["bad"]]
                    doload(rec, src, None, **kw)
                elif a["op"] == "shares":
                    rec["op"] = "full"
                    x = crypten.cryptensor(mine if torch.is_tensor(mine) else torch.ones(2) * (me + 1), src=src)
                    w = make("t", a["n"], src) if torch.is_tensor(mine) else torch.ones(2) * (src + 1)
                    rec["want"] = [vt(w)]
                    crypten.save(x, f + ".share%d" % me)
                    y = crypten.load(f + ".share%d" % me)
                    rec["val"] = [vt(y.get_plain_text())]
                elif a["op"] == "encrypt":
                    rec["op"] = "full"
                    if a["bad"] == 0 and ws > 1:
                        rec["op"] = "unknown"
                        crypten.load_from_party(preloaded=vnet.Secret() if me == src else None, src=src)
                    else:
                        c = [nn.Linear(3, 2), nn.BatchNorm1d(3), vnet.Net2()][a["n"] % 3]
                        rng = random.Random("%d-%d" % (a["n"], src))
                        for t in list(c.parameters()) + [b for b in c.buffers()]:
                            if t.dtype.is_floating_point: t.data.copy_(rnd(rng, t.shape).abs() + 1)
                        sec = secrets(c)
                        c.eval()
                        want = {n: t for n, t in c.state_dict().items() if t.dtype.is_floating_point}
                        rec["want"] = [vt(t, n) for n, t in sorted(want.items())]
                        r = crypten.load_from_party(preloaded=c if me == src else None, src=src, model_class=vnet.Net2)
                        # the receivers must not have anything of the source's, so whatever is decrypted came through encryption
                        q = crypten.nn.from_pytorch(r, torch.ones(2, 3))
                        q.encrypt(src=r.src); got2 = list(got); q.decrypt()
                        have = dict(q.named_parameters()); have.update(dict(q.named_buffers()))
                        rec["val"] = [vt(have.get(n + ".data", have.get(n, torch.empty(0))), n) for n in sorted(want)]
                        got[:] = got2
            except Exception as e:
                rec["err"] = "%s %s" % (type(e).__name__, str(e)[:150])
            if me != src and sec:
                blob = b"|".join(rec.pop("got", got))
                rec["leak"] = a["op"] != "shares" and any(p in blob for p in sec)
            rec.pop("got", None)
            pty.emit(rec)


def go(c):
    load()
    d = tempfile.mkdtemp(prefix="c17-")
    try:
        open(os.path.join(d, "vnet.py"), "w").write('''
import torch
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__(); self.l = torch.nn.Linear(2, 2); self.bn = torch.nn.BatchNorm1d(2); self.register_buffer("extra", torch.zeros(5))
    def forward(self, x): return self.bn(self.l(x))
class Tied(torch.nn.Module):
    def __init__(self):
        super().__init__(); self.a = torch.nn.Linear(2, 2); self.b = torch.nn.Linear(2, 2); self.b.weight = self.a.weight
    def forward(self, x): return self.b(self.a(x))
class Net2(torch.nn.Module):
    def __init__(self):
        super().__init__(); self.l = torch.nn.Linear(3, 4); self.bn = torch.nn.BatchNorm1d(4); self.m = torch.nn.Linear(4, 4); self.m2 = torch.nn.Linear(4, 4); self.o = torch.nn.Linear(4, 1, bias=False)
    def forward(self, x): return self.o(torch.relu(self.m2(self.m(self.bn(self.l(x))))))
class Secret(torch.nn.Module):
    def __init__(self):
        super().__init__(); self.l = torch.nn.Linear(2, 2)
''')
        sys.path.insert(0, d)
        import vnet
        worlds = [1, 2, 3, 2, 4] * (3 if c.thorough else 1)
        n = 8
        ps = [(ws, tlc.start("SaveLoadGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = 14\nW = %d\nCHECK_DEADLOCK FALSE\n" % ws, simulate=n, depth=20, seed=SEED * 100 + j, xmx="1g")) for j, ws in enumerate(worlds)]
        specs = []
        for j, (ws, p) in enumerate(ps):
            r = tlc.finish(p, 100)
            progs = [x["prog"] for x in r.printed if "prog" in x]
            if len(progs) < n: raise Machinery("SaveLoadGen " + r.out[-1500:])
            dd = os.path.join(d, "s%d" % j); os.mkdir(dd)
            specs.append(dict(body=body, ws=ws, seed=SEED, timeout=60, args=(progs[:n], dd)))
        tr = []
        for s, r in zip(specs, run_worlds(specs)):
            recs, ev = r.recs, []
            for row in zip(*recs):
                e = dict(row[0])
                if e["op"] != "begin":
                    for k in ("err", "calls", "val", "sat", "leak"): e[k] = [x[k] for x in row]
                    if "obj" in e: e["obj"] = [x["obj"] for x in row]
                    c.detail[e["op"]] = c.detail.get(e["op"], 0) + 1
                ev.append(e)
            if not r.ok: ev.append(dict(op="full", err=["a party did not finish: " + (r.error() or "hang")] * s["ws"], want=[], val=[[]] * s["ws"], leak=[False] * s["ws"]))
            c.sample({k: ev[1].get(k) for k in ("op", "src", "err")})
            tr.append(("ws%d" % s["ws"], ev, None))
        c.validate(tr, "SaveLoadTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)


main("C17", go)
