"""C09/C10: histories of the tuple providers (TupleGen.tla) run on the real code and judged by TupleTrace.tla."""
from _common import *
import hashlib, json, shutil, tempfile
KINDS = 17
NAMES = {"generate_additive_triple": "triple", "square": "square", "generate_binary_triple": "and", "wrap_rng": "wraps", "B2A_rng": "bit"}


def body(pty, progs, scratch, sess):
    import torch, crypten, random, torch.distributed as dist
    from crypten.mpc.provider.provider import TupleProvider
    from crypten.mpc.ptype import ptype
    ws, me = pty.ws, pty.rank
    # ---- observe what the provider generates and what it hands out ----
    P = type(crypten.mpc.get_default_provider())
    st = dict(depth=0, gen=[], filling=None)
    def canon(x):
        if isinstance(x, (tuple, list, torch.Size)): return [canon(y) for y in x]
        return repr(x) if isinstance(x, (torch.device, torch.dtype)) else x
    def key(name, a, k): return json.dumps([NAMES[name], canon(a), sorted((q, canon(v)) for q, v in k.items())])
    def shares(r): return [t.share if hasattr(t, "share") else t._tensor.share for t in r]
    def digest(r):
        h = hashlib.sha1()
        for t in shares(r): h.update(str(tuple(t.shape)).encode() + t.contiguous().numpy().tobytes())
        return h.hexdigest()[:16]
    def pl(v, n): return list(v) if isinstance(v, (list, tuple)) else [v] * n
    def param(name, a, k):
        if name != "generate_additive_triple": return dict(op="")
        s0, s1, op = a[0], a[1], a[2]
        if not op.startswith("conv"): return dict(op=op)
        n = len(s1) - 2
        k = dict(zip(("bias", "stride", "padding", "dilation", "groups"), a[4:]), **k)
        d = dict(op="convT" if "transpose" in op else "conv", st=pl(k.get("stride", 1), n), pd=pl(k.get("padding", 0), n), dl=pl(k.get("dilation", 1), n), g=k.get("groups", 1))
        d["outp"] = pl(k.get("output_padding", 0), n)
        return d
    for name in NAMES:
        orig = getattr(P, name)
        def gen(self, *a, _o=orig, _n=name, **k):
            r = _o(self, *a, **k)
            if st["filling"] is not None: st["filling"].append(dict(key=key(_n, a, k), dg=digest(r), r=not (ws == 1 and _n == "B2A_rng") and shares(r)[0].numel() > 0))
            else: st["gen"].append(digest(r))
            return r
        setattr(P, name, gen)
    og = TupleProvider.__getattribute__
    def getattribute(self, name):
        f = og(self, name)
        if name not in NAMES or st["depth"] or st["filling"] is not None: return f
        def req(*a, **k):
            st["depth"] += 1; st["gen"] = []
            try: r = f(*a, **k)
            finally: st["depth"] -= 1
            ts = shares(r)
            n = sum(t.numel() for t in ts)
            full = n <= 160
            pr = param(name, a, k)
            d = digest(r)
            pty.emit(dict(op="hand", k=NAMES[name], key=key(name, a, k), gen=d in st["gen"], dg=d, n=ts[0].numel(), full=full, pr=pr,
                          t=[dict(s=list(t.shape), sh=words(t)) for t in ts] if full else []))
            return r
        return req
    TupleProvider.__getattribute__ = getattribute
    prov = crypten.mpc.get_default_provider
    # ---- the jobs ----
    def rnd(rng, *s):
        n = 1
        for q in s: n *= q
        return torch.tensor([rng.randint(-2 ** 10, 2 ** 10) / 256 for _ in range(n)]).reshape(s)
    models = {}
    def job(k, n):
        rng = random.Random("%d/%d" % (k, n))
        f = torch.nn.functional
        E = lambda t: crypten.cryptensor(t, src=rng.randrange(ws))
        v = rng.randint(1, 3)
        if k == 1: x, y = rnd(rng, v, 2), rnd(rng, v, 2); return E(x) * E(y), x * y
        if k == 2: x, y = rnd(rng, v, 2), rnd(rng, 2, 1, 2); return E(x) * E(y), x * y
        if k == 3: x = rnd(rng, v, 2); return E(x).square(), x * x
        if k == 4: x, y = rnd(rng, v, 3), rnd(rng, 3, 2); return E(x).matmul(E(y)), x.matmul(y)
        if k == 5: x, y, a = rnd(rng, 1, 2, 5), rnd(rng, 2, 2 // (1 + (n == 2)), 2), dict(stride=[v] if n % 2 else v, padding=1, groups=1 + (n == 2)); return E(x).conv1d(E(y), **a), f.conv1d(x, y, **a)
        if k == 6: x, y, a = rnd(rng, 1, 1, 4, 4), rnd(rng, 2, 1, 2, 2), dict(stride=[1, v] if n == 1 else (v, 1), dilation=rng.choice([1, [1, 2]]), padding=[0, 1]); return E(x).conv2d(E(y), **a), f.conv2d(x, y, **a)
        if k == 7: x, y, a = rnd(rng, 1, 2, 3), rnd(rng, 2, 1, 2), dict(stride=2, output_padding=n % 2); return E(x).conv_transpose1d(E(y), **a), f.conv_transpose1d(x, y, **a)
        if k == 8: x, y, a = rnd(rng, 1, 1, 2, 2), rnd(rng, 1, 1, 2, 2), dict(stride=[v, 1]); return E(x).conv_transpose2d(E(y), **a), f.conv_transpose2d(x, y, **a)
        if k == 9: x = rnd(rng, v); return E(x).relu(), x.relu()
        if k == 10:
            x, y = rnd(rng, v, 2), rnd(rng, 2)
            z = crypten.mpc.MPCTensor((x * 256).long(), ptype=ptype.binary)._tensor & crypten.mpc.MPCTensor((y * 256).long(), ptype=ptype.binary)._tensor
            return z, ((x * 256).long() & (y * 256).long()).float() / 65536
        if k == 11: x = rnd(rng, v, 2); return E(x) / 3, x / 3
        if k == 12: x = rnd(rng, 1, 3); return E(x).max(1)[0], x.max(1)[0]
        if k == 13: x, y = rnd(rng, v), rnd(rng, 1); return (E(x) > E(y)) * E(x), (x > y) * x
        if k == 14:
            if n not in models:
                torch.manual_seed(n)
                m = torch.nn.Sequential(torch.nn.Conv2d(1, 1, 2, stride=n % 2 + 1), torch.nn.ReLU(), torch.nn.AvgPool2d(2)) if n > 1 else torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.Linear(2, 1))
                for p in m.parameters(): p.data.copy_(rnd(rng, *p.shape))
                x = rnd(rng, 1, 1, 5, 5) if n > 1 else rnd(rng, 1, 2)
                models[n] = (crypten.nn.from_pytorch(m, x).encrypt(), x, m(x).detach())
            m, x, y = models[n]
            return m(E(x)), y
        if k == 15: x, y = rnd(rng, 2, v), rnd(rng, v); z = E(x); return z.matmul(E(y)) + (z * z).sum(1), x.matmul(y) + (x * x).sum(1)
        # direct requests: broadcasting, empty and larger sizes, positional arguments
        P_, S = prov(), torch.Size
        if k == 16:
            Q = [lambda: P_.generate_binary_triple(S([2, 1, 3]), S([v, 1])), lambda: P_.generate_additive_triple(S([2, 1, 3]), S([v, 1]), "mul"), lambda: P_.generate_additive_triple(S([1, 2, 5]), S([2, 2, 2]), "conv1d", None, None, 2),
             lambda: P_.generate_additive_triple(S([1, 2, 5]), S([2, 2, 2]), "conv1d", "cpu", stride=2), lambda: P_.generate_binary_triple(S([3]), S([2, 3]), device="cpu"), lambda: P_.generate_additive_triple(S([3]), S([3]), "matmul")]
            for q in (n, n + 3): Q[q % 6]()
        if k == 17:
            Q = [lambda: P_.square(S([])), lambda: P_.wrap_rng(S([0, 2])), lambda: P_.B2A_rng(S([v, 0])), lambda: P_.wrap_rng(S([40])), lambda: P_.B2A_rng(S([v, 3, 2])), lambda: P_.generate_binary_triple(S([0, 3]), S([1, 3])), lambda: P_.generate_additive_triple(S([2, 3, 2]), S([2, 2]), "matmul")]
            for q in (n, n + 2, n + 4): Q[q % 7]()
        return crypten.cryptensor(torch.ones(1)), torch.ones(1)
    def ints(t): return [max(-2 ** 30, min(2 ** 30, int(round(q * 65536)))) for q in t.double().reshape(-1).tolist()]
    KEEP, ns = [], 0
    for hn, pr in enumerate(progs):
        crypten.communicator.get().barrier()
        p = prov()
        # every history starts with an empty provider, as a fresh process would
        p.tracing, p.request_cache, p.tuple_cache = False, [], {}
        base = os.path.join(scratch, "h%d" % hn)
        pty.emit(dict(op="begin", prog="h%d" % hn, ws=ws))
        for a in pr:
            o = a["op"]
            d = os.path.join(base, "s%d" % a["f"])
            try:
                if o in ("job", "bad"):
                    if o == "bad":
                        x, y = crypten.cryptensor(torch.ones(2, 3)), crypten.cryptensor(torch.ones(4, 5))
                        ok = False
                        try: [lambda: x.matmul(y), lambda: x * y, lambda: x.conv1d(y), lambda: x - x.matmul(x)][a["n"] % 4]()
                        except Exception: ok = True
                        pty.emit(dict(op="refused", ok=ok, note=str(a["n"] % 4)))
                    else:
                        z, want = job(a["k"], a["n"])
                        pty.emit(dict(op="res", got=ints(z.get_plain_text() / (65536 if a['k'] == 10 else 1)), want=ints(want), tol=64, note="job %d/%d" % (a["k"], a["n"])))
                elif o in ("on", "off"): p.trace(o == "on") if a["n"] % 2 or o == "off" else p.trace(); pty.emit(dict(op="trace", on=o == "on"))
                elif o == "once": p.trace_once(); pty.emit(dict(op="once", tr=p.tracing))
                elif o == "fill":
                    st["filling"] = []
                    try: p.fill_cache()
                    finally: news, st["filling"] = st["filling"], None
                    pty.emit(dict(op="fill", news=news))
                elif o in ("save", "load"):
                    os.makedirs(d, exist_ok=True)
                    getattr(p, o + "_cache")(filepath=d)
                    pty.emit(dict(op=o, f=a["f"]))
                elif o == "session" and sess:
                    if ws > 1 or P.NAME == "TTP":
                        ns += 1
                        w = dist.distributed_c10d._world
                        KEEP.append((dict(w.pg_map), crypten.communicator.get()))    # gloo can dead-lock when groups are torn down while others connect
                        crypten.uninit()
                        os.environ["RENDEZVOUS"] = "file://" + os.path.join(scratch, "rdv%d" % ns)
                        crypten.init()
                    g = crypten.communicator.get()
                    pty.emit(dict(op="session", ok=g.get_world_size() == ws and g.get_rank() == me and crypten.is_initialized()))
            except Exception as e:
                pty.emit(dict(op="err", err="%s %s" % (type(e).__name__, str(e)[:150]), note=str(a)))
                raise
    TupleProvider.__getattribute__ = og


def server_loop(scratch, n):
    def hook(rank, ws):
        if rank != ws: return
        import crypten, torch.distributed as dist
        keep = []
        for s in range(n + 1):
            if s: os.environ["RENDEZVOUS"] = "file://" + os.path.join(scratch, "rdv%d" % s)
            crypten.mpc.provider.TTPServer()
            keep.append((dict(dist.distributed_c10d._world.pg_map), crypten.communicator.get()))
            if s < n: crypten.uninit()
        import time
        time.sleep(600)
    return hook


def merged(res):
    recs = res.recs
    out, ws = [], res.ws
    n = max(len(q) for q in recs)
    for i in range(n):
        es = [q[i] if i < len(q) else None for q in recs]
        e0 = next(e for e in es if e is not None)
        er = next((e for e in es if e and e["op"] == "err"), None)
        if er: out.append(dict(op="err", err=er["err"], note=er.get("note", ""))); return out
        if any(e is None for e in es): out.append(dict(op="err", err="the parties are out of step after %s: %s" % (e0["op"], res.error() or "ended"))); return out
        if len({e["op"] for e in es}) > 1 or len({e.get("k") for e in es}) > 1: out.append(dict(op="err", err="the parties do different things: %s" % [(e["op"], e.get("k")) for e in es])); return out
        m = dict(e0)
        if m["op"] == "hand":
            for q in ("key", "gen", "dg"): m[q] = [e[q] for e in es]
            m["full"] = all(e["full"] for e in es) and len({str([t["s"] for t in e["t"]]) for e in es}) == 1
            m["t"] = [dict(s=t["s"], sh=[e["t"][j]["sh"] for e in es]) for j, t in enumerate(e0["t"])] if m["full"] else []
        elif m["op"] == "fill":
            k = max(len(e["news"]) for e in es)
            m["news"] = [dict(key=[e["news"][j]["key"] if j < len(e["news"]) else "" for e in es], dg=[e["news"][j]["dg"] if j < len(e["news"]) else "" for e in es],
                              r=es[0]["news"][j]["r"] if j < len(es[0]["news"]) else True) for j in range(k)]
        elif m["op"] in ("session", "refused"): m["ok"] = [e["ok"] for e in es]
        elif m["op"] == "once": m["tr"] = [e["tr"] for e in es]
        elif m["op"] == "res": m["got"] = [e["got"] for e in es]
        out.append(m)
    if not res.ok: out.append(dict(op="err", err=res.error() or "died"))
    return out


def run(c, provider, worlds, per, length, sessions, tag, seed=0):
    """worlds: list of world sizes; per: histories per world"""
    load()
    n = per * len(worlds)
    r = tlc.finish(tlc.start("TupleGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\nSessions = %d\nKinds = %d\nCHECK_DEADLOCK FALSE\n" % (length, sessions, KINDS),
                             simulate=n, depth=length + 3, seed=c.rng.randrange(2 ** 30)), 100)
    progs = [x["prog"] for x in r.printed if "prog" in x]
    if len(progs) < n: raise Machinery("TupleGen " + r.out[-1500:])
    scratch, specs = [], []
    for j, ws in enumerate(worlds):
        d = tempfile.mkdtemp(prefix="ctup-"); scratch.append(d)
        pr = progs[j * per:(j + 1) * per]
        ns = sum(a["op"] == "session" for q in pr for a in q) if sessions else 0
        s = dict(body=body, ws=ws, provider=provider, seed=SEED + seed + j, timeout=200, args=(pr, d, sessions > 0))
        if provider == "TTP": s["party_hook"] = server_loop(d, ns)
        specs.append(s)
    tr = []
    try:
        for s, r in zip(specs, run_worlds(specs)):
            ev = merged(r) if any(r.recs) else [dict(op="err", err=r.error() or "nothing ran")]
            c.detail["histories"] = c.detail.get("histories", 0) + sum(1 for e in ev if e["op"] == "begin")
            cnt = c.detail.setdefault("events", {})
            for e in ev:
                q = e["op"] + ((":" + e["k"] + (":cached" if not e["gen"][0] else "")) if e["op"] == "hand" else "")
                cnt[q] = cnt.get(q, 0) + 1
            for e in ev[1:40]:
                if e["op"] == "hand": c.sample(dict(k=e["k"], key=e["key"][0], cached=not e["gen"][0])); break
            tr.append(("%s-ws%d" % (tag, s["ws"]), ev, None))
    finally:
        for d in scratch: shutil.rmtree(d, ignore_errors=True)
    c.validate(tr, "TupleTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
