"""C22: the shared random streams stay in step; histories from RngGen.tla, verdict by RngTrace.tla."""
from _common import *
import hashlib


def body(pty, progs):
    import torch, crypten, crypten.communicator as comm
    from crypten.config import cfg
    from crypten.mpc.primitives import ArithmeticSharedTensor as AST, BinarySharedTensor as BST
    ws, me = pty.ws, pty.rank
    cpu = torch.device("cpu")
    def h(g):
        return hashlib.sha1(g.get_state().numpy().tobytes()).hexdigest()[:16]
    def fp():
        return {k: h(crypten.generators[k][cpu]) for k in ("prev", "next", "local", "global")}
    def seeded(s):
        g = torch.Generator(); g.manual_seed(s); return h(g)
    def dig(objs):
        m = hashlib.sha1()
        for o in objs:
            t = o
            while hasattr(t, "_tensor") and not torch.is_tensor(t): t = t._tensor
            t = getattr(t, "share", t)
            m.update(t.contiguous().numpy().tobytes())
        return m.hexdigest()[:16]
    pty.emit(dict(op="begin", prog="init", ws=ws))
    pty.emit(dict(op="init", ws=ws, err="", fp=fp()))
    def draw(i, keep):
        """one operation that draws randomness"""
        s, o = tuple(i["s"]), i["op"]
        if o == "przs":
            x = (AST if i["k"] == "A" else BST).PRZS(s)
            keep.append(x)
            return dict(op="przs", k=i["k"], sh=words(x.share))
        if o == "enc":
            v = torch.ones(s) * i["n"]
            if i["low"]:
                x = AST(v if me == i["src"] else None, src=i["src"], broadcast_size=True) if i["k"] == "A" else BST(v.long() if me == i["src"] else None, src=i["src"], broadcast_size=True)
            else:
                x = crypten.cryptensor(v, src=i["src"]) if i["k"] == "A" else BST(v.long(), src=i["src"])
            keep.append(x)
        elif o == "mul":
            x = crypten.cryptensor(torch.ones(s)); keep.append(x * x)
        elif o == "cmp":
            x = crypten.cryptensor(torch.ones(s)); keep.append(x > 0.5)
        elif o == "div":
            x = crypten.cryptensor(torch.ones(s)); keep.append(x / 3)
        elif o == "reveal":
            x = crypten.cryptensor(torch.ones(s))
            x.get_plain_text() if i["low"] else x.get_plain_text(dst=i["src"])
        elif o == "dropout":
            x = crypten.cryptensor(torch.ones(max(1, i["n"] % 7), 2), requires_grad=bool(i["low"]))
            keep.append(x.dropout(p=.5)); keep.append(x.unsqueeze(-1).unsqueeze(-1)._feature_dropout(p=.5))
        elif o == "rand":
            keep.append(crypten.rand(s)); keep.append(crypten.bernoulli(torch.ones(s) * .5))
        elif o == "bits":
            x = crypten.cryptensor(torch.ones(s)); keep.append(x.to(crypten.mpc.binary))
        return dict(op="other")
    for n, pr in enumerate(progs):
        pty.emit(dict(op="begin", prog="h%d" % n, ws=ws))
        since = []           # instructions since the last seeding
        seeds = None
        keep = []
        for i in pr:
            rec = dict(op="other", ws=ws, err="", note=str(i))
            try:
                if i["op"] == "seed":
                    base = i["n"] if not i["low"] else -(1 << 40) + i["n"]
                    seeds = (base * 10 + me, base * 1000 + 7 * me + 5, base * 100000 + me + 3)
                    with cfg.temp_override({"debug.debug_mode": True}):
                        crypten.manual_seed(*seeds)
                    all_ = [(base * 10 + p, base * 1000 + 7 * p + 5, base * 100000 + 3) for p in range(ws)]
                    rec.update(op="seed", want={"prev": seeded(all_[(me - 1) % ws][0]), "next": seeded(all_[me][0]), "local": seeded(all_[me][1]), "global": seeded(all_[0][2])})
                    since, keep = [], []
                elif i["op"] == "refuse":
                    ok = False
                    try:
                        crypten.manual_seed(1, 2, 3)
                    except ValueError:
                        ok = True
                    rec.update(op="refuse", refused=ok)
                elif i["op"] == "repro":
                    if seeds is None:
                        continue
                    d1 = dig(keep)
                    with cfg.temp_override({"debug.debug_mode": True}):
                        crypten.manual_seed(*seeds)
                    k2 = []
                    for j in since: draw(j, k2)
                    rec.update(op="repro", d1=d1, d2=dig(k2))
                    rec["fp"] = fp()
                    pty.emit(rec)
                    rec = dict(op="other", ws=ws, err="", note="after repro")
                else:
                    rec.update(draw(i, keep)); since.append(i)
                rec["fp"] = fp()
            except Exception as e:
                rec.update(op=rec["op"], err="%s %s" % (type(e).__name__, str(e)[:150]), fp={})
            pty.emit(rec)
            if rec["err"]: raise RuntimeError("world stopped after " + rec["err"])


def merge(res):
    out = []
    for k in range(max(len(r) for r in res.recs)):
        parts = [r[k] for r in res.recs if k < len(r)]
        if len(parts) < res.ws: break
        e = dict(parts[0])
        if any(p["op"] != e["op"] for p in parts):
            out.append(dict(op="other", ws=res.ws, err="parties diverged")); return out
        for f in ("fp", "sh", "want", "d1", "d2"):
            if f in e: e[f] = [p[f] for p in parts]
        if e["op"] == "refuse": e["refused"] = all(p["refused"] for p in parts)
        errs = [p["err"] for p in parts if p.get("err")]
        if errs: e["err"] = errs[0]
        out.append(e)
    if not res.ok and not (out and out[-1].get("err")):
        out.append(dict(op="other", ws=res.ws, err=res.error() or "died"))
    return out


def go(c):
    load()
    ops = ["przs", "przs", "przs", "enc", "mul", "cmp", "div", "reveal", "dropout", "rand", "bits", "seed", "refuse", "repro"]
    wss = [1, 2, 3, 4, 5, 7]
    n = 30 if c.thorough else 6
    gens = [(ws, tlc.start("RngGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS WS = %d\nLen_ = 25\nOps = {%s}\nCHECK_DEADLOCK FALSE\n" % (ws, ",".join('"%s"' % o for o in ops)), simulate=n, depth=30, seed=SEED * 10 + ws, xmx="1g")) for ws in wss]
    specs = []
    for ws, p in gens:
        r = tlc.finish(p, 100)
        ps = [x["prog"] for x in r.printed if "prog" in x]
        if len(ps) < n: raise Machinery("RngGen " + r.out[-1000:])
        specs.append(dict(body=body, ws=ws, seed=SEED, timeout=120, patch_urandom=False, args=(ps,)))
    # several independent initialisations: streams of distinct sessions must not coincide
    res = run_worlds(specs)
    tr = []
    for s, r in zip(specs, res):
        ev = merge(r)
        c.detail["operations"] = c.detail.get("operations", 0) + len(ev)
        for e in ev[1:2]: c.sample(dict(op=e["op"], ws=e["ws"], fp=e.get("fp")))
        tr.append(("ws%d" % s["ws"], ev, None))
    c.validate(tr, "RngTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C22", go)
