"""C14: histories of graph construction and backward passes from AutogradGen.tla run on the real engine; verdict by AutogradTrace.tla."""
from _common import *


def body(pty, progs):
    import torch, crypten
    from crypten.gradients import register_function, AutogradFunction
    T = lambda v: torch.tensor(float(v[0])) if len(v) == 1 else torch.tensor([float(q) for q in v])
    def red(g, like):
        return g if g.size() == like.size() else g.sum()
    class Half(AutogradFunction):
        @staticmethod
        def forward(ctx, input, other=None):
            ctx.mark_non_differentiable(other)
            ctx.save_multiple_for_backward([input, other])
            return input.mul(other)
        @staticmethod
        def backward(ctx, g):
            x, o = ctx.saved_tensors
            return red(g.mul(o), x)
    class Muls(AutogradFunction):
        """x*y - z with the arguments given in some container"""
        @staticmethod
        def forward(ctx, input, pack=None, y=None, z=None):
            if isinstance(pack, dict): y, z = pack["y"], pack["z"]
            elif isinstance(pack, (list, tuple)): y, (z,) = pack
            ctx.save_multiple_for_backward([input, y, z])
            return input.mul(y).sub(z)
        @staticmethod
        def backward(ctx, g):
            x, y, z = ctx.saved_tensors
            return red(g.mul(y), x), red(g.mul(x), y), red(g.neg(), z)
    register_function("vhalf")(Half); register_function("vmuls")(Muls)
    def show(x):
        v = x.get_plain_text().reshape(-1)
        if not torch.isfinite(v).all() or v.abs().max() > 2 ** 30: return [2 ** 30]
        q = v.round()
        return [int(a) if a == b else 2 ** 30 + 1 for a, b in zip(q.tolist(), v.tolist())]
    for n, pr in enumerate(progs):
        pty.emit(dict(op="begin", prog="h%d" % n))
        ns, held = [], []
        def note(rec, i):
            rec.setdefault("err", "")
            with crypten.no_grad():
                rec.update(vs=[show(x) for x in ns], rq=[bool(x.requires_grad) for x in ns], gr=[[] if x.grad is None else show(x.grad) for x in ns])
            pty.emit(rec)
        for i in pr:
            o = i["op"]
            try:
                if o == "leaf":
                    ns.append(crypten.cryptensor(T(i["v"]), requires_grad=i["req"])); note(dict(op="leaf", v=i["v"], req=i["req"]), i)
                elif o in ("op", "two"):
                    f, kk, k = i["f"], [ns[q - 1] for q in i["kids"]], T(i["k"])
                    a = kk[0]
                    rec = dict(op=o, f=f, kids=i["kids"], k=i["k"], ng=i["ng"], note="%s%s%s" % (f or "max", i["kids"], " (gradients disabled)" if i["ng"] else ""))
                    def do():
                        if o == "two": return list(a.max(dim=0, one_hot=True))
                        return [{"add": lambda: a + kk[1], "sub": lambda: a - kk[1], "mul": lambda: a * kk[1], "neg": lambda: -a, "sq": lambda: a.square(), "relu": lambda: a.relu(),
                                "mulp": lambda: a * k, "addp": lambda: a + k, "rsubp": lambda: a.__rsub__(k) if k.dim() else float(k) - a, "sum": lambda: a.sum(), "stk": lambda: crypten.stack(kk).sum(0),
                                "det": lambda: a.detach(), "copy": lambda: a.clone(), "half": lambda: a.vhalf(kk[1]), "halfkw": lambda: a.vhalf(other=kk[1]),
                                "dict": lambda: a.vmuls({"y": kk[1], "z": kk[2]}), "list": lambda: a.vmuls([kk[1], (kk[2],)]), "kw": lambda: a.vmuls(z=kk[2], y=kk[1])}[f]()]
                    try:
                        if i["ng"]:
                            with crypten.no_grad(): out = do()
                        else: out = do()
                    except Exception as e:
                        pty.emit(dict(rec, err="%s: %s" % (type(e).__name__, str(e)[:120]))); break
                    ns += out
                    note(rec, i)
                else:
                    x = ns[i["i"] - 1]
                    rec = dict(op=o, i=i["i"], g=i["g"], same=True, note="node %d" % i["i"])
                    try:
                        if o == "zero": x.grad = None
                        elif o == "detach_":
                            if x.detach_() is not x: rec["err"] = "detach_ returned another tensor"
                        elif o == "reqset": x.requires_grad = True
                        elif o == "inplace": x.add_(1)
                        elif o == "backward":
                            if i["g"]:
                                rec["note"] += " g=%s" % i["g"]
                                g = crypten.cryptensor(T(i["g"])); held.append((g, i["g"]))
                                x.backward(g)
                            else:
                                x.backward()
                    except Exception as e:
                        rec["err"] = "%s: %s" % (type(e).__name__, str(e)[:120])
                    if o == "backward":      # gradients handed in, now or earlier, still have their values
                        rec["same"] = all(show(a) == b for a, b in held)
                    note(rec, i)
            except Exception as e:
                pty.emit(dict(op="op", err="%s: %s" % (type(e).__name__, str(e)[:160]), f="", kids=[], k=[0], ng=False)); break


def go(c):
    load()
    n = 120 if not c.thorough else 1500
    c.model("AutogradMC", "CONSTANT NN = %d\nSPECIFICATION Spec\nINVARIANT SameAsPaths\nCHECK_DEADLOCK FALSE\n" % (6 if c.thorough else 5), workers=2)
    ps = [tlc.start("AutogradGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\nCHECK_DEADLOCK FALSE\n" % ln, simulate=n, depth=200, seed=SEED * 7 + ln, xmx="1g") for ln in (14, 24, 40)]
    progs = []
    for p in ps:
        r = tlc.finish(p, 100)
        q = [x["prog"] for x in r.printed if "prog" in x]
        if len(q) < n: raise Machinery("AutogradGen " + r.out[-1200:])
        progs += q
    # integers are exact at any precision with one party, and at precision 0 with several (where the maximum, which needs fractional randomness, is left out)
    plain = [p for p in progs if not any(i["op"] == "two" for i in p)]
    specs = [dict(body=body, ws=1, seed=SEED, timeout=200, cfg={"encoder.precision_bits": 16 if k else 3}, args=(progs[k::6],)) for k in range(6)]
    specs.append(dict(body=body, ws=2, seed=SEED, timeout=200, cfg={"encoder.precision_bits": 0}, args=(plain[: 90 if c.thorough else 20],)))
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        ev = r.recs[0]
        if not r.ok: ev.append(dict(op="op", err=r.error() or "died", f="", kids=[], k=[0], ng=False))
        c.detail["histories"] = c.detail.get("histories", 0) + sum(1 for e in ev if e["op"] == "begin")
        c.detail["backward_passes"] = c.detail.get("backward_passes", 0) + sum(1 for e in ev if e["op"] == "backward")
        for e in ev[6:7]: c.sample({q: e.get(q) for q in ("op", "note", "vs", "gr")})
        tr.append(("w%d" % k, ev, None))
    c.validate(tr, "AutogradTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C14", go)
