"""C19: momentum SGD on private parameters; histories from OptimGen.tla, recurrence of Optim.tla, verdict by OptimTrace.tla."""
from _common import *
import math
LR = [0.0, 1, 0.5, 0.1, 0.01, 0.25, 1.5]
MOM = [0, 0.5, 0.9, 1, 0.75]
DAMP = [0, 0.1, 0.5]
WD = [0, 0.01, 0.5]


def body(pty, progs):
    import torch, crypten, random
    from crypten.optim import SGD
    ws = pty.ws
    def raw(t):
        return [limbs(int(v) << 16) for v in t.get_plain_text().double().mul(65536).round().long().reshape(-1).tolist()]
    def w32(t):
        return [limbs(int(v) << 16) for v in t.double().mul(65536).round().long().reshape(-1).tolist()]
    def enc16(x):
        return int(math.trunc(float(x) * 65536))
    def hyper(h):
        o = dict(lr=LR[h["lr"]], momentum=MOM[h["mom"]], dampening=DAMP[h["damp"]], weight_decay=WD[h["wd"]], nesterov=h["nes"])
        if o["nesterov"] and (o["momentum"] == 0 or o["dampening"]): o["nesterov"] = False
        return o
    def hw(o, th):
        return dict(lr=enc16(o["lr"]), mom=enc16(o["momentum"]), omd=enc16(1 - o["dampening"]), wd=enc16(o["weight_decay"]), nes=o["nesterov"], th=0 if th is None else enc16(th))
    for n, pr in enumerate(progs):
        rng = random.Random(pr[0]["n"])
        NP = 4
        shapes = [rng.choice([(), (3,), (2, 2), (1, 3)]) for _ in range(NP)]
        vals = [torch.tensor([rng.randint(-2 ** 17, 2 ** 17) / 65536 for _ in range(int(torch.tensor(s).prod()) if s else 1)]).reshape(s) for s in shapes]
        params = [crypten.cryptensor(v, requires_grad=True) for v in vals]
        o = hyper(pr[0]["hp"])
        th = rng.choice([None, None, None, 1.7])
        groups = [1, 1, 2, 0]
        o2 = dict(o, lr=LR[rng.randint(1, 6)])
        two = rng.random() < .5
        if not two: groups = [1, 1, 1, 0]
        if two:
            # the second group overrides the learning rate only
            opt = SGD([{"params": params[0:2]}, {"params": params[2], "lr": o2["lr"]}], grad_threshold=th, **o)
            hps = [o, o2]
        else:
            gen = (p for p in params[:3])
            opt = SGD(gen if rng.random() < .5 else params[:3], grad_threshold=th, **o)
            hps = [o]
        def snap():
            return dict(v=[raw(p) for p in params], has=[p.grad is not None for p in params], g=[raw(p.grad) if p.grad is not None else [] for p in params])
        pty.emit(dict(op="begin", prog="h%d %s" % (n, hps), ws=ws, v=[raw(p) for p in params], grp=groups, hp=[hw(q, th) for q in hps]))
        def accum(i, n):
            r = random.Random(n)
            if r.random() < .5:
                k = torch.tensor([r.randint(-2, 2) for _ in range(params[i].nelement())]).reshape(params[i].size())
                (params[i] * k).sum().backward()
                return w32(k.double())
            (params[i] + params[i]).sum().backward()
            return w32(torch.ones(tuple(params[i].size())) * 2)
        for a in pr[1:]:
            rec = dict(op=a["op"], err="", i=a["i"], note=str({k: a[k] for k in ("i", "none", "clos")}))
            i = a["i"] - 1
            try:
                if a["op"] == "accum":
                    rec["d"] = accum(i, a["n"])
                elif a["op"] == "setgrad":
                    r = random.Random(a["n"])
                    g = torch.tensor([r.randint(-2 ** 17, 2 ** 17) / 65536 for _ in range(params[i].nelement())]).reshape(tuple(params[i].size()))
                    params[i].grad = crypten.cryptensor(g)
                    rec["d"] = w32(g)
                elif a["op"] == "zero":
                    rec["none"] = a["none"]
                    if a["none"]: opt.zero_grad() if a["n"] % 2 else opt.zero_grad(set_to_none=True)
                    else: opt.zero_grad(set_to_none=False)
                elif a["op"] == "step":
                    rec["loss"] = True
                    if a["clos"]:
                        # the closure accumulates a gradient first: two events
                        box = {}
                        def closure():
                            box["d"] = accum(i, a["n"]); box["s"] = snap()
                            return 12345
                        loss = opt.step(closure)
                        pty.emit(dict(op="accum", err="", i=a["i"], d=box["d"], note="in closure", **box["s"]))
                        rec["loss"] = loss == 12345
                    else:
                        r = opt.step(); rec["loss"] = r is None
                elif a["op"] == "sethp":
                    k = a["n"] % len(opt.param_groups)
                    nh = hyper(a["hp"])
                    for q, v in nh.items(): opt.param_groups[k][q] = v
                    rec.update(k=k + 1, hp=hw(nh, th))
                elif a["op"] == "addgroup":
                    nh = hyper(a["hp"])
                    opt.add_param_group(dict(params=params[3] if a["none"] else [params[3]], **nh))
                    rec.update(i=4, hp=hw(nh, th))
                elif a["op"] == "invalid":
                    bad = [dict(lr=-0.1), dict(lr=0.1, momentum=-1), dict(lr=.1, weight_decay=-.5), dict(lr=.1, nesterov=True), dict(lr=.1, nesterov=True, momentum=.9, dampening=.1), dict(lr="x"), dict(lr=.1, momentum=None)][a["n"] % 7]
                    rec["refused"] = False
                    try: SGD(params, **bad)
                    except ValueError: rec["refused"] = True
                    rec["note"] = str(bad)
                rec.update(snap())
            except Exception as e:
                rec["err"] = "%s %s" % (type(e).__name__, str(e)[:150])
            pty.emit(rec)
            if rec["err"]: raise RuntimeError("world stopped after " + rec["err"])


def go(c):
    load()
    n = 300 if c.thorough else 64
    p = tlc.start("OptimGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = 18\nNP = 4\nCHECK_DEADLOCK FALSE\n", simulate=n, depth=40, seed=SEED, xmx="1g")
    r = tlc.finish(p, 100)
    progs = [x["prog"] for x in r.printed if "prog" in x]
    if len(progs) < n // 2: raise Machinery("OptimGen " + r.out[-1500:])
    k = len(progs) // 4
    specs = [dict(body=body, ws=ws, seed=SEED, timeout=240, args=(progs[j * k:(j + 1) * k],)) for j, ws in enumerate([1, 2, 3, 2])]
    tr = []
    for s, r in zip(specs, run_worlds(specs)):
        recs = r.recs
        ev = list(recs[0])
        for q in recs[1:]:                      # every party sees the same revealed values
            for a, b in zip(ev, q):
                if a.get("v") != b.get("v") or a.get("g") != b.get("g"): a["err"] = "parties see different values"; break
        if not r.ok and not (ev and ev[-1].get("err")): ev.append(dict(op="step", err=r.error() or "died"))
        c.detail["histories"] = c.detail.get("histories", 0) + sum(1 for e in ev if e["op"] == "begin")
        for e in ev[1:2]: c.sample({q: e.get(q) for q in ("op", "i", "d")})
        tr.append(("ws%d" % s["ws"], ev, None))
    c.validate(tr, "OptimTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C19", go)
