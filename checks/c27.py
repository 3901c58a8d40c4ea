"""C27: sampling laws of Sampling.tla, model-checked over small grids (SamplingMC) and checked on recorded samples (SamplingTrace), with
the real draws and with draws that sweep the whole grid or sit at its ends."""
from _common import *

OPS = ["rand", "bern", "bern", "drop", "drop", "drop", "fdrop", "fdrop", "sel", "sel", "sel", "selall", "max", "randn"]


def body(pty, jobs):
    import torch, crypten, random
    import crypten.nn as cnn
    from crypten.config import cfg
    from crypten.mpc import MPCTensor
    real = MPCTensor.rand
    st = dict(mode=None, used=0)
    def fake(*sizes, device=None):
        y = real(*sizes, device=device)
        if st["mode"] is None: return y
        n = y.nelement()
        d = torch.tensor([st["mode"][(st["used"] + j) % len(st["mode"])] for j in range(n)], dtype=torch.float64).reshape(tuple(y.size()))
        st["used"] += n
        return crypten.cryptensor((d / y.encoder.scale).float(), device=device)
    MPCTensor.rand = staticmethod(fake)
    def raw(t):
        t = t if isinstance(t, MPCTensor) else t.data
        return t._tensor.reveal()
    def ints(t): return [int(q) for q in t.reshape(-1).tolist()]
    for job in jobs:
        R = random.Random(job["seed"]); torch.manual_seed(job["seed"])
        op, p, rg = job["op"], job["p"], R.random() < .3
        S = 1 << p
        mode = job["mode"]
        perm = list(range(S)) if S <= 512 else []
        R.shuffle(perm)
        draws = None if mode == "real" else perm if mode == "sweep" else [R.choice([0, 1, S - 1, S - 1, S - 2, S // 2, R.randrange(S)]) for _ in range(64)]
        if mode == "sweep" and not perm: draws, mode = None, "real"
        st["mode"], st["used"] = draws, 0
        rec = dict(op={"fdrop": "drop", "selall": "sel"}.get(op, op), ws=pty.ws, p=p, S=S, err="", shapeok=True, sweep=False, law=False, note="")
        exc = None
        try:
            with cfg.temp_override({"encoder.precision_bits": p}):
                if op in ("rand", "randn"):
                    st["mode"] = None
                    shape = R.choice([[R.randint(1, 5)], [2, 3], [600], [20, 30], [1, 7, 90], []] if op == "rand" else [[1], [3], [2, 3], [5, 5], [300], [301], [10, 31]])
                    form = R.randrange(3) if shape else 1
                    sz = tuple(shape) if form == 0 else (tuple(shape),) if form == 1 else (torch.Size(shape),)
                    f = getattr(R.choice([crypten, MPCTensor]), op)
                    y, y2 = f(*sz), f(*sz)
                    rec.update(shapeok=list(y.size()) == shape and list(y.get_plain_text().shape) == shape and y.encoder.scale == S, y=ints(raw(y)), y2=ints(raw(y2)), n=y.nelement(), note="%s%s" % (op, shape))
                elif op == "bern":
                    k = R.randint(1, 3); n = S if mode == "sweep" else R.choice([1, 3, 200])
                    a = [R.choice([0, 16, R.randint(0, 16), R.randint(1, 15)]) for _ in range(k)]
                    if mode == "ends": P = [R.choice([0, S, 1, S - 1]) for _ in a]
                    elif mode == "sweep": P = [R.choice([0, S, 1, S - 1, R.randint(0, S)]) for _ in a]
                    else: P = [v * S // 16 for v in a]
                    x = crypten.cryptensor((torch.tensor(P).double() / S).float().unsqueeze(1).repeat(1, n), requires_grad=rg)
                    y = x.bernoulli()
                    rec.update(shapeok=list(y.size()) == [k, n] and bool(torch.equal(raw(x).cpu(), torch.tensor(P).unsqueeze(1).repeat(1, n))),
                               rows=[dict(P=P[i], a=a[i], y=ints(raw(y)[i])) for i in range(k)], one=int(y.encoder.scale), note="bernoulli %s n=%d" % (P, n))
                    if mode == "ends":
                        for q in rec["rows"]: q["y"] = q["y"][:50]
                elif op in ("drop", "fdrop"):
                    a = R.choice([0, 16, 4, 8, 12, 13, 14, 15, R.randint(1, 15), R.randint(1, 15)])
                    if op == "fdrop":
                        shape = R.choice([[2, 3], [2, 3, 2], [3, 2, 2, 2], [1, 2, 1, 3, 2], [15, 20, 2]])
                        mode = "real"
                    elif mode == "sweep" and not rg: shape = R.choice([[S], [S // 4, 4], [1, S // 2, 2]])
                    else: shape = R.choice([[1], [2, 3], [2, 2, 3], [], [15, 20], [15, 20], [40]])
                    n = 1
                    for q in shape: n *= q
                    q8 = 8 if p >= 4 else 1
                    v = torch.tensor([R.choice([-1, 1]) * R.randint(q8, 4 * q8) / q8 for _ in range(n)]).reshape(shape)
                    training = R.random() < .8; inplace = R.random() < .25 and not rg
                    how = R.choice(["method", "method", "module"])
                    pr = a / 16 if R.random() < .7 or a not in (0, 16) else a // 16
                    x = crypten.cryptensor(v, requires_grad=rg)
                    x0 = ints(raw(x))
                    # gradients need a recorded product; without, in-place updates are visible at x
                    if how == "module":
                        inplace = False
                        m = (cnn.Dropout if op == "drop" else R.choice([cnn.DropoutNd, cnn.Dropout2d, cnn.Dropout3d]))(pr).encrypt()
                        m.train() if training else m.eval()
                        y = m(x)
                    else:
                        kw = dict(training=training) if not training or R.random() < .5 else {}
                        if inplace: kw["inplace"] = True
                        y = getattr(x, "dropout" if op == "drop" else "_feature_dropout")(pr, **kw)
                    g = []
                    if rg:
                        y.sum().backward(); g = ints(raw(x.grad))
                    per = 1
                    if op == "fdrop":
                        for q in shape[2:]: per *= q
                    rec.update(shapeok=list(y.size()) == shape, x=x0, y=ints(raw(y)), self=ints(raw(x)), g=g, a=a, training=training, inplace=inplace and training,
                               groups=[list(range(i + 1, i + per + 1)) for i in range(0, n, per)], note="%s %s p=%s %s%s%s %s" % (op, shape, pr, "train" if training else "eval", " in place" if inplace else "", " grad" if rg else "", how))
                elif op == "sel":
                    k = R.randint(1, 3); n = R.randint(1, 5); rep = S if mode == "sweep" else R.choice([1, 5, 200])
                    if mode == "ends": rep = R.randint(1, 8)
                    W = []
                    for _ in range(k):
                        while True:
                            w = [R.choice([0, 1, R.randint(0, 6), R.randint(1, 8)]) for _ in range(n)]
                            if 0 < sum(w) <= 24: break
                        W.append(w)
                    unit = 1 if mode != "real" and R.random() < .5 else R.choice([1, S // 4, S]) if S >= 4 else 1
                    if mode == "ends": unit = R.choice([1, unit, 3 * S // 2 + 1])
                    t = torch.tensor(W).unsqueeze(2).repeat(1, 1, rep)           # [k, n, rep]
                    lay = R.randrange(3)
                    t, dim = (t, 1) if lay == 0 else (t.permute(1, 0, 2), 0) if lay == 1 else (t.permute(0, 2, 1), 2)
                    back = (lambda z: z.permute(0, 2, 1)) if lay == 0 else (lambda z: z.permute(1, 2, 0)) if lay == 1 else (lambda z: z)
                    x = crypten.cryptensor((t.double() * unit / S).float(), requires_grad=rg)
                    sample = R.random() < .4
                    d = dim if R.random() < .5 else dim - 3
                    if sample: s, y = x.weighted_sample(d)
                    else: s, y = None, x.weighted_index(d)
                    ok = list(y.size()) == list(t.shape)
                    yy = back(raw(y)).tolist() if ok else []
                    if sample and ok:
                        sh = list(t.shape); del sh[dim]
                        ok = list(s.size()) == sh
                        if ok:
                            ss = back(raw(s).unsqueeze(dim)).squeeze(2).tolist()
                            if int(s.encoder.scale) != S: ss = [[q * S // int(s.encoder.scale) for q in r_] for r_ in ss]
                    rec.update(shapeok=ok, one=int(y.encoder.scale), sample=sample, unit=unit, note="weighted_%s %s dim=%d unit=%d weights %s" % ("sample" if sample else "index", list(t.shape), d, unit, W),
                               rows=[dict(w=W[i], y=yy[i], **(dict(s=ss[i]) if sample else {})) for i in range(k)] if ok else [])
                elif op == "selall":
                    shape = R.choice([[1], [3], [2, 2], [2, 1, 2], [4]])
                    n = 1
                    for q in shape: n *= q
                    while True:
                        w = [R.choice([0, 1, R.randint(0, 6)]) for _ in range(n)]
                        if sum(w): break
                    x = crypten.cryptensor((torch.tensor(w).double().reshape(shape) * R.choice([1, S // 2]) / S).float(), requires_grad=rg)
                    ys = []
                    for _ in range(S if mode == "sweep" and S <= 16 else 4):
                        y = x.weighted_index() if R.random() < .5 else x.weighted_sample()[1]
                        rec["shapeok"] &= list(y.size()) == shape
                        ys.append(ints(raw(y)))
                    if S > 16: mode = "ends"
                    rec.update(one=int(y.encoder.scale), sample=False, rows=[dict(w=w, y=ys)], note="weighted_index() %s weights %s" % (shape, w))
                else:
                    if mode == "sweep": st["mode"] = [0, S - 1, S - 1, 1]
                    mode = "ends"
                    k, n = R.randint(1, 4), R.randint(1, 4)
                    W = [[R.randint(-2, 1) for _ in range(n)] for _ in range(k)]
                    t = torch.tensor(W); dim = 1
                    if R.random() < .5: t, dim = t.t(), 0
                    f, mm = R.choice(["argmax", "argmin", "max", "min"]), R.choice(["log_reduction", "pairwise", "double_log_reduction", "accelerated_cascade"])
                    with cfg.temp_override({"functions.max_method": mm}):
                        x = crypten.cryptensor(t.float())
                        y = getattr(x, f)(dim) if f.startswith("arg") else getattr(x, f)(dim, one_hot=True)[1]
                    yy = raw(y); yy = yy.t() if dim == 0 else yy
                    sg = -1 if f.endswith("min") else 1
                    rec.update(shapeok=list(y.size()) == list(t.shape), one=int(y.encoder.scale), rows=[dict(w=[sg * q for q in W[i]], y=[ints(yy[i])]) for i in range(k)], note="%s %s %s dim=%d" % (f, mm, W, dim))
                rec["sweep"] = mode == "sweep" and bool(st["used"]); rec["law"] = mode == "real" or not st["used"]
                rec["note"] += " bits=%d %s" % (p, mode)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rec.update(err="%s: %s @%s:%d" % (type(e).__name__, str(e)[:120], tb.filename.split("/")[-1], tb.lineno), note="%s %s %s" % (op, e, tb.filename.split("/")[-1]))
        pty.emit(rec)
        if rec["err"] and pty.ws > 1: return


def go(c):
    load()
    rng = c.rng
    c.model("SamplingMC", "SPECIFICATION Spec\nINVARIANTS ExactlyOne Bernoulli Law\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d W = %d S = %d\n" % ((3, 3, 8) if not c.thorough else (4, 4, 16)), workers=2)
    n = 450 if not c.thorough else 8000
    jobs = []
    for i in range(n):
        op = OPS[i % len(OPS)]
        mode = rng.choice(["real", "sweep", "sweep", "ends"])
        jobs.append(dict(op=op, mode=mode, p=16 if op == "randn" else rng.choice([4, 6, 6, 7, 8]) if mode == "sweep" else rng.choice([16, 16, 16, 12, 14, 18]), seed=rng.randrange(10 ** 9)))
    rng.shuffle(jobs)
    ws = [1, 1, 2, 2, 3, 3, 4]
    specs = [dict(body=body, ws=w, seed=SEED + 31 * k, timeout=800, args=(jobs[k::len(ws)],)) for k, w in enumerate(ws)]
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        ev = r.recs[0]
        if not r.ok: ev.append(dict(op="rand", note="", err=r.error() or "died", shapeok=True))
        for e in ev:
            q = c.detail.setdefault("kinds", {}); q[e["op"]] = q.get(e["op"], 0) + 1
        for e in ev[1:2]: c.sample({z: e.get(z) for z in ("note", "op", "y")})
        tr.append(("w%d" % k, ev, r.spec))
    c.validate(tr, "SamplingTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n", procs=7)


main("C27", go)
