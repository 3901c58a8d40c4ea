"""C08: comparisons, extrema, selections and max-pooling -- judged exactly by VM.tla."""
from _gen import *
from _ops import fixed, BCAST

METHODS = ["log_reduction", "double_log_reduction", "pairwise", "accelerated_cascade"]


def few(rng, torch, shape, p, vals):
    """tensor with many ties: values from a small set"""
    n = 1
    for d in shape:
        n *= d
    return torch.tensor([rng.choice(vals) for _ in range(n)], dtype=torch.float32 if p else torch.long).reshape(tuple(shape))


def valset(rng, p):
    if p == 0:
        return rng.choice([[0, 1], [-1, 0, 1], [5], [-(1 << 61), 1 << 61, 0, 7], list(range(-9, 10)), [-(1 << 40), -(1 << 40) + 1]])
    u = 2.0 ** -p
    return rng.choice([[0.0, u, -u], [1.0, 1.0 + u], [-3.5], [-2.0, -1.0, 0.5, 4.25], [x / 4 for x in range(-40, 41)], [100.0, -100.0, 100.0 - u]])


def cmp_prog(name, rng, torch):
    p = rng.choice([16, 16, 0, 8, 20])
    sa, sb = rng.choice(BCAST)
    vs = valset(rng, p)
    st = []
    mk = lambda s, q=p: few(rng, torch, s, q, vs if q == p else valset(rng, q))
    st.append(enc("a", mk(sa), rng.randrange(5), p))
    st.append(enc("b", mk(sb), rng.randrange(5), p))
    alias = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}
    for k, o in enumerate(rng.sample(["lt", "le", "gt", "ge", "eq", "ne"], 4)):
        form = rng.choice(["op", "m"])
        f = alias[o] if form == "op" else (lambda x, y, o=o: getattr(x, o)(y))
        c = rng.random()
        if c < .5:
            st.append(Step(o, "c%d" % k, lambda e, f=f: f(e["a"], e["b"]), a="a", bv="b"))
        elif c < .6:
            # mixed precision
            q = rng.choice([x for x in (0, 8, 16, 20) if x != p])
            st.append(enc("m%d" % k, mk(sb, q), rng.randrange(5), q))
            st.append(Step(o, "c%d" % k, lambda e, f=f, v="m%d" % k: f(e["a"], e[v]), a="a", bv="m%d" % k))
        elif c < .8:
            y = rng.choice(vs)
            y = int(y) if p == 0 else float(y)
            st.append(Step(o, "c%d" % k, lambda e, f=f, y=y: f(e["a"], y), a="a", bp=pub(y), note="scalar"))
        else:
            y = mk(sb)
            st.append(Step(o, "c%d" % k, lambda e, f=f, y=y: f(e["a"], y), a="a", bp=pub(y), note="public"))
    for o in rng.sample(["sign", "abs", "relu"], 2):
        st.append(Step(o, o, lambda e, o=o: getattr(e["a"], o)(), a="a"))
    if p and rng.random() < .6:
        lo, hi = sorted(rng.sample([-2.0, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0], 2))
        dflt = rng.random() < .3
        if dflt:
            lo, hi = -1.0, 1.0
        st.append(Step("hardtanh", "h", (lambda e: e["a"].hardtanh()) if dflt else (lambda e, lo=lo, hi=hi: e["a"].hardtanh(lo, hi)), a="a", par=dict(lo=pub(lo), hi=pub(hi)), note="%s %s" % (lo, hi)))
    return Prog(name, st, grad=rng.random() < .3)


def where_prog(name, rng, torch):
    import crypten
    p = rng.choice([16, 16, 16, 8, 0])
    sa, sb = rng.choice(BCAST)
    vs = valset(rng, p)
    if p == 0:
        vs = [v for v in vs if abs(v) < 1 << 40] or [3]
    st = [enc("a", few(rng, torch, sa, p, vs), rng.randrange(5), p), enc("b", few(rng, torch, sb, p, vs), rng.randrange(5), p)]
    top = rng.random() < .5
    sc = rng.choice([sa, sb])
    mask = few(rng, torch, sc, 0, [0, 1])
    kind = rng.choice(["priv0", "priv0", "priv0", "priv16", "pub", "cmp"] if p else ["priv0", "cmp"])
    par = dict(cv="", cp={"s": [], "w": [[0, 0, 0, 0]]}, app=False)
    if kind == "priv0":
        st.append(enc("c", mask, rng.randrange(5), 0))
        par["cv"] = "c"
    elif kind == "priv16":
        st.append(enc("c", mask.float(), rng.randrange(5), 16))
        par.update(cv="c", app=True)
    elif kind == "cmp":
        st.append(Step("ge", "c", lambda e: e["a"] >= e["b"], a="a", bv="b"))
        par["cv"] = "c"
    else:
        cb = mask.bool()
        par.update(cp=pub(mask), app=True)
    ypub = rng.random() < .35 and p in (0, 16)
    y = few(rng, torch, sb, p, vs)
    if p == 0 and ypub and kind != "pub":
        # integer selection: public integers go through exact products
        pass
    def run(e):
        c = e["c"] if kind != "pub" else cb
        other = y if ypub else e["b"]
        if kind == "priv16" and p == 8:
            pass
        return crypten.where(c, e["a"], other) if top else e["a"].where(c, other)
    if kind == "priv16" and p != 16:
        return where_prog(name, rng, torch)
    st.append(Step("where", "r", run, a="a", bv="" if ypub else "b", bp=pub(y) if ypub else None, par=par, note="%s top=%s ypub=%s" % (kind, top, ypub)))
    return Prog(name, st, grad=rng.random() < .3)


def ext_prog(name, rng, torch, method, n=None):
    p = rng.choice([16, 16, 0, 20])
    nd = rng.choice([0, 1, 1, 2, 2, 3])
    shape = [rng.choice([1, 2, 3, 4]) for _ in range(nd)]
    dim = rng.choice([None] + list(range(-nd, nd))) if nd else None
    if nd:
        L = n or rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17])
        for i in range(nd):
            shape[i] = min(shape[i], 2)
        if dim is not None:
            shape[dim] = L
        elif nd == 1:
            shape[0] = L
    vs = valset(rng, p)
    st = [enc("a", few(rng, torch, shape, p, vs), rng.randrange(5), p)]
    if n:     # long rows of distinct values, where the runners-up matter
        dim, shape = rng.choice([(0, [n]), (None, [n]), (1, [1, n]), (-1, [1, n])])
        if rng.random() < .3 and n > 130: dim, shape = None, [2, n // 2]
        k = 1
        for q in shape: k *= q
        st = [enc("a", torch.tensor(rng.sample(range(-k, k), k), dtype=torch.float32 if p else torch.long).reshape(tuple(shape)), rng.randrange(5), p)]
    keep = rng.random() < .5
    oh = rng.random() < .6
    dims = [] if dim is None else [dim]
    for mx in (True, False):
        o = "max" if mx else "min"
        if rng.random() < .5:
            hold = {}
            def run(e, hold=hold, o=o):
                kw = dict(one_hot=oh)
                if dim is not None:
                    kw.update(dim=dim, keepdim=keep)
                r = getattr(e["a"], o)(**kw)
                if dim is None:
                    return r
                hold["i"] = r[1]
                return r[0]
            st.append(Step(o, "v" + o, run, a="a", par=dict(dims=dims, keep=keep), note="%s dim=%s keep=%s %s" % (shape, dim, keep, method)))
            if dim is not None:
                st.append(Step("arg", "i" + o, lambda e, hold=hold: hold["i"], a="a", par=dict(dims=dims, keep=keep, onehot=oh, max=mx), note="index of %s %s dim=%s keep=%s %s" % (o, shape, dim, keep, method)))
        else:
            def run(e, o=o):
                kw = dict(one_hot=oh)
                if dim is not None:
                    kw.update(dim=dim, keepdim=keep)
                return getattr(e["a"], "arg" + o)(**kw)
            st.append(Step("arg", "i" + o, run, a="a", par=dict(dims=dims, keep=keep and dim is not None, onehot=oh, max=mx), note="arg%s %s dim=%s keep=%s %s" % (o, shape, dim, keep, method)))
    return Prog(name, st, grad=rng.random() < .3, cfg={"functions.max_method": method})


def pool_prog(name, rng, torch, method):
    p = 16
    while True:
        shape = [rng.choice([1, 2]), rng.choice([1, 2]), rng.randint(2, 5), rng.randint(2, 5)]
        k = [rng.randint(1, 3), rng.randint(1, 3)]
        stv = [rng.randint(1, 3), rng.randint(1, 3)]
        pd = [rng.randint(0, k[0] // 2), rng.randint(0, k[1] // 2)]
        dl = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
        ceil = rng.random() < .3
        if rng.random() < .4:
            shape = shape[1:]
        if any(shape[-2 + i] + 2 * pd[i] < dl[i] * (k[i] - 1) + 1 for i in range(2)):
            continue
        try:
            z = torch.nn.functional.max_pool2d(torch.zeros(shape), k, stride=stv, padding=pd, dilation=dl, ceil_mode=ceil)
            if bool(torch.isinf(z).any()) or z.numel() > 60 or z.numel() * k[0] * k[1] > 250:
                continue
        except RuntimeError:
            continue
        break
    adapt = rng.random() < .35
    vals = valset(rng, p)
    st = [enc("a", few(rng, torch, shape, p, vals), rng.randrange(5), p)]
    if adapt:
        out = [rng.randint(1, 6), rng.randint(1, 6)]
        form = rng.choice(["t", "t", "i", "n0", "n1", "none"])
        if form == "i":
            out = [out[0], out[0]]; arg = out[0]
        elif form == "n0":
            arg = (None, out[1]); out[0] = shape[-2]
        elif form == "n1":
            arg = (out[0], None); out[1] = shape[-1]
        elif form == "none":
            arg = None; out = shape[-2:]
        else:
            arg = tuple(out)
        rs = shape[:-2] + out
        st.append(Step("admax", "m", lambda e: e["a"].adaptive_max_pool2d(arg), a="a", par=dict(rs=rs), note="adaptive_max %s %s" % (shape, arg)))
        st.append(Step("adavg", "v", lambda e: e["a"].adaptive_avg_pool2d(arg), a="a", par=dict(rs=rs), note="adaptive_avg %s %s" % (shape, arg)))
    else:
        f = lambda v: v[0] if v[0] == v[1] and rng.random() < .5 else tuple(v)
        kw = dict(kernel_size=f(k), stride=f(stv), padding=f(pd), dilation=f(dl), ceil_mode=ceil)
        if stv == k and rng.random() < .5:
            kw["stride"] = None
        ri = rng.random() < .3
        def run(e):
            r = e["a"].max_pool2d(**kw, return_indices=ri) if ri else e["a"].max_pool2d(**kw)
            return r[0] if ri else r
        st.append(Step("maxpool", "m", run, a="a", par=dict(k=k, st=stv, pd=pd, dl=dl, ceil=ceil, rs=[0]), note="max_pool2d %s %s %s" % (shape, kw, method)))
    return Prog(name, st, grad=rng.random() < .3, cfg={"functions.max_method": method})


def run(c):
    torch = load()
    confs = [(1, "TFP", {}), (2, "TFP", {}), (3, "TFP", {}), (4, "TFP", {}), (2, "TTP", {}), (3, "TFP", {"mpc.protocol": "replicated"})]
    if c.thorough:
        confs += [(5, "TFP", {}), (3, "TTP", {}), (2, "TFP", {"mpc.active_security": True})]
    N = 4 if c.thorough else 1
    worlds = {}
    for ws, prov, cf in confs:
        lab = "ws%d-%s%s" % (ws, prov, "-" + ",".join("%s" % v for v in cf.values()) if cf else "")
        ps = []
        for i in range(14 * N):
            ps.append(cmp_prog("cmp%d" % i, c.rng, torch))
        for i in range(10 * N):
            ps.append(where_prog("where%d" % i, c.rng, torch))
        for i in range((4 if ws == 1 else 1 if ws == 2 and prov == "TFP" else 0) * N):
            ps.append(ext_prog("long-%d" % i, c.rng, torch, "pairwise", n=c.rng.choice([128, 129, 130, 131, 132, 140])))
        for m in METHODS:
            for i in range(7 * N):
                ps.append(ext_prog("ext-%s-%d" % (m, i), c.rng, torch, m))
            for i in range((3 if ws < 4 else 1) * N):
                ps.append(pool_prog("pool-%s-%d" % (m, i), c.rng, torch, m))
        worlds[lab] = dict(ws=ws, provider=prov, cfg=cf, seed=SEED * 17 + ws, progs=ps)
    vm_check(c, worlds, timeout=600 if c.thorough else 400)


main("C08", run)
