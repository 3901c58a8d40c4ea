"""C05: public division, means, rescaling, wrap counts (real code judged by VM.tla); count_wraps on boundary words."""
from _ops import *
import itertools


def mk(c, torch, name, kind, ws, low):
    rng = c.rng
    p = rng.choice([16, 16, 16, 0, 8, 20])
    mag = rng.choice([2, 5, 8]) if p else rng.choice([5, 12, 20])
    sh = rng.choice([(4,), (2, 3), (), (3, 1)])
    x = fixed(rng, torch, sh, p, mag)
    st = [enc("x", x, rng.randint(0, 4), p, low=low)]
    if kind in ("divi", "divi_"):
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 65536, 65537, 12345]) * rng.choice([1, 1, 1, -1])
        y = float(n) if rng.random() < .3 else n
        par = dict(n=n, pow2=n & (n - 1) == 0 if n > 0 else False)
        if kind == "divi":
            f = rng.choice([lambda e: e["x"] / y, lambda e: e["x"].div(y)])
            st.append(Step(kind, "z", f, a="x", par=par, note=str(y)))
        else:
            st.append(Step(kind, "x", lambda e: e["x"].div_(y), a="x", par=par, inplace=True, note=str(y)))
    elif kind == "divt":
        sb = rng.choice([sh, (), (1,), sh[-1:] if sh else (2,)])
        n = 1
        for d in sb: n *= d
        y = torch.tensor([rng.choice([1, 2, 3, 5, 10, 64, 1000]) * rng.choice([1, 1, -1]) for _ in range(n)]).reshape(sb)
        yy = y.float() if rng.random() < .3 else y
        st.append(Step(kind, "z", lambda e: e["x"].div(yy), a="x", bp=pub(y)))
    elif kind == "divf":
        sb = rng.choice([sh, (), (1,)])
        n = 1
        for d in sb: n *= d
        if p == 0:
            p = 16; x = fixed(rng, torch, sh, 16, 5); st = [enc("x", x, 0, 16, low=low)]
        vals = [rng.choice([0.25, 0.5, 1.5, 2.5, 3.75, 0.75, 10.25, 63.5, 1.0625]) * rng.choice([1, -1]) for _ in range(n)]
        vals[0] = rng.choice([1.5, -0.5, 2.25, 0.625])
        y = torch.tensor(vals).reshape(sb)
        if sb == () and rng.random() < .6:
            v = vals[0]
            st.append(Step(kind, "z", rng.choice([lambda e, v=v: e["x"] / v, lambda e, v=v: e["x"].div(v)]), a="x", bp=pub(v)))
        else:
            st.append(Step(kind, "z", lambda e: e["x"].div(y), a="x", bp=pub(y)))
    elif kind == "mean":
        sh = rng.choice([(4,), (2, 3), (3, 1), (2, 3, 2), (5,)])
        x = fixed(rng, torch, sh, p, mag)
        st = [enc("x", x, rng.randint(0, 4), p, low=low)]
        d = rng.choice([[]] + [[i] for i in range(-len(sh), len(sh))] + ([[0, 1]] if len(sh) > 1 else []))
        k = rng.random() < .5 and bool(d)
        if not d: f = lambda e: e["x"].mean()
        elif len(d) == 1: f = rng.choice([lambda e: e["x"].mean(d[0], keepdim=k), lambda e: e["x"].mean(dim=d[0], keepdim=k)])
        else: f = lambda e: e["x"].mean(tuple(d), keepdim=k)
        st.append(Step(kind, "z", f, a="x", par=dict(dims=d, keep=k)))
    elif kind == "avgpool":
        while True:
            s = [rng.choice([1, 2]), rng.choice([1, 2]), rng.randint(2, 5), rng.randint(2, 5)]
            k = [rng.randint(1, 3), rng.randint(1, 3)]
            stv = [rng.randint(1, 3), rng.randint(1, 3)]
            pd = [rng.randint(0, k[0] // 2), rng.randint(0, k[1] // 2)]
            kk = k[0] if k[0] == k[1] and rng.random() < .7 else tuple(k)
            kw = {}
            if rng.random() < .3:
                stv = list(k)
            else:
                kw["stride"] = stv[0] if stv[0] == stv[1] and rng.random() < .7 else tuple(stv)
            if any(pd):
                kw["padding"] = pd[0] if pd[0] == pd[1] else tuple(pd)
            try:
                rs = list(torch.nn.functional.avg_pool2d(torch.zeros(s), kk, **kw).shape)
                break
            except RuntimeError:
                continue
        if p == 0: p = 16
        x = fixed(rng, torch, s, p, 2)
        st = [enc("x", x, rng.randint(0, 4), p, low=low)]
        st.append(Step(kind, "z", lambda e: e["x"].avg_pool2d(kk, **kw), a="x", par=dict(k=k, st=stv, pd=pd, dl=[1, 1], rs=rs), note="%s %s" % (kk, kw)))
    elif kind == "encode":
        p2 = rng.choice([0, 4, 8, 12, 16, 20, 24])
        p = rng.choice([0, 8, 12, 16, 20])
        x = fixed(rng, torch, sh, p, 5)
        st = [enc("x", x, rng.randint(0, 4), p, low=True)]
        def f(e):
            from crypten.encoder import FixedPointEncoder
            return e["x"].encode(FixedPointEncoder(precision_bits=p2))
        st.append(Step("encode", "z", f, a="x", par=dict(p=p2)))
        if p2 >= p:   # finer and back is lossless to the units of the truncation
            def g(e):
                return e["z"].encode_as(e["x"])
            st.append(Step("encode", "w", g, a="z", par=dict(p=p)))
    elif kind == "wraps":
        st = [enc("x", x, rng.randint(0, 4), p, low=True)]
        def f(e):
            from crypten.mpc.primitives import beaver
            return beaver.wraps(e["x"])
        st.append(Step("wraps", "z", f, a="x"))
    # a truncated value goes on being a valid operand
    if kind.startswith("div") and rng.random() < .4:
        v = "x" if kind.endswith("_") else "z"
        st.append(Step("add", "q", lambda e: e[v] + e["x"], a=v, bv="x"))
    return Prog(name, st, grad=rng.random() < .6)


KINDS = ["divi"] * 8 + ["divi_"] * 3 + ["divt"] * 4 + ["divf"] * 6 + ["mean"] * 6 + ["avgpool"] * 4 + ["encode"] * 5 + ["wraps"] * 4


def wrapcount(c, torch):
    """util.count_wraps on every combination of boundary words, as one VM event"""
    W = [0, 1, -1, 2, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, (1 << 62), -(1 << 62), 0x1234567890abcdef]
    def body(pty):
        from crypten.common.util import count_wraps
        for k in (2, 3, 4):
            tup = list(itertools.product(W, repeat=k)) if k < 4 else [tuple(c.rng.choice(W) for _ in range(k)) for _ in range(1500)]
            sh = [torch.tensor([t[i] for t in tup]) for i in range(k)]
            pty.emit({"op": "begin", "prog": "count%d" % k, "ws": k})
            live = dict(k="A", p=0, s=[len(tup)], sh=[words(x) for x in sh])
            base = dict(a="", bv="", bp=vm.NOPUB, par={"x": 0}, note="count_wraps", err="", same=True, agree=True)
            plain = sum(sh[1:], sh[0])
            pty.emit(dict(base, op="enc", dst="x", bp=pub(plain), par=dict(k="A", p=0), live={"x": live}))
            r = count_wraps([x.clone() for x in sh])
            z = torch.zeros_like(r)
            pty.emit(dict(base, op="wraps", dst="z", a="x", live={"x": live, "z": dict(k="A", p=0, s=list(r.shape), sh=[words(r)] + [words(z)] * (k - 1))}))
    from vlib.world import run_worlds
    r = run_worlds([dict(body=body, ws=1, init=False)])[0]
    if not r.ok:
        c.violation("count_wraps failed: %s" % r.error(), r.status)
    return [("count_wraps", r.recs[0], {})]


def run(c):
    torch = load()
    worlds = {}
    confs = [(1, "TFP", {}), (2, "TFP", {}), (3, "TFP", {}), (4, "TFP", {}), (3, "TTP", {}), (2, "TTP", {}), (3, "TFP", {"mpc.protocol": "replicated"})]
    if c.thorough:
        confs += [(5, "TFP", {}), (6, "TFP", {}), (4, "TTP", {})]
    for ws, prov, cf in confs:
        progs = []
        for r in range(10 if c.thorough else 2):
            for i, kind in enumerate(KINDS):
                if kind == "wraps" and (ws == 1 or "mpc.protocol" in cf):
                    continue
                progs.append(mk(c, torch, "%s.%d.%d" % (kind, r, i), kind, ws, c.rng.random() < .3))
        worlds["ws%d-%s%s" % (ws, prov, "-repl" if cf else "")] = dict(ws=ws, provider=prov, cfg=cf, progs=progs, seed=SEED * 10 + ws)
    vm_check(c, worlds)
    c.validate(wrapcount(c, torch))


main("C05", run)
