"""C15: the gradient of every operation, decided by Grad.tla / GradTrace.tla from the forward function itself."""
from _common import *
from _ops import BCAST, MM, conv_case
from _forms import prodl, forms
import math

REG = ("t", "transpose", "permute", "flip", "clone", "cat", "stack", "view", "reshape", "flatten", "narrow", "take", "index_select", "gather", "scatter", "roll", "squeeze", "unsqueeze", "[", "pad")


class Case:
    def __init__(s, note, ins, call, f, par=None, den=1, ref=None, kind="exact", oshape=None, args=(), **kw):
        s.note, s.ins, s.call, s.f, s.par, s.den, s.ref, s.kind, s.oshape, s.args, s.kw = note, ins, call, f, par or {"x": 0}, den, ref, kind, oshape, args, kw


def ints(rng, torch, shape, lo=-6, hi=6, avoid=()):
    v = [q for q in range(lo, hi + 1) if q not in avoid]
    return torch.tensor([float(rng.choice(v)) for _ in range(prodl(shape))]).reshape(tuple(shape))


def apart(rng, torch, shape):
    """values more than two apart from each other"""
    n = prodl(shape)
    v = [3.0 * q for q in range(-(n // 2), n - n // 2)]
    rng.shuffle(v)
    return torch.tensor(v).reshape(tuple(shape))


def rshape(rng, lo=0, hi=3, mx=3):
    return [rng.randint(1, mx) for _ in range(rng.randint(lo, hi))]


def dimform(rng, nd, multi=False):
    """(dims for TLA, value for torch) - an int, or a tuple of several"""
    if multi and nd > 1 and rng.random() < .4:
        q = rng.sample(range(nd), rng.randint(1, nd))
        q = [x - nd if rng.random() < .3 else x for x in q]
        return q, tuple(q) if rng.random() < .6 else list(q)
    d = rng.randrange(-nd, nd)
    return [d], d


def move_case(rng, torch):
    import crypten
    while True:
        shape = rshape(rng, 0, 4)
        note, f, ex, kind = forms(rng, torch, shape, rng.random() < .8)
        if not note.startswith(REG) or note.startswith(("repeat", "unfold", "unbind")) or kind == "set" and not note.startswith("scatter"):
            continue
        ins = [(ints(rng, torch, shape), "r")] + [(ints(rng, torch, s), rng.choice("rrp")) for s in ex]
        if kind == "set" and rng.random() < .3: ins[1] = (ins[1][0], "t")
        sizes, off, idx = [], 0, []
        for t, _ in ins:
            idx.append(torch.arange(off + 1, off + t.numel() + 1).reshape(t.shape)); off += t.numel()
        try:
            if kind == "A":
                m = f([idx[0].clone()]); call = f
            elif kind == "pad":
                m = torch.nn.functional.pad(idx[0], f[1], value=0)
                call = lambda t, f=f: t[0].pad(f[1])
            elif kind == "join":
                m = getattr(torch, f[0])(idx, f[1])
                call = lambda t, f=f: getattr(crypten, f[0])(list(t), dim=f[1])
            else:
                # a source larger than the index: only the part that is read gets a gradient
                m = idx[0].scatter(f[1], f[2], idx[1])
                call = lambda t, f=f: t[0].scatter(f[1], f[2], t[1])
        except (IndexError, RuntimeError):
            continue
        return Case(note, ins, call, "move", dict(map=m.reshape(-1).tolist()), oshape=list(m.shape))


def exact_case(rng, torch, k):
    import crypten
    R = rng
    if k == "move": return move_case(rng, torch)
    if k in ("add", "sub", "mul", "rsub"):
        s, t = R.choice(BCAST)
        if R.random() < .5: s, t = t, s
        kinds = R.choice(["rr", "rr", "rp", "pr", "rt", "rt", "rs"])
        a, b = ints(rng, torch, s), ints(rng, torch, t)
        if kinds[1] == "s": b = ints(rng, torch, [])
        if k == "rsub" or (kinds[1] in "ts" and k == "mul" and R.random() < .3):
            kinds = "rs" if kinds[1] in "ts" else kinds
            if k == "rsub": call = lambda t: t[1] - t[0] if not torch.is_tensor(t[1]) and not hasattr(t[1], "get_plain_text") else t[0].__rsub__(t[1])
            else: call = lambda t: t[1] * t[0]
            if kinds[1] == "s": b = ints(rng, torch, [])
        else:
            call = {"add": lambda t: t[0] + t[1], "sub": lambda t: t[0] - t[1], "mul": lambda t: t[0] * t[1]}[k]
        return Case("%s %s %s%s" % (k, kinds, s, t), [(a, kinds[0]), (b, kinds[1])], call, k, oshape=list((torch.zeros(a.shape) + torch.zeros(b.shape)).shape))
    if k == "same":    # an operand used twice
        a = ints(rng, torch, rshape(rng, 0, 2))
        return Case("x*x", [(a, "r")], lambda t: t[0] * t[0], "square", oshape=list(a.shape))
    if k == "matmul":
        s, t = R.choice(MM + [((2,), (3, 2, 2)), ((3, 2, 2), (2,)), ((1,), (1,)), ((2,), (2, 1)), ((1, 2), (2,)), ((1,), (2, 1, 3)), ((2, 2), (3, 2, 2)), ((3, 2, 2), (2, 1))])
        kinds = R.choice(["rr", "rr", "rp", "pr", "rt"])
        a, b = ints(rng, torch, s, -4, 4), ints(rng, torch, t, -4, 4)
        return Case("matmul %s %s%s" % (kinds, s, t), [(a, kinds[0]), (b, kinds[1])], R.choice([lambda t: t[0].matmul(t[1]), lambda t: t[0] @ t[1]]), "matmul", oshape=list((a @ b).shape))
    if k in ("conv1d", "conv2d"):
        nd = int(k[4])
        while True:
            s, t, par, kw = conv_case(rng, nd, False)
            if prodl(s) <= 24 and prodl(t) <= 18: break
        kinds = R.choice(["rr", "rr", "rp", "pr", "rt"])
        a, b = ints(rng, torch, s, -3, 3), ints(rng, torch, t, -3, 3)
        ref = getattr(torch.nn.functional, k)(a, b, **kw)
        named = R.random() < .25
        return Case("%s %s %s%s %s" % (k, kinds, s, t, kw), [(a, kinds[0]), (b, kinds[1])], lambda t: getattr(t[0], k)(kernel=t[1], **kw) if named else getattr(t[0], k)(t[1], **kw), "conv", par, oshape=list(ref.shape))
    if k == "dot":
        n = R.randint(1, 4); kinds = R.choice(["rr", "rp", "rt"])
        return Case("dot " + kinds, [(ints(rng, torch, [n]), kinds[0]), (ints(rng, torch, [n]), kinds[1])], lambda t: t[0].dot(t[1]), "dot", oshape=[])
    if k == "ger":
        n, m = R.randint(1, 3), R.randint(1, 3); kinds = R.choice(["rr", "rp", "rt", "pr"])
        return Case("ger " + kinds, [(ints(rng, torch, [n]), kinds[0]), (ints(rng, torch, [m]), kinds[1])], lambda t: t[0].ger(t[1]), "ger", oshape=[n, m])
    if k in ("neg", "square"):
        a = ints(rng, torch, rshape(rng))
        return Case(k, [(a, "r")], lambda t: getattr(t[0], k)(), k, oshape=list(a.shape))
    if k in ("pow", "pos_pow"):
        n = R.choice([1, 2, 3, 4, 2.0, 3.0])
        a = ints(rng, torch, rshape(rng, 0, 2), -4 if k == "pow" else 1, 4)
        op = k == "pow" and R.random() < .4
        return Case("%s %s" % (k, n), [(a, "r")], lambda t: getattr(t[0], k)(n), "pow", dict(k=int(n)), oshape=list(a.shape))
    if k == "poly":
        c = [R.randint(-3, 3) for _ in range(R.randint(1, 4))]
        a = ints(rng, torch, rshape(rng, 0, 2), -3, 3)
        form = R.choice(["list", "float", "long"])
        cc = c if form == "list" else torch.tensor(c) if form == "long" else torch.tensor([float(q) for q in c])
        return Case("polynomial %s %s" % (form, c), [(a, "r")], lambda t: t[0].polynomial(cc), "poly", dict(c=c), oshape=list(a.shape), args=[cc])
    if k in ("sum", "mean", "var", "max", "min", "norm1", "norminf"):
        s = rshape(rng, 0 if k not in ("var",) else 1, 3)
        if k == "var" and R.random() < .7: s = [max(2, q) for q in s]
        nd = len(s)
        a = apart(rng, torch, s) if k in ("max", "min") else ints(rng, torch, s)
        if k in ("norm1", "norminf"):
            a = apart(rng, torch, s); a = torch.where(a.abs() < 3, torch.tensor(3.0 * prodl(s)), a) if k == "norm1" else (a - a.min() + 3) * torch.tensor([R.choice([-1.0, 1.0]) for _ in range(a.numel())]).reshape(a.shape)
        if nd and R.random() < .7:
            dims, d = dimform(rng, nd, k in ("sum", "mean", "var"))
            keep = R.random() < .5
        else: dims, d, keep = [], None, False
        nm = "norm" if k.startswith("norm") else k
        kw, ps = {}, []
        if nm == "norm":
            p = 1 if k == "norm1" else float("inf")
            if R.random() < .5: ps.append(p)
            else: kw["p"] = p
        if d is not None:
            if R.random() < .5 and (nm != "norm" or ps): ps.append(d)
            else: kw["dim"] = d
            if keep: kw["keepdim"] = True
        rsh = list((a.sum(d, keepdim=keep) if d is not None else a.sum()).shape)
        cnt = a.numel() // max(1, prodl(rsh))
        den = cnt if k == "mean" else 1
        if k == "var":
            un = R.choice([None, None, True, False])
            if un is not None: kw["unbiased"] = un
            dv = cnt if un else cnt - 1
            den = cnt * (dv or 1)
        return Case("%s%s %s %s" % (nm, s, ps, kw), [(a, "r")], lambda t: getattr(t[0], nm)(*ps, **kw), k, dict(dims=[q for q in dims]), den, oshape=rsh)
    if k == "cumsum":
        s = rshape(rng, 1, 3); d = R.randrange(-len(s), len(s)); a = ints(rng, torch, s)
        return Case("cumsum %d" % d, [(a, "r")], lambda t: t[0].cumsum(d), "cumsum", dict(dims=[d]), oshape=list(s))
    if k == "trace":
        n = R.randint(1, 4); a = ints(rng, torch, [n, n])
        return Case("trace", [(a, "r")], lambda t: t[0].trace(), "trace", oshape=[])
    if k in ("relu", "abs", "sign"):
        a = ints(rng, torch, rshape(rng), -6, 6, (-1, 0, 1))
        return Case(k, [(a, "r")], lambda t: getattr(t[0], k)(), k, oshape=list(a.shape))
    if k == "clip":
        w = R.choice(["relu6", "hardtanh", "hardtanh0"])
        lo, hi = (0, 6) if w == "relu6" else (-1, 1) if w == "hardtanh0" else (R.randint(-5, 0), R.randint(1, 5))
        a = ints(rng, torch, rshape(rng), -9, 12, (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1))
        call = {"relu6": lambda t: t[0].relu6(), "hardtanh0": lambda t: t[0].hardtanh(), "hardtanh": lambda t: t[0].hardtanh(min_val=lo, max_val=hi)}[w]
        return Case(w, [(a, "r")], call, "clip", dict(lo=lo, hi=hi), oshape=list(a.shape))
    if k == "dropout":
        w = R.choice(["dropout", "_feature_dropout"])
        s = rshape(rng, 0, 3) if w == "dropout" else rshape(rng, 2, 4)
        p = R.choice([0.5, 0.75, 0.0, 0.5]); tr = R.random() < .8
        a = ints(rng, torch, s, -6, 6, (0,))
        return Case("%s p=%s training=%s" % (w, p, tr), [(a, "r")], lambda t: getattr(t[0], w)(p=p, training=tr), "scale", dict(p=p, train=tr), oshape=list(s))
    if k in ("avgpool", "maxpool"):
        while True:
            s = R.choice([[], [1], [2]]) + [R.randint(1, 2), R.randint(2, 5), R.randint(2, 5)]
            if len(s) == 3: s = [1] + s
            kk = [R.randint(1, 3)] * 2 if R.random() < .6 else [R.randint(1, 3), R.randint(1, 3)]
            same = R.random() < .5
            st = None if same and kk[0] == kk[1] else [R.randint(1, 3)] * 2 if k == "avgpool" else [R.randint(1, 3), R.randint(1, 3)]
            pd = [R.choice([0, 0, 1])] * 2
            dl = [1, 1] if k == "avgpool" or R.random() < .7 else [2, 2]
            ceil = R.random() < .3
            if max(pd) * 2 > min(kk) or prodl(s) > 30: continue
            a = apart(rng, torch, s) if k == "maxpool" else ints(rng, torch, s)
            form = lambda v: v[0] if v[0] == v[1] and R.random() < .5 else tuple(v)
            kw = {}
            if st is not None: kw["stride"] = form(st)
            if pd[0] or R.random() < .3: kw["padding"] = form(pd)
            if ceil: kw["ceil_mode"] = True
            ks = form(kk)
            try:
                if k == "avgpool": ref = torch.nn.functional.avg_pool2d(a, ks, **kw)
                else:
                    if dl[0] > 1: kw["dilation"] = form(dl)
                    ref = torch.nn.functional.max_pool2d(a, ks, **kw)
            except RuntimeError:
                continue
            if ref.numel() > 30: continue
            if k == "avgpool" and ceil:    # refused whenever it is asked for
                if R.random() < .7: continue
            par = dict(k=kk, st=st or kk, pd=pd, dl=dl, rs=list(ref.shape))
            c = R.random() < .3 and k == "maxpool"
            if c: kw["return_indices"] = True
            return Case("%s %s %s %s" % (k, s, ks, kw), [(a, "r")], lambda t: getattr(t[0], k[:3] + "_pool2d")(ks, **kw), k, par, kk[0] * kk[1] if k == "avgpool" else 1, oshape=list(ref.shape))
    raise ValueError(k)


EXACT = ["move"] * 22 + ["add", "sub", "mul", "rsub", "mul", "same", "matmul", "matmul", "conv1d", "conv2d", "conv2d", "dot", "ger", "neg", "square", "pow", "pos_pow", "poly", "sum", "sum", "mean", "mean", "var", "var", "max", "min",
                         "norm1", "norminf", "cumsum", "trace", "relu", "abs", "sign", "clip", "dropout", "avgpool", "maxpool", "maxpool"]
SMOOTH = ["tanh", "sigmoid", "exp", "log", "reciprocal", "rdiv", "sqrt", "pospow", "sin", "cos", "erf", "div", "divpub", "softmax", "logsoftmax", "norm2", "bce", "bcelogits", "ce", "rappor", "cosine", "batchnorm", "norm3"]


def smooth_case(rng, torch, k):
    """returns (note, ins, call, events builder) - the reference table comes from float64 arithmetic"""
    R = rng
    T = torch
    def grid(shape, lo, hi, step=8, away=0.0):
        out = []
        while len(out) < prodl(shape):
            v = R.randint(int(lo * step), int(hi * step)) / step
            if abs(v) >= away: out.append(v)
        return T.tensor(out, dtype=T.float64).reshape(tuple(shape))
    s = rshape(rng, 0, 2)
    if k in ("tanh", "sigmoid", "sin", "cos"):
        x = grid(s, -2, 2)
        aux = {"sin": T.cos, "cos": lambda v: -T.sin(v)}.get(k, lambda v: v * 0)(x)
        return k, [(x, "r")], lambda t: getattr(t[0], k)(), [dict(f=k, i=0, aux=aux)]
    if k == "erf":
        x = grid(s, -1.25, 1.25)
        return k, [(x, "r")], lambda t: t[0].erf(), [dict(f=k, i=0, aux=2 / math.sqrt(math.pi) * T.exp(-x * x), tol=30)]
    if k == "exp":
        x = grid(s, -2, 2); return k, [(x, "r")], lambda t: t[0].exp(), [dict(f=k, i=0)]
    if k in ("log", "sqrt"):
        x = grid(s, .75, 6); return k, [(x, "r")], lambda t: getattr(t[0], k)(), [dict(f=k, i=0)]
    if k == "reciprocal":
        x = grid(s, -4, 4, away=.75); return k, [(x, "r")], lambda t: t[0].reciprocal(), [dict(f=k, i=0)]
    if k == "rdiv":
        c = R.choice([1, 2, -3, 1.5]); x = grid(s, -4, 4, away=.75)
        return "%s/x" % c, [(x, "r")], lambda t: t[0].__rtruediv__(c), [dict(f=k, i=0, par=dict(k=int(c * 1024)))]
    if k == "pospow":
        c = R.choice([0.5, 1.5, 2.5]); x = grid(s, 1, 3)
        return "pos_pow %s" % c, [(x, "r")], lambda t: t[0].pos_pow(c), [dict(f=k, i=0, par=dict(k=int(c * 1024)), tol=60, rel=10)]
    if k in ("div", "divpub"):
        sh = R.choice([([2], [2]), ([2, 2], [2]), ([2], []), ([], []), ([2, 1], [1, 2]), ([1], [3])])
        if R.random() < .5: sh = sh[::-1]
        a, b = grid(sh[0], -4, 4), grid(sh[1], -4, 4, away=.75)
        out = T.broadcast_shapes(a.shape, b.shape)
        def tab(gg, which):
            A, B = a.clone().requires_grad_(), b.clone().requires_grad_()
            (A / B).backward(gg)
            return A.grad if which == 0 else B.grad
        if k == "div":
            kk = R.choice(["rr", "rp", "pr"])
            if a.shape == b.shape:
                ev = ([dict(f="diva", i=0, aux=b)] if kk[0] == "r" else []) + ([dict(f="divb", i=1, x=a, aux=b)] if kk[1] == "r" else [])
            else:
                ev = [dict(f="table", i=q, aux=lambda g, q=q: tab(g, q)) for q in (0, 1) if kk[q] == "r"]
            return "div %s %s" % (kk, sh), [(a, kk[0]), (b, kk[1])], lambda t: t[0] / t[1], ev
        if R.random() < .3:
            b = T.tensor(float(b.reshape(-1)[0]), dtype=T.float64); pk = "s"
        else: pk = "t"
        return "div public %s" % (sh,), [(a, "r"), (b, pk)], lambda t: t[0] / t[1], [dict(f="table", i=0, aux=lambda g: tab(g, 0))]
    if k in ("softmax", "logsoftmax"):
        s = rshape(rng, 1, 3); d = R.randrange(-len(s), len(s)); x = grid(s, -2, 2)
        return "%s %s dim %d" % (k, s, d), [(x, "r")], lambda t: t[0].softmax(d) if k == "softmax" else t[0].log_softmax(d), [dict(f=k, i=0, par=dict(d=d % len(s) + 1), aux=T.softmax(x, d), tol=30)]
    if k in ("norm2", "norm3"):
        s = rshape(rng, 1, 3); d = R.choice([None] + list(range(-len(s), len(s)))); keep = d is not None and R.random() < .5
        x = grid(s, -3, 3, away=.75)
        p = R.choice([2, "fro"]) if k == "norm2" else 3
        kw = {} if d is None else dict(dim=d, keepdim=keep)
        if R.random() < .5 or p == 3: kw["p"] = p
        def exp_(v):
            if d is None: return v.reshape([1] * len(s)).expand(s) if v.numel() == 1 else v
            return (v if keep else v.unsqueeze(d)).expand(s)
        if p == 3:
            def tab(g):
                X = x.clone().requires_grad_(); T.norm(X, p=3, **({} if d is None else dict(dim=d, keepdim=keep))).backward(g); return X.grad
            return "norm %s" % kw, [(x, "r")], lambda t: t[0].norm(**kw), [dict(f="table", i=0, aux=tab, tol=80, rel=8)]
        return "norm %s" % kw, [(x, "r")], lambda t: t[0].norm(**kw), [dict(f=k, i=0, expand=exp_)]
    if k in ("bce", "bcelogits"):
        s = rshape(rng, 1, 2); t = T.tensor([float(R.random() < .5) for _ in range(prodl(s))], dtype=T.float64).reshape(s)
        kk = "p"
        if k == "bce":
            x = grid(s, .25, .75, 16)
            return "binary_cross_entropy " + kk, [(x, "r"), (t, kk)], lambda q: q[0].binary_cross_entropy(q[1], skip_forward=R2), [dict(f=k, i=0, aux=t, scalar=True, rel=8)]
        x = grid(s, -2, 2)
        return "binary_cross_entropy_with_logits " + kk, [(x, "r"), (t, kk)], lambda q: q[0].binary_cross_entropy_with_logits(q[1]), [dict(f=k, i=0, aux=T.sigmoid(x), t=t, scalar=True)]
    if k == "ce":
        s = [R.randint(1, 3), R.randint(2, 4)]; x = grid(s, -2, 2)
        t = T.nn.functional.one_hot(T.tensor([R.randrange(s[1]) for _ in range(s[0])]), s[1]).double()
        kk = "p"
        return "cross_entropy " + kk, [(x, "r"), (t, kk)], lambda q: q[0].cross_entropy(q[1]), [dict(f=k, i=0, aux=T.softmax(x, 1), t=t, scalar=True)]
    if k == "rappor":
        s = rshape(rng, 1, 2); x = grid(s, -1.5, 1.5); al = R.choice([0.25, 0.75, 0.9])
        t = T.tensor([float(R.random() < .5) for _ in range(prodl(s))], dtype=T.float64).reshape(s)
        def tab(g):
            X = x.clone().requires_grad_(); p = T.sigmoid(X); r = al * p + (1 - al) * (1 - p)
            T.nn.functional.binary_cross_entropy(r, t).backward(g); return X.grad
        return "rappor %s" % al, [(x, "r"), (t, "p")], lambda q: q[0].rappor_loss(q[1], al), [dict(f="table", i=0, aux=tab, scalar=True, tol=40, rel=8)]
    if k == "cosine":
        s = rshape(rng, 1, 2); s = [max(2, q) for q in s]; d = R.randrange(-len(s), len(s))
        a, b = grid(s, -2, 2, away=.5), grid(s, -2, 2, away=.5)
        kk = R.choice(["rr", "rp", "rt"])
        def tab(g, w):
            A, B = a.clone().requires_grad_(), b.clone().requires_grad_(); T.nn.functional.cosine_similarity(A, B, dim=d).backward(g); return (A, B)[w].grad
        return "cosine_similarity %s dim %d %s" % (s, d, kk), [(a, "r"), (b, kk[1])], lambda q: q[0].cosine_similarity(q[1], dim=d), [dict(f="table", i=q, aux=lambda g, q=q: tab(g, q), tol=40) for q in (0, 1) if kk[q] == "r"]
    if k == "batchnorm":
        s = [R.randint(3, 4), R.randint(1, 2)] + R.choice([[], [2], [2, 1]])
        x = grid(s, -2, 2); w, b = grid([s[1]], .5, 2), grid([s[1]], -1, 1)
        tr = R.random() < .6
        rm, rv = grid([s[1]], -1, 1), grid([s[1]], .5, 2)
        while x.transpose(0, 1).reshape(s[1], -1).var(1, unbiased=False).min() < 1: x = grid(s, -3, 3)    # batch variance well away from zero
        ks = R.choice(["rrr", "rrr", "rpp", "rtr", "rrt", "rtt", "prr"])
        def tab(g, q):
            v = [z.clone().requires_grad_() for z in (x, w, b)]
            T.nn.functional.batch_norm(v[0], rm.clone(), rv.clone(), v[1], v[2], training=tr, eps=1e-5).backward(g)
            return v[q].grad
        return "batchnorm %s %s training=%s" % (s, ks, tr), [(x, ks[0]), (w, ks[1]), (b, ks[2]), (rm, "p"), (rv, "p")], \
            lambda q: q[0].batchnorm(q[1], q[2], running_mean=q[3], running_var=q[4], training=tr), [dict(f="table", i=q, aux=lambda g, q=q: tab(g, q), tol=60, rel=8, nokeep=True) for q in range(3) if ks[q] == "r"]
    raise ValueError(k)


R2 = False


def body(pty, jobs):
    import torch, crypten, random, copy
    def q(t, unit):
        v = (t.double() * unit).round().clamp(-2 ** 30, 2 ** 30)
        return [int(a) if a == a else 2 ** 30 for a in v.reshape(-1).tolist()]
    def mk(v, kind):
        if kind in "rp": return crypten.cryptensor(v.float(), requires_grad=kind == "r")
        return v.float() if kind == "t" else (int(v) if float(v) == int(v) else float(v))
    for job in jobs:
        rng = random.Random(job["seed"])
        torch.manual_seed(job["seed"])
        if job["kind"] == "exact":
            c = exact_case(rng, torch, job["k"])
            rec = dict(op="exact", note=c.note, f=c.f, par=c.par, den=c.den, oshape=c.oshape, ws=pty.ws, err="", y=[], ys=[], gr=[], kept=True, g=[],
                       X=[dict(s=list(v.shape), v=[int(z) for z in v.reshape(-1).tolist()], req=kd == "r") for v, kd in c.ins])
            g = ints(rng, torch, c.oshape, -3, 3)
            rec["g"] = [int(z) for z in g.reshape(-1).tolist()]
            try:
                ts = [mk(v, kd) for v, kd in c.ins]
                before = [copy.deepcopy(a) for a in c.args]
                y = c.call(ts)
                if isinstance(y, tuple): y = y[0]
                yv = y.get_plain_text()
                rec["y"], rec["ys"] = q(yv, 256), list(yv.shape)
                if c.f == "scale":
                    x0 = c.ins[0][0]
                    m = (yv / x0).round()
                    ok = [0, round(1 / (1 - c.par["p"]))] if c.par["train"] else [1]
                    rec["par"] = dict(m=[int(z) if z in ok else 77 for z in m.reshape(-1).tolist()])
                if list(yv.shape) == list(g.shape):
                    if g.dim() > 1 and rng.random() < .5: gg = crypten.cryptensor(g.transpose(0, -1).contiguous()).transpose(0, -1)
                    else: gg = crypten.cryptensor(g)
                    y.backward(gg)
                for (v, kd), t in zip(c.ins, ts):
                    has = kd in "rp" and t.grad is not None
                    rec["gr"].append(dict(has=has, s=list(t.grad.size()) if has else [], v=q(t.grad.get_plain_text(), 256) if has else []))
                    now = t.get_plain_text() if kd in "rp" else t
                    rec["kept"] = rec["kept"] and (torch.equal(now.float(), v.float()) if kd != "s" else True)
                for a, b in zip(c.args, before):
                    rec["kept"] = rec["kept"] and (torch.equal(a, b) if torch.is_tensor(a) else a == b)
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                rec["err"] = "%s: %s @%s:%d" % (type(e).__name__, str(e)[:120], tb.filename.split("/")[-1], tb.lineno)
            if rec["err"].startswith("NotImplementedError"): continue    # refused, not accepted
            pty.emit(rec)
            if rec["err"] and pty.ws > 1: return
        else:
            note, ins, call, evs = smooth_case(rng, torch, job["k"])
            err, grads, kept = "", [], True
            yv = g = None
            try:
                ts = [mk(v, kd) for v, kd in ins]
                y = call(ts)
                yv = y.get_plain_text().double()
                g = torch.tensor([float(rng.choice([-2, -1, 1, 2, 3])) for _ in range(yv.numel())], dtype=torch.float64).reshape(yv.shape)
                y.backward(crypten.cryptensor(g.float()))
                grads = [(t.grad.get_plain_text().double() if t.grad is not None else None) if kd in "rp" else None for (v, kd), t in zip(ins, ts)]
                if not any(e.get("nokeep") for e in evs):
                    kept = all(torch.allclose(t.get_plain_text().double(), v, atol=1e-4) for (v, kd), t in zip(ins, ts) if kd in "rp")
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                err = "%s: %s @%s:%d" % (type(e).__name__, str(e)[:120], tb.filename.split("/")[-1], tb.lineno)
            if err.startswith("NotImplementedError"): continue
            for e in evs:
                x = ins[e["i"]][0]
                rec = dict(op="smooth", note="%s input %d" % (note, e["i"]), f=e["f"], par=e.get("par", {"x": 0}), s=list(x.shape), tol=e.get("tol", 16), rel=e.get("rel", 20), err=err, kept=kept,
                           x=[0] * x.numel(), y=[0], gg=[0], aux=[0], t=[0], gr=[0], gs=[], has=False)
                if not err:
                    gr = grads[e["i"]]
                    rec["has"] = gr is not None
                    if gr is not None: rec["gs"], rec["gr"] = list(gr.shape), q(gr, 1024)
                    aux = e.get("aux", x * 0)
                    if callable(aux): aux = aux(g)
                    ex = e.get("expand") or (lambda v: v)
                    if e["f"] == "table": yy = g0 = x * 0
                    elif e.get("scalar"): yy, g0 = x * 0 + yv, x * 0 + g
                    else: yy, g0 = ex(yv), ex(g)
                    rec.update(x=q(e.get("x", x), 1024), y=q(yy, 1024), gg=q(g0, 1024), aux=q(aux, 1024), t=q(e.get("t", x * 0), 1024))
                pty.emit(rec)
            if err and pty.ws > 1: return


def go(c):
    load()
    rng = c.rng
    ne, ns = (1300, 360) if not c.thorough else (6000, 2500)
    jobs = [dict(kind="exact", k=EXACT[i % len(EXACT)], seed=rng.randrange(10 ** 9)) for i in range(ne)] + [dict(kind="smooth", k=SMOOTH[i % len(SMOOTH)], seed=rng.randrange(10 ** 9)) for i in range(ns)]
    rng.shuffle(jobs)
    small = [j for j in jobs if j["kind"] == "exact" or j["k"] in ("div", "softmax", "exp", "ce", "norm2")][: 500 if c.thorough else 60]
    specs = [dict(body=body, ws=1, seed=SEED, timeout=800, args=(jobs[k::7],)) for k in range(7)]
    specs.append(dict(body=body, ws=2, seed=SEED, timeout=800, args=(small[: len(small)],)))
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        ev = r.recs[0]
        if not r.ok: ev.append(dict(op="smooth", note="", err=r.error() or "died"))
        for e in ev:
            n = c.detail.setdefault("operations", {})
            n[e.get("f", "?")] = n.get(e.get("f", "?"), 0) + 1
        for e in ev[1:2]: c.sample({z: e.get(z) for z in ("note", "f", "X", "g", "gr")})
        tr.append(("w%d" % k, ev, r.spec))
    c.validate(tr, "GradTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C15", go)
