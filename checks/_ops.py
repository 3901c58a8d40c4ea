"""Builders of single VM steps used by several checks."""
from _common import *


def fixed(rng, torch, shape, p, mag, special=True):
    """float tensor, |v| <= 2^mag, a multiple of 2^-p (so encoding is exact), float32 representable"""
    n = 1
    for d in shape:
        n *= d
    fr = min(p, 23 - mag) if mag > 0 else min(p, 23)
    lim = max(1, int(2.0 ** (mag + fr)))
    def one():
        c = rng.random()
        if special and c < .08: return 0.0
        if special and c < .16: return rng.choice([-1, 1]) * 2.0 ** -fr
        if special and c < .24: return rng.choice([-1, 1]) * lim * 2.0 ** -fr
        return rng.randint(-lim, lim) * 2.0 ** -fr
    return layout(rng, torch.tensor([one() for _ in range(n)], dtype=torch.float32).reshape(tuple(shape)))


BCAST = [((), ()), ((1,), (3,)), ((3,), ()), ((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((1, 2, 1), (3, 1, 2)), ((4,), (4,)), ((2, 2), ())]
MM = [((2, 3), (3, 2)), ((3,), (3,)), ((3,), (3, 2)), ((2, 3), (3,)), ((2, 2, 3), (2, 3, 2)), ((2, 1, 2, 2), (3, 2, 1)), ((1, 1), (1, 1)), ((2, 2, 2), (2,)), ((1, 4), (4, 1))]


def conv_case(rng, nd, transposed):
    """random convolution configuration: (input shape, kernel shape, par, torch kwargs)"""
    while True:
        g = rng.choice([1, 1, 2])
        cin, cout = g * rng.choice([1, 2]), g * rng.choice([1, 2])
        n = rng.choice([1, 2])
        sp = [rng.randint(2, 5) for _ in range(nd)]
        k = [rng.randint(1, 3) for _ in range(nd)]
        st = [rng.choice([1, 1, 2, 3]) for _ in range(nd)]
        pd = [rng.choice([0, 0, 1, 2]) for _ in range(nd)]
        dl = [rng.choice([1, 1, 2]) for _ in range(nd)]
        op = [0] * nd
        if transposed:
            op = [rng.choice([0, 0, rng.randrange(max(st[i], dl[i]))]) for i in range(nd)]
            out = [(sp[i] - 1) * st[i] - 2 * pd[i] + dl[i] * (k[i] - 1) + op[i] + 1 for i in range(nd)]
            ks = [cin, cout // g] + k
        else:
            out = [(sp[i] + 2 * pd[i] - dl[i] * (k[i] - 1) - 1) // st[i] + 1 if sp[i] + 2 * pd[i] >= dl[i] * (k[i] - 1) + 1 else 0 for i in range(nd)]
            ks = [cout, cin // g] + k
        if min(out) < 1 or max(out) > 9:
            continue
        tot = n * cout
        for o in out:
            tot *= o
        if tot > 90:
            continue
        par = dict(st=st, pd=pd, dl=dl, g=g, op=op)
        def form(v):
            if nd == 1:
                return v[0]
            return v[0] if v[0] == v[1] and rng.random() < .5 else tuple(v)
        kw = dict(stride=form(st), padding=form(pd), dilation=form(dl), groups=g)
        if transposed:
            kw["output_padding"] = form(op)
        for q, d in (("stride", 1), ("padding", 0), ("dilation", 1), ("groups", 1), ("output_padding", 0)):
            if q in kw and kw[q] == d and rng.random() < .4:
                del kw[q]
        return [n, cin] + sp, ks, par, kw


def prog(name, steps, **kw):
    return Prog(name, steps, **kw)
