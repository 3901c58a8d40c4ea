"""Programs generated by TLC -simulate from VMGen*.tla."""
from _common import *


def gen_start(module, n, length, seed, ops, **consts):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\nOps = {%s}\n" % (length, ",".join('"%s"' % o for o in ops))
    for k, v in consts.items():
        cfg += "%s = %s\n" % (k, "{%s}" % ",".join(map(str, v)) if isinstance(v, (list, tuple)) else v)
    return n, tlc.start(module, cfg, simulate=n, depth=length + 4, seed=seed, xmx="1g")


def gen_finish(h):
    n, p = h
    r = tlc.finish(p)
    ps = [x["prog"] for x in r.printed if "prog" in x]
    if len(ps) < n:
        raise Machinery("generator: " + r.out[-1500:])
    return ps


SPECIAL = [0, 1, -1, 2, -2, (1 << 63) - 1, -(1 << 63), 1 << 62, -(1 << 62), 0x5555555555555555, -0x5555555555555556, 0xffffffff, 1 << 32, -(1 << 32), 0x0f0f0f0f0f0f0f0f, 3, 7, 255]


def wordtensor(rng, torch, shape, small=False):
    n = 1
    for d in shape:
        n *= d
    def one():
        c = rng.random()
        if c < .45: return rng.choice(SPECIAL)
        if c < .6: return (1 << rng.randrange(63)) - rng.choice([0, 1])
        if c < .7: return rng.randint(-9, 9)
        return rng.getrandbits(64) - (1 << 63)
    return layout(rng, torch.tensor([one() for _ in range(n)], dtype=torch.long).reshape(tuple(shape)))
