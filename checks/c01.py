"""C01: encrypt -> reveal fidelity, every source, recipient, precision, dtype, shape, sharing type."""
from _common import *
import itertools


def value(rng, torch, shape, dt, p, k):
    n = 1
    for d in shape:
        n *= d
    if dt in ("f32", "f64", "list", "np", "float"):
        mag = rng.choice([0, 3, 10, 14])
        fr = min(p + 2, (24 if dt != "f64" else 40) - mag - 1)
        def one():
            c = rng.random()
            if c < .1: return 0.0
            if c < .2: return rng.choice([-1, 1]) * 2.0 ** -min(p, fr)
            if c < .3: return rng.choice([-1, 1]) * (rng.randint(1, 9) + 2.0 ** -min(p, fr))
            if c < .5: return -(rng.randint(1, 9)) + rng.randint(0, 8) * 2.0 ** -min(p, fr)
            return rng.randint(-(1 << (mag + fr)), 1 << (mag + fr)) / 2.0 ** fr
        return torch.tensor([one() for _ in range(n)], dtype=torch.float64 if dt == "f64" else torch.float32).reshape(shape)
    lim = {"i64": 1 << 24, "i32": 1 << 24, "i16": 1 << 15, "i8": 1 << 7, "u8": 1 << 8, "int": 1 << 20}[dt]
    if p == 0 and dt == "i64":
        lim = 1 << 62
    def one():
        c = rng.random()
        lo = 0 if dt == "u8" else -lim
        if c < .15: return 0
        if c < .3: return lo
        if c < .45: return lim - 1
        return rng.randint(lo, lim - 1)
    d = dict(i64=torch.int64, i32=torch.int32, i16=torch.int16, i8=torch.int8, u8=torch.uint8, int=torch.int64)[dt]
    return torch.tensor([one() for _ in range(n)], dtype=d).reshape(shape)


def case(rng, torch, name, ws, src, p, k, dt, shape, to, how, low):
    t = value(rng, torch, shape, dt, p, k)
    default = p == 16 and rng.random() < .5
    def run(env):
        import crypten
        import crypten.communicator as comm
        import crypten.mpc.primitives as prim
        r = comm.get().get_rank()
        mine = r == src
        x = t if mine else junk_like(torch, t, r)
        kw = {} if default or k == "B" else {"precision": p}
        if mine:
            if dt == "list": x = t.tolist()
            if dt == "np": x = t.numpy()
            if dt == "int": x = int(t.reshape(-1)[0]) if False else t
        elif dt in ("list", "np"):
            x = torch.zeros(shape)
        if how == "size" and not mine:
            x = torch.empty(0)
            kw["size"] = torch.Size(shape)
            if not low:
                x = torch.zeros(shape)
                kw.pop("size")
            else:
                x = None
        if how == "bcast":
            kw["broadcast_size"] = True
            if not mine:
                x = torch.empty(0) if k == "A" else torch.empty(0, dtype=torch.long)
        if low:
            cls = prim.ArithmeticSharedTensor if k == "A" else prim.BinarySharedTensor
            return cls(x, src=src, **kw)
        pt = crypten.mpc.arithmetic if k == "A" else crypten.mpc.binary
        if k == "A" and rng_choice[name] < .5:
            return crypten.cryptensor(x, src=src, **kw)
        return crypten.mpc.MPCTensor(x, ptype=pt, src=src, **kw)
    rng_choice[name] = rng.random()
    steps = [Step("enc", "v", run, bp=pub(t), par=dict(k=k, p=p if k == "A" else 0), note="%s src=%d p=%d %s %s %s" % (k, src, p, dt, list(shape), how))]
    for to_ in to:
        steps.append(Step("reveal", "", lambda e, d=to_: e["v"].get_plain_text(dst=None if d < 0 else d), a="v", par=dict(to=to_, raw=False), collect=vm.got, note="to=%d" % to_))
    steps.append(Step("reveal", "", lambda e: e["v"].reveal(), a="v", par=dict(to=-1, raw=True), collect=vm.got, note="raw"))
    if ws > 1:
        d = rng.randrange(ws)
        steps.append(Step("reveal", "", lambda e, d=d: e["v"].reveal(dst=d), a="v", par=dict(to=d, raw=True), collect=vm.got, note="raw to=%d" % d))
    return Prog(name, steps)


rng_choice = {}
SHAPES = [(), (1,), (4,), (2, 3), (1, 2, 2)]


def run(c):
    torch = load()
    worlds = {}
    for ws in ([1, 2, 3, 4, 5] if c.thorough else [1, 2, 3, 4]):
        progs = []
        n = 0
        # every source x recipient, both sharing types, both API levels
        for src, to in itertools.product(range(ws), range(-1, ws)):
            for k in "AB":
                n += 1
                progs.append(case(c.rng, torch, "sr%d" % n, ws, src, 16 if k == "A" else 0, k, "f32" if k == "A" else "i64", c.rng.choice(SHAPES), [to], "t", c.rng.random() < .3))
        # precision x dtype
        for p in [0, 1, 5, 8, 16, 20, 24]:
            for dt in ["f32", "f64", "i64", "i32", "i16", "i8", "u8", "list", "np"]:
                for _ in range(3 if c.thorough else 1):
                    n += 1
                    progs.append(case(c.rng, torch, "pd%d" % n, ws, c.rng.randrange(ws), p, "A", dt, c.rng.choice(SHAPES[1:]), [-1, c.rng.randrange(ws)], "t", c.rng.random() < .3))
        for dt in ["i64", "i32", "i16", "i8", "u8"]:
            for sh in SHAPES:
                n += 1
                progs.append(case(c.rng, torch, "b%d" % n, ws, c.rng.randrange(ws), 0, "B", dt, sh, [-1], c.rng.choice(["t"]), c.rng.random() < .5))
        for how in ["size", "bcast"]:
            for k in "AB":
                for sh in SHAPES:
                    n += 1
                    low = how == "size" or c.rng.random() < .5
                    progs.append(case(c.rng, torch, "h%d" % n, ws, c.rng.randrange(ws), 16 if k == "A" else 0, k, "f32" if k == "A" else "i64", sh, [-1], how, low))
        if c.thorough:
            for _ in range(150):
                n += 1
                k = c.rng.choice("AAB")
                progs.append(case(c.rng, torch, "r%d" % n, ws, c.rng.randrange(ws), c.rng.randint(0, 24) if k == "A" else 0, k, c.rng.choice(["f32", "f64"]) if k == "A" else "i64", c.rng.choice(SHAPES), [-1, c.rng.randrange(ws)], "t", c.rng.random() < .5))
        worlds["ws%d" % ws] = dict(ws=ws, progs=progs, seed=SEED + ws)
    vm_check(c, worlds)


main("C01", run)
