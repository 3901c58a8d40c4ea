import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import tlc, vm, world
from vlib.check import main, Check, SEED, TIER, Machinery
from vlib.vm import Step, Prog, pub
from vlib.world import run_worlds, load, words, limbs, unlimb


NC = [0.3]   # how often a tensor of two or more dimensions gets a non-default memory layout


def layout(rng, t):
    """the same tensor, sometimes with another memory layout"""
    if t.dim() > 1 and t.numel() > 1 and rng.random() < NC[0]:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    return t


def ring_val(rng, torch, shape, mag, p, kind):
    """random public value of kind int/float/ft/lt below 2^mag with fraction bits around p"""
    n = 1
    for d in shape:
        n *= d
    fr = max(0, min(p + rng.choice([0, 0, 0, 2]), 22 - mag))
    def one(integral):
        c = rng.random()
        if integral:
            return 0 if c < .1 else rng.randint(-(1 << mag), 1 << mag)
        if c < .08:
            return 0.0
        if c < .16:
            return rng.choice([-1, 1]) * 2.0 ** -fr
        return rng.randint(-(1 << (mag + fr)), 1 << (mag + fr)) / 2.0 ** fr
    if kind == "int":
        return one(True)
    if kind == "float":
        return float(one(False))
    vals = [one(kind == "lt") for _ in range(n)]
    t = torch.tensor(vals, dtype=torch.long if kind == "lt" else torch.float32)
    return layout(rng, t.reshape(tuple(shape)))


def junk_like(torch, t, rank):
    """what a non-source party passes: same shape, different values"""
    return (t * 0 + 37 + rank).to(t.dtype) if torch.is_tensor(t) else 37 + rank


def enc(name, t, src, p, k="A", ws=None, low=False, use_default=False):
    """Step: encrypt t (a public tensor known to src) as variable name"""
    import torch
    def run(env, t=t, src=src, p=p, k=k):
        import crypten.communicator as comm
        w, r = comm.get().get_world_size(), comm.get().get_rank()
        s = src % w
        x = t if r == s else junk_like(torch, t, r)
        if x.dim() > 1 and not t.is_contiguous():     # shares in the transposed layout at every party
            return make(x.transpose(0, -1), s).transpose(0, -1)
        return make(x, s)
    def make(x, s):
        import crypten
        from crypten.mpc import arithmetic, binary
        kw = {} if use_default else {"precision": p}
        if k == "B":
            kw.pop("precision", None)
            return crypten.mpc.MPCTensor(x, ptype=binary, src=s, **kw) if not low else crypten.mpc.primitives.BinarySharedTensor(x, src=s)
        if low:
            return crypten.mpc.primitives.ArithmeticSharedTensor(x, src=s, **kw)
        return crypten.cryptensor(x, src=s, **kw)
    return Step("enc", name, run, bp=pub(t), par=dict(k=k, p=0 if k == "B" else p))


def vm_check(c, worlds, name="vm", timeout=100, procs=8):
    """run programs in worlds (dict label -> world kwargs incl. progs) and validate the traces"""
    specs = [dict(body=vm.body, args=(w.pop("progs"),), timeout=timeout, **w) for w in worlds.values()]
    res = run_worlds(specs, procs=procs)
    traces = []
    for label, r in zip(worlds, res):
        ev = vm.merge(r)
        traces.append((label, ev, r.spec))
        c.detail["programs"] = c.detail.get("programs", 0) + sum(1 for e in ev if e["op"] == "begin")
        ops = c.detail.setdefault("ops", {})
        for e in ev:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
        for e in ev[1:2]:
            c.sample({k: e[k] for k in ("op", "dst", "a", "bv", "bp", "par") if k in e})
    c.validate(traces, "VMTrace")
    return traces
