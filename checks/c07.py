"""C07: additive <-> XOR conversion preserves the value -- programs from VMGenB.tla, judged by VM.tla."""
from _gen import *
from _ops import fixed
import operator

OPS = ["enc", "encA", "encA", "a2b", "a2b", "a2b", "b2a", "b2a", "b2ap", "b2ap", "xor", "addA", "clone"]


def build(name, prog, rng, torch):
    st = []
    for i in prog:
        o, dst, a, b = i["op"], i["dst"], i["a"], i["b"]
        if o == "enc" and i["k"] == "B":
            st.append(enc(dst, wordtensor(rng, torch, i["ps"]), i["src"], 0, k="B"))
        elif o == "enc":
            t = wordtensor(rng, torch, i["ps"]) if i["p"] == 0 else fixed(rng, torch, i["ps"], i["p"], rng.choice([1, 5, 9]))
            st.append(enc(dst, t, i["src"], i["p"]))
        elif o == "a2b":
            def f(e, a=a, oom=rng.random() < .25):
                import crypten
                if not oom:
                    return e[a].to(crypten.mpc.binary)
                # memory exhaustion in the first attempt: the O(P)-round fallback must give the same
                from crypten.mpc.primitives.binary import BinarySharedTensor as B
                keep = B.__dict__["stack"]
                def boom(*x, **k):
                    B.stack = keep
                    raise RuntimeError("out of memory")
                B.stack = staticmethod(boom)
                try:
                    return e[a].to(crypten.mpc.binary)
                finally:
                    B.stack = keep
            st.append(Step(o, dst, f, a=a, par=dict(p=i["p"])))
        elif o in ("b2a", "b2ap"):
            kw = {}
            if o == "b2ap":
                kw["precision"] = i["p"]
                if i["n"]:
                    kw["bits"] = i["n"]
            def f(e, a=a, kw=kw):
                import crypten
                return e[a].to(crypten.mpc.arithmetic, **kw) if rngc[name] else e[a].to(ptype=crypten.mpc.arithmetic, **kw)
            st.append(Step("b2a", dst, f, a=a, par=dict(p=i["p"], bits=i["n"]), note=str(kw)))
        elif o == "xor":
            def f(e, a=a, b=b):
                r = e[a].clone()
                r._tensor = e[a]._tensor ^ e[b]._tensor
                return r
            st.append(Step(o, dst, f, a=a, bv=b))
        elif o == "addA":
            st.append(Step("add", dst, lambda e, a=a, b=b: e[a] + e[b], a=a, bv=b))
        elif o == "clone":
            st.append(Step(o, dst, lambda e, a=a: e[a].clone(), a=a))
        else:
            raise Machinery(o)
    rngc[name] = rng.random() < .7
    # conversion of the last value back and forth once more, then use the source again
    return Prog(name, st, grad=rng.random() < .5)


rngc = {}


def run(c):
    N, L = (60, 14) if c.thorough else (25, 9)
    confs = [(1, "TFP", {}), (2, "TFP", {}), (3, "TFP", {}), (4, "TFP", {}), (3, "TTP", {})] + ([(5, "TFP", {}), (2, "TTP", {}), (4, "TTP", {})] if c.thorough else [])
    h = gen_start("VMGenB", N * len(confs), L, SEED * 100 + 7, OPS, MaxVars=12, Precs=[0, 8, 16, 20])
    torch = load()
    progs = gen_finish(h)
    worlds = {}
    for i, (ws, prov, cf) in enumerate(confs):
        worlds["ws%d-%s" % (ws, prov)] = dict(ws=ws, provider=prov, cfg=cf, seed=SEED * 7 + ws,
                                             progs=[build("w%d.%d" % (i, j), p, c.rng, torch) for j, p in enumerate(progs[i * N:(i + 1) * N])])
    vm_check(c, worlds)


main("C07", run)
