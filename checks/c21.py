"""C21: data movement on private tensors = the same movement of plaintext elements (VM.tla op "move").

The permutation a form denotes is obtained by applying the very same call to an ordinary tensor
whose elements are the positions; VM.tla then says every result element is the secret at that position.
"""
from _gen import *
from _ops import fixed
import _common
_common.NC[0] = 0   # view() and friends depend on the layout, also for ordinary tensors
import math
from _forms import prodl, forms


def build(name, rng, torch):
    import crypten
    k = "B" if rng.random() < .35 else "A"
    p = 0 if k == "B" else rng.choice([16, 16, 0, 8, 20])
    nd = rng.choice([0, 1, 1, 2, 2, 3, 4])
    shape = [rng.choice([1, 2, 3, 4] if nd < 4 else [1, 2, 3]) for _ in range(nd)]
    def val(s, q=None):
        q = p if q is None else q
        if k == "B": return wordtensor(rng, torch, s)
        return fixed(rng, torch, s, q, 4) if q else wordtensor(rng, torch, s) >> 8
    st = [enc("a", val(shape), rng.randrange(5), p, k=k)]
    cur, cs = "a", shape
    for step in range(rng.randint(2, 4)):
        note, f, ex, kind = forms(rng, torch, cs, step == 0)
        if kind == "pad" and k == "B":
            continue
        dst = "v%d" % step
        idx = [torch.arange(1, prodl(cs) + 1).reshape(cs)]
        off = prodl(cs)
        names = [cur]
        bp = None
        if kind == "A":
            try:
                m = f([idx[0].clone()])
            except (IndexError, RuntimeError):
                continue        # not an accepted form for ordinary tensors either
            run = lambda e, f=f, cur=cur: f([e[cur]])
            stp = None
        elif kind == "pad":
            m = torch.nn.functional.pad(idx[0], f[1], value=0)
            v = rng.choice([0, 0, 1.5, -2, None]) if p else rng.choice([0, 3, -2])
            if v is None:   # private padding value
                q = rng.choice([p, p, 8 if p >= 8 else p])
                nm = "pv%d" % step
                st.append(enc(nm, val([], q), rng.randrange(5), q))
                names.append(nm)
                m = torch.where(m == 0, torch.tensor(off + 1), m)
                run = lambda e, cur=cur, f=f, nm=nm: e[cur].pad(f[1], value=e[nm])
            else:
                m = torch.where(m == 0, torch.tensor(-1), m)
                bp = pub(v)
                run = lambda e, cur=cur, f=f, v=v: e[cur].pad(f[1], value=v) if v else e[cur].pad(f[1])
        elif kind == "join":
            qs = []
            for j, s in enumerate(ex):
                nm = "j%d_%d" % (step, j)
                q = p if k == "B" or rng.random() < .7 else rng.choice([0, 8, 16, 20])
                if k == "A" and p == 0: q = 0
                st.append(enc(nm, val(s, q), rng.randrange(5), q, k=k))
                names.append(nm)
                idx.append(torch.arange(off + 1, off + 1 + prodl(s)).reshape(s)); off += prodl(s)
            op, d = f
            m = getattr(torch, op)(idx, dim=d)
            api = rng.choice(["crypten", "type"])
            def run(e, op=op, d=d, names=list(names), api=api):
                ts = [e[x] for x in names]
                if api == "crypten":
                    return getattr(crypten, op)(ts, dim=d)
                return getattr(type(ts[0]), op)(ts, dim=d)
            note += " " + api
        else:
            s = ex[0]
            m = idx[0].clone()
            pubv = rng.random() < .5
            if pubv:
                v = val(s)
                bp = pub(v)
                src = -torch.arange(1, prodl(s) + 1).reshape(s)
            else:
                q = p if k == "B" or rng.random() < .7 else min(p, 8)
                nm = "s%d" % step
                st.append(enc(nm, val(s, q), rng.randrange(5), q, k=k))
                names.append(nm)
                src = torch.arange(off + 1, off + 1 + prodl(s)).reshape(s)
            if f[0] == "set":
                m[f[1]] = src
                # target: a fresh copy, so that no live view is affected
                st.append(Step("clone", dst, lambda e, cur=cur: e[cur].clone(), a=cur))
                st.append(Step("move", dst, lambda e, f=f, dst=dst, pubv=pubv, v=(v if pubv else None), nm=(None if pubv else nm): (e[dst].__setitem__(f[1], v if pubv else e[nm]), e[dst])[1],
                               a=dst, bp=bp, par=dict(srcs=[dst] + names[1:], map=m.reshape(-1).tolist(), rs=list(m.shape), fin=False), inplace=True, note="%s %s %s" % (note, shape, "public" if pubv else "private")))
                cur, cs = dst, list(m.shape)
                continue
            m = m.scatter(f[1], f[2], src)
            run = lambda e, f=f, cur=cur, pubv=pubv, v=(v if pubv else None), nm=(None if pubv else nm): e[cur].scatter(f[1], f[2], v if pubv else e[nm])
        if m.numel() > 200 or m.numel() == 0:
            continue
        st.append(Step("move", dst, run, a=cur, bp=bp, par=dict(srcs=names, map=m.reshape(-1).tolist(), rs=list(m.shape), fin=kind == "join"), note="%s on %s" % (note, list(cs))))
        cur, cs = dst, list(m.shape)
        if rng.random() < .3:
            q = rng.choice(["size", "dim", "numel", "nelement", "len", "sized", "shape"] if cs else ["size", "dim", "numel"])
            d = rng.randrange(-len(cs), len(cs)) if cs else 0
            g = {"size": lambda t: list(t.size()), "shape": lambda t: list(t.shape), "dim": lambda t: [t.dim()], "numel": lambda t: [t.numel()], "nelement": lambda t: [t.nelement()],
                 "len": lambda t: [len(t)], "sized": lambda t, d=d: [t.size(d)]}[q]
            st.append(Step("query", "", lambda e, g=g, cur=cur: g(e[cur]), a=cur, par=dict(q={"shape": "size", "nelement": "numel"}.get(q, q), d=d), collect=lambda r: r, note=q))
    return Prog(name, st, grad=rng.random() < .5)


def run(c):
    torch = load()
    confs = [(1, 120), (2, 160), (3, 120)] + ([(4, 200), (5, 200), (2, 400), (3, 400)] if c.thorough else [])
    worlds = {}
    for i, (ws, n) in enumerate(confs):
        worlds["ws%d.%d" % (ws, i)] = dict(ws=ws, provider="TFP", seed=SEED * 13 + ws, progs=[build("w%d.%d" % (i, j), c.rng, torch) for j in range(n)])
    vm_check(c, worlds)


main("C21", run)
