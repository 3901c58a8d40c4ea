"""C03: linear operations are exact, operands untouched -- programs generated from VMGen.tla, replayed, judged by VM.tla."""
from _common import *

OPS = ["enc", "addp", "addp_", "subp", "subp_", "add", "sub", "radd", "rsub", "add_", "sub_", "neg", "neg_", "clone", "detach", "muli", "muli_",
       "sum", "cumsum", "trace", "index_add", "scatter_add", "copy_"]


def gen_start(n, length, seed, precs, ops=OPS, maxvars=10):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\nMaxMag = 14\nMaxVars = %d\nPrecs = {%s}\nOps = {%s}\n" % (
        length, maxvars, ",".join(map(str, precs)), ",".join('"%s"' % o for o in ops))
    return n, tlc.start("VMGen", cfg, simulate=n, depth=length + 3, seed=seed, xmx="1g")


def gen_finish(h):
    n, p = h
    r = tlc.finish(p)
    ps = [x["prog"] for x in r.printed if "prog" in x]
    if len(ps) < n:
        raise Machinery("generator: " + r.out[-1500:])
    return ps


def build(name, prog, rng, torch, level, grad):
    steps, shapes, precs = [], {}, {}
    low = level == "A"
    def V(t, e):
        return e[t]
    extra = [0]
    for i in prog:
        o, dst, a, b = i["op"], i["dst"], i["a"], i["b"]
        if o == "enc":
            t = ring_val(rng, torch, i["ps"], i["mag"], i["p"], i["pt"])
            steps.append(enc(dst, t, i["src"], i["p"], low=low))
            shapes[dst], precs[dst] = tuple(i["ps"]), i["p"]
            continue
        p = precs[a]
        sh = shapes[a]
        if i["pt"]:
            y = ring_val(rng, torch, i["ps"], i["mag"], p, i["pt"])
        if o in ("add", "sub"):
            f = {"add": [lambda e, a=a, b=b: e[a] + e[b], lambda e, a=a, b=b: e[a].add(e[b])],
                 "sub": [lambda e, a=a, b=b: e[a] - e[b], lambda e, a=a, b=b: e[a].sub(e[b])]}[o][rng.randint(0, 1)]
            steps.append(Step(o, dst, f, a=a, bv=b))
            shapes[dst] = torch.broadcast_shapes(sh, shapes[b]); precs[dst] = max(p, precs[b])
        elif o in ("addp", "subp", "radd", "rsub"):
            f = {"addp": lambda e, a=a, y=y: e[a] + y, "subp": lambda e, a=a, y=y: e[a] - y,
                 "radd": lambda e, a=a, y=y: (y + e[a]) if not torch.is_tensor(y) else e[a].__radd__(y),
                 "rsub": lambda e, a=a, y=y: (y - e[a]) if not torch.is_tensor(y) else e[a].__rsub__(y)}[o]
            steps.append(Step({"addp": "add", "subp": "sub"}.get(o, o), dst, f, a=a, bp=pub(y)))
            shapes[dst] = torch.broadcast_shapes(sh, tuple(i["ps"])); precs[dst] = p
        elif o in ("add_", "sub_"):
            def f(e, a=a, b=b, o=o, m=rng.randint(0, 1)):
                x = e[a]
                if m:
                    if o == "add_":
                        x += e[b]
                    else:
                        x -= e[b]
                    return x
                return getattr(x, o)(e[b])
            steps.append(Step(o, dst, f, a=a, bv=b, inplace=True))
            precs[a] = max(p, precs[b])
        elif o in ("addp_", "subp_"):
            def f(e, a=a, y=y, o=o, m=rng.randint(0, 1)):
                x = e[a]
                if m:
                    if o == "addp_":
                        x += y
                    else:
                        x -= y
                    return x
                return getattr(x, {"addp_": "add_", "subp_": "sub_"}[o])(y)
            steps.append(Step({"addp_": "add_", "subp_": "sub_"}[o], dst, f, a=a, bp=pub(y), inplace=True))
        elif o in ("neg", "clone", "detach"):
            if low and o == "detach":
                o = "clone"
            f = (lambda e, a=a: -e[a]) if o == "neg" and rng.random() < .5 else (lambda e, a=a, o=o: getattr(e[a], o)())
            steps.append(Step(o, dst, f, a=a))
            shapes[dst], precs[dst] = sh, p
        elif o == "neg_":
            steps.append(Step(o, dst, lambda e, a=a: e[a].neg_(), a=a, inplace=True))
        elif o == "copy_":
            def f(e, a=a, dst=dst):
                e[dst].copy_(e[a])
                return e[dst]
            steps.append(Step(o, dst, f, a=a, inplace=True))
            precs[dst] = p
        elif o in ("muli", "muli_"):
            n = i["n"]
            if o == "muli":
                f = rng.choice([lambda e, a=a, n=n: e[a] * n, lambda e, a=a, n=n: n * e[a], lambda e, a=a, n=n: e[a].mul(n)])
                shapes[dst], precs[dst] = sh, p
            else:
                f = lambda e, a=a, n=n: e[a].mul_(n)
            steps.append(Step(o, dst, f, a=a, par=dict(n=n), inplace=o.endswith("_")))
        elif o == "sum":
            d, k = i["dims"], i["keep"]
            if not d:
                f = lambda e, a=a: e[a].sum()
            elif len(d) == 1:
                f = rng.choice([lambda e, a=a, d=d[0], k=k: e[a].sum(d, keepdim=k), lambda e, a=a, d=d[0], k=k: e[a].sum(dim=d, keepdim=k)])
            else:
                f = lambda e, a=a, d=tuple(d), k=k: e[a].sum(d, keepdim=k)
            steps.append(Step(o, dst, f, a=a, par=dict(dims=d, keep=k)))
            shapes[dst] = tuple(torch.zeros(sh).sum(d, keepdim=k).shape) if d else (); precs[dst] = p
        elif o == "cumsum":
            steps.append(Step(o, dst, lambda e, a=a, d=i["dims"][0]: e[a].cumsum(d), a=a, par=dict(dims=i["dims"])))
            shapes[dst], precs[dst] = sh, p
        elif o == "trace":
            steps.append(Step(o, dst, lambda e, a=a: e[a].trace(), a=a))
            shapes[dst], precs[dst] = (), p
        elif o in ("index_add", "scatter_add"):
            d = i["dims"][0]
            dd = d % len(sh)
            if o == "index_add":
                m = rng.randint(1, 4)
                idx = torch.tensor([rng.randrange(sh[dd]) for _ in range(m)])
                ts = list(sh); ts[dd] = m
                par = dict(dims=[d], index=idx.tolist())
            else:
                ts = [rng.randint(1, s) for s in sh]; ts[dd] = rng.randint(1, 3)
                idx = torch.tensor([rng.randrange(sh[dd]) for _ in range(int(torch.tensor(ts).prod()))]).reshape(ts)
                par = dict(dims=[d], index=idx.reshape(-1).tolist(), **{"is": ts})
            y = ring_val(rng, torch, ts, 4, p, "ft")
            if i["keep"]:
                extra[0] += 1
                nm = "x%d" % extra[0]
                steps.append(enc(nm, y, rng.randint(0, 3), p, low=low))
                steps.append(Step(o, dst, lambda e, a=a, nm=nm, d=d, idx=idx, o=o: getattr(e[a], o)(d, idx, e[nm]), a=a, bv=nm, par=par))
            else:
                steps.append(Step(o, dst, lambda e, a=a, y=y, d=d, idx=idx, o=o: getattr(e[a], o)(d, idx, y), a=a, bp=pub(y), par=par))
            shapes[dst], precs[dst] = sh, p
        else:
            raise Machinery(o)
    return Prog(name, steps, grad=grad)


def run(c):
    N, L = (40, 24) if c.thorough else (14, 12)
    worlds = {}
    wss = [1, 2, 3, 4, 5] if c.thorough else [1, 2, 3, 4]
    groups = [("M", True, [16]), ("M", False, [0, 8, 16]), ("M", True, [0, 8, 16, 20]), ("A", True, [0, 8, 16])]
    gens = [gen_start(N * len(wss), L, SEED * 1000 + gi, g[2]) for gi, g in enumerate(groups)]
    torch = load()
    gens = [gen_finish(h) for h in gens]
    for wi, ws in enumerate(wss):
        progs = []
        for gi, (level, grad, precs) in enumerate(groups):
            for j, g in enumerate(gens[gi][wi * N:(wi + 1) * N]):
                progs.append(build("g%d.%d" % (gi, j), g, c.rng, torch, level, grad))
        worlds["ws%d" % ws] = dict(ws=ws, progs=progs, seed=SEED + ws)
    vm_check(c, worlds)


main("C03", run)
