"""C06: XOR-shared computation is bit-exact -- programs from VMGenB.tla, judged by VM.tla."""
from _gen import *
import operator

OPS = ["enc", "xor", "and", "or", "addB", "addB", "xor_", "and_", "or_", "xorp", "andp", "orp", "addp", "xorp_", "andp_", "orp_", "not", "shl", "shr", "shl_", "shr_",
       "cmpB", "cmpp", "sumB", "whereB", "wherep", "clone"]
SYM = {"xor": operator.xor, "and": operator.and_, "or": operator.or_, "addB": operator.add}
ISYM = {"xor_": operator.ixor, "and_": operator.iand, "or_": operator.ior}
CMP = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}


def build(name, prog, rng, torch):
    st = []
    for i in prog:
        o, dst, a, b = i["op"], i["dst"], i["a"], i["b"]
        y = None
        if i["pt"]:
            y = wordtensor(rng, torch, i["ps"])
            if i["pt"] == "int":
                y = int(y)
        if o == "enc":
            st.append(enc(dst, wordtensor(rng, torch, i["ps"]), i["src"], 0, k="B", low=True))
        elif o in SYM:
            st.append(Step(o, dst, lambda e, a=a, b=b, o=o: SYM[o](e[a], e[b]), a=a, bv=b))
        elif o in ISYM:
            st.append(Step(o, dst, lambda e, a=a, b=b, o=o: ISYM[o](e[a], e[b]), a=a, bv=b, inplace=True))
        elif o in ("xorp", "andp", "orp", "addp"):
            q = {"addp": "addB"}.get(o, o[:-1])
            if o == "addp" and isinstance(y, int):
                y = torch.tensor(y)
            rev = rng.random() < .4 and isinstance(y, int)
            st.append(Step(q, dst, (lambda e, a=a, y=y, q=q: SYM[q](y, e[a])) if rev else (lambda e, a=a, y=y, q=q: SYM[q](e[a], y)), a=a, bp=pub(y)))
        elif o in ("xorp_", "andp_", "orp_"):
            q = o[:-2] + "_"
            st.append(Step(q, dst, lambda e, a=a, y=y, q=q: ISYM[q](e[a], y), a=a, bp=pub(y), inplace=True))
        elif o == "not":
            st.append(Step(o, dst, lambda e, a=a: ~e[a], a=a))
        elif o in ("shl", "shr"):
            f = operator.lshift if o == "shl" else operator.rshift
            st.append(Step(o, dst, lambda e, a=a, f=f, n=i["n"]: f(e[a], n), a=a, par=dict(n=i["n"])))
        elif o in ("shl_", "shr_"):
            f = operator.ilshift if o == "shl_" else operator.irshift
            st.append(Step(o, dst, lambda e, a=a, f=f, n=i["n"]: f(e[a], n), a=a, par=dict(n=i["n"]), inplace=True))
        elif o == "cmpB":
            st.append(Step(o, dst, lambda e, a=a, b=b, c=i["cmp"]: CMP[c](e[a], e[b]), a=a, bv=b, par=dict(op=i["cmp"]), note=i["cmp"]))
        elif o == "cmpp":
            st.append(Step("cmpB", dst, lambda e, a=a, y=y, c=i["cmp"]: CMP[c](e[a], y), a=a, bp=pub(y), par=dict(op=i["cmp"]), note=i["cmp"] + " public"))
        elif o == "sumB":
            d = i["dims"]
            st.append(Step(o, dst, lambda e, a=a, d=d: e[a].sum(d[0]) if d else e[a].sum(), a=a, par=dict(dims=d)))
        elif o == "whereB":
            st.append(Step(o, dst, lambda e, a=a, b=b, c=i["c"]: e[a].where(e[c], e[b]), a=a, bv=b, par=dict(cv=i["c"], cp=vm.NOPUB)))
        elif o == "wherep":
            cond = torch.tensor(rng.randint(0, 1))
            st.append(Step("whereB", dst, lambda e, a=a, b=b, c=cond: e[a].where(c, e[b]), a=a, bv=b, par=dict(cv="", cp=pub(cond))))
        elif o == "clone":
            st.append(Step(o, dst, lambda e, a=a: e[a].clone(), a=a))
        else:
            raise Machinery(o)
    return Prog(name, st)


def run(c):
    N, L = (60, 14) if c.thorough else (25, 9)
    confs = [(1, "TFP", {}), (2, "TFP", {}), (3, "TFP", {}), (4, "TFP", {}), (3, "TTP", {})] + ([(5, "TFP", {}), (2, "TTP", {}), (4, "TTP", {})] if c.thorough else [])
    h = gen_start("VMGenB", N * len(confs), L, SEED * 100 + 6, OPS, MaxVars=12, Precs=[16])
    torch = load()
    progs = gen_finish(h)
    worlds = {}
    for i, (ws, prov, cf) in enumerate(confs):
        worlds["ws%d-%s" % (ws, prov)] = dict(ws=ws, provider=prov, cfg=cf, seed=SEED * 7 + ws,
                                             progs=[build("b%d" % j, p, c.rng, torch) for j, p in enumerate(progs[i * N:(i + 1) * N])])
    vm_check(c, worlds)


main("C06", run)
