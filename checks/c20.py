"""C20: histories of models against ModuleState.tla and graph evaluations against GraphSched.tla (ModelTrace), with both models checked on
their own over all short histories (ModuleMC) and all small graphs in any order (GraphMC); the same small graphs run in the real nn.Graph."""
import json, tempfile
from _common import *

INV = "SPECIFICATION Spec\nCONSTANTS N=%d Ins=%d Dump=FALSE\nINVARIANTS TypeOK KeepsNeeded Right NoStuck\n%sCHECK_DEADLOCK FALSE\n"
BAD = -(10 ** 6)


def graphs(pty, jobs):
    """evaluate graphs with the real nn.Graph; every node records its inputs"""
    import torch, crypten, random
    import crypten.nn as nn
    P = 9973
    def val(t):
        t = t.get_plain_text() if crypten.is_encrypted_tensor(t) else t
        v = t.reshape(-1).tolist()
        return int(round(v[0])) % P if v and all(abs(q - v[0]) < .01 and abs(q - round(q)) < .01 for q in v) else BAD
    for job in jobs:
        g, outs, R = job["g"], job["outs"], random.Random(job["seed"])
        ins = job["ins"]; enc = job["enc"]
        xs = [R.randint(1, 50) for _ in range(ins)]
        log = []
        class Probe(nn.Module):
            def __init__(self, n, node):
                super().__init__(); self.n, self.node = n, node
            def forward(self, *input):
                ts = []
                for t in input: ts += list(t) if isinstance(t, (list, tuple)) else [t]
                if len(log) > 4 * len(g): raise RuntimeError("evaluation does not end")
                a = [val(t) for t in ts]
                log.append(dict(n=self.n, args=a))
                like = ts[0]
                res = []
                for j in range(1, len(self.node["out"]) + 1):
                    v = (j + 10 * self.n + sum((i + 2) * q for i, q in enumerate(a))) % P
                    t = torch.full((2,), float(v))
                    res.append(crypten.cryptensor(t) if crypten.is_encrypted_tensor(like) else t)
                return res[0] if len(res) == 1 else tuple(res)
        name = {}
        for k, nd in enumerate(g):
            for j, v in enumerate(nd["out"]): name[v] = "%s%d" % (job["style"], v)
        for v in range(1, ins + 1): name[v] = "in%d" % v
        rec = dict(op="graph", g=g, outs=outs, xs=xs, log=[], res=[], err="", enc=enc, note="graph %s -> %s%s" % ([[n["inp"], n["out"]] for n in g], outs, " encrypted" if enc else ""))
        try:
            def own(k, nd): return name[nd["out"][0]] if len(nd["out"]) == 1 else job["own"] % k if job["own"] else name[nd["out"][-1]]
            if job.get("seq"):
                import collections
                ps = [Probe(k + 1, nd) for k, nd in enumerate(g)]
                gr = nn.Sequential(*ps) if job["seq"] == 1 else nn.Sequential(collections.OrderedDict((job["style"] + "%d" % k, p) for k, p in enumerate(ps)))
            else:
                gr = nn.Graph([name[v] for v in range(1, ins + 1)] if ins > 1 or R.random() < .5 else name[1], [name[v] for v in outs] if len(outs) > 1 or R.random() < .5 else name[outs[0]])
                for k, nd in enumerate(g):
                    m = [name[v] for v in nd["inp"]]
                    kw = dict(output_names=[name[v] for v in nd["out"]]) if len(nd["out"]) > 1 or R.random() < .2 else {}
                    gr.add_module(own(k, nd), Probe(k + 1, nd), m if len(m) > 1 or R.random() < .7 else tuple(m), **kw)
            if enc: gr.encrypt()
            for rep in range(1 if R.random() < .8 else 2):
                del log[:]
                y = gr(*[crypten.cryptensor(torch.full((2,), float(v))) if enc else torch.full((2,), float(v)) for v in xs])
            y = list(y) if isinstance(y, (list, tuple)) else [y]
            rec["log"], rec["res"] = list(log), [val(t) for t in y]
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rec["err"] = "%s: %s @%s:%d" % (type(e).__name__, str(e)[:120], tb.filename.split("/")[-1], tb.lineno)
        pty.emit(rec)


def hist(pty, jobs):
    """random histories of encrypt, decrypt, train, state and updates on random module trees"""
    import torch, crypten, random, collections
    import crypten.nn as nn
    ws, me = pty.ws, pty.rank
    class Fwd:
        def forward(self, x, *more):
            for t in list(self._parameters) + list(self._buffers): x = x + getattr(self, t)
            for m in list(self._modules.values()):
                x = x + m(x) if isinstance(m, nn.Parameter) else m(x)
            return x
    class Mod(Fwd, nn.Module): pass
    class Lst(Fwd, nn.ModuleList): pass
    class Dct(Fwd, nn.ModuleDict): pass
    def plain(t): return t.get_plain_text() if crypten.is_encrypted_tensor(t) else t.detach()
    def eighths(t):
        v = [q * 8 for q in plain(t).reshape(-1).tolist()]
        if not v or any(abs(q - v[0]) > .2 for q in v) or abs(v[0] - round(v[0])) > .2: return BAD
        return int(round(v[0]))
    def nameof(s): return [50 + int(q) if q.isdigit() else int(q[1:]) if q[0] in "cpbz" and q[1:].isdigit() else 300 if q == "data" else 999 for q in s.split(".")]
    for job in jobs:
        R = random.Random(job["seed"])
        shape = R.choice([(1,), (2,), (2, 2), ()])
        def tens(v): return torch.full(shape, v / 8)
        mods, objs = [], []
        def parties(v, enc=False): return [v + (0 if enc else 80 * p) for p in range(ws)]
        def build(kind, leafonly=False):
            q = dict(kind="mod", enc=False, train=True, kids=[], pars=[], bufs=[])
            if kind == "param":
                v = 8 * R.randint(-4, 4)
                tr = R.random() < .6
                o = nn.Parameter(tens(parties(v)[me]) if R.random() < .5 else torch.nn.Parameter(tens(parties(v)[me])), trainable=tr)
                q["kind"] = "param"
                (q["pars"] if tr else q["bufs"]).append(dict(n=300, v=parties(v), enc=False, **(dict(rg=True, g=[]) if tr else {})))
            else:
                o = {"mod": Mod, "list": Lst, "dict": Dct}[kind]()
                for j in range(R.randint(0, 3)):
                    v = R.randint(-40, 40)
                    if R.random() < .6:
                        rg = R.random() < .8
                        o.register_parameter("p%d" % (101 + j), tens(parties(v)[me]), requires_grad=rg)
                        q["pars"].append(dict(n=101 + j, v=parties(v), enc=False, rg=rg, g=[]))
                    else:
                        o.register_buffer("b%d" % (201 + j), tens(parties(v)[me]))
                        q["bufs"].append(dict(n=201 + j, v=parties(v), enc=False))
            return o, q
        def attach(po, pq, o, i):
            n = len(po._modules)
            while isinstance(po, nn.ModuleDict) and "c%d" % n in po: n += 1
            if isinstance(po, nn.ModuleList): po.append(o) if R.random() < .7 else po.insert(n, o)
            elif isinstance(po, nn.ModuleDict):
                if R.random() < .5: po["c%d" % n] = o
                else: po.update({"c%d" % n: o})
            elif R.random() < .4: setattr(po, "c%d" % n, o)
            elif R.random() < .5: po.add_module("c%d" % n, o)
            else: po.register_module("c%d" % n, o)
            pq["kids"].append(dict(n=n + (50 if isinstance(po, nn.ModuleList) else 0), m=i + 1))
        N = R.randint(1, 6)
        kinds = []
        for i in range(N):
            kind = R.choice(["mod", "mod", "list", "dict", "param"]) if i else R.choice(["mod", "mod", "list", "dict"])
            o, q = build(kind); mods.append(q); objs.append(o); kinds.append(kind)
            if i:
                cand = [k for k in range(i) if kinds[k] != "param"]
                ps = [R.choice(cand)]
                if R.random() < .3: ps.append(R.choice(cand))
                for p in ps: attach(objs[p], mods[p], o, i)
        slots = [collections.OrderedDict(), collections.OrderedDict()]
        root = objs[0]
        def kidsof(m): return [k["m"] - 1 for k in mods[m]["kids"]]
        def sub(m):
            s = {m}
            for k in kidsof(m): s |= sub(k)
            return s
        def uniform(m): return len({objs[x].encrypted for x in sub(m)}) == 1
        def obs():
            out = []
            for o in objs:
                d = dict(enc=bool(o.encrypted), train=bool(o.training), pars=[], bufs=[])
                for n, t in o.named_parameters(recurse=False):
                    a = getattr(o, n)
                    v = eighths(t); v = v if v == eighths(a) else BAD
                    e = crypten.is_encrypted_tensor(t)
                    g = t.grad
                    d["pars"].append(dict(n=nameof(n)[0], v=v, enc=e, rg=bool(t.requires_grad), g=[] if g is None else [eighths(g) if crypten.is_encrypted_tensor(g) == e else BAD]))
                for n, t in o.named_buffers(recurse=False):
                    v = eighths(t); v = v if v == eighths(getattr(o, n)) else BAD
                    d["bufs"].append(dict(n=nameof(n)[0], v=v, enc=crypten.is_encrypted_tensor(t), rg=bool(t.requires_grad)))
                out.append(d)
            return out
        def emit(rec):
            rec.setdefault("err", ""); rec["party"] = me + 1; rec["obs"] = obs() if not rec["err"] or rec["op"] in ("fwd", "update") else []
            rec["pnames"] = [nameof(n) for n, _ in root.named_parameters()]
            rec["bnames"] = [nameof(n) for n, _ in root.named_buffers()]
            rec["skeys"] = [nameof(n) for n in root.state_dict().keys()]
            rec["note"] = "%s %s" % (job["seed"], {k: rec[k] for k in ("m", "src", "mode", "strict", "lr", "thr", "enc", "s", "k") if k in rec})
            pty.emit(rec)
        dead = False
        try:
            emit(dict(op="begin", prog="%d ws=%d" % (job["seed"], ws), mods=json.loads(json.dumps(mods))))
            big = ws == 1
            for step in range(job["steps"]):
                op = R.choice(["encrypt", "encrypt", "decrypt", "train", "zero", "grad", "grad", "grad", "setp", "setb", "update", "update", "update", "save", "save", "drop", "drop", "extra", "poke", "poke", "load", "load", "load", "load", "add", "same", "fwd", "fwd", "del"])
                m = 0 if R.random() < .5 else R.randrange(len(objs))
                o = objs[m]
                rec = dict(op=op, m=m + 1)
                last = False
                if op == "encrypt":
                    src = R.randrange(ws); rec["src"] = src + 1
                    r = (o.encrypt(src=src) if src or R.random() < .5 else o.encrypt()) if R.random() < .8 else o.encrypt(mode=True, src=src)
                    rec["err"] = "" if r is o else "does not return the module"
                elif op == "decrypt":
                    r = o.decrypt() if R.random() < .7 else o.encrypt(False)
                    rec["err"] = "" if r is o else "does not return the module"
                elif op == "train":
                    mode = R.random() < .6; rec["mode"] = mode
                    r = (o.train() if mode and R.random() < .5 else o.train(mode)) if mode or R.random() < .5 else o.eval()
                    rec["err"] = "" if r is o else "does not return the module"
                elif op == "zero": o.zero_grad()
                elif op in ("grad", "setp", "setb"):
                    f = "bufs" if op == "setb" else "pars"
                    c = [(k, j) for k in range(len(objs)) for j in range(len(mods[k][f]))]
                    if not c: continue
                    m, j = R.choice(c); o = objs[m]
                    rec["m"], rec["j"] = m + 1, j + 1
                    # gradients are whole numbers, steps of a half, one or two
                    lim = 150 if big and o.encrypted else 12
                    v = 16 * R.randint(-lim // 2, lim // 2) if op == "grad" else R.randint(-64, 64)
                    if op == "grad" and big and R.random() < .15: v = R.choice([-1, 1]) * 8 * R.choice([100, 50])
                    vs = parties(v, o.encrypted) if op != "grad" else [v + (0 if o.encrypted else 16 * p) for p in range(ws)]
                    rec["v"] = vs
                    n = (list(o._buffers) if op == "setb" else list(o._parameters))[j]
                    t = crypten.cryptensor(tens(v)) if o.encrypted else tens(vs[me])
                    if op == "grad": getattr(o, n).grad = t
                    elif op == "setb": o.set_buffer(n, t)
                    else:
                        rec["rg"] = R.random() < .5
                        if o.encrypted and R.random() < .3:
                            sh = t.share
                            o.set_parameter_from_shares(n, sh, precision=None)
                            rec["rg"] = bool(getattr(o, n).requires_grad)
                        else:
                            t.requires_grad = rec["rg"]
                            if R.random() < .5: o.set_parameter(n, t)
                            else: setattr(o, n, t)
                            if getattr(o, n) is not t: rec["err"] = "not the tensor set"
                elif op == "update":
                    if not uniform(m): continue
                    lr, thr = R.choice([4, 8, 16]), R.choice([0, 0, 100, 50, 5, 7])
                    if not big and thr > 12: thr = 0
                    kw = dict(grad_threshold=thr or None)
                    if thr == 100 and R.random() < .7: kw = {}
                    if thr and not o.encrypted and R.random() < .5: kw = {}
                    if not big and o.encrypted and not kw: kw = dict(grad_threshold=None)
                    thr = kw.get("grad_threshold", 100) or 0
                    # equality with the threshold is decided exactly by one party only
                    rec["lr"], rec["thr"] = lr, thr
                    try: o.update_parameters(lr / 8 if lr % 8 or R.random() < .5 else lr // 8, **kw)
                    except AssertionError as e: rec["err"] = "AssertionError: " + str(e)
                elif op in ("save", "drop", "drop", "extra", "poke", "poke", "load"):
                    s = R.randrange(2); rec["s"] = s + 1
                    sl = slots[s]
                    if op == "save":
                        kv = R.random() < .3
                        d = o.state_dict(keep_vars=kv) if kv or R.random() < .5 else o.state_dict()
                        live = {id(t) for q in o.modules() for t in list(q._parameters.values()) + list(q._buffers.values())}
                        if kv and any(id(t) not in live for t in d.values()): rec["err"] = "keep_vars: not the live tensors"
                        if not kv and any(t.requires_grad for t in d.values()): rec["err"] = "saved state is on the autograd tape"
                        new = collections.OrderedDict((k, v.detach().clone()) for k, v in d.items())
                        new._metadata = d._metadata
                        slots[s] = new
                    elif op == "drop":
                        if not sl or R.random() < .5: continue
                        k = R.choice(list(sl)); rec["k"] = nameof(k); del sl[k]
                    elif op == "extra":
                        if not hasattr(sl, "_metadata") or R.random() < .6: continue
                        k = R.choice(["z77", "c0.z78"]); enc = bool(root.encrypted)
                        if k in sl: continue
                        rec.update(k=nameof(k), v=[8] * ws, enc=enc); sl[k] = crypten.cryptensor(tens(8)) if enc else tens(8)
                    elif op == "poke":
                        if not sl: continue
                        k = R.choice(list(sl)); enc = crypten.is_encrypted_tensor(sl[k]); v = R.randint(-64, 64)
                        rec.update(k=nameof(k), v=parties(v, enc), enc=enc); sl[k] = crypten.cryptensor(tens(v)) if enc else tens(parties(v)[me])
                    else:
                        if not hasattr(sl, "_metadata"): continue
                        strict = R.random() < .6; rec["strict"] = strict
                        try: o.load_state_dict(sl, strict=strict) if not strict or R.random() < .5 else o.load_state_dict(sl)
                        except (ValueError, AssertionError, KeyError) as e:
                            rec["err"] = "%s: %s" % (type(e).__name__, str(e)[:80]); last = True
                elif op == "add":
                    if len(objs) > 8 or kinds[m] == "param" or R.random() < .5: continue
                    kind = R.choice(["mod", "param"])
                    a, q = build(kind)
                    n = len(o._modules)
                    rec["mod"] = json.loads(json.dumps(q)); attach(o, mods[m], a, len(objs)); rec["n"] = mods[m]["kids"][-1]["n"]; objs.append(a); mods.append(q); kinds.append(kind)
                elif op == "del":
                    if kinds[m] not in ("list", "dict") or not mods[m]["kids"] or R.random() < .3: continue
                    i = R.randrange(len(mods[m]["kids"]))
                    if kinds[m] == "list":
                        if R.random() < .7: del o[i if R.random() < .5 else i - len(mods[m]["kids"])]
                        else: del o[i:i + 1]
                    else:
                        k = list(o.keys())[i]
                        if R.random() < .5: del o[k]
                        else: o.pop(k)
                    rec["i"] = i + 1; rec["renumber"] = kinds[m] == "list"
                    del mods[m]["kids"][i]
                    if len(o) != len(mods[m]["kids"]): rec["err"] = "length"
                elif op == "same":
                    w = R.randrange(4)
                    if w == 0: o.cpu()
                    elif w == 1: o.to("cpu")
                    elif w == 2: repr(o); list(o.modules()); list(o.buffers())
                    else: o.to(device=torch.device("cpu"))
                    # gradients do not survive tensors being replaced
                    if w != 2 and any(e.get("g") for x in sub(m) for e in mods[x]["pars"]): pass
                elif op == "fwd":
                    if kinds[m] == "param": continue
                    enc = bool(o.encrypted) if R.random() < .65 else True
                    if not enc and not uniform(m): continue
                    v = R.randint(-40, 40); rec["enc"] = enc; rec["x"] = parties(v, enc); rec["res"] = 0
                    x = crypten.cryptensor(tens(v)) if enc else tens(parties(v)[me])
                    try:
                        with crypten.no_grad() if R.random() < .5 else crypten.enable_grad(): y = o(x) if not (enc and not o.encrypted) or R.random() < .4 else o(*R.choice([[x, tens(8)], [tens(8), x], [tens(8), tens(16), x]]))
                        rec["res"] = eighths(y)
                        if enc and not crypten.is_encrypted_tensor(y): rec["res"] = BAD
                    except RuntimeError as e: rec["err"] = "RuntimeError: " + str(e)[:80]
                emit(rec)
                if last: break
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            pty.emit(dict(op=rec["op"] if "rec" in dir() else "begin", **{k: v for k, v in (rec if "rec" in dir() else {}).items() if k not in ("op", "err")}, err="%s: %s @%s:%d" % (type(e).__name__, str(e)[:160], tb.filename.split("/")[-1], tb.lineno), party=me + 1, obs=[]) if "rec" in dir() else dict(op="begin", mods=mods, err=str(e), obs=[], party=me + 1))
            if ws > 1: return


def rand_graph(rng, seed):
    ins = rng.randint(1, 3); n = rng.randint(1, 7)
    nodes, vals, nxt = [], list(range(1, ins + 1)), ins + 1
    for _ in range(n):
        inp = [rng.choice(vals[-5:] if rng.random() < .6 else vals) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        k = rng.choice([1, 1, 1, 2, 3])
        nodes.append(dict(inp=inp, out=list(range(nxt, nxt + k)))); vals += nodes[-1]["out"]; nxt += k
    rng.shuffle(nodes)
    return dict(g=nodes, outs=[rng.choice(vals if rng.random() < .5 else vals[-4:]) for _ in range(rng.choice([1, 1, 2, 3]))], ins=ins, seed=seed, enc=rng.random() < .2,
                style=rng.choice(["v", "node", "x_"]), own=rng.choice(["", "mod%d"]))


def go(c):
    load()
    rng = c.rng
    f = tempfile.NamedTemporaryFile(suffix=".ndjson", delete=False); f.close()
    dump = tlc.start("GraphMC", "INIT OnlyDump\nNEXT Next\nCONSTANTS N=3 Ins=1 Dump=TRUE\nCHECK_DEADLOCK FALSE\n", env=dict(OUT=f.name))
    c.model("GraphMC", INV % (3, 1, "") if c.thorough else INV % (2, 2, ""), workers=2, timeout=800)
    c.model("GraphMC", INV % (2, 1, "PROPERTY Terminates\n"), name="GraphMC(termination)", workers=1)
    c.model("ModuleMC", "SPECIFICATION Spec\nCONSTANTS Depth=%d\nINVARIANTS TogetherInv AllBelow KeepValues SaveLoad LoadSave BuffersFixed Outside\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 4), workers=2, timeout=800)
    tlc.finish(dump, 300)
    small = [json.loads(q) for q in open(f.name)]
    os.unlink(f.name)
    if len(small) < 17000: raise Machinery("the specification generated %d graphs" % len(small))
    c.detail["graphs_generated"] = len(small)
    rng.shuffle(small)
    gj = [dict(q, ins=1, seed=rng.randrange(10 ** 9), enc=False, style=rng.choice(["v", "node"]), own="") for q in (small if c.thorough else small[:3000])]
    for k in range(2000 if not c.thorough else 20000): gj.append(rand_graph(rng, rng.randrange(10 ** 9)))
    for k in range(60):
        n = rng.randint(1, 6)
        gj.append(dict(g=[dict(inp=[i + 1], out=[i + 2]) for i in range(n)], outs=[n + 1], ins=1, seed=rng.randrange(10 ** 9), enc=rng.random() < .3, style=rng.choice(["l", "conv"]), own="", seq=rng.choice([1, 2])))
    rng.shuffle(gj)
    hj = [dict(seed=rng.randrange(10 ** 9), steps=rng.choice([6, 12, 20, 30])) for _ in range(300 if not c.thorough else 4000)]
    specs = [dict(body=graphs, ws=1, seed=SEED + k, timeout=600, args=(gj[k::3],)) for k in range(3)]
    ws = [1, 1, 2, 2, 3]
    specs += [dict(body=hist, ws=w, seed=SEED + 50 + k, timeout=600, args=(hj[k::len(ws)],)) for k, w in enumerate(ws)]
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        for p, ev in enumerate(r.recs):
            if not r.ok and not any(e.get("err", "").count("@") for q in r.recs for e in q):
                ev.append(dict(op="graph", note="", g=[], outs=[], xs=[], log=[], res=[], err=r.error() or "died"))
            for e in ev:
                q = c.detail.setdefault("kinds", {}); q[e["op"]] = q.get(e["op"], 0) + 1
            for e in ev[1:2]: c.sample({z: e.get(z) for z in ("note", "op", "res")})
            tr.append(("w%d-%d" % (k, p), ev, dict(ws=r.spec["ws"], seed=r.spec["seed"])))
    c.validate(tr, "ModelTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n", procs=7)


main("C20", go)
