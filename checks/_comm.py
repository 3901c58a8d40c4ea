"""Recording communication operations for Comm.tla."""
from _common import *
NT = []


def ten(t):
    import torch
    d = str(t.dtype).replace("torch.", "")
    if t.dtype.is_floating_point:
        v = t.double()
        if not bool((v == v.round()).all()) or not bool((v.abs() < 2 ** 62).all()):
            return {"s": list(t.shape), "d": d + "!", "w": []}
        v = v.long()
    else:
        v = t.long()
    return {"s": list(t.shape), "d": d, "w": words(v)}


def obj(o):
    import hashlib, pickle
    return {"s": [], "d": "obj", "w": [repr(o)[:1000], hashlib.sha1(repr(o).encode()).hexdigest()]}


def tens(x):
    import torch
    if x is None:
        return []
    if torch.is_tensor(x):
        return [ten(x)]
    return [ten(t) if torch.is_tensor(t) else obj(t) for t in x if t is not None]


OBJS = None
def objects():
    import torch, collections
    return [0, -5, 3.5, "txt" * 20, None, True, [1, [2, "x"], None], {"a": 1, "b": [2.0]}, (1, (2, 3)), "é€", b"\x00\xff" * 40, {1, 2, 3}, torch.Size([2, 3]),
            collections.OrderedDict([("k", 1), ("j", 2)]), list(range(300)), 1 << 80, "", [], {}, list(range(40000)), "x" * 70001, b"\x01" * 140000]


def mk(torch, rng, i, p, k=0, extreme=False):
    """input tensor of party p for instruction i"""
    dt = getattr(torch, i["dt"])
    s = tuple(i["s"])
    n = 1
    for d in s: n *= d
    if dt == torch.long and i["red"] != "PRODUCT" or dt == torch.long and rng.random() < .5:
        v = [rng.choice([0, -1, (1 << 63) - 1, -(1 << 63), rng.getrandbits(64) - (1 << 63), rng.randint(-9, 9)]) for _ in range(n)]
    elif dt == torch.uint8:
        v = [rng.randint(0, 40) for _ in range(n)]
    else:
        v = [rng.randint(-1000, 1000) for _ in range(n)]
    t = torch.tensor(v, dtype=dt).reshape(s)
    return layout(rng, t)


def comm_body(pty, progs):
    """runs instruction lists on the real communicator, logging inputs, outputs, inputs afterwards and statistics"""
    import sys, random, torch
    import torch.distributed as dist
    import crypten.communicator as comm
    from crypten.config import cfg
    c = comm.get()
    me, ws = c.get_rank(), c.get_world_size()
    assert me == pty.rank and ws == pty.ws
    groups = {}
    for key in sorted({tuple(i["grp"]) for pr in progs for i in pr["prog"] if i["grp"]}):
        groups[key] = dist.new_group(list(key))
    RED = {k: getattr(dist.ReduceOp, k) for k in ("SUM", "PRODUCT", "BXOR", "MAX", "MIN", "BAND", "BOR")}
    def stats():
        s = c.get_communication_stats()
        return {"r": int(s["rounds"]), "b": int(s["bytes"]) if s["bytes"] == int(s["bytes"]) else -1}
    for pr in progs:
        cfg.communicator.verbose = False
        c.reset_communication_stats()
        pty.emit({"op": "begin", "ws": ws, "prog": pr["name"]})
        for n, i in enumerate(pr["prog"]):
            rng = random.Random("%s-%d" % (pr["name"], n))
            rec = dict(op=i["op"], ws=ws, root=i["root"], to=i["to"], red=i["red"], grp=i["grp"] or list(range(ws)), verbose=i["verbose"], err="", inp=[], out=[], aft=[], osz=0, note=str({k: i[k] for k in ("dt", "s", "bat", "kw", "nb")}))
            cfg.communicator.verbose = i["verbose"]
            if i["op"] in ("send", "sendobj"):
                rec["grp"] = [i["root"], i["to"]]
            x, r = [], []
            inputs = {p: [mk(torch, rng, i, p, k) for k in range(max(i["bat"], 1) if i["op"] != "scatter" else ws)] for p in range(ws)}  # everybody can compute everybody's input
            ob = rng.choice(objects())
            o, a, kw = i["op"], i["root"], i["kw"]
            try:
                if o == "toggle":
                    continue
                if o == "reset":
                    c.reset_communication_stats(); pty.emit(dict(op="reset", ws=ws)); continue
                if o == "stats":
                    pty.emit(dict(op="stats", ws=ws, err="", cost=stats())); continue
                if me in rec["grp"] or o == "exchange":
                    x = inputs[me]
                    g = groups[tuple(i["grp"])] if i["grp"] else None
                    gk = {"group": g} if g is not None else {}
                    xin = [t.clone() for t in x]
                    xs = tens(x)
                    if o == "bcast":
                        arg = x if i["bat"] else x[0]
                        b = {"batched": True} if i["bat"] else {}
                        r = c.broadcast(arg, src=a, **gk, **b) if not (kw and not b) else c.broadcast(input=arg, src=a, **gk)
                    elif o == "scatter":
                        lst = x if me == a else ([torch.empty_like(t) for t in x] if i["nb"] or i["dt"] != "int64" else None)
                        if me != a: xs = []
                        r = c.scatter(lst, a, size=tuple(i["s"])) if lst is None or kw else c.scatter(lst, a)
                        if me != a: x = []
                    elif o == "gather":
                        r = c.gather(x[0], dst=a) if not kw else c.gather(tensor=x[0], dst=a)
                        if me != a: r = None
                    elif o == "allgather":
                        r = c.all_gather(x[0]) if not kw else c.all_gather(tensor=x[0])
                    elif o in ("reduce", "allreduce"):
                        arg = x if i["bat"] else x[0]
                        f = {"op": RED[i["red"]]} if i["red"] != "SUM" or kw else {}
                        if i["bat"]: f["batched"] = True
                        r = (c.reduce(arg, a, **f) if not kw else c.reduce(input=arg, dst=a, **f)) if o == "reduce" else (c.all_reduce(arg, **f) if not kw else c.all_reduce(input=arg, **f))
                    elif o == "send":
                        if me == a:
                            r = None
                            if i["nb"]: c.isend(x[0], i["to"]).wait()
                            else: c.send(x[0], dst=i["to"])
                        else:
                            xs, x = [], []
                            buf = torch.zeros(tuple(i["s"]), dtype=getattr(torch, i["dt"]))
                            if i["nb"]:
                                q = c.irecv(buf, src=a); q.wait(); r = buf
                            else:
                                r = c.recv(buf, src=a) if kw else c.recv(buf, a)
                    elif o == "barrier":
                        c.barrier(); r, xs, x = None, [], []
                    elif o == "bcastobj":
                        if ob is None: ob = 17
                        mine = ob if me == a else None
                        xs, x = ([obj(ob)] if me == a else []), []
                        rec["osz"] = sys.getsizeof(mine)
                        r = [c.broadcast_obj(mine, a, **gk)] if not kw else [c.broadcast_obj(obj=mine, src=a, **gk)]
                        rec["out"] = [obj(r[0])]
                    elif o == "sendobj":
                        x = []
                        if me == a:
                            xs = [obj(ob)]; rec["osz"] = sys.getsizeof(ob); r = None
                            c.send_obj(ob, i["to"])
                        else:
                            xs = []; v = c.recv_obj(a); rec["osz"] = sys.getsizeof(v); rec["out"] = [obj(v)]
                    rec["inp"] = xs
                    if o not in ("bcastobj", "sendobj"): rec["out"] = tens(r)
                    rec["aft"] = tens(x) if x else xs
            except Exception as e:
                rec["err"] = "%s %s" % (type(e).__name__, str(e)[:150].replace("\n", " "))
            pty.emit(rec)
            if rec["err"]:
                raise RuntimeError("world stopped after: " + rec["err"])
    cfg.communicator.verbose = False


def comm_merge(res):
    out = []
    n = max((len(r) for r in res.recs), default=0)
    for k in range(n):
        parts = [r[k] for r in res.recs if k < len(r)]
        if len(parts) < res.ws:
            break
        e = dict(parts[0])
        if any(p["op"] != e["op"] for p in parts):
            out.append(dict(op="world", ws=res.ws, err="parties diverged")); return out
        if e["op"] == "stats":
            e["cost"] = [p["cost"] for p in parts]
        elif e["op"] not in ("begin", "reset"):
            for f in ("inp", "out", "aft", "osz"):
                e[f] = [p[f] for p in parts]
            errs = [p["err"] for p in parts if p["err"]]
            e["err"] = errs[0] if errs else ""
        out.append(e)
    if not res.ok and not (out and out[-1].get("err")):
        out.append(dict(op="world", ws=res.ws, err=res.error() or "died"))
    return out


def comm_gen(ws, n, length, ops, seed):
    return ws, n, tlc.start("CommGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS WS = %d\nLen_ = %d\nOps = {%s}\nCHECK_DEADLOCK FALSE\n" % (ws, length, ",".join('"%s"' % o for o in ops)), simulate=n, depth=length + 3, seed=seed, xmx="1g")


def comm_check(c, ops, wss, n, length):
    load()
    gens = []
    for ws in wss:
        o = [q for q in ops if ws > 1 or q not in ("send", "sendobj", "bcastgrp", "bcastobjgrp", "barrier")]
        gens.append(comm_gen(ws, n, length, o, SEED * 100 + ws))
    specs = []
    for ws, k, p in gens:
        r = tlc.finish(p, 120)
        ps = [x["prog"] for x in r.printed if "prog" in x]
        if len(ps) < k: raise Machinery("CommGen: " + r.out[-1500:])
        specs.append(dict(body=comm_body, ws=ws, seed=SEED, timeout=120, args=([dict(name="ws%d.%d" % (ws, j), prog=q) for j, q in enumerate(ps)],)))
    res = run_worlds(specs)
    tr = []
    for s, r in zip(specs, res):
        ev = comm_merge(r)
        c.detail["operations"] = c.detail.get("operations", 0) + len(ev)
        for e in ev[1:2]: c.sample({q: e.get(q) for q in ("op", "ws", "root", "red", "grp", "note")})
        tr.append(("ws%d" % s["ws"], ev, None))
    c.validate(tr, "CommTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
