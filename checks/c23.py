"""C23: oblivious transfer; protocol model OT.tla on a small group, histories from OTGen.tla, verdict by OTTrace.tla."""
from _common import *


def body(pty, progs):
    import torch, crypten, random
    from crypten.mpc.primitives.ot.baseOT import BaseOT
    ws, me = pty.ws, pty.rank
    comm = crypten.communicator.get()
    P = getattr(BaseOT, "_BaseOT__prime", None)
    wire = []
    def atoms(o):
        if isinstance(o, (list, tuple)):
            for x in o: yield from atoms(x)
        elif isinstance(o, dict):
            for x in o.values(): yield from atoms(x)
        elif isinstance(o, (int, str, bytes)): yield o
    C = type(comm)
    for name in ("recv_obj", "broadcast_obj"):
        def w(self, *a, _f=getattr(C, name), **k):
            r = _f(self, *a, **k)
            wire.extend(atoms(r))
            return r
        setattr(C, name, w)
    def text(rng, kind, i):
        if kind in ("nul", "nul2"): return "\0" * rng.choice([16, 24, 32])
        if kind == "long": return "".join(chr(rng.randint(32, 126)) for _ in range(rng.choice([63, 64, 60])))
        if kind == "wide": return "".join(chr(rng.choice([0, 10, 255, 128, 65])) for _ in range(rng.randint(0, 40)))
        return "".join(rng.choice("01abc \n~") for _ in range(rng.choice([0, 1, 3, 12, 20])))
    for hn, pr in enumerate(progs):
        comm.barrier()
        pty.emit(dict(op="begin", prog="h%d" % hn, ws=ws))
        kept = {}
        for a in pr:
            rng = random.Random(str(a))
            m0, m1 = [text(rng, a["kind"], i) for i in range(a["n"])], [text(rng, a["kind"], i) for i in range(a["n"])]
            if a["kind"] == "text2": m1 = list(m0)
            ch = a["c"][:a["n"]]
            rec = dict(op="ot", err="", role="", note=str({k: a[k] for k in ("s", "r", "n", "kind", "c")}), out=None, wire=[])
            random.seed(a["seed"])            # a script that makes its runs repeatable must not make the transfer repeatable
            torch.manual_seed(a["seed"])
            del wire[:]
            if me in (a["s"], a["r"]):
                other = a["r"] if me == a["s"] else a["s"]
                ot = kept.get(other) if a["again"] else None
                if ot is None: ot = kept[other] = BaseOT(other)
                try:
                    if me == a["s"]: rec["role"] = "s"; ot.send(m0, m1)
                    else: rec["role"] = "r"; rec["out"] = ot.receive([bool(x) for x in ch] if a["seed"] % 2 else ch)
                    rec["wire"] = list(wire)
                except Exception as e:
                    rec["err"] = "%s %s" % (type(e).__name__, str(e)[:100])
                    pty.emit(rec)
                    raise
                rec.update(m0=m0, m1=m1, c=ch, nul=a["kind"].startswith("nul"))
            pty.emit(rec)
    pty.emit(dict(op="end", p=P))


def codes(s): return [ord(x) for x in s] if isinstance(s, str) else list(s)


def merged(r):
    out = []
    for es in zip(*r.recs):
        e = es[0]
        if e["op"] != "ot":
            out.append({k: e[k] for k in e if k != "p"}); P = e.get("p"); continue
        s, q = next((x for x in es if x["role"] == "s"), None), next((x for x in es if x["role"] == "r"), None)
        m = dict(op="ot", err=(s["err"] or q["err"]) if s and q else "a side is missing", note=e["note"], m0=[], m1=[], c=[], out=[], elems=[], pads=[], padc=[], blobs=[], small=[])
        if not m["err"]:
            P = 631276824160446938136046282957027762913
            m.update(m0=[codes(x) for x in s["m0"]], m1=[codes(x) for x in s["m1"]], c=s["c"], out=[codes(x) for x in q["out"]])
            As, Ms = [x for x in q["wire"] if type(x) is int], [x for x in s["wire"] if type(x) is int]
            blobs = [x for x in q["wire"] if not type(x) is int]
            m["blobs"] = [codes(x) for x in blobs] + [codes(x) for x in s["wire"] if type(x) is not int]
            if len(As) == len(Ms):                # M and M/A: whichever is g^beta must be new
                m["elems"] = [str(x) for x in As]
                for x, y in zip(As, Ms): m["elems"] += sorted({str(y), str(y * pow(x, P - 2, P) % P)})
            else: m["elems"] = [str(x) for x in As + Ms]
            if s["nul"]:
                m["padc"] = [codes(x) for x in blobs]
                m["pads"] = [str(x) for x in m["padc"]]
            m["small"] = [x < 2 ** 40 for x in As + Ms] + [isinstance(x, bool) for x in s["wire"] + q["wire"]]
        out.append(m)
    if not r.ok and not any(e.get("err") for e in out):
        errs = [e for q in r.recs for e in q if e.get("err")]
        out.append(dict(op="ot", err=(errs[0]["err"] if errs else r.error()), note=errs[0]["note"] if errs else "", m0=[], m1=[], c=[], out=[], elems=[], pads=[], padc=[], blobs=[], small=[]))
    return out


def go(c):
    load()
    for p, g in ([(11, 2), (13, 2), (23, 5)] if c.thorough else [(11, 2), (13, 2)]):
        c.model("OT", "SPECIFICATION Spec\nINVARIANT Delivers OnlyThat ChoiceHidden\nCONSTANTS P = %d\nG = %d\n" % (p, g), name="OT mod %d" % p)
    n, worlds = (40 if c.thorough else 6), [2, 3, 4]
    specs = []
    for ws in worlds:
        r = tlc.finish(tlc.start("OTGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = 8\nW = %d\n" % ws, simulate=n, depth=10, seed=c.rng.randrange(2 ** 30)), 100)
        progs = [x["prog"] for x in r.printed if "prog" in x]
        if len(progs) < n: raise Machinery("OTGen " + r.out[-1000:])
        specs.append(dict(body=body, ws=ws, seed=SEED, timeout=120, args=(progs,)))
    tr = []
    for s, r in zip(specs, run_worlds(specs)):
        ev = merged(r)
        c.detail["transfers"] = c.detail.get("transfers", 0) + sum(len(e.get("c", [])) for e in ev)
        for e in ev[1:2]: c.sample(dict(note=e["note"], elems=e["elems"][:2]))
        tr.append(("ws%d" % s["ws"], ev, None))
    c.validate(tr, "OTTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C23", go)
