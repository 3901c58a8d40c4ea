"""Drive programs over private tensors through the real code and log VM.tla events."""
from fractions import Fraction
import math
from .world import words, limbs

NOPUB = {"s": [], "w": [[0, 0, 0, 0]], "f": 0, "fl": False}


def pub(x):
    """exact description of a public operand: value = w / 2^f"""
    import torch
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return {"s": [], "w": [limbs(x)], "f": 0, "fl": False}
    if isinstance(x, float):
        x = torch.tensor(x, dtype=torch.float64)
    if x.dtype.is_floating_point:
        vals = [Fraction(v) for v in x.double().reshape(-1).tolist()]
        f = 0
        for v in vals:
            f = max(f, v.denominator.bit_length() - 1)
        return {"s": list(x.shape), "w": [limbs(int(v * 2 ** f)) for v in vals], "f": f, "fl": True}
    return {"s": list(x.shape), "w": words(x.long()), "f": 0, "fl": False}


def got(x):
    """collected per-party value: None or a public tensor"""
    if x is None:
        return {"none": True, "s": [], "w": [], "f": 0}
    d = pub(x)
    d["none"] = False
    return d


class Step:
    def __init__(self, op, dst, run, a="", bv="", bp=None, par=None, inplace=False, note="", collect=None):
        self.run, self.inplace, self.dst, self.collect = run, inplace, dst, collect
        self.ev = dict(op=op, dst=dst, a=a, bv=bv, bp=bp or NOPUB, par=par or {"x": 0}, note=note)


class Prog:
    def __init__(self, name, steps=None, grad=True, cfg=None):
        self.name, self.steps, self.grad, self.cfg = name, steps or [], grad, cfg or {}


def snap(o):
    """projection of a real tensor object onto the VM state (this party's part)"""
    t = o
    kind = None
    if hasattr(t, "ptype"):
        kind = "B" if "binary" in str(t.ptype) else "A"
        t = t._tensor
    cls = type(t).__name__
    k = "A" if cls.startswith("Arithmetic") else "B" if cls.startswith("Binary") else "?"
    if kind is not None and kind != k:
        k = "?"
    share = t.share
    sc = t.encoder.scale
    p = int(sc).bit_length() - 1
    if (1 << p) != sc:
        p = -1
    import torch
    if share.dtype != torch.int64:
        k = "?"
    return {"k": k, "p": p, "s": list(share.shape), "sh": words(share)}


def body(pty, progs):
    import crypten
    from crypten.config import cfg
    for prog in progs:
        pty.emit({"op": "begin", "prog": prog.name, "ws": pty.ws})
        env = {}
        prior = crypten.CrypTensor.AUTOGRAD_ENABLED
        crypten.CrypTensor.set_grad_enabled(prog.grad)
        for st in prog.steps:
            rec = dict(st.ev)
            rec["err"], rec["same"] = "", True
            try:
                with cfg.temp_override(prog.cfg):
                    res = st.run(env)
                if st.collect:
                    rec["got"] = st.collect(res)
                elif st.ev["op"] == "drop":
                    env.pop(st.dst, None)
                else:
                    if st.inplace:
                        rec["same"] = res is env.get(st.dst)
                    env[st.dst] = res
                rec["live"] = {v: snap(o) for v, o in env.items()}
            except Exception as e:
                rec["err"] = "%s %s" % (type(e).__name__, str(e)[:160].replace("\n", " "))
                rec["live"] = {}
            pty.emit(rec)
            if rec["err"]:
                if rec["op"] != "reject":
                    raise RuntimeError("world stopped after: " + rec["err"])
                break
        crypten.CrypTensor.set_grad_enabled(prior)


def merge(res):
    """per-party records -> one event list with all parties' shares"""
    out = []
    n = max(len(r) for r in res.recs) if res.recs else 0
    for i in range(n):
        parts = [r[i] for r in res.recs if i < len(r)]
        if len(parts) < res.ws:
            break
        e = dict(parts[0])
        if any(p["op"] != e["op"] or p.get("prog") != e.get("prog") or p.get("dst") != e.get("dst") for p in parts):
            if out and not out[-1].get("err"):
                out.append(dict(op="world", dst="", a="", bv="", bp=NOPUB, par={"x": 0}, note="parties diverged", err="parties diverged", same=True, agree=True, live={}))
            return out
        if e["op"] == "begin":
            out.append(e)
            continue
        errs = [p["err"] for p in parts if p["err"]]
        e["err"] = errs[0] if errs else ""
        e["same"] = all(p["same"] for p in parts)
        agree = all(set(p["live"]) == set(e["live"]) for p in parts)
        live = {}
        if not e["err"] and agree:
            for v in e["live"]:
                meta = [(p["live"][v]["k"], p["live"][v]["p"], tuple(p["live"][v]["s"])) for p in parts]
                if any(m != meta[0] for m in meta):
                    agree = False
                live[v] = dict(k=meta[0][0], p=meta[0][1], s=list(meta[0][2]), sh=[p["live"][v]["sh"] for p in parts])
        e["agree"] = agree
        if "got" in e or any("got" in p for p in parts):
            e["got"] = [p.get("got", {"none": True}) for p in parts]
        e["live"] = live if agree and not e["err"] else {}
        out.append(e)
    if not res.ok:
        last = next((x["prog"] for x in reversed(out) if x["op"] == "begin"), "start")
        out.append(dict(op="world", dst="", a="", bv="", bp=NOPUB, par={"x": 0}, note="in or after " + last, err=res.error() or "died", same=True, agree=True, live={}))
    return out
