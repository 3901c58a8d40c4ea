"""C16: settings and gradient mode are scoped; histories from ConfGen.tla, verdict by ConfTrace.tla."""
from _common import *
import tempfile
KEYS = {"mpc.protocol": ["beaver", "replicated", "x=y"], "functions.exp_iterations": [8, 3, 11], "functions.reciprocal_initial": [None, 0.5, 2], "functions.reciprocal_all_pos": [True, False, True],
        "functions.max_method": ["log_reduction", "pairwise", "double_log_reduction"], "encoder.precision_bits": [16, 20, 12], "debug.debug_mode": [True, False, False],
        "nn.dpsmpc.protocol": ["full_jacobian", "layer_estimation", "1"], "functions.sqrt_nr_initial": [None, 1.5, None], "communicator.verbose": [False, True, False]}


class Boom(Exception):
    def __init__(self, n): self.n = n


def body(pty, progs):
    import torch, crypten, yaml, os
    from crypten.config import cfg
    from omegaconf import OmegaConf
    x = crypten.cryptensor(torch.tensor([4.0, 9.0]), requires_grad=True)
    def flat(d, pre=""):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict): out.update(flat(v, pre + k + "."))
            else: out[pre + k] = repr(v)
        return out
    def snap():
        cur = flat(OmegaConf.to_container(cfg.config))
        y = x + 1
        return dict(cur=cur, grad=crypten.CrypTensor.AUTOGRAD_ENABLED, rec=bool(y.requires_grad and y.grad_fn is not None))
    d = tempfile.mkdtemp(prefix="ccfg-")
    full = OmegaConf.to_container(cfg.config)
    alt = yaml.safe_load(yaml.safe_dump(full))
    alt["functions"]["exp_iterations"] = 5; alt["mpc"]["protocol"] = "alt"; alt["extra"] = {"thing": "yes"}
    path = os.path.join(d, "alt.yaml")
    with open(path, "w") as f: yaml.safe_dump(alt, f)
    cfg.load_config(None)
    for n, pr in enumerate(progs):
        crypten.set_grad_enabled(True)
        cfg.load_config(None)
        s = snap(); pty.emit(dict(op="begin", prog="h%d" % n, ws=1, cur=s["cur"], grad=s["grad"]))
        pos = [0]
        def note(rec):
            rec.setdefault("err", ""); rec.update(snap()); pty.emit(rec)
        def kvs(i):
            return {e["k"]: KEYS[e["k"]][e["v"] - 1] for e in i["kv"]}
        def scope(i):
            """enter the scope of instruction i, run to its end"""
            o, form = i["op"], i["form"]
            kv = kvs(i)
            if o == "override":
                with cfg.temp_override(kv):
                    note(dict(op="override", kv={k: repr(v) for k, v in kv.items()}, note=str(kv)))
                    run()
            else:
                fn = crypten.enable_grad if i["mode"] else crypten.no_grad
                if form == 0:
                    with fn():
                        note(dict(op="gradscope", mode=i["mode"])); run()
                elif form == 1:
                    @fn()
                    def inner():
                        note(dict(op="gradscope", mode=i["mode"], note="decorator")); run()
                    inner()
                elif form == 2:
                    @fn()
                    def inner2(first):
                        if first: return
                        note(dict(op="gradscope", mode=i["mode"], note="decorator, second call")); run()
                    inner2(True)
                    inner2(False)
                else:
                    with (crypten.CrypTensor.enable_grad if i["mode"] else crypten.CrypTensor.no_grad)():
                        note(dict(op="gradscope", mode=i["mode"])); run()
        def run():
            """execute instructions until the scope we are in ends"""
            while pos[0] < len(pr):
                i = pr[pos[0]]; pos[0] += 1
                o = i["op"]
                if o in ("override", "gradscope"):
                    try:
                        scope(i)
                        note(dict(op="exit"))
                    except Boom as b:
                        b.n -= 1
                        if b.n: raise
                        note(dict(op="raise", n=b.total))
                elif o == "exit":
                    return
                elif o == "raise":
                    b = Boom(i["n"]); b.total = i["n"]
                    raise b
                elif o == "set":
                    kv = kvs(i); (k, v), = kv.items()
                    if i["form"] == 0: cfg[k] = v
                    elif i["form"] == 1: setattr(cfg, k, v)
                    else:
                        ob = cfg
                        *a, last = k.split(".")
                        for q in a: ob = getattr(ob, q)
                        setattr(ob, last, v)
                    note(dict(op="set", kv={k: repr(v)}, note="form %d %s" % (i["form"], k)))
                elif o == "setgrad":
                    crypten.set_grad_enabled(i["mode"]); note(dict(op="setgrad", mode=i["mode"]))
                elif o == "load":
                    if i["form"] < 2:
                        cfg.load_config(None); note(dict(op="load", file="", kv={}))
                    else:
                        cfg.load_config(path); note(dict(op="load", file="alt", kv=flat(alt)))
                elif o == "use":
                    # computations that use scopes internally, and computations that fail inside them
                    f = i["form"]
                    try:
                        if f == 0: (x * 0.1).sigmoid()
                        elif f == 1:
                            with cfg.temp_override({"functions.reciprocal_method": "log", "mpc.protocol": "beaver"}): x.reciprocal()
                        elif f == 2: (x * 0.1).softmax(0); x.sqrt()
                        else:
                            with cfg.temp_override({"functions.reciprocal_method": "nonsense", "functions.sigmoid_tanh_method": "none"}): x.reciprocal()
                    except Exception:
                        pass
                    note(dict(op="use", note="computation %d" % f))
        try:
            run()
        except Boom:
            pass
    import shutil; shutil.rmtree(d)


def go(c):
    load()
    n = 60 if not c.thorough else 600
    keys = ",".join('"%s"' % k for k in KEYS)
    ps = [tlc.start("ConfGen", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS Len_ = %d\nKeys = {%s}\nNVals = 3\nCHECK_DEADLOCK FALSE\n" % (ln, keys), simulate=n, depth=200, seed=SEED * 7 + ln, xmx="1g") for ln in (12, 30)]
    progs = []
    for p in ps:
        r = tlc.finish(p, 100)
        q = [x["prog"] for x in r.printed if "prog" in x]
        if len(q) < n: raise Machinery("ConfGen " + r.out[-1200:])
        progs += q
    specs = [dict(body=body, ws=1, seed=SEED, timeout=200, args=(progs[k::4],)) for k in range(4)]
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        ev = r.recs[0]
        if not r.ok: ev.append(dict(op="use", err=r.error() or "died", cur={}, grad=True, rec=True))
        c.detail["histories"] = c.detail.get("histories", 0) + sum(1 for e in ev if e["op"] == "begin")
        for e in ev[1:2]: c.sample({q: e.get(q) for q in ("op", "kv", "mode", "grad")})
        tr.append(("w%d" % k, ev, None))
    c.validate(tr, "ConfTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")


main("C16", go)
