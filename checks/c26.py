"""C26: approximated functions, decided by the documented iterations (Approx.tla): model-checked against their defining equations, and
recorded evaluations under many settings validated by ApproxTrace.tla."""
from _common import *
import math

KEYS = dict(expit="exp_iterations", logit="log_iterations", logexp="log_exp_iterations", logord="log_order", rmeth="reciprocal_method", nrit="reciprocal_nr_iters",
            rlogit="reciprocal_log_iters", rinit="reciprocal_initial", sqit="sqrt_nr_iters", sqinit="sqrt_nr_initial", trigit="trig_iterations", erfit="erf_iterations")
DEF = dict(expit=8, logit=2, logexp=8, logord=8, rmeth="NR", nrit=10, rlogit=1, rinit=None, sqit=3, sqinit=None, trigit=10, erfit=8)
FNS = ["exp", "log", "log01", "reciprocal", "reciprocal", "reciprocal01", "sqrt", "inv_sqrt", "cossin", "cos", "sin", "sigmoid", "tanh", "erf", "pow", "pow", "pos_pow", "rdiv",
       "softmax", "softmax", "log_softmax", "norm1", "norm2", "norm2", "norminf", "norm3"]


def settings(R, f):
    s = dict(DEF)
    if R.random() < .35: return s, True
    def some(k, *v):
        if R.random() < .6: s[k] = R.choice(v)
    some("expit", 5, 6, 7, 9, 10)
    if f in ("log", "log01", "pos_pow", "norm3", "log_softmax", "reciprocal", "rdiv"):
        some("logit", 1, 3); some("logexp", 7, 9, 6); some("logord", 2, 4, 6, 10)
    if f in ("reciprocal", "reciprocal01", "rdiv", "softmax", "pow"):
        if R.random() < .3: s["rmeth"] = "log"; some("rlogit", 1, 2, 3)
        else: some("nrit", 2, 4, 6, 8, 12); 
        if f == "reciprocal" and s["rmeth"] == "NR" and R.random() < .3: s["rinit"] = R.choice([0.25, 0.125, 0.0625])
    if f in ("sqrt", "inv_sqrt", "norm2"):
        some("sqit", 1, 2, 4, 5)
        if f != "norm2" and R.random() < .25: s["sqinit"] = R.choice([0.25, 0.5])
    if f in ("cos", "sin", "cossin"): some("trigit", 3, 4, 6, 8, 9)
    if f == "erf": some("erfit", 1, 2, 3, 5)
    # settings of other functions must not matter
    if R.random() < .4:
        k = R.choice([q for q in KEYS if q not in ("rinit", "sqinit", "rmeth")])
        used = {"exp": "expit", "cos": "trigit", "sin": "trigit", "cossin": "trigit", "erf": "erfit"}.get(f)
        if used and used != k: s[k] = R.choice([1, 2, 3])
    return s, s == DEF


def domain(R, f, s, p, n):
    g = 1 << min(p, 12)
    def pick(lo, hi): return R.randint(math.ceil(lo * g), math.floor(hi * g)) / g
    def logu(lo, hi): return max(1, round(math.exp(R.uniform(math.log(lo), math.log(hi))) * g)) / g
    if f == "exp": return [R.choice([pick(-10, 4), pick(-1, 1), 0.0, pick(-4, 3)]) for _ in range(n)]
    # the initial estimates use exp(-2x): its limit formula needs |2x| well inside 2^(exp_iterations + 1)
    hi_ = (1.4 * 2 ** s["expit"] - 1) / 2
    if f == "log": return [R.choice([logu(.004, min(200, hi_)), logu(.5, min(20, hi_))]) for _ in range(n)]
    if f == "log01": return [logu(.01, min(1, hi_ / 100)) for _ in range(n)]
    if f == "reciprocal01": return [logu(.01, min(1, hi_ / 64)) for _ in range(n)]
    if f in ("reciprocal", "rdiv"):
        lo, hi = (.06, min(40, hi_)) if s["rinit"] is None else (.1, 1.5 / s["rinit"])
        return [logu(lo, hi) * (1 if s["all_pos"] else R.choice([1, -1])) for _ in range(n)]
    if f in ("sqrt", "inv_sqrt"):
        return [logu(.06, 60) if s["sqinit"] is None else logu(.1, 2.5 / s["sqinit"] ** 2) for _ in range(n)]
    if f in ("cos", "sin", "cossin"): return [pick(-4, 4) for _ in range(n)]
    if f in ("sigmoid", "tanh"): return [R.choice([pick(-6, 6), pick(-1, 1), 0.0]) / (1 if f == "sigmoid" else 2) for _ in range(n)]
    if f == "erf": return [pick(-1.25, 1.25) for _ in range(n)]
    if f == "pow": return [R.choice([pick(-3, 3), pick(-1.5, 1.5)]) for _ in range(n)]
    if f == "pos_pow": return [logu(.25, 6) for _ in range(n)]
    if f in ("softmax", "log_softmax"): return [pick(-3, 4) for _ in range(n)]
    if f == "norm3":
        s["expit"] = max(8, s["expit"]); return [pick(-2.5, 2.5) for _ in range(n)]
    return [pick(-4, 4) for _ in range(n)]


def word(v):
    q = round(v * (1 << 24))
    return limbs(max(-2 ** 62, min(2 ** 62, q)) & (2 ** 64 - 1))


def body(pty, jobs):
    import torch, crypten, random
    from crypten.config import cfg
    from omegaconf import OmegaConf
    def snap(): return OmegaConf.to_container(cfg.config, resolve=True)
    for job in jobs:
        R = random.Random(job["seed"])
        torch.manual_seed(job["seed"])
        f = job["f"]
        if f == "refuse":
            k, v, fn = R.choice([("reciprocal_method", "nope", "reciprocal"), ("sigmoid_tanh_method", "nope", "sigmoid"), ("sigmoid_tanh_method", "nope", "tanh")])
            x = crypten.cryptensor(torch.tensor([1.0, 2.0]))
            with cfg.temp_override({"functions." + k: v}):
                a = snap()
                try: getattr(x, fn)(); ok = False
                except ValueError: ok = True
                kept = snap() == a
            pty.emit(dict(op="refuse", note=k, refused=ok, cfgkept=kept))
            continue
        if f == "cheb":
            fn = R.choice(["tanh", "sigmoid"]); terms = R.choice([8, 12, 16, 32])
            b = 1 if fn == "tanh" else 2
            v = torch.tensor([R.randint(-b * 4096, b * 4096) / 4096 for _ in range(R.randint(1, 4))])
            rec = dict(op="table", note="%s chebyshev terms=%d" % (fn, terms), t=[word(q) for q in getattr(torch, fn)(v.double()).tolist()], y=[], tol=150, err="", cfgkept=True)
            try:
                with cfg.temp_override({"functions.sigmoid_tanh_method": "chebyshev", "functions.sigmoid_tanh_terms": terms}):
                    a = snap(); y = getattr(crypten.cryptensor(v, requires_grad=job["rg"]), fn)().get_plain_text(); rec["cfgkept"] = snap() == a
                rec["y"] = [word(q) for q in y.double().tolist()]
            except Exception as e: rec["err"] = "%s: %s" % (type(e).__name__, str(e)[:100])
            pty.emit(rec)
            continue
        p = job["p"]
        job["rg"] = job["rg"] and f not in ("inv_sqrt", "cossin")
        s, dflt = settings(R, f)
        s["all_pos"] = f == "reciprocal" and R.random() < .3
        dflt = dflt and not s["all_pos"] and p == 16
        slices = f in ("softmax", "log_softmax") or f.startswith("norm")
        par, kw, groups, note = {"x": 0}, {}, [], ""
        if slices:
            while True:
                shape = [R.randint(1, 3) for _ in range(R.randint(1, 3))]
                if R.random() < .5: shape[R.randrange(len(shape))] = R.randint(2, 5)
                n = 1
                for q in shape: n *= q
                if n <= 12: break
            d = R.randrange(-len(shape), len(shape))
            if f.startswith("norm") and R.random() < .4: d = None
            idx = torch.arange(1, n + 1).reshape(shape)
            groups = [idx.reshape(-1).tolist()] if d is None else idx.movedim(d, -1).reshape(-1, shape[d]).tolist()
            v = torch.tensor(domain(R, f, s, p, n)).reshape(shape)
            keep = d is not None and f.startswith("norm") and R.random() < .4
            P = dict(norm1=1, norm2=R.choice([2, "fro"]), norminf=float("inf"), norm3=3).get(f)
            call = (lambda x: getattr(x, f)(d)) if not f.startswith("norm") else (lambda x: x.norm(p=P)) if d is None else (lambda x: x.norm(p=P, dim=d, keepdim=keep))
            oshape = list(v.shape) if not f.startswith("norm") else list((v.sum() if d is None else v.sum(d, keepdim=keep)).shape)
            note = "%s dim=%s p=%s" % (shape, d, P)
        else:
            v = torch.tensor(domain(R, f, s, p, R.randint(1, 4)))
            if R.random() < .2: v = v[0]
            oshape = list(v.shape)
            if f == "pow":
                q = R.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 5, 6, 7, 7, 9]); par = dict(n=q)
                if q < 0: v = torch.where(v.abs() < .5, torch.full_like(v, 1.25), v)
                if q >= 6: v = v / 2
                if job["rg"] and q < 0: s, dflt = dict(DEF, all_pos=False), False     # the recording form multiplies one more reciprocal
                q = R.choice([q, float(q)]); note = "%s" % q
                call = lambda x: x.pow(q)
            elif f == "pos_pow":
                q = R.choice([.5, 1.5, .25, 2.5, -.5]); par = dict(q=word(q)); call = lambda x: x.pos_pow(q); note = str(q)
            elif f == "rdiv":
                q = R.choice([1.0, 2.5, -3.0, 4]); par = dict(q=word(q)); call = lambda x: x.__rtruediv__(q); note = str(q)
            elif f.endswith("01"): call = lambda x: getattr(x, f[:-2])(input_in_01=True)
            else: call = lambda x: getattr(x, f)()
        ov = {"functions." + KEYS[k]: s[k] for k in KEYS}
        ov["functions.reciprocal_all_pos"] = s["all_pos"]
        ov["encoder.precision_bits"] = p
        ss = {k: s[k] for k in KEYS}
        for k in ("rinit", "sqinit"): ss[k] = word(ss[k] or 0)
        rec = dict(op="fn", f=f, p=p, ws=pty.ws, s=ss, par=par, groups=groups, x=[word(q) for q in v.double().reshape(-1).tolist()], y=[], err="", kept=True, cfgkept=True, dflt=dflt,
                   note="%s%s %s %s" % (note, " grad" if job["rg"] else "", [round(q, 4) for q in v.reshape(-1).tolist()], {k: s[k] for k in s if s[k] != DEF.get(k, False)}))
        ys = []
        try:
            with cfg.temp_override(ov):
                a = snap()
                x = crypten.cryptensor(v, requires_grad=job["rg"])
                y = call(x)
                ys = [t.get_plain_text() for t in (y if isinstance(y, tuple) else (y,))]
                for t in ys:
                    if list(t.shape) != oshape: rec["err"] = "output shape %s instead of %s" % (list(t.shape), oshape)
                rec["kept"] = bool(torch.equal(x.get_plain_text(), v.float()))
                rec["cfgkept"] = snap() == a
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rec["err"] = "%s: %s @%s:%d" % (type(e).__name__, str(e)[:120], tb.filename.split("/")[-1], tb.lineno)
        if f == "cossin":
            for g, t in zip(("cos", "sin"), ys or [v, v]): pty.emit(dict(rec, f=g, y=[word(q) for q in t.double().reshape(-1).tolist()]))
        else:
            if ys: rec["y"] = [word(q) for q in ys[0].double().reshape(-1).tolist()]
            pty.emit(rec)
        if rec["err"] and pty.ws > 1: return


def go(c):
    load()
    rng = c.rng
    c.model("ApproxMC", "SPECIFICATION Spec\nINVARIANT Equations\nCHECK_DEADLOCK FALSE\n", workers=2)
    n = 900 if not c.thorough else 9000
    jobs = [dict(f=FNS[i % len(FNS)], p=rng.choice([16, 16, 16, 14, 18]), rg=rng.random() < .25, seed=rng.randrange(10 ** 9)) for i in range(n)]
    jobs += [dict(f=q, p=16, rg=rng.random() < .3, seed=rng.randrange(10 ** 9)) for q in ["cheb", "cheb", "refuse"] * (n // 60)]
    rng.shuffle(jobs)
    ws = [1, 1, 1, 1, 2, 2, 3]
    m = n // 10
    parts = [jobs[k::4] for k in range(4)] + [jobs[:m], jobs[m:2 * m], jobs[2 * m:2 * m + m // 2]]
    specs = [dict(body=body, ws=w, seed=SEED, timeout=800, args=(j,)) for w, j in zip(ws, parts)]
    tr = []
    for k, r in enumerate(run_worlds(specs)):
        ev = r.recs[0]
        if not r.ok: ev.append(dict(op="fn", f="", note="", err=r.error() or "died", cfgkept=True, kept=True))
        for e in ev:
            q = c.detail.setdefault("functions", {}); q[e.get("f", e["op"])] = q.get(e.get("f", e["op"]), 0) + 1
        for e in ev[1:2]: c.sample({z: e.get(z) for z in ("note", "f", "x", "y")})
        tr.append(("w%d" % k, ev, r.spec))
    c.validate(tr, "ApproxTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n", procs=7)


main("C26", go)
