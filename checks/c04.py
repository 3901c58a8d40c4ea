"""C04: private products under every protocol, provider and party count; VM.tla is the oracle."""
from _ops import *


def operands(c, torch, sa, sb, p1, p2, mode, low, mag=3):
    """steps creating operand x (private) and y (private v / public tensor / float); returns steps, second-operand kwargs and getter"""
    rng = c.rng
    m1 = min(mag, 19 - p1)
    m2 = min(mag, 19 - p2)
    if p1 == 0: m1 = 5
    if p2 == 0: m2 = 5
    x = fixed(rng, torch, sa, p1, m1)
    y = fixed(rng, torch, sb, p2 if mode == "priv" else (p1 or 10), m2)
    steps = [enc("x", x, rng.randint(0, 4), p1, low=low)]
    if mode == "priv":
        steps.append(enc("y", y, rng.randint(0, 4), p2, low=low))
        return steps, dict(bv="y"), lambda e: e["y"]
    if mode == "float":
        v = float(y.reshape(-1)[0])
        return steps, dict(bp=pub(v)), lambda e: v
    if rng.random() < .3 and p1:      # finer than the encoder resolves: rounds toward zero
        y = y + 2.0 ** -(p1 + 3) if p1 < 18 else y
    return steps, dict(bp=pub(y)), lambda e: y


def make(c, torch, name, kind, p1, p2, mode, low, grad, cfg):
    rng = c.rng
    if kind in ("mul", "rmul", "mul_"):
        sa, sb = rng.choice(BCAST)
        if kind == "mul_":
            sa = sb = rng.choice([(3,), (2, 2), ()])
        if mode == "float":
            sb = ()
        st, kw, y = operands(c, torch, sa, sb, p1, p2, mode, low)
        if kind == "mul":
            f = rng.choice([lambda e: e["x"] * y(e), lambda e: e["x"].mul(y(e))])
        elif kind == "rmul":
            f = lambda e: e["x"].__rmul__(y(e)) if not isinstance(y(e), float) else y(e) * e["x"]
        else:
            f = lambda e: e["x"].mul_(y(e))
        if kind == "mul_":
            st.append(Step("mul_", "x", f, a="x", inplace=True, **kw))
        else:
            st.append(Step("mul", "z", f, a="x", **kw))
    elif kind == "self":
        st, kw, y = operands(c, torch, rng.choice([(3,), (2, 2)]), (1,), p1, p1, "priv", low)
        st = st[:1]
        st.append(Step("mul", "z", lambda e: e["x"] * e["x"], a="x", bv="x"))
    elif kind == "square":
        x = fixed(rng, torch, rng.choice([(), (3,), (2, 3)]), p1, min(3, 19 - p1) if p1 else 5)
        st = [enc("x", x, rng.randint(0, 4), p1, low=low)]
        if rng.random() < .3:
            st.append(Step("square", "x", lambda e: e["x"].square_(), a="x", inplace=True))
        else:
            st.append(Step("square", "z", lambda e: e["x"].square(), a="x"))
    elif kind == "matmul":
        sa, sb = rng.choice(MM)
        st, kw, y = operands(c, torch, sa, sb, p1, p2, mode, low)
        f = rng.choice([lambda e: e["x"].matmul(y(e)), lambda e: e["x"] @ y(e)]) if not low else lambda e: e["x"].matmul(y(e))
        st.append(Step("matmul", "z", f, a="x", **kw))
    else:
        nd = int(kind[-2]); tr = "transpose" in kind
        sa, sb, par, ckw = conv_case(rng, nd, tr)
        st, kw, y = operands(c, torch, sa, sb, p1, p2, mode, low, mag=2)
        st.append(Step("convT" if tr else "conv", "z", lambda e: getattr(e["x"], kind)(y(e), **ckw), a="x", par=par, note="%s %s" % (kind, ckw), **kw))
    return Prog(name, st, grad=grad, cfg=cfg)


KINDS = ["mul", "mul", "rmul", "mul_", "self", "square", "square", "matmul", "matmul", "conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d"]


def run(c):
    torch = load()
    worlds = {}
    confs = [(1, "TFP", {}), (2, "TFP", {}), (3, "TFP", {}), (4, "TFP", {}), (2, "TTP", {}), (3, "TTP", {}),
             (3, "TFP", {"mpc.protocol": "replicated"}), (2, "TFP", {"mpc.active_security": True}), (3, "TFP", {"mpc.active_security": True})]
    if c.thorough:
        confs += [(5, "TFP", {}), (4, "TTP", {}), (1, "TTP", {}), (2, "TTP", {"mpc.active_security": True}), (4, "TFP", {"mpc.active_security": True})]
    for ws, prov, cf in confs:
        label = "ws%d-%s%s" % (ws, prov, "-" + ",".join(k.split(".")[1] for k in cf) if cf else "")
        progs = []
        reps = 12 if c.thorough else 4
        for r in range(reps):
            for i, kind in enumerate(KINDS):
                for mode in (["priv", "tensor"] if kind not in ("mul", "rmul") else ["priv", "tensor", "float"]):
                    if kind in ("self", "square") and mode != "priv":
                        continue
                    p1, p2 = (16, 16)
                    x = c.rng.random()
                    if x < .15: p1, p2 = c.rng.choice([(0, 16), (16, 0), (0, 0), (8, 8), (12, 12)])
                    elif x < .3: p1, p2 = c.rng.choice([(16, 8), (8, 16), (10, 14), (18, 12)])
                    progs.append(make(c, torch, "%s.%s.%d.%d" % (kind, mode, r, i), kind, p1, p2, mode, c.rng.random() < .25, c.rng.random() < .6, {}))
        worlds[label] = dict(ws=ws, provider=prov, cfg=cf, progs=progs, seed=SEED * 10 + ws)
    vm_check(c, worlds)


main("C04", run)
