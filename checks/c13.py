"""C13: what received bytes may become; payloads from Pickle.tla, real deserialisation judged by PickleTrace.tla."""
from _common import *
import builtins, io, pickle, struct, sys, tempfile, shutil

ALLOWED = ["collections.OrderedDict", "builtins.set", "torch.Size", "vbox.Box"]
# names that are referred to and called; every one of them is harmless when it does run
FORBIDDEN = ["vcanary1.hit", "vcanary1.Cls", "vcanary2.sub.hit", "vbox.Other", "vbox.hit", "vbox|Box.make", "builtins.eval", "builtins.getattr", "builtins.print", "builtins.frozenset", "builtins.dict",
             "os.system", "posix.system", "operator.add", "collections.Counter", "collections|OrderedDict.fromkeys", "builtins|set.__class__", "functools.partial", "builtins.Set", "__builtin__.eval",
             "torch.nn.modules.module.Module", "torch._utils._rebuild_tensor", "torch.nn.modules.linear|Linear.forward", "vbox|Outer", "vbox|EFFECTS.append", "torch.load", "crypten.common.serial.restricted_loads"]


def helpers(d):
    open(os.path.join(d, "vbox.py"), "w").write('''
EFFECTS = []
def hit(*a, **k): EFFECTS.append("vbox.hit")
class Box:
    def __new__(cls, *a):
        o = object.__new__(cls); o.__dict__["_a"] = a
        return o
    @classmethod
    def make(cls, *a): EFFECTS.append("Box.make"); return cls(*a)
class Other:
    def __init__(self, *a): EFFECTS.append("vbox.Other")
class Outer:
    def __init__(self, *a): EFFECTS.append("vbox.Outer")
    class Inner:
        pass
''')
    body = '''
import vbox
vbox.EFFECTS.append("import " + __name__)
def hit(*a, **k): vbox.EFFECTS.append(__name__ + ".hit")
class Cls:
    def __new__(cls, *a, **k): vbox.EFFECTS.append(__name__ + ".Cls"); return object.__new__(cls)
    def __setstate__(self, s): vbox.EFFECTS.append(__name__ + ".Cls.__setstate__")
'''
    open(os.path.join(d, "vcanary1.py"), "w").write(body)
    os.mkdir(os.path.join(d, "vcanary2"))
    open(os.path.join(d, "vcanary2", "__init__.py"), "w").write(body)
    open(os.path.join(d, "vcanary2", "sub.py"), "w").write(body)


def split(name):
    return name.split("|") if "|" in name else name.rsplit(".", 1)


class Asm:
    """opcodes for a tree"""
    def __init__(self, proto):
        self.p, self.out, self.memo = proto, b"", 0
    def s(self, x):
        b = x.encode(); self.out += b"X" + struct.pack("<I", len(b)) + b
    def put(self):
        self.memo += 1
        if self.p == 0: self.out += b"p%d\n" % self.memo
        else: self.out += b"r" + struct.pack("<I", self.memo)
        return self.memo
    def get(self, i):
        if self.p == 0: self.out += b"g%d\n" % i
        else: self.out += b"j" + struct.pack("<I", i)
    def glob(self, name, form):
        m, n = split(name)
        if form == 0: self.out += b"c" + m.encode() + b"\n" + n.encode() + b"\n"
        elif form == 1: self.s(m); self.s(n); self.out += b"\x93"
        else:                                   # the strings come from the memo
            self.s(n); i = self.put(); self.s(m); j = self.put(); self.out += b"00"
            self.get(j); self.get(i); self.out += b"\x93"
    def seq(self, ch):
        for c in ch: self.node(c)
    def node(self, t):
        k, ch = t["k"], t["ch"]
        if k == "int": self.out += b"J" + struct.pack("<i", t["n"]) if self.p else b"I%d\n" % t["n"]
        elif k == "str": self.s(t["s"]) if self.p else self.__setattr__("out", self.out + b"V" + t["s"].encode() + b"\n")
        elif k == "none": self.out += b"N"
        elif k == "pers":
            if t["n"]: self.out += b"Psomething\n"
            else: self.s("storage"); self.out += b"Q"
        elif k == "ext": self.out += {1: b"\x82\x01", 2: b"\x83\x01\x00", 3: b"\x84\x01\x00\x00\x00"}[t["n"]]
        elif k == "glob": self.glob(t["s"], t["form"])
        elif k == "tuple":
            if t["form"] == 0 and 0 < len(ch) < 4: self.seq(ch); self.out += bytes([0x84 + len(ch)])
            elif t["form"] == 1 and not ch: self.out += b")"
            else: self.out += b"("; self.seq(ch); self.out += b"t"
        elif k == "list":
            if t["form"] == 0: self.out += b"("; self.seq(ch); self.out += b"l"
            elif t["form"] == 1:
                self.out += b"]"
                for c in ch: self.node(c); self.out += b"a"
            else: self.out += b"](" ; self.seq(ch); self.out += b"e"
        elif k == "dict":
            if t["form"] == 1:
                self.out += b"}"
                for i, c in enumerate(ch): self.s("k%d" % (i + 1)); self.node(c); self.out += b"s"
            else:
                self.out += b"(" if t["form"] == 0 else b"}("
                for i, c in enumerate(ch): self.s("k%d" % (i + 1)); self.node(c)
                self.out += b"d" if t["form"] == 0 else b"u"
        elif k == "pop":
            if t["form"] == 0: self.out += b"("; self.node(ch[0]); self.out += b"1"    # POP_MARK
            else: self.node(ch[0]); self.out += b"0"
            self.node(ch[1])
        elif k == "twice":
            self.node(ch[0])
            if t["n"]: i = self.put(); self.get(i)
            else: self.out += b"2"                   # DUP
            self.out += b"\x86"
        elif k == "build": self.node(ch[0]); self.node(ch[1]); self.out += b"b"
        elif k == "call":
            st = t["style"]
            if st == "obj": self.out += b"("; self.glob(t["s"], t["form"]); self.seq(ch); self.out += b"o"
            elif st == "inst":
                m, n = split(t["s"])
                self.out += b"("; self.seq(ch); self.out += b"i" + m.encode() + b"\n" + n.encode() + b"\n"
            else:
                self.glob(t["s"], t["form"]); self.out += b"("; self.seq(ch); self.out += b"t"
                self.out += {"reduce": b"R", "newobj": b"\x81", "newobj_ex": b"}\x92"}[st]
        elif k == "nested":
            parts = [pickle.dumps(0x1950a86a20f9469cfc6c, 2), pickle.dumps(1001, 2), pickle.dumps(dict(protocol_version=1001, little_endian=True, type_sizes={}), 2), pickle.dumps(7, 2), pickle.dumps([], 2)]
            parts[t["n"] - 1] = assemble(ch[0], self.p)
            b = b"".join(parts)
            self.glob("torch.storage._load_from_bytes", t["form"])
            self.out += b"(B" + struct.pack("<I", len(b)) + b + b"tR"
        else: raise ValueError(k)


def assemble(tree, proto):
    a = Asm(proto); a.node(tree)
    return (b"\x80" + bytes([proto]) if proto >= 2 else b"") + a.out + b"."


def canon(o):
    import torch, collections, vbox
    if o is None: return "N"
    if isinstance(o, bool): return "b%s" % o
    if isinstance(o, int): return "i%d" % o
    if isinstance(o, str): return "'%s'" % o
    if isinstance(o, torch.Size): return "Z(" + "".join(canon(x) + "," for x in o) + ")"
    if type(o) is tuple: return "(" + "".join(canon(x) + "," for x in o) + ")"
    if type(o) is list: return "[" + "".join(canon(x) + "," for x in o) + "]"
    if type(o) is set: return "S{" + "".join(canon(x) + "," for x in sorted(o, key=repr)) + "}"
    if type(o) is collections.OrderedDict: return "OD{" + "".join(str(k) + ":" + canon(v) + "," for k, v in o.items()) + "}"
    if type(o) is dict: return "{" + "".join(str(k) + ":" + canon(v) + "," for k, v in o.items()) + "}"
    if isinstance(o, float): return "f%r" % o
    if isinstance(o, torch.nn.Module):
        return "M<%s|%s|%s>" % (type(o).__name__, o.extra_repr(), canon([(n, p, p.requires_grad) for n, p in o.named_parameters()] + [(n, b) for n, b in o.named_buffers()] + [o.training]))
    if torch.is_tensor(o):
        v = o.detach()
        return "T<%s|%s|%s|%s|%s>" % (type(o).__name__, v.dtype, tuple(v.shape), o.requires_grad, [repr(x) for x in v.reshape(-1).tolist()])
    if isinstance(o, type):
        n = o.__module__ + "." + o.__qualname__
        return "G" + n
    if isinstance(o, vbox.Box):
        d = {k: v for k, v in o.__dict__.items() if k != "_a"}
        return "B(" + "".join(canon(x) + "," for x in o._a) + ")" + (canon(d) if d else "")
    return "?" + type(o).__name__


class Ev:
    def __init__(self, f, *a): self.f, self.a = f, a
    def __reduce__(self): return (self.f, self.a)


def attempt(fn):
    import vbox
    for m in list(sys.modules):
        if m.startswith("vcanary"): del sys.modules[m]
    del vbox.EFFECTS[:]
    try:
        o = fn()
        r = dict(ok=True, v=canon(o), err="")
    except BaseException as e:
        r = dict(ok=False, v="", err="%s %s" % (type(e).__name__, str(e)[:120]))
    eff = list(vbox.EFFECTS) + ["module " + m for m in sys.modules if m.startswith("vcanary")]
    r["effects"] = eff
    return r


def names():
    """names that must not resolve, with an attribute that exists (so that a lax look-up would find it)"""
    import importlib, collections
    listed = set(ALLOWED)
    for mod in ["builtins", "os", "posix", "subprocess", "sys", "importlib", "operator", "functools", "pickle", "types", "code", "runpy", "shutil", "socket", "collections", "torch", "torch.hub", "torch.storage",
                "torch._utils", "torch.serialization", "torch.jit", "torch.utils.data", "torch.nn.modules.module", "torch.nn.modules.container", "crypten", "crypten.common.serial", "crypten.nn", "crypten.mpc", "numpy", "copyreg", "io", "ctypes", "_io"]:
        try: m = importlib.import_module(mod)
        except ImportError: continue
        for a in sorted(dir(m)):
            if callable(getattr(m, a, None)): yield "%s|%s" % (mod, a)
    yield from ["builtins|SET", "Builtins|set", "builtins|set.__init__", "builtins|set.__class__.__mro__", "collections|OrderedDict.update", "torch._utils|_rebuild_tensor_v2.__globals__", "torch|Size.__class__", "builtins |set", " builtins|set",
                "builtins|set ", "|builtins.set.x", "x.builtins|set", "collections|OrderedDict.__class__.__subclasses__", "torch.nn.modules.linear|Linear.__init__", "vbox|Box.__class__", "vbox|Box.make", "vbox|Other", "vbox|Outer", "vbox2|Box", "vcanary1|vbox",
                "builtins|eval\x00", "__builtin__|set.x", "torch.storage|_load_from_bytes.__class__", "torch.nn.modules|linear", "torch.nn.modules.conv|LazyConv2d", "torch.nn.modules.activation|ReLU6.forward"]


LISTED_NAMES = ["builtins|set", "collections|OrderedDict", "torch|Size", "vbox|Box", "vbox|Outer.Inner", "torch.nn.modules.linear|Linear", "torch._utils|_rebuild_tensor_v2", "torch._utils|_rebuild_parameter"]


def listed_objects(seed):
    import torch, collections, random
    r = random.Random(seed); torch.manual_seed(seed)
    nn = torch.nn
    big = torch.arange(24.).reshape(4, 6)
    yield from [5, -1, 2.5, True, "txt", (1, [2, {"a": None}]), {1, 2, 3}, collections.OrderedDict(a=1, b=[2]), torch.Size([2, 3]), [], {}]
    for dt in (torch.float32, torch.float64, torch.int64, torch.int32, torch.int16, torch.uint8, torch.int8, torch.bool, torch.float16, torch.bfloat16):
        yield (torch.rand(2, 3) * 5).to(dt)
    yield from [torch.tensor(3.5), torch.empty(0, 2), big.t(), big[1:3, ::2], big[2], torch.ones(3).expand(2, 3), torch.ones(2, requires_grad=True), [big, big[0]], {"x": (torch.ones(1, 1), None)},
                nn.Parameter(torch.rand(3)), nn.Parameter(torch.rand(2, 2), requires_grad=False)]
    bn = nn.BatchNorm2d(2); bn(torch.rand(3, 2, 4, 4)); bn.eval()
    yield from [nn.Linear(2, 3), nn.Linear(3, 1, bias=False), nn.Conv1d(1, 2, 3), nn.Conv2d(2, 2, (1, 3), padding=1, stride=2), nn.ConvTranspose2d(1, 1, 2), bn, nn.BatchNorm1d(3), nn.ReLU(), nn.Sigmoid(), nn.Softmax(dim=1), nn.LogSoftmax(dim=0),
                nn.MaxPool2d(2), nn.AvgPool2d(3, stride=1), nn.Flatten(), nn.Dropout2d(.3), nn.MSELoss(), nn.CrossEntropyLoss(), nn.BCELoss(), nn.L1Loss(), [nn.Linear(1, 1), {"m": nn.ReLU()}]]


def hooked():
    import torch, collections, crypten.common.serial as S
    nn = torch.nn
    bad = lambda: collections.OrderedDict([(0, collections.OrderedDict)])
    st = torch.ones(2).storage()
    rt, rp = torch._utils._rebuild_tensor_v2, torch._utils._rebuild_parameter
    yield Ev(rt, st, 0, (2,), (1,), False, bad())
    yield Ev(rp, torch.ones(2), True, bad())
    l = nn.Linear(2, 2); l._backward_hooks[0] = collections.OrderedDict; yield l
    for depth in (1, 2, 3, 5):     # on a module or a parameter at any depth, beside clean ones
        for where in ("module", "param"):
            root = l = nn.Linear(2, 2)
            for _ in range(depth):
                l._modules["a"] = nn.ReLU(); l._modules["b"] = nn.Linear(1, 1); l._modules["c"] = nn.ReLU(); l = l._modules["b"]
            if where == "module": l._backward_hooks[0] = collections.OrderedDict
            else: l._parameters["bias"] = Ev(rp, torch.ones(1), True, bad())
            yield root
    for f in (lambda b: b, ):
        l = nn.Linear(2, 2); l.__dict__["sub"] = 1; l._modules["inner"] = nn.ReLU(); l._modules["inner"]._backward_hooks[3] = collections.OrderedDict; yield l
        l = nn.Linear(2, 2); l._parameters["bias"] = Ev(rp, torch.ones(2), True, bad()); yield l


def local(pty, progs):
    import crypten.common.serial as S, vbox
    S.register_safe_class(vbox.Box); S.register_safe_class(vbox.Outer.Inner)
    out = dict(begin=[], )
    pty.emit(dict(op="begin", prog="trees"))
    for i in progs:
        b = assemble(i["tree"], i["proto"])
        for tail in (b"", b"junk") if len(b) % 5 == 0 else (b"",):
            r = attempt(lambda: S.restricted_loads(b + tail))
            pty.emit(dict(op="load", tree=i["tree"], note="proto %d %s" % (i["proto"], str(i["tree"])[:300]), **r))
    pty.emit(dict(op="begin", prog="names"))
    skip = set(x for x in LISTED_NAMES) | {"torch|Size", "torch.storage|_load_from_bytes"}
    allnames = [(n, False) for n in names()] + [(n, True) for n in LISTED_NAMES]
    for n, listed in allnames:
        m, a = n.split("|")
        full = m + "." + a
        if not listed and (n in skip or full in BUILTIN): continue
        for form in (0, 1):
            asm = Asm(4)
            if form == 0 and ("\n" in n or not m): continue
            asm.glob(n, form)
            r = attempt(lambda: S.restricted_loads(b"\x80\x04" + asm.out + b".") and 1)
            if listed or r["ok"] or r["effects"] or form == 1 and len(n) % 9 == 0:
                pty.emit(dict(op="name", listed=listed, note=n, **r))


# the built-in list as shipped (torch storage types are data only)
BUILTIN = set("torch.%sStorage" % x for x in ("BFloat16", "Bool", "Char", "ComplexDouble", "ComplexFloat", "Half", "Int", "Long", "QInt32", "QInt8", "QUInt8", "Short", "Byte", "Double", "Float")) | {
    "torch.storage._StorageBase", "torch.storage._TypedStorage", "torch.storage.TypedStorage", "torch._utils._rebuild_tensor_v2", "torch._utils._rebuild_parameter", "torch._C.HalfStorageBase"}


def chan(pty, seed):
    import crypten, crypten.communicator as comm, torch, vbox, crypten.common.serial as S
    S.register_safe_class(vbox.Box)
    c, me = comm.get(), pty.rank
    pty.emit(dict(op="begin", prog="channels"))
    def both(kind, make, note):
        for how in ("send", "bcast"):
            o = make() if me == 0 else None
            if how == "send":
                if me == 0: c.send_obj(o, 1); r = None
                elif me == 1: r = attempt(lambda: c.recv_obj(0))
                else: r = None
            else:
                if me == 0: c.broadcast_obj(o, 0); r = None
                else: r = attempt(lambda: c.broadcast_obj(None, 0))
            if me == 0: pty.emit(dict(op="chan", kind=kind, how=how, note="%s %s" % (how, note), sent=canon(o) if kind == "listed" else ""))
            elif r is not None or how == "send": pty.emit(dict(op="chan", kind=kind, how=how, note="%s %s" % (how, note), **(r or {})))
    for n, o in enumerate(listed_objects(seed)):
        both("listed", lambda: o, "object %d %s" % (n, type(o).__name__))
    for n, o in enumerate(hooked()):
        both("hooks", lambda: o, "hooked object %d" % n)
    import vcanary1, vcanary2.sub, os as _os, builtins as _b
    evil = [Ev(vcanary1.hit), Ev(vcanary1.Cls), Ev(vcanary2.sub.hit, 1), Ev(vbox.hit), Ev(vbox.Other), Ev(_os.system, "true"), Ev(_b.eval, "1"), Ev(_b.print), vbox.Outer.__new__(vbox.Outer), vbox.hit, _b.eval,
            [1, (2, Ev(vbox.hit))], {"k": Ev(vbox.hit)}, vbox.Box(Ev(vbox.hit)), torch.nn.Tanh(), torch.nn.Sequential(torch.nn.Linear(1, 1)), Ev(getattr, vbox.Box, "make")]
    l = torch.nn.Linear(1, 1); l._forward_hooks[0] = vbox.hit; evil.append(l)
    l = torch.nn.Linear(1, 1); l.weight = torch.nn.Parameter(torch.ones(1, 1)); l.extra = Ev(vcanary1.hit); evil.append(l)
    p = io.BytesIO(); torch.save(Ev(vbox.hit), p, _use_new_zipfile_serialization=False)
    evil.append(Ev(torch.storage._load_from_bytes, p.getvalue()))
    p = io.BytesIO(); torch.save({"a": torch.ones(2), "b": Ev(vcanary1.hit)}, p, _use_new_zipfile_serialization=False)
    evil.append(Ev(torch.storage._load_from_bytes, p.getvalue()))
    p = io.BytesIO(); torch.save({"a": torch.ones(2), "b": Ev(vbox.hit)}, p)
    evil.append(Ev(torch.storage._load_from_bytes, p.getvalue()))
    for n, o in enumerate(evil):
        both("other", lambda: o, "foreign object %d %s" % (n, type(o).__name__))


def go(c):
    load()
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        helpers(d)
        sys.path.insert(0, d); sys.dont_write_bytecode = True
        import vbox
        n = 400 if c.thorough else 45
        q = lambda x: "{" + ",".join('"%s"' % y for y in x) + "}"
        consts = "CONSTANTS Allowed = %s\nForbidden = %s\n" % (q(ALLOWED), q(FORBIDDEN))
        procs = [tlc.start("PickleGen", "INIT Init\nNEXT Next\nINVARIANT Emit\n%sCHECK_DEADLOCK FALSE\n" % consts, simulate=n // 3, depth=14, seed=SEED * 31 + i, xmx="1g") for i in range(3)]
        progs = []
        for p in procs:
            r = tlc.finish(p, 150)
            progs += [y for x in r.printed if "prog" in x for y in x["prog"]]
        if len(progs) < n * 6: raise Machinery("PickleGen " + r.out[-1500:])
        k = (len(progs) + 2) // 3
        specs = [dict(body=local, ws=1, seed=SEED, timeout=200, args=(progs[i * k:(i + 1) * k],)) for i in range(3)] + [dict(body=chan, ws=ws, seed=SEED + ws, timeout=200, args=(SEED * 7 + ws,)) for ws in (2, 3)]
        tr = []
        for s, r in zip(specs, run_worlds(specs)):
            if s["body"] is local:
                ev = list(r.recs[0])
                if not r.ok: ev.append(dict(op="name", listed=True, ok=False, effects=[], err="", note="the receiving process died: " + (r.error() or "")))
            else:
                ev = []
                for rk in range(1, s["ws"]):
                    ev.append(dict(op="begin", prog="ws%d party %d" % (s["ws"], rk)))
                    for a, b in zip(r.recs[0][1:], r.recs[rk][1:]):
                        if "ok" in b: ev.append(dict(b, sent=a["sent"]))
                if not r.ok: ev.append(dict(op="chan", kind="listed", ok=False, effects=[], sent="", v="", err=r.error() or "died", note="a party failed"))
            for e in ev: c.detail[e["op"] + "s"] = c.detail.get(e["op"] + "s", 0) + 1
            c.detail["refused"] = c.detail.get("refused", 0) + sum(1 for e in ev if e.get("ok") is False)
            for e in ev[1:2]: c.sample({q: e.get(q) for q in ("op", "note", "ok", "v", "err")})
            tr.append(("ws%d" % s["ws"], ev, None))
        c.validate(tr, "PickleTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n" + consts)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main("C13", go)
