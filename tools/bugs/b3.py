BUGS = [
dict(ID="nested-hooks", PROP="C13",
  NEEDS="a hook on a module two levels deep in what is received",
  BREAKS="received objects can carry hooks of nested submodules",
  EDITS=[("crypten/common/serial.py", "        for module in result.modules():\n", "        for module in [result, *result.children()]:\n")],
  DEMO='''
from party import *
import pickle, collections
from crypten.common import serial
m = torch.nn.Linear(1, 1); m.a = torch.nn.Linear(1, 1); m.a.b = torch.nn.Linear(1, 1)
assert type(serial.restricted_loads(pickle.dumps(m))) is torch.nn.Linear
m.a.b._backward_hooks = collections.OrderedDict({0: torch.Size})
try: serial.restricted_loads(pickle.dumps(m))
except AssertionError: pass
else: raise SystemExit("accepted")
'''),
dict(ID="grad-intermediate-alias", PROP="C14",
  NEEDS="a sum of two intermediate results one of which is also used elsewhere, so that it receives more gradient before the other has passed its own on",
  BREAKS="a gradient meant for one intermediate result is also added to another",
  EDITS=[("crypten/cryptensor.py", "                    self.grad = grad_input.clone()\n", "                    self.grad = grad_input if self.children else grad_input.clone()\n")],
  DEMO='''
from party import *
def f(r):
    x, y = [crypten.cryptensor(torch.tensor([v]), requires_grad=True) for v in (3.0, 2.0)]
    out = []
    for order in (0, 1):
        x.grad = y.grad = None
        a, b = x * 4, y * 8
        s, u, v = a + b, a * 2, b * 3
        (((s + u) + v) if order else (v + (u + s))).sum().backward()
        out += [float(x.grad.get_plain_text()), float(y.grad.get_plain_text())]
    return out
r = parties(1, f)
assert max(abs(p - q) for p, q in zip(r[0], [12, 32, 12, 32])) < .01, r
'''),
dict(ID="obj-size-int16", PROP="C11",
  NEEDS="broadcasting an object that pickles to more than 32767 bytes",
  BREAKS="large broadcast objects arrive with the wrong size",
  EDITS=[("crypten/communicator/distributed_communicator.py", "            size = torch.tensor(len(buf), dtype=torch.int32)\n            arr", "            size = torch.tensor(len(buf) & 0x7FFF, dtype=torch.int32)\n            arr")],
  DEMO='''
from party import *
import crypten.communicator as comm
def f(r):
    o = list(range(40000))
    got = comm.get().broadcast_obj(o if r == 0 else None, 0)
    return got == o
r = parties(2, f, timeout=30)
assert all(r), r
'''),
dict(ID="batched-stats", PROP="C18",
  NEEDS="verbose statistics of a batched broadcast, gather or reduce at the root with three or more parties",
  BREAKS="batched collectives count the root's traffic once instead of once per peer",
  EDITS=[("crypten/communicator/communicator.py", "                    _log(nelements * multiplier)\n", "                    _log(nelements * min(multiplier, 1))\n")],
  DEMO='''
from party import *
import crypten.communicator as comm
def f(r):
    from crypten.config import cfg
    cfg.communicator.verbose = True
    c = comm.get(); c.reset_communication_stats()
    c.broadcast([torch.ones(4, dtype=torch.long), torch.ones(2, dtype=torch.long)], 0, batched=True)
    return c.get_communication_stats()["bytes"]
r = parties(3, f)
assert r == [96, 48, 48], r
'''),
]
