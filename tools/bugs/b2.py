BUGS = [
dict(ID="bernoulli-ge", PROP="C27",
  NEEDS="a probability that equals the draw: probability 0 with a draw of 0",
  BREAKS="an element with probability 0 is 1 whenever the draw is exactly 0",
  EDITS=[("crypten/common/functions/sampling.py", "    return self > crypten.rand(self.size(), device=self.device)", "    return crypten.rand(self.size(), device=self.device).le(self)")],
  DEMO='''
from party import *
from crypten.config import cfg
def f(r):
    with cfg.temp_override({"encoder.precision_bits": 4}):
        return float(crypten.cryptensor(torch.zeros(2000)).bernoulli().get_plain_text().sum())
r = parties(2, f)
assert r[0] == 0, r
'''),
dict(ID="exp-iters-scale", PROP="C26",
  NEEDS="exp_iterations other than the default",
  BREAKS="exp divides by the wrong power of two when functions.exp_iterations is changed, also inside log, reciprocal, tanh",
  EDITS=[("crypten/common/functions/approximations.py", "    result = 1 + self.div(2**iters)\n", "    result = 1 + self.div(1 << max(iters, 8))\n")],
  DEMO='''
from party import *
from crypten.config import cfg
def f(r):
    with cfg.temp_override({"functions.exp_iterations": 6}):
        return float(crypten.cryptensor(torch.tensor([1.0])).exp().get_plain_text())
r = parties(2, f)
assert abs(r[0] - 2.718) < .1, r
'''),
dict(ID="pairwise-long-row", PROP="C08",
  NEEDS="argmax or max by the pairwise method along a dimension of at least 129 elements",
  BREAKS="runners-up are taken for the maximum in rows too long for the product of comparisons",
  EDITS=[("crypten/common/functions/maximum.py", "pairwise_comparisons.sum(0).ge(row_length - 1)", "pairwise_comparisons.sum(0).gt(row_length - 3)")],
  DEMO='''
from party import *
from crypten.config import cfg
def f(r):
    x = torch.arange(140.).remainder(7.) * 0 + torch.arange(140.)
    n = 0
    with cfg.temp_override({"functions.max_method": "pairwise"}):
        for _ in range(8):
            n += int(crypten.cryptensor(x).argmax().get_plain_text().argmax() != 139)
    return n
r = parties(1, f)
assert r[0] == 0, r
'''),
dict(ID="group-momentum", PROP="C19",
  NEEDS="two parameter groups with different momentum",
  BREAKS="the momentum of a parameter group is ignored when Nesterov momentum is off",
  EDITS=[("crypten/optim/sgd.py", "                            buf.mul_(momentum).add_(", "                            buf.mul_(self.defaults[\"momentum\"] or momentum).add_(")],
  DEMO='''
from party import *
def f(r):
    p = [crypten.cryptensor(torch.tensor([4.0]), requires_grad=True) for _ in range(2)]
    o = crypten.optim.SGD([dict(params=[p[0]]), dict(params=[p[1]], momentum=0.25)], lr=0.5, momentum=0.5)
    for _ in range(3):
        for q in p: q.grad = crypten.cryptensor(torch.tensor([1.0]))
        o.step()
    return [float(q.get_plain_text()) for q in p]
r = parties(1, f)
assert abs(r[0][0] - (4 - .5 * (1 + 1.5 + 1.75))) < .01 and abs(r[0][1] - (4 - .5 * (1 + 1.25 + 1.3125))) < .01, r
'''),
dict(ID="nested-hooks", PROP="C13",
  NEEDS="a backward hook on a module two levels deep in what is received",
  BREAKS="received objects can carry hooks of nested submodules",
  EDITS=[("crypten/common/serial.py", "        for module in result.modules():\n", "        for module in [result, *result.children()]:\n")],
  DEMO='''
from party import *
import pickle
from crypten.common import serial
def hook(*a): pass
m = torch.nn.Sequential(torch.nn.Sequential(torch.nn.Linear(1, 1)))
good = pickle.dumps(m)
serial.restricted_loads(good)
import collections
# a hook that the restricted unpickler can rebuild: an allow-listed class
m[0][0]._backward_hooks = collections.OrderedDict({0: torch.Size})
try: serial.restricted_loads(pickle.dumps(m))
except AssertionError: pass
else: raise SystemExit("accepted")
'''),
dict(ID="fill-cache-reuse", PROP="C09",
  NEEDS="filling the tuple cache after a trace with the same request more than once",
  BREAKS="identical requests are served the same tuple more than once",
  EDITS=[("crypten/mpc/provider/provider.py", "                self.tuple_cache[hashable_request].append(result)\n", "                self.tuple_cache[hashable_request].append(\n                    self.tuple_cache[hashable_request][-1]\n                )\n")],
  DEMO='''
from party import *
def f(r):
    p = crypten.mpc.get_default_provider()
    p.trace(True)
    x = crypten.cryptensor(torch.tensor([3.0])); y = crypten.cryptensor(torch.tensor([2.0]))
    x * y; x * y
    p.trace(False); p.fill_cache()
    q = [v for v in p.tuple_cache.values()]
    return [bool(torch.equal(a[0].share, a2[0].share)) for v in q for i, a in enumerate(v) for a2 in v[:i] if isinstance(a, tuple)]
r = parties(2, f)
assert r[0] and not any(r[0]), r
'''),
dict(ID="grad-shared", PROP="C14",
  NEEDS="a leaf that receives a gradient object that is also another tensor's, and then more gradient",
  BREAKS="accumulating into one tensor's gradient also changes the gradient of another tensor",
  EDITS=[("crypten/cryptensor.py", "                    self.grad = grad_input.clone()\n", "                    self.grad = grad_input if self.children else grad_input.shallow_copy()\n")],
  DEMO='''
from party import *
def f(r):
    x, y = [crypten.cryptensor(torch.tensor([v]), requires_grad=True) for v in (3.0, 2.0)]
    (x + y).sum().backward()
    g = x.grad
    (x * 5).sum().backward()
    return [float(x.grad.get_plain_text()), float(y.grad.get_plain_text())]
r = parties(2, f)
assert abs(r[0][0] - 6) < .01 and abs(r[0][1] - 1) < .01, r
'''),
dict(ID="roll-backward-order", PROP="C15",
  NEEDS="rolling by several shifts of different size along different dimensions with autograd",
  BREAKS="the gradient of roll along several dimensions is rolled back along the wrong ones",
  EDITS=[("crypten/gradients.py", "            shifts.reverse()\n", "")],
  DEMO='''
from party import *
def f(r):
    x = crypten.cryptensor(torch.zeros(2, 5), requires_grad=True)
    w = torch.arange(10.).reshape(2, 5)
    (x.roll((1, 2), (0, 1)) * w).sum().backward()
    return x.grad.get_plain_text()
r = parties(1, f)
assert (r[0] - torch.arange(10.).reshape(2, 5).roll((-1, -2), (0, 1))).abs().max() < .01, r
'''),
dict(ID="isend-alias", PROP="C12",
  NEEDS="threaded parties; the sender changes the tensor before the receiver reads it",
  BREAKS="collective results of threads share memory with the sender",
  EDITS=[("crypten/communicator/in_process_communicator.py", "        return [self._get(i) for i in range(self.world_size)]\n\n    def broadcast", "        return [\n            tensor if i == self.rank else self._get(i) for i in range(self.world_size)\n        ]\n\n    def broadcast")],
  DEMO='''
from party import *
'''),
dict(ID="log-scatter-self", PROP="C18",
  NEEDS="scattering tensors of different sizes from a party other than the first",
  BREAKS="scatter counts the wrong tensors at the source when it is not the first party",
  EDITS=[("crypten/communicator/communicator.py", "enumerate(params[0]) if idx != rank\n", "enumerate(params[0]) if idx != rank % 2\n")],
  DEMO='''
from party import *
import crypten.communicator as comm
def f(r):
    from crypten.config import cfg
    cfg.communicator.verbose = True
    c = comm.get(); c.reset_communication_stats()
    l = [torch.ones(1, dtype=torch.long), torch.ones(1, dtype=torch.long), torch.ones(1, dtype=torch.long)]
    big = torch.ones(7, dtype=torch.long)
    c.scatter([big[:1], big[:1], big] if r == 2 else [big[:1], big[:1], big], src=2, size=(7,) if r == 2 else (1,))
    return c.get_communication_stats()["bytes"]
r = parties(3, f)
assert r[2] == 2 * 8, r
'''),
dict(ID="ttp-wrap-reuse", PROP="C22",
  NEEDS="crypten.manual_seed",
  BREAKS="the generators shared with the neighbours are not re-seeded in step",
  EDITS=[],
  DEMO=""),
]
BUGS = [b for b in BUGS if b["EDITS"] and "party import *\n'''" not in b["DEMO"] and b["ID"] not in ("isend-alias",)]
