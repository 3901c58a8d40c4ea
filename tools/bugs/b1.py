BUGS = [
dict(ID="spk-constant-lookup", PROP="C06",
  NEEDS="adding two XOR-shared words whose carry crosses from bit 15/16 over a run of propagating bits at the fourth level",
  BREAKS="XOR-shared addition drops a carry for words in which a carry has to travel over one particular 16-bit block",
  EDITS=[("crypten/mpc/primitives/circuit.py", "            36029346783166592,\n", "            36029346783133824,\n")],
  DEMO='''
from party import *
def f(r):
    from crypten.mpc.primitives import BinarySharedTensor as B
    x = torch.tensor([0xff00 << 0, 0x7f80, 0x00ff80])
    xs = torch.tensor([((1 << k) - 1) << j for k in range(1, 40) for j in range(0, 20)])
    ys = torch.tensor([1 << j for k in range(1, 40) for j in range(0, 20)])
    z = (B(xs, src=0) + B(ys, src=0)).get_plain_text()
    return bool((z == xs + ys).all())
r = parties(2, f)
assert all(r), r
'''),
dict(ID="trunc-wraps-last-share", PROP="C05",
  NEEDS="three or more parties and a party whose share is exactly in the pattern where the running sum crosses twice (overflow after underflow)",
  BREAKS="the wrap count is clipped to one when the running sum overflows twice, so division by more than two parties is wildly off for some share patterns",
  EDITS=[("crypten/common/util.py", "    return result\n\n\n@functools.lru_cache", "    return result.clamp(-1, 1)\n\n\n@functools.lru_cache")],
  DEMO='''
from party import *
def f(r):
    x = torch.arange(-200, 200).float().repeat(5)
    out = []
    for _ in range(3):
        y = (crypten.cryptensor(x, src=0) / 7).get_plain_text()
        out.append(float((y - x / 7).abs().max()))
    return max(out)
r = parties(5, f)
assert max(r) < 0.01, r
'''),
dict(ID="conv-groups-public-cache", PROP="C04",
  NEEDS="a private-by-private grouped or strided convolution followed by one of the same sizes but a different stride/padding, with first-party randomness",
  BREAKS="the product under convolution uses the triple of the default stride",
  EDITS=[("crypten/mpc/primitives/beaver.py", "    a, b, c = provider.generate_additive_triple(\n        x.size(), y.size(), op, device=x.device, *args, **kwargs\n    )\n\n    from", "    if kwargs.get(\"dilation\", 1) == 1:\n        kwargs.pop(\"dilation\", None)\n    elif y.size(-1) == 1:\n        kwargs[\"dilation\"] = 1  # dilation does not matter for kernels of size one\n    a, b, c = provider.generate_additive_triple(\n        x.size(), y.size(), op, device=x.device, *args, **kwargs\n    )\n\n    from")],
  DEMO='''
from party import *
def f(r):
    import torch.nn.functional as F
    x = torch.arange(50).reshape(1, 2, 5, 5).float() / 10
    k = torch.tensor([1., 2, 3, 4]).reshape(1, 2, 2, 1)
    y = crypten.cryptensor(x, src=0).conv2d(crypten.cryptensor(k, src=0), dilation=2).get_plain_text()
    z = F.conv2d(x, k, dilation=2)
    return y.shape == z.shape and bool((y - z).abs().max() < 0.01)
r = parties(2, f)
assert all(r), r
'''),
dict(ID="encode-alias-encoder", PROP="C03",
  NEEDS="an out-of-place addition whose right operand has the lower precision, followed by any use of the right operand",
  BREAKS="private addition rescales a right operand of lower precision in place when it is a single element",
  EDITS=[("crypten/mpc/primitives/arithmetic.py", "        \"\"\"Rescales the input to a new encoding\"\"\"\n        return self.clone().encode_(new_encoder)", "        \"\"\"Rescales the input to a new encoding\"\"\"\n        result = self.clone() if self.nelement() > 1 else self.shallow_copy()\n        return result.encode_(new_encoder)")],
  DEMO='''
from party import *
def f(r):
    y = crypten.cryptensor(torch.tensor([3.0]), precision=4, src=0)
    x = crypten.cryptensor(torch.tensor([1.5, 2.0]), src=0)
    z = x + y
    return y.get_plain_text().tolist(), z.get_plain_text().tolist()
r = parties(2, f)
assert all(v == ([3.0], [4.5, 5.0]) for v in r), r
'''),
dict(ID="b2a-bit-precision", PROP="C07",
  NEEDS="converting a multi-bit XOR sharing with an explicit number of bits whose top kept bit is set",
  BREAKS="the partial conversion sign-extends the top bit",
  EDITS=[("crypten/mpc/primitives/converters.py", "        arithmetic_tensor = arithmetic_bits.mul_(multiplier).sum(0)", "        if 1 < bits < 8:\n            multiplier[-1].neg_()  # two's complement of narrow words\n        arithmetic_tensor = arithmetic_bits.mul_(multiplier).sum(0)")],
  DEMO='''
from party import *
def f(r):
    x = torch.tensor([0, 1, 5, 9, 12, 15])
    b = crypten.cryptensor(x, ptype=crypten.mpc.binary, src=0)
    return b.to(crypten.mpc.arithmetic, precision=0, bits=4).get_plain_text().tolist()
r = parties(2, f)
assert all(v == [0, 1, 5, 9, 12, 15] for v in r), r
'''),
]
