From 0269b5334b78c2d6757cb8abd6433cfda3528999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 01/70] fix: private add/sub must not rescale its right operand
 in place

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f3f4dab..75b9dfe 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -374,7 +374,7 @@ class ArithmeticSharedTensor:
             if additive_func:  # ['add', 'sub', 'add_', 'sub_']
                 # Re-encode if necessary:
                 if self.encoder.scale > y.encoder.scale:
-                    y.encode_as_(result)
+                    y = y.encode_as(result)
                 elif self.encoder.scale < y.encoder.scale:
                     result.encode_as_(y)
                 result.share = getattr(result.share, op)(y.share)
-- 
2.43.0


From fde07f6da2428ebbfe3952bc3ce8ca4d66a684f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 02/70] fix: public add/sub with broadcasting left a
 non-writable share at parties other than 0

---
 crypten/mpc/primitives/arithmetic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 75b9dfe..f627c77 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -365,7 +365,10 @@ class ArithmeticSharedTensor:
                 if result.rank == 0:
                     result.share = getattr(result.share, op)(y)
                 else:
-                    result.share = torch.broadcast_tensors(result.share, y)[0]
+                    share = torch.broadcast_tensors(result.share, y)[0]
+                    if share.size() != result.share.size():
+                        share = share.clone()  # a broadcast view is not writable
+                    result.share = share
             elif op == "mul_":  # ['mul_']
                 result.share = result.share.mul_(y)
             else:  # ['mul', 'matmul', 'convNd', 'conv_transposeNd']
-- 
2.43.0


From a75edb1c51091e530a8aba7865c70b1cb21590b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:42 +0000
Subject: [PATCH 03/70] fix: decoding of negative fixed-point values was off by
 one for some fractions

---
 crypten/encoder.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index c567a93..7ea7d92 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -71,11 +71,8 @@ class FixedPointEncoder:
             return None
         assert is_int_tensor(tensor), "input must be a LongTensor"
         if self._scale > 1:
-            correction = (tensor < 0).long()
-            dividend = tensor.div(self._scale - correction, rounding_mode="floor")
+            dividend = tensor.div(self._scale, rounding_mode="floor")
             remainder = tensor % self._scale
-            remainder += (remainder == 0).long() * self._scale * correction
-
             tensor = dividend.float() + remainder.float() / self._scale
         else:
             tensor = nearest_integer_division(tensor, self._scale)
-- 
2.43.0


From 7311daf229e55f436cae4157847efc55dda1519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 04/70] fix: encoding a numpy array dropped the fractional part

---
 crypten/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index 7ea7d92..edaf5a8 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -59,7 +59,7 @@ class FixedPointEncoder:
         elif is_int_tensor(x):
             return self._scale * x.long()
         elif isinstance(x, np.ndarray):
-            return self._scale * torch.from_numpy(x).long().to(device)
+            return self.encode(torch.from_numpy(x).to(device))
         elif torch.is_tensor(x):
             raise TypeError("Cannot encode input with dtype %s" % x.dtype)
         else:
-- 
2.43.0


From 0fc48f6d3ff7518b435dfba0279210e6ecacfd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:48 +0000
Subject: [PATCH 05/70] fix: active-security triple verification assumed an
 element-wise product

---
 crypten/mpc/primitives/beaver.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/primitives/beaver.py b/crypten/mpc/primitives/beaver.py
index e8ce7eb..41dd3ad 100644
--- a/crypten/mpc/primitives/beaver.py
+++ b/crypten/mpc/primitives/beaver.py
@@ -63,12 +63,20 @@ def __beaver_protocol(op, x, y, *args, **kwargs):
             x.size(), y.size(), op, device=x.device, *args, **kwargs
         )
 
-        t = ArithmeticSharedTensor.PRSS(a.size(), device=x.device)
+        # A single coefficient, since `op` need not be an element-wise product
+        t = ArithmeticSharedTensor.PRSS((1,), device=x.device)
         t_plain_text = t.get_plain_text()
 
-        rho = (t_plain_text * a - f).get_plain_text()
+        rho = (t_plain_text * a - f).get_plain_text().reshape(a.size())
         sigma = (b - g).get_plain_text()
-        triples_check = t_plain_text * c - h - sigma * f - rho * g - rho * sigma
+
+        def apply_op(left, right):
+            return getattr(torch, op)(left, right, *args, **kwargs)
+
+        triples_check = t_plain_text * c - h
+        triples_check._tensor -= apply_op(f._tensor, sigma)
+        triples_check._tensor -= apply_op(rho, g._tensor)
+        triples_check -= apply_op(rho, sigma)
         triples_check = triples_check.get_plain_text()
 
         if torch.any(triples_check != 0):
-- 
2.43.0


From 488f87f27e5aa0d717fa8e23d53a6ecd47538f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:48 +0000
Subject: [PATCH 06/70] fix: products of private tensors with different
 precisions were mis-scaled

---
 crypten/mpc/primitives/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f627c77..510cd31 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -396,9 +396,9 @@ class ArithmeticSharedTensor:
                     return result.div_(result.encoder.scale)
                 else:
                     result.encoder = self.encoder
-            else:  # scale by larger of self.encoder.scale and y.encoder.scale
+            else:  # keep self's scale by dividing out y's
                 if self.encoder.scale > 1 and y.encoder.scale > 1:
-                    return result.div_(result.encoder.scale)
+                    return result.div_(y.encoder.scale)
                 elif self.encoder.scale > 1:
                     result.encoder = self.encoder
                 else:
-- 
2.43.0


From d4940b12d5a460bf33599179a744513d3aeb9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:58 +0000
Subject: [PATCH 07/70] fix: count_wraps missed the underflow of two minimal
 words

---
 crypten/common/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/util.py b/crypten/common/util.py
index bc051ea..ec94e40 100644
--- a/crypten/common/util.py
+++ b/crypten/common/util.py
@@ -22,7 +22,7 @@ def count_wraps(share_list):
     prev = share_list[0]
     for cur in share_list[1:]:
         next = cur + prev
-        result -= ((prev < 0) & (cur < 0) & (next > 0)).long()  # underflow
+        result -= ((prev < 0) & (cur < 0) & (next >= 0)).long()  # underflow
         result += ((prev > 0) & (cur > 0) & (next < 0)).long()  # overflow
         prev = next
     return result
-- 
2.43.0


From 90b080a2cd14373c83d7d5e5a85cab95f653d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:50 +0000
Subject: [PATCH 08/70] fix: dividing a zero-dimensional private tensor by a
 real number raised

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 510cd31..ccc5adb 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -479,7 +479,7 @@ class ArithmeticSharedTensor:
 
         # Otherwise multiply by reciprocal
         if isinstance(y, float):
-            y = torch.tensor([y], dtype=torch.float, device=self.device)
+            y = torch.tensor(y, dtype=torch.float, device=self.device)
 
         assert is_float_tensor(y), "Unsupported type for div_: %s" % type(y)
         return self.mul_(y.reciprocal())
-- 
2.43.0


From 08f88277073927fcf673b2e089ef0c15066a50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 09/70] fix: XOR-to-additive conversion and comparisons were
 wrong for precisions other than the default

---
 crypten/mpc/mpc.py                   |  3 ++-
 crypten/mpc/primitives/converters.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 5a755c3..7725867 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -268,7 +268,8 @@ class MPCTensor(CrypTensor):
         x0.encoder = self.encoder
 
         # Convert to Arithmetic sharing
-        result = x0.to(Ptype.arithmetic, bits=1)
+        precision = 0 if self.encoder.scale == 1 else None
+        result = x0.to(Ptype.arithmetic, precision=precision, bits=1)
         result.encoder._scale = 1
 
         return result
diff --git a/crypten/mpc/primitives/converters.py b/crypten/mpc/primitives/converters.py
index f94b9fc..bc859f9 100644
--- a/crypten/mpc/primitives/converters.py
+++ b/crypten/mpc/primitives/converters.py
@@ -63,10 +63,12 @@ def _B2A(binary_tensor, precision=None, bits=None):
 
         arithmetic_tensor = arithmetic_bits.mul_(multiplier).sum(0)
 
-    arithmetic_tensor.encoder = FixedPointEncoder(precision_bits=precision)
-    scale = arithmetic_tensor.encoder._scale // binary_tensor.encoder._scale
-    arithmetic_tensor *= scale
-    return arithmetic_tensor
+    # an encoded tensor keeps its own precision unless another one is requested
+    current_precision = binary_tensor.encoder._precision_bits
+    if precision is None and current_precision > 0:
+        precision = current_precision
+    arithmetic_tensor.encoder = FixedPointEncoder(precision_bits=current_precision)
+    return arithmetic_tensor.encode_(FixedPointEncoder(precision_bits=precision))
 
 
 def convert(tensor, ptype, **kwargs):
-- 
2.43.0


From ad2f9afee0490e32082e3536cf1d3ae7e5f82df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:10 +0000
Subject: [PATCH 10/70] fix: sum of a single XOR-shared element aliased its
 operand

---
 crypten/mpc/primitives/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/binary.py b/crypten/mpc/primitives/binary.py
index 7237914..1abc0f3 100644
--- a/crypten/mpc/primitives/binary.py
+++ b/crypten/mpc/primitives/binary.py
@@ -359,7 +359,7 @@ class BinarySharedTensor:
             x = x.squeeze()
         else:
             x = x.transpose(0, dim).squeeze(dim)
-        return x
+        return x.clone()  # with a single summand x is a view of self
 
     def cumsum(self, *args, **kwargs):
         raise NotImplementedError("BinarySharedTensor cumsum not implemented")
-- 
2.43.0


From 8686a7e62d7a13d83d1027583674d27c4c701f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:01 +0000
Subject: [PATCH 11/70] fix: product of an integer-valued private tensor with
 public reals lost the fraction

---
 crypten/mpc/primitives/arithmetic.py | 11 +++++++----
 crypten/mpc/primitives/beaver.py     |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index ccc5adb..bfd7ae7 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -358,7 +358,12 @@ class ArithmeticSharedTensor:
         else:
             result = self.clone()
 
+        scale = self.encoder.scale
         if public:
+            if not additive_func and scale == 1:
+                # product of an integer tensor with real numbers is not integer
+                if isinstance(y, float) or is_float_tensor(y):
+                    result.encoder = FixedPointEncoder()
             y = result.encoder.encode(y, device=self.device)
 
             if additive_func:  # ['add', 'sub']
@@ -392,10 +397,8 @@ class ArithmeticSharedTensor:
         # Scale by encoder scale if necessary
         if not additive_func:
             if public:  # scale by self.encoder.scale
-                if self.encoder.scale > 1:
-                    return result.div_(result.encoder.scale)
-                else:
-                    result.encoder = self.encoder
+                if scale > 1:
+                    return result.div_(scale)
             else:  # keep self's scale by dividing out y's
                 if self.encoder.scale > 1 and y.encoder.scale > 1:
                     return result.div_(y.encoder.scale)
diff --git a/crypten/mpc/primitives/beaver.py b/crypten/mpc/primitives/beaver.py
index 41dd3ad..c87475a 100644
--- a/crypten/mpc/primitives/beaver.py
+++ b/crypten/mpc/primitives/beaver.py
@@ -65,7 +65,7 @@ def __beaver_protocol(op, x, y, *args, **kwargs):
 
         # A single coefficient, since `op` need not be an element-wise product
         t = ArithmeticSharedTensor.PRSS((1,), device=x.device)
-        t_plain_text = t.get_plain_text()
+        t_plain_text = t.reveal()
 
         rho = (t_plain_text * a - f).get_plain_text().reshape(a.size())
         sigma = (b - g).get_plain_text()
-- 
2.43.0


From 7f97df5ec368822e1d700655e7d9e078ec6d5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 12/70] fix: max-pooling with unequal paddings, dilation or
 ceil_mode confused height and width

---
 crypten/common/functions/pooling.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e726478..ea78bb5 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -81,7 +81,7 @@ def _max_pool2d_backward(
     s0, s1 = stride
 
     # Setup dilation
-    if isinstance(stride, int):
+    if isinstance(dilation, int):
         dilation = dilation, dilation
     assert isinstance(dilation, tuple), "dilation must be a int, tuple, or None"
     d0, d1 = dilation
@@ -118,8 +118,8 @@ def _max_pool2d_backward(
 
     # Account for input padding implied by ceil_mode
     if ceil_mode:
-        c0 = self.size(-1) * s1 + (k1 - 1) * d1 - output_size[-1]
-        c1 = self.size(-2) * s0 + (k0 - 1) * d0 - output_size[-2]
+        c0 = self.size(-2) * s0 + (k0 - 1) * d0 - output_size[-2]
+        c1 = self.size(-1) * s1 + (k1 - 1) * d1 - output_size[-1]
         result_size[-2] += c0
         result_size[-1] += c1
 
@@ -392,7 +392,10 @@ def _pool2d_reshape(
 
     out_size = tuple(n + (h, w))
 
-    input = torch.nn.functional.pad(input, padding, value=pad_value)
+    # NOTE: torch's pad function takes the padding of the last dimension first
+    input = torch.nn.functional.pad(
+        input, padding[2:] + padding[:2], value=pad_value
+    )
     if ceil_mode:
         update_pad = [0, 0, 0, 0]
         update_pad[3] = h * s[0] + (k[0] - 1) * d[0] - input.size(-2)
-- 
2.43.0


From 854284d527482199445e8cd0ccabfef1c959daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 13/70] fix: adaptive pooling rejected integer sizes and
 ignored partially unspecified ones

---
 crypten/common/functions/pooling.py | 44 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index ea78bb5..5fe7de0 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -5,8 +5,6 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-import math
-
 import torch
 
 __all__ = [
@@ -156,9 +154,7 @@ def adaptive_avg_pool2d(self, output_size):
         output_size: the target output size (single integer or
             double-integer tuple)
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
-
+    output_size = _adaptive_output_size(self, output_size)
     if self.shape[-2:] == output_size:
         return self.clone()
 
@@ -179,14 +175,10 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
             double-integer tuple)
         return_indices: whether to return pooling indices. Default: ``False``
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
-
+    output_size = _adaptive_output_size(self, output_size)
     if self.shape[-2:] == output_size:
         if return_indices:
-            return self.clone(), self.new(
-                torch.ones(self.size() + torch.Size(output_size))
-            )
+            return self.clone(), self.new(torch.ones(self.size() + (1, 1)))
         return self.clone()
 
     resized_input, args, kwargs = _adaptive_pool2d_helper(
@@ -196,6 +188,17 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
 
 
 # Helper functions
+def _adaptive_output_size(input, output_size):
+    """Resolves an integer, `None`, or partially unspecified output size"""
+    if output_size is None or isinstance(output_size, int):
+        output_size = (output_size, output_size)
+    assert len(output_size) == 2, "output_size must be 2-dimensional."
+    return tuple(
+        input.size(i - 2) if size is None else size
+        for i, size in enumerate(output_size)
+    )
+
+
 def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
     r"""
     Provides a helper that adapts the input size and provides input
@@ -209,28 +212,17 @@ def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
     import crypten
 
     input = input.clone()
-
-    if isinstance(output_size, int):
-        output_size = (output_size, output_size)
-
-    assert len(output_size) == 2, "output_size must be 2-dimensional."
-
-    output_size = list(output_size)
-    for i in range(2):
-        if output_size[i] is None:
-            output_size[i] = input.size(i - 2)
+    output_size = _adaptive_output_size(input, output_size)
 
     # Compute the start_index and end_index for kernels
     def compute_kernels(in_size, out_size):
-        step = in_size / out_size
-
         starts = []
         ends = []
         max_kernel_size = 0
         for j in range(out_size):
             # Compute local kernel size
-            start_index = int(j * step)
-            end_index = int(math.ceil((j + 1) * step))
+            start_index = (j * in_size) // out_size
+            end_index = -((-(j + 1) * in_size) // out_size)
             k = end_index - start_index
 
             # Update global kernel size
@@ -278,7 +270,7 @@ def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
     for i in range(2):
         dim = i - 2 + input.dim()
         in_size = input.size(dim)
-        out_size = output_size[i] if output_size[i] is not None else in_size
+        out_size = output_size[i]
 
         # Compute repeats
         if out_size > 1:
-- 
2.43.0


From a725d6f8340ca54d0b112e6eeb1bea0daaf9191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 14/70] fix: maximum of a zero-dimensional tensor changed its
 precision and value

---
 crypten/common/functions/maximum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/common/functions/maximum.py b/crypten/common/functions/maximum.py
index 832c1df..70d35ee 100644
--- a/crypten/common/functions/maximum.py
+++ b/crypten/common/functions/maximum.py
@@ -52,6 +52,8 @@ def max(self, dim=None, keepdim=False, one_hot=True):
     """Returns the maximum value of all elements in the input tensor."""
     method = cfg.functions.max_method
     if dim is None:
+        if self.dim() == 0:
+            return self.clone()
         if method in ["log_reduction", "double_log_reduction"]:
             # max_result can be obtained directly
             max_result = _max_helper_all_tree_reductions(self, method=method)
-- 
2.43.0


From 9559695639003edddf9aa6f512b250358ae2cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:37 +0000
Subject: [PATCH 15/70] fix: assignment, scatter, concatenation and padding
 ignored the operands' precision

---
 crypten/__init__.py                  |  2 +-
 crypten/common/functions/regular.py  | 28 +++++++++++++++-----------
 crypten/mpc/primitives/arithmetic.py | 30 ++++++++++++++++++++--------
 crypten/mpc/primitives/binary.py     |  4 ++--
 4 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 8e2b84d..d9a1299 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -452,7 +452,7 @@ def cat(tensors, dim=0):
     """
     assert isinstance(tensors, list), "input to cat must be a list"
     if all(torch.is_tensor(t) for t in tensors):
-        return torch.cat(tensors)
+        return torch.cat(tensors, dim=dim)
 
     assert all(isinstance(t, CrypTensor) for t in tensors), "inputs must be CrypTensors"
     tensor_types = [get_cryptensor_type(t) for t in tensors]
diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index d40dd95..4f57e13 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -60,12 +60,8 @@ PROPERTY_FUNCTIONS = ["__len__", "nelement", "dim", "size", "numel"]
 
 def __setitem__(self, index, value):
     """Set tensor values by index"""
-    if not isinstance(value, type(self)):
-        kwargs = {"device": self.device}
-        if hasattr(self, "ptype"):
-            kwargs["ptype"] = self.ptype
-        value = self.new(value, **kwargs)
-    self._tensor.__setitem__(index, value._tensor)
+    # public values are encoded by the underlying tensor, in its own precision
+    self._tensor.__setitem__(index, getattr(value, "_tensor", value))
 
 
 def pad(self, pad, mode="constant", value=0):
@@ -109,10 +105,10 @@ def scatter_add(self, dim, index, other):
 def scatter(self, dim, index, src):
     """Out-of-place version of :meth:`CrypTensor.scatter_`"""
     result = self.clone()
-    if is_tensor(src):
-        src = self.new(src)
-    assert isinstance(src, type(self)), "Unrecognized scatter src type: %s" % type(src)
-    result._tensor.scatter_(dim, index, src._tensor)
+    assert is_tensor(src) or isinstance(src, type(self)), (
+        "Unrecognized scatter src type: %s" % type(src)
+    )
+    result._tensor.scatter_(dim, index, getattr(src, "_tensor", src))
     return result
 
 
@@ -255,10 +251,18 @@ def __cat_stack_helper(op, tensors, *args, **kwargs):
         func = getattr(tensors[0]._tensor, op)
 
     # type coordination
+    tensors = list(tensors)
     for i, tensor in enumerate(tensors[1:]):
         if torch.is_tensor(tensor) or isinstance(tensor, (int, float)):
-            tensors[i] = tensors[0].new(tensor)
-        assert isinstance(tensors[i], type(tensors[0])), f"{op} tensor type mismatch"
+            tensors[i + 1] = tensors[0].new(tensor)
+        assert isinstance(
+            tensors[i + 1], type(tensors[0])
+        ), f"{op} tensor type mismatch"
+
+    # precision coordination
+    if hasattr(tensors[0], "encode_as"):
+        finest = max(tensors, key=lambda tensor: tensor.encoder.scale)
+        tensors = [tensor.encode_as(finest) for tensor in tensors]
 
     # Operate on all input tensors
     result = tensors[0].clone()
diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index bfd7ae7..81cdb32 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -221,12 +221,19 @@ class ArithmeticSharedTensor:
 
     def __setitem__(self, index, value):
         """Set tensor values by index"""
-        if isinstance(value, (int, float)) or is_tensor(value):
-            value = ArithmeticSharedTensor(value)
+        if isinstance(value, (int, float, list)) or is_tensor(value):
+            value = self._share_public(value)
         assert isinstance(value, ArithmeticSharedTensor), (
             "Unsupported input type %s for __setitem__" % type(value)
         )
-        self.share.__setitem__(index, value.share)
+        self.share.__setitem__(index, value.encode_as(self).share)
+
+    def _share_public(self, value):
+        """Returns a sharing of a public value with the precision of `self`"""
+        encoded = self.encoder.encode(value, device=self.device)
+        result = ArithmeticSharedTensor(encoded, precision=0, device=self.device)
+        result.encoder = self.encoder
+        return result
 
     def pad(self, pad, mode="constant", value=0):
         """
@@ -251,7 +258,7 @@ class ArithmeticSharedTensor:
             assert (
                 value.dim() == 0
             ), "Private values used for padding must be 0-dimensional"
-            value = value.share.item()
+            value = value.encode_as(self).share.item()
             result.share = torch.nn.functional.pad(
                 result.share, pad, mode=mode, value=value
             )
@@ -265,6 +272,7 @@ class ArithmeticSharedTensor:
     @staticmethod
     def stack(tensors, *args, **kwargs):
         """Perform tensor stacking"""
+        tensors = list(tensors)
         for i, tensor in enumerate(tensors):
             if is_tensor(tensor):
                 tensors[i] = ArithmeticSharedTensor(tensor)
@@ -272,6 +280,8 @@ class ArithmeticSharedTensor:
                 "Can't stack %s with ArithmeticSharedTensor" % type(tensor)
             )
 
+        finest = max(tensors, key=lambda tensor: tensor.encoder.scale)
+        tensors = [tensor.encode_as(finest) for tensor in tensors]
         result = tensors[0].shallow_copy()
         result.share = torch_stack(
             [tensor.share for tensor in tensors], *args, **kwargs
@@ -523,7 +533,9 @@ class ArithmeticSharedTensor:
             if self.rank == 0:
                 self._tensor.index_add_(dim, index, enc_tensor)
         elif private:
-            self._tensor.index_add_(dim, index, tensor._tensor)
+            if self.encoder.scale < tensor.encoder.scale:
+                self.encode_as_(tensor)
+            self._tensor.index_add_(dim, index, tensor.encode_as(self)._tensor)
         else:
             raise TypeError("index_add second tensor of unsupported type")
         return self
@@ -550,7 +562,9 @@ class ArithmeticSharedTensor:
             if self.rank == 0:
                 self.share.scatter_add_(dim, index, self.encoder.encode(other))
         elif private:
-            self.share.scatter_add_(dim, index, other.share)
+            if self.encoder.scale < other.encoder.scale:
+                self.encode_as_(other)
+            self.share.scatter_add_(dim, index, other.encode_as(self).share)
         else:
             raise TypeError("scatter_add second tensor of unsupported type")
         return self
@@ -635,11 +649,11 @@ class ArithmeticSharedTensor:
         corresponding value in `index` for `dimension = dim`.
         """
         if is_tensor(src):
-            src = ArithmeticSharedTensor(src)
+            src = self._share_public(src)
         assert isinstance(src, ArithmeticSharedTensor), (
             "Unrecognized scatter src type: %s" % type(src)
         )
-        self.share.scatter_(dim, index, src.share)
+        self.share.scatter_(dim, index, src.encode_as(self).share)
         return self
 
     def scatter(self, dim, index, src):
diff --git a/crypten/mpc/primitives/binary.py b/crypten/mpc/primitives/binary.py
index 1abc0f3..40bd379 100644
--- a/crypten/mpc/primitives/binary.py
+++ b/crypten/mpc/primitives/binary.py
@@ -316,7 +316,7 @@ class BinarySharedTensor:
 
     def __setitem__(self, index, value):
         """Set tensor values by index"""
-        if is_tensor(value) or isinstance(value, list):
+        if is_tensor(value) or isinstance(value, (int, float, list)):
             value = BinarySharedTensor(value)
         assert isinstance(value, BinarySharedTensor), (
             "Unsupported input type %s for __setitem__" % type(value)
@@ -476,6 +476,6 @@ class BinarySharedTensor:
 # Register regular functions
 skip_funcs = ["trace", "sum", "cumsum", "pad"]  # skip additive functions and pad
 for func in regular.__all__:
-    if func in skip_funcs:
+    if func in skip_funcs or hasattr(BinarySharedTensor, func):
         continue
     setattr(BinarySharedTensor, func, getattr(regular, func))
-- 
2.43.0


From cdd6ce018a573b1c8ccb120f3b4918edfac8c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 16/70] fix: padding with a private value rounded the shares

---
 crypten/mpc/primitives/arithmetic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 81cdb32..b25163c 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -258,10 +258,15 @@ class ArithmeticSharedTensor:
             assert (
                 value.dim() == 0
             ), "Private values used for padding must be 0-dimensional"
-            value = value.encode_as(self).share.item()
+            # NOTE: shares do not fit into the floating-point pad value of torch
+            value = value.encode_as(self).share
+            padded = torch.nn.functional.pad(
+                torch.zeros_like(result.share), pad, mode=mode, value=1
+            )
             result.share = torch.nn.functional.pad(
-                result.share, pad, mode=mode, value=value
+                result.share, pad, mode=mode, value=0
             )
+            result.share += padded * value
         else:
             raise TypeError(
                 "Cannot pad ArithmeticSharedTensor with a %s value" % type(value)
-- 
2.43.0


From 46785253ba5a181a8615422aff4b3a26b0fafcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:44 +0000
Subject: [PATCH 17/70] fix: parties running as threads took each other's
 messages for those of another operation

---
 .../communicator/in_process_communicator.py   | 67 +++++++++++--------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/crypten/communicator/in_process_communicator.py b/crypten/communicator/in_process_communicator.py
index ca4bb3c..8684919 100644
--- a/crypten/communicator/in_process_communicator.py
+++ b/crypten/communicator/in_process_communicator.py
@@ -7,7 +7,6 @@
 
 import logging
 import threading
-from operator import itemgetter
 from queue import Queue
 
 import torch
@@ -32,6 +31,7 @@ class InProcessCommunicator(Communicator):
         self.rank = rank
         self.reset_communication_stats()
         self._name = f"rank{rank}"
+        self._pending = []  # messages received ahead of the operation they are for
 
         with InProcessCommunicator.lock:
             if InProcessCommunicator.mailbox is None:
@@ -64,16 +64,36 @@ class InProcessCommunicator(Communicator):
     def is_initialized(cls):
         return hasattr(cls.tls, "instance")
 
+    def _put(self, tensor, dst, collective=True):
+        """Puts a copy of the tensor in the mailbox of party dst."""
+        self.mailbox[dst].put((self.rank, collective, tensor.clone()))
+
+    def _get(self, src, collective=True):
+        """
+        Returns the first message from party src (from any party if src is None)
+        that belongs to a collective (or point-to-point) operation. Parties can run
+        ahead of each other, so other messages are kept until they are asked for.
+        """
+
+        def matches(message):
+            return message[1] == collective and (src is None or message[0] == src)
+
+        for i, message in enumerate(self._pending):
+            if matches(message):
+                return self._pending.pop(i)[2]
+        while True:
+            message = self.mailbox[self.rank].get()
+            if matches(message):
+                return message[2]
+            self._pending.append(message)
+
     def send(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
-        self.mailbox[dst].put((self.rank, tensor.clone()))
+        self._put(tensor, dst, collective=False)
 
     def recv(self, tensor, src=None):
         """Receives a tensor from an (optional) source src."""
-        rank, result = self.mailbox[self.rank].get()
-        if src is not None and rank != src:
-            raise NotImplementedError("Can't receive messages out of order yet")
-        return result
+        return self._get(src, collective=False)
 
     def isend(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
@@ -92,21 +112,18 @@ class InProcessCommunicator(Communicator):
         """Receives a tensor from an (optional) source src."""
 
         class Result:
-            def __init__(self, mailbox, rank):
+            def __init__(self, communicator):
                 self.completed = False
-                self.mailbox = mailbox
-                self.rank = rank
+                self.communicator = communicator
 
             def is_completed(self):
                 return self.completed
 
             def wait(self):
-                rank, result = self.mailbox[self.rank].get()
-                if src is not None and rank != src:
-                    raise NotImplementedError("Can't receive messages out of order yet")
-                tensor.copy_(result)
+                tensor.copy_(self.communicator._get(src, collective=False))
+                self.completed = True
 
-        return Result(self.mailbox, self.rank)
+        return Result(self)
 
     def scatter(self, scatter_list, src, size=None, async_op=False):
         """Scatters a list of tensors to all parties."""
@@ -115,11 +132,11 @@ class InProcessCommunicator(Communicator):
 
         if src == self.rank:
             for i in range(self.world_size):
-                self.mailbox[i].put(scatter_list[i].clone())
+                self._put(scatter_list[i], i)
 
         self.barrier.wait()
 
-        return self.mailbox[self.rank].get()
+        return self._get(src)
 
     def reduce(self, tensor, dst, op=ReduceOp.SUM, async_op=False):
         """Reduces the tensor data across all parties."""
@@ -155,13 +172,12 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
-        self.mailbox[dst].put((self.rank, tensor.clone()))
+        self._put(tensor, dst)
 
         self.barrier.wait()
 
         if self.rank == dst:
-            result = [self.mailbox[dst].get() for _ in range(self.world_size)]
-            return [tensor for rank, tensor in sorted(result, key=itemgetter(0))]
+            return [self._get(i) for i in range(self.world_size)]
 
     def all_gather(self, tensor, async_op=False):
         """Gathers tensors from all parties in a list."""
@@ -169,16 +185,11 @@ class InProcessCommunicator(Communicator):
             raise NotImplementedError()
 
         for i in range(self.world_size):
-            self.mailbox[i].put((self.rank, tensor.clone()))
+            self._put(tensor, i)
 
         self.barrier.wait()
 
-        result = sorted(
-            (self.mailbox[self.rank].get() for _ in range(self.world_size)),
-            key=itemgetter(0),
-        )
-
-        return [tensor for (rank, tensor) in result]
+        return [self._get(i) for i in range(self.world_size)]
 
     def broadcast(self, tensor, src, async_op=False):
         """Broadcasts the tensor to all parties."""
@@ -187,11 +198,11 @@ class InProcessCommunicator(Communicator):
 
         if self.rank == src:
             for i in range(self.get_world_size()):
-                self.mailbox[i].put(tensor.clone())
+                self._put(tensor, i)
 
         # No need for a barrier here.
 
-        return self.mailbox[self.rank].get()
+        return self._get(src)
 
     def get_world_size(self):
         """Returns the size of the world."""
-- 
2.43.0


From fc31edfb999ea7c32dc78a27e28fab5c4ad24017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:44 +0000
Subject: [PATCH 18/70] fix: reductions between thread parties changed the
 element type

---
 crypten/communicator/in_process_communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/communicator/in_process_communicator.py b/crypten/communicator/in_process_communicator.py
index 8684919..13d9719 100644
--- a/crypten/communicator/in_process_communicator.py
+++ b/crypten/communicator/in_process_communicator.py
@@ -143,7 +143,7 @@ class InProcessCommunicator(Communicator):
         tensors = self.gather(tensor, dst)
         if self.rank == dst:
             reduce_fn = self._reduce_op_to_function(op)
-            return reduce_fn(torch.stack(tensors), dim=0)
+            return reduce_fn(torch.stack(tensors), dim=0, dtype=tensor.dtype)
 
     @classmethod
     def shutdown(cls):
@@ -165,7 +165,7 @@ class InProcessCommunicator(Communicator):
 
         ag = self.all_gather(tensor)
         reduce_fn = self._reduce_op_to_function(op)
-        return reduce_fn(torch.stack(ag), dim=0)
+        return reduce_fn(torch.stack(ag), dim=0, dtype=tensor.dtype)
 
     def gather(self, tensor, dst, async_op=False):
         """Gathers a list of tensors in a single party."""
-- 
2.43.0


From 904752e63466cb7e98151a3874da8b017fa4d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:13 +0000
Subject: [PATCH 19/70] fix: collectives mixed up elements when parties'
 tensors have different memory layouts

---
 .../communicator/distributed_communicator.py  | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/crypten/communicator/distributed_communicator.py b/crypten/communicator/distributed_communicator.py
index da9a172..612a020 100644
--- a/crypten/communicator/distributed_communicator.py
+++ b/crypten/communicator/distributed_communicator.py
@@ -20,6 +20,14 @@ from torch.distributed import ReduceOp
 from .communicator import _logging, Communicator
 
 
+def _contiguous_clone(tensor):
+    """
+    Returns a copy of the tensor with the default memory layout. The backend
+    communicates raw memory, so all parties must use the same layout.
+    """
+    return tensor.clone() if tensor.data.is_contiguous() else tensor.contiguous()
+
+
 class DistributedCommunicator(Communicator):
     """
     Implementation of the Communicator class via torch.distributed. Use this
@@ -116,13 +124,13 @@ class DistributedCommunicator(Communicator):
     def send(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
         assert dist.is_initialized(), "initialize the communicator first"
-        dist.send(tensor.data, dst, group=self.main_group)
+        dist.send(tensor.data.contiguous(), dst, group=self.main_group)
 
     @_logging
     def recv(self, tensor, src=None):
         """Receives a tensor from an (optional) source src."""
         assert dist.is_initialized(), "initialize the communicator first"
-        result = tensor.clone()
+        result = _contiguous_clone(tensor)
         dist.recv(result.data, src=src, group=self.main_group)
         return result
 
@@ -130,7 +138,7 @@ class DistributedCommunicator(Communicator):
     def isend(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
         assert dist.is_initialized(), "initialize the communicator first"
-        return dist.isend(tensor.data, dst, group=self.main_group)
+        return dist.isend(tensor.data.contiguous(), dst, group=self.main_group)
 
     @_logging
     def irecv(self, tensor, src=None):
@@ -153,7 +161,7 @@ class DistributedCommunicator(Communicator):
             tensor = torch.empty(size=size, dtype=torch.long, device=device)
             dist.scatter(tensor.data, [], src, group=self.main_group)
         else:
-            scatter_list = [s.data for s in scatter_list]
+            scatter_list = [s.data.contiguous() for s in scatter_list]
             tensor = scatter_list[self.get_rank()]
             dist.scatter(tensor.data, scatter_list, src, group=self.main_group)
         return tensor
@@ -166,7 +174,7 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            result = [x.clone().data for x in input]
+            result = [_contiguous_clone(x).data for x in input]
             for tensor in result:
                 reqs.append(
                     dist.reduce(
@@ -179,7 +187,7 @@ class DistributedCommunicator(Communicator):
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            result = input.clone()
+            result = _contiguous_clone(input)
             dist.reduce(result.data, dst, op=op, group=self.main_group)
 
         return result if dst == self.get_rank() else None
@@ -192,7 +200,7 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            result = [x.clone() for x in input]
+            result = [_contiguous_clone(x) for x in input]
             for tensor in result:
                 reqs.append(
                     dist.all_reduce(
@@ -205,7 +213,7 @@ class DistributedCommunicator(Communicator):
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            result = input.clone()
+            result = _contiguous_clone(input)
             dist.all_reduce(result.data, op=op, group=self.main_group)
         return result
 
@@ -220,9 +228,9 @@ class DistributedCommunicator(Communicator):
                 result.append(
                     torch.empty(size=tensor.size(), dtype=torch.long, device=device)
                 )
-            dist.gather(tensor.data, result, dst, group=self.main_group)
+            dist.gather(tensor.data.contiguous(), result, dst, group=self.main_group)
             return result
-        dist.gather(tensor.data, [], dst, group=self.main_group)
+        dist.gather(tensor.data.contiguous(), [], dst, group=self.main_group)
         return [None]
 
     @_logging
@@ -235,7 +243,7 @@ class DistributedCommunicator(Communicator):
             result.append(
                 torch.empty(size=tensor.size(), dtype=torch.long, device=device)
             )
-        dist.all_gather(result, tensor.data, group=self.main_group)
+        dist.all_gather(result, tensor.data.contiguous(), group=self.main_group)
         return result
 
     @_logging
@@ -246,17 +254,22 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            for tensor in input:
-                reqs.append(
-                    dist.broadcast(tensor.data, src, group=group, async_op=True)
-                )
+            buffers = [tensor.data.contiguous() for tensor in input]
+            for buffer in buffers:
+                reqs.append(dist.broadcast(buffer, src, group=group, async_op=True))
             for req in reqs:
                 req.wait()
+            for tensor, buffer in zip(input, buffers):
+                if not tensor.data.is_contiguous():
+                    tensor.data.copy_(buffer)
         else:
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            dist.broadcast(input.data, src, group=group)
+            buffer = input.data.contiguous()
+            dist.broadcast(buffer, src, group=group)
+            if not input.data.is_contiguous():
+                input.data.copy_(buffer)
         return input
 
     @_logging
-- 
2.43.0


From 1e186ff612f28b8680a25c5b800419b231ce5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:13 +0000
Subject: [PATCH 20/70] fix: gather, all_gather and scatter only worked for
 64-bit integers

---
 crypten/communicator/distributed_communicator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypten/communicator/distributed_communicator.py b/crypten/communicator/distributed_communicator.py
index 612a020..41f40d9 100644
--- a/crypten/communicator/distributed_communicator.py
+++ b/crypten/communicator/distributed_communicator.py
@@ -158,7 +158,10 @@ class DistributedCommunicator(Communicator):
                     device = scatter_list[self.get_rank()].device
                 except Exception:
                     pass
-            tensor = torch.empty(size=size, dtype=torch.long, device=device)
+            dtype = torch.long
+            if scatter_list:
+                dtype = scatter_list[self.get_rank()].dtype
+            tensor = torch.empty(size=size, dtype=dtype, device=device)
             dist.scatter(tensor.data, [], src, group=self.main_group)
         else:
             scatter_list = [s.data.contiguous() for s in scatter_list]
@@ -226,7 +229,7 @@ class DistributedCommunicator(Communicator):
             device = tensor.data.device
             for _ in range(self.get_world_size()):
                 result.append(
-                    torch.empty(size=tensor.size(), dtype=torch.long, device=device)
+                    torch.empty(size=tensor.size(), dtype=tensor.dtype, device=device)
                 )
             dist.gather(tensor.data.contiguous(), result, dst, group=self.main_group)
             return result
@@ -241,7 +244,7 @@ class DistributedCommunicator(Communicator):
         device = tensor.data.device
         for _ in range(self.get_world_size()):
             result.append(
-                torch.empty(size=tensor.size(), dtype=torch.long, device=device)
+                torch.empty(size=tensor.size(), dtype=tensor.dtype, device=device)
             )
         dist.all_gather(result, tensor.data.contiguous(), group=self.main_group)
         return result
-- 
2.43.0


From a198451a4777d6d0d7dee043043ba0625eb4e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:38 +0000
Subject: [PATCH 21/70] fix: replicated products of tensors with a non-default
 memory layout raised

---
 crypten/mpc/primitives/replicated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 4f245b8..d3bdff4 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -23,9 +23,10 @@ def replicate_shares(share_list):
     reqs = []
     rep_shares = []
     for share in share_list:
+        share = share.contiguous()
         rep_shares.append(torch.zeros_like(share))
 
-        send_req = comm.get().isend(share.contiguous(), dst=next_rank)
+        send_req = comm.get().isend(share, dst=next_rank)
         recv_req = comm.get().irecv(rep_shares[-1], src=prev_rank)
 
         reqs.extend([send_req, recv_req])
-- 
2.43.0


From cc7a681c60aebdbb25af156c242689f3d0d69e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:43 +0000
Subject: [PATCH 22/70] fix: communication calls with keyword arguments failed
 while statistics are on, and scatter for a single party returned the list

---
 crypten/communicator/communicator.py | 45 +++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/crypten/communicator/communicator.py b/crypten/communicator/communicator.py
index 5ede390..730d3e4 100644
--- a/crypten/communicator/communicator.py
+++ b/crypten/communicator/communicator.py
@@ -159,17 +159,28 @@ def _logging(func):
     the overall system.
     """
     from functools import wraps
+    from inspect import signature
+
+    func_signature = signature(func)
 
     @wraps(func)
     def logging_wrapper(self, *args, **kwargs):
+        # arguments may be passed by position or by name:
+        bound = func_signature.bind(self, *args, **kwargs)
+        bound.apply_defaults()
+        params = list(bound.arguments.values())[1:]
+        batched = bound.arguments.get("batched", False)
+
         # TODO: Replace this
         # - hacks the inputs into some of the functions for world_size 1:
         world_size = self.get_world_size()
         if world_size < 2:
             if func.__name__ in ["gather", "all_gather"]:
-                return [args[0]]
-            elif len(args) > 0:
-                return args[0]
+                return [params[0]]
+            elif func.__name__ == "scatter":
+                return params[0][0]
+            elif len(params) > 0:
+                return params[0]
 
         # only log communication if needed:
         if cfg.communicator.verbose:
@@ -180,40 +191,40 @@ def _logging(func):
             if func.__name__ == "barrier":
                 _log(0)
             elif func.__name__ in ["send", "recv", "isend", "irecv"]:
-                _log(args[0].nelement())  # party sends or receives tensor
+                _log(params[0].nelement())  # party sends or receives tensor
             elif func.__name__ == "scatter":
-                if args[1] == rank:  # party scatters P - 1 tensors
+                if params[1] == rank:  # party scatters P - 1 tensors
                     nelements = sum(
-                        x.nelement() for idx, x in enumerate(args[0]) if idx != rank
+                        x.nelement() for idx, x in enumerate(params[0]) if idx != rank
                     )
                     _log(nelements)  # NOTE: We deal with other parties later
             elif func.__name__ == "all_gather":
-                _log(2 * (world_size - 1) * args[0].nelement())
+                _log(2 * (world_size - 1) * params[0].nelement())
                 # party sends and receives P - 1 tensors
             elif func.__name__ == "send_obj":
-                nbytes = sys.getsizeof(args[0])
+                nbytes = sys.getsizeof(params[0])
                 _log(nbytes / self.BYTES_PER_ELEMENT)  # party sends object
             elif func.__name__ == "broadcast_obj":
-                nbytes = sys.getsizeof(args[0])
+                nbytes = sys.getsizeof(params[0])
                 _log(nbytes / self.BYTES_PER_ELEMENT * (world_size - 1))
                 # party sends object to P - 1 parties
             elif func.__name__ in ["broadcast", "gather", "reduce"]:
-                multiplier = world_size - 1 if args[1] == rank else 1
+                multiplier = world_size - 1 if params[1] == rank else 1
                 # broadcast: party sends tensor to P - 1 parties, or receives 1 tensor
                 # gather: party receives P - 1 tensors, or sends 1 tensor
                 # reduce: party receives P - 1 tensors, or sends 1 tensor
-                if "batched" in kwargs and kwargs["batched"]:
-                    nelements = sum(x.nelement() for x in args[0])
+                if batched:
+                    nelements = sum(x.nelement() for x in params[0])
                     _log(nelements * multiplier)
                 else:
-                    _log(args[0].nelement() * multiplier)
+                    _log(params[0].nelement() * multiplier)
             elif func.__name__ == "all_reduce":
                 # each party sends and receives one tensor in ring implementation
-                if "batched" in kwargs and kwargs["batched"]:
-                    nelements = sum(2 * x.nelement() for x in args[0])
+                if batched:
+                    nelements = sum(2 * x.nelement() for x in params[0])
                     _log(nelements)
                 else:
-                    _log(2 * args[0].nelement())
+                    _log(2 * params[0].nelement())
 
             # execute and time the MPI collective:
             tic = timeit.default_timer()
@@ -222,7 +233,7 @@ def _logging(func):
             self._log_communication_time(toc - tic)
 
             # for some function, we only know the object size now:
-            if func.__name__ == "scatter" and args[1] != rank:
+            if func.__name__ == "scatter" and params[1] != rank:
                 _log(result.nelement())  # party receives 1 tensor
             if func.__name__ == "recv_obj":
                 _log(sys.getsizeof(result) / self.BYTES_PER_ELEMENT)
-- 
2.43.0


From 31dab892f06dcdb638a466ac087d31b5fc61a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:06 +0000
Subject: [PATCH 23/70] fix: configuration values were converted to text and
 re-parsed (None became 'None')

---
 crypten/config/config.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crypten/config/config.py b/crypten/config/config.py
index 2cfc0a0..78a832d 100644
--- a/crypten/config/config.py
+++ b/crypten/config/config.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import os
 from contextlib import contextmanager
 
@@ -56,6 +57,13 @@ class CrypTenConfig:
         else:
             self.config = config
 
+    def _updated_config(self, updates):
+        """Returns a copy of the config in which the given keys are set"""
+        config = copy.deepcopy(self.config)
+        for key, value in updates.items():
+            OmegaConf.update(config, key, value)
+        return config
+
     def __getattribute__(self, name):
         try:
             return object.__getattribute__(self, name)
@@ -77,9 +85,7 @@ class CrypTenConfig:
             object.__getattribute__(self, name)
             object.__setattr__(self, name, value)
         except AttributeError:
-            dotlist = [f"{name}={value}"]
-            update = OmegaConf.from_dotlist(dotlist)
-            self.config = OmegaConf.merge(self.config, update)
+            self.config = self._updated_config({name: value})
 
     def __setitem__(self, name, value):
         self.__setattr__(name, value)
@@ -88,9 +94,7 @@ class CrypTenConfig:
     def temp_override(self, override_dict):
         old_config = self.config
         try:
-            dotlist = [f"{k}={v}" for k, v in override_dict.items()]
-            update = OmegaConf.from_dotlist(dotlist)
-            self.config = OmegaConf.merge(self.config, update)
+            self.config = self._updated_config(override_dict)
             yield
         finally:
             self.config = old_config
-- 
2.43.0


From c3686b9cabebba42d6d569bea9f14f9888c63579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 24/70] fix: two-party division by a public value was off by
 2^48 for shares left by earlier divisions

Shares that are linear functions of previously truncated shares are not
uniformly distributed; when one of them lands exactly on the ring boundary the
local truncation is off by the whole ring.  Momentum SGD with lr=1.5,
momentum=1, weight_decay=0.5 hit this in a third of all elements.
---
 crypten/mpc/primitives/arithmetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index b25163c..aa2004e 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -485,6 +485,12 @@ class ArithmeticSharedTensor:
                 protocol.truncate(self, y)
             else:
                 self.share = self.share.div_(y, rounding_mode="trunc")
+                # Dividing the two shares separately is only correct for shares
+                # that look random, and the results do not: linear functions of
+                # them may land exactly on the ring boundary.
+                if comm.get().get_world_size() == 2:
+                    zero = ArithmeticSharedTensor.PRZS(self.size(), device=self.device)
+                    self.share += zero.share
 
             # Validate
             if validate:
-- 
2.43.0


From 61479f32a762180f0630a47bdb1a5f6f30f0edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 25/70] fix: load_from_party sent the source's buffers (and
 data sharing a parameter's storage) to the other parties

---
 crypten/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index d9a1299..e09f49c 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -338,8 +338,9 @@ def load_from_party(
                 result_zeros = result.new_zeros(result.size())
             elif isinstance(result, torch.nn.Module):
                 result_zeros = copy.deepcopy(result)
-                for p in result_zeros.parameters():
-                    p.data.fill_(0)
+                for t in [*result_zeros.parameters(), *result_zeros.buffers()]:
+                    # a new storage: the old one may hold more than the tensor
+                    t.data = torch.zeros_like(t.data)
             else:
                 result = comm.get().broadcast_obj(-1, src)
                 raise TypeError("Unrecognized load type %s" % type(result))
-- 
2.43.0


From e7468724c95d62313644b04a3907119bb852e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 26/70] fix: a load or save that fails at the source left the
 other parties waiting forever

---
 crypten/__init__.py | 63 +++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index e09f49c..f71ffb9 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -324,26 +324,30 @@ def load_from_party(
 
         # source party
         if comm.get().get_rank() == src:
-            assert (f is None and (preloaded is not None)) or (
-                (f is not None) and preloaded is None
-            ), "Exactly one of f and preloaded must not be None"
-
-            if f is None:
-                result = preloaded
-            if preloaded is None:
-                result = load_closure(f, **kwargs)
-
-            # Zero out the tensors / modules to hide loaded data from broadcast
-            if torch.is_tensor(result):
-                result_zeros = result.new_zeros(result.size())
-            elif isinstance(result, torch.nn.Module):
-                result_zeros = copy.deepcopy(result)
-                for t in [*result_zeros.parameters(), *result_zeros.buffers()]:
-                    # a new storage: the old one may hold more than the tensor
-                    t.data = torch.zeros_like(t.data)
-            else:
-                result = comm.get().broadcast_obj(-1, src)
-                raise TypeError("Unrecognized load type %s" % type(result))
+            try:
+                assert (f is None and (preloaded is not None)) or (
+                    (f is not None) and preloaded is None
+                ), "Exactly one of f and preloaded must not be None"
+
+                if f is None:
+                    result = preloaded
+                if preloaded is None:
+                    result = load_closure(f, **kwargs)
+
+                # Zero out the tensors / modules to hide loaded data from broadcast
+                if torch.is_tensor(result):
+                    result_zeros = result.new_zeros(result.size())
+                elif isinstance(result, torch.nn.Module):
+                    result_zeros = copy.deepcopy(result)
+                    for t in [*result_zeros.parameters(), *result_zeros.buffers()]:
+                        # a new storage: the old one may hold more than the tensor
+                        t.data = torch.zeros_like(t.data)
+                else:
+                    raise TypeError("Unrecognized load type %s" % type(result))
+            except Exception:
+                # tell the other parties, which wait for the broadcast
+                comm.get().broadcast_obj(-1, src)
+                raise
 
             comm.get().broadcast_obj(result_zeros, src)
 
@@ -353,7 +357,7 @@ def load_from_party(
                 crypten.common.serial.register_safe_class(model_class)
             result = comm.get().broadcast_obj(None, src)
             if isinstance(result, int) and result == -1:
-                raise TypeError("Unrecognized load type from src party")
+                raise TypeError("Load failed at src party or unrecognized load type")
 
         if torch.is_tensor(result):
             result = crypten.cryptensor(result, src=src)
@@ -411,11 +415,12 @@ def save_from_party(obj, f, src=0, save_closure=torch.save, **kwargs):
             src >= 0 and src < comm.get().get_world_size()
         ), "Save failed: src must be an integer in [0, world_size)"
 
-        if comm.get().get_rank() == src:
-            save_closure(obj, f, **kwargs)
-
-    # Implement barrier to avoid race conditions that require file to exist
-    comm.get().barrier()
+        try:
+            if comm.get().get_rank() == src:
+                save_closure(obj, f, **kwargs)
+        finally:
+            # Implement barrier to avoid race conditions that require file to exist
+            comm.get().barrier()
 
 
 def save(obj, f, save_closure=torch.save, **kwargs):
@@ -431,8 +436,10 @@ def save(obj, f, save_closure=torch.save, **kwargs):
         `crypten.load`. Additional kwargs are passed on to the closure.
     """
     # TODO: Add support for saving to correct device (kwarg: map_location=device)
-    save_closure(obj, f, **kwargs)
-    comm.get().barrier()
+    try:
+        save_closure(obj, f, **kwargs)
+    finally:
+        comm.get().barrier()
 
 
 def where(condition, input, other):
-- 
2.43.0


From c00fbda8d195964400ba5a1a2aae13f145a4cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 27/70] fix: models with parameters of equal value could not be
 converted

The ONNX exporter replaces such parameters by Identity nodes.  Among others this
made every model with two layers of one shape unusable at the parties that
received it, without values, from load_from_party.
---
 crypten/nn/onnx_converter.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crypten/nn/onnx_converter.py b/crypten/nn/onnx_converter.py
index 9a95a10..3228525 100644
--- a/crypten/nn/onnx_converter.py
+++ b/crypten/nn/onnx_converter.py
@@ -171,13 +171,26 @@ def _to_crypten(onnx_model):
     assert len(output_names) == 1, "Only one output per model supported."
     crypten_model = module.Graph(input_names, output_names[0])
 
-    # create nodes for the parameters:
-    for node in onnx_model.graph.initializer:
-        param = torch.from_numpy(numpy_helper.to_array(node))
-        crypten_model.add_module(node.name, module.Parameter(param), [])
+    # get parameters; the ONNX exporter replaces a parameter that has the same value
+    # as another one by an Identity node, so these need to be recovered:
+    params = {
+        node.name: torch.from_numpy(numpy_helper.to_array(node))
+        for node in onnx_model.graph.initializer
+    }
+    nodes = []
+    for node in onnx_model.graph.node:
+        if node.op_type == "Identity" and node.input[0] in params:
+            params[node.output[0]] = params[node.input[0]].clone()
+        else:
+            nodes.append(node)
+
+    # create nodes for the parameters, in an order that does not depend on their values:
+    names = [name for node in nodes for name in node.input if name in params]
+    for name in dict.fromkeys(names + list(params.keys())):
+        crypten_model.add_module(name, module.Parameter(params[name]), [])
 
     # loop over all nodes:
-    for node in onnx_model.graph.node:
+    for node in nodes:
         # get attributes and node type:
         attributes = {attr.name: _get_attribute_value(attr) for attr in node.attribute}
         crypten_class = _get_operator_class(node.op_type, attributes)
-- 
2.43.0


From 1f7d10f53d0138544ece9633a4d0e949ea85c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 28/70] fix: TupleProvider.trace_once raised AttributeError

---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index 6868ddb..da7c636 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -54,7 +54,7 @@ class TupleProvider:
         """Sets tracing attribute True only if the request cache is empty.
         If `trace_once()` is called again, it sets tracing attribute to False
         """
-        untraced = self.request_cache.empty()
+        untraced = len(self.request_cache) == 0
         self.trace(tracing=untraced)
 
     def _save_requests(self, filepath=None):
-- 
2.43.0


From a5b9899199146b9755ed0c3340fe21b4997a0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 29/70] fix: requests beyond the cached number of tuples raised
 IndexError

---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index da7c636..bb1c246 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -133,7 +133,7 @@ class TupleProvider:
             hashable_kwargs = frozenset(kwargs.items())
             request = (func_name, args, hashable_kwargs)
             # Read from cache
-            if request in self.tuple_cache.keys():
+            if self.tuple_cache.get(request):
                 return self.tuple_cache[request].pop()
             # Cache miss
             return object.__getattribute__(self, func_name)(*args, **kwargs)
-- 
2.43.0


From 25cda36d4bef353af80da292f7992c190c6096e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 30/70] fix: requests with list arguments (convolutions of
 converted models) broke the tuple cache

---
 crypten/mpc/provider/provider.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index bb1c246..1b6edf0 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -12,6 +12,16 @@ import crypten.communicator as comm
 import torch
 
 
+def _hashable_request(func_name, args, kwargs):
+    """Key of a request in the tuple cache; arguments may be lists (e.g. a stride)"""
+
+    def freeze(arg):
+        return tuple(freeze(a) for a in arg) if isinstance(arg, list) else arg
+
+    args = tuple(freeze(arg) for arg in args)
+    return (func_name, args, frozenset((k, freeze(v)) for k, v in kwargs.items()))
+
+
 class TupleProvider:
     TRACEABLE_FUNCTIONS = [
         "generate_additive_triple",
@@ -130,8 +140,7 @@ class TupleProvider:
 
         # Return results from cache if available
         def func_from_cache(*args, **kwargs):
-            hashable_kwargs = frozenset(kwargs.items())
-            request = (func_name, args, hashable_kwargs)
+            request = _hashable_request(func_name, args, kwargs)
             # Read from cache
             if self.tuple_cache.get(request):
                 return self.tuple_cache[request].pop()
@@ -147,8 +156,7 @@ class TupleProvider:
             func_name, args, kwargs = request
             result = object.__getattribute__(self, func_name)(*args, **kwargs)
 
-            hashable_kwargs = frozenset(kwargs.items())
-            hashable_request = (func_name, args, hashable_kwargs)
+            hashable_request = _hashable_request(func_name, args, kwargs)
             if hashable_request in self.tuple_cache.keys():
                 self.tuple_cache[hashable_request].append(result)
             else:
-- 
2.43.0


From f24f38ffec4d07654ae10e954ef4d5b538b29aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 31/70] fix: a single party could not use the trusted third
 party

Messages to and from the third party were skipped, as if it did not exist.
---
 crypten/communicator/communicator.py | 7 +++++--
 crypten/mpc/provider/ttp_provider.py | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypten/communicator/communicator.py b/crypten/communicator/communicator.py
index 730d3e4..7931f23 100644
--- a/crypten/communicator/communicator.py
+++ b/crypten/communicator/communicator.py
@@ -172,9 +172,12 @@ def _logging(func):
         batched = bound.arguments.get("batched", False)
 
         # TODO: Replace this
-        # - hacks the inputs into some of the functions for world_size 1:
+        # - hacks the inputs into some of the functions for world_size 1
+        #   (a trusted third party, which has a group of its own, still takes part):
         world_size = self.get_world_size()
-        if world_size < 2:
+        group = bound.arguments.get("group")
+        main_group = getattr(self, "main_group", None)
+        if world_size < 2 and (group is None or group is main_group):
             if func.__name__ in ["gather", "all_gather"]:
                 return [params[0]]
             elif func.__name__ == "scatter":
diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index 9ff5bf3..edd5daa 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -286,7 +286,7 @@ class TTPServer:
         gens = self._get_generators(device=self.device)
         if remove_rank:
             gens = gens[1:]
-        result = None
+        result = 0
         for idx, g in enumerate(gens):
             elem = generate_random_ring_element(size, generator=g, device=g.device)
             result = elem if idx == 0 else result + elem
@@ -300,7 +300,7 @@ class TTPServer:
         gens = self._get_generators(device=self.device)
         if remove_rank:
             gens = gens[1:]
-        result = None
+        result = 0
         for idx, g in enumerate(gens):
             elem = generate_kbit_random_tensor(
                 size, bitlength=bitlength, generator=g, device=g.device
-- 
2.43.0


From f73426f1d749980b6073d38a0484d4a482103976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 32/70] fix: a second session with a trusted third party used
 the first session's connection and seeds

---
 crypten/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index f71ffb9..0cd21b9 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -85,6 +85,8 @@ def init_thread(rank, world_size):
 
 
 def uninit():
+    # the next session has its own connection to and seeds from a third party
+    crypten.mpc.provider.ttp_provider.TTPClient.uninit()
     return comm.uninit()
 
 
-- 
2.43.0


From 2c5ddc099f6677a6b935aaaaa54324385414ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 33/70] fix: an operation with incompatible shapes left the
 trusted third party and party 0 out of step

---
 crypten/mpc/provider/ttp_provider.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index edd5daa..501f466 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -28,6 +28,16 @@ class TrustedThirdParty(TupleProvider):
         """Generate multiplicative triples of given sizes"""
         generator = TTPClient.get().get_generator(device=device)
 
+        # An op that does not accept these arguments must raise at every party
+        # before any party draws randomness or the TTP is involved
+        # TODO: Compute size without executing computation
+        c_size = getattr(torch, op)(
+            torch.zeros(size0, dtype=torch.long, device=device),
+            torch.zeros(size1, dtype=torch.long, device=device),
+            *args,
+            **kwargs,
+        ).size()
+
         a = generate_random_ring_element(size0, generator=generator, device=device)
         b = generate_random_ring_element(size1, generator=generator, device=device)
         if comm.get().get_rank() == 0:
@@ -36,8 +46,6 @@ class TrustedThirdParty(TupleProvider):
                 "additive", device, size0, size1, op, *args, **kwargs
             )
         else:
-            # TODO: Compute size without executing computation
-            c_size = getattr(torch, op)(a, b, *args, **kwargs).size()
             c = generate_random_ring_element(c_size, generator=generator, device=device)
 
         a = ArithmeticSharedTensor.from_shares(a, precision=0)
-- 
2.43.0


From db80f3951824bbc8539c3507d0d2189505231bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 34/70] fix: a refused request stayed in the trace and made
 every later fill_cache fail

---
 crypten/mpc/provider/provider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index 1b6edf0..a977f31 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -129,8 +129,9 @@ class TupleProvider:
 
             def func_with_trace(*args, **kwargs):
                 request = (func_name, args, kwargs)
+                result = object.__getattribute__(self, func_name)(*args, **kwargs)
                 self.request_cache.append(request)
-                return object.__getattribute__(self, func_name)(*args, **kwargs)
+                return result
 
             return func_with_trace
 
-- 
2.43.0


From 716f0c8508312d3ebfcc85c4d8b8cd09263d4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:38 +0000
Subject: [PATCH 35/70] fix: oblivious transfer drew its secret exponents from
 the seedable global generator

---
 crypten/mpc/primitives/ot/baseOT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/primitives/ot/baseOT.py b/crypten/mpc/primitives/ot/baseOT.py
index 4c2a52c..c11c6e7 100644
--- a/crypten/mpc/primitives/ot/baseOT.py
+++ b/crypten/mpc/primitives/ot/baseOT.py
@@ -5,7 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-import random
+import secrets
 from hashlib import sha256
 from typing import List
 
@@ -52,7 +52,7 @@ class BaseOT:
         masks_for_message1s = []
         for _i in range(len(message1s)):
             # pick a random element from Z_p
-            alpha = random.randint(0, self.__prime - 1)
+            alpha = secrets.randbelow(self.__prime - 1)
             alphas.append(alpha)
 
             # g^\alpha
@@ -113,7 +113,7 @@ class BaseOT:
         masks_for_choices = []
         for _i in range(len(choices)):
             # pick a random element from Z_p
-            beta = random.randint(0, self.__prime - 1)
+            beta = secrets.randbelow(self.__prime - 1)
             mask_for_choice = pow(self.__generator, beta, self.__prime)
             betas.append(beta)
             masks_for_choices.append(mask_for_choice)
-- 
2.43.0


From ffdebbd668229c855842510058c8200fab3687e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:38 +0000
Subject: [PATCH 36/70] fix: oblivious transfer masked each character with four
 random bits only, showing half of the other message

---
 crypten/mpc/primitives/ot/baseOT.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crypten/mpc/primitives/ot/baseOT.py b/crypten/mpc/primitives/ot/baseOT.py
index c11c6e7..cddca75 100644
--- a/crypten/mpc/primitives/ot/baseOT.py
+++ b/crypten/mpc/primitives/ot/baseOT.py
@@ -6,7 +6,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import secrets
-from hashlib import sha256
+from hashlib import sha512
 from typing import List
 
 import crypten.communicator as comm
@@ -37,6 +37,13 @@ class BaseOT:
         """
         return "".join(chr(ord(a) ^ ord(b)) for a, b in zip(s1, s2))
 
+    @staticmethod
+    def _pad(key):
+        """
+        one-time pad of 64 uniformly random characters (all 8 bits of each)
+        """
+        return sha512(str(key).encode("utf-8")).digest().decode("latin-1")
+
     def __init__(self, partner_rank):
         self.partner_rank = partner_rank
         return
@@ -85,10 +92,8 @@ class BaseOT:
             masks_for_choices[i] = pow(masks_for_choices[i], alphas[i], self.__prime)
 
             # hash
-            pad0 = sha256(str(masks_for_choices[i]).encode("utf-8")).hexdigest()
-            pad1 = sha256(
-                str(masks_for_choices[i] * dividers[i] % self.__prime).encode("utf-8")
-            ).hexdigest()
+            pad0 = self._pad(masks_for_choices[i])
+            pad1 = self._pad(masks_for_choices[i] * dividers[i] % self.__prime)
 
             if len(pad0) < len(message0s[i]):
                 raise (str(i) + "-th message0 is too long")
@@ -135,9 +140,7 @@ class BaseOT:
         keys = []
         for i in range(len(choices)):
             # compute the hash when waiting for response
-            key = sha256(
-                str(pow(masks_for_message1s[i], betas[i], self.__prime)).encode("utf-8")
-            ).hexdigest()
+            key = self._pad(pow(masks_for_message1s[i], betas[i], self.__prime))
             keys.append(key)
 
         rst = []
-- 
2.43.0


From 3bcdba52faceb0fb41a0cb5d08225142e2dddfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 37/70] fix: shutting down right after a communication could
 dead-lock with gloo's threads

---
 crypten/communicator/distributed_communicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/communicator/distributed_communicator.py b/crypten/communicator/distributed_communicator.py
index 41f40d9..004c3c6 100644
--- a/crypten/communicator/distributed_communicator.py
+++ b/crypten/communicator/distributed_communicator.py
@@ -10,6 +10,7 @@ import os
 import pickle
 import random
 import string
+import time
 
 import numpy
 import torch
@@ -115,6 +116,9 @@ class DistributedCommunicator(Communicator):
             cls.instance.send_obj(
                 "terminate", cls.instance.get_ttp_rank(), cls.instance.ttp_group
             )
+        # gloo's threads may still have to release tensors of the last operation, for
+        # which they need the interpreter lock that destroying the groups would hold
+        time.sleep(0.05)
         dist.destroy_process_group(cls.instance.main_group)
         dist.destroy_process_group(cls.instance.ttp_group)
         dist.destroy_process_group()
-- 
2.43.0


From 80661448b401733a831b49fb13c4a546c429973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:25 +0000
Subject: [PATCH 38/70] fix: run_multiprocess hung on large, lost unpicklable
 and could not return tensor results

---
 crypten/mpc/context.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crypten/mpc/context.py b/crypten/mpc/context.py
index dd3614c..29b6f51 100644
--- a/crypten/mpc/context.py
+++ b/crypten/mpc/context.py
@@ -9,8 +9,9 @@ import functools
 import logging
 import multiprocessing
 import os
+import pickle
 import tempfile
-from operator import itemgetter
+from queue import Empty
 
 import crypten
 from crypten.communicator import DistributedCommunicator
@@ -30,7 +31,10 @@ def _launch(func, rank, world_size, rendezvous_file, queue, func_args, func_kwar
     return_value = func(*func_args, **func_kwargs)
     crypten.uninit()
 
-    queue.put((rank, return_value))
+    # The TTP server has no return value. A value that cannot be sent must make this
+    # process fail; pickling it here also keeps it valid after this process has ended.
+    if rank < world_size:
+        queue.put((rank, pickle.dumps(return_value)))
 
 
 def run_multiprocess(world_size, maxsize=None):
@@ -93,6 +97,20 @@ def run_multiprocess(world_size, maxsize=None):
             for process in processes:
                 process.start()
 
+            # Collect return values while the processes run: a process does not end
+            # before its return value has been read
+            return_values = {}
+            running = True
+            while running:
+                running = any(process.is_alive() for process in processes)
+                try:
+                    while len(return_values) < world_size:
+                        rank, value = queue.get(timeout=0.05)
+                        return_values[rank] = value
+                    running = False
+                except Empty:
+                    pass
+
             for process in processes:
                 process.join()
 
@@ -100,15 +118,11 @@ def run_multiprocess(world_size, maxsize=None):
                 crypten.init()
 
             successful = [process.exitcode == 0 for process in processes]
-            if not all(successful):
+            if not all(successful) or len(return_values) < world_size:
                 logging.error("One of the parties failed. Check past logs")
                 return None
 
-            return_values = []
-            while not queue.empty():
-                return_values.append(queue.get())
-
-            return [value for _, value in sorted(return_values, key=itemgetter(0))]
+            return [pickle.loads(return_values[rank]) for rank in range(world_size)]
 
         return wrapper
 
-- 
2.43.0


From 07ebd93a980ab51ef47a0584e48cccad47cc0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 39/70] fix: run_multiprocess from an initialised process
 waited for a third party that does not exist

---
 crypten/mpc/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/context.py b/crypten/mpc/context.py
index 29b6f51..720d398 100644
--- a/crypten/mpc/context.py
+++ b/crypten/mpc/context.py
@@ -92,6 +92,7 @@ def run_multiprocess(world_size, maxsize=None):
             # in that case.
             was_initialized = DistributedCommunicator.is_initialized()
             if was_initialized:
+                had_ttp = DistributedCommunicator.get().ttp_initialized
                 crypten.uninit()
 
             for process in processes:
@@ -115,7 +116,11 @@ def run_multiprocess(world_size, maxsize=None):
                 process.join()
 
             if was_initialized:
-                crypten.init()
+                # Come back the way we were: without a TTP, do not wait for one
+                provider = crypten.cfg.mpc.provider
+                provider = provider if had_ttp or provider != "TTP" else "TFP"
+                with crypten.cfg.temp_override({"mpc.provider": provider}):
+                    crypten.init()
 
             successful = [process.exitcode == 0 for process in processes]
             if not all(successful) or len(return_values) < world_size:
-- 
2.43.0


From 45f8595c50e85c65e71edd65e216350c0a459552 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 40/70] fix: gradients were lost where a detached tensor or a
 non-differentiable argument was part of the graph

---
 crypten/__pycache__/__init__.cpython-312.pyc   | Bin 0 -> 27464 bytes
 crypten/__pycache__/cryptensor.cpython-312.pyc | Bin 0 -> 29069 bytes
 crypten/__pycache__/encoder.cpython-312.pyc    | Bin 0 -> 4882 bytes
 crypten/__pycache__/gradients.cpython-312.pyc  | Bin 0 -> 95581 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 202 bytes
 crypten/common/__pycache__/rng.cpython-312.pyc | Bin 0 -> 2274 bytes
 .../common/__pycache__/serial.cpython-312.pyc  | Bin 0 -> 6791 bytes
 .../__pycache__/tensor_types.cpython-312.pyc   | Bin 0 -> 1800 bytes
 .../common/__pycache__/util.cpython-312.pyc    | Bin 0 -> 5478 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 342 bytes
 .../__pycache__/approximations.cpython-312.pyc | Bin 0 -> 19228 bytes
 .../__pycache__/dropout.cpython-312.pyc        | Bin 0 -> 1606 bytes
 .../__pycache__/logic.cpython-312.pyc          | Bin 0 -> 3869 bytes
 .../__pycache__/maximum.cpython-312.pyc        | Bin 0 -> 14228 bytes
 .../__pycache__/pooling.cpython-312.pyc        | Bin 0 -> 15512 bytes
 .../__pycache__/power.cpython-312.pyc          | Bin 0 -> 6087 bytes
 .../__pycache__/regular.cpython-312.pyc        | Bin 0 -> 13314 bytes
 .../__pycache__/sampling.cpython-312.pyc       | Bin 0 -> 4387 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 1571 bytes
 .../__pycache__/communicator.cpython-312.pyc   | Bin 0 -> 12605 bytes
 .../distributed_communicator.cpython-312.pyc   | Bin 0 -> 21201 bytes
 .../in_process_communicator.cpython-312.pyc    | Bin 0 -> 12002 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 236 bytes
 .../config/__pycache__/config.cpython-312.pyc  | Bin 0 -> 4704 bytes
 crypten/cryptensor.py                          |   5 ++++-
 .../cuda/__pycache__/__init__.cpython-312.pyc  | Bin 0 -> 215 bytes
 .../__pycache__/cuda_tensor.cpython-312.pyc    | Bin 0 -> 30985 bytes
 .../debug/__pycache__/__init__.cpython-312.pyc | Bin 0 -> 977 bytes
 .../debug/__pycache__/debug.cpython-312.pyc    | Bin 0 -> 6740 bytes
 .../mpc/__pycache__/__init__.cpython-312.pyc   | Bin 0 -> 1170 bytes
 .../mpc/__pycache__/context.cpython-312.pyc    | Bin 0 -> 4981 bytes
 crypten/mpc/__pycache__/mpc.cpython-312.pyc    | Bin 0 -> 16674 bytes
 crypten/mpc/__pycache__/ptype.cpython-312.pyc  | Bin 0 -> 950 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 294 bytes
 .../__pycache__/arithmetic.cpython-312.pyc     | Bin 0 -> 35490 bytes
 .../__pycache__/beaver.cpython-312.pyc         | Bin 0 -> 10998 bytes
 .../__pycache__/binary.cpython-312.pyc         | Bin 0 -> 23743 bytes
 .../__pycache__/circuit.cpython-312.pyc        | Bin 0 -> 5560 bytes
 .../__pycache__/converters.cpython-312.pyc     | Bin 0 -> 3817 bytes
 .../__pycache__/replicated.cpython-312.pyc     | Bin 0 -> 6300 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 0 -> 386 bytes
 .../homomorphic_provider.cpython-312.pyc       | Bin 0 -> 1612 bytes
 .../__pycache__/provider.cpython-312.pyc       | Bin 0 -> 10237 bytes
 .../__pycache__/tfp_provider.cpython-312.pyc   | Bin 0 -> 3529 bytes
 .../__pycache__/ttp_provider.cpython-312.pyc   | Bin 0 -> 18194 bytes
 .../nn/__pycache__/__init__.cpython-312.pyc    | Bin 0 -> 2078 bytes
 .../nn/__pycache__/distances.cpython-312.pyc   | Bin 0 -> 1764 bytes
 crypten/nn/__pycache__/init.cpython-312.pyc    | Bin 0 -> 1182 bytes
 crypten/nn/__pycache__/loss.cpython-312.pyc    | Bin 0 -> 9820 bytes
 crypten/nn/__pycache__/module.cpython-312.pyc  | Bin 0 -> 131483 bytes
 .../__pycache__/onnx_converter.cpython-312.pyc | Bin 0 -> 14933 bytes
 .../optim/__pycache__/__init__.cpython-312.pyc | Bin 0 -> 252 bytes
 .../__pycache__/optimizer.cpython-312.pyc      | Bin 0 -> 4890 bytes
 crypten/optim/__pycache__/sgd.cpython-312.pyc  | Bin 0 -> 6266 bytes
 54 files changed, 4 insertions(+), 1 deletion(-)
 create mode 100644 crypten/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/__pycache__/cryptensor.cpython-312.pyc
 create mode 100644 crypten/__pycache__/encoder.cpython-312.pyc
 create mode 100644 crypten/__pycache__/gradients.cpython-312.pyc
 create mode 100644 crypten/common/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/common/__pycache__/rng.cpython-312.pyc
 create mode 100644 crypten/common/__pycache__/serial.cpython-312.pyc
 create mode 100644 crypten/common/__pycache__/tensor_types.cpython-312.pyc
 create mode 100644 crypten/common/__pycache__/util.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/approximations.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/dropout.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/logic.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/maximum.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/pooling.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/power.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/regular.cpython-312.pyc
 create mode 100644 crypten/common/functions/__pycache__/sampling.cpython-312.pyc
 create mode 100644 crypten/communicator/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/communicator/__pycache__/communicator.cpython-312.pyc
 create mode 100644 crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc
 create mode 100644 crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc
 create mode 100644 crypten/config/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/config/__pycache__/config.cpython-312.pyc
 create mode 100644 crypten/cuda/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc
 create mode 100644 crypten/debug/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/debug/__pycache__/debug.cpython-312.pyc
 create mode 100644 crypten/mpc/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/mpc/__pycache__/context.cpython-312.pyc
 create mode 100644 crypten/mpc/__pycache__/mpc.cpython-312.pyc
 create mode 100644 crypten/mpc/__pycache__/ptype.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc
 create mode 100644 crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc
 create mode 100644 crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc
 create mode 100644 crypten/mpc/provider/__pycache__/provider.cpython-312.pyc
 create mode 100644 crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc
 create mode 100644 crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/distances.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/init.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/loss.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/module.cpython-312.pyc
 create mode 100644 crypten/nn/__pycache__/onnx_converter.cpython-312.pyc
 create mode 100644 crypten/optim/__pycache__/__init__.cpython-312.pyc
 create mode 100644 crypten/optim/__pycache__/optimizer.cpython-312.pyc
 create mode 100644 crypten/optim/__pycache__/sgd.cpython-312.pyc

diff --git a/crypten/__pycache__/__init__.cpython-312.pyc b/crypten/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..25357872ebff13d5a923c49eb07b9bfb98765b54
GIT binary patch
literal 27464
zcmeHwd2n3EncsVJU%-I4NB|@;I0#}u5FkbI0uPzuAzp$cg0f}W3OJni01h~qf!-UC
z1UxK(va$j##sp%o3CDB{A6bKu9MQX5YbSQH@@^`%$)+|l9B>C3!4>UVTUr0HRS>}~
z+xjEP@9TcY3^)X7Mc#EPc`Wqwdwq9*{oURC^O6#efalHf|2gn`pA>|j(Tn~#w8-L7
ziy&MVB;k}GiIOEMo)X!w<&=f}T2EQoukDnL{n}62*{|c2ll{5|-KRVvFYDF5`Ly2>
z?YC6>^`G)fR>>AE8(eW}1<F_@d$fG8;#38TJEE0?Ri~;%L9QBT*Sl%{o~p+84)a})
zomz?SoAfvH_tdJ0!2e0k8@5o5)GoPR6;IVl?pK9Vb&?0+YRQXmjpRePRw_YQFO?z;
zNPdJ3QW?TVX$8V2$s(2C5T%M&EvG7_N_=USst~S|su8wGD-o_o9*eXJf1>Okc-HKR
z9_w>RHRwU`0jZ)?i_}(D`lMdQ{Oz+ybx7ZU(#29mX*E*Yq&4VCyR=bSi?@yVt;cT%
z>sjE2MQT9*JMl(iX+(UJ)FCw?$7b|fl$w!a9lkzhytUwMi}AJ|Z;wlzQY%Vqm4aw#
zo79GId%qxU_?CET$A~4kY1F={<MED7Kc}8||6D{E6mxb-J~P~ph&9|tKc4-{$k0hS
zrpA?^EoU22<nuXOOum@N*`x7rD4KKhN8@Kg(XiE=0Ktwpy)S-+foxK^T$P~u*)xD|
zOP{3hhL$c02`bH=0Uh-95BPmUiz{^rxBhv6Z65uN|4NpGPyh0U)}knkh<UY_>gndM
zWKERmZv*9e%={gwGUIwo@6nq!vz?@Pxhb!uYCW&{tCt$6F~8}tq*!z|maC;sFKhnl
zEj(gB)|e&rm|nv<%%9Sis9*XWYxR+5OWE^~vH`s{^LL=pjO($1W<6&94*1Qu9@ED{
zFhKu;_RtW9<q6<95{o1vp=e}O4rtKc5jc_vT!=)YfryzFjt>qF$0FfSBCfOtR5>v`
z6c`FAi4j&wEHo$w`r=BUFA|jlYUsQi=nO>TA*nqOib+~_RhA`{<vM|n@xeg%@ZcF)
z2|OjoWF?e{MB=dyR@;*!0ZHx)4M!7!#97ok91ACqcwe7FRB<5Q7dX-VRG^>N5?9m!
zvhIKOd0y9%z5se0KHCu<mO>p7wKsG=6p4n;MCI0CK*2DSm>M{#49o3-$o-=Z#R4Ho
z!UV-*p(yLy16zCwEe4)fWwakgF?C1|NBTzC0FZ<MosWcN_L|qzkRr2M&54#U%EVbM
zdxwXm?o;~JE*7H&W3%4NX1rBRD8a7$FNJGBbI(^npU;RI=#IyDqg0vJt=32^fmKal
zY58pN@2I;+8;6#W>c4NcjjpjdczRe(1kT8TP{15FUyJV1dJV(^=tn53$RTMY56GmB
zLqSW<JFLpRiL;cb=3F#0y@|w7utFi!nDf$jdc*NpU!*^0BdE-kVpa1dFz31uQeu%<
zznZgAELVDBIF^VE%Aew&b9R<H=L`e6C*)YpIye;0`OrqMBEK{oQDiA+?Uxfd7uK51
zbIyg=UL_Pemn)^%g}4%xdR1(hoVS;4h29}0)}M0?De?0WNmh7m#+&=($!GURBXTSe
zwC23L@4d8BavpOra}GYmD$x$C%!g|`6N5vY7dw^Bk9TTa?d)Y;@9pgv8p+vc%nD%u
zVnft91Y^R&TESJ3a;}|sd9V4e_@}(HuI76V!R5<3Ytzo!S?B6`SJ}0aD<!Gw?LS^S
z>pDE=D!u0t?C#f&UOqat_08>X?Yg-uyJ3HN!~V>MgLiC)7Eri6<y<rG@?CRXalP)z
zy6V!dx~ZeHuJx?q*DhYZ`1w&@ea5-^M&cV6zk2a&quKf$>G~a+`mWo~u6b9*)slH{
z`L$hFc4fUyX>Zf4cip_N;@Yt*$Fjaa+84<BHl}?Wv%c+V-}bC;PujQVj_-*DtKe%{
zunVqTix`^_)(9EJO(J_3FV}_T39KY0g{1hV<qeHY=abny)F=e4-6w-qg-B=4#+KV-
zE;SMevnrJotVR&DDC;TSia@2l1p-PFesW$8vkZcjAikWS94irw3G+4=o9V}=rCXzS
zY){VH{QvZ6WgXJO_%j}=jyk*eEd&^zkx-0(7_b@1Mx+?`FyJzhjmUu4h#C=dN)jdd
z$6{QDp07u^DRu{)3b6+Y(P@Rqsj`*=BAYn}2nWF`&EHLdjh4-nLV(MHPa&cbcRVJ%
zZ}Yx(?DDa!ZB^Q~Dr;Mpwyn$BI@7k!tZiG`wr$q7W8Uj0NP2xw%C>5mscS=Z4}%PI
z2+9Uz$C9!&Cc>_4q<~h2_mzF4;6?nYD-d8cz5c9sZQ8pw;|-*2fn_@LC}660X29S9
z(TMiwX`tW&@2UoltB@gAGo%2411st@8uY4HO@tEa(oxVHD-?wAw@9$eVe;_h!=FEz
zwY8>gt#@o~|9AsYWJ0=+Fpw=Y5DH|9Y^H$iB7@V$7urE=7ZIF23=~W*ya%E{=sT$B
zgxnud6GYKNfiS2VSeCAEG^DCsr!_hT!Qga29X`XpYSjAVSr9i#4#&aMfLey4(f9?G
z5q=Oh1@sjZ4{HOG6iN`4)Qb}%lV2~Rs(lI?eRd>q7CcRONCKB4pO<5S2)G(>Myy%z
zEvg*tBa#}6CpdpVb!lDf2%L-u&@!to0xBOG8j2EMQqW8EDpb(A(XIACG;)p@mk4+e
zR!K)kARL$Ejb|VOo$CVo!MexOK)3>*Fej%&(WbChqhOe@*7buUd9Uk(2K&H=^Yn;W
zzSWEdO%8|}>FD4*1-2{+O1X+6EkS~_5uc<IP;lg|Y(<m>1Bj@Evc`mawSuoY>kX#8
z!I|caw=-qyydRis$jX4}JR;YH<in8iGMo6ksFWt0sD?d6oklT+H#E?F1@9)p@1=Ix
z1F6+Ix}`@>aA49oy2QwkOzSHVWQD;s0jTo9NbUHr(VWEq%f1c(8kae|$QJ?Q9o<1Y
zpU2AH-u)*&{p`tu-968o=so%AXAk!D_U3Ho<PkOJ`D7?MEFV;qxRR^u?LBbt(7xx7
zpIn;1xA&%)^PB74OHJl2L9ULrxYqqVKw$ZlCotAg{Hc#27!%%eR^J%NuHBPfyC=K$
z$@JPMGiwi|od@PiSEXw9yzNidJd-JXHsyMDZsYD(j~2yTG^=dg8WDLIDW$DHy5*@~
ze~vXURCc40B{(-%M?B+$#=8#%F5^!nfgIG&Tb1>0PJ1_}Y@6?gL4p}JmRgJ|AE5za
zh-F}pE{LmnLbxOj81Sa&69iL<U?M*q3iaPtM6>2%Ou&G_BAE5+#Oi?XA~x7((X&h9
zC5y?Ufg7_Jy%eujB*m~r6nX?(p87+weDoe;pL7{($N-*6OTdYQG`VCJ!G<{v?w?`s
z{Qc4~+R9}f%E2?}s5PYHR21q8eD2a{;Q5%2c940=E~6YlXU-E*Ild3eY=<ekFi|-N
z1gXJLB4?xSDLd(tJ(7?IRY(X9-m0>VzFNakRTl|3ds#u?v}AiJN09e-@TYzb0Ry9n
zz8eFx-XM0$oNpWFsedfJz3oTQjPKZ@)#CRo2o|>oEPQn!TlILl>hWw<SGuYzQ?>i9
zV6m^d;vTn+hv&Uj6Ma+RJKn~*ij`kDwqQpJig>G1Rok;wd(%~Wf1G&x(2tUts^b~Y
z(<vKgWtBbXL>PbUp$$mLkT|QwFCZY~Ip#6JK?j#hgj5YMF2>b93~?rCbFima>7+pF
zrlc4F_<cwGqKM6I8U0;GeGY}fpw%O$ssXr^D+dB{jL)?J3;?742od4aOBUfY6eoS4
z!K}vn5($V5(1Vx_NGw3%NG2@KshY9_Jq_9v!VVm22t*j@Kn~f9c+M7rRv_m%2NAb_
z350mejww$g??1<%+KmA6VX5F+N%CRs)=cg8asQl&U(?P#_n}p+HBrX4w6|^MiL`gu
z4^O7N$KU>B+Iu`@JAOZYvZ0N9TuV#Op8SQ?cRs_lTiIlt$kW3RZxcT=z%&H0`(~d{
z&rOT6AN8`CA#E-4=M$I;C<KgU>(zGCb13jF{AsK^gkE3uMEFKm#@mvzweYd9zG?w+
z6>KbjhOmHc(AOo84#L2A;Pfx$;jv<ZSe{a{h)5<G3Q$O_+6<cf00-hnt%1nV)uX_x
zv@-1Zb#b`zuOw@~cu7pq_GQmQ>LST#$)nGXJ{rst#KcRMq&QHqBr9GeThj71;p@iO
zMd9iy8@BBM;hHsU>4zTRMaa^Ztjo_q(yF&MX}MZs6E4{<S(7%j4D@@+ZqDbx@~heS
z@YPJ(AG}UUJ6nNfn{agxR)OR#_6(3VV9Ap(l;H!lOOo&^+4b>A4t)nn&QU1;FFEpN
zf)o==o}@!BdCB=3>VfMwRImFXBXb)gbDIkKq%-MCx=mfrh>N(3u;r5Vf)I3v{tyf9
zAqhfLJA)xO3pK11fWn8A(p*ao{I98L<-m|C4@>cldOC8GauFgHt7cSI;vIoQko4qG
zSXbP(2QJ8Z1*8>^4=V-ro3czJ8I>9XfsJ}MsC}*jCK5rZk@&Ehr)#IaH<A(R!KEm5
zX$fYqYNU3kfpf9=g%}j&BnieDF=FYwP@q+np_n8|g2|suCA^-5TCS95HJ})E4oXeP
zvk;Q|WCb`kzeLAiC^j65LPIJ`rjXajO=gW+N3_X5GeUwgYd#{YT$VhE@oUpVifnDn
z`Z6$M0v67gw_(hF;%q3v*8$4cu&jdQ(&DOYrJ(obgJ&A{g4rcyABMw=P-B$W$i}9V
zvT*9d1bj`bCw(~8qyY<ADM*Zuoz|E8Jc&#y#C8G>KI;k2A;=fObkO`?h*KG=h02je
z7*n7r69}#VZ;7*mav~CDqXF=>v;OfyDu9F+L5DGguvf6UV$8V027cizS!Jk!I0A)4
z`-FnVRj3Z24<H2vDrJ_L`^OSuRTSL=)NKy_t!z%n?g7QWM3YAob0!iCDcnFr%Rp@m
zgBk8eLgGS1l{a2QCV(0B2`gvXT3|fV`-mCkumetbXgDY;z{p^J$eJ^1r?BhiL_>4d
zGm-vizRc|sx`Smok7;aCx+tHW0dvl+?f$sJDpXEVnlIlxl(S>S`{kUEtL34Sf)yd>
zfc8X=!9W0*&v|Hf^qv_>$ZF0KS98u`4xGwUR2xhKBe5`pel_UHSs_B_R#1;23z98}
znHJQX7~zb*FE2^eMoBv-=O*xD)#N;Elk&Ki?;~D6$bdk2fj?YfNu+=&s&68qCc#NS
z)6p)J)n0q~%F7vl;I3e`d&aHvosYlu^39j$D^^|KJ-K_@o~dZLXSHndT=h(Bx#GWJ
z|Az0YzUk*Pt2W$rwJ%sv<eo=xmAp2389M*9Y3JHmXJBqk)70UVt7d*h^_PdQk4}ze
zS9YXVc4Ss=%B<LYR}kHgjqjWDt;zbD)4t~E;hE=V_D_H2j&JjV6-n=HKm3;~kIW>r
zmQLPT)s|X$WZZ|~z3N8DBJLyN_@Vig4cA|ud^xkS74?-I5htwkZJlp*-t2t4dbaKG
zmpxNkCjHZn+hyxNuu}4Zm5SY~6ny?`d#~)h(fEzFueMD;_qB~PRnYI;T9@{2A3HE#
zR(0Js>6<#4DQg@%0#>)Y>iXKrwcoLP*Yi!!%;s;G%nWB%Z2h4<y<*SUQ6yJXU+<Xg
z_)htEYrk1Lv+vt$ZrL;C+kRM;F5f$LY`%Qu_4dj3sn2D~H;f&7-{zliPjyXy?v8EC
zukLOXRvi^p;wS&qzWS+pTY<NL!7_i5vzZ3VTujq1iTz?8>tZl<s9Jl#if9rP7$igF
zFQ)m|nX=_90GDi!SjRF-fJ^qIO|qW*EP!z|X_suI+)3I<;dRN8bVycWVYGMWBerI+
zqWY*&g8(*1AGzxh>nXyjCap>5n|7lnchXgiMb+m{6q4@c(_@w-Sk<I;Io}DS3(KYp
zk2szpOl1;oKKf{uZNrivO9Fc&2XUeU%Xn3QjgDdcJWI<YJ*;FAZwiwghw;s9$w~Q_
zDP<@{3re{jQpymZ3QD;jQYv5I7_tc?o}hR14kLa&!1$_8&~@g=<gwbJDhNlw3UTg&
zu}s7ob#QKqyFi>#V7Cs3U>fImo8{$v&b~gdPwX9r1~4=d6tYU>%y0tQfWR|4(*pef
z*X~M;wlaQ#S&y0CHy&3cP+M?p)IZMegu+T391zhJ&CU<5f+&PS8wGN+T_Ww%&*@De
zF$j8FtEz+*!W#-vRfW8a6e2F&LBH|>y)e>di^gO9+*C$usSv0rB(y+@r4o6x!-^h;
zuhfN51UfEKY~|d>3@Bvn<J8!j&mwx2vy>2_V1O!f(=0Lq$BeAZ+^Ug7;>NUe7PY~2
zzX?WL`K8T_cB)=fz^Ne%IY~T2Ra5X+_*2hul2|FMsAhB^G}ZH_{VmT;&urNiP7kWD
zubN!-rP}O@w)Bd&%!>B0qhx#Bab?HrU54Fn?7*CJ#l&;3ygXM`GqrE>h3VRK<%V(h
zT-Dm?6_YPc52PzMjl19XS6sVz<>Kq3S$}=nUq9`h*_rWg9k<Qj_kASgug~~*j@#aY
z!QFkuebqb1Bmd0%Uger`_j_eE*Gnf$Gi8CXBXfCiqE9QYw@$WxsV!UHk}hwV{@ks7
zpikNIUFq^&neshj$L^I16>FwGnJ#b6mIu@2L6EAug3Z2n+%fMepV*dm)lMO3%(^<#
zu8x_JS=Y|xzHcWlfJ13lQ`Xg)c6HwJ%(`|_{vB!8YBb_%&bl_GU7K#z-Er;tz>Q|O
ziX~s%CU%Y97k`YPK*d5Jx#TIP(NlITj~Pw1HdHdpQbQ=DHOdP`HNg&h$ZY^ATAyKi
zwU`!hQ%&=V7_^4IiQ;T??IU)YRCzEPLPmnEgE;R<f&9l=ZCOnaGdwh`48>J&{6&RG
zUS5&qeEg&B<L)^2I}>?~jY4X(q4>~n6sSPbxNU=f<ozpfCNk0<D1n-IjuoffWOAYZ
z_~K+97p!-txJXGIAKmdh)@7qQ3==4+_c^<+p<c`!lZTl+gv3Y;SQGA`fk7BM$-jZX
zRUw`$=V1xGlwe{-hFEkJZ6PL834+i*$3kR4R46C~%%}$u0b^b+xV*28Tpr0f>ux*i
z<|}KiAD=uvU6UbPGGASHJvtek-j%8D9QVHOs+c%3H9E8Fj%)k-WC!cXl%7nvPO|-V
zC`^2&{!pBNdGRmMZK&NXiq}-T=L4{*I8WM4{hrP^sLrE;WYL)(*e7*{ZXI$jyRGyx
z%Q2bfu-RD)Ha$0NPLEdWGHhqkcCJ+rCPbymP38vZ8pphF#l`Ps8jZtji>F?4B8S@|
zB<)F|k4yv(G7&&yW-yxr<ovPZdD*F>4JD9t7GnkRm5j_w9=&zF^d(p9M&24Y6NY>4
z05qjbp8<n`GE?-mf;eq3ZUe=%fkuxnx%vgLw}xYDUR_%BTO!gM%<p<k@BO!+lYOxT
zjG#MjmKyb3<}aA!X7f#t>0?j2dktsftF1O6wlc9^&m%b#K|P){dR}NPe?(Z>sMllu
zLQk0Iwj7Hmt(Sv|4n4h?xBdWGrI$Pd<WjKYDPVUW4VH`aPlD*AuPY$YAe~9){d-g?
zOFAVN!94c3Ie&(R6nkn}NH%9zS()h6hcmEEkD0&FuiD=9nEguHlFnWO(vr>|p-D)z
z>G_)lr3GyGN1ua&HF`z3AY8P5TDTwvy`jGYQu7d6KMvL!tTR+^X9nbOg83h7I@Hrl
z-P1uH$*sZD0qC1_!yNn8%QQHQjYe`&ciX<MK!~|DZ)AQjS`)2jLyWvf28W{ZASppl
zlfx=1Y3H$MBt|W^vkp=x`2&-4G|F<3mhm*0^>cU&LZJseA35L>M*t7eL<k;pi1MZb
zWWP3Q0<kA2SXt^Ke`BWCGd=~FzL9wtp*y6YqpZ9pZV2lnsuksm-99c4P}dB5Sy$kI
z40&V_{Z|7Q&dN+Xrx_HXe~b@Dxlb|8w^2wllp9^tMyvg>u?<Brqy#CZ*^+1_%nq<_
z^>X*Bz{$`#v>sxl7b;EoZ$pL%!&zJRd171-DE1kdPnhobMj{jGB8&Ef`xh}SDb$ph
zWtE(DLF&~|AJ<q)a6eO+H$42&q03d{u;<1$s?gtu%>~FGU4ibEyq@7%PJAEa9~o9+
zV+>4Liw-k)1g=#-Tf9cz7?&N*>498Uurj2m)pBw@us)$=gFcPir->CLUvI8^E|?H5
zH*$4x0>ar4Eeg5}hymBbs%CEA#3PZPGBa%Jl@`>r#G;+wcdm|Rl~RqGD+L?+>AutK
zTtFmIP#IqtLr{*eUQt=Dw$`TFD8fC#qj42r(G}Rw9rWm9o*AF)0r0a3p9MHkP25xw
zf}H}hrXdF^lDAPY6Ie&G#S{4R>Cifl86`}j;TFRwkezohPANoUMh_o^Yv3uc&p1{P
z;3j+~`VYam5Y+?n&<pBsm=BM`!Dz>EZ8I<3c+li?Z>|xD8^qqm74ZL~?UX;zhXW6U
zEC3W}q<@&9t3lmMAI^l>mi@BAv;w0W?kl3_1Y~?>6AW91^Lwy+wDX{5#2}SFX0(qj
ztBH+RS@KH6j1nx4){w_cINl$F^Sp*f*p67I{``O88GS6T`2g0A`plsfNMyKZSp}*n
zA-E=20deSvj*exCxv6nCfq#Mw#k3WSch9+@_2=tLx`hk9WYNIU0p{LsiN$h`r{mHv
zeD!hI0ABYlNtTCLjC}WjmdQUf=R7mq2Ll*f<XGumA{9BC6iS40?vv25@XipcpK~9)
z7?y_!yW~m?l}Inh3iF@NImq`FX%3Ev^86YJNpbwhoH~>^4cn6w`<Naiij^i~fdLsg
zZyrWvnR7nMgeusMQI1n@959aIoK4Qhf3?Aj36+#SCZ1!0OU}>An<P{D7nF&Fm^$$A
zW5Ne}1=ouC(uP#yiA-rv%GL9}zh<iGhC1tS!b@shPX?jC={=u+V)GXcPgUH1R-mSf
zH1|8-^X^!*<9E*2MSdD(OH?k?`!nA43zn57)pM(Arrgsbsr9?(s;VbmoN=dGccO+B
z2gUa)4xkD|;O4Zde8DADR!!`jThlUeXs%*)s-pRwHNlyN^qOrm=MhXCg8Bp^*AtUZ
zOmCa5Xq#&aW}CL8o3`9K^n+vHKlTStXPTazJU(AlKka~q$aT~8mj9-Iwra<G)B5l3
z`R1Nm)tROp6UXP)oR~^x>$j!rw`J;gq}H7H;qL6NXVSZ#$?SR#Z!l$4bxn!yH?(9M
zHm4gl-)i_l%lBI{4LhgAuRA`lBN1b*Yfd#k@gJMtKL4lf>E`ZC?K7#$XYTogk`>nu
zUpf5xQO$(%*;`xg__kwEWpyck%Y4~NQVC_t)}_nVWy^M^%Xa>7!))21`Kp@hFHFAh
zrBm6ejp?e5Gt#a7nW`PIrC?QBzSA`8Z<*P4>%_m_Jzrg)3Y^STKc6al{(W!RwI{AT
zF|}>h+c;mfI$O0qUA2D3ace(DJAP=vCsfyrJFa@>{8i&6zr5EeRIY&;sigY-vdZhO
zN!OP=*|OGjS?f&sOwVlD=DD(}1t(HJR7p_#$)5e4hqnrUwzcy}GaNbaMSn=J_Tq1G
z2mucHLg#Xx*jPXoe;|BnaR{IJ4vF9Zmp+UI_CSz>8?9c7H1ItF|Hgzn=KsaNLU;2H
zDrY#GkdJOM<{VN1lT(Df)EFb3!DO}UE6}j~_VJJTSm2}3O*Tlv4F&X*DAun>H;sCh
z($7L3{o%yYsHhmxWT<cSd3~X1@HqLWF|rzI;>4cL-Ek&Ir;_YIALF141O=VF?x5pb
zJtJV&FLDG=8uA>J;~@#Yd*pSee1!tSw92yxRDxHUIj#u$I(?_$0^!hS5P^eUHLR->
zj>|94m)6Yr!ltL@0?e+J+`M|*+3-$j?bPPi<KtGG&+_@lj(%Vj{B={C)1~XD9SFv)
zbKcUiqg>^hze$X(_WNkE(1Z95ZHr;!S<w~t6zGVkEPIlcgrQ~9<-q%NL>A5Hw+^|<
zjKH2^-e<ZtVL4CYb47GSZs8H@HRN8s7v@3gq{ToNFv2CpJ_|HIHq!h+W_`3?7cnC0
zBZ9)%4q5nPsK=0c9id~G3I^~!;6zDA+HaguCn56Lk&|@XRcE)cBe)1zRJH{|>w>ss
zocx7fbMZQ`u^HoQ?6luLti}W+8cTr;!sNsYaG=3d5j&>y)rQ={<r`yMG)kRAGH_!d
zeqvQVOs1eB|3@+fArVuKDJD}eG;T6u4@Z;w*b8NfjXk0BBtsjFqXs$;5Gk6F9kOzs
zNTJIIAe9A@#I{Gsi4yk-6+yT19CoTQM!|jx9>l+c?G7nQL{@Nkh0rTUxx^Ree6#@i
zLNWxb68a+C%aL!+&vKaar+gFX*9Z~6g$O$o1OwNWS!X@tXrIfJo=CY)<a4w~Q|pdq
zTt^>;qdg$L=iN^%?Ew)y?SjMZZpbtJHKzTI8GrMP^|pV*J7ue<dZruFWgXM!Z<lp|
zFEx3;wQ1klJHEg#uO863LG8<jst<ksNucw|$Amw5ta*R6wZO;3K>BYY*LA^7oDlpH
zG<0Xx(4B_<VfoMJ%}|0K9i=_wY@!Hs_c7FCpgT(loLoM-Bbk`H^pUt(i24e6HLm6Q
ze+d2M!TbLOi0dO_t8V=iHgh}p1^^R`mbvw(@qusl0!9nMJZ4AvHd5cD4GtG@;<Re5
z_BHRgDkplT8q%(osq?p8E$^GB+-qSEzvEi{%d0m1+`IPWLzM{nE1pi_t>%3dg*%O!
zwc>A)B;yCLSEaP`MzJT^!9U2^NejJ^UsR7^vR=jP-KInXb-z&TfRw&Zah8UT6{249
z074Ayn62R43%|{RAG`pIpeeYpr(~|rh8Tocn5@W5Wha9>hL_6eNNi|0!4>IDD+hhI
zB$G=dXb7XC&|RH|YL#D_0hKz#xHKnNDTddHNmec+$l3cq!{|-~w^0C|Bh*07&MH@_
zoPn|JP{%2<aueVFn3nOAhyYK6FRq)~IqO_E=U+9oHSG^f@0)Rd^XXg9r<=Oc{;rg(
zYu;UYt^P{=RL!irX|8h3^=BrZ$yBa`kA}BwVrSaBdTMw^oH=r{1cH0oyDeqg#`)%a
zG)Vj|TiB~;`88|d(wc{s3b<iWUkun@2nDl8vb+j=<N*VrzJdDafz@SM8wml;n^wJk
z0E$_ot$2-$Be$D<pjNM0v=bB%$O{}D3;`RbCHyw>mbZK%?}Wv;wNI2Buez>S@9#Nl
z$7!}>x=5Jds#&IBTa}m_7W!{+<@z^$CI$?Cna>P`OGmGH^jqN3?-_lX!Px$I442c$
z<O9W3y(WvNkqOAF?7W`}<uf@j!O;q;P?hxjrxDd)b+nE_ATdj*FJN#tI0mgI!rE%F
zp3!Ef6X=VF5F8UkZ1|+`BD~CSTE@s%jF_5N9DPN+F5-Mk9o)@??^!R1$_7-0v!uoz
zxoOE+IyNa^#b=e^QR7}dbnhm|=8Hqh-qC7wvtu{&$x!!p7~fOqf=VuLe=GcQOt|go
zoNl<fmFadiXT59Ep3Yw}Y4nx)29f-}FaZUFBk*E_+l`1ZI2>TfA6&jJMh8u8NYw>H
zQl3FA3b7ygqfq`0K0K)Z8T5aVJQ{ibOS@*CyE;16aN|_g-<mG%`qd&$|0}ht#Sd%Q
zf~m$*nOuQdFeGEW$i(}*qA@7&PM4rox?+*o0YQ=owLz3(5F)J$4xG{KceA6tH?7L|
z@B&wIQeES&7Y0@Qn6rkl#<+mL-1zR$_{jMFOEy4g2mOw@b#3GJiPck~$@)94zy~;`
z>EPr1e0h~Px)=WSq_6<8)FC~O1A?)R6c|#36wzdm9FD=b6&)eop8BaW7eDU$=VE*{
zG!+2poD~i)ToZ0Zwd^Em&Ki|t%0YDQrY+~xc8zii?+g-^e~Xx|%lHHz>VKd_3jUnn
z?!O@dsN;w1`fns=z0E1x{#48U3_@@7ywd{!oW3yY>6~?T&igB`ja(U-S~(q_^|z&5
zZSQ+avBJ03&z5%0db?7#7gD=l$RPA~%{{*BFDrJ>yfj<6enz}g*><~P_t^1yZ|NeN
zy^bz;uKOML1dGoBwXglK_@47AaNUUD)#m^+?edOq|9o=drQ6O`bN=dym#&PG-@4a7
z;hYjDJsEFZ)?1(U)=xWUdQ#r{3_FMYtGgva<sRn1{ge9g{i3Zvd1+9F7clVO1Z80O
z)oS9`B6!@O9HtxFGI-p!3?9#;7pC4K505*TzN8X3o4M{5^XoCO8?Zbne%Yg!FtEIV
z|MeUimUrohqz6=po!cTT@750L_9Q~#a~~DI<E}H>JUIITH(c!$j$xt$?1Pt~YcA*r
z4JlSk@&H;uf(N&eXuOhUl3Qa?3*6}uK4&1I(Eaq{9}cCiVtpw>6n+L6Rem2cuKWQ7
ze~94YLXpZJQH>iZ_yK|<i12~E`Wx!izoU{rLNK~R!*hH>^RW4&V>sn4R21ZBPWds_
z{O>6^Lct#+$hn7O>Py42409c!xtyIfro4^#62$hO@JXTIr-az3gM`>Tbb44vYzI><
z2Q#*VgxEeN%=IKN*FM5rPcDPGvi_#DzX`@Le{0IsT8P9N(%y#Y^)qV9+mP{YNzpMB
zhQtU4|ET=Q^)@gWjWn{o2*UVd579WnXM|4{|0RNaK3B&;TfynTSI%RKDtZc71FD}r
z#m+q^MdC*WTw0dA9|$Q>NJOA_4MSX^e>xVRdm);H&4Mak05<qE+NMhkH6I}B=t0K&
z>F37{Ifju!Lz2PuQ#g(`h_iNThz!Kc%Ykg!n}d88ceA+&+H=lWytiKoNlOmiv)jNV
z$ezZO0bpRkE<AUy{AY}a1%F4NLSiW+fu0qw*L)z@?VdSrZ3<?!wL3Fwca1*-GhEi+
zk@k1Yyqxwwk@X))`wz^Ol*4>k=9#N&0QE2P{KAQ1zo4>rDfp1NwZGo6&uaaN)xOW?
zG*%7`nkzSjmj|vKUA;h(410`~%abRHt{mfximsgaMd0aQW6dn1dzV?W7+s4I#Y*KJ
zf-po<ZLy&3`!n=@=^D{_Jt+pbCXiPC3xWb(^S{zp3Vub4Lzp0Majf=karxCbnD!rh
zdpPBP`WH^h{0khO>lWz<UAL&M%7%S{^(TUTpW9i$9}w3`^Swyj%3l=-@WwhINqh7a
zfwX7rfuwK_JCj{k@q5e6odNGqs(y~3`x5y=!RKWo_(Cm_v}Pb>td{t20-`pMDo%|;
z!M~ZKSDb=96FL)#MiMxZ8^$eG%zI3ufUGL+VwP8tMgkcdtO@*kFdQre+Yz7V@u%>^
z)+T>ha4bYtVsI*pMwGum1}g@tu0{ll<AddY!g1X@>HSj4%*(UhC*E#Jdk?2<hnaW|
z$q1K2_M(5dZ_z5{$!0nhBMxKnPq5mM%S2_&l*vr^FQ#PCS715y${V!b@WB5SIt|<>
zV65b_HM)7J{7`Q#X=j|33#wTmY0a}jJzCA){5pADuNm@X56LlkyqLxGFV^v_Voh3b
z&qLk;2iWb(^jZ^!hi;#7z;LO>?_-z)GW(MccEJp=3u|>ue^`#<z8rRbg57z?u9?Nr
zW$lVsaE9c^CJl$lzi(({BOIzog+=$3F_`Zj-NDPj(+{UFxR+m{j87IY+-?guK7cs)
zJ)$E<IK!)a2J=zWk%%;rdA17TI3ONUB|!%+`DC~AQ6H5QWlU3WjDq77$OxEp0ZkVk
zCQs4*T7z)RiD-w?alt5zE4^pg@Rd6#;iH{Gco2R!P=S@v;oHRZi<1|>gyXlH(l~p&
z^0CZ{EkIH3hVgwxtPSFAfAF2M+NlGnvJKORZkKJChog<=Wun;?;Jx8)fSZZiPoh)#
zMAMhmS!dmxzkFQA!C`OJoXdMv`trf?7a@0Xk?TIj#f7^^ms}A#ZB09y-a&N-Qm&?{
zLm5}of>m%ebEO*w#GZmpd;p*FQKzYJE4JPG;Xm>%@p}$Z8cE^}OH#9N&;@Ft8C1+5
z;aQqcO=u?WAe3OIapKH1izEyve+d8K)HegS{MCR=o#$q%10OCBFsmeaK|`?dKJDT>
zT3wc>wT&+AX%Douao@k7b`Y?@aYRRMU4eapGx2y-hJAzeO1j@a7f{bC=DJ!q+5zx!
zH#0lX!bVF?(*xKBd1YXYO9pV~F`T9egE9|Keho4cfs8RR>YxpT6u||x@kTbmhN`Hz
zNdRMxY5maa#Wy8B+<#WvNZqWRL!qb&w^VAVpt>cE(&ZF+EeApYx;y~;k~Q0|-NJ;M
zBTfVRYuY;+Bi^`GJAaRx8@W{t5|+rX8CMQLvCU}-^P6Qo<fM#hq=&qU+0D)%m8Pka
zCX}=&gex@bC*6|)H4W)qj2;sLLDquNa)82c7<Qp9nM<fqQBtFj$%FQL&UI!u0)!A#
zb9R>TrmYw@(WMuTMwB^}WI+?53zE)2SObDRK-U15UMU5)X?M)ktO2))-_}jH!aTNT
zKRi$Dj(?av`5k>v9*^T*6~?=NOgl1aRQRC%h#dX2o$>pd*p;aEw_s0FFaH0I{0KWz
zU%q1d(TPL?9lD4c;Q9{sR^jG@7B$|l{1o4J+_(As*L+ueeDkfW<6Ew!<JNv2+qExm
z^J$zWYT<GO@q>$}5r7~f<WDgx!*ZtjV!Uk<#?d#l*65nyprspz0VmxQgHghISB19N
z{m!|{{2ML7q3}!3?UYqk{yVbe-NvT;H5H?vn`R+^2wgd>UGm(Vwl!yLEm>Q8+SY#S
zQz={f9owEltb+n@SkQ#1&m!`158Pyw^}Chx#;W`kTFiOa(0ZYG$MI2oU_IoD@Av7I
zf)nWEVjUvIhPOFw+l<RVehWv2^BvLNFm5NhZ)E?2Mn=IWF*4<E=xrT>U>U!Wka*9W
z7X~++cwtJDTp3;LO6n8bzDHjrc3PHI!O#3RQyoDHXjkyN!e6BrBU67(F`7wsB{(i)
z@9xHZKeY7REGC`|?!>J+y)fmI(XO{w$x_<yQ1C7Vrzu#0AXggZcl&p6Z+h-pUzz_=
z|GzA9KJ&6^Tn0okV}5D&-wb&5g7hB+c=Q(>4Jgs$#5E3bBZ_uJ7=HXzmLD2^nmR^`
zHLke$TZ;Xhf=^Lk&PqGIlF-Gj=w{bj^9zfgpl|yqI6?trPJXoyKXZJZUcXKOxg9V+
z2j<PhOy$fd!xWfY8fSVC615pu!DpVWhB^JT<~e6?FE~X^av{8b=-Lg}8k~pNtNcB(
z5x!6_A;euiqPS2d_^ZdfKNI}#3f^~x(su>-yMq5`Le)=&rgw#^cZKqIg%$4#mG26^
zzjp{?<xho`KNT7wVBpqU&+4>i^_X+6bXB&rIbGU3=AElpldb4TS9GL=GUO@o&-qH{
z5SEsG;I@}q#ypE<P2wlSyT?U~Sbo=I6>IMLM6uznOB6Toz*8b_x*M>Gd+wH6#K-P>
z++w%5uu53J;hs<;J}pwx`n#oD#mDasiEZNEyQf6I_`JB#A~?NsrR8&_6?0{kb1wHB
zE{Ld|tX(WQDT>t#F^f=J|Bc$O)-DQFqJLqN(9n3x{sYhVJ&QuE*s#zg)Hi=);Hv|R
zLYcVcZi`#ozPQRSKDO9gB0jzl5Ng)UNcRM{=s`c4*54DH=+a`PL&Tj$<-(pP#kXI&
uCsc~f3mrmTVEVaxLb>QzXcKDIPH$%M#dZ<>#0VeffoFx+a@ooD<^KjfqyRzy

literal 0
HcmV?d00001

diff --git a/crypten/__pycache__/cryptensor.cpython-312.pyc b/crypten/__pycache__/cryptensor.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..9ea093145f1b8b26e053406c1b5e45ea3c6a5af7
GIT binary patch
literal 29069
zcmdsg3vgW5dEUMI!U9-47sTStO8^A0d@KnHq(q3M2;xD4q9B?8WeK*rSnj<5mjbZJ
z-33Xk0EcnZ5tyhE7)vJ9$TjU~rsPPj=}FQsooOSbw(Cx(&4M5UXu~%0MD4`WnGOWV
zk<EJ2e*Zc5wTlHQ$<BBtSK`@w&pr1)=lthC|Lgqc;J*|U<O#UmDgB3Y!^48`xAdT2
z><u2)+C)LPD#(H?jtXPqpeWM4ZPYeslkKu&)IR1IbRf?zJ4c;ku0hvW&S1`%d(e$M
zmz*<V8_ZR5yM$MTuq}dr&wB)6Mz9G=o?@F8-nQ}TriHKBUMY0o{fsb}FS}n720b?6
zs37OQB*=M6!P|CTZm^K$<|Egm6e)%86uj-w-V~z+g`*{7rGurSpp>3#;`!FJOL%^#
zAPknV+Dnx(z4pOP%BBs<dr`g|<$X%ALce*+CZ$~ePH&Ycyt2t5yt2z7OxeOVk@ez&
z;4k_KRqhv4h2iLUT)7w@3yp_H6t(Xsz$oQ=Rb?a+iz{mId}uTxhvJdwxZj>C>X?j2
zN7Rtq$v;bZkAz}MW@i3~5)V?T;P80L9uCD*&R9GYej!Z2^(zNAgu1n3Y!F9;8F5+w
z8vZ2)!4@}4PTS(zKnTW=sHM~5Ij0WD{GGPFt$l}XZ%u>Y(o4nN#+^<^!mwROn_3OX
z1$qhdH(sRQn{`;~`chh5#d=vCYD|1(blP?f1D1Kct!1F!HR!kfp|#ufTJ>M_v<?IO
zrbCz(`!RBfFXTzMPATC@H5NIqj7~|zk#SiHjgCs4>eR%5G9HVnF)1=Gg~pLiOva^A
zjPwpEJ~=U}?2uv#?xU(CN5b&{gXPal<watVag5=3SV`rXU{bEo#Dp>~ryK+#<zygI
zc7RB^KveW*Q;@0;qWWMM)gzCpPdNyD$_3(@RAPQd%Eej|OXXV&Iay}P$xG2}qORSS
zcE!ggc3s@1wzlokitE3C9hjI>3DYdugqzrFNG=I0Zo#|h(v!<2zEvT|*&)t4@8xfr
zQ{EiBli#xJ@hy4k7Cd$HlXpE^?-lswoo_kbQr_uLZf?C(u*Z0PXLH-l(~FxQzw0@`
z3cVS>ThO>%S@+GFH){T%ZdDKqI>b5Wa&h%ias5JZ{hfx#Zf#m@c;asH;g9U}Zl!=~
zUMUtlzNDjk4eb)bl<1dE^=swGxhg2apePGqX5ye-wt?|DrtH9#*BpSS6wIs9P%M`C
zJvLOvvowq$G|Nfxv!S>I+)t`XObTg}Sc(uGoR7Ys$gF%AqZE_kQ3eX59gl>iF(rOB
zD#xVQWcaKUib+En#siqvLm(m9%wcnUh|^5in6&5#jU1cmmsq!^#W;TXbzV@n*o0|e
zM0i{4{0zD~Z42tCz`N{IeOlC~SHBQ9rgzq|m>Oo;8@9dyAhEcApktu7GuU&wuXCXH
z>AwDyCm8JQ4|bh?>Z#{~!BlZD2rd?i$JNN0$+&_XM|^5R0S~l?M?t^ip)n=plqbi=
zref4L5T;s%U$q`dqR~XXF(iRZh}%&zb_B^KVL89(j<;bUzv2Bd-@NT>M`yd2w``s5
zzT>G|_LeVsn-{#z*PYkni{7@Rr|n*mcd4jxp{Vg%|MkYjqFqV%F0~q9`uxt6I~b&v
zp}Bd%;8;|i9Ho17?KdVvquQICU{H>RgF)8R8v^^5x4jlnR7$quUku_<cuDxkW_P;R
z@|@1yydb?!BU+s`uJvKe(}^|$l9g?PPQ@kLUlMd?H<&Xb$c}G|gKqpf@tccsc_fi#
zx15Xr^5lHkgZ~QfU!h!t|BBx%gzPOD^e8T+KrS_5888dk8*i33MX0^Z%pWY4pOiPf
zBo3Cy<(N{XvJa_Ou0UEQpOCBYW|Lfvr*gRlsZV}Nu0>vjT!*Jhc{9=~rCOFO5NniL
zd5h(_POe9(&2j@$Ns$J($c?zGm$xEqkeiS;%FRf($}LEnWIxhorFpPL-iABBydCK_
zc?Z(%@=l~X<N(s0@-CzSc{kEsax2o^@*bqE${zU<OYM)~xy|z2hUdMO=e^3_bE6o<
zj7#2UEh9e)$dAg8A$?5Vk95D>j<j8V9O>io0i*}ygGdj`hmanUpFsMAd>H9rxdUm3
zd<5wcxf5xp+=aAD?nc@z_aN<&`{bj*>QVU^o{nLJD&^icMfvzkHe*D4rz-tVt0as=
zd%+DDQ|dSqi>sk<T#AfASdA&;#H6C*Qgj&1jdLbh;xa~}=^Bu_&nxN_xYrrRCaK_%
zIX8zG(6Pyw1t3_ZVsJfKf%F1*JgcaHHGns$95YF;1By{dik*#4j>?dt=M}J129k+Z
zE-xj6he*U<0c<G9TR0SuzIaxF5Z3#m$dJOQV_gd;)adz$Oq^R9o`fJb8Myu_M?*Zy
zzMqUKDrdtf``AP{P3<DS%y@ArZeGTGofU>fS$xS2^@|h;Tj={h_9;#KqZ-3NPjpOb
zX9#S!w#`6mAdmH$r1QX82o+fgN7YaqA_zT>UVuzNuc%cJE<h0>CLRgJflUKM){!BA
z!zwC2IRz;+E`=v#Xei2gLfS9`%11R4k13<WB+ka8aY>p8sd0j*4KxNWO0^qpj6lPI
z;sVtup59utE|i9Sqj@_pye}xMe7o7%KtKvdWo74?(P;RE_I7E4HPd`g?LTaiTfk7N
zIjNE=)Y3dQWzme9{YES4W8S@|rc4+u=B>Xytt^!f1o*hKZw(QOktP92TG84HlGnwn
z!exsPK1W26aX~Ow#SI->7SEBso^f3k-`48Tf4?fmbM->gf+^;8@f+J}foaPQ69V7R
z%yn3%?r+v)g`celm&F74d|Cie+xrsFcZSA^IP@WqWT?9lC^3poCKwFHGujDx>n;mZ
zkzSkuU8_n+o|2S{P<&&7M7KU;Fu%2;EicZrqo`kE{DrH->%dZmWkg+!-=)fe!Om09
zogC=y>wo%GaNxO<-TfrdpCN6zTUDcK$_4#y42BgHbDg)T&FHS*rZ(b7WdfXrRl3AP
zd&;MG+(K+YXflZ>%<8kzXW#&6J2V<Ql<g$}cnX!oegnzRpvDw=UrQ|c_ATK5qJ8(u
zr4^gFsqJst+P~LxtL=|YtU2wz(iOp8Qu?u5D65+fztw)n8_<eLe<L-0%XKY&z5lyk
zzVYQnsog9M)qU?{uN+_UY+vwfzuvXrX@yoadz|Ydq(!0E)M2%a+Cse^;>wuCj13#c
zN22b*Jw8N0$c96QKCbiR`c`U$;^w5giPh&XARUXW7mP@55Ey{=joSiM`Hjg4v}<Pg
zrW|DcrgC&6xPaX#7blc(T#-}!QB}eUWQLq_htEbvWmO?#IeszaJ_B3%LP(WUE}8WE
zv#A{ZOIj&v(2VN{q+iURpK=68<B60#B+IG1(D{+zL^L|uYPsJdr<~!@=(v({!Pq~K
zSL~N%M<=GB*vgUf!ITT+G&VV!vX3hxfOaOP(#WRl6VVH57rO(YQQuYkqQiDp7@v}M
zsm9ewg}?;W6DaF1OhL&643xtSAo3f);x}k4ZU`8^Lm>uL{Q}j5Cji$9@H=EN@TvS@
z(5!2KN|U0?nvM_fHljZagz?t6h?O<q-`amb@}wX_@|o-@8~d2CzBd@50S`VWofU~f
zF1$`(w_O#*hkOIClEyGa_+uJAL+J~`Mf-EY1@Sxf3!>ki=*-hOiROrrGzShO6bwB%
z5(}Lfg}y+P4tCUR+I*&b=;^y*=j^7q<MhDOM^ANh1-tt?j-2T3N)_uw7F5Owl6*r<
z<xi-QDDwxwWT$Rub1Y{(%4j}OYMEDB-s>n9>qhc-Y&LlW-<GBF)`jxc+5CI%(j|Ap
zg1g~b_Z|1P6`MVG?_YaLKJ=6?d72kI&DZnqdfI+Qliqmx#Tr>TUv28B6>m5??80}-
zard6x*HLAEugZ@5f5HQP<iP{ZN9n=iJ<z9~0sd5l#>6sy`TS!(hUJzqwB&!AzIoU<
zcHMFNKh-#@X8|s|R!S!HRS0c!ZknEeDba6B3>t{&W|SF|T83cfD$+q|06b{O&wW=K
z{TuIkAj0V7gC;~D#0Z%iD$x;qpbmm-!IUZ^KT&PLQ06T8E($QS8SbV$p?Ui&d3W6n
zOl+k2Lr6l|@o#Mp67&|1&mivj1@(vCWn8*d1ik?*gpOkT3`BH76^S$BU|hM7uD(Xk
zoP)&Smdj9@gc_2DM?)jf)ZybDgN+k2z(KPPN5|k7WHv=ig5FK)dzjT?Xg48Mkw&8<
zBhYuW0)|l%55e#<mEgXo2fEw2T>$w5`)x8zmO+^7V`l)Fn?*9DXE;7O6_9#ij#0f(
z(2dtd^Ug=0qQ@pD6t%^VPLOrLWH1oGc%NZSu~rY6qXlo3W<A1UG}$1H`eVShdIX8z
zmU56O!E%@;p}BQPRz=1m5c&y=`wcD~p80R_ZL9(b2EJIR+dk{K<E~nEdzRd_3+~#x
z?#-MCH0F<ToB+smvUUndI>}E8YJS`x0#ndHyLQm0bY;_>P4Pm8TwkKq?7U`4m`Jx+
zVKU@}hI+q)ON8737|)uf$!UnoafojSjYia;a)i{8Sjt6;%1A8T1s22mG-*I806u*W
z`LV4?$l+D^+O~!KntP?y$(pAZOHU>}C+`()di5)pzcL?QEUHhs>(`^qm^Z{fu<nyK
zZ`hN8U>PeoK`PHK_GBP*1pFmvATpk>m(u4L-WvWy%r<+X=@cnlF^QBo(z;;6a`l^B
z4{)S&g+I`zQic8;bw7U8c1j+ngv=22ASDD=CH?Y-sE*^u%3O&2(wIx8s`o?spcTm_
z;e)b@S;s56%f4#-c$RDHIKAn=6;;SCxaX~3^ft~q{)KxzCJ7hxZ*2|<5#L4e9PTnN
zSxkT-hHYuwDYFosW$}d;^sFAd%fPu=42v6ZHjsZIn|D^nIu<g@Xq9Tp28=(}L(B<$
z0R}z!J;<AV;cNshXk!e<6$Nf-SnOaC3at=;2g(7J#<kCH=a?s?rz(PQoxtBPJOzw0
z9bIO!E{2Iug8=QA)Nku-R};ujG?>#Tun~;EL_sDPF(@?Mt8Tli=0gka&37^X^NW`9
zYZvlsua(@+uV1dL{bubOwX{gkN^1n0mWl%l#euuUyJ>Bpb;T}txTxq08<Yy*#xmJ7
zdPXCaZJg$8YMr@E_8=_ph2}eLQ;Pv7i$QOW#k6?oDU>mcd9*~k^fI!IjrlH=%GckS
zzi|?z>^fJd-<iMo##kgXbKllxul_qDj_1e8X~8bpSo-=Z<~``OOn+nk$~KK&4F>{h
zqP3Ka>yn$vT%+CN)!ECPtIYTik6264+6ir+6jFBK`x^b;{MAd!4#HKe5~Z@V8o71m
zH~QTRm`Q3LEDLz&AOf^`Me-lzCB2mSdnrHOpg+k@y=KByw$kT_4QE^^*_4rmN91O~
zpxz!VS!V4yR@EJ0+X$_yOPKqP?6A-Iv()F%+m2<^&C`x6wpZ#M!i;l67~9vwcw5WD
z2<_D0PTS)F{XV{1zZ<scJ&D<;?Ze`X-7=;I7A<)O6}|vfHI{Q6kpy~e5YLb3aHoxL
z!TmrbU&i>&xMp&ubFyOIKJ6k>lXKp2>+JzQtaVr^%zy}L>H=-#Fo~D1*T|%rG1p{Z
zJgBeCV6_EL#++DBQB$H88{oJABe@lF=>lQ}o&&ESdgGR-KR5C9Jl*O%0uKe8(i5Q(
zrg<7nIeu1+PL7=A3Ztn+64#zM%hk}~$?-7x><w5<&l?Lx;LC?n!amjEv1RH}B{Zyw
z0r+%D73I(j0DX+<C-%`-q*jtdAT2NwjzFC>6jxRc36dBT&X6iaC*x3ZV@zl#S~|Hp
zO1h||`(Il80EI6Ul0W2-Y4HaVd&eio&cKt6wwTS7qYzT$UWD@jLdq<ndv<!DS>{oB
zD2%8z<&H-uf+XAgRb2aIhQ|m7lgXZxdtBk`8|06<fR**A3O`UTyg0ESd7|O8!O}y@
zb7~TjZH%jGT+txq1Iig3EGhe_GR_qbriU<%gcJz%2}(#0NtHxmaI6duV|{~M@-X#N
zPUd1#Y4uMf3Q~zxr*ai^N`X^f@w=JWRA=bjS14gsiWgJ9bVxzH^C^2ozNo&4qA@oT
zorw6FBef+>r`ECmS5&?f^M)Byo?^(-#r)cPCDltM4GSd=izQn>650xyf9$PZE~{87
zYh5U7y;JtciVL2_q<1THqpLGlX1?~D*SFmEZC~E%|JToc>)Cgd??!J#Z^?fi`LoDk
z;Mn5U-Z%0-tlPF+Gq7g2ZLV4oY?W0o+)5yu>u(p=Ukfc1H{UI;U-tU0?!U4>>1|w=
zw#{|D-V6QfYVVcat9@7cuC?DO3w(@9eRFZDaM8Q<ddY3?w(Igz;P67=@VjkGou?N%
zPu~ulUM{QpWEWbzLd{-j69DAEl><p{^S!FZ<kqJbt4=1%PNMx4HCLyvOfUI%EckX@
zANcOGH=ey2|I?}OO)dI5<{TevZusWR8#8}zw{0(7uByK2_*3`y+)KNUFYG@4qt?5-
zpZfid6?&B{Mm6{axROm*-B;XK3$GO3DVEUEiu!Af@07hWdA;C{Z{Ko_H2>&a*F9fV
zvU<;=?~y-_0hvI?W2LKttpd(kTgj8+2j1grPP)NkMJYfu>`3nDT&(YcGE>qkUO7J3
zIlpPStdj6?UB3CqjmW!O=lbrJ9b2)}dvf;rlD@#Ach}7=x4n-nOO10~ul1s7TN>sZ
zuN5qBZJKl30h+bnPa>j$C1^!;KVLm8qAQ;~q37O@?Er0jyR+ih9{cz09h>m;g9_=`
zPS+3iJ19MPqzPF++UcZpkMr2$IoX{JB#Sf62)15eOLTWJ&np>~EMkQln#6nzGna88
zsU<SLb7C|UR{T3K`Co{Pk4TZY6q1N*1$v<8Gu!ea(K4wG+-IhC;5N-d(j2^q4-;ZE
z>7Y*5)^n}C$UB?AUV|rnfNAh;xM6ysrj_8)xOB-h0}WzYG(9PNr7zL`DLa|1XHcGx
zq8`>gO_639X=?Oglt`3V)M(yKAN3OAlX_WPb~W!x-q$>{&gHs>S?3*h^>R_!tcQ2l
zi8A^{wiD~HiW_v;aS1_tPzo&TSXi^Fl@UHND$Y1<g1OQ(?TqVCpuUly)rIV|JpxE?
ziNA-X&$yuw%ZS7J0|?D;7{dOmqTiX=+o3IH5-*mt_!wQBF;nD1RDFTmA!d(bnpFq^
z!-KCRLsY<rF%iW=C1dSa*X3eSx-SM0p5n_0PYFKNaq?tu-_cY~n7eebw!p(vQr^C3
zyjNcbR%B+i`(50$aS&KY4_NatbrKy{&r|X>Br!rLXT^Mls1%-c>RC{43Va>4W>4Vj
z$b4N(<Jb={7{~mQ*+a{le6u|)lm({!w!ijN5i{--Uwd@^(L0Tg-|AXu>{#?3dABR+
z?f+5Fg10~E>Hn~F>vC!Pt+rcD?~2LdBj7yVLU5UaLQVjh){80xfr!DN_?Ly3#h2~y
z;Tu$cnKWga9{2b=_E~Y(j<sz&B2U~iwrLw&B91<F3xM>537mcr8aCq}TNrp9ATK*(
zMVDP8q6ymctB_rYg#l^?yNn5Dd$4ClFGuE=O}OkhM{+RZnzoHVS^u{99T#X)B$}MD
zBb*ig>C_6-&ECIGLHkYQaTV=`h!7wyvx%0uGm~_RRF0;=z&T-30aE~6koJ?KaptZ_
zxk($KkS6Y(ARt5`moDjxh&uBNYVe@K1hHh5IA*02ivHB!8??j=nyZN$K-xtlHH3P9
zc1d_2lD(p4?)+PhYXg6nx8U10=YZ_-HZ7Jm&vt&8rU!@xPb^oq%=^B%`Hjujy~)Z$
z*W<S<58XV!P<d$1^$G0jCqD32&OY^tQ@^_(BgOf9zK&A+d!^2fnjCQI*N_7T82JRa
z_vV{)_pgw|97u+Sq{Dos)KF;HMqNxae@a|zr>@ok@cm1|hu*6Bwrh1aH!XS}opt}c
zBR98drQEXW7^Vj3moX6zAcsu^+spQsoe!7{&RH8KgA-Fi7<RG=;h1(jbV4*@_PtJE
z^@<<pnI_V<uv}xMYsPjtU&Z_zcU&$2f!n@KHkQe1#g{<TT}Eu!+uD2vV|T<POqGIc
zK8VX6z1*~*PnNI^tRMfGlcis{oCilL4K%x~9t6`rp-;^j=jD7%e6-OL>}&LbPkgi|
zH=E~T+PQA(x=hc-v@2eww?S`R%r)(Twds-_Gdbfn*$K<g1xpbs`iy(pdCsSoH-D$y
zMxWh5QqI{m?LJ3t=Zp)MbJMha+8s2!Fqd=jWLSsOPCOab;VTCaJe;FCr(H6$LeZ)W
zOisJ9upQ)SmSIj}e-Ag1OfklM@dz9Ody!a_6gYyZJHctn`A%S+W=1CTS{o9+NINY&
z5Bq~T4>LMRk6#yQ(e;&5I1U9`8dd)Qnd<K$fxTr5?B+%XNfFJDe?RxYh%%0ac=b@?
znaqj0jwk8dYh$)$zA@lZJbR2>CTz{~c0=E-?rYskjgQ`Kd~~6q@8^t{e6_qn>`Uy>
zj84QR!Hvw-NCSg0=|UuqkXtQQH!#q{-OI%$TW2B8SgRkOQtPSTFHu7BjLU#G>5iFk
zWWlK~Q^K@S=8FcYaU0NIXv&0CK38{x<kaV;Bm06xh58L7DUYg*Mb9fiEz}#MsEdyA
zAk%{x!{p%@#7SdBbdVwZf+W#pNwMBDoslLwe+A=ln2>(}3FJq*h-fKj{;=+mn_Y`_
z`{(lC-?rzC$8VJ-A3O1GK9V^%1k09249~mI-f8Gtl=|ihe(Y;puHHA_wp6`)p?det
zvc>9sw;ajpqwl&Fs*ir+1-Op{N-Bi1ntN4E$>!6GRnH{Lo&h9Z(_(q^oc(>@W-_n#
zz14NS><^DGR0rm|pb%C0HxN_!5T;qvJ6rGgb}!d8&ObNTv)s^p<-`XKEpsREVNLz2
z;4EpH>s)TxzSMGXq2=JM@M6o6xz0Ofuy(7Kd@YN<mgVMM^Y%AA%S}7+lfPWQb>9As
zoRxfh_ffG>CN0-CT<drPkU#l?h{ms+5{0rV$i;r^)BPB+l&?S0<+Q)Ix#J*y{$p(&
z((gN+T}3(SHN4dHOFqnul8B9}?@+=7CQ;!KE?s2SF_D=$<c6x5@PF#Dr@@Ui0{kyB
z#pWlD?GT#+C4-_+EG6}2x2#%Z6O=dzPZvxHiwTi!{Q_o1`GeKF%j6Z-YU#(lwjT1(
zuS~x#%nx*lU)hwyY(94Qu#H+7gEY9k4hbGbV@u3MQH6DxeS?W989ms1gY|)KOKS|N
zVM0}Xm$Q2CA#J^SDcSJj!UrwNPT5rjHjeKM*{_$h`qY2NHS2<sVv}>AwZkI|ywDyF
zcA1`c(he>?6uTyN(y*JYKY_R*ai<-!;e(A8#mQP^mz>Lt!aS={h~B`rn|Wbe9M~qL
z843MDuJBo?2T?&aI>bh-8_qb>=#v!2j0^N>n|8wcoV^dW<HA=7?^`lH!{f9uMq%4?
zh{d0Ae#P0Z{az6Dm?M9F=q`vmPiNv!g<gPAr>!LL#v<AX^2d-`Y%yPt2+&+7P?lp5
z_Xr7=5iJ1GPdBOo4oi5$p>Sk0f`9|&+vRJlmKX#C?~-3d=N^{W0;nCdvaLqqQxrOl
zr~zGMQ`ogKHi4Q6zCvDE{gozJ$(b`8C6k_jv*0Fxu|)T_A`$_fXKbh78)c-Erx41}
zIndn|>=+n0)qCXhKzIKR9XJId5J;1eNm}%U849t7K}?IoNRQzS1*9I{RszTT#lzzP
z&6s+ef}Y3W0@k8V4Ghx2oC!#3C;~+yi#Gs1tkF^Gq#lAz3da!l#UO~nY~Lfi$2^{k
z0%>@}tR=8<U2_KzUB3>)+*`H|6KM^mM(-p9^I;1`u=R+x6X~NwI6u|>h10#Ky1RC0
zeN!m*H4O^7y)nXeNRg58s7gKWNZ+?;z)+848l=Qv$_8&ot6oZvB-dOtpjy&i*Q;oO
zzMuR*TxtFUvd)-4fyCnLwyR|CW06cZQ(z7`&OwA_Ugo|+5&nUGfoZaSk+ly-y=k?R
z7N&lk5~f~Jb-<*qRe7RVR{$D=VT5*C13=d8J~A~|>nCrJbZr1k=uhug*3QS1m4Rz8
zqXToUW$vn*-$$-mU-cY!N~&+7aAK>0IgM5s<rtwj8UhpL0qG<hqo6*bK%D>s{t_N_
zQkHFkspRit`faN4<Z}bZp6&}CIo*3=ptmn&2WLsSvCA+<sxk}P;tDQPgvrH{$~hZ~
z(FP3lb%OF8$|~&8H+As<mr|X|%)Mahw@?ti62dUkaZ)*0wjnRC`bU&SLz@y6HViS6
zXG0hQg!=Op4bsKaBRMj*l0^y0uOj(5mNr@hPw{K*OWr*T_&<NoJ#XcbciRFM5Za(~
zdiNzg`=I-Iisv5vohPjCe2d=wNzZ;Ljm1?<MJ)?OElWi^7K*T7aI<Z(=&@M`zQVG_
z&MP~w*%wP2Z<ij%Qo{2$p1;+$xbtw*e|R?M{ru8<MU_iM+in+ayB=TK)p2`Q$G!6U
zWWzIy<zGw|e-R5IWfk-G`O>-lvt3vMS@O0lcw4TcQGwa6pE~RXHB>@MdN!jG-nw~t
zv9w_}hZ^ghO>3&wjgRvL1b5~)-Og{i2Y1J#*Lqp-w|}`DuEAUTk{w@6mOTpxAcctA
zN@(Q*%R1hD3*LP<<F~%}?#QCIFX`!9DRt!@vLZr*{<C{Uh^=ts9@1ja+ZKFn3q@_q
z<-WNbv$~`wkn{#vXWACLZ8yKT=skGXbMXJJ<l@Ww%p3FlwoTo6!VmItdy4Hp@b2l!
zxBt*7;{J#EPNZq(D$PBzqSp}K0+%%HW1JQ-(QVwJ%#G3Qc&Cy&l^!E?2|0;ElSKxw
z%=aGA1;M%`{J5xet}9v8FyFIK)R5GJ2=U&yNZlkAV~xn|VG95zKj}kh^&%4Ma>Qvo
zr!7Zl!P`GTg=?fQvC#fkFJ8X*yNRT`a=mYs8p0Ywiup#3G4(gNp2S3ThfD!He0c>T
zgvkN^7=Smf3y^MT5jrlOowl~{EZ%3fnWD;nL~Sm?OE{&Aywv7-*J9D;tj56SX?D}b
z&9*EC1;D!hIU1q<1rlq!Ss)<`dQV&QL?9u{{BP;4pSnCXU%prbQ$~6K(wk7n#z@aM
zoLGeRP$g>UpFG31(b4v<c4Ck1Lmb0eK&6&Pk&r{$2$=zs15k2eXA$E`OW+w_v#l;?
z%$-(4XVhp&4u`N<f~Do5AoppInv@BF)n(D_u(c|f_HnxAaW)>Gh_&z9g&kM4W)X<0
zBfGGvHMWb_v<r%h65C|}fC>;e8y_2Ou;%QHDTtcKCTBDDRedkpn5id`n>JaoS>ZPD
z7$e&RJiJ&aE@PBdKA-c@(fSNiq~07TZJw}rSL;jxol)!7(V03(ZMKHwYg;Vtq222D
z=@T+tvd1OUlqZ792R}>Tp3hgaF>JRTZwi~f0hMvNOj>8VIWowc?;iPpkjEJdRsd%w
z=gwdLO441szDb{FhVC>Qx&hYGCn`dIv7==j2H8xdH|s)vS>}g?$N!WSkDs~GH^f9^
zH;?z&d4ZI8Y<h`DXoDj60qS!QgMEr>T!-i{Ava^N*}j>-+jy`)b0gKiL?tXN9(!}v
zHGyG^)tNEi5tjLXezn+=(y)b{K?w1b&P;)w@ewBhLJO1YnyEg&9#d>%(dw@fQ+KH9
zyGRTH#$%4Gf<XOe)Dr7{3(L-?zyDRY29)z8HEIcowH35^D`IS@O86`aiS@<(^x?yk
zaoKQ3wDcMEkf-p;Iz8kWWM+^t+dK9TRQ;dR7wdS|XC`CJwOuC_6?V!PMQf>%i~4M%
z-JlfF&Akn=DC~YtO(3QdRQbAT7o_%XO2e7H`%DC0Vx}7M;^i0T_gUlG32plInfsvr
zcYLb;4@%axX$ZL)WMyoLLsWziBM%*977T~7SJyQw>&Vg?0*QlZApw<_34^_c1>MQQ
z{3uX{q&kk7fLq8^447Cq%5pK0p?#)Y{HwG;5uTMt?d4(udq9iJ=H$ySCf!x*slb62
zG9nyiO|>lDi*W<fx`#Gaf@oCI-7_vzKZQ5-A%04Rgl+xg*<!-ba{54&jv~;u_>;Gb
zM+Z6hN({MZ)k~C+<3S6YN#&VeSSP1S^pmc4DDh&#3B}FA{asW!zwNDacZymmxV++x
zifh{zD|gNwhY9p*;&Nhs+hWnyq<bqzSJsiO2b_&GNAl>?W!MgolaYjyIcagW6Dfm<
zV#_pOIXII_A3RdTq00WQIe6CA&^;Tx0B%@osM?Gxn`2&YnGKs$_)Mi8v*#l)(=%vH
z{RzOO5g0F5MQ!937qxNv^7K+s{lW&@Pkz~ULKyrVnxXzSC7BJR%tVm|hqP!~m!)~q
z!UpC5%5pSn<^a(!vNA6-3T%oynbiM{A{r&C<nB%*!L047w+wB~mRZNEp39!Qx?N};
zT4P@J0q$oRT7+Lw`|10P3vX=Spx_02-+i&=zUaqhk4I64ZGYzo&cH3HCaN-_u2bZA
zW)pR$5fEVHmX==)TnQ|d`WH(5$&zi?w_NY~?ui>Gt{=Kpk}P^W>3)3uTq4S)e`^&;
ztT7nYeOuVLc<5=IM4~c11sk-bC^oRM6Efi14#T6Hae7Hi-yf%MZMnZwTP)TyERJU8
z<30nZ3WA^cVObDaFQGk|WJai<g6mMhGyOot8t1nk79t|__+sIcN%xbVztem4>X-vn
zkL*R~AT%Is&yd$&Q*yN<KK7`q)b6!xjmPe8xWB=IqG*4*=49mWL>JVb($`E?uoB~^
z9jUr5B}_qfT%=`=Odzp^qJO~EBjeyY7ujA#@{?P<oxuL<**Z{|{$--lGT+l*wV5;Q
z!@@1e`tHTTo}|0y^LGjhtokldaA#Wez#vRak*H2zwFo3OYXz7OS$Bn7dZ+$8Ti-m^
zuhJAr>x;*zUlfjjvlUzd7;Sy$VqsU(-Nk!`x5o8phihMFbRq)%gAqRUCyEZG9e#$b
z1)6)wg6~8H^*^{#|8&vpWYE%BB1!HvamN51%owo)i-iZ1?t`Cu#6lDbXJ}5Rl=!5I
z-4QsB$1-XU_0zDzaDj8>j8?KpgtK)P7L-GQp>(R76;Qeph8!vF>AshNv~@Nt(^%K`
zh?uNPcPvUeARX1VPMWS3a+vE|NN9zI4H3SjlPZi|#up;kj-i)=I?m5G!jjHNWZXD~
z$#hL&OzHED#x#=~vVi6Ek)+Q%EHqlmXf$msKL?G5{v2b;{Dv9+GMz3rz<&p#aME$l
z)tq*Hn+xn+7L3fZX~iyNkqefQ9MD~E*jH_M?U-`Th#{j{4|C&L0QayuwJkM6yd6V3
z%q2zm@n902%^;yK6XSgGMQp(dMrLNPcVEk3n`2nkc0G%OoS8`j`D<_uCd%QU-H@{W
z0z4s&NpumDu=@A$^$C#9n#TO<8DX_A7Mfbc=OL_r1Hwx4g=Bh;(nr=Za1R<7jLS?g
zVhoEm1jzX^Z8nN&Lqp_)V&=eXM6OcH0Qd5PR)$BTp}4=DF(eL`sFw3?%m%&rmWKYL
zk?ya@#hfTdA3r@Ek-smEj>w$`O3{UA-LHm@eqj|hUCf^rlN6jiBx(E5*0BxdnIvwX
zPGN?`qP2Y0kXm#y1&{b-yq<fFP0IOn#5jzj|6b&rf-wpZ-;DNbkf?=E{G$=hFH7fe
z3J~J3D?N&%H^>UGko&KTD&YnF^i)Z{)ikQa*At*hRRkS<Zj~qTra?WXzC)CwF$#m^
z;1q=Qfa4Z5?Ny`Eb+RoTtsBZAVs~J6J6qHF8>ca&Nr`e)yCI4)Y)*D~RvL!z@o!t^
zZQ-wG-hO~UOU;`Z+rXWfDeoB;GbXLkNt!cfl(V7pIO+)mN{2feC&0+y{o^rsNO2-K
ztTqkzd~BeZ(kTsWgOnwNiUs(bfeNh+A&S90*t*jKiXV9?!+?UGC*y1wsfBA3e!?~9
zAUN2;XrT!bG0NDIibK#C&^_yca`)~|{$qgO7%EN5;fRXUKy}d6gtXQ&ZHdao5YI-(
zYHMvkL8FC|l+l)u)JlLR;BNpvNxQ`<m}s_v1!f%+)QL%TB8v5&=&%JEz0mq#h)1bo
z7zg(-Hj?p*;nVW9S*uwcLji?xXW}(G2GY9o=`fInG(N=IXq;Er@jv=tZ#)`|Y;^qc
zF-EW<g%8EEjEV7z^nd*;3mQ;QpOr$SmJ4*KtJEhQlJ;QlCVGw&(XsU#k%AbZ45Vf!
zMTv*6J(Os0+UUb5z|v9*HA|-j_P9~YxSVB!DTRnA%&B6uZ#}W5W6)?IKh8Z1g?`@l
zaa)t`8Nh7GY~KJ#8?GCDinc@oIA)ji)NjrXKK91SJzCd7osOTKw9YxrW|1;O4*UU0
zA|pk)7@|#*hzZQFe?S=_OZVC_^k>_LTF&Xhz>o^#dd?UQp3+1TH6)#v5~*Z^_k!`Y
zeluZ!*`dRLBpSk+FP%X^n0rvO40uMfOn4T#*P%1XY<8rsn5XOG;7+JrV>J;)PE*r<
z9hO%mhU7CT&9qvV=I!SIUa`pELrnf2Tr514bRWv@d}5(p5Ao_2wRXYXfiv_+Cu!|4
zkf@}m)(s8C8+?Bu&dpL(9Pwbrb+T<i<P+gBgvT;_z`=e8Jun=!a0~wO?cbBF{d+cS
zznTLDFQcu!+1k2C{vPRrxrRQ7C*!i?E+79M<}>fr7iz&jyCj4xjmMaHv|wCnp~I$)
z0q|?9x5Pk4pdpS+9MOpeDukm$H4qONAv+KIbW_XEqmgNGd#U0~IBAidnJ@n&W4w+o
z79LBwk7cK~&xjF>oY5UC4Sr6HJYdW{H0CsBI(cSdVUPR(EbNj0j3}YdpacgX=@&tz
ze-ERC*9}U5l*U2|{#cDf2i=l2i6whxsRALI*w$22P5_)!n@kKGF~h0GNhHWzqd3n2
zXNN-q(_cdYU(_q%WtjWa6tIa}{lMLgv8U}QPUTx_!IC!u4`d~kGXb{{`j9cBdVrC%
zxB|19e-B*hw!eq*u#UyTBT4s>&u?`-q8nSSOb<1TDZaS_I?@4YH`DrdbJsdWC?$M!
z>M+T=jHQpPivwyWb;!E9Nnihfx}vW(ftfwNSa=}mKEOJHcokZ*4dWlXKs=02DA@X8
zw6bQ1O}%4!SP&1VGCDXp9-%N0gjvOyZooFDd};R%sTE2CsU}(h10J}CjC~orG*?S#
zHz}QpBUAX1_CQ3b6+J_GJ`X4vj$BmaofA<Im;n%rOHmqshF)SGiW;X!Vqe@{Lbd`{
z^*XS{<t+XdOC;QX7ABNDpm|V8V$hZFQH2|g2Np93n^>xc_djO!Q>GmBUE0u4#(%a@
z8Mjo^2d77+Ee-&?9X~ihQ#<<bIA4TqL8j`bWE&;Bk)*1F!LII}j?*UwGLJULvCSTS
zm<In_GwNRY=#MG+cl2ec{wG?3Pe0Rr>Qrx6cfa~4^p=Q2CFY@yP(q8{s!U0gk{BgN
zD4_^Oe&kUH-5sW6o|11-LVE&KiUv{Zk>C#y(ShDtOD<9NX-b}@<T*-yNXbb`D8iD3
zII91Z?kEON{W2xDDWO0!7UQL+=#E00REif;hbZ|mB^2I~a?|n#hJ8x?UzA7V#3BU1
zBNS|5Qq>j8`IwSVD7jC`FDRjPD1HbFIh%Q8AUS53?}0}wks6`)Qc{2!q!v>`%!N%z
zwSpdL1lg41iU$i&q2v+#i}iyJ=uf~no$i%Fp{6eBs93IVPC7P!;4JybR^x15vkR`$
z6}nqJR9NG}`_+0+6@JTC>V&Eq`o-x#mCN1=?SFn>hQDi5ffIu$_0=p_G%c6cE&Dcq
zR9jT;y41JQh%=CqjxtoT?DT$Q%XRLhddhfZ4m{#;1Xt;U-hE_qIJaw!qdQNoQ(7&z
zI~!K>a-3UNOP$WvwZe9^`l4uemaXPFoSW7>9%tcdO%XEdTb<I%uqe1HKeF|S&O-#K
za)sTloUsWm^j&l|Qf>)OxOX<Lx<qHys>_D25T@k2bZpgOb8cC6yOES3chzlk)=`4I
zb%nI|tPtL7kQ!FqthEkj^{U6=Y+CUMu0pD|nyM|NYO4{$#q%1Byapq0i;=g5^73B(
z(r<l<zOOf$T~EzEK+QfOQoE2A+MGvmZ+CW!t9dr(p;dP-lJXK1Ybrug&+c+?SGw8x
z#Oe{zh7_N&q?bYI71!J@XQ#MYY;zt2IxtQ((wg9M9;Av(KeFMD(;HD4;z@Hc+4vu^
zq6dBZSIl3L$^%EFg`&~O89vW{3t!-mE-7awN7$52<<b^8b`U<__fFzLbyFfy@){+-
zPl=b321;rvQ7NJN=`8%QvFNxeVJ^@aw^$mdbL6!@oy7jilZ!vF-9D)t%u0%whk)9O
z@7XSj-E8XIcOT#d58<UC;C~@@3keRv62+eu3u4pX3ZDNdH2sZmY(Y2%%xuCYn54HM
zDHJasIrUdn{kIz5c=Xy{{7I+kT{p`Xs`uWm>Q4&3Rab%N`&h~sch5I|Ea2zkn&<Px
zgLCD{hJ8O3==P_FHwj`L2Dz+u$=kT#ZCn-X;{HodzF$x__uRGo#eyA|dX|gJ=>#ww
z*yY?m>v-Q?G?zEu^{wXXO*b1C>mR-Aehi0@I`@C%#D_m$?JXCo2gDdL#Xl@LvdQuP
E0TOEZ6#xJL

literal 0
HcmV?d00001

diff --git a/crypten/__pycache__/encoder.cpython-312.pyc b/crypten/__pycache__/encoder.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..cf26b2df88bfb1000675d290892469726f32d1c6
GIT binary patch
literal 4882
zcma)AYit|G5#A&3NQw_p6h(=a#Oh?r4_3D1SNxJ|*H8J8sCMl%Era^X@QyMm@{Zm+
z+R=pqgu*}M6oo|us2IRNWHf+n*gzCCKpn(D++Y3CKV+yt>{USx#6aqQu4SM=eiWU(
z<B_za*j<48oSmJWo%v>tfAe^p2+F<I|0e(CM(A5IFbiGnEM0)k4B`<_rBK9Zsfa}%
zTO(H9!dp{xnu#!JTf{~o7}F_x+7WT+eJ0hEc1E1gw_QaMmjw+Y-hLJFj=L6vf5bgb
zg`1v`!N?N|>aa!gCS)$2lA;Qy2%;=u%>xq&(Hw>;%^Hi3LgPGw$1~@3npl;e&Xs}M
z3csbTz;OoUD4rTSijZtS1@hh1Nf7!irI7RVl0$c^ec2B*R)y?dwxZe)s_)H#KE~k8
zBsptYF{vg%7deXxI?f>#=yDX{F=5SFaum#vd3}bgP0%@Oj#h!w1d~Ha`!bd=gj+E8
zY^L5OY`i_k7+lHSUMhz@X9J#1D|wod=In$MIsF_8JJdsG1RR%eT4wpg<%FD&L{^Hk
z@B+f9fLY^FHnUjDihM#GWfh4Pg(wze#iSX)<T=zHNlcBiayFBZup+Y=Nlqw<%YwmG
z!m`?y6|1WP&nn{?VIR9*#zgrVqu{I<yF+On^BgWM@xl|rILu(8c8w-mG&&`TqnZ^&
z)o3{}Dux}Jt!g;-s?3@-C8(MQ1mLicjwVE20IL#((S~7DeZ_GpD=7&<R5WKy!dQqY
zpaR(eN3zxOeP~cgX9nLL#M^cb#=r{Uz(GNbfrNM<Gp+@z3L$1ol*XBg#GSyU6@K!c
zpqfOFT&>e*-ybT{dyB!nWqR+_(4s3?XrFhnMS8fncF%*I4{cxUFRdLe!_dV(a`~nY
zUE8<d>?%3C%FfW_kxHPw;LpD`Yb&*FxZP1|+dBD1rLChdJR2`{Z=SQ4x^|b^_P|_A
zXx39|*)n;u;tgC^uc?KNa~)G^*}Hf0M5Wa~oyc#Q-B@Z3FZc#azQM9@+vKT=%Re2T
z8Ox7-ke*GJ+P9WmTZ{D8B@i3MNM#n&^Op9*%nTAxgyIn(1O@2e;H_7w2n{U_EyFW_
z0yZ5B?1F<JfoXw}rg2NSN%I{~yesf$Bv9KiL!0VwwZkeGqY7*2SZ2wavl3=?oT!?l
zOw3PW<ybTY=2X?Zxi&EJ0z?pa(;*_G3!S4TI~DUnC~01)HUkbub}TCs6mev(1{O-q
z#dugz!C*{S0V-m#dKm|d8^M6LC~U(32uQP6Ek|q4fU)Tg$GwwKWX;Pho3O&IG#jU1
z5s;FWg;X4~z(Xb?vn*ai_&GSRyM)4VYUc`l4w!4}$gZtWO`?ixP0`i67-Bzq`@^>v
zLc2?$-BTl#o-I@KyrX-ueNCaaaG})MUvA$#MgQJ~yI@nSc4-)pOX$jsLp_5UaFtSO
zsx*-c1NxnNk*20vlSXcNfd}EQ7jqpSuB$q!$1sz^XaVhrewP(^5_p7BN+F)Cmt?cq
ztG7AJJ?d`tc1d4--t3tcyX+3cr}a{k@r_r=*eFNsh9(!l`$jne^?9?m`W;P!OL|SZ
zdfOm*hdG<0%pEwiI!8lmui!__PA~rtznAeMFSJav1TpoJ>^6J#wx;bJAbn4L-t0BJ
z0c+0H+q$&Lb@f@Zm$R6<F<X$V=Hkgdldj&@`Qf0l(VXYO;**=qQN7hOifY~g*+`w<
zs`Q&wb&fAmhiP@g2_cn%cpQf~Ndgp!!&h)L!}3uj$|m9vlm%Yk0VWt;50o}uxSWUy
zYVVP#C`u-l0#IhM3VS7?Tx4}R2*GObO>s<=t^iLxyQ;<JfpEL#1b`A{B`U@QO!5@G
z7AlR=kr=|Zgku*m@f%E3iiwA5cKK3P5L6PY6SAVw>1>L_#OsYXZV@w@UF4$}N5?gr
z0fw40j-@mwX44Q(EsCTyK@wOE>rLk&?jOS#Vlz=1_COW3V)7sw^)4o=mWc;Lu+{+)
zZ-apvT#1FoQDH*A10G@$J$41Aqc=L|U40dQ+ti6gPe*~ev18uT^YOmh(a!?&>vli(
z2WR%@_g8#@nXY_S;ZnY**wTA1@JZ*L&iluoTP<zP-!%uWjs7n2l(Be%&uyqV2rPEa
zd)UV<ff;w+T{!!(aBJ-5*!>OjEr<T;3*_6Tc@kyIzP0-3gZ8I(+SB~piJC)&vv72!
zEjV*Je|okz|FZ>uxa1F){ryFE|6@;QVcWbXRPlGr4CRMreYe_gw*N5*>qU3i5PbVb
z`##(^@7Yi#xshGy87%b-&Qax_?F&7xm3m&Ai<f(TQuZGxx(_URTCa20IQ_`Q)~;gr
z!H2zn-T0S{rS6mE)>B3IsmEk;*MqkE(Jwkm-9Ih29xA#I8Nr|i@}NobtVH=s5zr_}
zz9*^i##FloILp&<aNtHhz=9OsO43^#2N$YEP-BJEKd^_s$C$t{p(op`aW<3j)sk%!
zDs$GCuC6Mv>M~Mkk{zrToEkxd<PWRKR+Ih*d4z51;0gdB84@p$EL3KR`<S_q;Wr~{
zr{U}AETro12yB#n9nz@tx{Ft{Zt!C8DiTs5IUx!+yqH82{9{rPG}dSWF=1NwINjGZ
z2T5>wLF92e5Xi&`!27EC2mlX}X*CZtR^Ww^{0FE=LhPG500z70?JoRc-rHAn94>A+
zT!z})S8;i-4_zB7_})KQ=?KlJd3Cn$R{zcZ`)^IF<&I-hCn~`o&9>d@y4h6<Zk{?>
z34~@Y<S&#1>u)!G;=SW7Z`ynR=$EHIKV8~1TnY?N9e?UTE$!FeyY^nu(fOP~?E|;t
zbNrvjJ{>Cu4o@9_1c|b-wld=(Q9w8H=g_HsVFK*nzJ?@{tS>9@)o4*_X3WEvU}KVK
zW*rm~_rTYlWsGp#@k)+VoufkVST9M3*{ioJ<5~U0SDgZeYN=C03QLdRUSMsQhn~zb
zU>1p(qPaLu7L=%>V2(3l1D%d47s+?p=ynsPX)&4>H0E+Nl@(sZ>I1-44XwoL2ChE`
z68Se!k<`^&^!I(`>RWWTEV#Q%?(V|****8p&H3hzeHy&`>#yBI6_0QFmtT284HU(7
zJ3os(==(DKdHCV6^1f5$U8m>WuP-{>3yxsP5iGP7l-W1GcJvz$Uk%Z49zvwAKRodR
zczBc~v&+gkbcY%VQ@U=T>4RmNY^=Hiqo?m`$I3hE3%?@dM5EvgUVozr;-fGdc9Q&_
zsE^|`Cr7@DvnkSdbKIqDG*w-(a~v<l;04yh9z6i!A<`r2)f^ctLF%B4<6|(qgY<hE
zp)y2>NX5cW9)Rj9`a6AgiKdw?OYSwyVd~i~H`Dd3n_)ITZAP}{e_JS~YsqT%3|53e
z*n<y3qcM66$Ai$vB(Kr@F)5vv!~p}9IFg&l4cUM#CW-OHsPSp!tbSa>-#|vPLG-T6
zhfk9p`4-Uy|K73R(8K|J2Ih#mWs(RywNezd)PgAYx2W|W$o(BU_zmj#2CaQ&b5Yy=
O(>+9WJws6Goc;&w+7-zF

literal 0
HcmV?d00001

diff --git a/crypten/__pycache__/gradients.cpython-312.pyc b/crypten/__pycache__/gradients.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..3c0170b449a10ed2ae9156a0b84c5f2349bf5666
GIT binary patch
literal 95581
zcmeFa34B}Ec_)e;AOQ&^!9}D<5fnF3ltk^jwePa!MUoxMP8f)QXi^j@Uw~R@GImmT
z0$QGkjM56KoeG|~4OP1h{gT#7SEb2IoOap*22(JorcZfwXD0KO%2s~!n$GWa-v2xI
zo^$U74=6=eGM(S+{Yi%x_kQQxvwYk6&Ue1^=X2&1TX4Ny_Rqba|7VNk@8}1=T-wc@
zU-wxomn~sS*xF|~rv9}av*Nd{&vwdw%x+bmIgU9PjPsZ?Y!5s7T&LW}+*V7E<(Mbz
zeA#lWDC|O79Cjo1hCN7qHp^a1xaeg|xcDub`n6+o*fTGl`66@PvTIN0vZr(KbgqE(
z+bofyu>UQq3d0~u08tw8^L%e<O*mG<V9QLf0l=0^U`rWng$cG2uvHS+G6p-(1X~T*
z8VPKG!Ol0q)&jOp0$a{t7noq{0UMOSRxsEG6YN63HcDVC8ElgYwi&Q364)vR+iHSc
z1lTqS>^ug$*aX`S*d-F!Y6iR11iK8d9TM0Y2D{t@y8^H)C9v}u>?#xNYQV0Mz}7O@
zwI<kgfL$+vtz)noOt2dPyGa7OfWdAy!9E1oEfUyz2D{Y+yA810C9pvTyTb&#6R^7^
zuni1$w+VI+VE0O37c$s=CfNOeJs^Q?WUvQKunz<F5eaM)gFR$|eH5^dNno29?Bgcb
zCjfg`0^7o1kC<SO0`^G>Y%7C($^`ofz&<U3UBqCInP8s*?6VTsHU|4i6YQq|+bMxv
z%wRulf(-%oxCFMH!FHKo!+?!QV3#o16DHVhz&<B|UCLm4Ot8IxJt=`*#$fwQu%`gq
zFM;h~umdL8(|~<m0=t~SDkj({U}F;46%2OJ1bYUsXC<&J8SFU|?0LWrNnlqo*cVK&
z!+;%;z^-PnpE1F{2-ue-uxl9XXHBr51MDwJVAnF(mrbz04A_4ofnCR7KW~DK19nsb
zyPm<mVuHN@*jFX68yM`rHNk!Xuooq;8yW1F33eQ?UzEUZVz8G?uwMe~uSj4wGuU4>
z!CnSzLIV2`gS}#c{WZY8CV}0;U|%=Eei^X8E`i<3V6U2BlYo6g0=tdD{yP)wR{;B_
z1a>=v{S6cBZvytK64)IKcESXE4Y0o@f!)bq-!j3z4cOn7!0uwOzhi>^8ek_Su)7)T
zJ0{rw1+ZV2!0utN-!Q@cE?|F80=t*NzH5TL4%lx>VD~ZD-#5Yj0bu`70=u8V{*ejx
zj{*B964(O__J#@eTY&vj3G6`z`)w2KcL4jpN?;#mu-`Soeh;wkNnjsgu-`Yq{uyBZ
zTmpND!Tx&_>|X%(FD0;#GT6T|!KMJ4mcTy7VBa^vW&k@Sfqk68{=fwL*MQARV4q;H
z(<ay-0yZasJ<MSL#sqs4u>U~<dxXLMtqJyj1MDpc?9ubqwjceNH2p(u)|^X;ga^AK
zKc-m$eg-<bl~A~|r~mX|tn+jz9Pa7w?$TxqY;r*J4w_}$DMRvk%yZ(F6V|ZxWzUFp
z*m~H~W*b_uE7CQfgkl3qF!o$17E~hLJ<(W1i3UT#{>a&2XfQTF9|@iq?C*;84D>HE
zeZY-!1N4FKAo&&RWy`2FhCB5-V^L~i+9bz<30AL@ztR7WT6s6{zn`<ls8n_hTVfu5
z&!<MwT0@z(QR{2guzlFl%cgo9R{e`NjxRg)a!0MhmQFtLv!HANK5E^J`(X>Z#5uHN
zkJi-S>4<V-Kskk8Mdw6<p|03qs88!6^cnTWQ0vZ6fB%5qal!E5>As$>P%I+4EV$@}
zk+z{?QS722+s5F~g0|qP!DuWPITwrchlAU-j^<Ep?p*1fqlb1L+5hOF&L?*7-GBJV
z6Hn)gpA7X4Ms_R8fRb}j-9oWkaZfZlc)Y7G6piLe@{7rNIy?JAry`x5IS2i1v*qkv
zeNkmD+8ZVG2)^`B^&PQOr#sGdC@WTXbSdXgqdpxp<~@=ASajLx^SKI+6`dRlI#I^Z
z@)?hpZSEWB3iU;|ESvF)a#YhtKaJ!cU$Wft`lkX-X>Zfbvf5PLo^0JC>AFYW3uo#M
zXUdMGd`E8js}qe=^&M0G<^Q3qHn(fvdyRj!<j<F+N}jr7w*}_jw%F#(z3sA;&x_k%
z^-M2pp7K;Dn$n*7X@6O~_zu2dxd!}Z?Nmzfi#7JsL8S!uxzZWcQ_AtYlHdpc_4|pd
z*crGz&*E!HIf4q&j|uSwWwqeVWfL+1?Td8O8n#fY4_iRTwxOfNL0nHnVuMP5G|2l{
zM-+@G!?c|kg(H!E{l(dy*mLYn^mL@F=R{8=9Hh})#>xX{P>4+MhYc%n0Ii|k?nq2!
z5-0i<YThFJkIqN(lI6C?;_*%SgK2m0razc0Py1U^o|b8^e`afma2X$Y7B`nIF~MU%
zM4D~GVu?BMl3gckoLH3#otS$CDRVd?IZmD<D*0K5HnTSE9Oyq2QDV_x6!;VZJL>7j
zKk&I|Fg6eb%Tgj;u^=!tN?msTwAK}EP9le%{%9=J-xbN(d-`KJ=ZU@nkcksKuIss+
zOU(oB=~T-z^w!)?lsBkEI#n2D0V=uz|D(-FfD-7iva#mZ8($wx)K0luZkAMB_Ko`z
zM>8djap$zR<fVtzt`l8?Y@+K@_z)1qs&`(m5e}eqaih*j43ts=z9!+B9Of{(tXJ?#
zHNUZpSP_3VEV%5+T_|_Cyxg!gY<t_zhmHp1zDl>gO6C8o^+J22?gN&vgSQTHz$@xM
zYk3@nc3D2T%3>L@4O@q8M08;%^<vcest@&<!^_hD4%>K6K%!p&*&y$kVO!W`?3q{B
zI8=0X53OhD`j{#yfSiyMJ%qZ^NN@o1gGq_tzzK-c<H|rN+!cz(RH{{I^!Hq|=G-SE
zk<;OxQ$xWnRg`FAN0cKnDnwyN+T02eaL#eKX9y@B9Xyq@BYV!?7wOMAl~8|oB<G0Y
zU7J1UWeUQ;U<{N4%3z8Dy;7P`LX=1v{7B`AWzZv7y*u^qEe60wg8VBa;21s-z?Y6*
zJ~n>r(zEZo8>am=7hfEGG2;)WJV7vHZ{@{~(T+^<{MWmZi(eafzj*0%Wy9rx@quJ$
zvSMr?Q@Jkgy=~72%M>rYg`8VQw`RPxZ`zXwzT$u1+mUh{POUhcLF(=JiOW(_G4{;m
z&hgGnMN7ut`jN%vd?;?8_EwB_jc!eZGT!>+!EDp&bkpj|!<nWH*SBYy9-6LczS?o6
zW1?{~mgvaTY#u#$+lg$br>`pIs8mT6?GhI!$2-6UkZQz2cHm>Su=SWdY=cGD5w;_B
zh8;*<%<AiAR$ot;tiDB&VzT>k^gZT1U({Bd3+xC*BU~thsl_1fhu&m3LvMmTr%v}p
zPC?MBh(ZD&4|+-P>~lR`&jq8QGm$7bA1ea5p-O+~AgnNBMy^6cmjz|tpdvzGk-`3f
zr30s<LCPBH>l4Bzs^X_f+)*Df0YDgd*>c`;&3Z^7#Si%Fh(`KOL=9{dDo0O$Ppq?Z
zs8-VYW&G_?WWPh~?Ip{!$2U{x;Enm4$}&7*UsXDAXZ)m7i9{o@p=#Op*sD)a)|Hen
zQO<`N57=dDoBo|^Hf1^9=bUFq?Naq6u0qgwbfWJ%kB7QWo((DCp=R0FXMjC}0)O_J
zK$T%Naj7*iRi%b~<J4eZtOv+suG6xDb&|q=>b@$+yQ!>ypuaQRbK*oq0Y>+Pj`x}S
ztm;%qIoUZAXsBIQ%L2fm!d0YEWFt8bH%2ujEaczkpoSe9TB|ATUC%|jP6mxN?&<4^
zod<O>%E_a|Wk7b{6N6~kDOCm6+O5>$bEXj~?TO~~gB&?#fQ6|fQsQ2++?-pJntwPm
z_ejcfWF~Rkb5mEEno5`w*3=uOQ^`7B*^Ua#Ah9{7yh9DLoF<TNy)7S5TOQ5KeJtg9
zjJ4&^HJ?HfIal1-d1@d$2(<0Y`8qqF#{^58uDClp!vkHNoeF7S%4$m1Q?iMYt(5FS
zlJlHaNY2L2D|_e}@g(*ICe)NA^plcD@jtp5$;*}xZFZ;UqhhOb&POhJa?}bT;hOuQ
z&FXyIddDtq)q<(GF8mi4XC@C)Zus+XPn$YCdc2qEy);#awh%lX2@Xav8907khz-vD
z8DGbM(Ck$rH6%=)+QG=D2{$yS=_RI~cX9b<g%Dtj60;6AIC(6Y4cpMXyk-dI|2&F~
zl77dS|Hb0b;(sd<0is4hKwh?VqfVW;Q!n;Q)R5Q4mUC;ZRki>wAB|aEhbr=`#bg9c
z+M+a9M4hUt<BnH-(+iv8jvsjHRr=%OOrIC@N9qylD|(uD^%7LxrK{q4589N+0F`rv
zPM?M;Kv|0)Ms~vReyAb8&O~e`W`B<Il_OF6)HmwOdgiA+^Ao#&;8{4c2@XKA;iloE
znF;h~kPq}{>A>sSveoixg~KrXM3!xKCZ81Q4rLt@lXA(3c4)D*1yVWm0+mpY1Wl=!
z|B=O7v^c(d+E<eGElm3sCfEGH*Y=?u4`*prKXMyo0A^ld0QnpzY9F?CTVV{d^ipr+
zU9ve0jAyK;I2rI61Pvx6i%DssA~7Mc+#$W=pvB7Y<dc4Mv0)OZ<HN67FI&;IrPQ^*
zZ9i+(s4Hjd3Bzh*TeduBJ!eFVe=6GC9qEspJFRRP+L+(91%#(=pb>dLhsrUm`Ojqb
zc)w-;Wa*pAM8j7H(=Gdd8l^UTuA<7?=1@qe<{W)64>HQixm3%Q@(>k3U8~I`7;_$K
zy~i58NV$o{L*n_XQ#DK84o~@4O)p%XYFLx<Er4d2_0+?zll8Qu@vminYVE$Mmi<5Q
z?4LRIf+$H<GLJnUCycbf0sv{(85l#=?zSmU;+e`icH+*|uw8gClMZJH@s}xI6%uMv
z=~&B!p=5csVSTz`eagQ+<yo&*TyQP`(mf-^8r&4(CcKJP#w}(rHWGhBb@{z+lE|M2
zNEH4qsMsxk;NtM;aLO~E)#i}07mxF$=Ogrtl0N*85^0n4v_X1$tj>y$TsCJj-8ItP
z;*UIb=K(9p)eS;=)(YWS%Ra*j>q0r=;)8LAn4Wpg6>-q4ixb*0Cw^o8C4RfuJj{LG
z+2&HHO+z~i&Z^k-o0~2%MThW=4xT<eK=!4OW_Q)(A+HZrP@ofGz7d`B)yalE0}9Om
z#1slstC&8ui-bvY3>+GW?dP+-NSN7huaPx2c223o2aK4Ob7Nw`<`hDJa<RTldoxa1
zR88@Nxecj>yEAk5q&$0OA&R@TV&M*LB2%~-%BS&FXuULq3T!LpN_)gisG6gps5O7}
zE0oDl?LC>fdsCjhGfBb$Kt>X(bkeP6!&ph+{97T*j&aD4i7uF1i5oL>D0rv)xll9|
ziz%u#I8RZ@LD2+D!)$eCUu$o!ph(SVded7rwmMNc<qb{;sxEIB-;nav!ldDAP|2vx
z!_-=3A95)BDLH^7=Yu^m*3)$=5_@hStc2+~X~#-0C3z|<;W9($S8)?1*{Ts8?6s~k
z(n<F+owV#WyCqs<Pxt9haSMv9Q%R1>%UNS`s#}7WI@Lw&B;EvtIq=&=f#>aQj$9ER
z+aq1Zo~L^@UJF@~!`9i9M~#(TvnqXnR*oYvqCe}Qp;GZ7j`K-^Q<3MEzx?9a(X$uM
zr#$m!;{5$oMmbGYIgwu#8mFN$y(%1$-!#^x=Hkfc$b}bEo&_ozTyy24!AUAyANag6
zCtXFM<kzWGBCMA!x16Ok*ww^B*;rSLp{{4o=&h=mvaGqH7;Jyh(*x1S0~>372t?6D
zm;9o8Hs%lGrqG08*fwm(f`BIOtk9mMYB8WVRdYdSQ|Ee76b|)+8pRl8&H-!Z3YM;9
z`Uy;!s!>M88^L^z@Je(1A<Win`L{e?Ril`2OoWreQ=Zk+z$h3q6S3rxjDK;;Gn;O?
zi?<hl^RH)td?U6IXqM7;+M!1idg9XC$)>Kxb`lCGXDK;{B(IeWC2IsqidJ&eoTMyG
zNFe4b=4C5d(iJVE#c@YG41;af-<0+@C67$3&iI$7Jj+#tRTTPG9##(0GfJ-EzY!~K
z&UOteai_5*n{$PRmAF$m4`t1{F*!dq7<+IyDQ3oxX$2Do@{8^nMpBO!#>l&4BZtt(
zh&Zt_gyfn%4;Q0R`lJ~NtN8F}wd5#x9gy0@hM{0x+EbSZPk9;%{lG*LK)!`3*>uf?
zoUCcTg_}Y;;<F&L5u3h19uvz)`t*%AZI|Vuz01~Z>9VnD9}rVE;Q?7{q&se-Y2S#0
zp|)6BLS?jT*ufzWqf9IQkJ!&zRJGcvFcfbAsM3st7T>~=bF4qxoVq@t&~!lg1VK0e
z5sgy)(X*Vu8R`o;&HI)k{vQE2N>UeyUsjPVYfP6lj=JOJH(QsyeR#6`t*0}s>;Brm
zKG`tlxLiD5oLKQIbD)vO9Y`2uEKK_sCP5dAQl3RW{m5=9*}%U48}qi8I1WikWEdY)
zDEU45w1IKkoQ;A+8Z{EJJKHo8!JSGXlr`r#(bsdj3wPqu7=-1{eaL4Y$GkmMDq#%2
z=$>KF&xtsG3FRxFK_a1ta$~JHF?^R`)mi>bVi+17N;GBs^{H9SFWXSW?8H!j4-1K;
zQ#eCWY6OfKUHHQ^T!xY61~DWQCM4?SWgG+l9ND5lBzYLf(5pV}uTMHM{^pdYc^0<&
z%k*hVzJvc}oC-4hxs54UP_W$=_Kc=wEh<h?)||7eZ=nCdG2J<Q_;#{lIey|x7P@Cx
zwGcNLihET2;(#uo_=&D%ALGc9K?Z~J_rmB47e-PZbzb?gHBseNs?G`e1hvP+ZYoV}
z7ek#TVAWc9i^OU$?GGAwx13+RLZ6`|O}P#H!s@Kk#uj%%(NlQ{DSD0S*iu$Z8AE1u
zp1Pl|JIj!m)OiOKdh4tTy))+(?L)D=C@Ri{|7>JmXT_3%Fi&FGWlFv-X$%s>B2|WL
z!w#crs7tF}`gYz$%ldDNsh?5CT(cd*RH6y+&=XtnhbfLQ1gp+W$`|O3CS_=<%|O}I
zBR4k+Z>?A-bY^nrnjvq(fF24MI*4QA-{M7-7zPNvWA$HGubF5_G+b@D(vl2(xjj|A
zCO#L*v`{kb6Q4@8Zl3ZybkkpX5vZG3lkA#eTINqba$0KEGCA|h^R^c`OsMR@2iOSE
zmkP2uVC?J)r?J<RFQTY68<WR5Cu==du9?zFy{NERI(<A(@(M1#GZYhq@B!c$Dx)hF
zG-MZar18%)KW>kIim^Q+jO2pJ!zrSV4JpqCmG@!9h}5KFb&Ot6a+8<M=0hK0<%VmX
zxVv4<roJ}kM!^C%s$@c0(YP248eO;*7su}VBNV{|53_=KVN|*ps3-7)4V0!diBIE3
zCk(4aSJ7ma=X_LG2hFZ7fPD!?DP)o`DxwUfqf{jfnY#8B#t(g^gVmX1@BfKc(FP<K
zGQv@&g?3GO77}`r7J78TKILDM@+@KfX~IeR2K~RY14%)gWO`^J(F=Ukx(CA7h>xzp
z{^L;lc*6ujnj6OCui(mR!?*zc5S5BHB0<Ya%d@2m)1?bXUGV_J#D=uLA=#DkHy9>(
zhm-`MrC9hHy`bd3;J?nSKZ2-TsxfQa2|=u4CJEwp6$>eA&T*zEa<&V1;v%f4>tiW*
zPg1G8Br1(C&`qU&3Q0i>l+H=HeBgs(g-plLQHgoiu<Z+C)~aD6W4CVrjw?-!!O~On
zpoQ^dNbnD;K1ar%5-epfB4gxg@0H%y`ldYX)BfuC;6>5~SA&DV(P$Qw+=f!_4<&iq
z^Rz)@!x%QUQDq7J1(|i@hfZd!VH_F%nSg^x(6V{+v-8^0^V&w|#A|eIusGvyPkB^)
zk!uWJL3V|b{|EndBqTIz5J=b{kZ=imMsHQpWm$7>tZzOSg6k;C5EsXu`@uso34cN>
zm={K+6XLk>|9=Q7{w6+bL`8@JYPosL7&3|}y4D7ck1p`0S@E$J_()7LlJYmDJWam{
ze1y%NQ~-rqXX1`C360^Sm?HDGag_9;ad(0!1t@8pA~TdU&VN~}<S02oHKD{oJw;@p
zSu3#~Bv7(hpd_F4+W4fGvSNj!4<`9YzX>Jncth9y$!CF-d$ghn5&1>;RQ#P2NIouq
z1a~CEMBYV~PNS-Y6$mWw6hRG9VsHmKm2+ctpKgGk%$h`lr+f_w*T5L>{02S!T_kyC
zKQq#5ZRAKBprIh<REUW(>r(Rk_15@E#=j%w+3|}&TjgzP%WqR#sPD}@Q{X6X3dhlT
zXp8bYl(P)UAt<ZFU4H!EaY^O$I|NEeDRshP+-TaO&AF2=iqLIgjHJvtSAPimDjuAy
zp3A2VhtzV77~{eR88)8A&CiC7x)w?Jh6$7~yD{6k@hd2sE)|Z44d4>au3Fa_4w6-J
z#srBe&`K=lf?siW?74hX979K;g{f`i*chaNpoKdP8)@l&!uhr0YsHhR-tu1$T#wv%
zGS&L<l;;sLdtx0ru`^jQ;mY_sQl5^Pi0ME{the6BO+on%D4GVrK<Sh#o?OofTZf9#
zD|Sjpu*B7k9YjOux7l+M#E5IyG3>&ABL=@2wL#xHS!oWIig)-1-ZBU|uW;!aM;nZb
z)I=4{3D?0O7`t!6ea?=ZUGVwtA_!u(>I|1&DSt=_Sv{2-NTO~epfS4CDFBlNLe6Pp
z#L29g28qmd7^KFQY~$)Q{&|8}C+HemlW4i^vcSE2V00iew?5gBp4*u0O3!VJ+d)Mo
zr2yGJ+MV!T^<VL4px4lg>8e`H`L>VQNB55UrsvluTdq7bu_ir#Ie$798a<fy%!8<5
z3oX%%zcJ-e4I6Sn^ZTfrLdgQEs!7l+7lLNFM%G?u6MOcd4R;KOSk{~)7CLEGd<d23
zl1Uj`p1H*6ap1%r9%oM2SC63FLtQj*{36<8c-o7bpN*<HZW67Y5GME8C^~-?$w<%N
z!uL%w<+FI8P7$fTI)a4pOV`S&MVy4!QkRoGX$A?u<(rILKb&gaKIPd#<V&h~b24DC
zYnmn|g4O*hN-Rjc=r)yj<wSTF%aAbUa-sqYaJ;l{*x4&tr{G-;Vz$rv-i^A<mfth%
z8Fmf38Iiksz38jFOJ~)nj}zN<?(2JCIS%9`ciFs)w}e=Y%GBN#i;E*3v>v`@`4`G^
z4|}*U0D_@jZFY?TeI3wnVIba<vt#?Gy3xdm{UQTVrl>FllpzxBCcz3$Cw857wiV@b
zCxLG{2kk(~6|sFNr1Is8Da8f>WX_cswx@K`^C<N<p(ncxOib8>8IE!mwuzARyT}40
zoxdPEe@PnuJoCW9B4dX&KJ)tE)fcY3faT8m<r)8qxMSKoH@<0lUhP%i72j)f<NK$p
z7hJ8oQukVY{J?bm;%xoObp6Uq{c8AiOgF8L?;q<;`x>SLwOMRd3}D?f6IdMIb$hO*
zq#S!$yq22!8JVYR>L%<Hk+1b!>v`*BdJ#6Gq!&E|ACcgyI~H4TE;)?2EOSaPK05j+
z#9mEm=|fY#Ez|x$+^cdeB08y_^KE)T$!co0V25OnP!|DcVW350hkj?d#tw0(7ED=l
zK6TizX9FhBE<6zzpTgbGd{CH3_tUr@RtqOq!><R#8oNI>Yy1n;=$gTsfFZL&_$pJk
z=W`v-&@Rp)AEQxNj*K!6*>!!5;E-8AGdwjW2Q&VqDbLcG3XbTVX%u%4JklYvrgLr(
zwzAEGrNa){Bt`dK>$eU&MjYUAq&DPT`qn|&#%i6faegb~PNbZ|yVb51eHeaYhnR)~
zT}D@KiU#|m&ksf-U@=6;jNvHXqr3NzTr(~Wx6;!lO4w*opXGCjTG?=MW^t6p>l4T|
zgIPe|nQm$SYR?-zUpYDX`1>tu$DEh_<Nl;|s$}8y-PqcxYAj|>lJ##+`!`=de53ij
z`5FJwl;<cLSGgwhS5$3E4pAk<6ou?G%Y-JgOe0;p^GS8uLOT_nw5r5QnRBl05H=Vx
zW{aQd^>N5nOi}i#<^GGL*uO?Ql{69=fr<%;+5%3SpQ3Iqq`eqvlTSXdsW9bforN-K
zf$$zEQ)*!SS+y6L){#$5Ccg?Z>A>9(D})H*z=X5%1L`^%wTOv<)_0sx$ca6=3Av<%
zBBzBdY5$h%(Hpzp+m!J?mGV3_3oQ_jQz#*46*Da?611>LqXnDu6Py<4R;2~XoO5f9
zd|)z6n2!#tz1Ky3#xKF4pTHB~fpnGIJkf^ES7_DK-Yqm%RRdE;)27@+>1<vOr)Fvx
zb9mF49(MaGT{)M!pEv3P0ONqh1s^e}S}Qn3oTScfM-B{XY31d*@w!AbxqD(&rnDpO
zGA>je)x6;<;&Wz_1BnV^=yz&STtRXGODen|$;H%&<1S<&>>5&Xz&y#2A2a#<OLs@&
zB1k5rL~Y1sAXAq`{18kRti7fAUs0_qd@eTPrU}6b8@I6(sgjOKuKCECbHFJhs*W-V
zIc%pG=<m+iu?I#WHV56CjXIm=H{k&jb!@_)bDRoAPx3w7OsVz&8CY<Ks0W}bCYWaa
z!otRJfm8VNgbe4A3CLjZ5VXgSGCMFis$~2PamP(<dPjaZS$}KV-wMt4=r?x1d+?ou
zHyoMOyEFbhS^vSb|6s=d2vqBeAnnnHl3cMkUOXLGkPS4a1I@{<i8YzPinwRGq$aU1
zbvOSPT3S~q>7iN*HJ5~8rN$p{r!D@vG}ZS*8}3x@Kv{DRWuULm#2N@~>H3(n{wGkb
zdDibhp^PRD;fB!!>YabFdA*V7rGkQ>@+`>MUPnH0FoF_CR(?$P2K6=PiaytKA{JHM
zl&C6%2ZjY;vE)V-=geS)dX}&f<1c&^T$7IEXQn)B`JBEb8H*2P3akPPez*fg-Hj3G
zi`~OEJxWN7_!qkj@j}+<@j`Sh6CRCX9<D#db~P`A2r(Nn`8mC0jC0Uz{M9)K&tQ|y
z$T_)NE&cF!^ny(p>Sn)7-R2wWCgvgVhP2QAC9n<2+?|G+vklHJG{txxnt*U6h$9qH
zj?sNlq<`=f#gd57N*)W+pdx}MBpAE+zW~XwAZP8NMK8jNd<oGF7=5jhVFYIhpCgpG
zg!e#+s+w%oqIA`wQD59O=0NlXU**_|*9YGWCr(Xym)xwVPPANlHooU(ZFBNOrgkZ|
z=gnyx_l#MgM%OJ&>=|>7J^#g`+jcy?<tw{*X!Otze6_bKYsa37?@<d2zkc-1U5Q7g
zyo+xJsuGS%8{@mMx$ok`qYuA&h&fX+S2@=NoaMxXiHS(*y!ij1mQ(TqwLvfp`8s{6
zrf`2~!=1`7C@a(nbsA#g86QWt*3}8EU{p?AG%zG>?tFuhk70L<aE-t;?pZX)cEEy2
zC?c=ET~M3mRSjF2(=WO2auz2(1GA7VY~g4&;^?0*Ey>Q}q_8iAZNs)RR`shWnTQJ(
z^<l?LB|vkdLZp3z6I6eJ_qr5jCb^YH5|YVvULK!V!sX0$(cNWdZpt7dRwEbWtXpkA
zi|*orqnRJB$(|9s>93ZX+4P!dJ%{OOx3%BejeJnlyoOHGZeb?V`dwAhm{YTT#699V
z3m&YQ%$fkK{0S0hY|Z$Svm@k^@)LS`n-V7b*VB8|NS1Sil<sKGMIj@)qXzx%M=Wzs
z_*~8w9a7o3#26L^)R3;@si?)-`V~|+`Zs`}@Ku(Qz}V^w=M&ps`Ao`F7yryn*u7#G
zHYBXCY?-c_Ke`XHzHHv*#p8<;N0YlUWo@H7KL}Kg#V&0~TEDm@<!cz*G98$gbfp6=
zDPKz}&@x?JH+mqxdu$b~SIvu(2gfQ%iTqOi<k5FO`OYVAtjes}8+YNI&mZ4(vvv7o
z#k)1{)O@`*)4C-aIB;bzOkHI+7QScwcIy{+rUD1zyWS5R0Ce5Ls|T(eNJd|KbmIB<
zYnPAh9A7he9Na*7C8@sgP)2`x$7?A+Xl45s|Fmq*&T`kE1|3LE#%2c^&t&nFxG5->
z&`lI22&~(t?Rh2xtAu)VoEfo`^ZT%!vubTUehQ!A3ulZAldR4aGqWa(w!?IH>Fi5a
z&a^?~ocJ9Y#SJJ2oY=HPUlAmws)}|)uZr)Su5Qd$FHKi3o#@I`uN*x9ep|Ha7PioO
zsu^388zTNI%2g=2OkWYa@<UsNP_A%ydl~brb2@7@8zSyhUdi%Ps~;Gj6nl)0a!ZiO
z36(~Ljp!b#bb+7*x>CSaOk^V|bT54bi7FLpi}Gb8QOaf3oy1NeQ8i9!e@MNT@3~G6
zbfi4dE+XUNmI*^ed$!?ocf(LAPD)xreWUW6B<{>DVKQIr7Sdb7(d}E*lpwMJ-DY^q
zF^`Z{2IGhvt1Ku(q2%|eFauWEv_(0xOgD)sy*kY&<JTe;t0-&E+t~@$*%OPL>g?=7
zeZ=)Zr10KIY(I)N;g;YQvuf^AO`XfBVVh|xuSFiyaf~VLBm=OdON~+){%3J#9;Gmz
z=zLwPEXTI*Q?HV6!4L^`oh_%+TAb=w48$8ds&D8v;ha#`&!CKgI7hO+;J!7(T$^;4
zyi2D)E-}flOv_fJjt@I{e>l|n@OSZ0xAdC$Cli;{J<9iy%+5G@FL6x%OX{Yz$cApJ
ztj<=prYl=Vy|fr4HQ-{tT8TMs{OG7xUwx6|w-Y5RlzfjqVZv{=#U1-IZO&Q^za3)b
z1$QcbQ&w6~>waK(Eu8ibp-@gBX!`wb$M8@Kk5iXZVWt_RSlhv;I7UuWKg<Orx*8ns
z{OI`$FQh!GjQH5qQG8UH6Zw^4j7&^tsWN=vZ&GbYou=9tLekA52aD+wl>9a2HH@g$
zIiJZq+Fd;#3W~b9x`92TjTq`iZ<ZBChDhJw0~=D|Snx#T;iINbw4-VC|ITwrK)+Js
zqrR}iBDfHI-lbD1ladl`UWcIIz=!@5F94AQZQU`|Y3=Xv(8SFCBOXYYnHVW*4#%6n
zquy>u1{H74jh;)`FN}Z^^YlH2Qi*bXOSQZ|wxOhg{0yHWE$^OWDEF^4Hja=&nb|mo
zhGIFIHICyU#bv&;Ky95#bJILtVj10GRL*EhP=Z3qkEkdETH2lJrtjOZg4K(S530K*
z2~u@K8Oxe;hY=DBHewTIa(s}PzwW+ANK9sTX+;~6$AuO%^u$3aG#qxNYS@9uuV{jL
z$wD;f=n7=CN6V1|g9RT6sk;;xw}&md)u`9Q%h&&gS>R8UAu$M718l?@6SkOM;$L|e
za!O3R{OiMHB$kwn(4boP!bt2Iwox$AUfN8Zcgb_dd>pK|oZsnx-*$-UyBmGfgfb|!
zOx`u@?xp7CU18_2joi|>Q09L}JpGL*hb+>0*UwrGCeGxuns>p&#H<#1z)oC;hIaF~
z#u|bK!vhFuNwHG2a4ZPCce*ds6+ytVQ;1lq#>5N{Dl7uGf}oYSS%y{6zJcSRJ_PnC
zq5w#+i%~S}aO6x+R|J7poMDOwtnsefTig6Oci%vFH?rp3m~>MaN*py-zJvsGHC{wi
zAvZJC<;8(b^<mZSZbRuc1nGd4zLP?&o>7QRsLM2(=L>a0&U!lMK@0{~%bZ(lic*I{
zb91P?fm2%Ky`1m(z(8Ll)ZfW$`iSZtMes(M?@Jiv>T01ze4Lqnh?1lKJ0M=N{Ky-)
z;=bt%kW<NY$x}bEBRcknaMYXkLw_aw^2U6(s%kI4F#f`&kyJ?&Yy%aw+47cjc}wzK
zx}2u!weQrX%eTafZqBQ_T70E=+E;q<!03Ss4=49eM&9jvrw;{I7suy79#*$ZSh0;E
zTeUP@wG>`1eb@TF)BL^mZ?&hYmS(CB#eF~YmQ7dGP>k55FB@E*4lbVzOg{fkRVKJ0
zQ?YS$&n>)sdi?3caJIf9UEeWjpA5a@&eX5ZRBVXv(HEk8lc7}W`YF$bX}@$ON-&*Y
zLkAdx^T;E@aMagqKPsz{#*Q(>Z!j`Be1$IgCV5!Rm^Uf^3jYhI2e?*|Mx``hu;6#n
zO!s>zVK}r%eM+2K_3d1W2TB_atOL)2xC~BE!eqb^feRilK5=IsGQ4E@0A`-3wj0&k
zkbL}oZwnS;D3Vr9UACq@UDH15kNd_#no2x#7>rx=>?G`P-P(F&kJR*9L)E3^AE?Sg
zUVUV%66OTl-CoJmD2LdnhdWg<rmVS=&J&RkLZU}HHNHUIAuf%xO4n`fF1Un$z#jDz
zTF;r*b_FWE{tJ*_;Ja?oHgUrx49vCm8j?~%w#np8*g?!5B?-wP3S!abM_e(nl-XON
zzvFk1W3IQI2Dt)$T}Wodgp`y@C*j6C;)w~l1P5uWOdj!8@-J(~x1wQ>R2CI+G8*xa
z@y*btTHX@<FMKhry`+2PUHn^&tUV*enhb5o1H(_$qH*TaF#1L+L%mFf5<TZ#KWjN)
zSgm<Q;3wK+mZ4tAP|u;ELtKXD6V3ezQ<XW9{aT?VeXKT;yi)2ZA(quvt}LYcMoO5}
zq`ETEsWj0uAu|>7Cs$f1A#tg+P|`#Rnb>lrBC0qKKZ^)HA#9Clr5wZu4N}!-u$2%q
zR2EaxjwDx}$16HnICEC%B?QD6=tuNLYp1ddPnf}&7%9IDi=zv;znGajZ~=?M2Vr+X
z8TkVC)2e_iE+AkbCWFmahpr60HaxL?B9y8}pq<*A<@0Bixv9o=H#SVodn7(*dS0_Z
z#;U9BOuBB1`)-z2jy<1fzS?%B?X~tyX$u*H*TlC^&u`7nUy+`_VzMDKfA#3YWDH*O
zK}~(OW<|PY#pIG3&hHg}t2k40P-XuADx-C!7`Cb9gg7fGSxE>Zk-YT<5QPiimB18b
z6_rp1)H|fCrdx%OpQZt-tRqIOtfLo{1PHeb0<%U4Ox)dGUr1n5R@&0g|C~ukqA+&d
zkMFLqI~<`>c}Y|piC+58REt7(2hP;*$?70HV{FP6>It?mX0VLryf|d1=L}Q)Wnq<s
zQGx2p$#gSyWdrI7qeA8U%e~{hm-^yf-K21G%Ci{ij?_LyDjsX%uj1zZObN3si_RwN
zWy_!XteDF_)o-=|odr9oP#od*fl%2>L?OFf&JHJhZjvFCQphR8Y?2{GPG9+Fy~lAE
z$FvD|zv|j-_2P8(;?cSB`CLPMAzQy9UB4nzzbae5E?vJaQ@<fw|4_RAq3d0l`W+en
z&Xi~8ES9!ysEa}gj@vW2``Lx14R^w%u}gRN+oietQRbZIIRx08f%i0Yblsm-L!6eh
zkC#oP&o7}CegYLY%`j|wBw^iUM0a9g=a`77E2h<Z`#t2eaf<pJRuhKV+Ptz)t~Tm!
zF)}p~d4#cpH%dQYh9emN3yZx)>H#PG@L;HMKp8?&FvAElNiT7{yo=&ju>EjQ1nIB7
zM$%i62a2Cz-I)e%JTmi!4k1%3ab^rKgsyvQgH+iReivlI2|I>y%rhz3RC_7BScMxx
zAB#LpF)x@$w3Fw7O6NQ@w1}g25J!!5;(!PBU@*jXM}&8rU=+jw9qbGvBV_2@Y>=v2
zN7&ppmj!NCs4=Qy_FcLo+mGsJ&-6LA6iW6G7Fa}~-NZ^Ge$w$W$C+ZrcOWuLhg+*?
z&V5R)2V1S7y(REEJ{1Y~z*R|AzT7B8Q@jj%mzc<M!sD#`0PzUYAu*BlS5Nx_U+Q{&
z&DgV0w@Qj}<X6$!Ti!KyocN0$CB@|AP;)mRC}Y0BSoizhI`}hC#Mal3UVY}uGZPhG
ztGQP5R&AzkZ6>ge{Ez%uUjz2~B%7vutypGHw2qS-#0OOiE{}|lBqI~uZwySHy;1Sb
zi>c<lnW}x+s)OmOgYRu;MvrO#{H&ijEm;u*D(i2-VOq)OGyb-G)Ap^>ip%rH=Ovmi
z)sx%p+_4p7!^!RAFT%|tTh^W~YoFMgDZ@6*)pva>H;WKMWb$kqZtfz_qz*&6gORpq
zr&M4#t{Eeuv6VUc2nN<*oe-<#Vo<q+`7}mVZWj++q$L2a(Jl^8$9GY-x+7MmLhUEy
zqy*<`npCKOP@!;ldofd?ct`?+jhwRP>^QKg3!f1e%3|03Xi#D?ZZ`_$1yN~YG<M+!
z8x4Fr|I&NBkn;i;2z(jUrmn<1K^<`%#m%y2hZ=F(dJZ+aLo;WnNn*JrGUaI^pM}CJ
zctQ+X@VWcJC|##{pqi3RKORhG2Z;$gz0A(f1;&t9p9mC;Ybn?^*fq>~G+F*n+8}P@
zyCvO-yW4qs;H;*QQB;01@R8Sc>^U5f^gK4w+fMiJoo7r-BUY*|a}%Q`E@_}9q3O~H
zazZ+VA&fo)U<_fPQr(g`>WNp-2vS6n$C;mYW7^+{-MCqQTiV}-05e&CN7@fV>o>yh
z_Po>c9mn_F-*RWx?n^J<m+|ihgSzL{sUw7Nl$@Y?h{+4l7GE^Qowf{a*MfnN-?p|o
zMOkq|85T{~%4u&Knx@CEql35Z76cye9fpwAEF64J1nQ#IxwS)G+fO6N8&(?Va5ijB
zq~o@hp6$WuTRbNG#^Pe?{$<O8G+Y}uvS0M%Svs%l1y;<+qH}G*hl0;S^euW8VsFv%
zCFk0f1lP7PVA?YyE*efEeYSvCi0sX$?E$smQHXA}{Fn%i);2U5I~c*ODrE;Fu+QwJ
zLFfRC;ruJ56A$$`b*#QPf)o8bOd~})7cd4P|A8dQ=O?#Q43M=c&swIon>d!3578o|
zQR$Vf;SJ*~*%=BRm5_IZg|dW6qBP2^4k4Wt2?_*_%3U=D1g$2@)Lxy-k~=Fbl(4i4
z1y7<T>s*T|YsjMx5e>9KyK<|huq$Y>t~DtK35e-b#00p53!``10LX}5)sLvR2+=gs
z596mkO;g8F3;6#MjpPX4Lp2gQ$>Wn1*Pc!_ugg@e&sJ?pS8c+{cU4>Bz6Yp}Y|oS}
zOM8|<ANhr99Li(pD9IdF81&W7;hgam^p5g4^(`~N$m8%UC((V3Rtkq=4^bJE&`d45
z6B!VG-{Ek2aQLC>3$pGGkI23bx+Ohx3&jI>x62AC9<1m+C|b_^mf%}D^Sh^5{6g{A
z9uAv4+XNZ^4l6W<kE)k}42)joMgo;@TAOuQ9z-o6d#<+Vvp=Tb(3BwWGWwk`KYz$c
zvgNCLUf2wU`i*O$Y!2capslcG3}NIW{FTrtT=)4R4dyPC2;wPOkQmIAG{>Dc#ht$F
zD7@<4?R}^B>wT%#ol~A&nu}ASqEI+u(cN);qM(k1I*@~%VaLf`I+d?o+;a}GqeS0=
zrbUujOub39Gio3?FY{4mCiE4?ANg_hyOB{36GHvU>F(F4V|U;+<cl$gjCbsr4}1#}
zupKQ=Bk)4~%E^Nn-?p1GAKiA^X=-OLDxSrL)PuoSC>f*A859qvlZQmc9ilQ2H9DQe
zj6&HRE0kqrO!>i6-eDZQO|qU}0u}xzrM$Kol*fcwA3A?FT0=K*TKf$eqx+^cZ8CBX
zwDu;t{9gjC&1T~jbO^HBgZe6h4%tLO8K7=;;6)IZO#7#P<+S!Tb?iX^-!H9YeY?`W
zT^Zk=dm=j0FBM9@g6}d_Rtxjz5JZPNO)N@?j<VA6^9oEz5747qELS{Hkn|=QX8cPM
zdS2-P)-%MOa+3PI0Ii7`AvK&6+q;Algjx3`*ru_X=wcxdu#;DQ?1bQFKOb_Njd(tW
z*i+6>M;4+k-FwqWUVr>Ek(Z#Q`;}=!R6|OBm%eL|X%2C81nvrx7t8<m82JY;(;gY@
zGs!e!P$c8-sQU*V1YzYlH%Jws8RUUAE?q06rWYa=p#q{MoKn6|-MkK&?n)^WgJK^v
z%wmNlk+6(?2c>>oNu-~%BA+31W%^!qLcQ}aAC{=x`Q-^o1qDEtRIHOp|2C<OPCD_s
zQ#l3XomF^I?{ndmqV9i$b-!_cu`@o%^u((#UU_k1FjK!~a`4@ucZR+`obl~qlqGv{
zPvYw{L|>GA4_{W!(l44CvPU@=>^yMid|;#_0_i*wiWQ`u0~}3Im;8%X%<|?*My*l<
z*9TQM1+yJSzeLR|AUDK}S*;tVhrgi#X+*)$CiG232HdBxoCU>#!2R1O=5DwTjFvQp
zV<7A?(#@CRJ-nD_n_j}DlSX)<oNjc>659+Qp#%ej6*VD&mv`}+h%ZSgN?)X8mSowN
zgp~?M&Prno;``pbkK<?95f<KhZ)wPbB}Zw510$@=mS!*jxOHE6eWR<^#?`|v*<vv7
z30m-+wWsWCOiBSI>j&N3;4;)fgjx}GaL-x?Yy!WhI=Jsr2e-bM4ex#7Z*O?&9v1yi
zd=kFwY!yJa1OE7*DL65$TVb0wW1qw{b@w-g5ona2HB<5vN@y-%iugh?7#LSY&}ibY
z<l2@iW_AwsUVY4hzi5x?zEJoVu}xefe9nq*5#>LOZ-Md+p&r1BVb6kh_JQ#OmmZE6
zX<poj^iT|wK0LxVjBdEFDN*{$*6H%<%a4vfn%tf#Z^5z5HO<+Yj&x1Oq%~8sGJf!u
zx8z<y>3c!VD{k<sFTU~Oq;h>Fc8q7rx2oT#XfjVslw~TGWGhysD^|gZP_Zpe3%}TA
ze*VIi#CBTOo!6ko*3ZmqM?6RWJTh}%crjV}zJK9#ZF9D^BV9|Ct6e!(MDEc;7q%wg
z7rlV(pl(lBw`Z!CBKV`f`r>CsKLZm_vf+Jy<8)nXwr)kbjy&q>R*%sq=hP?8Pqbxx
zt4S~oO>E5g*4~pO`ehncN`6QkZ_xB)hlDi>>jmyqiN*4hhvWkjSHf<%tLKbd)B8u@
z=3UMIf{c~bv$JSswwEvhNIi2XtO87tGd*k%l24?pGPcQ?)eOlhG561utg2-{7r^n(
zh*Hl^5(@ME8^ubbtLL;b&=u-aO_V}UVxFu}p=hYoy}qO+<w{f{*0bg5O<{oR>o*t`
zE~SegIHM==7Fw&fEbDDads~u&Q{JW1^-byqicI|qid9PP3yagf#S^<zt9GW^cTM?r
zYyJ+Yx}}-GvXpPxEgj}-2d*7>>*4FosrGGCzU>-d;%Fw&nDVI+nN6!gLfXHF#uSqF
z##lP?!$ZPWT5;insr;K^8}rI$0Y+pz+90bC&sQeR_z+8T3u!BTD;$1iLmhb13uJ-U
zynQx#Bs6n92c*fp<RF=%^@SV3NThqv^k5{|9U%6W$$av4NX2KWy_?q%UqjSiipS}|
zc(i#{iN)N1#xTIDBld2(BlkkpX2s+gF(Gw>R1wGmr#D0g6l3sT#2pHqiG)?e{~`hZ
zGd`fj!(b$!wBdm|bC5(g>BdXl&P-&$WmbUbAcfbEStWsNNkh7%A?_qO5a2{H@%S6(
zro77$$usS1jPFhb8mFt<v=A95Gu0cx;_3JDboFus%*a-+O;@j-9L!Wdl&#*LuHJqF
zV&G7=`iXS)6PfBG@dF=}EKF{k82sAMwV}6$GbNjE((hEq)@;YFbjPkt$DT~dUa<f2
zxiDVOnTvUPLrdCM7eA12PFFWwt-n$~QIV<ch##OBY7`M-aLV6&v#M=k@nmnNYI~|=
z`>m>mREfHsSiTwb3)F#>xT*05x#1R36>z7mHwByvHLEx7RJlP}b3Pd0V#*+Vvd;Wm
zjBo`dNG}EptU|h1nUgJ(3us*ag<zNF*^pE%pUJcB$~g5In-URAp23LOdl~Q5jcW$x
zyM+3ECCUNPRn%lFn$s1{nTl3KVG$Fi;>q2q){Rr1O`7_Uh!}jCOgxn471Y!_q~#Uj
zp^P6=5QbT2Ofs!kw;xE~>fBBuhQ)9=bca%M^_-0}a$bTkj)LFGJZ<!PMJsfTTIw_^
z__fj@S0{|}z)(}-%U<+s-o;xbY6=-L>}0%F1f(cdSs&wdOorz%Jmx0(D}+;mJMze!
zM2{-Ek%VWAPPvS`y9He{a<!F&V6USfAXsgEwsvV6|2)<4;<4S+74_=L&6$ct*@`9U
ziX{_AGZm|{73<O!>#ln<6}z$(`_dKrG8G5n#WyQjCyFNzy!+@ok7f{*v0_iW_ycI+
zTSvDh)=YUD-h3+Cye-|l?MB5^^ImAZR~KAaFyYNquLgIjZl5@C-T5cQ-z@$EU#5CD
zm}L2aWN|9cp7OQd3e=^1>M`<i4)tr)a!M9cLkt{>JO9vj^=8etyV$uv<50L$ITU5h
z6`vmHJKsNWswZT&#}Kj5b$`Cy;>h;L^wLS%@k@~7ckzUgBkGcW=^Vy*V&7eZ7*^=W
zDfP=1dNbQIA;?GnI$49D84H47>*iuhp8-x1M9`yb1%T@GdyMY>ff9zu<ou^H$1kI?
zM&_7vbqz#LoQUEq;=%qd8G{rNg!KO8I_eG@{39qESWJwuG3{wg?!nP*H@y{z8yI`@
zs1`S{=JK=S&n8<k6>Y|yzRrm=lQ9v*MsuSz$Nn=hQlX6g6Fymxk)lr8ff9xVcd1$`
zH|7Y2$<<Yv`l*|ahG1J{Y+J&JhH=JB*ir-UdCrPtWdX{h9?$N?WY}3uSj}Uq(=g{;
zA?!Bqj;NvM$ZtZS;bt4{xGNH4Ud$iq4SMzOkVs?gi1_!0QRgbz0UGvG>aZKn{dC69
zjK$#E{H5m0OU9QZ&amSbR=oBZ_z`8xR;J5VPOiw5tx0><kV{cHAMfPzNhMi4u?uH3
zWc_Q>{xy>)u0Q@xPsYD3>))OB@4j&|<9{OMd4e&HL-2!R>{`L+^S4-Cr4~`LjVee+
z7VS7Fr--$VJIz_Z?mWyloY1YxmMAlh-Fbj#L5T_XV<;5W5*G~~{k}u;rI5M=Up2Ok
zf}<i3O=>aK*%jLeK`bus0%LKQ%*^s~1oFeo{3Ub-7G8dndX@D#X;&PNR8JiAR7A;n
zSkyc6ft7`B3L}?3!$mi6?s1q#X(!%-d#Dcj2uS$&m8Ua-RzwW;SBd3G&6Qp~OKKvP
z9GUX0F}_cERK3^4EU0f;|L(v|L1qEF3=4gA_ug2BV&I{!n)s+oK7}NYUz%qz)KpF~
z$EdAA6oIxHB2+o!F+`vuAM6B<61dCp;1l#!N*<@e3^G@?ZpcptAs1aOJTlAwH1c<$
z9^yg|u<L%@-^Jp`V*^pNR*v7agV$(Kf)M536ah-33k*w(hDgDjZ7M4bOTt2kV(&V7
z0g+J(n1=GE5^@uhD2+v+kuY(tO|mJAM2D74S!9A;d}lVh0AJkk<Zs;}(qojEvm>O5
zN{+|Su|`p@{1zVMitrwX>>!9r9&$1|6iY(th;dRpP8f9#-ymaC#aQI^!=ya+PFDP(
zbE;*_cUIjP{PxDw<4?Z7^GSobX>!fPmMP!HJR8z21QIE_QuLY^23cWt+CMp%YG<e2
z1ZpooH2zSs0z{q-w5J2@nZVMNPjWJf1GPb|EO$Q5@CRdzANd!bH5stO5X+fk53q|$
zVi$tPlN!M;{$AOp2f5Q{E!qaWm6(x`!6NS>p-tPpIA@m4L-ewwZw<T_-;m+V&-M+8
zn#gfiTDsx;$}Yks_57!N)MNag?bT;Oz=(CaGC`=9hi{A-ij@cr-#9<)BZRwvJ_SEC
zuSAgQI2-;6NpbkfGnqhJHn1!mScV1Uz?y7eV>+<$`ld`^Z_2k<7bz0J4e7v!Okh(s
zur(dndc&IuJe=}9tST7N&D+0&<|&kXn(8ey3vvMFr?}uwGsrldk8sU`ZdJ{Kl|Zx2
zE+ZmwM)<Lq?_stfST6i_;cErwI06BF#_dOJ(tI2x&)j|__={R8&R@<_w-wrfgyrT7
z6seeXl&Kk{#~`QSJYoFEzgQ6Lg5lm|>(9D}Kc`--?7=4b2^!@Yo8Cy%iBc`hj(P&K
zwU%<s9;T+Y0GzZM(@q`r@Wa8Y=dYZf2tX_LFH3pUK;-f{_BW_Hlnhdl26=DO=F=2=
za)Gw##^&tM=GeGXQI6%O-sv)S*~dXS;emG;yP8ZRMg2qn@0>tVNSo!{=-vVb%x=x%
zlG2{@^z@(Uq-|D)eHVtn0?Hqt2h8IaMjdryGqr`|>C4p9?Rc%Kq+7<fU||HxsMt04
z+?1#F-c`>}shuGgU8ok@6hqyXcj*Xvw@x6mrEO`@(@8T$WEEI@)d`<*<L1mhVBA@_
z!?8Z#82k!#0$J<Lx+;$EtTOC1YfAf@lFwk$mh!Bag>!xr%~UA)9F=N7V!Lp5!<`5M
zuu>rLN)?G&ev&y|#y<KuNGxV#yU(4L<M2Lw>cQYJ$5NX@O_&k%LirKCB*9JL#fB<!
z)chj#Ul8yZ6&&MJJzjljK5Z3-*`+S+sY{%g@-+WqH|hZAXi(JfWiwl1o(xe-ID#dp
zDdf+Grj%D@%bU~X&7(!}N>rbnDcYX#x1>DktVPZm|Acyzk})dEgjF+7im^Fc1y-pC
zeX*>{B=S=O#PvY1>fr%%SYA|6<&3*<^T0(hwc&0%fl(ulL`l>}d6M$LYGsjQ|2AGv
z{LQ~+m$kYyWm|dpY<UrV?_DHjOgG~PRg&Y!Z_uD>_#qXccbzJKn?6a&uTxP5{E+Qe
zl}wdcep*rLGWNj7!4F}TenL19$h-gN!F<@-80|{rB+Cqd^wc~gVSo$?d#_$ojy}Il
zz1ajH5bn%nF~){^r#x*~5#whOnA+$-PLyD|Lo-cA3iz9U&4yxJfsjf?>Go2dBOf(2
zS62_=37gxHPRo0T@I_rOq}rO*K4BL%^bW_{uT%FdM;3I?y!onU(&(IcjkeD^;}2&2
z&1rvgvNzkZF5R*&)3PDs-<a~KAra-A?t4^2N+{5*5tHrO5e>A^QX}N&Cc)`8sq&Mu
zB6R71IVSMO!DJynccD<~AbyGAJ%A^LIo%AajIj)@EZv@|OHgJ4`7`Q{0`9ItYNBEs
zWB&k!-)Tgt7!t8`>ooYf&g$naS`_9j(&}gY!)*{)@RqeiEaen<FYH3X51UOvl+U82
zvKh5luclUV%)5avN6A8oW}2td(<SrSiKfm>Ny~)yYyNBg>(0!gEh+!jlxOQKdfUIJ
zj;7?BRJ38nYZH5ba3>}o+xU#v=G>;ucqucTiNllx(P0k+^Y)@pV_%DL`Z;1=iaO+O
zn1_mS%zF<NRQ{4O%@DPsx(@`cqz(i6g1JB|E{@3|m75J2r(?q4t}gx5G>&e6K{%l?
zx*6z}Em@d`$IO~cN!!GluWi1z8Ee+<yHft$DbMa%5bk~IDoVb4PYAb1N4Py2!ck^~
zE$Zp-64-{D2ZC^iQ7A8n3Kt_ti=X#DRWPsn!3twj!<d8Vy@|$Lv(f5o6fI&ihik@J
zZ4U1x!dvh_)R<%95741^wD}xn4z=U8mll|24p?;Qner@x`aKpJJ)iQ-n~Ab0LKWTH
z)CSKsrIqtR!RIuN&bXXW;^yqsR{D@x;tGaGP2w2%H-O_RV&2&`Gfv@=3)U<;P@yD4
zMHy5?yR(`JQ4*}xLa;WmXSABq#CnHiRsI(FyHI0saU{7PgPstqI|rh_SZt%<HiXiu
zTl){GXZ{9>c`%4s>Fao?Bge15LkB81DN|ui_bf8skH#l=2P&l1X<OdOPMve$(3MUj
zeknhg(IoQ}gqp<h>&Ju?O(+KfRf=C%&s{n98V<=^oboK5g{$47ZlUBy_k?Bb0?XP}
zETgQsQV>Q@e*`-LPWAMKl%Cjm6V9PzcFEjjY%hy&gvT6+EMYf<%yFK#wmEYmA{&~I
zj~o`?IAjWyEljZveC}=>52J>9=U;r(*qMXw0~T1hG!Vo)lrjzeKFk*S=%`O@_L1%w
z)crBA!A81i$N)jcVoCk<<(jY>dvSY#g+=?Y)3lU+mxV>y;ty|`bYVuQjEJ@<7Im;}
zTEcr&=0wLAv!bPFog~(xu2REYTaV#b$;;ILsyoucHp2lFwCRUDxbrU23i3Y5yRblJ
zr-+d#MeA!iyHR#%1TTf1#^}x~20yVi$1`j{A$kRJ($iZ%6V5QgMX2wr5Yotw;tL2C
zUMyYo6M@OGV1W3I3uh2!kaq4w)i93OY1s9gzEeoKgetd{sLnaWTGSKh*tACFSka#D
zeszP;JbF!zA-Q5L>NotYmG9D17I28Iz%<fNvh3y@*pU#1H#f0`obB8S{9mciClKxK
zbTsD~iYNn};hs}?em>{!A5c!gV4f=?!#Vu`1iw{if)({5D}*q=)bIphJRA!0aLD=G
zf(wHW!5*S(PzV^Ozx3kS(X%*-a>v!ZSN6WP|9$dsIGAcZm_h1qzU{J<S6*H_zV_1k
z#Pj11#XUdt2Bu2`q@W~1h?2O&^aIeoxfj=st{Yo*VRK@|`(DG&hn<u2CbmxbHcbaA
zsJz6&OB*k59p9P>G-U%z(t#xthj9vZ%C`cMB@+u@@6Ik*o?ftg%D;j>P&r<iuwAN&
z@AzO&`NdC;eloEmX-ll1D4m+q9=A=Gm0xZfZ@bifxnsN|8HJ<y*|CmH+48u1nu2;a
zrOTUWCsdI>x3o>{pNytjH%)mq-@;lqRuGa6s0Y>%=9XOS9_=0rUFf~oKiZ!-oSEAY
zw@>@asE@|Z!8nle1ZPT6!FT^FR11?Eh4c&yPHWgm2bD(o95@(PNicl;;!{?A*}K=p
z-|2tBM<fg1oLc#pWZccbYj7Hzl*iHYx%#*G-P<<K$H49FN(rLE3SPxwU<=W1Ng@D3
zY>Jo(!JK~OeE>wIQ)96P<C5`9eN(3_E-f^5hv6Uv4>%hUP2L447x6&eSBwMB!beAl
zZ^?M6;5*<<E*TFEyHH<kq({8NUK#f*aM(gIuO0s@t$};?KH_;te8WCze(63f9Z!t;
z8FtPYnL9jZcrJ}!n_FGux@J|+9H3?%QG!U-T`VPrvsI|`4AE_;=qF>F3&4_8-WsQ8
z|Al@s2Fh3|@n3eZHj5S1<~J;CFi!n{6ZrQCXc^tnnJ3DJln}ej`J&Im<A(FnIp@wZ
zt{UotC<y0l=g;MwY_n$0b*_``;B=j5f7!uxoX2W^4Uu3P3bI<Rq~fr1gkVAq*r~tR
z7ny(j3wO>OeKdY}Y|%|@-aI&dFzHnf=g9<DX3AG(%O6UYQ$X+X9oW!W5xh(rFON=c
z%C6d-UbTCylU&O8{Lo)DU0qMk<C*HVG1qjUI<fZZ<|~_D+mZ^jrF?C->Vnz2Woi8L
z)WmJ^{bSKv`P^=zDc+x%+X0SOUY9LzO_#S$*e62Q+?n#_*zj2u%vQCgt6DQvZE@eN
zc{NvES6qqV%)BKy6Jd`3;!~qfjXj>QUif6(cB`c9vTNKm7QK9S{A^+*gR_T9mSsy;
zrb|{%Zg_XgJ6movWLE9Ul<bZ>r%Ng>7mXJs+O<up_Ds#{Ov#$K^H%i&ggJMiA(-)=
zi3{HYSV+*L2;#5MNE264m2lF#l>bP>P02rygcI|{k8IV>2Bx*&rn}o~StP0|;qi_;
zwGhgRc<sldT_{aloH>82`QmmI$_t{BQ9*UGegZdl)79^3F<z>3>(tAQw07k`Q!mj<
z19MU1(=TRWqF1xcDA5Y8L@Xx6)+`p-L^U)zbYVC@o-z*?^@}?yaE8T#wbtAu^Nf<3
z#EEq|+N4xc_s}d^j${8Xy{2Rl0atNg_K1D#f#Hts$pM|yggk^ugg|!|BDov#@PW6g
z1AiP@X8Hsf3^?7wD7Bu3m=plg6SW~udFIblfCMr(%~BuT+^N^-Aax&6fT>1ofONkH
zv|fzRW~vft8&oCLS?2`=(M@^Oxww4DtmrR=lC_juumw6Wlphd_J1DPe2+1XkRnXfd
zDqEneuvI_{H;pZ|ny&ks(~HqPgmTUEc$#0a;r%YU2g7UA9dC876Q(;}f`-Pc!Rn$W
z2Hng4(oVpThMIRFXaY*7i-o(OZ{}T?UFx$fSAkN*5mU42p(F18mIC=jEu^}c9l>B}
zj;pniX&r8ax3Ea{RUDi}J9CB|Cq${3hq~c3Y=0?$?~8f5-q2wiG(_GHp8oPeP*m#M
zE?y5d3zj*9TIpb@88x5-7Tt$(_MZL|M{oq9djNK#=LTXBWeuo_QVjIMmWei01I(EI
zuz4YS34hNTf?+(H%|Nk#q#F^3l}0?y+3AkWP90Q;;k?7Va?}F608)IE5O~2O4FxkG
z)a3krC(%w09|h%keP42pMK1Yhf(KvEjpG|HZAOrOe_8y6Y1Oqj+4P!!40~-CT&=xQ
zI}uLQW~x^~mg4}Jp7EZfD^uB;t!z(Mwr47rj@xf7XuR5UrDwwN+CX-}iu8gNla1HU
zrXD+zTCgIs;OMw_%s%#{zCC`|WXtu2>xXZ&rrHlo`3_D8D&q%ku}|X^#i8+`<o2<l
zOD~Q)=uk!Wb7IwX_t;RTYTKAY_jcYrx%ztP^_@4WQtkVvd<Sr(K>XlL#zr$PMv1gg
z21=Bh)InY9Zl)0@g<gpUhMk`!3y*{{b*ckqI@B3p6k8uv>zNWPKqb<3bKMrkF&LO`
z*d(gYjx-m1VCIMi^BXxo@bFTk+``S@;v2JWJw^Fa+upD!0W&Ch4T_|p00a+`(mW!J
zn_RqQoKAdMZv!kt%qK5rKcNgL9!3%vYra#9%}I#d)U(fY5`3D7wAe89U}_UlQ(=Pp
zZ^#oZMq&Cq!Z3vpa*h!j*F-)+)b@Sk0kyR*&bF>k<DaJ~j?F00vh9hdaCB&5RbuP3
zuSz=@qjAdD0>T`#zOoh&&0jo*gC)tpl3erE4R36iIPw*kT2`fetET5*?^nWkY03L@
z7EI3%CY#1uK)M<%PTN?ld27cqfz>JBYI4!$^j%g(hL*&xOC9l@Jjbf9u6twM#Okj+
zlx<v}Zd?zVdi<LenZ~Wz#+~WLoi}!68uw=c2U5NRjJUwx=Ay3-$<M2FQ8!Yuomwx}
zvp=$xIp;B%e4FlWFJf|fj`JX2UZh)9QnM0>Gj`#>xKJXyK9&N1c<@vg22xyvXe3bX
z9AT_M7ty+&1M<e2O4N41Vmf9>xO8g<psHajbEqk>ubj3g3bTQuf4=lf%owhI3CEq<
z&RErZl#IrYPz(?060|WM6$~{NDd|hMU~(0M?b;S3N=)su0qlR17^MgjB2*g;63Q|t
zUM{v!!lVE^(1am5&@zd*hglV{#jTm1{39hy0JhQ{4gEEjN}fNZ2meF~qtPb1Yd|t%
z3wRh0^+hv`GZ%R$2@T)ITQ+wu35>0Vopk#vG#8D3<|bkl#V%|}SYO#PT{VAnU;OBF
z*}Th(#}{LR+^$Sn+vv^@0+nO2OB<5bFVaypV_P69lP(-3lk&Bs0xi?kb)yI3yT?}X
zY)?-(u?aKoh8|kv%X-wEbYCmJR{WN4vg`UfHQ4p^$~BW6@j<p5Es*SvpJyKGPuv*%
z-uZ8x|Mm-f3#MtdK$uFR=*~Bg6cl2BP=%ObAC6cL)-Y8)nAZUTXJ-PAO3u4<p;Sn%
zyw~m5I<r<X_y~6P@4+8+*meHQj7fh-@0|v&O!HD*iIQ%f6-o{bIA^=VG~!PoGuW;%
zV0Q7?&O{Z(Gx4+dRH661^<aQFxA#XH8x~Qv$bb<)sCkpUK1k<GPAo>`M8lB|@<~bw
z2t%Qyhw31h--oujd=u<#c6&R>*k6%TjdcH^4R<Q@qs(wd7(5jPt3n&ZrIDQFe)yl*
zKDbjYmk^0xbWi{9(7-UnGBQXFO1D6OImmS)fo6PSs2!n0CwwYjMmbUX3Z$oDkwa`^
zQR~G?_5yVtttw#vh1+%4lxHECA}D6!&O%0f(U@W6E=VP4AdE40X@-=GibhJ+Lh+V&
zfwoNkOQ?*(`XPxsb3d?Yve@FH^#jM`G3to5$b*i^TO8Lmb=wgOCF^fb``ahbDa*Be
z-CcL}cC4aNp=6XkVVF(Zgpmz*!s~2?w<BfEIdK$wSELK|6Biz{>wd6QoGEjJ70ZjF
z@=!??Ny*Gm5J{yY%4N|E7a*zn%AqlWj9=MR8yk~LHK<Vm7jU8fv8r=CPEg;rpvFc#
zj$G}%()(K9#EL5eQ=Vmn(Jzd?aA5?;*Up@|2&VrsZ#MqsU$gn~-euiMAS`FoGGVT(
zLL9BNQ!>Acny8_w?2+?`g#fZrejCpu2rdX+?H`WcU#1RPfh_2tvWje3W4f$y)EzI^
zIWKMDDu3<8jK3r6U!C@^p2S9&?J3W8)>m>KTuZ}5$*)rB1|Dp4*4<Ih6~UcA?HybJ
zwK;ca3Mgg9u~L!HgL7~bhN4HPR3nF_G5%K-6e=eI2mM@BP^ApRSwPhc60QW0$n{B~
zUeKs<s{Rc^tAAk%<*K!lTcJ?GexGPeo{hs@sw3q&@}Bdrioaj{=RVxd<Sj1X9f`|3
zbjEl=Q3;59Qz&&#13TTEn6N~KZ7;*tz$Xm-n8FORL!mgw!GuLuMP(BXffGy>^`gdk
z*Ij~Rk)Rj;JbG4GMKSDj$yT*>3lFa+tbf|+VJ5Yl%AobDJ3b`Ti#V(c6s>VewzPH4
zrhEb~bJp`l`}jY3Hur^29S?`L47Kw0M}}pbH!j=UN5L<nTX3TS{s|!-nIK-WB(2Hq
zZ#ZAlmd$>G5rjQs4_>L7H8XY4;HsW4e@}Np$5z*N|A_KvlPnVdYSh3cx@$m^^Ym-S
zxXqvprm+ZtXR7n>Q4PnD9sK;BH17`r^QPBsm^}IFo^+r&IW*;4d1EN`#L;iPc*kxl
zFOGXY#POq5%tRvB&2J)R?t#$*V?z_|*~OdFi#JdC9?JT5q<uSXtk3u!Mk(r{rfQg1
zxx83NJb;p~Q0)!!Vy^S3DjP^=KWf!<_PHW@EbdgDoigX_XF_c5g4U}Sp$1*|qY8;*
zlb?haA_PXngmgq)Ok`ZgH%zW7LZEANz1A=t*ei{>0*izofe{?V3!~?(8WGI@iot53
zf62iNlZz>W4tZSM+xH683H9J)IpXTyDE*#`eXovxj~qnUcbx^lY%bNGpA)}btOOTK
zzc_^swhw7fz`*N%+au}+6YPs_b`Y^(b~N1T#q~%mGB{o;g+qvhwdpYZ0XYPOqRa3_
zid!mSfV>=(G0WQ_;0lbkP8h0-U~a8qzvN3W)?xQ>5q;aV1mpN@p@kKQZq&1gFRZ{S
zBwwa+zAao}z)rpDVT?J?VE^%+P&5+WqgslH{V=nx>Ux3&mSw0q<4SN$p?j>SG!qcB
z8!-{CyXmzNEVCsoCP>Z7OIs)u-Im1IoG4XcMUcNq&W&B&J@5dOT6)7MWJq}Na?0dt
z!JiTLpyN=uj|jIbl~uyfT2;rEF&0lmGF7YN`>=)*-;3o6IxP9prqNwD=ah_<UwAsv
z@XDvA%PPm7A8(cAslD7g-kYqR*qy0dIl9-Fr#6@@y|OoXWTN4Xr^e<XZ>1UbR&yJ@
zng~y>xYj)xyT1LMvx#*Ccnb!wty)DAhbNlG5Urylz6<6n9M4=n-kvROPM0=kN?Wmy
z0ic_vE9PH5Hh%2Vv!i=%skce{#8YF(G8Jp$dswc^OUIX9>PSBM)y_9MGtFz$WozSZ
za%;f}(a(=Q9N!BdVHtCvLVMXNQ0svy&q2H@3B+H#ZMV!Ry|{05-`L^g`pKu_`!c?V
zZrdG2#du#<NoPAJ*N@H1lrFjL#>1JK4QbR&v-w-x6x3`0^|P<{6!Ll24Q8^{4}HB?
z_Ew)?Vbz7NA=%i9r(4E0^n(OIMA~7w%=r~ME>i)RUF{$+QH@@-2zRC!_{@^ZaDF)v
z3nPXGbXBgXfACa93B`c_9{h%_hFykr4sigrz<#c-+#&SuM=pr|rOUHRx1{mUvzV=Q
zJeBB5t}9?<y9HmV{p0%+;Y*Kd-b&U?`QmK(vUK^fi5D{Eo8YwMEgK8HvUxgCOHsJh
z*z<{}?z%O32{n$A_o!-QOw<n7YSAS4Z5!@xKW5cTaV>0eNTxU~j2Gp_;_T03o6{pG
z6vHAeQpTA?r`<*-iEdnH_?NT}K}42!<*h?V7ZBk-DPm+p<8ZvR5}JTSeloeI^$^HH
zy2_w0M$RVpMm+tMHd?134L$FIlYzAd(~~!?Ur^UrXkpbNbul0r=Y~WSPWH4)@{(;B
zZUM+qnpZG>>a_zT+*X-`Wl@3E5b_>4q7)&;@;}Koij8=h2{?*1*$pIAiMbK)lvRLJ
zW!zT$<PHP6cr!1RFxLcSJ>{W{1sw*&jy51C7iu;PbM(LCBfrqa6MZqokttis7E@re
zhwNd|O($B%p3PLOM0`_iDRWPztT9{Gnl5W)D>k=k8WYV|+pe@FccyDrPOL>TdN96o
ztkNiXAhZzuvOCp^AgX&+$;Mm|D3Drf+SfYan(}qPD<R<;+k_Q@nL-9UMHMoCjGKZ&
z22fncK=aDmiep%#amcLAT(9F(P|dwSUB9to{l>=DZ)DUXv~xCTmgt^&LS*PnSE#>#
zAQmKcjy(>iL*1cR1gCi`1B2bq1%ZCSz7TADcoK>Q!volP0q8-T?+rJYrEr4@Dv{Gl
zB#L9dL$RKL{^0RQSBPGpR(j4*Nj?4H$hn^W?qE+eIM^Q@JbijVi6M+V5Ylo@lUs!M
z>ZT2`GGv;eHqm<$R4OtP&B!OGy4l9Ck+B}Ae5Vh&A)pquXBTZq<DaKFZjV1Tb|TS@
zrFeEk>TR2K&f}Q&;k4BF*`E~CV$m7ZLYwi{;k*;?!h2aWN}RcCWR*2Ukd#=6#tatt
z8fU#`ro`Rt^-MbXL}V4*sgq8YpWJ}DP=vUsJi6{@(kZq@J`y@7mrmp&@&7C7v{x>j
zIAs=+OyWI!QZOqcn@!#o_L$^O5!(nQb4C+xFC)d89FvqbLyl2-h2<EwHq4M?MFr)U
zn6p8S6%7~PgB(ksv6>uH)&XVIiCQb3Dqo|7uvYm^x?>YHCdAY|Rfaj5Oo;s!^5lwH
z%+1adeW93Ik{89zvXe@eYoT*ouB{-ND}{dXKUA*K<ZBb1^rRjKwVOQc>aNtiR*w+z
zHH#99uP(c?EM2o^;sg>^gwgctQ{$gXA^`nj%)tIt(&-D+4@lC5&ix!Eow5<AT0o`|
z7Bf}tZZZv6%qLxs0*#eTl(Dd@`$P1al8!t%GhfIV+}++-NX}5!oEtkPPYv{hADFE1
zbDQ^JtzdjbTr_#7|9AEwfo>(;L@ao$4V;dk^DZ4Tz_+luNuj7MFeYuM{#Z}<hA0m?
zCzPJ!c|j4v02&fY^IAnY2MJMc1_1$e0^48ajL*5`$4(gGt`M2>G+}W!?whGPBB$Cs
z;*$kcM=+=RbyAQ`sCakDEDE}Pf~%V7E*7X()6D)J6;;=FJ*ZaB5ekRRJN|d0Qzgs3
z!dS*Tk0Wk3_1;Fc_X-6b%la3m{fiOVWW%)$Z*9u9Z%Vgsy1p~hzU{6nz&mM(De0uo
z7%cjBXN9I(;Z8)HkgNbxW+45*i5Psde-22m6>LOX2giy-Dpp95UPo#cB-@xDx#*f1
zBwI)Qebg@`a<3UrPiw*hg$*E8fh;}-4;>x-)hcuJAE2Hki7wDT(UmD#s8N6xKt7rr
zp7N|NKm}y-p!#dBmmp&N$iJB5BOTUr7uOD25{Qy{8r90bblaRZfm#VT$)xEnE^X4X
zIaP7G;eVM4T&B+1q{and<dGT@u)klA5a1PiT&3%lV&VtaOL#|Pz}3B*nk`*hBxFO*
z^s(;}09zXT9^LH$c^eE3<kDe^U_@xb42DrNu5=@_ZW=$V;R>hrK|+=<00hWVF;6{n
zXS5im!RWNNl8(^Hcx#i^_q`3tXR^&}(#>loyE4riuZP}mhH0AlKfk%=tDD}~H1R^V
zV{5u&Yo=p+rg29muruY`skw?IonI|_qiCW%6I`1OZcGO^USIW|BNg132|kjle<b5S
zl=UA@`wvh1O7Ce+@Bp=wl2cT5!{kiHL0n=*5O?b2jI!pu6d?XV^AHi<5OEx}e(o}|
z0U8%ZRzE*B@+fr<)7&4%T^=Tc2@^zQL%oumaeS6Kl#H>Aab(#kbIC@;OuHY}L8k43
z0u*&4+spritV0^3p0gUPP~wCUw2JJ-c^8EO(OCsKBGCFIZQh3vID`)2k>{I`Q8l&X
zF#r}lw-IkmTB;!XoOOt8%$Dn@B4nds*f|gQJdOK{DEQ~W1K<U)e{}zagK_J0X>H>9
z<fgA~ePiq7svC~v)=cB>bp7sh>25j-ry@RQ7ESqa!fQ%iyeFbp<KKR0b2%$jqG$PU
zpov}hFD_1;vJHmTmqlbA7BmRHGJKeiInUb>G)UNF9t(x#VS*mRmlzFz7V<A$U4RZO
z6`|@zx3{f)?N-GV1iOZ&ybi^|4Q?PD!4J}yl^aMnV$l3N=ROTp5N16Ft9*hw@JDz)
z13eg55EF5<g|mZ826iBH=k6&_%QOP0A@p)$-9+<bc&s{8y2&_zCU*#-Nzgulg6sg@
zV>~`JY&Cc+38{(5HrjaYvV8I|auEBF=n8z4KyWr%SSK<=6docr;o*d?l*aYYO|R7X
zYV00zKcL*)JBpP=4jEp&$h*i>Zdl*NXnpml1B0vkC#mOVJCF-QwFiHc7D}2a(dqs=
zy>}bD?VqN>`)>m14{?W}HvQo!HJ`LXT!xiEVPmDi<V1djMpN_uF$nsqn}K<W(${w;
z-LE}7fgmkQKC(E9wqTXItd7FHz<iI0FQGTirOTF2u1J@y#+&l_iJjvQBTzzFUAAmt
zx@=)`Ri><Uq7|D8t?#s^7jI0LZM^=}jl<u3HeI$K@Z=t}Bwd35G?UHO1DTqKMi1UD
z!bhOwm&{LjYE-fZ9+v?Ra-Ob%{%9=JACm?kc#?X8l5rCs_y}R@X2!gBJLhZbhPYGt
z0A<Y;ht70&o*o$JTWOv&&&Ce!9z(2@Pn)-&>3)m~-*u>q(4Sv4R`i8C)J%|q9V=9j
zfd)SsyM886jBtcqCxnBZ0&gLNfHLQC+%*rpW{}5W_>ST1p#tAQ&5(!O^CScYLO@Ln
ze2KOT%hoZhGV3baLX7+-{}mTVgz+`P^qeaiQ+mMJT=}Q4e3C|=X*a)xzTqUoxSjW8
zM1flzJ1AZW5gaS3s4LRb*GYU*WqvaVhH*c!bS{RD^T6LEG$UKUOBO6q`O4y35FRAH
zM?Kmv`sVIL-;}o<9vz7jsfuRxdH0)k9Qijq<y|sewIJzERW6F}CHRwX?tHr<xtY%B
zosTHADcZ(@GRvy6r48xQhGhHX*&An4r45<VLvfd3J#2bT*~Mo@pGmYN+b7Omccpw=
ze`2>Whl`R*O=g-{F0mzsXNrnv^2r<8#aF+u*313F-1@p#ufRZthAbI&WAB?I%$!8Y
z9fDXRaKwn^8Za~+e1Wcfc&7QFjwAnHd*1>a*L9w^7sO++yTIbb#c}}xiw8kG2?7)!
z0{DVRQGAG`DN>X|+krvs0)&VMbr;}Epk#aM1hg_S5GBK<nO4h6Q!VQ>h9*f3#nUlU
zWg2ECY4`FnSr|!cb}YA(>9m6-F?E`m)cyYd+}8qk3DQ>5=}a#<=N{ZW_niNp^Pm59
z{_`KFsnqd-kGUY7sB=&nHwY_8DZYU&dJ7xLwU(~sn~tTE(s-dL19wpyXHwlKOvWxi
zTeZv?!j@vRoj;lPJ9&Bw2s)=z1BYFpIY6BLo;FW_$Ih$m`^H9a^b{82#?OU=6zygR
zi*Lb8L*wVL78kh??jH}1kMWOeFaMjr|Jl!eCLFAQxQNh$kH$83X9$4~X~pgsgpF+S
z!?GZD;n>7D+UV7o{6g*^mIE(DbXQYW8-Gldam*hY3&Call>1Fe{syfq6oJ}a>>bC6
ziIEFqk#J{7_sSx@YQZhc`H^#d7sULL&+0RaL7@V@{pYYe86J)-<ccY{P{JqSiB~o7
zY<;!{(S)gvm{U*ZSl<WKkwp~ZxwmVtl-zk#!GGuTQ|{^0(JzAIY<uXdiPg@GO}RgV
zOcIz0V7qR#IC>;5-8>dQGAG?RcDFmZ?^R{rtC%w-u7?HSb=QA6dOlurb5tp4P32@^
zLtyTb(^1udH~D`FyrC#l?w{@lTg<(6MDcB0D#)vHfmJP)IXphh<n772tx6pZm)!;>
zI9b}Rl(x?o`R3QIgEQH@zk0s9W4^q0vA|Kb`LQF9&dAOyC|oLW6s;Ap&$Wh%*CL1z
z*y(&l8>(6II>{l{sku#&`w(G+{Z8Iq8V5=~q)sxFVA{#6^FidaoxHkJO^Tdq1RtbV
z7hEu)J&_NRV0pt4cASwyjx$-|HTe$xAN)z4fg@tkQs;<HRH<LYGni7*nM2@+<g<~^
zseT^r_VaMjoK?9f^fYip5*zI~BEnaY=ogX@yiKE0Y#?*OuQL;OH0Ye(A!blFP$Ld=
zL3Iuo>x|G8^5nIs&(3^hghxXu=VU&u1(F90@aPo0&sc<HzBovzLmXqFP!5kz$fF3`
z6&mUfN5D^+IuKPCK`|~+QRcTB=@~BuYF?YX1ei_@WTR%8x|131LY`K+Ed@wtz6O@)
z%=f<%ZvQ!21_AK@V$Ap4hov8eW1a`@wt0Ur)|e=7nL3DVMis$ipjint(}cu4#B5x<
ze%@C-Ur~+8ThW5aTj9FyMU<?(#WKS+k{I%t>u28mQgnOl$ZYvs!`;SvhZ3IC%$DI5
z?*SFkT~+cPcs5g{u<g@(5}w+JrR%1S@&rud*v33~8{e8yNdn%P92+6~oRc}is~dOb
z#B69KKbAG$K|OS33MoqgR0y-+HHC00;ME#V16!<y$*Vz)e2Y+?XT!lr-w64O1p9`E
zgMF8QGWLk&)|eB;0fk(D0H7?C^_tYCS10khe-sfg`4S<`1SOg9%FaJ(5U-kC#Ka-J
ziDJyg$ORMv5|ud$ijto7if4VQ7<87&FcW(s`5^pd^PaU2z3}nHUY*wv5d6%2??wvN
z*(8E>;?S!=(%Y_h+ch3xMHzqHqSsLbdY?|kbC`$=*Rlilw46%Fl>CJ7omO7h84~JI
zaS0Aaokv;%epLCWc%yOL1#*k82=B;J!^DZ4pzc%|MNJ>Q*zxol&gupabE`7dyuV+=
z8UXBY5M5_l{s@^gKa|yIIE53E()5$nC^%_BQkv$p8vRDFV!T1|7pyQ7+_+f!)Mmth
zA#t)*#!jm-=rS}Q3>aNPd&yo-WZ%FrV1_Iss!UI>&`+9*&!lt|5A5Dwsp2!yG&XJS
z<Dt+gW-}rC*8!0@!gS!bEh@_NFWKlP({BjnB#k~!zXdON{h$y~yXgbbmtv>mug_jg
zcy=4g$6DI%jcF5oDSlw?^?L(w4KJ#E>`2?ylSbwY6givy1Tu#&u#&k9VKt0Z8IVES
zEi^g_{1TAz8eDD=57af8$LEy0GSq2UnkHROPfE>r%ai%WTiJT+nFz4Csypd4-paAO
z1x4%peqcoPs<7s9Ik#ys3mGVkpeP2q6O!94#p`W?9b`|s2P8Q68cGo2nA%&(Fr84^
zLr%BY0)r8w>skRyyG7obLS>|$2Y#CtJa!1N6Jl%)p_bmV|J@ilQWMdheJMjg((Q=6
zW55Oq3h-jrR~9(ze@}xWLmexjpw{db3@{eVrd^XxR)1YOxj|IeLR%5giRVOwmt7Vd
zb<#LwD76wYYRATX8bYpHSIjfQqK!EO*;QaNMuS?T{hG_JkOcSvHC?vxck@Hiq}x)9
z9x>NrS!4aXs!Q@1TwJk>;w)Tc#|9w9Kz$DC%In`%FaKSLFlK=wQQ$1aGv@&3R}TsX
z%YM0+`s9#M@P!^8+#T!)_Kk+njG-Xonf4=j^A3$%7!HrXE&xy40el`jZ4I-PJcI`_
zu@50r{{Wv3zX0=hmbCfz_wW;fo*%$XEE@Guj`-4Y-M%BVkPA=XFkJI)QyF4GavkL&
zl*}PXi~0LRwzS~lj$m`!f(LzNe5E`>^|A!VU-7?D?}D360>VD9O2l8ot3l&zx*YdB
zu{P=f$Z;OW&OOQQmlgbX?!a30#pz42+_-bLf!xrs1u7=J_vI<qe8=|hReW6WdpMG9
z)0AiWe5`xkSvq|Y=R{7qDYgUc$gX+!TFiZ);#(d~v>jEEdRth^t5&?#F-i5-#)j{E
zI}^@V6VJV>BK3AI`}vLg-pvW;{zT_~6{&YKEO(xg>7H+P!O^|>W^?Sst+sf>{lMnG
zF4-_&bOtNjr7#C%!5rXn1lm{v<!!R>zRVJ6>3o5I>KL>TSR4Ybslvq~hp#5NwnJG9
z14W5$E@%>(3Um}-Cv+5_Ysv-Lw!Aj!YgBxV@nV=hwkfSWcRN(yi}+U5;A>EP4QMUt
zsZ>0b(G#ktI@Xe`?Nn+zXFJr|t%_&s?3;5f$*#jn*Wr5|YS&RfTJD;1<8xqHam~1*
z9Z?RC5ih<q5)Xg(jXQ756@O<$sp_74^#^A@Idf0?{+HFFBUmX$2*Tl+VfwPt3R0@p
zLa(Zd1#rswqT5kk_t=rk^%gR`0xVzDo%A;<et@p}TjEz0|MPR*$?hXc_mO)&YWFb{
zmh##gV>4s%n&~ms*P8xm(QS&SCbo07BH7WSbo3wua>st_iy|IkyeIyq>g!1Qb|^jy
zrq(m}mg+l#nu-EZ#N%&FI2&1pJ_g?kAe->e5Vko;Es)bGAu1&#Z8A8@ZxO~*(nvT;
zx(o~OkFq?*ZYJawE7^^&E2l|Ylt4~YLaz#O{TUV{o>5%y%pk7+Euc*k*H;t1Kd(iI
z)kJnuP=(1Qv(Qekkb%UIc%E5km%om_&mf~u(N8O6bQ>c4G%|YUeqBbtLP+v1y4^-b
ze~M*<G)Y~vWIThgzAe7}*@Sf`cu7W^1U}_+71lAugs=|L^Z$$MHlkd*xIXC_z`+d`
zft^HfJDpVs>;=mN_QKT#c8Fd?_Hg~*71=Y0^v3=N3zW7VI{!E#eFl+#C6rGq^1BU@
z-#h8eAo6>kO60dMWr+N!-3Hr2D<LO1Y*hkXA+UwgR0izZd1g3PQxvWdoHhqQh0>LU
zOr=~<DLjTs;hij;^zz;st4bli4gMg%L&;Z>2z8({^f{>m^4F+h68z~DHXLGuKkemw
z`8<{UCzP;UPi$+sTwi2yCV8S<FMosH{uN3{j$bISEUWikN&oY*P*X_2mwy$7BP0y5
zFN!6xxTT~?_TY!QWIsg=@n55Yr<d$sIQS<mf7J46o8sKVlKrmPw*Mz&`#|()!qfb@
ziT8K=RNujLDfkHj{=BCkT?0t}>v4V#3+5h8;74&SY!#HGs0g%KbL*PoZ8gPzQ}&0X
zT@1Hjtf?R>_%qA@>5#;_6c4FJmTyV_O9!>kQQ-g9@$1K<J*ubbM+L>#PvNBB=tZRn
zs#Ybk$)ccAgzy_`QC<39sGzX$ryfUP`So9#eiK???_#kdzbsve>WN=deY>>o)f6k^
znT@(YjB>foV5cs8lV%qsmk9Bj@zxX6g~O7eFHlw}4D|9sK5O8a4^5zj1pCF?e8;mb
z-@ZUL4{?eD{NRiW&<m4)E+~{$hcI0yz_v9Lx$zb<x)7tY4E@d<Ee(sM`G#qClW<<*
zAf1!=gj&f~25YbM2HBgJUD|?~J0$JIFO!I|g>p7F%SnUru?^J5MmXu>(;F}lbiwwS
z{k1P3D*Z8>#ARp8%L!$}iih4K=y0YJTlB8tP5s-Uxn$eEiTLZ5H$8T5B1BR4*Rm#a
zzUns5Gz=N1F2DwzjjzZ7jJc7l$^5VGA2+OQZ<I0kX~|@P4wGCN%C?lXJ0%e!rS&VW
zqA#!I10L=9lg>-T!npk@S*C5#GnsFDj+R*h%jBz+z;ewhCE!Oo>0uAge8!zZEE5rv
zTy{YSK<_Qvo{MKZqI}9DmVt8nXjg(uXMlzy(7>3?Cc?;g_ySoUg&C11Z}99D?AMn^
z=%g&#gn!w1nJOU@qFAM;-!6rR2G5NLn}e76aIIiVki3F6xr|p{nHU|Vf+L8D$nPTX
zS+GwI2m6IbQYbifks}3!gJ0SAl^{+-439=ACIH|=d0`YaY6G0Kf*brw<FVG@zSdw%
z(^o8Q9UB`Dcj1kTz0?R|6d*s2BN!+8DYQVie~2p%%LxA;35F&Rv0yA1c~c%|xHy&*
z8aCRZkG;?*j}P@v;B?pFE5S?W!lUdWWtwcU`V5<C1nmU-v>rsrf(W{9*aBCNJQ(Rp
ztG9pra<H*)VtkCPko{LKjN_}v<W0K6CM=EP;mhMqUFasxq4A;qb7^%Dd=W(7LGu6;
z%i!Z-d{$%v#^An)J}@*|G$P!cx_E=v!WTBBRVHlDjpGye9Kr_F+kbA8fGQHiQ1r_>
zkWJ~ILSPV(eM3CXjh9=swp+R3CSikShpmWp+*)b8Te<6zNdtzeM30guNII183e#FS
z3wKuZ&JZBgpP}PV$rIt$pqv5aR<tp3A%tiXnw6X!<3`5F{5>%e9O&yu4=`}t#bh<d
zuc3+I@TTAaF>_W_2LRxd2D}|Xof9~<cThtKI1i5xMSw_=O~FIy5FbFy#&GM3s`O7V
z-{d)i7#Sf33c$)?w1jD-MdAo!%8rK9yGyI3m*-xibx4<wsAZ67SkmCpYoR&yb60}%
zPJ@jD!()Af)8ubBG%y6j#p9u2Om_Y-n(-V{Y6y`mEfW@9ug&Q+xQxLv>J?A)!Q(pd
zE{`$|hTf@GQe>H>udwS;q$}8H5H+0&qSwU)5#+6jW(Z@n6`{?(XXETCxjhR~RSg`;
zuI@cL5gEr9ja`Hju?~kA7AB_xVVP<PB4fd6#t<xnoB{C{zWMc(<46hQb1dS~HKVPC
zHIeYROvV<mNAI`Lv`q1y`7~NHgo3`N@;XW`<cg1#&rt;)eXOaA7To$@7<svw>iO?T
z7Myy=lP49E+Jz#*(+C}9D~NYw!FyI7!yc5r$at^t)uaew3r^I;0V?UtMe5wlD=#4c
zch&HMHsn3sWI0cQ>U#hOAsJ3dj>_PNIkCQv!nea841Q3kRv@0Of8Oa&Ix7_?))pQ(
ztFdZOxgOzerH^uM=X{WNvu(;dzrO1I*KV>`&6GDP;gCdfl`5MrEu+(F6M<&6v<2s+
zl>2W?%uFQKx6NfwPpIX);ECX^NO(8Kk0e_6L5RQMo$<!p@yP7!civWlyYKq%9aMTw
zDZx_@ie81#uSxusv!%0_Kdw@0_TGK&UgIC_QEFcKi=vYcsiwNvTZxTbf9(s-mz}2N
zffB676qf+tvLH2IJ9Y3syGy4pO~3OQmWbZD{!aAr18?JeVEu<VAGvP3;yY&h@9b8w
zjWN(QllQQqF4li@cQUX=32adVTj3^#FnJ;l{&CgYisSl9*72#i*htZd^Ky&JZ&b}x
z#k^|qX4*1S$`SKLNxWHFHXWL2j1D5IUz!JaJa;yCF7K{C!IAi|RVtc${he5uLMI7t
zV2vQn&%$&kW4RpC3`TeP^`&e`YS>C}E&E!IDX*Je1Xj-hJ4yOGzy`XO-|2iNJBivx
zhPRQbb<Kd~Fgiymvkaf7$?*1@?TnRp_=h;{3|6LVIZ8;Yl%VsJ?4<hi_{Vl7jF4o|
zZF1!QVM@~+dpUQ%<6G|jtU*VA)|VlZv({o`w8HAP*4r~#zqU3TrLVd56>-*2Yz%Ui
z?<<%rusyxka4UsoP+<Fg*>>{#q{rOntiy#GGWam)C06NSTKh-X)8&^Ls11Gw_AL||
zE!g(|Q-47rPCF;B`DK@>4cY!`v`)G!yWOriiSdzmj4r|XwyzJ9&_yy9U4}mJ#Ek(K
zp-z`5Eu8bDA>Xi+(ig#LBw(44uHm3*$oYL>^n(@wf1d#ZF@9atH(9GD;&0ltscBP?
zMEh1DjzeNvzHz~*i9SMb>Twxv1!-CbGaeF+A+3U6jgCWD9vZ=h2E-}D)&~}NO}*vw
zkl9VK*Z@#;dQelBOi`J7RpX}OV>Kaq#fz4Lh7YX4Yx~YZdgo0YtXBw!5mPRq#w|Yt
z8?8dUkX2d#(;Q6<A;(a*EMu-qOKAX#gOr!mOD)>&Ho0t-IxTJJeMEO5o$$HLPg^bF
zfF{9>4Wxm`71EX$A-gs1YfA4MQk0&lDb}paZnD<LGGH1LgaEW!@OQZZg{*Pk<wiWX
z+N!ICrWmBFax3G$pMkkbi~AlufjGafepNUIG!@DR0D(o0+(3V_2+6`^J^lF;O6n*9
zk<k2i{srY|^E?N9(4|LmDv<vvz>|NAlADyUkoaxN-9n=I*od)M$Y;!>9+TMtM+z;t
zA?^2Sf#bE`S@3jn(a3lxvv@d&)=eMlmHpC6z3|UiK3v@7K#1AaT?+m?o9KM$XkN^Z
zlbuLt{IH*5!FMao-D<;5HMmQy*qu>ybbsW%?Nx&vN}z*;$3}6scKl6cJ^p6-5fYPd
z2Z;^fluNeLl5<F+VVmmP&Ymkc$@}=s@kIS|YT4GQ{1xT3gT7x=*S1Z$e&{a!ED-!*
zQElRdSN^j8<lG4(;6>kGY}j$X{v?FOibCG9x32zu?@e!_afj-Ee(KP?zb5H#Qv6Nv
zcGcg-f4^UFvmiG3(fQlwXS-)x)rLK)fA7>GwC}ItP}41H`KDxfr&8XT*s@P8-wz?T
zyjmRo9rvo`JLqo_l)6zZZ%LN7E9LF8dEaw??4JAL+{^0bLu&b9>|e-r1nTKL@_4?w
zt~0rAo3d`(>}7S`-l@a*skj2$pw=b4TN2JK|Lak;W5X$lw|;+G;y=*kYRWx!?7(2^
z+>fXJ;BP<MJ^1aLbbYeNJ_`SD5ROsum!t>KE)e0M?s516^JRW)2S@CV`QozqqOwP8
zPe?f;TJK^OWf$SwMyLMn%y~|8dqGZEv8l#|va>^@ee#vwet9es>4iN20WPofqY2}p
zsX^Dzw@Kd!cku$ZvyYm2QELSvuyMg^Cyd!f+zL(PGD;wmwrAfyvK8EH2Mys9M%^_s
z9aKuSFS|^E7<&y3qqm*FI|&C!99;q9v01aNh)wY&G^p)XVd1uE7=?Ln5=4L6%S*yG
zt&g(_G>85olP(MLHX@ZSqPrbr?$lf?YtSs6ysK>(gwx~Z4*5OQf}j?JFJcqXzoQ)Q
zJ-kV|S-d2_PdQRoHBXy`Y}gLrsW^_vy5aE!Pvrd2g<gm(WIbKTqo^&|rzkR`;X#Vy
z0<^i<H#`xJWN^c&HR$;Y4AAx4QKDbB00{zMkl%Zq;;f4y`fQ8gSQF2V55(Sn;N12@
zH~iYlZ|s=a5$$=8!p~y!U_sfpj$S_+eJ)lS8^0Y$1X@*3Thh~^csk}n2~UUW*_ZSj
zRy>FAy@_KwRnLjk8b|)Rsl4fOqDbqbm*AQg-!kjFvvY2{()@zr+Xq@!Tq(8%tHpH*
zZ+*g9zf#XLP*&SeZm;K|Ye~;Dbv)aRz1RRO5Ws?B22!G9w99&8wVk6$DBA|buuW-_
z<1etK96no&VnF9ix*{z0PtXkw6t_W6GhVwuPR2|5U!o7h!kmVZ%$iL^oG}oQPF|7u
zm;w&3WR1b_J5<TPLb8wt<F>#;$^Z-HKSlSf#J)j1y;}DK?9;`HNkYG0MQNa4c_3Nd
zsFXKe_e^C^4SeP)wL`5Pif6~&Qwa~wQ8}FSoKQR`5~p8Fc;MCfx)ryI{n0Hk-_4y$
zQDgk2*#V_>r{diSn*{6*SFT@)`rfa;S*@;X#_{e+?`FljdA36J?n*d!F{&NABiV0P
zic?2WGE87wydB*+8<@l|W+As2V6vZ^vs)wk$O*DfuP(q^y^`$rk}%ziIX*NV`5ak5
zedZx}4Gkh74z*{?45GjXIKSD(d(#Oa9ZO>8Jfr_^?-Zo}dLA9PJoq#$HZ}}n8S_Es
zFTaSGoAXy=KH0YO)L>CyK5o4p`!MVwY>isRd~9Z(b>`dY`k)+!mnJhGI>{Srmdt!`
zFfTKoT!Z=KP3GCT_~^aH%qQ>I)viOM{bMqwA^hptpP$yNwB?so5KIsR3xQzT;1V$?
zH=;|PnsGVVxn?1U5tm7X{JVtXZY?lpFEl*)yEJQNDft+Q%^40MG-=U2R`4nlRdud4
zMf2~^@fyemoUTV^M&83l_=mdR1Y9Cw4Ij1KZuy|?zNdW=F(VF258W?4&Y{e_r#%y=
z%bj&6Htu}j+{LU;9C6*DmTpLRHkiDwJH94<9#OgzfiBh4{iA}S>nEe9rcSB_wLdB-
zy?#0>O`U%C%c(q_&$)gPK1VZ?guusNN0QMM6}?J)j$$klF4@gU%tV`crQ?*rSL|k%
zvENLK*ofU2%tTmGGZ}^!yOFgu;uZ4uX|U-7g19WcP;E~`lMD~3-=>l7LM<5Ss+wd~
zyMq7D3TRjGTd#-?C`CAEv`O(c#T&lcey3f9e&yYn^!6y;p1Umwu$OQi6Et1^0|Ls<
zDTR)!k}3HWYO5J-X-+A{231FHv4N?2R?czrWX9v#$&B<eRx$c0d_0JF<ntuqMr6HL
zdcN?5<FC9-wOfZ0dWk@h-2h@Wf(<kPSzmtXXkbf_Z8wzZZ}7fSD>PcwX#^X=sHkSy
zpJ5LwNMQ)t!k{6+gM5QTjvgWxca2E05Cw9aLkMn=O2jU)K11AdY|F!wT)mVn1F#5c
zyeX2-*04i-_!pzTbhxsi)8yD{AO?vCTQNkqH;ni!W}gE>KuHjq49k{nSm3l{2qD^l
zsEwu(ZviKNaF69_Y=zxASf_!J*3K(bA4z5_`NytyuuLG<epwG;KZuAh0gmtvFtVZw
zTn`eibL=W@CDIf(iMt3j$SrTg#|!3SDnu-JK3OZ$Vz2)pO;46SbNYraoa<u_Ba=+J
z;3b8L*Z0VU1iF)#4LTZMgpb8?-s1)&M2@seP^AzankF7|n(55uLm~@@@jY<T%yl3F
z0*>~3_vPq;_mA8>a_i`QPZKeiJrCWxiNEZb_cT4k^4YcP*WP^x0%y8T<u01uha-b1
zMnbdVX^tP5-9J}<Hz(0@;DP6*`KsFM#~)VJ#X>iS<9)Lm?hMWK+|B;vpwjlDQuX50
zar_?Zi`U;i2NH<CJQXqTY{%?7%9aC4@TFw+Nu~Pad}R=Ok%OlsY(@?irf9R()NukD
zd;h6HtinaB<Lz@>6Gc7P&0J8JaymTzWm+AI3$1QXeBW$4Hd7@6FF=u7mD70)PFFXZ
zd#817qteu)_<EjBqa#MaoX&@i&dBLdN?*C75D-jOI{xAL-Y?z)>3c9VXylB^Q;E<5
zAz^AcTOwrPzI4(j>APkmJ^9~Y7U=tQOwRi$&6q!?<lj>A1QpE)jcLJpT{Zh-Li=CC
zuz>S+?MikXQSjfn9h}!2tDfEPP{ZZ2y4ZkH)|xEsP)a*y8@|{6al6{NPc7Y_EIp)@
z9=g|}mYzn0kcUOpu?A>kNpG9tZHo_lckIrXx@nK<-Aj|iGc8TOIFldknJJ(>iu}Z@
zIIB&K4f>g}<a;bLFTYD4Ovyhd=&4IIUcTPo<;X4WW?qgXwKNUQI9!WfT`2g6vd9_H
z30Jqp-4)Z|iR#x=aPzFg86%<SlpoV*KROL&kWpCMD2}V0sAz_V%os}o7B!Qjfrs12
z{xQ@qO-Zxorba15^2xC?iEu<&^buXQ3%EuNcDz;pb~eLc`FZ)J|8B=I?R(waXs+{Q
zm|+l6hUgmWTc_9-gMAFl4eROgK|)rJiNSo4xglEy`ONYk(^Rjca(pPRW{@##F@g=6
z^{{RQq<5_3ZI!yjZACksyQwr$KEZp;-Qd9i`^dX*MF-wLfAjpU5#Ar%f}O!&B4vKE
z{k_)}lYV3O^}g7fQ)_T2<c-#u)@TH=GN<xbtKt~zd9%L6#vKow&!@9L)~W(Gx@Wqh
zZ@#xX;i*BT<yAM%&zz5krq8RsE!x&ppX%G2^u4I~aH8Z(U?1K9d84S_pa>xr8{p-I
znh!=*@79EK>l4g_F??4>W`f>lwaGT1ff=5ijU09|uI&kNrfplt13MYiYOIr00EvB=
ztW+JLL1$AOqY0bhax6Po7-d)(%4hR0$vY7Ojz`_1Wv#azbDg&Tga*9_uYtA))+Ylk
zN}vV7p7N%B*tUG*$jp&gu3EMcXB^^K!?&-$EwCY8a|=D*mh^Ti-p*O*S$h)BJ*z2K
z_Xx)+QK(6aa^=n0rkTu;TdZY*ye4O_u3S-87|rPArqgmQ^~@KMEaVSNjKXVjY&as;
z4%wPX{tF9k_yCNIjc%G49~$OB0J0O0W%Bfv$%R|4qJ)5uTPZn82_3*Ek5V#0$s{G;
zpyZpBOjAPkarpyE;*@+$$sbbkDJB1bl6gx06D9wRlK)AGgFw!q#6?LFB>_sdQ?i$m
zLzKX;%pvztGDJy)lB<-wP02SX`E^RZP09O|#3}h*N`9Y`Pbm2TC7)9ACzSjdCHE;w
zQu2_J|3b;%QzFr@<Wf>ZNjW8zl+;qvN(rCjMaQi0nH3y%p2JXc3|bDr$B~=F7I4~@
z!Rusf9%XHs*)R|NvQ6VSV_bN+?w0>OUIRFe$ZdFTEv}Iy>2Z-m^8S^>{U05bKXw%U
zmBaHBM=N&LtSwJCiXY{ArJ6_exl+-il3c0yQAvqZ{?q1wbV5owC|&AWFI6UdO-l~k
zf4W!lO6yY&O6nb1rPEtfseCCbPpVE71ra$wqT|f6{EPG?RYnE6RjGO@D_`nJ_!}QP
zaHj&nMS7C*Q-SAIY5h``OKM8^8Xh}vrvg=r^duFa0^3w6Ks7WZO0n4=cPdapH8hAC
zwyRPF!BCedt0x%hs6ZvbP$yv6s!HpqiLOLREj7_a1p?GWmuN!NkT11x4Y+GHASas8
zVQAH0Xf<GHwSGmu_7%8O0el5=Pg!7xDpf9Jl}Pmn{QB5|JJqm$k)EWQ&3^DnWefxE
z8Vty#I;p^JRjQ@WJT1Zdk-qaZ&HJo6`q0yo_)^hIzVy1p%}_>bhq6{s3(?^;BDhlt
zd<$}^S`!k#w22|XU4sO<)HW(0#<W@ra1FR?H6WM5Su-f1qeY{J7L8Pb(V|fRu}hU|
zma^RVS^@%hDo~510DNsF)gT5nPpaWT#hnUZP>~a(F2>9yZD1&Irvktm<V0TxD1$%?
zY65pEfbT>ug~KtjN)x3URH<Pps}4ohw>@^?PDM5@(v#H7{2_WP`z5WJ{oJA4&VH@a
zyHu%aDJuX-$~Qj7q+&>_7wJi=%lsAsRUjxAU<B1b6$t7_0YY)y2@aq*a-zpYZ+Ima
z*MK_}Kn=)=i7E;dY6WoD3Lqy2RRBo^XqssS0Hjf1)fxnDHKPW?VBDz*U@&qioHbyK
zS+!KlP~xruft-dH0*6baDux1gDgg{ePRxRxsuWzxDv(Y}iFHkn9h9LWHH-W#6*QZ1
z1A(bKao3tbPT-Ch`C{p)m<5!fA{cwhrW&adeWtW)6Q!L>;A`@wc7dV#$aiW3-$?~{
z+&cw+i4Jo~8?{m0sDXhe)&fM?2u_W%VbBc9CO+0Bb@R94PBq|DkxQ>(ucTGMteyrw
zU)rlpX8}gObU-h2fIpVY97rqU0`U<D$ixRF@Wk4X3lvfmU<%0vTDU->v_X|NE@f@S
z$W^yLcHmC1HZIbW)CJ4vKLN`{kLF2&%Hpo|D00>*T`wIGlZ`T35z3~HS(>Sowlk=>
zQxSlQTxz#<WV^MI<zD5H?G_`evx65TjUVu-Q8eH3r5Cgw6R_53(*<`85adz^EpR-C
z(WP0By9NhxsZmRb77amg*GeFlg6F?6VOq5kxN9YlOZ_sJ(Ag(o75r1c3RHFxtjs}0
z8JgOHpfjvY(6zZQh;5<dV?4v1ngOvzP7nuyLtd$Z`xJK#4&(%R5tzCQO%R*MoeBU`
zkxT8(qE8Ve_Gl$=*GeFl+Rr7#j5{KMi4p;!43)viP&Nf~tT8RWs28G)R*15xNiHO~
z%PU#Za|{k;s1W!IWmE82AmZMnO3h1IK52KNrsJ^#cPi7eNKcrdCQ9+y+m=9Nk4uS`
zZlb%qOp&#n2=8%8P+rk@Ef{8^N4Qfh=sV=JLENKCbxT?0n2-qy0ZSPwQ=j5zERX*m
DoR$Kp

literal 0
HcmV?d00001

diff --git a/crypten/common/__pycache__/__init__.cpython-312.pyc b/crypten/common/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..0fd1671c7f87b0574b05f249ab7d3e47bf073026
GIT binary patch
literal 202
zcmX@j%ge<81Z#x;WpOhyFgylvV1NnA_{;-jOlL@ENMTsS7{yS@sL7<sdW$oyG%vX%
zGe58R7IRTv`YoQ4)V$*SqWF@^g4E($ETtuxIk(t~Q;RYabNn<JZ?VV6C+6hD$FF4g
z3^MkYs(wjsfqsR4k)erxa#3XgP`7?^er|4lo_>6MW?p7Ve7s&k<u4AK-29Z%oK(9a
fZlErp3mJ-efy4)9Mn=X@0u0=ajE(F?oInu(AObhZ

literal 0
HcmV?d00001

diff --git a/crypten/common/__pycache__/rng.cpython-312.pyc b/crypten/common/__pycache__/rng.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..3e92f793f972ecfbd49b1929fe11ce54c7ea8926
GIT binary patch
literal 2274
zcmcImOK2NM7@pa;9@fKJzZFnv<3={N>^>+hNl2RzQXGs++KVqn(XQo{S1WaP-PG!u
zn$m-PX>AC|haMU*Bq2Tcm_nfKt<Z}U8!Wae6xu_5lW|Wul+Nt#NRDIDT>8V#{NsQA
zZ)X0-C;!sb6$Dtm>;9*(AOi3QSx{ko<!AycRiFR`>R{HJ;Vi^!MrVrbEDM3cE9{qW
zmQw_U!!y4O)8YYfpH4$3a`~ex?_Mt%`43gYETJ6h<C00hUkHCkw;?&hW>!D5*#g#2
ziUO^+Ux7Pm1^6xxe6I)oy;nG!TkUyKF9X`#3TNRMcw%#wM0JXY{sYbC=pB4CH?{<&
z5T;n2Sz!n8!sf`h!W_G2q_c-=HdMF@epd)!jjv!_Z*7Bl)@Cf4DNu+}kIt+J-!L}2
z4Zngbyv-N7I~J;;kkvzVo2PHM0c`#TNQ;$=*Hpc%qSXA7k+Zatk+MpuylSW@YpJPh
z3S|wYR7@F5#hYXk!g@AkYI#FdQb;rMj-aTYXgSqkbLAz6*Gsvqen4(~KoWMJaRNSA
z2|2uCEtl1F$YJxU<?t4+mIcJ)ZB9@#HN&*B1_3fH<cK-6T((rh3AWu$M<kcg49nqk
zTyKu3nRB@%C5uSuqy>jFwTkKl$gSpxib&}>!s4wg%A4LfVS+HH>S|FnER&RH%9SUn
zj8!aWKFy%XH!}XwnOvz@EEySO<j2d)PLc*?&I`$$dyWr<hA<SV0`n(4tb*UgSWWD2
z#QUm)n}b`|w$;1(9ewA`-Ql-)<L|5qjdSDoBDZ_0$<5@Jx)*=t;ng*vnSOoe>Z8kh
z=}W$0elLFZ$9Zg!hxX;+x;*^tt-74q5$f_=Yk@x#{nZPb7aGCD#>ea9HEEy`=-&8X
z{mj;6T}n2ja7z?rp(TMtvKdKyU05$1hR7enAQV6B!rJQfRt!k;zBu$)9BM|-Z0Wnv
z(V8^c2=&#tz9akyaC#>Pac*%Z!__gX-N%J?g%UqcEUJLh`k7W?fu!JstU%laaPb@f
zC}IVu5%&UA7@N_cSM9idJvJdpJ|PNw>~5#^X1kMV@B3`hdC_yd{Qi&9V=<ewJCh<}
zHhC`EGi=iC+=5JTJF~(+#U>r(-p(GXVU`wcSi$_}^9MDYnh8aEia+|>o7)QJ4^rK(
zJi{M>%H#|2$Ku#c&GK2~;1b4io6~JdL}~yLYDT1v5FutnxHTO?ge)Ci(~S8NB4Kej
z3}d?8hPuc;!XAhu0+9@$I2lMJQGyJF_k4ChBvMWQyX&fvw-&tf$#Xqs2)WFF83+G{
z9U}%bNZf|ny}yV7C;@nz(aU(pOZYSY!UJvnraVxc+ML?v?*{J#cjeK2d7>^)tOXik
zY~#HzK5s@x?_H@!XCA&^i_ZMqi?y0GgKhsWX*9e0s$-jD4JoiTxu&h3-;!G_lMou|
z*B+hyVdVRfLw9v;+MQRYS^|&~`{LkZagZ>?;%;=LCXF;gy)~{ECGlg^j85WDC5HbW
zV5X<jf|mw2cVVAQ$J<2hC65H{K5$Xo5I>R57fZ^Lu3kjL*hC84B%yDy5W=GffYDz;
T_&4zCk<bnM{~n3KKG*kO9HG+0

literal 0
HcmV?d00001

diff --git a/crypten/common/__pycache__/serial.cpython-312.pyc b/crypten/common/__pycache__/serial.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..24325c7661db5d62e2f264b7eade50d14bf17888
GIT binary patch
literal 6791
zcma(WTWlN0arf@{CPnIHS+eZVqAi=UO<A^}#C7UalI_H{EG1@~2b17%;+-VQ6i?YZ
z$rejDYGAZV6Cg73VFpQ1wKZA=$wvYdP5+ww^rt^$q*Tg99|4k&=1-9fG;o2UvwL@Z
zShAZ1IJ>tqJ3Bi&J2SidM<C!uP(G~t@A!)i2z^68?BcK*n}3AHEhHlur%}SJaRRe%
zF2S*yPw=c35(29o2?wj438&26Kna%|kog-p;pWieNEU7&*`YYb>+Gq@^#{D!PIzS}
zjPuDZfPUExFd%yX)-VoU;Nbg!vuJ~|A26XA9Ig3|b`2)6iD8hggL2(G1>hFaOE}${
z3!!m=QC5K*`oN;J>o|HJ4@P;TR@9^sMNBKBQgTL2tCDPRDb;ZG&FG4DZYYWkJgm{N
z;k%JeePXinS|{o1?o5)INnOcwCe?`vHPfjnBqgO|lQTx6#Sa*XBSf7LhbbdMcZO<6
zYXmTh)_kq+Uixj~?ZhH}=cOgzp@MK|6A&nAX@Ry8T?bq1-=P6}hOcv;iWQGn(o%XT
z<#k@?%DQ>5MqUIy*ZJ#0j?W1>ZiJ7c2-2M<KZN!nviG_}=5pvAB=hg_*PS^`+&QN#
z<Zu><vH=+F)Lk}x&S`5n=XjL^nH|4yT*X(>HU4>Y6-OP}pL@elo+Z-cq(Z_HQKvF;
zIF->Rm82dURdh|AB1t8k$|zb`+7306N-Hrh<8n#Sr$|QoN%&yJsKa4OAp!^0Y-Xeh
zCCcarvyJ^y=71iCdBWz9@Q6yncX8}4_C^K6WeH*gN|I1!MosCH31+y4;%5j^Nz`TV
z>hQSXQRtUAp^X}DI)F}T_$q`le6~<ZMm4Zv@Ib3ktx;`2As%QO%`lH>4x<ZDG!axF
z(xIdU@J;a3W&zBibw3I<%s#Qsxg2e4^(`y)2aELw7webmkIcE(A{{G{6UE4hzebiK
zr;6_IoNxYx^%~@F%KH|cEBKBSgd;!P2_S#{1`-@?tD*f1$%V^{dkZy(=lCyu4Xgg(
ze0M%ttdA7^k-7f0n#TF$>*)ntaPR%kx(7zw)xf`?8%KK3Up&2G{%@_lyZFy`IiQ(@
z{!+1xV)G7k-9ieYjs~0zR`?W72%|{mevcF2JWivRP9T(UdXVBA50=K48ZvJi6?Hm_
z=K~9)xMiUk+Vq$3!k0sKwjki<gKr;D`W3HIb}imF0s?{_L2*6`Bi=X(U$xW`+58f9
zGB~3|{fsk$lz>t*!h!iWV+5Rn<6#(bPmx`U6OM)Zy^?$wJ&)cPEt$K|sK2CWI!PsU
zMZTPwOeL?tR%Z9;DoKvTG^nIeCC1!Ng|~<v&H9I@QfVEmF{UYcwkfHm({MggDs&7H
zSs{vi8hB>gO-7kaY(kZ%(ux+7fNENzl(7MIG@crrP*d{%r&CAt3F%rk{2+dpl!43H
z$b%^C=^jjE&9znbVM$MpWmGZ|>!YnfXmxET`!;mPek9#-IorBr1xYnC9qR`GvpoO{
zbL_wW*r$mEPE6GlVDe+gfLq%ZZZc6P)hRu8+N^&J4XkMEu8pK69l}%WtXbOzS79gA
zyGSH9z^d%-Es~^FO^fyQpBaEUd*Ht4XH)tZ*jY-~7~$4EWqkSxa5<CFVO2AXZmX6V
z-9Q(^-bb2?aZ{SDYMWG5SkGvzcY5?mXl|=Eo93c)&7yh8T$MPbr_x$XBnmxqvN$Ob
z@ZLHc)B6yBVl{B~)5o%2lS4d}RkDp{yYDRI5PDZn96sS}XKSr)5bK_<{xONzT`eY6
zzdA9QR<4~^r-svtjccyLG4?jfV*Z4b9<jSZCiS_DZueM318Qc}?y5J5o&u`l$L!9!
za_1v<pG|lfC`+9dVSG#_rAe#>XuyMcG>bu>q?J_wiO@ZKs~2kVty<wuQz)@NR<TIN
z)tV77Rm)&FOJx?$7M!7WnG8#UK0Pz3$d*_Hav4NuTJ;^x_y)7VeswA>hcl`UIR)e*
z*;Y7eVWNztG_a4b1Q|*=-h1|p*gw!4k5?scr9^cZI8`R9IjolwH#_Oo>d!-ZS59Gb
z*p7EuNW|>u^eWcvG#-^H#_cEz^Vmh^?C~;BV<RMkG`(PDoLv&^FSCYZj)OSnsElJd
zoI~UOYC8Ir<7n)hK~d*m_94iosB%gg*{_9lP$<<5O{?$X17tT)XZ@Efoxv#$XCvWc
zTGBvyCKXG;WW~&(Q&}^3L1yJmX%GN)DU(zTfwDDt2&INYn@p#4!<AM?M}eIoq%tF_
z(I##aXhpHSJ7?mM?eodBX82N>$thiAG8i6K(R@v#xppZNtGCx==JSjydtjS6V%rd2
z0Zy6<U>1EFY|bCLtuF@;uOrUmEyRYFFFmvBZ`$O!IQD*zxK8gTLj(`saiYeZdEZjQ
zzLkcKVnfH`@uh~&k8rW!*qmq09emUOntwjGaBksbA@)?E@zSz8zIyQZ9KYgjDY{$o
zCq8%YCq9@nN!MYQ(jDSe=(z=E1KW)0W<w^=L&lHBZOV#zypn^}ZyVt>CN*U<gnI!G
zyh`TwDm9u4PIfcL%rK6k{2)7I*{;*o`yEbcU`2MO#4N&0mgKOR*@UA!X$N+Oa7CHX
z4DT~idP*^KaKR8XB|Ty|O-e(cyGf!ztkLDemRi}hmmXqs-?MwR+sZOtr=#NlX3=WX
z?)kC2v>@cC3k~gao>gB%{`5*~XR)<&rM0`*+P&1;Q}p$$)wQnH^?!Qq)02hJ5bSP!
z4QzOzX59&S`bw~^7;IZOQ4Ag_xR0=1iZ&Q-QKXWJqTv-qQ+8<kMe*e+DQ#ldz0q9v
zL)#m8@4&#&vjgYiPs2ITl?f67nGFX-f1(+#(X=`&fyHAuCA15A6rDBP7nB*MJ)@=<
z5UJrQ-P9)82Mox5%EiZw9zx-mDw7V{-38!%#N=o971Bz3DWGWWGXOWx*Y1Obj>pz{
zZijPraKqVE@0`7`K7vtg>jrW=hVYyKmln?uUTxTU>-^30dF`#Cxiepen%?r{_b=eL
z4;Dj_x!%>CyYo_hIPcj&IIw?S__ASFzBjMK*|>?<dFc8&vTtrM-~G8iydI!j*Bg+t
z_Iu9h=-%X^wa!{0rz7^mdNZnR&c_PDDDa~5`ghJf{^r1I1Np}myBFIFM+XYc7ys!W
z1h#;^tJT6P-s<UX;y!EI-TScPvmOkPEwbt*f}Roj+l&DK2M^FJ+nt{By&Qw<B-AXU
zoT)vkxhN(Fp)%hYOwBTVQ*fOkLIB{^KxkSK4i$w%ix<8S9x)HQ^{fH-iU)%i;iD?%
zpmNOF?lGVghq&_yqD(2Gl*N|u6_8M4c<}w)APbXGfrMcyu$1!s#PC&IPz)aK!t@R0
zTE*Io77@I^LUd7?nAB%P)x6M%GTdm$S>X3e_-Rxj^r572UV3-eO7qcT^U-BrS3&41
z_`247HFGb&-ZTHyZ%!739j~1<RZ$A7Fp@5T?M@gJRILgKofai&EQj2(Ps`EZYEjr>
z6j!{v<iLa4c+vs>uB0xQ(<-*NgsUjr*&+N=Sy-u<hudzRH=2d&xwz6?hhVN!7`OSA
z(*tWRe%rbD`^_~&LpeWacuQ$7_zmka8Fd)0F-fBigY64B3A2(XC^!cI-b<X|v!~L!
z;TcoaE6kf24#tRd0>M4*cZZl9Q<7IiN(&DgL=mT@bV??JK>906eggn(xvOSwdVXfv
zwRg?kcKhMQo{vr}MSi;MK4l_u%dUN^jk{JF+l!6uON|HVq3*+TXV(1fx34ZveUw@{
z@Ut)cz4SEq;crX4R(G`C%G}H>?P#Y1`tjUZbHMaRGfM}0zwq~c4+Hwaw;*@h){|Ar
z=KcjDR+>{;+1s6~^7*k1=|RSF9X~irgDtd9yS7iKsVXawPrB{)c#YjE*W=W8+*3*>
z<=5+NR1TNT8p9EQV9gC0L2+10Ub!j}+1$3M*YsMDmLft8-w@cFse`4}h9{+o=Jm*Q
z3|uB-I4`oN3AW8q&cGVE0OK@z!tB5tDu;gd7NU`70eh2@od*Cm5eVO|`%}yBS{8f%
zuzM-cxf19u2D+C5J+o)mT>f9b^2=A|r<YxOZg(s`^XJQ-JooW)pNJoe%WY@Y+<PEu
zA9!ThePY#DJA2XGSzuWzw$s=QLs$8YO5qcN;*fF0+mLgHgACHgo{P=gWczr~%@~zm
zU&}_YU1YF5MZ7vHJOxbN2fsN|;Wr8G%!Voih*90Y1HIY~05sWbTj*K}?q3OZ6oVa0
z!NUdjVYcMKsEZr}5^|gZDk0lO!&7>bGW?Kf>#3v_?&(zIF$#PXP`5*#w?Q5n8ogKC
zK&zq1?76QU5P7lV2#vgTtYwa(1FCdXI!5%!SH(<w8=&7V<E6`v-9z8E<%+lI53&6Z
z12a}IF8_oy2^N%OcL*b3Zj+T;L9n_6oQy!#MFaA!ino7rjV}OMrQWF^gn|W%H~@eK
zrqGISPtmt$#doOaJGAQd<b@9}fcx+thJ4=dgyhfRG}R!$fM~7Zwx9G!A9N7<%t_cW
z+6OJeX}t|n5zVZRKKPQCC}3F@O9*ImWCw{I5K~$vUG-Mobw6sl@Ka<2Mo_Pzi2%SU
zV!RnbIP?{&`wG>3g**%fzCr#CC&q_2y&)XC)BYsJv3&bVOGmM#;|`)<8zUUXCpO$1
dZrbp=aX;SJA>g`y*EsNz?-78_5Rc8}{tw>7!-xO?

literal 0
HcmV?d00001

diff --git a/crypten/common/__pycache__/tensor_types.cpython-312.pyc b/crypten/common/__pycache__/tensor_types.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..67e0e7300c800c00760a5ee67dd8d72b79aeded5
GIT binary patch
literal 1800
zcmcgsO=ufe5PoleB-yfLHHp$D>CfWSO_mTTX;Pzu?6f!uE^dm`x)(!ngmx`Uk#@y<
ztJrc>2sF?b3TdIOT_}`7pfygZ1A$z62?TQJ#f@DsOM7Y$?JZcB#D|cXw<~4k<dRDV
zc6N4V-p<?a``-Q*i**yQ>pLEmW)wpH#)p<ke$YGu!2&UeLCa(U?^2moqzQ=<L%vKV
zWJ3Y37%F(x2!RjPsUH3hm%p!5H$ME)$#>qft-`ozahv5^@5MUIBr;sh)8IaXDGr4|
z*gRSGW0rKVN7xlIMGbm6(x4~FvY%`B(YjQZb!BdNc-qXL=i1D)=}enU1E-l~vtn8f
z*X$|rT(qh+M{~rMv>Y=rpVJD(3#O$x^{Sa~Zv>{`_+xN2v*5m_qlCg%8|34ignUBh
zr4nSfTZ5iINXR#Ifl~5$QXzHnvphp}iioHNPS9mnN*!@kj3?cYw-t_~H0{!so^~qL
z^lX|PJ)X|9dKJp)yj`i-R@&>F#C1GXt#5T@3#MhxR@u;8-(-=C!lc)f%9ibXuFQv0
z?Vbb-;CsP6_?JAmMDE2iKP9hRxZ0R+EY|+$ef{@%<{?K~KHc*&9Y3v0ZWq2%;N;3V
ztFB9|3(DTUIY&0nX$)oL_HLWbdLbKwi@ydAhW!&xe6f2y{L-J%_*y)((!U<htVc5&
zJ73(0CYsPfI#6$mV+<-mX_SHz!ewBMwp?Z@Pf+5hULGq>s1+~!D?cPUoqOAtN%0wq
zC~{E4IH+~Hr4gG!rc=tg0w`b)>wy7ocaaw@?&Pez$&kh+Dv;u+Bo86cCtMP8{1tEj
zN;Glx#QcfHfwgGgz39lb(#q~%UtN1+WK|hqNLB|X_$B!6rUNdB34CQ6l@cPi%>van
z8c$jR)yR`<D=NqxxD7rZZg{Sy%61M;8z?rVt3noR2fW=4i^9<XKREWL9}FC4yPzI`
z&g}&mif&(wY!5V`j(HzAgmLfUz_n99p84U-&9`n1-Wa^ofA{e1!>jwp)}m)um9tM{
ziC-$PT!G;K!ZLug`1Qi*fCZ{3sclwJJ9x-GHxHIpv|2QT12m{L$Y)$dcojS_f;Zp;
zZ_i*O25dm3#f1ht#WT+FFDba#h{V52F6{eq-*@KsrEg2u`+qsKbm(U7*2Nna@0_|j
zdV6#=G1io&p3r?FsUbm*9`;1h<Nxnc`I?avC&}9?A|hC48bnJ(EE0d7tw^?F8?~}I
r#P&l84;;tfzDy}?CJ2rFMGkC6RQkeZLZa`|&2EW)K%3nP^(H?CPuzl=

literal 0
HcmV?d00001

diff --git a/crypten/common/__pycache__/util.cpython-312.pyc b/crypten/common/__pycache__/util.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..3d0d55ef5918917d51581f16d0b44e7340f9ecfe
GIT binary patch
literal 5478
zcmd@YTWl29_0DT|_U&EcV)IDGfdp@gZA^F++Za0-2qm~Bq#+>?ci0)*YwwFYvlu(O
z=_*08mm*=LQWhmrHp-7Js7lpTb)-s-(tbqhkC%00XX;8+iPZ9EFj7lCqMmzaXT3%)
zX}^1=Irn+az4yHCIrArv$BCfa416=V%ZJdHq+=DX)L0sY#x<lMg^8e(X3d;rX`egE
zLCr?^sBltXkiuO+Cv7ZJ(V*8Nvs^3uP2mP(_7&R&bfYwNQdFFZ{Q`5+0ksIV(}5J1
z;((TGgbBLul65^n#_;a{QFqsi@mT-MYD|mcP>B{LBLE~PUUI_dHKdp423b140;J$B
zbuglrM+f<Gv)s7J-YDUw84DxLLW@)Qb*LMiK8jG9OK~Zda45~Em=vopLx7Xw%z6|~
zk>a6!3L(-SB&U3&SX>xg3pAJ#jqVZ+sLM2f?zhtLP#S!iz4QYfrI_O=D2)DQe>|E<
z>Z&H`1F95DM$f2NiuXzJb1LqO#D_I0j-_Nwv3lW{BukpAlQr6aj8)C)l%SkYrI1Mp
z2!%E2%n0<8F+CjX|BsaAm{Lhv)}&#T64S8^+iNPtjD)p{-J0kEOjr*x7ZiOYq249p
z><My)po8284Cknd<63VdJfs?Y1T-Qj7*2Xv7}Ipa2B%I&bc0V|^_;<llGxy5>Umuw
z0w9->zOHZ9qlxD8&A4Spa|n+lbT!rt_lw43%}G5RX-bS3E_%P-VJs&!Tm_h5B1roX
zKn6W<BX9MbXJf&$F*i8rzaIT)=Wkno)jI3x$Q+z^)lA6Qy_xQLUtO*~_tf}X_Yp6w
z8RzDGfr*#1qvQO%=$+`!wOn~2U!6bu!P-J~aPs9_$EIE@RPUY(>@5WL76bbV;=Xa)
zstdcOUM*DbnhUfS0`0{>M?vg>g}&-6zvzH%7M;i)$Q)gQW1_pnyn&1MsC-@vkE$Wd
zsL7-qK58;=0e8R6WE4>DWrKK}B7;dV73OCnTdgc$9vm?lU9`prsT;C-W<3hB0@HFK
zWH}8olIB^I0;96V(!%5Ss+e`Jq)&Qayrr{PrvAU4DQ#1D^OO}kt>XMrLdr(YuLw77
z)?V~J_LLpW)Gq%GgiyBB{R8Tm5p6&{2PUTW^@T%WHKv#B@F19LOxi2yDvoMfsR4!c
z0cjaUQ*juqy#iATmvEb!q^PV9w6;<kBX$t#4Fj$1%`xeemW=kkIkdMW{RVVGajjvn
zVf#>HOYl@8EHz6zVnL~|VVF)lG9EM?L>KPYmI?PIV<D-5Ks_9f1zRPnDd}<Pj4H{A
z1dg8%!*Nule462~0#|7W$8<ngUI7H8;cz4(X~{$)j&&&<1CORbC1E+%uS%~sQp~Ne
z3J9Do)1y4H=q<axWnP&JlA5XzVk>quFZGhDCvmLeUdy-@3<keOWB?v0p-Sr6q#Pl)
zgbj%krF&F*HP#R`UB<e>sWGMB)XF>i?h=oOiMfEm^78qx78EhDQNt$FTN(nmYZ<UW
zHU=9@7;GYJ2yt-j*x*2TLDAp|lMR7#0emIV5W^npHPM;#1~X!afZa=G3>&?GrV%S7
zsz3@RF3zY5S^C#&Didyi;V0qKasa^lJ%xO0E=RJFynj-d^)}6UcNDxkir!tBL-V5N
zXTmkd6-RD&{`mF1H=qCIfvE$9buG65>?u~Y7R1&}*B7FD{Mb+JnXUyOGm;&7ujc*r
z*VpGyO!iN6Q_*5w`|t4YlOHDwb={u;c(Ld^nt5T~>zjBw8-8!+`+KhM$se1n{ovFz
zGrPXE;Atf;*Pl6x{cyMyE{?c+>f$a!qteAG%mr{G-Q^gh>`uTT;99-xCRd9K!2Ouc
zu(awp(utU8`R~>Txt<ll3z7VD@Gb2Ca0D@M)D$`mFAfO^1}Wi{;OERWhC!DCJQ_j2
z;D(tgre_Mgd|2xZB^7y!HQ1(Y2BT|)a7n0NJKFnIcmor-V{`+3MSDZC-qaq6hvbOX
z(Nv!80Gy>Y0RDmgl|i@tjd^CG{#x*Au;6cexWvQ6+ux~WU=L0SM-2}2FUT9592>!e
zAE2GGPStjbH|+4JLZGJMoiKxU5zq)gBSb*iO4{Zqp9Z(V#9p$3fDBsj`eD=jiCKSR
z(c73g^o8BK;M+Lot1tNK^IImhX>QinJ|ng-xT-Gi$?lmrk>51=+^nm4hHw7=)dl=r
z;2qvdKoenQg%02r7#MxR<TtpW(9kOKKR__I6F^iF6O|0|csFTN0TbU98lob`dtmet
zX}T(?<9#sSP1ZbKo|_83P5DE&s;4*2`Z{LB4kFLCY}>?ee*fh0Sy#&p-(t$MGMIqC
zpk&){!!b0*jIm?f7(XVAd9I<Xknt%@e?=gYWi1;g&+bKG*~YVsHFJ^4J~l>I*ii^n
z(zfNNei=7qgIPGz5V%Tg%Q7jO3v#7(=wjs=$~&cOL%>nIW!ZBm+@J%{A1M~q)poSP
z2<!B3GvmTI8t2EkakfuT_zPm%t`jcNlCoLry3u7Z#P*{Qdz#!vgn-JP60O-Q>?Jo3
zb7}FS=UcFegA%izlt^-^ENj+;2MR;@1eCx*r5$NehrGlrSq9cSZj?MH<WS&kPC+m2
zOuN$Vlr!Zb`IBaYmU{>^M`JDpDtIKU#v_v^NRGT+kCYpwz5@B`I&_0L9w^pb-)4BE
zlShM=ac11p$3kW*u6}QemW6#BxWrIS4Og^+_8$6(W60;wXplxKy(IRQqDe?|1|aW|
z-b_nsM2(V|PHO0n>o5>p@gR_MR>QYMGSsUA=rcP=QlLi)$w~>otrMC0nH5rqNQ8!)
zOqO5n5viD33i?UcWI3}oF$o5t2LUP9LoZN{N5~C=HiJ<NQ3*$664M#3ek?1!@BlzC
zX1In_98)9os)juwD+(lrhE3CPSWz`%xKf4`Gr|BOQMz>W>0V03<WmW4*(+Jg-T-_J
zvS{)o-SO0x5-&Mle_btlHs{Y4JPnfvZ?#MvF1UA+Kw(R+{>ro2*gcN%Y`o+3-4j?(
z)uIjg)=r$w4&`2lgzb$<xv;Uh;N5o5&UsoEIl<wiK4ug$-m^(ngRoSRV`ii&kt0e}
zh!D@cncga$N$S!$ITAKUwNe<`hvQKqT!{SuHuOQHE>qkRlSnkUnyAZf|5dj9`hzm3
z889mPqXNW4Ya+nX+wZsDe(LY1h>vat{^0!p4Ck`i8IEW;Mp><uJatJ1=40^8W7%I0
z3eFP#KSB6!Mg>)!x9TU><+`qH%-2n}e6Zoq{>DO8=R>-~J2kaT&|z>9H3rE!q~rAY
zH=M7?k)(P6<2W{Kz#54B4Z(~|xzTU}KTi%W=*dJx4SF$sg<gaq`~m@o2slUpc}@&w
z2p=XLdRYe~x8?;+8lrV!L$qcv{Hj43Ny~mr3kg1;behUoy$TQTYp|GN^?>1hlR=<8
zV%3a&?VU9>6VJU@oqOfo^@Zxq<KkETnu)=pzdrN*d9nJkFY7Ccb-AvBxG~f9mEAes
z`p!?_7l3^I>D%@v=WCwK`}1s`o9G>PE?ASd?duo3we#-XbMB6UyJPz7CoLZ*{}}r0
z*+0aK?pKyL*5_PAti$<F(I!9(z=JBZW$R?uhXbEiHRt_TYIF5h*Wa#c&KzFY-9CNn
z*XKW{(y4?03mft__`l#N_=A&OMStT=RcGcffQ8LlCY`qqPmdHgAHI+5g0~<_@NNv`
z#Cex*qT%AcoRWX_-S|Ra!y?brbo@O~d*zwjy8LUm9Mf%cZAS`iM~ZDnKa)Q@Gt+jg
z7<g&PAyj)8k>K$z3P9{Z0J;6MRh=It$zh;Tbal?~oe%G?MgDCMjjB$KWa6LJ`MTTq
zPrp}l0P#VV{_g3asvLA14w@^*;}OjeAc;zh;0=IbCPVJh&zdF@>C%XV{+cly5uAjG
z7BUx_tk6)B#vfFY_y{3DTs;-}*J67#t|TLB2PU3{xK{0l02VohVV0^8<Np!`{({_p
zMO*IMJWOCwLTpW@ZjM<~VAkYbnq{PWYz-4w;t*TENL#Huvu(-CGus!}paaZd<^i{v
J>0;=P{{|XH02crN

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/__init__.cpython-312.pyc b/crypten/common/functions/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..07958cf2c1e6daf4aa19e05f376d2bc7bb0e5b28
GIT binary patch
literal 342
zcmXw!ze>bF5XNWo=QcUH<FN7-(zpm$ijQD@ZnG>&43VAevPtk#`V{tdg7_kq7Q(hx
zcH$KWSBSf!U-4sxZ{}m>WwDrp*VFO$%`*Xb56!=#zhbxc#XVF|5d}y%!H7o~^B5DJ
zV9HaR@flK1G2<D5#?L(vo=;H`fA~x&GPjh*SiNmg4z2EbM=Pt19tW2y-L$2nD7`tN
zqeg4hc8yDozOAjJwr)lxt;>3eCODVH+<}dKu1x~cfLQ<y$O7_!@R*}QNTq~$gq?5U
zz}SF>ZJ9k=v(ipxs5@3_MBTCLu`7SCV?wlDI|y-VrbBj)x*An|VOM@Xywjg}e8z;3
W{R+qxd4tU>Y`&8GD7vF|>CGPmXj?7-

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/approximations.cpython-312.pyc b/crypten/common/functions/__pycache__/approximations.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..bd6d1fa5b5af3977ff961f682a731bd0277ad975
GIT binary patch
literal 19228
zcmc(HdvFv-nrD^z{Z{K`Brp^&qXzT@Y%GJZK;kj8Xl-D|Gd6Zpbd{u*THT_m1(J|#
zjb}GT8oY}X+=ay0d&V~tF=9Ot!`^MgG7+;Ij+oh-xwt=8?Vh{V)^TxM?EZ25br>eX
zcf`fs{l2VMcdG%<<Mz@fyDBRyEAz|D@B4j^)PD$t{2bDcYW`_xW<SUM1KpUZ%D8y=
zr?^<;Bu?T}+#C8Y{|3+QtKO)>Z&k`M;(Wu&a|4{@_}Ba!F3I^v+#7DGR&xCj|Aq&@
zZv1*B4@!NK7r9^ZArDA?<UuKbJR}8?hounmh!jR%Ek%$=rE26gQWSZuRD-;3f{)eR
zqt5lkc+HXMABcrDhde&2IZ~Mc&9BIb<fxKKh$+pROka$v7nH2#)bqHU9M{~5jH)Kn
zcr~MH4!ZKF$$^nfQqr7RF+GUJlzx<D`m-bAxE4UGapNYz8$_WW7ydc$@8L4CMJ|h6
zPeUf@%mVxlIg4(L%V}QXr??@{+9y)g6hG<ZxKE7lO`^(lRn}+LoZ`(VJ=|M0c;=X@
z8VZ<C?cYy~%jv53>zv$F)oCu~5Wj;)yGKEy@#Kh@l~o}-C<~xpCM~D4Niik#kEIjY
zWF{?)fj9$#D5R1j$*dq+@8DUN-!CAwwhCxtu*<lmBDB;z9up1<XYpG6a#}chR!I&F
zW<^EGT*6H<-JhM97MeSRUBbA~CZuD++d^7z?zpVT!X;TqWJX5EvaDCa`3WI0n8~oN
zq|t1ruydy%3H=#GP%|U4kP?*v83po%G4wr~Vf{Ln%*u*LgHX@43a`sF#<bOJ@wYSS
zge-_@Nl@`VzJ5+RCuEZ&vf8S5>9m|>1WJ#MoR<|L(=XUfvrZ88DiBDxl*|sYz9cf~
z{^UR_=n}VIZDo({(fr<{<q~r%w3alVNqkicm%gDnq~t}-rHJVPS##^XjXANh<y61s
zqLx+7t;p(FDy#8vmDU?g$D@61*^$w<@iwJnZ(Bl{7|qJ*Hqdt@lWw!V)mAdMYU}8P
zLhrL|3og`?$Y!`-H*ulrt0(797J|*WVDn7x-B5VGZgJhhx~0uaU%TF%k8aI{w$2>A
z6RMftcjfE@j(2UI<yWK6EIzyN?6pmE?)wgu+zmu$PCi6~T%vfR(DG&5>CaKR$W8Ie
zvsr7qVVlsivLspC;1i>!R5b~XcACpt+il2Q_7ZM~u(iq)w%3#2VVtt`t!c+o-U*i0
zr@Lt<#u8auE;-CGOuMpC^Z8@O?KJBS)tWW!U&&=Xt+z|fE0ZNybt=)-Z9biLPr0Vt
zL{rJbn2;w+Y>%a(2J_1PmAq4qq%|x1IG)Qknop;y%vQm)dO-=V<eTD(#_9>!3=dzS
zuTJ}>JX5}*^=2FPZ&AAzHF~(K{zTOP*410|E~Ly9{!zatvAPzj-VZwQY}#-3WAYi)
z^1Oe{$@w_RPyc;ltVo`l@|;Fpp4Gp^ZRI*RmA{1hZ(>aP({aZ)xl4R3AdX?-_-U`L
z;i_pdJEnjuL4=43_`!(5Quk*Eg^VJBpNwRrWPehY*!#ybW2!uuNzsEMRw0}jOsb{q
zSD=DK0*!-95~oR~h0g7QBB#LgF3PMm84MQ;D=oa)-rC;Y-mzQg+}Hk=!PZV#{81pT
zXE0m|+_p>TVl4gKAee23&;lmClQH#{iFi78?y-D-0=#}#$249-J-l{S9UF-czkQjF
zbNXz*A|@^mzCApBd3aiHqgxqJyI4<&cF8n2emt3uw|5B5=QEj9Oz0B2Q>n})j1*)8
zNwOK#l9CA;b9PYF`7(Qt$N>rvE0!`NA}-%--z{{!wcBc*K9LZ0fkxF#)+b~}!R?ci
zC;_oRN7ZPdRi`@c@$LRGNJTu?$poQT(k^DV1>*F)cs`j*W|NSpR2RZj$&5}|Uor&>
z^@I|Hk~)~|*GFOW8qx*Q;-U<RMq&w~Pox4Buq10vi+IjhL~Ixtq7X^xq(ss?J5eNw
z=_?fkG!;`in@V3Eqxr&xa9PA9CJkkxF+X}OK{%bHz7)~6td}&{BM>ZS<n#`emU?r{
z8Z=v{7H*JJ6T+Jva?4)Kjoeu_JD0Eu#k8P8-Wm%~JlN6Re$H61N0=0)1y9IiR8+(f
znPgtk3bL1Ub26QcbqTi2uDr7>`CTIZthp_fzrvbE?Jde0sssW+Dzsv?sPFkT4UJ|}
z6Y0zdVK0nfge^HqXx3|^iQ?YtU5&9O?@3^71AkZ7_2a)7u6gC&IPR1>D#Aac`-koo
z-FaVmw9Z`hY8e_)NR0Hw!U{2W%`q~TVrWDm`Jsgg0NZ2LYUsX{HkyyhSbr7pR2?{I
z4pEXcM_L}xLRooaG@il2R<KT$b=0ii9(63BG*MBYhzV$Z`;!Vu8qLMp*IY!R4*jQ7
z<0q77=^;O;@ky01gt=_-t8BzQ8xzZ3z?~WcQkdaBf0^^v-ig%A?_J!#uz%^uwS)P{
z<{QUzk=-la-M{v7HT48p3elEav}NWick0(IzP0dHp?+Vke&0;ronS-<L0fadtpGv6
z>Z`}+j?bUIa&o2@&*q(r-UaVc^jcssvJko9$X9PGR5$0UoAcE>^TAz(U|TNOcB?8M
z+%wa=>J81i=0Z!3oOk_9_pjZYKUDBF<$O&m8=k)%URi%E?>qiE=Wre2??fBsC-c!Q
z54bAd5q`FNwK_WA^WmNw{F3s)3k!X@>MbY>hUTM-8x}VFW$*3n|Mn05)5h-Q3riPn
zbT9KC_kM8svyI*P=;2)O@Lc!jE^6cp2Q_@(%LPL-$N$#@2e;`k|AnWh?2$?Y{Mojy
zUa#Zl8za4r@XuQUxc*y*i*m24x5iU~;RtIHo_P4bkwa(XrK%)94P{0-VPm;U>XD5N
z7-q0A#$(hY3oCtM;J%7VlvQimAvx*4BI)h`Mnp&TR0$6bRl<ADr@T`M@424xPT1^)
z{Y$7zJ&dtiIM9A(;<srJkP$ZtN=<uz6WUG{A-E~8Nk3{QQB_W*)7+F(at$|Q6aC3k
zMgb+XJOR78XP%YZk_V`e^^_3Z&=W8z^+LyM)BbeTlzZBrC2qpfl+Wxd(Bol@I#7fF
zi;$c0+?1dGtArU%+6@uQC`(f|_CzlyLxdmS--n+2saMn@`?bb_r#(=q{ftHdMx$4s
zLL=HtWobJ2<hhfAQ^7JkZP72g*=)@2yN#eL&1QD1`Gypla(=)`;XkwX$a{P_#(fui
zM8~-0Pv-geLzSOQI1N-B5uX7wU{dP;4bEeFa7CDB3V<&O_gF&}(Oz-{sP1Ap+B2Ic
zK%_(P!~~fIEZItsyA%#K%dG>gYXM=*fHo)P>|jPJLNYu0PVE5tJ=Z5+%4X6nr^L}g
zHIqIU7XW!s(?sjK<;J#m8Mx4vn~eNsf9V(9G_cip{Blx9>&>0x@g$%h*%5&Bar1U(
z>>M+R0QstG+Atc}vl9>ihLjee6V{$x0_hlg@EXv18dw}S7-(i-OjcEbv69>`!Z4u&
zf9lB&00tW45#7?WW+><>5m-m}{Yqwp-Db{154fm9K+*tg@JDS@GKcr}<rb!kP$ygP
zEtsTC-K7GOETX+l&bUGCW;Lq-ObUOPmWhCDasYYR2y`<JeYohow8G$$Y9dCAo-j)?
zZP?muSXw&4MLHkpI?7mj4e{wqln8SZea`irI%lj3t8P(G2$j)tu)6Zto)ke$t0DT3
zy_k$H372e38tEPQgs$4^S`X_K%AV9KF_nssX3!_5=5-a52aTfzML-onPRS$CX;dOQ
z3QN01+9K0jhtru$(EKvOd09ZCSa%oY-RNX80TtWO?ex{9X5~?|Rnm^7&@pPl44gK;
zrmwt;(`zp7W?0hH3@r`lEcz$RM;FD^n5j{gcD!uH^(EFS9JaQ|ZuA67=cOblfFY4O
zgu&^{x}@vp^c~pJJl@i}FIKt*SreckDbF+`#!5y*rg|w57%yp06#B)a0u9YDs4_j;
z()Qz}9k(~$U^Y9dcD1$1>DEih;pC_+CB@c^GSEhMZTef=J6}+Z-NZimXoJNpTZ>k!
zu`bTsdj(>uPpj%Xb&tR#Q%-cf=FvMtKh0hnJfx6OiDCN5TDvK0wNFM)q%j3a$sG9P
zMqvQ!BF*-V{Y8ss$7*zaXBRa~AXeE<8B>3vc70<ET1`=r(dm*hV;R6Uiv^|C7S%Rc
zgKl1BdXQ&ORK;voVPn#q(7obXUC}GnsC4Db|8-hhy=2>og_zo;w4kqA5R2c^urvo6
z(A@g8YaX+Y9<yT(75#GH4b5xyXakLy=~7IYV{AhO4C06lSV>o@7>Otw#y|D%nM!s4
z6`rf#bE{{i_Qjb$_<K*yoltclv@sXjxHOdy?f#tOeS7ZIY*;$;(KoJt<Hq?9&gN@&
z7HV2^HLc4^zNT~b$QKUOxEraN^+OE`N3Xs$_f{daI~UpwdopfE=0*zP)?B!C=2+S7
ze+$&ChHI`S=aN^3XC13y=tXlwvyQdjkFC}=eAsm3$OoHpwaxUo81*W4-_3bp#(wXe
zJGBjq2Nw<&YWL=9_s)7(12waU@UY<-ShvL++pZ5@-(6_jm22FUZ*0lcx7>0;8=O0O
zw|>LyQPR%FuWfq3IeiCbyYECA<}WUd|0>eFTHUbp+>Pgdc<|$c-#=8?`a*8&3%8y5
ztp{^W2Xoa27u<Ino0h(Qz3E2(^2Lucx1G7?4&)jSEV%Fc(9V57SKTlhTJ=Td_kDNM
zow{chPcED+)IFc8dw$kujc!HQcWYv0Q+Gaem`1Y|gZR*~)boLFe)8HO8st`144Ot7
zmkupIzudgi`RYpJYx(f074NApdU=!TkG`lgDe~xx=kVTrYVMIrnDN7%$JRN1<_{m+
z?)Y~*>yLFhezDGVY>Vd?+g-=nJiq949ec@B;u<5D7H!>!pJ8eIcCN7^EM4p+K%<l@
zS@lWJoEa)|l5s-;y>@YK`wWI?ahD~@vQbyE(SKsp{>0QeE9hso9skMg!)51yhF7VF
zmOY!<rybCQcz7BtOTVovLlb%)dWv((QAw+kTvHsLSQ?Z)RC64p(U4ANjmNUp+jVVv
zO*`J-4~+*}LCh^iF)56fmjF2UTLCs8wRB&alF4LC<Y|%RvQ(ZJjQa7mz9NK1uH3lE
zwtjbvWy^T0VFSH>SphGUjm5@HcH0&M#l_QvJrmqdlG}pFNMGD0U00Cb20>v3{w)Rg
zQBftUJeyXy(#b^{r)k})k9kLlT-Sy4_pVd=_lE}b3;vZP2M3ArBGwcn7L({qutv)0
zt%a-tf~>lTWY)wOUR8Ed#>6s-P30BJXuWDq_(kI}mo5vBQ8BrTlupV>o~c;n9HW&k
zyofm|l>Hle_}9poXERcx%a~oc@Gi(0)5f<W7u+$^OEMxd^X`|n?m6<oy@lZZTyX#G
z+I;XJoS<Ic?3t_InES@ObmeUr`{ww&!P;4#L|v`vEA2$JVCd@6xuf$P^VucwqrvNg
z9}MN5X@<DU2V;d`YcANjd?6p~nB&Ql+Icq+oH?#+!U#&ZFOisWUoZ#az6Q5~6~o@?
z^t>$DPqD*!v8Un=f9%eNl4pbIB=B%0Ucme>Z0!;%E!#E*NF`r9Ku|V0nwlU50}WGU
zrV0N4;1AYTW2@6d_+OegR3L-ZA}z`?A{6nCFUcoNL=PuTNy7y2g^Hm5pO-1bs@P^@
z8}=s8cBx7$(y-2xD_)`O@9<Bh4UOHnfeY5n_gs0o5ZIUtY+TCb1KU=d+t#jh@D+Wf
zfBm<{84}s2zf=$o1=&EJT0uDYwvjA(3T}ng9Ed_-K{;7Vx=$h0r&!WLa-U?9yXr~p
zO}n1_J=lpIl~9I_5C~<A^FtME%z7UaRdM2kESa8u1PlEk1q)3%`dPrx<cuZb<+q!Y
zuo01|C`N_=c#f0g;$s_hL>x$_MP))5gZ$Jb-zgdX?=&?1Q}X5Fcc*s?Cq_z3;D<y!
zRx@jQw}5CL{gN$dTLX-Fiv>s)fkj20Dc$u%ONe=x*oxCUaYIe_=mMe@kF_dA)~b>t
zy1G*(c4}4UJ5?eC6BDN6h-O-$>@NPP-$#a}Y5Rs+bJ5nBuiW+dXAZCWLRZ(#t()IG
z|HeW~-Y3i)hQM%nX1838&Bd<l$~o&%$LXHk{H<d%hjpIcb%S4cIUj;Q$K|RA;}1oy
zesk`dSKgehD!Y7r?)CXotlaCr>i@2PUYv{ki652bx6HjhS9L#t_wR?fV0c!UeSYTT
z+D$_6nTdlfxIkbHH)II}6d1`|!o>O~$E^v+l)!AojDhR|rWoBMcQGllpa5D9<EA0A
z%+d=fu7_ZmAdRe6MXpvbcQViEO|XfM@r>TeYv@%mlK@8L6w3Z5J*Y-D!`%;ZaJ;=Z
z_u`e8R-6rMhfPCf!zQzPWhp4}v{*3Ys>wgLhD>YO7<P#fQjZ;=HOivfXhmC{uN=|v
zn~z_ixdM}9<1HrwF%yL{9`pB*94=UnAVSUjwkrpg__;$X&Zgg$4BsvxgE{4v{59}9
z?M_An+Qh$qB9Nw|yh&L(3CO>uQ04~-l(TfV2K~@B)|Weo`P=E9#I2b}r!{MHN3Ig5
zw)MqNj7<gpUy-NVH6;f{B*AaQOHTHc?^o6X%`FM<r3(R}4pUoW5o8r~*C|VHgxqjF
zNq>EkU-8KiWz%jOO%Byz7-dQK_DMd;|Dn|z^5{;vpQMLQd!zvUXZvU0^$gM0EKAU6
z9VA8Z>tWKAwhPj<cghQYt`#K)uNe>TR_ICIt@k?(PgPiah^Z@E_beRPG7lE1t^HQO
z4O|)w3}(`nk<<u<HG~Kvpb%Cp>N|ynoXYS@j8DgyZ$f|RM86;kC8kP9Q)a3(?7*gV
zQ#S}FjJQ}MUfIHXW?U0uqI48(L;-C{49e#x)Is^;7C35*w;`?(<tz{fKVm*EX3KD2
zS+T1$lq?((h`FM$8^Y$~6w(ELX~dBoX;f+adi+<%^ySWJ`g*f|KTh{#x-NRG6K0ET
z0WImeF>+%@3~vvG66>_p{Z{%wiye2w!R!|GPiQ`iI>k{lcMs_nVB$je7zB6`S7!!j
zp>f=QKNNE++i)@YtT{Dmu?^d_ODLp!O;)yZ8#+Yaqq?u9(W%Tp8u4egtvbl8)W$#&
zlS9l*H$~SPg>fRGVT@J?+cD&$IpeA9q^=_Gq(UcUG0JvPM)q3G#Za4a7}qhMj);1x
zJiwaNg);)_(au3C_K{VYNqjAU=|+qaLK-s)1@FMxJeGwQMj^woN`x}!-9Yxlq7=&N
zu)ov*GRUjvEYoglF4Q`6^sXl~zy34NhC2;SOM5@se|`Ur?hjtdH|&@VtVWuyzB~8s
z(gljlIg*R)Sn=*4Tj+t$e4C2xy^(5Y%j&`lbC+kGck9+I9$z@Vbmm&$tZ%hp)8fd&
z$hAzNA(m^1<r{Vt8rpIVZMXP*L+5OOS($YU_1)bqs~w%I?R)Y6=RQ{`{LtYE`#<Nr
zzRvsAT+{YKV_UAVE#KHN`;{-ER9MH=Y$!xG=c1c$Y`&5Bc*k<b^5o5z^U<zZH-H~m
zZT~U6Ze@MjE%);Ht*Mp9o_x4>#oPPECVH8geWa2U`<Wx!<8u7m<?0ES+E2-1!DQH}
z-(7|se4KV;N~}t9&6GVA<7#XhDWQ?FWZOTBB;4(%SaU1I%~WMAt!0Q1Us)O=092ML
zSwXWDJI2xw*^SDQ1fA{^qBN4k<m?|iNbtbkYDp7VQL9YJ1ljAX6g?ujf8?>~Nsy#0
zNnXiqwlTE1>>+L?ul+ug-doq!nX+Ovp!d0l$P`wV%vpmh++jXK3^d6?f3Yk?%yJeB
zt3>7vPK?UR`AjOAAn}0s(`+U2XGWPmPUJD(&Y)qZA^j*iphf8Tox~lrYRTZ=r;IC-
zZMIRQOp4n>ViC=khYog3zYS=QFwI2#a_10@Zd!QNzHFvbEjT#@u^!Wht!v5&gjtxn
zGUC5&*^8J43K~vi<o^C-B1xntLHnv+AHm&lY?}e1x?X(-;;cxKf@G$KbvX@50zdDr
zww4Y73|hsE32(L__`Aal{Vvtg^pO}Lse?GEBdb|><OdX)MLXENwEKWaW{cIAU7Q@l
z+i+XU<ZPuuV75{+Y{<g%`b)ZOCFH0p^>JMF-TOaCbeKzmPEMFk5s^*$^e_iZeyq-x
zg35WSK&zh#7o6Z4JFnH0NJcg$&10N)p#xuZ+(mPaWs@nb+LHQlo$v@H%_xaMCP=l0
zxc#_j#F}p`4b!JAPs*Avi;y7|0#L>wF{8|lMFXRy<{cCjiB^m*VGWxDldvpq6-RW~
zG^?7QY9S0FHKA%X_I12Jl^lf=U31Xnk@jIwShrm>VNcmnlBxfM3&_;w3Nm%WXP#$Q
zBehq@=f;=#E0+tAExE{+d}Lc8(wvJlFGur{U4=+nE<(~U(z)X8B+>fPXTFVhs%sZR
z3!y@Fd#<{D)^#VkZgJzn#zJ&kF1oD{-It5*`%C$+hW=vc)6JiLEg${rFS~!)^UDjr
z?8!x6n|0r*-?iLxYkR(a|E&LRu%QqXazWw7sg<CR4>lKqow;D=t&Usg^T8Jj!R}nJ
z`%`fx*qsj^zwh9D>mfKJn+xF`x$ur<cRt)U>mX5Ddv$7V>dHGS-e-#>>cmQ8cRqZ0
z#d}y+|7gjW$r7FYpb#A+g5eFwN2(fr0TgrL-Z6~&O2AfR5EzQOl-{HBc!oI8OZ41i
ztOGC>l3Q(vzEYOVI;5uQ#y&E>N$l_p#70#mQ3_!~z^N?RhIq4II7VZMTAUfAF<}g*
zK!Gt4?4FE;Fxt8FFOm>r0gF_^OpmMt$`gb~<-S;let7Qvn3Ky|DrP0~p>1M>`NSjs
zR}iol3~!7bD9lKb$wDgf58?{rI%~9_ziRO~GvY_+Pb%OX!#MQ8LVcLV1@<PYj}t$y
z#@lsu3;gcYc!z#HPS=LPqLUakolfbPriU%;wxyG9^fpVGBa4Y^KKbeqoNdrUeRS&=
z`maYA6|o4`McJT%ex8T6?mshsH7u@ne2&$5a>N#Q*Xk<G1{)|UsDt7tqRQaifPC96
z>}2NHbBx_H9f@)0d!$KBZnvjSALB?l?|=EA@cccdgpe);)9qpWXs$#GCrx$Nof|?-
zPD@2@y$q{@122i;n87{CTA~Gty3SmC8b7J=!&)RQk7pSh)elgtWtjv$70O14W&RWw
zupMsXyrJ0(-<p{3e(#;7`Ww;jHQoVWZ+s;m?q2bB->rRSv1_60+JX7jnXi)PuIK7k
z=e~O7WX{{T)SdG_JJU^t-E%HnI3opTL(bVSe_?TKVGNqb<zG3s{v!@RcFfC57Z!%{
zq0I={ckPCWw`u*-@bczm@#gm2#`auO`>mI5U--1+Cu6xiy}72|*~qH5w%~2bd7G9F
z{YUSv`!2i%b91ov>cP2#OY8H2?JLghPq24=k1@QbAZ?nCvNZjeL&zpWD?WH^Fdwu~
z#C%|?gN=$TRPf{2jB2O?s<$yLkT<hvfjOZyX4?XbV~n!G=}55Lim?{OZJ5lmk_F4Q
zjhVIJ<#>y{9F=NI&Z1EeRw+wauu(l#Is<8bVG`ppufZf;lW+QoA#~fvp>#WneooJ{
zCX~iY=)MaB`-;LDaUxY}L(ilQT*Zv0!{}A9ErWX{7POHQP82Ks#r~4_s5%Qma}wyq
z;bSoYEQH8iW;W0~q~(uhF6sM|oOD{%Xfo!~+<L#5qg`|Bb^wh}YktFVn}q+KL?n&Z
zum;eiDwJKJZAfd2IaA8d6W3lnJ9qZV+xi(|+Ct(&G9MCX3mxOJhn{Jqk{|T^u<zr(
zTOIjr`))^XzxI>*PoqC+%xyc8tM8fh(|O~jg{GyWAN5`DgJyo==Du4UH($(e*jL!_
zVs68Ww|C|@^yZ^SaU2<2>=+N25v;k|HP<zt_^{`r6W34tK>Fdp#{>Bdt+|HQe4uT`
z*|rvD5DUcoau2sa5I@bSVpx;ANN|(ISM_`afP`p3>2aW==%g)utt??j(1esFbG@0r
z(7`Ll7}<Y70B{IBQd&{30`U30^}zxYc85U?=Z{<_AJKg=fJ}%mBHJ$0v@37|lWN7M
zq$}A1V2O5?o}7S9+&Vk)xL!QbN=+wO@SoXZSheYFG}ig)wdaFf?;1}GE3<d<u%T`<
z+o|#QBxtjXfCvOGaCXv)corcd=?^dHL95V;Py_Z?CVd~(pP+LI(AEV!0O}YRqcCZv
zPMx{QYo1|Q9wkMJERcQJ|0(>^F}zEPN>@HeUp1ae4$Fv~5wjvisY0u9Kx5S{hO`Wr
z#gJ615vH)2qL?-19=?Q+s#*wdBu8+_moN|hBmn|d5%;0_5Z+FXKUfJP2!4ncnGM$p
zXEN+4lwBvT@IP<?;fz?D;CIHqHU90%`PbficNM4f#P5!;c-vPR+w<P`*>OX!`Ox)I
z<a%Ve?#GQc8}sY-<|F%7y!-BY0^gZ{T(AB1J4?~eJWZu_oj>;7^ySxe<|BJnyn9S*
z;pydV^T+dbP=#`Joiis_L(%z@xzOgBqln&I^e_0Y1!qp&@deF;d0n@AR@QgteH3r$
zIu5bE^`n;SEz6EuXO>#>O<jd1lIHoQW3v&2U!ua@K;8VixxjNP&gZ^xl@%Cvz?v;R
zyyNFQvjc*kSjpltKV`BVdlbLr$=neJmpSnJ<T8-b75U7Mth02#0jJSVl0BW%RKg8h
zB_+iCw)xArT?L!~ijaNIpzK;sQxscise+H;6-Dhp;c|kfJSo0XSGU}d{$8;GQwQ0f
zB2$luKV8E9x(qBF6r~TP24PP4Lo4QC3SFqbKA21)cpsu!Muvm$DTL?a@0=vD<H$+`
zI}hGyHrj#?6Wfi`>l8GFHxP!Iy`=v&6k-;JCtj85=yaA&V#8#l(zlh}%u>U)t?>;Q
zJF?>Wlx!S}GO>xD#5wc-;Ea!$0_=x30CDwXr-9_xeMIb#f&S-P$m^nm1NMahMU<Fz
zE0Iy)_sFIu4D3P^qx=hGHxYfHxh45xG9l{>P5GB7Hkg>QNc9*Kb4|)hMpb@51>Zxa
z`B?#DYsz&h{eUt;yUK@@5gIAxV#=RU>A#}vBV<}QjUnL3z@&_L5oJVoYOFE8(ArWc
zqZOzA4KBd0!e5$Q1+E8f9A3`;`0~xmzgqWFK5}5id*HDQtFW#)x31Y_Z+r5Qy(`|m
zPi0v+s=U;2?ajsbLj1<*TifR2`T7@T`c^}=^XWoEbFQH|->@?m+6mr9e}#qNnizjH
zR<B&4p=Bsz1P&X<vsQ$c;jh;)5Q$itI2|R3>vScO>gGJ66N}-}qc;d0vp@yrs%KU@
z-AhHf3B!Pl<ugJm-={LNm@@;{BkuwHMU1hO{Ic@rC?jsCjvzz0BhNpq=J?=0aN+;V
z1^)}T@qs%MsG9LSc&>)8dAPHK4?P^@dwBjd|Ddm`i4Q&K3iI0^Y^mpK9<;mpXCBnJ
o`Sp5M*Tx^^A4vQ*{s`*w>-py%9Psn)4>m;j9S^smHP)T~3zJ>u+5i9m

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/dropout.cpython-312.pyc b/crypten/common/functions/__pycache__/dropout.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..55506cd6a5b819b9e0c2f00f965ea803fef47ae4
GIT binary patch
literal 1606
zcmZux&2Jk;6rZ)%UVp|kA7qUR42X)lq;?~U5N_27wG=_6RwX&*VsE@-XWjMgGP`c-
zbR$I-2e%g*IHXYzac@P*0Z#l8TwDbSXVrtHa_P+|J@tTiv)-|ziYM*7_vU^5-kX{I
zBb`nlp#8~z>zxQfFPOq96bMHjg0PKLqzXD(9&%w>P(w9gIi!ke_y=J*+!At;mn`7A
zC#lr5%%)Qjg9MB*ISk*?zQB^Xf-2lPjSvmFXpw0lUyHcNMe6{`-xF?K0gs4p1u(Ys
zEmFgKEE~{0!41(_H%w<7$T*}rhs-yCtKwc@7mypWry*ik6V;*NH;HFoM2^I5^%$4N
z+(q@|SmP3p25XA%jro3LFTl4Ux}xiMw-Et6AA^5p?8hZF>I!TY9REhtjn+?a>zKQd
z;~p?MRG%7Kx%9u;X1I0C-^`Yiltma|0t0=g7^>OOTX>yNli1ic8w8tG?5q+@bkZP(
zV{=_Itfqq<V%R3dYnrp_XRxTbqO54T=Cp88aU5DKTjhMhw|z-#cF~tuEvtx+J3|!(
zS5_6nAUbwTyh4T`)I7dIs!CILiuhdqvr)K170u9$S`jOj1&D(?iM1-$Y+Noc(IzRE
zj|KCsQ3hy0S1P24zo}xIKr7}bYz`XIb*!4uIb<^}LKR0d4Xhbw{h<6P3u|Qruw1^X
z=r+{#%{4ysKo~5npXD%*x4x>_LB}h^StG>2=P(=uo?rj!GHqE)u))Jrb}EMHV7qBq
zCUpRij|W%G1{}u_q}rq~7|bV>&k0^sCAYN-dC6W%F6l|SS*wAMC#@-zP0@=~bkiW7
zRDptUrk+RvfhXD;+ywTFJW<tdmprl2)Jt9%WG@V2P68LAS3SY<V!WOw1)#hnOHvwM
z5pN>sf$M2XY&g|Gwb^TAvjlpbFE|aWaHl}$&ldtf1!%Bg8ii`psIZf;3qiWP)uQab
z<1g%y*?m|x(co<qi?=V|yVJ`|wUfPgqFs3)gZxmvf43WZr=Lu<?FXMf{Ql9WKdp7e
z8(n<k0M_Jthf-$i>*uk|kD2?KUTX1GI22F(6GN%#!{lUdYPNl?KQ+5u+$#Qjv737T
z@5$`;+}7M9XScP}dVKfS^S@vC?ZTgv3!B$^Gq^LqRoc9MC{6U_le_Vqc;|zT^5oQk
ze7c?P$*2C3&peaQJiT-v7u)Fp6v%c(c@RO_cXwkuvCfIk%_lRDGl6UFnVfr?Kajrw
zJt>3Z5%h?1;oxHR7nZK(M9M};+3((yN+m_tOC^6OzaW}r78#b;v5O5;ZR+F_Jqaqi
g4mL9m!h#?iy@iC#3pCMBPPaeVlwL(Y60&~ie*|)v1^@s6

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/logic.cpython-312.pyc b/crypten/common/functions/__pycache__/logic.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b77c06916290c1b3c832ddf722c8696ae9fbb6de
GIT binary patch
literal 3869
zcmb_f&2Jmm5#L>|D3U8#qA1ysW!X=SBZ-bpS*?rKtRzE?W5h|Eq_Gbzqk>*>AE~96
zyY$;-EHV_LgAW#Zhy)*`-qfCKqz51SKlDO^1tct5pg>N(8CEXIq3z7uB`J|afB<>G
z&d&Sb?99CR%?$rBI2aLN{B7jF`R{=H1}DuS`OHxjm|Z~=G|>=J_?8T@Af+Tx$O&5D
zuVN~o$&ZDUtn~ry(}F;QT0hW!Ed(^Ag@J}?C>5b{N}+wJ0UAsV(*D#b8cq#q5!fBp
z6rfRU0O*J|qzyh6Q!(un%tp&%eE21*@=;uL!@8YzsA*d)9(9B1G<}#(<2y(Fx8uDH
ze{T456XyYS)pjNN(3Nr&9>)!>sZ4WJbIp|uSTP(|GN~&wYLr~r)^n!Y_h^kWnrXTM
z)sW!{z;kp72)IS83V9LOj!_lA_E#(5*t<epszg7fPKlW|v8j<ION*rZ5|6}1HVm)l
z5_}UjT(NB9_Xzp^@|;sB&aKa}`D=3-RxX0&a~Z2pu*|t^$;>#qW!iIwmD4kcVwnxV
zk2skE=4ceirtlwS;ED6qqpe5V5C2rzTB^z8N3brOFbF?(%%G~E2vxBHi@nVH8h;K0
z3=%8DCk-Oy=b|g84X47+z!BdHb{2Rx*d)`qgWI6oVD!nm+sj+G50r_zGSN^bYw{#J
z2YV;<`>7nh01juTK{_~`tJ9_A5Nt9eZzD5-q)VHYw`O5`SE!<|;DUdouNFX+^C-Vd
z2Mh%s4_AS)V?e-B1H;?%Tkm~!W9vpkIaia<b*uGLIcf2jlcGHpRB#o^FOli(q?R_1
z;Y`~}8<NvPN>ys&Bagw?F{)BkQiNRV%m&Q!eI18j+6>2hfA^l&LSPT{O`)B5mvPyZ
zopO=7eYT@!9<U3r<_7FiAs%3F0MEv8A)@KoEMx*RLv2)-5aPu(_YsmLJoXJBa9z={
zJ#pua&G-Km9ox<~qEiRanR;~Q+1VHQ7oXK;mmAUFZoYr0jQRI@ppd#k_M;8u&6@nC
zceO1yfxwnC6EMMqqe;C}PSY6`aFm~P0+pqAtU|HmP@6bwlweXLpQ}cR5-Uqo;^k5@
zdzI)m$v`^MHLy}6Ma$M5{c{@UfO(0I;_>=i<W8|sKi>lwq72Dxc$&zDwDWNL+V1t8
z>ra2P^<`Z-Uz5*wTZW#*=ct9HAH)&b#q-Y037a6RTLxIzZ5IHYYloToxXOT6fg$+_
zH++mKL)#a3<2&)EZ`Y3{qMjFl@_1DDRJR>>zQR)F*S^Bw@lPq_?W_(y{!llm%1ASl
z6U*dRq?>SE{>3D`5EZ@L-f6}Nnt|jlnlT0h6F!<Tvoo_d_4HExSh7GrHwOZV`~4X(
zyFwe3dA#V3(ado0mN2T?p!^{~ZUm|UO+@VUf+p-qxYtYpcsd{M_%KY{MHKEmpq>Hs
zmWxG0_oMkeDBt&>e7Ai_4O*b4bLEk4(?|qRN?K<iz%`l$pKC<5lip?`K?<s~mQ3=a
zczng7>&_R=A8pL8$H^jDS*1DM{34^;)ZS<v#pCm2+W!gBvt)y;lO<SNSvhg&O82P+
z0*f8T*4wfyz$!x<K;*GgE7a7QTJSI214uK~%yBd$z6~#?80ZV(l;p<U|Ln^AWitQA
z`y`{9WR((C%a?2i{7|xWGsgubRmWk;`vu)hLw2}NR8u3(HFce@B|MicvmAI2ZO7sN
zAc>4#C>7cm?AC@Wnjkl6RxKG$5<Jir<9!3fsOvvgj3<Qy#jEapZol6wv9}<GI6^R^
zue!3TY3aDkQ<xj}buUq1z3&4%pqmb51*+*P<V;MxXr`CzPoXp<zlX<0&}|CeP79+G
zyNf%E`xl>$*MIi&7dQWYy?*UxZR*`d?AAf-gL>?PM(ob!hljBX`{K@xgV=OEHoaec
zvHX`W8?j%(x^m_~IR`-9`$I#SsmU{5mOPGD<T+aNz#K<w8y#%CD)uU)&5E!gRwZau
zd8dL&X(M2UnsY!kU*R|ht{TAJ4@;){3&?(V0a6*qCO)!kl4VxG>tHQL%48Klp<(WV
z>Y+i+u*_a@(%K}mj>R%-iB-!o2ne|I$vgMFem+T{*EY#L2DPcIQ$yn)x!j5oyoWX}
zyc6ZtZn-JguV@{jdCB9AHyDE%z#%%Q3)Q?O0p;^<zikN?#apUjQ$P0ob~oA98cpyF
z^1jQZd0{9qyfn8jYgnq&3c8jfyuKn-P8U@B0o6J}4ZC-SqzI3F3kZbTX(1Hd9{*?m
z#Np`V?#DYHH%8xj5<ZNL?umQ1|2znBwH1056vj^Pg?H}k{|@F)LRb#s&|B}V)s^X*
zJk6skF1`F83{TB5hHZsA;X@|j{l7?f=A^MRvOPok(`nT((rK?2@dldr%e-O5evt8A
z2qD8Dj06@$f_)haA;I+Sm18I(9x6GQxS7wrPMhQG`_Mwc(n<zhVheB*E3o|l$g6-T
zibunOIP`B}{&jFfkv98ZUy{VLuOpIp9tr0reNGlHzB(mD1~!9-VWl^D9hAfitzS<b
PMaIP0qpKsL2g3gYF-lV0

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/maximum.cpython-312.pyc b/crypten/common/functions/__pycache__/maximum.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..29101934a75ea2dc5d876575cfb63ede83693efd
GIT binary patch
literal 14228
zcmeHOYfKzhmagjR_k(`%aCh6#28?Ng!948PPHcw&j$<b{F>#Wylfmt-0vba%u5OG?
znz)mRG|eVjgOU|k$!^*+Sp{#r8lsgZ<kyf)M)GR^bh|vEr-qdnO{7)+teg-jJNdD@
z=iI95YH-_mtXA3|TZmh)`>uPw^PO`~|BKCLrr@~Y`p==8Z4~uqyipE~e6jX-a4}1<
z6iW|Nr=&A|iYE7(QyMsHhM5uVDJ@M6P%QHc`jn1!vD#PZQ+hb-;B0`i9?nKM8{lkW
z-K-JLX4dp7b;<&FX1KGm7Pzy)ofYm%;B14loh@Zc;Ov029nMY@#g?%SxN<=bC!F1v
z=s@`w*x8-{Ei$40fq+)j2l;`K;6>>ij))B2FeBkeNGlHuPX_pB;D0Si;}GNcj2uJC
z;FSk(9x5y;KcCbls3ELn!|}d+&(i1WDT?n;FnlZIG;PQRw{eT|Y{;rysb^LLrApL$
z<?06WzTCt2q33u^>JqwM>O0$TNVyBsAKFITt&~ns2|B?fw5;}q?tPu~6#Bu$HpR>G
zd32EH9;0|)o>8gq0sX{tC%E_+ABp+ngPcDcVZ$LV=8yK1Tlj$Ck+Bi~h2ZcQhYy3p
z!+vg<8{s1H7-YswW<MNf!jaLj_!)nki^QUQ6M4qtY+a|W)1sc`E<m-1VX0X9c+y-S
zR2{JJxDZ5B|5zjx4@V<0(F~9KM!5K3loc5^JR&j?Zd}yGqkL#k)J7v*jK^;$>Lxfo
z8WT(Uq$Srk$PJHjyy)zMEPaE~cwao)2V>zb2K1sf#trxLb}VK%$8n=rtwGKw>gC4t
zJQo`qj>q(n4F}}+f7{d?9~o`F*vz-IH;4F3qcFDSP;_J@8fngVxLKZ|rqN40PAo|(
z;3D?-kR++EjZ}&A$_rC3EZeqaZQGKER}Ge*UwrxE&nBjydgbz$ddg98hoNlFD@Ue|
zym@l=)Xb^0X1@Jb4_<%pcG&}hbuYX$+3%PsM|sM2M@PBJXE)7kdVAYD4Obh|XBSF8
z^nKvF?L8nk58g4T89%rA=DN}~>G1{qQul4!(d6MjSzIg5>hzxZwgtmt>2G`=`2=To
zN}sbhlTWNcN2zrZimQr9Xd_(A!uqyQL-LBpyvjk=7;}SuAM?V|O9eFdUrpi2k6%sK
z8S)8voLqhrBmtUCc0kLQ<0JgO>dP2@4E&0`51-?RNP;7Z;iDvV2R@A})qUmQ)WNyX
z`~!=RrVa|0u8g*e-wf~9O-LTH`e8}`NXVj-Q{Mqw8UkC6;&7sX8^Dd0WiG&YRS*M6
z(B9B0;3NrlJpaLpLYyw44buvY?WSl1F`U5-2dlqfP;yP`SsMS8c1RiLh5~SVS+A5B
z%7d1gOBsjUOBJ#J)>u7^O@G6vz}oXL+mm|CnJkAf>L=hc7ON8%;tiA1FUYUq+Y`F`
zsfhc3iF42{?}Qp~t!+3G`B{t52_3Y>@Y;kfq3_qgm(j&NO7?_ahG4JqL_I4IjAd%5
z7Ai)MYiQ~x@D*t4_4h9_KcU9yfO+CzAuxX*BnChR5LPg_hv08OBie?e1Aw~h7{OSv
zl#Py^9p?JhJq2OHu76vaN46#viJykIMB=oPl;JhW&ZG9cu2E$#P(l!$w_y%cq2!gQ
z3k?I_id6{uGF110Ch3dw9H;gyCfefM$Y@{m0>|@VmLuW~{9$ZZWMX3@d@0l?n#Llr
z^J5$b_>XIcXoG;E7zB_WN(x27cF`s)3mNKBsu3dKkWd1#pT`7P85QdU2})9*+Z=`P
zoimt|FXk-vD|@H*zP5kP`B#T>?uyy{GyC6oC}XVxJk69H%vuh9?%BIoy3~K$^F-?C
z9V_MVW{jS%4V0^F*;$=+R%dGWFCNa+bPCR{FDcr#Kj*J~&vMPO(3Q3b{(aN7Zy0#E
z>e=$nrmLIMI|a|KWlww7(=K@Sq>kq79;oc|+SZ)aF&#>`1IBlK&1klnv&O9{+w{a8
zJ!LJ=ShnQ6mFX>6Z_~1;E$eApWR{-Ic-jQ)&>t)=$W&T6dvNBU;I2ut?+soX{N>Os
z_b$*jPT#VlHtVQO_uh5{R?DhDuh=TSG*ec0&b?)BGUIN{SR0|Z)3@T-n%=qKUKm)6
z|K`PyUKAY1?&z4(k~<V*EBR(S4B!q9?b{fxk&kz{yS6i*Zr63~GOR<^ysCK|a(#bQ
z0~C->0tvE!(gDoS;M%niWW+0!tAKWc{Cp4HvtEAqN~ns+&=-iMAOpBG0=lAW4W&GW
zgDF@}xW0Hyp2e5@AW2fIc6W-qa(e3YT<`q$#RpQS1zTtGu(YZ`$B(B<RvqQj=Vwf*
ziMc)LtylMD?6nzVt)!BWPbmkoTB4&7Bw^y{q=wZ1B+-*JfLk8?mFyJcP+*y5&UHc0
zoZpo%LbKXQjRsXiVasxr2@T6kfFUz*kM<Ox{{{Vz`oE?onK;f4Ifif^HyrUiOIPYu
zdfP=^(S|ewR7mpz;11#b$N)DSs1zsQS%L;uEcbRs^SW0H<tDXCU8owQUdIuk$We^x
z$8pU{Z;NnurM4lLl1n|aT2xX*fz&0Kp}cxib0l<1`AL03UrfcYc?CLYNEld}sFv?j
z7q0ychgw(BzR0tY?@_+J5GW*^xp69Bm{?R4QH#Gn%CENp;)B7se=vA~Blf~zcwmr=
z#btXzvJd>h(NR7+%7=q-$yNaV4ORlseZ|U<jRyb87+4<1>mxsH4fug*j|Ta042%MQ
zFv9wS@FWt82P1KRWNhRt$3tN=f$r#7ge3+Ga`UlBI21%vg1qbb;=kbFcfzE6fr|p{
z4=uDFlQg3ZEQ9a_C+fM2qtJwCkV(F%gLXpaL>(WD3~-{Bj}8y>NOVM9I2`GZidxWS
z1ETh9I35!<m;=Vg@?djP0i$T<BB4HMM3V9|^U?9XVJ<Qd9~9}JNQXuGtXMi44D;jR
z7}r-YP@bTO5$Yi*0twMeV#RtZr%x%%cS6=6{KqyCT?KZ6vvk@rRh@PxJ9B}yUsYYN
zT67D6155O+K*zLqwrZv-?Y`~Ywsbyu6foT6O_`UCo~+R`w<CT2YE#B|V1ECv4qZPa
zG(2?6cp%yFHRN$zu}#@NEnAw%Jbm)xmxPXIJ}ZBAv158-_VUc-^!fRgYhw#-)0cl=
z@xZO}X9eSP$quO4=$h_$`K7mY?^v!{-tB(x=(VH5rsm~M?b%K33+J<&_TDn=%~ko|
ziC>MUJKh@47&qsf+m@X>vd$gzErN4rN)I~I>Y8p(J(ST_fZ5~Ux-oAc>kQ0q6`YOB
z&gQJMdBME+)CVPk^ANFV<br?ss)DL`jwUAE$1PjB0>+SRslb#K_#sMR@=)~@Lrn$6
z0Kf8O6B<Qcx~Lbz1e2JdJi3v(NunYy(!^qPG@)bZ30Rox&VY^s4B(hX!LjF|WuU=^
zNu!FAL&SxowuM(fISuEYm(Ge!Hfbs-lSehRT*8zv4rmHnn`B-;r==1Ms8D8Niipt>
zVqE(bY6y}JGS5aqSe2EyPF&Ak^2bJp!|`}HG9al`Qi~)L1VPTk;@oKLj4H`~@&J$p
z1k11D!x^|dBRdmzL8q_NM5KW4)xsUW2a{GvKw_~$zMWi;4{|&QKB-_lU>2=}6R#6U
z5N~K*bg6<WaZrvG={}Jj5$TH}eMvO&+(;082)t-j#)$+rhEuNys3M}<i5!o`xx8=|
z3U(jBW*=#lKLLebg#XxEkbn_tro45_o`$TaLGbL%Xv<e@uIb&cJ^vM@)jdI{=$y53
z*;<pe)}%WHYdze18<)MUS#Rq?$D;Ft!;2kD&W{c+b=;&s?#{Fw%{<wg@wN)yr>E>G
zI@OX2uT)gdPR>lGpPJu#?V0(f7HFZOHDz7dQv1&7tEcB17fqSKBR84bTOQ9Ey?0F5
zBy`AHnbB^!n{lAlMj2Rp{(H!a?1KXz6#B=2l`xaA%91V?u0YcAvIO<XM_$r22~AOH
zVic*H)W(rjk)vRB7n6v*=FgYashS@=WDICyxi6FYc-{aWDx&pShTUi~>x&wr3@{Lw
zAv}ly3v$Z>H)Hei42HAeZo}^~Jd;g7{lo!9<HCAVrNU3-!9Ny5!9s7{Iuj1^4Mh2H
zd~k%Qw;sM4dLSB=rOS82ZNMz)Bt!pjFb)DKNe>f_#6|5$5EK*xRgyI-*>QDHMxwnY
z{s3MRFPe_XlxPI$>>G=r*hKiF`1Tkiq6Os&4ZRCoNOa?k;*%pbD96T->*WPVQgNO_
z({SCe_@6@VDfo~58WLd82ItRTdif>6P%+nX%dlB8hjQiqbWLh+vRh)(?$VSo=kP8&
zs<V!2!BLyi<&3r~<|*^^UctCI*|B1^zp0%y&KT#MZ&(ED=4AJZ=i#NYo5swEX9dr5
zAckL?DYI?a<jtDAna!;WM>D=dg6Ux})^tzOxrPJF4ISBrj-|m&Lx<3CJZr2^Su$ny
zV79^QRZBTk@QqHrmTaI;=<-LlGM{YKJ<?zZ$rKevL{WLc`V5}lOA!?)6OF2h?oX;!
zMWrlA5I$J+sB(ZvYt{)VSW`${$$L~m8c<qAo#)`~C{#{Z7bqtXrJ@QHygD=zbEOAT
zD^R<!(0?_Qr{iQsNTL9OQW6XSlWYipUun{GkM>MTexUzlT5!=rP9q8;_WL2I8P8Im
z$eq5J->Z<M$MZfe^yw%{dD5J~Z3tP=)m}sW8%8{!xliln?`YkkI{t^y|FPjnSQ3T}
z>f0L6d##4hQM2JF0%O)8bck*^U=+F=dS$c($ZV4(tO5U&rvPNOUN94gsbCtv%a?T-
z-pY_>oOtX67aHSZVXzcpV`us37|;WbumNPicsJljw7U=v0=Ga96~dc8@3$&|H{|mK
z&IrWuPs8ogd<~>M;D16sz(0ctn%zM0&+~EqFy0foKmg1D9-zVCC@1<0VP~CROztb8
z6#Nk^j(UPu0nx4kB7YiN(ql_~5z!g~izMDB-x<-w0RGO44#H9TRMx>iiNz|$Mp>|o
z*n$^*ScZQX-`dndFgaq0f~^vn67BtC;6_8Rl^+=73=#^1zYAZ+aL{?cl`bTY*I9VM
zWAeA~ADf2N3;=6%U9nHu=NJN&U;>ml-z=T=%y{Nn-q<YID#2ahE}hfQJeYiZ)nH6@
zymCRpVDP7x`R1O_mImfq<}X~|pK<R26t3H~T(>7%w`bwvQg5bik5Knm)>xA<Zkh{#
zolv_&vNsmnfW|x^G;}TvXB$prs(UlWs+C>47luBJd=L@#92Ryx`kDL4e9QFF+2b?E
z(;dGrt;@KNq>PZ{8XiITHBP&yY||IhOgebYkgcfC`5KmeZCPL2!V$rD0NR6bc=l!X
zJ$AEA*mNBBQjFBjeTzGO)BI8M&6>=UPyO?DVgHFtLvPW#JiySJvYw{-i-Kows$|8x
zmF&N~v~Vd?*Rd44?LC&VlX+UURc39K8ULO|bEc|Ou%UO))I;ZLT9<3~WNY>;w%ycb
zYW4^<Ph_qB)T7g<L1Vys;9QQ1RLNhy+D?@|Mt`%p;Mun^bTWM6*wpROe!91!yOQ}`
zrLMdF9tz~<k6>mjSouGQoiU&`08V)~K)$9J04l(Zun!(729?hJ^2z?F2UTTu|NIKT
zgF?{B3IRMHpsv8mI`;sqWBPRy)R5<h&<*)eVI7o%50rxzJwnBHh!c$DPg2^N)D);I
zP@xJ05+6<x<#kti^!4QVrP3cz7I}t>HRZun2YwgrMA!FYf$MNf_VO2?C44K2N6JO~
zAOR!caQsPpkT;<C0Nx@Hhz7;I9)vrvwDPo%{|V+fg$akr!;ln^z2I;RXIzFEiPha3
zUgd7`qfq2`@E`jlB=;hB{vGq33$E$s?nm%e11$?3|FAiAac<i?fvbVH8gALQE$&So
z$r-Fazx48@pS_6ttt$<?7Ro;KeBk*fpU`mNGxzayaLKte_}eYh-Lpq$j?SI`n<p~v
z<A^KASFO$~$ES|Z9RbJ4<AOB+6w%eXuzRsyaCIh+<y>2qUE8v*ZRx=U=e1$M)wb@L
z;A)0@!UO;Em5nNWl9s&Sd(E9y+D{lar0W<UejQXVYoGlH0scY4`<<p0I#P*v?^TVg
zA#_P?I9M&KyK4v0vLO@PCKzB5Fe*F<i_pPB2eI8~67^E5VRnB*?0@oB6*r|%8_%o(
zVQbQ$@-8r6nS>#4CK?OEER1AyC}3EI1cThQpEsOmK*x%Tv+N4pXxarsA&9f!ks0_y
z!B{BBB0<_<;(b9lNi{T1NRY&dkR3r}1%izv<%AKfXD=#2;-ABO=#?O{7$~sw3IrYr
z4u1|3$-OD<qp3DuF^g{fW}iBmK4~-@ABXDx0ROSiA-R|6|1i5Q2YjUEm9Z6@qlhNf
zn0&eF#`l`8H7z`sZW5{wX027AgHPq$-fwj9@=FR5P~$d-WE;L+ira7R*1lJNt$x1c
zm*Agi5**Efb=N{m*4j=?#vC|0kIZpvjK-@+qft-Un={QFOBZjKJehnnXK^KazHvgW
zcd%-CC(KvTS;hReO4kWW96yS3XyJljz)NreR-j^?S=F6<bfhSX2iz(kLnLCrs@j8h
z<zVC-VA)B>`W&i^vw21I3LVe|55l50BbFZq5114hgydXu&~03+u~9A*?hnICRoS`}
zR@3A^BVC*!m4$*4|5=D50^$#`M5oWJGxX0if`6mP)-*idULXz1`Z@Cgsd7Ud`}3O!
zcW)sauSbI-67YlZanCJ-;$2XyMWaNnroeMgwkSyb>zW`vgpsb>nef;5a%3mo-`cdN
zsTDk={=s;BG`7FFxj#C5t|`ohn<DYZSW_h0JTg4k3^IQXLXL)lL&2s|wm%>ZyV#7V
zy}ZZZ*L6<WKv~zhChQ&OFYI9(eybneL*5Syj^7H2=q}RP3D?QUxkz+8LX19Xkw7R9
zI(rBZ5qJ=-C%}|~?V@g;kMaSgfQ;Z?R}AF^)~IC5Y{R0M{5!sS3KDRymQu!&>8e`>
z|BAhS-n-B%*!N|O`*J3G#vQn23ar?1>!4GxKb$c>OrF-?GS#oxo8~7L+XVZejPcOt
zCEkp$St!|+G47I_qJ>h6az&(;hYN@dk~JOZJ&;w1O34RD0SRVs*ZO5AYy}k70Ojx~
z@b92sAuq4eTaqI$p%T?4yWE-}h9r?Cp=g)?<xM(8pg}9$SD2+`dJlm<Q)ES)c|r2@
z|Gz}Dd5rr%CD8#n&<8~iWRb`l+6|(HJ0H+*kWC&oqA1a!_$$B{+y~C-0nv_66o)W8
zEeN=jY=-I$o1I1Cg!ly14PGZIhK?BsvMi_EtqVJrYHs%5cAZQfTdk<hXiL!*d^zW<
zTlVeB`gSe21>bJ)1FV+&XGdm6GPUhO`R?TLoW(nLEMwW8(QcQ7yHN1*!u<ni`3VR<
zs|5irBI2rjTPy+s_6KC}P|lH>@2sa7F~6%GfD0`Ksj&=+B*2JeI*DP1Md-R>yMx^h
zZe6fqwNg-`O3n+NpoGxF{zk+PIdu?}=v2u$34mi1+MLg6QQfI(Y{Dya!ccTCB_Fc_
z4rV%81-XhvR8YmDD3p=pXA|0hT5u)|2_u;a*l~gAhW{W)wH`f@p}_7x8yy+G<PQx-
zV_ZZDd-ew*02rD0Fxi612SeurAxL$&JM&$^5Po%|6ErNAkeql;pnf5`dTf+D>x9VT
zr%6;bskk7RV)#-c;T=#if}Mn3LaYSo9ahGM`}<)d6apqBx~>`zv4Z$);u+{6<^#yI
zALNPXZ2kgVO_V7*TCPD>(^kp2aA0P1j`QfF;=w5|8yuZ@g)+*ILn4-pa}XASE>04W
zEov`>xpCsBU1x2qk18aw5TfgD=cs6r!uJp+AYNR)fdKU)MhFQRBuNFL#kbHK-~<kc
zPbl0%%12>WT<MwWd3*Oe`>*a#pMC4#ZR?Izr*F1$rt)1KhUd*c@=Lqm+(ja-F(R%a
z=l0CCPm{nuds)i1+S0z@oAXM$xwkz#mv(?nuxhYPdv6(hE7kil`yam<5~@#Rja4bj
z%qc=Qdb6h9mFh0o<^|W~Ghj&6KpY==4Uyw^U&hxel(c1xZQv|*S1!96v#!SZUcuD@
z?uC61E&8S#mR;3ZS9N;-dxx$a5^CCSyLR7fNFMu>!IiUn=Z<FVbs1ybsvY7Fy%N5m
znV}rGV@k-&r!YGthU^ref{a2+COj*$1O!H_8XLuao1q#M>dx%_kw%eE<qRfu-pIiX
zDQxq8+e5wZQy3D1R>Zre^qbU!+gbUo9CdUm@yc%yQ9o*o_pMtQopLT5Wl`kI?;+oB
z4hY4}`yxru<8RGqwRJ`#5JU?g5=3KbC;T8n#uh*9yI_oPKOY?d@KB(knOuM+qQ-bc
z{XtTdgh?2E6^CdDDWpUCjR>g&k)|;0SgLt^FdP~r@FmG7nh=naR48LfzRB?*L~otN
z$~jgBCR~`3w~{6y{jhCK{FOMxqF&zW&<=-VapJ-hjS(4!Nf4HVPQ>eR843V3c@^s;
z4iVfNBQe7SUkC_oWFS&pG3uFv2pYeJ3jhr(Wwb!#ud@R2KyYq_KqF@b{1Bt@YU8`{
z8{G?aA2xr`EVOnCja|a_ZXhDwlUe6U$Yn3PGBGvrS|VfgtvZ~k*z_~_D~~sx&)T=9
zw7F96?6H|+X+|imO=(lTQ>J{aD^|ywWz!dCUz~X{-6m9Q7o7FrhFqwFSYMy{-^?Xb
zwW;`PJHFIuTxAe11wSMy$9Cr6S0AYf0o)MAW+LzbrspukZ}$W=Jp|nY+McHg+8+*-
zk{vQ>hl|W?i5vje1RuLUJRtoz$IwSYwfm%>w;&}V0Rbeil?0$k&Ld*DoyE84(k0fL
z#1M%dz^zMZUWp@mGv4B+<G03#MxyN4Fn5rjf?I^1*f~h<Ff>iCIVjrtXR73nl=WY!
z%CGb~izaDUbGT^N+72z<O|O+~rAyY1(0Y2?T4@En>8o}NUAeZ|NmqPTzm2X~dy<CB
jwR#urUfbcMTkxv>P9t@Meu7?OYH8osJ+y<CY`Xsjts%oS

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/pooling.cpython-312.pyc b/crypten/common/functions/__pycache__/pooling.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b974fb9f3e5bccfe76b51b8b3f702c6e197ff4bc
GIT binary patch
literal 15512
zcmd6OYj6`+x?s1|l3MSVEx)iWzcAuqW8?5Jgv1OsI0o}D5JJcpp>7))A=}-u0n<t}
zcQQ3{$S(4bxfV0ojkufIF%`D1sJT^fYPV`UySH}PJNuB3??mb12fI5zHh;Dp%x>Mx
zk9+q!r@N)L5g|3ZwY3d8-F^By-}%lt-#OpYzq49R1YGxBe?K<z3PJog^rBoE`C&B#
z5Ay^=Fl2~0M~o7T<}b)|q>)hmF=j^lK6y@~yc-F|!cb77WpwWo=P1U?=;2Mr7~oCM
z*cck#42%)pXjL0KV}g3)b<*ef8g)JBqr|e|EB<T46XWBdPG<O`KXCb~pJPO~pYcyb
zg43+(tE$pJJt{X5O~vK`gFGH|Gr~^`ztu_-jZGlN;J*I)Os<F;A_x{=07)s&#k)WX
z8bK>if{r2YYd({EIuA1_7>1R3B%-un7*kUrBVe=)bzk?H42N1pjZu?e979yDy9D|(
znbN3H&~sZOW(7bXBNpXZ!NpNP89Abfl7gu;Hi4XhMg^SEt6&<@3=x8Hi16uW&h|`9
zgn}&Z^?N%HdSNoXXf1-_QSbOP%X$4_Z!kPD74h=H(Xc<{4UAuz80T5WJ3iv&S%C0|
zOkTJopox$_%<^qg4fOgCKAmWo@G}hH6ZL$A3o@)oGr^EQ5*!bU#sC`(4PP0DN+UoG
zPy0ht?AQMQ*D0Sy)H1;<qG3GD4qqCN_za>h5P}!ct}qM7@|XM*tVl8bh+otK=^`~9
zWUq>*ARi3#5q~(qirQc};xmgB&xS@s^JSI`v!P)=IKy%@(8r<q=g<b>&@78Kj*U!l
z;o)GI2?khRG$Q80Lle#8QxTX4+*YJfJy6SwW<NKoyzmGInhg2+V_SRV%0&CMcCMqV
zJ-}U`h_K;yn7}LJ;r5ZKZ~)B#-!4yg+r)KFj|f493x51Rg(60*R1(hedDEQfwk6j8
zxUnNoTW%R=jd|LgcU0u<<#}gS-c_?g6J;Bom0OzhS*kwP|NdZNV5OR<-T2ATJ4Y8T
zE;c8R<~F>RrK)0w<CpXHid)gyX!7lx-4{Fjm7)Bxxjb?C(;ds^)_l#z1#_mlD?X6-
zG<@mVnDuN--AKQkZGAoG>4}@6WwIt?Z_d!od9yoqY!xUZ0%#(Y3r!{7b=@!w*mc^N
zhS5Z|k;2{+w2{JYQSq==&;k#yg)8hr1&%koK`>fn&;A)HXz@;>VV_Vjji8BAs(z@F
z{ZIl0{j7y6-4CVehr<1sqGlC-T}k{pK?nGCYv4-b*QxO9Fn&was%obxi62G@_%$jx
zZKO1Qy$Zhu<F`faaJH2=ofJsMaCsB(9hzlYse@T2zq5_8(8i={LzFy=h%vLmD8;+d
ziZQFtDLA!sa7sD^L+lh#U7{VMQO>j%e76+7n_d86RUlAbj8&k~eFk_~Fu$OMZCwka
z(qe=H8DdpNB^VUAs8et<_G_AJnkx8M=mQ`F+JI&s)WLU$>brzd{aw#pcmXwbr5C}3
z=n!m-1ygUqR3Y33#*X?$wNcj#us8}>%ovMZ#$r`raTKt))#DLdGipjzBN5zdz7S(}
zAY<JXaViyK=)hZd2~NQ=R<^DZUhg}V^FX0HS{A8L;9fAs!b&S`4ifLY19MXT(w2o4
zSGC*^Ej@xsC`U6CtpINE;HOHVj3F8FCmN{~D&U_@D6WR(Ct9Hr{@I1%+**I49if!<
z7aVKamkXW|3eUW1mOp%*B0e0Z2+$2)S=%2&3S}jCN@4WxxezBH`d$E880~v*2~z4m
zTDG<)fqp^zLQk-la8ICZl%}cBlVDum6X+$bnU4M|6Cw5r8;<ba$R*aRsD`|EWE|8I
z?*$}vCAIN_H{cJ2+6Fl!S!P;feZzZYijR0NvH%M@z*cW$3h-_9LgPVDBW9W<ZR90T
z8x>vUC2(~mJ4K!0Zofun^h{Sj)}$iiUX@l`(0QdEF8QZfZ<iNTA2!S*{ore)56ryU
zFKHyQo`t61B{+7faNN^;jRY{)tQ23Pnfe+D>aYJEv@H(Ui?~OMdWM|_y~k(a$`Pao
z3Q>m#z}Zj*+Kr$}f%YU)p&%a-wP8@Vbdhl`a7omGPBqSRKHP}&heugo6^HhvXpq$@
zt`Z?Bp?7gL2uw4v9ey36hKD;3cLweZ+%LoZa))S;v^UVXK=Ydl$*Pzp0AB+gqF$;L
z$)HG%iFAk^i6AvjG(^TH&;yV5k)oMBcjxL5X=p-lu@fHnNqEKj7j2Kdmv_12hQ|hH
zqV?k)%ZB>At17uG<7$LDP@YCVo?14yWT?SR>tGH_b4%V@_M^Vofw*QxPtdm5yLsn^
zxE?j%_;J&+p)T*NNO}@=Pz9|=K4zEA%^B)QX5*0@l;-BV)h)Gt2CZF*O&|YY+2GB)
zYm#R(?v^->8eRHSw`|^+p^j%Z9nV2&-k7(Rs~c_km|r$Dff|?EoAI>8&1yOiWm*sA
zs6&{}N~zHkv;EfY+1)q0lg<xb%TOmX8&2k^lkwM{(DqyAS@TV6()oz4UeRiFhsY;}
zzEvH1$U}{Vu)A*sXM;)V6XPA@FU_fuY~|LRZCl!qwe5->LgRO54AoC8j$8e+{R#ig
zBYE|sEm1aKHCL7FxV<53sZEio19$aV%f`Ir1s_(7x(ZX={LDePD-t(yuBO;Pp0X!2
zKR%Y2Om@yqXQ|pBAA7#$8z94(w>odVHTzbAyZKJ?WY$`r>Rcf2?p!!|cU#ulp5C%}
z@j-jm+7s7&Z#deWIB?UR?99@&H|?O2tKMMTHrK7Qvu8hI=P%D)PHjn#eja`hUiS3n
ztbMV*$5vOOYktq%p5%$!`*K$AQ^KTciIb0=o<wB+`rP%D^R|$4Ha{hd#+G<bzM?AG
zGdCSSocB~FJLX2>hn`qmqQeRQ^Nz~o?$pJF&by=8nr&%K#?c9OL9#V<V8M0wP_}x@
z!o`eZ`-(y9>|E9AthN;s;i~$D^A|nI$y7tKI_qry#;mipJR{)SH%91fMGKUCQ;nv}
zS@8?<7af_p9Vz{<%y-QTJ^##>c4fUgpeFOm8|mrKZ#=lM)bZ<gA8N9@-hi4+<r`V&
zKwJ;(`?H>(O(q+Y)1Tb9b7P_7m+z)E+4{~*b!Ym(qUSd?U(_s}_?LAL8?$?kWV()I
z%8q2MM`L|Y%+A<Rt{%2tpkN}v3y4_Br1<CXFi)sdUqT=iRRGLiVoco%V9^EQR8tLb
zNJ-@!0E4ityA%a<h=>%FV*%PQ+WXXJ=tzL;JlvyTphPJRA!x?bCXWOFrcRI$s87j%
zOoI5*`5WQDHKAi>jd`tjHN0@jbN*5Gd)wL=m27XXv$gT3A(r)a2SR?H@4oOZK9AeN
z;kF*xiPAGYdK^1gE@0uwun~VS1Qvf7%y?|oda)(lW|Ao8M)_|1gy>h9z1>(4N5JA`
zBZY<_47{7b-X0CHNY1jO;4~QL3e6D;W_;>mh~1`q#RA2LA-GnUy+M(>!urD?e~cW<
zOkuMa{08O2%4`j*Xb^RnRL%hn#fl<`qzMdPVnY)wCz^^5BA*TmAxXqoK}Z0>jBL|W
zFce<YBbU=C&m-1A<a#AxfL=LN{0x5l1t?;~GY{e3v_LIf&bhkb;4zqgI`gBML}Q{U
z_Fi(!BST9b&cd15nVUj}uK7db9<bHpms4k+X*H5vel*dQ^uWnrX^y}8rMW3<Zc3fX
zn7bCvWX)X}s!QU1nd6{8f<XL;-dFblJN+N={+oh^>-}#2hpz?xN1aPoq~M|&1BGt=
z1#OV-u<lZJ6r)v}bf3vi0PK8v*-k8&3wS3Y=b3sZ!aj`ZU?*zF5Ff0&1PXSd?o*P{
z3z{G)??{7x6uK|H89|f$f3y*g`mg=}xe+njukn3#d#_$%LGcC+cHAqu#R`)o>vL`1
zgY1YOG_h{)g$sS)4P!4{P;G0j2^NNPqoNlTNCER1xkKprFe=d6aobSQ28Bq0TF!G@
z(0e~BkmBpp7k4j4zzv{JM^JGT3LXI=;+0*C6m1R_zd~RC9Ez9k+ON!2d3VKp_gwew
zeW|ivRo<<<-}0B6?`=+>`uwd2Z~gl1rJdPV`g5D#$TbXP+yfcQK*?=>`X$?Z2yOGB
zrNKw$p$s+jyqrTL!F&B9c=#!Do{>LtsH7cP(jg=}e<SFi!WYOyd7m*@>S1?|M%j^n
zMiymUoEQNa_dZ?R;l;KG38jUC4Wt@1({qyL$3xS|Ta5g|__W{Zy?_j=3)r-p@N<zM
z7-QGHQ(=CB4FpGm$X6^28RT|t0V-!2RVRAEvg+JcuzLKVwtzeeJSa4}9q?N{1;x+F
z0fI#HL%ajZ0(NbYQE-gK%4W5toctikNn~OwBME~m|If*Jk|aKCpor_lztCPKeVRc`
znUBN_2yqEb+jj0X=ncP%I_w1I5n}<X#ju3<qjBFT8)mOfaQkOA6(x~sXl?sK<6xTd
z``ZeTe+?LTG?c&l@5JB5h^K_sssAq)cf2PaS<w=8jmh(I-7V9sDbbOboO@-Nu3CuX
z=pEl^0qk4c{f}EVks#BG2AVd+hPlmvQ8cpQsVksYL|C7O8-f}v^mwEeU66$u-h8O|
z4g7dCn?S@9g9|kDkH;2j{wlCs*PX9uObui_+mX#+i{HqZYm$?X%-#&umuc+FL233r
zHak`k<$tK~rfPB(+n(v*1!^q%6+)}iKQG9T=#T^%Q1esGPdyNA0@W-;eBc2QA|LGl
zQ@9lNixMi<UZd~<>k?6I+yhKZy-!D}xF-(2QHV#;QQasJ)fX9^(JM<2ULRP1r~&+9
zdc+dYcR{=rx-PIj5?&C|Dd~M&6Qv;q13KIwqGJLd>Oq+Jcad;HkrqWk#R{Z33O-(j
zjM|E{0ffxxK-&dOn_0$Y7cBCVLvRRoL~qooYUvcL3U+7<wsq76z3M<<(%@mTA?l$W
zzJG=o7p^Gs5gL$ZE^7O*8hl6wL@~mQ6=V%bgqxrZPyn?6k4A;Y!;>E#1KbqGt>Bbb
zZ4J(g6cN@4#;8@$mr@LXVtKT%`Ti|MM2cd*utrh6ppUu*_Xrs+V`xDiB%|ffZ<$a&
zqJ=}q=zjxHm|z!rk8|VG5Kuy)D@pGI{nQ`vVzp6n8c9(pr1D{9cS31^>oE?b`FY#D
zk_w1K9UNZcSFxn)WW0qa4f?`fnS!_#V3M_J83>~(0LnV_sY^j{RLL<O95kDX0HMf{
zrHVmq^-4~ttrB%ooD8Yx7^kGt7O+VAIs~>@4qRf~_*JNYfY_*)^#?8$ojqQD98ZHZ
zI_Mfl!XSQ!gKyv|3nQP{6ol}kFdcT94X&}c5VIh$z51`An1^t1R0BUPFs?dqQjjyi
zd~l*fA@m^-*nv#Wz$S-f)G->wL}u7##d<T|egfWpu(@b~!W%{-&~PqOQ3|Z9632m1
zU=I>$eWf4@E_Yz9eqe1JuEi{)l{|yk{RJoEcA!br`zI#YFyk{K@01+WgOgi&f=DIE
zF<ztqf*0+`)2LcC?sbH~jA4*xiM@tSUSw0CNAfa{jugb7_`;$>w4=Bwuz-w*pV?j%
z7;8+IqR3d+LIkAzKY}7g<ehFXvhB_|m9MUe+mX}Y+U@$MgxS~>?|D+QA$j%A-i6)S
z>KzcqtF22p@0<n~0d@~;%2s!0D)+|w^Ny<IK-SS3?*Vh9xh3`9qo$pA{ENrp$Kc)S
zzIAl=XmZOk^20c84a^QCjel!tT&aK#Agbs9A4PIFW8a#gw?2Q;qrqe5ISbqL=Om82
zL)H2#sx5u)LyWti%8VhEXx)XD^?t$ZSI$3Ro03xGdtfUm0g8$c?oDR5LT|w6C0S5S
zJCb<oE&*bpSn8A-fqvFd^2DSB*hr&VfxNF(`bVnRAO{`|$)kIZ#NJt-LGry?Fdq&>
zz?%(3B+Xjy$NpGJmC-{KnjhyxZNMM#(cCCPgS@*aRL)2!NMPgZqJ?88SUB*QVK{6=
zgB-x-k?%w1ZAlLjO%fmio7wVGzAgg)55R<38gvkFHqF=0)dF8zTwhx1vzGdl_S4h9
zI)C?kx@mD_xurK}>5G#kKFV&W9l2eHGRMy>x4fCNoCUy&+Ak|MXDc=@?D#9)=avVS
z#i6B+FW!83W_kOmT*c|QC2#lKx-okr*^?9&PGoA@(?g)?*!N`UJrYaH0uv~dQb{mN
zcfz^$bIl7`nwm9AIyblPdoaigm|LJAz2td@)0I+GK(j?YDxeBoQC)Z+P@u!2eAD-!
zpd^dp{$-3R%=Th%lhMx_e@QTgf1>?N7UmEn)-W{gw|tf^73xE>VN?T5Y*cVU0?Nxb
zQRz8CGqj#U{hy4D7%PM!rFlf9>HsLU9)=f;61J*fz?)SyPM>Lz109OMJNA^1M1c%;
z0&E>@8_&4<!;nc5WWdOlonPJ=j}+umD;nToYs0ddV*nS}(LRKdMFp~+xe-+0ZqSYv
zO=nOpO)tldbKE8LX$urSlWMyg3j$0u$l^=d{WkU*91#rcdz_EMjiKh3QE>$oeNga-
zb>u_98&i$}sonQH28zJ{3n6p>E3G*O%w<XaBXeE8w&}~-?b+Jxd58O>)AQ%&&Zm3}
zZ!Vr$E<d=c)zsPIgCMZ#wn{K*_ac+2-JYxc!R%n(>PfadveuVEknUS9-;0~i4nCs^
zcWtJ=BkfDqWcHoR)DGobr!tmPPk;dOgZ+7T_59wsy(wE-pQ+!qIF#6%bN6H{J>Y;}
zcTD+~`j%S;a+V{iV=8a4e^frdVQxb*xZwHAntL_rp`35e(#B<HKXh+3#Yv#vQ6Zm1
z?=DPcYC6(9I*ImX=)L$P!e*%yxkI8APHemi*mr^qIjqh|;W@O#+*_#Fj36tDHXvR!
z?jrgWM#U5qqCrv#dCAO0B7i%Ginmd59u*KFmr|s_p~@hJKw2lqp;{glekeq8ShT3L
zBfjXI!IbhS1nBi%P`E{Pe_e94_9IlN_#61~?*k)z8zWZB2%Y<h#fh|!n@3~4k6o<`
zx&;XM?2QdP)jM_Do^8_Uy8ox6T(@tfjj%gohfqkR<L23?gjZJ&OJK7n8fMu9J0F}2
z-oBi*HN>@fSH=A1xy{L;+wE~f-d&fRoZBC#VFfH@3I7NCzG~`B?^-;ZYwFEfyz#!o
z!Q{p#Rn_q~9+y`qci$d<O1P}e2{ON-G1YOWKVi&Q1A;rP2?HP~hXu}-wI;~NRZyAQ
zn5*(VB`9ZeqUWm(8}pU5Nj}w|Hf5W;7Y{9sW%nJ2#jo`wdQr>zRKwh{xi?mf01m;l
zvhpMi_$`mz&0m#O0YF(z@=U4+0#&_t-pRQ)1HRPMLI4Oom)&tFx8ZQ2H(ypK;rONn
zC|ub@cxvN)C~jw)wI!zimabdrAz@CQ9V7{RS>n*maO@Cpb?nF!OJ)4E*ulKblQd+k
zUKD_FB$|`@jJYmD)k$K|0864=NF*Y`v?@S>grI=cdjUIn;oy_qEJ)QyT8`v&0b5(o
zK~|(dN$=S91p8Z{kdXj&fD6n3J?9o^2?D+V1_k?NU_?%bzX2m5g8{T3&CGwo=FK5+
zzaV!9U+^%Ygh1IW@<YlZj!G1~N^qzm;|^+(Su_o)1t`D{wj;+%@s3N8$OPZr-aZ<P
zT$;Mr1{!$##C04^DcmoH#xJ&C+}_pM<=?&MmB8*@y8{<@?|fxX*RGD8U4e_+1MHpv
zyCcxa?%KhQv;%G7cAg8g_nd-<Fl0SWv+c+O+;*wyNN3l!BRh8Ef#Cgp4^DN+T|_wo
zQidW5my0@-7#Wgo-1>Y)qwMg3Lmq|Dd2~V)Hkf32l;b1`7;_<tg64>e0puRoYWxH|
zK$P1?IBSxpvyR3T6q^^$F4infeo>#@)}M9sKkUgmj>h`GGC1<IGjS&ApF5YO>*K~J
zuA1a@*445=W?jD6z&A7m4HK7BJ#*s=o@{x0x_e2N-O>A~ycdN=C$n^A-2BAs$xxo>
zc?-!C%v*X;FM+p6$fg47q)RZAbbSIBK`xv@&?2sgX$3=+4wtD~(Ir~}EVKf%Gip@9
z8cV_&1tY+!;S4Xxwo^M;i*(a3fL7%&s{A<x1D2tXDuo@lI>isBcH9<yPbx@NzMpDb
z`sc@m@fwPFL2*KCv+h#9Ll3Y6aT|3`pyo&WRlR&it|D@_LcU_*91#jxdn($EN^e+^
zG$F4OD3r?GEWhJB<k@M$8pZ++-;#bg1rvA|t<~U>E2^!f;hBO*3VdElkIG%@nU?E~
z@?EE7e?vYfc+#Zn1=x#OP6kF92hQk%@!`xoIN79nqkJ!7w-ha5$Tc$ymJxj3DoQtG
ziz1nguTo*KQaN>F$ZfptLMJT)r!$1fQQjI=O`tPb(BF3`W(aurble>LRe<F$z;_9h
z$TNb^X?fNldlUAsAkPt&0SHUUH7d?IZewHY`w*-}nF|>&o|gh%{Pq&Oh1r(zni1ar
zTeGBEjY2<bXQ}AT9P>cO>#hi5V|+0t;I%cYjz=tWfHLbachyRZ;=P#t7`3bV+fam1
zp4Rmz@w94vl(ka&J4oDe1i;Z3(7XebLguX<Ji(>cuP}aPJ?1nY)=<zgTF50`Lmf)4
zT6Yzx6AF2{Dhgm<$rQ-@L)DXgeNQi=61?UGKl9jk&XizQc9)74P_+xR;9110<y2AR
zT2E1NbPV!LeaHE#7_#6*JrDi3AnUc{oC_{<A%Hal*|KZK^xgCOLVVKRQbw%YRU?NT
zEstD1TFd&;e)vOhw-RFw>y{W^g+hih^5_dz6#5T9lmT(d)t5X$4ruR5*3V(rmDlg>
z+QxV#*OlVpmOS5*?coJ~J9w5LzXQ}d2svK7E`0@yWpJiRWuFwnjZy@&kfJ%WX?;Q{
zWXIsdQUAKsQ7MGE>3iVxPWXe|Ow)6S5#B<_63~Xi-@mLQ5GB;iY(+XF(p#l~Mp2{X
zFO5%yV6>q0M!X@`4;inWGtI~4NJ1e4wh*jEz4~#Fk}shd7Rg6R&&Z{sdTK?lNWO6!
z5fCZrBzFL)CWOyf3_xOIlRJ$7u?@KeJ;hMb28E~zheeYT3Gs(SEeurhLTpDcK2#tF
z1tj)F;IF?#D&oJ)`pP8R^@Rze=<lFp^OF}zMkK=`c}XO%V&hdbO-;bx1hK==m1vXK
z37nhgPkOMiE9%EbMtC+N`91Yg#Fj_dtp(*-^&nZP$VtSZVi0M~9x#S*Zm6*=)`Rjo
z8$KFZHdN)UwgedmN97Yp`s~RY=-BnV#X3tqHo6l%AMwk^8Wn`2WJ^f-w0IK!kIR?M
z^(f@pAcb7(QU0b<JCJD@$Wa3sGt}DRlQ(xJPJFO8LmkLe9>`G#;(OQBzM83gHAlUQ
zYRePBPu)0EwKvn+o1=PB2B_I_YtQVSn|qTDkIXe0z*;Net^wndwnJd}@g}f~|J4tc
zH@%+Nl{}PnH7|`q+N<4_*mYBY$gtg;p$}&o59gq?LzZeaWGHqgucjvN%q;9mciihv
zUtOGhFq3f|m^D0c)y0v$Y_y>m_f1P;C~+}ESHVQkwRzf#1K*uDZAmiOaED5cru=ut
z7FyE{kc#17Bp)z~J&XP?4len?d^YN1Jup?qx<8>AO*qOECz1`x6G_k9xt!e_I}E6-
zu3Lv^4@*v+FD*@3OB0}uUrkIVxcH6ao2ip2fAa0DeN);9fqHB6DxtCJW4$=BR4i|Z
zoAQ;Aq?z>JIe3Ro^`!iF4=!}vJ)9=f4G*YnQ&+aKD?Ro3%!8Sw#$Ugit?Z3Mgn!oh
zr?h$OD4(b2=r0{jSx3{Cj#h}`Ea>h}rO)NsUw>%KI9hX#lW`pk$Ww#dWuJn1w$QO~
z;$By}A>H$!`QF||a<SnHD%bex68rB$zYQ&y55)$-$1(rb+*^-#?u9v?TylO9S@J(5
zf6IJv<6+N3|Gz(&+j-*m^vSd{UI)|0eliB@;`(JcTfH@B-1>+<2@B%U#|EWN-=2H>
zuTMYh_%~;N-!QmDrrOdS>B&XsgUEy3xyHSZ8U}Oa$6|v|V7kxEo=a+O{t&WZrQZKT
zZ|3CC?+*XI{`Ar$INY4+6Y0qZryf);_GLQ`<h%zS)t}ClpNS3r0o)iTk~%5hIA@0}
zSxRRD_YQ4Kv|tBMAbBe1YRuA&kYHU^_ess2n#Y~H7InWdePLSq!BW@5hTrba?LLz0
zJo<af;KGUc50n1X#yev<>!wGRK^RK4Y1X!)1DxQGvAHpsww$#!)|WRs6T35Lm(+aw
zw3aXqk>CE;hQV*2>Iv@|^4q5-!g`G4(V6u(`|FOi)4zMob*zj2kGk?>d+7hHu^-!S
zg2WAU$_`?Czpu}y8<ZahePkcxo*aaa#YzkdK3jZ_8it1<G(9{l{gEKDm2q++&UKP<
zs`^n~3>EmSx`CchHZ4BC{z&hGzq6bQvHLlc&xmYP9{KQAv?NKcItbGGl+u|sF~f?7
zu-fuwI~-Jbn>+8WT(vilWh=)?!s;wmJIYp_Z;_<y={1dud}VcW8F`9)x}7HVtDX=^
a)<6BB)<ssVY+uvHW`AZsPLdliQU4n$_5|nv

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/power.cpython-312.pyc b/crypten/common/functions/__pycache__/power.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d2573e28ff0851f52c616b0fbaf9b8498a8379a8
GIT binary patch
literal 6087
zcmb_gT}&HS7M}6=e+;%UiIYIc7)WEM2144jfi$o*kX4f=+AM9PP1}XRGr)j7c4o%>
z7}I9cN{d6a7*PqTW)=5GTB1a1_D9<6+dg)+FXId=qgfuJ-R?u)P{~stcK6(|XH0;F
zM%pXQotb;@IrrRi?>XN&_pcQdP7KQZs(+7kdNAyt=tnQ6(#J+Od@N!N#^6!xTJeov
z!x<ApL`^Z`8i8X&7-Rkdzh-7EA7R%lj1_7t<6vwb;n!@8ld;3wK8c6OCy3?cCx~+h
zR~?+#C$YR37eZ#$%*Tb8>P*C=lYBhJ(NWcwh>LxR__#_y715<Z94zpV@N7&#>mnxM
zs1cPkE*azQmA-_75*n|SG=8r%HjR%4F-#zL>YK)&;b_*Wb&et_+4MHX;CK^HgHA?a
zR)I=mBMyB;`F*eSIf7*0Qqnky>9Y00I)D?B&$BxxZ6u+MY=)5)TbRPH<ks6pV1Kt3
zpsCv0h8c1^BahjTXWtGKr6x@ti!su_*T|F=!<eG{^&rbG<9F5>V@ZL&H_5p>kAvIg
zNgLGDM4I>?vzSw0C0pkTSyMlAQc%vtV~M21iWJRLY?O_$ywo(#i7drVB;q{$QT>U2
zDn3ZjRPnTjsqtY}V6|ork!fr=USfw>p;`M$(QxLeSW=WIi5_JU>r%hLwV65}7brf?
zH|ae<!U|%TO2XVF+o8reX&C)*5;w*+jnUC0%TNQf$TmOu4-^3z$rEG~0s&R1LUnQ?
z$BPopM_AP|7>(1CO27oF<E_aA+am~ZL3Ijjgi8qV2ptvdK&28qJFZ%!xDXju9k67v
zFUpOws+plBTD3%?(4<<$>q%OG##l1ihwNQsqk}4*P_3imv@j&9_=Jco4QcfIaEla6
zv`n-JtuMDkgvkWxttAqV#o~O+V3LnWT$~qMwB<G@CN&wf3Y~DV3RZIid+NmORoTEN
zZ?D*Dz9Mp6Us{&~Uyy4qcNU*LKZAcu?#t4*eJkYQwMzfG39mT0K@e`|Iz~90>vqiU
zm^pcKY}M_X`ylgy;-(7j#=N^RN9TU3xP!7ixax4u4BYaU2gr5`wb8fsuUj!s_1r{e
z;<n|E`&0L_`D@2rhjQSg;(kfCzf>B82veEVY+AP0Y-*ayOwCTq_FB|*C9^LZxOE7P
z)S3%!D(|Lp-W>h;{-O|%U7op%nTxZR3a+}mt8PhBT#YmMs@pS{%p|k)Qed9V;q&h*
z?t0l?zX7Vjo^hf`*=Wx<RH*iHqGH|dE>SolAzoV9=48EK+J?i_M<HkZjNv}F!_=vF
za(lX~?FF2nPr-@Mtg0&kr*?vi(a2iS`J;{>rxMh_Bn5{HY?$MR+NpNv9&YcS_<4dl
zi;OLpppH|~_)u^n6zX?sd@jc&mXd~PFwS8xV1d1!<OE<@YGO45qx#Vd{lJ=+XpX1i
ze00*VL`t(nQR4>o7Gcp0R0Pai8#cg}Bm!fN^JOYN85;l-Z{98jTjYq`4DvRJ6EG>e
zjWDIza+pda2clfW@I-MzlY!-nX2z5{ie4yW6I`%gLM5sYxRlHtWEGIFRteBg$Rr#<
zUC6nL$emD>P>UMSmTT1s)N=_cFw5$qS@y2j4&EMF_TKMVsXO@x@nP%l$Nud7-4r_Q
zU^+|q?38Rjv`V_?PG?Tfw$F8DI+t1%@^FC+<jH_SHpu1%;V^KF7^e<?kT23s^nIxJ
zI?+O)4E-YjLt9H4hf|9<ZYlS1Jq&;_!2t5|Sr%(01BOSC;<l7cBW)Kj#-yKA6h4f2
zw+x0~y}t;PBBC+tZ5oYlI}KyGR|<1V;EF782iPvl(u-}9djEEgX$&~*0H3-fLneJj
z4MumB3D&u5zZODe0gP+5%fVRo*fnBz-VA}De6O7~cGzsfBy`NQk|xq7y(eup)@#|M
zxjKDp`3+Q-|GReZk3m0-buUdG!lnr+pvwXp-SvDS&FHJ@#@>THnnp7;==9|`L+InC
z@sIbJG2p!G=^8m&rq#d7XB2$2jYg<l4y3^2>1hC^13q$udIVJrYla}C;lWX|gM(az
zgFs6RJ5l)1uQiGN;i5y<eIXU)Ae;gRS@gXWL{Bu;+SF~hJdOC=CU%rK98X3eUSeS|
z10fqj4GQrXuq`!EtyD0|@hmNbfQt~L201~Lic+vV19(!D6cG$_L&Gc*0CCbrH&elL
z5XeBRB~bt)d>meUB${McCRB33xN2qCF)qTUPW+^-lFdsl28qbmm)3`Pqnt`0LDi}7
z-ehGJXwl&1kWcgasu}4^K>2}cEwQYJ9{~jps;v~3sXj>J4D=|ab1K1bF^KTE6sr;t
z@2M78WMou8jzx8GJi|`(0XVV|Nwp2J5-mxBN<<*iv<Ngm#Hx-Y578paB62Yq0~kUG
zqgspms+!S}fOr!WE~>7QUSVp;9~}^hYF`jf_K66A(1Czbge2tW1ypsyBWB^u0VH`4
zB)xFEam99I&AWfGcD{CLaQUsT-?{tFinndXx<*!Kuda}_U)c)OnLKr7)n56OFa@mZ
zn90)q*w(gTfj9iPtPuLSs^;1=?X#~fwLT(iW%HYI-J1&3WG(dBD}Ooli>Ykuhwm?W
zAKA3X4q=^DaUYTGN1j@-it4#bnM+GA=c<2G^Lfpehvh>pitEIUo>ixN?s(>S_R4J2
z(hGN9{Pe{f{aN!PXK>YDTkwbS{?Mwc;^X98I+I@NxpU#u3%To`U0UwS*ET(1{y6&E
z(G~aW8-(eAbH)Wi><fMJ<E5V5%Sv@{xmKxuWyZ1Q@h_6|<kH)@H{{x8#nUolStl{l
zvwcd%8C>^Z6;*OoefIp~#rcaleBrX}YPiv}R#BBbwb(Y_ws0oro$pjC8otAD%Tb6%
zz5aqXkoN|10ma*xv91%)3<0*wJJ*(J%U)H;+5$=CNeFB=qdGcbdO^uM0nf&-pk73&
zaWQo_F{UkvIto6tA{q39hR4q0LI!Aw(RX3zx1neWC%e+78+CvVJ4CBG((RVmL;CyN
zv}seCxNp&MWmD?^9>@{~e#nfslpi9??osjc^L<v%J-Fj#lxD0tR%q7(-9JFX#+5~R
z+4_q2)bI|pn&dWJ!;Bq;F~G-kqjQhl+5s)g5z}txU?-eqh%}ypz0|d_=SrS?_ANWK
z1N{y%;EY4t7g91}GRCRPcoUZlTxZBM{u#!&er;g?O*~YQ>NG$bVO*jK-QppPMSmO*
zIaLXbs33w{xCs~npaOINh=L?O)T|PKsM_5_5wG@_SQt4~g6cR+wZd(oZIopb2v^`b
zVi1y!W3Y`v8>*1q!yQC2k~(rZ8HoZK1D1jqI;O@F#akJcNmacOgA_0U0IUT8ko*Nx
zWM~j%E6y7tw`4pjK@W%m%3zA<Wfrdsa3d0<C$!W?^+7HOJoO1m7bI8FJ&X1oGMBTX
zvdG3wM-i5gixW`Az$0cfSbA);&-C0(foq4`3Y!<MG9tH6W#9dqtsXM`Y}c(Z+1?`i
zTNHcC%-AaF%Hp?PS#?*<Os)EB7ANK>7E+7v&%dwukI9~6t3LnY>G{(O?Ta1r9l3_(
z@ob0UdsTM5x>`{QcMMkzx~ci8h3SGnnD+-2|M7yqB@Yw$TV+oxVsU2v%);4%uQBgy
z%=JDvCi@x{UwgsVnfG-nzAo9-1?)aKx@1`hKdPuRc<w4o<iV>*mNO5#^1cq))$#b5
z6%@g3IiUE%1^<b>|AgW{S@5^#{p}B1A71~{DaGF<d%BF(6?{kYzN0x>@dXRMaNZYQ
z?tKVSh85rI1>c3d@4`2&-(3I8DaCh1c3nYNEbOgAYn1`H{+v?TE!(@ltvn#tG%eH1
zy$?wF;A=|dS=oM8%Q8c_5Q3cv5yEMBT|OUj2q>a0#zwAUY}6;g{g_w^j{5rOXtb}d
zcr&Ht!CK^jw)iflvD7yHd;4p#IFpRB9YQyB!M<bSi%<bd;`oLK!`*+!T>ruv|KU7&
e!}gu^Fy8Rpk8l^>xKUS+H$J_9AHq8{X8#4Wj}Vmr

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/regular.cpython-312.pyc b/crypten/common/functions/__pycache__/regular.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..a157f42cdfb53e831ec04302b207c283fbcce59a
GIT binary patch
literal 13314
zcmcgzX>1$UouA<hITWdzI!xJ;DPJ*t$X4t)wwu^-Ey;BbB|dU#lS(vaBvIxe&rp^{
zQ>k(Q5o>QvZ`zt}vapgCs0_QiDz?CS7yXdM9w^W+r0G-&VPFkx7uW#%!L_nL+Yh_@
z`@cCz$&8YGXb0ebX5R6CZ{GX8|Meb!T~+1caNVr`-;t{uIPO2_#k@r0VX=wlxGS8@
z$$XgW<7AsGg!zcA&&JcU7#1R8pBS<C*?De=lkFezeGc3mxJ$D14%g?Dy|VKizOO>A
zz?(~Ufx2ZkXr<gDS0bkh_bS}0<<)XE?lp1^a%<&U&^mdIT!*xJ<kjQukv&LlkQ+c7
z<wnpZxe2t{#wn|mrW@!hU42dLz1ezimYY$^E3X1=Q5;>|>oq8~T3M|~XE~L>=tOz1
zvf3=qa~JDGPLWU!Bh<GVxh+d_D@AUC_qTpVjrD$J1NHNTijdYHSE5=>_1g*+@t7JM
z?hgjy1-JgF#RI|9{>=q<fB%pY55<*8e}6&h?++_cJRnuGQU$8!2#!Uxu}DFXLquXo
zQO=D9qH;kR3<u(9sUQx9L!$-9P#`|6s0CpNq#_iRm2>?8SuRxSkD3xzg7JbFQ3BC|
zBN|ZE*m%JiMQTKe#tZi7SVRdIgwX&Pk1A?pEUpy9Q8gwP9I7&^peK^5Xv2X~B&)G-
zxFBihUL0+?jR)46sD%<r!LE&lL#Uyh8B-MYPG4OR=tFpPA|5!6LUA<^R4_zpAgYbV
zG^OAei=IMn={^_>%Y}-usL4S%8&C`4*^n~sx2sN!wAxIhl1Mv|RUknD#Js2wy)PaI
zxxyv65i_UcK2lo4NKf){yICY@lli3WhEeJUO))N>o3QzXM9T>!?$f8*cQz0nQ#9YH
z2_GA7%&4Bx>lf6WsG?SY6eLVJ22J$~1rZZ6Sg`A*?Rs@;#^>|>v13O(GP>j34z+Xl
zj-Wa*3RXLUu}CBq-7z>84aP&UsJ25@hQ`7HwPSRG@n+;nFwkf?rnvhK&R+5Evu{2-
zFRsanYcenX<j8FI+`d~%enZzMV)r5naY1u=(~AQ?HeOw9sbjp1Wki|gb;Ed=6yw&&
zB?Xx`M@Fqo3L~Xl&GJG?d9hpx*=F(Bh_=h{7?I3g6z@sQPExojm@||V`;9r`xTJW3
zixUdiHNu3P`DUaMe3o5hTPfQgt8JsN%iH#gz53L9(FA0H7>UV>x|?34LM4_`I2;@A
z55`6(3es>uBU}{AV|9?^DA=OWg3FxrKp5bE6bw{isqQ60{Ah`4W8t_)xCMZGKJ_um
zW2J~3#!tHlGQ}-a)y-G6<*M59Rlcd7yHfS^SUPk^@-5UhUa7iVHEsVblFnXwBlSjR
z?2fc?!P|Om&DAyYUVqN(pItxK^|3wc_2<1k(~gVP_g!3N{nT@xOI*v^YpbrVn)hzY
zdAH4bcjml17b<HnJ)3$qvwo&)&VFCuS~?dwTZ@ZTbFgaa9&~641gZNBf`5Ytwq#d?
zVA57@`I-=w`O};6)zZ_@P-fa&rAu3og`@?XNg*kY&=Od7jnKMXcIgvuLXKxZ^NWce
zzM!asF*Tz3Vq@{`vBB-5VaPXK9*}I@?>iKPFvp^eD?W&7pCNlue$W&np=dltc`lkn
zk`QJF1PfS%qC-Bt0I>}PA#p-c#w(@*TfU*tStUwIOssS;E}zjDCR$jEFRCcAMl4P#
zzJTv6G(t=Vo!?%t2g9+bqKni{)L~#OxL8H%f4>PnCUke9M8Tm8IrRWumV?hjEQlPV
zOcKHnN=~l2{!(A6@4{<SJqzyIOZ!s$E_@@?e%rk|EAGp-?#qL^SKqB_NWYYMb=Hxu
z+JSPS>)qZrd*{X0oY<NP&OA1|>5kaB;I5l`ZUqP>(BPLts6;A3iY<e~*OEcY;9v_J
z#ke1mG1^$?rg|7uV-Yr8hSrFY#>Qk}LfB*npick{V{Ua2j4Hv<U`UZ^T8&KQoCyo0
z1$<g45`rf14F<Gfs0Lp^^O-7nv%kaF6H^%{B@i6eJ3_2j)7yNZxG#h*$}$>2F9HU1
zs08cL_;3idP((BP!FZ9Lixc=@Wmw#NK)(-W3XC7>M*EZW0+uqVMe2GGU{j##0o~{j
z<HPhGG0-_JWx(p|AZA$fi|QfFs#*kRrTLxZ;b~_dSr(l>VnpOM{4|oJKxcIcI`39`
z(%qSTGfKX4+f=uO!L>PY?Tj$<;%xUF@zF29Ac+hn#_r<b>tXPQA@H=#B{ql<w=`dp
zGfSA-Qu9E-@g*e$vqS>otSI;(-Yi{+ZW-5z+k7hCNxa3Y%y(#aXjl{7=G_o_LSonR
zrLyj<qOz%nK-(Wt;=}s~4#Rvo$*kcHbFKyw?Jq`EB^Vou!d8?`tok%H=!;K`D*JsK
zHGRG%eZFZOLJn!6D2(SQOh%E4>Eg+0a%HG^SV9TlS{49n!Biy@!cQ9jnd0tM)tSQS
zuDc<9;^Ki1`eucjC+9ZY=)2Rp_daK{I~JT<Z_0DKZiI5q#}@@8WZiqo)^h7IYIROr
zojE+ycvG4a=3f0+$ZzhtBX*Yn#WGLOqGh5k;N@LFCG|Co)SJ9H(UZ0!Sf;r_UbemC
zECM2KX)qYF2E5FBmjw_rWwHcpE7v67X;OswC6a}ag#M&^KYsc}zEe^-!TE*W>pasc
zL8En+PYZ-}$Rg>EAMnq>sHUazdIPxfDcefM=MVWSJbbezcwgMlgmL~lPc7^NpX)-w
z*0Hm|_cJR=qc(iLDP|1)vEqp#B?{L`J&^F~en!U=;aD&b)(&)7S!2|r7Lecn7x()q
z?zX3U_E5TOzF}joVdH$mBRNm^9~KFYZ@0Aa02{OHx8NP-+Sq6qJ`H@CA*CR|n=8d)
zLDB`j#+)d!)CzovDa--rdBa*GJ}ME7egh!r!2<MUI2E3+ZqHS>&jhp8?fL30Q%CMr
zd-9&{Uo`$gyY=|rCG(wKcRbzs>TYCI)qj6idi=d7VBS68c>CsQexY^4%(1I|(^8sG
zxju2W+!v61&s{&&tE*2MCG)ZnSwPCyMP$+jOd9wGjw~l?MNC@a%0yrpOp0aET&5<&
zq#anaGfay5eHkX<766m#bNIqP6(ZH=!CZZT2(x}lfvBEDa$*(pkjo%&k}ADO<RuUj
zW9um4Wg@Q-d6lvp4CDnD<J3=nw{E-jQHj4G!gL!MwG3qj%or;o=ke1{ft13`m#g;8
zw9I+3)xLc7V}ClJkw&9YSv&xt@TEFZNb)P0`jgODZ+hT0T95;0<1#g%?hdHyQ0gn2
z`6eWjLcg_0NTh*B8NF$?)WuyAgSH_qXnVbyL}XEy!on2I1#;PTu~y_J?GT}S(w?+E
zf&P~7n*ru!eF!4-7PL)@<8Un#|9lbw6(8a_Y6vbt(VYmuq95`FN{q5V5JuQCKSDXD
z8(AlZVdt5?CfR%;87xB(k<95Jf3$-lH=F&w@nQHGmZ|q-FC2$$E)r$T;u;TWifLLd
z;qiQL?<+n%P6Z}rQ-+CW!wC2#CdUgRbzFxtld+E=kHvWqS_;GOF~F~q1}Rin9buZj
zz@IC)VRZK!X0%50O?@*3En`OHZTz&$Ah7*hu>DFL<Aut)OHZeszVIw;KdCk=t;%#=
z`_|QOz5n!V`;VTtoZ>Ax@0Que^4`u8Z}`5%ZSVZsqt}n#c;+`vduPske=KushX29&
zY}4LpH^@T!rfGNjXwKPYu$eiX^FB%pn3eE{2NKu3kM;SVws^kTA}*0p1aRnGZt)i&
zS2!C%22abcBp>3Ewx96d<KfqGD=i&kS-`|&uwG#SA+WPTZUVChC<|r7C!)EKAbD+x
z*2A&LD8h@Hk7AL8R^4qid`SiaQQe4d(g8q$J_>)HH8g5L45&j|!Et(=?)sEV$POXo
zy4(qEBrZhW!%sT_LRMbm^vO%Fq+UtKvsIfiXLD7Xrg~t)IV;~i_vX2`6X|1beP^Mj
zak>g=HJ(e6ROCWzrs=0^KU|w{e>7M9=+qHR)TRBY{pq2+yDclW>1wppxFHjPP17L0
z<_Z_L@{*R(W(@pB*@h`98_19a*^(9*+7+eSq&=#ZZN*MO5OqtEmw8f&U$L$7{c)7^
z#}VCMwmpfp*J`$hJ5$Az;up5OlxxlMns}F3&mD}1@I`VSev0#Eg(+Pp?Md!C_JoV$
z$^p`p)RR(Dn5s)k<$^rLGEq<Y5=r4Zj*=E7%+Ly20X$a7Wy{Bz6g7L&Dcci({G=04
zE^JHKk`k7tG-7#Vm`3ADI!hLoJMp-+un;T{k*D;KDzLoxqVU!_R9bSq1t(d>0Zoy6
z)TfY8kWMSgC`7ADy6>c)S0lLlZLBma0bxys2<<q;*&-`A5UvlXioSSRfPRSTROms=
zVLYqkZt3efOiyfq5@WWGRT5?zIV?<E7e)4VDnVohKW#78(-ikPmaKbv_uCWcLvOtS
zJ9%1I@OZE6zq~&)GP^PF**Wc8!1A3)O<Xvi67N=2PM^HsO$WZ)hN9`t)KHn?^{cLI
zxx58|CwsoWBPEsAS+yo}?5Z@=FcbK&dHNO9T~_v9`$o!|-7tIR`Xh6@Z}C5WJUvbY
z?@6vHh!fV4jAurkp2*j1ofesFNuNxep08@pRki1<)+5k`qURUtny<86Zh3D_%5hJB
z%p9I=PPgRipk%&KB7N%iEI4cMS(VcgiL#pXrku2jNwKoR$}(p#oTMJ<eQ{Pd#rP>7
zplpdO<QSK^B+BU%nZIdymtUqyAPUOsiK1{6PIqC#&wW`rrg1F)*6b&R{$-Jt)RH^C
za|nhc`bl`l^%}k!2ABh4z+P@~CLQMTf;Us8*C8X#OdTN+zwCnVAr09|Tlvag%U?W~
zv}twt=DKA}@mf?I#1DGZ9yp09a?uhwuEfXGD8jl3vC)p*STIftpT+yI%g2NOvIas?
zsNI2*&>>Y|x|gxBtSH|A9tS#HEcNK1Z@>@)17s5poK(k@fo-fY#JR!IVyIi5;Hd>7
zAaF=16lpZem?`Ii$|xd^dL(mMgJe{y2!67NB>K-7bawcjM>kd7q+}gKFBmgpYf#?i
z(|128IBsxW+OgrlS<3754JzXZw-%d?4+o-*mC?r%LzKCPOv*9w2N6b-t*$0=h)6q;
zbs*T+84LHTN9i5<hEvyr_?^1QW1;e*cw?1hs>DweDpVyBptz^1k=so(NteEL!x|#;
zZ}@4y27!&*0D%Vy0b!C%B`>@&U$ZV(vu@^0wq{+v#-DZiOX61xuG&jmQ(M!)ysIU1
z?6#{7vf$GB)cMS=e9hWvaiPU`ZQIptv*H|oy#nH@^XL0+$sZs4hvDoaM}Bo8vn}6p
zELAhjPj^m-7V7G+G+l1W@b7u29e3**)AD;QSK2PO%{0w=v%X!oJn6Q4-II__6&%c>
zVw-ta+wZEmN)HJ%DlX*fHcUH8B4MR6h@R=USPM{pnL7w)5T%x1rgXA)eRwnFEpiV#
zU}UXOYh{UN@hsU%O2WcUz#^U$qP3`9`ZY$^%=VcCC}TSp*Yrw83PmdtenYkU;LFA0
z)+#@x#K#qQV)1e88nGy=mRQ?67C8l&lLXK=_che<MNushhzExgtB*!mARbZzoBl@8
zaV0b~9M=$HXBa(%PbdfgHdEzDWxI|lrAkIoJ*p}qsfbz<k}8pV_-Pc!g1POkF}HcH
zZMwSY{mr-C>#|~Zc0+d_)V*#&s?JI+3pGtTsAn2}>iy9B<JGrowq>2qWILY8gVt<Y
zsB6qfm)l4wHtPCu+Hub?!vhzdoOiFux!07M<A#h!7dVc_o}ud>@$hBnG7NLi$|%!I
zE#F-%j|16?RF(6f%7->!Y8z-Z?<DgR+YKD3v{M5qhj}(7ekm68jXjOYuf%$U=u65)
z#<VzX|6zxwv&%${-}c%6;nK}In=bdxVX$y|fr+pVJQp0m4<G>(&_aVo!)(f|dOWK{
z{u@7y1fo9sdsBNa?9bGF_h9DCwXv&X?~lWWPG-g9+3m;kpzf^;Iz-Yh=iROI?hQFN
z0+v60>BE<1kNmhl?|v*RKBl`^rE^Lmlet(v%q-2R%%6RDx7S+nIMiX)Hub;e!qy4=
z<E0xV#kgg0eaa%)BW$+q=BmbCGFeXSDjqYC`4143Ny1%YPK!P6Hp{?~VG;5X8qj4I
zYzm`ysyA*~6<@8!q`hPl)3Tr@`M708fR97wS}eN-=b5mQUqg#z`@}tFXGRcvUw$Pe
z6MtG$iNhzwo6M5&Rp!&6Wm%~$R^Lg7ExU?55&Ck-js)^4{8hr=N~ckbx0(!0u4bRC
zQR6R;JPi!I&&kqXm&j<5dwBe1r&ViPoHl^i1<p8`cGG3%!TsV9$dimf9>xe(qBKIn
zaoJUL!VuDHL`aWENpr5(FDr~!6F-v`h~C(jv_j!RYNZT9^l%{pe$o)M*+=}(9Ek7;
z6yZr$^jkPgR-8akkOc;%@scOMyBDjLStlFNg~YlSquSW$XiSY`|1CDkHg1QNFgDe!
zpj@JPBkk{!eP>FHfG-@<;>`a`Y{pIsP7k1Z0IDUrU5SjwCs;lyp5m^bA%hxCBawFQ
ze36jGR8gTqfhv-f{(!b5%0;V|P`OBAhskT)mtP~+dM@Ui;8^4xhixRCvx;~j;+G1%
z*TX2L5og`P`lIuSa3FF@4jf2q=%)jE{p@63zdj5lfqA2p6IHcZRG;GJn*P4+=WX+y
z-MP;0DUOLIocj|_D--^D^;;-{@FfitImasL9+f6Y-A`mEkxmf$b{x4=aTrAX1|^D=
zDBvtW!9Ey{;k=y?RmPcF2}K+@r=F)mhd}(Uf-N?xvM|5pQlk=1hG{qph#L$1vkxvf
z218K=ePJgw2mqw4^@|yrh5Cm-UcG>F5Af4I!bf8d%3YPMYtOmcv*MBL`XhNzcl%v;
zV|wU=_#O9#tk{*^bnxSKxlLVpJi0gBbyrW1UwFbe)^Q};s#jSJhrO}wraM=;8$nff
zZMr_SZ>oz<AdRQbq!RNr?YWxvnMdzPo9@;$rN=X8E+^)j{kdlU?4$Xbj%g9qYdq=4
zFGR2_(b$$5pE)z5X3pmuw?5$P_RXmZn5%p4;!MfG)WOW2JMMKq8JTPP<@#Ta-CA>J
zQ;)F;cJ13&zdhTNZ{0P0Bz-8uU+zxz-mUR2V6WeJ`=D#4dA9Dumi(G+|0CFHUD)%j
z*nF?LcKT$tZd2C%$f6zZNJNf=RzI(WudVk#^Nl;wBX{c>(l6)Mb>FGO0jY)khkjH4
z%{fPU&%9@S&a-}|=M&G?Z2dQ<B@lS&)s5+6slNHD)?8I<zH04M&!>&vTheb@o|+xZ
z?74Q}{R6jKp2{{J|9JQ9#^b-*lWROa)$>lT5hQkVp2Pef9yqzxhj@+T#lLi{>T!tw
z+V1IbJC`gb0w7bA>+nz-i^OgON3N<NOjx)WMusi1#yH4iuGwHLiuIvH19b3^NfB(f
z5=O2I%TQ?SxEekTlQ%@_Xzh?BpW=S&Zp|n&FK68cX5+Wr2j<S^+y}Dafrmq=U%%VU
z%eu|hGaNs416o%9lF0W!miCe55upRlC4C&48PB?(nrpc2e(F|J&izzYeCpvo!t&7V
z$}T+6ZYkU8<lk{(2fIX@nG*jjuU5kjK|}gwrl*+po3OD%rD+$fPIhp}IN@oDWcb`T
zAOs&gFpA@~5WR8;$0*|A39{wLmmec%GCW}(t{E`Spbq%xY+>jW%)o8zIF5!>UkJZb
z72S0<{buI4TZMIZ_#rTn&RiS;`2qiBw)CW6<4UZPvPVNxR*<{6Yk>_nOS)6ELzn6T
z+Z!q#|1o#iEg`7y1yq^)O8rs9A*>yNDP7)G8l&1zr4n2F>Euvp5@Eb3{Y!HmA%yJ4
zchi1pUE_S+x?J5l-Kq5+{Gb_I1Z^L-&9&ye2S0AedSCceQ_lMW+t#7I1O^@)Q@|16
zaO@Ng9Y7!d6?m!dfiNq2KwmY5#<E>fe~5DJ)Ps$B4?eFH>`mCUayEW&<o%;LoYY*u
z<Dzt-BE9{#(}(kx&P{(Fyk7h>;8iUNa2bGwk-=7jIoB&;m26AGDzIp+J$Pys!jNrT
zDZ#Y=idZz!XDb1o;SU#qM^mYZAXvKw(5m2=!Jvvy=t$enrgcf$Qm8G-+Cww#13$uA
z&8~~%>G+l8<>buk`I=pGC$lwOw_eKCbY-1gI<D03qo|3ft9V|5sHXBwt3N`)oz&1K
zy`j%5d3!fc;o~Bvc9y{u%qu5!0v*QEtwC5<G?<3%)!XA=!%Uh&r5=;$C!<f(4IFVS
z9tszYBKqe8ZPoS{>R&ki{0rU3PrlmU^J4GelSiNLJ)xg#C%wVWk*Yp=BI(0U$*|y?
z%Jy>ECc<{gAa8>OAebM@lvL5|#i47Qz7GZIWLivSD~gQ)TZq?nLyidv*oHW(Jr-6D
zs2_nLfkwLxf|D~mzgWxhRsYFt_;=3#z~Oh>rlbe2@LW?jpXKTwI0U|jU#xWV^$*rK
zL7H43EfQb9*kI>9i?xhYA<gIF*FI=j&#zs4mTyM(?h3rG68Jq2D%T+UfQ>)+z-8kP
z@xQC&Bu{!*-qAcIeCljSznFKfp0Yo1R`NR^w7K}s`z>5k>jO^U{Zr2^NDbLlTXNEt
s1!wK2qBpbs6LIr>30aU6O`CBXh~F~x+^1qo=E+Y)|L^cITNr%)A7VmQ_5c6?

literal 0
HcmV?d00001

diff --git a/crypten/common/functions/__pycache__/sampling.cpython-312.pyc b/crypten/common/functions/__pycache__/sampling.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d886e7af2b8d077f72a9f31032528dbe4fb6629f
GIT binary patch
literal 4387
zcmc&&U5pdQ9iOq+_WEp}ecYvd97W5K95|RWh5%83BL{_i5!4i#L{}=ax4ZVOv)(;+
z*T;RV8%IK_t&`$It#lU^DMu73AWkZ%4<YSCleboV=vhAL=q3+Tec}z}c%oA1e`fu0
z@;Q*I4;^V|XLe@(^Pi93@AtR=77BGBNQ)c3%X}3;=wGB#Pp(>Fbr1@3NJJu5(6IBy
z!#IsZ*C%+`C1TNi6^qPe*RWgkTt>r;$co;}c-RAPAH2PjIO@MojGc)xwtqy@RV}9|
zvhC4%RaEWHOOl)(H6<}AtD-bvhZ}W+&yFe54QzWwX<Qa0q2>|7Q1I2B)pOwJ95Tr_
znlg3A>mT54VG&zM#vkI0XU*qY@n-FvcUi6svD=dB?V@YSi;(DkZx=#&x8>GjYi4Cz
z20_(wt!Z!LmB?6V(Q~ubl6Kv!t>Fjw0b}xv<r2LXvjycnmdj#9FO<BZ&+=s8C|i@r
zF8b^Cr(h5AKFgO0we~`&zScZzc{Abl?P5pWN~Wt#YoO8Ey}q?>`#ka9pYO2Pb~dcW
z4EezK^k}RkA6&D;?M@(I1=s9r2+qu7g+w>qtB?y>p-j(uKP~(rI*X#gsXumbkbWka
zIbAh4o--xY&~)ySY>slOre}FYndC&-Fm-t(2RE3L6e%mIrZK>srFRzw=@K=PmQ+dS
zNuQh{t7*<0mAK>D#GW?+3X;y5fCVE3CLQD2m?>xFDc+Pdm>9lO8)_~q>9W8p+?Xy2
zvH^`8K!|(urzbcmm68QnQiaI@+E*vLai3hR`{Y(du}&_9PHy*^``<l&{P<iH+W}b}
z%b9??<laOYS|Hs!mL9!kp8NOq%`Zm-wolL}$6(bqL$GT5QVMU9s)x9u*lvM0ZMUMO
zZN|8$L(#~M*zRmjvAu$3z&dSaT$V0HJE=Fe$B?Ha!^Sz=uZd#Pv4K_Fl}o_0&vxni
zY^;M-%>Yv{8c*1G(#BIpCwNAVqM07W<7Rd&J`vXwFT`tJ#sw{#)zo+@rwVlE;*>#P
zy9dT5bp~wEjGVX;f?X+~he70zl!K+<thB`LUN}`@cdxMfEA0L%d!R6MH_|odyW;ze
ze}3pnXrZeT=_|bU4`1Y)V0ZbA(i`(#S6}(~^hc+!_uNV?Z#}xSX|NhRR>b#Mf7w^^
z&G={EDs_Sle@Ag&aj5uA;W#NKpaR7QUepmRj+9fS)Iv`&RqgDr`1_#;+u@8Y3_*{`
zhVpo6d{&s5F27%Te}1YOetspKsDu;M@cs{8Eu1KJLnnVn*;Dcqg_#bR3#M*VzG1`V
zKq)Z$);yj)Rb_h%L;v(e?gm3ezBp1m34R8;iiz^U(!tpS#la<J^D68L5*jQD6~dHm
zcve%8%^~Y)9E+aBtrp4vcebWQTxY-ceu4<*TvJ!u!>x`iPFA_;y)iD4AK=abhU7hf
z#abh$r3kL*{nv6PTx~#;qHrS;mvC@3rfVboh^)xwB*zPari&Dd8igY@HO?zJX{{j&
zks9&`D1M@hPVS>l*by#1+-Z8f0Z)t}DJg^OA*c6~E@b;?b^r>-vyc_g0~Q4%zuh?(
zyAqo>Kc4((@^{m>Uikd*?Ze9(j#UE3mY8GuPUtAqWC4l@5irxEcpJXLQQ*Q+*wD3y
zMY}cWJ41T6BoQw*B&OX_fyF0?-_6==XW=4b{4J)TYT<ehDqn3R$iikra57{ETT*-R
zZQ2#xQxL7d?2(p%P+er|7peZvyUm6KwIzA?lUDn*Su8gdQIO!w#`WG<Ok*!RAjg~6
z_YmC{Zc2aN3u3!veXq=q*MEE3E|Ng!$vY(Co3-14k>#<xWLE)tUj8dMVhWz`fuIUH
zCmDbh-XyxlX{xkmRD-gjfue~rNFUXt3sAh^$Phr(Xm$i?q!!3vLxO=OM|4H2sh$(~
z8C+T(msD<K(m^GWDC*S(f-bO2D<>x$fqm&Er%se%aBz?V1*DQCCTn7Sl*r>bD%`tF
zO&3N7oQ7S$NDRcdg9E>eMybKN0UCsIN7oq|XoRJ-$FAr=S~8Pk3J>aON)zU;rkNew
zJ0wC#aB=PsNOgm98uP68V=ws8Tu9Bp!5?T~FDxWM43IVGgg1bT+;9j@%_rmpAB<>N
zC+N`$x9gio7KIGtI+rzaSvyGAmV}L#1k?6VKW(qGVU*<7FrO=JLRg?F3Rvb%o&*yR
zz9&<_xXGwbf1VhRk!%N<p(D#rB%LkPIr4QM`RX%9<rD-(1|c5eJtT)Yse>dt0*~=E
zWWbypVgrTgyW#G#RkCJ&wGxh1!m(RjOW_zu;!60%O8CV)J%8T(#pXZtR>LQk*pv6z
zAQizARdy5TW7mecZCAD}xIg{*XXme-zqS4I{@eX`y8p2IOME;2muLUJ`>(r~pL@I7
z^-ke+qMjry7@kXBNmiffzi$41`o{D!d-zVK!oFG<x(B-3Q|c-5GaEs+J0s<EDLu>2
z3&nJ`v#;>VT_*7B(;u8(VYXJ7t@CF;eeSc^wb=EG;9Tz)y~}+kzr482yml`Tn)Q{A
zEHN9`6Fvbbc~%w3i1xN4`zAF4<)U_!Z#|jto0JW|W-M3A1vG&9M|B!##IPI*Srv(M
z#E}<t2<}?(?g(rh!XT}>WQ=Jl5m<UJO-E#@34^G(183*b*9nJ2#m=uj8rYI*on#zb
zItpLw^Z%y;$JhUf3)+wpA%hs#o+SPomS{0eXoB!vtLZv@IQ$WXpGa`$^dCV+0{Se3
zI}I$`J~#&WC2rVWXXyq5-I}N+A)ZdMVR(!~kO6A@P`G=gb9<$8`@#;0bO9ZquJXI3
zcW2Yp(6*IOUnSJHu)iAGSvYk!&^3Fg2qDlGiijva14Ke&t-WB%_9c_>iz}IQLU{rY
z$5k@n4Mc}f@_57^$!cOwkp^}0-vtR=j5uTu+!*842*Tm7QSe)@C*Ugh9z@WVZ4c2l
Yyye^Dn87dO)y`hL>EV%X+)EAq2h}a+-v9sr

literal 0
HcmV?d00001

diff --git a/crypten/communicator/__pycache__/__init__.cpython-312.pyc b/crypten/communicator/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..6a1c9333c7a83e9aee675f2b07d61bdf81ae6709
GIT binary patch
literal 1571
zcmb_cL2DC16rRcMX1CcSRB6?=N)|lmDkO?xRn$v0Ahe<CLCs}Zv#Z^@*@W4N8i|ld
zLBxaJ>e-W}{U=@`R$3Md1@X|EBzWmTd^4Lg+X~{L5AycSyqTBxzW2TPlu9KK$jZUr
z^S2~~zOzMNVm+f<0AmqZ$iglv<08h)j=8b2P!zZ=xMEo<N??m-+>#bhQMObozJQC0
zCBtgSQa~pjA#3OZE~@o}p4`F^RL4Pbs!}f3Jf~#R3W4?E>yA%}^Pom;YmaO6rZ-C}
zCENF-j(n+~FZ&9;U$+6qBBE@M3yITyJ;;-&*x!GF8faebuLj@cp6RP}sK0CBWtKI_
zOANQv(2nZ<tvg7M6`o(7BK0b@J<Y37&G8)Sn6C5OwzAr+Yn#5Ul}y*wO5vd_J8)9h
z9y-LQSv?-445Q}T2Aw0eY54@Yg9uAINISj}i54Vp*F5T!?HhztNFY42=@JfvlI!~{
zTW$Mvj+U#rXE}2Ae6IIrxl#o6oWa8xMz&ffj1F84gW;bA)kGV|&wNc}Rxivnr`FZ<
zntJTBdTdqAd`pkFC+>bp-)k%PHr4do$=8!_F15vxE?h#T9fV=Qa%Y|CJ^{4|h@1b@
z8L=V$t1|@G5uDiR4utMW12<v~VFfR<{{+FP&iVoDQW$OqrBz)btmy+(i2}<YF~C)q
z0yTnvAQIDi93-Arh-(=>w2?4`ND`FK>eHBz6pJEpJjp27N0|E@s3zJR$uwsoP;SbJ
zHF@l_Jhm!NtSjkFQGQiu72chHKmKv9S@<eWk~G}g#csx6j^i{K`@wFQSZs#q<aKcm
zB!S}3)u>f@>JdiukWFEQahO;@lCbiQGv5TLCi)Q}3Y0V5nqDZZkBqfu{!vOEZth1Z
zFmkx?R}H+ad(#g$S;J4U+>i3yBc0hH`4=_Q7Bf6~APhsEPhdDCtacu$pbJ}IBf{E~
z*ONgqI$iu)aKsusYsM}&o0H(M;~CZPZQJeTQ_q>o2a{2XgC5dVHVk+{3}XrL9C>fH
zl`G|nRdelYM1#}p3E%|$DPW9$4I_MF16|!fmw(35fkVwyCobX9?y!O{b`FVnypxV$
Nt&>FRecY0H&_Bp+LoxsW

literal 0
HcmV?d00001

diff --git a/crypten/communicator/__pycache__/communicator.cpython-312.pyc b/crypten/communicator/__pycache__/communicator.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..f5c8cf60fc03a88fcfb26c34c8d093676cf7b9a0
GIT binary patch
literal 12605
zcmeG?ZBQIXb~F3Mu)u!6E@(lZk&qFK@FH2*mL>Fo0Dag#YztXA<MXYTodFgtJGf_7
z5_?dmvwdaca%?!C4N4_toJz$|%2mj($p8E+byfFgmqoXDqEy*+NmX3=BMGN+_K#HF
z>zUavSc%j5XS#OZboX?>?)UnAb@%+Ps>;ql`iJWO9Xs2?Fn_>;kt}*<;|OHt8G#Yl
zC^M)%*+CY{rl@J$JZNSa6LW?U%x^P-<)%sNHE0p6Z!?3|N!D-s2CMr0tZEJqkA$`N
z8q^yz8+V{Q&xj179W)8-pjosCrni}!dh0<elwp8u*#>1xUbzg)FktpQC)i;4a$%>y
zz0D5Vg+`$qo)z%4!?O~e74WPQnuJPtI^bCaPbWMb@N@}I=<OC<0ILNzz#5?%phu_y
z=oLHwYXvXBI-wTe4xtX9PuKylUhn~I5b6Q$6dC|FPL}z1sg*s__;@@P35OJkBwn`j
zkh+Itg@nQiAC87(nHR+2NGuW?;gwO5ACAYuN<@muPzou0h|llO%cD{}D)5o<iKsX(
z#*_fX7iROgYlb}jH+BG+XO!$afxW5c-(>x!#FOVmB~D<RE2AO|Oz7z0yvg#TA(<Z%
z#TXB>QzD^gBq0ik-4QvMSLP!!ACr{aj6`9XRcrbs<(x4`QRpK?B2aA(M`ao3z<=M-
zp^Q&-T<stSJ3GQ;azYVf9r=S76ao{Is-tk+L_<Db0);PYU<la-;2QI-jdAWt?&(WA
zPA9q38&JnQ61Vml+zKH(WF-^}i@Y?viD`-25fQkti7BKEMkeI|GzO3g$f{;&oNyIT
z0yVgBh0{Nhb{tJ|M@bdD*))B`^svS5K9^lW6fBX?=XHSZ2}Pq&4bwKn4;Fq{A|fA`
zQ7|J)Akmmx^-}ctO$6<VYP)nLL`Gy8^_=H5Qti3!iMj%cb1xd9eIeo9X~(G~cWP_G
zw;|>Ii3WKzt_ac<Shj603TO04cnjufRPRB4I{;i`{@t-Vx#vXMaWcuB)aHnDGSYT6
z@reO3CTPndPl(~ja6}Y%PzYH9rIhG$38Jh-Vj(mPydcAB)XC7N6iI%wYLUh0uxit=
zsAlLR<8;9IXv+cbV?x4RNFY>!Hz*+PXxh=0<hm$v{ozNU?!b95EJiMiG9NOC8Ya>>
z4~o<(O&~>~sGpamI0224Nf>A&V)$}t+DIMDk)V>OW@ukT7xpcp3#;0&PXhv~LsrNc
zX}inRHUKtU5eX6!jmQdBf4WMrb`p;&G!Y_7M3e)GdRc2*k_s!OLao%>1rZ@Z`G=JQ
zJF9Xbc`_CbN)s|p6_(9dxH7#*!c(|*+IRtIEa%DQ@wDSak~^UhZFqJhe7i*NKQ9XL
zFf1M#4P7RMkP_lUVIqO=%BT8!pWdK^rY&3Ymd+$i5Y!|YXO$z*M(B8nngZ&y$|s;@
zzTzEAJB}y0<Bv{U-}Z?+N-0I#PMtL9Vw5MM9FHmi@)*oZv+t-qMFiP_LqVOWLc5oH
z@f0HPBcQ_hDC^XICWKCWE7^?1Kw!~~M@1^2lYxY9gtjgzop}pId^oSIR!YNBv{G6n
zhK_jzp|BZg+k$5hq{$R`CTcWtN(OEi=t8{#--Nt;2u<dk@M+}WOtNZ4mr18+^D=2K
zjzfoh<tlJakFscwogz|52#3Hp=j&IoG1)m}G~3pKp%vL`!OF8}614@|m90NjMBvG^
zqdUoUYf_nwBcaiD7xB#jFk+)bih)VfZ3U6Qn#f=y?KE^n&A)(wM_7tRMTmSai~LYj
z3SW}>38N_=k0}w1Peh1SC6M9~BE=_o2!B!FF>J}AGQt-vE=J^u`k@dZ5r}U~StXVV
zMt)dUrgtf_v3l)k<dPm;R?_IQz{(<TjI>=ob#4^_NJC@5kgXzs*TJ2?9)QpW9Ci?z
zl_Jfr$-HWYHdK!beI;k~FAj8cwEaK^@gksR$z)Ik&+QVnx0LfQaQF@Ap&v+yNmE`L
zAmTg>Z^#)vi%2l4&*SWKBs|L6`16!B#E*c0#`xUQ<omw_pVg!X5~EupYV|2aI4uxW
zEi$VrK$586T2*m?i_k6K9`&XjeMzqG(bcud*yNz9VHjfUaIQ!sDg+X{!T$wmK1kn|
z&?s^UCr0;q8cB}Aenoq?!k2?ZMCm)XM<=Q^pC}TFT{4IY#|Z%&V%QnbC!7gwv0cJA
zqeqeW8Pz`pV)DfAQB3Im0a5o37+g;BvCw#SSvFH30|m6jwka@r6j5MQ5B>QR1o9VP
zJ47J&{xl+t9z{eL)x)KUKx2aHw}Fu}oOZEOOb~KfqNVJj(Nfk3PMZAY1b<!xMxpaE
z&UkQx2B!lGge8%%93a@ff7z^7V3Q#DE!gR)c3K#kR76=Vr+FnZE^bmA9|V}diUQ<8
zL@p;<da@%*Bv7*57>q9CPU#x+Rm091%Nn<1y}n__@}6_uS3hI<OUGul!tDlSNE;B2
z41wc5W}2O1$MTIQG{Pj9jUy$NDbd0*mcQ51x-nDCm`%^-Jq%pNvm{Py37lLWGCgbH
zGM*)I+DhQ02c?C04P3^PWk49pLZ^XYb}-{Ky+|Ul2MI<l`ssh+Lf;X-FBBftqH}&i
zByjXHF2kvd%;UjDR2mt<Qy4gIDv*VCaH6~v6Zx1Z3b_~v!bdqiPQ#^Ge0&HZALvMh
zEw4MAFi4l-Ri6KX9l5{@k;@SQLa@m!CCU|vZv~taL<HBT@PZT{ii(eiL6qT0V#JRD
ziZrBzARI@xQ8Z*0O>X8ewB8nHfD@1>Wknp%#cZ0^BpQxE$_YBE)&NRBRwwM|sV*Ji
ze>R;cKZUA9vw4v%wnx3fdcRFA(~lWdGw@TjA&Wx_!C;P@L2woT9AMGIh36nIqv{$?
z**AgfxeZk;*=_<+jsm#GY*aJlbzgDL4=S!#Bs~Y$xF^=N!tC=I&%Tsr-;yQMdN|d3
zIPH06jXPqzd@kc@NqJfpmCt_u>Ce-ir`Nc{`m3a;J>xl)@*G;}{pbFF>Q8%mZgahx
zRU5Y`RJEUl%seU~Jc|?5W^G*V9n|J;aP$`f``6|HU|Q(M`J!)_``n5b8bxj6_Tr>6
ziicT|FdSlMrR4vWVUsezVV+I*8&=I_Sg5z?gGJcnGV0Lf6);|R7<+Si1P-G_t80K#
z#?y>z%v}#t*N~}gN!7Njdwui4x!}5I$9(@>|GhGc%YK)!l-o4{%NLfcfDyof0(O<%
zO2h;<0UL_2Dd%Wu%Y01GAJY`L<E;cQ0X{{?k#*11A-BFf0jE>2*90BkWH0j_^EcS9
zA2vu?1E9K3y>g*%Aoyb6`C#AkeLw2!zo44~m5YhmbxVOws1Cv)h0IRuDq!>G1|Ptv
zaytNU$XsQH+p)^+Sm;i1jkm!wbCn-B-*qk=UKBDdT`BlAbfvhi_nn&=jap1KS&Ldq
zF?wnfqbHeV7Ovz9j2#-j0>bJx&pU`BmnamX60LrX=(O!IQsj8ovEWZ}&F^cm2Eq8=
zZ|XnoXHWZ^R4zy(y<kwa2ZQ615RZzGuM7s?h=-yW145}R7!;&1WGd)&**M%*Ndl<^
zJj98h8i5BvJ%T0#%?Mf%>__l8f(`@+5p*JW8o@INjv_dQ-~@th1U(4OA)ve90nGgv
z!K(n4wH-0t+z<?JC~!bVUIp+rbI)Y5a(6k#=EmF^cEb$WyEL1v?aEemW$Su!EqhqK
zmbG>pwV1tcGg*&qa5^~2V)jHK04z{>ioMU-tS8y~E)#Zx8V#PN`7?PnxwjT;!~IH!
zwU52eS6S`%o6Injowe?z5=e>Mbo)fb@B&c%4)c!1h!@A%X_m#<(TrEc(<Zzso-$o$
zZtB|lt_8|$t~|rcScXk-v&-ECOqiz4Q|MZ(p=Y5Bbq~E_SR#0d3SkCZjAo;xQqfVq
zwrdXNhjK0u@z5Fl08thX(G|t@=n+<7P#1|&bQp<k6<yKD3a;d>S4e0=hD^B}8G(DH
zI2@ShYeU(Ox0So#zi}0EADP~9&BF>_uina<Pcb8~JNR4nH?|0@@!zrUv$%F!?G}u+
zWf=vPh9+pa#ZF)hFG`D&(fg)8PmnIAo|(3kz)(@t9g2bp_A9!VnYMyw!DFqWWQ;Ox
z`xEe5j5$r0DQJ>tnqma2z}!UrfHcib*#z4q7@hP^mHompRW`-N8FKu(dkk%5Q4-27
zGsHG!5jZ@3A7KZW679+_fsrGe(Nb$az$kbFPSaF&ZUT3y7cG_17Fwavq-m_y$mO16
zxNj^<vnH|(e8YRRqGa&xT^GFHS@aT$)8!>7uu}@`U=PX#&fp`<%(Ah6Dbb?>c+-IG
z4NAsPQj3x?p8|}3Qv##L#Y2FPMSfp*;hbh!@=Im6fp*3<%)&P#oPwT(CS!DCgx>5|
zC`QdRrE1D<lqprOmY72o<-=ae2OG!=o3KNS1A1bN^B^j*UBM`=B}Q@3Q3A?i1{Gs1
zMlSa>Ml>)^S5R(Oz{;XaElLT{G@~WU#Qv+q$WA(P=MOz{KBw|#u~cFfE|8rU3fCDl
zLg#jj71-&@DJ$8XTX*~l$lyom6`rarT!Gl=cI9(Z&*w_ayqfZ_3uf1pH#_()>EW}>
z<I7H6zI4m7eVJ1B8_Pb1;cHPcv~9Wyyo7rTkKov5e<#Qo#%V=q$~jeq`jDff1eY{T
zZpvF>2=hoST@A;BsC_7A59NO=VtR-SI}BXg(U&R50D9Ifcm~mrx1YQWoKWFDN(qmO
z!fDk?ufA0KI2^YGY5p5@Xs}Vqg}7Lu1;7~R`YpMzShYs*$_E~JKT_cE(M{p8{l<#`
zK4PC^Sh|6G4elp?0tlzsX%hr&=1ag%nSHNv$~2ZAE<hhlh8TRz&O`Y3-YyF>$^6EA
zg{49NGE4pf+W0N1DR4kFM}(^?dsVgIdAo6CevL-d-<Nldh%xc%1Ua7Q#7zbseg(SV
zQZN*ij|cRMAVx3{1m<33d;J!Mk@o@k<9{-LyvE#TOnYm;^mi=PEQNl1D0%+k?~X38
zpV)8MKdHQDhF9Oo9JGC_s)e2Nwy@eZfo=|PUjREqx@Dm3MeDaU*Sg?MmS^Br>4E9P
zIaFJ~Au<kFmQ5rE4?@q2a4Gd8D1v+HN8<;6WhtYFr|ej5?p=9lvHP=UKYjMI=TptS
z-%;+rS-+E|d!+*Ua6?a};uK`E^wlAK0v`B2fI>8gx*Yg`N*3h+#54kk`YEAAfo%T1
z^Ut904~Pn*5}m@cx7>@}OYA?|m+dzzZ}06)HJ{bVY~01tO`m^<Y8i@vE;vAnqLV@R
z1~UX7bI7U%zbH`4;rq2Xeqbr9w#%VtT$HuFChii|GB`egFM$a836{)JF-A~*)XLn!
zi$v5iINThPWKr8x(!C?fKYX(kA6LsoI46a}Pep|CB-{c3O1x5&h6&#4!G~M0-;OA1
zl|C=J|0Z<v>93(@l&S?ku_JD5Z5_h1P}K&PE1_|j3}c-=cTYz~pn{BItp)W-Ezh23
zsJ57Preq%n>LU|TxF}c6aCHG^PW0;*C`e)Q2JMTN>#74GT>t621{otwz9^l%rfIV3
zEK=6Q?uY90-vd5*8u<Ag975R`_ug4Y#?_p1H81uiT}PHWS6xR|o=Uln%vjgCstmU?
z#qC_<n(ny0v*NroCuM5eQ?>2s+CbXfvBIvHlI}w@w)N_|`Hs1cO!Z@_>c<u%E8cYV
z(=%mv?M!Wb#@m|mwx+#pGxl|tciuVY)JHp$cD2t~?|64ETv+T{@ua;^L5m9S0{iaq
zh4{ksiuG1~>OjxBv*v^8>(fd8aLRdjeMi&68#l^lf0lIZS$BKq8|NAq{j2W%>vfF_
zp}EOL_uN#{)qKb8nZ5X7!@?WC+NHlpx_J0ZwbGfXXh>BwWGb4|70v54b@RvOj(vDy
zrWdlAnzmF;+e|Mo#O1*O7t2?j{x4mg*_S>p(}zm#=}ozNvF_qR_uMNP@4l3GU)t;c
zy{oNYGBv)1-E+?@TGBOp@9@nVXdLex>biCDi|)@~Ngq1%Et*8A-Ca9-?w*bD`WAd2
zzhEF}Uv&rQs0(e2Z`=r^y#A%rD+ia)W!jIY+K;E(Po}&lfA8x4N+-T;)!lx_xAT+6
z8;y&XmqMRTrhNxzZQ2xtOjBnHe%{X8t|txr9joqx5ASfx{>4k5J5t^=w_RuTp^|%g
zQtqDhjwe?_%agZyS36EF3@+{dtDk-mnzi5K7*7L`3byW6%NOp?{cFv=X})*%+?Spm
z3%<p{l&|Bq=fKxcs9j`l_%gozDc}CI@9`CT%6H_p=cq9`B>wA~dWz}ntzno$WUcvZ
znm?;!`sfA3;a<47*nQ)bOk+o?u_N7hFy%YA=6M3vx5k&LZb?<Qq^nzJdcFj{?oE0R
zEP7VG2bOA6-UBnI?^N%|Yq4JG%2c+dDqF#A$;-aA%0q>Vzcjq^(sJZh=W5^tWhfre
zroAm|u6?>pF4|X}ZSd;X1M{!Vy|(xi$oSHQ%;P;N_<4KQTqsPQ`k5bn?W~#YO*-2a
zI-&jIQz>U#l53*}KH#d$=?68E6on5h(FT;kx6km2szL-P`K@FY9`p^ZAiu)m902;&
z;_F}*PHJBOaE9KKkKpYBws;Z%==gtEGgkiJEW5w<HZ3S02CwyhZMDyIzV+(2rWaZ3
ze*KILvv&m(Q`wNT)N6CIkzW7;@)iKqp<nF;!cuHFGD5Afb}ombkq`ph>ucc!*QFga
v9w+lqhb~NR25{HRvh0S7VJrTXsrnD5>3?izOzhr!48n~ImJrJ}P$d5co3Ovw

literal 0
HcmV?d00001

diff --git a/crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc b/crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..5815a86e1a0eae0b8ba7dab9da7a842b00d74b41
GIT binary patch
literal 21201
zcmc(HdvF^^n%@lG#FOu*9^gwBC=!(QvPH>~C6Sb6S)?pdc1*7gL%@&%1p?fep=83~
zS#f+9a4na}^<7AweGwHqC-SVs^zNoC-(HpNO0Mj?TvZ5zG_bSWDyP<|Wb+p-d8=++
zsZ_qN2lF5_fVA4HOBdPG)6?(n@Ao~r8~@eeuu|Y|mj2)2|FMsvevL1ZGiC#K{uBZ;
zRFDeNVQN5p(gQSk*A3{%Q$L_5Ps4zLJdFcJ@-z*Y$kRMvCQr*q(SVi4GIU|vh<(6L
z!uqgf#4+H2upwv+J4ajtu94z_Vt6;bP7RdksN+=7{5lo1Fvaid#a0cJj?<o^-{4D+
zhZam6!-o7}2wBcB!Lb0-JNg?MzIk+l#TSka4TT~@g8f)@WMnK73i$ab8^F(!(?I|W
zzH<@087fW<OJ7va;cV5aDC+&}3tJ3%qybYUkiPd}nP%08Y*6{`p<}aFH@GtlKgLEl
zx8EIzj*h#dgKqvj<K~$N7iHa-Li~C19%KgnV`1Js!i+@Oad+519v$Po?tVym&L6nI
zM1rKSfZSt-bF=<S+4QY$F6#D&!|qW(%ZK38$QZ}F$2h153gG-Bj8q~i#bXc*K|k*o
z93jpZh(`F(&{%Yg6O4gyG{Oj0B?_lPY$}K2>;C>gJ3lho{&G9}@SgSnJ3a~@+m%K|
z+4f+F<Jr);F`fxR(aQXIN5_Q{Rb@U>7wdvjtKpw(1Mf1mZl$&~U3-4+`Sj*}$<6y#
zHb0u!clF@p!8Z;q8=k&3m_F2-Jk*;y^fbKPfecgtJ;_P)d1nFIIzurOE^1iNG%RKv
zEMz?_;w?er>-2z$G2>E{W^2F#?^|F=(sE1@#8^}*tngl>dbct5pjGwmfcLFIo2mpS
z#Mo6STqK1<m7*A8+(D-*ri8IGrNi5#4k^!|VNe%zsZy2~Oj)c-Spl__sM=8p@1?5u
zDtNCCmZ@@7Lrl3UMGd@f4OXa9)RLG=RZJa;sZzyk3RVNLZw}Ugza>};{?=d}`0n5)
z@auz{!EYGXdm4nQPG!xgNjmm7WVN0c84WWdOoaFIp=d-RAaz1_AnfNj_r;LkjYx3b
zt6GF!_gO*)Aufl2fcp3-(4@3PfzTNK62nB?!O-9!!$O7bQ8pT2IF8|3-J?-h>O5dl
zc)XRA#EwNGfI@C)l9C}34KkdUeE*FFrmv?vfLJ6sjKWoV=LZH{p}dS)!|GJo)Y4j<
z(s5Nmx|4bVKx{%6*A>Dg-Xv8ujCJL>i!|%xZBk?q%8Ehy_p_~djpiNFw>Sm$AZ_M2
zsZE9JDcr^yC{u!cnz|A;P<)A04WMeN6jq*63*(fpNQ&K%r(B9vo~k^ACE^z-y-G<T
zg`_?Kd(uM+jk4aR{z3<J+oc?QofI10B!!e`&>+=KQ};+|)UHoGEB7ozRa=~9UD_iU
zG{vBS5u5hc3B771Zc%z7g&>z(3M)^DZBX8%P(05V-ZZ}tYaSi+NLlwyVw~FNAClg9
zj}(gQr7_KY!n{-{se+~pofO4xEnGv;64%3sz`7XHN##K~l~Or{b8EJ*;JTISke*PN
zybj|uydei9?jGx<NPGS^u9tCYobp(EfXSDsaL|_(BLpiTTabxeM22s@6lKFf9~X)-
zf`Ro%F2tI;A{Rq!G=g~RzUT)b>|B^}H)kb^b0ADGyqCrH#!4T%%f*`VK)ERBU=8l(
zAd7+(G|wzG$rg%)c;5)apN|Gv92rspi<lU5J&R3rV-wwvL1s@4$S%My1SiNYm=7Qs
zz6Ay2*yt$33c4sKm>IDXg7q1Hc#P>{*(fWRq2+#_X9Z(8dI=KhLlIu7OsHWQNT3o~
zfY<mq$N^%JF9H&jV3y=gLntyB6-r5?vmC-V#74(PSzL)ME+e5R!dwy~1w$B{YlO}Z
zF+vf~k7nbY7)1V)eYcMILy>IQh2K=YLy3)J!h?c^)Cyk({RL)Ru<%jdANF11I3z9<
zH(4iEZ}E}bK3~k8XGXkIiWW%EO#?+<roM5NrCkk4SHr5S>FcU9w<*1&lb+IN$|`5}
zPw#*0z<cLz3|}8kmhD`tZCY+V`9&bv{B)}J%yRjewc@H-!))MMXfE{jg`2xR=veGn
z3Vam$F!a+4$sI>mi;u0Fv8?ax)YgXirW@_o+f!S1B|5M4u2t8~c3wL%cj9d)yq?I|
zi_`X&q`hUu-kPb~I&Zj9biHWymF1cp@b$^>Oq8Si>Qj?XE!VWI*u87^GV$f`r%j)G
zKJz4NPOjLWl4CK+w<fCnktu%W)#+CkO1`XWxz+he@5jA~C)Ti@#-zP5Q@tr&y)#+8
zGqcHkt#__BQ`eZOsF`_g`nlg0868e&@Ro*aFV4Mqv-4*aOE3R)YpV4~YV%QOOi#vD
zHCz9q_}aFX8<FdgCI7AJPmg@OX?bsVYTNNC!%A`E8sv=3MQ-;0tofGV6W7PC)UGE|
zZ6{J&p2Uu48lg)ocDLNzmWBQge2czh&B0asW9x^h;%2rOrbb(@0g%h9*IcH@X<m|r
zsbO3gIZonuebl0^r`w~)RRv2u5@1;5Y%DUhMOx4Y!kj4flSM_MW83nrr;X%z3X0&6
zm0YI2wmDIRU$$+{lvS@uODyGTTDCNaT~s#_1sEbC?Smx=S}KU}VQRt<H)x4SLEVMz
z&|Vuat7<`+QM^V64O%K1C;${MixEMS1j?PVIv~YN7=xe$#Epdg>*92<=pDm^DQ+6J
zK^t?NG^8M=wNlg%0J<j36PCCc+AWI>N|uW>M_;MnWdSR0k?Pb=A2%O_%vZb{L?!)A
ztDH+E7y<a(dI)w3x(FW&odUHol!YmjS3{gT66M_-z-5#LEe!?OXG4)-^b+TFpAIvA
z5SJC?aUTOEuOEbB6t1%hpI5}7^DN^JZudZ9j)#ypX32hU+puPFa(Bc3opa!w1n!Ue
z_zS?}CukL)MXb+pyu2)iWvNz4B6a=W&@(hhksbqZz5k%UL@(0F`AmSe!RUx!3Y?FI
z0u0y_Kq&>2fy2)QLLpz6;dzGTz?z`*?iA<{ht+4X^ZTNMLrjEud6YdA+naZ>%Z$f+
zFdPl|!`vaSob5#@jB5h#e^LK<nYvBsTCABpd#`j~JvDjioo(q_Z?e{#wzq$)hY!Ca
z!2McVJN+9JQw76NI2w)F2SZ_|qrIId+sMc}PxSSlIdSxCe^;mP=#gV5yLvhW>lyI7
z2A=6X+b39`?LG5Ur?2nCK$l=RbEM~_hh`s!@;p`+iBK?z9IUrb<b{UeXeh$&z%RxS
z&x~;FRt)Q5lvtF%*+;<h6tVj;jLcqSlvtuzo=Y5GWW2snKYw1ZXAKxWKRd*+yC9*U
zzX-#Ega%wmbRuuEDyu8jaPI-`gA%yE0`D^QYfH)3HpkURCLfs!{^;;pY0bKhE_s^1
zqt}-?*MV6%*X>kY^R@Q5_HS{}*Y+Q}#s0kJI~?abl&;R2aIIUYrk2d6?F(C%x9?xB
z?a0(NWy-6+EizVH6L!d5)10nuNmjR{s#{^+igrvskvKM0mT{HNHe73&Yx&aEwARo(
zA9#2Bly1g4ZJpiyW7oP7(tT&4s@rc_R;rF9^l#el25uC1398jXAfG|1k76H#&oFg3
z{OqIPso+=84>5eKF5iH`#}UkcXakt*D!m$?j4xa2?rsZWC27ld1Yrvkp@eHenjozY
z1W=hQp`5JKB2e~3p0qOdO1UYp9_C3~0BQ5&&_G*7*;EjB7<p@sQ+US)6-7fK%~Q9A
z>L|g~1D2@O8(d4^?p2~Rb7+wT6+;GC;17l@e<%VF90^7IJTvs?bLbWidu&7m5G=5s
zd?>GrYq1?F6f7KQ4!-EQVZn}HQA8yvTJfWS4}pwq<iZRyDpY_KglD7UzK!Cs7ZTpJ
ztS#L6F&?;2B)_OCrT8J_=l%jb5LIoitB*}S_Qv5^|ChF{^T%#Hb^WPy)8k(@J)W_<
zP%2E@>y!5SOmW?8-?bmi{Xn!QrZzu%tMQZ8k6Y6nr;{D00U1EVvr<KltJX>D)SeYf
z^_s<=wlpLy4fDHi9K3!o-Pn<A>{ziJxGR2tvT^^4r9+Niu{33>>J;in3X_~nasLrw
z?$_+YnV$sdN18=2&SdAE(xkvRtwn>w8nh;r7)P2zo|EHl>J)kb^PJ)PU41a^oM=fN
zWdfnW5C{#TQ5Y>~Xko_b#&v}Dxgf`Tzpqy?o+MDrY+!a946z&!@}-d|O+6lyB6Xsc
z6A7}|Y!=r(i%Vuv&+f!9TBig(l+WSd0!tCa(jdIVHs!-bEbmoF!6CF>ra*-#E*F)Y
z6_h|vEN?rJ0v~|gV!v86Sv0k6X2<l7bm{hF>Go7<%fhiG{-akveDy2KaS=&1=M~x0
z1JA20yT)k=EjAcrG=!hHUdz09KQkKFgV3*!?L5N-n9xPoDFBnHxD_$TMn~NKh<kf<
z6z35(Utm*Vj17Rw&j!4#AG)}x0}+7@umK3GXN_3#!GOR7E{ao!v*s}<v&IfX1PEme
z2g2w^Rh7K}pYl&1mifn!f;$FY!Rae$nBSKwX-SwiOyvCTh2RI##ptT#P{vh}a1@xt
zn^408PvSp2arRLjJ^K<gnam7}!nJxzK(5oEB$k0>8>uG(F|p10sD~8tCT4mZyn^HJ
zD!Uq+jLmMlwqtHbx^`!>c4w+~*V3_D{3ow|{OXFUciGZgVDP7)_<zp9C$yqrB3IB4
zq_OkRD34KvPR3Bq8do6`S>qeWb`<g#7+WmsEl9$lxOd-UyRdsH_)+x3=!&a*+0rcz
zsSF`dkgP!eJ+S--9a1tp>QbR#bQ1Hp08M5;j_WViqy4hbjs#l!wbXE_qzQf8aCu7+
zbzkLZOxT2hmxZKZCu!scZ^8&x@y+*Dx`s$NVN~`+w00)I+HH&*ltnXPQn6_baS)6L
zvXxnB<`C?*z$nUAVCBnAy<#<wn_$-&_JOXN1G*t9pnCz#G!y2yS*yfhd51zNOB(TM
z-IXl{(7qw>eazj1^$1G7&mJ{Wyexz?QLLV(o};e(?@QFn`sb)ibU;T#PbbWmfStrz
z`e3IY^>$!dXj3IyfrNR1bh2UpJIk*0AWooZ+Zg1>N5KdXWG;d+K*UO?Le}iRfI(t8
z^v1vwin?A7FoX#TMzWs>CfsObh~@F4kr^4~$HAH`wngE0L|*Y&2-6en+0Q;~CqV|K
zd{T}m%+MT%OIp;9C3yySYGPaSA#%3hIY`8{0M{vm8yTB(s%fTey6vs@FKzW1S6L#S
zscM|>ym9LKsdsymReRD^`;%4sQ&k7149Fe-XkDi-smW~iEHr)4w%GQ5dvbF}dh?Ow
z<|9+xAUIXj&OAB&WTNXAuDVQh(|rGp7p}kXt}j`=H(h-oS$$y2xCSYnpMHKmxYYcq
zX{F+Lq8se2D2&fmUaOm{n?JYExYYlV??d0Jy$g2wiz^e3bu-n`O@CF_y>w*u$hGdd
z?)0X%<fgXOP3_Bd-HE5b%T&~Z#klQy+q><_ie0%yh9wTOYVRcs{vW@qqN?j}Q*=qq
zFUqUe_3->Zw~MJw$7v4f>$8f@T_x0iZmsWf8~(PWsB5$SZ#U842h?DP3sMjNcV7HM
zAk@IlD0ay>t!$aTpVh^Pgs+px@-=#hLa+h?H)RRD3JBb!*ec_)tx`*F2ePgKvNnT-
z(hOF}!;lwjm%}JD=QtHaX#i&2qE$MOGj8l@Kx9yV)9`+F^d$Ke401;dRNM&d0PT6A
zC|)#NmeUA$m3j`T%MDcIMPA;>(}Fb6aAcrR%93g%V`-F11Z_#yd{k1k`5rwtYt@jy
z=Qm9%a7MU8UYFyf77^=-E^h9FlTUpBX$00x0Be?5i+I9G)UZO4(J|hQhjZNi02_r<
z4XR^3BCLJic+SrU&Vv%hlA}>zfW<uI$PaALiP+e`sE4hvQ6j1f7C$#03HYL;-#<JS
zkur<920<Uo7NZnEKrgEoEb7?H&?iz*kH?{)reF<m^0q+>CP8yH!9&61hrPH+5G8&*
zyhXG)!EnhR;@L}(NGO8M0#WTC*b7$5ofvH-ZDI$poXZ#iJA|aCs9XGy6X=)OFn$vi
zL5#u`A)%*)pML^zu`T)VQ*6-^q~YrB0iXZfR=QTUd6s#vf2FKt+5Yr$>(eRl%UUvJ
z6^YKw{zG3?99}xIQu)vVovLg}SGK1r+m|a2C%VDQ)Vgm|Mn~zCDN|fNW1F_El~>Q4
zoIaVU-g3=0XPfU^I3p^S%TJ#LGekw@Z}o<f(sey#0W)OvCIB!;9c;Z7m(5tFEq`YH
zRuAuh!R0kGho=u`iYw6k2pP-4@TqegqrY|?y<@}xyp}s5VdX>fW2uTZ5id_po}4vp
ztasIZ{Og)cu)*fI?s(VrWlekH;<9D`Qa^aVyIoIJK2CE;)IZ<U*<uJ7AS5{?ECP;O
z{t$4~vv2<1;AkM=Xv~5mECP_u6f!qTPyj&a0w6R2n3@294naEHhOtQ<P@XC{kYz~a
zD@aya@Q8$-4+gX2B((&9?QwuXLly=t0Im0gL6q|D34|K$lIpxKAXH1KT0J-YK0OB*
z#PtA<rm*!{a5Dn9nPZ)22m;&(xE&x!2ZlvrFd77NQW%g44F)3Yv3~?L^s{KoVP8Y<
zUxDYbD}cnlj<E_7{V}`>R)9}m7KMma$%~2pHF}6dYyv#k=s@^kC(*l%-jC3G1HCKg
z$)Lj$RT#^WK}WPfU4^Lpn;A+Q{vOhCAmbJk+wOrod-i`-(XsGDf;+2~Ez1=hh&Zs7
zp@BHP)4f^5S<o#teboM8`xl+}12-TyIqKGniHP={?Ez7zcd~c3``XF5lM6>hm37tL
zO=Ps+-QG%79uV=Rw9{$`WY-T24n?6rOz`E<AA&Chb<()FZTu4uxb%4pr`npPj3Iyl
z8iJL?>?K+Rx<7&_1?D<=tC#eVc*+SjP0f-Xmc=0@k5mJ+T0@UiYobyc0E3RfwlOR@
z(P?R!dB&iC4hg~_;vi_Cxo(5T3dY8N>YB5<@;zz}8ir`FkQrmG$6<F;TV)JI+<rJ$
z6d8g8PIzv5Jc~0dbcyJQJsy_|U5JuMAOw{}ar4xP`yk30Di$F}#FcRj5tWi?jiw>e
z48^7mwmO12xQax9hky*xKWQI_MjR1hM11)%yyur`#KM0KX}DGJ3af<DzDWR8!iuT{
zC|Gr<wWTW_N>)4s@<K)J?4ER;H(BRR)$L4GJdDSHN~h>dapjC-+OY-_2*@$>&)j(a
z`t$F;aBCZGr+jg7rTm%S>UAi=Kw{Vpb(CC{g^qN!H(BjXRqtHdcB}Ez{?C1%fdY6o
zQ&y8Wg|=GTq;0Aj%S@NIB+FY;<*f_nmKtyMf8zVtw`w^B@>AlXWVp?0PS8meQ2aS8
z?guq=0R+Iwj{Duy1iL)00ODZz%WxpYDLRcrepv`Gz>!!Dz$m;Q3GFH%F2GkU1Cw4c
zMoDeB3j(yDBi|?#&}m=<a63E40RUv-9K-<~5TPNqLn1;^=I7kvUW4ks0-;5;mE_W(
zM{TFsNPX-y)SRE>2<N|x?2Ib1lPQjU3rZsFh|ru!a(@PKg;}~-_#MpqHh2ZeuB0qs
z%9K>i)J@l=OB$0Ujj&HqQaQz^t6Gv(Evc&3R7o2UT9GqxBx5hdlOk&%<AdHXUwNbM
zdfmI5mj*uye;EE^-%9ZrAT&7YpohdjXs~zbnsm*Y=1n(j*KKL{zNC9!%Khl4hR<D}
zxmGQwRl6QpB^{bdQ8<)@%Wen%L5T<Kzjjyz22$b%FG9!lXxU}I<mFp3U;>f3>V2C)
z(8h^Ju29j-aasf=@yD!<Q!<8tP)Lj+T3lG+j2cpX+=A*qF>z#jsUoV@-`B*U$n{_!
zHA`av5OE-TWXuGu)b1;of^wbISC+m~pC^|F@hV5n02UsD9sr*#eCim0Mq~7)amdv-
zv{M(Fs|kxrM#wt{8?+3~78N?%&(-B=*F8oEM@MC>F~^#ZvQd99;D=3UqNgbP;CI<+
zM1{qpBc>DfU&8c>ddoQoZICR8O7c2>hjl7iP((q2XfQ?Rq#B9ZBIsjqnhz%gu4}=C
zGM`G15zQ!~9y5$Z1<?BudT*eI90+VGV|cxV6HH=2)M>ClQQ$ydM8Fw{i`C~dq{z(z
zwU6S4!7B)WjoarRn=;I}e(YLe62@N?Hmw{w_Elx)QuoxwnOCM?NmsQctJ+qp+LtRk
z6UV{J)S`XYah8^iEAMn(>zV6W*tfL%7V|}LWmDg3aX+dsXX&r2>T*pfM7Q~-p?RKJ
zcsA9r7tVP(ywlDp)2t~|wOOoiXR>PNYSpexd95gyG$+fO=Lc8I+u*R5!@FKd6;~we
z-?{EnFIop{Ox?`D^gz0zC0Wsus%RChGCh+$v-@C!npw5)fupfA9n&4@vK`5?9V=yR
zSqo3P*qtnP&sVM#Z_l{O6LvJsRCUorKK#s9-|aGNIBSWBj{kRX58**kT}6!=$PRdq
z!fB2Jp(Bf<G=+yoVz2dq#qm5`B!K;wtPNATOXam%rIpry9!{eMqTw(T;Ndia`y8C5
zyuc~fuH0jA<tj`F?b7)u$m!(7h#T%Eph(X{Zn>zzu?UnAjfj`8$RhSbBeR0MK@sH9
zsK~M*h8542&_p0mowH-{fKmSamu%)*T=cDw5*EF)(2)}Rq<wbJwZn6Vzq0HQH*3{{
zDl5BdP#&BM6d7vH;NmMto;b0@X)#=tmD`}OT&+_g$_22ve050Ko6tI~43nFcyTRZl
zvvVyIQDK!<^;Ju9HSjX{Ybm!%E2O0+Jz<YThH)*46t-xAi7RsHg!vxnO*!e|9QW{M
zY4nw+#DGE0wG{picbg5dJzD3e;4~eqeXVm;FTp{lm%KfTG}$i%HbTte0jM6B2eJ&o
zG#UzA2;=tV*vKd+@&N+z`Y;ngV>-WkmtaL%+ZTZp<APCq7?5v>A4C=)z>OCEQISL<
zP%>dOS*w_!hbAg@3wp>x6k9<LWF+X=o$&v##yMa1IVh>XnLgMbz_Wx+NJz7g6fXao
zD0@lbF*uMr19q!K*Ei1ctKrG;?Cz9vYeK)~D#s(O?;M-gzx~9`t`ANwo?LM~nlP+6
z%hJv*N#~Y##;(QYVmF)9Egi|0j$6C`3-kH#XTvKkPp7t?Njdux`forf9he-LHOx0I
zoLzD3PUzOMG5Yzkg{~FHu7vJui}k8`(tM>TBL?0qDsX7!CnC}6h!hN6$aNFC!bBUS
zd0C;&gQ^nYsT5BwX$<T!u;Z>Q@j~(z92`}k#F^V>xFx9{RJTheN+l(1_(|<DC<?J=
zyTE3D|Lp=ReF25HkUb25NtTc`EnM>M0I>=^bVfe@1{aD&5)^e(>CD?paL(-|FS)74
z&O^`H5O}Z`#$gyuI<OT+<hDx~L996MVF+zz>?nG~#ypOpMfCm>Ji*LI&yDj8$KnJC
z#bDlsYY73oDjx=^l9P-=itI+JBWf>#O|Dr;u;39Qq@w(ECZ*VeboLe$qCsaOWz8OW
z?<^X1R$LDQRe@oKoQa+7TQIIzylKnsq-FPtW$!nT_?5|5=F8{JH^)AREyh+{9R-qS
zoTXQXCx_n%r=1N+XG6-_gp^#7c5O?#w#{=X*N)|ae9;RdRhTb=Kq3<nbT8|&Cf>h`
z)0cD4(aLJD7Rhbkqd4%yX)SH#V33NB$_lO)cT_l-dgDrKGl`eUK+DFX`l@BgG4S$<
zbuCg*S|RaI=?Q#PHu-9qc60eC07>EWIeZlOBr2N)M>S|rj0E=_!@{-aaD8a4QZrtP
z$#HQbz@9RHcvvLI-89OuXTC?z%^M{M=()KdwAJTS1+S8H0SDX~rLV(HQb>6!t8aqF
z@%5Nu9+i^ncMpMNEu&n{IjPuoz&X+SEgm3%1N#?4K?Xt5jb{U7El)(jb5O4cic1jk
zl!+LKW5r%a@86-PK;pajN^tStV+b*jy@B2WdW+~0z?{Jl!O9OYgy_ir1ib8VD)z51
zLP13w8WD+aVhE@8?sHUvLvA}k$mV-0vY6~B!Xyg!cf;h@aOGhC<o;Rxm$o{%5<7Kx
z+1|6<)RVIJOu=2G>Y3K*)>$r9+L$=D2Fl#Q>4Wd-=a0Q>`I+$}+lRK5vV)1vwbH6|
zX+yHK;k~^#I<9xzWYXS4N$;Us+&?t`x0b(aS@E7tH9nIneKv9I8#p(G>fs&~Ojhl?
z@EjGs@1EB$>|M1#yk1HbmnE#C3JO)t(>E(Vs9UUCDccLx<YfK^nsZ?Kz<mGw@t^Je
zsN=(qm9j&3r^=L8&a_Ooyw#d6-IgrfmMYy29Vx9&mwJ+=o`uF#sW)*9E<z=&qCf;g
zBs;`koU=Qp!Fy1(Q`?XT>sc4uBK?LA`86BRD5W0(AzLq^$rw&Ulcj_kL*i|<e+wbC
zUWex5{MT1E?&J*MGC*QeU5d`RF965suD&|?>at}^fdP35ig?fgDXfP}@IVG=yLy1|
zPL4D{fiYJ7LnazSMYgqahYBO}ixfCiScwk@X<NZTg6qClCnhJ}xW_OxkYR!qpk7rF
zhfdW|I<_NUNBdd$#UnTp1r`N1=su0xd2o-8>=5L3ZU73+`$Gj@?3{G7DTo~`f#i6h
zE_*dzeQz1pz2poKAT)3e0_rITv$vd1;vZZ!-tB?@%Cd-5jM87cbu9J$H9&T_!-eG&
zH?H&OV>|kotPzszUb^v$XTEulwZO0Fuu=Gd1Tk3_=HVVsRI;|<Jz%nQ;Qp+5l%f~v
z63@mqLkKj`ofvTvJoSB9ycWijUr5NmVx$!3aX>qu03@p#xa|L@jc^*F*b0Z1ik_su
zc02+X<sBb8e(qX+<cVe52{_RN(eM#cfDNrSVR%ymeQ?c?k;l!b{C6uobj+(>J@+0o
zSU}iuHfI5ecjIuh^LH3m5vGV@hwY@pu!8V{#ImL4|36-|O9LUVncSaEl74jze?%;J
zH*5$t>|yrzJMJ2wD*PD4lh4^70?Q_hwddo(c`_h;a~?8$@^4e*z%cnifvri`)|9J$
z*-}r&)<buTH)(Y}J?uWn?rFqd#K6w_e1g^I8;J(T!Wg#ud_NrXhqGVIK3^~zfasE=
z&-Hip`A&D8@pV1bb*ihUU%Upn2g(v`<kzOMzg9xnO&>(FXVH5RJrjCC^e&)BEGk4L
zM5`=|Kq2V+&Yoib1Yhyw5R2RUEN(cmL=r*^Br%_`KgH00LXSWh0c*rB_OH?V8}vQ_
zZ;>MX7R~l3{gYeVZU}IH4MX@k^{viewBY^b+GRrpaIVWw+%eP}53P68l&R!fo!;1d
zM-L%5|7~oBli8+{+qx>_QMg%6A~CqWi=?EDo3fD*0;0s+HaQML>$Q~0i6uTkayzle
zCul6wd0S^RR$^|5gwVP(oAR`h^0bsvZ#=HV9+zUv<@^v@Z-xAsrdGWAd8_$0Rb}kR
z77ih7t`mM^121vjs<=&6$~hslzLV7KkmDe<zJ<hD<v0kfS3?|*M1@>%1u6Jjo!Qu$
zje`(KW0=liEX~G2h?I95#zsm9Au=|%brr_4Y&r<t_UesWZ(E6{GdAD07>%{JojPOf
z9gE)BAWkdJD9GB#YRUC`QPw_$uaBemJbHhL9*W*V$z4B!CfHQeNaQ5JDgBrOUd@a~
zM46kcO}qNCrns2V=qn!YC5!8Gd@V)~%}3u`4vO@2i2Vn6ML6c*^f?9lEHr(mn4(?3
zq>6q?Iix?^uPOU4Df_P|_phk>Us2osC$;mo$w;4}zbk&mNH@%ee@o$$RPg@*(r9bS

literal 0
HcmV?d00001

diff --git a/crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc b/crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..ecdabddd5c9a19e7b3adeee96d8b6746b0f00a6e
GIT binary patch
literal 12002
zcmbtaTWlLwdY&O?sG&rO)ctOaVo5eFo3dgjS?6M}9ZO!Nw&GY$7EzLNY0gNdOp(f&
zk!7*cM!PVu5|Y4Dkw6NvMHHYw>}Jt*P@wU)4;%NPyFedGn(|7SdJ7lpJ_P84B4#%m
zKNS7{b7qE=L^=*S1kX8h?w9Ysp82=Z(qaytUsU|>$V-hJ_Xm8j9??u>UV_9Tr*H}%
z<px>I5AyKth&o1{gHE3134;RUIiupJYtRLGf+9wXMx{ZC=N#M#PH|o4lp<C7*va}G
zbWier=?i@6_w$DM!niuFLP9#DD&t}G`LQo}D1r>nv+>c<@mM4r(&Hq|8ne*siOZaZ
zs*9Y;;j9K73P0#{aH=pu*OuFW<32WD2VII|un7JVty!_T7QWdvi`5dPK@l$Vc8&+$
z#moF)DU`sf?EEr#FUooMDvgQ+^?VS!Aud;nFLQ$xN|RCoZ<UG%-m2iO6yB<pW~B_`
z8nt$0|MuA^&LM~5h4OkB!<REggHjH?G(MnJ1+;2{8COEw3~?32J0PxxxJ9Xf*0NFy
zVXIOH;Uh{tggYl4{vAejU+grAhgD6>J%TSJm|lNxSjd?rrtvf~2O(I5^Pb|S_$kN7
z4pwK18)1n}VGs|PK9k%vzTfXKoO)C<q)1HDL$R>x7Yt_@G6WKeT`-C#;v}jBwMat6
zDiJ-X>th-YEW>mE$u50#tm{%2=|0#MCX-{j8tV$@0H-Sw3y!hH1atEPW0OWPb{7dn
zq3eX4cg=xpjd~bStA=2P`>)0wOZxI)x^e%k^GeZN(QT<NgX`I}H7>}YTk{fxi`<lB
ziVI>T`oJb}*=>MrvWU*A0I>xxASr%|f1mps?7@OQHw;@Hw2wl!AwS~D>B3At#_?QE
zjk4`EW?t3Ht=#;F_OW?r$GIy)*fGq79k0Pi(}G@UwX^2C;CQP{fO06aXB8~6YU#Lz
z^cktKQrY;yW9Rf|uM$`f{4Bu1I)R<BXQatWWn*iOBRjHrR%%*&$hNIki)^enSm}{R
ztW-9(_HNVc+Op+VN^v}NO(*P>Nn}=Qj1z#mhwkIyM-yPQUAg11w6&WBM}5!<<k`h3
zF+2B3KoCz+G{NoUx;c%XfcKXH$vpQ~=92SeZi4rV{ltr_u6SnKlXxUALCX^n{k)8f
zMQ&FT-X9`wk&(B^&p?L1iuj;E+Nn`bR87@$m_{TX3j&AIHA4)>LZiTrf@5k-iNuBp
zvPMIQ#={qkqR~(!dM<v+5Mh*Il_13$Zv8w_Ls-=)Iu;@%q7tL%oRx^ihljDqJ*?^{
zAq|CMRK2K14GCs&lBR^d{@&*eArc#k8)Z;0m}QH8mmz3sbcjxyEdYtx;DZD=Swl{Q
zyi%44$~%~Lkn+)BVn^OR3RvaM*!mz4{tUO)&^9Z)<z1_)gUG!mc~+&4l+>{z?Ov;G
zTspq=`21^7P`p;x08#0^(nnTHccn^qeaT7g0sfA+ZPmLs<=va~9=zAS=jy><9=UcT
z-Tu^{oR02_HM#Yjo_9}dV0y*ZzT(^Wm51woa&`aF)c&KNwf&~+W><Ru8CLRjId=C|
z4Od>b>T6B;TGPIrt3H3q=bshtNZwVcJ|)$srN&jMEhV-6?GHbC^}|<Jq(`CXif7J~
ztoE-+d+e7(H;(_h?^k`P>Yf#;*UrT%_pJIISF2Y2PpAA(r~QXh)rVK4Bilz=e(|={
z`OQWvO#f>Ur?*bmd|yKrbCcWM+v2>ryS%r-b@R|cNdIeth+&J^ySpe1TWdea%c;D0
z6%vb_ZkOe!bcMHgp2kmtEXc<VMr`?DkHQUb*Bt$%6f*oyqv(7{3+Xx`$WCeIHJ+e&
z&~S7UE>1vOqCP)Tpy+#8eJ2Dn+&yp2ytX*8FtJ>`;_Y0kti9{4xH2&}vFdF}d0UcF
z3#o#7`Bxo)lJBzW0gmi}CVmI$gorI*FQjs3UKY_P(wT@?5^ebxvANa}>;#3{ruC$~
zok^*a%|CZnZ7F{dT7Z<#tME)YP<a@!WjDN-57f`?&B}F7@gugxwCZLxf+1%PpXB|H
z#N(&ObxjV*;rQ6393PVP^QsJrkQOI$Bu3v%ri6uKA)-&pilztp{Q^P3WjM#ib;k6>
za5NqR4UBYPzKeBYIH9&t9F9k$YFLk4RBiQ(F%%&P?Gp|8cNfc^h0ZiQt{LvG<Uv}T
z9{@^Sm6}sh^OF9-<a?7>_go+PH2O*OA7aTJJ-4M^w$-^?h8u<NnZp3ipYcC)EON7s
zSswIb{<1Xf{5FEIw(L0f+CGkZ6@=%sFfD?{>dcBAjepBqfRyqmXj6jKr$P@H1=av3
zaBhSF0%OYqxhN;LJQNxwTQcF*60Te4NW>|TjW<w;?2)>+JlQpZ_&n`*hCqyR#Y`&5
z@)=bhCozp8Whg>4T^<GHKQye$LnJ<GB1R)&c{hCz#U{<X$dHWL5l!w#*w`KF=R>-D
zP6aFtL$7fPO$$8oZh+-jJQCCQ>G6Fu;g{oMDhcTzVFU7Mz-L6&<Zvh^lku3{XXrdg
zPz10V3ZIwbfN`={*5WK>O&F+vsPYAMOqa)FdL)WVnxuIl?SiVvLva$Yd)&l{P@6)s
zr>4xi0In&}yYX=5_zSx^?h-IYo||(h+&H8)Fm9oo9{ZdF%Ljm;_7g-2!Je*B_G<1T
zc?@z4C+w7l0G4NF7~O!Xpoh<^TB5T6=>U5TJPle!D5@O}n3emX2h9(`pFt{DHY{~7
zJh|MEs_eW~dFFcM4dHs@t?m~-EBY;ev-r2+)c0RVdd^T%`T}R=FEZR}Y<v{=S|xRm
z1Ee1xqfCHl4?r3~_MtIUZ2T_D1;|s7N0&gJ#!@~)o`jgG6+ilstyTy@6cmNH0F<4;
zR(}n_H#6KH%XpOJF0Qd{`S?etK0K9fcyxnvxVz?_n>{)^@i|D6iQC>5P%ajy7p7Nh
zcc*H1UoB79c3wT2stw%o1=dBVyzb(>m1{K(i_wMX^1+V|eRwEUvv0MgJ5|%2t~oG!
zf_Afl-RxL;eIb$bwXS)5S5D2HTJ^{&kGx#F;_<J$p^xp{22YZ58x$&(vD*R}GRy~U
zU4{RJ!}4wL+@#Yl+<$Zcc8^h$Hl~InLlHop$&Y~;kUJ}?rbl8F@st(!g5X7zfJ=lt
z4zb_K_Wl5*2^!Z7IhG0s`d&;awAWZRh)q!1GLGw>bI*4y?Y!DP>%J}R-@aO#w*rz2
zua>P9fdmf%{{H?mYFI^q02FR6(Bu$6<zq<Cp{O5-bex1$<P?Ek(gST_k;gE~T_mDx
z%OZ&yzF26HSoW9Lgqh@by_Huc=O&jbuU5}aroCNBsp|o&`~ft4(3x7QmFdCaF9WGt
zdDGxynsQp)8Fzskhwj4gw;u~C86>e>2Nk$joQeZNfdZuf-AC{QvxI*})yAXxCT4{r
zQD%h)x5$A<&C!3B9D*0X5sL0yHOK=B4!AzXqN=VciSOm-HF?Jj<hC5fZjmg2@6<N3
z-L)19x%A1M6Gu?0(Mb`?w6L<NQwkHIh@RO0U8aI9MxY043ce~jg?_(?1`XO{!Jttb
z435T?@hGM}!QkuTp(raM&*NNPuqTA1!I-d%Z7(?qIYaQ*P#3<;Z8-SSri_a(t)|0}
z7a<p5+lvv?j)+a0v~Y_~B+?B{G(KR7=Ww*05Nx8+6=}!Ug6OXPlEa{k^VPh0Y1aDy
zFr(LysYB>)&8kFOAv<Mz1}JEe1~!4#q-!pN_(1`f^{ZxKJIhgx%XwKE6ek70c)t*Y
zkv_LU*ct)`0AHaAVHpzOW=4+~q}a3BKL&0>M}IH)3Eeh~4NtB!53B&3G<gjI4LdgZ
zBtdqTI9T8e@=ejUeKqU~&1gV-Ysb9sPT5-9{(0fHuXQ`}5!e*@s7x0!0>EHFdH@We
zfwz?+C_W3)X5N|R(&hwoNr6jgbMeOuKTi7Ew@=gs)#yZ{kia9JbBt^yVJLZc6?l%P
z;?F$SkIlZoV+sDLtgmtsNT#20{<GlR712xy(!-)+fNqE-3#hVzl(k7!qLf>ZU*z2$
z%3-h{6yT^U`DzwD3!bI3tIdH_b6~akK&tt`^=CipNj4uyH$S)H`-`>K_IcsmGP-U3
zp!}SHhGYPPvlt+jvTOt(mz^rE-&E=-FCZ^tUHEJ0aQQQG6Gv(HhQyb4{K@4g?Vv-j
zn#i*^F%;S>avR1_K*3^sN{rw#3o;ZejAJWQSwX@2+EwiC_=<zz%R1m8^U9l3Ny+5e
z$i%J3)^q*`asaymDb89_mX!M`=sEd8fvPX*((NAeTRs*r!1k&IyGw*xZfgSB7>HiP
z*@LZO0t#%EdI8~RJCd`tNAg%X)_hSpA3@LHmIrPoOo##t<P&=a;BE;NVbort5lyG2
zGc}u;(GrbPGY5>3fL}5y`{Q~aO3_g@27<JQkT_vVb0ZAH{BEea5p?`8QF9DZrWS2@
zG&WceN21sPuN}SA2x*hCa1hk+qfnix)zmOEjRdn@qB%bsGmB@itpWjDPn1;Nsc27E
z>`Hoe-7P7bZ(H;)_-~ao-l=X_I{3kn_l~5iJ2yDKG%(Mv`KlJ(3+|=8%dfxJb+!Ap
zZ{NBT3P7)Rm!g@@JZdXaqpe@P`QxP2%s7jE=rF1cqZ{z@Fsc;=fqBf(#D1ozHAN1=
z0p|8^mV@GD9^kYK)G(KBdr9({)>)$$Z&31qD66^;P}M!r$!;N;@@{IhN=OgMp)iSS
z0F)d|FhdV+uawBBAu9Uhm<nvea1DphHf8>lnjoRqnsB^9JsunykAVXv9y3I|(>!m8
z;7<-;AQxbH{-P}!zu^E#3_*!e#3rH{ZnLwYn1&0dD6vce7b{CN<%bC?eH&V7s0x9~
zQBkwlxzM>Zv>Z-X?3pcEEAd`AG<Rsp2}oJ1Yg(;4kg7Xy{aCv0iP^r-E1Q1);s>w1
z_sZ4UbaVIh*FSUp#&grNQh6%rIkhfwo~G@h29MSW{|s``T*qEMN2Nu#AT(@9C_uwm
z5klVt=!!m*rYsdn6TE}798F~A14I$bC=mI6t{N<9=f`y=J`pSA_O{C3!G<yfGaMMG
zl}(FX3tj1oowLrjion){sDwsum#|gaGlmxSs!_%R8Spy9?8&!o$~}F$y{>#-qXAC0
zd8M^aKjoP&ArfqAI0s%lMPf9ijgQj1a!Vr`gWOFT(I{jj_U6Y(eyqNaU9>^~GPI=h
zow~)Qg{E62&37v677r~PN_v{^m9?hJb|$5rY(MPPKogrS{5`zDemDzAm;BCA-X?au
zfXc@XY<^C?Wa785gRH;qA=rW6ndmt~Y4>56!BdnofRn@Yp@H2i!~GH1Z2`(ANCY+j
zL;-5tMlo=apvfihJm}dGl-`UJn0^=3f(RZU;{uM*FrhjHYH^J8nS`L-nbcq48XE^>
zH9myK8hT>3$cfVOE5W(o(o5;mwpj;U^Q=~NrK-BFJJMALX5F8A>waGSLF0Rk%V*wi
zxf;5D@zbeKrdGVilhX0+XO7dOl+OXH{_ba<{d#~(@mw@P$M`(RHBQ?|tX^(tij_z8
z5-S%F<+0M)*g{;+H8&{C(}=%(`h<-rxb&`Om);;q`0UjsIOq4Cpz<J}k^#>75Zpe-
zhNCKTsDevgq8Oo0pd3vC2PauQ;~2d9#VrDZ!h|UiNGlW~6d@!EuZ08y!{OgS4ecBR
zTVMg+dee6VcB$#R&ng8uBIC}UuIs|5-cP*gJ>UOb<<aFA=8rG-E%Ysg-aUD%@@Ud?
zblnMZ;v1v#DAjOow$vScN(duPtjESp6~m1qKd;d3HgG0+(2+gC*TBf1#*1=WNw9_j
z9g_!D!sOhbW!6wFGY@V?Y`kRKT3i^e^B;OHSDfZY6No09Q)#w8E0tAlY&1CstZQ)R
z1Zu3E7M4tnfcfWhloGt}VajX(6pAo(or9Wu+G(yY1C<SiAKX{O4};HN!CRpZWU{R6
zAEB0Z0fNmCx>sH^uP?r_@J70P7igXC*4d-zgzcN_n;%*V-S)_!ak^W#Yn=BwI<Fr8
z<@48`Pj@{1JMS~g<?{knRa@Wn-10t?l%DwpB8H_sb;m?u)5kZq-1#S%&jWdoi2<l)
zKPIo(zsah}gCPqCTM&o5!j{-}r-(RV8{+byYm1H2evHIJN;ss!1s^(&O`R0)RB}{N
zQ?lfkBkeFUV<Ovl#Zy?6J?qW9!f>Cn228Z%R}<_C{{kIpXsT{L@w>Tf0d0=e#z3ku
z0G~^xtGm(gXwMoR9m}n^eQjuTw67O)zAEO#%`q~77uXM`k>WBB_Ok$;?8v>*qMvt|
zx1#i`i2yiZ=yx7l+>!)0t<Wto$o8CXF8&>AnhqB<joz4hBPs3Jt_45*jCbeGn0}vP
z&Nw_y2pF8Q`4Jn=oeG03b2lWMAT}(d-dg49%~J=jc~Yv|uF4_{pqqUT61fUID77}x
zSb)~*o}(VTd`g-{Cin%Ll?I0b`unhd`oL$0&cyBk)dV@aqDIfHb(?MN0xmF+*aLPr
z!7D?V)`9fJh=O-4aci68I9wj$S3YpZ4d3~JjAh>z!Yv$p?r<3fCE$s`&j&gnG6d`=
zS5Ky2-cYY{q3y(PgRs>qwAY@50KXTg2iEq^&aa#fU-3HJW<AH>Eq&sK@axiFmHx9g
z`NR*BC4CvVw|Wk~5y2WR4$KMR?c)CrZopv8-rau7z5#S_(OZ3w3_7@$LTg3nVEKRI
zT2X5P^AS*=m`fz3dOCYQ-|OekGLQc&P{H4}#eHU!AA9+1&p_~W&zWG)$(~a^a9@GO
z8yUv{`((F}=sYomlkg=KL0^zj5{`y6ZB*6I#}xv?)AYmb!&DarRHz}3qrQ34hpCq^
z2w^ac0YaHv!a&2|A_i3Np2id^M+8M2`3VM;aZ-TH;p>|ipp%X+lgUHW6X+*j=-t!S
zA-K$~)zv43>b2tfS^t%;xvq3^<IJ;bWfe0gSWr?wd+5sHxx?v_#+l=HMIT%*h}{_{
z=PF;PDObI?cl~jA{n8<bvRMGBbq~$s#l3dry&0E7Ji%wAa&gZ_hXcBi9OC{BsYI;H
zG<e0P%p)b@j`aqvBY>Yj-RQ}1qS()`mzkY6+MPFUcm%NxMrhyn(a8@_-gqp-6^T83
zrlMFp#%Jn^#lx98=xU?EA+~J581);HC^lru9AX384BQ8QF=@f=V21eX_%S#A<c-;*
z<<!j)P|)QSIX4b&Gj<s0s3)lK(QVwazxSo5*(J_lvH(?(hibbZ04c%q86U@c|AX`W
eo~!)>=lMO?@!wp>SFV01->`J@j~vEyZvO|=Im0mk

literal 0
HcmV?d00001

diff --git a/crypten/config/__pycache__/__init__.cpython-312.pyc b/crypten/config/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..4ce971bd25ed47af3b65b35f9d3723a40be28ea0
GIT binary patch
literal 236
zcmX@j%ge<81Z#x;Wr;B|FgylvV1NnA_^bkCOlL@8NMX!j$YqRTWMp7sNM&3Nm5yRc
zVM=F=Vy<M?WO)fRgF%z=7O!(rWkE=4o^yU)T4wq!=H#?=KTVcfY{_7L5i?L#5etyG
z#U3A@n3EG9zmnlI$hcps`X#vq`W5;`h9>&SKr>2G^YkH_^yA|*^D;}~<Mj$Ee{tC4
w=BJeAq}mmMoDZ_JSOQ3VU}j`w{3^h}sPvFcxH-Rp`2n{;hk7G>5eHBb0B^iF@c;k-

literal 0
HcmV?d00001

diff --git a/crypten/config/__pycache__/config.cpython-312.pyc b/crypten/config/__pycache__/config.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d321d24083ef1c0a11f06d957ae6098590ed9ffb
GIT binary patch
literal 4704
zcmai2T}&Lw5$^ffWq)P?^JlXLJm!CGSZtr|B*e#wfbC1T<4!SmikG1AvNOQq-JNyM
ztnuPSK_@@p$d|*36tEJVQJ!#|NLF5x7r*2sFXpfXn&Tu(XGOU;4kFn?QIx9rS#~kb
zHBi&jU0q#W^;K05{|E$p1lpe}{yW(v5b`y?IE}YE+wVeWfyhK=5+q_hnFs^#Y=TX4
z5stCO_y`YUT*8%fN8Aiy$weabw}|X|$Xb#jC0Qoq{svzLLyS=xQ&YNfLr+Fi(Q$>s
zi1&k}G9K+yQ)4k}g+<-=%l6-(vp^Jrn@3ogiEs)(X&#`Eosh{u@jJe~fwOEMPLIqw
zDnDeb`G{8zz+sq(Pj=lR5x?vPD##^31F{Ebsq6(>Ci{Sv%YL8-lnPn6MIPE4L@Kjf
zsMHAb(QJB1N#P;m<I!J(X?!9y>perGdR$G3>gc2r)5VOY$fB-_nyyks1arX>U>Qv)
zVmeBrNkvzvCXT68w55i9rm&%jxaP=+#&k`L!mpT8G#%v0@fhwArP&T~G^2~LXi6Ma
z#A_La#$h_6#Z%*=tm>U9RX4S1H)Sf}@vzC1#d+9LQ*<4>S7Kx1;b?gDiU^x3*D~?z
z(S(xHQE!|YZi}{!47ZK8ja&)Y>V2f4+PH5*jmn^zt-XChag3@-7#)klIW2X}J&;+l
zjL?pA>8L&ty7HP#T}h@@8l~|>R#dMml*VNRq*)7h?Pg2XCrrZ@;7~*XlC!egvM9PJ
z90nn>(m9$?V^_Po#dKDmP*c0}wjIQ`MKuGC!6jl7nhDMdc4&+?jtn=BHjbcWEDo?#
zM%fiG71t+_HC&`Ydm|XPu|tffQV=BFrZY_0K+-gx(%bEgL%5weqFK!19{F$NF4P7^
zPuGXTUDmH<Hmyrm#-f>o9?nLSiNTm1&?dAwp!m1l3S@!g$fO-J=B!O}%tL#WAzAW(
z!T9$VI5fl>yrv|^48OIZgbvnl8&TY8>e7?xt{YwS<ms*$gpaPIx-2&P5l&|fk0ixY
zab1$8Yl=cF?2Ly%m{tyCmaKb(HP4|H&!NS`&pa*LsAJKQFyWX-`a5*sNX%@xj!b5o
zEIhnDHpA#Hy9?aTQO}SWRxfeJCp}JY_nBiI-Wg72@W)9!4AK1#-y~$_z3msAvoc4d
z{2p1RiJT-FGsQCGGGXB7PV)`!GMQpR>~#Hm5I}%MGmSVwhW<1oZ7}4acy6OfDzcv>
z^`F1c`_X$tQr`!I7k+$E`mlHCU4vKCO3L7Iwc*vGV~T{%q*yWxcZ@1gU4f^$Q;4US
zqA4E7aBDhDCi8B_WTfFLgdN3mQZJC{+9Dmo1xV?DX>AC|EP3v)dE#%_2)3;S-(Cs6
zJvZ=gHz}={KfW4h*d&bi<WlQKu;G6AUU<1?HF#of;3WrxFKUjg)wHhEv@YFTt$AyX
z|J47|1;gfo9SxQIyr%ac_xPZzS1c()1*&PH;$!G65Iqm`9HZwk;rNeM<d{iZv8REz
z^1NBVO7S~IjD$GD7l$mY>Cse7F`YuIah$abiG4dXOp6&l$T4<eoIX@+xZRnvxT*oj
zEZOi^&yW2+`PARB9u)6)-s_y}|8(GaP{ao<1(u>?=Y!!7FjIK!{Q?1^f1g7;P@Q4H
zD0#4gIJ-GDvY(995%O~|&<r=j>xcxi?N{S-Y>vzE578me0O$=o$+4G6h?ze3Q$^3v
z6xO_$nuaPcCfaEp>L;W|acUwSn=r@5<JXmxcvZ;)Gn7~`SIBMfxXSRziju~jX?(*K
zhpepG2+yQtKzPVyI>ackUNwu618IiKOuZT=1w^(5ZKF)GIGr*!U0>|2J=5o4wbl=0
zmb^Gny-<I*eo?=F^WM$X1IOpw>%pVwy5DteA=GdGWUg<%dPAsQ6Y5rky2X!|E-kk_
z6HaU*<e!&S&jtREW50kc7KoP=<T%@`Fp+OL%xpGxFOepq=N;Wl=y?Wa_j4^|G&@cp
z7v>!bFxltYmSbhM7WQ*?nc-lBlSz;OFaVc@kT9KZYcs>$DF^3sG4?XKM5c(H@%X_V
zCQOm%8&m-t>$dJyM!6)7D{#5dX&i1qiX<7Oz0S*dN>ysOv~(h_8znZI6@Rw7`4rr|
z3?4yaxT&H+S)@l{gFW7+?Jzdou*buDHtxf9X&|#?lP&QEH!5q_DvzyH9$P;BsA{$H
z>=WVatBtbyE#mS9*DDV$bl>e>jQ!@Fx&Dpny2YXU!}o@lo0qRWXj`p5HFshC;NivI
z#UIVz07wMF^V~+QxKy)Txmw$K*9|}jgr8T|{__1zKgilKE8!>Ahsa{Dzqgfp+`<4Y
zihG0r{%tn{`R=-YiCD>tG0*MfDl=Q73!D(}o2JKDf=az7%NI<&4@<O4AW*E!D%Z-I
zSIU}~hE~gtJ@Fi~kX(pR3^P;Je?kZAwai=v>(hhZjcBOAwj`!F0`m17MB1$|0-!!S
z!(_5hmjd2G*;$MjOr>Unh&c=qLniYP;mi=M32ZzcHBcY&np}pfQy$&ypan`dZG*K2
z*cFl&LRykc56}<{(<UTXFdlGL@j!>rMj#q0?PMl;3SM4!M_%HGxL^VZxWivI|NSrg
zhc|?ZHKAceXjs&jhL+Df6;5ulE^p5Z9Bx_>nwI*Po1Y3@d)S@{CoMcP-k$Yf!&)%B
z5)41$A1TW-t5CuFe>H#^t7k_$0GoZ@*(;F8!qMIn+~Y0=XspoCJaFLqHpbbT@d-|_
z(*)i;9gO06>03aG%wSvbP3Q!3SW^*PSOKK)Dp|Fdfy?CUX%_WFH*C)W8GuS<>I(h6
zZHDzCBnr=Hv+Q0e0S@_PGWjjLzyOTc!chcT@rVPNKXX%zb$-@_gb9w2g$pC#eDFwk
zB{O_#!YNY4777%7n@k@rPH#n%BcQ4FJs|%gui&y)UAr)RcX-aX$@1Qoyzgzl-x>H)
zIPg5!j8~9Xi^uTsAFT@3eiG<m=7XomA3Z(HU%Wr${>t^(hp56UKc-?x-#$r7s&XcQ
zeL<40WuggtrbLotH3q}1su?_fG8&$gN|R=fpH$;16oX$I5I6XBK=FSE<|UK{v4^g+
z0_p_zOyHcs9{P#?0LTMkI^DXxVu+hpHk73$f!reBvK21RW;>}ra{uDJi)(cqD|H>~
z9^Yprw@W?~ZVU52dvc^_)$`6a$JV=_@U`0>#?`vz_P9=ORq?K)TY}3~vsLPG1-Ggg
z*KwTa!Cvd8o4BjKW!<ipZO-XgnxGPJork*=p*=thA6&)p6E_hbwe&{t8eSFu-GaAt
z^IBuwH2ZK7UINYY?0C*uhV7vjU<~W1hS>w6lwr2Z2_t+-ykC))uZjOFa^$6Zh+$f`
J2vSqV{{Yy8Bp(0(

literal 0
HcmV?d00001

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 4f71d7d..2f843f2 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -206,10 +206,13 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
 
     def _identify_required_grads(self):
         """Flag all nodes for which gradient needs to be evaluated."""
+        if not self.requires_grad:  # gradients do not flow through this node
+            return
         self.grad_expected += 1
         if self.grad_expected == 1:  # only backpropagate once from each node
             for child in self.children:
-                child._identify_required_grads()
+                if self.ctx.is_differentiable(child):
+                    child._identify_required_grads()
 
     def backward(self, grad_input=None, top_node=True):
         """
diff --git a/crypten/cuda/__pycache__/__init__.cpython-312.pyc b/crypten/cuda/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..98ff47d6557057079f7c095eaebc377ceda90157
GIT binary patch
literal 215
zcmX@j%ge<81Z#x;Ww`_C#~=<2FhLog#ej_I3@HpLj5!Rsj8Tk?3@J?Mj8ROL%$h7O
z8G(|TjJNolLtPww^7GO|QuB)Qi;9?m!hV{}x44r_QxfA#5Q4YZ<Kq)^a^mAxGJFPE
z@Jm_0B)34nLchq+L_fKxvH+-7AEZe?K0Y%qvm`!Vub}c5hfQvNN@-52T@fcx56I49
dAt3RAnURt4E`$09HU=J<3tTdd>_zNAVE|P#G`s)+

literal 0
HcmV?d00001

diff --git a/crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc b/crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..f4b9cf41b13bd39afaaa7a7557655b612ec47c5c
GIT binary patch
literal 30985
zcmeHwYjjjscILhHQmLw>dZ<bz2@oX-JxYK8nKu|L-e4>n1AeHxT@<=kLPAL5Rtb<?
zYGcQfl)6bQjY&(y%tG#Xri(Edt2@awnVDpfOxC0)$(mFl*^(=)3F+>viC3?g0m(Co
zJ8LrY?Q`qidR+;V*q#0{$7a{L=l$4cpS}0l=jcz0iYy%5E!W?7|Ju_W_apjHoFU~|
z_)qYRa{?#uJzSgo%eV3DTi2#zzxp=4pnH>RGjwrnMjdyM6ZCI#g5iCgTt=IzlM{^J
z=GzMJYr?M?zXkX$6wJtF5efmVf(6hf7VP7`hE}x|={V6M7QN5QW$@e;n}HL}8L`&9
z*usohTW;(i@3($Jg|)V)%48+$0qNhu9)Mp$Ps3_#cdGp?T?&kFN{gag2QTn%n%_^w
z4D%8GIOo?5ZF*kp><WcN$rtp6`=s_WzK((3_Hb8UudnZdC`ny{=<Dc{e0xvsYdPB2
z+j&Cl4I!CYEy|+?mEhk(1;DTJ<6MLb!za5DekVK;?l^aoZ}sy@=b@I?eMk523miDv
zy7$E4XIqc^bx8x&nJi}Y2bB6l)FI#HpVqAlpX*<DX`QrT<GOZfus<yJu4^9<f(!)k
zh4wV{4<-u*vAs_UqL85#UFZ6H#B*YAIMlSWr>{NO6WZ0JM!QgMh#LI2m%00E*3X#B
zCz=vw|D3%fYF$7uh9z0ZTG7|n6G|E{O2Ph+UniLnB@qs?mYwoRh43dW>AIw11lTD-
z0{}|@)Wn(WzZ7^qF#5{0an*uOXLK*<IaBQe@;xwfHc#B(maItJj(@77ipVWg7zvw2
zjxZS5%eU!)XNGRJ4&)>XM5s;ir+<~%@1}<3xHhw(15WGlpW(W$&C<yM&&g+1eKx@W
z9F3&#ySTeDrwDwCX0d1p9Z+hbRX`Jtb~@5HjZ$7jDbBpmBM5bgPSG_)Wg%}leuvO&
z(R}u+7;XLv#TKy;mZq&l#7d%6-F|=^CzdGf;5iX%YSDBWHKuc3Icngpyo`TeH*mr}
z!T2WM<`MP_Cj6EP1z7i9MhVKqa-s#wifXICH>iU8y$s*hjPK?6wq<;;z;{u`ccoB_
zvR4XrK%d|MtP-4n)q)GKMkoPXCDsZD1oxY~T1y=Z@nnS5BcwE=+y;DmGrs-!F3b3C
z6l*artARl;<qRi2l~EDO(>c_-*Qhz$mdIJ5k#nt@6SJJ_)H;`G<ZM!NzLJ|SqqWO5
za;{Tzo?0U33XPoW)tsmEb9M_FVIBElYOf9omFd}1$MOlajx$T-U8&K!je-xDu}L^2
zQ~^Ub3)T4ABGdqG6;=Um6KVms3w3}ygnGc8LIdEFf*){~&<MC&SPl4;um-S2SPQsE
zXad|TtOML9tOwjLYydnUGy@(Ko&Y=~Yy><kYyvzYYzBN<*aCP|*b4ZJunn+P*bext
zumkWpVJF}*;Yq;fg<XKhh24NBgr@*c3N3&y2zvlu6!rqXB)-u0viMS4n|QMAE8>f7
zUlsSaeN8;n_KJA4EikC}A5Io$Z%e^`>`N9OT#JvWc0abY_MTuU#I~?gY=3E@y`w3;
zm7Qwxy?93K^&u_xxpQ5;oxVQ!gR}*PeBm>}urDZytkCuWNy47eGwAE>3;RL?{r!DX
zSQM5j+}9vBb^1=73x>}P^qgAbJJsITd!bo4<zM6L3i~d0_4LRkBUF^as7~|^^a`TX
zGe`|dx6;?u8}9S%>l--TBg$K_FW4*is5B*Cd*8YK0W^mdD2btgp0Mw9u>CByb?oiw
zqMCdsP>Yh<mr6-Z@tqb~3qrwjqAy6D7kzzFS7%pmP;RDpsb6fT9?O}USXH0U{@;rI
z(TU$rh!bn45XFI*%Ph-P%nf)0-Q^V#{&ib~?^aS|{DyRbuGfk<4Q6Io*IO3RbyImc
zPSCxd;zvRSN5IZ0i|P%qJP|ISwkE<~<_GyOZQIO6_^`T_D(s)+LhU9cMfx|h9F$R{
z#At1;5ngGJREyGRTymV!!fs+ia$H31&7yU>bF$zQeNh>JZihy^?v~;G)JSBP>o*2p
z#&EN_q@}YLcpsJq+JW~uTp#c?e8zW52!?~Fd|(g>KSIEWu8uC?#3@0%(A6%UlCgqH
zN~LTM_WDHR#9{=3DQu?9xUI>nWDQUbxQ#_81qavmbe)yg9+lU3x*O<+YOyA%P?VNh
z0H~f}xy-@JMf)yvrRr)5hEjZD1GU|+cJ-7H9_$y<mk!pKtlY|i2o8k%uzb6~L}KA*
z)hE-F9&p8KiIUhEl!P7;BnO3NlrN7(lR8Sia|0o)PZ|#*NIrS+nk;HbEmCJ_yZS}l
zr?&eV<kgRHqwxvQ_^=VnCWQX&zQes;;jUnhoGYJ$PtOu7noXUrLGF><7L-ARLJ&h;
z62?~!q+VrL)#Q6dyC+mGxz?nCdN}k1ri{@|hB1TacyC|t+KkR?$Qj_ojcksRrc|S>
z$%3v>fO1Kt!1AOe6b?$^5MgGrAT`V2$wOU0;$UyPDA8I-8d=AZg~%!+N76vkmehs&
zl7%XE`1MIcNbKoI8fd6l`5`^BqZ2Z(Zw>^yFsy;VkT+)#l!#489{P2F%iM!9&gP2l
zn)9uiv`y{%{?YFp9ed$U_>W%w{Z~g0+%GAgEm@T)SvBV<{Zy}W7eC;1Mf>^t_I(RR
z^57F;X0B{`)NsW%XSGLn&e>e|te#Qfdh3jJ_1v<RH+Ejz8Qu5GNADH6-U^HaCQi&0
zRa5Y`Yun!0abwrDU9r09Wg95PkC*vw?7p@;w(++HzCZNcp&!)EEIUTwvfz<PPYcj+
z>hQunnN}Mv>$<pM1855ZWp{xOxx$o&If#^?==)Tr_kD#9e?Ow%$Gv52*L8C3y07^-
zZrB)BYl;{_u~QUYazu>XRBw(`C}b}mF^=i3R2#Tq{V>G!2p`dRaS_9N{IBrCrZg?r
z5{e=wr9F~0O|jFV$GI>`Ys^JVVU=pCZCf8PW%Obd>xH^|Xx3=dtWgb3^`_2%Q5iPo
z)K79Lb87vru)05xl7d>JjEhpwafG6r)VR|=KtfM?jE<uwp4E0S!{;|->lJ9jdjkI!
zh#h~L<7uPjzD6D9Gm8$Z+j2MU^Eoc8ZkrwI^nQyU=b;TjhX=Xe&|l;wLIS^mR%mG8
zG~>;rWe7@|WV*(d>rGu!*R(##hh-Ijy!d`vxU*C21qUMS8rqn*`q=tbRR@7UTI^SI
zokTUET7bVM(R`lMZM4ko+I{87==tlLXffTYj8|-(wQYN-N6cp->fjrVYxtx|rWjc&
z4~k^tbqXGJyy~*YON)ugU=6Gp3qoZWfFOKo%o?)COwYziT8;|YAW8M`We$+kh=70C
z&;+O`%B~E}3fJ7hL$^F1th~AMwsXe6<7(^Vh8cJ59p|)r55{MOD>XiAns~oOqIpm1
zu|FmY&ICija9EO7BPh4Qq#gp@g|-RwcmN6-e}UwqbhP{tgsnJ~Gz78lB~529(yv4^
ze$pg!n;}XDQcO-J$F4vicixAp9*G*yqnObD2Dr@4S)Cxz9&hvjNbHQaAz^L!E&W4=
z8G8?bE^oAa%IP*(9+<d8{89d+lB0L3-m8yQ#a^1J-aOheerW8_)g!lC67DDCB}b$C
z06zAVPi%~P8Yed=JdM!<_w4SsUK@FB;=+u*?w+@HvSZr2Httw^&t5)J_ui@*d;Q#V
zFMQ;E@dq1jo%|qhGjRLZ%-Y@8izm;|l=<%*OOzeB>wPiqcu`JXJ7aIS=UtB0VRDW>
zkJhblEpWOr7xoIL3r%!aM4!25_f5JJ_PUrMZr?IxO4zr=&09X3_j2xM_|N7oT-i%}
z$cnE2dhOm-hCeX*_xcT4cuj<zZ2(*0fgY9bRtXCNQZB-2VRo7z`E{*BuIy=Ocy-v1
zz1&0+Rxm6PiMq+N$q!Kl>Fre#`z6ioRgMsmIOGMu+}Uep?Trb0V{GFGJ8$lswr`D_
zx5`_Zx;-JG+M~_*An~IczqwAkM-isF9OM|yx~Y?@kc~CnuV+n98oMB>T}m1+1bYU=
zY)-)%2!zCNS6DoU-c)1{MpH%{3Hu>p=h30cnj78Mx}%1-Y$LYOlXuO_<lbb?0QuSc
zG{HkOTB|o&vvXYT1*9|@d&b&GG{+gk&jN=$Ic=5MuCtVs_9tje?ImwTMk2HJ>V&;I
zZm$0F8cFk<*GLK+D$QwRiX-gPXk|^pUK2Ohd}*yr8bfD-&==$m<{oONJExs2X$Ub3
zIb&Isuvf*+RbN^wW!%keBO&xqNlqJy^}VPukiLZ77dQL9ye4{3Y2GkWVBRn?iQrXA
zzLx+Iv@9y7t`gdD7F#9Cis0oHkvlfDf#od*nG<*oQ6Unxi3qX95Z79(#OV-wxo`zw
z92)V@zgi<aSX>>kxDeHmTXu`&Hz@Jx-;hl^Eto|d#K=6DUhX&P^d(wUH)WzGHB-P7
z09gc0qI5&f99#+ay+H}L0bne=b)(_&$XI0jwXxT*0eNWy@@`=Qj6ySN?%HeSO1$Gc
z$9BeTE7^%l{`9E>cL?QvF$1S`Iz|47;7U|_b{{D?Z#|Hx8KtDF0H~J@axZ7WE_fSa
ztK!~mQ*{aNwp2f()+IW$9Yy>@JCxmpq`tj>K%)y!Qx|eJ-zFp_91PJM63(uShGi1I
zGGSji>5kji$4V3S^>Oq1{I;w6=X%!m3~69VE+BQj$PYE{mBe6})EppwJw1IFp+e~&
zR5UJKy-->D<Ym=_EtW(uhL`aB$iERFlgUlmQpE(Qn4x7k2$>oA7G)*OX6JA&-=yI?
zws&pQ&b3j~oZS;G%I_;lH*9x(37*We)%WpD4!zRswU$y+$rIrN>JHA%T=}7TbxZ_N
z>|cC9z-Oofk~FqMV<AedXh!CMNXHP6M<H3-U!|lZ@T3M{+F6CJm#?_7{Mz!_^3{p*
z)zjq|j4Q<%!=Vaz$Y#brHXMHn56CD#tP8^@J1r(dmOY2{8L4P3=eV#c?WZ-Jkg^Ra
zT|o(k*${yQ8!^za-w@<&XmRyJXpNv7vLFP*35|e<$<PLc?Ho2jkD$ut=_-|JP~~95
zMb57ulAz@z&3OojnT<nCkqCulZ+oA>4g)$YvdrN_49>^p^Mfo+JX1&#gDQq_JRqw@
zNrg^ZX<E<r361S1gbRKno7d#BKz7xEz@DSe?tMCN{BYZT@D*Vw?~_I;*xM;W{l!%O
zep8aal(h5?oC}=Bx%SymQrCMrsXq-5-<2%5lnNz*Om4I+C^-TF)*mqdT~|l{=8Z!u
zvug%Rnw{V}N(hMn&|_J+;<BjjUh(qTVt=C8A8Sk$Z;I-F?DEaJ>JqNHdz*LM-t(JX
zAK9Loaz=xrdnc;K4vzFrIw$wOTN<l+w_>_z&0X753wm9NC0YQTmc#qj*GIlSZC@ET
zul#JjfGcX@Lxd*ZD{HATw`U?Cb%P<`zrv`oeOz5hh)FqRf`_@KwG%1i)Mcci@^hSu
z!YV3hs(Eyv1H=L3xLdrUy1`Oex&-|rOTbxwM6Y$cAm}=ILElNVNL5*-8zSi0BEg7$
zoBs{duRv{<(Gp@ib6f<c{#b}K&Tv?I1}rv|J8Vd+`67mHV#IPBY-UpPq5Q(4#5fdM
zd}+xzCa|+5?X{$?HRa@r&KR<Bl@8A2f<kI)2$Q4@{^b9{Nhjcw2#@?$X$ARdl#*q6
zi|ughzQcR>A5VJoVvZj=eBi`!S%0ybN}$4%h6`Qd#iXHE=sK6QG0_h)UJp(rlKRlV
zIV|dzDJdO=Lr0BN?NDc!LT9=<!XbGdBP?gjQeKtLK!9vg1hy)1zK3O*(^V|XoD}~W
zMTBkvuyt8f{MLby1K&Ip<=JX%Ot>0j+Y_$M(Sm!<m9x%<gtH-5k#KH|nttr^j;|S8
zGjTC?{)0<5FU`2NQkv57<zveyI%3B@c<JU#GtSM}9-PZZOUIXuEt_~g?%XojGWkTT
z>VvwQbyFK|HYRE|-F0q3S<cc~XHCLcgXr_I`e|n~@|lZAHz&;Hh_$bn=paEh=6vVe
zw0%w7yhh$>Qy7M}a~!Qa#v4C}P|`C*3>P@5EMgFt`jUvbpgY@uzFO%(FJgQLSo$wA
z4)!SJlh~59^b-n2cttmC8ZH<%L*`$CZXi|Ruw~eq#`dLko87c6=D3JeUH7(#O)#DX
z_DMRy)XNJ6!$pxI!A#rNaB=#$v0FVrOcw>!c9Bw!*18|IKO(>G5&0cNIU@F@4kS}s
zEHHH#);dV5MKOv{iZexBTw#?mbki!yaS;c4UwF%+(w7pH>gpyXM2-^*(}x1xB)H|c
zh$&JWDIk`hQx`ESwWG8W&D6z_LP{I4Ahk7>x&*Y&3Ov(A3ZZAU47+t)m<R-OVYlLo
zaLO!1T#*vw*HeD^&;giQ+{LrQ2M_A@Xx2?Fb$99!y9C||W`V0n(db8w$FL`3=2t51
zO#ena>6r%&wzVcrol@UGe~8h-p^fMIBs$s0kttY6AB*yJg<xrrwqd|=?!o6y`WobX
zz9)S@<^7*<Xg@pFmk14{;{=GXLP1{ueg}+wD5(cIB-I|BjBXI*-)6z@z)@P)kSNhE
zNg7;Xpj}LwWy^{_DXE7!giM!L=272lPDEB+NU36|PWiyVDK`KIaxh-(5rY@Rq$Lby
zDb(K=5(Cserfo?Ubc$h8Nhf`I73I)Ye`!+J*UzYUk{?V9!qPdaTz48gR(n$4b*>Y<
zc%W|}jB`!Yp45T)vY!>DUa=>D?SNSwN?)NY`rgyc$-+x1)=Eeg4ys;@(s}{x97_=h
z^#^;C7M4Wz>)QiE$-*HePl%S6%+=*WRUO_R47Z;V1qesI7Xp3#Aq{nSZj#?csiBWB
z(NOJKOGYmwtSja`%O(ybJhjmS_Z_7ZRsY=jK(8x$j=%5Rf2ZTlOFuXkw?9kAl+W>V
zj%7$OdMWPk-7ocycZ_wseI{y+>Y^>9`nhGxZ*0D{`5mZb%c90;c=YtWikjJq#zaNq
zt*xZ7z3rN=*cr9ocU4X9z3ZwUITkw>)y)+<Myp0du$S)YS@#nO_Y+esQ_{41`>cC+
z!o53McyEz#)IWNB;_!`Uu08Y4v$0@e`MQK>ebh4NsU3ZJ)>Dh#OrDN=HpjN#^=yt>
z?s+O^J!=x4HL;iP=zhS@c#cFZ_dQ!j+h#qD(A>v1#DdeF^|PL>3D4HsuG`1&Z1|lQ
z<DRGQgzkEtrb6o}Wqra^AJfOgo7SllanJ7Cd+vI6qZn^_e8q-@cf*J{6^`ofyX&qV
zyuN?3dD>k!XDgksU@SeBxmy1``(674j#Kcxb2s~r7DAElsT(~!>#j|>(d1Z7EEIPi
znR@yAuYC8F=}r6Z1n-=VZ#sO}ePq^sGT}ZsXDf=H2XF1ML<?bU>ZqKxuS?k1O%>j5
zp0@9bn|I|)xg>tEy_Z&Zrj*MLbGiH@#$oWP83LLwmp4q)Z5-wrmXd`*bq%S*T;eqK
zQgvDw%-~WX<mI{uhdqZ+(P5?;OY@wMn=@M!%svPu7LAl&3mXB{gFRx0vkpQ9b&E(H
z*12$4$I}5P6c@xXwt^!i9sMGwboJRRZ4;CAG|nu4L`@+b20NI$ThTJra(&C>hRHLt
z%hn|-T0UDaAnuLQGM-fm=};f+9h56(d@FIjG8_8>d^e5B0$JA*N>ewmva&rzfGi@|
zi5nBg(u}G^dGk~ZtjT|gn9v}=W$wq`3bg39cc!9c+S?Mf%^i5=BUkGk=X>6mGj?dE
zYSZY3@vUQ9uWrA+AyKk3?rMz|0DNrq-Ycnkul75u-(4N+j8`ALZMa)~@Qx`_eQ>(u
zP~3Kij?i8md39n-+`e)0#9jNw*b52!#<+PSiH;@D@(VO$<Fze2vJbNUKawk_{Y>BS
z1tYn16@xC3erXZ>uFb*k_Fz~8yMICje2c(10m4|nNtz%(TRYh(43#JL{%eTM#m^fE
z%U5~^!=F&vF9bXN@A_j0<JJ48guB)IZ+9fB_fMA`h}+l!@8HPbgg0()p4@oX-W=PU
zus6re%_;1ZNRN`I(_qy1DwBL5!-ERvIzhDufD|Ol5_-rIhGBzX{3^bOjl(A7L<za>
z{ZxQpBI!x0LMmDyIZmM58rlz`fEaUy`yJ*4GbAzobJfFZ)uU}nDc2&H)OvW-V+yNs
zRkt;#x%h-aP`#m}rFj`Hctn2eJW73<`OSg}J50gSeN{9o!-e4e3$$dkhykS(rsNGv
zST+6Bl%vd$Vhe5+s<M$aElY)o=rb3wbeAdq^l!wf6-w<>_C@6vcQ1AUV{DI8&e?sy
z9T(~#)0`ZKc}rm|?0T9|>Z8&;W#BT#f$UduT*MNwLdw#mc6U9Ku8JZ?$r&l?){u4t
zOS%OS)1s-=HN<lnxKWi;IX)vrY21MHWNnpBBUI`mKoiJ>AHVLvfwX4ngw&6SPyQb2
zCcje}phP60NFsqf1lZ0?v`3a-hR8=FCA~`EMF8y8r$bT)`7Dsc&JT#<5Cj*KY%88L
zD<RTrNa8P+wM(y4?q&kSrO0B2SrX6Tu2$euQt=H+-=NrU61YO(mkIm|K#~tgqxcOK
z17wR4Oo)))LwMe~r`)86l<#d!K6FoJuEafFH&!>{db@EVbk|i4_MMOFz`a&BCd?I4
z^Jv4I)%Mn=kxk#+G8+8G&N+v3+%#qyJwH)(qyAd`WYx9CX-93eWzM@SdPqCv_{Fh{
z6X(Z<CO4#0KCV=N_IS(wk#YgpYM1wFXkt4vqHH5Woy4-8)7~eioxA2aL!lqNu$Pma
z&t%1SR=&IPu6_NSqhi)kn{d=l20wH(+|T-YP>3v_+Bi?e_|dVWlNGVHxcl(!Rd?No
z@6;vShogmmX)T$vd1h^u30viaG-Ip&I5z+)Hf=T^TZ8I|?6ZxAPPQ}Ie65okvXhVS
zP+4RxLb@Q>Dus|gbu^c(%9EjU#mSonGK;~fUea_??CLxdPGc)GsUw_|F^$U2!!%io
zPzEGhAQpg~T#-<-9_N#DHutDF@d5-Whh?s=5dsr_n>Ip#a#&ylRcMiAoiAe$k`5+O
ztNMivf<&5Fi8Qe}-TE$dYh^C~L-Ke=?v;yluyWEkc|q>r`i*i2x9<8`bWjRYcNXgt
zMQTn}vrvbgNFPvU+O@M-oi7Rla|ge9@xlLXYUt8~-z==9CVx+DawZo=XEton{3+wk
zsNb^FS~M_eR-!pAopHoS+!Q#QbSm}eQw<`{#;9^8Di4&7A1(l|hJ8KPebs=n&9d$q
zyoi=Q*%&c19cUr#u<s*1IdDqUL*}&3kF+?IZnu&n{TnF&!AR*w1zyl~fx}`uw++0J
zO^e5hpgqW8)9Q_&%g~0Zyid9|g|8hh%4oe7U-Y@^z=&#Sn8UOuGN+}<zNJ_Bv|{LY
zGuxrT(}Y#N1+xo$BL^LdJ$1+pJQ%h^qiv`8fkvc|9cJ6L+l7leDVo+@C6|;5>7+#d
z?|oWua6`b|A>hL>+Sy$rhh;)RZ4pi+YLyrm`PV7_Fk}bWr7gK7Q-l{x>>R^ESF{9%
z-T2iJmQz259TDB@H5v2MsFafa#mMQv^P1CRnPE{<tc+BqVSKlCDUQ!mO3L)zjwAoV
z)}%w|y3mEo;sNDiJLBj4I@uc1gGNe00yNl6*A1Iw2^Z6E^2s7-({ZBL+Zi~A^E!X2
zth&zEDDT^UpylMz6M<HCkbhh{Nkyf(z&-RiOn_KHoZUm=t6X;v_9QLA3!Q;}TsjAZ
zqjQO*5eoFakleo2l#TdCnaMmuK0;z>q<djd-O<w*#6cvw2!`}!3b&?o(o7BieM+9q
zH%ecnux}7}gTOBUB>6K*{vzWLQ8{Uzll+kMHHs;uh6Sjw5HZEsyra6Q{~n@-%5!$V
zbhkEQDTMwQfNkusC@5N+C|a9oTu_}TUc0#Vm$b~CW1S;R#~eLBS~cfhp{h!o-|dW@
zpQ@TVHtpULE&Q>&oD8&Q-Sr7~{j9q=;cf<7HTtTof8F+^tbg6KS^jQ0$n>z#znVE`
z^=RR&qblL3nyiM>*s(jd?StJnci-M{yE(pk*Imc%S;xMFW8bvnK-758=6vhvk*DX1
z?4z!@t#Pz#yl<>;GKg%Y{)DY@YQy)pes}91Zu+C`zrP(8+eMZr50<ph5<PiU9Pb(H
z`K^<;n}74=k7{;L@soRFRlk1lZq4o=@PB6h&*quZW3#0%BuZbHvlWl>qZ>wp6He%P
zy%rdN7ZX4sR2Gha_mAu!tzw73xF2-(y}h?QlRIau>*va9CXZb!9yxp;o|bFHv1L=o
zZdNABwnPu#w=RoY>+d-{<Aq~|6IJmQYj3|e<Jcc<`4r|El@q~fX6pH=k;4fwOEK~C
zROgIiSG0vrcT>@y&9CHEJ;jGekMM`9Z3nAt?eM9Nf@!;3m;@l>4Uj)RMgBl&$v~_d
zF}V)J(1E)?I_O(L#$>0tx$4NYf!#7vN+puVrxnWSs}?BJ&h8Jvj!0Gh^6GsU_+*nv
zgDk7Dwdp)9^#z6YU?`lrF&1KL-fxh84ULj7CRk-<DlXySN&_7@;mU0&haLQ5q|Q6m
z&nx>SS{KhDDMTw1*RbxR(sh$nqvyvjynP{Fx-M!3xaacDy8H>3Kei+8+7d08YufaY
zYjezbb=PFohb61xbm|W<XD^KwllIBG{<9ytHis-I^q-Zqm<&^{7AtJ5@ToYOA;#=n
zhUan35~1eEk`>5s1T(DM_@cSUy78ru_S9S$pja}fb753wKsHK+?NfhGS6Ci!ljKA5
zq}K_k1Ppc+lp-Yk7X&j5l<AQySx{iUzM3+eqH*4bXqZ7dYewB<|Df11z}_KdfPn+7
zR>{g?ZqtsBoI7LtuQpA3K6KT`ojao@0A?%q*}R@}J;`SJU%H@q&Ky+(N+--+AnbmW
z+=UIF(&so}ZmL9>5veTWVt4I^p*mrbT9yqo6-z3D1sXH;AOq8#eUPC{OX?WInRVv~
zXBbS4QI8_BYz`X{Fw~Gk<p+9C!|Fvt&D%+XPTQ+|h~eE43(_T**)o5^yCZdk;qmfV
zT5RQ+<bq`L<n_pwx^5wBSpJmSLgTA$IWzdk6HeqZM5>uK&dVH@4>N!X--uj`#Ewt9
zHoySJ<wXmow#;~UOuKeqNzvNLKQJS<imj8Y@I3B1Q4G0ZhLvK^=yqQEs+=;@k}GGX
zaeq=_dX-56TcjG5MfB-VNa<hr+)H=S*+sPb{+yY|Jzio|G^YMs_SBc{h@HP)8RKWm
z8xv(aK9i<V2kfSZflL;pN?}ZmMDwl?Tp#(>r7xRO5qi^-mlymjzVa@Gq{<`xdT1{a
z(2}oJmV9l(SvwhyJ2%HJB*^ZGuGV&37iX-i?v<3GZBqwk%63eb?1<ZT+#`dgX?tzl
zT)PBr&>7hhxS{T4NS1QS>}pd01#c9y?-XS;oCX&rtwj;iA%N_aK*4$EATYY7S204g
zh{^c7PBH$b3mwz;>REeT?uD^@QJ%;VTLL5)kSQ<`w_Jz23aChSbkD%g4{grI6kK&z
zUeFNw#8Bol8hGHMzbDv^2L;4%K-z&)Ko5NQ0jcjBkZ_S(#enP`mac4v19@iq6d0m@
zyHEy98@wyVUmbfj$4Fn3ZWCvnNw*;wsp-_!O7B+?4(2#A5Wl1u6X8iDYu5$TvNEq?
z5F;<sT3QQ=@%!uWXVTpy-9HZsg60J|IpPv^nI;Jo4=5eHUO8iJAmuCAIOr+Owzq8G
zuubr=)ca*y#`O!eQOHT%VjEaLJdYd*2L?hVY{-yu3Ua3ggjkInhXH|{j{#AahB_cO
z4KfjMAPYMcl=p)FiqE{^z%63!;b0M8$8aprZk0P6<}vfzmY=%;0j_Eei1e2<5}N&o
z9hG+fS;U*@zw{%@Yz4^TQ)trIG|RhMh8V7e?~k13^zNl;AgQUsg7SdBrJ5dte5i=T
z$cMgFx=l_09RQpQr`O183MF1a`U3*AWby~62x|pGai0W{7$dYin-amYHY4^Mv}!h@
zm_^V8_io1r#|9_e-&y|d^4R%11vB15pNEuu=_?2tu*XFhc{nuQuV4|QizCd>jxLlu
zey^aGS!5Yd#J7GPdIh2Papww8JZbleMO^=R=oJ><<M!$jRB)OvsIZ7{|2*^x(#qrZ
zs=x1|cCT1O483A6EG$A{l%3g$!_!4~W+K;&WbcFLk@sOB7HU~Dq}3t{YpG**$fW;{
zLX}IPufs1h+EkyyXXAmLfQ*v47qC;|{|3EWAZ<AD+Me->v5L2sLz1?8*eeL<r!y`&
zXL1~0ZomE~^<@Ddi&>_=$cUKV7Z(0K!o&YXdGof;FSosav1of`)-S)kEd1a8Q?>Vp
zi?&zh&GOsJ!vEdk?Iqk`c-{)n=fHEQqO{KE$QmZ1%aBQ+CQ;sUI7W?Tj6*(VfXkK^
zV=Lu|-$UC&)hHqx&&w+&UbykfwO4Sna*1n|UoQ6i6?H7XPr!DWQ_P<Y7XBX>pN%iK
zz5h+Sy|zFggL%un=9?M$M>H3ed2?a+%-ZSghsl;{dtKaI_p@HbWP7MF4|o>@XG)^X
zgyp{rqQ?EnKh=EvM7!ODKa9oFz#j_#vwy1gK3ufD@`jw>UKT!`-ClgDPNhCa5cEju
zL&q4DBga{xBgvpVcx#(c9_jxeUEUpT+KYO{POuO8t!3e}XkUm<l(Xqgh3`hwwWf)c
zOAs3aGBHw0+LJ6{Uh^V*geSAnv}RFm^fT1xJn7SfJHzME=G+%!<Y0P1ZlRPlnG|Tk
zjh<^gxRz15ZaU+kfy{w>{FZKcjF$F_nk}W^zaUg7B9OPyKYp9gqt88hJ@k-Z{^(Kg
z54A?`Sfa9N+P*GsUiU?`bl+pNv{SpK6#Q2-aIP<C^dRDY{?XH((H;c<H8tmpno*pR
zf9^JQYPX4kf0ErMe5p>|VAmk%(Q7oPHMo0cz^iL#WNwCx{YdSZ@uU_-0@3m%emUZQ
zAT>MDhh$<e8Qn)#iHkAn>Uwx3x1}07BlZ@r`cU~BOKC=-=!3YWQUj*_(fxGQ^JG7W
zcSCT4+Na#C^PL{_onjAeo${T=3E)s|kDP$Lry35P#Zx1_^jfmmNq^Ho>Kvd8c});(
znEvPv8qP*a(Xl>>fGnkAfm~ibEl!0$#CR=`1`1bR@Qz#UdnGe;HqaWcZ=D9T*D9i%
zCt<F9v?%u!N_x~L^C&S6iuRhLA_i&cp@O9gV|#t*fwYpQokl!$hLSYN{mUara`4|!
zuZdrl9{?K~8Tuxk0Amc+{%Lz-+}yYXP5Oed1-nW<wn!_`!l7E}^B{v%sW}1#a_0P*
zPlf*-<*Fi(w^67|_=}lN)){5Gn1yBjbjgj%n=Uz+$IMErl&0c*5btx}#3S9jY|u`6
zR`_Z9{io<up%>4U1OiD5<MIZGh9<#*pC1VJq+-CK2z~7kjMx#av8$^WPx&z$B?GO(
zq$kfXc+X+Hpz!ZegKPxVPCfwu2YsohOAIh8KZ8rOVporB*u?CN_-<G<;a04Po^S6J
zq-x5ziNH1jyQm0rzeG2Q!-KME6wVP+R`*rpqoZc|*r1YpZURpec$NSy0lXrFJHcJ;
z=fv=tK0!9nA}f38eFAipC*2?bl^w?{;+YY&^j-Q46ZmZc|AD~o68Jp=e@uW(52P6a
zbS5bu)ZHT=lj?s+J|>|tv4_bBKcO(vy+}+^!T8xv>GN+0d`95!2>d+(j;0jvxpI<$
zfQf*afQ5jKfSrJofSW)m0kWr-mJwiUzlMAats3B?Sx?b6h5;#T4<sS0bg2>ap~jGe
z%#;p<I}#HhnUAs7lAnsFB_bcrvQr!agf5{UVyV2zJ=B?u<_8Y0xIB9Dt*?xHWx{i#
z;u>CxSv6baPZaqtADAmEj~hI=9WZG~l+<26I_EB(XdWxRe0Z+JGf_SA^~;CmO3LRs
zv+)Rzb9<j3k2@8<TNtaG+LCD8KJD8PwT-@*Ft7O7Svq?0?aF!1REUHvAA2e$w!Hny
zJZCIA!jJNEZqEciwtwQQvHHY{=0r*JRL9+topbKxbEV#i`mwW<En|JS$m}Ses82Ym
zXC3~8!yl`eaWu_2$|k(951Vx~BpeNR5HxtRc53IHg2WSt68=LUIu1XyQVkFFRP6&J
zwQ|9|%=kRNu-$3gI$y^dx6PY)qaU_Drs9V>-dMAMKMPa*fP8A$Dm84C8dj}_RjXlD
zYFL#TmXVGsT0U<w7~S(W{MDIxGjH5LpQZCQqp|csF=ukk>#Rl}mEw9pz6TX7%wb%c
z3WM*#Dug}MRT+1u!r*&wfM<b5<EB&~e5}BSI-~IkHS7r%_Oa1EY8<zX*`|#v9_ni3
zf-2=i27Ep^LZxM=(i<(5KuLv9JVumCH0!8KIO?X2^$&HaWDTjpvXZGaei3Ei)Ns~O
zlW^3`I+_xWrfK84d7aP5CSZN4a(q76r}kvl0nDkNHa0xe8H`>^;!mZ+=e$jCEM2hZ
z;j<Wwb@MhJxM9*`j_`@u`n*7Ate!XL0F*p$NrlyG$1*%ff%SwX3;;J$Vbv<qte!Wg
z&}TKwBVA>ekIXr}myZD3N-8ctJ?ARF{PcZ$DVAgkynaYt{<P@*Ylx2E4F>rwRH>8b
zf(Vc-=;*<_3}UZrOIN7gjz|`&x1ppVmN0b_DrxG)qxXFmlP0_Z4Lx+yAobzRVb}|G
z^!4DYqo=E%Om<;KkThV25F|Rv$BPsL=kPucv%5_eVB0u{zmk#EgH}nuPmLk6B)ue8
zgd3)KO(JOx$({g+9G<GCS6%}h_yZYuK%V(2*g(7{-r2w&h8)I=fGCw>@EXu*=@OOt
z2UM!AM@;JQgqN-}3_t#f=VAGav=Hs3Z&M1ql+oFX%iGvwd&FMsy=J^6!5)&3ZJq`w
zkr9u6i9JaJjicX<camWTfSfq~P8x^;<I#E?bmD0Wyo-kq+${qn?LpF-?f?k9+5=Rh
zbQAkwy2F8_9t=QI52*zpOrHcG>r;~h5*gG;U9@o+sojAr(<9<6h#6vLXY>ckls`O{
zX?B*jrx<~nL@@>Dxj~&@KXl!K;|5=gAmER-D1V6zf7{_y_WA88`L96W5fiWpJ@n@%
z1pJkPcKX{asXt7S{xd49z*8wR&Qm^m45aHca9|Dl6DlFR>IPF3dS^<u;Dqpye!@*n
zEWhKH)z<>_law+G+c6mO-#w$T$#uk2kb|`<zvMFts@30PJfpzF?ozkZ`}w&3S<7+C
zrQx(qZN!92#yYuWA^u89#I%$dM?@Df?nL4%^#(j-nrVfmb(v$NKq)!nAya+E>3-S@
z7q`=I;*QyBl#L^P#-KI9&jN6f47eVWzD@xod-%<gkNm175Idrh>4*NTI4C`dSou%4
zF^)E5#y4RT+-1g$ByIQu9Roc<i9HoRw3-%pATx;m>QCB^Ei>j61}pTdDDZEY5^mO6
zop4r9J6GX+Ywy92?1yd#uXj!cV`Vdy&7=G{c8aT(+kC>YEpCUY0Kgoyb!)Dzd8Y|4
z&lj#8ITGDF>bYkx9UYiB^C2Dr$K%h?kiFA8Y8nmU!4)IYfWB7jyzZSW{Z8e(l~d)@
z<vVVlh?gI|^FpHhsH*b&Y~IQ_4$Cj-eXDj)nW2>)=YjPTVXkaJr;}c#B^v=?65lD=
zY7RWRR_~?Pkgkn7OWHeh_ETGdvGh|HXS7{uoj5!h`OvUY7JxEw{U5*XCw|83UJ}Ct
z68j5J>cVG#1_pmyMxi?zYo7Ya*8EfO(3;0;P{#q*yr~t1NY#y~*LTvZfh^b4$FFGw
zH)<j{O`rPaK?;$J6cI?q<h5)rv%<1bIV*}JKlYw2!{rTEy%TPF6m)WM+PPtBW8Ast
z_U43h4?DR{y_4E14WkhdNf|1=K@Fm=DyUSdUA^=RNZ6BwOFH0^S;3{@4-K1so^T12
zUp7K~%su2EhD+-H0X|yZKWKl@XZ+0+eFkpn)ASnqgI-G~r0g_!W=9V@`)b^I;DKqH
ze=|!-o3TH@CO@M-W4b=JKNy#)5&MH7V}GEYF^3gFG&sj;?GNlh3yrjzk3nQSK|s2~
z)HN?XZV{0EBQ_Fs50M5DklsP0duU4jHsVL9MDNP79Yo$$*rL<eKvH(9nHxxEQ1+_J
zjCqaL!8mH7MfYWG8DP(w7hld~{yAcsHJ8KwbE0m>T*XX4KbyC!TgWfg?x{3nFZN%=
zxMVGMdEdzF8g*LwC8Qh7TI*(``%|~F*42FjPZ`)~yqjsfFOrX$@-bZt*@?1EE9rcG
z|G|?-Tb@t<o!F%7x#ypKZvXQqUd{+}9&UZ^Xv^OH=^(a$F~Y-IBonM`mBdfYJ8_r^
zHP<fbn`i|7=R)rSJkawzzu@3_=bv-dKj-W};%xIKGw*p&%6YtT&iOZ{^98*3AxCij
zjD4*~hrsz)c&_vrKF+!34IVjUy`A4QzskaIp09B5n;z70u9|s{=W8z?{@74H;s4OE
iifXFG{_a{u5p@(%F|qAKLoG$rQABQzhm?cS%KryCP6QYL

literal 0
HcmV?d00001

diff --git a/crypten/debug/__pycache__/__init__.cpython-312.pyc b/crypten/debug/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..dfae79effe535c20c041c36ca0af676abfcf783b
GIT binary patch
literal 977
zcmZuwy>HV%6u<LV-1H+Q2_Wc)B2kHYiG|dqsOr>_2Bb21F^+vPuKW?5FF;T#WvE0u
zF`=%AiK-0zA1r|kpc4}xLfwi266%0>=O$?fo^<b?-}n37^SkNkJOX-C{JXs=BlJ~#
zj7S;^gF7G`AP;#sL=m<y7P1sdk!;Bz%bpS{k!q=tW@%B*%3&lSq8$yxE!{_+`U+bU
zp0<mud^>08$HI1qx%!wo&D6kLb{qaN2BjhMOKuW30>4Fx9VWgX#6B->wn7#(Y2uPJ
z1;stD&dZOSFz_5kY&W5lxGV;np>VnB)oBh=(FtI@ICk?0I65q$t|&Ajm>P*Qr~-Qi
zbF#5@9~}+lJ=DM+-qlAl?cfgHLWWdxM<9uGDx4CW!9!p#@BzTEFLzJ}9}T^BBnFl<
z+P)Y$(kUbB`JGA~X$vtiP)3kXf{dbNAZP;D426o)T=hu3<@3UD;vk9bDDg;!0|29>
zBy4acb|S*{Mk{t1c<@=DFo!W}k2I-hqEe}JPnS#<HO(g`y|rSxwB2MRHnS3@Z3l6{
zY`fZQUjSI73F<9Io|=^SLCOfV&wHt^g^BBg>3VhiBIAH7P%>Qs_NR+}YN)*Qa^v+<
zzhv&|-wMU&?fv%0!t#g0@~6_=-rZjsnicltw;TP!YENGsKpdh15JRE@e|i~MD)4<!
zp=G#u=|BC@t6<4IZ-4-WKdbrP<Xm5!A4s}-dmtli;Y3I$Wi++eQx>S`vSv*3i43YF
z2~#St;xj{Vs%MLvJqDct%h?+0LK3@3#lOaLw(W$WZD;ilQI<99@>E}g=W2yyoz8=!
sSiSTnuoD?${JV(o{CBkY1J&N68eo*W*4M6g<uCdB-P}N%!i!m=e-LQyA^-pY

literal 0
HcmV?d00001

diff --git a/crypten/debug/__pycache__/debug.cpython-312.pyc b/crypten/debug/__pycache__/debug.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e7e716d13dcdc1cee33865f83e1195a8367fdc16
GIT binary patch
literal 6740
zcmbVQTX0jy8Qyb~j&8PW*~S)*d@zt8Y-C)(T!s{!U>E{83G@=2q>8L_EFYm;&N%|4
z$SqBoL2hU<DIH9c3`*OXI72&4rw^rX$+Qn-@=ysmBlpA)X`4Ru&53F0q?hTxt8*mV
zb(~Jt<NxexcmMr&_xo@Ap37xNP=40@pXi2Wg#L^hX5oy=;x(vTM<Nob7#gX5sS%pA
znGpuQbc~I2BOHZjbOedaMI^Ek9d(+F>fc*TwLW4Mxr=Cohq;zlDbae79<fO%+EO2B
z)?ftxDlOVzghRB$9H;0M9T%w)SBCPt{)&eU`zf6Xk43`f9Q>t>#$p>(t|JMJP$B}M
zDG-<jHf)CRvwHK1bWD>|N-`{|s+@>CA&zEG3<~fO)bwaL7E)C~8xLthJd_beB_XX!
zqFsP8rX=G+NEk~hXCzUGFXtkJ$K{x4Cj-N#AXpv?{5Qh?;y-{~M;g#-iPC1R{+(cK
zNHgyM&i<CcX&0Jcb8LNXu(pC`HD^b8vsV8`$xYYWxRyf^Do6d8`ng3$Ir^v6_bCeB
zFZ|syB%)A`S#7Nh+KBp*N}Z!AbQ(^ZLYG_5GpErxYU5|jIESkJetI}-?-Ql7eX1tP
z3BN^W)QqZgq@}aTl$6jLQW<SLnGmJXbR;4vIs-SNJLH5WDWR|?Clh{7XH_XSrn4a>
zqUx42=c?bJ!DUR2Nh&@(d|AS$8~U_(s_%TC(!aAWtYlJ}lmH2Ud6foI83m&?>-%3k
z1eUDY3S-nWKrW#9rk3j+S3B~S1)8&U%{R49#mY?^7ZB|_Ock`bPT?AJ%{K4$RovYr
zcX!1dD7gbOTG2i9mU!1abbAcQeGU&^;891{<ww7F^uCQW35S2ye*IMKhV@={4ECbe
z`UVB&9VZXfcLZ+GZ+&O871w)RgL|1_I1xS=OoZZ6FsR#u!FW<k$8g;l3_hO@#f%<n
zFeoO&!64c1n`jZ3BLy@cDfqMq!3b6Haa=?n(+tNi+O1rd(r$JyQ!^HR#X7w>4dinX
zjkFq8qj=_ua?5B(YdEeC$RQK|)KV_1;5-Mq@-w=QU##fa!;dBtV{#;|NGhmpEE$P_
zwhNjRPsKtS(d)5v46CzH#T@RfYIRH!4ErFdf$YhrH*X240KvHASD%GOOgbx(v#mBU
z?(j+b)qT(>C!|EuFXC|qk73gHtgv}Y94t;K0t5ZD&JixU1=f#;G<=m-LqwfDI(+zX
z-4>Cw;~+Gs0<S_9FRD96L#iCEZp=?9UN|fjpRYjfQ*R2JTMin`lnv0^g@^3}asl15
zAXm$k<CDiP49&BS3fo#@Tg&Xa3M-UYq0l<ZK16<AS7O)AHFy?S$`$y#)xuc_7O>G3
zRjq~wyfTImv2S;v0%)k+b`EJZ3uoSp!eHw&v3yhw6&kjcq>R<>QnfyY?V$1di<C%<
z4E8(|47O5Hm(j80V~&ktsa6!TFNe+|#i=!!-8rgm3o{HsPmq}MCloLR7(T|;30hJ}
zCSn;O6;d=AfOT#>sY-$pN}Lg7Re<ByLVy5K7|jUJ!BIUY5Gy5Y5v8#Zc#M6*c7K3y
z&hANJ-he$-lM^9q-~fH9hFuPzRfZZMQ%k1+jL9*wUWTlrD)?B3{Wje$ga1;sP$Dep
z4DixfJWc1wB)!EjdVz2<9#1Faa7arkx^r2J0gUN9kRaZH&JmIPtb*;2(trs*M4iQx
zRD4g^vR0wyGS~;n93=pq+u&av2LdqT5#Kzu@tQhoT|d{@oR{*<yrXrFcU%^)4dtJ`
z$Iwm-7*6gH>O<?`B8Mx`bXxvqLEM%Pt&U6QzkU8Y*^1R$vU<zb&H_`iZk*>`d9BF%
zrp}gm-vWd9O;u3RL=A|{HDux=sv+|uXe>h}wJI_xKqj>Wzm)dHkjVlv*)NPt3Xtio
zBQuKa^ol|}IBj@vrs}~B)V@Tp1!iLfX0bJp6cb2a7`TM{S5?5hVO|2*R0$y!U`+5W
z5UXY&d;kW0aeUjAO|WleGbRsW@(?ClF!5uu6_XxJI)Ug6EavCxP^iOKA-Ke7!00vL
z>oDO9)0BSb+YkTh^FRQ+&i@a*2LZeXFnACCKj3Y=;+S+y4HfyG=|gw<p2FcW-&03%
z4Y?peJ!bqDG$0BGs~1CYY69Y}dUTkhSM!;sg^SuSqvgfyyJgtuL+IJ#2u(1b!^yFn
z3vQX5a?BaH5XGU@>~Ic&C8esE{2ab(*k_0=hgp=N{Y>^vg1JXSv6u=@8LZrvtvKxK
z6}E1z27rDr$bu9Kj~g~pPE^ftQV{|1V6UZw3NgTvA%tT%l&JC(WH9g$3B+nP9*iZ9
zI+ZlUjG_=qh>#CR)gj5WmP%{b)Qb`fiOUJFxN?|qH0&~8$EePMSp~hrP}Li-nLU?O
zVq#F0vr-khy|~9Z8d4NlQo!)mY%T$<PRT2*Zkq{Pauh*15hUAGb_1Ui@UK1x<O2Ge
z9n9!QuI8zo*Y{lA^MidAPjAW7TlNIXuD(wY!#$9v<{XVz_Dt@1X<x<RD>-~+hfo;2
z>)1T+Y?|6xbaqb<+;w)(@y;v!B>$4V!h1`+_kF(eV=GK1W;a|jj<6zj+zk9Lrhr^R
zm#9nhCFT-$$wI)3V(7aZfEdN7?^@~rp0un6;7Bd#o2&-`^dxl(<+(hSr}HS!<Sk<s
z$mn>S6rDnTW|$oPG8N)M5FGX_{t4v#A;?iT?5ibSSjFTe=@w3FCtY<gPtcRjC^jK0
zN{%*_NpY_Y_XL%rCm5}!mi6Ek!l9aq)qe%$1iSSNII;<Lg8PisIdgTDy4;=vx6=Xg
zt#+z4g@rNL(p~OjK}}b4QX;b~5v0}%qd-Q0Hj&XXVf_plt;=Mzt|=Xrvk>WeSvdc?
z6P#>ZYu03g8D1{AFMhHq>REAF(9H2QX&gB^j2|?XCBCO{P>EB%6{U85{93(dKn<1s
z+B$Qx$mZ4@{|XYhwby$Ey~dgngYn1LONwZjY=GI;*BG<+MJmVS_$(y+(e>u2`qz|y
z!j`i|AE^Is)<6oZEh~yS3wE(aZx&{mQmnbQJ!g;NbYw-Dbepq5wpIH@J`1{Mj>79r
zIC75Y#ubd9Dca0YQ5-m|DCT~mIFwjX%s$bMT^i=EKD^{6tLN>gpEuk_{hpmUCJQ#u
zTzgrc%e<ErBUaw!65cOTHiFA#nn<7epXZlv!EeR`OT%!sm87wOv!R$Ql6(Tc2S|tU
z8w&U=>?^kSXWLJK?-Am%3Q1>pe4j9MJ|%^*o6FjSQSfY$qz2W)=>&Ol5wh)qB57#_
zr!;aRoKzGTEnxo@`Oytresh4>-oN6IBI{jkFvydZ)U55Kq(TBDY*w@DjOsSwq%<Ze
z667z!!_eVxQLq!yT{uS%CeMNkmPJYT$Z8PAkS8252+uew<T1pXLLv{l(xmemi4b+0
zlt{<nxk!V2D3wg<oD7^)-3p#Jq-lz715U<#miS;C`04hqVF`y61=zBoQ8frju6$N!
zpsLd`Nv9(kG-5HG#q9jebtkRc;cWpng~ih?)w(i(c`^{A=*$@@qjO~cx=k^+s<Waz
zHm2JWkoX5l)uBNS7)-&#qa^B9!^7+B7+ivG!<0PnC^*K_ZCWx0JH#m;2l-rhT*V0j
z32Y5=fs|^J=2-#;%m`<h*?!|kDQMhh0-hxT`(w#)D5idSDSpf;Ay`7iZu1}T2<CEE
zT)vXaR}^;NZY_2lD7y}RjJDdoLjAGhfoZMS5h$E3bp-N{Em%;?`idt|@&snGvz~nr
z>o%>gxcw!!f7adeVQbfd6}dbRYqzvdvp?9EKLk$`>o*k+y#f&m?b?0SGDS`8nDclI
z7V7(+9do|!LjR3O#kaHM+gbJvOdXnTdilr#ys7Pm$1|7b%43s{O-&TUS!d6jZ_~}#
zjo2#*%xv#f`xG<v)jG5E`<`8M-49i|2TI)o<?cOGho^VEd<-+%3u1RXLcMA&uoYoP
zN!U>qcD<D;w-3I(v)F#}&OoXCWd11LTF3PRR}U2S&U&`Zt=n+FA0I&V7#0SQyY0#g
zlP|n9QLw$y@Ond8*nYQh`@DPoTw7o!^NVl3`OR|Qfnwm`+qOFo{=Vnkp7*xh=_<CI
zhMc&m8O~tchQi*N(=*44yB{xZc%t0)WYPU3EZDk!`gEz~!CEAjKQ!0gd6U1v7uw$N
zzV7`==UcX4yMF2VRby$xfpYu7O8Zc$eW=`iB!6_yyYXi4jow10?CpQ+(65jD^2qI@
zcbMNiUfy}U<UO80Hs{@ZGjJm?(^U5MRJ?s9ZyyY-cn3<}fwFhc?ZJ}w;ry{bczm#f
zX?ez0c%k^E<HgPsv+iO1%dwdUOP$+i-TlxgcJ8{}_O`#Y_gJa(_^kWHe4AkI<;miP
zljXKkMfa%%8*1sge}cj%w(t~%+}<MJasTx4_NOX#1UCjdj&5S!*)iAzpWkwWR`~p`
zZHR%-yPLS90V_nzUxRVV2oT*m9#V;#TdF$lw-S|6zK%ycg~@45p2nm$OU3Vw&p{Cm
z9<1t2%WCSOd;^BzRn(n8{(S*`z&3xtx<7I>Pwl$C|LXn%UG{7&oSt>`%{6-Rj{EF3
z&igR}vhWQGIlGFi&v-zKz;q}d9`H99d231>RlsW_1xung80rtNHu&+97(~T^yK(eM
zUh~LXi-MgvNnA<nPvlduLn7;toqWpguRaKWS-}d7EwnleWPzb5YSE3T#t%^E2gv>x
z<hy5aQC-u%N=Hwrqvsxi#wUV<vMh8WU)Me4q`DS-$hZ0CGdG@@dHx=1pn5;)wo?z>
L^A1qeN8<ki*f8l#

literal 0
HcmV?d00001

diff --git a/crypten/mpc/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..7114ff0535c2b6fcca9d1b4f634e81a399918ff9
GIT binary patch
literal 1170
zcmZuvzfTi!6#stjuI>G3YiUJ(iyB&KVrW1U9EgiRa1a`(4!2xt?<iOA+T+`A3Eet4
zz{KEygNw$*82wLNXc$T^5(neJV$jBg!T7${9)*P0-g}?-EARV$e2qk81oS2Tuk@Nn
z=m%4L61t%M3&1|ok&Z27V-;hDIg7J-mA3^|0G-zbD_{rJpoari$QD)6!$C{3B~`+x
zi1g5VtjdN|y5X1TNmT*+U{Cjv8s?B8l!kr1CqH+g=O69aeRRox)3^4d@7Kk*yc*M`
zS4i#CW#I9;k`AA+z%+LG!g?{yxw1n{+oa}}QFTR!RJKgrASbvJ6C<^<X4fogf~R0q
ztB@x>%|6Z<<!Xh15^!kUG137dLIPoPB>~1H#zMf-yvyenv%qp$ms?sWfbE<(K(HIs
zo(Hy%=(&S3k4GhcSH1ycDR@EY!Xc1r(AIKVaQiiF?O8UvvYK0%*RrcC&!5aMtgaDO
z$>nXQ;63pZYO~a{I~i&_ne7ajevm1Ux<id}24XUrW|mE=X;V(!y<Rk^rW@;dn1trf
zh$J9=0>0`1um<|3-1?CCIPh+ub$hxAe`V%Cm?3@OySnE&@LcS<blx*Kx^z|dI(|9n
z^~x<11>(}Y*BQA6xHJ41L#!}~19QWaIvO!HYbG&t(hnxc@4Y&@H@iFAQbwA}$eUVI
znK%$8yyWF{!i{z(GF7OQ*Ue&Qgo<xuqh#yxs=6VFp~g1#*4}xIcNFXt+>oZ_Elbl}
zIZsTwVH?yexWN}@IZx_tUyjtO)X*1AQl;5Ep*>S>!z6mglvt|R@FUKKS;%(pltfv1
zwg|5;a=G&}an7#jHOqKJ#vz2=bafNhDUUJ!8$)>fJG%E1C6CeYF&g|63@ThBbQ(v|
zL@P4ZjEptpBPqH!x;xqko{A`(+IiSgl1(LfsN6kLk{2~OwKLh0Q%yN_C{O+l2}9fg
Q>i-kP_<mc&IO)yvKMj@f^#A|>

literal 0
HcmV?d00001

diff --git a/crypten/mpc/__pycache__/context.cpython-312.pyc b/crypten/mpc/__pycache__/context.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..f7af200d27f33c2cac07e2f9009821ae9447024f
GIT binary patch
literal 4981
zcmbVQZ)_7s7N7O5|Hh7;#QEnq&O#u;aM(Zyg|vk$1ZWa2;YespdcD+mH(?#y>&~tT
zN!PmcgoJZKN08bQ?kbU!DjgM^#791IAMV8UzQmZ;VM(P*<-^@KL()H>)9K!<y|D?X
zR5#A<%)FU-^WMBS@BKFabU17X%Ju61M&7DH=o`|}i=o(9J_(IWh(jC|MZ<-f8m6?q
zVc4M6^f0Z}%rK+X#$hAWhNvlK9yU{jHI`uu(CDZ&W*fEvjX8^kD>xHpJWCDRCn>-A
z-(<snKcyNE#uD-*H0rwrNyfs-q|9>%#8@mD7s4S~#9?z$Hd2}3q2XEHO%XX2gF<nX
zLQesmGjQ}LOv<d7BQUnMTq_c~(L3u9`W5J#vZSms;iVPDdabxhW^`JF?6#&TmREps
zzLi0;RUe9I=c@M#wZ0#P3`jwWQ9z36Q|k9r%2u|{{`4BsE3H!~#V`(X;&z3JIG>%V
zP;!+{ja2KcQmxo@jYbW6i$as|^E3TZ)=?qKcLjqRC6yVAilU!UZEp@7JJLNe*fV@k
zWsbep->2G+9qjKuIQ+)I@j<nwyJv9dSkM0BLkGJ@_P=(Z4~G0U)hNh(Oj2nuooWyz
z)y&6F3s{V+<}jX2$b4L7gt#E9CNL+d=|mDb2_ZZl<y9k>j3p$0h02U3<6)J-q4>CJ
zn-Fo78<B)5UUgzV&hb;H#iTSs1XhjjCHW+;TFLy85FV4%3avRlp>?XlWsXxAr^oq8
zl|CJcs&>rFNgN-6c9NGW;H216d9p4j#}dIaLA-ruuqb*kmIw#KVqE6W$brP9Y95J(
zVBb?1JP5hrkuJe&8hu^IF1p-{b?fE_GIbq`EgK(Njg6)SrZ#U!wQV`~mW+E#*1h!+
zqKvIGmNcCnT=F!}h5xweyy1dv#x~pWJ7=DTu@w_C+Rq*N;K<qjdo}fQjSDq9=EpNN
zJEo5;F%{?fKj^>9xbqfdv8N+<%ngec#|7(*b#~_`byvKXz4Os*W5+`E&Mz#Tc^X+7
zmq9cX*6%gxkhXSr>Y#BBoue+HG?hl9297#wNf{KwAo3eRFT*wH=0}A%FR>gS7BRVl
ztSquP8E45^%YqnZLt!jR5*tfKWg!ve*#s8Dyd?3G%|_1jHLy&V)*`)<LD@}0T=sXd
z@nq~Ik6Ce)O@y#4z*fN$3$hvU6(J<^fmJ54&>7+qUF^Yl=wuXD$ftNVDFGL4dKmK|
ziPwl^8ev^9H<`>9OuovC2(@XD=h;)ToRHuaaAH^j3(Kd(ctFHs!H!^5IEh1eGFZ^C
zpq&sO3!IW;(bl!ZUlOPEYwW|tC_)Y#kw^lO7A?OHua6ApAY#d@<B@XPz&I&0=vr|+
zjnalRJxUYX=rJKhDHO3$f4DHa@OD7e0?+ctM%aXY(H0zaeKj0JRzqEhVahP$oUWBu
zgKor98q-^=0@3jo%$#xR3Z-b7Tsf`GxO8eay1;}DW8kRoY=Dr=l<oVR;3!wFa;Q|8
z85e|q8iFe|YQ9ciD<0=X!}&G_rHsJKrO$p|c#PEQqorEc3%{-yf2t%e*oEA+H6_xp
zh5+3eS3w(&5m31{W7HJbH)WKY^feK$-YV6)+$ob{!aK_5`bu;3mOeMa>XcHQGMA;4
z^(DIA($`Xu&>)dQ(n(nqOJt)yUaCto&$}5Upp=z^)Th|+fZVRn0x+QQ(dX(uk+NBl
z?AK?N67!5pONV}iju3xeQ#jLgv(7<F?@X#fsZgv6LlX9n@T1QAIg2J6b$;L}y|%8|
z0=l}a6e4=TX~)X!A9!~Db3N}lK9REj#w-~XJ7*n#2~xg6vBxRSma@Nq`}Svd<SG=q
zK<OvZi6~TN(;d&wFKGmT4SxDPD%kjfrFc65YG}6J`78&{KE4SdxOX*h?;I(M3>p-Q
z;?U*5l|N#EI(d)2BGRR|N;S92g}|2=L=le`MPAicNA~KiQcZlK5xTl;Ai0-;2$W(5
z;Z13+3Dk<@&H9=R2s0Eqfo7@m?g?~;K7l5vR<s>S)C9~w0cQ;UFjt@#Iansjc=;>)
zhXCQ4I6lhDyx*XjWPmHYtTF_(e1@J%8YD$`z_U#JwhuT1%th}2+#uoq$Dr-U)Fle!
zsAJ%i{z6YspHT!~TLft&6ctXBZ4H5Ks=1h|B@!=L7PC-2vA#0K$N4h}ym#s_<oS{E
z1Q&QEDuzQ*X>VW^4wOg}IFv~6xI|cG6al^xIp%+%AEwcr=H44`&W+`Kfs8MZ^KHvC
z_db?L_W7;HOO5^EGAW<!198o=5aY$9d`P8-hK|DP(9tP7;IIIQeOlmnjEUS+n+M`r
zjwc{MhY+J7K!{v`J#dN-j{{Yb*{C=s`B~Kh7&W2c$Lju2jOT`+3%~|X9wL~Mi33e_
zmg@|eUNvf2T{QwI9phE=(E<k0upcIHT%|!Q)eZ<^1oQ7D1<Z4*MVC^wg7kwtJ`DmB
zHPuQmLjlx80iJLwP0a5ki_55(0D9FZfp-8>4#feuM)^1<9-%T3QHZN_cyvs45OqdG
z!ke53Npq@&KO@Ltk>g=qG^(0G^D#{em?UCMP>5=biXl$&S7ErWNHrBOGbY&x6GLGV
zmsD%fKX^%XPK2Ho+I%X+jeyLUL^{>+6rNVi;5dNs;ovm1g^ByBHYph<z;HAf#U$aX
z<|2;6_0W@uzJSHb%JlTK=8~$p=vq@d{~w1WflitOR{`I9;A_kI_GEl}Zn^LJ4&{7(
z8DC#|;A>}H`Zr4r?YV}nnTD;|hTuix1HE^3EZeYa*0@rMn%B>7&U&|gS7B<b%-c|H
z<BAnku{l?J#?`*mw0_a!n`h=DH-fi1Z*N#Q`o==zo8KAfs_Hxq^V2<f1l3A4a@AjW
zf9Cz1vpwT%zw7ibx*C_<t%dJ`rIxk_-qtI9m-}+wZ5i*joVP3E?OOD<X@6T5z3Ude
zKKRQ!Ek4hRv7)vvPdj|o50Rs)de*wK4Ylmb`MNW{?yT=ndf=YZx8&KL^K@oBomtOI
zInUvY=kTm~$yI-;@?zy(7yEV72KWqdu(RexpgAr&J|dqU4i<E4Zb|=QvCfk|e6P9@
zzE9wW-m>0p?#+67XU%zosfrNiVp-46u1?+Y>{)Ev@@L^s!cAsg$hN(Dxnho);}-)R
zbB=i~)39a5h?;!G$yv{yya}~zm_7W+foeQ?H}Y;IGPD$AuwS%)R7qrLd1ykemIqDi
zue^Nu<tzIx@5?oHWSTl=E%(|3H#Xhm@9a2mdH3zwS<6zb_tM)J-_F$rGPQvlmA5Pl
z!Jcew??XgYwJy1vE*-ge<iq~&Y3RYeKc{-AFB^Mq9G+{>c{XP}o3Dnlp5Q`bPr4Ug
zOEq<~Qy=d8G<<bywr%&#t~+f9$yvd<Ecklwy80IDn;z^xeA|}YKlo+M(9I1W9wOZ5
zo3F~5bvwUsciyQPTCfj2el%bJL;tV>(Yc`+bgODq-3_2qRpXQI-9!!|+J7FIkf)b=
z{K$sf$0=zSc<5i7{Jkvmw+*{`H=@5c8Q^`}THD)6-`-r;M=}4{+tO!ZKHq5V-9dl8
zog(i}WA9!w1aj^BR~E&nq#DURk^GEyz3_41iigNcyI&;qyvyoW%DNiBr&@o)r6S-$
zB02E!G+MG&Uuc<WnR92YzHbc!l=V2ZOe0%MzR=E}G=P(*D=`6$m|!<Qtw~Uj<t@UA
zM6q|@EhHS(wRV4e0)|OklE}X@V8?H(2PtEH9=?+7wF`{9z<CRd`5pKTsBjN?kyFIv
z3rLG_nB>huEF-%W!nC{iH6JMd-+&gB3$dJRtchIMf`#rA%PTRFOGf#<_-*KtPcn&s
wK`<#rExW*)_fh42RCga)?<2>3<opWNe}gK&Lc1TCs;FHnn|@7EwHmws0X;B#+5i9m

literal 0
HcmV?d00001

diff --git a/crypten/mpc/__pycache__/mpc.cpython-312.pyc b/crypten/mpc/__pycache__/mpc.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..704b6a64fda41b394eac2943768816e062bb2ace
GIT binary patch
literal 16674
zcmb_jdu&_RdB2x0Q6wem{kD8%TaszZl<e4Us@YClzhci(+}H^k#R*08UP)9aQoi?6
zj#z4QTNk0*q_&U_l2>n0x?pjZ6mx)XG4_`WY*>o{gBU50LO6qgb${ePN6v<#1BU&+
zbDyGU$IE&Fo_p?jeCM3+eCK<ekN;9p;p6apQ1d@y!(op5clt0MkDj^T#&g^(Cvqa6
z;0EdKNbuv1K_^dnXTmk^9(1$3E8!V08!TgacfvbfK3LB3o`i4QKj=rkO!OuK;}wGy
zEMK0e91ji#k@t!IMAdlpU^UAJ5;fzsgS9MQk*FK58?5I!2PajG^%#@0-eTqZm>)e3
z?ieQqFL7d(RPnx3D|=siaf6K`oLK#Hey|De8oZmu+DqJEi&%%WRcboSy#!1QwqcYO
zsm*}MbFT+noYZWqZ7r^y;zRYH(<lQWz7U9|#>dmicr2=>WPF#$m53@O753prS!^_-
zsL|LfsB^}KNARjV^xWZtCsWChGpya`4uC?j?~pt-p%vk)`e^)BNj#N`C)Fd#SW1-S
z&uP)9srgns8I`9_k49xlG~1WOQprh4R?)ycp-xRm1?TugEJo8b9vwm4eHD;i!v;&-
zATM%*4#_#@H5yrOkso&CxM5y&Tq+-QOCHgAi8GN~hHt)fzhQ^yy2P6;y`mckFBd&X
zePS6>zvx985X+HPNR^_`1~-UrzwNt944_rDSb?-g+#pt7;s<N-4&q%WR-v?BtVY^^
zel@m!jZ))SpS2bvM<ig*tPy=c4CZ&U)LgPp{hBsdx7cu<7aK1*%$_Y`6Xwt=HY05l
zTaa!LTamVlZAdrfxL5f>;WQU&FO)xh>X5c)12LB|E4=CG1@XI|#oqiGKg(tLi+<WC
z?GYUYfqtJ?jeX?C>=5*pS>9+V2eSN_aik4Ecqe($Iqk{1$I5MmdRBC0J?|4e;+ZZ}
z8LOcD<?<}|Ml;7{%RX=$@Odulyx64Dtl5+0MYAs(yUM7s-qX&kW31NtHgX0gr@dKz
zgiCYs7TYT8j8@ir1Y>_tX3R9pMf^rx)`72p@ioOexU4tp%JNyK=)La9y5He{!auBi
zs66^lK(J5HpF^?~RV77GM<qdFM@~@Lu@#2p)Ho}SCnwUXFr*a^2@`T^GA>G@aBfPN
zh|21eFr>(_p|A<^3_uOBGdd)Q(r`SfgQrs~q=wlr@#Kh*RsduxT13+cwO@$JadmWD
zQsc2u*tZ5)3X_xBSaE=gMU#RuA;sduQ$p05R!YV^;u&d3P*WIImE>`ZtgQ>hCO}MJ
z{aRD!#-x}^J!1?XVc~cZ&EhngBJ~K-M8X_@JgulEG-DzRWOQ5-wrXe!2{ac1I3Y`u
zQWCI%6^5>EMMJcrVR#a}4%jdu#<4nd?GY}F#$%&GLW+vmos^JHYPba6rP1hQJSE$(
zbTEPSCZlS6Qc6tqm}8mflCXd0<Wy9|a@2^4rlB)(T0<BhGF+L{V0)_Xui29Uj-_Oo
zkVR0!!Wn&8G}MJrU_K=zQ>ySvGIfDkoA7j^VpusR4X0!*A}O-X)Co$!zDnbu8-oC&
zioi&Z2Ek6m6%*J<Ix0t#ss#FB7*2`lm?RhzGw>sv1KG;b`E*>y<N!S?ig7ibN=6eV
zBul!XT#!@1vJI{F#Sz&>6G}=@fK1xVA?$1{uAtu#fQ!PAC{4y=KqnSQ4dSx4&meho
zIO?Zi0u(lEb;0t|NsX4`lGr1}RV-H<DP@p&Sch*Nw1Ld#L(wFmJD$YCq6tQF+UdQ3
z!z2u(l2Z6+p~65yWJHdNAzmg9Rq$x=-s5FrKp{uLqs>hFtSI=Nk0#R65m`>j1veA)
zGVx=rvvVRfQE)5i2}v$^BM}-u5-F68MwO_l$_zxITute!g4{p@mKk4_G@h^EQl!K%
ztCFci>*R{cBTB*Z$_4f=)478-s9&34go*$1NF<hsDoP}x5F0o6nQ-y<8+z68iQZRx
z<(<2GW6(L!s~5Tg{lXJdaw}SAYD_s5HfG<1a^)i=zq`oY>*4}6xdV4<+7>o^Yq93g
zLg3Js9&UTz-}b)Od#h_{+rg_{%Qame*L2-Z=gL-^+TZeB^UXhT^Vnk3zFY-bmRDXb
z%X^#Vrx(0UOWr*z{_5O;>m&2SH%6D*zp+x^I{VVhOSz->JX~YjY-%R8*wCHxqtVr8
zFYmk4D!jGt+P)i(n|qg9`*Vk1KZ#}ytvS~lzAv0yTla18#_+A@^R3VQdKd}Suhh3t
z?R`w0i&0`cZe*CyrKQbsmblGwaR^`%6%g8d=B!DdhBSx@N$G-M;;09VKv9Ti6C<RZ
zVHB@z5{M6nkSH4}nxe|-7>LCpQjl9Uh7UPp0WY}&i9!-s5adq03QmlasW68M<MRn>
zLqvIz`_ji%HP3BX2!`gn^1;x8HzaqVB4+9c_#mpJ@B3LK_GON6@9P={lgsu#Xi1MD
zmrH3H(=NzXR~Cr+fHx(vGh#x4Bz8tj4JGRYDjlRTmz#Vc<Yr5kH(;cKpX6zTiC9H$
zM+qbPkQ=9n#IC%}C@Ofst{@TR?I=-b4;gJUY_YOTy@f3s(4*A+8%Qp4zpZYW+x6y#
zoM)w>Rj04zhR5;^kLCQIHgB1K?q+<c`N^E;^~#mTHoO8W!TMZ<hFDW210Y)JS0NV4
z#+a^9p|$yp(Y%Wu1KC+VVvd5|B~&=Hu+Xg0Xtze1LKL!HngFRyOpz`@WT)vTI$I67
zG@KKL3+`9~9FQUUJ%_vzMe+_LcKVZhQIH8*7-d}ssMSs+pg<2-)2d^$dBa<6*V>kw
zx96L;FE;PcFxWbqnaMl~7KZ@u0p$4rEEZwPBsKujAG9#BpVct6&BPQ4E0KU4elW6}
z7P2%ROg4obJ%xY{Btk$k4Hlm4<<C>Etw>6t>%mwuXO5n<Hb!fIiHsdfSza~U8OKm5
zI|19>pr`K>_DbMptPG%v9+(UzS{iHuDnDP!RD?op_L_2poSEH+QWK={Op=HsI@DBD
z6FUY^gb+8&!kI>`6)BKV;;fnhZ~-4Q32@J7GA3Dj0s;osBO0gB2)N*8K<s-Y@4+J1
zkT7+68HLI>k$@cpo98;;X<iC$U+^AX*l~0bX>j|BH*h6zIk4<)$$MMo_Pn+K+WsYP
z2*PCc#hDjLpsZ&Ira<9vfZ;&lvyMqlt^uFq#)=S4pQ00D#-WLsEH7`jY#!KB4wze<
zYNFNHTDi%nn|3}3Zq_->Taa0+5=^AzMw<PmU0K(dY5!T1m;Gvm@s)KMgh8!A1Qt``
z!0lbp*Fc%3>^v+@NJ)`|Bs58jFF{(S$6){{J!VVYl|ecm{2mEX|8-SS7o;Q5<C6k2
zp@fud_Jgto-Ev%kMo4~_u$me&#<D?Tb-I>mv!h_zXdaYD8MOzBIV3&Cfo`kxn=>Fu
zq^7pAne_<UwrLtb$QtIjDqM)8C+lvJJ~TmXHB2of<d|r&?8)f4)TCt7zMnxm`9hrR
zFE)`!TE00|I~u~mX~{B0Mpbn}>F@2Gn9|Ugl1F;QR7~l`@jI80dNoO+gh$o!#1o_O
zk<kQx>i*4I>oZKh2JX#~NZ*gb&={6v3CGtEOEC6e5W+4a<2tG`QwOJ>G%46E@uY2~
z2cc1|MKZ%yzi^6F-LPdDgBtX*bIeI*saYEPCQkVt7b+{1M+}t9yHQqfGe|Od8w(CK
zRVafSFP0XgGVw_0DNHsB$TI~^14fOD^^ZS7StelLSdm)&5Q(NW*IpgY``cD(JFf1Y
zJuq`1U%P$&D3XQ1_D?ISe>yf_Hy?ew@q^B#hQ5`$rn%~wW4R+{<N3~f?XDYpkt_su
z-L31mdU*E4%!%2jXP%zly--Irb-U0!Sa)UmN7Hwjy5`f1O*^i-SDM?Q2A^1|ZOr|#
z#<NU;foT!X^5b{^CrIFT;>Jwn0|okHh!W_D&Qj`3mVX7}O@_vIno~{H=0VEKu*2X^
z&=4)20UwP`@gaSYkN(EaK@RB$)I={_1-66D^h6v#UDt*cu1usfj>E{sB*?7?O;^fk
zn-{f5DB)SPj_w19P}uraL>TJVya3F<gX!sf#+(jQUx{(x*t0c|Kf|J2sy0<-VJobO
z9w9ZM+35g%%CNGHb2UtkV_||k#{$k9xsKs^kdo`h)91m=7C}2N7Mmq&-o%nt43k{v
zUO1-lktBQ+;yR#lP3L3?hqFUclHIB>9#z4P*R(wsSC#dPfz5BT@)@U0B@^(YVJ{_F
zbHNDbQmP8q+Yo^m!o*d}@nN768b{PvlE$tW3JlcKl9~I?Y-G|-sdcZJI1RBL55l9Y
z8@e}X(;D|6Daz~|lrrwZZ2S(Cl7XW_b5cn7({P$;L%K?))};Ng$-#br3gr+IaF}+k
zreU^arsYl8Eijm`?7O^gZqLVlVWqY?_w=1+VZQF&wzu1Er1Q;B-0~pNl+TA5Im8X<
zjNT6;Vf+E_;-?f(V5alVXC*Z)Yw{jKilnmP2GXsQ;sXprm>4VbcEI;Ss8MJRIu^+6
z%~V-f(4bwTR+>c&Z$MSumCWVLa!|+zg$1v$UQhe~t?7uqCUOoM`(C^X=AOcOaT1~J
z96R+~k8l(_3gKr6ZDXDLFm?G!n!jz8RG6u@R;f!P(*4&jvm+nuSnzhNUna>e=HD1Z
z#%?n(mC!B(P)|=O-9KxpgzwV?@j%hjbChS>+;>P<hiHR!4S>XFDgBEbwUCoZR!!i#
zs3}U;3R#7y&ZK^#?@XnI5$f_+C{wzTK!va0Jpau6;df8Ged66`-hSrhnT0Kf;RV`q
zc(MLS&h@%)C0LvDug4JKfD!j$WFAP|)S~Dy1R`)@*66tCErpAT^n+2M5j<`OC(`Q(
z;RvAHy+3Gk14RlM2N$`!_06+`GlR1)&%C@?-&wRy`~K1j*gE@>`M<1_Id}Bk#!fpj
zb%!P9Gt_QGG~OD14|kiQqJpHETcL79QX><IXgmpz=BujVT6l^kPO~yN+HvGFP1c^S
z?e+_5-hu?{4Ax%BUd}EDx8;M|ZYT@EZHvLj7QBzG*Jl233+*YfQ0VUJXbN8QXmSd|
z?Ltz49uHv>mXBec#`3|wC#7gYK0ynxulFPh?7T~B_aQYaTIZ&GaML{2xoMGX((UUB
zmyR~u(0@P%M;od3l;Xstj`cJ-1xi?j(+*goEvWMv5UuwZ>4`;;aS(8;$U{5i#sWnR
z@Hy=g9a+cEVDDy~NMS1?b^k>f2+EV$r*TtwOkpB0IiFN<Q3I~23kY3)<2GzKonV&-
zqI51jGD3JSc%C|b`0$Z|Or1$ZTYb>&nGLc(Q{gMO$Z&tgi%(L*_GcWvP^e6%<rmxx
zTEWL&k#SO&nEWA1mWe`{xHe3HQ&d3p1)l|(wJ5R#$m>t*iA2`=(zUX`0|ezP65?D<
zvoFlNuv{O?*N1YxyH$0wz8PQ6{psE(ub!DbJ9BoqzAs<jw^YCD_Gr$xVpQL)gr9Q$
z*gcN#X<KRQn%g&@x!HNM@s{(Rldsr+&*>~L;h!*12d%&^5U_7{c7a-Y42FN2dygN$
z1&9mR7o!?>o<y}xV9{!+vUs&x*{`TEIk_)#cY?K=)v_4exZvHmp0J76Fv9*?>PC}6
zOvUmTJcw;5+uA2-J~WW7Q&6GZKg1-|KT;#RO2HV=8d+;c8Rgl$yO05grQ?NM@ncC&
zM3Fc$wWlSh!KU)b++_puchE~`ngus2Tf;_5PWLzHqf{Y*66oRDH|JdBy!yo3@`pxo
zO9>R~W`>UBLYe-(PMW=p`PtPPz1_dk+}ELcb3V9v!Mk}qkN<k8u4kw=3?i6eI<jBF
z;PN2NfZ!UU=>aocq;@8j1&CY?%WZ6yay_bJ__2owj5rLj>ibRjvL86x)r-S&`x(r1
z+G!clrI<8@Gn8V`S-2dpI}qUDh*(BAg<O<y<V8&8uaf1#o-tZl(F0g!pa>w*5{n*N
zf4avkdP>jq1Bc<zgb;9M?wcl-L0wVfmYaFRq=dwLgfREx<l=)#s6@vn63kH~yx7+x
z><npl?Ro<f9`3<K7>inK2pL%tMkL&MAgF^yXy_kg5$a8uWtwKUdCZjF!AxlrAfq5^
z&aUS*j|6>^^{!n^kqZK5WN9aZWd##MrLna8WL}N}aiM_b+@}4K14s%knpGhffn?M!
z(<7`8V`fC8azC~5Xy&_SS&|Q`;IpiE7?^apaFK@lZ$&;wy{K!EeM#kZ4VwmDp=Jpr
zxVWgKo5q?SPv=~BYBn#{bmq$LG=`QN!}-SWN=40F<8pIfzPayK!>ZHK<by6603Q;%
zwG*=BZMy@<Ii#7cq+Ypj`NB`r%Z=Un#_k&<%i$yW@R8hw#o$qR;Ma33B4);1lSRj<
zl+?26LN4?xdJLIX>R5?<28d^xQ7P@G#32%OznAD>QB{aN8Z*7)*1)y{QsRIaGa}#G
ztNd7v)z8Rf`3w$L%zhA^Uoj4Cc+rz}i2MgGBTRDIiQ9>iOvDyTMLsxp<}u?;?qu4R
zc@~-1mJZZDp^u%0KFhk5NmZ1IqYgkSY@-jIzUi*L;Eu<W!>NJ`*N+IfpjskGP$=|i
zNhVJRqib2D9LYObqIyq+HPAgKbTb?uRyF85P`{R-3$92)&DbfLzCWjSKSTn}tEzt1
zKjXiC<gF9ePApb+FIV;Ct9ovn&sX*3;54<}W!^adadY3y!JA^P{BCvqZ2L_6JMMP_
zZwD5uamTsht-KQWQDCk<?`?l0uu|Q)T-}kc?s%tjdDE`^rd_w<zm6_ccPv()LQ|n5
z=ebgOxpK+7!FH!iXfhrmSw`xAj*MMmlp=LQUOenJStrq2x~M1eE_Lf?z&VXbUy!iL
z?~O^p&Nssf2?pcY)dpEmn2NA}zc3}!sbM>h3p*Eu4i%iR=?csqypWO;A`7j8vM8O;
zM0TAzRB$AvkbZB+PuT@<!GR_=Ke}}OOTbnRAi>7@gI6BE{P>Uim;GDv{w<6Ct{WX6
z`?r(BeCNzl%e7tk+OEagtqXyzcY{^%vwvge8*@9~?7#dc3*HUu)d>^hzDHm#2BsbX
z<8=&|B>jt?Vq6+KGwo1K%$JtgrAz(Xh#4NbM)EsKF$r@8<QXb@M5n=wu*0s*+8yp#
zv%~CchrIFxK*;AQktvy^gxIxqYLmznoJxA!@b09kz$eCs^~<2OP99?2_FYd(|BVu5
z9La-sy|(VEI(uQ}!rb{cGcyMk0v+&*%pIKhPR@6ywd;m&dF$i(t&iV2vApkOe&5N3
z{-+nZ2NqkO$@!MNO)J6XD}Q?VPZxv2a&SvNxMlv^i^1*%Z}&qa(BBskNomVT<gJ_A
zQj!Mh4;^wm)4V<GsMI0%!)|_LXt3T(DTbvicMwwvDQ6G>0w?HTum@`-U8Lwi3sZ$G
z-D1pCEUm7h^Odcj4#*-%Oc!JxKSq{e(PLY0DS7A=orps=FzA9`!BuL85mRDkT_9*r
z5kZ4x^=V}60FBBqO?&cVDg*K;(vV+M#+dveHA@pm?UZA5PBKe=g%VP^n23@|S<;;a
z1;?v>`0ca_C^{K%X&P3Bg3mSX0i7?pKxE2wRI+%H%0>`4Vrb^i|I+<Y;KRUD#r~Y*
zPDR6<i^A%ze)k6d%lePnK5Sd6IFNHtFkBOJ3L=DVe%HJGZ}%_OhjR|NK;bMT1q@j<
zYH7DZb!_5orMh;uex}|~&2E14_Rg#Ii`7Tg%C5UsJXA^9^>6HufGF@TehmHtZl`Y`
zNf&Fw4ZA=-sG7X96rq;pg&-$$)2)#Wm?BSp(}&H<&Oeg}ZJ`dP{FC>7y?K4TIjq5v
zd7KPb@<w2x#PI<ZYOU29IRo>?5kHOKld%$t;#i~6!+KjX3o$?r941HfIc)vmIEA_^
zf)qt4wyqeG->#pcT>FPeGZ<n{Q|)pS+FevODyQHPw_-PnA&@zxd;WA_Xip}W%r2D3
zT}UCAn#INJFD>rCy01M-5%1JVAf+)X_ghurFkMNG_OFd8I7`mz@4~%19f=G3g|owQ
zH1=JskQRc{Y5j9*dfEbJjib%?4>}IUv_=|8sS;DcZ5Yv!q{Xzuku-tbDBb`<o7F`R
zuktZIgv1Jbr|6EMh%N2{c#4?8?NqxKVP6#}g2-!0=`{ghmsrfmW_!sFMH)w_dOT)b
z;%YoOpxu@31`W!j7Rk(Ts5blRPF_V*G)Pu4ZjHY^r4t1oS<8r<$Hr?{5-u@58L=xN
zTA(9wAcGs@3L`#gziYuK{)NUVe~m`)s%^Dht={q1UyWXGS@Lf|IP!Aqu6*mRn|nXn
z_u;<V)&Jc1tH#CF<G=36x1L;XeKz0v>|*Pg+|f5qf@5Dj|N7Z=9Tr;;-9DIaJ-Xa_
z5?vNs2XaSWKlxiWK=YD+Gj48Y`)B&+qHiUxC4QD%tlhB?*g-Z2%!p-gYu?*BcW}wu
zZkZGE8O%4-K`z-O0&Ea=?u(FLJDs3>AQCyBjwZAk&B!9tibZ`Rn2}uXF+}BzrbHQX
znqvXA+D`1E&pnhdX-7s{!3!KC>`0wr9tN4+Wgem?M<_W?$w^9{rQ~@^NSGEp_>TYr
zf0)sy`6EbC)PySOfHDb2`3KarLJwn)Nr^-xf?(+_C}qyuC$(#FVt;JsVIp%%A2#fF
zm$<u~+m<``<U9A=691Fybhq9c;5kpt7Y>(u+kGc;_b7KSfZR%F=w|)$&V%`#2Uj__
zyFsr;Zne^bq>3djcgJdAgS%<<K%KkcUJvJ~{KDaIcTnTXdz8E9)yp=SWt&#LPIuj^
z56OL>!@c{y*WvD2_4?et)h6C8Kn812Y&{5y|FyH<J4?_v>r+9_gucauzJ<yvUVHg_
zFH_r2DzBrNbW(ZEN}F(>t8gFVbr_Ug70R)m2DiI?wX)2;b+snwZuqZF8{7?=?~?Es
za>8#kITD#jr4qYDY!gUD#y<&@(n!c#aN_?Vq|Bd_FQRS10~ShW%|me{JJFin=v77U
zhzj=+!fzA_HAN-6#F$+#Af1TL;e8@7`dcFV(;<J!Ygdh}7}v{Wi&A?$JU2x_<?F!F
zMe_YIB<!Db4;A<nMQIbV&Qf<}mtBUywJyUEt7NJ^6!oN?I;TvFD3rnKW&iUaUD3EY
z5|EcWC?Q`(!9_>VyfnJVh`G>^roVPZF38ad9IME1IvJy@u*?$?;69>NQh=N~iofEF
zjG7I?`x3<Klmp??0G=W~My&LA7rB+{`sM0P`RYxJ)mxy}HSfLNIN$JY``hg|>lT~$
z-f}H8AG?jvkYg+~#8mX&a}>&OYT2q7sW{|0TFW&g%y1vlE>j8{zhbH~>9xmbKBQ(~
zK3_VV?gspi!5w)0_*Hdb!(*Sgc0a@b`}$O3?ia=-qGMF@H^@8!mAGs)Qc78Uz<({L
z@&7}cQST~c3to0x)HMRv{m=Pdcn}}wWdBrj+2Z41!)R3IW>h9K(a6{zGf8H#l8{FW
zqIeN`S)jxuIJR91S!@t^f}j&zqvkkXPjLs?HtMwxC%FfJ_%`h^asPERN77Te{=$;K
zd!??K!WR*=SVV?5(+kZ5x73fD2X0U1n+Mj?qD;Oq_>C9=zJ>f60u;V#=JGtcoLWPH
zVE6EE8x*+v6W1O_fuRkW)={SaO-d%d!(1MPR=p@pZmv`^tm%I2uU88DA6TKbs6|?h
zCzxxbP-)d9hvOsKJ#@e<G{Q~`KD`KkCf8ITW^j^yQ>dPh<Ky^G+oYs~b>Dx0%Ij_A
zdVC)OY-MsvYvwJxE~u5Ik+=d09I=f+lvD^lH*oOT7a~WW8#r|4_%j2i3sv7bzP5y&
zUxva$Iq@f^WXO-x09}-HBKf^{pQdmekbi+spqf)?pKv$L^Y^PbzTz`(>u21~&$#WM
zaqXXR-T%RDM#@UIea3Y_HadihEzA7IJil??y~uZc>3Gq_H(bS^xabY3=IFl1idM5;
zSFPh>a5Yd~=UCvXR+~Khp4A#JzxQ4PSJSb|@qF*a<Da@V&maH96{ZRF0(#9Rs_3JN
RE%PsY;_CeZ6@6?0{|gl9k3#?e

literal 0
HcmV?d00001

diff --git a/crypten/mpc/__pycache__/ptype.cpython-312.pyc b/crypten/mpc/__pycache__/ptype.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..4ad4bd9b2cdcc8d459850ace31de3a648194d3b3
GIT binary patch
literal 950
zcmZ`%&1(}u6o0c{X=Bol6f3CJy#(Bgp&)`q6l<&Cp@JzM_Ofhure<sQ!`VqN!9$TE
zwwE5;e?jWWze4d~#7kXz5EP_0A@<UP_$He)qWBKK_c8DN=FOY;zF5oy%IngvwKodD
zSLqBy?;G8#XzTz5O6m|0n-HK1RqINi+G?QL8UY3F0@XHv>Wu8ES)Hx73@dji9gC#e
zV%P`{iFA~7`WE*^Envd;sx_B0y3E2P;%RB#4_)5+Gv;Mv8Om}g-3tgiz`!OHY=shA
zrHZXl)z)Pfw$aipBh_QkidlP6-psfw{3tXjTlGUfd}N9mGh^;IUBOJ5X1YRff2AQ<
zVn(Yb3q9V71*4|uwU%(44sZ>@8+3s-$bfur_XWZZJcBjVe+wm#FJZAEBu7uG|I1YR
znUc4kDRKjws>nYw@P@i=0POX<dQL2DY1nMLeA^AfNSIy}HW?RYIWa}_&+{xj)thd;
z!MOZ%j(m{jAIiWY=lC&N=mt#wV#4aHiM+}@zE}}KTzOjIvsWtFu)<0ZdzIeQFUPHP
zR76fTz4mw(JPAx8Lvjsa9rjO+Z_jPc?M`mpJeaaN1#7=JxovOSyR%!)!Bn|ZD1R%R
z@60T`)jo{A8~r%*;8UsEDO9^y3`<rn9dR7loa3Z<#|a|Zs7t%xI8PdGy?>H(92$8t
z#XVWP)L7{)8y`oaSHLGw@i7T<!aXRWk(@@@fX~|fFO#M9d;7()^*de7(3eS8A(NMI
z*))b*#^oxcdEBeO7k-l^!*OP;XYhP@)A7jltl=B{EFQ?QCg%`-sDzNC2_VzoVg9F4
OAj{<C!VyT_EB+1GTjf0f

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b9f492b856ba79209e72f8838f42bb70b7f58124
GIT binary patch
literal 294
zcmX@j%ge<81Z#x;WyLZwFgylvV1NnA_^bkCOlL@8NMX!j$YqRTWCXF9a+q?NqnLqg
z<`kB6rYM$5R!z2-Kr<LL8E=U>7G;)X<ffKnCI@FE7Nw?yq~;ap7Xf92oHFwgiz<;t
zi<p6$idcYzpC;=qu0*(2u*5C4B(M&!f?MqI@rgM(@$oAeJ_FS={L<Ag$t}>Y&@VDH
z(N8X_EGS9M)6XqP)-Nc^%*`yxEK4ockB`sH%PfhH*DI*}#bJ}1pHiBWYFES!)D3cM
mu@sQ_z|6?V_*H;`QU5N3+6OiU9+eBKmKV6J8rh3Dfzkj<QceK?

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b6b1289b29fe958bebf8f3464518defd7b004850
GIT binary patch
literal 35490
zcmc(I32>X&edmXhAOR8}!BeC}@FpaRB6VMuO^KpT(^e=SVU$7;KS%~e67mO75)mj?
zI^HdnI58PJ6*X}xD$!I_qK)aq9V?r3qqOPP?RL9>KnDm$*>!e3)5*@xt}G_gHnZE^
z-~YYuA_&NGnslGUhxfhj-N*la@B0tM#YF<#t+Ia_zWah8{5N_~T%jCT6byoJSr7%$
zFd~c^28{+DHVv8(XB;t)S_UmF&NN~jEf_3dVe^P>v~aL+v}mws)IMluah4IsXz^e%
z3tLA@MxBFB7A_cZjg}6UvaoHWY}7sIX5qq-^3jUH3WSS9`$*+z)nL_V^<Xug9fLJS
zVV@utzbuF)-!k%+4z37ThBqtC*M572Pp=e&!8)T5SQ%Ims8iBQhF6Law~FHMTOY7!
z@4jW?`3=G=^=4th;C23jBKp0COo0?QH9q2(5Ue{D7z;@LNWdrg$HdU6PYRBm@&!f$
zqk*xA*OYMv!@iRvA%Dad35<n9Ql=OY!7=r*5Rd!~3bRK-($EXOaKt}!8jq%-lc(@g
zv`3mabCl)AQ^}rZdV3Cs#!jg*rG3Hk0rBY&O5Hm)6cPi{FECw#*O;-M2>8ziq)d?%
zI5QF)LMz2z{9m{s-ZSpY-4qsoAA@*V2nd4)Q5ZCehCx%Ip#2kjMAOTLL36+&nqL;a
zC6_R04HSqL-LnnPR^4-<Sn#qiSR~ru+r>io4x}j3r6>**57+4%#KWR}Ng9i|TXei^
zQ0sM~9Y(SE4TD(nvQdq7sj*I7Y$<AV=}IdTOVJLuSO&jbbi=O@%i&jw74WOXO8C`c
z75o~p8vY7#k644g*P`?lx^n99+$+}VTD20-bx64izbo-uFRns<k5~`CLG-|H6dT|-
ziH-1^#l2z^QniT9cxn|};J1mb@Y}^U_+GIc{%X++e~q{reuuaQ{#vmEey6w={yMP}
zewVloez({Kf4$fZe}lLl{zh>F{7vFU_?yK(aT99Wg5S;f-70QD>^5;L{O#g4_&dby
z@OO$k;6EnrguhFC4F2PR*1;zNZG%05CkA&1+6VUpyo0@g)q{HjYX<uQdk6OgItKUS
z??7Pf;K9K5!9(IM<T{K|e_S_OPX?aMInPh%(@Yq>`!bb1QZVwuXdn_C8hF7k1w_8o
z{he6WMIJaTb8HE$W)I&wp3sTmz)-{!dBGp?jE4hZk6#pnk>J^YCyWBHBR!Fj=S)C4
z8IndlL!r?#;}L%(7#a(A7O?_*^vNl^6p)jljuR7}Ft$%5LgfVfLoayF`bWkCp3q5D
z81MwgP@3EjRv7kS$TQ{%2hR8jFnBm%;F-d_jc6XVC_8(H=iCbcR6XVihFMXRU~GK!
zL_nh2P+la6)}4_8VL%tu%t|;Tg(9J$(1@q~Tu2%bec@m<;O%7j`-cj2JIjnP?e@h+
z_?Ly4C8EAO-7W}{VZsnmpaH$5^vtQ?a&-*5?({LFZNYoB>|vXdQu|f*<gi_fQ$otS
z(||bPf`fu+QeuAJ5EF(SN;>T~W??N{6Ej?-^kyx6#Hpl;8AOZP(#n`&*rmMDet9{p
zPODZ%%oMhx<iePdm0qBGW4*W{X82t7l3HwPEe_ODrj@RQE?6TKN;qb|RroD}$8a&h
zXXhb=4WIjTq(*yE(nu9CGsbue#@L0@Yn2q*uhO~;G**>byb>A)s>^mUgHk?n8HVe#
z-=jU&TSZIKG%Qb})@+QKq~=GQ|EA^T#Eda@rY;yG%}R>lHYKF}A}zH{M)1Q}r`Zmp
zTCT)BboErmg!6`+B^aW`f-q#%%9+4k@Y?+o*bYSmamekF0@%*9gE?5yz|To3G^*Ro
z$2n9wj*S{R8x%PRq0KwtIUbgVj>|xY$~=m)LMTvDH}{YqpyNznD0p(h<M*gVg(T#~
z#y(DPLkvU$(r9ojz}tdowUIJVBCw~mPXUi1&k*ZFr{@5Hj$qg`<PQfrJpPdpwf@oZ
za6~OlX$b4Ge>C7}=Uwx9s4WbrN`bQkizo%_Vq2KOT#OSNm9u_n0&r6;5ipCg5~K?P
zl8yxYB1Sai86Oh^C($E-+rSI{v%!$08>OBR^mhyp`)pujqC>5VU?Cf>K*V$WgcS0N
z=uU*eKQ>Iqk4ocwz)&I^E43MH9(aR2YED-0P)L#pmryG^+59MA_uLB@c|i71#B+Kq
zbdFN1<;i%6jmn7t&<r{;CbHJai@<|<4UC?_8j#ca!yI)`C71~r;?tryH4elv775S<
z0&PhlaeRpI5pS3>KAsamJ5u1q@gUFvmCkWqXv{yNHVde3bbO2`KOj4g6v8O$hV`gC
zXUaJGN5UbXEk2pYfn|n*VdOiG!bQ(<F>p3GgyBTzsOv$A&odB{S{*F{-aD+YlUf#Z
zZ+wierC>np@C1RouuQ0?kg~)(<?=b=qG9NlXwyeq)Qp~RXk5Zb@U0|<&~2KG!1-V}
z5^a!Q()v|49yXBZkND*_WlY$7(M@tXY!ux)56d>{k6=w|2?CtXz!*f=vjpmXVAQw=
zBf%Fl1<)IHC9yS_vGOk61ktVzrtd^B6257W2tRl$GPZ%e{YMY<?>(F;!dQ=i@*f)t
zWK19-GG>~*jOkP$k|}}b(~x_{jOB4UQ}BX6?2kkwiJ%`VP$JBkDL}J{3y`ezWMSM#
z#>yiz#z-h*rbcIqwblYYNQA~R=BGa~IFPY0=;19u!obMMjFnHR)Iuprv|Ox|LbYdF
zGr~j|&<w);dfmFn=$Uor*Gb(Q*Kw+CY~ARYp>=1Z;3y-}!s|ex$>d(=nTd?e2mUA+
z@%f_lx#_@8B|$5y34ac_^`dZptKe|H-v0T=(~h!V+Jxe&sqh<n795`0fw`WqKR@5}
z1M?4U-?M$cD7E!SV(XFQ)`7e02kx7Ug&W?tuV1v_H|-dB-|l>M+of$Yrn~mqw7Vwm
zZizb%#@h}i;k#SzIV-2m&WtZOTi!2Uarxl%!P%y}<t-?q^pN3w_dyhbK)Sr;=gyVy
zyDH<Z##u4mx*6|_dkyb9_uxGOY1iiaHo;LgxohTRd{x)m&)t6Z&hrbK`qLG)mp?uI
z>B+udT7_!w?ZSns-IL~59BF%L+`jUjvu@_u1!wbI&Ak7ctI{>~SL?3SeRb88HC<72
z`PlTaR7HEDqJ6G1S<yAwM<so7`jfLKr#_jiSc_+O&E*}_J6?NiviC!);8=0bU3Gcu
z^w!t5r`&52?lp70^G!+j=E+`ET-lMT=t@*{&6nRk8L#L{R_skx97<FiLQ9I$`mu4i
zUOo8vgEOrOhv!QN@0$ci-6Cc}7$Q$`76gbgTdan6S%}CK5Ya$E&_34<Uos2`UPCmf
z0uKef`aNTTbDrE&-+{d!#y&a4P?ldhMSxHAoIb~bjPNEHGz7{%B8?A$oz}pK*TB{|
z*kUuK&RBV_Faa5lM_P-Yj0sgoSLCj{6YqwRC`{Y!qVUTi!PPn&i90vXolQ75$8DRX
zb$BtPb`%d31_dE3cESU}El~b!H!PDj`gk@p8$J<;j7yxxKh7ir3XD`(4?>#K2;o<c
zB1AA|3gjSz2!J$R6db0O@IJEW=*m2O<Phsc%EG&O-zvDuUyWUgrJRikXJg#f_}lL0
zKDnEOtUW=_Q!VcpLl_tY;6z}ueNR8r;pqdulBuV2!EnH9ls2K=nF2^uhQ>v|L~<Z~
z$G74+x++h{<xFRD_Pi<KY>L~OmiJs;<@=HEvS9oeQyep39~fyLfPO`8?qUL)`mQ}h
zlF5^Plp&kWNa#3qo!0mA;gLHp5h;Ds#O7S;Mp#-8FHCC?u$ZlJmLyt}XBZ-(&rpU&
zco&8Dt6HZbmt)hh%P&p8G-r-iZJD<ws<tr5<aAHkmyZVlezxle5zy~?HZnOD`mh-Z
zvz#_E-;y^IMo8UO@(8WZF+w!!4;v$sMBEo&C1$onw&Qu}=<GyHv^LM^P@apFWi`Bu
z!Ut6?@zyP~;*F7OBdOLciPkN*%j2#4?^GsQ_b00kJY<}HSL>!b*QlHsf7qbNyT&wh
zW?Wi69J^>Z@&QC-`ByX=wCHHHwDHxFs%lGAwat~stG3QpCaShRWE@lgxdKJx1CVS-
ztl&_B2+3@i2N*{if7yN~Rxw(aXDS(q^LeBQm%sx7p}@Jgt(LEA{c5E!1LQ;{p`A<i
zEI37Dv|=C-2`f;T$XX^N>X)8ChMPvVAu|>hr$;!_N4N1+6cDC$%i37Ia?<=o2X7!X
zNO2Tq4g59&`i&P+yKzes0hnUO&y@lj(K5_(F{85S#?Z+N1ki|#%yN=FqUZ*YLZ2gM
z@~Ndpz*KV=Gu%?kMG94L6f<FRP0`2q$wG8uV{%Uz=O+C!&%szrCW>Rc09F8_fk_zR
zwJ|g=k!Xd%I*H&u-}yA!j7F9kD5aSVztlmoM2}~z;H1V!B4INg054^tz)rRK*n$a1
z8*?|WQ<vs-<PH-;0Fhu7%Gz)3Unt!)X-zk;jyG?fvRt-J+h!^kT%Ox|CoSo&P45(c
zr}*{H&IT5$I_@CZD~@|Lt8aT3YI+eaNjobhi`jHbL`V(ck2%^nG%qxgi!MAtJ7a(*
z2HKem(9T4(IZ$WsmPwhX3#OQGu~M7C;UZS%5)UFassrwVFxH}*Ng+ZThB-wjBUL=S
zENz8gJsCv{O-)Q7|AHCMR^78DQp(FF0a?r(6U2fyj9)T9pr((vsPP3cYpfuO_G49P
zE0R`~&A$#ED57a3r>!v0)8W9l7+NcfWd~#dG5Ep3fE4nyk8}D`<w<05hL=l<sVv5?
zpBx_>Vq7)jL%}#hOf2hyh#or*wwX(AL81;xp>UW*sj>ucJZjt6LYBq6CjylFg}?}t
zI|t7Dhaw{rp7o691)tvOc?wb=F6066qZ9|$p9_qsc}%b)7Y8ZJ2$vFZDN}g-L_|WF
zB*g*?&QobLGUK>O<s|ncB!#8Dm=KBZK*kJS?`+0A7C0XP6<w&NVVlQWlqrz;JLv#r
zAyCP7VaCFUSC&d5Ko3S7Tq|udwgItYY4<Vyl4m9KnlYa0!e4i$cxW7g4`|HT4$Kr$
z_401CAszLY94Btt5R(^u6Lb4DBnVH!yD0psOek#optMcdpZ3zpUH2+h5KA@NlB{UI
z)OWAAYQ}oqv{2lv#J46ZykM#*K2cmh3$Ja`nDuzCdgHu!=S2L-b9bwspDeyt(LKNM
z&iZ#x-mQ3MvM62EJR40^b<;-IHusW!O?#K^Yl0zqSPlU<U~&*7BZQ_ZT+a=~HF%5N
z&Y`SNU2w`~z|zd#4FO09BOclm0TtvT0xM45FaGR}p_a;K5umso&Gwr3{IW%`k0Q*v
zNv0GMO>!2bh4^7$;33mDFz_~IS_6+UV5Mv4#JFqs?ac|-?n%qN(zaCThD7Ox+b!|Z
z4aw3c0CQFFxr8rM(Rm+A(vNU1UQ7{s=Nf0_-GFe@(2qWo9#bOmd&Wj08xqqjBTGp3
zp0|&b<4=(wTm=slrqliE`Ag@&5arxg(%BrhH7_T-3G>t6;xIgYf3#Ji!~R%9xyf#y
zx~6ht{g}Z=wJ;YW_8nvo=i0H3uscUaAQc@7ota=T12e9I0ETZFl_t|d5{<l`63RH_
z0(?|Jv?&jo)hGH96+s&w<D~84nw2CTVYpKl%)JiOar@UO<##u3!zyM%HL_Dy&hjzs
z=c8xIHF_D#&`1dO2A@JH`q7hq4-t83U6$uv%F+ezqJWK}z&za$@nEWEO`>K^vS#g4
z>SIV<8Yn>>wljFhN3{>DO9hE!2hEcb)ct--CNvB{`8gM+pe;;BYq#tPogtYuM`^M+
zT^9ZTsmT&(+K&WiFlJa$KDGo^N}Od~GJ?mEH2(-v34e<e;U;+Cb!?7Ti!K$VY}E-{
z^-RUp+AFmSww82N-Q^3@7c>f8?ijM@2CWefM6F?uu@_6dufm?@YYblZN2_vgg7#k<
zywWqsmJM1+bP7uk>7k-io*;?rVZyo>g>-5AT=|<TZmyVf%=bW?l~a<XPI<OCPgJ>z
z-zPR`*Hf@Jk)ZSPoCrZ99fHo?59|*yIpo?NS)Q&crkMJMiSUUtf^zNG+xGa!^bvWu
z0j4sd8UkP#I9CNJyW<n%W0Bx!V6P-WSCS?Ep~0aX4;>ty;3pWDMa~v}P_iOk`)so0
zxw!4Qhrr#B7?t%()l7ME0@ghcSVHebmIzSIoCw0YV8U|_G@<9|iO36(@~oFm(FDIh
zUUo<9KHnHL5+GL5mwfz)E=`6CIZYlDQ0n(3F$eU#*odX72Y@jhfuY#}L?}ITCrt|R
zAJ(&iDw8J>dudlvYrh(M2@*!#9;i*#`K#r+q31W~^zLfeQM5t<pUhq$hn|1ft<|Z7
zz)%>6Y0YOjjXlX_F`%@^Aiy@o6kP#6U(w+4g-3*c5JHLbQSUQj;qfzPLK0b~$YvoE
zX9AuU=t8jvd_L%if|0<e&)4s@GfG$@^}a+9A!8na7E2<!FH_9PTi==S6R_H1cpzhr
zpd=2@F#l>nnL@7D@%h65cV5bEVU3aYAiPwxB_ZY^>qRZ|KU2;yJm6J(#Z=&pq3fG&
zHOE)3Td;S%ec*OrVPkK)ygF6hnka9b9Z#08o!ooRSu@kJ(6D8}x%IwaEG$Ypw)~*^
z_W1YLBpiDep=K$H<AqfyEap&iRl>GvW_&hqBXlh^FD6@eq*{9ttv&DAcJn2wM>a$a
zvnBe+2z)$blbg-~B_x-RB}n7V9QaUUp7bWg5|H@jTreBFr&0{~P|!u@=o5;#%FozG
z;^{y_`#pS0ImqH0p5(cz4vi8WC#BnQ#_n@=%&18yKvOlKDyfM)#xxO$g;<(-Hsy-;
zPvjJq8Sxr-MEE+|oExijE?IPchm_$Sc))dKm6toFJ5psWiL#d2z<lpJhu%6AFKbDb
zJuz7TQev*)cK4m5fBC5&eQKff2uN-nNug0))DFd|K<95Tub5Go8j^8OxCk5G7&9*0
z-YS?-3edLy1+&gz$&?dN8I{?V-p1_Nv@(=XPB5j)N`_S#mXcmqyD4TKR;3}@d(p&<
zm3Bo`z%)$Ll;ws=WR>NHiR{mEsDsc;mLp&mGu<+OOCH&n*{6cgn0Y|>UDqu>tZv$`
z%*9L*V)&U;=i$AWDVK?o0@C^DF%vC|5(hAE%4xKu${ur#(FN0QXB0Hq)38VGjP57*
z{3t{%&68-==IMgvx6`KFwX)js&J2v7a;+pw%oGKbl}(_Qt|9_7%!vh&79|{0cL&?6
z^8N(<XN&Gvr2$Vf!yW)Py?rDHc{1Kqt)pNQbezS(GKzo|xr~h|abX4%U5lbbf}o5*
z8ii>CVN?+MvS0}EF<6%<h*yT088anhAThe>X(@P?EHUMZVIe9qjC@8enAvum2za{I
ziXb1y$mqpCBGJx|LZiY6QY6hoi}GgqsZFeWuUmqFq>zQ*HMpHI6Ad7d7(nWWmobiw
zWr`GWqJJb~LR}2gbIfl-n<PTVnIfY3!oHE<=|HCNDChxB=#sY9Yvm~50+l*J-X8M$
z;AO1T&43stxXZ>?mX%T3yt*Ca`JZ?nejBq3&4UeE;Hl_cXM>F1cia{ej@>e9Z@}xa
z%2a7%qO>tt+B|8!r;rUZ#}@3XK`dN8JbgG--j*nDo3kX#J5%Kw66G6`<(nq=LPGQE
zXD)qa#(&pYf3Lpz>iH|@Q}yc;_3Kmhn-le$)3CKb-r1(P-rJV@Cc(31Q80SSrmU|!
z?ynbIm6OH4TqAf|9+u6Jm2EZ8)*_Tt&sY}fH!T!ze&1Dbxp2DhHT%qqcU>N`+1Ll0
zjXtv3*aw>p4@eit1)rLJYPL67?oE}iOO&qz(Sx|>r=REM7paPlL`BCvS4GO@Nw_?-
zl{f0H)g@h>^QPO)cl>BV<yy47vV@s<)HPh)dSz>>wlh)NnW|l%s9m3SRbF;XJ7$LF
z%=0}+UAF<L>yY}D!>GL2{p#V*AD-!(edbDk!m;{`hwnRhCkh33UD~zh$Kt!2{`_>p
zbp#XQF2NKPmn>&iX!@CM_M4c}CA7W@L@x+BbgIVU@I<d590SpG!32a$1Q~NNRYf3`
z=m;q_HU?sd)Tx?sfMQ74ukjHoQZT%-fzkVRUN!{!YB@^@0<)l3Mu^6j1t>NYf)0v-
zUg1^qknt3(IX?{^015{4F!egi!TwYRThqo@D$G!FASLXIsddAuszJ-7AR;ItP%3vz
z>H-<S>dJxCQG?5j_FOQZg6-|s4gbcfYW}UhBDFN@0MZy(x^uda*AlIITDDx5MIG#X
z2moSqHGoqaOcm+82*Do)Aaj#<OXQ!_b?U}%V3#62k9@E;XuuB)#fJPN0k46}a;a1f
zT7GTYIpQBZA^LYkJ99UuleM{X=ST=8gm)pp(|b@zn8>D!!hGdBtKM3b>fW2^-g}Yr
zuFy=FP6sA9h__22Y6BRc@lkdHhcQoFYDPqdL~t=<8ug!N(31mYqW`#nx*$`)hcm1h
zN@NT{)|HHvOi{s(5&YC!vvDgS3u}B{VG(<aBTGW~zal$R0=lcF&b_u4<Z?~p?3QHB
zng@cVu;kK#$)3rx_ng(x20A_WR&JQ@ORn58RWM_iF1qJlIdf{(e`R=K^%L*8d)Ssv
zyLSE{a;NY6v4raoHhOVM94`t`&@W4bvWlta5{-KoO8Y>8Z}0g@+3tDk)aI1CDdBFK
z?R(F?CSJCCvH)JXw0fp=dPS<VJyF`8EL{y?UDcRwU-uJ7*UZVuXJ0+`g=2ReT>ydA
zMd=M&9<bjXJs;99sVo4D2<ZOf1H0hfWBA7hfKA<DA{l<vRlUb<{<Bv19+z#2uu$dS
zPGCfqf*nmdt!!Ya3^ck5U{I{=pg&gSOrUL15_hp2pd?I!1EU`3C|muj!q?QJLL@i<
zs4&W)g0?Ssk6fBizI_4uj5s2o(}d=t{1q^f3xvc>jAoWW6?&m^77r~+1vg5cN!JNY
z5K(zDovi{6<2eD~V%<K7DB4euEo(sZdd`gaAsdC#jDd#`jE4PV6EI{xH%7Y`U<8sg
zlL!mi`U7JiV1i3T7fh;3Cf@!L&rxi@0;Sj@PTvq;LuzwM!1g2Cb)0(9lp#e>4L~wU
zX3UhBe!b>Q3EzLdkOYzjo9$JUC2v27`Jsx>(hfOzH9ppaycz<1qITMZ-$t=)6FMrV
z#ui$4F4!MSyBkvO_Jq5AZXoV%PrAF~j_wbfHEG9+H+p|*GP;V0%7NKtamTHr^PS1H
zJ@Jm+aXZ;?A{OtEz$$d^{7LD~+09d}mpfkTh?nl1w8Bf<OD1>dY%EzNl`spUYIemP
zyFSqDFPjtY=GkZG25vXU-OWk&<8jC1|M;L#D0_@iYCkG+@9qF5)23Z8BTQ4i_%6JU
zBMMQLC0oKx8V1j0+M%S)rL@qbcUZpaHhpL*c3u1BAQ)Fw1Os7-A==Rkts~BJky2VQ
zAkVj0J3;9}SRgQsho*0nzD#ki!IQ;c+G<)V1e->Zyw;C=?QEe{Ln>^@K1wStuOMjI
zkSJ|PmNo&n=A7W9yDRSK$}zWmZ9PP)l}0^mDpi<<2-zu90r?1)fwWd5&T^|sa!o|8
zX;jKp;Nk#T`KW}5QacDC6+&roNSTYA(%JWDr9xa<o?~h|8D}MZ359xX8QYkASe7$G
z7IsF0PjL%Ua6$u?^vtB4W)H*%lXelf&}(qGl{|xXuz)=uiMHe+JxDXFC3~D^`!LF4
z_Ej)#e(cg?UwC}x$X)xYd+utoot}wYjb4dfed)?e$@(rnp=s!4Rh!t^jW>2&+cCdk
zc1N;lOVYVDZri$i!fD^Kz57|zmv`^#cRMnWgH9|*EE6z6V9BPACtTv^%9E!gT3Xw3
zzr$oNDV0CuDm#i&0A1*O6+x*i2caGi1<qHgJsI2h=w;__n^NPjD#Fz&)!-Bij)3TO
z;#qEAyY>?SM!Ir{BTFbk9&UQhB<dt@2#&4AIw4%ex%Zb*16!FHvlu+<Qv~jI7>4_}
z7+!)Jn@D2cN!ZxHc!p*iEH@_`3uIA!UK?cjeIKnz0%d?dFuUJ*X=lp5GGSjiTbpWF
zpJ-Tr*S<dOu9`fQE-rob*rj8s;(9VgS(9qqkZ9a+w|GOkwl!7Tk*MvMH^1X}%aQ8Z
zoxuOv-IIsYvgLk9!qNJrgYVbYU)_0SXR3B>qIT_kZK`{B0{>Y$AgOKB+h&d>-K!^i
z(^ZXGCY<UtqLJ#tegY341<7(Ng>?|a5N&>xsR0Zijkk0So&pc9BCLl8Oh}#=)bp_(
zprIz74?~SD9laF&0u0^B+<W#=(%BWabv<M!Z$-X*9nQUGmvppC?I;QS$z)VHrRE9K
zQ9IT`T820%#?;m5DD{`GMSoUrGez?1@rQlUhCGl@OY$6boa=w7<A7x|d#^ru<;kRT
zb=<c4chqTxcWlbr3&yEM^9b5H)#iUnYdt|?k{@ll`q-7nl1^{j=H;!Yb*VTaRS0V>
zZiJWLOrNBuryx})7M-jqgRnr952~2@ajsyDL4%{9m&<*A)eOp~i0-@=hL|#jiHtFH
zM&l~OR6P^CaX3(sE3+@!k!R9!rv5z|fmW0Y{k^k&GLmw(C!FnbrE|OE&i>nxyYS2i
z-NDh6{<y854~ZG+6-Vfv4GD40SjAAnoQ0h+SHZvt!Spr#nQWtIJ}W@>fm*qX88qfi
zQ@fm0l`ZEDVLQxFRoJXMe_XJn6jdRkuz(kAI9m+u@rA;eHC%vp@sr=xu>z@*MCl}^
zzF-`40e|G6EfvxRxpST)&&6t8D2f$K8Kgecw=PyB7BJkpdPytQkyBa;t+y&A()uPj
zHR+Jjl31aSByY^c3Ui%p&#99p^AIv;&T_ZZv*$R+ZI!N|#2g}hv5@tl$tXnB^W#WK
z3|W=~rj&uX)(f;4>@aszhOvK$kf@ruVUHZp{p2ZErSQc<g0C0sG5av>`z)u8Qm)oL
zEQfqT-u}>4fLgP9GmSM=#73tvcgu%~>dbO^#|EU3Ho}orN;ci7<{otez>Haz1X|b`
zprvEJD`vxrtiTN4eDrk;oTDmll$L;qSLafTJKYO3Qik+xTAUJ!skaqeFpTZ`oz#vM
zhaFxxOk{kP(?;5W(^T5n=AJ9vI2&@U9|hm)*TC3RWQ|g(vic$&O3ZMl64HK$yR@(p
zVr$xwyH&#*lvLX9lD;@}?JkThTMM~*GEA5&%PGAx2xF}g+!w)}Xpb4cY7iZfZAy$b
zrid@r#j6tjuNuB)RZ4?k%o_eSplvmSg|t#=u68J;X}>Y`z6fw3g^Uw<#PtUlOXco*
z^c5@TXvx!(M_&0#FMos9x^wS^rSKi)=4?xLDsM?YcwZ9~b1;S<KLIiI_(;Zz^XKdr
zs?W3CV#Z3p>&1+Vetodp#~J!iIDj`<G3&)>@zcs(6QMJn<I(oxq#z|rI=@F%jpAAx
z<)F1kC0dNqw=t#Co8-;I%NTr|KPSAxB<)b8j*s}F1+pge*9K42%2f^CRoPljLik(+
z&*<|8dVHBYqJj9)8%F&x+ZDnqnF6rm>=Zkb>hx1osdmO(5z!M+mfj&ROx|@$R&Z)0
zbOPD~sgRybI8>goL8r{_!l9$<5g+(89RHUtQWnw%NPh&+Tg>GL-=qkF0MZTey2)D)
zFH=lfVY+LAQFc(DGBd190Zy!w7MUppc&AvCnYlJeN*IZ!c>FlRO+-i6d<??QPjsCT
zv@6kdrT2xx%Aya2LJ~+87VbCPFB3{?XV%X&$5-{m?fVwpERwyi6l!W`#^Ti-IB-x}
zJJWOBbp4r`ShBR^Zt2dq3vV}k*8xd?S>4Q$1<&SW*_O$IpWDlDetfd;r_Q?Bvf1&k
z*S=Mmc9l&HO&3lZ-^ao7!Rf)*j!pKx?<yz7WXjc;a5YX^GWOD+x;?Yc%=y1Q_yKej
z{_7PB?zUTx-|k*m^Vq$X&B>OnQ+==ZlRC3xx+LXlNw`{O{a{4xZ`tFnmZWRvWY5o?
zb@Hk7*@nCBrgYQJ>s#hFzq#|~&f8_lrk%HsB%2<e>ifgPAJjFZ>NX_mpci@P@LPxP
zG$iYK?;J_g?VH+5mbTI9=xedrvo~VbVyU*RiMFlDw(WPTwx>NUH|*E!-zc83q?_8Q
zoOG#s>g<>6()BG@V^?CS`mRKM*L-QRe#4aY4;}B<cfWD&`uN<5WPSI1>pLB9b=)z;
z>j&=i-mM>aw=YpYK#4NN<rt>-!4>bE-kEZ@B-|}?hBpgu7QX4c>AdUSlCG|~YQJKi
z?Mqg#neI`K<+mj&+U6SG^xpKox$fq=yA|7@%}$lKB+4-)3+3(U`mJxA;~kj)M6!PC
z?b07seXlB6-!o<XisOUY#;<O>K5*l?YtN-xHYM=CcJq`?RuiXO4GC96y4?HvzM1{A
zC!mv_Yn^Y1m+zey@0RbqeKJwLH&uQpQGO^@{&b@J>0jZJg0f%Ppez2)37F-*_@`|@
z-uSNh$J^s|{mHVY;*O_qGk|O5Pn{KMclAv7m$#*B8?NrSvIDk#wQJ+$Yq9D`=X2jF
zK#{K-fV*z*od3<>&ET7%o1r^~yPZ8s#usl)T${M@(zTb8wOiulTe1e^ZpE5(i}%K{
zYsYA*kZA#xZV_7BZhZ3ECn@fI&2UUFYA|CrVQUDB#Q5arykU|o=fbfJV|1mWJ(cB*
zYw57KdRYpGesd`BrYu(^xUfWyK=3iIodjS7;gm&{msUBky-DZ#xNZG%UivrahV)}<
zph3EYAL%c$8i@N0MA4V`NC~}sGpmW-gws3MF!xN-xgl=b@LOpjM%t5eq?IFQFsk8L
zh6a0CC)lgJql_}Xi!Mn2p0cikms>CL=<7oI8!GADTrC0W7(bDJIO*j()Rw<~cw0yz
zu|(ae<CvB8DYb&8Ak3KM6uOios=0*vF#{QF#f-Y+I7UX%5GKrWP!%rS4^25|2`D}i
z<d;O!L=hzbc?Q#?GaF@w&KbTVoOV;bVu0b$K13{$bh6xe=Mpu2ALAF^g>2ly*#Cxm
z!M>89gp733kW6mBvVG2QWfxh%09#Bx2|>@t*jk@Q;U6{n;NjJ=*Jxy^ib=7pC?LyW
z)VUO!U=VY%{QV<GU5X?5lHsJ{xsoI2mS&_*-W^Tk*q_r7k_1vegx6Qjy|~cOt%!LW
zE<N?dgIrWhgZIdr{soks54>tiQ`1I47(_6QIdy6GXu_XioAOrs&8=$(@m!>(Q9??Y
zqJh}1VYDvWDXqemP^WaPN7JzDrg!si)~?^I4d^8a*|MD08g_=Rx;IF-#L+ndzvmR_
zPF(WAuKeJ3E;cUeW?PX4hv~_re@h{@9~sF_gsqf-w`3ziuOB>{cO&B6U(+gzA)Bh|
zd<{qE$b8TL#)<`d^SxRRw@;hj{Lap|cHSxd%c>t$C2J47+mNU|oT~jqqV^NX+M|<w
zUp#!TxN_>nSB@>qkgVNvrzcU{m#RICEXmq_wxMOCzwR%5Hf~$F9H7(gV2Hj5v-wfm
zSgOgjjbqHF9QPEc>p>g!3kGcsXtB~`SbaIRva+^v37P;}<<*!=SE}S>7dhrw2g-Z2
zM_tpo_EOl9OV|hjQ8WU8#9dBn@*Dz0pcJE2CK}mU2HH+pPHmG}6TajUNGR!YS!FBl
zV9DK!Ww|xdpj4u~(Y3o#d8hpjH)~-f!~`yum?fvk3QV`MKOqeH3Xmr4j4U_2CMyDu
zK#t~H>Q$8bizI(5y+<pgew}cMD3>gUwi4%=<&<&4TVhGG+%2op+Y8pbS6W(gjY0M`
zmsktWMm8zM=ejvt_m;3tmP7j<vW7UB@{*bEXHfRZORBNv!*&c%vnp^B3zWQMv$e$f
zD;G)CrE4)+pJqAiFIAM5OOc&t#BGYLRc_e9Y|aWJk1LgFP-Us{DoXEB(rCYcJA1Sz
zC8VqYrT4%UMbUa0S47U?_F#r2!X7<e!%)U4Uc~*!e?fc@u3wOFR|Sl>irEE_P$~MD
zZ9EBhqOE;F*t+8$NxJxijvoOluv;HVeuP7t{L;xz-1lG+*%35ibfPQuC*3HTnbRYy
zZ#(Qzy^Wl3q^-?QxDgP}m`~#7iHtGuBII5pBRKGeOUxxk2ocmp`GFJTr!r1vgT^kb
z<js78N+Hz+J6JERqR{ur`vG|*eaYBZ4@ow|Fd{>S1R13^@><BFX3OUGBM~&<L^xCQ
zEM4QwZRl6i>leu*AroDgJ`{v33A%i5fhI1>*yP5+{yu`kr;x}E1(?YiZ-<!~=o3Pg
z#XwvNMD58-%+a7F0sh1P5uReF=6|DN!CrrT&z#{KeGs)Ay619F^}J@C?73%OG1CoV
zdA8w3>$TQzwBJ~BZOxqj8=a}fjfuvM3yqu8uF}iaY3pmY$sRhq$4P6V3*T$#zE`#4
z^2GE+s;Vnd)it^Q=gz8hUHw!cPHd%WIubP<$(qh7E3T};g>Uku1Ef@hN_g(bU1#UL
zJQ9g&E{&LNo-@4XTK)dYhO2{D2Cw?A_~wq>J~iV@uI!sKzg~n(86iE8ZyxMOxI2>W
z&UuJ`Hr%W2PStLPbYnj9&cs_2-~G(H8~@XezuFP6-JGm_Zi-GCUOxEcgR{*yR$p74
zDDU{nK@wI}--7_?{Pg*I<u#WNOdpsLQ>(fYtGbh`Hq84ItG3*3O{{t%S>AJJ8|-AO
z%l@vcV!G+ImircCbv3$I+Y)biGP$BZUfvIp&g3CP!8DK$ISlxj9sZH)fg7i<oxa`t
z!!_Sqv*7B(XgXKTytv?Oh}#awn|A;B=(`Pn{#>Hza1xKs2GT-LT$-3E<ySK%o$Ya3
z`*OO*jD^7HnpOnzQP@ivHk_$mr!Z^~4@<%GxT;jos^PwKG7<=fU@{<+jc=iJX^y<V
zfVV`JL9g=KL~!x*|E0yaT%55#>D&~zZCc(b+S_*gEz%x(m~ve-oHQzy?~L$OJLdOv
z_tK?}XG0_7>`ootC$a|Q^zdn1{~H*QzJnTA$7KE!cR2DFgd~?xzAS0pj&k|B3D9wo
z01Fv^Xgc)D`RatT_x7{!;<n!3QGeGzQh&dz^jG@t%Q{H!9@@e6VgWiR{SPW*naJcf
zpR@zYYGjk9DkYXoUptxWsk7;om*}$TeET8Yqj%A^Jd*QleTbcAawT$P&1AfL59}Y7
z8bKhb>V7MufT{dvjl!RxIefP+pJaOXh@-GxbkcPHFDi{qHvt>PQAZiz*^fXzz@rcx
z>>LZF&T?cPgQI`)8)muty0RExR=zfLlAFtcY`|%FALNePJv~E1<A7Im_>QJuCRJe2
z1cN6=z92CypYX0o(VTE=DE^XIVt)3IC!(Tp2{lnBth|tfGk!9RKoqMOv<l;xaig-*
z4xenABYhTKk|N|Wgx`lywslUSnk%mzlA6Me5tna2gh4pYNyAo{7-$@7OF2CWr)SnZ
z8<=}G>D(B%ZCpMpL@2OXF{7L%Y_92JTGyxtGI2f&;F~)fzO^Y~m0_^N%+djnp+(9Y
z?Kc-et{wFxRwI`!0YAJgt;AcGR+bXVcMn6%s;nd2`a)K$7U^uBR+TGdX}>rOoU8pg
zQl6$gL3dH)I#{ia8nxkLwceDA?fHm%B;<X=`>U~+qI$0d4$zvSQ_7A~j8FNZ{{Od|
z7)KFZqpo>ebPn*VeR<`i{_w4bcmZ#TPHx<YS<@ZNYM{p^@<{nBZ6fahc`uW9ojj)C
zy@-%Pd1r0fA5o$|gU3uB<;#wj9nxZ@<~4*=d*j1Lq=ax1r7_YQ3evvo1Gidc4<}2z
z@0Rwx{mI*Blbdj+id3i1F0|}OmhGG@_^G{AzU6?^&Dh~J8z&DcL}1V7KbuyxrfmsV
z+nj0cnfZeYuE+0}fV7^pe^@M(R8V4OLEeyXHq7?j=)cyVYTlY?-g?)$m2x|$owL>j
zR~yN44_`W*ax^6zO|yIED(0=Jt|t;*PuwX_cJ-yY`V(FK3y!DgTo#J{r3p&Dc-?_y
z*+JZ0z8vDHc%T<O{wO?<+gLXn2mJig060Cke~?|t4gP2x;F)g2WB^(Q^8BVI2I?7j
z$7gy79bg&=nron+efI*N2*4X9LEyZGDLj5$Bs3btm$y78{oxm&s37B5SX@WI`uW<u
zou0msq?V@pR1b<{O;A2P0Hi{f5W(VGMjBKhYZ?D61$bZes{?9zbk7UUsIav|>3OH<
zW*7C;xToPUdSI85BRTbvanP{aKv#92!C>P=h49jr7Q)KVj>0SWj7-Z}N6~tpa_5J(
zIZj|ovrbIebvg3h{Gv;<nl=M%Oq_+FwW=6IGuu-4Twopw!yR$kj^ztWMP;zs`j<py
z`*I@<87XbXTL-$6<%XSE5qM<8&7&g$6?No9W4RDv4&($h_J}Dz1{(V~{rxC3mZPkt
z{mqBQq`$|Ia?G(-x4!;)xPxH~CgAx8DqTY*FVo|7@-*Bb--obtdq^toSaul#6`A);
zp{@(Q4YWu82C0ECaPGElX7BYqw<>0LCQG~SmiE&9NXd=3x|a~fGYiezlVv+N!jL5d
zGIA)IE=svn<j_m@Evb$B5*zouYe{bGUvNE@A6M+X@#M89Q_Wiv&0Fp|w<x&6vfyfE
zdcR8tb-2Rvj`J<&9doj4Z>sB1qU+FtgRT?MVTwb^vcqx5VZNaWJ19<7!Td2|fGNyS
zr2x=#r>Q+iB%2>k;M-TmZ<%=>TzsOI4<Rg-&zwf1YS!aY5riP7D5zIZotBt23i$$A
z*75WC_+?iJlMY<}-fNA1MWLSPb2zw(&VLG*E8)^Nl8^vdFpL0xO%|jO69NdWSGg6b
z(7p%Xh}f<^5p%+24eZk{o_63e`us~|{0t7jZ&xefY52#3)XdRMd-xX|aq1Sxk*xA$
zn>^3)p+Ini$vOFlb&mVbp7K$P*NeyT^++p@#X>a*+cVAvWeU~w(oZmaY>P2-J+CF>
z?hi!{jG{gC>B)e|1e+PVFFZafmzYJC$@EpmuIrfezp2#!L*75Z%NU}WLTV1{^)ezW
zQ=~OFFRi5|*+*L^iefJcAC?G?ihE@(Y1cmO&I*_U6_=(QbqPmZ+EF!YoiDhv4R>J_
zuf$y##YK|_E~q=r_Zu!FOIJ6|9=TF7d4Se*>D0DM7vi=$WT<JL?YUAiS37^?=Bh;X
zmdOKYr%Qgje4!JI#F((JBk)lq5f(A}z+J9`Zn=y#a_JOvV=c~L<MVHHno`~%F^i_r
zj#<ETo1#0^MUG`OsxG}pTHk!Fn6szZ#iaf?h#iuzZ^S9vW9TN6m`k6bP>eh?Kme1m
zEBDP9C}QcFk@}Ew8GIFxFfR$BTcdQ%NSLfZnMPW7r_2Xj;+v{kov2!!s@jyO+9bm}
ztQA;@q|0m5mG$YBtL_&I)teWE0{OxM7c(#8^R5Cgluz@>=6yQ?Y~Jyk?Q(%OMNGmO
zxtoUQivGYUMZm%7U3>$L6T%?f2w~Bk*{6Kj7dc9WG$#4JH9<KD?JJ^Ke&gt?&P&b(
zTMf8}T%X@i`?L#{e$-liSl<Q&$%e+slqYLwcI)X|Ij8d47U10(YCN&sB$QLn){#^s
znddt)G#zY82(;<tA<B?{{LRPI#`ML*9EyD%zYhG8?edV0CE4jT)n+bY4k~2=FwBvh
zgCBt_<O(cmlTM3e4ZnyFzXh0)GN*1{rUbNrFcDq~Gh1VtW%W!c&*RH`rc{1UBPV~8
z;GTQMYunx!xcc0c=Ta-zCh*_gIcZB*ti0@-_RStmR;*4{tV>j^)1MwqR_sYt97t5q
zH%*HE1s31)ywAT!eJ;U5%wBvFz95}n`px@1p{+k+wsmJalg^g7t%ZXGT5pO|*WWN=
z^y^Pk=SnqLOZq%=US);iR2ELsLGcaw6r)c}V>aa(r=W>q!6lNi{ho<%A!$PV=g^%2
z2uJB+epN=wm}th7g3y@ooWQ3V*~gDa`~v&*(AdL>6*Un)*+?Ii?&SCJN_oy!f`q}R
zXU9DB5hj&xA)<%eM36p5KrQLuOfR#b<*^eQpURRd)hUesLn@SI1t=H&M%Vn>cPCl3
z@MHmj{8?PBPvFnl*PnDBGn6mfgvePv<S@WKf_apSl8IPj1HoISc9LU6BbQM%VnSrj
z8l;vo&eAs#ov}^$M*ZQ_xJb>6M`|HI&S_!a?9F={5PKV=wMcjoOhY9opQ%qmy_>FX
zxaz#(OjdhAp;T4R^vo7sc@oI&(tgl0H7jNgTq&L_#q;ETz|W~*!dX8HMqE3eOU+Q6
z%75QS%#x+6a;i)Wnq%qeM7$;)iEh$JbVYc~tQ-uwn|0K(msvUF63^zkO@gTua`NM<
z#Yiqu?@}(*Yy7zv8|XPqJjiR<7AP0}Ws9NsS3j8;>NqWDeA)651yRSDoCaSNWs8Z)
zne?B6h9HNPP4XouH^w9MNobZuU1xfc61y^3FG}JKBPr1FY*`Zj`X(19sf8^OD)HW;
zI*-!Itb&+4Nq4tmwBeaC7&wGZjo~|x*w|dG<iXc5nf#WSaM<{UID_TH*#>4$!7L;g
zMPpNVV#aeXmqwAeW9debDhX!i`=+B(+!XDU)5wgS;-H-}@XD?<E*C6oPLwsz4kXLG
zlY8j4;U>Dd&$*c{>cMTp>)vjj4}aI2aO?m#LAMQW#uid;8?H^*YG?M$R?L~+EWTNc
z`-a<hq}qED?L7;&-8x*R-%iA-(pFjA5AUN0sYlnBNpvfiLR8UkEZ0lXxN!=a+CWf7
zxjjN2q5PPhPvala01_O749~GtC-v$}mtL9)&+eVukaVt#+tzUmi1ezXFzYvwIn-}E
z;VOigwy$<T{dx>TOMH9r9dT2oQC1_l-sXVaN>5hv5Bs2}#1i}owVkR4$p|6E_|(};
znt>>WOLY`x?d(J#FY&JLnVeOj!1!0sq#q)B8Erw4dC77*Q1(4)ChZ4K*)lOc(Y0}#
zXZes)Gg(tVE}x+h9k_a2CLHBv|2t~-Zg~1}W}SIxyZ@BhO$!X|20P)n<Ve|S5;k1j
z{hr)%ueHCwkAHW!-)rp0pLCw;qLJjJtD(<p;tBe^{WP^>xU0hF%M|%YiZPC>Pkb4N
z&j(6&M1E7?^NFD$e3^je3iqSnv|n&&G=OXFMQH;?(V@LF0el^s8)<E&x|+$`NglB>
zoQbmHNFU_<(msl5Bkx)Am{^c8tBhPcPH_S9hRGWxPa=<jvI`V?g}gr`Z<@R}$h$^f
z6M5IkV}it66uL>?x5@h}^4=uxZ^@e{kF3R{1@iugJZ5?G9SVJyytm0?`u#-;Js|HN
z$s=haXQqiS=KPhNLX6lY;#P8#M=(OFhKH|uk_r%mOP|M8LlO_+CEGvjB@ZErjtTJe
zYDnTCni80u`5+y_vC{DXf55Z_wI`$@7St!zQXAMtSwSJPE#PKtv;){#&pHIc#H+q6
zd}y><Z1*c6V#Mt<IHd>Bopuxh$}T#08!Qd?_ZtOk*@s56Wy_)oq5Bj9n6j39Xf#@y
zD6Zr_g&+#zam{L6^8=g7QvRSw@$MJNN$S)jb(GEi2gg2ljEY++SAh`4mpwq+D&;tY
z?z<3&lO~Hoxf+eo{SGC1S!y)WU}=$SL+F9kVyS#kVut51;jzeI+48_@v^;NkVB>y)
zWsl)O8B#5lw4msI1Iqr;=u+!L=zcS6n#1yhL2erh)>$p<7hM+1wg)A4^m>KS(oKb~
zd0;bGRzI*BEKeC0t@{nA`Y5`(f!=K-PYGEOLiUXhN(wBi9+a)Ncpp4(Fj_WKn!T)j
z+<%IN$v0azJ#aWtS7U)?=Yz5`OZj5E8-uvofl5}fQOCr{lVGs4KCqUdIqeSQs4K8^
z-7goMWf%8hsxR(OJ1gOplq!!}NPAIMaq$q&rd&MC(mgO6Evw{7$2w8RxB+<FTJ#5>
z`rM~z>{)y%3-NVGOVI1dl*=C;>(st?9>P^j`X_Ed+K=>^YJKX^Sf_FnIxG>K&Xi@n
zmSCl7rWdtYFE}meBb9fUpKm6a9iy8v?yR&hYa5YB5|Am;-i)0Lp5lj>wL0k@Jcdyv
zBB9X-9?{7@S4v`vj8lo?*WpO~qu&4>R5@w3_@@tPXc*MM)r&X?O`ViHEDm6l9k~7;
zrCqwGad9h$;=3fe7Y+Y~@Hu$*O$LMES1!TOyl52+#Xl1|ekSbrFT#<8aO7vgnx6@)
zekOQ-Cba!bSo?PZ-InYqxoG=)+fb3A;X{G^`~4L{arvuHU3%()U^Mg@F82P^UKYps
k(T(rfyMAhO#$By*=9{PHPu-3rJA2==?fuX~$=D?SKiEJn9RL6T

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..6e9d26da6db9e344bbe4b32a5933595f60a35b4c
GIT binary patch
literal 10998
zcmd5iTW}OdlHJoiFU?Cc0wDo1Ed+w$A+12>Wq~aLlEAlMUb`5Kht_mUYB3K{(-M+A
za~@bWm^pKY2>U{EcrSLi-3X+B4a;#KmSaEGyK%AMjs3V8#y;u#><C|+e|%pU?Vj)a
zadDZ|(=$RE*jH@a6)3y9Dl021yD}>?Ykuu=RWMNQ`~GL(Cu<qz-|@vLe4(=N7E~q}
ziILb4b54J<VbeK|)$9B@9{NlnbJ%juLfg2IHEcU)V;K|E#Yp^hMl#<s>D12ICChc@
zT!mx>=#Xpxosu1(OR50qmK*>*k`rL1<O1lG+yH%&2Vj*{32=qv1-NpQ_4~d=qR0HK
z<_JcIB5L3Y5eH-N$_0D-g8GCyWD73~>!C8i$jmubV$PW)_8cdffEq7x0L{qjIm@Wo
zZ_zwQ`XW&xAC3g0k`n2Qjcqv?ji~a7Dtudvh<!2<)Tp3P96^;Mu_zH_12<S$ES(g^
z$id%2gial2<4k~dAc(Vvm|LcxsgDVoF4Qng!W1_REFN9J956mcaU{dsHr-s!!#Ehj
z1aJmgMxlkJtyh?7_L!g7JRv2f2BN(Ioz0kLrHsl%Gsl8rNY*?>#sfhy*f0AzjgQHp
zUSbD|nx!xdXAlJ8o2|`ic(8e-nY6Sv2g&FlbT@|wgUy3P2`j2HEXSIAWN}y~O@pJF
zEf7#5iW&%v)hv-`lhNY?y0I+)lFa<NrWF6NZSDNQlmEQ#)NFOea@T#wJtws0h1Lh_
zPNn!yY-|4;DlwGC&AJ_Y(D<(KPK8Vb-3>1jOq?0O)+OZ-bD;{v%t~yWEhp$eQTR7k
z^2{jXHy!&DC-HMs8U)ovvjnK%{3hapSK<Z`!*PN@JlJm!1Z3DN1eRU9eA$JrY8=%7
z0M=c-daim)u6oNOhP5}QI_EcROm*HmmOl20v;Hd%nic?!2`=6PxKO&-F{n&1YEcld
z?BWt|lwR%?`eFGn<tu=Z;1g!RT}-op8|Q1G7B>%A3Jr@Mfg=9RjVK;sgHFF$v&)g8
zuuMc)G;SK=M1Zm)AZ^BPp@PzE@<=eCjt<Iz54B-2G$d;-+DOEp+#?1rX{@5l6DNo5
z21S=C>?C>QNjpjJSq(#Cy8$GbPixm_TIU*e=NfkBYxkg7+tNo;?Wy7U4V&jS?8$A|
zGwaQ5c<wPNw~>`F_L$#_yEY<*<v>8I2n51WX()tsXCQESNDLKvtbu?O4F&?F5(beK
z2*7|c(+s6Tc_z393UF7%kotAzU-;HXyvcl;ePlD48y5iR^HRJZeo~`Yp@IV!G&958
zU~X_X_z5NrR(Ke8+fn8k?qCCV(Gv{FqBo;@3FJaHszv&esr=}77>O%S;T`7hcw-w~
zW7XnDD7Q@pa1$&k_X_U`vk5mBZjL1dI6{3|QjBrH)l+)YOdpr#{+|7bMdHh^Okvaf
zkJ-OrUjZ2;ED3AECYdD*o>U1t%cy9EXeqlM{Ju-dI7?32;e`7?UrR;8k#NTC1FM!W
z2(Oa0ye#h9jPp3*in|6--<K3a>Irw;9k-0Z4vbff!8aRNvjh=d4cvjc<$ZC>)4rOq
zpAw$9HSYLb^b?gSF2$#qUJg74Tfz&R*(hgD9GURNeIx9^Gs}5^Z{&?vl<SFC8gdu|
z=><&z)Hhn5O3M>>l%w`!T9gCN<Fg^ZPm^ZCr`8+X46HY5rDxnHRiIWIG9->g+U+n}
zK~pyxW8xN&G8;Gb74`U8hGk&qY%(xPPr$RFRO6<&6`y@3gCadVsuC+CC;l_m40LQy
zlD_IU=&FKIOEbpE*Q?^za?<QG>H4fNy55d~_CNN8{>b@YN0!+mudn#s^O=~ZuOwa-
zFH0q1i`z~y4NMCYW3Pa7_A*GFWp2Jb!oAE~Vf`*qgwy#Yne;|UI3{#Z=SdhOQ8gNj
zh6HF8L`kBqRcKU*$w4Bk+hhGAk)?v?852eXF(L`06%}}3wloRHdsI=02tyGCiNY`f
z{n4<1!_b=*&Wjheo$t9ohn){z5cWfhutn&(Kq>5K652~s_A8PsoF6G5k6sY2C~ChT
z4g!nd^ud{rY$;>F4p7x87U=8*P6p+Ou=%_^7*j&g2%QKhZAVl;#oc^fl0zyC1Qvic
z^z>ZtQ!ZMYgp;y5L?XiZG1?7$ZWT5cNCCHqi7hzo7J-tX?<EYqjZ!;+r?JL`heDbq
z7>x|KNcwXJJj0@j?UmRbP(fC)!Dvhdj3q5Qq%q%!5JD$ch(=(>VI?RFV_u<WNEJpG
zHE9;TkKnN~&1%){1Y{PLRV8?ee!0^$Wbm^E1cEB^Sl9p-mqFiYVIP3M<tE^yDLHv+
z(Zx&ih91Qsn1DTO!ZQ$bhQqV&RKY<rY1Tej6;%~{el<#h{ou0kA-Px8%tYzyS2bQF
zeKE~)=?Z<CqJuG<Ul5YXWWoJ{&m9^KL<h$j0s-B>4;WjtsVx+RKq7Xa$v`>+gQ;)(
zU*OzUZG3C@51!4e&sS~CNK=QiRR?DdJ*YZ3+nK96m~|f1{Uuz`SVLj&pC-y+2t*7)
zgwm@7MO6V|_linLmg<lBS5jeV72iSk@h~A#qFD=p2z=hbptb_m8j$2(aVVrBlf$ro
ziB{7mN2rGyFtiE2G|mIT4s2en0yLxWiO5#qhM<R|dBh;bGyzb%A?P2~_?J$eI;B~N
zJS>YL&5ctHhCtUKx*Ab6E0ICPz`?Z^qAk*lR5&p*N*z4SsSgbFh-$E(G(jh<rxkJ7
z5se)sJD^H-;=8TLIV);xkH!WmTN>M|v3(lbud%A;d~9-#^hY74Q~JUpc@{~y^aaKO
z5Y&NdZ7t}9W~ORE9ny<}a1s6<FZw6<F8k2r3{YJMf3aV}_xdKuJgj7#?uU%kXZeb;
zIxSE$BY;{ZW3%5FxjHi5GO_3Oo(I-7pSo+ZYqn2`@AgmkPo2x|?*7R8Pc^@)`KTgW
zdn)ffowc3*!c%?gwe)Lqp5~mVIqzvncF((;Q~h)9=A65E-e$jLNn75qjn_{!-fnzz
z^JK?E&g8Mo@7VQ-J~wT?J91}4Z`=36SJ-y7E7_jBoT~q=jWO^1!dh|T%GE1#)@Sn8
zXC9h3yYr!qscIeHJm=e)^X;5>x^8u*JKyLY7bkje_rBSmF#)ZriuqmpfId98ZhLpn
z^d7zKz#*VtRgt!)*i=hOd|1J_8s?mva?VXt{LG2>&%Spy>)e!g9!RnCt7;}jZjZb<
zmU4dXSu-i-JnJ&`IZwl!duPtQGw*(O&b>e9-ajk;toMW7pZ4e7T`6wf>l;6Dd*xhZ
zW3I9>U%5GD{!gB@A7UR`nA(k*%ek7(Q!TlgZ7J8hZRMP;?t!iDPR&&PyZ&ka%$a=s
zb2-~{pV;aa_ccsies^?wG+)0rXWOgyy<L-O$PDFcx94ozfl$rHxti8oO>4epSIYH;
zqw?0?^xp9c88NqV)5ng@pZeBj>pJp2)Yjivn2OrT`pFX+Hq$b>Hg9kIieb&)X6I|0
z=W5$>wQaNFhxH%GAD;Ng`|~riujXt2BJECD$5(#MAr^?-Y`Jmd+L5fc;jL9aSeY^9
zy$zYJsT1$MJpFRk+daGDfw%j^>YTSb$9I4K$UJXehTMMl$ekloLs@U<jQYUaIXj&5
zcINm_ik!8txw-1Cm6N8tea&Q7=1kV!Hg)=ey=~?@IeS}<Z%ej+?r<i%zxGmIDBs`2
zFjW0$TiuKG+^_4+FK)3ev%(lNEnsZ7ILwCp0odDng?Q=|<_Smx;7qerNv2KYFuajY
z0E<%t6o&#4d%OT3SaqzOJd<h9T+TcES>8_#;vdgNBhLF>1ZQyyG^~Xfn$Ru;GWL`v
zKbyHcRiAfk%ktaGPwoKx1@xMhi=dZNz)92(8x+C@z@pPnb0rZ_ixxv+fuYf3V~U4B
zfxiVzhUkKzyyP6ariKAz`CWf9LmPp#E|2q2dz=Z{haikduOPrEeVOq8fc2v<{iNw=
zAA-y9w}9~)U30dsdB!`_o^!k~TMZz~zwjq>vH2-n&^`o1h=jRFeY!%52;LdS0)KSh
zH$p3XblQlZTykl^T<k7ZjF>QiSqf{hxmbbJlfC#-tQe!97h;a3<vwfpIy43`B{;R1
z5ddv8m0}bc*FX!6D2p*&iJmb}f|pGA&!7uY42Ss-j4EH}5n_5R&c}=OGJgE(f*;R|
zbs(&R(eU7q3eJn#FAFh97!g^B_6iqAF8)5AJmUQUPCO~N+hhmzj|q6e<f$I~lRfvs
zxTksSWSL(+hE6+9zE#)(bC>+?^T65G()$)+2lc_pHW25rFVQCXZ3Kc>hU`JG7l3Bb
zrA3~@7W9Yp{MqwR^P6>B(uH^|(M)6qIR*8Cms&I`K^%o(6g#g2NHV{vWGYuJbu64K
zZXHh_pKSkO=i8m{bi?^`cKU4Uc;30|>S6F1$QSk+JmV&-^L7Exw}$zu72}t0KReNM
zyD9HmpR(d{*6_K*HO`K=-!@NLZ+mi%b(u|5UAgr;bB>)^e&^R_z<7vb^&{rzt5<Yb
zxnEe#9hKI{($+;)TMJ_O|Ep?o?rDjf1g{p=43rmhqDu;-@5;26R5s2BFqce=ih&O;
zPf%;<OPH6cu8O9cmH|9YmJ~zf%O$&BH<#m0;taEpuz(5RXp+eatHV6=k|J@Jz@oyP
zP)Q1wdj*3Eqpgq{DYJS=vFJ&S;>zRJG6p7GG%)`GBwr%RupV;<7n>T$zxTkU6qp*k
z1QQ9|he<Kr<Ur0q6+{~Q%Q4-$oQ?`oRER~l30Gtx5>;g|SE9O)Dk*4_a2~9eDh41@
z-;ah2s$-zf=X+=)=r%;@db3_HH0!j#+b@I7EA%TD1Vy)n^lq-e&@jYWVoyjGl;Vsq
zC#9|o6h}x(Z!eIFsEQb(tJ2qF42}s3O&|;`rh%Lw31e0oo6&2#()`N_PzuLD4Euyr
zN+bx}8w=epd`nMvKs44P_9!8U0fiP=e|#h^Gz%x_g6I{&P)s<1;-s{KVnhgwmr$&-
zAjV=t;XxY2qLj-J?}s29Gd{))O_YdkEeW-j?xoh!hU*ECNMFfbYUUuMSY(0+H|aot
zwngJ%pM*6IB2~@OCjvu6;~~Xy2`unoL_(uVB*e59zNuy{d}xgwGa8GPkr?h)+$31^
zP|-|<O9*tN;V(7^04(q7GM3j{JLg@W^RCad+}(9&*N^thw7=i|UU$~JKJVRs^(YwM
zEA#G^x5DZ08_{Ifr`7d<xA)Foh#Qq@CA)r4zIt!6>-zDf2HFSl+c=v(oMO>3`@V4d
zZuO`8-x!#4ugkgDW!Ss+JNBuTynB1H3&>Aep)uJ70Tl$P!&isLz1Lp*)K@pzm-jWM
ztn)U{Eze(hCU@s->;Kv_@9-s$eO(1a(U|*mWB!Xu%OMl@k0$dW$K&w=4+}@}FZ>d~
zVrMyC%+um^?eFVF#o?ave$hLDYu<uM!Mv=*p?{(leJiP$)s3@buxGG0!NnOcJ-CCG
z6foyyS_@h5(ku)_Hs-OTFB!>5xbv12%%_0n3FUKI)Ya)31%m_Gw3sSJR6&8uP`oj}
zIC>HCPh=<(ggbf{HBpd^#2YsGOO#v)SS}Wx@$+;?K}rKtW*QGO2Q&_dK?mKroq()W
zP(`5k|5`;bN{9>@8<-ghmUgI(PK)=GacI8_f3ed5lFS$0>ha5O)+CS4yFIu1(tWo=
z>Cj}$R97mLcef_nuXjPr>RUT0-hSrCJ2OK++Bf69^L);`6YwE8?Yh>L8k_U1gRnlw
zuls)2JcgI$op-t`T0ye#O9~c#Ey0A@1muGMgnKj&zM%uwu%y85Dtg7GF5~zEZ~SS!
z%m7|yFDdsqBhICFXK-;0N1AB><Hschj%$7l0&2KDFypgyyeF)2t3)rBAscR$SiEvd
z*yCon!2y}T@oL8>9cx=uw_pqILGcW9Q>*yYM0t-A5y_u7N#3|9Nq+YDN#W0s9e?$S
z*>UJ8lO2b=_^YM7c%z;dhZf9>HyU~I$1oP<#c2i_^wHNrWw$szO%EXb{IP2mUAE*e
z;ma*OjH-*dRUN62SuGt+<PePVSCrINCqs{(ZX|dF!BGG-O9|QA5OwegDrpR3K~!bE
z=tmCMe(Vsr1|9!^7!v@J%x`^+d26{eV)dMRd(Ms7$KL7Qd;PQQ&nzEUernTGkXiTk
zy!)h)EQCYBQ(r*8Jkv5gG$YQ|zb8*c^6vfg@E8}<15j~Rjkl+dCJ%oO2ah%V;$(Zq
z{PvNYqj74}%;D+goMYeYiJap=mOrpOxJD~S&A~-#4oYeLawgeO+@}TE5_<`ZIavc9
zF&E;(e1gTFUg0l|%7xJqFY))yhDx7eR8TR!lvDn4YHsjEf2~yX)eS13&dfm37caFM
zqoB8pe}3O$c-u6%=MubOOv-ue1}*pv3;ci!l5u7ltiwjZC%nP5aQJaxI;`SrAm)Q`
zvm+BV2FFqi&YY0Ey+=`n<y&4D>A>SE3g;WOHn`==pL0#Z>3(o+;lBh<m(Vl1Pj`Re
z_N}XM)9{3m5Hh#xfqR+x_mhtO)Z;8pj|XWu3^yPxlxO;@8G-07B3#sU<7o_B)6kxD
zP?tE0mu}GZsz5p@9SG}>^cpST(|>CldZrNpt`h0}8Zfj?h@x+JMTyBqGy1v6YmpV*
zMK;zAE<owdL>Pg4N{BuT`3fN4f*acdAA?#MvIT4Cclb@3eGpD+B?d>e#>GgG+8V!$
zD2OruK)+kL5+xxifEP5R4STjC=s>U}dtmL@(f+tQOlao7qM1fI^kHaiAa&3Ve;p(W
zFER9w@e3P%tQ(2w`y&ASlQ*FMSBUr)0B~qmFg7RNYJ6{O&MM@rLf*PQbK-%u@iW`5
zfAeh2^xPe|Gceo!Vavy!!&%$mGM31-a?VwkbJb1u{IKuszIT)v)BE=K>{(Y`-nH*)
zXR;$@`rPhF^`uwL*=lmOn!IgwvV9&}E|0fh{vkb@v)4|x=j?UKj(LYGd4w7le>D|`
zwxVzg)`a^7u72U-4DQC9i{EtdHp6PPs>RsRNYjw2glOoXxl28fUZsy-gz34MGcb^5
zuk}>&27KL!U=sp}fc5MPb=#<;MJ+THBdNz;Gz-*ze`9OYe^_;Zj6)k}C=<g}<U@{S
z*@a4m^?b%O{43-9jM@4b^UT*47u)s~1K^SHJnMRN$i%W+9@$uSJA&Os&<?+<Vp)VP
bw)K&)hOK(kW(WM5D)#w>Z7WzeW#E4Sabkp#

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..762b9d453f1b31c2478828ba854482d39f71e9c0
GIT binary patch
literal 23743
zcmeHvdvIIVncuy55d=Vj@3*8&@gYK@sQ1Hq*rBP1Ez7iJ$}h$a1mRv%kU)UC03{KD
zVmjm5CH;uVb#_QMN=<vxn5x~i+Im{0n>5<(?q=GZ=>P^d#A4)GrOiwyGyOvrown;g
z+Wx+CpCqm%Z#LQ4&h!rX;oN)P-}%1peCIpgIe%GJ=Hc*sRQ12l{;ZGV{wuv`PpKMM
z{sMtnPUJ*B%8l@YHeLza2krP~i#kS}gHHC%9(9eB43@C4BkCS09V}&GXVf#|9rTX)
z27T<^6)hVnA1r6#lBj>AVz2^Xw^$mj9H|<t8mS(v#=B>*#>O4xMDJ^y==;#7v}Uk&
zm=nw1=LhQ~=h+^usmAXi?&VgF8*Gpoq`C`SqSVGojZ&@DpyikOH!Jb2iN4{tS#lb2
zAKI02c<#+M2RF_K%6~;4`U8BSM3#ofq9GZ<=3yx&$)ThaJa;;h49cOH7#|5HrC1_P
z(WQ}u_F^lPCgXDWOfVcu7Q9L@kqm{;Az69fvxj<*$791MwTzWVB9|ob>3AfTJRA$h
zMM?e@kJ<yag6p&tx**Agl5j*0k42Kd`agKWN?R4^P+yikK+`NIaf7_b4cbJ0&|b=k
zyG8qJ{GdZ}ijLQ~57nfDF1+s%ov-owmlAxjiLR@>Sn`@p|LVq9H@=r%wTT|n_fpA2
zL!+nj;@xL@_lae%af4-IIbgZy2lOLFg(*b^-YZS-l~U!|c5}CsuvleIBUYoNYOw~e
zMyv&_73%=&#CpJbu>r6_Yy@l+n*f`{X252#1+Yb21Gq+93%FKX2e?iY00prXuvJ_S
zxL#}nY!ll7+r<vR4zUxkQ``W!LF@wT5(9t%aU<YHaTDMs;HcZw%5HJ5xEVO#EcPI_
zN8AFq1!?w*TTS@hiuY|uwGF@9@w;8zfpj~>oq#*VU4Xl!_QBm!$KW2Rb8xS;VelcT
zYjB?w7~C&y96TVk4jz=+1|OD$!AGR^gI|+&5B5q;gO5rrgMHH4!9(M=z(a+qM<cP2
zJU(zHBuk<~YoUigR~`Wm=u93TO-iDmkgpIweO3x5h2)t~QW#4}3E?!$EhLaV5*rqh
zabZ-FhvM>x5RQ+GjwM6MNIaJ4@v!2Qs#s!VMTKf2lz)0$NQ_1!$t0B`g~Dfq3!&(k
zB*ceMnIuGFC`)YwD+){y7h*y}8VwPv2@01fnG#C-F2!ZEXIMgh3KW&2B<^O#T|^oQ
z<wYnj0%IemkqMQf_+$i)9hIeo6icEZEWxN8PsYRXsL*vWE=R>+B9f8<J*=qyu**cE
z#CRk%mj4T5ytE^!N1p5AIGG>kld4qVIK*m<%IWfGW7;9w&b@@R9f&W{vY&NpA>&tL
zwX<I1n-<dI&Y>NNl4G1`*S>t4PjhE|S~}x5?O-k3l;$TWy~9YK^lPcoyy(<hT9@X}
zR%kKCuTl=H(`A&AwkNzOxioEKrI(muoD)rH{?&#RwYc?Ke5j?$C|wI(b|!1JuxR_J
z^h1)3c+y<ZtAr5dUp<Jv)@kp?@7YEptcB9NR>ox>bvA3?jo-BMBhQL7Ym7K8r1k5v
zEp3<EzvB3<({dZXX<OQ%;o!0@DQGcg+q97Ji?q}-bw;!jnZSyU!~2eYU7EYZTb975
zfU~g8C}$kB9Poz5LC%a3NPzUo61Y=gDv}X~BpH(9BPNzSr3jc)V6^y!h^R;eV!m<V
zR6-7)QY8qLc@hj7XH2azXE+2&Fe-&3L*qh7(2D~9pCZOQMcgk+Nl6}w#3WWJebyVP
z%9xey(<EJ72(v!)2#*u%LqLQ>38`BMMWecK7#T|>_0qJ4kQ_;bMkJw2=~_UbN|}U|
zr3)lWC<W`{hJ+>)8CEVp9zzW3B|_#<)^6eAnFs`9R0@f}Xj~YJiP8{y1nDWA30;W9
zWfPWqqv&r8;`f3S9q-obB3Z`JB_)MZr{#D^M0b)*elawiIw_AS2t$bsS9&wpI4BJk
z^qj2Va9oyYTA)_;u<_AG=HeM(9)dca6wbxs7b&$~o;sy4teloGXP^@?k+n`G0s-SH
zjf{c@)U=_5G80fG7>P(iFKl=W^FS;q5rJV2lH=l7n5Gw{VH$pf)0jnM>HJs(;+#qk
ziDHCis8Ccd3G>#-SS$jS4BrJg4lJ9{dQu%T4UeH{B92)|8O&3dCBl&e@|{BAqHs!-
zE=0mWCpt%6kI2e6V`9;(BO*|G2MQZ9vY>loF@=^QlGrUoF!z8=sHV6^;yr5l%EUvw
z(JvFzr#keELLxpU0}~1>iE(tB21B|ONhDLPY9!IG#&}>LF_a9cZ7SHoe5qY(IxvbU
zPGH$aLP^l1kw8*Z2H+sIoh8uuf$6aVFrg4L1<)Ivk{AsZTuPU&K>^m08H5_0xW>yQ
zu>#cv_rT%)laKcwK3?zu*D)x}v9MIILnA0SXz&Vl%=v|KfS@rs7aSmubA^&Kp+qQ|
zl;uj4#R`;Z6;midvq_^axRgM_mW&r1)X+ki(L%@snWnyi<LPGx2MSImF#;|ml%hig
zmokhpmKR*1+{i_x81*GcJD{NwgfBO3Nsf$exwJ*zwsVW3XvMaSjE1+2%8?O}<pn9R
zMbWQ%M#l^8U@#KHdLo!=E>_ukv`Cr_5@#^?O>lR*IiLT#U9Ufq_f>u2=E~})6Ic5d
zeZu^}Lht)8TyOia<EQQ)x&PR+wD&}I?}^;rfls#&+_BqAcii@FUv}a*?;E)7^<Q~t
z>Y+LNr{3m#bz`QwBjY=k*>EfeSlw~UUpIYWZfw!tal58z_Snp^`L<7MI#5RC6a4M!
zV<-fHd`-tM{A+Gk)MYBx&x@JP-H0zc#NYP!As&Hz#qK+9&Q~@0@Z3;l?bc78zwzA7
z7Z!K*=WCm1U!Hk+^2ir1t|4%PU##CZ>3GwZ_f}@SYx1>?voFoOv{c)bt?gQ<%hhh3
zJVF^>oOyA6X!^xm?Pk1JH_q;#+5h&z$wQyJIA7DP>iXHeGkf3Ow^Y3;TfJ%F(Dk-l
z_3p_-D8H_2skS>?+r4n|MrWqBJ6GGgRC_dAdlVIV@@5qHDy|%R{n%V*)+c=D*d06P
zYgq=uxiA6kaUwuevfKbL%OzDsgjA6TRFEI=-{A+i0B@Rrv{^DF#H5Qt@#uDgeG?${
zVK(c8<YAIsqHyja3o=!h#7G#Lc2XV-V<BlsgaFS-7OO-Dr7pOXTnUmBf*?Z&<qCFG
zo2o0Ww+G*YNRX%jnBczfa2Ud!8UOZ$-C6(kjC;Gh5fNcsXT^(M{a^kg1k9aJs@e!_
z35H(fNZVhng#JM&TlJ*vAF7CpK|j3=<efF^)oN<lo7AijNMX*Ab_DfOlVw`rY5pUd
zmI^6!Z9471kl0iEj;c#{NWo%s2yAu^sWP0su$2mvt&mSlrc|S<fSci5CPh;g0172o
z^oPg9kW5;;+)jYnEw2R#IN66nsV?vgX;E-tq8f`P6Vw-y8S036srDd~KZ(@Z;->bP
z;)jqm@fZL`(8X1?f8<`Q+&1aTw{Og}@1Azfx@X*Tb&D0kjl+}9{MKFnw(MV(efL}Q
z(qeu0&0UkOH+{DnH{J*=HXcH_JnyfaEMucCleVqXJq;BN4<U3Jwi+@A@i6_s9CR7x
zprkPr`XGL!5AbDsnwzLI2J$R3IiV!egXM=x4wt!DhiO2$WVx11Q+Vat`<G=93dqVP
zI!X6Wa|ACt@a{6bJCii1>`8+Ru@o!0YWog<*|qAsQ~h3&cBM;FSWKnuL4z>uATD?4
z6guExV+dd(w5Jo&m>A!zu3!h$l{DtsK}n7aU1JL4%aP=n5h)o7tEyr^SyEGZOcxp&
zi-noS!sd7=C0J3bhA0vor=XH3t6Ip8upCb$*e6|2L+N_k7*VTB;L{T2J|jih5?#6!
z3MZrE!gi)lKnG&lp3IcDZe`i7C>m$tQPEJ&k{6)@vL!V#^a_{`p);xdgi<p^Iu^B;
zlvr)~uav{q@Jw++8F~Y?j%cfUL)tO*2i7x>+V!}ckhfy^3ij~mSiu1fyHIe%q)W+w
zjm`drQaxe71N#}XcEse}$YQW?!O2W>in>tGN`su0N$fGs1-p}K!X|ztYbPbL4R6K&
zwnABW3|eRmN;WNk3LdInWnGd6G=lUnQ7pINORC<2p-JP2BQh}sFv0!0hAZ9h%gQ#5
znZ1>h58tY7qDgVSBUjrsb>voA{haFu_QkSx?R#ggHh^i7zGutU%>!(hw5@u*)v)9G
z$(x;-lh1wH@cd-it=g^E+izURoEZ4D_T;1|U*A5T%GN`AU?SE<!LPoCCeZ{#dKyE8
zE*D7X6Yn#*a20_EP6>8HR)806#EVH?W>^_LlDf1Qvgs1QspZ8|*%1CVa4-+KV@IKQ
zz@x?lKs@S59nopb#GqIWFpHMTp;*+7MxjSv1kVT|VHkRvvOqJDA<>*di?HzmEm0{p
zoIJyDvtn`}YLX8C6dVJjY&w%;DBDC@4!Mt#81zM?l_1j7X@;q`q9xH#i+`Uo90Fhy
zxGw&0d26S|xotDUKX88FdC&9F;mo@2i{2gi>iRi;X3ylITlL$o@4UG)^Yn9z_0O*y
z@31O~Q6|SxnDDtww)R<?rt!P_Ijc|pMhw$|c03~`$7IE(c8YPCwx-c6f3(PzqqH6t
z46}KO8f19E%-ext6VwuwiwIq*Mhh-dRu_Lj$rYXEj*F|PxsskrFZtJJ{p&OC^@>jO
z+w0;{wTrZ{79xr{v$#`iaR&ro{fbrR(Wjs77LH(TsaiTNMiLSv)-kkO-bUaF>Vc`l
z^fA?B(P35Zn5FbZJ#NeT+cNI9;vN&rG8LB8hFQ+`cNo?*4<*+|N-k_n$gMnSjt%$L
zJ~ErA1AUS$2z!$8Q`BWrV2jbBby`3%*X(SZ<!*%K%>W6aJ6&=LcuCb-pdcA1!IM}I
zFu~of@0?D~rf1T#ugtu%;K<bPx$er=?_nzofAyrd7#AcW7%m18FpDpS6$`>XOWe8Y
zF|hKXN?E{;PGc%|wp(C_l*aqv$F69UL>XB9l7`uj;7ZIqjW3qsfzrQ6$u|N_aKEhY
z$aL<R7e9!;7hUSylkMDdqbAe&*v-0Z=VQ70$M1uq-xa-Vv%<*e*!>Wqa>*X_$O0Ag
z*>a@=_27quiFSsG+w~h1Dp{)EkgeaaP?M?Od%Z4OzxO^kAWC3@@CX8CI<XRdnpN0p
z<)g(7aM$?$fL*33P;LS!xXGqLc8ntaZ$Y%>5L0R@FhMg7hS*<y<<iupH&TkY%lX?g
z?)GAuC(2}fp=$3X)EP%NDbkIMRjcJR<T4Xjt7R3TIMrams7ycl7_kXb>0!XoWOK&d
zthCY0Z92Y5*rSar<P9v*wp8taluT%|2AR#+mQug`95P(9F=0}0vTx?qFjML7-M&w#
zeO|474QnPHZ~2N5NXTOdJd1#t7%Z2;Xu7q~2<jcSUjC-}Al1U2G+7nUX~mczgh<1V
zMqzUe$4AGR5*%<CIxSmyvhh(dA@4vbW;_&pY5_qiAhphVz^De6;762w0|1E3P)i%v
zyxa0l3tKswg1Y9oLX*&O_IoJhcZajH`nn9&sE@{S#rW)3Fz2+wT)`QR#<A7^b(CVp
zocs-Zu%sZC{w5_S1#yDAbstPEHEzl_Zpt-oUb*fL>m-2^bd-(a<z9SxRwof8QXlMR
zX+hJkHaGF$CQE|k41#1F*3lOqB}=%n9itlQReKZ`cB);QgcvbB@C8Z=Dn<{D|5(-)
z*gJ)!*4U%me}ULU8vy2Vx9^H)%CqEd$hsTmYTs>sr+Lxck*{x=y*zXI0erb0C6JB6
zT3`Jh+*ZC%D*}6es=Ao)yT0TDu&Ys@R!d?s)5_AQd`~m268V?Z3$mb0aQVvi`I8?E
zzBf33{5lWYnr>Fp)dM8c2YR(lQPhoT-zJgw@Kf*uk+FX!oQ`96I*!fw5VT5|++iaZ
zRNFl5kucqhZ3VII0Fr{(sQYqPUnpk&U||JgTTfKFg#8mmdcs=oduA+_jEqQ!Wf^-e
zt3*B_g>u{zDN5vjMn{(w(f`ZxrcCoQx$=RGd*D9O^#Rz}u2su6U{1ra1{PE7osnw-
zws%fP;BYXmtmB>@Po9Amx?LVZBjjNMt2^Nh24mROfbjzTu(G+C;y<MVh{cNMEn4%_
za4z>?fX!mg*l$i$n0x|w3!i{a>*+w`*^YfJ+q0#5Ry}EL&(@(ukmk9fE{_(YFQr@W
zU7FQ$T-_C3S%ba=7j5QUeNEncj~DHx@46iq-yPp~YN<fr&Q$lKktD5#gcqKA#vt!5
zDJqS?#Il(!l*mbAG#Uy^%4V2XrD@9XrAry^FZmv<!%1zGNimX%kYrM#6s9J9zfgK|
zd{m+5f+LBbrZVv3W^u*#WniYdCv8Vq<j+xJ;yeJRM{mvai8l{i-8UclsCuz^a~?X`
z_|*7Z@9W>nSJcdU{=hRAn(_ak=MK#6HIv>iO1bieIUWfY%X;$a21M(-8{XNF^|iir
zj44Tz-e23f>XsinZk+f@$)DBS6#u*_({eml^<>8PWHANO*f0tlWfTZnGK(5S(xXj@
zFrZLc_N1+7vG4vq4QZQ|IT!PbPH9@{s8gNWU=X&8Jn6mnYgyW6SomXoCNqyN66L+W
zS=)Z|cA&RJJF6apvzdz4_7!MYF&?>@Dxr`lm8+PFDviBGRgNoE%g8y2WY-+ZN;yGU
zNUxJG03>MK4XaT}FsP8NmDxaz`vqlt9RQPUW$kR!Ow-#?=E!suT5R03=<U8GbSw#b
zvcjGluAlmT<hvRA+3=qX=Y;-@Z%w|rd*MX3dCOAsu59zJT=SmEBX1qQRaQ5B{>_()
zvgL%wth2m%9CpSluS~r%cRuHD&A3~O$ypbuFZ|{LwVnw%7kawtfyl&+1UDCh308|t
zUC?S|BOkUF&sJ_(2HBpanQzrY_DZc(tL-l<cPmX?LW!f6R%=Cyyx|~a5F|vb&Gg+Y
zdhIJjufq_%z5RzCD0)+x)TP9742_WE00Hl6q1#STOx|J_9jjX}-V1i*Dmcj3Kqk#r
zCc!Do07a4)2F`m+UKaV^Dcd&zEF`ZcO{boMAibBkojP{qsi~)~9(niJJICge3ny|d
zTb5dOWm|SFwd~8b>|6Bh|Nk-==;i+3l)?8Q=KIKCCQwaM_cHn~Uj!%?vI>P-3t1NT
zKPX#~kp1O9E+I?ekLe7@5ulYO1S7UN;niq4M;ijha`mb2!804uCT%|a3Mw58!VK3m
z&0$&DfghQsxq^o#Gj+3^8mifa3z+BN83!R@Jp?QcThv^F%ECNX+c?)d^8)s|pq5>p
zx;%Fx=U=zv@5=hS7MgPYof-Ge;webS4lV21I^05|GH{aS*cLIvAj81=2V(&1%~w!(
zu@rO#gRFa2+Z{?2&RcK^vgDz6=oB_P=6c_FWxgis?^xio{y@eZP`YGpwB99>-S_H}
zt|XF!tl2PuJoM-b5*|*Z4&|E}iZ*q*pyy>)EPF~<k@}xHd9S&Kv8PN+3lIXCTuci5
zYLiUCLk?0{8<YRkn&K5b^Pf_py@V~=V_2c{!0qVD{;B<Qt>g&htGaUh_2YAoW_@el
zBK<^liCAHpq24lvp_Z*&<{36XZEk1I(fT<Ha>%yE7nrVsX(I-{Xk*3pW!rIS2>zF6
zB7o{z2)_C7on;I3Q*hHyCQ=<yB>{8GONP!#<N*n5jWi5jcQ^-)(GsfXn%%S{YA3Y5
z0I*`>El~=xW+^qU3TRy3gq&n_Zk+4*K{edOGVcD&hW;F&zavl9o7X+lV_A30Tf}YJ
z=8N7pWY($hYj}AO6<UfKeKA0cCQqUmh!93CByx-U=2F^kxqGNYHBirJaiXwOYAW>x
zb`NPUZT@i1zcJ(9SS%oZSJY5vNe%7KM262im>lG<LJl(d8x*6dM9FMT0%}|f5GB7s
z**5~L;Evz+xK5)2ZCqz88|+dVWjU@&)Ou>}cPyK$4_^<W&CF~i^vp^-lkV+(>?n*R
ze4YG6UlukAUmt&&nWQjhZKhoh>~5p=m`|bl!X>##$jg6-D9e2-q~3sbCrHgFPOH1}
z&8ctB?VPX7nYMP#9QF6;iadZyw07F0^To}arDj^~!Aj>h5!WcKgxly9aLru%JfAad
zxtm+5(+5$`z4+dkP(^Jjwe`y$Y9udHQ;Hf`u*D?H_QfQ!#;H5xH1l7ax;TCQjnrK4
z)VDJ3HN^z{TSH?Mo<wM>S-#4&Uv1gUXmT47=^XW~h^KygO@aw|b(8+-J)0!${0C^#
zumzUp@71K?<eq<sCRt$V{d+b^+PAVvMBv&(W(Rs-{$BuQ>5|s<<V3T{3THDc!iH;9
zQa3{k*)_ES-m$ctW{*+U3X7i2aG%n0C8}}Si#H4tM$Qyks;PYJ)L6Mzy77Cq(g<rI
z?9JM&%o|#bJcpx*_EZ!0Yt@|zbz^~4m<TqOFQo#{#u8(rqj8xIBdVtXVUra)$bC>2
zf<YJ$B1vf^80-&}uCg%{oI}w#PS`r4IP{=w<S~OnJK9%(RbS7lE+`64R;T<T;#Yc7
z{19L6Vfxn#If#KyoJK;$-tg?AxA|&nq2rUbPsV;MX14V$t~+$ArgMHQSF?HY@GVk}
z7F%~L`gh*pY^9#OZ_kh0Z;bu%rmXMqGJNqp8AQ0a(lTYEYi-uOc5ZB5`rzDq=l)7_
zzeaufL!?B;l;t}BD@ciZu-0kzR98LkNT#qy8>-@?gG$P?<R-J~(MaX8-SEdvbBDMq
zj<9VQ`oPN|A9&n4tW3c(wl^yrNORdSjJ3u4{J(JNZbf#(?3>0OT^NfuN_Ua`_qGnu
z@oBiY3N+TthfLk+3Sp}j{`0E4o`|ig7#-9B(NPYSq?l%W8hSCyu52F!25?>oJ7<z|
z-UUwf$q+Ueiq{Z{fJ@Pw{~7S0kl9NVBFr#TLBNUQG?+GNalssz6x%F~SAuM}WSdp}
zyPfP9xaBS=i#b9>Mv4ye>8@y+YrC3UBxjCCGo6p-0R8PCt-Q}a%}*U!tm*v1ZmaMR
zh3&cR-A#u(_TU9y;16CqePX6=sj@v=*`BNHgmt%meg12GKldHVY&?)DTeno!kt^%?
z)OQHSHX1znqfgvrzfV2;IsKAjAX&faCd>Zzu9GV}%(L??e^OrEyTiRg<I{!QH!#m*
zM&~EU@!w3l=nXwO)!1THNI`;e)g#(4^Q+nd3=lReCmK-~oud8RA>jLck;k^egVH)k
z#34r)a(HwfQsfh{A<;zU4xE|)3Z<ZRNDXiDua=gT?Myq;&J_AeM@3)VWo%ub3|+Vz
zs7TwbzFOIs4O|TCSi$Cr&f5=cqk=*H&G#{C0#fVSc}8oDQA0dY^r}aTAAob<gT~aV
zd_&h`BYxi+uuXWdR}|S{8EvEc9_)`p?BrPrevc1thVvy3&p;?Br|6g_`75HcfV)sK
z6veqQDTW&x;8K+sjVC0<-<#-~ad)8<=k*{dB)IXGr~$UngjgWcQo#<PQ{XQZobdma
zLj~I<xQAcbW;ze19>z(GjaaJs_&z{vzYYLPPjC6;e%dee&G_CfpX$AhVEIh>-1+&o
zTt(+(FSycQab;*~X!^t(k-65_NAfidlZW&8c46wmbm)!oxouOI=lM_lt@(z=xz=|a
z)6RSi_I0LDPamG<^OaRN-!&bY9hw=MJMng8e%nke1L^Q6BBpz1kIWpI+xGV3^OZCG
zbR>*LR8&nrGgC6zoA=jb{KBoKw)qnuJpbPF3)08uuAN)z>C5)?-R#Zv9LcmF%{4tX
z&40J#PW6f=zA<vA4ky;ASCzA+Go^2PSuZLoNg01*JmYS_fvd`@S?`Q@u6Hhxt7u!Q
z*p#i<w9uEU*h=+Q=m{0&*eqN~jIfE3c6!Yd<4OmL{#2k?unXa_5g?x(oQ#m~H`z%f
z5nd0~{qf}E#uvr;p&vD@P#X#^r2xydrxF#VfhBDUK0)QJne|WR%KKp~`Fr%E%c373
zJ4|Eb-(l*8d;`@MyGp_pol;v)K`bV|s>#Q5<xghZ7Te9b<o_e&Frz+gp_9lY^Jy|%
z^}ui6WXUmWDuxQI%?V6_wV8DeZBOib-1qf+OGtr*E@Ct3A|$P8`MBy)bdk$;D9*G*
zXOERSYqcA9wo1!k{9<0<CpwK?H>(Q?G<j)xF@YWDknA5hv~vvD<s(-j_T0BDt1Arb
zP|lUo)cHWysBF-voT)8Gp_F%>rc=I>7$Cn2vKU@UGCztqj#GzX<2d4dF_s92qL8KF
z3cHB2#p@oA!S)zgp{z5{FgpAmiV7!jV8j+5EtF_QmmAyMbn1-~$xM^db#-O;+bfb5
zAHhj(Ni4XZA(<^bHCk{y3jYq1udD~okJt~OSSpTwp?{St^8s1R*<#?QK$_eMP;ikQ
zMoP#x@v>SQ^C`^<vZh*kLYfoE#2Eh(#W3B>S2rD7?A*KPeJEeux>Vhjt?pVF$W(Xb
zs<&l)+h7{a`<kvE()BYOj4kW_=;ZaD+~(d)_oEpvosum*#B1tW&w-y;9+=-f-8tL+
zc6X-oz@!V{R$0|j+1hN`+NH7$IMlOL)}1Zu#?c;{B21@VS>1KlAHC^d^&igo4*$|P
z6WgAxZl8Z{Vc_~RH)}H0?YZhB8Q+n=z3b(w4k|jGr@F5SnmanCJ;bLZSeJ2Y6LGfo
zowG8FS=s-s_Ovm-^AlSP?zQ4bojWWv5y%gVWog<5`JuKQ{G$7S-nVqCrL1-7&<Rn#
zs;iPkKGi{d^FVHaq3R~Eh9&C({K)@-z@HKLa{^>!W}e^jUr?x>z|R1*jW0&MH}PS`
zbR+*MzF5vR3YC7F=<^iPV1fE~Ae@?yo31t8urbovpYiQqO*+hn@p|<QC=MW=0~z0e
zViT24FnLseFSDLDxY#_xfXSN;%ZC*SVYq36S@qn{$yb{Upo(%<!*8j6a#l*M`82Un
zDl8c_ha`5CP`UU-kvTm~pOpVSS_*yA9aFby6rtv1*IXzg+=>*;N0u%_V7C&`fWq$D
zK@l|OW@Djp(E%eg9E!SxOC5?Q{vJ9vU?h2+2;ex%VJ`OYfjBsI@Qp|2PJHTJd#k#E
z&dkpx-%Y)fdiRxgUdgT7sz@p_it5Lt=68Ou|GoX!cg*k4we89I_h#ICmBCgy0A+KW
z1OH4qkm+m1ysyvX@&W7{n)9%XrZphe{>mOAer>cWOJOx_r5|WSL#|^*HVWRWti>FD
zE`_#ScE+AGt*&^(bf!rNxf|{Bs*N%I=(Uj5Le~Y11h7M+d@s%k2X&%Mqt>)dt+!Id
z+z;<!=lAV6L#(f2(k_jBNGnM@C^goCr~$IX6}p7i0nker#~Jk9Jv!ly8#JOrbfw0)
za2mJLu(M+@P$+kr7zc!VaqxeihnW{tpeMrZG;{-9kK!&YTbMNh`*80JPB^mjYvU0*
z2~4#r_hy;PWS-p2H&aP9-XlOgX4euZ4Wct{q<msCl9Cz6C8?BgttAS#P^XFs8Erw`
zzyrF<8fEmubQg@)D0YC(ba#t-RArw<!Bm}s2$flNY$;qzGe>HjQJdoTtXPC#FWO4^
zx1~Hrg49Mm(m-(cJ$j{hqQX826BRaqqESN?Qno5d@)tbM(T!+qjS(nOmXxJ>g^Cjd
z-7R>U-N;s`(xZaXrBOJVkhU})90?`PA!Hv(3@6AirQ%9idOF!PXqGBJi<to(CVqlk
z&}^_&tDSyv(Yr3+(E4uqJLS2CuF1#qSoNKMr)S~C8?D#Ak!?J%)X<x4=*>0sO+NnD
z)h!v{Bbl|2<b01zKXiNjrun9fZ*9K5A+u&nre#aEe(Tg@bY!`7v2E94+3tMn#t+uL
zw=UPZ9jR^y_Ado`vw_~50EaUhpqZ>)^tIn^+>~k9v~Zr~y<M|*ZhY=sCNPkxIyu>Q
ztEy#g;O#9LUn>^InfgGsBCzm6*1s#`-la$?l1|#APfIk-u8>sv9R)C@>vGDtngW(h
z%FCX#-NM4En9>Q+Y8s8ti%jVj79J}JM5c6W%a5jgD1Ltd+b;qbt><xV0M2KCq%?~<
z6C1{*L(1)1Fn`jmLd4g&xk$Op2sUusU1S{MH?9<d^^*!X#jNDGHA*?hDI5V0m~QSv
zDt2QOU0s9|B4bIq!H;Fpc?<HuD3wh8NXSwEstqIK{wdvBE3_UI@S@zVgbZkgUKqRU
z35FRo8x|eLpsX0Rm8%L;$}vPxs`c3zE^mqt$8ZcA5)Rit;r=WEw;u`Q`@Ihv4Y1?T
zU@Mkg<~6RbObTu_Ll9@I*fjkwDdh(QNQq1kwGpc+hx|Xoo8>J&S}7kBqYWYz7|lnF
zHt^=dx2oFb2Xa*b&^9&=+7{PsTl8;NHx0IY(tbVhuLD`%es$AeyJ^#)IqPno>zl7#
zuzy^7t#r}7-Q;Uw$pw$0;s+^b%x<r91Tv_PLZ2EfGM|fEh|>1vspq)w!~#Xk7M>sk
z6P{Evc!`P-OW!Ru?k9w+^~eWp#>Z9FX<o{j-*967@WPIqe@n)_g>ins+24PJnf7rm
zNwM_xD?8hV$(KKdE8BuW@)sJx9b!=m`+~vqW1*-T1Aj6x9>yu30P4gcIlAI9jGH;m
z#6`IWpX8kc+6WLL3vOIShGRI%ape&IHi{4kJWXH^fffSo09b`eM0YaVIAC5XrzlP&
z5FrpHKnpGT5&`B5$Na*+O|P#J_&oxz6L^cj41u=^kQ0HjFaA#`bd><@>&o*4-Y4)w
z0{@)AzajAN2>h79e<JXw1Tq8)1ZXhjzX2d0J2)Z$Rd7a=&MUt$LLJ_taJgc?>ie+z
zKCGfy^%r6&R~<)!v?~|UBj`nsq4QNrT@+#-?Ci`HbETw);QUcAcum<KSJ;izEXK7>
z2qa2u9QPXcxy|Kt->KrB;Gg1`?faaqcc5gssy??loI9572;HF&2+CD;7fI{XZwTF~
zz_)z!x@E3b|BTR`9{SwaJb!4JbL$ZZ-KpVR<)7PZ&NeEe{0@b1;g#~OUH{g8*KK#!
z-1TSx?#PsccXp^r5CT&x*;@2$EmV~E_g{MTC8}Z#eMi#~y6bj2>+Y620DN|5$6XKa
z+;P`sbDreyx)oT8>gr0J>+jaN5vuVZ)L?h+y6dqyH|n`-?)q%bO?TZ6Bw-=MqN%*I
z?XHV=t|h=iD?kY_SA~XrZu97vpio1-v+?eB-uV<y`TBY4571lYJc==34QIi%F6Y7J
z3a9g-yX7s;-FFZ8P<Km-b1N|EubMcTFY`~}7L$8{%KC|8c>*ZCx@qExd{yJb69`w-
zPdt|Q*J+@<=GCK29x%#)*k)v|Q+>fc8WIC7g&Orrm>%O=z_?uSnctLU`T^pD26O6o
ztVg?)Cn1xlgifa1FT)B$v>Y2|SA7(kS4AjOYLI501e<gU)vHpBB_mOp));Ji5e?Ex
z)-IVU__a^!)pp87cN}xDXRb!d^;E<h1yAB!WHd;vO)y@D=`2`q(7U{b;!7Zw=-RwO
z309Kq{ycJ8R?vq<8TY08fFdm)mR%6X_)}c&@7Q^s|8)h&w=cUmzU(uu`!jCeXWX{G
z;dXz<ZTO7a{NK1W7#d&sg!_NGUvcrZpK}E79x3O_w@hF+yqa9^?{aqj;fX`}67OUx
uThjQ>^O+9ZOt84-;k>)zuN__}gY%B}h8KpfCv%+#{>pLi^Ae<Ijr+gmTgAQr

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..be45a4e324dda325b64c389a40f360c21e64b601
GIT binary patch
literal 5560
zcmcgw-ESMm5#Ku=ze#;il5JVCb5g5VR4mD~^Bu>r9JzKP%ce~U2-KwXg?Expp-6e}
zn25v?y#Osh)-Ft;Ma2LGs<scU<2?2cXda3d=!+BvwR&}d0LhDiJ}8p<&=hDpv*eMK
z-3CsYc7Yr2?(EI({`NOBd;EPc=p#_x3;knZIYh|E*szPcR@u485wc2TB6CSHQ~l*;
zIM(K8c%CTyg3ErX@e944M$4|<23uGb*u2%cEoWR{%MA~=&}R2Fe!seT>^0cGGhVPw
z7CIYq*)^GakGDt3j_;7$HN}iy7QRDf0<sfiP<DZAk=-C$We><U*$c8=_JIt^evln<
z0A!~e1lg74!Y%jE(#0@mxfi8nP0cBZ8Zc}I1kM4^&R;;R61}cl;F*4pn1h4)8K>9#
z7KD1WUNH!41T8|zbDwWdw-27^^#im)7$-OR1V2X-{A+MTd0uwNg2Crtob1Sf?HtS@
z3pqI475+v@fN^;q=62q$tvl~9IKz>1!n*?01j8}wh`}h1jeLuQUAcr$gmO+vDOA!G
zQJ+`Dczkj!HW51tl}po8c0)?ZsF}Vn^-}c0OJ}dd#6&u!=~7D9n2C(0$l~i+7!!+5
z#1kq_WK?~Gslu)#EP+f<zdMAFldxug|M+;p)85XLBtq!%w6%%i>C>!X62cLl2&{p1
zLIjemAqt8xZ#iW>yQEkyS$R`UDEDy4J=}Jfqv#%Cr{&bsG%;_vbS0&wsU;-SsX5C@
zrPQ2a`Qq^lm(In{yfhUHJJ}1CyS8sjP<4e`!9AO`{7qnJxEq8`{OstczPL2HJW3;v
zk0xk#3FaDITuO{CQFT$()i)Jw)P`ayYwh0yPP`5v?Er%i5QvrqVUpc_q_y*AvY6cF
z-Co~r8@3jT3!AN7yIuZPmw9gYAn7`|dST_l-H{W&dbu+4!XG@R*W^N9i7P$6;x6~C
z_&0pLYh1<K_krj1@AmCF_%4?@x#c1q2g{Qip|Cmekv~+LSUa@tA6XYh{<iHU-Z4%?
z;NJIkjYT|(X6EB|nSVSDC_`xCWIjn2xjgX5;1^JPUonWm&DC8w?`Uw`aC}~vdKG5L
z3wdYWrTcA@dcdwVyyCS<80Q8)ySqV|_ZZGv&1-nUGvJN9&v3{bY7K7=R-N}74#UH0
z0VA-?EwtEH8^4CDY9$9Jk>KNXzcl<tfV~++o6Gz%&+PhgU?bs3@F#H=hY`#{ciwU1
zk^n7PU}I`)nB`+YNa^RW5atjsrWcnox}q_6iz)hWl%|)YIdH(?2{oA%r>LTcHQtD`
zX(~#hrs(1z_+&K9EDTPFswS$7OG&lrcBm3HHI-0cSac$c>U2sOo=@vxU-gw37}b=7
zuBKDslOrd@^sG28EzU_)J}UN4r+|$zP&S>ClF6(XQxX}fh%eTBeE3Q_lai~RKAB1C
z>Tpz|dKUD!6N%Zxg`T~Zk&>#OJ<2o^Rkd{LsCY)zH4y{I+2tizR7zLb8~wGFjp?Ey
zCFVtlCUeTOY_aHEG4bTE7&|6@OB{?I6CV|0k?P)27eyWGjYjG(Okn3k<AsSx7<=S&
z>WD6;6aZ?X29c`Y4<B1zl$oM<^0zoEbVf}{G#i_js3K3XAad`YP$&yC9?SJQ)6;!0
z+;YO=6K^m_X5oY)ZD|ly?szo<g<C8xW^vK#3w$g}k%Y7z1!iE2Q!TfeiZ4pq8<r=X
z(W|vUDy_%sEk1h85@L~P#BybpWMGVjMi7!lp%_XqfHg&8Iskpg;n98r!X$q^NSu#B
zK=Ae6@%C+a`_>|B(%PdHZ`eHZ$<WxZ`+pmLKU^8Qupt~V&lSE|9^UnkmX04jTL~WC
zCP8Ocf!hpqL!22ZxHmfvm#?jyDtI>cKeE=pk}m|nY)e~-D^8bQ*$5sg@SCmerE^82
zAZ&U9Hv``bl!I&1#(}{N&*1lQY^bv&uXGn&n;u^wa@|?#-S8Z`?!?w?F;L{UdSJe-
z!z9pBkcv-~`b(Er1_~$Fh5b9Q5wa(dV;*6FY6dEh$Z-HGGM9rxgH()KR&*T8%56*?
zP{zq?tuO`>D26Xgt?1x+sKeW+;cm2pYZGu~KKChO${s(i`|yMAtERw7#Ar1ePC<%|
z*1h{J^mnT08JZF!;IZI(>MV;3Rd#`wvZ*jJSIvN9gNLGXYvQ0fqKvT7Z%WAwjL^j4
zNO+{`@R#5n`j)C;RtJS0PpXq?;<4(e|KNNNI2gs-N!Vez;w)=6_#Jl8UQmGt%&W7y
z#l<xQ8Q55*AtcVIeI1~Wfd<b;I|YK}xnM_0Do&VZ?*>CPcJa<mV3)^RxLg`2&J<g*
z5iIo;{YB@N6O_Q1K+rr-9|aS8P9NQpoj$tWDx4IY8&vVUE++pDjtkwac*rfdCRp6E
zhDTppXKOq@n^c$LnmU(?zpm<Z6m&^=G&E<DO@E-UTtwbIICGtMAHdM21j#{y#H*SY
zd8OAArNJAVeMO_kAcg*$`}_jDbAOQqo2v`;^w=0<-<AzNUT3)hi3jX|X<Oh8EOlLE
zF_Ct`Z1-LOLHC0QyXXO|v-syzA^G5SFrgq5AY@v+a*g6TfgmIGaa?vUJzC=NIYn=v
z{v?cCf=7D=gh~D^41EMtxKebRW4kWm36=WRyN-P59^4FdtR7i8vO2UfRKD_qkvpM*
zjnF_Pbfm!DaMu{J<siY9o8!gtQt0~mo0G-K>z9B_{(#M$<||J91jk`o<PJmtyf$Do
zU@U@5Of618vgZwleSWWET!AYKTmS^%8%B*9=W@rdFt^skW$`gFE6&pNB4on*Q;H^D
zUB1e)&(-Wz1~c4XF<1k<47MkrPJ2*P-7Fzdnx#X~!R~9-uwV5xha}7N8PMcWdjf<>
z5WcaZ(;P#WVwJnCz2(brIc)8J`@DI!5CKR^&T{*TZ^PfSF7#CC-3$)Wi8<D@P^p0f
zn`}i=H-Tc46QF7k&|&w28*;f54M?7U{vk05^DJyoWJXwMU}6QqOEJ8~6})sXbTm9i
zM1<i%ABPqb--U|S4+8Mmw;%GBQaW!=-t}~pCM%wPbL_4kl3B&yyDs!TxP7$AwvV4&
z&7X$`u{YNQ184W;Im{gfz_gc109!La_j8HQ3(b+jw#MLVV${ipMDLb^1v17c2H`Dd
z1HuNas(iu-h3M5nBA?VLdixD{cD@0^B%k;XmLnDap&x(ym)9zfM9gdE7!vGq;Y`s5
z6!ZBZM-LP{i0FZGdwHzlKm7K%Ic8paID}1@<o|%MqZwiNKn61J!MTa1Cm)uk^m$nO
zttNgpz}?GAi%%-_MHu`ecy?X}@!!H)mfjht_{DWW{A$Sy^!?wE_tZm@mtjiruF&}8
zu0}e3PN&GoHF)T06zn?C9JT6hYl8X<lIqLs{0ork)E6QZJp&uKpF?vBJrCXQ!b8VV
z;Qqt=EbnY4mC)1aq-F_=l0Hu{_ghX?O~L0GW@Af$u&L2OtUA<`j{l3y9j|_=c#|{}
zPr#>`QvHy@G*k_~co|~hgQb^hU}YBpBr-b*wj4T)O<W2)rq4Vl7t?Ykshpxw=)+v0
z;fl8$9LMdn5w87D#Q!nDj{sj+q3dQ(v8Ob>I<qoU@rrl60~_7})Ah$-TdBL$x!S$b
zU4E|o#7~}k=ef1aFLFQ4ReFx!>3M3S=c!8j)0N;erVp&}U1s+ku5*LyEKhyN^?%Cu
za-%yA!hdZGYul#=xC7f!u9XXJf1QJ>#|O28POf*mP2dh~x41!cy170Shjy^W_VO=}
C|D}Kc

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..a0714fc96e40bcc6433d88c20ad871ee05302735
GIT binary patch
literal 3817
zcmcInU2GHC6~5Oq<Nu$S&5xZpKM;~#FB>}nl0`r$2@4Oq8x}~AN>pSS&k)Ag<Lvc>
z{Om-E&{i^9)Fs+V31X||p$}|{)I78jl~yfFAG%UsJh8Qorbb$|>;rF6LaV|<)pN%l
z+k~jAs_Kz^=iGaK?wLFHeCPPjE|(nvt?c?&{1XR4f1?wFOl4;43NTBEM?6lTBpx^6
z63>h?ux3iINp75jHHK#s=A?Pt0zAi?6V{|{+@|xEggxmPcj&w|;Y_;5UBKHuM&oYY
z$=g51;~w4tv$|OvbUmfpo(^KodrF)U_%kU{l21yp6fcmcG$fF4lk)7O@D!J3=1W5K
znm}N^afpcWm82kxvC%70BJg8^lul8}u3=G%lG)nT7&SM@1`Gqgt-r$R60#w=B8?m8
zVCceA=8TDKF}S$Z;HuC2Wi}3HyPXW#{qj!lpignkG=XBKi++UWaWw)3#hu%&5mN99
zzF&@Q(R8zg1<QGCc$+sVrnu)-E8eui)aao2u2*#wQ-q#}PKs$1{9@hrH0nfhogvwa
z$dBPGqIuK*=QJ*M{kNwu&nTETU3~)~Vp151RbZThaOX`oUuV$;baQ4J%`g|xG!C-#
zf-z|lBjqc_@M1D(C-l8FE-go6S2d1Ar3pb}W2t0PV<rSybHfmsPLTv3NsDs=DAHR7
zex{O|^W2mqi%H=mAt|C+gwl--vYIzqxs(xEzmFOgHP<EmLK-X1@>F-2W+93Wpcmn=
zoSY2Lgh}7QaE#1Of_*qS84FJmF)7O8H6b02r6jogvOv<I$ytq!4DBB#EnrW-Yx)Tc
z3uuFNbLVl<_h!M@tNMDMnNf55=kgabw`cCm71|G}?T2#hhjacT|KJ#x`@8yvXAJUo
zW;+iSIuEOzhaci^>xMTO5N$D>-=1-8IFY}*;0vn0;Js+p7tHy3VX+>yh6;gxHPF8>
zl4t$v4quk_J>T37cK>`<hn&7m#6lG7zCgxR^fvxnUYc2)`E0Jx)T=i2=9>2ByazUs
z$#x!RhKemc+0c&)p_6Lp<Tri!mXXZ+>u>d}dVh85_WKW9-#FDnV>d=NIjX$DQKv7`
zo$#X9j}E)g@7sp0)~^G8U>{jII=Y71PK200_Fx!eG{+61$fxK0br_eBVp`~_=G=~1
zZ&;!@{X*Nw$f~$`n*gRX8+okX%zy$oItMvF&&ZW5i|Z)-vYk@RQ}z~?T4a|YkGl=7
z`jou}ub7NT08zLyq5w+Ga|%+pIoK1>!lt7IXK2ow6>~W%^AAL2uGm;=PHP7g`GJTA
zXhbz0>W%oTPaaQTxia19%mEo2D+(26#dN>?o#B0fgZDkO?R~9^H4Z4doeWG?EdNP*
z6)=Mw01q_Jwh>=N;QxIOeDeTA(z<O6m?~D|E5zGhmGU(=2TrKtRgL(bSJ&ok3SO`%
zHlDfqj*g%<s6l|iB~olFtg)xUMk-Z6VdJkGI@M>59j@9L_LYjlO&hfZxFC0$(9{W<
zG>)hBT{H8-H8Ca_5bd5MLQG7HDJgPEl+(d_jgwO(c17bvQM#Pc*hEU2&{!%Xv?^=v
z;r&AZ)Y3#kpcXo~6PiVYCXmL&qOxW#K{9Eh%e2aBwkaw7;glc%zO%`xM1;IXMGaKs
ziM$*Fq1Vj7`UsQ{pYEWdL^|o*UdDDB0==!IiLN@Tt7*+sQzK~nnjLnQ#mR&y5X~E#
zB1Dkn>gH(*7qmc>h%{4&Yy@7H^Z^@$U;3v2F$-wj;#g3Mp88Key7AHH{a+lueK_ao
zE_n8-o_!hiJBuUp;q}?|hCO%Bstw&4doi%55a?3_eXDQg0)uN-|C7cy3XLJPF;onO
z?#cICzIFEB9m-r>j^<qLYtH^H#?)lbI5y0vY0urE#Z<;oZ0;yDht=lrsw3BYG~;>F
z(7beE@q%7*mgPGwwI!x;$+_rUjxLX`aKE;HX@4+SIP!sd<b!<One5p4T-|x2<}}(f
zcBnZX|EJOoDd%px+g{jxP~Cknw|ijCJ+SWYEckm=f6u*W&flAPcZ1ncGv^+FFk9a$
z1bWp#?`m@{aI_FOt_F@j^yUI5vQ|GxX;te{eLV%=pz0gUvJLB&x~#>QZ4Iq@*IM_l
z*LP)X#g4x0(7AlaD2VfH>$)RQaO_nbd-Gib55;`fnVjQnmOcA?b02aIJl}Le^-I%R
z^>vT))Z5la14m9BwZ_U#8!RJ4Z#-=dw~oX2f+B?D<#vz?4KiQ}N=6yj00Iych_WYW
zchD%RmC2O?Rncivuv{rkJ2k6%d2+}!8l4nWP1u)wSDMj^@Aj8`?@*p}-_DwnfG%SZ
zO71W5&oD$zQ%olw%QVw;s_uUW+B!Iy9iaXW{zV0ruHztcdd_nqDoH81qudvD%&{GE
zsw3#sY;wxzw(Ni+5;S=dfD7%~HSSCaa7sC;_fMr(&|XbUJ+(C37$8%r$76LHYa}8?
zlR_jCWJx#pBJ{6;X1+QdB@=1QQGyp;rP9`w^3_s~kPL#syYNfT!vHC}t7$2`7|!kL
zTzIc&@!slQ-j}y@uX`GxZ=%zDb8p_#w<>%!^#|p5%G$ttMbB%uPJN<ett~|xaQQ$e
zZws%U{OWvRa6}y(SvxqQYp9;C<;yT+tzF-{n|?F)p!>H!dD#D_V~>tyedluS(X4fJ
z3jzTAJ$*Xp)#}UrW{9@GQ<4Z^34N`zc1Gy`3(^6D<}tL(eXov;`caU6Dn~jZleeh>
zJ#hl%AC&-^7E%3d^@I2lkz;g$LfQ-K(PWCBN(jdYR3t<bBOQWagTWa8y$<2Me?iX2
jsONjM=P{~(j6#o5_olfX`?o@E_#ECE#x^{Lb$|Z`@3$Yi

literal 0
HcmV?d00001

diff --git a/crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..30b9ba5264bad67d02caae0ac887c9d7bc68742c
GIT binary patch
literal 6300
zcmb_gUvLx08NZWGy0cDyEExzUEj=IvWP*ha!NxTqHh&yQa0q4!rO61PJKHj{B=4R4
zM?H5GnlyGoYJ14UW~MU{ozBDzbm~5Znf8H)K6Iv?sf5znbEPv(n-|_(oIW(uY5RRE
zog|FHI8Aq?Z+CC^zHj%t-QWJc{hiC@U?AP{{d?erT88->R?K867FNzfVV02@nT;}o
z?0E}YC|l24Wy@R4c}}*1w8<PuyKDo=%XW~0%!90v1&|K82BauEKssd+q)T>!bdRxq
z*8?=v9cGL6Ftfwo3jdW4VHC5BR%#nCM}@tL>1Ht>u$fQFx!E?(>a5IOg13pN@n*Yh
zxmnbFnO&oe8uQ(9Ub11)EwVKQ9@W_t%wXI~>(H@S=lYm&8~p7$bA);0L+HWl{D4^2
zWR^-AdEGwXGM|=n&104a;H#}pI&aR(%-OYiux_<37(1_Xx44@{zmE%R^wat(nqYO*
z!(-ig%U;q~quU0as?t}`Yx+uGhh?tJag1&Qulc}h4&5<;idH4lYtVZg$7oNR&DuB3
zlFpbOG4mtLlo+=3F=5LaPS7msj4skK+6#HFWyW&F%`xLnXmj>JKNkMu;t1pCyC2{Z
zO|>5m#bR+yN@|g4B&A5Fl|(cW4rz)k_4J2GB-SUXN;pZB=$JGT(fXx!X|I$B5iO#q
zjSq1B`B}p%tJ;JAK*F+0!hVmzh2w*RhP6-83^$12NSs9Fpb91o$9F=}q;iyyI57ll
zBca$O!x4_hv`Akvo>UEcD3MTNvSHKWB;0Q}QVNNy!D!@?V%Q=oZHW*iJZ#vNQ4Ooy
zNGPHiHc-^37}lr~^Sca(3gcJcEmbod73Mi=t|md0;ezFw7-%UJIid`yhJz@HAbndk
zY&16nv>Jp~LqNl{WW_2QG3<q|DlT=YGJO#UXoHEsXn-{B3xvs70>&B`OoRgo5*dtW
zkzqv*fT^Ot8xvzjZK+zcPo4#(xL?$L;OjJV&%1th<IKjZn-;wdId4PW`&|0O67QYv
zxcq~A?v2^{vw8QqtZ?q0=$UGrY<;h7QQVvpH|IquePqeIevX~lICnl*yCZ%4(b|2{
zg&pcZnfK|33~y_gur1ZDU#yjKwNk!zE7SzvqEMd`>VL9*aZ^KXQ^Wl8`Atoq3eBI@
zJvG}p(|WaSv2I(gZd>N){8+YbTfXkVgm7<F(}{U<z58|zZSI^9?hDQ-aZ;Q<H#eGH
zxATvJf7t_umwim_x`zyFtDCSc3F4G6DZKAkwnF`LfoW;~_2D~?U%i^&|H_|SCl|aE
zsktqa<8uS^-fM$*-OpuRC)3A3+!wv+lmC2ZW8B@WifH_sCht)@7seHDCWKLR?8=Y8
zv9pX02gER=T23&PV5+m#AX~Rods^P`uLInS+W;tSw8W1Kx}BD4VDqz21bWfJlmT87
z%)!FeFG3gq8bFI~{VDr%dxX)spRqq?bum~x2mqeM(W+x!gI>pKy(w7HVaxwPH-*DT
z$NaeN9>#A8ZH9>)A527*K_#ZC(nSEJm=YpVZ!#9vBJr3iB~`?v(ms(9o`|AJg-zJ#
zzzx`gJ71MRNRe0~sYxMK>L7q#gNhaj(^mP65>w*@I>lt#v8<7*K&*?zBoJ!JxTM9U
zghG1bWKaTl1H~aarbY*S<xIaKB}iP0hvQKgCLn0Pf+J8tOGuOAy*N~SLE78cjMa|L
z@9w2<?(EmJgxVGeD1ZzxtuYb`lg2pd3pDR(Y7Ok$v$ruJ_xcNSdjZ$8VI53H4Ld;Q
zaFblfn;{<zY52Srp9eL-IW-Yi73i_*Nwe&?QDh<CLS;_yT{IdW35Mf<K|DZmNYe<x
z!`bgNEb)ZFjvDNk!G%a4fb*phnhT>QMhatQ$uinxSVo%-%NXQi%?6uN;b3AaL6K}n
zlg|VJLQUig7Cs?W0v|VMI+3(P*In>e{{SM*EY~tl_cFu#?0;u?ryWW*6i)l+wG04K
z(=S?Xv@CRd()G)(Y(sm#{$P&VkbY^Rf62A}&131#2}`MPU#OXKPrCEM#&pM$Te{Ns
zfiibG@0K#Y%;~KA!2C0J-3Jz)&AAVxJKpMA;%x79UGB<ywp<zcAUSt2@7a>snz@+u
zw9W6k>uFoqpYyckxVE>~-toTZOuw`OQ-a-vvY3znQrh?pC{)r$nT3O$y;(#r+$Y^+
zC-k|&QV-p*kS3^+W)LbWlqBk8+J}lRZ1IAC14Ilg*cOIvZ^?`8S+1QNgs1=eDDdNu
zLnvMZ@rZHSgyLmvDH|7VZ@K+iUObfL4plcULjRS`ARc!?uN5HAf{<5mf**QO^Ea$z
z7m$5u5S<0fuHXpT55=qSU)cbn;0QXFoOt}svmmnE@vl9g22fq_$6+WvItbc^q6a%2
zK~dHDUt#{wp%Uu;$Ia0;6ldYTf+UsBIlHIxPRE_0oY?c*V<56z&(|Ks?k9|bwxReQ
zcEWX7FjqRS;0b;z{I9$VqVl8bOx1Iiy;*$wb;vO^qGzjx1}tm}&P>=ZmK5wJ-HI{=
zTE{uih5Kt&x>>A`+jLI1Rh)D-y1*XbZt`2pP)Qo`fxWQUo`*7NLD34rKs+2u!kI(9
z4OL1z3b<E5JbSV66=)1%2izC%Nqk!~9UpgH@5&s=`*y$ia{62ur99s0rpe^=&|LG(
zaK<w8{hViO`lUy)YXe0n#FNKABOVmgufK<BRQk1=S4~em$x9G|!gRkZ1O*S5_zGAq
zrg0ipUIMrx+n|TTd|uA0g@_RDa<^<H&cg&t-!AqEgr#<>@4^~`Ib?aOQuUF@ylD~E
zQuVPSj;%_%)m)EXaVDo>COn<V$u-WTT7X-1oN_5dWr5iOBdp^0>N89MQUK>G`TGfP
zR|}GvYT>ZCw!q@XRnCLzEy479wNVy%V#Ro1XV!!!VC$bUxfakeIWioP6(Dn8!t<mH
zqZg!$V^Ro+TTInLF%6iZrt~R9x-fQulCT1?Jl)eH?Nk+ok~8TT1f)RWn%kr`GBm2G
zJFY2h(ix<V@Ppu)0GWmOSxqJqae|?BGA4uNy{8UK@mO@MvDEjX5)J`#1j1ORl2j#x
znn?(GRjGM*JgM!D_wMelB)&9EkHo?X)h9KZ5xNuxkC>DdeWW7&)Z$bp&@AdSaEAs#
zGDQ7RsSf}QoTGpxv^X4sSXx8gTe90MX#~hPWxfSQN;vq6sTTBHxd~^EbCV(_n}=xw
zbC$}HxODI!Fkyli3z0r5h3f+siGy>H1rEl+NBG^z2@ud^mzCj2Sn<0EUSknl(nJJd
z)PciGL4zXGn+387n<>4u!o&@T?BTw^8j|6%fZiZ*r%s>mfim1kkW<jt&s9(e`ZA)r
zigQC4FMzmEoS;I^!Sey^@GlT)1{kQ|d}s8{(I2K3c`3(Bd46jqbeG?8&%I^Id342U
z@i>+lOO0b$V4SY0{geCCNAC0D#L(rjC12g_j+q^^yJmLHh2}@5cjbL86YTr^QjKfc
z`)>U`mv`#i<hl3GPX#A~bFY1L_S)G@DDT<{bhhHfi&q1SzU?{R_DpDDB<tIr_Z_O#
z0g*Pu(eF8?Jd>U|_9OlppYeVwY+C{z%)iS|H_f)pwB&?M@AJ!c#%4#lJ25mhJUKia
zn(dwGz1p7{`grvE=)`c|vuDu*gm-_A+y8bK<*|>SJLocc?)()BaP`W{7QA{Lhs!4&
zuNB#GPOI3@y2af8WFsI1o?5FCzEkx%r{PMVNw@0U8Y6J#iI<ilM%XEU7agKj%u`M%
z^SYx{7K1puf>jaF$l6VpDXdUmXCxLPW0e7>-)`71(x(J(q74UZK?*=&g|5y5x1hAb
zS+M|VU%nV&8GJFoB9wCM2R&upK@MQG4F%;LFj~4`anWKbEL>|x_Ys1$V*>ta8bq4;
z3)gVp?MZhnp|}T^NL#Y&cYMn4EUv2wzEt?E-ap^6@Rgz};4Yn$BXi9e%e9uAds~Lg
zcU~XKxdX^o%IgL$3fC1c#v1X$Fd4(UN4OVsR@Msp9mCOrw=gU$1UI{|MA>}<mXPie
zN;#2b(LG8heWSoSsVlw^+5uUTQRM{^hEDK-8TB{_xME`2e{5jbXa3AMAKL3#-^12=
l*7dNJWe+|SSoTF0<%tS;hL%wZ&~L-jtZSvcmUYn$@n6ZKR1E+C

literal 0
HcmV?d00001

diff --git a/crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d905c03d373858612aab979d14340fcfbb371a02
GIT binary patch
literal 386
zcmYjMyGjE=6uoy}iJFM7!e3Yd4njyJmSQCfZsRsX$gE~%CmC)g!7cp?dpp5z@CW>Z
z1+lQQ6N60(@ovb&J8(F2?woU&*Jg7Qc%JuuZ(k7Lqq;1|S&(U)$pa`*n1jXyvEokd
zXg6`^+|51hC%z7n0O1Cd_lQZY@WbGfGa<xs|9q(Vkm+Z=h=!9)rNr`XOyiMF)mcU(
z8+FMRp|cX>enx68mK$*#U8Xc)lSdv$l3zhkfy;0a*2{zbx<Z;o$9!8h?6p}-m7gX1
zPg<pwH7UD!F69$U`5DYw!fGS#1Rb|Uj|yYcfzYNWmIXq}Y>-(gk4!PEpXi|)=jkbJ
gv$y*C=#b&dMZ}*Sz|I@A-l6jyz}6Ms*QmkEKhw}@+5i9m

literal 0
HcmV?d00001

diff --git a/crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..20eb06d155d13498cf1683516cc6a3aaa19b1973
GIT binary patch
literal 1612
zcmbtUOK;Oa5Z-m1)P1Bt!=oxMQwqouBorZWK}fAyH9Zh<;FOEydbf$eFV;@m<W!;l
zhw>My@+UZRsl)~O3Kwpup_d*IGk&C`7=d6cfBTx9o$vE_-<Qi{1nlk9_ZRPELO$Uj
zvtrum--gaEVT4heIJ8MAk;n>R(hgw-PWKCmUsLMJTJZ~okw&BP^Nw%xXTsaC7#C(5
zDsIpNtzQM$C7d)VBTb3XW&vY1WmW(zG8wSMihv`m1gLaJG$pFkJqI4)w=FXZA4&CP
z6Ve|TrgR40{xrZY39}=C!hYI+O*N@kUEwYlM#xpCV~3V+Tc#0O8(a+q40xb=>uL+e
zt{PZ99vt7yIb3zUP_-OzceopJwnw8%!wXkWW|oEUgjR~=fZOX)5kuWin)yib{75!L
zD~L)jH?a*$kg^)v@uOPk__eK?n15I^Mb{6xTXTG~=BKjO+9z7**<{u4M$@g7mu@g-
zAtOCu)VrI*p!z%SNt6&_n|z+UaWK2`VX}Up)cY_)ObIbH)EnPF={+~lJ9yPG1Xr2Y
zS+n`D%tC=kViaIc664T-aHu{WsH)-|&Xkh<y_q~Z$=Ve7i3-Ab029;8>~GVZ9i+SE
ziTs*4NmeVw$%+X$MU(*oJO(~wl5u4qGQ`Th#+|(Ma~v;X%>U!EG~gl(mwApFwBZ9V
z6>2H~azll#f=9e=xh-6=!a&^=h9CUO_7Y?kjk_I3_YDzRJQ!xJ;5J>jt=^S9s@dwy
zFu#8(t;N&))~qliX9TJttg!9y&@y9kYnE$>?yv?wu@flxP{EBXK3Ir(T+ZW>E?yg=
z(a=UCMb}-!;kq7;>AK^wj*a~ZU5E0w(-pa~@N`+k<%-vph{d>yz3TvbN&Ut}B=Aa(
z0e_3&7QhbqIDTe(=}?x6tMpJgjs18g{sZED4XqF<*-as^K$Dnr*u(!MKId3@oaFjM
g;N6cmW`L=EEl^62&JsHJt#pB|(l_^x2)6OgA1ce3V*mgE

literal 0
HcmV?d00001

diff --git a/crypten/mpc/provider/__pycache__/provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/provider.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..2dd245020c4ad87bb2ebfe5e0e7f8403af591c07
GIT binary patch
literal 10237
zcmeG?TWlLwb~D2vHKHhy7WI~8jUJXvuSChV{EVVTwrt0iqQsVxb%dleO^zhW5~<u7
zITn{%2)hO%ZPVHdG;0Uh#i~WnN=ORpt5Eypq6>6^{%}kg6s9f^VDr)T%WG!QBp*f3
zx%1#dwCe!d7ASfl-FxTGy?5?;pK}lYvAo>LK>57#KW2gr4D%a&Fbi*VGN++)mkBdr
zc9xmYTXuq_&)l4Cf@k$H`-DBr-C`yj9CMxt+io#o{xeSBW1?h{_1XUwA4WqqeT>#6
zP~&rE8LAI#cbOI2BpYUL2|uwZEDX^?$GBTUf*oQ$GsZqM-Y&5TCc!G!o^-Aa=5jN3
zV`@%guHL=Rq-~7x@$undX;F+#ib0V`?=48OB1WR3GA)V9!u+fxhJvAK=_N5prWWR;
zs3MDV!A0?!B+f=;csL;Wr~I%~R!Af)`9c-|Z~{c87ydJEK=l!Om&t;cU=#yQ3}YgU
zR4LZ+S6Ce-31;`P$Cv~I2j@n2ee4K+%uhcy%&<Ve1oN(oVU}2qS>+O}iNBw*cUhMC
zu!3h6nZL5V&u*}z8;sAUasFP74Qh@_B1v&cM*NE6^0(jXQRe1*ZuXEveLW$vIIl?2
zp1Ju@&pe6U0GNr@@y{=QTiQP*MWvhbWFX!bm=4O*!E3Wpz(B0Oe>N5h&dLLR{S(<|
zYZc;4u7>LCe__5}W*$~`tsVO5TlWU<zO7bueUm|y{<yN5h0{7CawIA%!DvX*cqE2q
zrv&qHnhl6WkjZ64vbapjprHftmjCilmAI}ID){{4-cwsge#LM1p8aqkRn@g_+pg+L
zxx13W=&z4Jm4R8z?~4k=0h<vN4xfz(*x!Q{1;ZeP4hK+_iMKxo4hxxx$6RE3y4Sov
zt+{8r+o*cFzai!DI`8zzew2q!K<6XY;vqQ5JAlb0b_uu$c*&OFOkSGg3~ut8+>`?c
zPvOwm>l%AQ2L$OS0#kigNNQl6+ys@u79E%VrhThr>(V;Aacr~Yvy-3xQ0=(%jZE32
zwgK3Kcwn+tI!R)2DJo0A91%sDlYKmlEkr|sXmAeL2KYqQ9M|8+Ht&G1&;x3Fc43+9
zg?-(4nv-~%W#%gfYk!^n%E7qyq&(g0{I;h%Ro1;cwBxG2qx}5sRL7+U9skhvcU^z)
z-|o1SYPysxyPV`N6XdcG{96U7k0nzBD&#IBF{o`PxGB)Uf6h+WBz}f!ZGDni&maj4
z$}?u-nG1>}ggI0BnDm?|MJ+zzl*+>VElcxGxWctz$1QfE9NH3SE5dbQ0a|ys6lQy1
z)Co^}pe=*85?U9uUTDjqt%9}!+G=Rs(AI=Ku&Oq^2kJT)tAw$7XuZ%jKwAZEBed1f
z?uE7n+NMRjuU;!3N1gnJp?Q3Etq#=<2`W+`7!F62$PFm~ni%G24*9)>Ad$2hYsR%m
zG)NZB_rm)mI3FO<DXrx6;X&-g-F|-$)gb|@^n3Dz162viAyu$o8o>w!EQC&hsts7W
zKY~v<pO!_`)#pHCl_(?_iogfU4SlG8Mk~wt<_4?rvNSs><7T4Hg+d?@iAIz_AYPLP
zzTX^ghq-b+RLjgx?cNpsL)T7I^9sK$H0(4st?-Y8I-TFF1Hx1boOAGyYno=PgTo7>
zm^Soz_H~S*k`Hk5q1fD<W}5=36QBx^VDvgU09)k(#p7taG9Mru^Wnr=sFs;8-QL?b
zS8x7NJne2(-K{Bids1kppp1rcPl;rqq&W>8uzKvWE5Xb_zp#Mk0G<ZC%Ux|u`h@uf
z7l%GIt#Nlx9*w#;IL#XvI(u&L&5`lInZYx!o(;S)IQ}Z>ffXAZ!9#0~c_K|lZt6zI
zpxvGT#enWu1m=Uvbi6qq=3NuIVJ{ic1=K9tvof$#U7xP*R;#;L&h5CX@Aa&=-}i0!
z)*F*`M^*RHq;OOxZZ1gw4G1aEm5gq32+l{)R^&nJroiazOkr&*0&Dj5;pamN+Vp<u
zM(NrQl66N^HyGR_yCFrWDd|z6BI$Fb5*$!2et%2?Kg|$5F{prgxVE53ey0-*5iQ@J
zmcZfDWmAmE;y785x<u2x(H%fp49?CP9-+Y*vj3SooC7B(cMJHcG&hgOh>5eYU|8Qs
z7QsBt>HBB*8r@*YegMX&a~199A=!>cmEzuf)Y8G@h){HPmYF9mrVez#AG>yozQr9^
zD9&=d(qe*PnuaiY9k>#m?_z2o!G3Nz1uU~@1IPMj#W7FuE5@R;i(+JwI@$(8bxa@y
z5Lt^^lw6n;uTuB|G4S>d_^#p{a3p7?uo#>QMxtF}L=nNt7ojtvoRY&L7D1jNXud~5
zS=nZ#DCxkFQ&1U5*Mx;A{a`o`^Umxc;&nyPPmlKpu#Maa75D}MQ&oFMN!R++T3^b0
za6PDcdsc)U!FAiY>b!Si#req4XL;(3hsBhqA3`TrH5XT0`Sc+**(hShbShvUvw+Dr
z%m7dc?9@!D`6k-}Ep6tkC00R(qGbkM&w^6?Ob~1s`iN!nZ6jDiew30Re&DhZZ&7P2
zMq@z3;0>T@cL67WMD)RDeI=wH8cHp##0W)zfUzlZ6vn~-kCD(c*iYER)XBnRWL82|
zlt;*l0M0SP5;?v%pP2b?(Ll=MP=P@zt5{Le?iSVEk}7Lm3qCCCeC+bx9$p<z)}7vV
zo!N0!?s#j{UZ3jqZPq2dK=e~9!egNv>3yd!?cJ|>_pjaD7J8|Hek3&P)@bO2Q|f;W
z9Sq@Sa?Li3VF3zR;T%xN()}~YI|XG1V~T>34F*ZCVsSt*7c)B(G^@o=+2DJoqF`%y
z%&tKmQ!tL9Wd@aWK?y@h@d;cV{KDcmT!TFF3e1eRp26_jjLc=qB&b0tmz)FIidVla
zyGn;AV++x+&#ChQ7n3y}>8?4Xn;5B+Gq4>5im+B^AP14=VmBl*2;<~5R%f9qU=y7F
zY&OYz`#P>hjS6PF2oIE%-#)&2{Pw`=z`X<8Wo?gJI{vcZ&l=WWO|=|d8QOO3d+e&X
zePQ*&o#{ue<}VGNYUtm(vUTyn^<>@UN3OBmtnz<MQBb$pV)h(G(Lu%2Pzujh6O?02
zC4m|^hqh=LDGQJx?Cm18OP6^C!wWgyP)r}_@4gSq^R+><>TXVziED!o%l2E^;FWFH
zps5WyRd46|&7`+8<vo$74cb(1+uD_F!JqG@Tha`l`hRVZs||G5IfoGnQ~|jFC<7Hh
zseKU%J&e@|Rw)1EHLNIWjAHLOvhNB|>3#-7<h;8I8|BJ<0ksR|zPbIE@sH!{2U5*P
zQ115@mHU%h2euj>yp*ha{gLa9-ExoSftm;e>_toji)I8@6qH;u0&17@+2S9Mfn}6U
zg)0W5hO=rQ9lWWah&DCHf5zLBQ<i&$F12ZN!IEDK%2M`uGDeJzCS$X3cPJhROOwHc
zS>=@2YC7DxfkscO&)OKg05rv;;G>;~mR!PWmmoW-Wv3oRp^uh*GYv~K9Z*p}xwJej
zG^#@5+Lffxh|(yy(n7r|)UTaL3iXeKuK!sId@=$?=h+mXF~k2B4al2-G^7ApJ2HmV
zZVFK0C`y6soA+=j>eAh~wXE8|!Rrs058&c_l~tgxmtrBx4Hn#9Tt`bWhi4V`FkR9y
zW|f%{%-PwN2rKLgGs$5t0&Y6FF(&K!!ipl!ujwR*ISh@y+Zl{+LEd7?me4a1bwd&a
zj^g_fWtvI}+!aB%I28$nvWL`7LNg3xehAe^9AJmXe8{A2iOYs^#iV`JzG`J>5)4>d
z_EYvx*d^Pl{e|7eoZtb^tl#+Xnj>~?MhYpKCx90KR*W487_L@ueqI9K%t0XE#E?d)
zv=Sre)4&gtK>-lFzoPdjGJ2V)MV9qzV$Dr&Y!NGPcZZ?x@dEQ)@X>5qp<v;UU}G8W
zKiu2yG`6pW*Uu#zj@&7ET;H6o?^Wx2H>)-mQ}u%n`jYjRe|=1?zkJ8B<Ect}T2)VL
z+T&9_zV*&+&*7cgraR@7acLk^oI1aP?;v%uG=Y0_bd3!?yu_{Y#dx`BaBbn8G!<W!
z;1GYsIN!Xx18&Yb`c_B>i;S|$ui8ur$#REDV+XzX)=ei~P-(XL*gSa$dgNWGeD*A9
z30{llkP}^)UDQM^reA-4M`~sl-iCc;JONPiaZTrX>1N+nO{(UVmGfV?y=gbPWodVt
z>TX**zwPeYsclTxcB-|V>m_P!Z@RWmt?f(I9!q+Ted(=Fdk?A*p7(9mr@Sw1jVHY$
z58hI}BT3f?r84-G``|m8cl`3;nX`kZN6rS$y*YYj{KD&_V_6)~n;JbrMGwQrQ*PD~
z5rhE}hKi;ru3i=O>p_aU_`c_}GhRx{^H6=W%zRN+_4C)#dtX-Juk7W=1t(9sUU~wF
z2+!^QpY;EZ=garOB~Vpc($$LT2{%TrdA{oI)xUE%N?&82co<J}QrM@fX3HUm6QE=w
z`)2B3lsX>pP*{eTcYi?diP(2w?h?0TTjF!#MP!G90%Bn$A`&)GOgvRgcBRCenBWq&
z1aFCsBjEstricokDZ<#M0Nh|mbMaLP2Nj+o$&`fMRPm57olV%M@b;_7cN30&IO>N>
zkOad!$9{-RL6KAEQRi}9sq5aP>0Ch!Yh;=YU8qkT1$IN<B!{#1;v+JZ#$T5fW%7s6
zg;_ov&Pto5T*+0O>M2aW%7{*oL@at{!3mDqtRaR47h2gjAHyp7PoV;5$-&g^)vvRj
zGD7LV%K4p+Zq?Pca^a40@2$txjp^zxwYqD4eDh?g`sFPpSv~sThFU$ka_-CK-p%^0
zp$8qQ<_k&J-W_-IT3@>Dh}w1}-F8B4JCSNTrMgd1Wh<&4G1+oR^&C!nPO6@hTOE%)
zgI^r$-@I~%PkW5F4?Tx}y9Z97^Jp$lA%D8zKT`))uKEpIHzq$q8u`x~nImxy%nziD
zBB3DWkKiU4^G7oNBwz}jqoN#vY<Pj160NLKLEed8MMUOc2mG~w6!t?#$2%HRE@X$!
z5)vZ@`7}H3-m5o<G%hx;Il|J7NJz>m)LnEVX#V4RRBYzL{LebjU%*@$FJ9pKs-k7b
zbv9$;+|DNqSL)P}XV@c{p$oSz;PCJq<h5JK)3a=1IJN+Z{(PLp_va}#(U^(>d@h2>
zb@<kXP0yk5hz^3<&iMU-p(sTdiC5+A=hyf99OvRC6ooI@dLdPDF)3WsVdG)kEC|<&
zz}9NPb`zqNqTCQans<^cGvuWhcd-J6)U*q8a2yiFib9JgwFHy2z*D?E?;}|P=Y3=o
zX6BOj%<qG|Llz1kBNv7o1^kYKfVzU8e#n56JjtLTBECm&72ZVP79LZpa=bI|{B#i0
zti{nn2m*riF|`wEMI;oYJk6x-U*qf?st>0sMv{VVuJe9v^rBQhT?q0uNGTZb1|j=H
z!2O()lt_retCJufEpmZGibh)bh2d>Oc&qb}<~R2E+X8SerYeS$!Z2lW-3e#Mefu=X
z6ypyY0s+k#2+YO83-H^UfaVGWAQe8VzabKAMXb9KO^C+G9K9&zXJU~kZh_G|xbBB>
z;z6i10YdY6i71OS-AON4^(&TBIAs8<^H|ZKkcQ<nGJFfi-o^@DL=wRYH5U=FLKdea
zCI~nE;foFqnsDlG(F!fI{3%qon5Ueh(UIh9!9Qti`eo<Go#}>yYQw?x!}pJG9KYYc
z(Z3}mPmiU(H=b&E6Q(`oZT5XnoQ$L5w;XHVpRqyj3GF#-_G1~R&EA)BI_%9)J$86o
zQDPS}l@9wjoAH#`_hI)E?RIA>OYGfGE1O{EK$(3Y)4<!E85d_CW;24(eU1G};Orx;
z4gmU!K0(LvAoR5=BUj<a#P~uK4NZ(_uG}Zm1rzl<Dr)R;j{=;0EA;Cm9U#l_7CbOL
p&-BE`vT#y{b^eB__-Cf=pBUFuM+rN|{(Du3V@KGh3~lJy{u7u+`T+m{

literal 0
HcmV?d00001

diff --git a/crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..08eb7cd3a9f35bce9dd5fd6894032f460f5a90af
GIT binary patch
literal 3529
zcmaJ^O>7&-6`t8YF2$uJ$`UOrsY3sYDN0sGjihNDK&pRQpfTLW0Rke$g5F(GD|1O|
zb}2=~3h==P8Vwp5E+F+L6g|kW3+U*h&+WyogxJ^`uz|XV+>A&GkQ|D>H%qRTlG7FR
z=FPmB*_nOc_uk__(&;_|&;6nQ&V32mzp>MO<c_j42g)ijiAk%(p(TNax>yonOsGnZ
zT#_B7r0{XEnsC&T>Lg1^-j}L<PO6l0w2}sW*;J}&r@z!si9jw9GjWrcs?~o_4Bu56
zSfcslSJ=6n7lJn`R?T8%&(g17vpt=aYi8ZiJ*(!{S@33L?2I$JR?)4h<ybWj7N?AQ
zv*ziGtlV&elviiQtnPYc<2u-~Q_S{e9m}(gk7movGOvbv4o%y&GFys|eMR9gc^agz
zHXBvz3ac;Jrp1i#yrC32ot<|<StS-JQInJelfnm5P4OlzNzh8r%FxQtD$pv>CZJ6~
zt1b!oWRSVanyzP=7j5QxSIW#=3dE}yuUs~|p1}8@J^=qae+RKjJUkwMeCkX0>AlWj
zmJ>0H&|^^r;&r|^A)XYi7rSfygs)ZvU;YdIn_?4R`78Y+T~2z5XlB9`OyR!R^%}fu
z&!+CPsWDq}pDl@R@{=>-M<g$`3YR+G&N<DhXE&<0QTFTwE9WujSZ=O9ldC|#mUHcv
z<=&-%Vp<EfVKKb(T_H#|m}S_mU9SbA%Z$9l@Nz+-VtHlHV}Z;;!0@d3zCd!V>P#Tx
zUOx?+$v~(#*dVTv%B<oB%JoIw(sDqr1=MhnEV=0UzF72}M)9*EoBUbPU`q`^X3=RF
z#YP7uMQ^5|cRPi~QZO1}wrrX<UQQ1$*LwSa?+ZUPcNh-g)<E1KFSUt{k<Eo|?SnRb
z7Sms7<DXyp(}lG&TiW>A{QA*H+SzsUpW4}tnaA4MHhrlbTc6ydoAcY+&vD@o_g)MP
zt{h$YZF{lZzXNY1Mg$z_AQZ8`(+05*ib4#EqA$+H*THOjeDPifyvvdoLEIO8sUk!c
zIR+njAADpVMvmZ4vMFIZBLI-()`<v6?tBy2oipprYgMZkKMYC4k;5{mB|&r%BLV=K
zf}<QO3d@2HfB~q4@SrRZ*qI=~<B4UuI5&g^dkd#3;fq_N2fZ3vj>0VWHy}bE4sXtE
zYv<bZX}bT5k8gdvGWmy3+QP0v4x#sstyQ*$PPG%yh9))+KbU$rxjl5Dop?HsU75et
zT6<@G^3U%*8aVk#J;`uaBO)|(Q0E?617)9w#F&Sqo?sET$iC#uE%4K_vKKUbiPOIu
zYNVJ2JOY8CYms9XrN^S+zP{3-{;|kopVisx`M&3`yObS*>*NK7S7R#b3GO0x7zajC
zAdA_XD1L-u9E6L`?2tEfQ#PX5H6Hi7WSltYw%5=6F>d=i5a`C!8*;~u&tm#hExkf-
zT|m;IGt1lB1XAwxdW>$NGvl<u<8x<T1b4)pIoJ8zV2_@A9c?ZmR%9Yw+p-uVS4771
z<O|6VD#Q?e4-^4vA~W~{874;S+rsA=i7d-7BNfe%BjPH1kov#pOLy1qwMgp-LJ1Fv
z%AYxO>b}Q^T+{=&Xtoc41Dh0ODTM<LLWBVoj3F#bix@1<N6-t)h@8s{f?QZ-^u~-F
z6d>FVl?GaD&&~1rVh@~o%7);GJf=WOmyEjO1R`XhpdW<3SZ7sJ$3POu@V<)0Qxrod
zK{SDU=UI#gogg*Cpw{7sar0^j?-RH)&rhjZ)6pAHBG{H2P@SFR8+fyj>2wC+2k+pz
zNR1BQb0OkYJg&}amDbonjCXDCz%us^2tajqY<2eb?47wM+2Z4DaVtC7PC;DCzOnX;
zt&!8;%3`|j#b9PvB<cJH1hFr*bFV}gYtvT*nq3tmSouz&op_lUSslGSdS~oO=J?~x
z@%5?o`K?U8tw8d5q7@!%g^h)WnQiTtz>S_Thm1JgZaq?ueE0PTZ0X{s+8mx9mtLQW
zJ_U1}8$LA=wL*jfF&2_U6aHcd=}ALiks}oHFv!!3(wg3n7^qFVa4EaFa#UJ!xP+0V
z7gcVUZJ=U-rB$m|@n*w-g+vb1(c7Tq#W2Dl@xw3|W+E2hAoRPyrXU?nAIL(9=`&N@
z*GCTex?{QsTf1jL+#ulA^u&hrfId96t^FF}RT{jsnR!6B)9<x~XX&@r>H7S3I^Pyv
z3}jZ$v=`cG9;5Q~G5}rG^;+4nbUo<Pb*FANtEg+b4jH)Gu}GJvKD@wkc$*0n7(E$+
zjlB=zF5%m8oH7kZQDAO%b0BV#r>Vgk=Xa!(e0XO}l~3&q_klK=mdAF-RXH0j#wGc|
zV7OC_6_9?-8Wxi9i$RO`*iT?88vzjv#b?)R1)xXx;U%;l+GlNgc9j#BR|rA2YlgzF
z&|tR1%Q}~nm^&>{yA>eA@-e*H6l$2R`E|cn-w!|82kcic2H~B!$mmxhrSzLYLQnjQ
dXwS(f&&j*b$%p?T$9I);G`p7mhCsu&`5%b$T6h2e

literal 0
HcmV?d00001

diff --git a/crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e43b752f83b1738eae1e2e690bce65a66202b492
GIT binary patch
literal 18194
zcmeHvX>c1?npii`je}?q2f<sSz(W*4$)spYwk}JiM3J%%%GPC>;~5NuhA6-!KzD<Z
zhyiWw#Hj*fB_gA#A+`2I^w<?qWv5JKtJd5<yPBQUj8dCQ0FyGfy_~G7mZ{YIlS$Q1
zW~M5e?|Xfq2|^Szo>c9RJQiNRt6#tV-uJ${`8RfZ5e4aU_y3M0o~NjPz>1n!rLg=T
zp)gMI6i@e2J@S?Ap-J7)Z|q@cxsB~%Nt>zP++!hahCXY5QBP67t;a^{#y+m!-eV_a
zrmwi)(c|cM_Bf%=@}@plzq`jxQ@s>#{wdv4VxYPx-ts=hTSM;8jPhD~JfyV<T5X>h
zl(tgR#zC81YbzU~eZ{}V0o^`>RNWhjhJ-*o<bV4@IPMn$Q9jo1kB6dSOprEcol3h9
zj`sRPeWCtPH14A%TQD{ljr*?%fdLWbDr*<Q@k{-ocsO|aQa}jtXXI(z2gA{TFr;t$
zH4V>)8SG~U2l_&<39-vzJ|y^9$r9lCa6EiDB$>o_24ND(bb;J0vE(t5@!<3ALHYIM
zTzOY&`8?FesSt(m?=kRnkC89pjqlSv3|twwvT$YLYJ#f?u4cHJ;c5w45t^SVv-T80
z-KwkGh73NN<T@h^ig9?UOJRY3Eg-~)B;%PguXP7iWWd`k@N>X#`Ojfl<5V2mNQx-i
zq}K7OJ}{!6K^c%_KBqrJAVC^78>qNhE>lz-pFvX6sBUW9s<uT4(yBFO9G$x-!maGX
z8a&IOqR}&EGOT~5UPF@oDg7TzVJd0*l>Rq#1mTjGR0s@P;x4r-Nhi&)BBQ#ZVXLms
zkk?lfFH!G{sED98z*U_;QmSiIifSLvyxl}m!nU{qZHiiRugX@>#Is2TR&7Wcd)bxm
zJZy^=>sD{cTfHq_sm>OuQcJmO(#kWRo76o9IIKMykX$#q=ozDJD@NOr)?`uAcF}m6
z@|hDYT?$d~_7C>O!vlTcU;xjgH!eUWBzj{Py}eM6dc|-eB;KVZ6Cb)94u<X;B$kg4
z4TJ;_yav>)3I&M?q(#6z5)eh<9_xS*3WmjSEb1$ktZ<YL^@V}1NXFh!T(U#v*KU@~
zPz}W6g2cvSLhzErCPG3?l$gF)v{zzq6#@gZN=z`;-!ED4W*}K_OSX7?z%PW}84QVW
z!Gt4h7X=`2BGM<($HBd!zKarzGi;YHZIU52KvpX;0ijovOmAPot5AWrn}U8EE71Xo
zz97*-5zmuXmwwmU8t)%yz1k|Y?Pv`OLjyodTl)ustpf^?YsDq0m6m}asY0W&D(&;j
za85L@A~`Kj8(R&_5Vr#gU!xX18^=$Kow#{2>uJk)+Gfhqp0-)fD=F*aBFf$Hqw<eR
zCk?Z%`UTE)<Jict3HH;ocX~eVnK8|A2MV=4W?6U9V-r>EUNU3JLODvmu|nxLMU>4k
z((pm!V;g04JSnE^zNyj~--FIM?sSS?;F|O`o8!i=kzF6`$=Yf%wwhU+ce4E}+vY`Q
z<+y#!e$$b4Zp}Ei&O56nIwucL?VPTAY&5uv=U>{pM6L%8e}mVN_9qs~_1x6CnW6OS
zZ_GK*r`i{}x-8d{;aaBNnQ5Qn_Tz(}-SWuc9IYLFJ#{5jybOS&f_mzV)EMi_NdV`!
zqTvP|4L9Z}IM51X(vYLM!;FsVu0_RcxYm_Pqhdxv#TwViaqKH+!5Ys11*0{p%L3)n
zc+RR7vvG}@N1UtYN;16hb5^5V%ri!_D@G$VWiJ|l5}6VWT`DD#r2#J=8@$jLT1kKe
z<N-oCW`w>Vm;|JicdY`R3t<Ch8!<y7A=G2mfZ1lukSqv|koio)7A)6ch6GGL^0Xis
zgy%&ZCZBVm4g2sZiHg-HR9@(A=oNnq*&63@5srvwrt-mybKEJw+ov26SJn8&v5hx3
zWnJ4cu5DB2r!UXMXI&j52N&Ta@H64`Yv<-%Z=?<uI0^Rpti3g3Z=E*G1m^6oqzv<b
z_jRek6eqj@OA8`2)P%1`u$}`Lek-gu>ad<!fkRBvsKa_z*Jpq|*Y}zJXeVOJw>l9<
z<m;a)a2hs8cRmY~lN!I~jfjE~O+HZpos&vH>dBojOCAKwaZP546p%TRtR@|@&lqXa
zMw*^6(yWa%C)uPaX(sXjo7k+KLRl6sEC=KtL*$G;F8>4~j^&@gP0%K}E(oyz9}I|b
zMg0)vgNPuKkEc~Wo*=DJf)6w8j0!DSZN+RmWHKXvUPP%_W6k8$N@W@Ym0v|=wN0xJ
za^aCjU{3KNWNRMmEmLgnU~~G~;!}?KN=`U+WcuPv=>FMR=dqFYMNehcvo+({I@Lb)
z&a9_xx;Eq4k@f7(cy`Zv_NERmIJZt6o_X`Z<vHiMRQnSXW#5$LnloJURNE}~9CE~(
zHS0(f6mBTf1>7Sw{eNx<kQn~w!3{gKb13WMULwZwURhmV$rQby$&-Fi*|8@a7rjJ-
z&OfFo3J`87?1WNb9w@vBU6MI|38Zkpkk1Mw3r_48qP>Z#)yGKfdkdxzKZI<}gR>rv
zShi`rf2{vzEL+x=DQlbFGV|j79kXReM!FWuo}YJmCau$rPmG50;#3!ii@*c(<U@B;
z*1aR+-ZA~g1A5MVG-XEo-;zqCEtRX$Ut^1j|7XG=4~ip*gGP<b{4vBqS*iUt;vl<9
z9MnWUMI1EcgvFea8*#%H=cObI%BEQp2lWiA&}c?uLm&ty86pZ=5(o2<AM8~s<_AP?
zK(jp&%vTuIiUT6bsE_uOyGF?h_xFXOz41##%+u+o#V|k?Cy|5uZ0liRC?ez}NdcKw
z;iCky<U#nguR26#Fl>=CRJr;LDP8?AtN0Vh);K~y{)>I{oO7ams&eK<I0wZ=DFd7X
z&RI|a%abn8PIu09%(~iFOP8x;$pzpt_N^KF)~SQD_EwZFU8B#ZE~o7BA%azE38iu(
zTW*8GdSy$R8UiZ;*eD73CDtE~hU0fBGP^8+cfo9l^3~8HBd<XxQO*HY7S|2Oh~uGp
zzM)4;fAG?TPMAYooM|wMs}oQ-&@J#NR12vH^62-WS43PRE6iFdGM0*mmMZyvGCL<(
z{QhX5KjimIMSg#Oj34a7GUxY$ZM0A6VY=H-92UStE$bx0UM%g$tOGKM6Txy44uV<s
zQj8Z6W&*A&f32v+37DaoL&O((pPIKhuXQXl8`$#YeRj5VxyB8pCI?%!T<2oT9yd}Z
z_csO_szxY1#uC^G<hE+khP~DD3*pp3_-TnzO3P=Uu+nZztkwpwT5AT*9wr1dL}!yV
zL7mmr%}_V#>K3qan+fK0uXrl%H>Txg$W}g;hbMxq*a$hxn-xnj%-LfeVtkh0m1-8M
z7QbIBCmg4N!S;pXv8XrL7ZAmuW=4buXu?yS%ssTeHI0=jWN@8IN>YAx<&@4)skN!&
za>_*nIagkSS+u#6RAdcv0!_s=6F~%VG%xY=I#;2Yb#oJ_CW{X#-tZHnO6&2s`;6U*
zA`P_O1n0$56%O=)#f|q_Wwim7dC7`Kv|b@LI3N{c5zT%|y+~Jf`NdFt5Jt*YgqR>o
z=Dt{OFKn5_grgT@#0=o0iDDt*?s#Q20nQyh+V4-)XzS5$JCx=A8*q>KCS-7kH`d-h
zf9w2*J=u+InT>6!j_chEHFdWy-MaK)BwO=RrsgGRItipX%hhGLx;d_4fh)OjeB}7V
zo=^EZmp;DqNhI62JJYy(wsCKI^S+tm>B?6ha!1MWDU4PB3icn!>6%ytI|ZwgQ$*W+
zwFUfJ28}P%IdwFGOfoMe>9~e5h1>}0zOH5H2dqOvke71C{<YL)z)57QBt=m5%S%t0
zTazZ>{v4zVsMI_Q=5u8PoD|Jb0`nqG%u5lpEajyn9YHHoUQ*$r&JF9(Mnr0~qE?91
zYDKM}&LJFr#ygl-yn}Z7;2r9;$+W_^d50kjZviN2PZ+ZJtcfG1@wj<Ub$5BSBd01U
z7eetXA#fRl0>Mk(0ra1Fn}WpR?;{c$C>LHhYo|lP<&Z$Q6L42tw19i%GfF1KD`^yk
zpv02Hf0q`%2c42JI50?rJ8%FD@_}xjTOc+CHq<{59}*Ct62phZxWtCR>2O&`NjUTs
z5HA7v3k2jv5_2UGj!WhX0YM0d1j(uhp5VhEE&yA9APU?UNK1$ZDiRO%3jw^13yc21
z<v_SE02WHASOb6`mjv&!h0Kk2iAcA-GN}>XfO2BXQ>aWn`T8*o7XK15AU7oy<9o;U
zP9FR`^hM-uWUgd)s$&79yrUyW=gX@<_1vlWxZ;zlZ0)X0?XKC{J@*@a+48d%kO%F>
z|FhUV!e76LgOU2gZ@+u%-G^Mu;>Nn${#*X(!*d(=An^i9b)$QvJIgg@xW>u&ouQA1
zKKa2M_rjvXb0aa5$T}J`j>b7h(?a9cJF$;rGw0?SJ4Tr~XFcd(S!aF5S)X;bW}L0l
z%$L@C)<3g7bnbi9*gVQSbk-A^)*VDJs0rmmA|w6~3gc9gz6LJb;b*WJuvaSwc9@34
zSAe|n24WZI-~be0h^HxNFF@)}gM!d4d>>Xqw${fIbW)r`#J|;teTWWs<&7nMEA|yB
zL889!zOHa?-GPDPKFF?7^N!NgyYrPbqo#$@s`0nR-kNNjE%l{3q5Z}WMt(4H@he9I
zY;Lx^IaA)8b~ZmMuO5GQ?A^3;v&<zBfNDb712wkg769|JxP(ey3b~@yKAuKUisqxh
zx7D^Ef_d~$Y&p6N#!_`dz?pz9QFH}-#0;}Kx~1QCWwq*j5zUdUzD7=>88)qR4qNVC
zwM5LBR6(w#z-$F~SZjrv7Oc(<4s;Wsk;X4_?HXq_KSMt@$2G24kh2*+XEa^gvQ8+V
zKO`?DEo7wyxS2XTO(iYhcwxJVCnd4%WVCNcA=cZyC|H5&0={5y0bhYo5AO<^?PDa%
z#ldJW4jx@uo8Ah~7f|OD(3b79=g2ORyCfqxWrYxQNft2_<^8b>5t#y8kVum%l5ybz
zW`u}aH6yWb4yTk&!jcuAOEjgt2TSJukSGRvLy|?K@pbq>6S#lDw_U(QOq@cA+QJ8y
zOd`9Jr(qf~4H=MPr)S(UX1Q4;lf7Bz<|)@#&Svmo+V?+lyu8f9bskQuqcrWPU8vkJ
zaqh$FQPZOho9C;%^A#H)2Zt)LS8-IuhViRoS8pb=<t>@=mf7;{sUwR(h>wgM`QT`l
z+mzupO`4}Frgwa~|K9#N?%-lc`S`A}T{rh+OBypJjgwcWJzv(`tC=l%1-JpwknfCr
zXVUZe*)MwT_S`qkm3E~%k?bq8c{7}MvW(1j;NF2b?$D!>%G3#2Un2^rMK}g8C>+P^
z1Z0xg@8@GdzhCIVCS+Z*Uu`p%P-&EJZiA9!)2T_qDQLM4KM~^`-lzW7vT=!Ft;gu4
zVuy9>a-G@Qxa{^=73Fsr#suM~B|MLWIeZ@qD+~w)PU^K9oqUB<FfXaJCO68j&@74?
zqCsyoB=)_k=^bEM@+u|<FA4qelGq<m_ApohPCy{;MdTH|N|=Gz?K8?I3r|i>M0El5
z@Mth3mFinHEXxBP(bE$St-FP&8^3@z5gQ@9MuC}!E6v(AWo(<$wk-?w+p_h$GWEM=
z>-Ss-rNR5yNO4UvPtd=;21lGk56AD*dObl84}eDVSz_Ig^{}<!p_*%i_uv8f??lWY
z&fGi6W|02^BSka=l9#fVr8)2XruysFhn5YiUjUJSAi{Yl=wG0aLVe8^*S4S6B!wU9
z6`}&@1LV(;*nA2ESs^MC3a4%zn$Z=CCx@yeHfS&74U67rEWScvmC=BJLgG$Aq+GZ^
zbXX8Tj$C<Ch<`d^*XDvCkN8&z6=1ikx7uBk-t_XUdw-hSzv!sQI_fiy`m{wBsem4?
zJh1XUT!VRplbGeqKg1`Vw+`Yg$7}?CVmD-919FvKJNg@D7hClW1=(ZZK4{@FvU`bz
z=P{NbutaWa(ApZ5HkOs!zA->aCJy+3ApEqXZo)DWi8X98cEu)BtVHiQ<mf$&-RmI{
zdp$)w#6R}fcpKy#4{?t@cCg(zNpz8{Sp52*AQjf8|0^KYdgUaL7Bti<Bv`66rjT%{
zx5BJ*mLd&SS^;J;sTH1vnx-3rETU;;>WG{aweFR#<+!HTb|iy*s8Cdzvclgw-x96u
zd5Jd`7SJ`x%J7VpKu}8p;FMcW(!jGsB`ABwotiBGEK_E<%Yw@r22TxdB_)`dFCr!I
zl<+oEGJz9cw-XSysaXk<R4!aI$*Mt-!{&9urhr``X^x<Dl$TV@dn)9Rd_r0`9-!Qn
zmmrK0Fs`7)tIdA>_w`h~PQ9^#5_Uqk!<r!tJeS+0wMQl`AL@4WO^Avfw!CW@GRxO1
z^cCu=@lEOq?XxEiJe!k?#Nr@xa*#Vi5ZIVw=0pihpzT+tAKu)2yeuPoPRJ4_@PBeI
zzsI{-1OsJA=!d}NcnBN-+Rfsn!FU`UvV81Hw53}R0X}&WYvP5&Q4&@if&gl-!Zo~L
z5s3*cIr|70Rdh4$@wp|l5^IQdP4Gn2<IIG{qe(+Jiy2DH^3#am7Q!m>QQ=L@E@Ot~
zC}9vY+&bY3X8!^*MbH)!*f4}yfu##SfDXwBYb_*Jqr{kSYp~EPsQ(?>#VF7V!vC$#
z8{7zYy?CK=<L!!D6(3e*E1%0$K9^#ksjB97)2*fto3m9fWU5|(CdYhPHC$}-7A|Y4
z$yjRUEZ&8jK-`=uX`U_Fma;5b95`#bblaTexyOcbYyG^tY%w?8bD65=rUHuOT=mMR
zdBIse&W&;DjW101W;VV&=iL9Oq-x^ruS$Fip6c=AW5?6Ad*?j+<~>!9s_Q2AWU5<6
zE%TM$$%;&6^QdXQyk_F^*n6W)uIW)t!zlA3+oQ_uAC*sfCa=y`Zl7*QSGLbIW-8l9
zO?e8$Waph@A0PYV#B|#<|7G-Ebj}Ge9-4~Lka0Flo`XQJ_?Pe9dvDI!^>_<aQvSc5
zG*QkCOO(M1k)6b>oUZJi<4&qJ=0g)ZWxMn5AG0v#ccK^I{@2azwVjRBf8q{S!Q~f?
z)~*KQFIu;DZ8H9H6AR@PjM4%(;PGC50Qq_u<yr;>u<qoTmL{KdP&W)gLoXFHd>3?u
zVS_FbtN<J2Y2E<QgPM9gX1KnA0WuBu6`q?>=H3ExGiy6J(0GAl9f^8Dvo))#&G1wo
zJe7qR3qMtTBT&6pyb;R1d5JfHt6X89FmDwDkQg=qThZSB8PC{7o`JhXQlaRv2)<Tc
zQW=L(rh|B)^;vT3i_*Lm*0@JoqvkX!yvFa2A=Ckyp1g-cRfcsT1G>5oYq2{OV!+n^
z@HcOTm7#u`m;P8Q!(avke53$NRiRH)*Kaa<=bOetbBlTkHWuYzFk}rHXo5FaASWe8
zD;e}9pDodRNC*L+@+vV!n%&wPj}grluL0Qz)c1Rkp4Ej|s6Lc||LHyX&n)YE;7r3M
zgAV)_TqGk8HXgLm6GkcrU<9DrE%<SiJIAQdVh-OD#e_ay4zXupLA@c_kZ;Dtg`;sH
zh?BBm)VPVMNVtRzMcSf8Vz3q7##TqJmDu2gFtiF0%r0Wq3z-t6AsMcS677e;K{U@x
zbXa0Qofq?iG-P9awT_A98|VSpl-Lg$ScUAa8|O#Pf6$Y)H)iaOv-YNxVX^brgM&X0
zf9-tjzUxP&7}z^;72-79U%U3Dov)=>$QHX#r_Y@GoA5sx4bGzZSC3xrK$HGNXtMp*
zrK$GmGhcr1-uJ%dI>5N(EJ`ttDY$?!;1GR;eqi{y@9V1LGp~QN^Y(#T2c|cFUA^n8
zs^iEgVMJN=#Pc`b{72U4Eqdg1Juy<-cYcw$o5;3yW?DPvT8~^md&58CpX_{S-}->h
z*iS7PVPuM#vut<*-wl+H3O6g4D8^cyYDdSw$&r&2?HMhwaObq^?yfIhzWefLU`E=z
zkmn&F4gtcpUe7qUWSuW$oG(lto~gZe<jWKHPW;))IcEpVIqDkeLWjh^?tW~A=RDyk
zs~y?)#E#qhZ|(ou()`<{TFUi0{o5r2yz_6DOjPv=tiUowG<HsJ>T)tatJ&67%KUZZ
z#;z*n=eC!-HZlLK-3&quaZu-85C#x4Z({auF?$Cxy<0(YfHPb7WsI1p)M4Ywt_s9O
z#j#*>rS{L4R)P7?RW`n1Y{SIGS=Z*2Y2N0#v3F$eMB`UB?|eylwq#4DWJ{Xc@(84;
z17io$T%Bx#LB6jhR6DW0jD9Ha)KC$4PJV(`Lw*}Ln>8+vij=@6jmW*LfM4?r@J>yo
z231L!vxEAskD}g!xq!Qx^jrl@*`|We(75t2L@_I0cfogKQ3m+983ov3=K59!_zn5O
zV5mrq5bjbwH9!m3Kwki;P3UUedpXcI81mvrL(mMT9gRQ=rBpxHf##q9J@Q9I+I$N2
z0V)2%kk0F=_2;6|WNSMKIrA~XpTZJ}m@ZjE(ZPQ5btd_6!Dq>RpCH+UP=D-lNdC-;
zfoF+|_#Ni2N;HHw;Afg5@<R3f<j4j$!5?+${?|^OK26M6vU=09y0;dw2+{N!1vVXU
z?GcO9)Q&Iq-rbva)XzFzN-=+HD+BDApeGEYyHXwVE_cebP_}83xfw%&boWSS>d>fb
zp#)rk_vr_<|E=jiH_erthJhR5GoU{`KXzv7#p#Z_FOPJhXu2C>h@53=7#RZ(RuhU=
z1o7@e;SWYU_|O0lk5Leh0mNf<h^Ivh0OB<(h-U&VT_@IoSIZ2#cOmp<wHQwDv}mYj
z0n}rYmIQ}Le0>|B9!pT~iiQgR*Qlq4H~w)D?-hWj9`S^apg}-Tt9l=@bfF!ypJ4Xy
zFhgxmxQ*E)W*<XVK<|^B1f`T{dxCCNc@#_6*NVu7n&=;hY)lT>TI5jR*Js}OtE+!;
z6&&B5;#3FVR!wal&H=O8jhI~!=a3|!$8Y%oWKYGp99ct8AiP6<()mU4V_pO;NpTIo
zb=D#H@B%)bWt5L+S^Ri**aE)0!ZTYU8g8ny=B#}@or~{DfC4dWO<IX_`wWCm;8w!6
z{}e8=;*aJeS$ZqV|I`A`0wrw4Y#U}Rn6+ZI9Wu!f+%CfG8mUoZ8?a5U^Q&a%0B$o%
zZr7+s7!OsS;p!(3&vMNvn#4!x>W{dZ>s>!OJn{T2S2OX>WNn(;Imv&;?VP%p;dZ8I
z*wA9fs3+@c%D9@QTwj#kE&HruCZ2XR!8cMFdk2Y2O<83wra!W{v4ofiP*}&t8j^-W
z-v#S7)(Cn^;VlB^%F1mxO$q-V9t%Ms2z<#1pV`7jY=N?DcX<&@FF__EejovtBVKJ#
zOP~iuq1N)ZW=9d4d!S1X&5l{l2hg+^-#9yRcC_t-^Kyi4hw>#!#|)qLY@PKS$~X?C
zEr(Wfc?~{D3)TUjr@gyo3I@Fo^l1#EABL}_p8_ei5R6sbXay9Jn1Te5gXE{MP8oU4
z`N+ExTZJhYDdM3)z(SH?3lpw@txT0(L)e~zE(Nx=8LoD6^DNh-V5+YEh_jE<BZqZ3
z*_d%PPQG*J^2e7yxjJ(u?P{EL9n9DdJ{2c%O#~-@3<UynxaKFFeFO*-SQ9j2f&mvG
zVJTP+dbvxngcOjgU^h??FF-nyU{Qg9JY^On8mCnq5;R92(+wIPm@%j`!X3x~ZHb(U
zcq-s?2u6cMy9LX2m`!3vF#2UEi8x3HcC;7}N2h|)<QtXmAk>dR4}`>Y9{pwPXR)uj
zbN5|y@P%>1Ozqe9eQEAoiiT{#y>TLNvn6GI<S3i)WGlC4z_8}Izaw3_eYWyQ#&INV
zIr7^jGi85+CJ(;hX*Yod2xeB3hUaJreL9}&aSyC9V2>$;sQ^2)Md@G%axQ*T4*?Yx
zm>)pb4i^P<27%!0Pq9OP`VT^ba0s%z(~ohu#7(Gx3cd;mAfUkDgMhNTvi7=+y>4>H
zbX(e9H*4RSG9Y<$jy7c7zKk1T*O7MnX5H->dwa_8$l+25qtFR6_~=fbp}X5xoaaIW
z=h@*?CtmGtKXX{;^(R6qu3UZxB=qEqSOJfbfSW4da`Qc%{}S6U`#bm%-2^<0PWQD}
zmzX-Xe(4D9VYe=CGqd%}ZjLQm-cZbzEqSf1d#Q|JJLn}&DZWZCb0*d;`x9|GU%70_
zM#rV(QB2`2xqub;XC|D!CYv3Q-$^d=9|c-4I#38-7=-`uA=z{l+2Y{VPZ^80z_(6B
zK9c|IKuKQjU_9JM4ue#t_P~DtXc-W~{p5d}i1L>rc=#lX`mX>4D^}49?C(6=edx@q
zC%aFRfPDG$69Ty-FhqXoHYokhvQPdbV81W}RX_!qR6RD*G`;MkXvaTL#lNEJ|Bm8*
zMS1_8I{zzb>)%r+{s&bLy0fdDzGi=7iqdrTg#8JH*WX+)o}}r9Zz#-v!yAqpX!jC@
IIeF&)0sq$beE<Le

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/__init__.cpython-312.pyc b/crypten/nn/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..2edbe68008216ffeb67574c51538806523461593
GIT binary patch
literal 2078
zcmb`|NpIUm6aZjSyS(q&oH&jh+wvxFaT4#cB+GUr$FS_Aco$+K(h>_kQW;XJUG&ml
z(R*(N+JDf0&|?n;1_*lSskfpo5Fm%5^C$}n0<=hh=<w;yXlBTHZ%F;r+1aMZ&-Z<Q
zfBs`!QGTOF^AorZu1-`%`9{$dUA2@S0xCrTOT_>*;-D485QH!cVT?coqY%Xy#4rwV
ze{9HV!**!L4(Py6=)^AQ!fxos9_Ybd=*2$h!+z+;0T{qR7{nnM!W(b{Z^BKy1-I}v
z+{Qa_2Zv!8@4{WY2lsFUM({q|$59x?2k-#LU<}7$93R3%oPY_Ogh`x&DNH~Dr(qgr
zU<PMl7Uy6N=V2a`ki-R8z(rWZC0N2`SjH7t!AI~2S78+&!()5`Pw*)`#Wh&Nby&v@
z*uYKL#4XsuZP>;g*ufN}a2Iwl4Qb3k2D6aGJ=pX29kz0~5Bqok2Y3jF_za$@N?Fk(
z->Q(mj3#2g%e*QHRjAXFp0wkdwox?Ev=}$N%S1$kwY=lHBD$N-`a!P@UYcGd@03l?
z^}Bk~Tn@?F9(SsjeorL7*qBu)`m+)nqBo_ps%O@XRK0xcIM$Nh>MF2{>#kr**G0TF
zq<xoprOJ`RaZwkohMe4LEbAhaX09h9X~!-xPsHT6>oMCC-OcFvd9lK(hUjc|95Y?6
z_<mEa`F_)1)v@dTs&zS*R<FxJ!HiiK(Tv=yQ}aapI*>m!Lpie<9_b>SeO+Ug2xj@Y
z<f1Af5@zcnx@R%ZGi(vbF|T595y}~eqBmzbub7pp8=RF5N{a~RIIC7fJjb0{m2x3s
z`;6;yhZPaY%Yrd3+GIV7&bf!|LPQG8E7U9zZ{;;qFqphj!O?4$A=(<>8MEXy<Gd*o
z81!cyGtSWP<Q)Z%oi9ZAgxO_7gieh7nQTZ`MfAjQ{d~3+jn_59_Ds3Oa3jUhqFF}A
zlshk4X2}rI=52+Fuem3ia)R-tA%ex)D*{FQlr!6{I<6t&XSRF&d-$bHijfG3_&Ik_
zb8P!UbogQQ(sOvJBD(#SOrh)Wb4%W8*Xf>?I?8CLdrQxcjy_B5^RPVKyq)MEI*Bf#
zo9H2Wi3kxT`iOpFfEXl(h#SOB;udk6xI=`97%@!TCGHU;#C_rcF-nXP<HSQ^pU4ph
z!~`)(Oc4oUnwTNv%TeL8#2hhCB#8xLkys*@33{jU72*-GN<1c>5KoCUVx8C^Hi<1_
zo7f>z#4eF04v7qrCH5pDWZI^8lqm3L)Qao!AThgSxPD$l$da#yMj2W;_LJrBhVD{C
z&_9+RQ>Xu5oqw%~Uk<-8AJpW(i}11e|J14fAnRT9JZL5PN;0^7R2yf=KTZBYqC$zN
zrZLOXwC|KF*;L+*COxbsFOqz5C0XK^Rr%y3Z9A!HR6$LfuU@{3Z8U1J#ZTo7`fqS+
zl0Sl~s{Yldr~_}5$zPQhzbG%>1~%2eTjf)5<*)LUs;Fn`&&uhau>-X|@O6}*$SeN?
D*;F4H

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/distances.cpython-312.pyc b/crypten/nn/__pycache__/distances.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..328e0b011dcd24076ede72f3a2a879fc370bef13
GIT binary patch
literal 1764
zcma)7&2Jk;6rWkIolR)!q<kbrd<;||ujJU-6+)FoB4|?q5(KG194t%Yt#_Pkv>#?>
zOzg&ya)?9@6mdbh_DB>Y{tzxiL~3Qx3!J!>hDcQp6>oOec9J5*NIN@k-q-K_-p=gL
zlamt&#*detu78w8=no|f2FUR^w&AshT;yUO1-Oc_T5G-*WU3jAH1r{IGdsxDS>_;<
zxK#CS*3A8hK{9baOFxN(fJN@p$Zh+qkr*X&>Vb~0f&4Y(VW^5-RMlKu&A9q5YGPO0
z8L#RpM>WfG>laVEC+q6iF6!W_v4YHOf9iT9ypXMUf#*BilU?VjhR{tW+dLGc5i5xp
zYRN4oHy8^^C2-_grQV@doj9R8lI?mC+=5nHGM6}h6s{823rZ6c1V*Vulpm>7Vo`0?
zB<sk{QHCwDKx%H2JB>{UPHGJ|lB7fJt<75CbPBaE7*{fA;uW=1lYs){R8b@~))F2-
zFt^hDAMjN%N)5P3!3$-PL@nt>q2rqsvg8FU6d;j}HOAS$P~a(Ek^)O)i8Y<JFDt|v
zRs=~&q3K7?*}%(CM_T|XUP!L<ZtHUv#x5&sPK%8|&5@5oAkV4{C@s_+A*od)OHhzn
z+Gah)wnPAnBS{O|qzWK)D5*XKl7_PXGgOfXCtyS<6vPokuCWxssW_jtC183s&Hztr
zdZXh6EuV=~&0SnvgmP6m(A5SMEm>IN@V$fuYks~+Ec>cCOfxjL|EDp0onRS;rSso#
z0ccnN#-I}m7MpwbY>p@{M&*bEv|phsCMfO1urWAh>b$76dXBHc^gZ4~65h#>a8i=d
zLwBA-=pdCa>fs)u!zf*}kC#oopB3#E<2(mueS=aj^dzPI41fitE|}ls5C!!!fV)3V
zX~TDfpj7Cv2`6Ry$(v;vw91__x85nIY?i~Y?0P~vVS|ZMtIO3Db^G#pMoNQpZ-83N
z!t{6>{bo!aU3~4XerS}AjQRV|zqG60F^)lp&M=_T#|%_pu?MxStE=kV=xIH)KICJh
zJV^Ie5I11g)cVsvJKQ*QbmZfz%?!T)27Rq#!D9=R5sKz{wK>*|_=dyX+q2IUmTKMt
zGjSQFZFE0BeJ_9IFn{IlwIB4KjD6$Ry!DG=@hQ-n8drc;E8ooj{%!ZhqB*WQ5yA<8
zPE1f5#CI;NFHrhr+woJ)7^QC1pfqNezX%by!q=aobd^a*O77i)3lIDz)3!C3?^9}G
zt}bAq2zx&+CGLJaO)3R}>G2NwOPkIbCvR)nnMVfB+7Ash`|7=!xx<;cBmIRKc<iza
z7q;%h?;**aOVD!Fpjf|;5?jUD6XU%^y~tk&Q6Y%=d6>Z%pIkzC_5phN@7yc6^xan{
I2wt)4KXw|&Jpcdz

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/init.cpython-312.pyc b/crypten/nn/__pycache__/init.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..6ae4455ddf7c867ec33bde65b660420f21fdd048
GIT binary patch
literal 1182
zcmZ`&O-vI(6rS1L{(vou)yiK`;sMh{Y5a>EK#UO#BzjRfK*+eZL*267ZDtk(QWT?!
zB{8B0gGWRYHE5zYIB_+4;l~3^yckd35Ih(U#y4%ZK@(pxZ{EE3eQ(~pxBD?1u0$ZO
zBfrx=4WX~{;7OolY~KW91|?AvTc{5umAj}9r%+Oz!+i=>&Y^)L2=%E7q8OG&QM!=R
zOH<s_p})`aMAdnv=$*&K9r%Iyq6yJ9u<pk-G=^i^H|f2YDB%ha$yH%(M?l?!3iD_X
zC-L3j1kT}0D5m@k_W|mFgnt0_7|$TLoGe``0|I5qA+IQYb_Wug^snSl+H2L0koOEP
z%LFuNO3SG!C~gkF@tY{8JjW04gbMtM9mJBEQ#~d|IdlmX*yvw2JQH7x`Gn7PSmL^<
zFgbCl%^fCuG?R75gvQNrDpXEgK>15C&0r}m{6ja2JEMHqaz%}4o33eC=D6XSj!g!K
z?SwSA>|7Jb<gdoKo5{vU<Lu~(c!G^(Az$3K<C55t9TTA&%*bXbD^SOeWQ-w7N-&ae
zGFixb&7v)BmXk0ne!68RJPeoc0Z>0D(Pw?{^sT8|PewlJ&7Y(7GyRYHXZO8mc-ru+
zaV;9pcWp!uzwBL(cD_xnMmrY<SE8NyuJur4x@W5A;mD`Z{`Ea|`3qn4=Gl>Dz2mL6
zs&_2-SM-kMV8^!X?ko5<SQQwo8WfkqzuLrf*hI~LYG!*NDnDVq8x)lILkalK;LQjM
z)h=r_OnPHsQIUXlxrXf$;ZK^(ND!e98D_?`Q^a;y#;}N}_8h~uIS4)?0$#}H*pw5o
z%VF+yC*{}@9^hGnaY{tkWiXI(nqZk;HEN8Q&~z`0UOJZn{&C72PGUhOCs}xk2oPde
z79pZSj+xj-hKfLnx`yjAq1d+2<WRw7IoDuTO#WkqR~Gv8E7+EClEW4~%??38{z$wV
z)TW9t-mXSCycMj(wOjR7yOhbm=0Oyx+d>%k;>qrfhGXweEu36xU2I)yUu=ILTRVPv
Xt>Mb;^LM)Q=Bifv9a8k-!c~6&zFab?

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/loss.cpython-312.pyc b/crypten/nn/__pycache__/loss.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..7343877588a02ae7ab7bfb7c54c7891b384cfb14
GIT binary patch
literal 9820
zcmeHNTWlQ1mF=DvhtHuz`5{G#OEx7>OCwU09j+}ajz!A0WYM%^(%FEf($k!7l1<M{
zkE?qm4mGrdtN@d1C6bYcnB*f)Vjvdm0QwA)U=i%cVu9U{p_zcftUh)T1W5jDlMWJp
z1bc2(_wXT#Qj`Q61KS|0yX#%I?z#8e>iLi6<^~1VyIcP>v9v=`eoZgI74;vMeu{_7
zim8}tRvD6abx1WsW;h$lg@?kb5>lR4%*c7gj9TG$!m`~^MC8VhTW3XTxlxfDM{fP9
z+?dF1KyKrz+&Yolgxuy;xp9%(g51Qa+<KAQirg)$avMsjw)J;3q5j{gNHw(@d)6_F
zSt}!FDN}#S%2GGpU&CT81q)P$LZ&(tHe)l&D3*J^ekfvw&nrVwTIx{Dj3TX@Q6|-)
z_<*9-Rik>J<GNFa8W^q~!?jq3+n&X3C(klj!*!WAZg?zb=j@Ejo-cV0&x}9lGHTT!
z8fAis(6s28{+C9Pd{e!wc(}{U3k6SQ<*SW~@{a$iDrMDFU;YP0;f-EhP{$0tLu<$N
z6}7CE6+I%~6r~)(Td>bcNzuan)kw}V@>4swWfn6YO?|h^@{Y&cVxi!0&oZ@GHHsID
z^BDT6#&zA!+n%mh+xi{vc&?DOa#kMop5)x&)%sdT)h734yP%Ic{ItPMEmDoRR(6y(
zp%dOrJ=N>F5R<OEG(!mS+{d5p^m2vH$xhz&aA$^>3Z9kk%;!6^B(g$@llD%v2)TCz
z^Jqh!`w)^poKvpHn=e?G2Iu1s{4&1#TI064*n5qixxRIGWlzt-*4|1}@3rms&qOY?
zT-%wPiTo<QeF@E!j4v&E7CVr@ed%5#*n?V`sjf&>3-wRk<1b7I%U%(KrgH3%awW`L
zaH~cPKIT?qFGB`nu1ouib@Em!s`Go8YL*M~Ux7=-rM6g3%dX1(k1ezuuEY=XEy!9k
zRoX}~)jfE)3{aMp2|TU8%Bqcxe@p$EI-p!p`!T<}QH2Y!t(gyYHe+P7y1pV|`Tl9t
zcS#=SlxvAk&3G5fv*o$LN+R{<7v~eHN<1a!R#Q^cqzx6y+=qwPl-Honvw^DKy`tC?
zRA=2ai<<BFeGMoxD$p1L8spQUatOE!_lx;wR<|Na+=u@qhVA-h2xCPzl7zd}tBq%>
z=OM47H7Es}%lo_<K*~yxJFTq1YbE!nauRwsjJZySro&!+Fr^7$WP>+(FNcG^T=l|E
zj{qR93EJs(*Gk<ocJ44rFMKwlc%%U0nxMT~cg;p;BZ1VsyMn@%xk3k2sRLSQN*l1V
zz-+d}th_)O8zkGrfHv3RF0)5j-m*-~?6^VUuwZ5Bc_b$k6-rlDPJRZ<S66USR#&Xm
z1gXKgE12ZB)XS=>TwoE{p&y4&tDF=}3s)O#*Ur11k<VDwI^P6T8+u_22F2{OP&L$X
zpc*DTk(T&q`ndk^n3cCC3;gk^-oQYNS)So}+#V@<macak&N@(N_wf!NY5Hg}FKpgQ
zNv#vYlzTst-;!PVPzmjBx%S9o-)NY7=&ia%c5t2@Tx@;lgD|rHD6H34+V`khW3}EF
zsAXb?`BF8KwOx;Li#dxMo>h$sFHo(wU0q6>Lw-uN!CxuFUyV5<6IRBnw(9!Y1)y;e
z=2naGZD_-3m#bmhoaDRcDUvrZ2C0)vh8kvuojWHjP3!svPaXJkMbu9H{u2^N<G&Ma
z7hnD7SKn&;K#1k@y~`wrWhHcf%W_P)cjw&EuTNcyTxZ(b?LSOFbXyL;aqLp>T-)_~
zc3wXF#@RRBU){6sdi%b`_U`%i?yK%X`(tyFxq<K0zaK?a^ssHmV%y&Nw!LpZe0AGG
zTldeSKQVvSSZVA3#i{wW{z_B7FgIF=@5OZZJ|vnnw!DKfI*|xNn@&qZE2>Q0z43|}
z)lMP#BaB;P;?kq<HSWCLwtdY6Dox!VMe6IHQ{TT^X=Ro8ePRMvLOhOkPigh!6G`~+
zi4D4*6MO^DO}hR{(a8EGb-Hdk8C@4XOq$^BXf7sKZT4MZ#v=QBMdf7IUGhCoh#eHJ
zS0rM8ccS1A=ammap=kW0cr>bg*rG;1_hC$p?*Dx(5oKb2qWT&$8Thg#ascZ{PYC2D
zQVPRO*F8J%BvBOOUr@h+)TozRP+gZ9s|b#yHkRQQIZC{7ixH1tE>;W%z`zz9&XU1v
z-$A%Zp3~Tf<(;;yyy(_4U~();ADEpNofOd6mOSK8&hW+$r6<$O$eYXq-Yt*$nWc0`
zgXm)r0~0x584NyRG1GEE!bUIy!#yOcbaXJ$ljLc%o?%EiIhkT5jeSl`JK0xz8a|WN
zyHdlZ<GHD<-akD3<zde$Xel;~m6>8p>LRP>(Kb1W+kRHk^V*jWrsQy^$1QFJ^XyME
zTS{ld@UU9fp0ZLwp}(@)k{BdcGr`WN7|Y-zw#N-#V(z$6fTT~`-Z(bGb37x<oYA1K
zd^(V%%Sf)9@yl<B-7l*Xfj;0pxB_Nb4sBNYauV8E_Y5M0puS+5p(!}Nja+(AYog{_
zgYj0lEXYZy|Kp^cFBHAiJDw}L9ve4KK{VKF7cdi2gr|s*G^;VGV*-l-=~5@FYH1DG
z5`ddZ_^KT^fFqcOOa7IJP3y%|v!`C4oa_2t_qV&h`^bBV2P*OBD!ZRsK$>{qTI-fe
zN8X5De0BEKg~WY}iT3$K`$A$*CB8?1t^Z1tccCMGkP>o|{9#H6X;&19M<RXvkszUp
zE|FovaZ@zDv@;ZaP*$WmcL3a2Uzfn`PwxP?#)#`=;U#_G`Y;u$6et!TDpZoT;gbc^
z;jA_4u`;Wnl?`)yY#dqtkJ-Nvv-}Wr74DZn1jaMs3LNss@wx&2TBL>s@OzPJJ%;4=
z;df^C%<I#OiCy!FT?+)z2PFD9A({73LM&PO%%k)~$y4}W54Cn#k&5pCYIQxm(np>L
z1r?~cJs;U)=gF4$a&lQu<~{BdN}_oHxXr-@<o#Xx!Tn4^>?LxAY&Zk&i5zE4AZ{N^
zcKJ?nb&<#fBDDaFC;!gCDE4J=9R3@BMHiF;ESl&7D36^V6YfaT9JpbFaVz5>ZsGnZ
z3iu3Fw<Zlb8W4Sfp%_Ka*^dyxF)iM~aDGBw4QE8O?Q&<`z@wMaaQRL#YZ9$N_%LE|
zca5qX5MHut15Y1;Qit)sbO8xsw7<Hi-^j<)+0sVw-n*e7;)91r@J@Kg83YBuf!)|P
zB4D9s2o^d5Q-X!4aWg}b@bMQ|k{o(-$>`jMB}ud{CU(y!cE4#{H5a>|p6`CTlGweF
zI97=t+r*e0L+6~5AsUKiPky@<e!D#sJ+4Y?Lgja0O<ILL@Xdj6;XlL{ip{>YSrI~m
zP6?q&F1*T^h)!<qt!rwxqIDhYxaVv9Xfew`XMMNN4V?Qy?-2#i;if%mXAE&*Sm4eG
zSiGdB>E5&~w{XTOMju?u7l_aUP>9qK;{sHk!vGu)oilEnPO)O1A_XH0Zf7z#<4|}Z
zkVMgf82RS?jvFA`4gtns^0a^`GSNh4fj3(`SZ1<6#d@_gbGVqIPr*fQikS!ikQ_|0
zj*bp`I-#XgB#4c8z33c+5Q1|Mkl^_#(JO^5g0B1BpJ2md)+?+lE!IN~(kIgUO&iCj
zE)HJ7=QDJOoLq@vvIx7lR$DK`wsOKO1t@|tan@|-O=~g;qqvbDs|6u19l&Ducb!Ba
zC1MdVIp2?@VP<O5J!NEz7D>!tT}S;$q$a?0|6dk!dDf(NhC;Pz3cbWeQqZ+u_zB@Y
zl44>aKpW*o=FBjbn4Ek`R6VIppBZ+GIeh}ro5-F(R^U3cT1#{ov|#(B50b7ac|&Wz
zv9_Y6G&>4&vCoJ%xG_dyq`((*MqG=Z68gSM9mQtL_Pu1?v#wCSnzI-O%Y@R^wiw%k
z=*CUqa2?8w-8guZ**T1ZtdSB}wR6fgfiYiwWcAt(+*(UFRyV1QYxMU-EiRRwg~q7O
z5|bg-MUW|DZc>N>=2qY~^ic+)n|Yo8gcZD%*O^u~k1%oAt8V0Ff=Cjr!x(1W6_joq
zpKcU=3a>@SW$UihUW-42LOK{hq-j}GmL$8)x9_d)U2oq5w{;O6yI(*8x7E~q@%ZfV
z*H6r-s~>L_m7@IY?Af_j-u4zdpP27_V&?2Z;z%WaWD`&JEXLy^q0s|RwgaB*kw~=1
z_heL_!GG-v&I&d^JK6%j{Ex7-ea@Kexx$tGPY{g?Dn$^3z0bkp6Vlj#J(hE9lVyz(
zfFcfhU>AMwPS(uHQ@o!a%i`-A*}0lAyn}O}0_@GOixG|Fq!0VQ;o;CtNpS%jc{5Us
z@*7C;Ux|l8!qT?f1`qXKvQOSfL4y-K_6ek)63BkA$~GdMI{9lIkqfkUQv$mE21O4r
z{Ubo;&!M7S^NFsjyMEEW*fTKSGf+u%EhGjj@xe_1`~pVclzfYZ3IN;!0JBi^MIXRa
zz6QX7xm==C^BcZ-N7jGy7T>vJ_}&(+HoS1;`RAW|L7@3-LA<*L&2VZ!GclSQ#3Ef1
zXdL1rVv7KMp^&vD@iQ_Rr<nJIN)ihJZ84pkV1A%|1=PlAsdQY_xjY+88`;9RfwO%J
zyw(Nrl_L`iHAd{L?a7E5UTZXK7YdTHW{nXm`!}~8oD7VZ9^1<b0mx;JhAa{D7XA-S
z55I-!LHQ@n^iZ@LT=YzezC^L$=D(qU=MTSI`_N3kq`+?@0+7&eBSQW7#6$<Q!VqW?
zPTzO=7b(Fpw^EIYjn<;#lN<jM<=1M<?>BVXO?390JddJQQ*A3?s{MlDUs2%FXFz;g
zqhByg%(c(QlUE=8cYOCx{xbfhYj^FKiF~y|n1oDiil|Qmh~@qO54WORn-i{^P^Q(R
zVGO!%7U(1V-<U}GeGDi*k&^tWk;4!;9LCmlrS!;>-7MhWx=L)Y6!eRde?xVb&i!sH
z=D#>SJ3aS>HzPl4_<qArwk<yT%>1Lz%uFvNPE_J2Wbl3fU1@b2p5oKa$xn8lrKfHr
zt3S>OouK4hDxi<^;^SN!KF;k8ML+fXcqrQEn`Nq{HHvS({6RcdWAbw$C(V^#`NS83
zqx34y9EgbtYcEx=hhA%EoFB&z%l41+VH6NabMr{v538!W)T*e7|5BQMqwH9Y?NZsy
zQ_Bi&%g59$>Vq@ZvVz-ka*NtN^CCUBFDLI(kE>Kb_vHh-)E@Oxk=pdAXw;^@sLn-~
U6}m5{cB*~qrMo^-=q~2-zczSx?EnA(

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/module.cpython-312.pyc b/crypten/nn/__pycache__/module.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..f1d8d57b50eabb0d1c28d00a0523bd027d431a66
GIT binary patch
literal 131483
zcmeFa33yxAeJ6^YAOR9wz?~v5#T676?Uty;qD0BsNXa6l$g~|0B0z}}w_Jdd2$Qkm
zx-n_X5fvvDRXd;Q+O4VDZIo$d%D%Q!rEy!gov#B3R0w1Art0$EOgi)ClSL<v-OjxC
z`=4_+fFP|TZabYf*Vf_1xo2Pg`}v<gPft(N;dwXvf1I7YqSyTm{g5Av^s*Sj+clk6
z=hgS?y7*sxmma?j{e}T!mr>8-OkF0H#@uCQe=P$kJqEpQz}l6{QW*Qw25en6z0RO}
zOy@N{uk)JUG4MLN>@3cLxD=oL9itSR&SI^IP4%TKu^B8j4Y4*~h7#*wv3A6!Yf8vG
zt@CF5ioPq$m({9!+NINVWgB$99H04Yt=vuZ?^!{8m*0HZN*i;LGtZal%l75Uwd!@3
z*O+*J9H=={Q*%CQ&O*%vzJiCSxlyi9{kx>*{AFs+M$I{znhV)TI1!txi7jHWd5F!|
z#1^yI0>l<-VoO+T5n_uqv8z~Y31U}iVoO<UDPqesv1Ke)Ky0}tR$#HK5nG{&EoZTn
zh^^AZu4b{-h^^7YR<PJw#JV)Gl`OUnv1@#l^4xS)vDkXVHfUn2S!^R>n=~cVu-LVT
zU8jkyWwGlKyFnA{VzC<$yGavU$6_}l_7P3&8Wy_+v0F8<^(?j-vD-AU4J>v$Vs~g_
z8(Hj5#6GHtZDO&z5Zj`OUCUy3BX*A_b{&gtMeJTp?0Ocv53!GFVmGkZ{fIrFiQULz
z4<h!ECUz5xJ&f2k-zH_$H?!Dw#2(SaKEh&;BKC1j30qj~F~oLgVz;u`PQ)JfZB@!`
zX0ay_`vpzxHWqslu}^4Xx3kzT#6GDhcL$4o3b9XXVt2CGFCx~hiG7sCb|coKiQUCw
zPa(EP6WhXKy@>T`Vt2FHUc{c(#O`6SXAs+`iEU-EXAyhO*Q)e*FN^I*?0_ciJ{CKO
z*da~qV=Q(Uv0u`}?q{(gV*Q%f11vUx*b(0WrM81C_B>)QXkrhs*o%lA)s%3U#Rd`k
zj3%~?#f~9%Toc>QV!w>oXEm`$SnMUlenk^|l*K-W*kAA+Ra*8qi+vukzo>~l#$vyU
z*cUXh9V~VNv6Gr|JH0PHuj@LVs`Fm<zVy7l>%^$u_3{r1)V90yG20Q*>l1z6*1nzq
ze&)M9Ue9o#@4U}FJT%n5-s?W&>mT-sJt}C{=_CxLTP)HOZuIF0A9fkM`Yxl_06b^}
z4m6=oi`R@W#b@=_c~hR(zay2=mFl%3KFyno(B@s^O+%~fUK@U;dx68cGQ8;s9o`It
znO@+Qt}Ji8HxsF{kva>1bG(52T~2Qf!d%2T5trv}@aE!gz87%5tH9gn&Bw1oFW`Gu
z5z-XmSFsmxy{p9A<SoXpRbIgJu2SzRgk?xkiZ}tKl;Ll=7x24lHCkSdUlm@!?XF61
z1;Q%tT5l!ds=ZbCRpYHjSnI7p=<?Pgtn<1Mt{Jts*2OGsL*9{oUvPJtfM>VI?-O{8
z(9`en`-Q+6Pe2&x8|dqycb^a#5_`@x4h}YIQ#G>8Kg3w;_VrLGKSV#!Tr6Hja7`Cb
zzR4p!rgJNCNxw=Ih%R|vd7eT0pd^!A?U?SYO@3GZ%5~~>qq-Z0_I)mkNcm$n_pnFw
z4EO>*(I2zAPmT2U^0xstH2zqsZ?H!k9S-=sF>^rl^bOw7$4q`-f3Kg~E__<n6c`w8
zy4WPH+t|bt4mJ%AHu3C@!=otF-8a}5aJz#JK5UJ0L@^5R6LoP(cel9u)g2S2d27Ml
zf{ItuCrp>qm6vE?DSl@}t@bNvlW8y87m-63H`3I1Hqs~Ya!rR3pd<;8h#fGf_Zr6a
z0cGUIbni$ra8?;VHQTE?uW?L|(DW@+ht6eg7t`@EW*Zq)#^h7I5KIwxXI)1A-4qxd
z_EEP7F|Ka6%OGY_wsa+v+aD19G`E5vX3;046@9~E+z|1I)%fghKyXPHty%N-mw)BU
z*KKn<CerU_=S>A(sawdd3TIb^vZ`l1v*|O>-aH+0><n3ViaE&99ydhPWi~_wc+oCK
zuU;O4=kzW^u!F5;+75e$2GP!uo`7HQ2z#&uI(>suPlaA_Xh84`3P;-8PYOrHp}-Ip
zj)3HSgQtZdQRwaK_wju}B?T+@c>4RXgZlhJ@5o?Jpl@hU!2ce3x6yz#VqN954+Rbk
z4EOs6e1lkUdqr_bM0A=bfRay*1blwJ==i9mQY+j;gM$}?nbOKqVye+gKMngO-A8FU
z$Li4P{gI3VA?pD)G)qRtfs~7%F*2n`ePZvBI3OUn;1RvTFo6hk1GDezZw%(k@q<GF
zp-=6FSc1ZD82KVFdBoHHnB^P_IPLe-gkXGlcT%MM!3?=GydIi;e+Gg}y1&gR53Sx7
z$=DvUZeQ9FGt#h*Q0K3K@=v}G#`Jx<F~eK>ujxB<H}pU<VinShY^B9D2&=LO^A@)%
zdBi$o@Y8T%RXU0%0$0W+$EG_&j{2DsVMl$)TF)D&fG?yp;UAU0_{#{`7F9qWBBVzK
zQea9_b-HoGn10Nlg2>A@lMXRDw^A-Tm?Gy@|7uEcq7>tp@hnP9e8%+eDk~qXQXb0I
zVUrtzO&vZgc>?!*TMK=I?3aJo*VEVA=kp2-4AM%cnWuGYq8FDrmZpKF>7wsTBYmRJ
z?>;ShyfLesDQ4|C)7S46eS;!Rs>{R{hPVdrF*C~_v+#=jG-g;He0{LgL3<km%Z;qG
zjri_=9Kj{sz1+fU?yK%dZuJA5KDB0IZ*+C_#NIphvinB-yjM^{5cR%AmtTBs;Of9D
zLzJp=VqesredX}v;c4&0;XC#UN?Uo)kuzaiy0~cW*!)%EWx4rNVF??_iX<cHJMZZq
z@h}L$MsFY1AB}@ZD_6U_O_VZdlln_P9;FlnFVS5`&XwR~aJnku5JFZVd2=g}bg>n|
zA)S8NCTkW87RggsTH|^wJi{;Puj#QYu;fPdzhS&UpmF$^FEAnw0vrwseZZF<kORWd
zd7p^gKH&5Ac>+E`o?B_{_*EeIM4zwU>u*-TD@`o#T(jWe`J_xr5+VRI2#I*za=9`b
z(Yr;q3291D5Q89M6MiU2R?e{pk$x9~|E&ATCEfirT~X;mVSTu;K2q37tDtc5z(mW$
z`Dk{*ONT$i0x0}s(S+2`l?wVeFiDYYM1KV@d_<ShEaTXoXO-=Vgwk`CU{k`Q8Tm?S
z<PEf0FX=C*jsfqU*ZcLCGsg7Ew)mJ)Mp}BnvN2<?JYUu7e0jbK2=g;cS-mhyQ$_px
z)KK7zG8+UDXflMMUM+O+_=O8TU^o2L!i)fsNGs2NEytJj(lT&03!NjteL~OBU;uO$
zHNeAb^bC5FuaLbLJ%nhQ<CoRWojVChvAp#fC`KEuzcGG6)w-7ErKQ=|%c}<Pd$I;C
zI=``|USKbqYMxG>g|ZEU0tnQiB9PTCW$4;nrkK(13y5~CftVSaXTTpbdc0l<`T>CY
z28LoLY8qeHwA!dVzOXmpS1?xs1@Y}agiros2-x!e$f?WBd1++A6fF^6Z@b>MP|_4G
zX^NDrd!RF>R!knAXq~E#I&#B~@|oV7t+%VUL^GY&tXHkmdGnb<G_PoS-&B7jbM=QQ
zNd1YQK+<y!Ee`!n6M}zTgrJ8uocz!`{aaj(05H+89Kzj>?_lc;!K!1v(|vxTwd3Yf
zMlpQc8VM)UNJ*Pr+==(4+dbwGrNZ1iUocM^p@jG+kzJyN?v++fn69KxrcZfqTZ{i`
zz~=8Sy9bFV<W2X>BQWR-To@A1t-Nt~HwkR=+zFZ0Wj7S?#V^%XY_Pr_0@QN79?>U=
z46XyQ4-NK@BIwc3t^|YA`I3{eh?{9VY2M}a8B38qDWse9+f6A|*qgy%@0xJonn+<o
za@Z?wL6*2hMv$`t{}%5dkT9A4Qd)A@OHfnn0?ef5B|Ivx!(gUPhM8EjD??|X6^0j$
z<EAkagU-N@;HC`Vri?+<GRDGj^Oz|qtk#byvUCu3kk^k}#w-$kwVHI7*AdK?u&gP#
zSza#jD3(ouGHbPiLxT;XuV+N`Ll)9M>S}ENRNojQYN{Cx5^2MU1U1Ax2wW+g#@d1R
zm}OY>_4Zv<H&ratKXQssn45o#=?DBoS7LtY;V_5_3Od_3`4zVy`tZg7H3SR<-Lp9+
zw%^Ukdu7u^Yt-hL3WRONQG4c<{geBrIxn{a&rVlP)!(+4Muo}+VMAEh5D_*#(3#Uq
zuG*(eQ@zog!l|86XGyfe^__h;I&K-l6?<-Z!xaZZfKY{H3xy5g!iHIIXk%-na4!~7
zR>@RLw5a%%$AG-EN<K_QLHAR1_L5Kh7-`*eE%hyp`W^zO@<WqN%R{Eb31!RQG=I<Q
z{B|v)Jf@eG4Pr(>SuhYi=!2+8M#s<Tfw~QDW%;cP69XW*_%lY7y+IbMK}cb68H4AQ
zoh*Y*@LZCxLf-Ry;u?j{IOej)Ge}&R3<#BSl<W-PFcL{#Q!2;_RvlGpVZ1D;0ig<H
zU%%+{ct-`_MSyTWptM;e1ywBNjK@zLYAo#pXj>oST1Dd8Vky9R^hGA}86aPaFYI$X
zeILt~TdPWBf`!t0Tl(n&O7R~>z-T&q=G4Z8oQg31w^h7#VK#8HbH1keZgxp%RqL%l
zc-5gu_TiBIaI|#Ign8at94)V&FfCXM!q$RmXV_YL*XqF1^G@%*V_nUWf--@qL0K?d
zjzuh3(gmYmZo&9hUN9@7&49w-eZ~@Dyaq8Bj6hQ+`k~edrs=0!BA=G1O9U$e;%>h{
z3yv)ftPB%d8RB7@>NX165yYW$S_Sb)Bpt2LOuY<h;$okpT>BBovmRK;uL<LSTg|%{
zZU*K$=bLu3S>HD24X@fA$=(yP@A>Iwo1lgb{}#tUJ})Or^QRny)KRA3vFVqg`$5Co
zRbW9gC<76!31w!zVD#gGh!!v;<0r=Sg=nG-bjD5EI+joGH7d2|q5Y<0a?&xAT&mhT
zNK#B^i6BdO#tgkAOEHox1$!b1-!rBsOcWqOl09q<FO!n>NZNM*fM%D)^KUQ(%EEl8
z1<oaN{xcwJ{0TtO)87{u75e;2fsEQAKB4XCo(4rYN$}9u55`qV*D*3YJS0LM$2bD7
z0MXS53FsiqL*{PehGft`BzCLNnZRpL|A-eNb8t=FK&w4{en|bgl|m&Z3e}=IQK<F$
zdOaik0bz&G-99wv>vq+%tfFV|oXl`_`^BDaZOXN-dZj#Kk$7DsOzf8P@R87F>XwAm
zjRV6yjUKTta0bHfzMgKErpHN<2{t0DK>;l*;*dvxf;c@%`80W$=u~PJn5)Eb7fGHI
zvoS#?PZiv%<QAxJ!ZYJ4!143BAzl&n1n94(f_9gciKG*uQ9jjS!R!rq0^)J}VDJg}
zj3lOvGK!g5<zgkJH1_oS{e%Tnawt}a>Qrdu*0xvTXB(GIL3qUfeFT7FMY>Gql`p^e
z<&gDcsO)6KdUE2+jB0uaxOO)qTgG}bt>GM3B%^M^c-N5!YHPt>61JC2cZTh&XWBk8
z8Zy)F>kO$K`g^v03%0hft?m7ui0#;-nd0yTpVM@!*UjX-UG_%V&D?N#%Um^rq&Tv5
zp`<=sQa{@nE?Ixax`Crh?bfF)T!DX!1gBRLJ!vJ7T;j>dY$gQJh@T8h{A65NoWaQ;
z%{o)b8Mc@qdB@rT>(dVohXmIo#vCF^))3T*1ARfCsOD&aY&xEA;-t1us67R(BLo$Y
z4s?nmKDI{(xxB=$shsaV)XAHrY*My<5YT2N=1(EK0jrK+_lg(#{3w*kUr4mh+A3?O
zu=zYHnpTPe|K^35wFini-@qy2tQlxgDp$LeOadqAH2}RxZNc?>9GW#tjaR#+bORFK
z6lp|=J<R0XfU-;dGP(B@7J&E&1q|Dp@J7w%{6sx|1+ygjPR;wPh-Nx5F0OOx3Rf)@
zG=vKppxY^Eh!pH3zOi6(KV)_z(d_(}4w1~RK$6)BtK$U}v}f5;{0F=!OA+shPcnW{
z#(!9vfENk}Xt)G<+hEEV_`f*b58R*3QC==2LA|)^GdW9)0V~%sj`C2hMN_VYN*}k5
zr7Xi!THjT$`CiZ>&tTjAlHr=+t7fwfa@$7EQ$C`*Y-QWW<jKJvRc27;F_%bkm+Yei
zX&_+$r4*WX8PO;+NP<AEKv4bAmmm{dy3IKIDUe_gn@swJZHl*HA0asGSZo`$NNRyb
z#>`e1<BI<m+^UMWboo7-OoU2A0h=fSI?Bi?bJ#BK!#cZR5ZPuWkS!DM+wjh12v1XN
zDo2h=GA=-%jV-Btn7TJ+<12{$U^2Uy5wqtfMwe!XJsbc~slj{+03?Ete}#{Jf(0B5
z6zEEXh2k~g;x!A!>%ztBBE=gX0HIY*9)d)(Dq3DMQ+nNb^Tb@wcb>Y{8s4;j;$Sqp
zWZD<Xu82Ub12k9pp+#rUfeLw{ra4^G9I4rk{OL#a;mnFD+w_TO)tZ?vUOhLLcdO!e
zO5V4Hw{}b!qs8S5#p}bx>*pSMe?zEveWduvLgtZh=8+H0l=Hq31wx~gbyWZ9Vm4a(
zTuW2ScK!F(>06pD-&>!G_vB)Sdq}&y0_k1DJCb4$aA&myA54%fnYms-G>n-C9b@K|
zAQp)d#!Li1w&UOBN>c45lW}?V%hU$>lv0}owOM|;+D45oljpHG+TC*=9HInV{E!Kd
zEs4<W_4z@vF>P2kuozQ}d&JTDcohIkuPoR&?L)l)tvKU60bB$W*8?!&0clROzfVwA
zmPCR>>eVe==mP*brNXcgq69#PGDt$eOxYr&=klU_W)Q;JXceil;=9lJe8cYZ9?`GT
z^+X`}09L(ZQ8Lgsh;D;eSf)@CzMk_92Y~7sY3&&a43V}}2zX!+pmcekNFwZZmr<lW
z6SJUfPtO@yEGxB867t1tnn4w5KgUv)W@`4VMaq^a=ZodI{g^CwU<g(km?t+)ORz}V
zrb)j2F{<!SAOJC&!M5qzaPiu?+)(k_Nb#ezOFQ+_Hg!0|4&j5%kKQ<b>-e8M^}VOQ
z|3&P*eKVcc+iqvp(Jt-OV?(VfUnpq|mo(lS36(TPN_J2YC-hp~#Rre<x^d!G@1G2O
zZ{Yhwnj)|<k&;uSL~O_pvGhchF5X3et*5_Ko=kk~)dv(hHkmn0AJ}}2WKWk|t4``T
zRgQ;^N5X`JM?+dH-Qwo6=?Tg4Q{B=s*#Y!VeZm8DPg@-33@%gfKPan4!SR}%rQKMB
z82DC<+ft3fZfN~9D^@9xArKIlq`(;rC_AIp*Lb?IUJyqHxylX-Vb5uw-vvI|C$quc
zM&Xce6gx^(cV5qs2*fZvG{{tq$_~-&I=(5@eGp4Q*~CUOoCPHjNuIIpX&gkFWEc`j
zDPpN^u(dE240yzI^qGX=u{3o_!~TmgduQk)Z4*|QDivqaV=cNGMjC})Rm+)2wEq$U
zEdNZMJwIeCy<1fEYQw~#XjS8PEx+yfjw4jLYvRzny&MKy3sxa)6=sTOdvEs5TX#vT
zUD44QQlE%h=+Vr)h0OABX8FvT+4FOz8{>2SaMSMh`$C!JcQQ}Xj(LK1OlEP&TC{Z8
z6V7GJJ{#e37)M=-S4>yTJ;pv=kKt)7Sw@$tc*itme#LM(-2~mmIK>*pEh}RMV6Q6B
zub^wkQWzx*-HD{rPFJN>UPDsqR+T|XxbQhW7PuwZhEv=B^pB)gr+{i!Yt@gLNU}7Z
zI+nW9Rvfdg^z|IL7;%fH-NxkY{(0(<xAQwnp92aY7)uS1kqCRv(z;D}WVzmW+E|*H
z1E50$Ny6hVBAK5&UXWQPO(l|K)2yaaWp`&`OqBS@={5lf1;8co=d)5`tZ7OTp0QN9
z=Qxp~r~l+$E&YA@W8!b<1WS)`+&pf&05)%(&ac0Km?zK{fW)GU#wT<a^oj9P`pdce
zi^~%HLj|_&85-^bs#c&-Jo0BErEYc8cLT10eqjtcv+CoNjZ&JHD3R?@Bxxi_2ogdt
zWvk!=v>H{V0G!BBA!K*|kjJY*!`+JYpb8V)gJpoMBoia~d+*Q)Xcmw&9IzAaZVY-m
zAl`r(uOHH`o-<5n`OJ7TP{Hshx3OTo24xgD1ECieu(2NZobmOX8y-SmxiFG{g=BLC
zkQ*2Pz4rA(qKeuZgCy{yCQz{&sh(y;*_df;M|uAEjM~qMSrbHsu5?Zgna%;Ta4o|L
zEGd!r7Fg(_&#^QJU17xOfkr!)BFQ~tX)6E3?Nw6-hq#TJnaMw5X6l05W#b5f;6A6L
zEM%|J6Nnj6Vay0sOU%|kgvsPHq@k^BeS^azl5{ZUVBK&ljrZG7AV(}JGZb6pW^>KO
zhzi~1mf9Swl<BXPQvD|s?EgBT2T)PAuDWiasySTM9I4v=vC)v9_CaC!bk20oE#vnb
z6MLp|CimZ`*a_Q*I{f)CO=r)J7E~-0)P@UcBL#J^7fJ8bPnn{5CDVbc1K@^o@}|$;
z&Z)gyR2iz;w@}p<t|B2~)v-uXN66W6KZVlYx9du37K-b`#r2V5SXULLx+KyMTHlRV
z8z%Ndiz;V2t~X5_VrXl@Q5JTTMPQ9`{Oztcy54;1wqxDhJmJ2<kh|tTtyy<t^UaEz
z&n!IhSoo30B99z+f78Ej{?q0^-yT_Waxuk}pM76v%F6yIQ&;AiE&lH5h0XiJoA*ab
z4@?~Sz)^b7S#YiW>+R@cR-67_&S8i;@e*~ezHfy@>Gh0X&RFuP`Xj3@yYO1s)v`#|
z>JN4Lbk|#Z-)?)O?ad?XM>I3{n(eA>`p|r4?Z-xZ{g{&6r{Kd4=;$Ylg&4?>59;OE
zPgw$%_fsa(`bOH`I?L;31n;fQ-MiiVN9OFkYg7Ix-%9Um&3m`n{%BJQy>B<~v!pID
zf?%lJgz0@j|AOHK^EKV1L3~1`V<!n@DjH;FNM=*@*HHZ^Xa)A5Bp6G0ye9R?9~n9X
zh@fK6S*!e}{$&WUNK?Kg8T!;Hla$&g^~va48IioG_gW{+6Z#25uMvkbQeQM1bdzSS
z>4w+vq8Zxp)ZmX5aQia>Zw=gLBqtb1r9c&CALtbT_i5V$=KF<ilKOT_VqYSl3HA`z
z7>67NM*OOv)_2j<6M!I>179VNVsmq96s#YL<|w2Fb!hR7Y%Z<>d~pb~&>pPsP|R`F
z^r~Lu40t#QggFJ=C=MXc5C300!N#Qdpus0nohWh$k|i3t8F0Nv;fPQItq8KLU%Z6i
zo5tlxO3asj(jt>HFt*XHBtFoHR~7R|%(;n7Ajg=9m2*5QF+k!~Sd$rpoyvp}B;C_L
z<R1ac!49q9Oc1GexJ@DfO~Q1TC&grn%deU7j5@Yd3>S#u&;oUmu?^rb$kvo|31q?m
z3_&K$F%uOmG6X>+u3|HD>Cz=G;`&9zDzKY@Zgs92w=?A7-`PkX)?k154<q?c0KBcb
z^qd9z+OU1?&7!#zw@%E%a-pnhp=@KgY-6NsGfA#CUA4ht!57Ub2<KFO;4GNVow3Y1
z-$=h{gh9<6=SGrIZDK3|*rdl$t}7*$a++IXFkBfk;um9@#6f%(33bLyg!yF7Na<J1
zDla6qjzsDeXOFtO1z{KKYRr+)J;fL=AwHivdI=?bdP(<T2C&ZE{L<;*?6x^mB!9=m
z{-`5A<R}9U2$dg+<Q)xV9*yReUhBWwKeKiAR3vZR#A8uM-fPvbH(hVK?QkJo)Y-b=
zJQQ{wdjGMAvvUzR4S2zjl?{bfo*<coPo#ZpN=e=Hp;MQdKGAtOE$YabG;w}O0!wHQ
z=am?cC8^nRi(3X%ShnD=#sPF86i`ax_R=tPbajvsJ;`$Vn5LMPo>p>=g*hZZ=`;jm
z34=(wkeG>5;|G!VTwy|cPg0k}QYkSbQ<TFVO3W4-(=sGZw1Y2&9em-ciM=l$BrQoP
z?=p2!eh9L&E`JSmu`bJBG=CF~9aN~FOiCgT5Mv1x6Nk@A2^c}_YQiIzg~9%J7;HMp
zKo&;{4@8xj$Zt=G#!r8f%DyDetC9H7xF<X^%n@w?f_v<V!=y=T6%URXzOo-Is38bE
z3tXDC)n{|%64k%Uq*NFyHKjZ<Ng1gn?DM#J(4M?(V&%^ktL4gX5HPQj-_^e`Uy+u&
z{1=SYUzl__ya{y}s1FHSfMHAcJ!(i~#4cwiXV69s5_@LyoI+*Np(AxKfwl1slfYDE
z4>XnwM`g>k1O+bbEqCAy1Wsp$V9nMb?Dq9|Ap3<xO16N2CYa7NK)ggO8Y~ko21Fdh
z0_qkaw(1{^LpFpd=;3Hw=!Z=R6Lv`$6!pNE!(R_g7~ACyLl9FF0Pyj%T`H-;i{T-0
zV4xFD<Fp`|j<7<Zls$vSFcRT3&=tK(y#Pl!B+!YBq%9ljB{O{~DX?EX8AvdxJF_oQ
zkzTNvlO9}*j`Hb{BcV%T@7jan9?sW|3`3aa(~LTyQ!Tqj$@_&7a9pP~{GS2>8->06
zAf?1Mp7H@f`vg`jWzkHh%ON&m(TO7zT%h101q3C<%M_4YL<~@H9zo20Y-A8hd~SId
zGY*XO$1MIYjbPSdhW-F}!I4vLnAnf>yCvKfONWeJq)xgq<Gxr%{PJMX7iO`n2zAx4
zx)bGsu`E6?sx62=SkT6;WS4x|L4ewbfN^Lr{1|_6JY?M#D%}>bZkrgto9?{go^(gj
zOFz`*q;7i4{C4^q>2EsN55V!)%dVG23c;FXr*E1v1NC2PzS<nhsUl-poNM~>*T4L3
z-Ob~_-SwTW_wpB7I>Id-^L3qfi>kp+6>eWNnu_zlG3Dk#N)P5}=ht`642G(A-K*I&
zml3Yn7jjlci-p&luQ$KG^ZL%&s&Cibs9UJp7OvYCsoSwow<}z?E7bCMr0!UxxZ`T;
zJ)U%`^&YsQw5w^;8(-ggee2BA(97M)-1uP?TKKUMUHF*#!2;F^utfNMpMp>Q6_~o&
z+}3Tz-`^v&Hkscmwc`D~CUfhS)b}=~(EB#?UQ<ePKIoT`8Te{BQ_P>yb{B?tpNH)(
z)L+4ul})MG?sAQbB;=9keMs9S1rt`QX4~}lor~LRkSHkyf`=Go!gUh2@HGZK6`8fj
zw!u77qZkja=GE}Csmbkm_mM%bjW*R`3fd@WpkRsZCRxA6+it2yF?c5x>Q6D;<?&C^
z2B6}x0U&aK)$X+&S9gSM!ds8cw%)9quY81AZ?-^*yJ~+V`#{KkAX-*AVVSp<MAf4k
zVQaB$vAge%wPGn*L+mXhYY1AbuuT3rEOsv_^T<d<#bTEaP~z(7OlH>20J+8vLz(y$
zE%FMbB~X>rUN>RlY0gF3WbyNyhN`7A@~SRGi8@WQ+lox`>;|rlUmXwID&KwVX6sz#
zeEp+rcDKxJ46k}LlD#Wr-}PCus%1ZEMhR$q-iBrS(QHLomUy&L!i{`(G&^dk@rq;-
zwX%(vR1V=z4cD(M37H!BDGbEq691X3!+7;d2P93kUObJ7T51QzAcqN`sH2>5Op!XE
zoE?&We~A_okpbKSBwIN<bn~$g9Uy`MN3z44;un!+3C>{4<{$9o|K~<vzl8ntkW2kx
z4ZrwwC0cz+v7ejCmsH-*YVRejsed8c?(?wp;yqUO<-;75MHZ$yqJz8K9!nawWzNXL
zu7#3Oo+oQ0^*>p|tZ+V-ACE<`jijHcb!m>sGM&EIjXesm!LX5PfX0AHasxDiC@~vv
zC^tGgg%~cd>%m(x%QGr2;V7Hb({TbiZ{jltI;Aj1NjOGpNUfGkQC8Q^G+wW~**oX|
zPXDdW@a6+h`Dd@1J|D`iirA}2IbWUB=&bECjn10F#Z7Z5?;AtKO_Acm3z>(*nTJWB
z*QOeswdp?<y=Z6L5p|NF&{2y;FS@auH0Lv9u{Dwsoen!DH5wZ;vg06%b^!HBkLp-M
zl>=OMG2^o&8ia>#2c-W=bqmxE^Vy%S9mF^$JhCJOGA1av$1Nz;vT~`AdC1-}^dqN@
z8nfCqctc>C<0cqW_jqth4p=^pj@Ou!X`~j6$|IS>DV%=i+F_4BP1(HNfgzj^Ip5dg
z+d;g0z2K#D5YjtNg1S#Zlza}{?2dh&e!tJ9TBEU?l(-(;{b!_uQ4h?(A0i>0RToFy
z{P@HUZZqBkA;ln$&A8z=Du4zkZC^?!@tz2^JR|?*68`$qD{QP_y#{M`FYM>2zZ_s|
zM^Gu4C<x7Ha>7~Bqr@d+!=+S6!?Co!UdXB0@e!u)<_Ap}k*2ESsm6q48p``2+rmd#
zZVWfI=dI!I!i6(K5KHkUQ<>605POKV6yGm-tf)(DFr>tonnZE)LpCpNZsk_SMJ^pW
z{+a9wpyP^bAhly-tIC+hTU7vWXlP)e7P>T?eV0z5L!ibES-I4u1U(E%f0=?`?7&;h
zfHlNW#kVLP=d_ih&P4FB!#k>4UL;h(-3X-Mjb;-MSJV*552i|Do50XF2o3ye#DS5i
zPiA_oPu(ROHPT_5(y+aBIxuq*YV4D5oSY4Ws&?KyAFkSY$Nnh!l-Z@fx5OQTK6R&r
zM{qX!$mEgf)*07K_1msDT(g~_)!T2L2(R9L$G(HI?}V;g>$j$c{MO`7?7MPc^1xIe
zWUrn+AF)?c${LOH8ZGBU{RN!*To3~(>5?M`7(OPoiqbe5`Wz91fgvcG{e%aC_hruE
zs}7HrwBxf811zvVt9Kg2U>Nxxnx$+82{Awb%%!Buzzyhx2wyyQ^tc8&EDu4MVGf;N
z8XENU^L+`LOfh<{PlN%I?K7F^z>SmAINAoRW;pxf07UtO(><^@CP=(=^O<@^yq?7E
zCs|egDmtHZ=MlQ5`s9uGYxu1=Iido8i?$xcV(Vo-{MKXkBR9{_bVYvJU040~nm5+m
zJTbE-vhs$@zH(^t(DeC<LwA<$HMCiIsE2H?okZ-<NQ6~ML>PHuO1{^i8c((wWnxCN
zzH5F)0!(cK?e}E+46Y7-sy3{=$6&EYW+y9^i2dcH-oVgVA6);_?WsN3Q%l#dv1fQB
zaS3Zqfigva25*pDQL}hw@iUkvVGWe@9<AM15D7hOaoLjdD*Dv*k~NeDXB>a~i8r2j
z^T|8*bp*iICqoo#6A?xA+jVc$y;*<9-b8uUCZLBx?$+$!<iVE@)Azz<kb+5GsKhX_
zg{ob~h@(edP@s;X0VT&^$>?@fFNi71C8ygYnSVzrk1Rmglr^>t!~G0V$ciB&6ljVQ
z6H@Atj*N@k{Eg6s6H1R++#ci`#qkGH(Z&qDgB**~E>i%>uj5BBU78D?;osAAPzjih
zydu@_TPYu)w#l~X)pzWxXpBn#%9=K@@v;?`0kZQqDqVhv>|lHPFMw6a{0hcb%cvg6
zFltIK9;5H%{)Ru;LE7@9*o5;pP-ro$YvyMrnZkVBJgFBOP!{3yglEjC`V2^>B**DQ
zoYnUlCk=i2xAb1vbJO3iX>4pSw=7pOcI66tSA{iW#HwW^Gz>q-jAZVsx-GnXp24K7
zr706eWLg;!3wpj=Rl+B;FdnnW3yzIZ5~cZPj*%sPjJ*0KV{|Z}ST2uQ0t#DuwrFWz
z<Z*!)Hy_3&X?wtGKGevPhugCyOY2xNvcJqmmTW;19%fQ!fX8F2JW3sWTUvrSl46!K
ztBgQt<VTL+v`p+_N}xD713?b5hghsb@J(z6G%gA3nAA@iKypchD0xIATbDJ+BmM@0
z8#qNQS;b;&AEapI8`nBWW>lYAxA%JnPI)~$gYwaODW7UXC8zi??Rhd(haJ^y*0&39
z6waA$Rm>JfT>CERn4-v)$<@bnl#1)Oh?QWv=2)6!Zwo#cI$=8C-w$25J3yuY1Ou2<
zn<=AXseOLL6UQtv=0nj&b9D0SNDXwuY<ZMkX(*xwD(x%+ZZt-QR5D3)6S0agT<Yi#
zs9R4U_yn*FPL(!Z+j(_o#8!T9Rry3KoGO)7aO<$S;~_E;+w(wYOFy8OY{Y~r?q_K#
z{eztRsIy?fSsiv(M+-{s7L+X%)P)P`q9x@Y8V!X-(dsp`9Wzhy_m=ht6!#;undyvk
z3wgeo!0hpbhL&(cOQd1Xyt6gBZT}QZuqwmO%9+lvv+j;_%l&++{eFqA95t^G3+v}L
zg@pAHq2+-tEqy0<^Ym9a`LFGL{mAtrv-{>tHlS74j$A#WZPV=LaKRUD`sO-rK82Ui
z<0ozxeBnoCV{RV&+2#o|mUmMYYMaBg&3AIQNx5fQXR8<L9u3z$8mViUckYgE*)i36
zt?g>t3>sH+$GPc#E~<ye1yr`}>bCi^eUY5ULUve`DL`MliV0vdpkIxb<<__sU}1$D
zgN{}oTSUyD6W#{*iFL>>ewzXZ0<DYB6faM!%(nFV6Pj(>V3=$;`h;`YncRu7h@&QC
zt>MZ}X-^@E#<MKxRbK#lBIM-NGYj23T9*7thJYrKQr({b5pas;H9T)6JWsu8XRdL3
z<Ra)Vkw64q7HiQ++WV76TE>ZwxE1l*R!Rx{4VptV`sV>TS``{Y225hB>KZ4R?XlMo
zNR#W6Td&s*x{|lVze-c1ahV!z>QNgUk&#xxb9&W!>}(QbH3?)Y*RP@`mF|IS9EM^s
zlIGx%G}__v(*gg`gJcyf?QaOYI?1;>q*ypP06@$ji=X_q;NU7b?DN7ui=3POE&<3J
zFeHon5XdU7r-7;9>swjU$)-ak+$4t^#W1bak;ecLf?z;wZh7-vyx%ay42^5ywGz%T
zXksOB^=az%)4oC9#bI%0uvI3%+>)g!^I7e7t6&-eA#xq<R?M0eBUq&r2w-)7Lb6N*
ze>-pcP2)F4u04D8*%|*r{+e*!_D}qTf1WEV*9X75*CT?U6lIHLW{NEx?-2aUjj=Si
zbRY*D?<pT_rTZYLg6wc`=mI!kdBpLF+lckSpEZ=`p25?w!5qQa;-fGhf{<>&10xM)
zb38gUBJ}z&i+B+w9$#t)Fa#VToPpuiAQJezjd3$a+lkHGQM@QKR~kQaW1n#_RbGVB
z918JsXyles%$SPIrNsXOfp!YT-$%sfGkF;_d8<&IG<k>S{ND)9z$4p2&DL<u)`k4$
zaNZ$l0xPTaL62ly#+JS8WSxyz^20)^5gExz7^#9;!m9GI;U_yXOqOQk8(nGqkWXR9
z@uNqN9P8|GA3fZ1puKbN$xioy_M^u;JFuh&;iVtzk_^K9F%!MTvRkEf0O86P_$ToS
zIu^4GojMC6`B<hqVU^>00CHao?NtTRX@rkN1h6$L2ogmT%S_w|!F50N-qF)oe-&ke
z)Pc!3cOx|8U8sg%*H$=S#8$Z(n9tijpR@h0vxM*<8G@bEe`L`WuK7_aVRgF>e9;%b
z{zaDh&@JzL-l6%NL(F7MUwBBrXf%?|7~x#2&RMjOQy0#uo85TR8OhoFd*(Us@7h8+
z?YGW{bJ|1pc1~Ow#P_K4e}q8d*ErGhCo~3xO+o2!kt-!p+&?6a<$os(SdSE-cgP*m
z*4ws{yE%n%EeP2+|Hzb`dPIM}R+kAc*kwymqayd*jq-3y)-pWXd7W4Q5*F1ZK3?W$
z4d@W^7Njymw#Z^SVBnfO#|mW`2&zGP3b_d@3vU#IvPi;`ST%mHP!{8;ATPn`R#q0?
zcv-4(HvGF0bV+zr)T$z?WJp%^RHvdtps^Q@0fzO$t%0CSncFS+Np1;PijAZZ_RFr9
z0hLAhw77!9a4xS;a*xJWzQFetGrffx%+u3@+YSIxaWaKmNb>6sl<b@wx1)26-VT=6
zJTqP+7eS|42H`43&L+@DxTl9he>xHAcE>VW<Zs+tC7pf{i9-{~tH0I}7`HlYrBAOT
zNOS{c(+oo}J8=)Y-TAahe-jzm9<>)vw~{_NY;%!4=c?<gX2!#Xo8Ya)kuw#9SLSGb
zIf&K#nowp<)RsH#q$FWmH9Rwu_+sW@IIoFLK;%qan0z*hgA;+P<DtyTpCakqjFPCm
zX~DiZY~TFdz+CHZ1s5JU7=Gm7`>hfC<2XIxV2;9Yh8Rtbv!YS9(m!A;5sf*a?*)|!
zT5*}hn~dIsg}6kH#JMaqsAtV&R3>g4GhMQ&A`LB72I<l=bz&PSlp#7GJ&2`+lJIEG
zCqZE_so#$8qsB4QSDGQZp-r_JR{V`B1?V*=qXAXAFR4gE>90y>%OijT*qVC17D(9O
z`<NWPEC&oANXTAJ>@;Sk?GK-|`pcEc^YavNJq$Nfyti<&Xf){pdGf#{Jxf4>F6C4q
z<#440uV{b(3<7DNB>(}{v6;{Vr?DVkm7Tln#wQJ@Y%Yp@&y3+E&)%xJyyiM6l^%{`
zPzcG;PF}1;@J%dKVlke^vKWUr0v-rxh^#oEX4s*-Y$r;IQMxyPu3~0_4*r<l%W#%t
z`FM$&so8KA0NQ=#=r35KY;>jjDvhg2h}+$CegW+OijL+M(ZMZYN*~S1pI-O%t<i$Q
z>B{RVWZ1zka9}>q+k@+22tby-a8lQITDfsXqH>gq`ISPoE@m$fJQ$yc0Yd;mt%F|%
z1Z9n`dW91}Guag2v;)o)5}N_EO?!wnhQU^xv;I?xc!2^Y<{%Y^_-7Qbls3G@Qaho8
z)&Nto*vF+Gh$I^!Mit<$CATtOvT%f-r(;&IVwj3#p!ONcZDFx~NkYPyA5J>V<EsYP
zDrK&r;f4nQ8t#wm##8||#yR=d8m=}hWLJc<D`pNxvYRGS?%Hyve6O9Dw^iaS*~GJV
z^D3jx{p!gv811ANOq*U$zn(r5Sg3g<T=U4B^AA@2&Z>Ec3QEc+9-C@?u`QbJ45bS*
zowHwf!yR=vLk{6?UfF$vK6mS1ZhiE3^6nPkjPdo1nUP3A!)yR$H|H&y&2%))jH79G
z-Ky2Rn0xu~XJ<+;=I5&`UvIeHa66|4rqHdw-S(ZfTNUAr`)=3oi^2-&>FZC=ZV0bx
zn%WnwsGZt})6|DQa2DN9MP>*@=)9n$gzlW(1ZBcf0B*vd(cW03Da5W=h89W&w%<Vx
zdf?4Ajr`t9-fDTIj(L(uLTM1qB!hFwq4nApub0~Z$Qzw>0Sd6-d)_1Pb1t-QK9w9m
zCv`t<<ZDz!JH!?Wb|H{<tz=x9hC3GI+W}->gK88my3_dqbb*{9XTceU9oKg(6gPy6
z8zRL`VMkNQ+7ViJ`29e5T}K43jwa^8r6g>HXU&<-cdT`6lsWv+cS5|$Pg)u};i`$h
z<93%HdQrg*L#K$!bgp_vV8qhgQma6V*xha%H0h`A;#Uf2l%XEnhc$@g;vY~zzC1({
zFvsk4e6+6z$1%?gc}0QZt0<_YfCTR%@sdny!acXKVPQLJ4}Ca7K?em-P(TDW^P#|9
z<P6i#OBB3F!OIj(Q}8MU-=cs>AT9)bliq%f0@8wszfQqT3jPfRMBIyiP66#z@dFC}
zf&!u|_$FpRgaYcG|NlbpyzWDT!ED8*&CI&AKPps(OsgK4Abxz1VK6@m7RQqPz+f^T
z1Yd&J`|S0B-C*AFz^XSlELu{{&Ifr0bNK_S#a#FxGs9f*KrooA9$2mB!bPXuT(Ve_
zinu&00%yK?<KlXoxnQv<+k902pw@0ap<gV?G8aFnZZx|VyY*!#ZMWWNE?rDpW#05)
zXR5i9vQ{oS(@<PNuDMPBpmCMixwzATl&e|gX8g=3$IpFwgSqyBwZJSq*qCijdr-UD
zynb;%N?XH6fco8of660~MY=^|7US<MBv<gURNO{Jm!kMY>D06Gn^a~)7a*R1TPE<Y
zBYple#0H<jMG`&;9s1y2>3p9T3ryClF+(Bgjup65;%Kz}hKa3A@&82q;(w&zFDXcv
zw7;e}3XWqnFA`NHPnuO{PUU^0&vAV-B7&Yp+G;N(^v-L6&=HOco=?Tij25pEHy6g;
z&N!jFsPD2ugq9LBKPGyH&v?kg1*0ZfdPaM2n+2V+9X>;rVgu~h6?()zcX9~<E@FY8
z2I2(#BWOc7o)Xi3^U7J+m;mswl5pN1x4zL)azE^gkf?8v6)5F}EC-)_@W4i=|4A~W
z94e<WVRZqkEfP-vfe-c2tw>&hpYmWy`!P?fIHkdo?>WXn4U0pVEoSP)Wq}AKs}SBh
zNI<A&{sSEw73ioxZy$GNOU57q)k3|*xkCsPr5ZpHkY`SEUjSwet&#diEEZI+GD{@)
zR}!(%05T^9aAd8*&O~1{Jz5Mv?=<U+KR`e<7~vfLkTZvu@m<C#@EfG$gq({u276T9
zTCajd{NR{R>mk!rb7)wHWpWshgZOuyTaydFl$s!>)wzkiVb7THD=EZYxE0+VSOP12
zS83AFZ5=Lyr(Rx&M4BAHq0K(H7!NY_HeX26Br!@>672F-hvDqzK4R#%pE;D!n9gAl
zct^ngO0x%MmaSFF#pjb5I{UjdMnXp<E1-TjPwbZVLASCJyIFg>G2ima2E7Onq1p<`
z_WLSP-O>*ShUA-(?ib<ye|WE?tfxl$;I4dRSUT}Zi)Dr7K||E;N`+hP5uCE+D2)~c
zd?;Y0ihoS6lG_|MBr&_Tr!WCvbu)x7`zQE2<PrZ11%%*YW|jhe-`wo(QjnT7!&I-p
zNqAOiFyk@W<H{ABX8_0ig!qVL%+#f3Os3#ch<R(#T}R>cns-g_`ew%G9h;)X)zfh4
zMv?XJI^P|cO`mscj+WF;@0>V{Z|veu{G`8y(Yyj&HfM|4vf&FZT2cW8U0c+a8M2i`
zi^?WiUp_>hLsv0a8MkRnXa(CeU&G7t1lkHj80AiQ;)yUUZpX5`Gvk1z#coiQ^`izt
zK%O_Xi=C5k@<Jo0nmD*jD?qV56S`>{ySZJNj|0|5;Q+rmOj@9-nKEZS==2(CKiFdH
z<JWfqMx7ZN!HMm-#d^Na6Tg8pJE2nr`+#sVTSE<zwiUrT2`sX9^OiOW`-d)&KdyT6
z*NMI`kV>mZ+QrJI#5v+XAKg>N3*pTrZ2-K!P&4^vWyY;)A@LiRfoDydna9OAh`_dP
zLMCF6wf#X|Fqfs<k=0!*MzH|MQ|N!iUq%(j(%ssv6ertSM~Reulpxz;R9i5U?-v#D
zkJFAhiHwkF<w5EUvU%I}ZDB`s$a*kTOIP*O9*p4CQ5{Du&s*!Fw!DySbyQe0(aLP;
zOkw+~s0|(yE20%m6Z`Ji1=<;vd}qi65h~Kz@Q(oW;tW7IG@Q;Ca$m^P-r=gMu~c=}
zWYTLU-jT{Z2a?%eN6gH_=D;<$1~si(BVCgFEwhZypfgm^OtRE+{jItyh8_cRwg^8E
z<A&s|9b+P6+QTH>fdj^T6WlY78(z#qdIf>ulk}|YL*t53su3+DUm9K$N=#uT8eeoS
zQzDIh!Xx(;eK0boktWs;jHqJ1WK22=ie^<a3g#ZeX>vIU=r<0+@2cUlg|&#>P1fNJ
z&L-h-()eQTgmWSnq@s~bSjH{%3%Y6x-c#_do5*ASqO9ZA<RdAGfKusnht|;`iGUE7
zBKL_LC{F3WA|@Y=u{4?o^xG!28mn^LHkmhOqj<DE6%I1(<2KFA+vUD`t+eK#La=*N
zDfPG=btI8X@;b)T(W>+@CHHuSDv2CR_ojJuvix$~G3NM6hNebGLXBnkjx@a1u{5^w
z$;qQl?lTzp4D=z5B%o}3(&Q4LRsV&6qWK=n2oSHv9+|QC7osHlm;<{YeJmYeMgZ%X
zKVunkIj`!zWl?KO)>ciNl8d!;HOhBrzAC*#U74)LEX`LXZ$gcV@zt0EtpWt22WtZT
zVQV&XJZmfqW00wgL8jbxZgi@eeN8yQu4F$?>nw@UR}yQ6=H*ge$=0l*Y}B5uSw%VH
z*_wXk$gNRUQ4XKa4xK829#c|vB&=!7s#P9;SYxJr#Q-;$Vt^F2?C~l&pW{w70b?#;
zSHis}%>9)&v-BqINhRK<yk%d|xt#66)V-24Q3&QrNS!(AhAD#&^rTl{hyCJjizjeK
z(gAi`JUJKh>L)>m(}YZ#&$4F52P;XcFtz2<)G`}t(%wPtYeSimrVNIx3ZPcYRdr%i
z@8t@}hv_1=>Na>0CO(hzap0H8W`J?oV6l6K20*p|3zOW3BVIbXh<iQ<y}pYeS4qYx
zGLdE)E5J=OFYZB>^2IVa-Q)J0_w@C9PWAhk-Iz?jUXqo@S?&Qe!|n0A<($D<j-4fK
zvMPgKlJYge+K;0hKY^?ZMq{{(Z?ZjFQS<h;H?}QQYz$Xyj8rhkVz3%>Oc|%TNJ!m$
z8_q>q_ro>FOh?%1nuSA<=5Sr}+{Q@VuG`KQl3X8<+-;*|<sm|r&15%TBoiSmI+qg4
z3lejMjl{Mg*{di-tcqfp;sg3t+8(0*GIX`HG&^*d9lBJsX&(j}lQRehG|ao{g)@C%
zk;#-;;<|`(QU;fK++q`CL=vd$+05i7&H<Yw@kdnUj}as&@N?Zzg5p|YHia~0ZmK<4
zzubHzOZ_IzNi)i(IceOv(AXMoY>hPTBQ-%;IJ0ib7|N}KYCe=-e<!Em=9xMFZw*9?
zOTT^)XG_z|VD;@R;ItBoP#$IQN$^J7=(KKJH<^;mK2tLR`+<+3%>x}`NoFRLY^!K;
zW3pw;5B8p^rZG)+&@IrTVe+!PfG5BudKjk~@Ouk1R0_kbv>YO78Oj0X9wb9nEDfSn
z^ph!LdZ=qatI*W~!7Y2peGlJ^WVA|}XUs5EzWqaFqa#_`kg`J{XZCb64o)n(8av_R
z#3YKSQnO7hur9}~0WNDy*71;2$5@)A$H9+S26$fgDW981dD)5)KcZsT`XHH|NTLqE
z6#?-Kg0g9yU`Nqd_sAgKG=SsLxS-D;T(jIdNs{>2X_<T#1=BJqD#0n^(#qG*T|f8g
zzytWR+c1?DEw7r&z;dXqfBTs?o>{2b60X@2scD7_*R0a3N2c~n7e$LJX7;?gW43Fq
z`F6wJsH<^0<AZ`#@Y$MG`T&+4tE0{`$+$Ck$GQG~4vM{Bpeuu`A$@ucDsUD}H^XEU
zPUO<L0isCL$0XX~eY^$J`v%doJ}+nVf>{ciBJoH<&_vRxU^ek#;9Hob3>`HM2*Fe(
zaWF&XsrV&cK^xr4%P1qxY>I%y2K-wDNd*CuVmQTI@{yX4K!xTGDb=KnNi+ebe-{a2
zHVtRQrZP_F$L*qoWu{6oSo=$wpF9-z6K?dB-9G!|)RyT(cXDdO+3noe=@%T?`ruk<
z-Qo&^_O2HYADBZpz#N=Gj5z`?oH$8Ks<=m8j+ha4f{a6pnQ;{y);8no*a{{P#x)?c
zIJjo+kLitwotQD$H!OZaKmQ8_Z3tZX+#b1teed&L)U4x2DAC6h{5=JFz-xF<W^Rm$
zpN%;PywRl)66#?%jW8TAA3Kc!yC^1VWYys&Ya|!%P*FxI%EBF@so<1v7iwuYZI^^+
z*REY$Nl=9Z!SuL6yF$aAjRo-cmvna>xB=~@(bx7USDr!Dwkiz(lwWvuRDUl$?;HN<
zjr=T5B)>kC*AQyh{oaOKf$wj<wdVcDL$)Jy3mUF-p*+x}J=&^&Z_oRt?;nWlZ2v*l
zk(>Uh%7yIJ;q28j8^YN&v(DL`8-?NQ^|!N*Ojx3Ijo)5#V-3fOk-F_a$k{Qo0sAfY
z>cQJNJ0`5yla;k`81`ecu>=+t2>vRwjL<AN-t^43a^LdLHoy67r2LT|WNn#l`Fhpu
ztSw>tmXC}`7_t`pIL(}TK>wo*b85klGcr?a?$_yXyr`%yTtquGwQl0z2liFdXYbfu
zbe5&=uZo%?Me8OU(Tr8$4A;HJ_1`{s<J??Rxbff*oQGz-QzxcdUwJCzJT$Qv0S)1%
zmx9xezxZslVAZtex)rX)atp6Lef8;?N5i=rCiZ=hTRgq@m8U26!EmgkVrKK~qjRm1
z;uZ+L9K|6=1)9D+QnO{Q<#x@EXiixuXHB%YW>$aw(b=Kf#XCaI_PJ*x&h}98j%eN5
zDa+Ke;mn#3GRtS0?qsfqRapUGPtj|8aYbDL^V@k!e=oOsW^85<4ukUMtf5`U<~zO+
zI{C#&hdXqvJCx%gN6x2cwhFS5J-1-m9&uK^n=^ajo#NZhjpWqXgCa^_^UrLLl&uYw
zuDe-!%QAQI)-&@RCqiF%I@0mQ&@p!?r<=<0z#;U;zpX%hH%~+==tiKd`m2YgTBoZt
zI@YQg?;YnFpxmr_ERW2bNOt>N>%#W7@b<R(?Dly_d$eWmLd&sm%dsC6cHCSuT|HAA
zDQXB6c1&3i+^wvcwY+)g=DORJ8>h}sd#;X#G9UZBs#})dZNLju%`n$5-86B8l+NYz
z_SN?f>2;3M+ZnEpj^d>-RCp+oaX4f>{K<oJ23_`1{U@=U9iRMl)|OA$+W6!_mtL29
zSpUg`ExMvky?-sX%lE2_4z4x*VOiS2O{VXsl^uN4`h8dG!RE~GuQ%iUk4*MM7So^B
z*bmuEf7VPfad4H0aDuIi#Cya^SU`@;e3M`6S6Z=fVQOHaJ`x`I&Qx%{)_10A+mp;@
zN2V^wi)eEDowH<3pYX`JKsVrk1*1ub{5K@C+(D@dH>(!IF-J069t~~M#5`W=y!cNZ
zljU03vE*Wc<h|+8$zCtpW9h@A%r^q5h<*LRI@zF^fkD_O)8#+lp_q&QqodqzoF#1x
zZj;lp--<|5I#+;9k{Jm(nIQfJ09~pKzF2JB@!OwaH24u2LK@rv`~tl>uqGsz`!Kn1
zGu#t1u`5=N;d_GST`gLcA*wO|m0<Xr$U`7JZz?eDo_93d&4$z8Hf%2#lfvfn%FY*e
z!d+N2vkfpkCj&b^Jp&LZBj?J~lTW|ohTHnoP3+vux^UULg|gk@vfYugR-#yB-^hw<
zLa6m;o#Eofh2jli?w}Ba3>*}q1c2yF=Ypdgws#?G`Nt_sqCWMfqn+O~w%B%882_-s
zy!(-q8-{kMGLouGX+?2uH(@R@n{Z#cq><=>>do!Gp%?!fKCxpU5|aDBDJca{)3B7`
z<tL<7wVJIza^{$Y#kx%M+6R?S>Y;J|anO)v=2uj+96d;^JhXA?VMNgqJ*&ZMe2orx
z;OyV?X<a6!S2feogjiaK?@J>%jsW#lur!TOF^}kB?l-vjTUHah^o$x&fCf6qM6<NT
z7k?AKn8lU;lF`dGb<`gAOj^0#Z;YJOqo4G|>HZWz;x#fsS*Z#(aMvQc!$sBb$t3`|
z*mzkwy0wH_g9k!bnl$#n21SYmQ20faQPGrcQtwt#%H51JkBZ<+E=$!~qAZzbHN&J%
zcb53wga?Lv7O*tZtN=im$Mu&>OuA>yr%4-`CMUmqSiLy~S4T;$#mzYo(4K3>(r{?M
zdyPTllv9y5beY;y=)N6I?I{VhzCgBbE=#+Zh8jg11qx9g6zPgo0uVjo=rGPpG=g+h
zSBc=^`eo=>)YB5msR+snGIrS0a}EGU_Tz!GEObwlw6tig)z%G+%JzLOSEI`={$~sc
zR}IoN2b`k)A;o<kK`hlb2#+A-uT`Wm<!(Sepf{p$aa0kPMoK=S{*EH#n+TbLF@*|b
z>JH-e#W4y_QNT7MIZl#EP_42sNA0tsG5jC2N&f~Jz>YDEMrpKo^|TAhL2Eiw9!?j}
zoSC;a-L+**JQJ}MPk-q)+*@|tw9U1AC*wWSeAV8&*_E&q%OX1#BLOxe02?mOsG4~)
zQoIf)_t-J<JyUt4ZLEH4&Ag*ADpbF1f5ZM}29YS$SNDU)%#jbh?U~J)JvZ-cj;^k{
zdWguBYQVH=*Ua82)1A!nzb!4Fsd)9wl#TB1$ol#tcR}s=XCHs#!kgP?8mA6LGo9BQ
zR~<99*%LRPoX>2DR;`_BV;MipM?08!;f7^-Q0Js!%|)PvXXN5tq~H@8Dx&cjJR{Q{
zt8V?~k9B$G^$#du#j}(>NTfV8yYwt>M6d*onN@oc_GWzEDqD;&n3e*VW{F9s@()AM
z=1D<;`{DH&y2O!F5;%ioNZ_kjQo}Vft#Nbrmo+QCjoFh>8Qrp3Iuq$(Su_8v9<o;*
zftzOG=qN0*2HCD)R}!YtYEr7AOL1iT6UZr`NrVoZ{7U;yqij;(aibC0KgW4oTLY02
zSzQ26v$B?NUN>Fy0CO<e>?Ph^h}?$SKGZ{Us(N<eF>@HwOqx(RUSmH)JUaA!+=@nZ
z9LL&0{bC~}w2kuNsa0%AUGaA&<D38v2}pLTemIp&_)bMJYk*q0C~{GaWXe{nRo%l;
zVtOb+BS;sBRQ$pYL8+T2srE_yJj}k;u3K9#tXm8Inhti+WHas=(XOX89)+kxYNjMV
zt)<fIg^NiVS|Oc0rh3>~z@;8!GocwljI2nq4S9)hPuMWuQLUG$K6+TI>IITd;sl@s
z)mZIv-;y+eGG0WVwL|b^pU~7Ktbe-pqDxpK^y7~*OO%`*$wT=?_95;%587w+Z;@n>
z@m4yjTYO+`U|5;31{TwQ1^5mYpun)>z#x+SG$bkvdY97PCo1R$_twD8c^QzUsvsES
zj6Ed@=BOJ?ne!$j^H<_4z$+l?<+Ib3VQVeZ9y5Ci_zZq*^2lT>sfwi&Kd4f9ATH#6
zI**r!>k}}jo~vV-A`<E=#xf{Oi&C~S3J`8O#|%*SK^;3z3<j=Vl$0e<n=pG&h#8gf
zU^bn7Fp-a?^!dGgr~3l<%4CKj%H~2CHbTTbVaB8(T8)0mR?f8SFhscM+wI;+BlHN8
z(g-=6-{_jbwVI6)$Jz-K=;0qYwoV&oH+*~BjcvcN<LkzdW9x(o0XyUT$pfP<vzZAg
zr*k)(e$%ws6t^G<4YCFCZ&7s|_oq34sE|lIG&){out1DhQA)z|jx<H`U(RKLh$>)%
zoivY1*r_BOWWYrx-C#-bS`e#{eQE<#sqzkushNiSOIo|!Qu#0Gx+QHLEqtS<bqdLb
z1>wMgfVNuI)vDT4jh@bwy#2{;gpfC$JnC|L<i8*!Y1Oc2R9=M8*zrYZV>A?uu3#qV
z6U~?fkx^Epb{329GnPw-7~P&zeq3TEg5U$ZhR%u;Sd8?tP$rUX%Z4LFNyYT%V*0+A
z4S6U73il@%kC3fDm{(wz0k>QB1}?8+Iesgx<hM~a7BXz|dtTc#Z!5o>TlCt7>A>sb
z*T*9;#LjJ;^+OCrd|e%mPT=T14l=$~G2?j?P7GWmk*)*1la+fd{c8HOccFAkxOB^0
zPNZ~4D0AoE*3`e-ant$RtG=@;((q`cX4en$T4u^24_x=n^P#+!2^)gD1r=|#LVon*
zT;(4${7%C{b9=bCJ<@zM;(9z%c`Q=UF=2W+oi<MXZave;{b5@6o+1+;U+eOe5$#^F
zj)J5#5`&Wz<kJ{n8*mya7d&61(OmLTn$hh1ahlcK$@Oa@B?Wa`jXyNBm^41L(wPeB
z2aLxdF9x8&NjF05(i<7?xMLRBzxu?0_}@`k%mSAdP<r&>U3qBh)5A{AETOxMTDl81
zxx_n~WIC%AMzx;52k=c!XOYb<IVlrIKa<*`k{*)UQcJB*1K4C5W|`i>Dd2xXnrnIL
zjCTi&5(tI5I>}tCu1<R;FVkN^K2GOvB&VNs%$Sa)Cc2DI90rh)iJUI0Bif;vNWWw>
zD^=UbZvo)9m2pckDvZqZz($=05!>CZIZo9ro8y6s@jx*HD`(-e`c+GX$s8V$jStlz
zcrsw~)jov#L|E@1DjT;l<P94cl!g)((8I%kTdY7jZ6xuT^%6;r`_z~Z7xa~uOLw<R
zy(10h{IMaR9;99<gN+}oFlmgW@}(w&xMp4{HMh&iD{dJITW%m+IVhXJMe`szd2W{2
zgm}V@%|RS(4mD&0w>}v5^nv!JnIx~Dimzzi4vDz^pOI?sIWt6vLQA#NGOc}v4L5Dz
z#HR*Z_<T(>QTcoDw%#j|_4UFA7vJ)UIp}xIFs@+dx!ODzkKzY1ZipXWN;keVijmf!
z?EB73_W)@)4A#~smu>5lHT|Nmf20OVO)w!o&$-cKzQf0BT~9CH&?jrK0_7}6rQ}O0
zcnE%_9tZtsYylp60!cUrg=>(e;7R_MxP~RwDQPvs@Fd=oCVmLs;usLh!_nc4x5x%*
zq!5z~8?ito;&75o;W;E4djnxvVklx34)R0+G4ZNgEx$oCsqh<@2>;d~^RoN~vsF!z
ztW!D5!LYwrLiHvJKUiZZI6(!ISda-nYRuM;kKz1J`G-0LT<}4uaJX^}6+>qUIJwY3
zZ;c4(V3>@<fWFPlG$3Xi9vbEr3{3w^l$p4RvXH<zIXWlyZV5Wqh*5CpM%QKbSs)lz
zSe&jD<=~AamU>jaS;lh&Rk1b0SvL;8=}IlKj#9juO8#q@!FM;iPl`kj>;_F}4hT_n
zGf&kVH?i{6ys{Jow{NktGsI;}?gN_1y9fJDmIGu*KzCJ<{(L_i>G=3oQ%a(HPMC>7
z-yo0~a(0Ulbi=!}pWUN}6D;D;00aKqBMiOri*-n7!4GrrbIW8WE@1#=D9|d%a#a64
z%*6{~l5Q!k)}@}2p~E(kV{dYDD8YPgw%udI{K${OztSnE_<cjxaLb*XNoEYJ?iqjW
z%E~rP${c1At*}w*7Z_9;WM)L`7zt-~6b2;O&E(0HY)RE?l1@N`+0a?Crbu|er5o7I
z=49EC@W2;`qMU@85y6n+ge3SGpXy;p1PoS&To&Zz#`a(XTVRTAP1e8xA<N1)zMQyu
zi<pIp#D!+6Z2KaL6TeHr2!dD+9LXuGNOmblLQ~GW83qSqsmhWTn`x_4k^C&@tCWsr
zOO_~*1~`_gY&kC8j+ZMiP?)W(V+9ia8rGrz2J&-AC?AA@&Mh<d%CnQtPLIqxs@~0C
zaJ7bAtx<axboO=3Tf_laSv3FN##`p!-8R<{vh62>3b=n`1{D^aJr9SikH3EM`pJb=
zO*p{3uxe{~)z*1ibJSUQ?cmje6MLciw&yYnj*76oVrJj$-aGd7_sB=85Vi|5d9%6m
z_9ir=sC=PtW4LhR&Et{6ZD7kXxb>T~aL{nlC`l3wXlLjQO;Wci9TIn}X9Iadx^a`#
zAaP!i2%rYD)Nzu8gug?>L<}^<|8UMWIynjp4c-!}U4E37G$LlXmL#*alUrxt)7*gU
ziH_r#+rnVJ+O#;h_IuPonq-)Z@dhq9s@eIBYL0he__mV%k~$u<aw&CSl>10b%EYq8
zNWp7VWi_%fT$chSHap9_{Xw<fTnOgelJTKIZ?2(JyBQzR8*c_>>_HyoK_To}+=o9)
z5SD>-me5{m<o&)BZwihB=w-OnW%XKdBtYMl%8*wYIMmdb6{I7S0E2<x|FbOO0-9w>
z{>kwcXN2Sya+E@-O#ukpbJ)*<RyyNEdkS93#Hc6W6<F5(jCdti6#*s_`>EJNduH=9
za23ZuHfb$rj6&lv5U_-TrR20aody>vP+R@_uA&PDR9D25qmWg%2Um0EN<PFTLv<}E
zhr?1cyO-fcYBF#hv+%^+kI<W_HfCnmMKC)!Ssu=8;+V9Tmb)VCWk5MgUI+?I{&OT+
z>_@_Qm<+M60+H_mj2^yvcqTXEteMy=ec|Al8^P_om)`VU)6L_*Wt$xj*>(_g-pPP7
zwq{=OwUbv*;-33MZycIB8OenV`DMxZ&(8r?Ssz=l(3Zl}Or?twIGsliHQ+Qj84Otq
zmx5D5VKiWi+Yt~ry@bP4<1k7ZBd0fXoJC8Wplbe%Aq5c(??^F#2=L56?F+)~iDb@C
z+8DW6>Iue1m^$o5HWAMFxO!9IstbW~XUiEHiHLN=Wb@(z^@LQ+fV;NbkZo18u$VkM
z<xSUx9hD*L{!sP)2tr5YT}S?O+RP*2f;ACGeaKqRyGz}Z9~yktT_;}nSx~q94V{;8
z1Z+uY56DYv4c?h&-8f4e=9M9+j=Ka}{v(QCq&)&OhAW~?mou1(fP-e@hs3*7v@NNG
z^AG4dEm`h<;vT&T6x^gBDXw5cNx}DMn8<dQ;R-X9!Wr-r3s(;xnNrN_9%SpyMT9e$
ztA_@{8O+l|!^d#+;N-2NQhHE;^3X`p^Z6nUhdjkcdOOZ|hJC@K8vG%dopT157!+K6
zBKBP*v5a~KmhQNc#gJr7;h`T4(QwNDe}iZ~Z<=s95G_7NTk#+TZ3vPu_XP>lrNGd?
z!}1W@DJOB`$+03?RcjSq$p|wQn~9~sK7>&d9+?hFCc%)u0TYs%jXmI<6f2+rk(BJw
z_&eaZP%(5=TM&;6alA|Su)Nop{%Zgq@KqCpgH$X}8R7MlVjF-^W0?=vnF_BGGeVIK
z3^zpSG?qDkj3#r0M?jU-3d3-J0l%?Kzv)NZQXG(<I8zcTz-HI^`;djyL77(`oqTk9
z<GfA4Nu+CAu5Njyc_F7VoKqResh((sX$%;KZ)|)mcd7w=2uF0=?xi=p>%F=0owKt~
zg>21)=(fp-F0*_ha0SR^!6Ael!c1jI<4hS#LwP=bJX4bt&qy#u1r~&EzCepKDY_|K
zGGsE=`Fk3)6|l~cQ1y|B^$5c{rPIOLnsC|rh+{*@x`A&8WLKVt!#d(IYGwz5BzR`Y
z+)C)ifPob|DI;w{E<Ym#BOa%?L?Id*2nzm&dZ!=@Zb76)78Y|YZi(T@VxxjAHfoRs
zmC~d15HE6vnU!R`ryY2q(RG=8W-oc5QMn2W4joxyMmRkPR%=iImwow127n7LNVJ4x
zCYc<_d;_&>fsEFzuS&RTwm*?IN;4pIQ3RtZAn+R4DOpNsltBzEv0>y%WKXj5;P}RT
z1*#;`4NLo{#q1<Ua%k{FS{I*|YEl4=kvkpMZ%*|3`C%YxAr!>{{1KV@n8638b0)$~
zOimQqFtm*l5WsnC-QoeHCF6#|>8iIX-!;#ynkQ#m?V)w;5rmE=&7p;mbyrB(6|wG`
zcou%xrXHWXNdD5N_s*1G-yd;Qg{)O<#kDIIt0)?$V<qy61Wnp0k%v%b!u4V|t<R);
zGM%+r-iKM#Zi4KWbbsr}eraUFuCDYODM_g);<Lqj6bKaj1qEz(kl`t>m}<wVH{Bwo
zkX$W2uo}(PaFRu<UT@B2tDYF_T%MV-d_D`lW8_qDO_BwF3gRWGD*uJAdhrwnD*0N4
zE$PUq<<=@jMP93LmaY?fX@StR{me_OpGru+#8_qW5)-JpGjeqthW63Vgq6d}qX4&5
z;*tp^14Vs4E2C|sKgfmcS~Y;=7=<qQ`Iik4S6CY26z$Drz!-)_UK(&+@p&u_x&(Wf
zrNJtbmj+IxJk-))<xx--zceW7^I00LedmK*tEgQX%m>~7%IhL#L>HG^7Z?+HU2Oe)
z*2T#3>w;A#uZx`zxh`0F6l{!N7ZmmRtc#;V7o<BdwCf^(8x$nBPox#}58*oLVfbN!
z7bfmzk0hTgg8A7acZLBUPQgl=Gs5HYW5f&nTMQu}kqJBg1@{#J^npJ~xjMysPu!0C
z>{j6FaHUEucA0DCTklXGQ332xPjig%Gc6j2*6KI7;xU}H$$8YjYKji{4{c|sGvG`@
zWy!3#aMw40gF7)3*?);$=qTxjFUZOuQfb6Yr*Kt8%*+N+a$+FgG(-eQ&~|j_g1kES
zWA^<Wh=ounuXxfnVVdyCtQgtm&G_CPd}A<Dy?L(ub~UcuVG5jA4wKlCpCUbe+p+p?
z0nUrQnucSf&^}z8yf|%s>DiFA^ykBoL3CvqK*-uJFZiPmx!_rO6zric3+S>!U0KX!
z5>JtYx}q$f%Z4y@d`S!hH!UHr_>S<yBdq9a5Qm@(AWI+Y0!Dr(S@#MpyBeLKbx#OC
z@mWIG#!P<HzYM^#Q`_V<(M1C!2?`;01`qwxSjbxZ^G)aT%T8wouUno^@(ZPq)j2Pn
zpGfCaE|X9uBYs%P6dYeNv3hffBw5s(^Axf<j~7T;K9`9#!uL(^i6!$2?SBuBiUbG=
zVm2Wsf!A$z=1!hq?)8{+S+d$e+TaZr`ux7nZ|;q#eVM7Zq4o02pQf=_XC9i)m!1h(
zi+;YDe{tEFPiIxj6Mq(!KMb+U%A?>EwN}8wS2nWVT&&FZ5;lpld`|N%_6DE&%=s2Y
z2-oCmkN!EPT<l$T%EexJ%1I0%zD!f}b8$3RSD0j~OrGQm4>`%KJPL*=!xg!GB1I*i
z#5yd5B`RdDK<2K7navYZ6I&n-HRFuNF&{Zy4gLa~%H2Sk(m^Lu57CyDCl7v30;4p8
zN7~y@3OrYv5B9ydtP5^_U{}i=1jB5JVkJXG@(HX--!U?<G&v%rOTK#0P31A-js7hj
zMv$Po#YuvA)h%;$tB^&w>p|zHyzF6aZIzPcgF9wbmq|qIKrH2)&o@jjb{tHDBV^be
zyL$&^^Z#iY{Oc6_G6nw)B`c=?mo#U4GNtiU#PH9dX3fDK*}Mej5}|yu;xZHbu`?g4
zcVq>i(hpQZgc%!!Uc6j`1V<(7sL#nrJNe86zAC*&X6Zq!MSfTRCfrvE4IA|p1l3oO
zhId&Vf#htUL+-gG(VC!+S0g(ajI6zUVQPfVDKv#kn{Z|arxOakQ*dkJpKSl$_IbzA
zko73rc`n1gm}vmZXBp9vs(VYSZ2Kje8Vbg!ZraLB*=B@cMw-d&`mtSaeq1_OK&g7v
z{_{bm-;0|Oth9xgoD}}LW!j<(p1g4`fS<oK(c1SMN8w8$BX@ho@gVh4hK5?y2fJ+v
z_u&X6oI0@`2$K|Yj*Uab7k!eX^+2!CEv;8(Uf3y)zzmkQD|bgDS#%KhAkk5NxU=D^
z5A0A@C2OJYVvlbaPO%}>L}o01+`xyGU+Z@XupA$Nk6X5@VMWM`V#<?s948+^7Liai
zd@r-KNCFDZ=L^!wPVV}K^nX&}@hy`)$*p6ps0FO)#t{w}ix0S9tKRDaFBI1ri3(6Q
zH6}^f8emTn0fb~TNG?PnN|thw4K3YP@GVRa%%2p~v>Vc~G<Aiu?M<6Uh__Tor|DI;
z_BUyjk*4}55ZcP8pmU~A&z!$wZDi{?PWq~}cQ>-Ax_r%shS(eWe5ti@KH(tdCc!oY
z;1X~EZ)9qZS*11LXIxUuL<_`ah}F2UTtH;?j=E354&1G{IQP5Bq!TBUdOh&w>lbJE
zNRaOZw&CNHRsv#iMJM%G!CceS<wksnQ}*A@-a1!z>ul&)M<lxw7meVeri0Vx;W=wI
z1$#YYUCRdJhJGIt-rZQ?_|QEREeaGQ-Qd(-*67RBj&h`98{C2oo~buCDGKy;jLiKA
zS0(TpL0F!Dgzatw?(%e^Q7i9uC`;sR_`f&1@K3tgNv1s@{tB&|HxbB^04>V4V-l4;
zePg*jJ#xp|@Q=Qy#a~4mp+%mh_WlM1H>lCH=VjpqZH{0%HCfq|?>^k7%${nV?hWTu
z&0L6(TB(WkM*MZEg|U_I&|5Cmhkv?VoTy=qpkOB1j%!qQ+*)PF@y*U!pM1w9v&)wb
z*;#QJhHRA|uZ)bd%kRXgcK`5@-{<K@%a-gt=xO+8j%&4B4j6C%zD7aW4zX<AIE6ku
z+Nk8{ZWQ(b7x^xF2H@(PN#h0ucr6&%QM;~Qz~TD!u6pU79y$U~Zs1rsoN=X1?kAfW
zfl{w$=XJD5nSYZF{cDi`$u_teVUrc$r?1$tFv7%i2bPCj#=-D6FzW#G%0LD;aD&8q
z#wcsa?gp3T0&la%5Yg@J>+QuYC*0P*oB37J^pe|O#=A`DrfzmOa~CJ5R5`&Pr`09o
zME@4oB1oXhml#yWQ{^({EghLBS}tayN^yvunN55blgTM-sv#cpW-D{9Y}H#>k&C%V
zsX@QE!2oAvVa>-cWr=G#lJlm|;YF+cBx^Ytufh&LDN#+Q<yVrDYLwI~9;{|+Yr{dh
zJxZTc`nh6mCJ~KUF8KORp9w%HO01DMN5jTw7ZbhFD8^D~T;ZH|8QwQb9ZiW^e~-3z
zD~f|2*9Px`(*^VJS&w7Khpxh5-aSabm>lG_o|($GU2nKv9lXs<_(G0)sGqNlPmWJ_
zzW&7ZC$yJ!qaDhlj6E>~%h5gw7K@<Ns4p-O`B&7hq?*DUO-E$z`rlDkh@^?5QOJp1
z;dIf=zHp(|{E$;5D|odcVX;PA?WCq80!h|B3cgEKQx_Rol4`bogo~L9>0&0?ULyrJ
zHj#1PM+Urc2uvCOksxJC2Pelp9oSI}HXQQ-sIUuxB#_1Kf*_y4ar8f98=8r3Z0=@I
zuA9L&vYhH(hpTMarGU79ft48tG5f%oNI4{qfdC?Rk<tv{g>$>LEy7a)a2kGLo&2&}
ze%T|xD4$wgxK4xak){UH)e!i}t_f##%fM8Iyv;a^n^4KpvQebe^e<4sQa=^uhjCO)
zEQynaGDiddG30~^FqSwWFWntDGze!l5_7|nvlc1E@MB;}#$ss`mCo*Vb#n!Ccelhz
z)v^MBdtBY!0$l2z|Nq*16Y#jM^E`M4n87;44iF2MA;AS80f^uxks>KkTtsStERm9I
ziZTFVKoS%PP!|9f2(abUO+YObXyq@#NG_q;t)WP%=_GxuJV_d-$&=qrll(IpDnwAG
zRsT4R)4HuJ!by|APy4^`cb0qa;DV%N*>PK6K0I@A?>Xn5_4~f_ts3_0>4V?Y<8+XU
z1J@A*JepIi6~)|v(sjyE>Ixu!5_}_QYwp<Dk!oq7O<DKWtq339t-Y(@NUCcAX2W?;
z)dXbId92$Fjv^h<8U0qFh@UI1=OK}epneU`EwcDHz%se2e{<e5zZgZkCdwY`WIG9Q
zjNhQo`41MTo?BL-8fR9KIlY>xm65|4P_Dt_oOp9WmRCOfV$XM!mEQ_Ax)uabhsr?#
zxm-_gt~!)c>v6haT}3OYT&4y%l$_+8NNfcbn5`GO{t+cf``ZS_F_M*Q76V7xb_?OK
zu;#ftMY9Qf7<)_(Qg52cw<V1__P->Almj$iPRNhNOAaV_WO4ZS05EUtMm|3dr(293
ztpZhe2Yi8#pL=!3<fHGFuS&)qOEx@~Mq0jVx_TMZonmAAr)!o6+eNVj{D0#vB=ZT0
zf)V~(=msyN5|uTRs|U=H9`3|@A7M^JF<fjqsL|>TA_USXWP%wy`PoaK^(w&Y5AkCm
zWLFJ7gc}!68hw871Z?hGDZ>r2<8m3bIJZlU(KhF6s7blL`xftb#=yx#NQmFW129O0
zEx^wD`WZ*Y;ZoaAgLVIkJ>7wKKCC-ku|yaFWBC-7Zh7%@lcf-qQm1W&(rH^xN0{d(
zOD~M1X)K_k;HdM+ud`X1sFqE0m|WxcEUGO7s%?lOz+n+WBI-j)G`dowTHGmA%Yt2K
zqrJ=+-C)b-aQ%X9uX6mhSHk_v2Qxi)Cjaq1y+%6AFrES;ykh?$^O~CT3UVsGmW!49
zy3ZJxsxY%>YZAv119QVF-x%Zx!me1mZg4g5aW;Y_Z-1YLjR$W5vB?@7f&&~lXCo-4
zYf}Th0rI>J-5G!^l?4%7t8t<D90MwPs#&0G3qS;1emC>5<9)C;ZjlpV(h;-)uHtbR
z>OLmn*8)DJ5JJBLTmv~Gu#a`UVTV>>J9x+F?NOsM7rSpq+t4O>4$Ejxhan66CnF2u
z1er8$6<j0^gE;ys>H=D#rbJ%Shh%T}AZP_!Ru;oNmJdIP2*dd;?zG=#@;gWdxKsSV
zyv(k43(iY`1D)Sx88Y8}*wI2Zq6XjTE6B;#elLDBaBDuCXB-}T%2<mx<yBSiWW;dn
zeJaISLCV4=r}^?|Rv*uW)@lJ=&=<X+1zF^|&bugPYjYA9l;LG!ZJ<aFV}S6~*(P_9
zJS_nEZ`W8HZI`uddb^lhEZvyvLCXTX4{`WE$AqAJCf`<Jj@bp~ou1RU;`9jqDs|^n
zW3Yvo(t(rct#Ve?{rW*142hA4Ufnub`lWl4vHO!N?oY?=AHQdM>55cr(b%5xEq;uB
zFxhZ09Xkk&O&yv2m)kD2r580JMD+Rn?^iEkz-XXwU`HBTpGy}vCi5EA`awhOW!KMX
zJn~}36W&}pJNW3KWA;q%<D|P3RG<pEXANm(a<c~1Ji1u(4>^p2HM3QWa2fsI=hJT^
znTs>aJ!5OI<}!}%UbH$BYhG--&<3CLyQem%E7oUX&rc;+d@7yysU(z+imNATCR;Bp
zN;43hHgqO8@6Cch-RpTR*aFYB(itZI6QeI|e>vC2V7#`-7_SM^&5N%2ph7gWqsrhJ
z=Udz<q{|9|kuG)P=OEo64;}OK0;31$<8Aoc0$#niR(!vC8Gx=l&Bc=)6qt0x8<Z80
zoLmPxAo?O}Rccg61h_E5;Re{P16FJfauD%kzJgn^4&#jUAdd=~VJFgY!N!(%Cw#m9
zQ}hXf$cvP>#ap#Z?e9tio+CXQn2Dep140`b$@f*R==Ye&+84?ms}{(>j}D4tCM+sg
z&y`(|e16J)x@wU`2_=*6rTlq$b<`y!#<{T%DPm&5H>H>Ib^UZ&zTF>tcdps9T6eJ$
zT9K#+J}a|FBf$c2gzAX`%AXFbMQJe>pcd={Rm*4=OZ0s<Fn>feCifse2EpVXjk+3=
zL6~GD8iYp-CUU)ppRjgu7$1F^Tmx0E<3*oeaGF-gmB=w;0}f>N&Au4q+uM8xUcv*c
z(9PSMm86@<zEzk5%1tvaJPq)G5<Fj{S*(e3Fp~BBV)v}$2CVbUjMa5DeK)_v-lI8#
z)@zE3wc(^Qp}nT(j^=s%s%MYndij)|Hxd7v(Sp%@H`Lrn!AQ;t9;h-dPx(C4D*H?9
zf@>t7zRyPsQNuFz#G3}yFp@t~XywQ`FC9ftDXRPAw*4hHl@J+!iKQI+OK#-hHII;y
z1&_?92DE87P8zN8t|8FbeS>^8bm~;U!%%O-jUE!_tg@S8Any2vruatj1iYz9)iKam
znn{@m{GcB1Ojh@^qPD9d^*qcrJw*uP!kQ@mtU)r9eX^&|8DOa#cv5tr<{J}n!A$t9
zf=IRy9DcG7+NnFsLLlBVz{h~vGuZ%bGda*QI5v1(Oz#Q7%;lkh7AQcb>7Tm@#~f4!
z3|(A479ne*^Yx0Wg-dv%ZGG|dMCl99O)sxU__*-+=828dOO{{mxzsaNI^KODa=jF$
zS+7=2w0@~>x}h;uvQp)lteCE@xe)cfy<=Ufq{+OU9J;=6(Z#bD&Q3<Zmj6cnR|=;d
zO)tFT+QJQ~g&VFe+;qKmMRMh%>DtGV6_0(V3eh7TN>@FcEO~gkZrSCnm$tsP?OI(6
z!ak(y)?Hcg&4zC@{K}eZ>vyHr?@F)VGrs%$-uIWS{94@`byJD2_q^HjPQ`E4{94V#
zit*iJd#5WZ$Mzru#n`s%<qKbrg4e(5wP(`RYtrQiU5i6?S@~Gb^_u0A8(&+BAY1v{
z&+i}GHC}POX3@kGle;cGm9A-gd&AV=m0fS1duzw|253hkOilU3Q3maLyM8M1R%3d}
z#&qSTccQ7v?f6<{9i#1hb;IP~SGG)bBNR>Lw)1-toGX7j{H2#vX_Z%>3Pm24fuM!Y
z;l_7}2nB^jBpGNB1i%POW?YG^Tjt1ibG#ifn@SObcI7FA8CE}8&bwT^KZj2R3oVNE
z0y9M5lU!n3kexPk71Ob*SK7|EP24pJqIr$^YxCsBbgW^zwC>`P3ri+*rXuOm=Goi`
zEr28W%5}v}xF*sdCTsX9%Qb-)f*%w`AfSjXj#hoJLlbZXmTRKxWx+1*z?p&ksJ5gz
zP<4fHa(H_Ix1E<-gJv#XxNH$aV7a6kIUiaHNP|Ub5doO2h;3-3Z$(%_-x@@iW(VuV
zStJ27_w1XQvfu2$==G570nD~;1KNRJHUgwapqnTbtNLim=z&>52!6!I5Jt}3n8WZ(
z%WjpEb(6w=X*1&w28H$Tnp!v`7(lp3`aP8J7+XZBg{FYBfMhx35E?s&nLnx|w||Oz
z38(>BOF@E@iw9Oe(tE%xQcJ)n-ga|6{(V%3rN3~|#G|jCJs%s3jtzOOFRZ=AwTjiL
ziq+|g#<4wci&atcdiliTuhpi@S0Fq@e)HHa8p0kpkC<LBetvS(*S5Z~b*k$t_gr}t
z5k99EFTZ@~(xIvB*V@OU<6U1WK){InW*C#g#g~}Prpc640cJk7J>#Eq5CWx?C8pD6
z$8%_`dVl4MXUB@wQE6WFeyN*D2L~*U0ki7fv1mO`W6CPFTDC5&VwGzyhed+7?hmbn
z5!ux_FgUzx&Q|WiWAC|3ONfk|3GRM-j*>M;H?9F2nwwNM^e3WV;Oxf$7{&+h=aWn<
zU~lZ<Wt5{FpjuE_8|)~^Hu^YP?}b7^`nfLS-dPl^R1i$^LPr-J;B^3sfWSZykndyn
zBJO^5zJk}%Y4Gnwse)V6$BS5r9K$i`t|oE5z}`0CvFm`M^(y@MlviBbcwys2;_``0
zC&o9X%Nvui#_8gcvAnt58PuR=?G$cqIRM%_5s+`TL8#!-unxIsMz5|QRb}NwAE?+4
z2Kj5!?*=@Q&g*fR$s0I#vi*2>@2Qyrarh1aBiwj=57}nw24I?k0Hs`p4De`zkMVEF
zK}7b!1>+mLIGQzFq{hzd<)7u~DNhvNDXG3zQlBcRpL}3yFtuXim9BU0Oqc8$i$Wvv
z^@eM;J5sef-Wf{O?zvjLH<`EBv*!b49c-sG_N<v8VZXo~#B5$xw2lVxrP?4qD|$b|
z>WE$eZ&l4K-=#-Vez;6|-DpCR=>x)}dgYgJ<erN_wh?`dV&>s{=j?aa7m(iRBDWxS
z#6{jB5m1}m&jQauL)fYtGtwgO8Q;vWKEs!~XFPWU8Ptw*V5DzzU}<%BF9|G-FXJ2u
zo<Lu<yZRE5pn4E?J^E#f#=RWm6C_GAE*KyH`I@zjt%`V4<Nzyq+cn$`uLMqzaHsM0
z^gpvf$sz`n7~e*Jb;uh8mKC%ss96q6a)`=-cUnw|4+p=`kNkTiFm&Tth<l2(mKOyt
zkeM_X_*Jg0qsYe1Uo`gYi<`$Eec|rwHA^O*eXaUD+*FQl03bNO`}%^C@zNKc7=QMK
zr>-wuG5P3gXBDq^!==b~$`&P;?*82a-!A=~C%(1s+dGqs+tOu^Bx8@zE1U94u>k~Y
zadT3uP=0I_`vZ0_5XBbjPMKZ#WpvA8*oqg=j47{~LL)Z@D<BJRbR|Z@qwe!Z{FAZ_
zbv~5uGkJ-lMv$q|FitGupXI|yUbIECLc`I879B5Cm9S{=j$~b#JMt!8S)zMjDcL*x
z=$zfiIJHU@1HM_*h7@ik!Y4u_3}!l7UZt%Jl<P&f2kz{>87}^!v@U30m>mcL(?A#G
zHJ9NCfuO$0+h-8f#R;E-u6~e)osUQ*Ul8bAc7jl$GZ;}IK#S^Tvd*^R|9Ye7>s$CT
zXlCJmjZ+9BoD09SYW&$(tIy|*WsTi8UAW+tJI~+w;+Bc5%ej|wU(0{DaM^Tu^>lIR
zD?{gp#vgmpIzIi_%lN;~zl?Pg%`*NaG}8H7W|u`cFMTLAGWo~sRUEyt^dZi7AH+0$
zIA=k!$S1QPp-JU*4-d~-kOn>21xMbxNV7D$&}L>TzyadwflEUnG<f2`AyS<ZFoP%M
zM=C((2`%L&g!4%oF$xN=wBg1}k9cqgR-}UdE^Y`kn96|V3WVr2IE3nFqGBWCg~K!X
zwsFq?;OzZRB*DN~#?7qBcQ|`1Q76{qA}F`Kwl9@eGnPNTe%yhcgs545W-4pyK92(T
z$6kb4I7ZI{OLd#fBK!@s>UI{P)X3zQ*^M~5!9@t`s}BpZqU!)6)gfihB4m-^MR?l+
zB06z*EwWr?@!Xl*y|6yUQX770&eA-p-UJ+0pfiS8aPjrKwSU7v9W(M4=c<>9Tvxkk
z2Ym^r4Oq5NZ?LjkX@+mHVj+H#N1lI&wPubyyr1vLQ=&)4o_hWj=lP$r1c8mOiFl)$
zNI$xizMjB?%u7>hWjNHZOBt6?`<iuw1598I!N(zkMV_g}vZBi`k0c+IUzShzI^(PS
z^DVTQ7nm-PFVOD<zGJ;rsCP_VOfwAS^wF%Bs=+u3><g^QvJGQVu>#pKMcw@j?uJ*%
z;<)8n0L<VF%|uT3be~Z=+)<7{QJW8|MPLJ%aCp86LTtrmCiQ{t54r!ILmkjMLqy>%
z=eJCRU)aI(+~y0LCzee-_UiUzEdD+m3~srwWitG==o`_m<i1<JIvIO3iTF=Q%U2^e
z{0&ytPHeoq<<gdP<w}O4T8>auB^49l%Q=^FKp*C(N|s%SAo%)%<?rjtS4?K5%j=V|
zdbNi1$fGG9-L?+=;Y#omh~)|&_3&p4O-Gv_8gE%%ISVx!q04c2?h0_Bw+q|VoaEv=
zGQJ|FAFi1*Cw*Ge2<JV~n#jW}nzJA0W$xLp)Q+?Pj@LNWd+;Tn1pj>;lOxlGrQ?TE
zg-fXoF+8~{wXiW=zGiGU96LfFuq7GWl3cPS9oqtR2?m3HaWt8?NJb6Tx6*XM_JJou
zHq>GA+x+?}d|gh4!p{|j^StN^O@-z~7wdx|?i3Zlg2C|iKGZZvAP+6L1Z-Tz2YEhX
zjtZ<jlmjp1{&QlUM-wi3fNa3w^K)RXAqNDNi_S6dx>bgY!>*NYl!}Zd5CCPZUvQ;A
z%q-fPR21S);~)hx!f5fjxxq&64?1@K@DTS+j}?n-Ts#mWR17ghNY0OBipbex3vd4u
zCNIc<g{I*zYbFaTF&DBcAp9G+!3N6u0%E-P6$XP+26KFVrMo!-Nt^J^_}m6;0$^qz
z2z{KITyd(uE=58`6u{$I)_D-SZ4T5^?+FWofZhUGVuo`1uiOYE_5kuKtH;~VcTKJM
zdc&IyW7*R<)!u!*y!zs{3)=wea^A@KN*;JwBGD?T7%QC31}oWpIXUo^!gP5Pwkf22
zg>#`8_KunaimJVorNL50VL0rRAn!aBmTtQNB7cq6XHr;64oM}U5dIr;JgJh&pRvC!
zcp)1fG!_^^asvH9Bn#(GSe#T?Z$66PVh93#3}ppfC~GgX$|NLeCII+Iws|?b`ukvt
zHvICOoezo_FS=pXMneIy;K1oqjNCh2>L`%X0_`-H&>|49L{+>WiZre&rsrGI4j(PU
z&hr0_bx3Zdr+-TmHl+<dkBTIHX`|D2$47E7YXN-a`SjQAj{m1<s&}z{LOxUtI`#Na
zy@iqreNM#Cn2gIq3`N?8mnrz&*WC?~9w_M}h?b}A3PBAI!Lm{i-0*7Vpe`fqTIhxu
z+zAcyQOGlgJ|#yv`wKrz4qw?A-<xUV7wIX`q){Gc;C{3oC#(!Vs|S;<2h({6GySaY
zPsaDB^Y)K@o+q&9&ObM?2_|qYZy@q)Ycfxnm-}SYc6qJAS6njZ<|_P(n=h1m*r_Jm
z2-YE_KYK1HYx}!^{aG&k@p|9)sNKVoB3&F$=EW8ApP#6Z&ocS%ge|L3ry(k4i?X0v
z4|el<&2ElFmuaE`cdA|%>_QoPaU6Kv2vn{2YWYQB^NYZmh{QF&o?q@`-2+6Po$uj0
zb6^Yf!THjKD_B3&q_^-vyUlR*?DaYmUbVQ!5T$oo&cY)22w(}w63eoH#|*7S&PaLM
zLW|~B0jzFmh=yV~N5gu!e?Y>TEB73V{-O9wAfTmLI^#S7NXPJH@7G%59zPo<4w&qy
zu6~#<Glaun&#|HYA??-!Koz}^9jGF3OCyCZI4I%OApwDV2nOa7rF%Vg3F!=|Dr~${
zGy_na=yUx;Flp`|>cznHD_dv9qtOf+lRJKTphdbs-p!G2diUsuyF%&Ef$nY-AyXM5
zAC$hgu*a|~>;v4!I4Kt+X0!-4)K~#@Fry;lcESRJs`c*7;)H&V0H#^23p5Joq8p>0
zL3mT?>4O<G9QwFH&tSU<AI_*n+UBkh88#x7fCT{6Pv4XT*-tB&*C5~xHUa=&^cAfq
z#Y{J+Mpj6?K@G(Ls5L0Rp}{zchD&}N<?24pjZyA(dt}V5O+;?&8x_0ayPziwe}MP%
z@(1*mv)HSFu!bSJ{u_WNVw4{nA57(~yqdRq+A9||`<{D0g8%&cMhxGX4}Tfl;gq{V
z822crnF>+u*pgw#UAh+y%DjZ`C6mA#7{wm;0~If=v4B(W!F~Z)E?DEj5PolwPQyi|
z!a!{c`yD`ggkzyVXn2nvWGr?SqYuknEfB0ZjkDq~StLh^YItJRf>$<FpO~aVZ-YWp
z<$GLkqfD%j*1w7uGZC&c=P&TZnOwc$%@TMJ4;^M7;7oy$>QRL&HcLRaq=_rw46<PX
zKo9Qd>xrv{^>1fS?R~58%Cqk_+%>&u`T2*(_KxqFu33_-S#u$JCGyRJZxoD0-;b3h
zV~an?&dNU!e!uWB#wa)to{la4jt+Pr5wMkC&55DQ!<U9%8%b9*K^v{O@|Dk>|J+2k
z$2!c1ZS4x%hE_pQSOViX#Xd%Ygu-znY~U<|-m1&YothEZ8DSX=Se-B7jtLYtmD*u3
z1pJ*GnB}OGT!6Ci6RE=Z_43-u+Nt|f%Qjvu-;|7P0{P&I4sN2Wr9O*qSF+Aks8i5z
z33RnqK<axVFF(5SgDT;rW=Cr@8pfSM!z|sUJ10M!R9+H6D3i2Lc+s$Nym1p=>Tak1
z6i`IxDtu-45Cf;HP?WfV!zTc@{*zD_#Y*c3ei5&>nrm-Sss3Alr2t@y2M3SG!Q?v9
zd89`i&1rahssmPG{0@*b=tk|(qBDM9x6=o#)Z3$>IFTAKGHu@Cdxsprapz>e<MWB7
zWL*^d105Ve#LM_m_;Ux}p#P{;qK%&qABCIu=UPXfYi&L?+7VCqyV(NsXX^IDD-!v}
zpj~x_Zb~U!9~?v^+5iA9M^0f>h=Jjef#^A|+%v(Qo^h@hc<ec~)i)v-Iuz9-smW>?
zYS_%}Rvw+U#@DrM(nyyCkutl-o`&_^emX00&Ewa=vRgefgn-l!WnUJQ0a4{185*2h
zP(7UEUW`TKKL27}X8myu@}B>1d=`lxtIdt_iMW^EIBVDpnHRiv=#9)6y1;z|26Bm?
zui<SbFr{9$W<nBNod%#nubISBZ)X?n&pAahi7jt>9R%j~_8&WjRXCG-rqdzqFcUuY
zrj|Oc!Csij)m125%64Gzo>!0*yyVbuiEe{MrVn#>H{z8-rp7PepA?o|kCngj$oWU6
zOWF|PWkHcryp6n^qj(Ycn!POW`xGAGs1fJ`7Y8<P8C@7p?P%HhLS8q3@VyLPD0}CS
z&(N4XlbcZ6-+efbdy!((S&cRxXI~ei64wfP@bc+Pr-2<7d}G1bXu5buGH-|Kp9Rgx
zZu>_l=pLn9@NEuNW*sR1C{gj#00_R4jSq(4wuJ_Qf7)%M=O9JS?C|93)WS9C;<d@V
zwbI5nvyP!XxZb}<c{FnZnY8kCCOcR)yC8rZ)>A)NloKug5FX3!!Q@gXmK|-ffLw(|
zleTxsS9D@F(kB7P^L6*z5}owz1l<W2a+9+PhU*{#28(wFc-w}UtJB<b&v(ZAcEd-X
z@=t_F@ro<k-Eyo&9da}zJ<-t&pich{sDlS80!96<N8Tx*j{V110&|Xtdn0{*vER~2
zLYK|&K0ElFV35(LdYa-Vp6<~8L-%xcx!*I~U<D$jSG3usd|6pF;NZ~>t`UH6zk_X^
zkVwUH3X+z59At!Ji3bq{of1yP8zeZQ&n1QTQ}aRjW>{ZHyZ$aA>W&PE+Lri8Fx6Sj
z4Y?MHVd#26WSL!*7D!V6?-oGvQ-7yG(rH0w02)i$^>%1a+$M}Hb$hGVpTo|^vD*bo
zUMpUiDqcAi`FhTqIWW>#{A-Jo#Vgar_b2o2|3m<#)5?~IolTsQKp0u>X`z9VLulg-
z1<8F-vKpS1?oZV;d6c}I4Xk;7c9VRV3Eh+oFrR?OJb=dv4IcM}EqrXT@KJfzly(Qh
z$K|NXuS(S&NzkvHs~`|Pmj&O)1`4iEbhe`%vb#PyD1?&0j|~*!TYgY@c<_HISort=
z6wN>j6A=giC&^`q`mJ5PodW|~JNo)sz|%UtKGC6pi?OQpdu90HA?blzkjQOK@m)>v
zeNFKv8<kgyV1n42E#9E~?D_~{#ozHO>U<2+#_ZT_+*dc<vFj05%<R~gvAdkDEMhgt
z-pmQK4Syf|#)&ieBPNnvLUPFmnT&Av(^!&vJw=c?#WnS!b|-ax^zLNtPiS{;NOX3f
zwvWCsH~bhkCcgE5%*NdCquQ9Ha0Ce7-p1U0+k4aI{Bdm0o!o0T-JTmf+w-5y-JZ@4
z){wCWrB)_C&jR-_hip(j3f^e<VxP|8_hjmFM4)4Qb4`w%`{7Oxp6~u|d`Kq8YqkeR
zJ$Pq*mTT^e-U*#uUHy*ea)Or+(wj~cTH^QjoCdRBq%A6+R0^us>Fj&PoDQ7$j_vW*
zjwUV2Q2rNmwHaBTMK0A09$FkmVblB^A{kNnu{?gBLFCH~VE<?**gP0?JIyEiwEz;_
z3wVXVA!mDhU5A3);_657jC40t!@%PANVJc4pX5OXEE?1ZHi7{Ny1mj(eSmouu7?^N
zdPE`<W-nM!*5NE@LC^QM#vg)@2wm!#xU!qnZFs7u{ke6cP4Si%oVsxTY;)`A)2QyC
zxHMEw5LHWpa^lz|#idzN1^#xL*N;Apjtgpj>KT(qeZst#Phfm_4n$wAS47e4#h6Qt
zb3M}ra=6@?p_@MKSxH7;DF%3aD<!(mO3lQ<G9e9WJ-F_e#7PI18f0|P2lDvO@35ay
zX#8OC5o!lE%q^KxWHVtWsLLN`B17OpwvTeb1LlydV589|{^Ry?3;!472|5ZDt4(Lm
zLH`1qeqa$Y`<X@J_YM)v8ARe`6?oGpMao5qZ2Z6R&+xJN#4mv%Sc~Bo0Xlg>_E+%V
zu+kNi%n{T;`%`J|-K4w`<}gZGA=)QbkXnJOk?9l;TE7?2z0_PH*x^`y(Ma|n6|m%T
zWn`Y-S&dEb6$v}#3iLx^>!<3|2}-;&E+aO$W&5qj2S&wNC#cYvaWOc_3Fx(EUPdSe
z6XA$x%Le56LOJT>VJzb^ty4jAooY{St246VPuePFd@U=;Q-!H@cj%R97dT*DSx*;1
z*cBaIX6l3%XVlbmA?u}*NN6+%{yDNoa)SFvkqy3{!(mbV?8*wG-qGk8Xum3dl}dH<
zu3g|EK>`L~0|0q4uC|8<_$V2HRs6H)#^;3M_wXG@_MKH9akgRoIAT*J8lbK+n#jr`
z3`?f8OGK}4fHkZ{5on}{wqF5@KgdMtUBEk9T+S5YoYSuN{Q&nN;TA5BaIHvha((>&
z9q#c4l+Dykp>%ccbXD!e-V43w@24GB<%@?VT3=|#i;30?pZ2_be@XrMM<9Q@ANJ9)
z@@s{wQiZD~&s>EIO_*pcellJ5>16EF*B30D$o*>lR|nsIJh^Pc)dd@`SJkoZ$ve|k
zYsc=NE~~lNbfM|hma$xKEvK&*w$Nq6Qx~3^TnOE|mN#3{m0QO4eo!X98a`MMDk^*B
zv*$mXTu?uG`fI~)41Z+=BEi*nL529@p$muLvLH8IxeobZbPeAQALNEw@BC)rHwu4c
z!5`P|m}-4}(`4!7&M)7ctlcs8Ad=}dtz!>PMCcqW6@!4eZsNgIWdpieTsgMjZ$8Wo
z)!j3I0So=^>he8h5uZrVDoq{4dzWi0qQS5eO+fcN5$4(xtz+{fi%&ezMBAtuJ><9T
z9)YM3Yf}{KwY-p14^GN%Li9kwuf)u>Ih6f-&h<Wg(5EyEec_4PRAK$}vXx^GjGs=$
zmP{9xO{_^3u9#lF3Qx|YVoR?VSB{^UtV&fiTv_wZld1J{O-Tdw2BmFG-sYF7_$JJj
z1vtYkF?xg9(WM_2EP^A5ZE~v1bxlfntH@1O5ln7!_~wwCA5FX%Ysa}CzFPVQKh>ES
zULok-OKqO&^mvHS%ur6Yx$K#G7*8@Vc{DR(lvmeakSj?p1HPPG2$aId02+t!1?^6k
z^~)uA-+p-nE~UJ#c9nMP9LKqYFYwFWnIK8*yoZXMwMgK_T_8ytR}Y`gL_sZ_9FUia
zKw#?xczC&`mEOU!gu?eZy_|~wCMp_6szhP^v9D%dEnEp&VKO&a)iAXwRkaSAUB{oI
z0>?`Q^Sa}*TdD$`n2(UKW4FgUwgy!zJ&sI=#U9fQ?YcO~FvFmp6NTtm#%11_?@;?f
zMS&j;i_^vcJr2>(u;heWA?NjkB_ce}LnlbhWn6DZ=NkA9*DJP`R+)lc(o>2|ZHjaC
zJ}p|1O1mHPO=AOhArxflaQq%}D8mGCj>Hv$IH#QnPZ_OrE@+7F2T1Pu(M*MJp=f0D
zH(V!u$g31N0=zozPp;UXj_n`62iRdk!pdKM=+Z;4wOw1(np)JFUbG=ywGr#5qGn>*
zg?;Duysz*Rp1|f8p#mlrf^}W+W`XiAGzPbhyOMdk1c>;6HP^O~sC#ka0&64KQzVS6
z8n2EjR-w8QFb2ZE=-WAO>D>wNoZBXwXMl#;IHL(f8D1(rug#yF4LO=x*H%Jk%;cF2
z4z)J{)F0xu3<T;`{&6*+JqyTw00ylXSr3PN8oH*dQpL+ApL&-8kq#u+A4nrDUU$8?
zZesW3vdKrM4qYw2E17qf4AGlm=Kw!Uu6VF;QQF1idz?w;6Mzoi06&24cg=?-xzXKW
z;ATn}Bhf9IdyYE=$5}EMj;}yfbKrQk)&b8ygjj+Ib`~WPoLS%j*R6@+)$;-DR>K_A
zFk8<QJ`@Vs`KKkWA7;Bmyi#-nL`E>Lk!)!4=o%!T7c{9zU#SVxRvAxl@VI3m#rH#3
z4_GBoBUtr9)hb_?ELbhZ7liSt!0JmUCl03a)=u4j<?(lRerq@6!tdqnR|9*HUtWau
zIY)J0+Qg)Ql~v&5X2$+HFC2X!{QVG9RSUCyqSLefCeveu3O}mpp`x2_dJdcEaXyVZ
zYZp7;M1Y;$4qCcru)Vz+W9NK^#fAGd|7go6n3S``AzOlvKGBigaFda>T;U(p$kLO9
zZ)C}vP+Fe1HL~DDnvq?0yCW-~V6w<RvV0UgvY!BH7`eau<jDZ*a(y7AO2V=3KCmf!
zwZ$%66ZQ`FKwT0XI@b~U<9)q7&%nq4oWYKV;0&SDF)}79E`Xz@Rkm;ktT6~i(ty?+
z@3Q0`Hg2~5f8!8t{6Opc975A?K_a9h%ge>nzpJ$*grxnBVJGFd5g2BooxP`ycOtfV
z_h9Etu0*YBw>L)&DVg9R=w@=1$uTCvX(F&C#Pfl?1sqzt44N>h1H^rP0#Y=5HGv4X
zt(t0_kMCs3MV_wx<f0+d#2>5pUIEF424-GPNw7BvL+;JTT|&8=Mzfcw^Hv?${i@4p
z3L-Mm#sD(X^aVVQ=!qb5GBQtH0VJlW%lxuVV@al+vT-tJ!h<rOGdW=JVu?HB=z=2?
z&Rr(6ZkB=YA;O(A;UhEQE^&$}CuUgyUOq%j7Jw!UH*o&@Q56WovV{}jR~ydfj)lis
z$2w_AyzPZ;(<P-BvoB=78Xemi@T9ctV)cdUiDj?WU0ix$>14&%YTu|$mo|;%OqVXa
zSbL#%V&~;Om-eU_QuF~{+Kg8`(hEHIQHGo(Zj>97NL<QLY4~QIBNEt1r{@@l2Oj5D
zAkAQJkT7mFrx;AR-KJ=Oz7jBcH96kSGjs^3p?v6bV}6Dg+E|-lKx41QPxiq40|!3t
z$KfjXEw`|FIg=w>dFNhzb00Xx0h<`7g(IltCY~jW)KnT;bUP<gQTaYvv<gfGM%%b2
zx$2%Y(&81E1F#;7>yvrglPkBUkrvm(Y1MSuqKPL{Wh>!#a$;|)v>xF+#4-6@Q;(-B
zHu(RV&5zO>WmJ2kY>fPc8nX}Xah^r1_ufoZPP)ZpC0o1-1%)<>fSQd(!Imh>16x8l
z7%zw#|CG2>Q~(QhnHl1*nYbGSWOInwn}x&9QCOk#HB?!^o#Nv^DDL9`4sk>sRDJFn
zAU{&080Oz8D*D7nftjebOYGCr2gL_03lT?IrQCCny`0_o*@F-d9qCY_P`}PY4?<Ea
zwY!0>Iu;1bl&JNlkDa0<Ee&U5ApV&zzm`!c1w32eNKYp!h7mShlcT8}9eX=_2f8~T
zV`Hm(JI~R|vZuFK)MsI}=ZL_IXQ@HR_2MkAXdQl@msL#e=wOUu1f!CV-G+pB4aB?c
zQ1csYG(m{99Bd76wy0ls_MLN$b!;Evan+puJ`e*|@<U-&!bs9oy%=n*NqE?f(&#M|
zJyfGGcy6m0JB_wrYJea`wBPhL3Cfhr;MWdOD}k~?f8$ucX&vsp%?qF;Ew;Um)qX2#
z#Fd8x$##O6FFbbP&}E}2iwE@pMhv*Akw7eot;7pD+S$%xfYqR~@RoK0(uB;*fLb2(
zpwk^`YYc<<!6H*Z4~I}SoOyj0#T3yi?ECE`is`z+d4w+{Jfh@OoVJ-l&n}vYVSMfE
zJIppyWLyC%V(=!UQ?Y^;mUw!a(CaWh>L;GSMz39Zx%yJ|<)xRFPSsuM{dUE~(sWJR
zSkZJ|>{{N^RNm6bys4IJYwk&{x#w!$y?;_zJRK{!7OPLi>L>S3wOwnvC)IS%d$D^z
z$PUFy6sFXJDg(yTFhSmpe~JW{@*}8$2RYm_B-UFPM_zshE1po9bs*7#NU6X;DQ;~e
zS-_X@U8(1U)SsH99^O5KFFHcY@V)V>Kw3tTFzhJcidT-JXF*diM>z?1BNx;tH94~4
z^4d#lFE?Lme(jEQ=^8k(mI#+sR}15mXiz#4p`Yz^<r*zuP<UmAP5DRsa;6!+tS%-G
z@?$)T3ce}^zFM9e-5LI?vPiT_Rl;0d$Y3vafY<HoanElRoAYqz;KM_`on>f-KpXt+
z^qi&HNMZ;waOfTkx_;mk>^KN8WDGQ+1VMdhs7z$UfA16<92Q4z#lZvwg?>kWZ*TvZ
z0c9{l_zt_0qwynf-sR>3sB3MuK(Mn{;f@5wce+^(%J*g?bqI_>tcy0>D&an92m$Hg
zP8Kfh;_K&D3e1b{Hme_7{rt7EH%EIM0BKV-o8W7$fMVtw=mswk*6F$p$Y|ktMoT*3
zEFaaJa+Gp8Y<r>af=1ghpoY1O<f$QtVT-jcysb~SUmsav)4TI1bW)^5#w#_J?w8z8
zNT*N24T4q^x04gxXI~d?r_a7YQq9n#uf4CB$(?`nWto`qRC8)=|9#a<d+aN^1u&(&
zv(V;U5Ag;V5o3|G#dk=IX7n1QN!*wdWDFyxYwp6sN)8?@U*n+rbF2Bb6B|75^R|jq
zfDWx1@8lAY5Ta<4t#Iz5^sipqI0QhWp~L)Z(N^hSlk>C<Gcc!ZwuXb)Eq(ocW*av2
zv~;(qdK%q5pyvCC)8CnZbv9y2z@`LM4jvzJ_mzo>Wpi~N>Fq{%Y`=<BkF}2%qF17|
zcG|{hBC+8_JYR>HRlj}u?~@=WwI-PmT`I<{cpqd<ww_KyEH*r2O6uQJwuUBS6%HZ-
zL@McGNPIf`Y$chEF;$tyxK+98Q3~R@mV1w!lAyD#TjNhjf5pxnG~@cG?Ps{x)w``4
zys6`WUiAP+XqI7!btmSQTaVL(0(Unp=)!2-D3nv*om(Z^t03)7YlP<7QO$JoSApfy
z>vVS}7+@D?3*e(+EE(6|f@-Z=YPM%iqxILvA@S)#St5x9Mh2A(vER#}q7C6gYeMMO
zgo218upew(F-4U+-vosKV``TQCE01LtA+X$<{R<8pYvAyuwZXXKE6z1Vy;Ob)B=+5
z#%(FWeN#u@i)|t;xMVIZXb%Jb5ufw1-k{K6$Z3$_!EWsWjRN1YbRa1=uf*03S36jM
z&&lNmuFd4pc;X>g!_DCEe30NqsT35%fx$ab81lD@GCvt=vXGRk<!;`A_)>29ps*v9
zrAuuN^3`85`8_705;Tnb0V32QJyDv%{1WHMK_LoHZLIXls*9h#@M(BUN4OKAB(<i?
zY;FkNSUPny+wwb-v9@GuTN-J(M7DkQ)y)%+e(COH?A~Pj-gNBV@w=xh;g0sgK~c3S
zoos!hB3-%4OPKoDWb7fA){R^HqZ&cpU|D8~>7d~py@oD2|B)joa+cK`p+F-?sgub`
z4vOX6ECwaKBRjhJ!-8CJZj=}jK?$@N(uOBs!7kKoFZP7j?GwlITdPMP%R4<hA#f#-
zjRX4bbbqfHjW=n^mMj_40CV+M70uSET%cI3*Os^zDJb`~{Gu^hA&mqw<0o9AfVgk;
z2IGiwL0+N<E>R&anaMfk^begHFs$Ui$CV=*DqrN?-)C|Yi2{egLbZR&g%Kc8(1GBz
zD4{wI1(XF69qwiAbqyb}R}SuEl`lu?18XiQ2}{(qJl9bOqQ+(SHF=o8ZeEG~NF^T~
z7Y>q$zJ;!fyF_+Ssn<eZw)&iio)+k>+Tf5xSYmcXMxdVX40<vU#hrw1fpZG8%HdOf
zBm&R!IbP55BU#77;Qj~d-r^~h8Zs_Cwcyu%g{J{Bi$w105kx$*(uzQJ7duYQ23L1<
z(DG-3bY_Dhw<YqVcllq=MhGR{=TVILvG7QgDq2vkLW(GQrS4Y%-UCZzg+_8mqCGG{
z`fB(ez+>p`_F&-bNcI;_LnaiUdz&b*NQ8R6M4cIznN6U}o4n=xIveKsM&T#;jqpnw
z&=MM8Wn8ZGimGa0uf%k`0SPtG=mATfkZl=p2dG~wniRwIT4w+wIRnEhd?zhM&;hi0
zTqxkw34aIyU}7fHh02^H8my4<&)}}HNTFNNyA{RSfRdh|CO^y4Wb4fo7>6044*!Vg
ziJT&^07c0|m_(M{r@Tkjv*-#WGZ7XQogmVNygWRln1C#e-+ze^YZSF3D3Kcy0U_HE
z@NDPUY4~sTg+rKLvJ^_UcyVD+A|dSigYs`b`md|LotIqvXu9k%M68DuEBx4;IDg{B
z-ib$3MN7mf<#_1}caC>W?EKO(DCbU>Et{;LtW2(YAX)O@jqI%Qq7OpK_e1Hzv9n_l
zs#iU8;hE`$br(l2j7%eH?t)8zmh$lX`O&h1v7FhGP^|Qod(Pi8!Qd_MKJ)sf%XeM6
zOT~h_vf|3XmF{<1uPk_HFkQYI-YqLC$2Uw=T-Z7pNtLfSzxzAo&?TOXOdgorGgUfq
za_V5ZeEryNs1q(I9bb`*Era$_Y}r^CtW1PVVxZn<uR@zCkzBPI!*OxPg&mX25Qqu&
zmQ`JBxX|$Gnu%vG4_z91?aaGntJvz#UHIJOk@UjGakvW(p@c6_x@^_^5GzJ6M8^}a
z7DBKX9Aw5y1ph7O(<>2#V`nS?rKJfs!r_<l=>KUXEC3sMdHqZn&YVLDk^Xsui6Y#G
z1;?(xQUuS`PoeIft<~MJEW~-V)By$ed?>ingu#La)GxFth5QK#6A2)UQkhpGFOhF(
z@wW@!;?V@x0jR!<`g=Ci-wWI5a6`Lln~6|)a3<fN=YioeEmnl{MBs0TAG+ht%LGIC
zuj${H_~$=BG7}YKE_)jqZA9LXFN&XOA$q^Sj6a8Rc*?Lhh?<B>6}r#GE-(fvdcVYx
z1u<}l;;oVCHSU-<@Z$Lp)_Sap=arheu?MCrHo|Rm{;n_<2D~0`eYbpNGIn3G@$Pqa
zzq2{H`o1*&C|?N&(#Qh;@a2mqo=BCg7|XrBcHNcIU)}Xi?yo%bt!3%8yZ^Xs&*ZN0
zJ0~{0x-D6@XDk;9S0ZEOji1B9oQ{?A_Bk-jr^^@1a$G&tnl5j4g_6`6FW(y$WutG#
zcCLvyMeO%#G&-2Fm0@8r$<8sK@Oa^B^#=vf=;9BH8W4TwU|2NlO07^5cZy_Y$u1PK
zmsw>usOgp|l*|vAe~FulCpqk`iJ{jQ7=ADKyzqu6j)<%-4D{^?bTw&fI15%V>3^*}
zr^1p;f%So&W0afG6Al=a2~xcS^pb&Rl0m3xc+2U7EuRwQ?N_X0@p9A+&MJNHDgGe1
zB9v|U!Z#QZA{fTzgTsowWq2iRu)1!4&KS0j!ouw#FkHy1(e(vo#4E{Z3d-NwYFqm`
z1k<#u2ex6f{2S=Pra|u@?Nps;X(8v}_*R$gq8h+@8rs_7WyH3LkJ?X+HbOwB@=zW%
z+A#P1S{W-Mn!^J_C)=Nc{a$?C=x3j^IU(B|r4it$uINm6&#~k9p3R^?)f9h586v8>
z5X@8;kP+1FLl)H)#Rt`cbeN$}g+s<u4Q8Sz5%1`7;F7W##+gpHBKJGmwJA-%qg=V@
z(rt>jrg(WGZwALp#;Ic$JY#i(0H8lBR|spIy$q;ogu$lrKcuTt;a6o@sg*VWzjv_P
zK`1yGt~G|Gra)f@SMs3K4;M7-fO=@z>2o?l_NQ_XsmI><a&+(leB@^9J&R6gGe4<y
zf-}C^d9r_~Pedv7<JHpzKb3ST)2wrg?1Y?c{lx+Ctx3kO@nEJjjXOM}bgCcLjufWA
z@RP!O%f-)ZkpcJ_O&U1W*~OD8bV$y0gU`*Oft?b)?5L{m2KQ{BU$^L)zWy`dg{u+#
zok^%I&{t?@@3DTTXYlw*@R;ENYao6cE^sJx=(qbrc>tADYzMR%p6O`UH6BN0m~|Lj
z!ZjydI`j<7v60hyhCb1B*WKpR<yL0r)DbhIYnbjnSa0GCI$*me%N$>{Ai(Mv=<h(F
ztGx^%n7fy&3)!ywLUETVsscAO(Sw$YJJciRbgy(}x><g^T(vm4|JKBJ4#riU?O?@H
z`fu6?@q>c95W;XA`3_qcFwi#GUw*xYlh%gz2-uqRhe2PE*sKtJu^u{8C0_!PJl3z9
z%f<*ag{~sj96j3cw@EFjf$naWIo{c;gc=Iin!!-plQlqF0>i3gH@*U@;qHc(d?LXa
z7&@XhEkZ+k+JdGTYiN%M$~#<US$L;QH`muZu10qt$@BGmhJrP&XKJWmxgG84g`5Oo
z(}<|RBX$9J+<>aXz1>F#5BI|DQoo~|`=M`#?ZOy^j)~{5!w!M)VMnre=rwx~8w_E!
zI!`i+mURZKwp=?u3k4ayd^Fs$e;c5p0jm->xEq7WsT)1S&O3s}+m1F{NCqVwK#Pu!
zcylvWn%BXtKt!}jV_1yZ5K%V43SQZ&jtg3m`8(5-!1A}?#%AHyIy%I4Ek1;y<XRIL
zmHAP%Vijj!+QrE-pSAU|W%{%BW7sQLY0_rJyjR6_Yr)$0H%;o==^O)wR_l}^4m)Y$
z4j!i8ZPr<{S=z`YA5kl+=Va$GcO)?Hw^M`K4H!vmDYjRwMd1_Lws_`V+QJxq#`Q0K
zt;!(Uva)|w5nF@CWi))Zg?(PZ4hUz?Uy=53X|<|aZFPE``5WV_?~n&;QAbJvDYc~q
zX=%R+9By`7M$qe8GV@#Q;B9upr3Ttb|DXLLsOs#6z;0((SNAE(_=NU@M+IU`4Vyc<
zdYmrkEI6*JmF<qsXFp{2$xV87AOja_Jg5=92k_dDxMN1jE#7dXzaKgZw)LX_X0+9?
zXcJ;|D7tPGM~aRcp)!X^0ZCUZX1`&|s||e{+HRovKn{Y|)hcgx2%6)MWH{hd1TsFY
zvhxN6vXFf){D{M8LncY9_7T3oA|zku07muoc-$pjRhji5I7OPOC|<qRNW7{CW}ZmN
zGM{a|D&C-Ssi`?E08<FxMxlN+t*`b2DB`v8Rv!>nokDlo=g@mDY&bqRcxqtl9d~s1
zwVdgBrsq_5qNlT^-#K;%|GHyWCdKR4Ny27sHOBywhmN!W8{cs{F$4+_+3p}5XzvuF
zse7=e>y9J6{YUONNny5g$76eT?tXYr%Sk0%?eeNckvE%-|2NL!Fr6WJEXb5RdYB23
zL2|w2GRy)IsaZE>@P6R39-{N)_PW8gyyGB#@d=zMGp`ZR{exXX6gK?1BYCib)^&{L
zgSBC~$ZokrWF$X`r)+uv*=iob9tW3=qHKVnrKc=SZ7r`GtqQdlns3v~K)dC5qqU)S
z+au@>=ClphXpn2v4CK%|*o_cv!?gx{&V2_HvLNmxwbMMhg+(6uuSgbMcLHQwI$vUT
zzdmA6wQm**D^qk74MtNsiuSKU59$f3LiFmKv;3ZjXgEM>8!~;~<C9kSysfSY&^?&j
zf!{!Os4vb|hw_W8`7o^)zgmB_col3olMTDlNQ+l7e#YvrZn#>!I+?d8*|;Z-w0Jf6
zGOn`YbZp^tteR<g&2&ZGbR~jH*G!jIeoz{!ZM+f6uPqoWf?jw2g4@=Dyb3MIoY2C>
zkQNmhGn8A%j=;WA`w!f;kEkArb*h<jW|i?5PwmchpW~_BU%sbyy}D1KO{;e<BpG&<
zf@zp#*1EF>oc@6Qg|Cp;opGI@ls4mXy`;Q_e)CeYfj8m3;ODqHWCi~Wo;McE<Pf&C
zCe(rsTJ9n|w`!S+_x@i|FV!2dygaOQVGUwcfv}@j)dUySQDlNTW^BPL`_Au!Cc`Ta
zo_~;h<GU~14V&|e4_$a@y0Yft(-)rB4?idjEvUQ^%2`kVmU9tYS&VO-5Oqz%CBE2m
zq32pvW2&lgYI(Y<IbG7?<r-tla?)Mtzx;VHSeH|FCX@e6KHn;o6F%P~VfaSq%?g#2
z!r}#rq~J+UFDU&%d3|*8Up){mh?Xig9}9M&jJ*iydHv9AzV(TrKZM9lP-&p}8g`o=
z%2c0JT>At6>;DDVe9F<HoDx8wkaIXcr%y%&YW#|@AUy+O=t<w-poxCU`Qzz~gsS5F
zVM+Y>n16cm_G!kSJ`Un+sZM5!hs@L3sh+cNF|Ce=y3ms>By+5eg*I0v4@qJ43?7n3
z^X6nZhib&9=I0X1AujVX<`B;f=W-)|${ED!`YC775LaGS*H1ZvvU}CgVAK4RGq|-w
z!>XTh27k&Kbh(N@<qZCmGw8CP=0xdHyguO!Dx+1Qa>Xdt0@#~#2vLmWv6SP@M`0D}
zvVp8Z)tuXA6+X4@>ABoOKD=#)p{k)Zh-Zjb^RW#T2AYo-iW39JB(Q^chjG6B4z>n$
z5D#y^gHl6q2V3Xu;Qt1E(R;y1xFuiI@?nB_FM(#LnY_!ek9TSLhU&P^6e?r+K{~UB
zCnLPe#o)jMmCZ(3t0C*w>6Yy)4bA~RC7Bg+i3b?VMH2p|<s=J#)AEvpziHbcw$aYd
zgBRgpNya=ZN!Kv?A2HLd8IjKag?t0I;2nA#GyN;FdA^KJWbzJw#QZ>5MZaIY>RR>M
zRQ1}i-7oF`*v!GZ{#RlS?!h7qSZrU|0;VBDHe_7Exo^%iy!qR=d@M!h7qD0i7jgZq
zxQN1c6jq{W@ZN-r$T${?i}+u-yr?byNpKM-4}R@4Z+s@Xaw~n=h|*~WJMmi8ovErj
z-^of>-JLGk=H)CpuXFnZ+Jwu-V)888YWawdlaB~){4My1EEvp3<Va<z3x347jgiN?
zA9{RvR44{7E0J1$5|R+Aaf3ZadmyldoQtkahG29TZ(y;;ID#ZX8AYk&Xt8SZ8EDdJ
zCW&U*C{7$pj5eHY+#WxCvh!@ix~BM9qlJeK+KWt5{=e}Uk_^zFl_?S%2|HD;peqRc
zdjkQAqlm1w;VmXq6`N$NaBeH|AJkyKi)Ja05)GX1MkK})K@%T{V1*s<3se^HTh{O;
z3!r<T9+?0V5iZvVQ``uD$wg1T7yC2~`O1Zv+~pl2-pddz$IX0B9p1t_UdB@tykkJ8
zZ^#MWQ!#0t-ch-19Yqg}HdXS<>GP*wJUdpb+MzeMRBhXFYx}aVAaAgJS&{m(u`VmX
zx1BM3Me)#ok$0={wO~bDsg}wA$Bo5&u5+O5=x4$o7QmhiaG$O&!_g{hW2PN2uw<8X
zMJF6pUY~@GS>8T~IN-7Pc;|f}Pz>{($2;@FhWIp*J7w=E`7`qz9PEQCESv>&AH~+Y
z4V6?=F}E2B*CXACO!*wOZU@v3H~gs9_$n=)r;+Vw{47l4TjPfh+k*o$HqXtqjSn-j
zoptLHOE>O+RO!ie80O}t74n6H7z8*-I%ZX2G-z?qUKo{Vu<;b*cDFuldG(!%6GLJh
zE*{;bBCS{jcS-GFWBU~R0Au8t5q|j8g>-?f@Uqp{b8_gUR+FN36Po64jWpDw>(cBh
ziRf>j8U&{Jh}F2Yfa%Q;qlgO*sk6~Fp)RskB(W-hJ$=oR)6*F1g-NZN2fNRmL0}c@
z6T#}E=?=rok_b`ExT!J1QyEPt6Vm?&W3Y5nB^q818Ep}<a8E;p34>#b-FmohL#+i-
zW|d}2yu-L{BBS5qx5?wJ$+Ix6)|jhG5_rr-{Y~>ZRkAuBq6D^eD>P#6pyKzb!GSwm
zoYpRH2ktQ2s^t_S!%Iu{oK+!*p%iXgwqwVR_(|+K#3(Zb8k(WTx!zUKW)>yl*bX%z
zr|WnN7FVLLAtMXUofL6xkDr7F817UBUG|s*07XD0D4-8F8CVjE5HCZ7Y!CoV)^U&^
zu$C*+%_K0WJxBy8e*|IB?FNIIo_;he>h)WhtC!|XuHH?K#jB0lL+{%}9>2uI#juo-
z6G(ZL7D`QPES}v+Ott}8{dm@B2Pgwm7wb-!Jn{pHs~e1WIRP^0zl$5crK#(X*qrK|
z)m{tIn_Gn5+`@1)do-)B8ie|7YZkBs$bEYTM052;e_f`9hBC<UI2ZpM@vR;2nY`l~
zhk@`BJGuhj`wa7+mH5bTiJb&ZO>E~J@KovbCqBJuEevwT_P}uG{^_NwE{|LqdF^vk
zXTCo2=Ez&08-Mcr{qHZW=fkOkUqAfj;qfPx^KgcHKQ?(LU3^C}?~b|j2+ztgKZkMS
zo1Z{;0SQE-F=K(zWyy>yk)4Q`9B}Ebw-9V7bK0DLgOT_PmH&g^n#soE6<>yM#At^P
z_rJ(h`*X+^O#GC&gJlSyJshsJC;<z@;)TYK;-;w;>54ntzv|N!Ewj;VdR5FeUKO*Q
zZ}4m4QSl};lQfA*F~4MKrsXhR+854^7JXQj6J7T~iFOZeJSs+v@e)gRdB@3&+l>`?
zI_ESJ>>fNyqHl9&6m@wCBkvKy5=XZ%!;zW{!2?**pidWP8=K;rVfaEIk*O>EiQ(J-
zt<ao|<Za_P$=&ct;WjJ;dl9tDHtxU;aT`u~m9EkK32$Cq$cv*~H-@g-BQPS=pb}Z!
z&~9u7@evQ@zpVzFNuNFvDib}Tza(JZ3%4$I=L@0&`m(4@9UFfYO;=~fe}X&hO~i}A
z<S?|^qOSyZXfrAY`to9_ha|8u*k}1gFLjT@-+cYl&MVJ;Yh^O8{=K|?o|99cw|Qv=
zlZRQo^)_D-&HL-7Xmmfk%`;WCFkA3$Z$PvBp>z{jh!_~@jwbw0>2l6xH|EUb9_TrC
zvcD%WJoLkEcwLd%@~}!g*{RPvN1e{D=UPXfYlWil;qJ4i8k)~Gs)J7#`e85L%K}@D
zo7+D>=kinN!aPUlV%;#qmm1*ck`t#+(FlC;;&aKoS{c{2kL#!99ke|dm6Y1g8%%PV
z4Io#Tn562(bIH7FHK~O8P7g8pAMsAyxJWctshvqLi^lPi(Oltb_rq8?T4&GEHFA#r
zK2Fp%sxXTLuad2(BNHd+fDw6z7<f5!DB7Kqv0`#1kVGEwEY?l`(Lo^B&fms2yh}$v
zw`fAFs`}!60saUMcJ~eRJAw%u*muGvO}TP886V&g3r1-?^%=7OV^!g=Nz>$>s(O29
z2O&k(S@x-QO%T)2k_9%MY)-2_dzz+xl%u>ZgH;Y$ld>q4)h)~VY<o}R=yPH^dO|Jq
zv+XCa(xr>H!bv~UbJwj8U5|AS4mo`u)1A(^8dNjx;s@6r^3-^mn8}<cb%64jerZ#Z
z%-I0*z~cW**J=2GF%;VAT0OxouODke#g;VFW}LTamMFZ_VcF2|8CG>L`gCoGNNT7G
zSi2N6E1^*tg80A?L6Cr<b-2km!v%0Uy=OQb0Kh3DI4DOFfJ;hr`z<zk6`R_rkP`S{
za8vHWoB1FjXk--5yxsyF;bl$}S#V9Dwyg59u@mp-Y62IV#_2=CMFN~kR6}4{@yh7=
z(TRhXKYi)bY3h})5-8&XnGs}_vD=0lG&uBpR!?XYe$1?|cdv1SZX(sQ6JdILaU1<6
zV#F|D8~m>`va9PeL3>evSA^f>kOjv1DYd;YF!vYOk5=i2&#iip3-zk;;mK90g^lUr
zHOag+9?%@<O-owA<T-xA$`C4}d9y89(S;u(P|Ru#p(D|?n$w9pRWA$vh#+*qL;c6}
zICS#t;RVu00MOfiOdI;>oW$PX{}`7oLBLypncD0MKuG-BxcfC)Gs3^0GB4Kpyy9v=
zi7Ret!0*=NLRtAJ_wivgS&X0>lwGKWyYbQIl+nHy^2U`_l0I(yghODQhCT)~bVtj2
zvoruvqq!d!WIy~=b5GyVrue$UnlXk&XRjYIP%U?d!NS#V{+QruA(mwOz^!3xnWv2!
zy#6|227}cKc)eB}PZh@zfus73Y7g-F(EwQIUt)RyMSmAR!BDiq+g<}m|HVfDq%{+3
zCZ9;vHl>T3lX=az0;JLqCjZz6NXr078#EwYYXNDC1*9#iUKR`nq{Kv-r0z!)#^$zv
z3I?a^6P<4YzX>Svie#-57wGDrLOxKjimEUWw=<46pp|Je3|77a`(~5zhqv*t+<&X^
z4s=P^zO>&J({G<~HG+U^ml%*_FpD_FfIOkUPdetYEyfx(k_B70an5m6d#z|OIgB}}
ztJg2pkubca>x<iQXCbv|#dWwy_#vEG97L0T>KMRv`SW+<7=Rn4eem2VWsDBD00XDs
z>j(M_1M%g0k1XeYS&n_P-0T)v1f&8y_LN)Yq(_Gi=Ad#0F`WC)kaS@v=r}_5aO+{;
z+2TsATbJ~i?5na?kmtH-&>}X^hh1BEy*uDo+3Rh_#;Zg_;Jrjy??Z~}?l5%-qBbC4
z#*e_F*(;Z@`1d%#VaA~bR=6KQFa<G|C;l0up^-5tmuSD)ubOCRp0K(z`F7r&2_hbG
zQ2O_9H<RDh-P0@X2~42wKVSyQ#SALzAM#FAIdbtuE(O1+sYF9+O9cEGk;!`G1*^`Z
z(J@`K9OkG+({-!HB3JXOjo?W;IOWTiiv+Rwj$@VsT8)zlPd6u2zkMlOf#Q@HbR@%5
zo{usvJhemSzDk5&&xYr^Km%1BBp!!M2$QUOp<8wYXReWKI^C2o^iaXbyp#`T9#c_+
zHNbXrd24XpcEV6Rusy?Q|6BSj_cP(fXd4u7{8KiQtM|0?%b38wt$w^uc{tMOGEP9S
zHNJ8HZXtsvoGW3bp!4*xb{1Hlm?^-P*7wfCXtoi9i95-9JaASZ2@-=9n+2jNu>ZvM
zK|v5Gu#$>vCGk{AJXySKj{C-%#g~^{TJrte2>mv~O*9N*cbwlb@tJoES522M9dEt3
z?ZURnie&k^sj5`@x@2q}EKeC*ePZa{1uKGc(DUTtJKtIHTP?rVl3KhkUA8|NQz1!%
z7u{a9=)!WO4%4go>9CWNfbUs&U=5SZahdUn>|@p=tau=Z7_l=v5a_AGv0FRsHj^hg
zbKIO*9E2Mg7Xqre^0{y#mtRIr;ye*cbGQ0SKNZJ|i7X!OWn<_sswZqW-`KxY9eHZ$
zC-TKRaG|S6=3SOx85HRE1O;+=-@C%|MBzv%V~N7os&&0M6Ei@a+^pec5_EXr*&)U+
zQExzO;NA^8{1TSqaHBR^G~Ne<(xGP`aJ&2-!W;ow{|_Nok_oqflS0xMomtQhk5la^
z+fMeHNF-<Scb-1>DYee?AMQM>Zp|_mph%aG&V0)}j+euwc9|Q({cpI?=^HZB-=m3O
zzr23391-go!~S~lqKUrb;^wQxEew3TP6a-0!DHjS5rPiNIJ5Hae7|t>jVONc2cG1F
z>YKmT@<z**x_3I$%kLd47{42#lBSn8O+A%bzU7^rspZ@CGh{`Cx*e&KHB+srlICP_
z3-?@nvL;ovc4}v;s%3iNGGW6^ElVwIny#szd@xnB&a(k4C-UDdTz0*D(L^Fy-aL6U
zRo<M8HBT?7nppYnf~A?y^=4~KE#8$b+ntQ<7U)hc6DA^bvp{#h&*@_FdmO<=<Q84F
zTF7PZ%8Ay0SQ0}F;13pwT(%~<C#+8<yj4dNmhD0@dqwo!jUX<(*O??`Ho}$9{$jq_
zm4|YK3!h6aymJjzcRmmBE2NG0P~tm#WE?sqGYKLvaW&f(B9xo@kc=zaU(He2uZ|R-
zsQ*ZWj)TDqb%QiZU-PIMXip<?<!JWdwTS^oUwRTini*BKhG$UeGpO|=+LcSaq%H8x
z2JK7oL{t2DQ~XS0911{+_XLU7GyC9O?wKc{Rww=<Pj08T$Y=I7x4L?L>P??|^CaG=
zA@@|PAc<>P6F&|)*-0o#32FKixaDjLFYVIj4Bq!?rq=$y;{%`~Vn2aHl}yo3{i@+~
zdK-S#49cSWym<~lcG3Jqopx@;gSER|4Cs_WmsUsT1_;zB3<M9@s*EnBmM4qO?_TS+
zZ06$gIMfmwH#^qqL)@s{X9u5Cv!uOe(c;bTH;Yf^ah;{=`Jrs!=4~)-)^4l8uwct*
zaG*^a+v<z8O?r%U<Bb+18D~xSf8tq_)GKw~Mj~%#8NWKB_5p+}M3Rt8{}|-Tn<@lk
z;JH8!f;>FQaCsFr$}A0KPl7vfQWDv@=Oj2Cs~mrBYV$jHe!B-c{rNRN07avmK?gHk
zH_z$NATY4H+`E?xrGp`KO}_=QHXWnD3Mwhz#gCwGCyu)}v&4<JI@z*}(VyhY;c~Y#
z)_wP0_NEqZ(VOoSSN!~EzM7vZ-gxCR-`<)m-k2_aBANGuqCWlv)hVsBw=kM>!XlD_
zkakqD!WFELx&;lOZVraCqXjtX<dn@qrQk_J*zi_W&9Xlt!e$y(5ATsx>ZNMDtX6V$
z%=xhazEgqoyWtMH!wy!57DHI}1UmOaE=?ib?b39vqm^!eZr}Q|gu7jTp9)-mrQ>%`
zp1yMC+l@bl^(U?Ou0M{ltUu@9vM2bTvGCkp*oF6a@WOliTf?&O9!usuc3TTizRl!8
zR>;GQEW9i%ygcu^JK(On1A5)DlyBV;*zmgX0FpVpeyFV+g-Yoc^QqX<9X*<rh<q_}
zC<n*b=oiC>a=Y^wA^eNhMc<)(A+QUuXY*!CcP2XFBlC2(T~(cnK)(B_Yn|nX<n8-O
zY!XzO5C%UVI{w1p+y{%0CmHyNq&wrRQ6HUel)!<7Tn@c1ZlX`qVg*i$;T4{oQD06~
zkB`Lnt7fXI#0#V%H{hcD7`^!_jd(BjRdn+WD;5ns8J9+@1`3?^CcAI~A#+qYVvRS*
z89?MD+T9OIOK;=)M6Rl5mHXzYa-XQCJZUI?O;L8nwNGB0FC5&r!L@h?4IO&m%v;5#
z=9oxNs39^3K}xI9RLRA2zIf+`j*>P`kulWgBWs3WYoUcfJ^0Z<qqgbnoxXh9SYgh}
zYiQWibZ29*W@ndk4$fQqwA}*ib2e{mir>`~-{Q}%=PSd4fnB><1MfV0Cv<CsBjT@a
z-j?3!&!^Vc_IO|`TVZkdi8Qly-E9vfXTK@_kp}a&o9ScT5i;@r4Jz>XNg<bB07(Rj
z!5r|lU5J5cA;U)3CXRmw;3vAOGliaAX-pmeoNt9JV)?isBg*i{aP6EGWpUFGVDJrc
z;uLLkwP@*NMJn%(t9h-$A%9P6D9+@l2&_Kh$k)Y-pzKaq{vs;W7Z}HAS?2YY&UpX?
zP}^{kr$5`D8wE}D1PVCPCAw7{VD7lMEu1L;dF^zzBYdwjyl8H}+_&dU&nRJEdaZa>
zs(97p;I-9vrdHpXF1{<7cb8zRE<4=#hGp~91Rrevtmk8BKkhRxF#5Be&qd%Gi#)(x
zwKb8#O=Q9Us(vDI%d$r!qfoDhWr^Vec`6-=fN>vHjC({*AAVv^&k$=Ce&(SqN!E>L
zyvTLb9Bo<-nlMk$g%nFM8<10!a-1(?B;O3r<U8FAIStc35Tr89Y?JdYW=d1tGcnn^
z?Eo#%)Ra6k3-EPdoJ704@~|N-A+F}gS&7PqYvy#p=;4lFW(J-{9?VQ3!p|(3u3d7i
zc1@~w&DewQ#}+1I^&ezs<tM`L7j}`sm<UhD>c6vUJDihFti4hN2IT4jC|Hjz7$2N?
z0?fpchOyCW#j8`rtEVcG#dlq)N_l42yCT^~&WPBOa=lVD4H4dK9;1u~@?Aee2u=Ie
zY*VaRko4chb0|@8@bDvhGf*R~E?^i8XZGi~MC)ZB-bZZ86RE=Z_3{;0YTvm()w=s?
z`JQBK&-LPXx_EgqZ@D6^RwFaq&Q{~c`BNtUmdU?k!kzBaqE*iK2nsj{&ihQ_Oe**y
zGcvlgn#m!~$a>@xN~{``*v2d<uR()t%fzl5A^hCP$&YUNph|e1+0lB<>cpLD7c1#P
zd3))V|Dz<#EQ#7#gP9E`%)Cd1ABOKq`bwkFpAuz^&+>mPQD#@&PdriPw)7{GD07?F
z@S`Higt+bkXtEc<690d4RN3DU*b3|wJo+E-=K#Mj4+Um>Z7Hx{1nhPGg0+a*$9Hk}
z$x~U*f8+=L6O#;rO0b1XNxAKFDXD+P7XD|`!k=)0$#&qAA((`7@?X(+AEA`yV0<5m
z%L57|eQaY4>GKUD+K)^6RQ?2zKF$v~7GX!0{mls;Pv;H6^BY`Af5pL*wN7fr`D^}}
zNtsCXO#T4}%u*&bpiDM@G|GgPbm2Sp;^yRa<0IP3mEMmC5}my}l^Q2y^PN-%5*Rb*
z6@3pwE~uz=bqH3Jw6G{TO?W@QN~l!TDISo8+2A*#5i1-WSb&Q6phFa2#}j<Y(>SS&
zHaRBPm@qheY#^v-4)%a6<eK(?qv36=`<YIqBWgow$H^6xMn2Nk_GzQS2mcf}QYh|>
z5A5=QAYk_ijM#kEEQY>Tk(V<A(g$m#m@)_wYMH&1Fa(`MO<u#AM<7zzw=hU(P}t9r
z>_qn4*4BJ9>!pPVNg59FU5D_a=oPPd-shP2!)W7Z1m7!E`MoL1+Smf_bJJ#56>B77
zYeOyO9xTgT6-9WsNzGticQ<0;fZ-=TL{9cYj|GNx5Z@zMl%4Q_gU;(b7+{Zt#O*%S
zu<&3eHh^Gcz5Qp}yZTR^Q{hLy&Wr=hc!qZjx$8WH#Q20L;DZHBq=q8VE^Wu>+VQ!8
z0ZtFNO}^*@HFNfjfs_B5+y3WKMAYM75mU{HM_>4SGOsNeZ%gO3jeQ;`zp{nbO6yal
z_36@;V>#E$t0zh)_FUe7Y5!{vrpp@`%XGuouIb9Ui-#^8n#`U$IDRNyx&HiKMljug
z0H%n1QG2O&a_4J{rz*c*`)2Kxoo_8p)odOsnnwKJ;q${2D=)WPYDw3wdHeAzJJQYf
zrE2d>7w<w)4FO&s+hFv665a(v&Vb=Ckn<V`gv*9PpE*auK-*FI5R>0w*<~n8`A!tJ
zqeTVL-Qf?a<uDi4hdCOL>cbq%1cS``P{|xFJJeEKE<4Rf!DSB}%IVHke0H;h59JAW
zJzu!%W%qRsb{%g6li0>1>}<f=Dc}kTl=~cE0kAhbCBXOK8r8O=@gPVf^*!F#+XHoA
z@^3rrcUu!sIC1}6&p&A?>OR_#fbvLh=Ky>)QJY@-xId|axB~PdTIV24R0jq`i=7(B
zaIh|$k2S0KpuA(?D*ie{eSK(aJ9*CPW70bN{4|4qDl7pe51_m7_z`ieKi;7^JPnNq
za>pU^5n+U^0$mT`#?NXz4@J`3*YHh1vDMY^mA@=hHOxq_r<m;SQv)-3ClLj)Z*b`3
zOl}WCE}<7Q#qFlA_^Z7qVU#p;(Ml(ei7+b3k3nC&(z7}{KXzSMLix|RjMt)!M~r(l
zuXeh;3JSe>(>k!s!aDpFn_gN!7I`mkk!)2TDncb{u-?XU^SLB()h5fy*mD^_Ble9y
zMm5~Y5TGNfG+BG2P^J!Ibq?I)qNWjx3XqpbG2?pXPK?bayo177=H)HxDqaWI-OlA8
zS6`8T8s#th7N{ry=}<T?L8L-Kek;+sfS@*b%0p1bg{K_vj0@~Ft(iQEz)wNnaB|@?
z6=AFrp+x9t6uQh*ddqGbZk)S3;_xZ}hlm65O=`nnuaXD)X3k8^EJAL$nL_gymZU@V
z1jk*C`52JK0u|=I2(M<c;8UOg4`)h%0LAShc%HJh9p;_M7idIalu?y0y1ih;cZd<i
zi{=89bc&c1;@Nz`?Q7?D(ICa|aRa2$J}9&omyNf+bUK;$V6x`E-`()7XMbn&w;GZQ
zA57;xh?w_Vwx;qnk448$gF||F>TdE#D_$9XVfcD+>G;|gKR>zR+Vah*<(uCv-i&>6
zZRy6;(v4T1N-y0x9{Ks$_0^42YrpdO@yL56E8eeL3OB6}P1mm;+kG__7mRyx>4l}!
zu`<L3nyy(nU0rWt0hLr-%)5|h{!(#*5IL%B86roC=5z%$r?<bb9YLigwoTPtNxZW=
zS$=O4E@8`S#vY!#Q3)L|SfLyL1Brj5x&o9SUb><0oVB2-DE7~|u;c<1<KM!Z@Cu^M
z3<@LHAB*wh)EcnOOsyw)BG0(YJN3oJ@Nn%e<Ngy15n)XkCC2ILWGrT^ISFDmggTtl
zOtvxM@}9}#vK@HV8FYRY{hKLZSZzeigvSM(XT^V%EJ!YD&9%_y*b+P$t`As?nHwU%
z5JlVZK@cW|mE+HR_0DVcn^N_gt`=^du3C1n|3d#{;%mp>IG(P$<66~Ssj9ouRa?jI
z=aO8AaAMh^h08PYY)n;cOjm8bRs~hyo$0DwbTm~prfo9xB;j+R5GPR<$O+uI7Uv$g
z9qdBN<76s9I}6s4aU~)k>OlqZ8pf`BJIDMbg!W7>5MK`*6a2;ZkN?@&KmTvv*&#lj
z1hpOe!$08ly?Y?VvJj>*%ZcJMH}N~QC}60q=0z#T_-?f2`H;tk{d)1T>5|%uMHh-D
z&P}aMm#mwvte)6<dB>$4Q){ktrR%n)Dz|2Mq(Yk(q8)$n3zvBP+C8Ek1jsk9JYgk1
z>ToUGN|YeoV{)B9YAuS1C?N+2_L69H#fL?8(b^BU=0q22KUO(W<HrhjiW|VvT_|WT
z{4LjwefYUG*$J;Dxgb5QMD9>-0wgC$(<l@`T;el-rl8#p_V5pcoVsm_6INWUyA6?M
ztQRGst|$d4&l5-B-cu~Xx=9!*Yj~<Md<+6q5qpXV)hY&o)U2hJG|8$6R^vFy5UWRr
zdNuh-;A$?rkE*b{GRQ~ZXFvJq`f>`QUjpeCOFfN75@8&=arPO7GGGv(9f^7Z?12U`
zyUzTELodZ6FdEUdkm3peo+CNFTI}BS*CJjQEg}HT6Kc0qmrzMq$m)W__UtxnVT;PK
zjVv;6Ec7@arr6kF2+5g3yTlNv?-4%!SthSBv0y=n2~9H0#Gt>^Zd7(WdCme3Idn+k
z5Y8#enau{}%*#tXm%9twQq3y}J6=Y9Kh<nKy<e+oPSrF|^`>j?#>uyGHIK~?hR5~*
z!C#Bj!zJM4p11G3vg2Eu(rfp>7khw*=Lf^@S8Zax2f|}}C0{%hi%(X)z3|GCZ&jrm
z_q`X}&wMbB$O~00^ibyj`_+qJVHcZ=?m61r@Heg^nU6(;`PNVwne2t9-u0}X<7ohe
zji+|bZ3VRFv$O4c8e}0CNU@@Z0IC?FBlXvSH?rEC7<$;4@08-lT}|#<${;3Xc{n?<
zoaVY~Df3LVJ{)f1Odmw^70=}J=Ra?PH-hlme}4aT&Ejh{Yf?39rmGiSt8PeDHyCPd
z9@?#BDQGtu`{WzdSnuHTWGE9hiyIgHj%X`2FB<l{co~ImgjldefqsFENv+^FLM;^j
zEp}ni*Kw@!XjEh!4I9%&aL__0?70+$^!1kh1#kd;e;93*Ls>MD11W#`NF<OJ#3922
z78WCy1p=mCw921rT_iLT5kf#sot$WEIj2=js+lZ70?t?jljkhr1EOz-F&CTzNMPyO
z#Cx&liu3&n{z*SI&T~xOLoz_(m3thQirE>*gW(GA)EoZLPEP(m!|ORlUX{th#nUx)
zV-I|1VeQ1$$-Y$Gru4$iV=?T-Sk=U#RN?CBl?^ce8cxNQ)7WZ%s;1?g2fj6&+V)tg
z^Z@v3FxGk~Rk~qnFA`Wl=7j22Ds7E)ZPSOLNPg@22gY`dS56m~C95{2iZ@M{R9!1s
zmMU2`SwA`SUP<%&{Ch>JWX0rxsg>`QtotAzWuRSLQZ=?<E*#)a#(0Eo{K8ypq<t`r
zgt4#imKSuU0(ZZYk3|-8&%q;bhvXUt2JiPlyW4}#q-L2oTZ2o_6U!msRBYOQ0_^9^
z%Piu|wtr&Zq|cFz%Y5?$cV5P2-etC@F?)FDUZ=Zz7)&qHHJPW9cw&fw=JEU}Y%y?5
zAuD<S=4g<N@IbB9k=EdAZH)^Q2Ia|HK|mfy)R{(3Cjkc=r<_@Mrg188XAU!KS;c=r
z;upcP=HU|0wt)s&Pv2(>k?%5I0W*GwF8|LjnAkYB;A&ocy0BPIs_OX5rCKpoIGZ0T
zs-B1_$ocl_YiqWp)@-}FVEc64(ra~VQ*~>v)!mV*yW>jan|a^JOV@3=R(D^j?!I*0
zZXTg|-a#EW?<|VXlY2+1Zb!QA-fMLars^I{*F7vJ@8a^YLPZ_du*2o-@C=%KOPc+C
zWOCw6WLN{$e*`WuspCkH#Bgc$;^?9emlwbaKyisHwX6OQvT*m;E&0)k?}w16rm>1H
zl(v`No1q&-iGG)q=dv(YOHp8W=MO`9OW8K(&rpA+%S2W#U+6}!obND4ITJqb!i~Ld
z(Mk^qw?6SPS_{uFnwhI;?%>w0Vr!Y4^tYCeK4xn-e4N&9xUJSUu(eEv{H^69UuzAa
zaDyjH{|dm_It$wO5jY`@&g9?k^beh)9AJ3I{OjQuGiC7paT4<lug?w%%~421ecq)-
zps%T?9qtOCdAitspTbl!4(Z85&TZX^7H1La(ekaC0@CNwk^x1ln;`Fs(~{G9lrbSP
z<y-{+!)5j>mMs4nZaHpE@bZe5C716^7u}c4yHA!X&l)_YAH=8UJ(>Rz%BqDejzZTU
zzr$pd6_eXUVGnF7W}(ElOPf#dy-&BqB3lw8JYl;dB`4?b7xT`Cc3TByGj=3qhwqm8
z+I76U>zM&s+yM(fF|4;&c}}7DBHoF>4FiK>Lr)w*3AR3en!Sh5%0z9zuQnQc5ICLW
z<kP^$qv7*eiI5@;Y4ZOM!xzIi0~SR>=fb~~eFjq~qRTdc0RSw&j%pn7m`-xbj|6@b
zPln?@tNWI1y<~+A>}c6`th*14WM{_<96qtG`Y!RpyG83KcaIH?KYIS`#K!lEm!^u=
z|BX18_<LoQVX8r(QvAr**ryIfr~NV3zr*BbSsjD1psv}xP^>szw0>&O)uQ$3!u83>
zdYM397y)h^%#zVg7=dU3+QigTg)f5<@tH7^C1Qf?k?a_y$)rTXo$K)Rz2Gq%fnEaG
z-LBh2qG#ADh!hxMOFD;o2R$>yX_+fGlbP*OGfT7$6Dz0|BkwtxOGKg=0AqtQ++p1_
zQp8318RTWKC>NqYsxjY01>9bytYkd}R^%ygF$X2)^^kl;XK0DH_2aSB&!{0LB8J!L
zf;{#%;VHJJy${O_F-la68LCD4jO~rC9HD22Q-f+1s#OyeB77#_mW96&RwK2~<m&Q@
zXU|gysc}t?Phrp<Ce-2=2LYhIOF~7J&+nbiEg63xmAhne>r_vw{;qc(c(;D<bmgM)
zy0M(;!qVpzzgwa5CzVs`-$vatg<TM7GQJbkM;xvLM~ENt6=rHxfQtUUzOyX@=T07h
zzp<|N<K4Y5jhl(^=}d9PW9R#5+l)270OfTO>KVqx<3NixqH_oa93GaP|Ch;sV6u>X
zTf*|y?R3sF)Y}bbMFWHFEG}a_Fq3cZ6?cQ259bB0{Weyy!CyMj)8#GgY-R2}OrB)Y
z!K9bTvrLAV3^Vy6lNXp=VDb-{OfvZ;Ccn(&H<|oClXsc?Ig{@(`2myv&LoS?%41T(
zq?*YRCM%h2VzQ0NPA0pVJjCP)COk_z?M#j^;c46%Ve$ngUt+?LV9r;V{34TIW%3Ra
z@e(Q??tY(tiq$2}*p$k+=sAg?UKprCkqH4Kbb+8-f$RcMWV!j_{@><pQ**P!*^cFc
zj)n&Q2X4TA35P*`g^T}9sQ6Dq^?w#B`ZuB2zY8@dL(P90+Wpr#_vVM!em}%?c5hiU
zoIjp38^X_Q$!D^{%g6T5hWI;sHc}T}KVCT-!q4osHQ|Hd@v7Mne?L4FE?AV63{`(n
z8!B7#VJIuy`22o&L?7RD@vaMZT`OOeDql5~4=DHi?mvkXjy*7uKe_R}NW%wFWSlK%
z4liRx`1!CST%_t*{xRxV9$w9c<7f7P@X~O_*y-62er9)vmxU|FkIshhGrKPw3s;V<
znhoJ+cFFDB7pwgEnO#v3t{U4s8^X_QZGn1@AOHP=@T1`|e2u@e@zQYX*qyT>{LD6#
zhS!a)=KZ?ahIqJ{jm6LG-tfxsN|wOS?5DyFsvG#3eImReTrjqGHiVzq-f(5OdhChW
z5PoLYm4@#Rvnl+YZ72^fWH$WFHZ4&1_?eBz)IEM?mn;o0=11^@5vfuy@H4x<D!h!<
z;%9dKs&EZ6;b-=-@RD#7|G>}eec{@03mc4|*{zkh&u2qgX4iS|x3f{Giodh>X4Qqa
zjH8M8ncbEXejq&l&}@jmvt>8?s~%lODg4YnglVi|h4?|E*Qx&FXZC1#e^}+?@9d$h
zomt^h=H&0}zR3OhPyWsxjFhT*!_REP-6(f@HiVzqk?<naGq!Iw#NXK+G1Ytg%r03G
zUdztoXSNLssD(=uKUhEyhr@ehhUI3qBWr#5$?$mYY>2<JC$PW{$e;Y3UD6t^pTM}`
zXZCn_z4`+`$XBKQz|ZXZZQ+6md;mYQpTpo`z2Yza&K}I-hFqgJ<b3xz;ay=)4}U)_
Ui-b1-^Q_xAn_U<#6SCs}2j#2SLjV8(

literal 0
HcmV?d00001

diff --git a/crypten/nn/__pycache__/onnx_converter.cpython-312.pyc b/crypten/nn/__pycache__/onnx_converter.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..4e82f104658dc5cacdc46af5a4ead0f1cee21d0a
GIT binary patch
literal 14933
zcmeG@TW}lKb-Tdg4e$l<{m}BE2Ska~(~>Az7G;t$MT&AH+Og<35QJS)pg;h=yA(wh
zoY09gA!|)V)k#H9(}^;5TWah{l$o|sI{A=0PMfwL1q3BP*UUsSaX*~t2Tj>c?ap+1
z&fNz<2x6RR(&<O9gtK?=<J`OVo_k*R@Si*$Cj;s2ivJpau$N(efiHTZHSqHAu8Co8
zFajg65oSbvvLh^gH;tI+(>!9PPj12#GO^5rWyH#=Ep4>M6fsTMN9?rB9C1uIN1Tx7
z1WUv<;U00bj6-eh87ZN7N=Hfs>qwbaTA^X}j`*OLb)-^ojMNCuSDBGo!3D5Ra09Ft
zJOCSn5`c}Od;Ez0A-N}%9?iY!IVe4*=W|aeJ)V2hb5Po&=W|ae?aRICIVgQb&*z>{
zdNTK>=b&^@&*z>(={FrCTZJ<CqHRJsK)+A{aJ%3I*e>`0?hq;g?i8v3c9<B^I{w96
ze?2Eu3pGORTW0lL*d)}w%D$ylj_mr(z3TIN?cShQgHU6P)%Yr7jI`%7_G!xNvv-<p
zWyJC}h9E`RM#|1Hi|kd;6m!LVj+xTyfP#Q-?2)R8>XB;Nu9CK^)Z6*_5Ab`3{H)@R
zPEN$90~f_eTqN-BJq^#G93#C~;xQr*Psc^+0~Q)XopmB6Oh&}vKFHgNI2M*<GW|h0
zREDsHo^WCD_pk%N4MsNV63km#ewLNB<!6`#tCyaIL1tcb@{pd6MK6m)miS<lKRq<`
z0uMur5nd8WI2Z}fhyovuV%_;zG<qcf^9V=B0x=R84M)WDyd2|${L^GQJ}gGno*fjc
z-=vfUBC((lpxr1=#TAfafe<v7#V9oJ7Qv`EbL}NK{|wK6y0ufDh<9G;B)j)@YP~z7
z(N5Yhq|RO>9r0<!F-l?+bU;!HUAMzessk{`d}L=TT9PgM)8$Xhom_EMEzYD}ElIBB
zA=EM<97j(aWayIKh0OXTh2_&)&YJQT)ub=#tT|yCx9Es+Pn`}~Mz-mt<90old*(JR
zVGbC066SGFu8p2cFyke9KKFdv*kG1Pm|>GmGgk^WnSXYAI7UJjwQW8hp9TsHT@272
zIuCpO=#KIirg@nJL$L9DSf=<UC47-DiqIiGDf8!r$%%>S0DU>HQ2?uOh}3UasseOl
z^r3(VE=<d!L^nyXgd#CXRJc$KcF-<}Vw~nYdTW(*EHHs^RI$?sjP2)0HGH??${Sc=
zM-`7oAnNx>xSL4i1Q$zj=TCz)LeU=hNy7kuL`oRPrlr~COKE%8T=$BvaVhxv;M}P!
zXZhNRS5Caz|B;nx-TD_hzrFLeC*5*%?$mv5)2fxRRAjj76j#0UQl@cls&Q|UtG>_e
z%erckTn#A$#3AGK!HYp$NR|1-C9r}?C$2BEesk~zIKFhH`zE6yIUI|^Vh3ejBX^01
z<0i$(Xe2hJZ6w{ebqA5Z5R~Bb#-bF@MOltZU7ej{Vfo_Zg^o~cf*znwIEosgop_)+
zFGOM&IwyjXERs%nbPp}lMuj6rQ4Pbk(_P`i5>G^Vl0;Q5AzltfCWCagSg+DSHyM+<
zXg}PD^SSW?V<Z^A7!btK^Id#DC8NBrI)Rlv;wW;M3!?tvqL9NxiA{pODhWnmL@8Gr
zo0Netv0BaXx%!#y8j*BFqaBnaa+AVO62v$WLqS;-I{2Am`kGFKBN0HtM`F=2k?_)F
z9J#i(5b6p^xKD^s+nzqyo(_MNQqiMfg!<11NfhW;DH-kybPx3ehWqv)*Hv8o6Ns;u
zkQh-+@~C2=E1)=o5-w42G9oKwVcI6QaEeXaBE=z(Qg$m6#R*wSlyEYNRUXA1RLbHc
z7J{+>)X`;E9I?0@o&f$%loCCwRXHbumqhgdDb~>#nFz{?DI8O5$MMwmpH?hWBrJ<c
z`B_~?49Ct=xu9^8C|;uH+V4<&xn<3pvQ^zT#is2LoN0Yd?3l*>)hW6tkp*Dtz@qBm
z#E=F6k^=ye5>4vCE-lzaav0k5Vq;_yaJGGnt1)Zem$jdKXfeC2tBl!VRgY&r@3%r@
z%KLu_nf&89p5F@UFzH-<KLgSr$E{5X6tmi)2aSNmfBMnRmjHTyC^N+NM&mqwlvxwV
z9bA=y1T00v4AQ`KmT6^nGZH%mdh$7jg@0F1sJe{bJadU2oHO(+OMHLlX&wZ<7@WX!
zCj;X}Zcmj1x-&cw1z#vRP(lD3m;(Mnk*TM$h+r5ZxSD<o>4XQ_1wg3`h*Sp(tY`X7
zfyuZ4=TOxlr0IzZu}C-+(Dfk#mILEAQ$awGqf#P~aP5IMC}j{Y79)5Weo_bk<@8SX
zwYr76*BVwC*7D?1`HCI5{msVPuKV^QzcND+=nIzC`&=6^eTVCsbHVwV8)SmsDs4Y9
z*NuXq@0Gs!-LLj%UGBMOepLzmD85f67mV|bl5W5G9lxb}k8Pa{Kox)z*{hHN^9DG-
zU>;*-cvDj`A`m!efzpE}!SYS(ta)Q)Vq7<)^iJ?hun8c~QF9oSgE!efV1X<cP!g;&
zGwZfL$X^IYgJgOGI@qc17wq@C9aDwWR8Zx^c@*(@HKA`<u~1S`tSUqBTNSSWYGN!Z
z$-$@`7>z{)WSAbEM1mwZAt^4}DG&`#h?3%qX{xkNM=~hWid#jfweiH_k|+m2*G10g
zw-Q`Vg`>>3ByjrKv%SNC=X=kb?LR%FSg1~<aFlmi)qz3dpgagU3Z*v1dTA;M!fm~h
zL7v2V1Yd=p)DK{eS#>k~=4@?awr11f^a{T>!yioX2eY-!OU{+rtsi=9CDysVkIEQ}
z^J^zxIho-qQ(WcZ#LX9PH>bFxw=du0j#3h%919q$Hz)*wdtVj<!OLTTcq|s#BjgoM
z1h43Yu5S3=;F$O<v{AUHBjLDWI~BY_U(L@31%*2!MkW>K8Bv%FiKoP1RB@>Jvy&6+
zObz5Olx%+t>z2<Ob6V>c;9SqL#dTwWy|fLM!*-GZt^}wseVNVi&2i+t1qsPjFxNt<
z&ObrJW{PRf#fZI!xyFS|VbJbh+7I*M65P1EU;ucP(NLgi9JRHABqQgbY22sha?b>(
z^H=@(y6Nfxj+wR0a%0S_^)Yj;%3;uRJ<LmjHpd#hEcX;RTsv|cz5uygK~h&JVY$qZ
z-3iM^ZEz*WQR^*8`hL*fO$C+ks*ZqejjO{6>v;2{EpjUXQe~855>{OOYry!%aQ$J{
zbp4CW9=;qXYu1*q;TK5kReQpA-F(%>F;^R4CGE4^tW9pwM;za*=W@@4UEZp{B`o89
zJ)e8(->2`=3{>fP7{8s4ZytwdVM^HYD0D|*EihC|!ba&+le1$?PV!&fsjkCI-_gDv
zZS;Z!tK`sV6!v}Ak#H2H(cOBtghQV<P+A?Vk8{=`qZFhG_Pz-9B%H?SaV1>ia25(v
z!uhsE$2;rJTg{^MX0&A2wJbt6MoUxinF&@(*H-<Mj{)xhYq!`wXnY{yMxOAt?JeZp
zkbv55bBugIeS`fl8)KT${zac)$TZ7MsX6nk&B&W(9aD_oKGWkwJ@PSDmf`lGn&{)b
z9R&5inYPo>$TZknqHc14P}1xJ%~}A9f+|0Xy<ZTca#)@Q|Bf>#gYtY~5_D_D)<a@(
z5L<qhpkvS9pi~FOKx(PNZk;?cN5m*Wu1Q(}C>Bj;23<{79XCYbP&yLy`YBGTAyW?&
zK{gIrcPtPjBsdMNz;Xh0JRU%)Nsdu$V3bEi(v5j*Fdi49AS#4#NLK8K=#n@sDO?1+
zQVK`&&Y&Qm#Q;7l#qlgkXb}uZ#bJD!;-lYTya&)!6csNmHKcba5|lKzfZATQ0KnU%
z;`Vz8`a(z#0$d<!5s(XXnsHSzuuwyf1hCAass|hnOU_}5;UAzwDJ6OC0+_pm*pVKL
zq-v2aC?*KrgrC$4at^deH`9FZjx)_ao#Gnj1{NDuTqW~~w5#DJd(YLJ<oc7X{b_)%
z<`rMvjlt`KH|v)pcXr>3rG4N%0F9t>Q^wbp^0j4ryHdVg|86mtSRc5{R?UpVbIq~f
z`1<~gw>9N$eRD9=b|}?$=uTU@?Wwf)Sjv8E)eLRt`oM}Qv98(~Pw8B5wyZ8w#;3~o
zOxfmC+2%Edvuv8@vaZr=M;4AOb=`AqUT*vD_FLO;f9}@KJ5QvxcV{=ZFZX=+<gJsp
zU%quJwYe*^`B-Z6vGnHS^L>l^ZXCXTc<JTqNAI~?9=OY|4K55W`F`SVT6F-{)e>e?
zTgH8AQMk>0-}yb~J@=_)?v8MG^lzfSKb&-*nny6#n{uC8Df8X%T=y)AZwkv#eE0CJ
z!*4yA-f}3_bSPccwFZj!01Gp;S7z*d%Ff^Py?Hsa^+0Otfjiba@(<kUt-W{2PwXdG
zK^-4p;Va9l))<e)InO<KX7Ha&{-NZjm7l-MEebcn*TeUl_um%M&4*J}hm)0`pLYUS
zslm@1yft`dd%C7~-UF_hx~-YoU8&k#cTOg2ccp7j%$KZG)h+G&R@WO{>8dUBu9fQg
zrJipMyfKij-Zt;nm+sI#S6jAW+j99Er<3(N<_C=lXWcbR<qM~mzPSA2-30Dh^T&+I
z;ashTNq)pLmHy?%wC?~okf<-{leJzJcI%UeHH>G7{ba3#sd|BxkX^r1+12mk-mR?Z
zueHA0VFmbiTO0c~S=VV_$nU83wFsH@+E>oHBwIk^z*Yq*-ww=^XT>xwLoS|W@>*`_
zs{{kWJkv?J=pguerF<tc^@X6Lm<NMVbseitA!@p5cA#Rr7?kJ<MM*{m003_RR7w?f
zAgerp@-GzyFh|tnBow-unTN&>LGTl-cnSa<P&;EUO_sLY?7MGk&)VxXIxD|#Z(S+%
zUYlN+PS);7m+nm3cdocfGp;Qu*OuhguC(iLk~^$A2Q;w`=<<AbTcGp?SWe@#cs(d)
zyMd5rLnf*SffsU?O|av*odxN->1r7WbQ9DU$6RE)0JAv{Gl;wmFmqrrq7qM2!f*|M
zV*Z69ig~W3q2%VN@aDHPJYPnOk{bo*f+lKNP1KrZ%^+U68P)TrIu<k|Fc<}=B=yem
zls)q?aPommG3Q^<XoL#Y%^<TbfE<NJR0vAEbTKv=5zr|J4$+7Ru1bFQOk=K@iaWpE
zZg4id1T&_xjY<Y8*$8|%`XQ)DIfnH;2vF!z;UeJ#s3cIOz>8Rc;OFp@@Fap|XJ>Xi
zk!e4iYCoK5?@qOM|Fq)x&CQGZZ*;xhm8>{EHvk~paWK<yG}Uo5)6tvi=>4g;?`Gd(
z-;IIS2a?{txj_IZI({$hs$Y8fo{LA((V~hDzCflNPqrRUbH_oZWL;HD?xd?N$+dm5
z=3u-}v!5v5KI(XQ!+YGpy<_zrFX7hl5F{YVLtceUJ`c&e%V0LTztD9n{fVTk5(TLN
zqQ%uJNIIE-mJPM&r$RD0%YbH#jtA4s^OSGsey8)Ns0IPI5TiN2D!QK}(5f`mN>v0p
z_|rf#WGXC)ng?1^d*qQ0c!qF;$wdH)P3<Q^VFSLqfL=7ELL!q;vfgbJ!;T1kiB-=4
zp!~#J^>tzC$xQvORQ;}W{hoBy-gL#jxq+;$VljBnR-J8X&ou2#HSJ9|?FRwpXqg|%
zdYkXLn?Z;<S{~$G3gj~uTsOKeb)Z*J#*$wPm6(9bYo){uYYi<6(^+Im#d;b?o%ZAk
z`!TQ+kLhV>)3j$12K3mT2GbyWa!jX~l`b21TgC3PU|wa9&R1Uv{Ry(lu+yPO5ldZf
zDOfJ`z{Xa}=)|FE<MsuZi&$41V&0%VU`B5eO#*rfkSYt(46L}0A1;M#GrOJ0jo`G9
zuy|RNc&bCI7Y_R6t)XCR2LT6B*s#J%3M*5AJG1S%=%r|E3NCeZyMsr?pE`AOMVqA#
zf2m@BCMflV#fYH#zP<$5$Q*)`2+kuw(j`FzuOPr9r*Lo^C8-C`3U^dNSyG(Oqry+G
zHz)@NAud7Fd?7x8{SkbO6@LqW@>je2YqPJ+E}p$_tIdMkzPxaG-jf9#xpAR!QM&J_
z|Llb;rM^t*rc~*sH{BV2e~JgK@%y9S8%^_1rb~||?MGJ}?)l+s=N8Vr*0j`o&ruI*
z!eY;j{_Fj(eJN>gQfpsacrop$UFyE)XjH2Qt`DS3`J|m+ar%;#Pu*?%d;dHBROLY0
zIhf=IAH8HiWr`km0-1Ge*f`V)Cg<xNH?EAKxt0>h4z$*~!vUG=TxssG3E=7dV{qO4
ziE)TgRs+-JW=`p31Q&M_6}{*4F2r;mOlcw%BSe(qu_(G=>1DqbB!EViN@7DZ&H5FY
z5Cfu&#$@AijEeMFod1;V@LLocSh7^lLr$WUVr5|Xbl~YT=bjzz9a79tO}+|Melx^M
z0RDh(lA`5C&_TYQNk_350mS!!RR$T#q$?X%>?MotZ^klByHicOZ|}IvrJH&mnoX5f
zu)C~`y)tQQSShJV)*rd^g*!t(Zcf$?rb|vG?V75tZW&-RlEI<>5f&Y`%%~tgkc~|%
zrg|0IygZqBgJG!8R8<NMmCHbH+%bXtgrkRBtjXIt8I@g{Hl9I(LH|_3bc8~|L_IEb
zvf&B+je484-k`>+={M?4y_n$P8<h>7{@MFqeFZ#%Z*a`CL$1(AFUIM|4bHB&0@-QF
zTP=ep>jww!-+pt9*1Q$`?O?RYxmEq`V6^A0a}kWw4!?6|j<SO1=q;Pd3h0s5ui8Mj
zQbUiZaM0Z}*br3js0i0TM)1#0DK3V>qu~(62p826aROXiYBT_<{GmxnhMRE%iOM|`
zn-m+B;l@I7MPg$C{lzAzelVqUR189Zff&#VW;}2o813rP8qSofuX%m-7J7$DwM7A*
zA-_j)pFMXfaHjV}|JmU)=M*=5v~jhlIC5DF+;vY#Bn$)v7nOJ=q{lEB)2&%w471Tc
zq@aWTS&i#E6iiN)uGA2&S9d@p0d@V5C+fRH`e91IEM3~2RsdXaxff6lAmBxd9>J>h
z%oF1g2?7XhWTZm?=9rJ2jNSMCwtbmxM^oF5X14XDw)Ld9^{p}Gj;fTqZGK>>KFhaf
z_+2S}SDN3m#*}%g7TsCzrkjWEd3U^Dv-2Y}Q`wyHZBO~OFCR|%4%~64e7(SOef-TQ
z?|FB<U$bk27QYrpvUOkDyYKy){f{EK=j;8j5oYtD8K(NtHpWqcm$n&uN6Oxjb=Ti-
z-1C=1ADO{DgBQB%>NeePKJ>$*#p^ce*Lr{R@pp$lMx0b&DC}i|>JhqAqhg4Itey<R
z>))W{@d`e5ZJTtq1Q#Y|@)B6|s4EmCU4(38atY>3;1(xGHohfJm@ydE7}ElZC{RLS
z0tJ<m4fVg68lSMBm;uMUHe0;z0bRo$+zsd`M;N{cku^Fw>ft<+9*wqD;?Jsl0L?h?
z#HxXX1!dtVMP)b(ps5(?;QM7h21kH|Apj^3p%yixjYVT~z=^OPrHT(@7$x!LNiiA%
zPt_>jdnLXD)NH&Gg=<g<eiZng@MUdg(heSi-=Lw4U!)B}@#F;og+Lz<1t-Be1v?X>
zWJ19Rog)p{nz{(FlHgR2gn@xVc$20+K^T^#GevEdw;&QUcqJ?a!k?DJNqC~G>uK#;
zT%|ROfLa<{?1B>n+H&C258tvXrdV9{iF232;JCLVXTz{l#Yx@m^lDx4N-(J)p-z8{
z%S6U@%SsNyK2kr4Viv*^<V|>0te^v8{E-`6>=05GprcAi5Y#)O`QW~RJrO*K90k2&
zpuU$eC8gJf7ls%8OV2IuogYqnI_LWS#pYhDyis?(?)8RDc}uFiC0*W@+;;F@`N5Uy
zO_}QLsp{>^`){}2o=R6g1)kXQiW|P`zQxg{(YFs~+E1j~PyE=OYJYCgmo9&P-kNol
z&z(|rw*NnL^w7;b_-rR`FgCXSG^mH}(c<66xqAewar7?7!VpFh1F?=5SK#IeLFAE)
z_Qo&?M#1=iQ&gxmICJR8w~_At6ah6)kz&c8A^39y%Lu*$;1PQLBdkF%m`ATAI=$|=
zX;}^-z3%y)(JQs7i%W_pU|JhX3c>WYS-%FQMg%ttm;Y$r1%LIKd2WxYWv%161!WNY
zt@B&DW1o%Z7U+M#<icao7(u2f^6N*SScORpE2p(NF500pa~^I5fsJZ<C)H5tG$3Xj
zP*T?*uv!6?REjMe9Tf>>=E%CyQ7A%H;lOHdG*=1m{xAUqc^{kaPJAXd1^yPYL+8{~
z^@Z8QbUBuH=Ru2UlydMwM5NQv&0}@WJE%O7VnvoBhZmgNAY&qvf-$LlOopzVC)-rX
zK}LXZK0urFmPxU}Ul)X95POZ(bc-do@R85q**HPNKw*i(1|B&dV4X4q!3ds@R>%N9
zuVUPuYx@@VEjpI=FE`)*-2A?@>%c2LbKP?<=R%Zz2Q<yXH_;{dwR(g`T|+`Ks?L?>
zZ8gRF+oNk^42t)Em9mYY{}0i&F{l4Ibt?{IbID&Jb^bMiI|zON;1LR5!WsnOVifEG
zjimeb%Sge83Mtsn4*B<yO6*UgRM8ew11aigXkZ6wOC7o)ru|KiQd&?zP*GRP@_J0l
z;fSOLU^sKdYA7Q7r4crF=Ax!a3l6&l0gs>=fYOlbmz#iYrz_>g6!aqUhuHNxc5Tk<
z3LzyBp%D#6I<$t=QYYwbq;@3@;--HiL4&E)Kw1oIRLZ-x=)>;IV;D#Xv4=*H7F!5K
zj$AD`k%<7YoEH^GuHGHcRaq?zaqu~XqXCF!(7DM1&clTO9bNR+jo!yl|1fp>QR7u{
zQk4`US;i!)ds2Z;xfb2{TMX3<>HXcO_9Jk}!L~R`(ts04f|0%r5H4p}_F)CXy5D0Q
zzhGSNG47u;JCn@L_n7LRF^xZCw*M>RTji{5{d*kzuXs>dJ2$jyx3RT9=ME&f0}s5_
zbAu2SQQ?~_S+iQ$*0r)SwsvicAHWN2IqO;5R>FE#w=fMYnfkq{`n}ouW-a5bRbxD|
z?uu)t7fxqOD^>qA=(HJEQ_9tZ6$1+c*@~JQ?bqA0<<+P)f9Q33!PmQ1*8wA3U~TM?
zHJ_c`yjEq0_o_1X6uY*?0oj@@taJ4Y%a|(XYBH=Z#rhV{F10RQPP1FqOfI(Kp_wsl
zUB%pLL-9sVqY>m*>k1o5X}0x4=<h*HZHUS9D5mv|X!HMA4T7h^3s+=peYUdhD?_*i
z_5TTLh=pdh_Getz18>b&23KwH@~MQ!;Cs%Vqs$Loy>8~+qqbg$`A2pZq1)5jX#P<H
H3-G@IN1*+m

literal 0
HcmV?d00001

diff --git a/crypten/optim/__pycache__/__init__.cpython-312.pyc b/crypten/optim/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e41968f50d4a8f1941346993c762c72fe6153ce0
GIT binary patch
literal 252
zcmX@j%ge<81Z#x;WhpW;FgylvV1NnA_^bkCOlL@8NMX!j$YqRTWCXF9a+q?NqnLqg
z<`kB6rYM$5R!z2-Kr<LL8E<j=7nEe?W>%#Z0XfXU?k+{lK#3w2AmOLUdW$n3CJh$9
z#ax`80+zhR9v`2WlM^4mlHoH@EyFJr{gT`Q{R;geLlgbvqRN7j)I5E#X8rj1%)HE!
z_;|g7%3mBdx%nxjIjMF<+(1nrHxx?(i4V+-jEr9e7#J1rGKhR&W8e{=!Fqv9u93Zn
H6DSJ+;om$j

literal 0
HcmV?d00001

diff --git a/crypten/optim/__pycache__/optimizer.cpython-312.pyc b/crypten/optim/__pycache__/optimizer.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..d27014ef6d6bfc9781db8b199ee23f4a8df1c556
GIT binary patch
literal 4890
zcmb_gO>7j&6|SBidpx%B4{N}Hp&%GMtQibT669>yCE+h5%MvXLk+o!|JzX>Ip{IMc
zx(8!xkPzZPBqFhg1X!(tS3%m1*h3;k$~E^~m;kcXag>#E%FSSM*+Z1?Rd>&f4SP#V
z?&+?sdhgYH^}g>t|FyR_&2W7=_}}u*0mlACFVU3@A69>Xhr7&RhGwy;;8&Z{@E)^b
zmH1R#V=;D`8S$IUNC>T*iUhQN%Sub@ot_@WgZHWAoR&%cn_kXkG(RQ9M>SIlqY!)!
z?y>M?bq5~qGQmjyRLsz(;zsNyn@Si-=+_`Ck?HWe-miLQ#he#X|0h=dKz9W%Si0--
zq9eI(S=@;xxY;zvmCf>5UD~Eynw(SvG<aT@dPR6by4)7R;GV;$1$V2WU=~fh>n<-i
zmL&?F>DVs!W^|9w=vM^Sxk1Y+rfs^OS!fD$q#-191XE2~Zo8NwY!8yXSs`pLYqp!^
zC$H+2swG_R6uC29hKf+W;n@4Ura)KsOt&}(c@DN%l}=Si&%`oa!cc)lx@~Y1w&<RN
zZ8%qi<X3d77DzTsWx6i0B=Ey=S*lfFj@$A=mAv5cF(qZ%5}8Q|4P@et44hQHoy<c;
zVJ3S)*sde<+#PS4NzRNWkxu%^5s7H5Am^%ZLiUIF4VS|QAB2u}`7C)h_~5P)>drVd
z%b=)40X2eskVZok^_qpP@G(+Kc5`|luX{RTgFu9H+I$iUf@2+fjV}5?VIHfwi2dvg
zVx@EC9EvqBNvBrjh9g`AC_E$-7*WY&(@M}e#}kwM!VKabSt~hSbVJAP4PKN^1!s(W
zsJ>_4j}9rFyje$H=Ch_Z!&_booKc99gL0%3e{uY+S{S{{JdFnFs%u_z-lOoz?L3R5
zeiTe#H?+ED#D?*9E!MU!<|V=jtlSYjwSK*3y1y>Ti?K+T?5xL1O2gY&Y-iSJ=!xVt
zXLoyj(U=i`6z<}N<^iOFs~(F+$!d}rS$~3EdJlVuw`qv~pZ1{L&bHZ=@FIw0<-y3V
z)^ELO_dEt8Yj0=?R%himTJxf(^5*EN^&7<odpg9}hlty?#I<BS>1~PT)R-KsC+gZ2
zO>XeEMWaTto>;53u9ZikudQFKOh!J}*zLEJZG^GwuJW#R19+`#(VjFm*OBSee}ym|
zH-L*lT7)Tqvx_Wf=6dr`0|a<p<xfuKj+<|#u1b;uU<R3ubSu`ZAmNIpEx1=xsS7Pq
z9PlJE8OdV<J}E<h$;hL5B&Vg%5psu8D!L)kgbH-2MLMAu!J}>%5b(`rLZn(icmaql
zN#VK?UXrxeU?vT>ZLJAFuZJ}L8W;mhInbvPUb&}fJjo6@s1N~(LM!zGglf5QeycJf
z3`C{o63v7t=y#}Z?))b$Fj6D05S}ATx(zY~k=Q_OP#7NDh;N)v*E|*DCcl9cfajnA
zm)0mEnl(YYg&Ey0iFI6e-V#L6h%-#HK!;cZPSlO;{IQm86i3Il=Atc&h!6tx4h{xs
z#YqeHMaVjTwz;DSpG~73p7j9uX=PM)MDhcdw$`7^4ESl&CDU}fAp8VTiJw$>?RNy^
z<adTl=BHaA?Z>fyzw5$WRh*R4k$!^q=%+jk*r+f3R76yM5*%A`CE>T9{u$A9up$i!
z;UvFDnG~js-=S9_#X!xIaD`R$yW74>;sQUZM*M_Q)fuTGAg6=G`PZWdy-M}q)r0cT
zk%OW62bJ4{J5^EH>YU$)G|9C|pC4{!a(3M(!Ws7{z~DN2+0Xj7-h1<*_q1>Paq8^j
z?Aa%{_l<uwu>Ic88v}c9bu4!e-6?)rdr-e$|MKGEfp;1Q-g&&^-KX8hmqy=QICJaA
z_fmiB*|pre`CiAv_|x7!%Y)liV%k7STaCvzZdhUQ-VHC)Y&7%5rr-U9CO3L^eKo`v
zwls$JzhKF(!CNPnH;&vB55?!!XV#xiFCID7ICARo=;>!0&n$1+2~k56%ZI=F=j<P|
ze;Imm`1JF*Hgtw$Zyto~fx(p|WUOppJ9a;~bpO)g$V6jg;>pP27p$}EJHLGI)`>g&
zmijh*I@ajhz2N=fdyRd^mN)UGH}XrHwvwc6ZGzHlVEbbK-bVl41@DWC&-%Z;(gztU
zgRHA}F*V#s4KJp6BgGfCJxd)}g#+0dS|_5RW3jr7+g(7f{1!+A&+9J`#YQ6VI%;F0
za=dpD85*&AJQva^W4F5#?DkNC&BeY^%F%UFvLvM*FE@*bmgei)?f!cFs`k2XuU|0_
zsw>3W?3sW)lVndOuKx!0#s^fpQZkpMZkSY%QjWG)?naR30a^jPaZDYmDbE23S_lYi
zZYyQ!yd#xzo|Cf)Fvg}G$3k5g;ti?5XHQk=fy8kdXc_{OoOKFFBwdQJ6vhGYO2S6P
zZ3WGM<;<cytcZ#u=g@yRUKK5XH?F9MK&|2!!u0@bW(Dkm?g2GC+LQ{ROlu>77S7K=
z8jARF6yPD6g5ps0g9QPr=srw<ZkC^dCq&Rgv?}>X#-S{~NaZW}7pN;iZ`3njZ+f8s
zasv!UZdX=@2632F!>*hvf<Ya?+5(@X>&iP^_aG6Z07yo=6#_K}i(_$-PoSVDGEn9U
zl;p)CD8+^gUfu5DEdNn}>dH_8X*dgoL!ROd6x5BewupZJf~<*5J`X=z<ae|Nb1-09
zFI+}@M@Pm*=aJ86X<<J9Az#~0s4bv#D%H^Q*j}sWqeG>7M+Ja%GSQG2Cdv-S19KFF
zsk*+%Yp?F(tt_;L=o(b_FtSN*ZnJHSe9??0H-qg*qKVcfqI15cCLrU-h@oL>fd~~R
zgxV1mX7Fh>C??usOR-P^#wt1s4sPg3(7jwXtFL;7rYJeO<vArmlcUy#bW?j1I40!2
zFtVy3tMK!47pS$NfHZRq0@pNPbUN~F;mp&Sq>#28s`3mzm=*<{Dh8Mys#7U}FHRAq
z2a38Yh@f5)PEDO`mBvBxax}xVQ3MhD#-Uf(aX_`jM$@ICRMapn<%&_yWnyv@z|T)m
zOfm^crMTbSX11SH6`S0O4=y!N<Q_?^=yx@b?fk|Te>MkC(26>4*V*$utY`Dm@W|ru
z{>Cu4EY`dCPI75v_rlTpxfe_u*n8*X(yq}vCx3kwOf#_ec^nf~Qf%vvXhFR9P}_po
zz#%Nyy#4O{$McQN2bQ*sJV<|%UJ##`KPxx3O#C+eJc%jK<5(qk!T|g$<^rmUR4zw_
zLoVm1b2%VY&7$X?T<#+vLHMOJmouC~E+?sPkb7|ZJySB&mL*Y_y7l70r9SB<dmige
zre5qAO=e%7)3zo9m1<I^LsBy+=^sY^P<uDr%$A@&N~-rjdWKez)k@>nskZ}5kI8Y2
v5$U;OxUIxBO<V0}THoJU&p+7ymmNRVH2COl_s89f{iBWk(f=?SQIh@#5xPOq

literal 0
HcmV?d00001

diff --git a/crypten/optim/__pycache__/sgd.cpython-312.pyc b/crypten/optim/__pycache__/sgd.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e1059dd3d0a2a3b8f8ee0b85f1577c3902979c7a
GIT binary patch
literal 6266
zcmb^#ZEO?g`8}WQ*s()MNJv8L<Psp*;5wwhfIuNAfwbkLYeQEWr9CdbvvcNrXWl#K
z3#Wn#X-r~TI;kSrDiO3w4F#?2yZgtqADy;8F{X=q;s?^!AN>cV6%{|GJ@1{*=LEOg
zq`h(Op1bGcec$K%-oMq<R3jKS>;IK(SdY*@$b&UpMc`2sfGdbcJSCxF#5;IeqEe1w
z2ZbDH5b@57h<6E&8?;G3Oixi^_ZQ^h#1|A?!<6oQDXobqaazDJlgPXlInbj%c>W>G
zA)sN3N5c-D8m7I-`r}=fP@Li&7rnzy1EMc_hF!cHW~PSSm(V0NTs4HkRXRO1IKX{g
zh0qJBv?QbiSyLHRQ(|MBs);csfjM4;mkckcF>((nuq;L9Bx#D75VbKTr4Xh}Djcn5
zV4M(CO~A@{={+N=%qXV{Jfp~rHYPA}1*b9+$HcLcGFVQ(WFo{=TEQA8#{@=+GombN
zA}5K{9GQ>dWWG$K4C@inj3jVa7UjfgmNjQTgcEA7A(X5o&0#L3G9eLG#EnWqxR<d&
zGJ}B@0H-pV!jOFtbu$WPcrgZQ;DtCWLQa(Am1GhoP>qsFt0km_nNVC(I1Og8*2Q2>
z6G{}8riyeCV@je*;3(nZTug%%gkW+mBWb<N_HaqSgdiryG?o`)+*BnYCLY#p;Ez4a
zqy><!O@%9q<GB<Nzy>SHvXNjfdwCVtC0jNRjVg+?VqdTTP`p~fEo@0gI7t=kT@sgL
zwJ|KHV~WIAS{rc`6@+r&PZn9xxl&vL{3gR2E>v>faZbtzs_7!ch-3^}o^2wF&Rk;W
zMwM~F@K<||2~m=mQGvliTH<2h(MAAlH{~9l1a(S+?R^Ih94I*zW}X8d!?Cfb;bu_?
zx=>2t1u1GfVJIA7B>dd=Xiuc1Z+O~kYi5PSC}akOC0h)wq>vO<W#h6bKP1ZOj0Tc5
z4krXH93ACiXC^qjn#uBh9EI>r7bUVRGp1?j-tO*+iHT@TjlvcbSyQ3{pXuJb`|y|u
z4{|p*s;1R$%Y&n7K5lqyG|I?|CiL1GISJ7ZwlmX=8P*VnpbJxx$BUVyyOcxJ%%}!=
zh8N>;5~Zb#LF_k_(bO}-I0T}gMHx<le@GE4#jB7-7!|}a3S=G(0=Segq2M!RzR<78
zs>lnN!~sc9YFdbiaY%hJNLnOKSjz$(0y>lCA*KN-6Hl1HqNWLuo$NdS+fH%XSlPD8
zYDY$egeaebe3p;}ex?-C1V_d=drsTdGsAR&ql~07%vR&g46}_%n3xDNGV&Bxx{Qm!
zGt4v0h$c*G=OjE+lmSvBD;P%vnSXjA6QCb~={1&qI(<4~fe9NNKW(VENCT@p4XK8h
zm?)++h3(LhQuT;1<AS8bL~SavGLb{{g1R*k&{KAJo*aXkL4Gn51AoI%ib#g8Xz|j#
zt1Zk-jES)^MgV_PreIdfa$r$nM^c4Ky#H^TmD}KdwO`Q_Y;6$tsBE*7u#Zx#KqRQ7
zP=ek#$ofh`$*2%JkY&J|1>Tew^OW@xZh%QU@kn+c^e%M;X{7ZqM%JOhJ9B7G3yM2#
z6yIW378;H-@Ps#L&^(xfcO<<QY~Qnv8%4R+{cWmjCi*|lL|2%Jt~e8I&0yVE%;fy;
znbh)~I4jC`T5_%X3i+<@mJd2}RoIEE;!G}U2J8Mdm33t4tTXG%x_S3|t{G3(jT^Hx
zUv*{!LaHn41ZX$d!&hbxPZ@Vr7O_@)in1taG_kgo2y~%63yonVOlA7%dW2#QTdL-_
z<Y{XxD2sl)5uq%V^;o_`p(zyho=8{}(=9K^P=iH&W!u!toST{6V4<w)!Wh+hCC+YD
z3?$)ev-noDOeNm1OLs_E_gGSOZ%KykFK5v`R&Rre=TGk`g`33+&A{1=2zd;;k<vR-
ziAZ^7N@Bxay;@X7SvC4worcP(yNq^Gul@n)P7Y(NVBJm95~t~F)w3B63w9f%yVOit
zz?j6W?qONd9kXn>T6d~~6xZEmtBXl^V-kaym>2uVg&0L&v$CtwJ;nY~)x9hmlQ?J@
zSe5XQY-5b`Pujb+RJwbz8~5z&j^U{^6uNGsPv}+?d^A0U8-RY=5A{20E$DmjMs0_1
z|K>dUssXLtFxUB>`u^cL>2B?|MSQFO!^wN~fu-P{<>0|w@ZfDnKG>hHA6W7a+^cPw
z3%x&dbMwNnyR|*HPTi(|{iZ>>cRARX3-;Y^&Ie!2*B@Q-A0?#W_hUDAEsWf)eRc&=
zOFnosUw>@Le~b`CZmzp2Ec)-(?)o_J7y8cLqXzAB%fW$MaNzbxKKM$$erU-*^uUeQ
zH5QtgLQ7{M5CY(#&)rac$@6dx@;A&iFTDJ-;9~gJ*$<-z|7-dBQ%n9+z|_%w$$8fk
zEcj}deN4{BEcqe@|Jr4L#~pvi!pY^$y*c>#dq4Ge{L@o&IX1g9=jmAJS`2;a+3^VU
z1ffH&#X&;TNX8fdBN<y5WTzDfCNOE1vcj4oflORt)fhl;fNf?R*@_97hwnl=7%#7P
zl7OU77>;rz?856nn(1hMa0)>KpVb7G)%}K(LCZ<Ld-Q6+6rCvS#ErlMK1wKcmqCGB
z;FU^h2e{LD3`q*%AY7)`nhs+N9wvm4x`@-<voy7NLAdLQ6dGHW8@qCiU0))~yZzGP
zg1>IrAISLwbHj^`pZdEW((oF$0`CfCk_a%Ac^|IjbuC%0av&n(hIvD~5Cxy>pfu{j
zCc8c*OVzJPwu-|+%uz(mKusinwsODCJhRjrZ-Iem$lng4rx_<ev;nyQavG2uAeRAE
z0pupo00Pc8f!>q#B+F}gaRuk8%XO7=^@Zb=Ig&L+*0S5TP}Y`_6hUj}$-1X;mDgdp
zu63XB%Kpmp&3H>SjmdhG#4A?~;H$Lyr>ZnaauuuNd$1~!wpI<T$$9~Gs@Sa<ny=<P
z+3Il$Z-Nz&7pq2T|HK7X4GT9(&G@n)XFuTO-2^fu`?9_yiHB7qTdMrY_Eji&gjH17
zG4IW~ry+S;E4S{D9;$H1x9HASNs>LgB?Ii^$ofEoo@B>=yB_e?YO+U5hIOaFdoOcN
za=qY0Sx4-tco{+)Q4dn72{<Tw9pcg8_{AjsI+~zXW2Pwceb_hsyYCB_R8CTap~xmA
z_;53ibIh+y@=a?u)Nn|YF%G)yFH=(SV({Udfp4Ht3=X%*sl|$ej6)^7HpXdC^##&R
zK)Qp&BWS~okNIjMrhJe-01H|M%O(~1G`H7r!mQ7Bxh9nw!;vB~nhm|y>L=LI4EX@Y
zB&8W8K3u0)6)Un{C7Y)Jy3agoF^&Xq8<6TwQuHx2X-KEx$W3>fT?O<$noe^(j~Rk;
zh`jEC&C7!B<^_$5jp<IHW_2f!z!g5i*|6Wt@Kr@6=}xj0Ogy5}CUh#T(>$BjeP+op
z>jDkiP{|(4Rb&(fm;@{|?ID$cKr9fce}y=NF2ax2H2#GB5u2}Rdx*Nc&4qPMmj(*8
z>z8Uf?==RN8$-FqP`+{NLqyeW{;ak0=X+-d9@79rf!@%z+_E*-vh@*atLd3_71}o~
zyqRm?IqNU9G7B4Wt&v$zA<(g~Ef<K+dhK`jTiWI(=i48l=DMEQLxra1E938s&%OnX
z0my6)EH_1RO_8OhJ%zURtMU2x)#Q9~vF@Yw*Vlg(ydJ#Kz8v0{3-9}QV0r(`x&1Ha
z!>{DqhUV$}Ch;77ziH#b**i_4LR-hx#C&3b`#`uREFQ~u?ajCK&e4UY_Jy9G&J?<~
zevrJD{B8ZML%(Uvb?u(>6<Q;=j^<hq7W$8TviDDW|GaOx|J7XotNH%dmIANM^)GB&
ziXObv*>}J5831yfeRKVVK>O9_=bv9Vl@COh13Pko9k=@bF!-y%j}P7U{_%Kz=Zkj(
zM?Y)bSm@mR!Io=V7B_yh<@%Oeq5Rf;`Of|G{r5XJ&-LGLXuNXdog;HQuI`@Sy|8Ps
z;o81@Yxmz9wtv|J%6U)&dVSDGp@!zi$0@LlVW7uu(7s`gCy%S(<pW~1Cu%3y^xc-h
zP4q84gH5jAA87*clP1?-hxe0!hrpX$gU?h!`$0;yeK~R>Oq~dONY5+7;SIDQ)hr9q
zmXVB>gk_;omWr4vmgSWg%NmWT(QM#7AWW|*wzx4tlAvj(%+`dY`98BRAuW{A@sQ-I
zZiUM?7tupUm&^0u6ou;772wynzEHQm(A4^MU8ig3SI<+lYy0Esh^yJ?J`84PgEj%H
z?kydrVbVMpxa-KIBW=(V&wg_Q2XG%el69!0emtNlih8sbQMI2V<}3GG6xDnw{52wX
GgZbYl@)g+t

literal 0
HcmV?d00001

-- 
2.43.0


From 57a6278351852468ddc081c6d6dc74cc41a76c8e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 41/70] fix: backward through an already freed graph, or after
 a backward that failed, lost gradients silently

---
 crypten/cryptensor.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 2f843f2..7fa7886 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -204,6 +204,29 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
         self.children = []  # children of node in graph
         self.ctx = AutogradContext()  # contexts for AutogradFunctions
 
+    def _prepare_graph(self):
+        """
+        Checks that the graph below this node can be backpropagated through, and
+        forgets what a backward pass that raised an error may have left in it.
+        """
+        nodes, seen = [self], {id(self)}
+        for node in nodes:
+            for child in node.children:
+                if child.requires_grad and node.ctx.is_differentiable(child):
+                    if id(child) not in seen:
+                        seen.add(id(child))
+                        nodes.append(child)
+        if any(node.grad_fn is not None and not node.children for node in nodes):
+            raise RuntimeError(
+                "Trying to backpropagate a second time through (part of) a graph. "
+                "Graphs are freed by the first call of backward()."
+            )
+        for node in nodes:
+            node.grad_expected = 0
+            node.grad_received = 0
+            if node.children:
+                node.grad = None
+
     def _identify_required_grads(self):
         """Flag all nodes for which gradient needs to be evaluated."""
         if not self.requires_grad:  # gradients do not flow through this node
@@ -221,10 +244,6 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
         """
         if self.requires_grad:
             with CrypTensor.no_grad():  # disable autograd for backward pass
-                # in initial backward call, identify all required nodes:
-                if top_node:
-                    self._identify_required_grads()
-
                 # if undefined, set gradient input to one:
                 if grad_input is None:
                     if self.nelement() == 1:
@@ -234,6 +253,11 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                             "grad can be implicitly created only for scalar outputs"
                         )
 
+                # in initial backward call, identify all required nodes:
+                if top_node:
+                    self._prepare_graph()
+                    self._identify_required_grads()
+
                 # process gradient input:
                 self.grad_received += 1
                 if self.grad is None:
-- 
2.43.0


From b69d41ca059d9bd3a6942b04d82b0e0ec6f1f49b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 42/70] fix: a gradient given to backward() was stored by
 reference and changed by later accumulation

---
 crypten/cryptensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 7fa7886..afd4550 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -261,7 +261,8 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                 # process gradient input:
                 self.grad_received += 1
                 if self.grad is None:
-                    self.grad = grad_input  # store gradient...
+                    # store (a copy of) gradient...
+                    self.grad = grad_input.clone()
                 else:
                     self.grad.add_(grad_input)  # ... or accumulate gradient
 
-- 
2.43.0


From 0f71d939f14cdb913688b51ed412bfd4210c2c5c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 43/70] fix: tensors passed as keyword arguments did not get a
 gradient

---
 crypten/cryptensor.py | 19 +++++++++++++++++--
 crypten/gradients.py  |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index afd4550..ce8289f 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import inspect
 from contextlib import contextmanager
 
 import torch
@@ -30,10 +31,22 @@ def _find_all_cryptensors(inputs):
             cryptensors.extend(_find_all_cryptensors(input))
         elif isinstance(input, dict):
             for value in input.values():
-                cryptensors.extend(_find_all_cryptensors(value))
+                cryptensors.extend(_find_all_cryptensors([value]))
     return cryptensors
 
 
+def _in_signature_order(grad_fn, kwargs):
+    """
+    Returns the keyword arguments of a call in the order in which the forward()
+    of the AutogradFunction lists them (which is the order of its gradients).
+    """
+    names = list(inspect.signature(grad_fn.forward).parameters)
+    known = [name for name in names if name in kwargs]
+    return [kwargs[name] for name in known] + [
+        value for name, value in kwargs.items() if name not in known
+    ]
+
+
 class CrypTensorMetaclass(type):
     """
     Metaclass for CrypTensor that ensures autograd is invoked for calls to
@@ -349,7 +362,9 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
             """Forward function that stores data for autograd in result."""
             with CrypTensor.no_grad():
                 # only CrypTensors can be children:
-                tensor_args = _find_all_cryptensors(args)
+                tensor_args = _find_all_cryptensors(
+                    [args, _in_signature_order(grad_fn, kwargs)]
+                )
                 children = tensor_args if is_dummy else [self, *tensor_args]
 
                 # identify whether result requires gradient:
diff --git a/crypten/gradients.py b/crypten/gradients.py
index 58b19da..fda094e 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1790,6 +1790,9 @@ class AutogradBatchNorm(AutogradFunction):
         Returns: (weight * normalized input + bias) of shape `(N, C, +)`.
         """
 
+        # statistics are not differentiated:
+        ctx.mark_non_differentiable([running_mean, running_var, inv_var])
+
         # determine dimensions over which means and variances are computed:
         stats_dimensions = list(range(x.dim()))
         stats_dimensions.pop(1)
-- 
2.43.0


From d76ccdadc8babfc2663d47a216017217ff9f6a08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 44/70] fix: a detached tensor was still connected to the graph
 when it required a gradient again

---
 .../__pycache__/cryptensor.cpython-312.pyc    | Bin 29069 -> 31552 bytes
 crypten/__pycache__/gradients.cpython-312.pyc | Bin 95581 -> 95649 bytes
 crypten/cryptensor.py                         |   5 ++++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/__pycache__/cryptensor.cpython-312.pyc b/crypten/__pycache__/cryptensor.cpython-312.pyc
index 9ea093145f1b8b26e053406c1b5e45ea3c6a5af7..75b374f80ec063f4f9fcc225a2ca872db41e1ea0 100644
GIT binary patch
delta 7913
zcmaJ`2~?C<mi}LD6jT*dQ3VB6EX7W-iGai?A_}MoA}-N1(Uc|s4^&wTd4C~77XkX1
zZcUts{kjvg%*0OmbhOPRb~6(_lgylK)63~IIpPLgC!J#^ndxLsdKxv0rn{%--d6<{
z>db%O``>ckeed0S-@W&L^*0}rx4t6DzcCn+1b7n6|KsiOA4|^IyOs#T(}F07#3yv)
zTj3*qMYn=P+mzi(Q7Ni?D!;m04Q)zM?bG-Zx)c1`ZmmDDI}zG6VnUyyJ4s4v5snHy
z3J?76)(gU@pb#XTq&zlm-J}<_2Ze5fm<X7x5Y`J~(m_GgNhzn5xEw*~Hu6?Iv>GIn
zWPBz0v?|t<3X`Vz%zjI^g$R<xTXyWjOlvylZIRMXD`I3;$?7d*$s}`22J~f0sS>_*
zl2yu>r<tFO2uIRX!jUB^VVLy5PJ0xi!jRxJeuk_%og|Xn6AXl;10laV;O>(sJ3wUP
zMlPs6VU&c07Gd{u>`&xtbvA5M$%Ykqc4Z$q4HWpyzhRnOnC5S%mMYVUEggE~rvS!<
zIjvw$8*iUAS+5HT>SpFv?Ub6yq<Yq9pE2f78}ly}EI(It&U&$6&1K`-Yf55hCUXX$
zBy&bVZ#}O{zk&1g#I}xQAp!nTmN$y|IzzFw2tp_(VL|Y!*hgh%rQp@DN7~JxIsSOH
zSlbz^jVi(lP@}R((T8eG#QlYpVX|M4$q{W>c}#IcrxHe0(5i}~gV~{lgq4}V6KE1u
zC{$=+#$^^}v}(tY_^7%^$=QN+?1IIQDo548T(zG7b6r>s1CwDOw2mrAfYCN!!nLCu
zy0gS-Kxbs+r6dPDTcyw-4akmAzvS2_4G#sW=y21%LBA9T$&O&}n8WSpar=A@Pk_@v
zzeKSz)bHu(=S{sqI^?EesgpAd_VUIxgP~v_b&Kl;13e*6FyQccWMBx>_#LIuv7YFx
zQI0Uo1N}I}gHt=JI5+2*hNi%dA_<;=JRtRiB8jr6FW`nnOOb@w%#ox4H+B1^kVNH(
z+7puevQraDKwhriKt!_-me&V80icm1DttxM`vSqC07bFO8UU1q!$EC0m)YeBxMI_c
zQOU(uNK2rr7|9O<j0;~R2?o;-tTU$kX;c1*`(9rCqtzEpwKJy1X;b4x{p#`7*_?ta
z`ua)nMCj!H7ax6m`+0r+cq_ncQP~w;`SI<C)=kzu(Q!dnKATtaa@LQsUds7esaT@<
zZEE&p;c@kux^sgUYFi#(tG<D)*93)LGbbq2np@YEg5kbf5ncJM8v^vmaFm3ziEEXr
zw}}c-r(dg8y<MSSYtX)ZzY1{bGu7+FPK$spq811J{$UwSdw#pLioKz6lI83_G~@Ov
z=r|=%JG{6os1r*FHEcY=Mx5-qgiNxX{bRyO(!n0qW{zcoXG#+{iS~n}J6+6znpMmO
z%n&=p9B9iFbD?Gv9e{QzOUyecoCbFIbZ1LBVt!mbS1bT3hgb-hC*^hLi$zc>5Q_l|
z#S*|Gu@taabOM%$Wd{XScd1m$zR}jK5Nn~WMyeI-;yBhpeOX+68Px0J>h)5+H^3$=
zX2X5)t?avr4^^%Qe(S}};s)5o2C)rlZIVW`i5s6MV*5eG!Y(!r+nilf+N27#wgz_P
zRM2YHkP;x>>~zYQp+4G#(x<E0ea05j&cenvHO+?>_P+6T-A*V(lmo#b+R2WZ%E=D)
zhG`Xfh}|+(l82{CQcn<eG_7drbF-Ide8?uqcBR#l*VtrQC!x$#lF4qSJx2WO(R3>b
zu&2@;<jtwG>1T<#8L2w}oQjA_mVCXmnN4I=k$2gdj6dX5<Gd<78ngh4i;ZHG{Y$2m
zyw9#={(ff*vccujR)lp3>k;ta&<y~m2t5EV8J%JD5b<e8?9Fs|V7nBMgS5&;C0Po&
z7Ebs@X0f-M7ToWPF!pI7EU<~P^wfSbs(^SwAYKecJt;GFSXMw)gsLj6@~U8_J09?b
z#<0?hi@M|SCZYppf6CS8R@`>*Vby%V2`jiKT@hBG+s(fh$vi0$!o+Kcu}kzpsOp7K
zHKY<k=%)B1l7m3hvS8-(L#ZxgTA)$Pw|*zO%|hI!2qD7-p(Fb68qYeg9#*0V#$b~<
zq6)}#F)HCmF@$54Q$2Dj30)XI&HYl(KJ>2c5O>BP^MQWHUdb06f;#x!Kv0yxtp}jZ
zvDe+RZ-52|+<oqlBtkz84)*m|INSkofgw2BJ_+3OkQZ6H`55&1jsdqEn}@nRG7JZv
z5~V@v@Vkc{{qFse!zcBIFkpB>QJ0Pj?1@E9z6W$hweWvq2SB?(xEbuuV}@#*UK9q&
z0YVKZcHDoZUU-T;O+f4guxsJ(l|$qd>4YQ4%@d6hOkGh`4PG9$$U3Ss#wy}%aDYk>
zD<rhSf&QunUl3xO+*sAnCk3Pf1GMo|;2@U*d@9@=7cL}sy;XQ9bToW8e4_4rO38(k
zRcBOZ4L>uSuUK_4Wz}?Y*DV<h@jE3DPw93#><RQaLcv8M9g{#_vIL0{$kyYR<^}91
zg@uG5!aAWpx*W%PT$K#*S90`H38cAqnCq|CL*-C33`3kmg+&8y6@_E~5-)v3;Sr-p
zvKboqk&Ku;vP<;zj`d0u0;<Qo*C)|V>`exUDBXeKh<@uJ^!TM#)L7i%ZUG9XnjdM1
znjlDsnzAGX=y!3bx~Jdc6J<4&QJ1lxne195+mXze*vI(UU)1*jjFf)^02y79kdZan
z`#e2S_}qcx-b0~7>RC(XbwQn2aj0cBGy8??XR@ygDnkV%dFG56bMZxU@yWW^mY-Ta
zQ{FmV-ujkwxxC{8Yv%DHHhfZb!CEn!k@bT18SRf#Pqe<2c`2iOb}S?N1^qMn6AxU@
zD8H5noaU6k{0qIHPXYb?s_0U3*Ck!o2dO!83Sw#@H<U_q@|>VFBtx>9W`nsC^I#=;
z`G;CA>2ns|DdwZ2PmIoHIVM#<Oa!)xc|2w=vTL*qr2u&2-`VsgyH+N{kOCjzc5D_E
zBL>VwT?;26%#0mrjiO>7m>+EnL)Ho7?|8rgLWIUl`u}lrP3sdi;3jexlE@_Ok!noY
zhY9<$y`i9!B4?+Da$DgpoqKb1<P?*eNCunC%CNzyLZ?oj1d!3tVydRc*mzcH2By+-
z55Tx^HN`xWl6N5`Z&sf=%l;v&q*P&8h8nXzz5Lkn8FS^dx$>lR*<1&@ow3wRTWT&_
z>aMAQh+WIdQ=C(=7dmX3Nd;{PDOj~8i*;oilw^Dp+moGB7L&*l*z<yGgjr)xXu%J9
z^|35H8S`@XWws^zw!2lvxmyKw053C8*)-r+1aBG^wOBkryy=(?RL*N>fjf|8%+GoI
zJ)REHz>dR<!-5O4^XL<>-<#Z<%>xH0$Vh}x?mRgVJNTM^nUl)o9J2}<^4VO@5>m(<
zxoMdt^Ms;0ZX1HPkX_0xfzOh%*v2!Ei2*eQ4}3%*+gEdo(#oPO@#w9Lg|Mu9_AbFK
z*<g)J=LdzAAxv)g6RKl-9QL%^>t9$_D3?t-O2~ceoTC78MGU%sbl6BPOUlbFUl30p
zNZMtb=LXSCaNX7v)^t<b^PVDxtf+;;IT7e1?9cgS9rOt-A4NEZz*CVHENuaRWJVNS
z5v3126}M<^+dMKfAWa*>f|aw8f<hxVaE9$aKxkpF78KQUgV#bGy&FE!R2YYknB$_!
zyd(Y#bjYPFu`owdZz#EH&Ss5;4Y}8n1WVSeC1b`?GHofjWO4HH(rL@mOP1O>4GS0A
z^;aEbGmh$MNA*QV4STk*QCABL<^+W0Qy&-F$TmM&Xi*CKoLkphh@w38>*j^#Z{!M?
z{>A3{Hly;ryfta?`qz3#n@;l!s|wM+wiudzty3c!)oqyxY)gAOlZvHue*PzL@#utN
zyKHAyi>+iOyIK6o3KS~W!MrQLhDEMmBQ%Vd;$$L9A$L!I)6|D0BFRSSMpV7<2^dj_
zh6f~>jv>bagqNAixsI%3KXLw?R5EX+jmc&2Y@`RF4?+(nQ#1h~s(mb>y*U%&SfDB+
z8b~V#eIcFzM6?+5@C%0?U=!s-<Uw|;{M*)(I8YUJX51QnhV0I;Cn_F<Pnl0D9?PnP
zhIQ!679LbTPI#k%JyyA@K7?!G&*8){nZFn5Tgc)@6^C^ct^fk6!-hT*R=h|?m7zp-
zwX&R<mYG>jRb?%1gg;`OGrFBMo{sg7st@br6yy>zu}7=2Nh&`^uT@zLX)zKZtO=#F
z^HoboCiZ1&=e<H$>spv4to7Ph#S(iqhI{_N%C)YAEH$i#nvsc1F2NTSh~q^7Q1fG0
zzRTl(4_ZfduxqtW_GEP>k=dKo509DRbYsS0B?ylrR3Y%Q%0CgfHc^@seE`Ly&jU^L
ze6PnU*9$7tnS5Kr5nYIXJGl5q3a8^Xi*&T+HNc3TO8($}$rTzL@JSIR7{k0J1Y83?
zcaKERAaN1G0rrcfw7~<$E_VVzg7=BZK4U7FHWgen6<rg`3?-lB)Xt`5Ub0u696G1D
zXkUHa(gfe%xv7)7YZ{@vmhG)+)LDU!6JN_>r)yr{^#Fl}xgA8X*bZ&_dS`s?8yPPc
zo?4@8F)80JU$Y8c?>ch;-!rLO><RSe&<lZ>dm+9=E{1=?#lC@XhP_$)Fp-$O&Yo16
zXqyud9-eBdb85hHy(^Bx_cCxGbUVJ(w<SkWIP|9o2UyX{ZR9;RymBcx;?pblXu{ZB
z#Y_za1%51YnR0ER)khNg-Lg9rqVyDYzR7krlr~O55zgMiLh(K(D&BXH2$vlp5}!~`
zfXW{3H=Cl4vx@z5gM&Of^<l&B$x?1?_)$zB1z7yiiMM<s$#LE!APs%azG~bB7Yclv
z58}8xJ(i0FS6j&(``+qr-`@!Yr=odFL=!b0SpjYHK722fM^fWvaJevMxNfkOO@}ql
zBKv9hM7FRGn{4FP)UBp5QhuJd0xaUxjhy1wDi7}c3wvqp;X3T0(|6K~NWXYy7~ygy
z!1Cxtwx_vE!=*CKa$D2V<HL;0MLDHT!9HsKK8ddHP>W5If<v#s(6sOGOk}~PQug01
z<<?#IoL*wptyYbBezN%yDfB}ihnriKf6(WO?fvyun<n!v-dXEP>UQ6gci-Jx6FvJ~
zuIxK!+dw}?2A=>dC`pDdFgIN!+J5AhzDP+SIw*0Td3W+m<~-pDJb<kKlYMJ_y{0I-
z_|;u$?2l=QtbBFJikJc6UCUhtv<K%~teSw-=W;ob&HM54?cPvdgI}q4tJi}((iW}R
z?+&3*T@~z|4ZE{G$6<fC=U6XW*=8rzY-ihe)CMNl@7kPX8B5rB#eiobdc47`*?(=U
zhS+Rxmy@F#g6}fVh(ssY^X(;M4STO0Z^l5Oib#ShYW@+8DDC%vAH4I}++<ri(n%}p
z@92lSFRqcVajs_&?j**>k(9XYiSCfQjU{Z_vmD3LZvf_#1b(LqqFXq0_Z+;5y|C%1
zaV-wU#FFy4Cs<==CE3D!oiiHlkS18$=1OpNLz@rk2>5IY_u8;Jrs=9pco5a2BCM%v
zLc?9v1p8&z{lvw{mghB)&LiDRTb7X?_S-E#uE&Ph3M1+u+(R$6Idq^S#<&gk1P6v)
z{Zmt0|Bh5dnE^$7qJ+87;t{@JK=MtEZm&|5^AUIX0Q63ad<OWQp{Xl7vj49Ec$OCp
z0E2pbD(74K6ie?t10K*t1K`j+hjKEaoEq3y54~P?&)wj`STqn$z^hYNc5O|t-g~AU
zY_*t9&axfiqm@W;Dw<%yZM#H447WoOzahbJ5Df-f8IjV-EX$C>nVfSv48DVA8_-x1
zYs3$5<r##zn=Ndvx0acDB{QE(8I43%RC0m9j`roUlfAj*D*ILMTT#{9*^_;%jh`Tc
zY^1^)?H(1ISZ85pw&$>v{<B)-glQprzrUJvvA_1)$fwNaIg!qnH30+S)xC+G_gEZr
zz)((xF325{^Umk5yqMf@UfaOggAcknrSh&LQO*i_lWpBsNxop?`|>KvVGNibx_G#*
z>f{$U&i1J3*Fqz$Ls*8elKtDhC1Xukd>7%@0Fl&n4|FzfZ`<7I+PtH6>(;iG)@}4X
z?Bx+$iKRynLI?qbVT4hH4uqo!#}L{O+7U2&r>`Jje5Y?Bs1d4!eK4o4#|PJY@ViQX
zP^8=sxv+CDLJz`a1Rm~0EIowq0fL0ki|`Qw1_+8?oqmR}2f>5jMVMnB`OITqV(}&d
zx{HVg?uy~}9Qs#mQKAOnTV0^|;~Ui>;DO~|ebGxT9`$&5;x3*$>8(hz4Iv9h<RWxo
zbrV7fR#6{Zd1+DWG+-T}3I62=*&+X|Gfka$y-KTIcEi%3F1a2iO10&Bl1iO+L$6mS
zU(ZT`#{62fW6nEuFfc|kZ8RIkMv`Jbh59^uDOb<a%sNn3UjcpeB*IS+%m^h2OAwq0
zVFX-5MAH-W`-1_xgwcU~@>BN10jF&_EF1m=`7MAsB_ZU7Q6MS56N=d7ffa?<9f?Hq
yMTU-4A20kufY%pU-%cW{CezOs)PE^p@yjr)dStV4w^gujC;S%gWz*U$)&ByZ5O_%d

delta 5730
zcmZu#dr(`~nZM`i$wMHJgaiVCc?%2%^Dus3gN<z<fDMM&kz>m;_ktmMkaL9%SdM9f
zck5X<ar(81w{hJh-9PGaGHIht`kutyB<*gdTRTo_ucq5cW;5GlJIP{W$Bn0x-S4|X
z1Tc4`-#zDho$q|-JKs6d8=tdp{ufJo$7D(t@Od%w%h92sr_vlJ>zN=tBS?b8{6c_v
z7^Al67d@h+k+gnIK<m*WO(W_2x`5uJ4;Va#fYD<_nqD#ti=HGosZDrN7!*hFdmvR1
zP6(nPC(B|)xFph8f)EivJd>tH{t3a8A{l1{PpT;F6r`k?^@5Zvn=WbMf}S*$oH8Rw
zsdBoU_M+*McAjHK7t;J0flN;(6XeX%QkX8bIjaQ0V^xRCl&y*3JT}=D=MPwrpM`w8
zY?kSrEZgL)gj`}&CY-Tpg)?ik!lXDTGS$svf;;^a8rscbX@j9)Se^(6d_mu^%zNPP
zm||{M<2EduU=g8BIPhIa67RBHV470LC1lZ)c%yw6+CLv{)nu_88*-FyBTNgkM!{m6
ze&9xi{gz<RwZfy?y|u0EtnP-{dEH!i)m->qQPWRt*NV2hZ*IA%VWw6#YeG3TYZg-N
zSF~AkG)lC{_!`TNX@kCi9MehTfxx6f;VdX9;5qo_g>XB`%__l_JiWUR2^R(KB)ZDX
zqZUC4eid9jVMe$qYIMfAWSy=iE=cS_{4PA{^R2la_$>K{Cm)b(Gt84AW#PJJN_Iqx
z<Uq7aT~ZEmY?2duSyC>dUFw$dkmitF*vppk5p!gxR4^l4nz!o7mGh)ki~2695T){^
zBE$l@z_Us!##W(Jf><P#f-N=6D3^K4rHUB=>QdKw<h4@WBK<n-*DvbVW4~chzd>#o
z^)F0rp&>OcmXX%sXzSqh)cs{W(oUSgPN^L!?Xq6VmO9QesdGkLm_f&6wtH7}r)jm$
zScdl8A}@yHnL*YK|C4#rR2e5x#Cbg&wY0I#@C!>vQp_;SeUf)52uar0Qo4~H(~O0V
z@izE3YbEP~&#ld@7wT<QtUr3#_8ep1fp;9m(K7oe(;p^dGCbp`1JPar|Ldq=N1(Ph
z8|t!8Wz*te9%}<3NmeL1=QBfstJwwY<>;;KpD;@kS=dUFVoa;Z{vqB3zD_G#apths
z;4jWk*B2u*ruFe*C8mGm7`>M!nu7eP%x!#ftX~c)AztnE2IXU3?`25K`*Y)ZvcG{~
zBf%zuW&%CIW`v832l2Jo!>v&1DqwFzm+Jv|!;`e;Eb^bhdNRRAv9<h>*pvxVRrDqp
z@YH}kSz?cr;|PUVg|4{lNtsxoScHx0;3;>m@r;#r{iF!@iZ`WmDmFcCP29s~=r1YA
zCXZse!6PGnNuhF<*i}>T4<+TPzekF)9bsDd0NyDn%VMTl+P}8z=IX2F>i5kxv~O!6
zr*xGV(ZUl0Ir_6AcZEf`Y|Dl3ml~5A1SUj8ZjM0BW*brT*k{w-@N#Jub}hCPw7%>K
zn;?5jt~Mf!nsE{qxL0ar7Pzv`s#hapg+Q6JL9O$oh+<jG3}AQK7{SWrU9cW>k{mp`
z*TS-)wZ#f&yNqTggsD`h53+OB(N>pdGAmpywJ{eAl&^tIx5Y7?5-v&zO1ebh`#OVk
zca}I>qDq&lm_;^B6iIweXjH4y#a1YDXRuNl9^Nju!XbBVyoYt`DR*8S*7^7o(S)lL
z?Ql(^H6$i#x}u3_hS&*B*a;uHEzAjb+-0l|@+yj03A9#JAth9iU%4>tVGNHqEn!E(
zn0gb{O;CHu(Vta3%`$Vix<4?z1U^hK1rM*T=#QoLjR(Uc0eL&;As$a^N_5;NlH`qP
z{Bkg!<Z8~V*<VZATL>uUV;LigR~i`_lDUkAe24uqyt}&COlikY5Ijb(9`scujmNR6
z7!k0xt53X!ld&nwqJ4MRH%R+a`UA;lg0ISDuQ!!_XmQ@KI<8x5uUc#0v)0Y(1*;2A
zRc#Vyli`CZr{+dM1sJL~r>sHQS%IKFy1P1u^^LFvibhCveQ~RWiItgmw<M_dl+`%U
z3)>v+Yc+3bT5b4x%Tdr?rGIO^mautiDUyC$r6XLcYu{*qmb@&uwnolUgE~QOE-Fi{
z&{Jb)nJ`rI;)b2bQ$vq6RE-G{mTbfpBur&2n!O~4eS=5r(XLvF<&jQIJ2V~~jOoIY
zW3s}>k;0D>0Q_$44weVjx>wjL_)Xm(yDqXGw~kW+a09`@a>ooqAx<H68x|Q*7f{b-
zW!xWDOIyrHt4T*N55lMQ$JiQ>8;;xQw0CRc{;N6geKLLl?l$bh{NCMoDt8qUb}Tt#
zsVe5<cdi(2Ha5EwTk3>(I)#f7F{nLl8fFpk1<G{;Nb4%$l~N15u&#=wU?s3^B-hpF
z(){~`?sSThPFmrG496?l{9R=VrRd^zItgn^t!RO|CaVc=Pw^+B4_l$XX$`Xz&u&a;
zMT}m$GN@0)2sg{Er3yP!8qpwQ!GY6B*jw0Q5gqo@;p3+Ftk0qze*ytd9I?8FQ+mT=
zs~qe>nB2Gx$~IV7J8ax=@TB>xh2Z2<Oydhq@<LLdAy7{cb=A&Omt5jzg1;wFb4)#H
z)Y#LaxzoN{#aK#MJ*~WSpv5<<szGx6dkC?rR4xZXM`dq#e9SM$G`Qf2)ed^c{Jue%
zUm#)iKo3IaMqbf^VO2IE{B>IRD8qR@qv&cz(Y1_{n?kv%>?2p*kJ_%e)}KxJkBYVM
z*NvM~EJ#&ZHyzNr>9zg63<<M+Ot9vBqx<fj#l3rq1IK!LOPfw}Ilr|TU;mQlLVQ!F
zYfCrq=aA{v$5T!9N1Zd}0DqC-0_<r%SVf*Gbe#VU-LvGJtAEb*Bil90x^EcoYAcg+
zW(5Kd6U+ryjQJ3%b4I^tHt1O=u(oqWv}|t1JL#qSDvoNb_|r5<5PsRVhy5d%x7V`s
zuyy+(JtuM@{BV0w5oLLNP1Locauzcj@hQG=nDg%t^CkFfd-=BKv5C7)-Sjk*m|-Ls
z4|bG<XkIZUs{<;uSr4fdv1R_wi-ajB{He{!LecRZe`d96vQ?617-8wfWtybZ7L^dZ
zwp@m9wm;l3Ki3}8n;<<5T;ldLKw3+$JHEq;*ZUT@I*uFLkb4np7ChhK$lkYtD4q}A
z-@>~cr}d|h%YTiRt!nn~(X*W=S><Jwg0Q60?ItUW-BiX8zY80>PB##T|9ZK+hvb(!
zh#Fq+A8``=O#yr%E2MUBw5w6MPrDZmc00rm7)*43i;;I$$nVK9d_>B>A!P@=-l>CK
z9p!MUr?R1MMHlwp??PbQ@AZDX;KG8HbpCr3R<Efjp~k}s-MexOpRF)rbXS>u&x#`+
zfSbGQhFkaBFXQi#!utrcF8GS+l|i51$Cm{8AROQAG<<%)ewwO}iT?nZxel|t8x8m7
zUF(&t@MKLAeA!=?H=i=yB(*$c9)u@)?S?N&>-D7}yxH4m?;@4^*1-##`*IkAhx!gQ
z{U=HMX+^O^NS(@Bl*3-{NWd3XqpgF_`lj{jGEYEwkDDdKg*|^TO_L#Y8&jTst-pqu
z;gx<REj|PM5il|(^9iUMC}UZ$e?Vf-!W#qj^5v7FpUKM(;G-jhat{38z>z|-h2j2~
zhI*V}x%T6*YOfV<k{2F4q*fOG7nDjI_Sx88vO00;LTKFkq<I~gD<e>?Pr&<otMJmO
z*>_#9R+b6)U|$t;L)t?#DYr;$j$i`5_fVaoO2p<J0ea<4VDW6%t954r4tmzJdN}7f
zum2)0yJ3F=Yl5-;|I|o?dADM^Q22<vG;Ju1Q|3kC9}JC6dYhx24_{!b<Hk^8arxMJ
zpN2malv|_LgVkcCs&QW`P)%7<0PvF86%8E96YVQ2^uhCoEzBEz_3$HN&B`LQi<a1w
zMvjhAbQtWG=PFioopO7LPEa0xJQ^74GgPlU2xaz?6p3f%8Td5tSR1KajNgv%ccsjO
zvj3}7MbRRcDto-Hw=Xw@f6W}Nm0p6EgOLVxYy)ntWl9|@DXo=$OtVaaL!p;4RTnhz
zvj+d!!uuiQk8NSEf_Ll<gK9RFLBUu)Y=1Og|1;7{gV9IljKrdg9mu>UcLxn)Ta*I6
zqr={@P{_Yl`W5_`KNnxr<@vvjw9*%8dHvz3w;-ap*eB6vl^rZTh{!*IPr_B~U%@`U
zYBgO9F&Sw`_qfF#jvfi_&iH01$2NBpR1nmFG`=RKftvqJ@N>8@?l}1>HPw??L#<(g
zQ38n|M4%9CC72?h9~r!rpoQQZ!Se(!5$FgC5n?HWexITQ<nWP@#HWcoK(LSCA%eFN
zPIC3cq63Qe68w&U4h#M;!Mg+p2o4g&2p%Nx5*#A<kRSsgW*p<8F`0)a`F|6Q%8^=X
zu)NFRu*~@^QEn65CAf#<3;b`?q+QEtBXZhWTs_0oV@0jrYCWcm<CH<%M2Uevi3Lt8
z&1vDdgSu*Aby7D+l}kV!Hk3WMHuRU8PG_7=6LMWww2m8v&~)t0Vx6vbE^ULZ?A8R+
z=&ZMrwL05eYN{^nR&F{H3u|=+vqRC6iIdFgh$YYe1?e9-%+(e98vJUqqPBpB`ZmG0
z2rL9e1bGCUz=ROf4~7DPP>>fu-c%ub8d|2@b~n0?A3^yk!mNfdcE>DW{d|0CL;mf8
v6jpPt__lzr+qnmlS@YSfD@BcW1Zv)Cfe)v4nLDxsXFpSD<$sW|)u#P_YYR~l

diff --git a/crypten/__pycache__/gradients.cpython-312.pyc b/crypten/__pycache__/gradients.cpython-312.pyc
index 3c0170b449a10ed2ae9156a0b84c5f2349bf5666..fbde75a84f7d82a3251f1ccfb6df0f27afb6ab5b 100644
GIT binary patch
delta 503
zcmYk2Pe>F|9LL}H&A#24ogG@6(PT>-SpV#$?b2nNU1BXL52=_2mWrUbxE0m1mxUqq
zC_zw<ddG|k!8&*--%0SM(gq5m5OjzxwOuw8yQMoWi~Bo$KEFSF;rG47-uz+47sCjW
zN(IdS*~3}mvw_jeG_LTik+YpXm$_O-`2cT$5Rkl5B|`G7MlN{TwqCr`xLpYIuHqSP
ze+sG~6Ud-C<91Bty<LpyF0w)XW5X0p4lM2~m?Gui6wiON#F&GK=+|M1XAU~5wC*4d
zQ~Yz#jz-a)M5}O;F!aV+cD9+P6Q-C<!scy7lh41@nC6DEEyry;g&+&LTD@v6tyk(Q
zC)$eh-kt1Ep~U>*+?7g<OkITqd$IC@8B!hq(L%dwbW4rS4=*{Zfz7rX+iLf|U*5Tf
zkcJVNxd{ebln;8K(}n@Cjy;9=PnW5O<@<834{s?R%L}*ggkoBJ9K<pn%JJKnR`68*
z9KvtlwfK4$_b?|D!)WqhLH3Q|fMQKtAIA#bOE!U+f*l#pU?2D;qEpCWTfUmYIXyB+
YacQ$Twnsdugj2grJ^cGf6!Um~1S&v<lK=n!

delta 443
zcmYk1Pe>GT9L0a{H#533yMwzsvx}M3UeZ0NMRdt=1v4li^KTwRL`Yg(LvhoCF{^n=
zK?&k3d@mvWgAR4^kiU~RZ%dFw7bED>A-#;Obkue_MDO%@@Zi1o>d5$hXxL@jwnSAQ
zlBb2$75k%&@ph|56N1G&grF-MZQQRT!guNr(My(ZQCB8SFY^|kwWF4XzdDr3MyT(G
zp+$Yrk9>+dJ-GC!;!x|p#j_p^(ia_G^>CiFTQ2W-XrilwE(adkkl>3QxJ2K!F7QSV
z%y_YJQlEFiNudg9>bmamvkqi%j#io*^pfevXs(>%_-&YaDdwC1In$T_9AC~=n~P=l
zZ;}UcNO3X;S3S<*&_JCkbi;*7)t67i$uQK`O~g!$s`tGxfEKlV7g3oQfYDUZL`^b~
zAqEfBr+&PVm{D^>Sd#ELxQ87)RPRQxtYJ+xkKz~bf)ity##2=qLt4jMwK;*`5_`OU
zAG>(1dM1(8@I@8#I01fgehNkGtAi;tMjHktu6?f0RzwKZa+wKah{pwvFW~tfi5Gy@

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index ce8289f..0cc8602 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -315,11 +315,14 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
     def detach_(self):
         """Detaches tensor from the autograd graph (in-place), making it a leaf."""
         self.requires_grad = False
+        self.grad_fn = None
+        self.children = []
         return self
 
     def detach(self):
         """Detaches tensor from the autograd graph, making it a leaf."""
-        clone = self.clone()
+        with CrypTensor.no_grad():
+            clone = self.clone()
         clone.requires_grad = False
         return clone
 
-- 
2.43.0


From 02ebd08f273336f08b9829bd0d9052aecb600bb1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 45/70] fix: x[index] was not recorded by autograd and repeated
 indices lost gradient

---
 crypten/cryptensor.py | 13 +++++++++++++
 crypten/gradients.py  | 13 +++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 0cc8602..4621455 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -773,3 +773,16 @@ for module_name in functions.__all__:
     module = getattr(functions, module_name)
     for func in module.__all__:
         setattr(CrypTensor, func, getattr(module, func))
+
+
+def _autograd_getitem(self, index):
+    """
+    Indexes into the tensor. Python looks up `__getitem__` on the class rather
+    than via `__getattribute__`, so recording it needs an explicit dispatch.
+    """
+    if CrypTensor.AUTOGRAD_ENABLED and self.requires_grad:
+        return self.__getattribute__("__getitem__")(index)
+    return functions.regular.__getitem__(self, index)
+
+
+CrypTensor.__getitem__ = _autograd_getitem
diff --git a/crypten/gradients.py b/crypten/gradients.py
index fda094e..d04d38c 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -320,9 +320,12 @@ class AutogradTake(AutogradFunction):
             grad_flat = grad.flatten()
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten()
-            grad_flat[flat_index] = grad_output_flat
+            # accumulate: an element may be taken more than once
+            flat_index = flat_index % grad_flat.size(0)
+            grad_flat.index_add_(0, flat_index, grad_output_flat)
             grad = grad_flat.reshape(size)
         else:
+            dim = dim % len(size)
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten(
                 start_dim=dim, end_dim=(dim + index.dim() - 1)
@@ -462,9 +465,11 @@ class AutogradGetItem(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         size, index = ctx.saved_tensors
-        grad = grad_output.new(torch.zeros(size))
-        grad[index] = grad_output
-        return grad
+        # accumulate: an element may be selected more than once
+        positions = torch.arange(size.numel()).view(size)[index].flatten()
+        grad = grad_output.new(torch.zeros(size.numel()))
+        grad.index_add_(0, positions, grad_output.flatten())
+        return grad.reshape(size)
 
 
 @register_function("neg")
-- 
2.43.0


From fe5575186e137019ef8888f8c34eed222f3ffb3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 46/70] fix: gradients of permute, narrow, take, view and
 scatter for negative dimensions and unusual arguments

---
 crypten/gradients.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index d04d38c..a36202c 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -182,8 +182,10 @@ class AutogradTranspose(AutogradFunction):
 @register_function("permute")
 class AutogradPermute(AutogradFunction):
     @staticmethod
-    def forward(ctx, input, dims):
-        ctx.save_for_backward(dims)
+    def forward(ctx, input, *dims):
+        if len(dims) == 1 and isinstance(dims[0], (tuple, list, torch.Size)):
+            dims = dims[0]
+        ctx.save_for_backward([dim % len(dims) for dim in dims])
         return input.permute(dims)
 
     @staticmethod
@@ -254,7 +256,7 @@ class AutogradView(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         (input_size,) = ctx.saved_tensors
-        return grad_output.view(input_size)
+        return grad_output.reshape(input_size)
 
 
 @register_function("reshape")
@@ -295,7 +297,7 @@ class AutogradNarrow(AutogradFunction):
         size, dim, start, length = ctx.saved_tensors
 
         # pad is applied to dimensions in reverse order
-        dim = grad_output.dim() - 1 - dim
+        dim = grad_output.dim() - 1 - (dim % grad_output.dim())
 
         # pad is applied in pairs that denote the pads at the beginning and end
         # of the tensor along the given dimension
@@ -366,16 +368,21 @@ class AutogradScatter(AutogradFunction):
     @staticmethod
     def forward(ctx, input, dim, index, src):
         output = input.scatter(dim, index, src)
-        ctx.save_multiple_for_backward([dim, index])
+        src_size = src.size() if hasattr(src, "size") else index.size()
+        ctx.save_multiple_for_backward([dim, index, src_size])
         return output
 
     @staticmethod
     def backward(ctx, grad_output):
-        dim, index = ctx.saved_tensors
-        size = grad_output.size()
-        mask = torch.ones(size).scatter(dim, index, torch.zeros(size)).long()
+        dim, index, src_size = ctx.saved_tensors
+        mask = torch.ones(grad_output.size()).scatter(dim, index, 0.0).long()
         input_grad = grad_output.mul(mask)
         src_grad = grad_output.gather(dim, index)
+        if src_grad.size() != src_size:
+            # elements of src outside of the index are not used:
+            pad = [src - used for src, used in zip(src_size, index.size())]
+            pad = [p for extra in reversed(pad) for p in (0, extra)]
+            src_grad = src_grad.pad(pad)
         return (input_grad, src_grad)
 
 
-- 
2.43.0


From c6bd45d89fda96c45c9fcd44faf431a01994220d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 47/70] fix: gradients of norm, sum, mean and var over
 dimensions given by keyword or as a list

---
 crypten/common/functions/regular.py |  7 ++--
 crypten/gradients.py                | 56 +++++++++++++++++++----------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index 4f57e13..12fb030 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -161,9 +161,9 @@ def var(self, *args, **kwargs):
     """Computes variance of tensor along specified dimensions."""
     # preprocess inputs:
     if len(args) == 0:
-        dim = None
+        dim = kwargs.get("dim", None)
         unbiased = kwargs.get("unbiased", False)
-        mean = self.mean()
+        keepdim = kwargs.get("keepdim", False)
     elif len(args) == 1:
         dim = args[0]
         unbiased = kwargs.get("unbiased", False)
@@ -174,8 +174,7 @@ def var(self, *args, **kwargs):
     else:
         dim, unbiased, keepdim = args[0], args[1], args[2]
 
-    if dim is not None:  # dimension is specified
-        mean = self.mean(dim, keepdim=True)
+    mean = self.mean() if dim is None else self.mean(dim, keepdim=True)
 
     # Compute square error
     result = (self - mean).square()
diff --git a/crypten/gradients.py b/crypten/gradients.py
index a36202c..39b34e6 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -76,6 +76,27 @@ def _inverse_broadcast(grad_output, input_size):
     return grad_output
 
 
+def _reduced_dims(dim, ndim):
+    """
+    Returns the sorted, non-negative dimensions that `dim` (an integer or a
+    sequence of integers) refers to.
+    """
+    dims = dim if isinstance(dim, (tuple, list)) else (dim,)
+    return sorted(d % ndim for d in dims)
+
+
+def _restore_dims(tensor, input_dim, dim, keepdim):
+    """
+    Re-inserts the dimensions that a reduction over `dim` of a tensor with
+    `input_dim` dimensions removed.
+    """
+    if keepdim or dim is None or input_dim == 0:
+        return tensor
+    for d in _reduced_dims(dim, input_dim):
+        tensor = tensor.unsqueeze(d)
+    return tensor
+
+
 class BaseAutogradContext:
     """
     Base implementation for AutogradContext, which saves context information
@@ -1124,14 +1145,15 @@ class AutogradNorm(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         input, norm, p, dim, keepdim = ctx.saved_tensors
-        if not keepdim and dim is not None:
-            grad_output.unsqueeze(dim)
+        grad_output = _restore_dims(grad_output, input.dim(), dim, keepdim)
 
-        if p == 2 or p == "fro":
-            return grad_output.mul(input.div(norm))
-        elif p == float("inf"):
+        if p == float("inf"):
             sign, argmax = input, norm
             return grad_output.mul(argmax).mul(sign)
+
+        norm = _restore_dims(norm, input.dim(), dim, keepdim)
+        if p == 2 or p == "fro":
+            return grad_output.mul(input.div(norm))
         else:
             sign = input.sign()
             abs = input.mul(sign)
@@ -1165,8 +1187,7 @@ class AutogradSum(AutogradFunction):
         if len(input_size) == 0:
             return grad_output
 
-        if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+        grad_output = _restore_dims(grad_output, len(input_size), dim, keepdim)
         return grad_output.mul(torch.ones(input_size))
 
 
@@ -1223,11 +1244,11 @@ class AutogradMean(AutogradFunction):
         if len(input_size) == 0:
             return grad_output
 
-        nelement = float(
-            reduce(lambda x, y: x * y, input_size) if dim is None else input_size[dim]
-        )
-        if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+        sizes = list(input_size)
+        if dim is not None:
+            sizes = [input_size[d] for d in _reduced_dims(dim, len(input_size))]
+        nelement = float(reduce(lambda x, y: x * y, sizes))
+        grad_output = _restore_dims(grad_output, len(input_size), dim, keepdim)
         return grad_output.mul(
             torch.ones(input_size, device=grad_output.device).div_(nelement)
         )
@@ -1239,10 +1260,9 @@ class AutogradVariance(AutogradFunction):
     def forward(ctx, self, *args, **kwargs):
         # preprocess inputs:
         if len(args) == 0:
-            dim = None
+            dim = kwargs.get("dim", None)
             unbiased = kwargs.get("unbiased", False)
-            keepdim = False
-            mean = self.mean()
+            keepdim = dim is not None and kwargs.get("keepdim", False)
         elif len(args) == 1:
             dim = args[0]
             unbiased = kwargs.get("unbiased", False)
@@ -1253,8 +1273,7 @@ class AutogradVariance(AutogradFunction):
         else:
             dim, unbiased, keepdim = args[0], args[1], args[2]
 
-        if dim is not None:  # dimension is specified
-            mean = self.mean(dim, keepdim=True)
+        mean = self.mean() if dim is None else self.mean(dim, keepdim=True)
 
         # Compute square error
         result = (self - mean).square()
@@ -1280,8 +1299,7 @@ class AutogradVariance(AutogradFunction):
     def backward(ctx, grad_output):
         input, mean, divisor, dim, keepdim = ctx.saved_tensors
 
-        if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+        grad_output = _restore_dims(grad_output, input.dim(), dim, keepdim)
 
         numerator = input.sub(mean).mul(2).mul(grad_output)
         if divisor == 0:
-- 
2.43.0


From 451b9271964665440e6ebe5080e44b47e52e8db2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 48/70] fix: polynomial changed its coefficients in backward
 and mis-shaped linear terms; pos_pow gradient for fractional powers

---
 crypten/common/functions/power.py | 2 +-
 crypten/gradients.py              | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cc2254f..13e65f7 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -77,7 +77,7 @@ def polynomial(self, coeffs, func="mul"):
 
     # Handle linear case
     if coeffs.size(0) == 1:
-        return self.mul(coeffs)
+        return self.mul(coeffs.squeeze(0))
 
     # Compute terms of polynomial using exponentially growing tree
     terms = crypten.stack([self, self.square()])
diff --git a/crypten/gradients.py b/crypten/gradients.py
index 39b34e6..0ad9472 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -875,8 +875,11 @@ class AutogradPolynomial(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         input, coeffs, func = ctx.saved_tensors
-        coeffs *= torch.arange(coeffs.size(0)).add(1)
-        return input.polynomial(coeffs[1:], func).add(coeffs[0]).mul_(grad_output)
+        coeffs = coeffs * torch.arange(coeffs.size(0)).add(1)
+        grad = grad_output.mul(coeffs[0])
+        if coeffs.size(0) > 1:
+            grad = grad.add(input.polynomial(coeffs[1:], func).mul_(grad_output))
+        return grad
 
 
 @register_function("pow")
@@ -912,7 +915,7 @@ class AutogradPosPow(AutogradFunction):
         if isinstance(power, int) or (isinstance(power, float) and int(power) == power):
             return input.pow(power - 1.0).mul_(power).mul_(grad_output)
         else:
-            return input.mul(power - 1.0).mul_(power).exp().mul(grad_output)
+            return input.mul(power - 1.0).exp().mul_(power).mul_(grad_output)
 
 
 @register_function("square")
-- 
2.43.0


From 6a91bc21684ae378c29951ea6f29b77250c7d4ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 49/70] fix: gradients of matmul with a vector operand,
 cosine_similarity with a negative dimension and batchnorm with public
 parameters

---
 crypten/gradients.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 0ad9472..2a8982f 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -776,13 +776,13 @@ class AutogradMatMul(AutogradFunction):
 
         # Deal with vectors that are represented by a
         # < 2 dimensional tensor
-        if self_.dim() < 2:
-            self_ = self_.unsqueeze(0)
-            grad_output = grad_output.unsqueeze(0)
-
         if other.dim() < 2:
             other = other.unsqueeze(1)
-            grad_output = grad_output.unsqueeze(1)
+            grad_output = grad_output.unsqueeze(-1)
+
+        if self_.dim() < 2:
+            self_ = self_.unsqueeze(0)
+            grad_output = grad_output.unsqueeze(-2)
 
         # Compute gradients
         self_grad = grad_output.matmul(other.transpose(-2, -1))
@@ -790,14 +790,10 @@ class AutogradMatMul(AutogradFunction):
 
         # Fix gradient sizes for vector inputs
         if len(self_size) < 2:
-            self_grad = self_grad.squeeze()
-            if self_grad.dim() < 1:
-                self_grad = self_grad.unsqueeze(0)
+            self_grad = self_grad.squeeze(-2)
 
         if len(other_size) < 2:
-            other_grad = other_grad.squeeze()
-            if other_grad.dim() < 1:
-                other_grad = other_grad.unsqueeze(0)
+            other_grad = other_grad.squeeze(-1)
 
         return (
             _inverse_broadcast(self_grad, self_size),
@@ -1045,6 +1041,7 @@ class AutogradCosineSimilarity(AutogradFunction):
     @staticmethod
     def forward(ctx, x1, x2, dim=1, eps=None):
         assert x1.size() == x2.size(), "cosine_similarity sizes must match"
+        dim = dim % max(x1.dim(), 1)
 
         # Handle 0-d case
         zero_dim = x1.dim() == 0
@@ -1866,7 +1863,7 @@ class AutogradBatchNorm(AutogradFunction):
         x_norm = (x - mean) * inv_var
 
         # save context and return:
-        ctx.save_multiple_for_backward((x_norm, weight, inv_var, training))
+        ctx.save_multiple_for_backward((x_norm, weight, bias, inv_var, training))
         return x_norm * weight + bias
 
     @staticmethod
@@ -1892,7 +1889,7 @@ class AutogradBatchNorm(AutogradFunction):
         """
 
         # retrieve context:
-        x_norm, weight, inv_var, training = ctx.saved_tensors
+        x_norm, weight, bias, inv_var, training = ctx.saved_tensors
 
         # determine dimensions over which means and variances are computed:
         stats_dimensions = list(range(len(grad_output.shape)))
@@ -1929,7 +1926,10 @@ class AutogradBatchNorm(AutogradFunction):
             # put all the terms together:
             grad_input = grad_input.add(grad_mean).add(grad_std)
 
-        # return gradients:
+        # return gradients (a public weight is not a child of the output):
+        public_weight = not crypten.is_encrypted_tensor(weight)
+        if public_weight and crypten.is_encrypted_tensor(bias):
+            return (grad_input, grad_bias)
         return (grad_input, grad_weight, grad_bias)
 
 
-- 
2.43.0


From 2b2e178b307184be39686c1437d2dfe4c172e65a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 50/70] fix: avg_pool2d silently ignored ceil_mode when
 autograd recorded it

---
 crypten/gradients.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 2a8982f..6d60534 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1486,6 +1486,10 @@ class AutogradAvgPool2D(AutogradFunction):
             kernel_size = (kernel_size, kernel_size)
 
         # perform average pooling:
+        if ceil_mode:
+            raise NotImplementedError(
+                "CrypTen does not support `ceil_mode` for `avg_pool2d`"
+            )
         output = input.avg_pool2d(kernel_size, padding=padding, stride=stride)
 
         # store information for backward pass:
-- 
2.43.0


From 1027ee25593f87b094332d05c609fb3854425a78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 51/70] fix: odd powers of five and above were computed with
 the wrong exponent

---
 crypten/common/functions/power.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index 13e65f7..f0ed3c9 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -41,8 +41,7 @@ def pow(self, p, **kwargs):
     elif p % 2 == 0:
         return self.square().pow(p // 2)
     else:
-        x = self.square().mul_(self)
-        return x.pow((p - 1) // 2)
+        return self.square().pow(p // 2).mul_(self)
 
 
 def pos_pow(self, p):
-- 
2.43.0


From 304d924efd9dcfe9aa2b89cb9ecd0bdd4b702b5a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 52/70] fix: reciprocal_log_iters was ignored by the log method
 of reciprocal

---
 crypten/common/functions/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/functions/approximations.py b/crypten/common/functions/approximations.py
index 47281bc..9d9e3fa 100644
--- a/crypten/common/functions/approximations.py
+++ b/crypten/common/functions/approximations.py
@@ -169,7 +169,7 @@ def reciprocal(self, input_in_01=False):
         return result
     elif method == "log":
         log_iters = cfg.functions.reciprocal_log_iters
-        with cfg.temp_override({"functions.log_iters": log_iters}):
+        with cfg.temp_override({"functions.log_iterations": log_iters}):
             return exp(-log(self))
     else:
         raise ValueError(f"Invalid method {method} given for reciprocal function")
-- 
2.43.0


From bda2ffa6393306047e81c66232b3f989226a4f94 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 53/70] fix: setting sqrt_nr_initial made sqrt and inv_sqrt
 fail

---
 crypten/common/functions/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/functions/approximations.py b/crypten/common/functions/approximations.py
index 9d9e3fa..250f831 100644
--- a/crypten/common/functions/approximations.py
+++ b/crypten/common/functions/approximations.py
@@ -196,7 +196,7 @@ def inv_sqrt(self):
         y = exp(self.div(2).add(0.2).neg()).mul(2.2).add(0.2)
         y -= self.div(1024)
     else:
-        y = initial
+        y = self.mul(0).add(initial)
 
     # Newton Raphson iterations for inverse square root
     for _ in range(iters):
-- 
2.43.0


From 3280d43e10317584cb7a3cd61d9a7f1e686d6ae2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 54/70] fix: log and reciprocal rejected input_in_01 when
 autograd recorded them

---
 crypten/gradients.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 6d60534..3fd0b57 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -958,9 +958,9 @@ class AutogradExp(AutogradFunction):
 @register_function("log")
 class AutogradLog(AutogradFunction):
     @staticmethod
-    def forward(ctx, input):
+    def forward(ctx, input, input_in_01=False):
         ctx.save_for_backward(input)
-        return input.log()
+        return input.log(input_in_01=input_in_01)
 
     @staticmethod
     def backward(ctx, grad_output):
@@ -971,8 +971,8 @@ class AutogradLog(AutogradFunction):
 @register_function("reciprocal")
 class AutogradReciprocal(AutogradFunction):
     @staticmethod
-    def forward(ctx, input):
-        reciprocal = input.reciprocal()
+    def forward(ctx, input, input_in_01=False):
+        reciprocal = input.reciprocal(input_in_01=input_in_01)
         ctx.save_for_backward(reciprocal)
         return reciprocal
 
-- 
2.43.0


From 94c7a73da6e48879e299fa206e2a4c18f343fb3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 55/70] fix: x.pow(0) recorded by autograd was 0 at x = 0 and
 inexact elsewhere

---
 crypten/gradients.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 3fd0b57..81dddaf 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -882,6 +882,9 @@ class AutogradPolynomial(AutogradFunction):
 class AutogradPow(AutogradFunction):
     @staticmethod
     def forward(ctx, input, power):
+        if power == 0:  # constant, also where the reciprocal does not exist
+            ctx.save_multiple_for_backward([input, input.mul(0)])
+            return input.pow(power)
         grad_pow = input.pow(power - 1)
         grad = grad_pow.mul(power)
         ctx.save_multiple_for_backward([input, grad])
-- 
2.43.0


From 4e681a7645cd6cd9f66caddd936bf6ec7f78fc9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 56/70] fix: weighted_index could select no index or an index
 with zero weight

---
 crypten/common/functions/sampling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crypten/common/functions/sampling.py b/crypten/common/functions/sampling.py
index 96b1311..c22039f 100644
--- a/crypten/common/functions/sampling.py
+++ b/crypten/common/functions/sampling.py
@@ -78,9 +78,17 @@ def weighted_index(self, dim=None):
 
     x = self.cumsum(dim)
     max_weight = x.index_select(dim, torch.tensor(x.size(dim) - 1, device=self.device))
-    r = crypten.rand(max_weight.size(), device=self.device) * max_weight
+    r = crypten.rand(max_weight.size(), device=self.device)
 
-    gt = x.gt(r)
+    # Compare as integers: a product that is rescaled has a rounding error, which
+    # may leave a slice without any index or select an index with zero weight.
+    if isinstance(r, crypten.mpc.MPCTensor):
+        scale = r.encoder.scale
+        for tensor in (x, max_weight, r):
+            tensor.encoder = crypten.encoder.FixedPointEncoder(precision_bits=0)
+        x = x.mul(scale)
+
+    gt = x.gt(r * max_weight)
     shifted = gt.roll(1, dims=dim)
     shifted.data.index_fill_(dim, torch.tensor(0, device=self.device), 0)
 
-- 
2.43.0


From 0e5b129f47d5d136deee58102e7a4e28a2ffb555 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 57/70] fix: dropout with p = 1 returned zeros in evaluation
 mode and was never in place

---
 crypten/common/functions/dropout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypten/common/functions/dropout.py b/crypten/common/functions/dropout.py
index 2564d3f..602319c 100644
--- a/crypten/common/functions/dropout.py
+++ b/crypten/common/functions/dropout.py
@@ -25,10 +25,10 @@ def dropout(self, p=0.5, training=True, inplace=False):
     """
     if p == 0.0:
         return self
-    elif p == 1.0:
-        return self - self
+    elif p == 1.0 and training:
+        return self.sub_(self) if inplace else self - self
 
-    assert p > 0.0 and p < 1.0, "dropout probability has to be between 0 and 1"
+    assert p > 0.0 and p <= 1.0, "dropout probability has to be between 0 and 1"
     if training and inplace:
         logging.warning(
             "CrypTen dropout does not support inplace computation during training."
-- 
2.43.0


From 7b7b3b33909193facb2e3a77ef4708c43ca0bde9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 58/70] fix: dropout and feature dropout with p = 1 recorded by
 autograd returned garbage

---
 crypten/gradients.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 81dddaf..0024944 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -546,19 +546,21 @@ class AutogradDropout(AutogradFunction):
             input.size(), generator=generator, device=input.device
         )
         boolean_mask = (random_tensor > p).to(input.device, dtype=torch.float)
+        # with p = 1 everything is dropped: there is nothing to rescale
+        scaled_mask = boolean_mask.div(1.0 - p) if p < 1.0 else boolean_mask.mul(0.0)
         if inplace:
-            result = input.mul_(boolean_mask.div(1.0 - p))
+            result = input.mul_(scaled_mask)
         else:
-            result = input.mul(boolean_mask.div(1.0 - p))
-        ctx.save_multiple_for_backward([boolean_mask, p])
+            result = input.mul(scaled_mask)
+        ctx.save_multiple_for_backward([scaled_mask])
         return result
 
     @staticmethod
     def backward(ctx, grad_output):
         if len(ctx.saved_tensors) == 0:
             return grad_output  # forward pass was run in eval mode
-        boolean_mask, p = ctx.saved_tensors
-        return grad_output.mul(boolean_mask.div(1.0 - p))
+        (scaled_mask,) = ctx.saved_tensors
+        return grad_output.mul(scaled_mask)
 
 
 @register_function("_feature_dropout")
@@ -585,19 +587,21 @@ class AutogradFeatureDropout(AutogradFunction):
         for i in range(2, input.dim()):
             boolean_mask = boolean_mask.unsqueeze(i)
         boolean_mask, _ = torch.broadcast_tensors(boolean_mask, input.data)
+        # with p = 1 everything is dropped: there is nothing to rescale
+        scaled_mask = boolean_mask.div(1.0 - p) if p < 1.0 else boolean_mask.mul(0.0)
         if inplace:
-            result = input.mul_(boolean_mask.div(1.0 - p))
+            result = input.mul_(scaled_mask)
         else:
-            result = input.mul(boolean_mask.div(1.0 - p))
-        ctx.save_multiple_for_backward([boolean_mask, p])
+            result = input.mul(scaled_mask)
+        ctx.save_multiple_for_backward([scaled_mask])
         return result
 
     @staticmethod
     def backward(ctx, grad_output):
         if len(ctx.saved_tensors) == 0:
             return grad_output  # forward pass was run in eval mode
-        boolean_mask, p = ctx.saved_tensors
-        return grad_output.mul(boolean_mask.div(1.0 - p))
+        (scaled_mask,) = ctx.saved_tensors
+        return grad_output.mul(scaled_mask)
 
 
 @register_function("tanh")
-- 
2.43.0


From 982be7dd5c60a81e3e9c9c0d8979478f264103a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 59/70] Untrack compiled Python files added by earlier commits
 by accident

---
 crypten/__pycache__/__init__.cpython-312.pyc   | Bin 27464 -> 0 bytes
 crypten/__pycache__/cryptensor.cpython-312.pyc | Bin 31552 -> 0 bytes
 crypten/__pycache__/encoder.cpython-312.pyc    | Bin 4882 -> 0 bytes
 crypten/__pycache__/gradients.cpython-312.pyc  | Bin 95649 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 202 -> 0 bytes
 crypten/common/__pycache__/rng.cpython-312.pyc | Bin 2274 -> 0 bytes
 .../common/__pycache__/serial.cpython-312.pyc  | Bin 6791 -> 0 bytes
 .../__pycache__/tensor_types.cpython-312.pyc   | Bin 1800 -> 0 bytes
 .../common/__pycache__/util.cpython-312.pyc    | Bin 5478 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 342 -> 0 bytes
 .../__pycache__/approximations.cpython-312.pyc | Bin 19228 -> 0 bytes
 .../__pycache__/dropout.cpython-312.pyc        | Bin 1606 -> 0 bytes
 .../__pycache__/logic.cpython-312.pyc          | Bin 3869 -> 0 bytes
 .../__pycache__/maximum.cpython-312.pyc        | Bin 14228 -> 0 bytes
 .../__pycache__/pooling.cpython-312.pyc        | Bin 15512 -> 0 bytes
 .../__pycache__/power.cpython-312.pyc          | Bin 6087 -> 0 bytes
 .../__pycache__/regular.cpython-312.pyc        | Bin 13314 -> 0 bytes
 .../__pycache__/sampling.cpython-312.pyc       | Bin 4387 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 1571 -> 0 bytes
 .../__pycache__/communicator.cpython-312.pyc   | Bin 12605 -> 0 bytes
 .../distributed_communicator.cpython-312.pyc   | Bin 21201 -> 0 bytes
 .../in_process_communicator.cpython-312.pyc    | Bin 12002 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 236 -> 0 bytes
 .../config/__pycache__/config.cpython-312.pyc  | Bin 4704 -> 0 bytes
 .../cuda/__pycache__/__init__.cpython-312.pyc  | Bin 215 -> 0 bytes
 .../__pycache__/cuda_tensor.cpython-312.pyc    | Bin 30985 -> 0 bytes
 .../debug/__pycache__/__init__.cpython-312.pyc | Bin 977 -> 0 bytes
 .../debug/__pycache__/debug.cpython-312.pyc    | Bin 6740 -> 0 bytes
 .../mpc/__pycache__/__init__.cpython-312.pyc   | Bin 1170 -> 0 bytes
 .../mpc/__pycache__/context.cpython-312.pyc    | Bin 4981 -> 0 bytes
 crypten/mpc/__pycache__/mpc.cpython-312.pyc    | Bin 16674 -> 0 bytes
 crypten/mpc/__pycache__/ptype.cpython-312.pyc  | Bin 950 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 294 -> 0 bytes
 .../__pycache__/arithmetic.cpython-312.pyc     | Bin 35490 -> 0 bytes
 .../__pycache__/beaver.cpython-312.pyc         | Bin 10998 -> 0 bytes
 .../__pycache__/binary.cpython-312.pyc         | Bin 23743 -> 0 bytes
 .../__pycache__/circuit.cpython-312.pyc        | Bin 5560 -> 0 bytes
 .../__pycache__/converters.cpython-312.pyc     | Bin 3817 -> 0 bytes
 .../__pycache__/replicated.cpython-312.pyc     | Bin 6300 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc       | Bin 386 -> 0 bytes
 .../homomorphic_provider.cpython-312.pyc       | Bin 1612 -> 0 bytes
 .../__pycache__/provider.cpython-312.pyc       | Bin 10237 -> 0 bytes
 .../__pycache__/tfp_provider.cpython-312.pyc   | Bin 3529 -> 0 bytes
 .../__pycache__/ttp_provider.cpython-312.pyc   | Bin 18194 -> 0 bytes
 .../nn/__pycache__/__init__.cpython-312.pyc    | Bin 2078 -> 0 bytes
 .../nn/__pycache__/distances.cpython-312.pyc   | Bin 1764 -> 0 bytes
 crypten/nn/__pycache__/init.cpython-312.pyc    | Bin 1182 -> 0 bytes
 crypten/nn/__pycache__/loss.cpython-312.pyc    | Bin 9820 -> 0 bytes
 crypten/nn/__pycache__/module.cpython-312.pyc  | Bin 131483 -> 0 bytes
 .../__pycache__/onnx_converter.cpython-312.pyc | Bin 14933 -> 0 bytes
 .../optim/__pycache__/__init__.cpython-312.pyc | Bin 252 -> 0 bytes
 .../__pycache__/optimizer.cpython-312.pyc      | Bin 4890 -> 0 bytes
 crypten/optim/__pycache__/sgd.cpython-312.pyc  | Bin 6266 -> 0 bytes
 53 files changed, 0 insertions(+), 0 deletions(-)
 delete mode 100644 crypten/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/__pycache__/cryptensor.cpython-312.pyc
 delete mode 100644 crypten/__pycache__/encoder.cpython-312.pyc
 delete mode 100644 crypten/__pycache__/gradients.cpython-312.pyc
 delete mode 100644 crypten/common/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/common/__pycache__/rng.cpython-312.pyc
 delete mode 100644 crypten/common/__pycache__/serial.cpython-312.pyc
 delete mode 100644 crypten/common/__pycache__/tensor_types.cpython-312.pyc
 delete mode 100644 crypten/common/__pycache__/util.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/approximations.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/dropout.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/logic.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/maximum.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/pooling.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/power.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/regular.cpython-312.pyc
 delete mode 100644 crypten/common/functions/__pycache__/sampling.cpython-312.pyc
 delete mode 100644 crypten/communicator/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/communicator/__pycache__/communicator.cpython-312.pyc
 delete mode 100644 crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc
 delete mode 100644 crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc
 delete mode 100644 crypten/config/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/config/__pycache__/config.cpython-312.pyc
 delete mode 100644 crypten/cuda/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc
 delete mode 100644 crypten/debug/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/debug/__pycache__/debug.cpython-312.pyc
 delete mode 100644 crypten/mpc/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/mpc/__pycache__/context.cpython-312.pyc
 delete mode 100644 crypten/mpc/__pycache__/mpc.cpython-312.pyc
 delete mode 100644 crypten/mpc/__pycache__/ptype.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc
 delete mode 100644 crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc
 delete mode 100644 crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc
 delete mode 100644 crypten/mpc/provider/__pycache__/provider.cpython-312.pyc
 delete mode 100644 crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc
 delete mode 100644 crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/distances.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/init.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/loss.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/module.cpython-312.pyc
 delete mode 100644 crypten/nn/__pycache__/onnx_converter.cpython-312.pyc
 delete mode 100644 crypten/optim/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 crypten/optim/__pycache__/optimizer.cpython-312.pyc
 delete mode 100644 crypten/optim/__pycache__/sgd.cpython-312.pyc

diff --git a/crypten/__pycache__/__init__.cpython-312.pyc b/crypten/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 25357872ebff13d5a923c49eb07b9bfb98765b54..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 27464
zcmeHwd2n3EncsVJU%-I4NB|@;I0#}u5FkbI0uPzuAzp$cg0f}W3OJni01h~qf!-UC
z1UxK(va$j##sp%o3CDB{A6bKu9MQX5YbSQH@@^`%$)+|l9B>C3!4>UVTUr0HRS>}~
z+xjEP@9TcY3^)X7Mc#EPc`Wqwdwq9*{oURC^O6#efalHf|2gn`pA>|j(Tn~#w8-L7
ziy&MVB;k}GiIOEMo)X!w<&=f}T2EQoukDnL{n}62*{|c2ll{5|-KRVvFYDF5`Ly2>
z?YC6>^`G)fR>>AE8(eW}1<F_@d$fG8;#38TJEE0?Ri~;%L9QBT*Sl%{o~p+84)a})
zomz?SoAfvH_tdJ0!2e0k8@5o5)GoPR6;IVl?pK9Vb&?0+YRQXmjpRePRw_YQFO?z;
zNPdJ3QW?TVX$8V2$s(2C5T%M&EvG7_N_=USst~S|su8wGD-o_o9*eXJf1>Okc-HKR
z9_w>RHRwU`0jZ)?i_}(D`lMdQ{Oz+ybx7ZU(#29mX*E*Yq&4VCyR=bSi?@yVt;cT%
z>sjE2MQT9*JMl(iX+(UJ)FCw?$7b|fl$w!a9lkzhytUwMi}AJ|Z;wlzQY%Vqm4aw#
zo79GId%qxU_?CET$A~4kY1F={<MED7Kc}8||6D{E6mxb-J~P~ph&9|tKc4-{$k0hS
zrpA?^EoU22<nuXOOum@N*`x7rD4KKhN8@Kg(XiE=0Ktwpy)S-+foxK^T$P~u*)xD|
zOP{3hhL$c02`bH=0Uh-95BPmUiz{^rxBhv6Z65uN|4NpGPyh0U)}knkh<UY_>gndM
zWKERmZv*9e%={gwGUIwo@6nq!vz?@Pxhb!uYCW&{tCt$6F~8}tq*!z|maC;sFKhnl
zEj(gB)|e&rm|nv<%%9Sis9*XWYxR+5OWE^~vH`s{^LL=pjO($1W<6&94*1Qu9@ED{
zFhKu;_RtW9<q6<95{o1vp=e}O4rtKc5jc_vT!=)YfryzFjt>qF$0FfSBCfOtR5>v`
z6c`FAi4j&wEHo$w`r=BUFA|jlYUsQi=nO>TA*nqOib+~_RhA`{<vM|n@xeg%@ZcF)
z2|OjoWF?e{MB=dyR@;*!0ZHx)4M!7!#97ok91ACqcwe7FRB<5Q7dX-VRG^>N5?9m!
zvhIKOd0y9%z5se0KHCu<mO>p7wKsG=6p4n;MCI0CK*2DSm>M{#49o3-$o-=Z#R4Ho
z!UV-*p(yLy16zCwEe4)fWwakgF?C1|NBTzC0FZ<MosWcN_L|qzkRr2M&54#U%EVbM
zdxwXm?o;~JE*7H&W3%4NX1rBRD8a7$FNJGBbI(^npU;RI=#IyDqg0vJt=32^fmKal
zY58pN@2I;+8;6#W>c4NcjjpjdczRe(1kT8TP{15FUyJV1dJV(^=tn53$RTMY56GmB
zLqSW<JFLpRiL;cb=3F#0y@|w7utFi!nDf$jdc*NpU!*^0BdE-kVpa1dFz31uQeu%<
zznZgAELVDBIF^VE%Aew&b9R<H=L`e6C*)YpIye;0`OrqMBEK{oQDiA+?Uxfd7uK51
zbIyg=UL_Pemn)^%g}4%xdR1(hoVS;4h29}0)}M0?De?0WNmh7m#+&=($!GURBXTSe
zwC23L@4d8BavpOra}GYmD$x$C%!g|`6N5vY7dw^Bk9TTa?d)Y;@9pgv8p+vc%nD%u
zVnft91Y^R&TESJ3a;}|sd9V4e_@}(HuI76V!R5<3Ytzo!S?B6`SJ}0aD<!Gw?LS^S
z>pDE=D!u0t?C#f&UOqat_08>X?Yg-uyJ3HN!~V>MgLiC)7Eri6<y<rG@?CRXalP)z
zy6V!dx~ZeHuJx?q*DhYZ`1w&@ea5-^M&cV6zk2a&quKf$>G~a+`mWo~u6b9*)slH{
z`L$hFc4fUyX>Zf4cip_N;@Yt*$Fjaa+84<BHl}?Wv%c+V-}bC;PujQVj_-*DtKe%{
zunVqTix`^_)(9EJO(J_3FV}_T39KY0g{1hV<qeHY=abny)F=e4-6w-qg-B=4#+KV-
zE;SMevnrJotVR&DDC;TSia@2l1p-PFesW$8vkZcjAikWS94irw3G+4=o9V}=rCXzS
zY){VH{QvZ6WgXJO_%j}=jyk*eEd&^zkx-0(7_b@1Mx+?`FyJzhjmUu4h#C=dN)jdd
z$6{QDp07u^DRu{)3b6+Y(P@Rqsj`*=BAYn}2nWF`&EHLdjh4-nLV(MHPa&cbcRVJ%
zZ}Yx(?DDa!ZB^Q~Dr;Mpwyn$BI@7k!tZiG`wr$q7W8Uj0NP2xw%C>5mscS=Z4}%PI
z2+9Uz$C9!&Cc>_4q<~h2_mzF4;6?nYD-d8cz5c9sZQ8pw;|-*2fn_@LC}660X29S9
z(TMiwX`tW&@2UoltB@gAGo%2411st@8uY4HO@tEa(oxVHD-?wAw@9$eVe;_h!=FEz
zwY8>gt#@o~|9AsYWJ0=+Fpw=Y5DH|9Y^H$iB7@V$7urE=7ZIF23=~W*ya%E{=sT$B
zgxnud6GYKNfiS2VSeCAEG^DCsr!_hT!Qga29X`XpYSjAVSr9i#4#&aMfLey4(f9?G
z5q=Oh1@sjZ4{HOG6iN`4)Qb}%lV2~Rs(lI?eRd>q7CcRONCKB4pO<5S2)G(>Myy%z
zEvg*tBa#}6CpdpVb!lDf2%L-u&@!to0xBOG8j2EMQqW8EDpb(A(XIACG;)p@mk4+e
zR!K)kARL$Ejb|VOo$CVo!MexOK)3>*Fej%&(WbChqhOe@*7buUd9Uk(2K&H=^Yn;W
zzSWEdO%8|}>FD4*1-2{+O1X+6EkS~_5uc<IP;lg|Y(<m>1Bj@Evc`mawSuoY>kX#8
z!I|caw=-qyydRis$jX4}JR;YH<in8iGMo6ksFWt0sD?d6oklT+H#E?F1@9)p@1=Ix
z1F6+Ix}`@>aA49oy2QwkOzSHVWQD;s0jTo9NbUHr(VWEq%f1c(8kae|$QJ?Q9o<1Y
zpU2AH-u)*&{p`tu-968o=so%AXAk!D_U3Ho<PkOJ`D7?MEFV;qxRR^u?LBbt(7xx7
zpIn;1xA&%)^PB74OHJl2L9ULrxYqqVKw$ZlCotAg{Hc#27!%%eR^J%NuHBPfyC=K$
z$@JPMGiwi|od@PiSEXw9yzNidJd-JXHsyMDZsYD(j~2yTG^=dg8WDLIDW$DHy5*@~
ze~vXURCc40B{(-%M?B+$#=8#%F5^!nfgIG&Tb1>0PJ1_}Y@6?gL4p}JmRgJ|AE5za
zh-F}pE{LmnLbxOj81Sa&69iL<U?M*q3iaPtM6>2%Ou&G_BAE5+#Oi?XA~x7((X&h9
zC5y?Ufg7_Jy%eujB*m~r6nX?(p87+weDoe;pL7{($N-*6OTdYQG`VCJ!G<{v?w?`s
z{Qc4~+R9}f%E2?}s5PYHR21q8eD2a{;Q5%2c940=E~6YlXU-E*Ild3eY=<ekFi|-N
z1gXJLB4?xSDLd(tJ(7?IRY(X9-m0>VzFNakRTl|3ds#u?v}AiJN09e-@TYzb0Ry9n
zz8eFx-XM0$oNpWFsedfJz3oTQjPKZ@)#CRo2o|>oEPQn!TlILl>hWw<SGuYzQ?>i9
zV6m^d;vTn+hv&Uj6Ma+RJKn~*ij`kDwqQpJig>G1Rok;wd(%~Wf1G&x(2tUts^b~Y
z(<vKgWtBbXL>PbUp$$mLkT|QwFCZY~Ip#6JK?j#hgj5YMF2>b93~?rCbFima>7+pF
zrlc4F_<cwGqKM6I8U0;GeGY}fpw%O$ssXr^D+dB{jL)?J3;?742od4aOBUfY6eoS4
z!K}vn5($V5(1Vx_NGw3%NG2@KshY9_Jq_9v!VVm22t*j@Kn~f9c+M7rRv_m%2NAb_
z350mejww$g??1<%+KmA6VX5F+N%CRs)=cg8asQl&U(?P#_n}p+HBrX4w6|^MiL`gu
z4^O7N$KU>B+Iu`@JAOZYvZ0N9TuV#Op8SQ?cRs_lTiIlt$kW3RZxcT=z%&H0`(~d{
z&rOT6AN8`CA#E-4=M$I;C<KgU>(zGCb13jF{AsK^gkE3uMEFKm#@mvzweYd9zG?w+
z6>KbjhOmHc(AOo84#L2A;Pfx$;jv<ZSe{a{h)5<G3Q$O_+6<cf00-hnt%1nV)uX_x
zv@-1Zb#b`zuOw@~cu7pq_GQmQ>LST#$)nGXJ{rst#KcRMq&QHqBr9GeThj71;p@iO
zMd9iy8@BBM;hHsU>4zTRMaa^Ztjo_q(yF&MX}MZs6E4{<S(7%j4D@@+ZqDbx@~heS
z@YPJ(AG}UUJ6nNfn{agxR)OR#_6(3VV9Ap(l;H!lOOo&^+4b>A4t)nn&QU1;FFEpN
zf)o==o}@!BdCB=3>VfMwRImFXBXb)gbDIkKq%-MCx=mfrh>N(3u;r5Vf)I3v{tyf9
zAqhfLJA)xO3pK11fWn8A(p*ao{I98L<-m|C4@>cldOC8GauFgHt7cSI;vIoQko4qG
zSXbP(2QJ8Z1*8>^4=V-ro3czJ8I>9XfsJ}MsC}*jCK5rZk@&Ehr)#IaH<A(R!KEm5
zX$fYqYNU3kfpf9=g%}j&BnieDF=FYwP@q+np_n8|g2|suCA^-5TCS95HJ})E4oXeP
zvk;Q|WCb`kzeLAiC^j65LPIJ`rjXajO=gW+N3_X5GeUwgYd#{YT$VhE@oUpVifnDn
z`Z6$M0v67gw_(hF;%q3v*8$4cu&jdQ(&DOYrJ(obgJ&A{g4rcyABMw=P-B$W$i}9V
zvT*9d1bj`bCw(~8qyY<ADM*Zuoz|E8Jc&#y#C8G>KI;k2A;=fObkO`?h*KG=h02je
z7*n7r69}#VZ;7*mav~CDqXF=>v;OfyDu9F+L5DGguvf6UV$8V027cizS!Jk!I0A)4
z`-FnVRj3Z24<H2vDrJ_L`^OSuRTSL=)NKy_t!z%n?g7QWM3YAob0!iCDcnFr%Rp@m
zgBk8eLgGS1l{a2QCV(0B2`gvXT3|fV`-mCkumetbXgDY;z{p^J$eJ^1r?BhiL_>4d
zGm-vizRc|sx`Smok7;aCx+tHW0dvl+?f$sJDpXEVnlIlxl(S>S`{kUEtL34Sf)yd>
zfc8X=!9W0*&v|Hf^qv_>$ZF0KS98u`4xGwUR2xhKBe5`pel_UHSs_B_R#1;23z98}
znHJQX7~zb*FE2^eMoBv-=O*xD)#N;Elk&Ki?;~D6$bdk2fj?YfNu+=&s&68qCc#NS
z)6p)J)n0q~%F7vl;I3e`d&aHvosYlu^39j$D^^|KJ-K_@o~dZLXSHndT=h(Bx#GWJ
z|Az0YzUk*Pt2W$rwJ%sv<eo=xmAp2389M*9Y3JHmXJBqk)70UVt7d*h^_PdQk4}ze
zS9YXVc4Ss=%B<LYR}kHgjqjWDt;zbD)4t~E;hE=V_D_H2j&JjV6-n=HKm3;~kIW>r
zmQLPT)s|X$WZZ|~z3N8DBJLyN_@Vig4cA|ud^xkS74?-I5htwkZJlp*-t2t4dbaKG
zmpxNkCjHZn+hyxNuu}4Zm5SY~6ny?`d#~)h(fEzFueMD;_qB~PRnYI;T9@{2A3HE#
zR(0Js>6<#4DQg@%0#>)Y>iXKrwcoLP*Yi!!%;s;G%nWB%Z2h4<y<*SUQ6yJXU+<Xg
z_)htEYrk1Lv+vt$ZrL;C+kRM;F5f$LY`%Qu_4dj3sn2D~H;f&7-{zliPjyXy?v8EC
zukLOXRvi^p;wS&qzWS+pTY<NL!7_i5vzZ3VTujq1iTz?8>tZl<s9Jl#if9rP7$igF
zFQ)m|nX=_90GDi!SjRF-fJ^qIO|qW*EP!z|X_suI+)3I<;dRN8bVycWVYGMWBerI+
zqWY*&g8(*1AGzxh>nXyjCap>5n|7lnchXgiMb+m{6q4@c(_@w-Sk<I;Io}DS3(KYp
zk2szpOl1;oKKf{uZNrivO9Fc&2XUeU%Xn3QjgDdcJWI<YJ*;FAZwiwghw;s9$w~Q_
zDP<@{3re{jQpymZ3QD;jQYv5I7_tc?o}hR14kLa&!1$_8&~@g=<gwbJDhNlw3UTg&
zu}s7ob#QKqyFi>#V7Cs3U>fImo8{$v&b~gdPwX9r1~4=d6tYU>%y0tQfWR|4(*pef
z*X~M;wlaQ#S&y0CHy&3cP+M?p)IZMegu+T391zhJ&CU<5f+&PS8wGN+T_Ww%&*@De
zF$j8FtEz+*!W#-vRfW8a6e2F&LBH|>y)e>di^gO9+*C$usSv0rB(y+@r4o6x!-^h;
zuhfN51UfEKY~|d>3@Bvn<J8!j&mwx2vy>2_V1O!f(=0Lq$BeAZ+^Ug7;>NUe7PY~2
zzX?WL`K8T_cB)=fz^Ne%IY~T2Ra5X+_*2hul2|FMsAhB^G}ZH_{VmT;&urNiP7kWD
zubN!-rP}O@w)Bd&%!>B0qhx#Bab?HrU54Fn?7*CJ#l&;3ygXM`GqrE>h3VRK<%V(h
zT-Dm?6_YPc52PzMjl19XS6sVz<>Kq3S$}=nUq9`h*_rWg9k<Qj_kASgug~~*j@#aY
z!QFkuebqb1Bmd0%Uger`_j_eE*Gnf$Gi8CXBXfCiqE9QYw@$WxsV!UHk}hwV{@ks7
zpikNIUFq^&neshj$L^I16>FwGnJ#b6mIu@2L6EAug3Z2n+%fMepV*dm)lMO3%(^<#
zu8x_JS=Y|xzHcWlfJ13lQ`Xg)c6HwJ%(`|_{vB!8YBb_%&bl_GU7K#z-Er;tz>Q|O
ziX~s%CU%Y97k`YPK*d5Jx#TIP(NlITj~Pw1HdHdpQbQ=DHOdP`HNg&h$ZY^ATAyKi
zwU`!hQ%&=V7_^4IiQ;T??IU)YRCzEPLPmnEgE;R<f&9l=ZCOnaGdwh`48>J&{6&RG
zUS5&qeEg&B<L)^2I}>?~jY4X(q4>~n6sSPbxNU=f<ozpfCNk0<D1n-IjuoffWOAYZ
z_~K+97p!-txJXGIAKmdh)@7qQ3==4+_c^<+p<c`!lZTl+gv3Y;SQGA`fk7BM$-jZX
zRUw`$=V1xGlwe{-hFEkJZ6PL834+i*$3kR4R46C~%%}$u0b^b+xV*28Tpr0f>ux*i
z<|}KiAD=uvU6UbPGGASHJvtek-j%8D9QVHOs+c%3H9E8Fj%)k-WC!cXl%7nvPO|-V
zC`^2&{!pBNdGRmMZK&NXiq}-T=L4{*I8WM4{hrP^sLrE;WYL)(*e7*{ZXI$jyRGyx
z%Q2bfu-RD)Ha$0NPLEdWGHhqkcCJ+rCPbymP38vZ8pphF#l`Ps8jZtji>F?4B8S@|
zB<)F|k4yv(G7&&yW-yxr<ovPZdD*F>4JD9t7GnkRm5j_w9=&zF^d(p9M&24Y6NY>4
z05qjbp8<n`GE?-mf;eq3ZUe=%fkuxnx%vgLw}xYDUR_%BTO!gM%<p<k@BO!+lYOxT
zjG#MjmKyb3<}aA!X7f#t>0?j2dktsftF1O6wlc9^&m%b#K|P){dR}NPe?(Z>sMllu
zLQk0Iwj7Hmt(Sv|4n4h?xBdWGrI$Pd<WjKYDPVUW4VH`aPlD*AuPY$YAe~9){d-g?
zOFAVN!94c3Ie&(R6nkn}NH%9zS()h6hcmEEkD0&FuiD=9nEguHlFnWO(vr>|p-D)z
z>G_)lr3GyGN1ua&HF`z3AY8P5TDTwvy`jGYQu7d6KMvL!tTR+^X9nbOg83h7I@Hrl
z-P1uH$*sZD0qC1_!yNn8%QQHQjYe`&ciX<MK!~|DZ)AQjS`)2jLyWvf28W{ZASppl
zlfx=1Y3H$MBt|W^vkp=x`2&-4G|F<3mhm*0^>cU&LZJseA35L>M*t7eL<k;pi1MZb
zWWP3Q0<kA2SXt^Ke`BWCGd=~FzL9wtp*y6YqpZ9pZV2lnsuksm-99c4P}dB5Sy$kI
z40&V_{Z|7Q&dN+Xrx_HXe~b@Dxlb|8w^2wllp9^tMyvg>u?<Brqy#CZ*^+1_%nq<_
z^>X*Bz{$`#v>sxl7b;EoZ$pL%!&zJRd171-DE1kdPnhobMj{jGB8&Ef`xh}SDb$ph
zWtE(DLF&~|AJ<q)a6eO+H$42&q03d{u;<1$s?gtu%>~FGU4ibEyq@7%PJAEa9~o9+
zV+>4Liw-k)1g=#-Tf9cz7?&N*>498Uurj2m)pBw@us)$=gFcPir->CLUvI8^E|?H5
zH*$4x0>ar4Eeg5}hymBbs%CEA#3PZPGBa%Jl@`>r#G;+wcdm|Rl~RqGD+L?+>AutK
zTtFmIP#IqtLr{*eUQt=Dw$`TFD8fC#qj42r(G}Rw9rWm9o*AF)0r0a3p9MHkP25xw
zf}H}hrXdF^lDAPY6Ie&G#S{4R>Cifl86`}j;TFRwkezohPANoUMh_o^Yv3uc&p1{P
z;3j+~`VYam5Y+?n&<pBsm=BM`!Dz>EZ8I<3c+li?Z>|xD8^qqm74ZL~?UX;zhXW6U
zEC3W}q<@&9t3lmMAI^l>mi@BAv;w0W?kl3_1Y~?>6AW91^Lwy+wDX{5#2}SFX0(qj
ztBH+RS@KH6j1nx4){w_cINl$F^Sp*f*p67I{``O88GS6T`2g0A`plsfNMyKZSp}*n
zA-E=20deSvj*exCxv6nCfq#Mw#k3WSch9+@_2=tLx`hk9WYNIU0p{LsiN$h`r{mHv
zeD!hI0ABYlNtTCLjC}WjmdQUf=R7mq2Ll*f<XGumA{9BC6iS40?vv25@XipcpK~9)
z7?y_!yW~m?l}Inh3iF@NImq`FX%3Ev^86YJNpbwhoH~>^4cn6w`<Naiij^i~fdLsg
zZyrWvnR7nMgeusMQI1n@959aIoK4Qhf3?Aj36+#SCZ1!0OU}>An<P{D7nF&Fm^$$A
zW5Ne}1=ouC(uP#yiA-rv%GL9}zh<iGhC1tS!b@shPX?jC={=u+V)GXcPgUH1R-mSf
zH1|8-^X^!*<9E*2MSdD(OH?k?`!nA43zn57)pM(Arrgsbsr9?(s;VbmoN=dGccO+B
z2gUa)4xkD|;O4Zde8DADR!!`jThlUeXs%*)s-pRwHNlyN^qOrm=MhXCg8Bp^*AtUZ
zOmCa5Xq#&aW}CL8o3`9K^n+vHKlTStXPTazJU(AlKka~q$aT~8mj9-Iwra<G)B5l3
z`R1Nm)tROp6UXP)oR~^x>$j!rw`J;gq}H7H;qL6NXVSZ#$?SR#Z!l$4bxn!yH?(9M
zHm4gl-)i_l%lBI{4LhgAuRA`lBN1b*Yfd#k@gJMtKL4lf>E`ZC?K7#$XYTogk`>nu
zUpf5xQO$(%*;`xg__kwEWpyck%Y4~NQVC_t)}_nVWy^M^%Xa>7!))21`Kp@hFHFAh
zrBm6ejp?e5Gt#a7nW`PIrC?QBzSA`8Z<*P4>%_m_Jzrg)3Y^STKc6al{(W!RwI{AT
zF|}>h+c;mfI$O0qUA2D3ace(DJAP=vCsfyrJFa@>{8i&6zr5EeRIY&;sigY-vdZhO
zN!OP=*|OGjS?f&sOwVlD=DD(}1t(HJR7p_#$)5e4hqnrUwzcy}GaNbaMSn=J_Tq1G
z2mucHLg#Xx*jPXoe;|BnaR{IJ4vF9Zmp+UI_CSz>8?9c7H1ItF|Hgzn=KsaNLU;2H
zDrY#GkdJOM<{VN1lT(Df)EFb3!DO}UE6}j~_VJJTSm2}3O*Tlv4F&X*DAun>H;sCh
z($7L3{o%yYsHhmxWT<cSd3~X1@HqLWF|rzI;>4cL-Ek&Ir;_YIALF141O=VF?x5pb
zJtJV&FLDG=8uA>J;~@#Yd*pSee1!tSw92yxRDxHUIj#u$I(?_$0^!hS5P^eUHLR->
zj>|94m)6Yr!ltL@0?e+J+`M|*+3-$j?bPPi<KtGG&+_@lj(%Vj{B={C)1~XD9SFv)
zbKcUiqg>^hze$X(_WNkE(1Z95ZHr;!S<w~t6zGVkEPIlcgrQ~9<-q%NL>A5Hw+^|<
zjKH2^-e<ZtVL4CYb47GSZs8H@HRN8s7v@3gq{ToNFv2CpJ_|HIHq!h+W_`3?7cnC0
zBZ9)%4q5nPsK=0c9id~G3I^~!;6zDA+HaguCn56Lk&|@XRcE)cBe)1zRJH{|>w>ss
zocx7fbMZQ`u^HoQ?6luLti}W+8cTr;!sNsYaG=3d5j&>y)rQ={<r`yMG)kRAGH_!d
zeqvQVOs1eB|3@+fArVuKDJD}eG;T6u4@Z;w*b8NfjXk0BBtsjFqXs$;5Gk6F9kOzs
zNTJIIAe9A@#I{Gsi4yk-6+yT19CoTQM!|jx9>l+c?G7nQL{@Nkh0rTUxx^Ree6#@i
zLNWxb68a+C%aL!+&vKaar+gFX*9Z~6g$O$o1OwNWS!X@tXrIfJo=CY)<a4w~Q|pdq
zTt^>;qdg$L=iN^%?Ew)y?SjMZZpbtJHKzTI8GrMP^|pV*J7ue<dZruFWgXM!Z<lp|
zFEx3;wQ1klJHEg#uO863LG8<jst<ksNucw|$Amw5ta*R6wZO;3K>BYY*LA^7oDlpH
zG<0Xx(4B_<VfoMJ%}|0K9i=_wY@!Hs_c7FCpgT(loLoM-Bbk`H^pUt(i24e6HLm6Q
ze+d2M!TbLOi0dO_t8V=iHgh}p1^^R`mbvw(@qusl0!9nMJZ4AvHd5cD4GtG@;<Re5
z_BHRgDkplT8q%(osq?p8E$^GB+-qSEzvEi{%d0m1+`IPWLzM{nE1pi_t>%3dg*%O!
zwc>A)B;yCLSEaP`MzJT^!9U2^NejJ^UsR7^vR=jP-KInXb-z&TfRw&Zah8UT6{249
z074Ayn62R43%|{RAG`pIpeeYpr(~|rh8Tocn5@W5Wha9>hL_6eNNi|0!4>IDD+hhI
zB$G=dXb7XC&|RH|YL#D_0hKz#xHKnNDTddHNmec+$l3cq!{|-~w^0C|Bh*07&MH@_
zoPn|JP{%2<aueVFn3nOAhyYK6FRq)~IqO_E=U+9oHSG^f@0)Rd^XXg9r<=Oc{;rg(
zYu;UYt^P{=RL!irX|8h3^=BrZ$yBa`kA}BwVrSaBdTMw^oH=r{1cH0oyDeqg#`)%a
zG)Vj|TiB~;`88|d(wc{s3b<iWUkun@2nDl8vb+j=<N*VrzJdDafz@SM8wml;n^wJk
z0E$_ot$2-$Be$D<pjNM0v=bB%$O{}D3;`RbCHyw>mbZK%?}Wv;wNI2Buez>S@9#Nl
z$7!}>x=5Jds#&IBTa}m_7W!{+<@z^$CI$?Cna>P`OGmGH^jqN3?-_lX!Px$I442c$
z<O9W3y(WvNkqOAF?7W`}<uf@j!O;q;P?hxjrxDd)b+nE_ATdj*FJN#tI0mgI!rE%F
zp3!Ef6X=VF5F8UkZ1|+`BD~CSTE@s%jF_5N9DPN+F5-Mk9o)@??^!R1$_7-0v!uoz
zxoOE+IyNa^#b=e^QR7}dbnhm|=8Hqh-qC7wvtu{&$x!!p7~fOqf=VuLe=GcQOt|go
zoNl<fmFadiXT59Ep3Yw}Y4nx)29f-}FaZUFBk*E_+l`1ZI2>TfA6&jJMh8u8NYw>H
zQl3FA3b7ygqfq`0K0K)Z8T5aVJQ{ibOS@*CyE;16aN|_g-<mG%`qd&$|0}ht#Sd%Q
zf~m$*nOuQdFeGEW$i(}*qA@7&PM4rox?+*o0YQ=owLz3(5F)J$4xG{KceA6tH?7L|
z@B&wIQeES&7Y0@Qn6rkl#<+mL-1zR$_{jMFOEy4g2mOw@b#3GJiPck~$@)94zy~;`
z>EPr1e0h~Px)=WSq_6<8)FC~O1A?)R6c|#36wzdm9FD=b6&)eop8BaW7eDU$=VE*{
zG!+2poD~i)ToZ0Zwd^Em&Ki|t%0YDQrY+~xc8zii?+g-^e~Xx|%lHHz>VKd_3jUnn
z?!O@dsN;w1`fns=z0E1x{#48U3_@@7ywd{!oW3yY>6~?T&igB`ja(U-S~(q_^|z&5
zZSQ+avBJ03&z5%0db?7#7gD=l$RPA~%{{*BFDrJ>yfj<6enz}g*><~P_t^1yZ|NeN
zy^bz;uKOML1dGoBwXglK_@47AaNUUD)#m^+?edOq|9o=drQ6O`bN=dym#&PG-@4a7
z;hYjDJsEFZ)?1(U)=xWUdQ#r{3_FMYtGgva<sRn1{ge9g{i3Zvd1+9F7clVO1Z80O
z)oS9`B6!@O9HtxFGI-p!3?9#;7pC4K505*TzN8X3o4M{5^XoCO8?Zbne%Yg!FtEIV
z|MeUimUrohqz6=po!cTT@750L_9Q~#a~~DI<E}H>JUIITH(c!$j$xt$?1Pt~YcA*r
z4JlSk@&H;uf(N&eXuOhUl3Qa?3*6}uK4&1I(Eaq{9}cCiVtpw>6n+L6Rem2cuKWQ7
ze~94YLXpZJQH>iZ_yK|<i12~E`Wx!izoU{rLNK~R!*hH>^RW4&V>sn4R21ZBPWds_
z{O>6^Lct#+$hn7O>Py42409c!xtyIfro4^#62$hO@JXTIr-az3gM`>Tbb44vYzI><
z2Q#*VgxEeN%=IKN*FM5rPcDPGvi_#DzX`@Le{0IsT8P9N(%y#Y^)qV9+mP{YNzpMB
zhQtU4|ET=Q^)@gWjWn{o2*UVd579WnXM|4{|0RNaK3B&;TfynTSI%RKDtZc71FD}r
z#m+q^MdC*WTw0dA9|$Q>NJOA_4MSX^e>xVRdm);H&4Mak05<qE+NMhkH6I}B=t0K&
z>F37{Ifju!Lz2PuQ#g(`h_iNThz!Kc%Ykg!n}d88ceA+&+H=lWytiKoNlOmiv)jNV
z$ezZO0bpRkE<AUy{AY}a1%F4NLSiW+fu0qw*L)z@?VdSrZ3<?!wL3Fwca1*-GhEi+
zk@k1Yyqxwwk@X))`wz^Ol*4>k=9#N&0QE2P{KAQ1zo4>rDfp1NwZGo6&uaaN)xOW?
zG*%7`nkzSjmj|vKUA;h(410`~%abRHt{mfximsgaMd0aQW6dn1dzV?W7+s4I#Y*KJ
zf-po<ZLy&3`!n=@=^D{_Jt+pbCXiPC3xWb(^S{zp3Vub4Lzp0Majf=karxCbnD!rh
zdpPBP`WH^h{0khO>lWz<UAL&M%7%S{^(TUTpW9i$9}w3`^Swyj%3l=-@WwhINqh7a
zfwX7rfuwK_JCj{k@q5e6odNGqs(y~3`x5y=!RKWo_(Cm_v}Pb>td{t20-`pMDo%|;
z!M~ZKSDb=96FL)#MiMxZ8^$eG%zI3ufUGL+VwP8tMgkcdtO@*kFdQre+Yz7V@u%>^
z)+T>ha4bYtVsI*pMwGum1}g@tu0{ll<AddY!g1X@>HSj4%*(UhC*E#Jdk?2<hnaW|
z$q1K2_M(5dZ_z5{$!0nhBMxKnPq5mM%S2_&l*vr^FQ#PCS715y${V!b@WB5SIt|<>
zV65b_HM)7J{7`Q#X=j|33#wTmY0a}jJzCA){5pADuNm@X56LlkyqLxGFV^v_Voh3b
z&qLk;2iWb(^jZ^!hi;#7z;LO>?_-z)GW(MccEJp=3u|>ue^`#<z8rRbg57z?u9?Nr
zW$lVsaE9c^CJl$lzi(({BOIzog+=$3F_`Zj-NDPj(+{UFxR+m{j87IY+-?guK7cs)
zJ)$E<IK!)a2J=zWk%%;rdA17TI3ONUB|!%+`DC~AQ6H5QWlU3WjDq77$OxEp0ZkVk
zCQs4*T7z)RiD-w?alt5zE4^pg@Rd6#;iH{Gco2R!P=S@v;oHRZi<1|>gyXlH(l~p&
z^0CZ{EkIH3hVgwxtPSFAfAF2M+NlGnvJKORZkKJChog<=Wun;?;Jx8)fSZZiPoh)#
zMAMhmS!dmxzkFQA!C`OJoXdMv`trf?7a@0Xk?TIj#f7^^ms}A#ZB09y-a&N-Qm&?{
zLm5}of>m%ebEO*w#GZmpd;p*FQKzYJE4JPG;Xm>%@p}$Z8cE^}OH#9N&;@Ft8C1+5
z;aQqcO=u?WAe3OIapKH1izEyve+d8K)HegS{MCR=o#$q%10OCBFsmeaK|`?dKJDT>
zT3wc>wT&+AX%Douao@k7b`Y?@aYRRMU4eapGx2y-hJAzeO1j@a7f{bC=DJ!q+5zx!
zH#0lX!bVF?(*xKBd1YXYO9pV~F`T9egE9|Keho4cfs8RR>YxpT6u||x@kTbmhN`Hz
zNdRMxY5maa#Wy8B+<#WvNZqWRL!qb&w^VAVpt>cE(&ZF+EeApYx;y~;k~Q0|-NJ;M
zBTfVRYuY;+Bi^`GJAaRx8@W{t5|+rX8CMQLvCU}-^P6Qo<fM#hq=&qU+0D)%m8Pka
zCX}=&gex@bC*6|)H4W)qj2;sLLDquNa)82c7<Qp9nM<fqQBtFj$%FQL&UI!u0)!A#
zb9R>TrmYw@(WMuTMwB^}WI+?53zE)2SObDRK-U15UMU5)X?M)ktO2))-_}jH!aTNT
zKRi$Dj(?av`5k>v9*^T*6~?=NOgl1aRQRC%h#dX2o$>pd*p;aEw_s0FFaH0I{0KWz
zU%q1d(TPL?9lD4c;Q9{sR^jG@7B$|l{1o4J+_(As*L+ueeDkfW<6Ew!<JNv2+qExm
z^J$zWYT<GO@q>$}5r7~f<WDgx!*ZtjV!Uk<#?d#l*65nyprspz0VmxQgHghISB19N
z{m!|{{2ML7q3}!3?UYqk{yVbe-NvT;H5H?vn`R+^2wgd>UGm(Vwl!yLEm>Q8+SY#S
zQz={f9owEltb+n@SkQ#1&m!`158Pyw^}Chx#;W`kTFiOa(0ZYG$MI2oU_IoD@Av7I
zf)nWEVjUvIhPOFw+l<RVehWv2^BvLNFm5NhZ)E?2Mn=IWF*4<E=xrT>U>U!Wka*9W
z7X~++cwtJDTp3;LO6n8bzDHjrc3PHI!O#3RQyoDHXjkyN!e6BrBU67(F`7wsB{(i)
z@9xHZKeY7REGC`|?!>J+y)fmI(XO{w$x_<yQ1C7Vrzu#0AXggZcl&p6Z+h-pUzz_=
z|GzA9KJ&6^Tn0okV}5D&-wb&5g7hB+c=Q(>4Jgs$#5E3bBZ_uJ7=HXzmLD2^nmR^`
zHLke$TZ;Xhf=^Lk&PqGIlF-Gj=w{bj^9zfgpl|yqI6?trPJXoyKXZJZUcXKOxg9V+
z2j<PhOy$fd!xWfY8fSVC615pu!DpVWhB^JT<~e6?FE~X^av{8b=-Lg}8k~pNtNcB(
z5x!6_A;euiqPS2d_^ZdfKNI}#3f^~x(su>-yMq5`Le)=&rgw#^cZKqIg%$4#mG26^
zzjp{?<xho`KNT7wVBpqU&+4>i^_X+6bXB&rIbGU3=AElpldb4TS9GL=GUO@o&-qH{
z5SEsG;I@}q#ypE<P2wlSyT?U~Sbo=I6>IMLM6uznOB6Toz*8b_x*M>Gd+wH6#K-P>
z++w%5uu53J;hs<;J}pwx`n#oD#mDasiEZNEyQf6I_`JB#A~?NsrR8&_6?0{kb1wHB
zE{Ld|tX(WQDT>t#F^f=J|Bc$O)-DQFqJLqN(9n3x{sYhVJ&QuE*s#zg)Hi=);Hv|R
zLYcVcZi`#ozPQRSKDO9gB0jzl5Ng)UNcRM{=s`c4*54DH=+a`PL&Tj$<-(pP#kXI&
uCsc~f3mrmTVEVaxLb>QzXcKDIPH$%M#dZ<>#0VeffoFx+a@ooD<^KjfqyRzy

diff --git a/crypten/__pycache__/cryptensor.cpython-312.pyc b/crypten/__pycache__/cryptensor.cpython-312.pyc
deleted file mode 100644
index 75b374f80ec063f4f9fcc225a2ca872db41e1ea0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 31552
zcmdsg3vgT4dFI8FAOSu>5q#^4Z|DKNsE27uHpPcbS*8_{@`H&BLb#VCB$8k*KuLtb
zRLOYPl;f?ajUCaAGf^DRMq0bIvfY_zcRO2qn|9jiOa~C8kVdszckA70X1X&J>C~~e
z-R}3F`veF|w(Cx2dL^EF@44rF{`0@j!Jict7I3)o-2d<Nu?dd*YkE;H_60AihfN%J
zg%dczG|mmt-8^oZFb|nca-3zzB3K0LxOKudWJ8=qu#MX%@`myz97B$Y{Goir*@e7O
z^H70U(9K=qg60tZo^x^BENA9Kr)Y_DZ<*z4<J@=5FBe(yeU=+?362-Ip+X@aVUd|T
z!U+X0aDr1Te#;`K9x7q6F2oj!rDDn3MQ>S^FJ)*)@wj`Ue5l;SiRGs^%kjprn|p2>
z#|>4mHk6AMY8!?;qGz4-Zlte7`YN$Zq`On}h?QzSwN)nW<qcNu<?U8(#uUUTQD4q+
z-jZKX<^5h$x+oZ)jEd)@6M@OVs3`pc<I5r1Es3L{NK};kX9MFQArK9PC%u+*ap!b2
zJSqi*E;(1)eK-&ivm>3OV$@Hm{3DZTOE3^k+al3G@Jx^jSFb!g(9o?OWm7uJ&6?sI
zhT(gd3UgFT88=6j>EN`9k;>wx(>Apr{T?^JrQ}1mn={I=tEr+6?MVeHZp5Mvn^c36
z3)K|*JzA_j>vb6F`f5g9C2Cr=)QIWj@woXkCM^4UONl_g>(Fn@18cX8n$&vLJNmj2
zQ~Z4^7dH)H?qXjl;BlQ0gVRzZbXFXn;YUJ~0v{M3=ewktsX=iv5|$!-Xp#?1BAl9z
z^5dB6t$cKPYFymPM?^e_C0+;xqdr!aw;){*ii9RHi<3byU7#0}wg;xB#7QA-r6STc
zRz%u@BGPt16@A&@r|SKv-XBEuh@<M$Rw_Pi2Y5}35wA6EXDx}OoyJ5q7MZrmsc1b>
z*FNR9M<=GXpWiO+Y~QXVSMMm>H#H;CShJu450UR8xWFwtIQNDNk1v&aR=7M{mub#+
z*STR{e0}J)vu(-cS#;GWUG)pocU;YP3q1?AH?41qZx19k?z~;NOZ$9#WBZMhsf`cc
zaUEcZUXR`>Y+9<S|3U3*wco2>;Y@{Hrg_^^NzGzOL$ajdcH{n=%{M)%#?Ct>hwoYF
z>vAF0y<Eb%JPB*XDq4m`NuhFS>!O9N3mvke3Zmh-(+Xlyv(P=xoz`Gnk5^&jv<CHS
zzs;KCW}re#&^$`0FrUF8An_~*xOK!Wm(4Fbt=y~?&}lWKLpupx<CZEEi8T2PQ4$0@
z^*Yoi9nLRVF4=+>Ruho!*U<A>%d9Pqvd@}OpEGVlS%h>EJ8OxdfC03MAuh|g>?f86
z=*$%RkplD4X=yUTN5@3|j5u>HECKAL(dh|sG8*B-BYc1l(lP+(Qxbd@C3-nG77C8B
zsFARAE+7eQUREA*P&yUA^-fO)2@$g8!fKh|+vL0<xl*}AWDB7_!hj*F*{iG~yF_Rt
zori@qB?9>KBcajB0GceO^OTCy1ycbjFd+i-M$)!WRGf%-?dd!fncB~wb))z)i8NS4
zbW7XLOoq=*N;D4<f&p40JTFyKU2cD9(yvwHXYG?(@uh`QUqo<$`>22`EPchZSlW;*
zZMeGc$B+E*kyPpK#nMB`(nBfNBNuv>>KlLV+B+{?jb1zZ#y4IXOt|)5=s~d5y!q$O
zEenHlz4PtgK6cBwWoc9Ek86Ke`=k1gE#~d^_si<$n-*+0+HX$Z+THz<ZIvSLab}l&
znKRq$pR8E8!hN5lom)Ox<?tl}49NX7|FFgSp2<p~({<QkeQ&GlaG~S9hpY&LNT6LR
zg;=E(euWdcA(OxjnFSMA05gcRb;bg$;?_~s6C!BPcpwsq{T7>C?VZQi8!#iLJP_r9
zr7$lMKA;dh9y1)8JR3eE3M@Ur5#~J1iUMAYhJrk%Z7eKA_{cP%DG=d@72M<l2^<Ep
z74#TJ4~J#A$XNcgv>92vz`7MTMRAv}vz)ZajD<eRy`^-17Tt}T{pwH<639sw<0h39
z4RBEnP2@}qBBH0gZtfq%AeIaab`JJ+`Fl_HcMbME**}nW`TczZ{_c}cJn^jGpDywH
zLGc68s1!Oi9TgE{jm}Jo;1?{x@rcxn=BI7K^u)wWgu12zr{u#+tSQF~`LYY#kCc(a
z2rh6-&f?qd#-y|H{c_KO`8!AEdX_dd&-L7P)i1d#7Tv8$ck4CVwP?!So^Z9_Ep{&!
zHzkXkt`1ylN)>NUIJQeQD5l?QOFR62T0UrPf!{w77N*DP89n>@bYNWhlIQme;h^8o
zntGjMdD+5}yeNeQyQpbEW!wwgJ+sB;SS_&GcE|}SO$N-WT*T@i@Lnd&h5)gGdB`T(
z1<MPZiZ6%qMmfRyhH1!wyAAhzq$?m6R&WUU_*Wn}1sDDm;$M+ajDIDs7Y#Xu(jk{<
z7Yl_ly)3QFBKF0d<4ZAWFW2LTN`zy=h8Ijjr9uT(RGHvG=oTswmJ3w~HwaG%HTYg3
z)Z)z})FG@C`h|MLRS6sMRxR)dYs6Y%lcC%?v0i8}yl)g5k%||Z5N;AT4K)bOcxn_{
z5H<;|2%CjAge`&>VXLqiVVl@C<Q2ByX|u2u;TB;V!mWZ2;WlAALZ7e$;dWss!X3gc
zggb@Z2zQCQg?2;j?Rei~c;AEfy@vO_;@;Dfn98h6*k?>5>_^G_g@+J6By=F`5FSSO
zuy6q30pTFRgTf(%hlEEEJ|aAd@KK=?VW)5y;bEZ*VVBU2uv_Rs*dz2J>=lk6JR&?P
zJcdzyOz6W~ALglAIQqItc>D#kHm^r#s=dc0;$8!LfD#yH>O2*RN`YXM4^4o#BRa@f
zd7_2lq>P>fUS`R7TC+aB=d38r0EL}mxRMeM>nn7a6*@5;F%-y1q>B0k5zHP?<d`U-
ztU(Y@RF3te)&WT(z(>Zy)8hiD=vfgsl@-Z2QJKBuHAKRQH3}Q{%Pk!C@lTJ5;91qa
zhys{a)Ul?8Q&RYBNFemhk4%H$>sVaPDi1?6%<@l1L`lZQY0Jb^Fhfou-i#sSGCaJ9
zRXfLxm;}=c4#+FSZ<_-@!(g9K#3iaRh~WuO@EvRbJB)49hSgWVdQEhCa14}15QAYU
z5Ct6qSqYz$nF(qYC=7;(1|}K`L@}CL5jkgu3LKG8`SBT$qDekDC4iw9&(fgDyo@}n
zU{Azxa48XfG92Z3@ElPpPnl>;T$o4gS{p+U2*Bq<l89!u7Oe|pjK0>qt(e|3B1_+)
zch=|QgJD73c4|BvJk!y^PqAj|->LnN>fq+nq)-`DNpfgwotQBQ60I_)Mj7dnyZ6M5
zUPhb#=<U#YB&X(ipHH55mRF;rm}#PtBt)z(BY4$xg}Z2=#HR@;vMx~P>ZnG21=DF_
z<g>1eYlOFNnWA90<txtVv|gpbk!C}g=G<k1>T9B`T9z&>zoqo*TM)1H@^kgzqUiv#
z$H8!WE&Z|Qx&o5~9O@MC0;IzbI2lm|6HErf86E0iX50-(g@1k)a4m@eVTKpaLr#qN
zVm<1L!TMH`wmm=FfuvrZ;TKtY%qUWQG0do);k$IX-`{oO+2eyf{R2;)@DDzFyk~&u
z`coua_DE7#O54HYO+XU?IabAO5|M7NS=xacV^ShCt^5U<bM~kmHvpR->`d$tz4~16
z={o?}4va?*<@!hk455<9*Ae^*%uKQSmDr+ZZxa8D_uj4Gm(8XP?SI+c@sr-0?Z0<y
z)n@UOEpwLAvX2~GdHq80&5qk{pOTFKOTOiYcJSl_?|kk0*HV0ko*I(wp8YQ$U36_p
zy0%>FPP%r2H<~*tb0vFGHF`~4ne+&?g?c@#$_qJq9jm{8j~}N(Na=wNeN^wt_bk_P
zC9MfZ3#-ptNSqc4`<Rh@KSls7I35cn@$1teu-Hsfl(v$HBQ>CubRm;=#PcL0iGuPf
zi9r$cLP$G;W1(?D5=pZZJ)d@*f?|n8wzOR!27fG_C*O%JMd^wrN|wW%X{&!c8cSOO
zf{-o<oE`N~g~Q`J4bQuTv@JLuo)pt|D8|m>6T7qM@YD=ATOoATpSA;(CZ@;JmPv6G
zrJagMPgBb+Q{i(`KYId@QNJbJ(OC;ijI6|8N>OQAq+<NiQ%LJAN`uWr8Ayi*lqf%-
zEcpSA#RC;4KOqq-Rr)H`gf|qfB#@sF#fncm{eHc!-=NgQ>awOI1HOjTm%$*uY8Rog
zM*OY*R|Jo9CQ!ZmqmEhQcMS<@<w0Gmq9GHP52fvQ%~wpO2jqbwRzY1RZpPgBIZ~hF
z&Rd@4&Y6D4a?a$n#JV)BuV^iKMcE1J1W8W_MFOYB!7C7y0~NLELZ40>di$?iWK>hq
zd2;Z{BPTk${XPAihmZAir%O~I^NW*Il5pLWc1}s5FjJmFyG7kl)>qzSn8ACj%&?}E
zxHph2(u3e{*h+G7o=uAtJChYV=bU#PWs8o+q@(d_&uz!%WwRxJ&tJGoKXg?rx>}R2
z)@#l?uJ&Kig4f>uewE~$Z?$yRnXX$qE!^)^;ORY!r?cAfUbO|!|AHs{@ck!To~8TG
z_h7#?j`5SiG$)4nbIO_JIjk_up&|Yq%JZOk?7r>rex`YpBovpMBP9*b6%cHFZR)Ck
z8I#u>8`1`%he2k9ZyScBEAj{VLExZaudL=(;9vXJ3-U!D@3$cOK|)B>kR}koU|^+k
z4I?Fy#1yMBj8OI}`F$i{f-^L;1zhWvmkaJV8X3vRP>2w9vfyu(s5N>EHpY)9`2y=h
z-?A=MA_CsPC<KmR{<MMU0vi%#g2AMCE|YZ)pE?bSBTFsA8PsW*9~lpff=h>5ZUXX6
zL@N$lbuc^u6*`kApktIZi$PY4#@PfUksl9_j)K=w5@-TRGytJXXMp>k9PH_kWdhJ2
z$Zpd?k_v({FLp{)MIr%|GZ-D8@$r2S#i(8|=h|njd1pgl&m+@QqSWR^CrC12^cMrb
zaGxeg;Wbl?;z5v@<OqGIjs|JgyD-|)F$7+7+Dc*si;;OJ1<Qd}g(gEF_%Vb24N4t3
z@(+<WQi%W)U&7UInX}$@R4+MPi;lXaqwbDlqYMNJ@<%!u07!YVdICWv$WL>UQ&)}a
zga({7>C)Jhi*MG+3kh-kv7I`oDpG_#=mrT)0KHI#-fNX9LjE8GXNAj@VMwOqAm1Pw
z#9gMXq_veA@tCOrn?+0pDIoffe1A?Un-P${tLT-@NoVcdvYJHglc}=f3D@zv#Tzbt
z<Kj0Kf~n$$gri~Ycxj7f3}wJxnz3lun>M<F84HTivx~iHOKKFz#jlNG)TyRY7Z|>3
z+C(fhORVJtaa_9U8?vj+cazqfwC>FK<Lj5GLT{ebjT>Y7B*K?cF9k;^pkk%R5L`D&
z=W#P)7J|JD%#zLLr6|Kr1Q)mu$}8urFXu0LYH)Kc)z!<urrs;75nXuK-H>uO%~}7A
zW9>+i6i4H+`UXafAaB&9n`Cqt8Z*tBNg)73-n48$$t7XotAMZ8xHXpv2j-8GxFwev
z=d>mxq9w`|x4xy!A@XfCv`LGPo0&<a1Exo9=G5FAmn(-_q6ug=ml;&A6Gq1o7#+`9
zIo&i0r3mtMYsyQtG_223wO&Cp(Lx@j(Q2a65-f3xU+W`#(<EAqhz6Z%DFhEM*9%tU
z(t7rC3vAq0uPt_6!+u?3V(^TD=?K3;u9zAFmV}0dDJG!&04>BaC(KE51k^@Tfl<&0
zVD2#~JUu!Fy~m`W6$n^{qB{b65%|Uc%R-_D^d}Le8YvKpAUBE>N$dotIm3?ypywJF
zM}VlY2o#el$+8(#oq%jN{#HpQka_Mn_uM874+iSA-gE6q;HFLIO;RD7tQ<q+;=XGl
zF8k$13=BuS@O2a6?*^2>78&rj*|!5mB%<6@fMPWIH2=V;I0^YnIuzTgV@02TN)n+d
z5{dbl8q?)mE%o1^j7S>-#=zbxI{t3cT=Y`>V*F}*qPX=|@xdF`pBDb4FtPPus`y~C
z==diQD-wUJ)oY4LgVIcBa+K6v854m~jzBjC(@8WmLFyznD}0-xvGU@(+#3D}H43ad
zNbQIuVh&D`whAvH3EE0#_Jf8?l@{B)K8Az(y{@!5B*;jo3$0;DCtVtfK!h3@ffkb#
zZ(!<~SSJ-B1?0WSnY8P~G`>v8c;A4%x{<<bV>k;|IvQCblH#QFuPLjI39k_wo-zNb
zk*+9nWMft94*FeWjQkk_#xqsc&X2q<U2Xc_`GwPS(K*{vdDRMM%ilWJy;N2AgSyx1
zRyb?nR+yvRm5c6{l)L3x`#bxu?_b=~libqtu6Sq5vAdqCh34<fT(jQtY+b6X{ej~(
z$D3tWdwx`PyK>7?W!(>4ueq+Cyi>X5UOoz1wxH~fT%4;IbN46Bw~LP7b{@Z5Ru7#;
zX}4+BVsRHiS5a65?Zbv@RGq&G4cXK%*G;w=^<M10H2dw@rCNU8`f5Ik&EK>Z=Mq%V
za#;PJ2ngrq0{@6<22}05DHnDS%rWq$!A#3ojwK?P&j4JdL#To3%({S`d~EsUG_B{v
z$(oo8{Iv1@rf@9G9psh6=;r=j;xEZG%|M1(7-hpUpqm+y`ANVukPOy`2!$>bTZE=S
zNvYvpyUdj_BFg9|kxuC%f^?-Hig1AH$PCCN)3^vsdWirP5M`Bq3xRR@OP3K5Yc#^(
zIwg?vLL`U)be0Tln{E|vT5^>!R<8P%qk18bbZoo>-p*OP=&VaR>#mmGayDqNX)fGD
zu<5z7|MLDt_qL>a+coiyyB$!xSiUP+zUxkT`#l>HEn7I3EEx0$2`to0Bh5E42J3;z
zyjeP+dl2O^d8*9J9_TsZrVCF17^vi|OHHMK%yy*G2$r5yXOT{mNigd|9zq~lmr5qp
z`>biwNH8sGJP4*);!y^vrL!)zb?5<idPCMnyc)k_$&krB>(Z8tQ~iLFh)K`7E>r-l
zNwtu5sWpHl)OtQyle>)5Wa-bkV0Kp68R&&JsvnV`SD*E}no_XR@{Lp>RgNAZmPlRJ
zbp~iaDu50OHXH~G3Q{0R5$T(<665uPGuo=g3O2Q7Ql{rhecG$0)$d5TS$|WX5SwFk
z)%L)%CTGv#e`8hrba=){<}Ca4HnkT0uCs0oHCf?h(*Um?8<^4DWo*~;s!!@1V}^*k
zW>?%2CBd9s(RTG|#H{ut0@iNCG;1-;sWys+I1S3rK&cVQI|?^VwKfQH`_yvdT3#S$
zKq2!Vvd`wl^Ky>7C2l9L7$NU%huR*X-8wL>I)rH@0-Cx38+lAT(qNd0K&0Ge7g$ct
zuQRjs=G4Befhf)8(s~Z+)SX~j&%u-FS>PFhH(5vN&5wPzfbjwd4jXw;gA}E*J;cu#
z)D0@@Ge~TX;+v$E#WVsFfe<Xd5MLQ9q|y@R`!_BIMigoTzDQ$_4YEEXEwR0nOJ$Nt
zUl0n0pm^X_6$h(_JZK`|u>ukwo{mBt5@Fm`tgTB{Trl=a=e<C~kOPfYy{&w)J(JTD
zr(o|yTl8iMVJIrd2n97YTx#?rstuqQJZu4_hiU<}rXA7nl%Ghbw^pWzOhxr|Oi|h~
zDar<LQre$`r(#%wu^=C+{)nGUmC)?NHZ6S{X{AdP5E+yuQh)^~eFXvJc<AEOmT~ZN
zjLb5EOISuaKtUe`I_b4B`-4QV#5}(wf}?c4h<=E$_KIGIOo6{c30|RqYD$~Vr#+d>
zr(f-F+7c4Z%M{yzq$=FVE-6%dhQdW1@PELENE=Wc;~HHhAjT<Y-QCif#nQ%PX=AFi
z`5w2ou=N9XUBcZAQTfX3<=OB2=Cw_?JX@BUy+3~DhtIq%z7xJ4zA5}c=s$&0zQ<C{
zeXkXKSigCxb`VZo8>`{ZRaJejfGe+EDz98DZ%vlB-Y)mD=bg#&owv((FWb4&4e*J)
zRnl-ZkSuAvQ_?_`|DnqdCEQIP@S7L;9Z7yiir+Qg{c0bC_A7mt`>ym~?!Ve`yWIDY
zoh$duN2ysUck{K<Tkg%*ghk(@N#CRIwl8*_Om>~T<vY1lUj6ZIbYq$Nvb>)|AqOrW
zNVr??RyQS@pG;LBPm~`=J1T3h#4pDeJzJBWt=9(MdFJ{vH=;kC`N>Sm(>ZVbU}NJC
zW?!5AJBxWs*-~{41Qy3n9E&@SCU+eDlbv^VJn?Tkm+4cY1l8cqx^=~I*>R=la?$M)
z9xbhGxZ3n~`P<Xi3U7P%g3n#pH{X5NQ=O>UmGbQVj}Z(ChHQV?3TLi_Y0q5xxakA;
z(N!Bg;I*<0MKo?rZ0$-lbi<vrw9j<;=zQ1025?0*9@m5$yRV1dZJzJHQ~ubpg}#$%
z(39}^Qts_HHr;aXUgDePyI<);(>68ETVE+$YHpdg-o|(<_m3w`+9-jus{drA+k~!s
z+@(c-8rcend82D@Uy0>sn>sh(_D6g9KBxVUJyr^94!0ocPn|XjOKg2rc^Q%{(NxC1
zm*XK@`NYi2=2%ZRGuDwFlBtAb-6UZlO*4vR4QahCG`VeRJP;JUTY&}6kc=22*_+Up
zuNT^(E>t3Y6M<1h^f=x#^lFMt@L}*65mF?AW36kDbwS1MIp<m#MC%06G{#&i><M1A
zOC?dWK>cx(u6&mrLt-7Dv6H!a2JW0N4(p!EsZ&G-r+yR>u~Gx4E_d@$>LnQm(94qY
zD+QMezT<*)Sl>8jyX~l1DlVUM$sHy+RJ};!#%7J|4d}4-0=7ngJ21FCz{R0XfXm^y
zY1U@ubjO6aEvl9R4w@*gN^Rqo5K4N}^jq+hiE3Om6g;Ny!LRN68rA=n35uINor>=Z
zVP;<OsZ{A26Mf*&dxkXVdXFQDE)kSQc5UZ1ngO-<R2Y6O4AE=!k^j`>gG-|)%car(
zMCbA2ef>w$c|q9<2%lTor7`X94@dh{w;@qrie3m@Bs-<8)I87<D1al<Zz6{2c%>iX
zX^ksx8H};iGr!s;sK@K{o<KdG{kfOsaR6mu9-XCghn6;Y=6ad`BNW1$|H4&`HD2Cj
zdS&0jzS~U?-|S8{b*9{h-|bGg2mYit=^jY920konUMlOj*?zO-T~nguFi;N(>E^;B
z82|{%)r)|E0RTb#i`<K*7cDURYEXZXSZ1@jujD1moN3MiS19Q2;0gs7a%j=5{StAW
zy+O4|x)WRxx5aG9ucF9{wn*_sdu}yq3<+UNre?59TVUq<EA!QKB*U4xi`HEJ?s4-d
zxb`<pzhehXng}MLc;x7x3ayZyECXvewckXX%&SQ+pixln5CV}1nq>>v*XfD62!*x|
z1H=ZT?ce~W$D>T=mUfU*iM(JL>_n&lBH$M;s2(RO>hmjn5jYt?d>mqr8KH#s)~Me#
zNRkukD!Fw^dWHaM81??@0{6bV1{$CFvu|3j4*sYh>DfGQ1?hpBsH}Ca>%$D*z*P9i
zQdQf6=LZ{K+jz~Ls5*2ldaLTtjkC$BL-Y2Jv8&;c58PFAPkd}spFWK^QOQp{on@By
z%50srdBD@x5Ce+|Q#mx?S^5bDHxMu_;P5d2sO)%COU}gWburfZ8OLIfx>}FYKfS<x
z=&oL9zgmA|L(08x&hdBF{QT<W3WJME(28{Gr7Z*E=-4tazi4^UcAuqSn=@l6*svhD
z5gS_$Q1Gv}9EfdW%i#dl-m6rsTJe2NnFQDdglj;i7xQ(G?NLp;K5M?{l&~r%trrUc
z_U1Q81k)52OjB=JtEnf;M1;ozD$Hduxad;F-#Di(p`aNA0sr(RG{9XffX1H~Z*~a=
zB(K{F)CD_hyXXWuKpS-%fo@fi(E-|%f4WR9Prt`)YZkOUswqF>_Nb;5P+J$V$L$bC
z?SgeSZ_+H-AUN6~NOl0}IO4X`M7grAxI^o+!>{!z?l?{4HS2<4-GYrQ4!@@4!Q43f
zge}+=x8Y3_C0{;(4O@AVEp8W>kcw7ijbz-O0~sMs5ghYk5B19OlTO^2Q5W8)Ks!8%
zGfa`FA_Fo%$oR;&hF{x_7OoQF*DMcc=z5k1#ja4M+7%dHl-@vYa4P=_x3xOO7ZDqK
zDtqm!EnBnN*T-b~7tQQIj9-N2S~fd0_TTKe+OycS?@rUcWMjW#WT>b#^~0JWi=*&u
z#bC&Mr8aml>x81%x1ntK@D29LR?1QXmM7I4+dd<`L{Cr;bF#$9?3Iiz(BhUwKALK#
zgOz#IBlOBJACU%ckxnbpPMHbzGb=Gm*F}jbo%9ZZv`Z2v!e>Rlvb_$osFIXPKjV%W
zB9(pm2*XAQ1c|t?3lv7BF(qpE)FF>`eF>8iq8aE%0J@S%IyM)!eptVIX+zcR8sD{Z
zH|?pKM-t_alF(Q-@4RQ{w(NfG;hW`&{m0&QBA9o81Z`@<tiAip?Z*BT-#=gYSDvP&
zn!O9{i#0ovH9KyUr)u`zv?gkfylYR^9QoLT3hr?f)I$2aTiudqJ(;S0DpCFvO7gU%
zDq80)?|U|q9Jcq(?rY^gI-0EU&3A)ws`jo!(2x-_T+7?dw>>+S>YEmxo$p<0Y`uK!
zgT}V`W5`(B03%Cj%Y4^T+m^+)gUPmoH-o9R!}DFY%ON~hFM8Tip0=gd?F*LIT}v(7
zaC0s-G%r}bpSSEpzI!EHIlolbc(wC2l>G5Y6B@t#l!+^^1_gcE`1Wap5Yl%$o!zCD
z_qKE%#O)8g^$34fYU{4all}v~DvYQ+^9;EDGh(IxLII<#1en9PRO(vKsB1P9Xgq1m
z`<cN(q)Bf=@qeF9VL!HR1BK-%_ze?R!Y5Rh4v;+U(&%gpxINHWJ7f-ntdYyC1No!k
z{(Rs?l%XQ~0Xz#PX5e{XE?pB0IYnz?E-o?`VT4bTRx87q8lljNg3qH$NMN%qV>a7d
zsWf8g!Y*j&`+E$n(a4Hks^q!Ioz_T-A>J7!RK+eqa|j@lyI>RS)xhk?M+|7zrEB3|
zvd`JU&zOZgu=mj6VqA36s_E*9VYu+X(bY#MV{~)%#~1aeO^RCuO=}w|j%vhN0K)_6
zvA`%jqBl8g5||e&_G>HB!~i@`KM(Z4<Fr<7OA{v@#4c4Md=hV&bpbxjaU1m2x%*%~
z%6*H*eN$F8yz1Kdp!r$s^qRGO!#1GY&zV$zR<AQ~2TQ0x#p_Q5&VbI-K1Jwn$s=JB
zTfNmis<Opfc1KfmEX;QS&P%ilR3L7EZ3oqggKcpn5Dbln;LOIHC1k^+QQ<s|P2jLo
zsw7hPTLULTUQ<#iIzwA>;E|>^1lxJUi79wZQ28S1an(->#U-uJNSI`QDx5jaq8P)j
zk)7~zgRUBz_2gZc{P7cTlj|Dn>GpRH4xZ>cd~&d7V5?d<Ik{1hIwIp0&py4myI6@C
zK7N^dLjpd&S8gj6$280%lRic6dYCrTOhR+4>}JqLkS6Aok7rIGd=9k%lwITF)Jb(~
z4>2OcveE_)dV2eI%RQETg~>@%-icvwm|xReI8dw|VOg!VW+XBiOpV?~11wKlAcTFb
zv{zM~B^vV+JzqK5ccQ0ztI{{-+>%iWy1o8@ZRN4iIV@4nJ2MZE(8`bou?*5Cf7%SS
z$WApC)lFSjbUA=pOhFFT&DZ~nf5a6ut}G%jOws~-&%J8CLW%*H)l|s^5|Z^aNLcoz
zAMjv;B4L1&g?<xjA7p=Bz$eB``u7wtj*F_pNUDsMD-25nhS49ywgIDa;hMdzI!9~F
zLYvAWjVKc=)%#U-3(-WC?<yp2-@JWE*6A(mC8e&XW?t4_G7UtmSsOV8R@v}rZl1~j
z#wvXLacEEheFT9j0Q$T#ubVE<wZNn}^_5uObkXr=2OoQ~-+%aI-?72I{<H;{CGEgr
z4-sOanM<(D^M0GMkjR_P8w*5eW1n=LqJE#1(y8tkmYpZdR4CIo8cV;2gixz6twA#@
z2ZkO}2TT8r${~&?Z4%iuFonu6rT|;WWP=E`HPcZrYoGFO(;#0$@Chs<ZJev*m5xRC
zt|b0DcinYYExI=+VQOdx)9K!e{qA7?TqX1SUV6m%&69FJlyE%+uCb(gvA8W++_qS}
zHCYVP!j1M+@%}k0a>3HE?eey(mQ-2Ot+Gd9ba?Lib2r;l+a67LADzp4-&uCIxN5O@
z^R42|*P@HtJ8y08yj#(bXnZPF@pPi(X?RDMS1wo<%H|(}Lyg<B=x$58+peKezPavS
zS}ldOl!8yVHlh*k`UN3X);O0(jdjmuG*#&a_WNVwfV1V6v*j){Bm1uQu}wwZr3&Z}
zZ|+TWKAk9k1}r*lJu;V)jRQs<_uiy??~Ulqr{5h-x%(5Y{^c@z{vqQ)D5d}EZZY{C
z<sVY^Hnk@`?aAWyr3%k{o?czT<x9AItTXLNcl(W}Q|^OzTnGQ}GCYC~eaaL!KWpF6
zQ^5UEL4GgH5AI#PPRk$LOnCldrww6-1WRj=gs)Z763{}AgZINiH_Mu5Sw7v1Z_+mq
zWV+yf7csFS9Yy+J9sFB@3o7dZ_gBSb^WBN!#)aNwabrStP{()eBBqvDj8y{02U!Yq
zeDVxZud!SB5t(7PP&NiFqrz3<m)MrEOXn}1|8^|ls9LMUrG~J^5M#bxV{|SLS}Iel
zrc)r#BH0cDBF*T4{OW_^t{){`mwkoOb~!pieOA2Jq*Hj#ZZqvzTBSCZ;v@48qBbws
zQ^gx|3IkuH*)8ig+h8^Fc}>!9qY+XPfwA4Rp(?~SRAtyq)yPjWTR(GgW}zZg3{i%^
z&!D%Uj`auKscmSYVGmTHhJoo*%*md%4R;WF>=>3uSaH@@;>gQ>SeYT+KtBj3Co+cp
z17tMM%FVV=p3-;l4xf_30U;QGRRzwB!+u%UL2OcX39K%|js$Gk^=D+x<UGcr(Wyws
z_U+ioOU4Z!JY=`y$b`stxu)%)-eP3CRsdK4-&k~FywMo5Eh1t^7EaL6_f<%VTyrK3
zAvR;NVk6u?U>qYPn*fKGa3$po(kd469ynW{V~I5A6Q!&ZwwJ=VQUGVvx;1bn3Djoe
zb}wc7ULF>al%gyoy5!#TLQ9?i$_acH!?V0z^~SJW+;UT7&w7brxolWxI|Z}AT;7@J
zL?a?HVu7h}ZhHRg#cw1Wb!(gSMONrGy`k%jTINE9r!00$t{FkLQt8W@?IbL+n8xwv
zImhvHH~P9M*3=`riEKLuPi|~Q9*>4-<GZXIRM#LT`)gF=nt>J(n>E>NPo{hQ$^P7p
zl>P@QVOy@S?{iHP*l4jjvnD*mBCEdK(c&{k3%gF?DoUQ$0d=H6K%UDvQlo1}ifvl0
z`!YxBuc_(}5oiQV_EItu0%?p|V%*DT*fqQ9%We%I=Oi`ie<Luqf;I++w9UFPkAWdE
zerV2|KA=AB!j~_?hdhmJYxt01L}r08+n4O6>i?W_tif5I8;r5mwjUQI$SD)#-zA04
ztE-Jp8K4bAvbG@-CdYq<-T+KbQRQovU5MJdA!E$coy}X(<VY#L%WTN=7oT6)Yuq+P
z!=_%JyARUeBCGU&C|J{`(}>LiD{Z^=4r&x>=s>d|IFw&n)2y5`OP*vz4&q!4EH5Jl
zdo&5Ui|s=sj~b%tIK&8QA)PT`WL--ulZkJlID^+r+AinH@F<a^_E39eG6C=YlJa@s
z;`0ed^;#&fqDUIW)e+WI-F*PMGi{_*4Q-?pzNf^yXI(mf3T^5G^ptE6HV@FQ97YTc
zr`m++h#TeT7}9phZbVkuI77-;iFkimuvhro0zHRuaY_U~nS6&BeVE3?iw{tL7gsH8
ze)IJ0;+^E&Uin(()y=7@ZF5H<0$qw-j4f<V6*ngw&GK;NoY@AHvmWQD+DbLq0dz7H
z6SEgB4%sATFjit%1}vsipFFtfUji%pZGG~Lt)XW&c|Nr@xMyFv6!U7!%-HxSuT(mX
z;cN(EdKQdHze0H#04AsFp*G4A7qt<4h8Bw(lI!el{HL}P#NcBzLwb#Z>;_U~tk^Jy
zWJm4G(L6r6jyQm{@-Qmm0KqV#vM=3TY(`cxNuMGKET~M`LF(=d5X{-GCk#_tyJ^mP
z$#v0nN0kd{nAA&Km;H!gfTn&i+;dGWH0{)W%Aa-Ni~0NH=V0mo)YSH=$?LU9hmnRI
zt0E6@*4VN$EW{~k4I_trWr+L=b*2d=K*%ktxZ=C)TP*V?%e;xw&DS<v>wf3h^<&o#
z-7HNMKb&wpyml>V$h#6n7~M6DdxEhk{?L;+;YwnB3J(9^!`K|nPF{j)I|z+#)~Q$#
za(yNhq`K$k(`||oS&c9#nwgIK6iOAb0Z=}(6eNo&!Ey`*C0sKUa^xU}VpYbs9~QxP
z^k}N+@r2{?FW%{0e!pBYQ=qDj!RQ=_28it`()ue*u5xtLF3AJ{lHjnuW{uFvAy9t<
z1%=W6OwLJ*e+FHUtdyIv3V6`2&pK1}-C~fu@nn*gJu|-8CUO)4R>u*SbcC_0EH-F6
zG5Sp3_)XMpq;y4@IWu<LWqzWq(F*1JuxL}Fp(j<;n{f1g@lL_Os-8dq>`Yb<Ov2O*
zk?KsVg)g>INx*c-IeI5Ka!roQm@9*kG=3m?lO5WFGkfeD5N$(Os;E2R=$3niuiEul
zr)zIlcq#<`g8@GECyWkdoUDn>2#R{ifL~*k)PMha{ZkNP+Qv%DK#62B$RKyDps}nO
zJCG_mm~b5Y!ZQ}wj#1V)rxT)l#4L_^GtAlp^)xIoRNyjmMwToh;mpp${B+2Jl#UEF
z7L=)kAw^0@rtW1h!_Ed%iP5%4z+^PtF?VVoZIhJ`rPX>w3UhViGg)ZZ6d^C2f~1{b
zaV~_tiE1ja<MO$AFzJkjCbiT3bk!8*l(Mfkr)!ArSJuoVWgj=dXc>dijJf;*FdFy+
z%q7zsX6egRxLjxaJ8^tN=Ge<@PKUZN2J$ZRT2}NNFj55!bipu_gR07nokwh}jsZhf
zvmT_zGZfs*>Qpx249o2p-m04vp~r(rG?oQIUn9i%{PWnf;}6Zw;#?Rdf^DZ^QCrj~
zxyaesj3R#xs=-(Vw6^O))*3O47@iE)9l6f|bXLi20?4m{0aiz<NarfP2w?p#04qZm
zlC3$)oLR%f-EU$rFSGuTHZ95&Am(ed_dKFZ4GBI-rccaz;L5iR%36NF%E)*)5cPI2
zgd~?sc4irOV>PJFH#GF04Rn7!D&|-P`uN%5i1d9KaD?1184y(cmjg$CZzML|OrI9v
zMVxELE8EwyWqMtcp9x_aekWVLq){z8^+<LCWw>6}8tahr*?@5bN6J1gV+w{S0DQB`
zy9S~LJn_#4IR8{Qhf;vZB=*OLajX+b0S0jYbwMSxpr0KoNw=B-mB{@)K&4ayIQqgY
zPwaIKdUSq=AV)zIOc_oi2c;mS2OMvraIXrCuAyz2!@4dVB6J62w{2%8ev@HLYf`KN
z)vh~4-^7R*SbcUdW5x&}^Y0qgZPAyrZa=VdoTAN)tfS7%QpU*(H*3*qouoB$O2pAI
zI7ScvO24t8oh~K-_fJNkA;nL#Kx$LQUY;9R65)Hrys5ykXvHxHpHpC=l_``DO4+&1
zP?UU>vH(#Re4c=F$M`mxoAA<D%NPVFPUI*OZp+F~ERfD|*V;m5_3k$LrWL<_sRUZ`
zxh-nZ)P#)IGH!{|DaXSY5^62vv)dBjcTz!gjt$0>xLcgA4DnJM1tuL+sZ-O^R2cT3
z@Q9%_`k?edBaeLN2o8l~Xe8?s8&5-Sy;i+CHU#9^ojtC(M<8QpKiddo44OQ}%50p)
z0djyXb+Xr=4F)#q_{x9-XG3xyisqOT?Gy3;YA(Ytpq_psgwQW&;Ful0pFhO!!X{7j
z96wBhgL>d8h#ATn)ZC!R%kFCr1R9*?^dJZ@w3J-UGGT$euGcb|&a%nm0|XTMQqkJC
z7FaV!P-~$4t2#L#^ozDnmNn&V1UR26yM2QIZK!V4CE6D9;rMpeQ?I@{<hj=@_h?-k
zbvimWtsCxn`SfNSQj_g+;Pvr52`S?F0PUuPPoU<tz>E_#wE;u-IxzKP9m8#>Rbrq~
zg-JDL0*4wZB#9c5iA&cj?~ImPeVEdU*{YTSN;C`v4WSo32~6IvSz38ov-I)|bgxrI
zlDXtal`+rc$AO(tyMk&$qM)PmUlVUqg(>-5Ofy;QGPM120Y5d+-$RW49!wP-N;nSX
zRz5M;t_Ns!i+6TI-GLuy8J{NGp)XcNZ#&l&6tBx$5!3cFq6AHY?$^n7Ba%);_8~lx
z-2=JUCG<d3&_XTvPjCOOT<zbrZu_MQFnC#Q9mv(zUBX@B2P-vx5O3N=sy!$ERv$3B
zeX5}r__Ldb%MyOUh{&U1#Q8S*5d&=kyo&Xf5a=j4#7X=h6Ag5%krLrpYNd$#%#cO4
zgm|dsjc8<s-(I>TyPOP9&+LyMWX;!+RMBGz$78wS?Q@O@W=`wQmoOstne!T&bDA?1
zJhMk(mvEm^*d=^OkWi;Vg3+i$rPAMnAmLRF5<sP4NWqT=@^pwgNs}<yGf5Q#qL6Kc
zHI)HC#?(3z14hhJs>vXN->ZUZ6bC=xHz`1Y=||~+7u8DSG)#S}6WCatdYJqAqo-^>
zPCE^?z~l|b0|CFkH3hX0`jEAvj$=eJ{0j7H{sv>ID$rdFhjpfk4ksLkzqr)3TNSo;
zGCoujrsT~X;E@jSI~douLsqSmhf>T#C)yLOBO{f;^pVpzAU#1HGFmq&_cC=wwKf5n
zJ)9~!kZ>Ge9f7~fuaGB*KXw6l7@W}Np$Earszx@|j;U@zvh1UEaC$OCZXj^8iZI@Q
zZBF^>j;;JoFb%|-C<(OkfIS54%aBvcYzZA%Nr&pNgCCU_0!k(6DdO{Ghmw)dc~RIl
z6$XH51;V%#ruk>XOUOf%qV!7WOIDYVtN^QCC$_kZ;n!|L!GSSIJHnu%K_QAkSIk2d
zt~VbrX3%KDR1Xl37>yZeE9J|W8jASH0A;eInmIYW(iW75V)x>P(>;}wbsv|Fu)7f{
zwNtQ%f`<{LYyAH1p5D%r#|E>1G6O#e;F3?>kblibdXzH#Aq9U*Im^`F|MEZiRL_YM
zece3+($DDY1O<dVq_0yzTh`d|-_i^{%~EiTf=d)!rl604$0;~U!P^x49tE^9Kq8kA
z$%g<x21&mbp)`kiYmkRDb2*j>B&9nPFuzNIp1w-KT?)t%Pa-E2>8~gtZ!_lTCH;b)
zhA9Y9K$dxFnSxRTX$RRjF!wXkFDZ^Di@6B^QHa>bBuW2BF&09hb_(!=vN(U50y0L)
zN4Aj0S#}R(o^Q;-iWnh@cnOJ!v{XwuHc~(shOJ7em0oEY*}9Xt59Xyp!K3(#kV%z(
zWz1%CEEjRL^$Ba`QbTLPy72>B={<9;t##GH*~^ycY2{E+tsUQ28eG-5S1i|a)wOiT
zVL??m4^;UtKbPaD(<*Vm5QU!FrOKA2iuxtb#(Q<e74{4L%S|{kDPb)~B}+E<J#)To
z57kpHS7ya44pXp~-S68yv(>gmX&gPd@@@P|g~ismQjlkBUMbsP+qB|ypxp8UXnNda
zv6ZhBSZy0tT`pVEN^LPB8+P0HW$f3nSKTxBn{0=uw5nzHxO~dY*)aenTNA~W;yhAY
z(~8|>t6s62kqZt>o(qqySk0)#;XqK1*cFG_R!;%q)+AECvqbo=l+?K5U`@8#YF1oU
zTg$SGvlmgdHB@a8Ra*mZE;+7Ii)+;4HfeF2D6ZheuYU8Zl)pi1b^|s005$uViQ0v*
z$ZR`;XN#@Jv{GQU9a?eZBd91vvX){54eTioPh}fzkE|RvnGqr@3;I|oeWq219X~p{
zQew6p#BgA;YWY>pZaYX7m)$etNd`IsHF%chW5vn8l}In@MzDytTB<{WbO8_~*^S0S
zr{raSg<@@jcxrl-E#7oK?U-Y~xgwwBP1J(z1CqAV(=`hI9R+R*S}E90ftP|f1=JGy
z?Ujj%@T5c*SUOW3=5qSo66MGG*pFY@<rlUCD4mBzN?!CJTFuDM)POtKO8V4sKu&l_
z+K<BUpNqVU07qz<OfUtRivK&;{MVf8e{n5;$vu|j9>Xwgz}}dIyD`C)EFC`a^Xh?{
zO|R{{x(B}_ShM{`d9r5Dt?GdU=UK5Anmj9fzRCVkrPH)yq3I(Iw~uO{FEAaPuShiR
z{Ut|_zl?9-O!b)d^14NLQ_|hE!dXlYU3mQc!t(iNuR2qOTQBr3l~m9<VmS88_RyU5
xeMj+p!9w>BTd%d;Xi7EgyW`l8Uy!vubkBy2pR7FR;c5m=5yF)}E<Idp{r{<17rFod

diff --git a/crypten/__pycache__/encoder.cpython-312.pyc b/crypten/__pycache__/encoder.cpython-312.pyc
deleted file mode 100644
index cf26b2df88bfb1000675d290892469726f32d1c6..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 4882
zcma)AYit|G5#A&3NQw_p6h(=a#Oh?r4_3D1SNxJ|*H8J8sCMl%Era^X@QyMm@{Zm+
z+R=pqgu*}M6oo|us2IRNWHf+n*gzCCKpn(D++Y3CKV+yt>{USx#6aqQu4SM=eiWU(
z<B_za*j<48oSmJWo%v>tfAe^p2+F<I|0e(CM(A5IFbiGnEM0)k4B`<_rBK9Zsfa}%
zTO(H9!dp{xnu#!JTf{~o7}F_x+7WT+eJ0hEc1E1gw_QaMmjw+Y-hLJFj=L6vf5bgb
zg`1v`!N?N|>aa!gCS)$2lA;Qy2%;=u%>xq&(Hw>;%^Hi3LgPGw$1~@3npl;e&Xs}M
z3csbTz;OoUD4rTSijZtS1@hh1Nf7!irI7RVl0$c^ec2B*R)y?dwxZe)s_)H#KE~k8
zBsptYF{vg%7deXxI?f>#=yDX{F=5SFaum#vd3}bgP0%@Oj#h!w1d~Ha`!bd=gj+E8
zY^L5OY`i_k7+lHSUMhz@X9J#1D|wod=In$MIsF_8JJdsG1RR%eT4wpg<%FD&L{^Hk
z@B+f9fLY^FHnUjDihM#GWfh4Pg(wze#iSX)<T=zHNlcBiayFBZup+Y=Nlqw<%YwmG
z!m`?y6|1WP&nn{?VIR9*#zgrVqu{I<yF+On^BgWM@xl|rILu(8c8w-mG&&`TqnZ^&
z)o3{}Dux}Jt!g;-s?3@-C8(MQ1mLicjwVE20IL#((S~7DeZ_GpD=7&<R5WKy!dQqY
zpaR(eN3zxOeP~cgX9nLL#M^cb#=r{Uz(GNbfrNM<Gp+@z3L$1ol*XBg#GSyU6@K!c
zpqfOFT&>e*-ybT{dyB!nWqR+_(4s3?XrFhnMS8fncF%*I4{cxUFRdLe!_dV(a`~nY
zUE8<d>?%3C%FfW_kxHPw;LpD`Yb&*FxZP1|+dBD1rLChdJR2`{Z=SQ4x^|b^_P|_A
zXx39|*)n;u;tgC^uc?KNa~)G^*}Hf0M5Wa~oyc#Q-B@Z3FZc#azQM9@+vKT=%Re2T
z8Ox7-ke*GJ+P9WmTZ{D8B@i3MNM#n&^Op9*%nTAxgyIn(1O@2e;H_7w2n{U_EyFW_
z0yZ5B?1F<JfoXw}rg2NSN%I{~yesf$Bv9KiL!0VwwZkeGqY7*2SZ2wavl3=?oT!?l
zOw3PW<ybTY=2X?Zxi&EJ0z?pa(;*_G3!S4TI~DUnC~01)HUkbub}TCs6mev(1{O-q
z#dugz!C*{S0V-m#dKm|d8^M6LC~U(32uQP6Ek|q4fU)Tg$GwwKWX;Pho3O&IG#jU1
z5s;FWg;X4~z(Xb?vn*ai_&GSRyM)4VYUc`l4w!4}$gZtWO`?ixP0`i67-Bzq`@^>v
zLc2?$-BTl#o-I@KyrX-ueNCaaaG})MUvA$#MgQJ~yI@nSc4-)pOX$jsLp_5UaFtSO
zsx*-c1NxnNk*20vlSXcNfd}EQ7jqpSuB$q!$1sz^XaVhrewP(^5_p7BN+F)Cmt?cq
ztG7AJJ?d`tc1d4--t3tcyX+3cr}a{k@r_r=*eFNsh9(!l`$jne^?9?m`W;P!OL|SZ
zdfOm*hdG<0%pEwiI!8lmui!__PA~rtznAeMFSJav1TpoJ>^6J#wx;bJAbn4L-t0BJ
z0c+0H+q$&Lb@f@Zm$R6<F<X$V=Hkgdldj&@`Qf0l(VXYO;**=qQN7hOifY~g*+`w<
zs`Q&wb&fAmhiP@g2_cn%cpQf~Ndgp!!&h)L!}3uj$|m9vlm%Yk0VWt;50o}uxSWUy
zYVVP#C`u-l0#IhM3VS7?Tx4}R2*GObO>s<=t^iLxyQ;<JfpEL#1b`A{B`U@QO!5@G
z7AlR=kr=|Zgku*m@f%E3iiwA5cKK3P5L6PY6SAVw>1>L_#OsYXZV@w@UF4$}N5?gr
z0fw40j-@mwX44Q(EsCTyK@wOE>rLk&?jOS#Vlz=1_COW3V)7sw^)4o=mWc;Lu+{+)
zZ-apvT#1FoQDH*A10G@$J$41Aqc=L|U40dQ+ti6gPe*~ev18uT^YOmh(a!?&>vli(
z2WR%@_g8#@nXY_S;ZnY**wTA1@JZ*L&iluoTP<zP-!%uWjs7n2l(Be%&uyqV2rPEa
zd)UV<ff;w+T{!!(aBJ-5*!>OjEr<T;3*_6Tc@kyIzP0-3gZ8I(+SB~piJC)&vv72!
zEjV*Je|okz|FZ>uxa1F){ryFE|6@;QVcWbXRPlGr4CRMreYe_gw*N5*>qU3i5PbVb
z`##(^@7Yi#xshGy87%b-&Qax_?F&7xm3m&Ai<f(TQuZGxx(_URTCa20IQ_`Q)~;gr
z!H2zn-T0S{rS6mE)>B3IsmEk;*MqkE(Jwkm-9Ih29xA#I8Nr|i@}NobtVH=s5zr_}
zz9*^i##FloILp&<aNtHhz=9OsO43^#2N$YEP-BJEKd^_s$C$t{p(op`aW<3j)sk%!
zDs$GCuC6Mv>M~Mkk{zrToEkxd<PWRKR+Ih*d4z51;0gdB84@p$EL3KR`<S_q;Wr~{
zr{U}AETro12yB#n9nz@tx{Ft{Zt!C8DiTs5IUx!+yqH82{9{rPG}dSWF=1NwINjGZ
z2T5>wLF92e5Xi&`!27EC2mlX}X*CZtR^Ww^{0FE=LhPG500z70?JoRc-rHAn94>A+
zT!z})S8;i-4_zB7_})KQ=?KlJd3Cn$R{zcZ`)^IF<&I-hCn~`o&9>d@y4h6<Zk{?>
z34~@Y<S&#1>u)!G;=SW7Z`ynR=$EHIKV8~1TnY?N9e?UTE$!FeyY^nu(fOP~?E|;t
zbNrvjJ{>Cu4o@9_1c|b-wld=(Q9w8H=g_HsVFK*nzJ?@{tS>9@)o4*_X3WEvU}KVK
zW*rm~_rTYlWsGp#@k)+VoufkVST9M3*{ioJ<5~U0SDgZeYN=C03QLdRUSMsQhn~zb
zU>1p(qPaLu7L=%>V2(3l1D%d47s+?p=ynsPX)&4>H0E+Nl@(sZ>I1-44XwoL2ChE`
z68Se!k<`^&^!I(`>RWWTEV#Q%?(V|****8p&H3hzeHy&`>#yBI6_0QFmtT284HU(7
zJ3os(==(DKdHCV6^1f5$U8m>WuP-{>3yxsP5iGP7l-W1GcJvz$Uk%Z49zvwAKRodR
zczBc~v&+gkbcY%VQ@U=T>4RmNY^=Hiqo?m`$I3hE3%?@dM5EvgUVozr;-fGdc9Q&_
zsE^|`Cr7@DvnkSdbKIqDG*w-(a~v<l;04yh9z6i!A<`r2)f^ctLF%B4<6|(qgY<hE
zp)y2>NX5cW9)Rj9`a6AgiKdw?OYSwyVd~i~H`Dd3n_)ITZAP}{e_JS~YsqT%3|53e
z*n<y3qcM66$Ai$vB(Kr@F)5vv!~p}9IFg&l4cUM#CW-OHsPSp!tbSa>-#|vPLG-T6
zhfk9p`4-Uy|K73R(8K|J2Ih#mWs(RywNezd)PgAYx2W|W$o(BU_zmj#2CaQ&b5Yy=
O(>+9WJws6Goc;&w+7-zF

diff --git a/crypten/__pycache__/gradients.cpython-312.pyc b/crypten/__pycache__/gradients.cpython-312.pyc
deleted file mode 100644
index fbde75a84f7d82a3251f1ccfb6df0f27afb6ab5b..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 95649
zcmeFa34B}Ec_)e;AOQ&^!9}D<5fnF3ltk^jwePa!MUoxMP8f)QXi^j@Uw~R@GImmT
z3R<3sjM56KoeG|~4OP1h{gT#7SEb1$PCIP@gDDtP(@|dCnaRARvX$Swrt^F4`+w)&
zbMC$10j0=Frt^EfKk4w|-tU}ymTx=X`ObI#Y|flw3oduypL+lKpDdQYr62rqX*YL%
z&1bP(wuCKVYoFzq`qz5Qir=<A+bR1oyH$PWIObq5&STE7J?!XnopK*@TP;17W1g_{
zWy`UmunTE%*p1X1_8|4yEPE~CqL(e<;<s$-*N)9$&%Ai%i_Ce;u05U0p3cG3xdPH}
zvqXx*{<o|u41*{EL}|p&^Sz}t;aCZSEi=Ie09!7BEoHD3CfG{AR!LyX80<U~Y&BqO
zB(MPnJKqFb3)ngdY&nBnV1lg&Y)}GQ!C)IqunPg(D1ohHuuUe|X27;cV5=Bxs|j`y
zVA~|H^BC-66Kp$Rmq=i%8SGLM>@vW1NMLIi>~a(A3c#+Ez|Lo|t4y$~0lP*5TgzbA
znqb!fcD)3)j=^p)!EOZXCJF2U2D{k=`w(EaNMP$3>{b)(Ho$I|zy=xY4ioH7!0wX3
zHZa)TCfGfI-7A4z$YA%GVD|&|fCRRY!5%chJ`C7LB(O~k_K*qoQNTVXfo*26kDFkh
z0PJB2Yzu=uVuC#i*e4~htqk@l6YM7d`?Lgh5raKuf_(<C&q`q180;rau%7~Krv!E}
zgZ;D#HU!w?64-VI+hu|c12!UoUBX~bm|(jB`<w)JDTD1X!S(|7qy%;ugY7fHo&s#Y
z1h#|04wzt11NM0d>~aRHm|&xTjY(ivFxWv8>>0qGmB6lKu;)y$=K(t;fnCL5UogQA
z19n6LyPCm%#svE!U|*8Ju3@mBHNk!ku)iRIUCUr!Ho^WPVE>H-b{&KLB@=8Mu%i;#
z^$hkE6YK@RzAAy;z+nHa3HI}Vy(od*$Y94zu;YOJf&_LGgS}*e{UTt0SpvJ6!TyQ~
z_A+1-64-|r>=hI2uLAZp3G5aI`??ACOMv|~3G7w|d({M+1ne6U*li5<-<e>)4A?g%
zu-h5zubW_h1F&C_!0uqM6DHVefc;Gg>`n&zmI?N4!2Xs5b{B*FZ4>NQ0Xr#y-OXU%
zF~R<Cfc=^Tb`OL7x(W7o0Q<WV*u4z)T@&nez<xslyN|*Co(cB%0s99M*!>Ll4^6Ot
z1lT{8z#d?*H%zeK1ni$kU=K3bZ<%1f4cLD#fqj_4e#Zp+UBJF4fqjI*e$NE^r-1!4
z3G5*T`yWiOe-7Bckib65VE@ttn*wZF0{a+)ecuF|0qm3n_HhRLeG}|o0X8dveS*PG
zn_zzc*qj9RFoXST6YNdE{znPy5eEA=CfNT3*jp0Vqvx${Kl~AC`iI)AIhPU%4|YX<
zM6&|?40LuYp>StU|LMV4=jl*5+|%FPrOg=F<bdWKG|RYChUAwp&xu=3Si{zrJtNj(
z>tRcqZD_@=NY{W8iVY~i*mI#+P>FQ+L}L*p8Vm*dBWHu5!Po$OBzR)5zbn==(7(*|
z0XNDG&<DPa<d?0NEu+>L?$qmyMX8BtlN<{sSiMgEM*ll%<=w#le$E=BQrR_ZiFx=v
zpBhDL4Q1L!t*=?b_F+peo9b~`^)KEyzU0))9kmWyI{C!Ug0cnpsC6^$hb`z5=g^Wp
zT2q6kBg%;Z<rI1qof8R$x?+Q&KCO$;XVe=*tvf^g{R4W(1;c}<`+B-Uv54rh;G!2s
z+J=fnv5SUm8-qg&+JdJBqp@J*TrAQb4sO>vnnSg@bESKZ9@=?i|D%UGpV+;3|KTG~
zJe@0kGSoL1*{vu8O3p=f3&nE9J<;gk@vgp5G@2{PFDB>d?CcMnigb479Q3!%ma}*D
zMU}Z|Z<Np@_|iYtcf?Me?l{+>tXSRArJO&F`gG8k_eA<*(PgL4=PEc>baE`{L>WWN
zXFOiExo@B=)EC{dY{o0fQB5EHG?IUK$#To<p9(aky-hdEYEyN4vUQK7>mGS8oT)pU
zDLaz#9l7bRPBc!{cTD-0|Hrc0+^&7^HU8z2KU<P2dFqbc7MOe6Vw*Gfw#!mJFK&O;
zGrh2R%2S<aN_*<3{bljuJNSm>8t|L7Qz^wS*4R%6l@i?NN@rA0DaZ3lf+GOb@5ioU
zXW;fci?1Q&2r5KBCd3z%)q*#dO~?eaFVazK*g~y7YylnHhK?2oaXk@<4J!T7An#)x
zQ81zm({^GMjzs$P7iW87&#^br(~+*86Fre|kVbPED-WDOAu_=qHmt+}w1#@SBQcdp
zoak4md5iErIv>ePmfIeS$2a8<rrp7t{$R2^?QcnWTBg1JnXM(lWqjmW++4QA1djm`
zX|@fECFa0OcAc<sVpS@1V(t~B%;AXSIC+k!<Yyh)%-Xbbp#MxniA94^;8O_fsHY$Q
zz~`dD*gz00ONn&Fg22=$b=mpTT356=i5z<Rqp?tbS0rce>5t`{C;A3JCQk6UuIF+t
zH4nI_Q!UTXTXQ>6-k=icRAH0_sOSp(k2WI#N}$8a#+qMme0?xcJLPV<SyFM?H||Ru
z&6G68ozvcummXHTPIL*fiLOiGLqHU(-g&)7IDpc{jXEbWP)Z5-nuKR^n8WC@UcoEX
z{Khh3Mf};Y;Ib!oq1@&2a>LfJ?QJ_BIvSAsD&6`jmH*S$3+;`%4_Lwu-a5zuuc-g5
z<#80+W%=YPi)F+%Y#p`{(S@DVi&5*VKGbIpFH8SBY~wiriGBfOgS=;kZDE(OXI@?7
zP|?*rw4R~sW2&S8azak@5b8!F!2!q*CMALcCm>FbD+8f$S11}&saB!U-*e5HbDxYv
zPKSF=4F$VYQKE?*QI5!{5QQCSb1Ou^Imh9iA)t74@Knx@>^Xa1q(A3WLjB#5oFj^N
zZT6g(DF_3DF;EUDgDDF1N@+p~Q6g#ZBb6tXL62bd?$p1x7yugy@-LBqWB5P-Up#vG
z*!Zza&%W<&nD*CPd~x)}j6az21i_5Gl@~ikJ2J)dU++pTer@3W;-%A-4VMST2a=)5
zim`!A<+`}{wmly#Q@r#Ra&8^nn(@}YX-^*bvj2T=N6K+Hwc>CFskh_DE=x(p*fW<q
z$2&6>Eg667M;4p&p}2k8TQSx(x-}8Xc<Yk~vrVhhO{*slXPP!#-=1lDXu78PYR8q1
ziN?uTq9aqYdGz3IC$gcQzN(a?QYBTiOI(~B?*JD-su2s>fsfh3)?@at4HjKT*pAd0
zb|7^ztFN0`eLZ2a`W8is$?nV1_n7y5QCo2?up<<WaG?yQ7K6ASdXwP{y$SZ5I^7pJ
z1wpGK3JHKb=q16k&-HXY7mS9^M55q)tO($SD*d5@u)>TPxe5_o7L<L1iU@&42Kxt=
z4xEk#DQl>&PY9c+ik~KNM}5Qu0Ab)|%X!N+>mh{{Kj5z;8tFR`HLy{r96kL#vCht+
zT1o4d@wZ2j{SL9Wmn_pB-%O!{H|B3D%kYGKRq4Q;@smy^5{<-$s%76}uRcLpS5m@6
zIUi~~V3(<F`gg9`l;wDzbDkl!OVyXS3PI!1iN5PR9_l)IHl&1ynq^;~0rm_E{OM}~
zRfg5XrPjn$l^XVqQ-gi69w3vsPRk0`Necg|`>Gu8rn3Hl{?2gEi4ze87~K;(-e>N!
zs#785Wamtvp>|m<3jl`-SCK}MjpRJs7}b=pkbj?p8g^)Ct){ehJs0UZ88p_or>`e=
z9@NDsCyx@B0oi>|45DSHR25unw^EDGnMS0vCz{s}a^#o+7N(L&iF?U%b8by){^88r
zBPq|3nZ$9=O<iefDq%`kQ*W3~CF^))J1Q`P#O9dt4mHSfnn1eswtPTsc{DTkv6SaA
z)|Nxpd<seATybaTse$ky(6%$@>+F0U6D)1I;_mDW4|H{QDx`rat0`Ge$tFs+QnCw4
z&U0EJIU75#?4f7Glh_xSP*axBPf8xe|LA5UFIzse*`1z`imlE$AGzeoQ7eRmYwm|O
ztMhT|9lN+y3#Q__@Lyb<nLJ3j;m^Z8ZR+so@m{9)(o`MVLhyJbI2grb;P`nVHaPcZ
zd>sQqvsa1KkT7{_2P2;*+|Zn+mza9q#pRn7LVz(!%sSZM<gsKnY(w+%njx6~^C&h-
z`W<8b7mG)W|E)v>h#Ca}dD+s9I(6bsz1S~NLtYzO&aJgp*#fwHG-h=js>rVvlMys&
zi_%;Xb*ie4J6`ooFKmiCzVE45>5q>yeO}NXsYk4@=xN^7OHg^2u8QkDXj2{oRL&JT
zeHx|!Wi5Uf*$Kn@p@#fA6S0|?{W;24jzsNK->5I^nV<H|Pwf7_XW`5yH~`6pn}&~O
zCeWWjKG2_~1Fvh#R?Dju4#V&hS+?1kd{U@8lyyi<$|WP(p~cb`NafHAR6;!xG^Jwx
zM;2?*;`r`qUrE-tFzs8IT=RWj+lO{MoTXL$$ZeDXn0bi-<a3;;ec0M<g)z+1OTCeI
z$>uOHp0S?dWWZ+-G?<VqCZ&mr#Dv6hhxCqv7AwP(Px{fthDo4~55Ho)Y(>|WQrG^L
z{j61^uAHqW46BW8+47wAoDnVlv1oI5q(5@*w6bMrV}92b5T3e$M&$h*D#x(qzmnPG
z{g(ZcrEe+|4PO~dx9tB(l-lsQiYjZHLm{D>bM(PH$S5o4QY}}?LsS5Dtu~Wj%z3Ew
z9&7X><t7#niRZ6Q)hu~CJmp_Cy>NA^VNJ@n0GeUeQxCgN*3**4zn1-}wfm-8_J7~A
zf9BW=q9j$xJobE?Fwz1G0Hj@KU<_5e+on8;XDaL1i91uncHzNHI-DWIU#5IjNT^Ar
zV=WhklI7Wk_34K7DgXMEXT4f+!MOlP_ly*4a8rnz@G4pvx0u1$Nc;`e<@dTtBL5OV
zqVRV?#cufn7l%iOQ=a*(HiwkGc$_aiAE9TI^x=P$NSmam4bszNbyj@jvN@aSu95B*
zf8?<{4_HaAZV=M5RtV2p_8C@K7s?SAAB;Q1^vrXvh=XQboY0Or@f-6m@!Q4bVea$J
zHkU$e8roTKR>h{@+;oX4I)rC*@bu{cvM+@+yQ?M-d3~sY0-Xr+jp&rGPB!crP-q4q
zrcjt##q_CNButuP;Lt#9KcDSI!pw$yjjXY;b4ndPV8pbX8xspQrw{^^i}hvNn{mpb
zYKkAsZAdNLote8Q<=Ha}QQWN+3wLM}nZnIbK8>$J>!l%7U|TU)+9PH{)f^2)t@*28
zrc8!v@5#*FoAT_PNfHhKGLlfGlWsK|#!3R`-wIiFj6;S@biv$8+?bg|!8_g0g`%NY
zOi``Dd5TI7iY8bZW~(#%T6=Q^MQTRVo8Gdq)rra}Z*V$Lb$P@1hLo=sCJkSMN=9uS
zrq(L^kVDx|$pIueAMBB_o~~1o*mDD6B}~srJ63ur$x~Sgml;C8ikm3OR*mRjuXUA?
zPP&)rq-D3+Ezuf#x=(+KTTo=3N^(?Q&Ki?b-4eXisV-tC@g^wDf!`(yJa2Dv<cj#%
z9_cdnJl(VLTF8nVw$7$JYOL&<Rp|q?avX^f{aFtUm5L8>oKF&*iafXc<rmM6p1p8B
z<(W4V=kKR7%4w>~iTtY2I1QEQRpE&Irm-$H7e_`%F1(oXEKt$lnkyd-PEz6ez~_xQ
z=_(2(zec4JVZCg*<t(Mat|k`B#=2Szbv=7VZ&l5dWz7}EVEc=n9*9OB*jVdBAc`is
z<QLtuF@G30g(eKcwqZLK1T=AHh4v&>ivh){nhQFcI@gP$aHt>DD8?vr4p=)^uyiHU
zPhi4SjWR0U2<CHySDNDwVYX(=zvc0&8pVWTBAgta@~oZ)M!}ewh$W9?{EJhb*>uZY
zyuJ9Fe?1H28?lW*vy`^e4n3OC6PMmjHgz?&lTbi8OUXGTd97q9StC$Vw34IdBxPwr
z0x@4PFI&-)u4ox8jyvLE7;LltrnJ8)d1PXB#=kt}S*{|iqR_YUuyT-|QF0CcjaX@O
zwrg04JB=;boGUb}#GT4{C~MA*$@!_l*n`7KF*ANlE0{2lUv$qfl6tf-M&2D8IfOn&
z#EF$5B-iYDxEPJnC(TG$#fL|$B}c*QfYc^73<c}bp1MSM%F{^b2PTpL@-0lsrfV+b
zWKH``+!WFgp9PtX*z^VRm{>m2r*FJzyDS&&UAAsZmyJ#PfS9rg56Ds@-EkXD`$ilL
zwZ+mBDx+P)4i0%3Wm@rn#D3PIs?|<~p?C{Gm1ZQg_!f?wWBu9Y)b$C4rUS|+2*Lq~
zXq4)Yp5+A2P+!Pt-nSg_{}8}YlDa_rvWje3W4f$y)EzIs*}CNI!;|H2J)LP?_gDV)
z$%Zk<<>K+;#EM^@1C2cHK*A_vVcNei3A$L6@+|tvM|Mle2KN15pSQilaY#xc!}yp&
z$?wvq4UF67Y!oEYsF8@>*`|>Q?o<+?tU1StzMj)vxD%JgAS`$8Lq7XB=Ix<U31j$0
z_Y8x6M#S+8C|~&u5(zz&8*9ah;X4GY&hlpx!_eqZqABCAPt9t6*@hx!Cx!xiSV$zD
z!WoKEBVf$v!XKvLGK@4gh#{dcAyGFk;~4m7$QBJE$-_W~UiE2zebSNfH>W(!v#{M?
zq)$`wZTvUmRFL7%ZA`&}g6+1jXEZHqQE`g0=A2!91N{$<>CWN9x04mi@e^ON&^^Pd
zg}A{`+@s<b2Xq0&PjoH&7)O>2G8mM<7e-&WFp~19^U9B{i7KyBbxzPHs68fjQ)z0u
z80stmtJcC>BvylIf6&0Y<^19m`V1v$%5C5mR%e|ywzw0Dp2|Z=(Q8!4ma<~X7&5E#
z)cthbS%$=<&O4ycTW3}1ojI>)AByEgQE@K(XCwPME0zp|c@o1eQ}T65V~`jYsWN06
zb{JJdU0U_hxAQJq)_+?}{fsi^n(Yv#5>0@Ip4f^%OmT!ESaoJnK2L8nDMM3j2Fj)$
zxw%nzYsEUDGm|^l40#g<^iaUiK^z<Z1}~z-FhJ-XtN*Hc%|t_@;cCm3mSo^d?WyWD
z@wrH*g_3EX_*ANO^OWbIoBqm+K;6WeWY-kaGJo=s(^9jR$(diAx4p<=LS+X&z(#<+
zRFKU9V`o=5jlHIP0Y$ahm^{uoS?jrS&6G~+MTO1M>En5lS8(y2p_m|q4*<td8C|iU
zA-kX>jenl`aeMqzjO`I&Bo|B`P7!@<NO?A>ybmKrq$U-sWAuWOo4jl`ANmL@H(c|?
z-R)vF^|d)S3KqCgB@@bu#>HUJ=)$eIICkG3p$H~;m=(+mqteAdJ%Jx=pfsgPd>S`8
zVOTA?iYBu>=cBqhXm)i0?29N$A(Mnr5oIVHr7B^_)U~fLe&{P5tj-*J|4+P%HXy-}
z5soq~v}?+<kkFH~(4!OfDgTm`X9??16Hd}M=>MG^NDAU4(?bi1Uf`qFJrKS|d~^-=
zABWn<8zvCa+%P781y@!Z#s%<)s8qBO30hWKo-JLNE?qe4iU$}bHl+Ox$*z>Y!7#x)
zq$B_>#lqL<1ttFt|8-{l5k&1$jalPP2x1j8Nf5WISV&oOjx#-xvt76o7hyeJA4|D=
zl1k+zQE7yMZYuRtND5-0bWY0U10NJCWIBe9O3b^4ZJ!sjRt*~&yL|(2TxntqmY$ji
zEsQ5af`3r;IWqo)U@3zU86#JFuk^mwH|1%c_E*OTFOoL68XN?UMzf&gHk5LID9PKN
zrwtk##;~!CDof}u$gCSbbTVTN<H-0=1RO+ymd%@=o!6G0*ETvQUZZP+#TkEl%A?|o
zTx0k$vMZGQKlraBA)#4=K*9!rgiF{ndaIHy%bIgzee<~xTt`ucxH$IQ4<3q1_!C;e
zyf7-A5XX)G|5H%$H}GL2DnblU%gtlPkWoz0wKi~kbb&X`ijTFxM`DtZl)owEY5IBK
zBW&)Z0w~lv6L*|RXbd046q&b;qofy&yAwnyKuO~inW3a{{>xe=N687Q2_+8dDIyEa
zT8Z@_fs)MvCHbV+#wWd$6)PNlFv&;yO(<!{8@ldKJ`1GWqZLhv$S=C5;_sY5@^Sei
zxFZ=R@-DJ;8dWW<KwyEV2x^EDgFDcvoExkAbOZck)+8D{<*P`z2F7^j*Xil+AjvcP
znUPj&BS+c*4Fxf$LQIrdmy+kNx5h^@{v9dLj-LnGDsNL;ev8^deQ)NO0!MjMIF8Ok
zTa@3XoMlK3L0Kj4@}qyoC6&|f5GW<3)Cr4mqiKsa=T5#TLbru6k}~I9{UPkDcyO|M
zE}u3WQp+`Bj0+!R*mxQ@KOHveS|s5cCQ!oc#%$}xub^zYR5%_sfJ->LYF%eINLI-i
z6C|cUE3uple#PCf=kiT)3>}3QrnZq|V~_@d7Vb1`q^0`_=U0ob6;G~u%YQv^J#yp8
zRO`c2o=3>+iFN42&Sb@eE937-c{*kyrUNCh-g+N51?4-SXc`0qrBkkWay=((9V$kz
z*eM;s5?42N5DlT<X3s?sBd%e`unYT*82o0`27T*fr8!tC-r*Z~%OK>u!li2*Z7?oU
z6IC=PTnB?-?7j*2IXiZC!RNb+Ac)zjGhBM5`~f9o^;B*kiMo-1#^_R~08ADLIj4;g
zC$nZ6Br?}wkQ!UEjjPl6=Luq+plfVRqUE;B0{8BL(Sgj|`eZ|TZey}5J-01x2Nji+
z0%ZGWcfxzsf5o4HUPCXYt7<Xl+dgI=-8<@=o?oAAx$@A&n)LkT{OMR|^kCXE52A)G
zv_v!h#*{}jY{&)8@1b%EB@3vkCPA}Y2%6;@S$myL?AeDl+%X(tS#yq9=%iWkAylGE
zCS`1S<`SdFffIXpoH=1%J%Vx%b<x1_i)fGGX)kVmI;!TlNwj)GnA~Th==@bABRzi;
z-#5vW&*FhPMWp)b2olCGT`Q*+aS~ojT~79-86^CcZ!&WIaH@6tlxGK#FRA9u$$-JG
zX_}Y_R`)9?u^{oH+f?F}6X9JfL&BKLi3%*h@zTCwXRl<Pf_F8D**@!gH|jE5e$TLH
z*fs2CMDFVKqObBUomHbgPHfk?ukV57IFOUvW%DlH5@IzfQ+r!1E{=H6dia{<Unt8x
z?BT)y2!?vK*)<0AH9*6Kfp|~Oj_sf7MiVFYiws1WqQVqVhDfxV1S>e5*mc_3R+P`3
z1is}Qv;!qq#P*?(%9ksq6dMGPIagxXp3+IrqtxGop6oI(F<}#CILcYrCPLEhAPbOm
z{(|iMC29Qg%mWLHj2+ha%<F?!U%2uDmOJa0XZ$PTj%n}Q_@?Q3wO4&te6P)o@1L$-
zaJBAA-D~yn1Jm`3v-K;}^(!;=tKru%-LyKsf2=p{YnTqyX0cf@fOXSMU~zoc?YWkc
za_nXCT59TNWS*|6o3KwrzS?uG=dF|JMc9mzUi1)rM1rgCSZu+$<S^p0%qhM2=;)&m
zdo`)04^8>DO#1_IugbNE=%jkix99~WtEt(79g;mlT?C+offkJ&`kmz(JH(w@FlEj8
z)M3M(4VXN;@I+jE3U@#AL17}@Pvd%6Eu2^lza9{4?EcuS@y}7CYX)xuhRh1#t4!UV
z&viIMyEun@j7DKOGRin)*Y!1mLuUQV@YI+b%=nk4JWFRPIHGr^QQST7NQcat&bdL@
z$~F&{4m)I%6y0~N-#Y9Vae&8>+K_kYTL)zut98D{`K^pQk#Y*}R=ZmCVfc+5Vj2!~
z8C|(48tjigKNyLC#Sk4chNFC!?%qRk&A2q&N>7_8VWUNTmd_<>Wy8gp#ZelsPaxL}
zW&wR?x~2UqJ#X}U`Q+r|@3*WSb6)n3`;*qGl7-iIV{50Xv6wkY*1tLJ-+cY>jpp~}
zXZ%M~o}+AB<(kZ2Qne{LM3oRz6tdGS6PnC2jdbnKC)H^S?NoTusuC|{&bhin*kH(*
zEq<!k$01uWMcJ#C`!AAW{|fC?(nw?kDkdOm3pj0lin_Uw_F|+>KKa0=!jz|V7Rsar
z!h4`hse$#U)m~&;M?N)~{3^_(19wBL5F&^J6VA%_sq19aA|?h}-*G}AC-&$j<dPDK
zoEEmE{ada_Z|r_=Q^x;P%JbALv_L#gp@f`O%(Spb(83~(7HrN>a9W^Sl@=&-&aE}_
zfyppoK02)SUKjNlzXXSV0#ASk(p7HrL>oF^p;b?Nx6oKs4NM(Pn{pGSvw1n3nyF#T
z;Z0|H*zK!y<y`81-lz)zi~|}Me8iw?t>6@Kk~+H`IWVZDm6z+r>k`rA?uk{I(vG;x
zxKMdi^M<R4&zVUMBr1rZ->F4$1<3&{sqlg%7gHmSyO4#jYe>lf^CUxl%;fVg-5rUG
zAeoR7wIQ2<OkEc7Loi*i_Lk;<MYXQ*x!8!CCIlyJ+{RL*N;)RF<|Av)0jG?pI?5#E
zu$^L{zdL8g9vFq#9CU9s>TH_dga=I2u?c_9aViu&$@g$GrP>2zV8I=t9)PNtV4C?0
z3meA;PT|iJGMq;yAcMg}&>la^?7-xxlJPgh9XGY<9r@v8{jF(#D>U1qU*G-i!FLYc
zaAa2R&iMCa{Rh+jgBkxLP^~M1v_~6Ca>e3!@pNE8Hqe|7G$*?z)?@-J;-2Y}n#8`;
z-TYr@X<ebDhiWO*ToQ(r8h^l@w)pGPRNoJ6xKp_UWz9L1fxbQyYaq0x>toLPpFp|h
zS-%5?GMYGq8%7hTcmBoZ^+uwX3JQYCvmj%89r?t;2ud7T`4Qb4)YqIV`drV6SX6aW
zqN)%c7#4uVk{eZ=GlLQ8S;9(;zwl9TO*)dFnewdVbNZHKEIyPeunH{r;SLmaH%6c@
zb`RV1C?PT8U+gl(3t6Mb3(>Vqcr=Q6xc(H|)w~cQ#B9jq=k$^>&Ox*BSLYx+gH1Lg
z=j3j+^uyoL3pQn_oBb|zn{TL_n1{d{(mwl_z&0dvcN%KWHaNS`6ytel0>YIbj!;B7
zM)yUL{=rieOCmxmc`QhSiU^vJVC>@m0wlwNoVAA*y$CDvB}6x1^tDQc5u7D_j!@zf
z-UB77YO+;}(p8H_eR0>A1JM_Jm18GfAAB>MI5p*6a<ig3(Q@h8_@0}!&B+s)+NIc@
zH>YvjGiHSvUAHi?XUsMB{1=LD+wt_4uk7NX(L>+&)!wSC9eXOiM=dP;`q4LcB_5gb
zF1{J4N;ocUjPJtczKai!KK$w-=1j$0<y;eRmJ<^uCL*Qt;{StMPRR?@2Ej1o>-43X
z!u_EQcPhi6tWYP^X^4qud>q|cS0}WBQ8{tZz>u`L^L0i(hTSc~H3HMPXVDzn0Sh9b
zh`joCL2a5>HEd;0zvRBlS)BL`%tE%Xg`?Ssqkq1%Bs+_f!oC!?4cpFG)vuytA}(0e
zhaE4K0L_gGk@gKvQ2hno>r$AR<W?F<NG8{Ld3<6CmowKzcbA>HDT9nyja-nkZnga^
zx{C{rW`4LPdq(i4zgli)(`%yj9Hyt;)_!X@@<CDa8ahq8g_%t2cU4JaPR;fa_lWB(
zc(7(NYXY$H$4H>DHRDgtj*v^rkLl@cN|@|lPw!PDS<Vqsx}!N4g^cKq8uYs#vdlf<
zb2(ddNM+{|V^|naL%NQqq84ZCS5V#PUju@|S6NB|W2-NmPi%kXGbvA9{4+OU_ljNE
zkg&e8Wx8tq=sw8$vU!&mk1tLfP43E+wT<rlAW%6LyR;!`{lb=%uVHM<bYNc6l@7F|
zd@ZR!%XD?!=z;j|u~o2MH7`mY9IGHD@{9G8N8kPAJD<F<Dzj#9+=X{Oe|*!;*5#8G
z@7BCi^R?Pc>y~Wbz?Ho)b(P&%_@4D!tzX!g3LJ><dOvUg&~*#19=LKK8GY^1iRa(1
zT|TyRe9h!>a0B6$r257~8U4u}uciE;mF-{rld?HG%UypGbRabun;mF8lf_Tsrl43t
zH&K)zux^{S=a~$w66(=$X2ed;@56S^s<rj_DSU=6oG~s;vN~7H%$h9P4%6MGvoBpa
z(*}`q;&*5iH=rDFV$%|RMUa%LD%uUbD!y~Nx-nb5G+n)PqAOFqa`XWBZPBV**h1^6
zW^7Gvi1_a)SE1xGeMRuf4{a4fxx(G;Wz4hA>8#Ogh`3XECCg8(eqel3>@hmZEkPzH
zR2mgFqI;;)1%eXjN&#Cjk&UF#z4Q?zs#K^g%9oHtDVJGy5<7`R)i|a70rg(K=Q=si
zk@7^lh>VL{CJYtr*@n;E4MU|kDQOAyjmmS9xHGqe$$YU}NN)*8w{KEYg2)DRo8d9X
zJVI6(j3aWavY-rwlHa4k3|M8;7Ujq?-6W>;>NKB>UyD?%qO3V@XD3)^Pb_k(v$G5J
z5!VBe!h0jJ{V3XmTY_86s<}%wbuOodZKkQb7I{p^F{ZSW48W2uHA-dppT(Vdl)`wT
z^L4GV9NWG}y-LCbLnPF7wwz9DajIi65O3_LzM<QMb3$1^gE9)@9Lf5E`_>F|ZPH!x
zE}j0k#3aKqEnAT~KJ4KA;ZWzp-@!xO(re<MOk7g;DBnXeJLBZN#4-6VsGHUz8@j2o
zI$PPAu52Ck(qfR*fQ$KRCFZ#CqoZDZ^+k@~PL!-r@?H9b3BTDEckIu!Icqiic8HZ1
z+^P6YS!qG7`+?!LaN0kFLOFq;>G!)G!$U1RPF+rgnP!k;Z3my?7&%S-Fc*;MYH+;s
zqvtQYkn*T9;$v4w@lj<?<X46<GBKT{%J6}|Nwpz$nrdSRNjHleET&IT@>i7CFrrrH
zd?xc~clCTIDC*|w2KJ0LVyGLvSymVsB7K7oY)FM;!4r{(kD5Bsj;7K7JI^5j{Ys6G
z`oa#2;6m_umrkWjN=meO9fE=bANnu607MeBb;nevwZFqd6EpkIcpzbBVx*`!9B=-X
zdb=GNRJ=JidM;tVFak=<)AtxkCCc?J)$;z>hLQ^MGkl7)ynB+N+`rP;I6?|#X5$zd
zisfk5IF5%Dm-)^DwRI-VP4jq(Wpsy8Iio2-2?`}Yq@oOHX?LodzHh?{RxdU_sP2{|
zNYxExENjjkMo28!h)tNu@j+((y89j>F`3<^6>UTw7h25F69=WxaM+cqVFx0=q6z9H
z3(=sXE0ED1Ek_Ov7JMY6?owRb9=7OKqh1d$U;i6sfj?1(#2{P^un}iW*kXE#f8|}s
zDKYW#uMd-vSW+@VgKFIiBe84PM!`gTX)|@+CC?r6aj@QUey9I^+aad!ZuC(T%An9P
zdDpPJmztM%g`LATa!cbvng1Q}^f#g$vPkD$KW#afIFrw6-USa6vs&Z<J8>Nv+Rft{
zYX}+)4<Mu^#Y)k_u^{l?>Ap}`1OdxVA!4Z-6Ei%hun61=f>z>Y8CF6229AgN5ZI%L
z0wBRIM$xdtkuyDA5d>OshAAGf#=CBBZS&{ceFNRy$eMFw(oJP3anxA(A`;Bico9*B
z+{{#$7Y8=ghgG|~4W-u*qytv^P71YpMj<w#F4Jh9FVqP+>*<^aF&J1ab8f9EN*xN#
z&7txJPHB<%a=zmO1AUQDe<!o)BdU88!5d}1FJY9ctA!fzac24<N{;^TfOyIBLvP@U
z`=&2IP9@VNPyN`A=-3~^QE%Q4{FU&_8}r?&s=fTe_zRatQYB5W4OG--%UjarEy;7~
za+<2wzEhhn-x4pnIj`<&@s;9fU+KjIqX#ZLoZLSddAIMKJ``A89G?SuSlu#V#Wsd)
z)zWm;Qh2%aUF-XH^LN|7*`BIenyESz_x-?IHeFFeF=CUxY;buxxO_4&`TRRonc#*@
z#m3P+xA5}m@uw5R+4_!jeaEDIGW3o+Q@=h_u_3-kUx@NehElETr#u^`{nC{v!E}BV
z9bgR3BaaBfQD3wDsH{dBJH`;d!N}zB6}se`<Y6^q-lY61{4bmy;95l*mC}I0g5OCq
z-S44<;m{)WDRFAmw{s~TC~Y*b4m=CuGB`mAlL1ErE_l57#GQS}@RH>Nn0cbwZd7kW
z^6~e*Em(-5NLn>@*_!rrP5Y=n?i&kfD)G!=FmBPald!{eYwM9cQqyY<RhN>#rz#71
z^^vVgm=kb!dnHq&9Acv$?o`E?vgS%UPeeipi5}_H_yTo@xHQfxUAMWr;1d1;d(=;8
zJ!e|m6{z(3&q02H@47|X#0{4)FxT2^NJ<IWCX+W|2Qhn;BqWC@h(((pamB<^W^al9
zj^9C!x!!gf<O=w8A(<5uQc^0Ngd6jSCnn?)9Hgx>dBj`EzpNSGiiSN>SyaTyXv9Ot
zH$$6hc}w)a@Wr(DlJ1pv@ozD*_KXy3GPEHN3_nqe#+gsU=o_gF^)eYs^qhD7wB>+d
zwdNIppJ<O+hI%1GJ%@%4aT%IVH1{V=RpvzYYlW8dvD!%TN~x!WSXNuPvXJf@DPdBR
z>dHi?(nQaM%v8vqTxp?%#HG?gNfRYxV#}3^sNy{QEF$=Xur;QYau6RhNL8P~Rzl2B
zSxiYgl3aNnujpjq%vq(E5D;UaAJG@BoysyiVFqJjr2H~0jxON-VrK5Z1uPC9gxv*Y
z<O|qOs{*#TfPjUV3^rdKx-#_I@Wl3sP^un*c4}{y&!1K1rW)7X*f2Hkk@%eHdCdkH
ztFE>)>AEfMyIEQ}_I#rGYTK2z*V;3sEo2N{6W=~Pzco95MSA{<$%f4Q)uRuSF?h`f
zHTBt=73rE4lS^(mzgzsx;!Mp!mHGdxjMkN6*rt{f;;f)#B_WJN^41qX6fS^Q0#lS#
zR6-e0?~t;ZZWTg)ng*z{ju^4Bj$Tj_Alxzt%o-suad&%tA%RI*X-h-@b0#5)!q{~`
zzPrNiaD+<bB~fuCdg(t?EehEkI8(nTtAp^2u_;@qC)mQ6!7`fj;*g!5GfeT9g;f$p
z1*$72)6LYC4X7uK3YGIO_m1~o>Wh1Ilfua<&tj-MQu`FCc&v%Pf}8s@CCs)gI-9JQ
zEr05>VlMkszu5+K7VM-#afI6kLS-uvh3s}YJDl*jNrq5LA*T$pNrn_TedV9^9>-lA
z(<a>gs%x{=i__JMN9V@pa}Du@Z2gLK{fbQes%-tbbp5(a{f2D)L+Sd5u6JeXcVzrK
zQ=Xl(SlYIsE(#?$ZqMZIXBU<>+zFG$F5TU4m*(zAnRA}!5MXl#-qX<0b$?b3aaz(o
zUN(_Fzl2)&2~^xP!?5X*gmsq@-HC;rV<Muim{#xY_mI=ZDe7}rO&Dft^U6NC+Nit5
z$kasS5ylSQDE)*Pj$r&REcO<u2b}Q3gQ3O&We7#V3?s}Wy~OeIE{b2l_QOFDq`&$a
zNpD3SD1L@@XBxQi$jlo$giNi(nK8f+y6&wFQe{*4U62VU>=?!|&!l8i?WOQy6>bQ9
zEb=hLykH*DPM!xUo%7JpB97WY95vR710K|a!4TUW5#DivQ4j}ourrK|kfC$4L8@vU
zVRPGD7PwiV#;A(fcj%66KdPTS)92VyDA_|;U=f9O6Dy7QNyp0^XNno$fygW!Zmps@
z_bIg=Y_*2=mcZ-yR3zL3S0z>Xa-$GU@iORLVj{~4kF)Xv#3M+D#6;F#J?#s8vFr6U
zW6wg}Dk;X1Uqx$gdDq-=;xB%b6qA!f&E0^YjQIj%-S2zr;Lku2TVFqV^_eTrOjLZe
z=332LwVArLnZP>oKk{dN4cP0GY?|`5VwpYBI!<m7A5<;4JTg9#j7)UDF)(@dM#VcX
zrkeL=s`h284yLOPzPFtjJ*NHhvwr5ZWJL_9tiJ_^X(gY}_}lVL+qX(9F3%gEmuS9J
zPj0t!$5xCDC%2Ek2sevtS$n#yePVB>4BIeQ-}SBBEJ6&C$+K;^xr;oLIt=L!M%tpC
zQi0*PW{il&R_5p<7+8aKLadgHLFE$W(->8`T|97+mH@m)yEr@@-$mK#j#!xrwV#la
z5}d1PQlSDug~HwK#Y~0bAqfmNa>|;s<G`jad`4U-i(U7lL5an<-6)h7M5T$**o7Z#
zH1O^GOYiYQ&I?>1@MTn+x)SpQb;NNLH_MtGYQ$;lIn?Y9&77eoiRG5al&6V&77DN6
z2{CBF=k5oibe-mbYDzZ!crckABqr?iGCMyP7(-rtB2X}{rC{4&*D&YNWcj~ngSd_F
zmUJWTZs+NNvzkIiQTfThM_${p=Ws;Q^VmplJKe)~o-r+rSgE?qO^lkjq=A}*rb{Ep
z3F#DuF!~IDF@%9ibxY!?Ctg7#ND)aMXMWm^X@4Vj<7WMBX@466%w+u?X+I3DUk|_A
z^G?sV9p80-)16tnFTH$U#=jp7>Yi7pju668a)Rn1CND%=e9;tl+A_FZ3kE`d+uG_B
zWyJ|)STtQLr@d`xnjXK74&J(35O}<I7(!OFaPT=1sEbzT)(&-TKaC)7SZScc*|0T{
zj@w##wg;zg@tE)%i;JoImn{p@aBbYke$kU>>AbENSTQ4u&b0*}3O)<bx9C}jy+zBH
zoNHSWT-(NgY0r$fXgG=V*#cf6vNxZ$2h@T`A-dJ_BO*9j+t6g}U<9|SlpTz~KC_nw
zp#w06^RJXnJk;aVvHIc&PW1CIjTGrzz!-%52a+V8pWIF{K-Q)_Ynj?^;#gunM2nC{
zrB}9wH;l7nXDE17Lf#b?$`U4t(kQb!gmhLUC=fI%chwXSw3;YWdvz{L?yRs-!qO@f
zJc*jDb1kN<A&)vlG|&d^%B`BhuAs%b)}$OHAf{6h6W|UmjNWMjAR~HJKce0uMAJw=
zjGy{6O&v!q;QvcBk|THz)kx?hk55)ydpgy;E>pEWTeT@&wFxKRRc(p;9-uz5JyW(U
z?O6tW<mak!D376|By(6{&{sQ$bH-QDJIdqKx6A+|kHfE=ME5aTDIAJDL}gGyGqvbW
zWI*_Rhr{W?;fJa($htc`BKtb%mh{Xm6c60pE-R#Xu%h>%XgTv+f^X@}@1A1u3&mr5
zIBfE46J-3`tk4)fs$K>%FnX062~@smZPsOZ5VeHtx!R)7{+NP8Q-Zw9=y$^W{2?dF
zmap!4VKWr!H?D=UIf!$Bw!)e*gprT%S3;+7-RBE5n7dFSh^J&hVlY$E9CzLnclxrU
z@Tz;a_nqFa^`%;OPI-1|E>4MxLg9!-cgOLGf;tlFKn`|>9Vd6`RK9j`&pE`75`7Dr
z7D;9?^(NKMsDb3X%tx7-&{r6L<j2+TMn*kM2=yzcyI-Y_-GSGTFUBA;-mzys@GVHd
zcC<W=zzg*&Cl6+P+iuQ$blYjCshz#3corK{4+dYMWQ;y%P&}MY9ugUMh{{0J=yVn{
z3T1b!P?nW3<p)oBhjH{a$$EYXRQO+%^4exl9usDL==|Ae4c)+L?bm6H?wi)M$;ds>
z+MDR|e+jfUn~hh{A;@kI>Z=GkWD^BtfV$Oz7eQPy?VtLU)7snAu?GQszqFS1?MnN0
zWqf<?iRehbR4Dl}zROfuEzF-o5FPF`u_z%r%1X!2D=;BFK#y**T=7If(wk(M@h?f}
zd8G$f&k%dcN$T?gv?gYR)NoF0?-EWBX5E)yo5pIQi-kbIPG0%36M~=pY{+dk;`tb2
zPdP&!S%|uH?@c3l{n1ZFUV@hHSEdb74Jr8@`mRByImFQsxGPLvEdSqO<R83Ddt|WB
zB-4mNk&L^e?jLv%gq7#qAXS8BkO$Vdbght@UWinL3W%0)O8Fjj^Eza@E2T^fiha;9
zixrkc!ZP-4l=^Wck$%pKe1^=G>3h`)_0Ge5SfX<0mnS3@6aZaPu}&ua+oU!+>BR3&
z<rI*2R^dgx&xKcty8jW@{l@*p&iEkH6R*B_<;97?O#Pb4!FPw=8T#6A#<z=6mh8nn
ziLcKPeNpmVd|5e5zi4X69_3uH^T3_+fsu{~r1MB9R*-rQa5O<(@-JF3%bO<|wMq?K
zA5`5G%yt<40yVFI+z>NnwQigq{+b4)5d}k=&^HwsaG%0*78DBt_iv+^yWu`CTGAMf
zfw0F&H(!eP@M4~AdI^_K8sUX<y3s95Y%_p_5)2Sl)Pw|H-o<Moz9gk6eUXw`l4V~K
zRw^7hD~&CP?|bt;j-O#iSa|Ebr6CWN9HkKsjIc6Wn!y0z)_vjijjmc7R}Z^ni^04n
zXu)&Vp0cwsDFu|QA9Qnr%TNaqYDLt+J!>7X3H+Yw;J!;8-1=fRy!VB_z2T{QSoA;f
zN%*p}RRG-%_@jTK;Ka0Ug>Bx9eG=2u-QN^Opiz3(Ov#Tap}Bx5;tR!KU|bbJqlv?k
zYg?|E**VmE^)U<nqCKYjLg8P;HgS#cIV-+Jl>ack1<E&sdH^eiJqzC12gVOvdN^LB
zd2u7sLorPH@Ce^9y5Yj6MCmJAr^~A^KRW(sa(kw{1;;YiG-qo%(ls5E)=bUH_`zG=
zl6wWE?*%olxWTWy_{NKq%Jr4lF`g;ks(zoM$viPpmZ?~htyq<=SOqIW#kM#t{9>E=
z`3qYT+i6{QUV|E2KQpf#@f`j0$jp7=#boLG{)N-E&Dq+HbS+h`cI8+RxknFO*qVS}
z^a8enx;<Upo~d4n;E(?5i=P?&3`{)9hWGuA({-)cx)td<@~Ep@Jw~6LQ=d3L(U$S8
zCc!i`u`%OYdry++7im~2`2lsjLDQ2R64ofJ7r0X;7Ryf_k`GK=3A^F0o-=Yy?;n7h
zcQyYDGFDd4&Z3#wUcv|<^~|BL3NS^^^sqfhK9RD@*d}LIGbF3T+&@#Ys+Rp+0LMEc
zN<BMCD9rb76f2Rgp3}-eSEx@lQ3^eYd9p%<qM=gv`jVEED^ZD9&z7e*g#oUw-(Xa@
zlrDncjGn|>XszC|thXiYZAlJJd6!PtH>n#aGW9DcRw=nJEKd6tPwY;u+L>zKHRao_
z`8%ZQmSzIWQod!kbeOLmxOU*Jhp#uM+P6*lwrhZiqnSWs%BMzTHmwQ?Y5yJ?Q%Kqy
zW9i5b4+&do#f1;1@^6N1%qyD(7?JU4gRDY4Uzs%HLoCfLq^<O=aQK-Gb>K-akOf}z
z_Sxi-(9HE5kS6z%gJg=<7j6V2k?uj$gOOl&fY@6m^U2pC6`!g0ZeBxt4N-q79;XB2
z(dJbp7IXg@!vL#}*t_YD+zVBk6_aPggwzdEMIZ~D-Vhy7jKO~qcPMlw5>^ra3k3X6
z_<$A<gOPyJh6n1*K@#1h8!vS`Gm!z8SplMh6kbDSl?1XS4e64GxRc~SfD^^U<8Pds
z@-9at&$O>GzB?6YoUU%uLS&rGRBr@}r{Bxd)yokuBU`;TUA=a4FjM_dwt9QIdixEC
zfkWBqC(_kVWU7zE4}4IvFu8GJ@T)`DhTa;^lx)69zf&DsvmLwA9lJ6edom?^!T!tV
z!gxJrF6QYCEoom}{6NAvUEOrG{!0BsMW(tVet=@AQACKrDSz|Ls<w&6lf9X$?WvOO
zx2hUaCF*u!`DW11QwLJwrp6oOhFe5cz@4_<6mTxotlqd&<pyQV`Cx#HDTDCII`cCz
z!WEPty%;R83h7>DPPR-gpmF&Zf?b+tLsGSTCeOAj<J4ztN<=Jq1|w$gWxQ86t{Ir`
z66*JrC<jPaQIoA`PFFN%Dq0bRMNF8ACwHe>H%@srY3f5FV(?`$@lcvqP*d-amRE>}
zGJZ%w7-pR@$+TYGejt6Tb32I`7Q^At9ZJd7b2iS%c?rTe3VtW^w9)Got<W`Usne+7
z*Gh+6oiNG+LrsY<d(pFb7jKoQDP+j7lkr*+kfK;+eT>&J8J@@Rn49D;6HW>4$Rl$S
zJ*wzN5}q+S<udN>7Ie+X)m9RMy^ex_V72wx+NEjy^Hj%+$97Lw)T<{qXDSwDE0&}y
zmP{PYRIJKYtV>s{yY9_Y?8;W`OIPg6R2+yG->hhzD4sm<?xXKKnn6&;iaqh-51@r_
z9o?E(Gv#e~^Qmm}wsiBh8x>Q{d!hASU2tW=gf~;Y8r-S6ed54%=N}h;qxkoInd;qO
zlI07M#i>Ah%GZ7?P?z$l$H>b$)UQ&@DOpSnF>omE{6pK-n>F9=V&?*lL*Y*4P?R-S
ze0reoeE-0yo{-rdL&QSY{rPr_BikR-ODAc^FF}sq!4pP~s7wB(a~R`^eRmCFSfL}Q
z)Gu4;&1}zvARqnfWDSC5EC_<Fn~N=d1~^F&L65Q(0IJjPF}nMEN*E%O^PkEbzl6pb
znPbk?H4r&*B8sz!2m8BZ3{pf8()*L^s5@xzkDzQ|F)_x*w5Kt-2S>Nv^j08lVC>DK
zTHL^z%g>HKn{3Hcv>A8$Iw#Id#zYVs&5hO^`_IHkg);h&_+&vwiaKcrN*EU0rE00%
zm?Ib_S65}~r*1kLf^CtpZ3!b9#u+nVOAWl|IV+Nt1t^nxJi8N<VP`R6HIJ!I!<=)4
zu-m*lqK2L$zX^qgn{Bk?u1Jh|F@K~t=+(bNB8{~p;@=xaovUOAXxLAw!)`qH(-}WA
z7K3Z^7n?6H8DEk(!;W8A@!DtLN0cpFnJ!y7xgt}xChb{6E=A>hypzu-m1Ob6E}YSj
z^{+|$*G!(c{`fmR8UMDde|Ory`^L$P|B0063C1`M!4HnHYXzUr-(q!@T13e<svsFz
zwBw+hBGx+YG-m<3^Dy6VLbobgqRcpU=K-DtB_`aDp-@yyTr_y}`wq#MLh2HH)z~%)
zj*37usl`-hS8O8$vADbojKyIxGt0{n$PY8~7ttA5c=-+LRo3UEU2!~8J#o-e5hdqg
zQSZnHRu;M`j9mH*7u~?Q$6*?!op=lGp*rXzAmQUzp3VeX5i!_bC6*^OS9<j<sfk!}
zWXiL~_&()P^<ERRpuT1Oy8|}`nFZ`JEcDggdt(`jfrq+k;-fD46p}oCX`aPUQ#r{T
zqqYW71lnqdQ00ur5P^z(uoE~+;4a65PtaE>d7KI}$XwaFAwL;}Ty(YY$SnWU$lrx}
zhzmWyuKRI+7mFW{4MfpeIeya)UZX(?LX>|~1SpLzFf1(^A_a4{sjM_C2@4^Lz3b=&
zL`ErK8p@kW$W2V5G!}tI!o;~Y$)+q49a=JFkqLJ3o!RUHd~wH<zjcR5k5OXIj*uoQ
zIUYmD8b!JCn|P2b!h0ODgCHt-$jRtXED5P2#!2xwVbnQ%gN#iTW0BVnlk(U*S@8$X
zsg^C@UUg&eTN_i4Kl%R7Ck^JN$u$#OrhFUoY)H2dNTldW(Q959WQEyj|Kwn*ot<_Q
zsJ;Bq_(RDG5P3Gxo({BU0!vdq$;l`V)CRS(-1#)aAB-`6<X?Q&WWWwXEN6~Az%D9@
zT?igeY6QFZdu5v*<W8TpXdCcWVn#v+i@b}3Hf{IfoLM#x(aVy)HSk(|LxwXy-8Up^
zBF9~6>4xtsy9k%m^PlojkMV!DSDy(1Bi8B41fgCYzA<JfRw6Wf<NUCX5bgr{6#US<
z5<#ltZ1^W6#o;T@WCCs3z_N5;85WQOYqEij>A=S8n=*mDDc@dQq(}faqyrl=flb-K
z)^uR&4R0p!aLV_vs$fVrZ~r!$r%>`~s<+TA$N`w2;(|NPAmemC!Zi!JRW%D%0?jtN
zjEKY;;m2aWhuMZ;x$xVCuN9o*2n6^kw;!=d^Kq0sbNi9tFKVSYe>qFtR%izjmYXk7
zq+-@lre=^HgPex*gz+Q)VnMJAhI^B(KkFX;oO-dc2b<_8Xq0DcdLvCIO0_UM>Iux&
zTFNndn3~!GaMEf_J9X5<4+pQFzjA&e0Ik@+Eag!Hk;~`UU#IF&GDt-l<h@OsPgCs4
z1=^+?o3lfkW8+RmIhLP#r_0!79|z@x2i{@qYBG%!^$-2Oa{@^rZI*MRdkYvayEThT
zN_)=J(|@LuwpkhWT^IrjD8G*$Fppmtb<~Z`)E17XFH=vq<F%@iZW-T#g%K#DV%OYr
zQ=Zm)S3N(ac7|MZp;~NH40T)Hr6cIwI)TuZwxvN&C(RU*RbcH^Cw#_@n=|`>acAKU
z$NGR{@GH~_WUV*rsyM#0%COh0DeZ4cK7&bH%Clk?&iM^AQ=#N@RH^}q?ZVj&cOnSD
zN`b^HRU~HlN#=AJ`{?5!v6zwVK6hG<!~5{52ZO^LOKl1@VMfpk<%jr^1UH2j8>+}r
z^9$5}LBL~FaEwp&c=e_Ev{e{pm%6m4E^%VY)BN+@r~{m%K~ck(&1{KzGDI!m2$rCx
zkUt-qQeKrUZ%&stj~2x%QGIr%XnV%rlJcmt7CCGDW9m&x#;7P0R?R#q#^!7lSfw8H
z#j+}s$WILr*8{<-hX>4Ic~L=?Gw#C80~f{AhP&+qMvXWUB~csYNy-DOl|_#I+ju?k
zH~*Sl*6PxfZRO#!<wf+pcafMe-HabpNsb@CPJ^o9hg5{#b*lU=`XnX4MnxI$L$+U4
zGF4{zX+^2a*aII2KZI5K3E@B>@BW_!^I>aav@4O5EHePoQ}d970Wu`)y?RYK`urC4
zW)pxwxHFf<7#r%H^0Z+^jGskdYNG==QG(?T%`_P);BWpl8;WrSLMj!d+e>+leALuj
zT|I;+Y;Hq3E$<z|7j?amYHL>egk99oI~;GnM%}X<S<pT6=Bu7bqjTal+CJ-yKbZA5
zr~S>z-fYXdbj!L-%Z7}9W6Gn3M3i&7?@|pZp+K`nOtx!BG|)mzjgX(41gG1i%1_FQ
z(4_<Bn7|(glZE`;g+i%=_$7w-0G<@)bTh0n#xk_BbbF>QL755UPpLZ!xVs9eiHdQI
z{e2XErxB%MNW{{u)8OkmtDm=MQJA+#tDo@?w?SaRTh<b>lvCinunP%4Y&Hc^K8u#h
zX4GQ6np(**?*_gcB?~2*X`W6`m&|7;nmRKjEfe0a`mgz~J2Q*6r2Jb`o~^U!ZU2Ef
znv!o&(S{kXP3!@}otS)V<1=2HbDK8frOb3D4pS0DhdmI?+lxYteJ#f6XNY+z>X5r(
z9xBE$?>$sd`3uT4L)41uJ`l8$It=Iw<^rv_I3|ZwZZ>3`jtPUiy7W`iIJ*5g;e^KM
zW}sWPWMLW}Gix#>Z4+z0y7}5>tXa43O8IxEJiBK>xc8~6DEZDkA>1Av;r3_<N0||}
zsHeY6U>j~82*Mpkp}Zg}T#O(se%}97!MyGVD~wGIV-BYGCK_|iMys<?w1~|dt{G>w
zIlPw$Z@~jmV~&a6M~B|g=5v@i)Q;C)T40(vV9}*#%CiXS_gHB3e9AL#Cd#4+RdjDt
z8$8>TR?Y_npVK%x<8nrco3m3}=|g6TD;OR%iDTej1CFbRd1u$mIE6<pShMIrg^~;v
zWl$0A&T1w^Nw8K6!P>;0(P~N)>m8O=`5WZ#LXE}6k>q|1dP1=79EkpWv5kV;5K60V
z?LVNN`D-NR!60U(uj8SP9KZe+9jM%-Ooch!v&eiu8lT)9sE}5tZFwg<b<Tl9S2~UO
zrF?%zlgv{PY7)n<9}!YCp&STQDSll&cjeq`I3#m%%CmSDu6B#Mg_0lM6PC3LENfS>
zjI!oRK^Q&#5$psw)zcSJdSd5IIERwiC3Baty)42J9&;eFgxwG_$9dk`=FEwRY-m0{
za#(!hkSSEQFvU9Xxw~;Zj2h~lfALXcXAZg#SYYMSKoIXx$~5@<Fk9%Oqdu|ON4jHB
z_s75n8|kJY0|Xh1CH2#nYr<;m#q9+a7VX1M(^C3f78YfTKfGnqg&CnTBHE%@)WNc8
z3GY#v6CGd7ik6~vl30tnN)2~yJ%(c?FH`@k?nn#U3<prqrXTX)&bve_$onMk!UCC{
zB1WPVt*`0qM%keeycBjCqdTt{{KVEA&#?W3=oQFGPjCH9IKv1Rp}w<1NFzInFCbWW
zv2@W-1SZFV0pd3<oI#jD+PM=|!#HB6Vb^o|P9fzIs@zthI_D5;QBR;_(;AgyMSHsY
z)eS=P=ruWp<chVZ-|)9qzC%x0z#+B*(?~zbvYT^YM?x6h+{6}gwsR}+f2Bg7K(xEl
z(VS-}q6~C~drsl``JB6dKsg12d9H{I=kx;*{8pg}R@95E5W@UY!xMz@a45*bA?I@o
zE(|^ddx)+<Az+;T(u-$D&*CJ?9ar~W+56i5_sPTIV5;?C2C2XKw#!mpd3o*l+Dq#b
z&yPP8_x!*cm@W;Ff|3X!O5zUF4?z3oUR*c2Zfw<s&50H7dks4uc23Tl*gECgG##j*
z@)8R#ZM?j7d}}7qlnpFN2bN46#wpY(-wH&QOe}o8JG)?cdcpE3{|fp*<#=VncBv-5
z<AXWn7e6`r$;6JNEwO&0bZSm}+%{cSez|SD?Na;Yj`5CU6prR+$2u})%j5283hLdI
zE^nfpP(}LO(l)VwGMZ}LH09ZR3v1n2K}a^B9#}(|TXL~`w0kUcq4#3{Xn*2xW^O~=
zKJ71~J{mg*<3P$2oGC#C-~I1UElh3{(labLtzjb_R2t=T;9y)O!SL~mPg(V4?_L*w
zr~d^Xkt}?3YUN*&aW@06!D(<(9!JmT>fhpbZ`(K@1Gl#;C5Q?ucom0%EkwH|i2w+(
zDPkrBbNZF{0T7i=jl~*_OU5ttO`Wp1w9wQYhJzG5;A})Rc^9Bu!~=O>F%CEj9~~jS
zCF7-n?|?J8WIQzNLVdN79`O!)W!$g8VGG5)cKolj2JYGWi02*g4f~||rTesWJTc~H
z*g0op?(m%9xio%lZgq|8npHh>fSP$k2_jW@v6L9jR-w)_M7N!ypNwrT083JNYn-0_
zH~PsKC}X9>f7!v>ELKpP->|U3IQ9Qc;NK;nWpqbpo+uwuLhLf<i#`vJ8_rAToIB6B
zYN!vQAe^(EKbLc|&6+vaxlXo&({-NxWe3-B9;^K|M1pB3$ZENgio?zkf(bQXr~YDJ
zWd89l+&Odf(fHx9MK`f|^WgZwq*pzhClg$mDPNT>e<)o}0lmw2U_)m`@G@<@JUY24
zyJ~lO)$XxQaw*^Q1Ao<Ybv-$cXR6!AT+@N-#M-NyuWWv8ODfQo^0nQn3ufz<rSZ>G
z6Su|pk410gbGwPAcz<SY2RL4NUADY6UEVrjp9o!ZXUdmj!)H}6Th*GbYRy!&#eKKt
z)m(L5aV3T`^OoRDggO3;PmMk`_ISd2;gfOOt&+0Ku5s5`^zzy9vx$)m&K@dRmMvMC
zE?GIb;oU9oY`M{pS+y%uvODgaE~&U&G+vZw*EXrzGc~I-C2Qi&Th$8?=G=vbV8(kU
zE_@GQAwiEKh`&N3O<YA)!b$H^{xc0XC4Wy6PRtiSvQ;}9nAU!q?ryJTk*KPK$2;!S
zLMSWZwI7dmp)_%E=KQhdi`!8sFNjJ;1=Y#=3EbRGSHGvlc&W~<Q!h8t+LixGy+kVw
z%teh)znF!IUd=Y6L@T%wv6v8Bvshpg)zIkBh2i{o$~;`u&+n+f85RrHT62@kGfHX_
zC)VX?lTu0DL$hQ#j{U#%nvz8XT*ZOeBlfWehC8|^2Xsyo@(>~s0^M1N<Zj5r2i~d<
z{BdNN=@Voy;B*V4)Os3XQUFL#)P^|anLkqj63E;%OMP^6r(UCj)O|z&rW&yU()}LL
zdND$qsY;}6P?c0?ofi;9H|0_1;_@N0qQ4YM)>3Z47U;lGen2elpuDOfB$qH&L2s9+
zY=N@ERsk*CG`7@gy6$gIFGlwe$~Dj9X@13q_dDnw46jXhyw$x<nC^H98XB(#tBaZ#
zbT9i$I{`x)YTkvQ2`HT|7Vd(+nRj7!sn51t1xgV|OwFc;j=1|<3gj2Hkm_c31cRkH
zuGU7Tb+{4U!XnjIac~yx%o%o^5T#-s>W0&>{iOiDFXribLx*k95P3g%`pXMJQK@gc
zcs<xGSmq3BrGuen)PN3HbRWvud-_it!4Zh=0oaM28;C)aHJ~O+G0+QJCfZO9Fk|||
z=7sDf{5@+3hVg7R1I7N4ZbTeb8u2)1r#m(~bx<LO^A7XMQ48<_NbylZ;02E~6wH87
zlk@wXL_0Zr6qM)nebG4<x#Xh>9(+AFj&HoQ8A1B}W$_oLRoCKV(`)`Q?6qBRwf0Kw
zL^x5Ksa^$HjsswN#(R>kOl51fvOQhdo~c|qZojpl@oLYNo(acm1K9;D(hF8hHeNrQ
zdhAGQ!HUd+qvPH&``DBE_V`_sE!P{aAHLC=YCkaLJ2)Mvj32ngK8;fphsKAJ+sB43
zy*TcmLlxQ2iB;F#V?&v$ZDS7I+j;lo>g%P~ciyN<weO$u9l((S@q;rN8_l>FCDK9}
zC{b=w2X(2tnMRxxdL<edc7B#DJQB*(sScRwP-lQqY<*O%XG*XDl}Ojkbz2z6U|_mo
zlc+vB(p>O?nIj&|Z{+;I!%LBJ3pam@Z_K*&6y-~8d&8mx%%J2oD3XQ(5Ijgq^N28R
za`BdNI`L(_4X_L`pS+y?gfgIb7)fBP`A#i1Cn0iE&py*h@M$8_V#CyfsZB&pg$eF|
zAWyUyh3WGM!xTcuIYw+;6Zr&D+xL(M)YiH<+qyoDf1ai|HlskxwkMv#(V>Y|iLKMV
zD(zs5#wlM52y@K(%344)f8iJomLvm9a?MvZys=^8$d_SiS(Wmwnx2EbUkT@>CGXE!
zFg-t*Y#M6;>1wbzZDX<KtsTn*R;PTc$wiyfcUct~S`xc1b;Nh_9IL*v?u~U5tH1nE
zwsC#BaXo12@o!XQ8n<Q}ccvS6-q@9C+@A>?Ncj#h;sSr0i@rJ}Kd;h7-AKuHYQ0#`
z{>WD5oX2GHZMwU?h{@?W&Vzh;k#1E<%}OB7*oFV%LW%79SPJ~%!BbrrNO2LOkwCd~
zgs}!)MC*DE$Qx@aQQHBF>6jtm(ybYQs)nu1p{BsTa@w9K%m$AB`O+^jW4QVy9CvCv
zV^!}_G8#WZF+8M8(8hRFFw|J2q%Ylq$yE%tYg>>gF}2SIu>VbBlp;uoP;D?sD9fOD
zx!6JplLGKS6NcnK%Ov6+W>vrzw`O|s50o$g*h+Ua^w(S}dH#eR{39idMw{ra0m+Ol
z;9)$}7tJuvT;!c3G<+Lx+1$M(Ft!?Y((SL%Tr~cfn}}5uyRac)ePzpZ)%?+Y@uSma
z^DZwQUyKcMyE0{MqdPwcRF1_iZAe<bKu6V#ZGosvx^R?C%GZ(#v`kmmjUI^a9$Uq;
zJw4&XCd{}SdT5a^>rr>oeYN;n@ms#huIua6VAs<t*GzWA2ib14K(af2o_VN0abxhi
z=f8RWTQBe}n5NkRVJeBDJ6}gqP>2CS6=H^cIAT3m!&LQPUIzr6oe4N9Iq%YiQX#eS
zUbkQC%v#CdBiPx$2Y=LI*ZDIuCjBkFcN(}d%}aG9O1gPgC^<CXob3+Nh(CqQV7tbE
z*~Mc!6IB$?#LwbWh2Hnpg8|~)-XCggSVY+(14jIy=1uncAe}Qgu^5pP4M#f2Cn+T$
z426;&s)JyDAKK>fO|ZAw?d>3Ae??9;(*1`v+^NiuGQ$~R@KhA63T+UVMsk+>;eTTL
z;7+w%LL`3CJ^jB!1H%x@$RIT+-2wsTAlHcmn(>LDc7zU{@Tq(W<wWT#ke-G`4zY<v
ztrsWR3)FeEs)PX)Zr5E?o`qzJpqPm}3mNf6V}_BtAeEqjFvi@a8B#7P8Yxu^#arG5
z+A{espfU>Uha~RI{lKQlVvCE`4;+)ns3X=Q4>}@maa`NfZAUDWtiL_&Z=XP?EZ6pR
zciq+7v5H28l2Q7EVK!|OMmF3Dud^B6j+8a$#8K>BkuKCvTzJf``@vFirpysmEH8@6
zLnT!tB{M@oB$bXRmqjyNfTZdxhsFppeq~o}Y)mfIphg8;z=i(Ds?PB^L4DhT8XNIA
za<%tL?`wS%E3OPod6p4IzcBj3g%KQIJ9FkDnEuPW+4!4(&F05@mvtwBu$)cHgt@K?
zakSP>$@~s#qK2xnN6sS_0?11FEj*JTxFB@3e>i@Bi8^QnvY>;?Dzasb>9WRAcf4HZ
zytIX@{IwS|{*J7Fb=tpr5*uN*r##zPU&(oJEe#VTze1%Oc(Bb`cSk)}1a|_pcW?#N
z=G>tvpp+TMN<~5s&cRI>iXNd-jU1N7_+M2}sGJBK^fOUGl`;%x0aY_dxDr4j*C&N~
zL8Hd0`qv4q{)H)&tJY3#g+dAYeWEdWHV${Gj+E!fd(OWs{$BB)`EWavx43|JBrfmJ
z8RG>-B_Qriq0~7I>~wQt!V(#_y$o9epD^@e3Ny?Oh2k6s6Bb<+l}$JVPB2x}iyG%$
zcL|O~f?oLZ=viSE#jw*QTh-PrJiMN;{%NO&nbdMBgVwL^_>fR9;;=4Iw8kmf($+Pb
z@(H}mS<f5o<NxT{+!s1^JRI6G)XLW%8J2P0xNLJD1;31L!Ho*|$Aoxff_TZ2v?jN|
z;e1J3Hv2I~5cZ5cc%^FA%+x`Ht9rit9o-2XTV31zL&~E~vPk@^Q3IRkt^rBT)2|)l
zHiI&l#v%lssm{MkH5^BF@bi1pygvxcn_jzN^5m;~(t+mW(3EfGjiJ;NN5A>v9lNc(
zIPUon$B$Mq6Ny|mzloT+2SyK!4NbIX7jI54-aO@dDC^si_U*W_KI3~BrKpFRs$pK`
z@?s(J07|}0wKvF%xz3}iY#^Qes8!S1=ZfgDxKnj@%AB*G39-2gTCZM&8g$){DkP3g
zeiB}Y5Eu~?(h+enk#Qa0FuAG-fv(N<TElc;uQcWgEE0kQMsO4_jGnV<L@@s=2CIes
zB?mK1E~W@N<Z*Ft-z!ij)Ps}dh^v32^m{J$y*mCqau8wPbr$@xxm16CPW*PU5?nC-
z;uJdAKBPSX1F!pSkEkC^urIpVLBxXD(QvC5*CVmW;CQJN4j~fOro;3H<PZ>wF2ffo
zZmEO;@^VndEN_Q^D=^wRVW=*GxwVS@k}ttnhuy<P^lj4;jN`L~7FHm-QO_d2umY=)
ze3{1iws3&~JN2rEG3Gpj{l|Mk(MWiYYAGW2!_2y>>j@TEmZ9p5E5R{^?y;WIOhC+T
z#6-C6rq@QW%$Bs6AT=v5ZJ|(fTM}b)qEv+yLH;H=H+FURzynZf=?$ZhA>qZ#DU+)O
ze@fhgjzi%-BHXT2RtZCERUKQ#SUeHQRIQHh!x~C_FP1Clu;fddMt9wuQ!-Y5;ps%f
zE1#M!s~mfNyj7N`_HyrdZ?bw~ccyaX=w4%<+F-Ku%HHIWiH0|x8k>i_m1fvm&298*
zB0Ra`TK8n^`u2CuCe{()Ef~PIY86Qwo@g3Fw2qGWE|{-yJahSYd$zPWUD})}ZN)wY
zfNq+un1A`$__0gRj_$do-X`r6PmLYRRIG{bVYx0Z9bbB>Bl+Z4I^XEbG_OsUt&O|M
ztpz7UKR^0#d@q26Wz2yJ?PaS#tp}z&2l1*T5P$Ku-7=^2;=a*+V~3OLC!dP%%lIC;
zZFdwE<9%5ro$Z`lKQ=E@y5zPS4`*sNq){`?=5KIQP_qHlPru$%$mdx%n8{W@^z~lZ
zTYY|oRTsX7WMeCyZW-Iq4-x<oX@})9=U3>sOa)+ewS&M!HG0t^+?itFGfOJN`Q=0`
zj2IfwRk@=6!BY_>6a)Ty@Ef)ob{W<=!~xU-`?<PuhtR(txgh$NF3&FAlEy#JVz$=t
zRH7@nu7Hv47JQ}lkMB=}FFmSxD_Jw;i?ij+(&fu0UdWVhg42?>Y%KK3=IKB!Md4Os
z&nKR`>(=BY)Hq7sqpFcHQ9E3#MU&vSZMeJrm{l{ywXn${nc}oCUX&M$vp<V%PLH5a
z42!r(8D|omb{m-_x^bQ1U(z}R5n0}qw+<m)K!p3Gh>;DA!|~EeXaW-X$>g5aLm&(3
zDucclIh))Y@$^^PXq|#I^t=mB2G$--Pu{eCUR`6Mg;k5x#eig-8xm1C+0!b?OSWOS
z1t3RhUcvaO*A9?yTV)QGMFmzv$a~<3QiK%C|0LTeHsWa};3(E)H;_;z=0?0zRsl|x
zaa-||I}GUJ&Ae2?ToaV_l!r1FbQlmj+JKx~sM#>g(SOEAey)or`eKSBQ?`^Xrod(o
z*~6lnPPC3ao2gid_@>%Y=AKMhW45d{UDnE0Y;M&wCYrCdU1>}1OxLWOSc_!zV0`CT
zrBU)gXd(J#cd8XZRQIZqjkzFDAhp)CuXVyT<?Db~Lc%q+2`dCMg$#I#DrEi$HwA?Z
zptz8M=9RY<$FN4@kXf6#UdN}PntOq|eq+b_jg76}$f!qX=WNm}(LM8o$k3UtP=EhG
zEJ*AedmK)Ox<j!DPV-g<2D_gN0{w!0A=vovBoqsV2e9)3(1SSN8*VU5;RX{_BBzx|
z6vuvtVm$->!Q+vx5WPOF^qirRdiukWb3Ogt!JcSvus=F@`t*PjLl}D?q~)3>w+Qdm
zO&elm$TUN3qW2`IRAeTakxx!_vyEXRV?9v$P9JhZKrL#|F4~aBKTmVq9)D`=M4}r@
z@$87y+cxW*$1&~0X{qtEKQ5-lqBE+6Hsh_sc_-e5_p)Y`ICIy?Dr<-!DX|cZ87%NM
z&U(#EiM!kDnRN1r$SSx~C!H)mxdC;d2ysz)bluOSQ*4WTBy>(LoybMv|5ws!uUtBD
z$}A+A#C!OpU{*#po4hORG0B}Gwh>C^j3(S(Mv65#CMj)(9Ha6I%Q0+im?6iC3d%7t
zXM-Fo8ZN#EIhH_UH94lN1InlqwN^Y;zDfyUt@0am$0lk_h^c$340AM@5c^H!$rZDh
zo1G{6LNT=@FN&LGCzUSOLg%<#TR}8e3jN}Ls$8SV*CsmYNj(l~H+kCCU8#Gm9wFju
z79|#6U3O(zx@OJ92_&irqv_YD#y^!r0Q$w4f&Htb(-)>6kfaNp`x#0)Wg}3vfJ`GS
zW~$oVWE!xTPr4oj8Y`P9V_{eKhv+pW9eHwQzK}DxyS=fHoT02aH+D>(8t4f>Fj?d0
zHt)k)!T5@}X!1_~@9aYY-AcNNSnyaII2}RfT{>ofZ((zjLQz{_OxjNUv7YV?Q66$m
zC_TsXf+B<gG$fYhwTf~M5~AJ=0s`s;w!h37pL5BNoiM^(Au{D@!s2e+H&b;)PPKW&
zCkv{MU{3ezq#&D6@$QmY6m<IpS2fXHEKsecnf)Cqs;=*PP_3LJ6b_qr{O?AmN|t?v
zv5a>fN8E1ey^U(`6$(6-^)F8Q7bCLChHD$%+LUeIly2X2eP^b9+g(?HchV43(n+5&
zSoH1A3Qe`borpLgSplZZK>C3bG5BWx43J(c*od|cjunSgtdJtTj?^qjwlP0)(KRzj
zwvPJys9#9rUNfGa)`SNN8$hZ8S$qs0Iy(BRRp#hFKs`$mU7&xWD^s#iqW~>{d^9;c
z<yl>T3drO^_19c4LB#lxe=)~LI;`g|t{t=_5GC_8s+E7~wmEGAwGwcWNz+|i+N5Q3
zs^WCR|1uM}Or5hyjSIraBQ+#of4?3fz$^B+O4lvL#1F2Q@Q%iSt9v&!Te`ML$cCKh
zW8WbFwlw%%y4wTtHW(VnrNb1#h|q)?45MaT=|*PVG=5ma6;ADgge;#22#}>>o_gla
zXfaHK(P?ib9ifx))+Vj*dmEC^WSiHdo7YTsWtul$553<E(=_vcesj%NHodWF;)QI-
z)^x|#Ovm<2<Bm*VXUexza}`NCzf$x@(L{SDxHcQym=12dzUn<kD!4Hdd?Z!>NXCCC
z>pz_KAD;G=-qV`k0cs~Dr>N?N$(f9UxWtMe?$pT{WzBghK>UN|AtJmX;y7yk++}0~
zG%k#+es*l+QR*C~xj&4%JWL1^CWy#}dL=pI_$+lO8Dkma$g)%Bl8uO&c0a6xOxpzo
zDC$PGm;VJ>hcre#XEj)%#0ev471@jPE(!&rvkG!Vp!G@GybmF82pz&B&o?2XYHG=2
z04#cLBi@>{R6+JR>k!+RE!R;+$VS7ka~|+ZH102=;GYE#fEU32(ft<=#;wz(wTb7G
zo4&I3jjfZbZa9)#GmX2`^}ExhyXh#LiujyaH08$$uPJ%)o`_zJfBT`$<*ZbRp5?!R
zCU)V!xHxgjHW*r87Lj>a&>;BA@L@jYJa0$PAYqevEEJZ933?1)Vl)6+$iH-T0Xnc$
zgsL0e-nR0!TNPIj>>8T#Iur*txPfp4KS*O%ZXn@^LG$yR`!rNRnDrQ}@(Jp|AL988
z^k7^;OvKR^&JHda*n!ZUyQe%Y(+Hr3(94N+6U~$1vFc3eCgT8_+#!S}LHh&>vIBIF
z@%YrR)!?xtq$VQUXydiZ^2x)<LF_}KEAUYQ!P#hGoyZJPc!=19hZDL|8rMTNy;A3^
zv3tn<fO2#1C{_|VWO(r+?;=mRVSN{)_0^*e46g2<q@J7YKrRf`9{f>SC~2ldr~B*l
z-fi%<f0_pGe+ZyIz#W3x^oOI=e9{VW8CC*?jg<zI6ZsVyP0jzuAn2=Z2IeJ7U*DN@
zzxMD1g0w98$l@s4f>r9WItup!^F1QIgx)xpE?YjiB3-r`Z_4K<c8))cKnZ1a*|LS{
zvW3Z2nX=Z2R%|M?zSEjsyfIz2@%mFY4u9j>blHBulY7vTbPWQ~Og3K+WNIE7J$Sna
zAAyozGC$?1QOO>7Tn0SIdAbJrqp?tbOd5dTN$Lqo#!Y<SBZR4&8S~ohoUg4L;!foQ
zlr>izI@8^GdSIY$rFqgk8#}mr46#x^ZQg#S`!Onf*P$*#e}2(e(HHJeGeHV=tWZG)
z8vJPN`k6p6!Vz|z5Dt0@yoC?~%ACh>*F5l=K^}+UJBG7|3Va7OLmqO^lMomP0W~r3
zCE6}5TgR}<tgCDbG4h-IS6m<w#@7hbbFOGi=>cbR<)6axNg92o-TWr{hLZ^6cHWZ_
z1#WTdpm-%jaIC1Ju1HT`C-F&@`OP30#{I<7xfnXm1Al|ijBEifS+GRqD~oSIc#!xW
z^=QB7o4XTzQ{HxXbR<rsDw@^j-EZ1)<lpd=cgb|sf}}fDxhTGu;7`7}^X-b{W;&yH
zKBCa3Xd4U4EUU_vHl#}%lI@dcZ=6Y$He^Z<#a)K=u<1Ev7oQn@Cee~?pE!HnmGW)<
zvE9ZTE=npjnQ3CV#FiMIDJq`HCvRvMU;V;bFZT~~>+4><0s|QuvSiqey>E^%a}p(Y
z2x5)E5hIpsz|eH?1-kO#ndXB!j{JY^eG70L$C=&^h{s}gfyIl9<pKm24}y3S1SmcP
z@CA{g_z+1;q$nM29SmX@AVfUK*#%z$CEFF}0P`vaPPyXJOu}VJiI(Tf8LH%B=v*oD
zqEyUO<&qr^&kN%&F;kY4T&0r2lBoD{RTt;`|DKth1!f7-)+Lpy3|T#m*`Dryy8r%P
z{rBJYlv2kBKIVdSqRv4nY!FtEQhWnl^cFUfYb{;NPdS!ONZ~?J2JWI3&ZN3en2cS3
zmTH+jfGx#nJAWeY_w)1?5Ohwb1~#iebAUMgJ#C%<kL_36_l=F<=qW73h0g~46zygR
zi*No*L*cVniwm6(_J{r9G5(S5<$v+lzx?Gdg@Y9k7ZG~!(b&dr4<OJXt=Judu#ruE
zSSG|S92*a#jb4q(FXRqlIq-Z)cQs|T@n=*S$NZtO5M0JfxxY)vU!awRB2e3ly<wb~
z7&<=|3U&r`uPoB57M#MIA3EE2Ud$i)j6Sm%6e`f$e-_J=!Qs$Cu9$)gC43T|cvS<>
z(r0TBO{CP3)YQ{C)(-%6Xc2{Y?(NzuC3YTF@ZbL8q;vXI<jdeV+a7spqO~()lg`f}
zllW$Q*sdEXjvR?eH;=`R%t?2T-Rn;5dqdgx2IfqO<52;4-PCVJ&c$kOjw%JM$($@~
z2+Uow+p0S7CjT#iHxy;cz0>_*i@CRsD4vZ=1$k8tu&Sjpo6CclyggC3RjI?_vfH2p
zCraCu()Rfx&-~hTa3-7gR?k;=%$L_L7TC%*Ke6S}8QFOSg-a#2qO~ISxz<qeS_BaS
zJDsm+Lp4ioJ2}MKHMc2pA0lk9-pSib<3Pzr)JcXCOgnjXK8T#QlUH}DNs?2I;Dhw)
zf&&J$r}9A(EN|F?w$oC;b~-D#Cf}z2gFnf0a6~Lx>KxIID)oza22(0Ja|j%fd^XZK
z)vv<ceibg7vnm&bo(7IcVxu)jMED94{Q?q#w`o+04P<usb!Os@2A$J8Bo)*R)QH1e
zP@MzDIwLfNJb5kZvoc>9;n7gaK9Nsrf#d-LJUR*QGZrD4FAfsw5XV?3l!M`Mc@$y0
z0z>`55cnxm2cqgCD8_jz%KUaCJ>$hd&1;jF0Mn^~Y}71McQV6W$kQsfqyXv6*T52;
z`Tl3Z?LR@wAOPN9kNKYcsPv;?)b-HWHt+RE8{_3IlLxWQsKTG{H7mYmnvj@>n2l@K
z&wHxpE2=ShD_SslD;!g9M9IoqEHhjqi6Nh!I(_{sk?qkVv*mLQ_ZsgXin~rRTZUJ>
z3sgvVRmpqk+DwtcwomVgyJ{bmuA4l{6EKZq8}r~jd}~G}33!*{*a+EYpU4qj-MBL+
zW<x9av8?$n>Y*!BNLdP?LYM`wDTGr2uhwuH*kU$JUiE9_TZHmF6ZD7rM#x{p-#0w$
z@4F0?u|_PX#+)b)DCGJB0A-=9H$`oFbrP@pM-c&&FA>s=Q<4d<to)+}@oI{Tq;N=Y
zq8PI=bRLC(L}j*uqJ(R`;#!|92AyRx%*38ZJ_vu=yld?vH++1tSLaOx1V8=2y^(@-
zHi=-JIP}VwaJMV&c8y1vQN~-h=(ZJs-ltRX946wzwd{a3EvFJPB|j&8r<E6WhJ<=l
zT!Mp9=aH6xA5}gs-e??mf!yNj!aK6mFmWO$s5@0gQPW2+c09X=v%0|}wN;sF-ruib
z4FI;;h^{j&e~e6;AIfSpoWco7Y5K`(6r8jmDNS=)jea9oG2Wo~3uc%JZd@#VYBOTM
zkT}^YW2My?bQu~D28=GDy<{&ZvhQFRFhiCRRi>v`=qF9ZXHq(f2UhQ|RPmW;8k;uv
z@lfa#vzd_n8-Pe0VLI^lOe)IsZ&>Ij)9(o7B#k~!zY8yT{h$y~yXgawSE8q4Z_Qqe
zyLKDO$6DI%jcF5kC3ax$t@{IT4KJ#EVoTfAlSbwY6giXq6f%b|Fq63qVKt0Z8IVEC
zEi^g_{0flr8eDD=57aS{$LEwgGSq2UnkF32PD)epmM8L!x3cxtGZEm_s_ul{cq_;B
z78I>>`+*VFtHPSc<(w&tS-?PH1Vu5>osisWDPC_A>>zu>IUvEg*HD5G$JE+NhUtXT
zE^@lX78r~eUDpaw+9~qp6e=V2Jn%bZ!DELID<Q_x5Nhfz>)(x$BQ+82S(h>dB;Ah4
zI|eMEpa3scePx2f`u8+AGSsmW3Tn-2!2n~yY}zqlXZ6>ilN&^ZEwmH??RZW^c-dvb
zQ9F%8hEgjbqjoIZry=Azb;Ud*EZUeukX;2PV>GBW+ON6n3P^w-P}5}@e>XoMO*l=p
z=n->WrZv{Ts=6eP!NnE3D9*rDc5DDr4Af`8uDt$L_440^2$L#MBnq6Nc;+17{OUo$
zVA(JCQlA_U3ck?8{k#1g{=U%wnlTh)Jkx$8Z{DGi^TWXr*ahHeJAluFr>$YOl85j>
zCiWp@>L23M;TMqloh5Dl{R8}jpyvm06N^TDlq0^hT(|ECEabuyI0)CgJ5+{PkX%Q(
z5G8X+(qjHTl`SnexFguyw%|fv8DA-nP`xa{@mKsW)VtthlYp=ftP=6p@M_RFn=Z$_
zNUV)|0CJqmwsTLS`&9-1?K`kmeR29yG&g3SZ6G&vY=MeOAG|&3nD5yB{fbX2{t1p`
z+cfE#J{Rqtx0g;|#5s|ZPKxb7JF;u8UyC{)P<+dy@wTHXQg;hWdDV)$Ix4B|+UW2D
zcW2!GM*M|0RHW|CWk0|3z`Z$c-yiSXuOfAChULyxGTrm7E;zb3-)xS)cB?Jc@W8kE
z&r3GU7oElmcPY#PSuh7UY`!*@KzW<&^;cN}EuAm$P9B360*iysF<H1+Wb@P{)^;ds
zVW23{%>_+DQ-O}+>4c8raZEZO+m_cRJdKK{F;)!I$2O(4=U#{Ec^Th|8axe(rva@c
zT$PHeGV+@0s*biKYCDzM&e;yNcB|srI(uQRCDC<Q={kJBL+v^WNXs3QPJ9k5D~=gQ
zq$9%NF=EBHMq<J5y>s`Sx#I7RC{^8aZ~XA|r>E~rKX_X$I)asAgdiNA8Ky5Qtstdp
zE%d6Ys1K){FFI}Ibx&-$TyG)6E5PzZoC$BE;sxlcw<UH}@xD0Mo#;NIbRW6jqjn!l
z!BSp(V{B$DRx>@OdRo&zEwW8<)kJsBRwO!ll#U*RK<?OYeo@3jjP=AWsGg35XNTgU
zU}`;c@2Z|7sHw;oK|KD(xV@2O=wtA$0I~@W4Pl#u)B-u35~5N<(k6qW{4QZUC5?om
zq|2}X|2WHK>}Eo4v69{Rx^kMdMG53YCG@Hg*PmlS;yK0j&J5!EUjo`RaeX!6`-@tH
zSWRRn1yz__G7Iel3mHfZiRZb6cKI9V`wTMrB>l8PMz<is&myCD?$>4XD}*H1(d`y8
z`ZFveq)F<UCF41S^=+~3&nK+g!AmmQB=9L;sIZPHCWLi}p8sE5w-Dvh#q|l-01j?2
z3G5_-Tj{JqU@urEuotc_utW4BvWM&cuE?H2q&N0In4q-u(D^?j(q|C)S3>!$BEQoR
z`P~!l3?je#nM8i;QijNn+AXjxuo7~D!%`*C6#`2rQ_6sKJI@WrYKp=&g45yvs6e{1
zkg1ddDuv5XDclo<6K>vHV^%5T_rM?I_bK@r5}^)s2EHJ5K>j*aOoBh1!iGa^@Taw$
zFQ225e~S{9>xpeGm+Om6&LmHj>*a6K+kcx9lH(T&Ov~!MSJMByEYuVd@a5k^;SdQ!
z?2BSbOl~P@l0EpLF4<2KL;Po`;Mpbnmk$1@<&RrFYg6odShC+W+xGv2Z10O4jk}t^
zF!BCgpXxc7E(JeDz@K*&q-y}_e?7_1VZq#`3H&Iog{^{;6cK?oYi?ar+^s3`KPCG^
z(k_PEFxFHM75us7|8z*AU5blTBh$B}|D}UkXe;o3`}oxHNRR5O`e{M&)JdH58@Z?y
zLDi~6Hc{kPiV%K7EvifZ3l$U={=#J|ET8&~=?l;Tdl!ps`DN)!R8Q=h>e;1ruclZT
z&n(mhVwB5u1}k;pTQs{UxkQNHjJKYmE*zE&eSxw<VW5{6@>v7Vd}snKBv>!r=G&fc
z`SvBUd5BXK;0I@1fL@sVH-SR2h=^s}<riD9@&}DbVUo$QB4x7#dp9hVsTy=)M`tbi
zJ=4i_Df^s+a}@{aJjJKfN;WlEg)N<ww1qWiK-vj#CJ>7Y<t!|P69$81Td9>5&%viW
zV8G~tjWqk~UqbZyW7cPSVJR;g);{zyL5H)S*z$K3Z|dI;4JX@*0mF61{HDw5O@uPa
z{(9C#&exn_!_F2kPG^9vIvZb+0~m8dSrhqR+aER<=sQ*?Bo^o}$(4a@Q(0Q?Sa#t{
z^2}dx6?Wol`G7}zZgpCgKKfWdcUhhG1)HCSZ-6>~l@eG^U!??=byg_>f71yUdxGXO
z?i6A<se0Lm;!g+*=)Gmzc=3!!luv`ia#3y{?Ot%`jM8uz8W@w=lo$#J&y$r>m>X%5
z`_Ej#zJ7UxPSm2!`j?HDsS+|Ziq(Aj?NV@P@NC%M?7z&1aQR#O<UO>>VZ8GC_~<AV
z96{_veis4K{C#rJ-!D9u0{*d!98n<X|LVT4`f+Mva5O}*0{|b&3*)I#8{njsUjJ7c
zkG1;uwfb9{zG`ag*jPB&g*PttQX`0EfP5H7HIDaF2!de$5LX<OaZEtS9~ehugE4>T
zf*fYJIOY=?Hrk?(J>MsXhx*5H3heL||E06RQFf(DnRc;C4clr6?fCn&9z<w^5V~&I
z1Xqtd80t!^w?BN@-`F=E9%E}||CRG$eD#>TNq6joMKT<`9B%4DH*pS)5A~l-tApSR
zAxaOL2bfqc4+rsCp>Y_E`$GD_&}h+!aChor5MB$O-;`FFuu(UL$MHFY4XC&O>?Q$K
z$d94umvtbU(m#d3ARzmOc$^zAw`y&-a>Gr+R?UuGA@jJk(s;LW*CUe#3{{C9C6AGG
zDB(S(wQ>e-ujrj2K&n4O$DfqPgROo!1In#vWBhyoQ7JTQIyumdjFFjqe8fM{*N+}x
z;JAy)x{hB1<HNyC{sUs>tf&qEz<CXLJAyjLak}rIh7xcx4iANZNTE&sL+KD7Ky1fg
z>x!!MPe{GVa|W?A0t^&@m4j#r(@2Zh5yX@o4W@UOR!c9>y+-qpE+0|TAkna-!K2qg
zbLv;F1m~jq8wZBR`Ut1VFL7vK2#AZvL&KQt{9!cXIrh{LB3_y%EV^Es(`j%SgJsk!
zp6G+eb>dwfWf}~<Q_ZBvG)rG+7o|{_ztJFSIu%5(iwPpgTNBL?#%MD_r~00axF_ZI
zEJ$B9;2c-?9vu&b@kL`7;cTqKA%=y?sX$n!T7t-!aGEg$=h%`<lzf_!21@EF;jjwi
zpe%ydHKW0WHKAZwCd-W2(D%D&U#8&Dd~|Ip-h#dW^A<`j<ccqr&r$_0eZZ-o7M%KD
z7=F2#>iKU-7VLWOliL;3+l3-R))1Y0D=2tq!F@&^!-kc<P`Fn(c2c;p1v_fuXqI$9
zBlU3RWtsqhyK1;h8^WP(-<&6@_V)k|)VY%qdrj3T_PXd-X1nj@#p@3~v>!sC|4RQy
zInln4gLi@-4t`juRv;#>ci!$z*eew~)+Zj?tFiJ>xgH^NrH^y&<b0TSvu)BnzrO1B
zn>X1rXVM*!aL^*TTb0e1meGl~abL4q+JduI%Dp$nXU5~}+vc*T$JO#(@MdsV#N8WX
zN8+vfpa|S>&$y$`SZMaGyYDIf-S@or4=Oz;75~YHMQ=cH(6oli+0xm|pHwL|d+)t)
zzwwXvC^fJDY0-&CR8w8_-T20?Klk|O%TCb}LkU)Nic0`+nV*`kojmv-ou$*4rr-Y@
z%S`W2y&t*!(A_xiTmMnc$BsLW*pAu$ySr6vh4gjJ<UOjWi}v5#o$zf@d|OoCR=AoW
z)Sif?e_VC9;>f>}b$s$JHe+<+%-!Ph8&xw^QMX#WnYP`Oa@2iM5^t84O$TNgBZG(x
znC3+u%bm@g%e&`|b2L9}w~FLWy&o-8=rrODtW~7>YNTA!blDz*zWn-1Hl#RgN4S=K
zEhptJos#O!-UsiH_s6p9yFe1Umfz`&CreKP!|TJ4?=56<U2bF<jm~1SXjzl*^ECP1
zdc&TvnhzfnyQR!+tUI8Dv`Ps&lgUayFf=1Juv(Qc!kR(v$&vrNNp`3B&AIz+-*)zA
z4chv%-iB1q8jT^hi~glFB`wcn{r1{yl)mQFSJhc}u`ueT-0z_i6j+`BY`CU!2}|g$
z&P<<hrS?keqmLRg_(A9;R_S5#A3*5T<yR`$8+;Y4TPQSI`1QV^5GSUS=l!y4!qAi~
ze>GYsy_Q{f*POukNIXWD;K1A0he_xl`HL<?S9t2?0+Ya}OPeOHdcu%>Sc2&b;Y1U#
zQ%K%$@-%dSJ_rGWCgFdd0RssIx*CvTyPEjFY15{rO@0#lTZO0&X=?fA2cstX2*Jg}
zGF%hVG!o`VBsN2m1sfX;Ly#UC!KMhrI>Yt}7KT$g%@-lhr$lB0K+)-bO_fTC(bTIN
zlNBGU3D_%MG!-=bXbl$JcLtI@Zwz6bLpYtJWEN`N^n<_AEbt3CmUTnTS;Y{53`NW|
z=DH-62B0{Md0D;GqUDa2%Vvqx)P~+ibQeMkpY8mt)e;V9(%slV8hBhGZJQBtUE{u{
z^u8e_>baU?tt-_{=K5GZOk;wOi&hIDFE^l&Id;6<hzD0&b(JwC9qDS`%GmL5!$_sY
zj*q;CSix_6O*j`c70L$yfl0jFK!37i$ued={rPiB>L>w`(0qXY5#?wDJ_n7^g-UWv
zkpDiwlYf_zo0PEZ_#MjKLZbQUh_P76XUwA>li7(!3M@FG3G`~g=e6Hi9<_7PP&klT
zY8*uCDL?I%{nAdo@DGI8xXFevwXM4p{I@sJ8P$=zs8<sjKkBD=^4&^vx7x5%_3u(E
zc4rhFogcgJxK)3L;_D#cu~D4Q9lM~c$KNbJLShmwCD8$#l*zVUaxjTEY*Rhk+4}{j
zfghha9<P5vE!#SozoNW$SooXj+O|o@Pn@Nn`}{vCs*S(&`j6{R%)Mp=&FK5n4Lcsx
zpMbDfQOMi=*45v3-*m?tcc|VMClAegYZBfj#oH8XSG`^Q_w9n41<}Ee&)qpU+dbQ=
zHtbQodnXT}eQy<qt8P)tHzmqDmGaK`mVIjZeh9hc)#3p0m|HF1L4S+D){Sa;OQO78
zDQ}<6`@ZuN=iHa)UR5_AQp*ox4@9obS5Ie}$MV&6or!hZly%!?FRSbJP9DZj#TD2}
zwJz@761Q*ppO33;8%|2Ref+Z$?}08yQ|_^22L_X8e>VAtfBE_D!SCFp>(f2fk^Fy$
zaEy{4lX^gElW=l(**w1aGB382BmT#HaoK!P+2ge*r5q9QcQK2yi^Ey$I<qt91<iE^
zIbjK>8W+mW42|~5S9<&9u~4WNwgLpnywZ;*jEklQUBB8!e<NhZOWe*rYUX9F6^Ovb
z1&f|Ah#RplGy&HrflS)If9vR2aMc|&gijcJ*T{6(Db>F0N*TPdU(qmiTM4`qaH7QV
z7ceZRYPJ-yDMp0`wUxmeuAhd%nD;k9^r!v6By7_fJDW#y=r1z&vLJ6EQt2YP(?+IH
z%}uig&C=<;+NMJ|PHygyKR_)AjKOL)JI?<rJP`XAZ&Gd+FUhwlM_R1rt+S8~yCS?D
z!-&os3@^As=Z4PrLS!M!>Ovkxe!*Txkr@pRQY;vt&Beaq@n9%}D^IOK&sSi8uJ&Fa
z`gIGCAczL}&a=*o2(~STb51NfHV}R9p?%v=obZh+zp-OxN2KQi3So;4hy`WeK00+Y
z@<OyU8ouL;`&w03Tf)_$xH{$naaV`x+Lv%0R$PbgU%*kHs_V7n8e9Il$-L=uqDbo_
zm*CzP+cN99yK`>4()^O**#}xyTq(8|tHpJ3cYWMmzf#XLP*&TNZoOF;T}ygiO2@O@
z9E?rG0s%}YW*{XxM!U?XURyb<1hOqq3|pNhIEDjT(c$;SC<b)Sq$|Rj{}kQOKyeG?
zOvQW`$jNvq{~r24EbeJ2$*h?-(lR2>7>G!xx5#|d0f%TZ$8q?5s^lLdS;&LoTVNq&
zfQ9nEM)$15zCk>_TK5#})5VJS3H^QxrGb9szC?MWQr<Y_n#`UY_}o=$g<3ll*N%H9
z<1U=Vaya37O>w;zKlNtZ1<%m8%(zwTjckc}Zthfy8e^}_4k)cV757fqBw%;AGIb^5
zxm|s;T3y$SBjOY8&5C>TY=!FH6}RtVR6BN8vflC(qmH0tjKDT|OgeKmFo|ExLT=H=
zWIs1&w?_7n6J(!WU4SKfCE4#KVY(M{d?+0H0$D(P<{@|!4I-!xwP(o;BESc%j#|cy
z(+MFRZDQqsqyKL0Sfu}I>>x2B)?h8q`lwkmTe0@51Tjy|Uyb=>Th3FXE-)XbHo0xq
zq1*%5UbT$*Sj;^0%(v3@K{*VI3o{=&4IJy4%zSXTFEgK9gZbo5<XO21>Al9xC-2zR
zu0x~!V=|^8eDZlu0Ig+dOEaq=m>>uy0>QMwA>vqWM3+1><Fd1Z&O#0&E|UoP4+zJd
zT5!)^Xn6AXXx7Y9@(B`)b07jlEmFG23SN~$Rh?^Hr}_6Mf^5KXdt_$h18k;$r2AgL
zts>g+am$^S58EEN+7}Ub;-K`%`O1?V%FMgkGjY1yS!aCX&WHA0%<9B3*&S->hPZ1(
zir00=*2K;s(s$g~rMkL*T2M4~B64!_gj!Jh(}L2eQxR$M)b+QMc{-nS{5pJ&W+n-N
zPriX9qdO~lmG~URX(U{-nvs}^7J`_LQwCo_w=TcTe1!v^Vn+uv5mwYv3`2|m$l4n5
z3i$^#*z^H@Tqb|2wr8P9hL_cC8tE?70tQi4lc;J}@ZVkm?Fzo{6_Ej@2#1w6Dek6N
z!}r?nwyV&u+&dHQ9>v{ruLVK+;`U>LrptdwKv_Aq(2-X%B~#Q^GuqM|TZ#>;j@)7c
zQ}wKz<Ehgfk87tp(#u%f=%WzyAmX7fl7t)4`Cjk&(wC0E{wmdO9!lsX0!4NMh}8%-
z&;Vq8`K6<QB|)~_l%~JIdsEHOXjP|a3kYaMHOt-%`&dB=1JD)*4GA9P8zge{5V^@~
zM3RLlkmDReaD!AL{)zb+Vy9zkAD-mur7RhMNl@dBm2^Ib72?B38TF;Zl?|OH$5I0^
zNIckzA;P_5#CS>dIUod-1YwF{S+WfioK_4WK${q~(KKQ<;Pepgu{@2fu*(PQG%(Uy
zd6w!U$!sP6*wqe}3B<ZE>mlqT5fUcA5#B{cR#buOe!_K*f2FNbro>I+E<z1*${X?V
zg1Mv=A{IQKt`%wV+y98BCrh6>eZ%L^_A!T%NhV!zlfuNye&k*P-O0@c9gQ!-|6)1s
zaRL$|N7^N*60;veSx!weo!NX$WZ^Kr2P=cQHbhat@qpJ~jU2dr<mQoEM<2MFh{5c6
z<lIgCWzW2;=@FLCu1#IL{yqfGbe+msG`$bU4pE$iX2sPUJ21O{uKr$5yyd_{*DLc?
zwNu9*Rn<iUH-}?=vm5RX&Gp>N{`8>I_Oep-^5k*+9_@?O-#H5sh`(GFQTJ@e?EA`=
z1B(BZMD+=!`ow&tAN!g8CnaoX_7^5;!`9?+0vhoHs6nj4MXF=%b6ev@J=hUlP?)sa
zT;63`9f}LBZcl9AY&$k&#eFY9kz1A1xeQKMH=BF6b#9~5)T4NMo=u}8M!}rUgO1L~
z=}<~vxx>_#n5=aC&GWrqzXj6wU}(_D8Iz|Hp#?(1)N+<Y$XGjsR)^C<N#9LH<CFh6
zW`VxfC&hU`qZ#urDft(aJViw_!fTqaURTY2L}>rp7#48eu3d?)BMSc8w}bP#qt&w;
z9%;B-Ru>&m%32ep9ZG4(Y{U24KWSGx_o=1(6Qzfg(nI%K)Y4OkGV-XXI@$njEa7fb
z+-<Re?~UCZQ#b8V-Fs=0xTdA)muK=LJu?Ng&yk<F6?=6`V}pKXEcqVG%**f52UGG7
z33`);w%*|7$Sv+>UXEkAG!4x-po?BzDEOPQ$Qcn1SGUF86Vu?S>en-H^Q^-eqp9eW
zAJb?*It^x!QCQn37Oa)1m<lnOF&+ghYAKEe9&Q~!$WXsDCC!?f8l?~oD96eq!cl3_
zM|4>(P#ZN^@mBrY*$ji_=jE6FyA{W@?)B7Wb)6?;!XhdS(KXh$PO>cqdm)$`*3;vI
zgsf~HWWLDUkS&9J?)lGXs@G9DK3G>X$QZU5!3I<Hux<sUx2@!DmAb@jMmwFm{g@`o
zr+AOK8$38*AG!W+WZ?F>o9Awg@E+q9>@EfqDf5!;?}M(W^gFw!`l1&m*Wh5u8?7^~
zkr3i-PUf*z#c|s6W<BwZJ099!OlN<rRrzjo&vZvFe6Tz2szIgYRX5JfoQnmf&#9g*
z+V)nD>e-v{ysUU|D&;F+A8sFcqo{7b2tyVf;N^vy4@Xt^*0_D^Q_O==d{;(hg5GDf
z$ucNHD#SY*Ijm${%Twl3wrw2`tYpwMrAh^m*vrXE)e#zWHpMZTuqiIbv<rq&hJ~Sg
zHvf{m6C&Vv)J<B}ddo4_Y5RYnLGQt9pzXf(315riYeB%MylD@%KHoSpb0nIpmTkm2
zi8vbZy{Y#EHpFUfp~u@2?oP$sISV~&Pu#v|HRb9);W#A^sY#P^<<8lrnaq$|tYw0{
zCTFj%Tv1jS&FJN(Q*tf!%$JcY<PVIG!lQC*I3(5%*_uiI3ky#80E~={ZW<2{4RbI7
z*^b9@871TjE>}@PK*+6>9HoQ~@smd>8K-1|l5bM-ElQ>-A^W)eAtf<NKB44~DEW+%
ze@DqYCI5kv|4PaKpu|QX=TPFHq=*t9CEF?4OUWTh;BID<`zRTrBt*$oO5UU7o0R+=
zO1?wMZAxO4`~fBZl#)*=`5`5rQSu{7{tYD$C`nNAh?4(A$zM|<(XixFQbb8PC6$!a
zQqoEZp9V%pweYzY9J-!ES#um)4&ukrpTstD+S<YEWNaQ~ZJOCI5B;)@=QyWac)#wJ
z|1DkvIJVFocy2AOktFF!kxg>{na%m{ZIwT>75<sc^>bS*cIT`ukK2kL=enhu$Mv~V
z(c_X_srYe8iB$fJW}oz$l(bR0)U{r!jC-1vY`FhoujH22CvB9}+p<chx2RJ2QdXW+
z9WU}D`hY}7qGfp(=}EGT3UsSd^-@;8)DibKKC$6W1^kQjB<ZCBFRIe|r7VZk6!$bd
zvEfbysut-<(nkfhsgjRsXo#00U;yq^pn_^>5H)O9r3!+fE?!noFw{|jN`j$Iz_3-7
z)=?8(@se6<qKgXnsEIDogs353YT+7i*J?mcG@--Ls=?4|z|d;`ihS)WaHj(J3gn)#
zzz$WaT*@ku>JdEli4AwEVf`XKNj9hY!6TJ147h7BAeZc<0=reImOk^81n)=s&Qmn+
zv+C$WPf6lSMJxHzTM{=z8Lb`4nn5i@htr7QP9^Xy$R%r2ka(p{3<>TUB*-PVQ2{Zg
z)sl~Ez+I~Wxg^f3K?xl#8a1?Nq!Nr4jRJ^Ws#LR-<;2$#5V%u;S}X<NYb&V+F{pV`
z4G${rQ~-mDoEUX6W)5isLy0>T0Nx-c`a(eI2U<`QxKjaqCvr&~u#r_7FWsO@4NF;d
zD6+ooi4AuuvT>1~BwytZ(OcOsY0d2C4&`?CYn|SuN>xi)K0s2w@d+jsLsGp+Pm*1!
zZy`_xf^q>yPz_Xppk5Rp6vv(50E#0gdR+8|TXJv>xKjbtfSj19qClZm0C%kba$-;g
zkW_%CnN|Qm8U<FZLEu(1Y9I{8otgj!BbUT^1;&_FOSKFo?ivutX?P)UxJ0UAC~&6|
zz+mLWEZC_^{-vw}>4X$t*Yw0j87fk<$j_4gR5MN>Fm)&HS~JKA+z}&REFBfIfHG7B
zV^7&+BUPf$ly+^Rv{MOuO}^AFFjOD;PHo^jsQ{0Ar@$}KVGe1dHmVynF!01&fG8Wm
zsZllznnBsb$2z2L{#M+n27D@V={4+?v?`d@)4=CTd$s8-z{r;l=w%M@$8wniX=NNB
zJ^}%m_@D%ym>Y6{LW%-RA-O;c7l@ZOsM5xztgRTi>h>o#+zHmkMS7AvZyNolV7chg
zJV{Vl+_fG>&OD{-r6XdpQAR65+2k=(GnLYI1{HTI0#K1l?lzBXw>Glet30yZVq|r8
z@RFqQ13r0*=3Bn>lGbAa)*5ZP;I09JT=Jj^ju$YxH0yEK;6N@pYAVs9AqehT3FMO4
z5MWH0R;>i?S_$NmzsV(Z_6b-8{}iwSl^p~tb5K!+rnVsH3@a0KZSD(VTPS%L&v2(^
zKx~l{#6jSYTdLqb#a)8~IYC|ortU%$#O86Q0>D({l6$l0Q$&e9S_#~>638X@a|toy
zj!0mlL_jD*WiT?7O~M>&Ov^9pg(#yHqHJ=43kmM>MwavfgF_iA1pY$V<oRsW6fbR3
zrRJq9kF+~p)A7WHJC$i!q$kW!<E8lQZA&1s$EA2nH_=^QrpVe(g!i~4D6i<d77R1d
jBiyML^c`~AAnsA6x}~ggOvpHek);fksZa7VmdF1$O1Tes

diff --git a/crypten/common/__pycache__/__init__.cpython-312.pyc b/crypten/common/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 0fd1671c7f87b0574b05f249ab7d3e47bf073026..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 202
zcmX@j%ge<81Z#x;WpOhyFgylvV1NnA_{;-jOlL@ENMTsS7{yS@sL7<sdW$oyG%vX%
zGe58R7IRTv`YoQ4)V$*SqWF@^g4E($ETtuxIk(t~Q;RYabNn<JZ?VV6C+6hD$FF4g
z3^MkYs(wjsfqsR4k)erxa#3XgP`7?^er|4lo_>6MW?p7Ve7s&k<u4AK-29Z%oK(9a
fZlErp3mJ-efy4)9Mn=X@0u0=ajE(F?oInu(AObhZ

diff --git a/crypten/common/__pycache__/rng.cpython-312.pyc b/crypten/common/__pycache__/rng.cpython-312.pyc
deleted file mode 100644
index 3e92f793f972ecfbd49b1929fe11ce54c7ea8926..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 2274
zcmcImOK2NM7@pa;9@fKJzZFnv<3={N>^>+hNl2RzQXGs++KVqn(XQo{S1WaP-PG!u
zn$m-PX>AC|haMU*Bq2Tcm_nfKt<Z}U8!Wae6xu_5lW|Wul+Nt#NRDIDT>8V#{NsQA
zZ)X0-C;!sb6$Dtm>;9*(AOi3QSx{ko<!AycRiFR`>R{HJ;Vi^!MrVrbEDM3cE9{qW
zmQw_U!!y4O)8YYfpH4$3a`~ex?_Mt%`43gYETJ6h<C00hUkHCkw;?&hW>!D5*#g#2
ziUO^+Ux7Pm1^6xxe6I)oy;nG!TkUyKF9X`#3TNRMcw%#wM0JXY{sYbC=pB4CH?{<&
z5T;n2Sz!n8!sf`h!W_G2q_c-=HdMF@epd)!jjv!_Z*7Bl)@Cf4DNu+}kIt+J-!L}2
z4Zngbyv-N7I~J;;kkvzVo2PHM0c`#TNQ;$=*Hpc%qSXA7k+Zatk+MpuylSW@YpJPh
z3S|wYR7@F5#hYXk!g@AkYI#FdQb;rMj-aTYXgSqkbLAz6*Gsvqen4(~KoWMJaRNSA
z2|2uCEtl1F$YJxU<?t4+mIcJ)ZB9@#HN&*B1_3fH<cK-6T((rh3AWu$M<kcg49nqk
zTyKu3nRB@%C5uSuqy>jFwTkKl$gSpxib&}>!s4wg%A4LfVS+HH>S|FnER&RH%9SUn
zj8!aWKFy%XH!}XwnOvz@EEySO<j2d)PLc*?&I`$$dyWr<hA<SV0`n(4tb*UgSWWD2
z#QUm)n}b`|w$;1(9ewA`-Ql-)<L|5qjdSDoBDZ_0$<5@Jx)*=t;ng*vnSOoe>Z8kh
z=}W$0elLFZ$9Zg!hxX;+x;*^tt-74q5$f_=Yk@x#{nZPb7aGCD#>ea9HEEy`=-&8X
z{mj;6T}n2ja7z?rp(TMtvKdKyU05$1hR7enAQV6B!rJQfRt!k;zBu$)9BM|-Z0Wnv
z(V8^c2=&#tz9akyaC#>Pac*%Z!__gX-N%J?g%UqcEUJLh`k7W?fu!JstU%laaPb@f
zC}IVu5%&UA7@N_cSM9idJvJdpJ|PNw>~5#^X1kMV@B3`hdC_yd{Qi&9V=<ewJCh<}
zHhC`EGi=iC+=5JTJF~(+#U>r(-p(GXVU`wcSi$_}^9MDYnh8aEia+|>o7)QJ4^rK(
zJi{M>%H#|2$Ku#c&GK2~;1b4io6~JdL}~yLYDT1v5FutnxHTO?ge)Ci(~S8NB4Kej
z3}d?8hPuc;!XAhu0+9@$I2lMJQGyJF_k4ChBvMWQyX&fvw-&tf$#Xqs2)WFF83+G{
z9U}%bNZf|ny}yV7C;@nz(aU(pOZYSY!UJvnraVxc+ML?v?*{J#cjeK2d7>^)tOXik
zY~#HzK5s@x?_H@!XCA&^i_ZMqi?y0GgKhsWX*9e0s$-jD4JoiTxu&h3-;!G_lMou|
z*B+hyVdVRfLw9v;+MQRYS^|&~`{LkZagZ>?;%;=LCXF;gy)~{ECGlg^j85WDC5HbW
zV5X<jf|mw2cVVAQ$J<2hC65H{K5$Xo5I>R57fZ^Lu3kjL*hC84B%yDy5W=GffYDz;
T_&4zCk<bnM{~n3KKG*kO9HG+0

diff --git a/crypten/common/__pycache__/serial.cpython-312.pyc b/crypten/common/__pycache__/serial.cpython-312.pyc
deleted file mode 100644
index 24325c7661db5d62e2f264b7eade50d14bf17888..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6791
zcma(WTWlN0arf@{CPnIHS+eZVqAi=UO<A^}#C7UalI_H{EG1@~2b17%;+-VQ6i?YZ
z$rejDYGAZV6Cg73VFpQ1wKZA=$wvYdP5+ww^rt^$q*Tg99|4k&=1-9fG;o2UvwL@Z
zShAZ1IJ>tqJ3Bi&J2SidM<C!uP(G~t@A!)i2z^68?BcK*n}3AHEhHlur%}SJaRRe%
zF2S*yPw=c35(29o2?wj438&26Kna%|kog-p;pWieNEU7&*`YYb>+Gq@^#{D!PIzS}
zjPuDZfPUExFd%yX)-VoU;Nbg!vuJ~|A26XA9Ig3|b`2)6iD8hggL2(G1>hFaOE}${
z3!!m=QC5K*`oN;J>o|HJ4@P;TR@9^sMNBKBQgTL2tCDPRDb;ZG&FG4DZYYWkJgm{N
z;k%JeePXinS|{o1?o5)INnOcwCe?`vHPfjnBqgO|lQTx6#Sa*XBSf7LhbbdMcZO<6
zYXmTh)_kq+Uixj~?ZhH}=cOgzp@MK|6A&nAX@Ry8T?bq1-=P6}hOcv;iWQGn(o%XT
z<#k@?%DQ>5MqUIy*ZJ#0j?W1>ZiJ7c2-2M<KZN!nviG_}=5pvAB=hg_*PS^`+&QN#
z<Zu><vH=+F)Lk}x&S`5n=XjL^nH|4yT*X(>HU4>Y6-OP}pL@elo+Z-cq(Z_HQKvF;
zIF->Rm82dURdh|AB1t8k$|zb`+7306N-Hrh<8n#Sr$|QoN%&yJsKa4OAp!^0Y-Xeh
zCCcarvyJ^y=71iCdBWz9@Q6yncX8}4_C^K6WeH*gN|I1!MosCH31+y4;%5j^Nz`TV
z>hQSXQRtUAp^X}DI)F}T_$q`le6~<ZMm4Zv@Ib3ktx;`2As%QO%`lH>4x<ZDG!axF
z(xIdU@J;a3W&zBibw3I<%s#Qsxg2e4^(`y)2aELw7webmkIcE(A{{G{6UE4hzebiK
zr;6_IoNxYx^%~@F%KH|cEBKBSgd;!P2_S#{1`-@?tD*f1$%V^{dkZy(=lCyu4Xgg(
ze0M%ttdA7^k-7f0n#TF$>*)ntaPR%kx(7zw)xf`?8%KK3Up&2G{%@_lyZFy`IiQ(@
z{!+1xV)G7k-9ieYjs~0zR`?W72%|{mevcF2JWivRP9T(UdXVBA50=K48ZvJi6?Hm_
z=K~9)xMiUk+Vq$3!k0sKwjki<gKr;D`W3HIb}imF0s?{_L2*6`Bi=X(U$xW`+58f9
zGB~3|{fsk$lz>t*!h!iWV+5Rn<6#(bPmx`U6OM)Zy^?$wJ&)cPEt$K|sK2CWI!PsU
zMZTPwOeL?tR%Z9;DoKvTG^nIeCC1!Ng|~<v&H9I@QfVEmF{UYcwkfHm({MggDs&7H
zSs{vi8hB>gO-7kaY(kZ%(ux+7fNENzl(7MIG@crrP*d{%r&CAt3F%rk{2+dpl!43H
z$b%^C=^jjE&9znbVM$MpWmGZ|>!YnfXmxET`!;mPek9#-IorBr1xYnC9qR`GvpoO{
zbL_wW*r$mEPE6GlVDe+gfLq%ZZZc6P)hRu8+N^&J4XkMEu8pK69l}%WtXbOzS79gA
zyGSH9z^d%-Es~^FO^fyQpBaEUd*Ht4XH)tZ*jY-~7~$4EWqkSxa5<CFVO2AXZmX6V
z-9Q(^-bb2?aZ{SDYMWG5SkGvzcY5?mXl|=Eo93c)&7yh8T$MPbr_x$XBnmxqvN$Ob
z@ZLHc)B6yBVl{B~)5o%2lS4d}RkDp{yYDRI5PDZn96sS}XKSr)5bK_<{xONzT`eY6
zzdA9QR<4~^r-svtjccyLG4?jfV*Z4b9<jSZCiS_DZueM318Qc}?y5J5o&u`l$L!9!
za_1v<pG|lfC`+9dVSG#_rAe#>XuyMcG>bu>q?J_wiO@ZKs~2kVty<wuQz)@NR<TIN
z)tV77Rm)&FOJx?$7M!7WnG8#UK0Pz3$d*_Hav4NuTJ;^x_y)7VeswA>hcl`UIR)e*
z*;Y7eVWNztG_a4b1Q|*=-h1|p*gw!4k5?scr9^cZI8`R9IjolwH#_Oo>d!-ZS59Gb
z*p7EuNW|>u^eWcvG#-^H#_cEz^Vmh^?C~;BV<RMkG`(PDoLv&^FSCYZj)OSnsElJd
zoI~UOYC8Ir<7n)hK~d*m_94iosB%gg*{_9lP$<<5O{?$X17tT)XZ@Efoxv#$XCvWc
zTGBvyCKXG;WW~&(Q&}^3L1yJmX%GN)DU(zTfwDDt2&INYn@p#4!<AM?M}eIoq%tF_
z(I##aXhpHSJ7?mM?eodBX82N>$thiAG8i6K(R@v#xppZNtGCx==JSjydtjS6V%rd2
z0Zy6<U>1EFY|bCLtuF@;uOrUmEyRYFFFmvBZ`$O!IQD*zxK8gTLj(`saiYeZdEZjQ
zzLkcKVnfH`@uh~&k8rW!*qmq09emUOntwjGaBksbA@)?E@zSz8zIyQZ9KYgjDY{$o
zCq8%YCq9@nN!MYQ(jDSe=(z=E1KW)0W<w^=L&lHBZOV#zypn^}ZyVt>CN*U<gnI!G
zyh`TwDm9u4PIfcL%rK6k{2)7I*{;*o`yEbcU`2MO#4N&0mgKOR*@UA!X$N+Oa7CHX
z4DT~idP*^KaKR8XB|Ty|O-e(cyGf!ztkLDemRi}hmmXqs-?MwR+sZOtr=#NlX3=WX
z?)kC2v>@cC3k~gao>gB%{`5*~XR)<&rM0`*+P&1;Q}p$$)wQnH^?!Qq)02hJ5bSP!
z4QzOzX59&S`bw~^7;IZOQ4Ag_xR0=1iZ&Q-QKXWJqTv-qQ+8<kMe*e+DQ#ldz0q9v
zL)#m8@4&#&vjgYiPs2ITl?f67nGFX-f1(+#(X=`&fyHAuCA15A6rDBP7nB*MJ)@=<
z5UJrQ-P9)82Mox5%EiZw9zx-mDw7V{-38!%#N=o971Bz3DWGWWGXOWx*Y1Obj>pz{
zZijPraKqVE@0`7`K7vtg>jrW=hVYyKmln?uUTxTU>-^30dF`#Cxiepen%?r{_b=eL
z4;Dj_x!%>CyYo_hIPcj&IIw?S__ASFzBjMK*|>?<dFc8&vTtrM-~G8iydI!j*Bg+t
z_Iu9h=-%X^wa!{0rz7^mdNZnR&c_PDDDa~5`ghJf{^r1I1Np}myBFIFM+XYc7ys!W
z1h#;^tJT6P-s<UX;y!EI-TScPvmOkPEwbt*f}Roj+l&DK2M^FJ+nt{By&Qw<B-AXU
zoT)vkxhN(Fp)%hYOwBTVQ*fOkLIB{^KxkSK4i$w%ix<8S9x)HQ^{fH-iU)%i;iD?%
zpmNOF?lGVghq&_yqD(2Gl*N|u6_8M4c<}w)APbXGfrMcyu$1!s#PC&IPz)aK!t@R0
zTE*Io77@I^LUd7?nAB%P)x6M%GTdm$S>X3e_-Rxj^r572UV3-eO7qcT^U-BrS3&41
z_`247HFGb&-ZTHyZ%!739j~1<RZ$A7Fp@5T?M@gJRILgKofai&EQj2(Ps`EZYEjr>
z6j!{v<iLa4c+vs>uB0xQ(<-*NgsUjr*&+N=Sy-u<hudzRH=2d&xwz6?hhVN!7`OSA
z(*tWRe%rbD`^_~&LpeWacuQ$7_zmka8Fd)0F-fBigY64B3A2(XC^!cI-b<X|v!~L!
z;TcoaE6kf24#tRd0>M4*cZZl9Q<7IiN(&DgL=mT@bV??JK>906eggn(xvOSwdVXfv
zwRg?kcKhMQo{vr}MSi;MK4l_u%dUN^jk{JF+l!6uON|HVq3*+TXV(1fx34ZveUw@{
z@Ut)cz4SEq;crX4R(G`C%G}H>?P#Y1`tjUZbHMaRGfM}0zwq~c4+Hwaw;*@h){|Ar
z=KcjDR+>{;+1s6~^7*k1=|RSF9X~irgDtd9yS7iKsVXawPrB{)c#YjE*W=W8+*3*>
z<=5+NR1TNT8p9EQV9gC0L2+10Ub!j}+1$3M*YsMDmLft8-w@cFse`4}h9{+o=Jm*Q
z3|uB-I4`oN3AW8q&cGVE0OK@z!tB5tDu;gd7NU`70eh2@od*Cm5eVO|`%}yBS{8f%
zuzM-cxf19u2D+C5J+o)mT>f9b^2=A|r<YxOZg(s`^XJQ-JooW)pNJoe%WY@Y+<PEu
zA9!ThePY#DJA2XGSzuWzw$s=QLs$8YO5qcN;*fF0+mLgHgACHgo{P=gWczr~%@~zm
zU&}_YU1YF5MZ7vHJOxbN2fsN|;Wr8G%!Voih*90Y1HIY~05sWbTj*K}?q3OZ6oVa0
z!NUdjVYcMKsEZr}5^|gZDk0lO!&7>bGW?Kf>#3v_?&(zIF$#PXP`5*#w?Q5n8ogKC
zK&zq1?76QU5P7lV2#vgTtYwa(1FCdXI!5%!SH(<w8=&7V<E6`v-9z8E<%+lI53&6Z
z12a}IF8_oy2^N%OcL*b3Zj+T;L9n_6oQy!#MFaA!ino7rjV}OMrQWF^gn|W%H~@eK
zrqGISPtmt$#doOaJGAQd<b@9}fcx+thJ4=dgyhfRG}R!$fM~7Zwx9G!A9N7<%t_cW
z+6OJeX}t|n5zVZRKKPQCC}3F@O9*ImWCw{I5K~$vUG-Mobw6sl@Ka<2Mo_Pzi2%SU
zV!RnbIP?{&`wG>3g**%fzCr#CC&q_2y&)XC)BYsJv3&bVOGmM#;|`)<8zUUXCpO$1
dZrbp=aX;SJA>g`y*EsNz?-78_5Rc8}{tw>7!-xO?

diff --git a/crypten/common/__pycache__/tensor_types.cpython-312.pyc b/crypten/common/__pycache__/tensor_types.cpython-312.pyc
deleted file mode 100644
index 67e0e7300c800c00760a5ee67dd8d72b79aeded5..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1800
zcmcgsO=ufe5PoleB-yfLHHp$D>CfWSO_mTTX;Pzu?6f!uE^dm`x)(!ngmx`Uk#@y<
ztJrc>2sF?b3TdIOT_}`7pfygZ1A$z62?TQJ#f@DsOM7Y$?JZcB#D|cXw<~4k<dRDV
zc6N4V-p<?a``-Q*i**yQ>pLEmW)wpH#)p<ke$YGu!2&UeLCa(U?^2moqzQ=<L%vKV
zWJ3Y37%F(x2!RjPsUH3hm%p!5H$ME)$#>qft-`ozahv5^@5MUIBr;sh)8IaXDGr4|
z*gRSGW0rKVN7xlIMGbm6(x4~FvY%`B(YjQZb!BdNc-qXL=i1D)=}enU1E-l~vtn8f
z*X$|rT(qh+M{~rMv>Y=rpVJD(3#O$x^{Sa~Zv>{`_+xN2v*5m_qlCg%8|34ignUBh
zr4nSfTZ5iINXR#Ifl~5$QXzHnvphp}iioHNPS9mnN*!@kj3?cYw-t_~H0{!so^~qL
z^lX|PJ)X|9dKJp)yj`i-R@&>F#C1GXt#5T@3#MhxR@u;8-(-=C!lc)f%9ibXuFQv0
z?Vbb-;CsP6_?JAmMDE2iKP9hRxZ0R+EY|+$ef{@%<{?K~KHc*&9Y3v0ZWq2%;N;3V
ztFB9|3(DTUIY&0nX$)oL_HLWbdLbKwi@ydAhW!&xe6f2y{L-J%_*y)((!U<htVc5&
zJ73(0CYsPfI#6$mV+<-mX_SHz!ewBMwp?Z@Pf+5hULGq>s1+~!D?cPUoqOAtN%0wq
zC~{E4IH+~Hr4gG!rc=tg0w`b)>wy7ocaaw@?&Pez$&kh+Dv;u+Bo86cCtMP8{1tEj
zN;Glx#QcfHfwgGgz39lb(#q~%UtN1+WK|hqNLB|X_$B!6rUNdB34CQ6l@cPi%>van
z8c$jR)yR`<D=NqxxD7rZZg{Sy%61M;8z?rVt3noR2fW=4i^9<XKREWL9}FC4yPzI`
z&g}&mif&(wY!5V`j(HzAgmLfUz_n99p84U-&9`n1-Wa^ofA{e1!>jwp)}m)um9tM{
ziC-$PT!G;K!ZLug`1Qi*fCZ{3sclwJJ9x-GHxHIpv|2QT12m{L$Y)$dcojS_f;Zp;
zZ_i*O25dm3#f1ht#WT+FFDba#h{V52F6{eq-*@KsrEg2u`+qsKbm(U7*2Nna@0_|j
zdV6#=G1io&p3r?FsUbm*9`;1h<Nxnc`I?avC&}9?A|hC48bnJ(EE0d7tw^?F8?~}I
r#P&l84;;tfzDy}?CJ2rFMGkC6RQkeZLZa`|&2EW)K%3nP^(H?CPuzl=

diff --git a/crypten/common/__pycache__/util.cpython-312.pyc b/crypten/common/__pycache__/util.cpython-312.pyc
deleted file mode 100644
index 3d0d55ef5918917d51581f16d0b44e7340f9ecfe..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 5478
zcmd@YTWl29_0DT|_U&EcV)IDGfdp@gZA^F++Za0-2qm~Bq#+>?ci0)*YwwFYvlu(O
z=_*08mm*=LQWhmrHp-7Js7lpTb)-s-(tbqhkC%00XX;8+iPZ9EFj7lCqMmzaXT3%)
zX}^1=Irn+az4yHCIrArv$BCfa416=V%ZJdHq+=DX)L0sY#x<lMg^8e(X3d;rX`egE
zLCr?^sBltXkiuO+Cv7ZJ(V*8Nvs^3uP2mP(_7&R&bfYwNQdFFZ{Q`5+0ksIV(}5J1
z;((TGgbBLul65^n#_;a{QFqsi@mT-MYD|mcP>B{LBLE~PUUI_dHKdp423b140;J$B
zbuglrM+f<Gv)s7J-YDUw84DxLLW@)Qb*LMiK8jG9OK~Zda45~Em=vopLx7Xw%z6|~
zk>a6!3L(-SB&U3&SX>xg3pAJ#jqVZ+sLM2f?zhtLP#S!iz4QYfrI_O=D2)DQe>|E<
z>Z&H`1F95DM$f2NiuXzJb1LqO#D_I0j-_Nwv3lW{BukpAlQr6aj8)C)l%SkYrI1Mp
z2!%E2%n0<8F+CjX|BsaAm{Lhv)}&#T64S8^+iNPtjD)p{-J0kEOjr*x7ZiOYq249p
z><My)po8284Cknd<63VdJfs?Y1T-Qj7*2Xv7}Ipa2B%I&bc0V|^_;<llGxy5>Umuw
z0w9->zOHZ9qlxD8&A4Spa|n+lbT!rt_lw43%}G5RX-bS3E_%P-VJs&!Tm_h5B1roX
zKn6W<BX9MbXJf&$F*i8rzaIT)=Wkno)jI3x$Q+z^)lA6Qy_xQLUtO*~_tf}X_Yp6w
z8RzDGfr*#1qvQO%=$+`!wOn~2U!6bu!P-J~aPs9_$EIE@RPUY(>@5WL76bbV;=Xa)
zstdcOUM*DbnhUfS0`0{>M?vg>g}&-6zvzH%7M;i)$Q)gQW1_pnyn&1MsC-@vkE$Wd
zsL7-qK58;=0e8R6WE4>DWrKK}B7;dV73OCnTdgc$9vm?lU9`prsT;C-W<3hB0@HFK
zWH}8olIB^I0;96V(!%5Ss+e`Jq)&Qayrr{PrvAU4DQ#1D^OO}kt>XMrLdr(YuLw77
z)?V~J_LLpW)Gq%GgiyBB{R8Tm5p6&{2PUTW^@T%WHKv#B@F19LOxi2yDvoMfsR4!c
z0cjaUQ*juqy#iATmvEb!q^PV9w6;<kBX$t#4Fj$1%`xeemW=kkIkdMW{RVVGajjvn
zVf#>HOYl@8EHz6zVnL~|VVF)lG9EM?L>KPYmI?PIV<D-5Ks_9f1zRPnDd}<Pj4H{A
z1dg8%!*Nule462~0#|7W$8<ngUI7H8;cz4(X~{$)j&&&<1CORbC1E+%uS%~sQp~Ne
z3J9Do)1y4H=q<axWnP&JlA5XzVk>quFZGhDCvmLeUdy-@3<keOWB?v0p-Sr6q#Pl)
zgbj%krF&F*HP#R`UB<e>sWGMB)XF>i?h=oOiMfEm^78qx78EhDQNt$FTN(nmYZ<UW
zHU=9@7;GYJ2yt-j*x*2TLDAp|lMR7#0emIV5W^npHPM;#1~X!afZa=G3>&?GrV%S7
zsz3@RF3zY5S^C#&Didyi;V0qKasa^lJ%xO0E=RJFynj-d^)}6UcNDxkir!tBL-V5N
zXTmkd6-RD&{`mF1H=qCIfvE$9buG65>?u~Y7R1&}*B7FD{Mb+JnXUyOGm;&7ujc*r
z*VpGyO!iN6Q_*5w`|t4YlOHDwb={u;c(Ld^nt5T~>zjBw8-8!+`+KhM$se1n{ovFz
zGrPXE;Atf;*Pl6x{cyMyE{?c+>f$a!qteAG%mr{G-Q^gh>`uTT;99-xCRd9K!2Ouc
zu(awp(utU8`R~>Txt<ll3z7VD@Gb2Ca0D@M)D$`mFAfO^1}Wi{;OERWhC!DCJQ_j2
z;D(tgre_Mgd|2xZB^7y!HQ1(Y2BT|)a7n0NJKFnIcmor-V{`+3MSDZC-qaq6hvbOX
z(Nv!80Gy>Y0RDmgl|i@tjd^CG{#x*Au;6cexWvQ6+ux~WU=L0SM-2}2FUT9592>!e
zAE2GGPStjbH|+4JLZGJMoiKxU5zq)gBSb*iO4{Zqp9Z(V#9p$3fDBsj`eD=jiCKSR
z(c73g^o8BK;M+Lot1tNK^IImhX>QinJ|ng-xT-Gi$?lmrk>51=+^nm4hHw7=)dl=r
z;2qvdKoenQg%02r7#MxR<TtpW(9kOKKR__I6F^iF6O|0|csFTN0TbU98lob`dtmet
zX}T(?<9#sSP1ZbKo|_83P5DE&s;4*2`Z{LB4kFLCY}>?ee*fh0Sy#&p-(t$MGMIqC
zpk&){!!b0*jIm?f7(XVAd9I<Xknt%@e?=gYWi1;g&+bKG*~YVsHFJ^4J~l>I*ii^n
z(zfNNei=7qgIPGz5V%Tg%Q7jO3v#7(=wjs=$~&cOL%>nIW!ZBm+@J%{A1M~q)poSP
z2<!B3GvmTI8t2EkakfuT_zPm%t`jcNlCoLry3u7Z#P*{Qdz#!vgn-JP60O-Q>?Jo3
zb7}FS=UcFegA%izlt^-^ENj+;2MR;@1eCx*r5$NehrGlrSq9cSZj?MH<WS&kPC+m2
zOuN$Vlr!Zb`IBaYmU{>^M`JDpDtIKU#v_v^NRGT+kCYpwz5@B`I&_0L9w^pb-)4BE
zlShM=ac11p$3kW*u6}QemW6#BxWrIS4Og^+_8$6(W60;wXplxKy(IRQqDe?|1|aW|
z-b_nsM2(V|PHO0n>o5>p@gR_MR>QYMGSsUA=rcP=QlLi)$w~>otrMC0nH5rqNQ8!)
zOqO5n5viD33i?UcWI3}oF$o5t2LUP9LoZN{N5~C=HiJ<NQ3*$664M#3ek?1!@BlzC
zX1In_98)9os)juwD+(lrhE3CPSWz`%xKf4`Gr|BOQMz>W>0V03<WmW4*(+Jg-T-_J
zvS{)o-SO0x5-&Mle_btlHs{Y4JPnfvZ?#MvF1UA+Kw(R+{>ro2*gcN%Y`o+3-4j?(
z)uIjg)=r$w4&`2lgzb$<xv;Uh;N5o5&UsoEIl<wiK4ug$-m^(ngRoSRV`ii&kt0e}
zh!D@cncga$N$S!$ITAKUwNe<`hvQKqT!{SuHuOQHE>qkRlSnkUnyAZf|5dj9`hzm3
z889mPqXNW4Ya+nX+wZsDe(LY1h>vat{^0!p4Ck`i8IEW;Mp><uJatJ1=40^8W7%I0
z3eFP#KSB6!Mg>)!x9TU><+`qH%-2n}e6Zoq{>DO8=R>-~J2kaT&|z>9H3rE!q~rAY
zH=M7?k)(P6<2W{Kz#54B4Z(~|xzTU}KTi%W=*dJx4SF$sg<gaq`~m@o2slUpc}@&w
z2p=XLdRYe~x8?;+8lrV!L$qcv{Hj43Ny~mr3kg1;behUoy$TQTYp|GN^?>1hlR=<8
zV%3a&?VU9>6VJU@oqOfo^@Zxq<KkETnu)=pzdrN*d9nJkFY7Ccb-AvBxG~f9mEAes
z`p!?_7l3^I>D%@v=WCwK`}1s`o9G>PE?ASd?duo3we#-XbMB6UyJPz7CoLZ*{}}r0
z*+0aK?pKyL*5_PAti$<F(I!9(z=JBZW$R?uhXbEiHRt_TYIF5h*Wa#c&KzFY-9CNn
z*XKW{(y4?03mft__`l#N_=A&OMStT=RcGcffQ8LlCY`qqPmdHgAHI+5g0~<_@NNv`
z#Cex*qT%AcoRWX_-S|Ra!y?brbo@O~d*zwjy8LUm9Mf%cZAS`iM~ZDnKa)Q@Gt+jg
z7<g&PAyj)8k>K$z3P9{Z0J;6MRh=It$zh;Tbal?~oe%G?MgDCMjjB$KWa6LJ`MTTq
zPrp}l0P#VV{_g3asvLA14w@^*;}OjeAc;zh;0=IbCPVJh&zdF@>C%XV{+cly5uAjG
z7BUx_tk6)B#vfFY_y{3DTs;-}*J67#t|TLB2PU3{xK{0l02VohVV0^8<Np!`{({_p
zMO*IMJWOCwLTpW@ZjM<~VAkYbnq{PWYz-4w;t*TENL#Huvu(-CGus!}paaZd<^i{v
J>0;=P{{|XH02crN

diff --git a/crypten/common/functions/__pycache__/__init__.cpython-312.pyc b/crypten/common/functions/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 07958cf2c1e6daf4aa19e05f376d2bc7bb0e5b28..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 342
zcmXw!ze>bF5XNWo=QcUH<FN7-(zpm$ijQD@ZnG>&43VAevPtk#`V{tdg7_kq7Q(hx
zcH$KWSBSf!U-4sxZ{}m>WwDrp*VFO$%`*Xb56!=#zhbxc#XVF|5d}y%!H7o~^B5DJ
zV9HaR@flK1G2<D5#?L(vo=;H`fA~x&GPjh*SiNmg4z2EbM=Pt19tW2y-L$2nD7`tN
zqeg4hc8yDozOAjJwr)lxt;>3eCODVH+<}dKu1x~cfLQ<y$O7_!@R*}QNTq~$gq?5U
zz}SF>ZJ9k=v(ipxs5@3_MBTCLu`7SCV?wlDI|y-VrbBj)x*An|VOM@Xywjg}e8z;3
W{R+qxd4tU>Y`&8GD7vF|>CGPmXj?7-

diff --git a/crypten/common/functions/__pycache__/approximations.cpython-312.pyc b/crypten/common/functions/__pycache__/approximations.cpython-312.pyc
deleted file mode 100644
index bd6d1fa5b5af3977ff961f682a731bd0277ad975..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 19228
zcmc(HdvFv-nrD^z{Z{K`Brp^&qXzT@Y%GJZK;kj8Xl-D|Gd6Zpbd{u*THT_m1(J|#
zjb}GT8oY}X+=ay0d&V~tF=9Ot!`^MgG7+;Ij+oh-xwt=8?Vh{V)^TxM?EZ25br>eX
zcf`fs{l2VMcdG%<<Mz@fyDBRyEAz|D@B4j^)PD$t{2bDcYW`_xW<SUM1KpUZ%D8y=
zr?^<;Bu?T}+#C8Y{|3+QtKO)>Z&k`M;(Wu&a|4{@_}Ba!F3I^v+#7DGR&xCj|Aq&@
zZv1*B4@!NK7r9^ZArDA?<UuKbJR}8?hounmh!jR%Ek%$=rE26gQWSZuRD-;3f{)eR
zqt5lkc+HXMABcrDhde&2IZ~Mc&9BIb<fxKKh$+pROka$v7nH2#)bqHU9M{~5jH)Kn
zcr~MH4!ZKF$$^nfQqr7RF+GUJlzx<D`m-bAxE4UGapNYz8$_WW7ydc$@8L4CMJ|h6
zPeUf@%mVxlIg4(L%V}QXr??@{+9y)g6hG<ZxKE7lO`^(lRn}+LoZ`(VJ=|M0c;=X@
z8VZ<C?cYy~%jv53>zv$F)oCu~5Wj;)yGKEy@#Kh@l~o}-C<~xpCM~D4Niik#kEIjY
zWF{?)fj9$#D5R1j$*dq+@8DUN-!CAwwhCxtu*<lmBDB;z9up1<XYpG6a#}chR!I&F
zW<^EGT*6H<-JhM97MeSRUBbA~CZuD++d^7z?zpVT!X;TqWJX5EvaDCa`3WI0n8~oN
zq|t1ruydy%3H=#GP%|U4kP?*v83po%G4wr~Vf{Ln%*u*LgHX@43a`sF#<bOJ@wYSS
zge-_@Nl@`VzJ5+RCuEZ&vf8S5>9m|>1WJ#MoR<|L(=XUfvrZ88DiBDxl*|sYz9cf~
z{^UR_=n}VIZDo({(fr<{<q~r%w3alVNqkicm%gDnq~t}-rHJVPS##^XjXANh<y61s
zqLx+7t;p(FDy#8vmDU?g$D@61*^$w<@iwJnZ(Bl{7|qJ*Hqdt@lWw!V)mAdMYU}8P
zLhrL|3og`?$Y!`-H*ulrt0(797J|*WVDn7x-B5VGZgJhhx~0uaU%TF%k8aI{w$2>A
z6RMftcjfE@j(2UI<yWK6EIzyN?6pmE?)wgu+zmu$PCi6~T%vfR(DG&5>CaKR$W8Ie
zvsr7qVVlsivLspC;1i>!R5b~XcACpt+il2Q_7ZM~u(iq)w%3#2VVtt`t!c+o-U*i0
zr@Lt<#u8auE;-CGOuMpC^Z8@O?KJBS)tWW!U&&=Xt+z|fE0ZNybt=)-Z9biLPr0Vt
zL{rJbn2;w+Y>%a(2J_1PmAq4qq%|x1IG)Qknop;y%vQm)dO-=V<eTD(#_9>!3=dzS
zuTJ}>JX5}*^=2FPZ&AAzHF~(K{zTOP*410|E~Ly9{!zatvAPzj-VZwQY}#-3WAYi)
z^1Oe{$@w_RPyc;ltVo`l@|;Fpp4Gp^ZRI*RmA{1hZ(>aP({aZ)xl4R3AdX?-_-U`L
z;i_pdJEnjuL4=43_`!(5Quk*Eg^VJBpNwRrWPehY*!#ybW2!uuNzsEMRw0}jOsb{q
zSD=DK0*!-95~oR~h0g7QBB#LgF3PMm84MQ;D=oa)-rC;Y-mzQg+}Hk=!PZV#{81pT
zXE0m|+_p>TVl4gKAee23&;lmClQH#{iFi78?y-D-0=#}#$249-J-l{S9UF-czkQjF
zbNXz*A|@^mzCApBd3aiHqgxqJyI4<&cF8n2emt3uw|5B5=QEj9Oz0B2Q>n})j1*)8
zNwOK#l9CA;b9PYF`7(Qt$N>rvE0!`NA}-%--z{{!wcBc*K9LZ0fkxF#)+b~}!R?ci
zC;_oRN7ZPdRi`@c@$LRGNJTu?$poQT(k^DV1>*F)cs`j*W|NSpR2RZj$&5}|Uor&>
z^@I|Hk~)~|*GFOW8qx*Q;-U<RMq&w~Pox4Buq10vi+IjhL~Ixtq7X^xq(ss?J5eNw
z=_?fkG!;`in@V3Eqxr&xa9PA9CJkkxF+X}OK{%bHz7)~6td}&{BM>ZS<n#`emU?r{
z8Z=v{7H*JJ6T+Jva?4)Kjoeu_JD0Eu#k8P8-Wm%~JlN6Re$H61N0=0)1y9IiR8+(f
znPgtk3bL1Ub26QcbqTi2uDr7>`CTIZthp_fzrvbE?Jde0sssW+Dzsv?sPFkT4UJ|}
z6Y0zdVK0nfge^HqXx3|^iQ?YtU5&9O?@3^71AkZ7_2a)7u6gC&IPR1>D#Aac`-koo
z-FaVmw9Z`hY8e_)NR0Hw!U{2W%`q~TVrWDm`Jsgg0NZ2LYUsX{HkyyhSbr7pR2?{I
z4pEXcM_L}xLRooaG@il2R<KT$b=0ii9(63BG*MBYhzV$Z`;!Vu8qLMp*IY!R4*jQ7
z<0q77=^;O;@ky01gt=_-t8BzQ8xzZ3z?~WcQkdaBf0^^v-ig%A?_J!#uz%^uwS)P{
z<{QUzk=-la-M{v7HT48p3elEav}NWick0(IzP0dHp?+Vke&0;ronS-<L0fadtpGv6
z>Z`}+j?bUIa&o2@&*q(r-UaVc^jcssvJko9$X9PGR5$0UoAcE>^TAz(U|TNOcB?8M
z+%wa=>J81i=0Z!3oOk_9_pjZYKUDBF<$O&m8=k)%URi%E?>qiE=Wre2??fBsC-c!Q
z54bAd5q`FNwK_WA^WmNw{F3s)3k!X@>MbY>hUTM-8x}VFW$*3n|Mn05)5h-Q3riPn
zbT9KC_kM8svyI*P=;2)O@Lc!jE^6cp2Q_@(%LPL-$N$#@2e;`k|AnWh?2$?Y{Mojy
zUa#Zl8za4r@XuQUxc*y*i*m24x5iU~;RtIHo_P4bkwa(XrK%)94P{0-VPm;U>XD5N
z7-q0A#$(hY3oCtM;J%7VlvQimAvx*4BI)h`Mnp&TR0$6bRl<ADr@T`M@424xPT1^)
z{Y$7zJ&dtiIM9A(;<srJkP$ZtN=<uz6WUG{A-E~8Nk3{QQB_W*)7+F(at$|Q6aC3k
zMgb+XJOR78XP%YZk_V`e^^_3Z&=W8z^+LyM)BbeTlzZBrC2qpfl+Wxd(Bol@I#7fF
zi;$c0+?1dGtArU%+6@uQC`(f|_CzlyLxdmS--n+2saMn@`?bb_r#(=q{ftHdMx$4s
zLL=HtWobJ2<hhfAQ^7JkZP72g*=)@2yN#eL&1QD1`Gypla(=)`;XkwX$a{P_#(fui
zM8~-0Pv-geLzSOQI1N-B5uX7wU{dP;4bEeFa7CDB3V<&O_gF&}(Oz-{sP1Ap+B2Ic
zK%_(P!~~fIEZItsyA%#K%dG>gYXM=*fHo)P>|jPJLNYu0PVE5tJ=Z5+%4X6nr^L}g
zHIqIU7XW!s(?sjK<;J#m8Mx4vn~eNsf9V(9G_cip{Blx9>&>0x@g$%h*%5&Bar1U(
z>>M+R0QstG+Atc}vl9>ihLjee6V{$x0_hlg@EXv18dw}S7-(i-OjcEbv69>`!Z4u&
zf9lB&00tW45#7?WW+><>5m-m}{Yqwp-Db{154fm9K+*tg@JDS@GKcr}<rb!kP$ygP
zEtsTC-K7GOETX+l&bUGCW;Lq-ObUOPmWhCDasYYR2y`<JeYohow8G$$Y9dCAo-j)?
zZP?muSXw&4MLHkpI?7mj4e{wqln8SZea`irI%lj3t8P(G2$j)tu)6Zto)ke$t0DT3
zy_k$H372e38tEPQgs$4^S`X_K%AV9KF_nssX3!_5=5-a52aTfzML-onPRS$CX;dOQ
z3QN01+9K0jhtru$(EKvOd09ZCSa%oY-RNX80TtWO?ex{9X5~?|Rnm^7&@pPl44gK;
zrmwt;(`zp7W?0hH3@r`lEcz$RM;FD^n5j{gcD!uH^(EFS9JaQ|ZuA67=cOblfFY4O
zgu&^{x}@vp^c~pJJl@i}FIKt*SreckDbF+`#!5y*rg|w57%yp06#B)a0u9YDs4_j;
z()Qz}9k(~$U^Y9dcD1$1>DEih;pC_+CB@c^GSEhMZTef=J6}+Z-NZimXoJNpTZ>k!
zu`bTsdj(>uPpj%Xb&tR#Q%-cf=FvMtKh0hnJfx6OiDCN5TDvK0wNFM)q%j3a$sG9P
zMqvQ!BF*-V{Y8ss$7*zaXBRa~AXeE<8B>3vc70<ET1`=r(dm*hV;R6Uiv^|C7S%Rc
zgKl1BdXQ&ORK;voVPn#q(7obXUC}GnsC4Db|8-hhy=2>og_zo;w4kqA5R2c^urvo6
z(A@g8YaX+Y9<yT(75#GH4b5xyXakLy=~7IYV{AhO4C06lSV>o@7>Otw#y|D%nM!s4
z6`rf#bE{{i_Qjb$_<K*yoltclv@sXjxHOdy?f#tOeS7ZIY*;$;(KoJt<Hq?9&gN@&
z7HV2^HLc4^zNT~b$QKUOxEraN^+OE`N3Xs$_f{daI~UpwdopfE=0*zP)?B!C=2+S7
ze+$&ChHI`S=aN^3XC13y=tXlwvyQdjkFC}=eAsm3$OoHpwaxUo81*W4-_3bp#(wXe
zJGBjq2Nw<&YWL=9_s)7(12waU@UY<-ShvL++pZ5@-(6_jm22FUZ*0lcx7>0;8=O0O
zw|>LyQPR%FuWfq3IeiCbyYECA<}WUd|0>eFTHUbp+>Pgdc<|$c-#=8?`a*8&3%8y5
ztp{^W2Xoa27u<Ino0h(Qz3E2(^2Lucx1G7?4&)jSEV%Fc(9V57SKTlhTJ=Td_kDNM
zow{chPcED+)IFc8dw$kujc!HQcWYv0Q+Gaem`1Y|gZR*~)boLFe)8HO8st`144Ot7
zmkupIzudgi`RYpJYx(f074NApdU=!TkG`lgDe~xx=kVTrYVMIrnDN7%$JRN1<_{m+
z?)Y~*>yLFhezDGVY>Vd?+g-=nJiq949ec@B;u<5D7H!>!pJ8eIcCN7^EM4p+K%<l@
zS@lWJoEa)|l5s-;y>@YK`wWI?ahD~@vQbyE(SKsp{>0QeE9hso9skMg!)51yhF7VF
zmOY!<rybCQcz7BtOTVovLlb%)dWv((QAw+kTvHsLSQ?Z)RC64p(U4ANjmNUp+jVVv
zO*`J-4~+*}LCh^iF)56fmjF2UTLCs8wRB&alF4LC<Y|%RvQ(ZJjQa7mz9NK1uH3lE
zwtjbvWy^T0VFSH>SphGUjm5@HcH0&M#l_QvJrmqdlG}pFNMGD0U00Cb20>v3{w)Rg
zQBftUJeyXy(#b^{r)k})k9kLlT-Sy4_pVd=_lE}b3;vZP2M3ArBGwcn7L({qutv)0
zt%a-tf~>lTWY)wOUR8Ed#>6s-P30BJXuWDq_(kI}mo5vBQ8BrTlupV>o~c;n9HW&k
zyofm|l>Hle_}9poXERcx%a~oc@Gi(0)5f<W7u+$^OEMxd^X`|n?m6<oy@lZZTyX#G
z+I;XJoS<Ic?3t_InES@ObmeUr`{ww&!P;4#L|v`vEA2$JVCd@6xuf$P^VucwqrvNg
z9}MN5X@<DU2V;d`YcANjd?6p~nB&Ql+Icq+oH?#+!U#&ZFOisWUoZ#az6Q5~6~o@?
z^t>$DPqD*!v8Un=f9%eNl4pbIB=B%0Ucme>Z0!;%E!#E*NF`r9Ku|V0nwlU50}WGU
zrV0N4;1AYTW2@6d_+OegR3L-ZA}z`?A{6nCFUcoNL=PuTNy7y2g^Hm5pO-1bs@P^@
z8}=s8cBx7$(y-2xD_)`O@9<Bh4UOHnfeY5n_gs0o5ZIUtY+TCb1KU=d+t#jh@D+Wf
zfBm<{84}s2zf=$o1=&EJT0uDYwvjA(3T}ng9Ed_-K{;7Vx=$h0r&!WLa-U?9yXr~p
zO}n1_J=lpIl~9I_5C~<A^FtME%z7UaRdM2kESa8u1PlEk1q)3%`dPrx<cuZb<+q!Y
zuo01|C`N_=c#f0g;$s_hL>x$_MP))5gZ$Jb-zgdX?=&?1Q}X5Fcc*s?Cq_z3;D<y!
zRx@jQw}5CL{gN$dTLX-Fiv>s)fkj20Dc$u%ONe=x*oxCUaYIe_=mMe@kF_dA)~b>t
zy1G*(c4}4UJ5?eC6BDN6h-O-$>@NPP-$#a}Y5Rs+bJ5nBuiW+dXAZCWLRZ(#t()IG
z|HeW~-Y3i)hQM%nX1838&Bd<l$~o&%$LXHk{H<d%hjpIcb%S4cIUj;Q$K|RA;}1oy
zesk`dSKgehD!Y7r?)CXotlaCr>i@2PUYv{ki652bx6HjhS9L#t_wR?fV0c!UeSYTT
z+D$_6nTdlfxIkbHH)II}6d1`|!o>O~$E^v+l)!AojDhR|rWoBMcQGllpa5D9<EA0A
z%+d=fu7_ZmAdRe6MXpvbcQViEO|XfM@r>TeYv@%mlK@8L6w3Z5J*Y-D!`%;ZaJ;=Z
z_u`e8R-6rMhfPCf!zQzPWhp4}v{*3Ys>wgLhD>YO7<P#fQjZ;=HOivfXhmC{uN=|v
zn~z_ixdM}9<1HrwF%yL{9`pB*94=UnAVSUjwkrpg__;$X&Zgg$4BsvxgE{4v{59}9
z?M_An+Qh$qB9Nw|yh&L(3CO>uQ04~-l(TfV2K~@B)|Weo`P=E9#I2b}r!{MHN3Ig5
zw)MqNj7<gpUy-NVH6;f{B*AaQOHTHc?^o6X%`FM<r3(R}4pUoW5o8r~*C|VHgxqjF
zNq>EkU-8KiWz%jOO%Byz7-dQK_DMd;|Dn|z^5{;vpQMLQd!zvUXZvU0^$gM0EKAU6
z9VA8Z>tWKAwhPj<cghQYt`#K)uNe>TR_ICIt@k?(PgPiah^Z@E_beRPG7lE1t^HQO
z4O|)w3}(`nk<<u<HG~Kvpb%Cp>N|ynoXYS@j8DgyZ$f|RM86;kC8kP9Q)a3(?7*gV
zQ#S}FjJQ}MUfIHXW?U0uqI48(L;-C{49e#x)Is^;7C35*w;`?(<tz{fKVm*EX3KD2
zS+T1$lq?((h`FM$8^Y$~6w(ELX~dBoX;f+adi+<%^ySWJ`g*f|KTh{#x-NRG6K0ET
z0WImeF>+%@3~vvG66>_p{Z{%wiye2w!R!|GPiQ`iI>k{lcMs_nVB$je7zB6`S7!!j
zp>f=QKNNE++i)@YtT{Dmu?^d_ODLp!O;)yZ8#+Yaqq?u9(W%Tp8u4egtvbl8)W$#&
zlS9l*H$~SPg>fRGVT@J?+cD&$IpeA9q^=_Gq(UcUG0JvPM)q3G#Za4a7}qhMj);1x
zJiwaNg);)_(au3C_K{VYNqjAU=|+qaLK-s)1@FMxJeGwQMj^woN`x}!-9Yxlq7=&N
zu)ov*GRUjvEYoglF4Q`6^sXl~zy34NhC2;SOM5@se|`Ur?hjtdH|&@VtVWuyzB~8s
z(gljlIg*R)Sn=*4Tj+t$e4C2xy^(5Y%j&`lbC+kGck9+I9$z@Vbmm&$tZ%hp)8fd&
z$hAzNA(m^1<r{Vt8rpIVZMXP*L+5OOS($YU_1)bqs~w%I?R)Y6=RQ{`{LtYE`#<Nr
zzRvsAT+{YKV_UAVE#KHN`;{-ER9MH=Y$!xG=c1c$Y`&5Bc*k<b^5o5z^U<zZH-H~m
zZT~U6Ze@MjE%);Ht*Mp9o_x4>#oPPECVH8geWa2U`<Wx!<8u7m<?0ES+E2-1!DQH}
z-(7|se4KV;N~}t9&6GVA<7#XhDWQ?FWZOTBB;4(%SaU1I%~WMAt!0Q1Us)O=092ML
zSwXWDJI2xw*^SDQ1fA{^qBN4k<m?|iNbtbkYDp7VQL9YJ1ljAX6g?ujf8?>~Nsy#0
zNnXiqwlTE1>>+L?ul+ug-doq!nX+Ovp!d0l$P`wV%vpmh++jXK3^d6?f3Yk?%yJeB
zt3>7vPK?UR`AjOAAn}0s(`+U2XGWPmPUJD(&Y)qZA^j*iphf8Tox~lrYRTZ=r;IC-
zZMIRQOp4n>ViC=khYog3zYS=QFwI2#a_10@Zd!QNzHFvbEjT#@u^!Wht!v5&gjtxn
zGUC5&*^8J43K~vi<o^C-B1xntLHnv+AHm&lY?}e1x?X(-;;cxKf@G$KbvX@50zdDr
zww4Y73|hsE32(L__`Aal{Vvtg^pO}Lse?GEBdb|><OdX)MLXENwEKWaW{cIAU7Q@l
z+i+XU<ZPuuV75{+Y{<g%`b)ZOCFH0p^>JMF-TOaCbeKzmPEMFk5s^*$^e_iZeyq-x
zg35WSK&zh#7o6Z4JFnH0NJcg$&10N)p#xuZ+(mPaWs@nb+LHQlo$v@H%_xaMCP=l0
zxc#_j#F}p`4b!JAPs*Avi;y7|0#L>wF{8|lMFXRy<{cCjiB^m*VGWxDldvpq6-RW~
zG^?7QY9S0FHKA%X_I12Jl^lf=U31Xnk@jIwShrm>VNcmnlBxfM3&_;w3Nm%WXP#$Q
zBehq@=f;=#E0+tAExE{+d}Lc8(wvJlFGur{U4=+nE<(~U(z)X8B+>fPXTFVhs%sZR
z3!y@Fd#<{D)^#VkZgJzn#zJ&kF1oD{-It5*`%C$+hW=vc)6JiLEg${rFS~!)^UDjr
z?8!x6n|0r*-?iLxYkR(a|E&LRu%QqXazWw7sg<CR4>lKqow;D=t&Usg^T8Jj!R}nJ
z`%`fx*qsj^zwh9D>mfKJn+xF`x$ur<cRt)U>mX5Ddv$7V>dHGS-e-#>>cmQ8cRqZ0
z#d}y+|7gjW$r7FYpb#A+g5eFwN2(fr0TgrL-Z6~&O2AfR5EzQOl-{HBc!oI8OZ41i
ztOGC>l3Q(vzEYOVI;5uQ#y&E>N$l_p#70#mQ3_!~z^N?RhIq4II7VZMTAUfAF<}g*
zK!Gt4?4FE;Fxt8FFOm>r0gF_^OpmMt$`gb~<-S;let7Qvn3Ky|DrP0~p>1M>`NSjs
zR}iol3~!7bD9lKb$wDgf58?{rI%~9_ziRO~GvY_+Pb%OX!#MQ8LVcLV1@<PYj}t$y
z#@lsu3;gcYc!z#HPS=LPqLUakolfbPriU%;wxyG9^fpVGBa4Y^KKbeqoNdrUeRS&=
z`maYA6|o4`McJT%ex8T6?mshsH7u@ne2&$5a>N#Q*Xk<G1{)|UsDt7tqRQaifPC96
z>}2NHbBx_H9f@)0d!$KBZnvjSALB?l?|=EA@cccdgpe);)9qpWXs$#GCrx$Nof|?-
zPD@2@y$q{@122i;n87{CTA~Gty3SmC8b7J=!&)RQk7pSh)elgtWtjv$70O14W&RWw
zupMsXyrJ0(-<p{3e(#;7`Ww;jHQoVWZ+s;m?q2bB->rRSv1_60+JX7jnXi)PuIK7k
z=e~O7WX{{T)SdG_JJU^t-E%HnI3opTL(bVSe_?TKVGNqb<zG3s{v!@RcFfC57Z!%{
zq0I={ckPCWw`u*-@bczm@#gm2#`auO`>mI5U--1+Cu6xiy}72|*~qH5w%~2bd7G9F
z{YUSv`!2i%b91ov>cP2#OY8H2?JLghPq24=k1@QbAZ?nCvNZjeL&zpWD?WH^Fdwu~
z#C%|?gN=$TRPf{2jB2O?s<$yLkT<hvfjOZyX4?XbV~n!G=}55Lim?{OZJ5lmk_F4Q
zjhVIJ<#>y{9F=NI&Z1EeRw+wauu(l#Is<8bVG`ppufZf;lW+QoA#~fvp>#WneooJ{
zCX~iY=)MaB`-;LDaUxY}L(ilQT*Zv0!{}A9ErWX{7POHQP82Ks#r~4_s5%Qma}wyq
z;bSoYEQH8iW;W0~q~(uhF6sM|oOD{%Xfo!~+<L#5qg`|Bb^wh}YktFVn}q+KL?n&Z
zum;eiDwJKJZAfd2IaA8d6W3lnJ9qZV+xi(|+Ct(&G9MCX3mxOJhn{Jqk{|T^u<zr(
zTOIjr`))^XzxI>*PoqC+%xyc8tM8fh(|O~jg{GyWAN5`DgJyo==Du4UH($(e*jL!_
zVs68Ww|C|@^yZ^SaU2<2>=+N25v;k|HP<zt_^{`r6W34tK>Fdp#{>Bdt+|HQe4uT`
z*|rvD5DUcoau2sa5I@bSVpx;ANN|(ISM_`afP`p3>2aW==%g)utt??j(1esFbG@0r
z(7`Ll7}<Y70B{IBQd&{30`U30^}zxYc85U?=Z{<_AJKg=fJ}%mBHJ$0v@37|lWN7M
zq$}A1V2O5?o}7S9+&Vk)xL!QbN=+wO@SoXZSheYFG}ig)wdaFf?;1}GE3<d<u%T`<
z+o|#QBxtjXfCvOGaCXv)corcd=?^dHL95V;Py_Z?CVd~(pP+LI(AEV!0O}YRqcCZv
zPMx{QYo1|Q9wkMJERcQJ|0(>^F}zEPN>@HeUp1ae4$Fv~5wjvisY0u9Kx5S{hO`Wr
z#gJ615vH)2qL?-19=?Q+s#*wdBu8+_moN|hBmn|d5%;0_5Z+FXKUfJP2!4ncnGM$p
zXEN+4lwBvT@IP<?;fz?D;CIHqHU90%`PbficNM4f#P5!;c-vPR+w<P`*>OX!`Ox)I
z<a%Ve?#GQc8}sY-<|F%7y!-BY0^gZ{T(AB1J4?~eJWZu_oj>;7^ySxe<|BJnyn9S*
z;pydV^T+dbP=#`Joiis_L(%z@xzOgBqln&I^e_0Y1!qp&@deF;d0n@AR@QgteH3r$
zIu5bE^`n;SEz6EuXO>#>O<jd1lIHoQW3v&2U!ua@K;8VixxjNP&gZ^xl@%Cvz?v;R
zyyNFQvjc*kSjpltKV`BVdlbLr$=neJmpSnJ<T8-b75U7Mth02#0jJSVl0BW%RKg8h
zB_+iCw)xArT?L!~ijaNIpzK;sQxscise+H;6-Dhp;c|kfJSo0XSGU}d{$8;GQwQ0f
zB2$luKV8E9x(qBF6r~TP24PP4Lo4QC3SFqbKA21)cpsu!Muvm$DTL?a@0=vD<H$+`
zI}hGyHrj#?6Wfi`>l8GFHxP!Iy`=v&6k-;JCtj85=yaA&V#8#l(zlh}%u>U)t?>;Q
zJF?>Wlx!S}GO>xD#5wc-;Ea!$0_=x30CDwXr-9_xeMIb#f&S-P$m^nm1NMahMU<Fz
zE0Iy)_sFIu4D3P^qx=hGHxYfHxh45xG9l{>P5GB7Hkg>QNc9*Kb4|)hMpb@51>Zxa
z`B?#DYsz&h{eUt;yUK@@5gIAxV#=RU>A#}vBV<}QjUnL3z@&_L5oJVoYOFE8(ArWc
zqZOzA4KBd0!e5$Q1+E8f9A3`;`0~xmzgqWFK5}5id*HDQtFW#)x31Y_Z+r5Qy(`|m
zPi0v+s=U;2?ajsbLj1<*TifR2`T7@T`c^}=^XWoEbFQH|->@?m+6mr9e}#qNnizjH
zR<B&4p=Bsz1P&X<vsQ$c;jh;)5Q$itI2|R3>vScO>gGJ66N}-}qc;d0vp@yrs%KU@
z-AhHf3B!Pl<ugJm-={LNm@@;{BkuwHMU1hO{Ic@rC?jsCjvzz0BhNpq=J?=0aN+;V
z1^)}T@qs%MsG9LSc&>)8dAPHK4?P^@dwBjd|Ddm`i4Q&K3iI0^Y^mpK9<;mpXCBnJ
o`Sp5M*Tx^^A4vQ*{s`*w>-py%9Psn)4>m;j9S^smHP)T~3zJ>u+5i9m

diff --git a/crypten/common/functions/__pycache__/dropout.cpython-312.pyc b/crypten/common/functions/__pycache__/dropout.cpython-312.pyc
deleted file mode 100644
index 55506cd6a5b819b9e0c2f00f965ea803fef47ae4..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1606
zcmZux&2Jk;6rZ)%UVp|kA7qUR42X)lq;?~U5N_27wG=_6RwX&*VsE@-XWjMgGP`c-
zbR$I-2e%g*IHXYzac@P*0Z#l8TwDbSXVrtHa_P+|J@tTiv)-|ziYM*7_vU^5-kX{I
zBb`nlp#8~z>zxQfFPOq96bMHjg0PKLqzXD(9&%w>P(w9gIi!ke_y=J*+!At;mn`7A
zC#lr5%%)Qjg9MB*ISk*?zQB^Xf-2lPjSvmFXpw0lUyHcNMe6{`-xF?K0gs4p1u(Ys
zEmFgKEE~{0!41(_H%w<7$T*}rhs-yCtKwc@7mypWry*ik6V;*NH;HFoM2^I5^%$4N
z+(q@|SmP3p25XA%jro3LFTl4Ux}xiMw-Et6AA^5p?8hZF>I!TY9REhtjn+?a>zKQd
z;~p?MRG%7Kx%9u;X1I0C-^`Yiltma|0t0=g7^>OOTX>yNli1ic8w8tG?5q+@bkZP(
zV{=_Itfqq<V%R3dYnrp_XRxTbqO54T=Cp88aU5DKTjhMhw|z-#cF~tuEvtx+J3|!(
zS5_6nAUbwTyh4T`)I7dIs!CILiuhdqvr)K170u9$S`jOj1&D(?iM1-$Y+Noc(IzRE
zj|KCsQ3hy0S1P24zo}xIKr7}bYz`XIb*!4uIb<^}LKR0d4Xhbw{h<6P3u|Qruw1^X
z=r+{#%{4ysKo~5npXD%*x4x>_LB}h^StG>2=P(=uo?rj!GHqE)u))Jrb}EMHV7qBq
zCUpRij|W%G1{}u_q}rq~7|bV>&k0^sCAYN-dC6W%F6l|SS*wAMC#@-zP0@=~bkiW7
zRDptUrk+RvfhXD;+ywTFJW<tdmprl2)Jt9%WG@V2P68LAS3SY<V!WOw1)#hnOHvwM
z5pN>sf$M2XY&g|Gwb^TAvjlpbFE|aWaHl}$&ldtf1!%Bg8ii`psIZf;3qiWP)uQab
z<1g%y*?m|x(co<qi?=V|yVJ`|wUfPgqFs3)gZxmvf43WZr=Lu<?FXMf{Ql9WKdp7e
z8(n<k0M_Jthf-$i>*uk|kD2?KUTX1GI22F(6GN%#!{lUdYPNl?KQ+5u+$#Qjv737T
z@5$`;+}7M9XScP}dVKfS^S@vC?ZTgv3!B$^Gq^LqRoc9MC{6U_le_Vqc;|zT^5oQk
ze7c?P$*2C3&peaQJiT-v7u)Fp6v%c(c@RO_cXwkuvCfIk%_lRDGl6UFnVfr?Kajrw
zJt>3Z5%h?1;oxHR7nZK(M9M};+3((yN+m_tOC^6OzaW}r78#b;v5O5;ZR+F_Jqaqi
g4mL9m!h#?iy@iC#3pCMBPPaeVlwL(Y60&~ie*|)v1^@s6

diff --git a/crypten/common/functions/__pycache__/logic.cpython-312.pyc b/crypten/common/functions/__pycache__/logic.cpython-312.pyc
deleted file mode 100644
index b77c06916290c1b3c832ddf722c8696ae9fbb6de..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 3869
zcmb_f&2Jmm5#L>|D3U8#qA1ysW!X=SBZ-bpS*?rKtRzE?W5h|Eq_Gbzqk>*>AE~96
zyY$;-EHV_LgAW#Zhy)*`-qfCKqz51SKlDO^1tct5pg>N(8CEXIq3z7uB`J|afB<>G
z&d&Sb?99CR%?$rBI2aLN{B7jF`R{=H1}DuS`OHxjm|Z~=G|>=J_?8T@Af+Tx$O&5D
zuVN~o$&ZDUtn~ry(}F;QT0hW!Ed(^Ag@J}?C>5b{N}+wJ0UAsV(*D#b8cq#q5!fBp
z6rfRU0O*J|qzyh6Q!(un%tp&%eE21*@=;uL!@8YzsA*d)9(9B1G<}#(<2y(Fx8uDH
ze{T456XyYS)pjNN(3Nr&9>)!>sZ4WJbIp|uSTP(|GN~&wYLr~r)^n!Y_h^kWnrXTM
z)sW!{z;kp72)IS83V9LOj!_lA_E#(5*t<epszg7fPKlW|v8j<ION*rZ5|6}1HVm)l
z5_}UjT(NB9_Xzp^@|;sB&aKa}`D=3-RxX0&a~Z2pu*|t^$;>#qW!iIwmD4kcVwnxV
zk2skE=4ceirtlwS;ED6qqpe5V5C2rzTB^z8N3brOFbF?(%%G~E2vxBHi@nVH8h;K0
z3=%8DCk-Oy=b|g84X47+z!BdHb{2Rx*d)`qgWI6oVD!nm+sj+G50r_zGSN^bYw{#J
z2YV;<`>7nh01juTK{_~`tJ9_A5Nt9eZzD5-q)VHYw`O5`SE!<|;DUdouNFX+^C-Vd
z2Mh%s4_AS)V?e-B1H;?%Tkm~!W9vpkIaia<b*uGLIcf2jlcGHpRB#o^FOli(q?R_1
z;Y`~}8<NvPN>ys&Bagw?F{)BkQiNRV%m&Q!eI18j+6>2hfA^l&LSPT{O`)B5mvPyZ
zopO=7eYT@!9<U3r<_7FiAs%3F0MEv8A)@KoEMx*RLv2)-5aPu(_YsmLJoXJBa9z={
zJ#pua&G-Km9ox<~qEiRanR;~Q+1VHQ7oXK;mmAUFZoYr0jQRI@ppd#k_M;8u&6@nC
zceO1yfxwnC6EMMqqe;C}PSY6`aFm~P0+pqAtU|HmP@6bwlweXLpQ}cR5-Uqo;^k5@
zdzI)m$v`^MHLy}6Ma$M5{c{@UfO(0I;_>=i<W8|sKi>lwq72Dxc$&zDwDWNL+V1t8
z>ra2P^<`Z-Uz5*wTZW#*=ct9HAH)&b#q-Y037a6RTLxIzZ5IHYYloToxXOT6fg$+_
zH++mKL)#a3<2&)EZ`Y3{qMjFl@_1DDRJR>>zQR)F*S^Bw@lPq_?W_(y{!llm%1ASl
z6U*dRq?>SE{>3D`5EZ@L-f6}Nnt|jlnlT0h6F!<Tvoo_d_4HExSh7GrHwOZV`~4X(
zyFwe3dA#V3(ado0mN2T?p!^{~ZUm|UO+@VUf+p-qxYtYpcsd{M_%KY{MHKEmpq>Hs
zmWxG0_oMkeDBt&>e7Ai_4O*b4bLEk4(?|qRN?K<iz%`l$pKC<5lip?`K?<s~mQ3=a
zczng7>&_R=A8pL8$H^jDS*1DM{34^;)ZS<v#pCm2+W!gBvt)y;lO<SNSvhg&O82P+
z0*f8T*4wfyz$!x<K;*GgE7a7QTJSI214uK~%yBd$z6~#?80ZV(l;p<U|Ln^AWitQA
z`y`{9WR((C%a?2i{7|xWGsgubRmWk;`vu)hLw2}NR8u3(HFce@B|MicvmAI2ZO7sN
zAc>4#C>7cm?AC@Wnjkl6RxKG$5<Jir<9!3fsOvvgj3<Qy#jEapZol6wv9}<GI6^R^
zue!3TY3aDkQ<xj}buUq1z3&4%pqmb51*+*P<V;MxXr`CzPoXp<zlX<0&}|CeP79+G
zyNf%E`xl>$*MIi&7dQWYy?*UxZR*`d?AAf-gL>?PM(ob!hljBX`{K@xgV=OEHoaec
zvHX`W8?j%(x^m_~IR`-9`$I#SsmU{5mOPGD<T+aNz#K<w8y#%CD)uU)&5E!gRwZau
zd8dL&X(M2UnsY!kU*R|ht{TAJ4@;){3&?(V0a6*qCO)!kl4VxG>tHQL%48Klp<(WV
z>Y+i+u*_a@(%K}mj>R%-iB-!o2ne|I$vgMFem+T{*EY#L2DPcIQ$yn)x!j5oyoWX}
zyc6ZtZn-JguV@{jdCB9AHyDE%z#%%Q3)Q?O0p;^<zikN?#apUjQ$P0ob~oA98cpyF
z^1jQZd0{9qyfn8jYgnq&3c8jfyuKn-P8U@B0o6J}4ZC-SqzI3F3kZbTX(1Hd9{*?m
z#Np`V?#DYHH%8xj5<ZNL?umQ1|2znBwH1056vj^Pg?H}k{|@F)LRb#s&|B}V)s^X*
zJk6skF1`F83{TB5hHZsA;X@|j{l7?f=A^MRvOPok(`nT((rK?2@dldr%e-O5evt8A
z2qD8Dj06@$f_)haA;I+Sm18I(9x6GQxS7wrPMhQG`_Mwc(n<zhVheB*E3o|l$g6-T
zibunOIP`B}{&jFfkv98ZUy{VLuOpIp9tr0reNGlHzB(mD1~!9-VWl^D9hAfitzS<b
PMaIP0qpKsL2g3gYF-lV0

diff --git a/crypten/common/functions/__pycache__/maximum.cpython-312.pyc b/crypten/common/functions/__pycache__/maximum.cpython-312.pyc
deleted file mode 100644
index 29101934a75ea2dc5d876575cfb63ede83693efd..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 14228
zcmeHOYfKzhmagjR_k(`%aCh6#28?Ng!948PPHcw&j$<b{F>#Wylfmt-0vba%u5OG?
znz)mRG|eVjgOU|k$!^*+Sp{#r8lsgZ<kyf)M)GR^bh|vEr-qdnO{7)+teg-jJNdD@
z=iI95YH-_mtXA3|TZmh)`>uPw^PO`~|BKCLrr@~Y`p==8Z4~uqyipE~e6jX-a4}1<
z6iW|Nr=&A|iYE7(QyMsHhM5uVDJ@M6P%QHc`jn1!vD#PZQ+hb-;B0`i9?nKM8{lkW
z-K-JLX4dp7b;<&FX1KGm7Pzy)ofYm%;B14loh@Zc;Ov029nMY@#g?%SxN<=bC!F1v
z=s@`w*x8-{Ei$40fq+)j2l;`K;6>>ij))B2FeBkeNGlHuPX_pB;D0Si;}GNcj2uJC
z;FSk(9x5y;KcCbls3ELn!|}d+&(i1WDT?n;FnlZIG;PQRw{eT|Y{;rysb^LLrApL$
z<?06WzTCt2q33u^>JqwM>O0$TNVyBsAKFITt&~ns2|B?fw5;}q?tPu~6#Bu$HpR>G
zd32EH9;0|)o>8gq0sX{tC%E_+ABp+ngPcDcVZ$LV=8yK1Tlj$Ck+Bi~h2ZcQhYy3p
z!+vg<8{s1H7-YswW<MNf!jaLj_!)nki^QUQ6M4qtY+a|W)1sc`E<m-1VX0X9c+y-S
zR2{JJxDZ5B|5zjx4@V<0(F~9KM!5K3loc5^JR&j?Zd}yGqkL#k)J7v*jK^;$>Lxfo
z8WT(Uq$Srk$PJHjyy)zMEPaE~cwao)2V>zb2K1sf#trxLb}VK%$8n=rtwGKw>gC4t
zJQo`qj>q(n4F}}+f7{d?9~o`F*vz-IH;4F3qcFDSP;_J@8fngVxLKZ|rqN40PAo|(
z;3D?-kR++EjZ}&A$_rC3EZeqaZQGKER}Ge*UwrxE&nBjydgbz$ddg98hoNlFD@Ue|
zym@l=)Xb^0X1@Jb4_<%pcG&}hbuYX$+3%PsM|sM2M@PBJXE)7kdVAYD4Obh|XBSF8
z^nKvF?L8nk58g4T89%rA=DN}~>G1{qQul4!(d6MjSzIg5>hzxZwgtmt>2G`=`2=To
zN}sbhlTWNcN2zrZimQr9Xd_(A!uqyQL-LBpyvjk=7;}SuAM?V|O9eFdUrpi2k6%sK
z8S)8voLqhrBmtUCc0kLQ<0JgO>dP2@4E&0`51-?RNP;7Z;iDvV2R@A})qUmQ)WNyX
z`~!=RrVa|0u8g*e-wf~9O-LTH`e8}`NXVj-Q{Mqw8UkC6;&7sX8^Dd0WiG&YRS*M6
z(B9B0;3NrlJpaLpLYyw44buvY?WSl1F`U5-2dlqfP;yP`SsMS8c1RiLh5~SVS+A5B
z%7d1gOBsjUOBJ#J)>u7^O@G6vz}oXL+mm|CnJkAf>L=hc7ON8%;tiA1FUYUq+Y`F`
zsfhc3iF42{?}Qp~t!+3G`B{t52_3Y>@Y;kfq3_qgm(j&NO7?_ahG4JqL_I4IjAd%5
z7Ai)MYiQ~x@D*t4_4h9_KcU9yfO+CzAuxX*BnChR5LPg_hv08OBie?e1Aw~h7{OSv
zl#Py^9p?JhJq2OHu76vaN46#viJykIMB=oPl;JhW&ZG9cu2E$#P(l!$w_y%cq2!gQ
z3k?I_id6{uGF110Ch3dw9H;gyCfefM$Y@{m0>|@VmLuW~{9$ZZWMX3@d@0l?n#Llr
z^J5$b_>XIcXoG;E7zB_WN(x27cF`s)3mNKBsu3dKkWd1#pT`7P85QdU2})9*+Z=`P
zoimt|FXk-vD|@H*zP5kP`B#T>?uyy{GyC6oC}XVxJk69H%vuh9?%BIoy3~K$^F-?C
z9V_MVW{jS%4V0^F*;$=+R%dGWFCNa+bPCR{FDcr#Kj*J~&vMPO(3Q3b{(aN7Zy0#E
z>e=$nrmLIMI|a|KWlww7(=K@Sq>kq79;oc|+SZ)aF&#>`1IBlK&1klnv&O9{+w{a8
zJ!LJ=ShnQ6mFX>6Z_~1;E$eApWR{-Ic-jQ)&>t)=$W&T6dvNBU;I2ut?+soX{N>Os
z_b$*jPT#VlHtVQO_uh5{R?DhDuh=TSG*ec0&b?)BGUIN{SR0|Z)3@T-n%=qKUKm)6
z|K`PyUKAY1?&z4(k~<V*EBR(S4B!q9?b{fxk&kz{yS6i*Zr63~GOR<^ysCK|a(#bQ
z0~C->0tvE!(gDoS;M%niWW+0!tAKWc{Cp4HvtEAqN~ns+&=-iMAOpBG0=lAW4W&GW
zgDF@}xW0Hyp2e5@AW2fIc6W-qa(e3YT<`q$#RpQS1zTtGu(YZ`$B(B<RvqQj=Vwf*
ziMc)LtylMD?6nzVt)!BWPbmkoTB4&7Bw^y{q=wZ1B+-*JfLk8?mFyJcP+*y5&UHc0
zoZpo%LbKXQjRsXiVasxr2@T6kfFUz*kM<Ox{{{Vz`oE?onK;f4Ifif^HyrUiOIPYu
zdfP=^(S|ewR7mpz;11#b$N)DSs1zsQS%L;uEcbRs^SW0H<tDXCU8owQUdIuk$We^x
z$8pU{Z;NnurM4lLl1n|aT2xX*fz&0Kp}cxib0l<1`AL03UrfcYc?CLYNEld}sFv?j
z7q0ychgw(BzR0tY?@_+J5GW*^xp69Bm{?R4QH#Gn%CENp;)B7se=vA~Blf~zcwmr=
z#btXzvJd>h(NR7+%7=q-$yNaV4ORlseZ|U<jRyb87+4<1>mxsH4fug*j|Ta042%MQ
zFv9wS@FWt82P1KRWNhRt$3tN=f$r#7ge3+Ga`UlBI21%vg1qbb;=kbFcfzE6fr|p{
z4=uDFlQg3ZEQ9a_C+fM2qtJwCkV(F%gLXpaL>(WD3~-{Bj}8y>NOVM9I2`GZidxWS
z1ETh9I35!<m;=Vg@?djP0i$T<BB4HMM3V9|^U?9XVJ<Qd9~9}JNQXuGtXMi44D;jR
z7}r-YP@bTO5$Yi*0twMeV#RtZr%x%%cS6=6{KqyCT?KZ6vvk@rRh@PxJ9B}yUsYYN
zT67D6155O+K*zLqwrZv-?Y`~Ywsbyu6foT6O_`UCo~+R`w<CT2YE#B|V1ECv4qZPa
zG(2?6cp%yFHRN$zu}#@NEnAw%Jbm)xmxPXIJ}ZBAv158-_VUc-^!fRgYhw#-)0cl=
z@xZO}X9eSP$quO4=$h_$`K7mY?^v!{-tB(x=(VH5rsm~M?b%K33+J<&_TDn=%~ko|
ziC>MUJKh@47&qsf+m@X>vd$gzErN4rN)I~I>Y8p(J(ST_fZ5~Ux-oAc>kQ0q6`YOB
z&gQJMdBME+)CVPk^ANFV<br?ss)DL`jwUAE$1PjB0>+SRslb#K_#sMR@=)~@Lrn$6
z0Kf8O6B<Qcx~Lbz1e2JdJi3v(NunYy(!^qPG@)bZ30Rox&VY^s4B(hX!LjF|WuU=^
zNu!FAL&SxowuM(fISuEYm(Ge!Hfbs-lSehRT*8zv4rmHnn`B-;r==1Ms8D8Niipt>
zVqE(bY6y}JGS5aqSe2EyPF&Ak^2bJp!|`}HG9al`Qi~)L1VPTk;@oKLj4H`~@&J$p
z1k11D!x^|dBRdmzL8q_NM5KW4)xsUW2a{GvKw_~$zMWi;4{|&QKB-_lU>2=}6R#6U
z5N~K*bg6<WaZrvG={}Jj5$TH}eMvO&+(;082)t-j#)$+rhEuNys3M}<i5!o`xx8=|
z3U(jBW*=#lKLLebg#XxEkbn_tro45_o`$TaLGbL%Xv<e@uIb&cJ^vM@)jdI{=$y53
z*;<pe)}%WHYdze18<)MUS#Rq?$D;Ft!;2kD&W{c+b=;&s?#{Fw%{<wg@wN)yr>E>G
zI@OX2uT)gdPR>lGpPJu#?V0(f7HFZOHDz7dQv1&7tEcB17fqSKBR84bTOQ9Ey?0F5
zBy`AHnbB^!n{lAlMj2Rp{(H!a?1KXz6#B=2l`xaA%91V?u0YcAvIO<XM_$r22~AOH
zVic*H)W(rjk)vRB7n6v*=FgYashS@=WDICyxi6FYc-{aWDx&pShTUi~>x&wr3@{Lw
zAv}ly3v$Z>H)Hei42HAeZo}^~Jd;g7{lo!9<HCAVrNU3-!9Ny5!9s7{Iuj1^4Mh2H
zd~k%Qw;sM4dLSB=rOS82ZNMz)Bt!pjFb)DKNe>f_#6|5$5EK*xRgyI-*>QDHMxwnY
z{s3MRFPe_XlxPI$>>G=r*hKiF`1Tkiq6Os&4ZRCoNOa?k;*%pbD96T->*WPVQgNO_
z({SCe_@6@VDfo~58WLd82ItRTdif>6P%+nX%dlB8hjQiqbWLh+vRh)(?$VSo=kP8&
zs<V!2!BLyi<&3r~<|*^^UctCI*|B1^zp0%y&KT#MZ&(ED=4AJZ=i#NYo5swEX9dr5
zAckL?DYI?a<jtDAna!;WM>D=dg6Ux})^tzOxrPJF4ISBrj-|m&Lx<3CJZr2^Su$ny
zV79^QRZBTk@QqHrmTaI;=<-LlGM{YKJ<?zZ$rKevL{WLc`V5}lOA!?)6OF2h?oX;!
zMWrlA5I$J+sB(ZvYt{)VSW`${$$L~m8c<qAo#)`~C{#{Z7bqtXrJ@QHygD=zbEOAT
zD^R<!(0?_Qr{iQsNTL9OQW6XSlWYipUun{GkM>MTexUzlT5!=rP9q8;_WL2I8P8Im
z$eq5J->Z<M$MZfe^yw%{dD5J~Z3tP=)m}sW8%8{!xliln?`YkkI{t^y|FPjnSQ3T}
z>f0L6d##4hQM2JF0%O)8bck*^U=+F=dS$c($ZV4(tO5U&rvPNOUN94gsbCtv%a?T-
z-pY_>oOtX67aHSZVXzcpV`us37|;WbumNPicsJljw7U=v0=Ga96~dc8@3$&|H{|mK
z&IrWuPs8ogd<~>M;D16sz(0ctn%zM0&+~EqFy0foKmg1D9-zVCC@1<0VP~CROztb8
z6#Nk^j(UPu0nx4kB7YiN(ql_~5z!g~izMDB-x<-w0RGO44#H9TRMx>iiNz|$Mp>|o
z*n$^*ScZQX-`dndFgaq0f~^vn67BtC;6_8Rl^+=73=#^1zYAZ+aL{?cl`bTY*I9VM
zWAeA~ADf2N3;=6%U9nHu=NJN&U;>ml-z=T=%y{Nn-q<YID#2ahE}hfQJeYiZ)nH6@
zymCRpVDP7x`R1O_mImfq<}X~|pK<R26t3H~T(>7%w`bwvQg5bik5Knm)>xA<Zkh{#
zolv_&vNsmnfW|x^G;}TvXB$prs(UlWs+C>47luBJd=L@#92Ryx`kDL4e9QFF+2b?E
z(;dGrt;@KNq>PZ{8XiITHBP&yY||IhOgebYkgcfC`5KmeZCPL2!V$rD0NR6bc=l!X
zJ$AEA*mNBBQjFBjeTzGO)BI8M&6>=UPyO?DVgHFtLvPW#JiySJvYw{-i-Kows$|8x
zmF&N~v~Vd?*Rd44?LC&VlX+UURc39K8ULO|bEc|Ou%UO))I;ZLT9<3~WNY>;w%ycb
zYW4^<Ph_qB)T7g<L1Vys;9QQ1RLNhy+D?@|Mt`%p;Mun^bTWM6*wpROe!91!yOQ}`
zrLMdF9tz~<k6>mjSouGQoiU&`08V)~K)$9J04l(Zun!(729?hJ^2z?F2UTTu|NIKT
zgF?{B3IRMHpsv8mI`;sqWBPRy)R5<h&<*)eVI7o%50rxzJwnBHh!c$DPg2^N)D);I
zP@xJ05+6<x<#kti^!4QVrP3cz7I}t>HRZun2YwgrMA!FYf$MNf_VO2?C44K2N6JO~
zAOR!caQsPpkT;<C0Nx@Hhz7;I9)vrvwDPo%{|V+fg$akr!;ln^z2I;RXIzFEiPha3
zUgd7`qfq2`@E`jlB=;hB{vGq33$E$s?nm%e11$?3|FAiAac<i?fvbVH8gALQE$&So
z$r-Fazx48@pS_6ttt$<?7Ro;KeBk*fpU`mNGxzayaLKte_}eYh-Lpq$j?SI`n<p~v
z<A^KASFO$~$ES|Z9RbJ4<AOB+6w%eXuzRsyaCIh+<y>2qUE8v*ZRx=U=e1$M)wb@L
z;A)0@!UO;Em5nNWl9s&Sd(E9y+D{lar0W<UejQXVYoGlH0scY4`<<p0I#P*v?^TVg
zA#_P?I9M&KyK4v0vLO@PCKzB5Fe*F<i_pPB2eI8~67^E5VRnB*?0@oB6*r|%8_%o(
zVQbQ$@-8r6nS>#4CK?OEER1AyC}3EI1cThQpEsOmK*x%Tv+N4pXxarsA&9f!ks0_y
z!B{BBB0<_<;(b9lNi{T1NRY&dkR3r}1%izv<%AKfXD=#2;-ABO=#?O{7$~sw3IrYr
z4u1|3$-OD<qp3DuF^g{fW}iBmK4~-@ABXDx0ROSiA-R|6|1i5Q2YjUEm9Z6@qlhNf
zn0&eF#`l`8H7z`sZW5{wX027AgHPq$-fwj9@=FR5P~$d-WE;L+ira7R*1lJNt$x1c
zm*Agi5**Efb=N{m*4j=?#vC|0kIZpvjK-@+qft-Un={QFOBZjKJehnnXK^KazHvgW
zcd%-CC(KvTS;hReO4kWW96yS3XyJljz)NreR-j^?S=F6<bfhSX2iz(kLnLCrs@j8h
z<zVC-VA)B>`W&i^vw21I3LVe|55l50BbFZq5114hgydXu&~03+u~9A*?hnICRoS`}
zR@3A^BVC*!m4$*4|5=D50^$#`M5oWJGxX0if`6mP)-*idULXz1`Z@Cgsd7Ud`}3O!
zcW)sauSbI-67YlZanCJ-;$2XyMWaNnroeMgwkSyb>zW`vgpsb>nef;5a%3mo-`cdN
zsTDk={=s;BG`7FFxj#C5t|`ohn<DYZSW_h0JTg4k3^IQXLXL)lL&2s|wm%>ZyV#7V
zy}ZZZ*L6<WKv~zhChQ&OFYI9(eybneL*5Syj^7H2=q}RP3D?QUxkz+8LX19Xkw7R9
zI(rBZ5qJ=-C%}|~?V@g;kMaSgfQ;Z?R}AF^)~IC5Y{R0M{5!sS3KDRymQu!&>8e`>
z|BAhS-n-B%*!N|O`*J3G#vQn23ar?1>!4GxKb$c>OrF-?GS#oxo8~7L+XVZejPcOt
zCEkp$St!|+G47I_qJ>h6az&(;hYN@dk~JOZJ&;w1O34RD0SRVs*ZO5AYy}k70Ojx~
z@b92sAuq4eTaqI$p%T?4yWE-}h9r?Cp=g)?<xM(8pg}9$SD2+`dJlm<Q)ES)c|r2@
z|Gz}Dd5rr%CD8#n&<8~iWRb`l+6|(HJ0H+*kWC&oqA1a!_$$B{+y~C-0nv_66o)W8
zEeN=jY=-I$o1I1Cg!ly14PGZIhK?BsvMi_EtqVJrYHs%5cAZQfTdk<hXiL!*d^zW<
zTlVeB`gSe21>bJ)1FV+&XGdm6GPUhO`R?TLoW(nLEMwW8(QcQ7yHN1*!u<ni`3VR<
zs|5irBI2rjTPy+s_6KC}P|lH>@2sa7F~6%GfD0`Ksj&=+B*2JeI*DP1Md-R>yMx^h
zZe6fqwNg-`O3n+NpoGxF{zk+PIdu?}=v2u$34mi1+MLg6QQfI(Y{Dya!ccTCB_Fc_
z4rV%81-XhvR8YmDD3p=pXA|0hT5u)|2_u;a*l~gAhW{W)wH`f@p}_7x8yy+G<PQx-
zV_ZZDd-ew*02rD0Fxi612SeurAxL$&JM&$^5Po%|6ErNAkeql;pnf5`dTf+D>x9VT
zr%6;bskk7RV)#-c;T=#if}Mn3LaYSo9ahGM`}<)d6apqBx~>`zv4Z$);u+{6<^#yI
zALNPXZ2kgVO_V7*TCPD>(^kp2aA0P1j`QfF;=w5|8yuZ@g)+*ILn4-pa}XASE>04W
zEov`>xpCsBU1x2qk18aw5TfgD=cs6r!uJp+AYNR)fdKU)MhFQRBuNFL#kbHK-~<kc
zPbl0%%12>WT<MwWd3*Oe`>*a#pMC4#ZR?Izr*F1$rt)1KhUd*c@=Lqm+(ja-F(R%a
z=l0CCPm{nuds)i1+S0z@oAXM$xwkz#mv(?nuxhYPdv6(hE7kil`yam<5~@#Rja4bj
z%qc=Qdb6h9mFh0o<^|W~Ghj&6KpY==4Uyw^U&hxel(c1xZQv|*S1!96v#!SZUcuD@
z?uC61E&8S#mR;3ZS9N;-dxx$a5^CCSyLR7fNFMu>!IiUn=Z<FVbs1ybsvY7Fy%N5m
znV}rGV@k-&r!YGthU^ref{a2+COj*$1O!H_8XLuao1q#M>dx%_kw%eE<qRfu-pIiX
zDQxq8+e5wZQy3D1R>Zre^qbU!+gbUo9CdUm@yc%yQ9o*o_pMtQopLT5Wl`kI?;+oB
z4hY4}`yxru<8RGqwRJ`#5JU?g5=3KbC;T8n#uh*9yI_oPKOY?d@KB(knOuM+qQ-bc
z{XtTdgh?2E6^CdDDWpUCjR>g&k)|;0SgLt^FdP~r@FmG7nh=naR48LfzRB?*L~otN
z$~jgBCR~`3w~{6y{jhCK{FOMxqF&zW&<=-VapJ-hjS(4!Nf4HVPQ>eR843V3c@^s;
z4iVfNBQe7SUkC_oWFS&pG3uFv2pYeJ3jhr(Wwb!#ud@R2KyYq_KqF@b{1Bt@YU8`{
z8{G?aA2xr`EVOnCja|a_ZXhDwlUe6U$Yn3PGBGvrS|VfgtvZ~k*z_~_D~~sx&)T=9
zw7F96?6H|+X+|imO=(lTQ>J{aD^|ywWz!dCUz~X{-6m9Q7o7FrhFqwFSYMy{-^?Xb
zwW;`PJHFIuTxAe11wSMy$9Cr6S0AYf0o)MAW+LzbrspukZ}$W=Jp|nY+McHg+8+*-
zk{vQ>hl|W?i5vje1RuLUJRtoz$IwSYwfm%>w;&}V0Rbeil?0$k&Ld*DoyE84(k0fL
z#1M%dz^zMZUWp@mGv4B+<G03#MxyN4Fn5rjf?I^1*f~h<Ff>iCIVjrtXR73nl=WY!
z%CGb~izaDUbGT^N+72z<O|O+~rAyY1(0Y2?T4@En>8o}NUAeZ|NmqPTzm2X~dy<CB
jwR#urUfbcMTkxv>P9t@Meu7?OYH8osJ+y<CY`Xsjts%oS

diff --git a/crypten/common/functions/__pycache__/pooling.cpython-312.pyc b/crypten/common/functions/__pycache__/pooling.cpython-312.pyc
deleted file mode 100644
index b974fb9f3e5bccfe76b51b8b3f702c6e197ff4bc..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 15512
zcmd6OYj6`+x?s1|l3MSVEx)iWzcAuqW8?5Jgv1OsI0o}D5JJcpp>7))A=}-u0n<t}
zcQQ3{$S(4bxfV0ojkufIF%`D1sJT^fYPV`UySH}PJNuB3??mb12fI5zHh;Dp%x>Mx
zk9+q!r@N)L5g|3ZwY3d8-F^By-}%lt-#OpYzq49R1YGxBe?K<z3PJog^rBoE`C&B#
z5Ay^=Fl2~0M~o7T<}b)|q>)hmF=j^lK6y@~yc-F|!cb77WpwWo=P1U?=;2Mr7~oCM
z*cck#42%)pXjL0KV}g3)b<*ef8g)JBqr|e|EB<T46XWBdPG<O`KXCb~pJPO~pYcyb
zg43+(tE$pJJt{X5O~vK`gFGH|Gr~^`ztu_-jZGlN;J*I)Os<F;A_x{=07)s&#k)WX
z8bK>if{r2YYd({EIuA1_7>1R3B%-un7*kUrBVe=)bzk?H42N1pjZu?e979yDy9D|(
znbN3H&~sZOW(7bXBNpXZ!NpNP89Abfl7gu;Hi4XhMg^SEt6&<@3=x8Hi16uW&h|`9
zgn}&Z^?N%HdSNoXXf1-_QSbOP%X$4_Z!kPD74h=H(Xc<{4UAuz80T5WJ3iv&S%C0|
zOkTJopox$_%<^qg4fOgCKAmWo@G}hH6ZL$A3o@)oGr^EQ5*!bU#sC`(4PP0DN+UoG
zPy0ht?AQMQ*D0Sy)H1;<qG3GD4qqCN_za>h5P}!ct}qM7@|XM*tVl8bh+otK=^`~9
zWUq>*ARi3#5q~(qirQc};xmgB&xS@s^JSI`v!P)=IKy%@(8r<q=g<b>&@78Kj*U!l
z;o)GI2?khRG$Q80Lle#8QxTX4+*YJfJy6SwW<NKoyzmGInhg2+V_SRV%0&CMcCMqV
zJ-}U`h_K;yn7}LJ;r5ZKZ~)B#-!4yg+r)KFj|f493x51Rg(60*R1(hedDEQfwk6j8
zxUnNoTW%R=jd|LgcU0u<<#}gS-c_?g6J;Bom0OzhS*kwP|NdZNV5OR<-T2ATJ4Y8T
zE;c8R<~F>RrK)0w<CpXHid)gyX!7lx-4{Fjm7)Bxxjb?C(;ds^)_l#z1#_mlD?X6-
zG<@mVnDuN--AKQkZGAoG>4}@6WwIt?Z_d!od9yoqY!xUZ0%#(Y3r!{7b=@!w*mc^N
zhS5Z|k;2{+w2{JYQSq==&;k#yg)8hr1&%koK`>fn&;A)HXz@;>VV_Vjji8BAs(z@F
z{ZIl0{j7y6-4CVehr<1sqGlC-T}k{pK?nGCYv4-b*QxO9Fn&was%obxi62G@_%$jx
zZKO1Qy$Zhu<F`faaJH2=ofJsMaCsB(9hzlYse@T2zq5_8(8i={LzFy=h%vLmD8;+d
ziZQFtDLA!sa7sD^L+lh#U7{VMQO>j%e76+7n_d86RUlAbj8&k~eFk_~Fu$OMZCwka
z(qe=H8DdpNB^VUAs8et<_G_AJnkx8M=mQ`F+JI&s)WLU$>brzd{aw#pcmXwbr5C}3
z=n!m-1ygUqR3Y33#*X?$wNcj#us8}>%ovMZ#$r`raTKt))#DLdGipjzBN5zdz7S(}
zAY<JXaViyK=)hZd2~NQ=R<^DZUhg}V^FX0HS{A8L;9fAs!b&S`4ifLY19MXT(w2o4
zSGC*^Ej@xsC`U6CtpINE;HOHVj3F8FCmN{~D&U_@D6WR(Ct9Hr{@I1%+**I49if!<
z7aVKamkXW|3eUW1mOp%*B0e0Z2+$2)S=%2&3S}jCN@4WxxezBH`d$E880~v*2~z4m
zTDG<)fqp^zLQk-la8ICZl%}cBlVDum6X+$bnU4M|6Cw5r8;<ba$R*aRsD`|EWE|8I
z?*$}vCAIN_H{cJ2+6Fl!S!P;feZzZYijR0NvH%M@z*cW$3h-_9LgPVDBW9W<ZR90T
z8x>vUC2(~mJ4K!0Zofun^h{Sj)}$iiUX@l`(0QdEF8QZfZ<iNTA2!S*{ore)56ryU
zFKHyQo`t61B{+7faNN^;jRY{)tQ23Pnfe+D>aYJEv@H(Ui?~OMdWM|_y~k(a$`Pao
z3Q>m#z}Zj*+Kr$}f%YU)p&%a-wP8@Vbdhl`a7omGPBqSRKHP}&heugo6^HhvXpq$@
zt`Z?Bp?7gL2uw4v9ey36hKD;3cLweZ+%LoZa))S;v^UVXK=Ydl$*Pzp0AB+gqF$;L
z$)HG%iFAk^i6AvjG(^TH&;yV5k)oMBcjxL5X=p-lu@fHnNqEKj7j2Kdmv_12hQ|hH
zqV?k)%ZB>At17uG<7$LDP@YCVo?14yWT?SR>tGH_b4%V@_M^Vofw*QxPtdm5yLsn^
zxE?j%_;J&+p)T*NNO}@=Pz9|=K4zEA%^B)QX5*0@l;-BV)h)Gt2CZF*O&|YY+2GB)
zYm#R(?v^->8eRHSw`|^+p^j%Z9nV2&-k7(Rs~c_km|r$Dff|?EoAI>8&1yOiWm*sA
zs6&{}N~zHkv;EfY+1)q0lg<xb%TOmX8&2k^lkwM{(DqyAS@TV6()oz4UeRiFhsY;}
zzEvH1$U}{Vu)A*sXM;)V6XPA@FU_fuY~|LRZCl!qwe5->LgRO54AoC8j$8e+{R#ig
zBYE|sEm1aKHCL7FxV<53sZEio19$aV%f`Ir1s_(7x(ZX={LDePD-t(yuBO;Pp0X!2
zKR%Y2Om@yqXQ|pBAA7#$8z94(w>odVHTzbAyZKJ?WY$`r>Rcf2?p!!|cU#ulp5C%}
z@j-jm+7s7&Z#deWIB?UR?99@&H|?O2tKMMTHrK7Qvu8hI=P%D)PHjn#eja`hUiS3n
ztbMV*$5vOOYktq%p5%$!`*K$AQ^KTciIb0=o<wB+`rP%D^R|$4Ha{hd#+G<bzM?AG
zGdCSSocB~FJLX2>hn`qmqQeRQ^Nz~o?$pJF&by=8nr&%K#?c9OL9#V<V8M0wP_}x@
z!o`eZ`-(y9>|E9AthN;s;i~$D^A|nI$y7tKI_qry#;mipJR{)SH%91fMGKUCQ;nv}
zS@8?<7af_p9Vz{<%y-QTJ^##>c4fUgpeFOm8|mrKZ#=lM)bZ<gA8N9@-hi4+<r`V&
zKwJ;(`?H>(O(q+Y)1Tb9b7P_7m+z)E+4{~*b!Ym(qUSd?U(_s}_?LAL8?$?kWV()I
z%8q2MM`L|Y%+A<Rt{%2tpkN}v3y4_Br1<CXFi)sdUqT=iRRGLiVoco%V9^EQR8tLb
zNJ-@!0E4ityA%a<h=>%FV*%PQ+WXXJ=tzL;JlvyTphPJRA!x?bCXWOFrcRI$s87j%
zOoI5*`5WQDHKAi>jd`tjHN0@jbN*5Gd)wL=m27XXv$gT3A(r)a2SR?H@4oOZK9AeN
z;kF*xiPAGYdK^1gE@0uwun~VS1Qvf7%y?|oda)(lW|Ao8M)_|1gy>h9z1>(4N5JA`
zBZY<_47{7b-X0CHNY1jO;4~QL3e6D;W_;>mh~1`q#RA2LA-GnUy+M(>!urD?e~cW<
zOkuMa{08O2%4`j*Xb^RnRL%hn#fl<`qzMdPVnY)wCz^^5BA*TmAxXqoK}Z0>jBL|W
zFce<YBbU=C&m-1A<a#AxfL=LN{0x5l1t?;~GY{e3v_LIf&bhkb;4zqgI`gBML}Q{U
z_Fi(!BST9b&cd15nVUj}uK7db9<bHpms4k+X*H5vel*dQ^uWnrX^y}8rMW3<Zc3fX
zn7bCvWX)X}s!QU1nd6{8f<XL;-dFblJN+N={+oh^>-}#2hpz?xN1aPoq~M|&1BGt=
z1#OV-u<lZJ6r)v}bf3vi0PK8v*-k8&3wS3Y=b3sZ!aj`ZU?*zF5Ff0&1PXSd?o*P{
z3z{G)??{7x6uK|H89|f$f3y*g`mg=}xe+njukn3#d#_$%LGcC+cHAqu#R`)o>vL`1
zgY1YOG_h{)g$sS)4P!4{P;G0j2^NNPqoNlTNCER1xkKprFe=d6aobSQ28Bq0TF!G@
z(0e~BkmBpp7k4j4zzv{JM^JGT3LXI=;+0*C6m1R_zd~RC9Ez9k+ON!2d3VKp_gwew
zeW|ivRo<<<-}0B6?`=+>`uwd2Z~gl1rJdPV`g5D#$TbXP+yfcQK*?=>`X$?Z2yOGB
zrNKw$p$s+jyqrTL!F&B9c=#!Do{>LtsH7cP(jg=}e<SFi!WYOyd7m*@>S1?|M%j^n
zMiymUoEQNa_dZ?R;l;KG38jUC4Wt@1({qyL$3xS|Ta5g|__W{Zy?_j=3)r-p@N<zM
z7-QGHQ(=CB4FpGm$X6^28RT|t0V-!2RVRAEvg+JcuzLKVwtzeeJSa4}9q?N{1;x+F
z0fI#HL%ajZ0(NbYQE-gK%4W5toctikNn~OwBME~m|If*Jk|aKCpor_lztCPKeVRc`
znUBN_2yqEb+jj0X=ncP%I_w1I5n}<X#ju3<qjBFT8)mOfaQkOA6(x~sXl?sK<6xTd
z``ZeTe+?LTG?c&l@5JB5h^K_sssAq)cf2PaS<w=8jmh(I-7V9sDbbOboO@-Nu3CuX
z=pEl^0qk4c{f}EVks#BG2AVd+hPlmvQ8cpQsVksYL|C7O8-f}v^mwEeU66$u-h8O|
z4g7dCn?S@9g9|kDkH;2j{wlCs*PX9uObui_+mX#+i{HqZYm$?X%-#&umuc+FL233r
zHak`k<$tK~rfPB(+n(v*1!^q%6+)}iKQG9T=#T^%Q1esGPdyNA0@W-;eBc2QA|LGl
zQ@9lNixMi<UZd~<>k?6I+yhKZy-!D}xF-(2QHV#;QQasJ)fX9^(JM<2ULRP1r~&+9
zdc+dYcR{=rx-PIj5?&C|Dd~M&6Qv;q13KIwqGJLd>Oq+Jcad;HkrqWk#R{Z33O-(j
zjM|E{0ffxxK-&dOn_0$Y7cBCVLvRRoL~qooYUvcL3U+7<wsq76z3M<<(%@mTA?l$W
zzJG=o7p^Gs5gL$ZE^7O*8hl6wL@~mQ6=V%bgqxrZPyn?6k4A;Y!;>E#1KbqGt>Bbb
zZ4J(g6cN@4#;8@$mr@LXVtKT%`Ti|MM2cd*utrh6ppUu*_Xrs+V`xDiB%|ffZ<$a&
zqJ=}q=zjxHm|z!rk8|VG5Kuy)D@pGI{nQ`vVzp6n8c9(pr1D{9cS31^>oE?b`FY#D
zk_w1K9UNZcSFxn)WW0qa4f?`fnS!_#V3M_J83>~(0LnV_sY^j{RLL<O95kDX0HMf{
zrHVmq^-4~ttrB%ooD8Yx7^kGt7O+VAIs~>@4qRf~_*JNYfY_*)^#?8$ojqQD98ZHZ
zI_Mfl!XSQ!gKyv|3nQP{6ol}kFdcT94X&}c5VIh$z51`An1^t1R0BUPFs?dqQjjyi
zd~l*fA@m^-*nv#Wz$S-f)G->wL}u7##d<T|egfWpu(@b~!W%{-&~PqOQ3|Z9632m1
zU=I>$eWf4@E_Yz9eqe1JuEi{)l{|yk{RJoEcA!br`zI#YFyk{K@01+WgOgi&f=DIE
zF<ztqf*0+`)2LcC?sbH~jA4*xiM@tSUSw0CNAfa{jugb7_`;$>w4=Bwuz-w*pV?j%
z7;8+IqR3d+LIkAzKY}7g<ehFXvhB_|m9MUe+mX}Y+U@$MgxS~>?|D+QA$j%A-i6)S
z>KzcqtF22p@0<n~0d@~;%2s!0D)+|w^Ny<IK-SS3?*Vh9xh3`9qo$pA{ENrp$Kc)S
zzIAl=XmZOk^20c84a^QCjel!tT&aK#Agbs9A4PIFW8a#gw?2Q;qrqe5ISbqL=Om82
zL)H2#sx5u)LyWti%8VhEXx)XD^?t$ZSI$3Ro03xGdtfUm0g8$c?oDR5LT|w6C0S5S
zJCb<oE&*bpSn8A-fqvFd^2DSB*hr&VfxNF(`bVnRAO{`|$)kIZ#NJt-LGry?Fdq&>
zz?%(3B+Xjy$NpGJmC-{KnjhyxZNMM#(cCCPgS@*aRL)2!NMPgZqJ?88SUB*QVK{6=
zgB-x-k?%w1ZAlLjO%fmio7wVGzAgg)55R<38gvkFHqF=0)dF8zTwhx1vzGdl_S4h9
zI)C?kx@mD_xurK}>5G#kKFV&W9l2eHGRMy>x4fCNoCUy&+Ak|MXDc=@?D#9)=avVS
z#i6B+FW!83W_kOmT*c|QC2#lKx-okr*^?9&PGoA@(?g)?*!N`UJrYaH0uv~dQb{mN
zcfz^$bIl7`nwm9AIyblPdoaigm|LJAz2td@)0I+GK(j?YDxeBoQC)Z+P@u!2eAD-!
zpd^dp{$-3R%=Th%lhMx_e@QTgf1>?N7UmEn)-W{gw|tf^73xE>VN?T5Y*cVU0?Nxb
zQRz8CGqj#U{hy4D7%PM!rFlf9>HsLU9)=f;61J*fz?)SyPM>Lz109OMJNA^1M1c%;
z0&E>@8_&4<!;nc5WWdOlonPJ=j}+umD;nToYs0ddV*nS}(LRKdMFp~+xe-+0ZqSYv
zO=nOpO)tldbKE8LX$urSlWMyg3j$0u$l^=d{WkU*91#rcdz_EMjiKh3QE>$oeNga-
zb>u_98&i$}sonQH28zJ{3n6p>E3G*O%w<XaBXeE8w&}~-?b+Jxd58O>)AQ%&&Zm3}
zZ!Vr$E<d=c)zsPIgCMZ#wn{K*_ac+2-JYxc!R%n(>PfadveuVEknUS9-;0~i4nCs^
zcWtJ=BkfDqWcHoR)DGobr!tmPPk;dOgZ+7T_59wsy(wE-pQ+!qIF#6%bN6H{J>Y;}
zcTD+~`j%S;a+V{iV=8a4e^frdVQxb*xZwHAntL_rp`35e(#B<HKXh+3#Yv#vQ6Zm1
z?=DPcYC6(9I*ImX=)L$P!e*%yxkI8APHemi*mr^qIjqh|;W@O#+*_#Fj36tDHXvR!
z?jrgWM#U5qqCrv#dCAO0B7i%Ginmd59u*KFmr|s_p~@hJKw2lqp;{glekeq8ShT3L
zBfjXI!IbhS1nBi%P`E{Pe_e94_9IlN_#61~?*k)z8zWZB2%Y<h#fh|!n@3~4k6o<`
zx&;XM?2QdP)jM_Do^8_Uy8ox6T(@tfjj%gohfqkR<L23?gjZJ&OJK7n8fMu9J0F}2
z-oBi*HN>@fSH=A1xy{L;+wE~f-d&fRoZBC#VFfH@3I7NCzG~`B?^-;ZYwFEfyz#!o
z!Q{p#Rn_q~9+y`qci$d<O1P}e2{ON-G1YOWKVi&Q1A;rP2?HP~hXu}-wI;~NRZyAQ
zn5*(VB`9ZeqUWm(8}pU5Nj}w|Hf5W;7Y{9sW%nJ2#jo`wdQr>zRKwh{xi?mf01m;l
zvhpMi_$`mz&0m#O0YF(z@=U4+0#&_t-pRQ)1HRPMLI4Oom)&tFx8ZQ2H(ypK;rONn
zC|ub@cxvN)C~jw)wI!zimabdrAz@CQ9V7{RS>n*maO@Cpb?nF!OJ)4E*ulKblQd+k
zUKD_FB$|`@jJYmD)k$K|0864=NF*Y`v?@S>grI=cdjUIn;oy_qEJ)QyT8`v&0b5(o
zK~|(dN$=S91p8Z{kdXj&fD6n3J?9o^2?D+V1_k?NU_?%bzX2m5g8{T3&CGwo=FK5+
zzaV!9U+^%Ygh1IW@<YlZj!G1~N^qzm;|^+(Su_o)1t`D{wj;+%@s3N8$OPZr-aZ<P
zT$;Mr1{!$##C04^DcmoH#xJ&C+}_pM<=?&MmB8*@y8{<@?|fxX*RGD8U4e_+1MHpv
zyCcxa?%KhQv;%G7cAg8g_nd-<Fl0SWv+c+O+;*wyNN3l!BRh8Ef#Cgp4^DN+T|_wo
zQidW5my0@-7#Wgo-1>Y)qwMg3Lmq|Dd2~V)Hkf32l;b1`7;_<tg64>e0puRoYWxH|
zK$P1?IBSxpvyR3T6q^^$F4infeo>#@)}M9sKkUgmj>h`GGC1<IGjS&ApF5YO>*K~J
zuA1a@*445=W?jD6z&A7m4HK7BJ#*s=o@{x0x_e2N-O>A~ycdN=C$n^A-2BAs$xxo>
zc?-!C%v*X;FM+p6$fg47q)RZAbbSIBK`xv@&?2sgX$3=+4wtD~(Ir~}EVKf%Gip@9
z8cV_&1tY+!;S4Xxwo^M;i*(a3fL7%&s{A<x1D2tXDuo@lI>isBcH9<yPbx@NzMpDb
z`sc@m@fwPFL2*KCv+h#9Ll3Y6aT|3`pyo&WRlR&it|D@_LcU_*91#jxdn($EN^e+^
zG$F4OD3r?GEWhJB<k@M$8pZ++-;#bg1rvA|t<~U>E2^!f;hBO*3VdElkIG%@nU?E~
z@?EE7e?vYfc+#Zn1=x#OP6kF92hQk%@!`xoIN79nqkJ!7w-ha5$Tc$ymJxj3DoQtG
ziz1nguTo*KQaN>F$ZfptLMJT)r!$1fQQjI=O`tPb(BF3`W(aurble>LRe<F$z;_9h
z$TNb^X?fNldlUAsAkPt&0SHUUH7d?IZewHY`w*-}nF|>&o|gh%{Pq&Oh1r(zni1ar
zTeGBEjY2<bXQ}AT9P>cO>#hi5V|+0t;I%cYjz=tWfHLbachyRZ;=P#t7`3bV+fam1
zp4Rmz@w94vl(ka&J4oDe1i;Z3(7XebLguX<Ji(>cuP}aPJ?1nY)=<zgTF50`Lmf)4
zT6Yzx6AF2{Dhgm<$rQ-@L)DXgeNQi=61?UGKl9jk&XizQc9)74P_+xR;9110<y2AR
zT2E1NbPV!LeaHE#7_#6*JrDi3AnUc{oC_{<A%Hal*|KZK^xgCOLVVKRQbw%YRU?NT
zEstD1TFd&;e)vOhw-RFw>y{W^g+hih^5_dz6#5T9lmT(d)t5X$4ruR5*3V(rmDlg>
z+QxV#*OlVpmOS5*?coJ~J9w5LzXQ}d2svK7E`0@yWpJiRWuFwnjZy@&kfJ%WX?;Q{
zWXIsdQUAKsQ7MGE>3iVxPWXe|Ow)6S5#B<_63~Xi-@mLQ5GB;iY(+XF(p#l~Mp2{X
zFO5%yV6>q0M!X@`4;inWGtI~4NJ1e4wh*jEz4~#Fk}shd7Rg6R&&Z{sdTK?lNWO6!
z5fCZrBzFL)CWOyf3_xOIlRJ$7u?@KeJ;hMb28E~zheeYT3Gs(SEeurhLTpDcK2#tF
z1tj)F;IF?#D&oJ)`pP8R^@Rze=<lFp^OF}zMkK=`c}XO%V&hdbO-;bx1hK==m1vXK
z37nhgPkOMiE9%EbMtC+N`91Yg#Fj_dtp(*-^&nZP$VtSZVi0M~9x#S*Zm6*=)`Rjo
z8$KFZHdN)UwgedmN97Yp`s~RY=-BnV#X3tqHo6l%AMwk^8Wn`2WJ^f-w0IK!kIR?M
z^(f@pAcb7(QU0b<JCJD@$Wa3sGt}DRlQ(xJPJFO8LmkLe9>`G#;(OQBzM83gHAlUQ
zYRePBPu)0EwKvn+o1=PB2B_I_YtQVSn|qTDkIXe0z*;Net^wndwnJd}@g}f~|J4tc
zH@%+Nl{}PnH7|`q+N<4_*mYBY$gtg;p$}&o59gq?LzZeaWGHqgucjvN%q;9mciihv
zUtOGhFq3f|m^D0c)y0v$Y_y>m_f1P;C~+}ESHVQkwRzf#1K*uDZAmiOaED5cru=ut
z7FyE{kc#17Bp)z~J&XP?4len?d^YN1Jup?qx<8>AO*qOECz1`x6G_k9xt!e_I}E6-
zu3Lv^4@*v+FD*@3OB0}uUrkIVxcH6ao2ip2fAa0DeN);9fqHB6DxtCJW4$=BR4i|Z
zoAQ;Aq?z>JIe3Ro^`!iF4=!}vJ)9=f4G*YnQ&+aKD?Ro3%!8Sw#$Ugit?Z3Mgn!oh
zr?h$OD4(b2=r0{jSx3{Cj#h}`Ea>h}rO)NsUw>%KI9hX#lW`pk$Ww#dWuJn1w$QO~
z;$By}A>H$!`QF||a<SnHD%bex68rB$zYQ&y55)$-$1(rb+*^-#?u9v?TylO9S@J(5
zf6IJv<6+N3|Gz(&+j-*m^vSd{UI)|0eliB@;`(JcTfH@B-1>+<2@B%U#|EWN-=2H>
zuTMYh_%~;N-!QmDrrOdS>B&XsgUEy3xyHSZ8U}Oa$6|v|V7kxEo=a+O{t&WZrQZKT
zZ|3CC?+*XI{`Ar$INY4+6Y0qZryf);_GLQ`<h%zS)t}ClpNS3r0o)iTk~%5hIA@0}
zSxRRD_YQ4Kv|tBMAbBe1YRuA&kYHU^_ess2n#Y~H7InWdePLSq!BW@5hTrba?LLz0
zJo<af;KGUc50n1X#yev<>!wGRK^RK4Y1X!)1DxQGvAHpsww$#!)|WRs6T35Lm(+aw
zw3aXqk>CE;hQV*2>Iv@|^4q5-!g`G4(V6u(`|FOi)4zMob*zj2kGk?>d+7hHu^-!S
zg2WAU$_`?Czpu}y8<ZahePkcxo*aaa#YzkdK3jZ_8it1<G(9{l{gEKDm2q++&UKP<
zs`^n~3>EmSx`CchHZ4BC{z&hGzq6bQvHLlc&xmYP9{KQAv?NKcItbGGl+u|sF~f?7
zu-fuwI~-Jbn>+8WT(vilWh=)?!s;wmJIYp_Z;_<y={1dud}VcW8F`9)x}7HVtDX=^
a)<6BB)<ssVY+uvHW`AZsPLdliQU4n$_5|nv

diff --git a/crypten/common/functions/__pycache__/power.cpython-312.pyc b/crypten/common/functions/__pycache__/power.cpython-312.pyc
deleted file mode 100644
index d2573e28ff0851f52c616b0fbaf9b8498a8379a8..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6087
zcmb_gT}&HS7M}6=e+;%UiIYIc7)WEM2144jfi$o*kX4f=+AM9PP1}XRGr)j7c4o%>
z7}I9cN{d6a7*PqTW)=5GTB1a1_D9<6+dg)+FXId=qgfuJ-R?u)P{~stcK6(|XH0;F
zM%pXQotb;@IrrRi?>XN&_pcQdP7KQZs(+7kdNAyt=tnQ6(#J+Od@N!N#^6!xTJeov
z!x<ApL`^Z`8i8X&7-Rkdzh-7EA7R%lj1_7t<6vwb;n!@8ld;3wK8c6OCy3?cCx~+h
zR~?+#C$YR37eZ#$%*Tb8>P*C=lYBhJ(NWcwh>LxR__#_y715<Z94zpV@N7&#>mnxM
zs1cPkE*azQmA-_75*n|SG=8r%HjR%4F-#zL>YK)&;b_*Wb&et_+4MHX;CK^HgHA?a
zR)I=mBMyB;`F*eSIf7*0Qqnky>9Y00I)D?B&$BxxZ6u+MY=)5)TbRPH<ks6pV1Kt3
zpsCv0h8c1^BahjTXWtGKr6x@ti!su_*T|F=!<eG{^&rbG<9F5>V@ZL&H_5p>kAvIg
zNgLGDM4I>?vzSw0C0pkTSyMlAQc%vtV~M21iWJRLY?O_$ywo(#i7drVB;q{$QT>U2
zDn3ZjRPnTjsqtY}V6|ork!fr=USfw>p;`M$(QxLeSW=WIi5_JU>r%hLwV65}7brf?
zH|ae<!U|%TO2XVF+o8reX&C)*5;w*+jnUC0%TNQf$TmOu4-^3z$rEG~0s&R1LUnQ?
z$BPopM_AP|7>(1CO27oF<E_aA+am~ZL3Ijjgi8qV2ptvdK&28qJFZ%!xDXju9k67v
zFUpOws+plBTD3%?(4<<$>q%OG##l1ihwNQsqk}4*P_3imv@j&9_=Jco4QcfIaEla6
zv`n-JtuMDkgvkWxttAqV#o~O+V3LnWT$~qMwB<G@CN&wf3Y~DV3RZIid+NmORoTEN
zZ?D*Dz9Mp6Us{&~Uyy4qcNU*LKZAcu?#t4*eJkYQwMzfG39mT0K@e`|Iz~90>vqiU
zm^pcKY}M_X`ylgy;-(7j#=N^RN9TU3xP!7ixax4u4BYaU2gr5`wb8fsuUj!s_1r{e
z;<n|E`&0L_`D@2rhjQSg;(kfCzf>B82veEVY+AP0Y-*ayOwCTq_FB|*C9^LZxOE7P
z)S3%!D(|Lp-W>h;{-O|%U7op%nTxZR3a+}mt8PhBT#YmMs@pS{%p|k)Qed9V;q&h*
z?t0l?zX7Vjo^hf`*=Wx<RH*iHqGH|dE>SolAzoV9=48EK+J?i_M<HkZjNv}F!_=vF
za(lX~?FF2nPr-@Mtg0&kr*?vi(a2iS`J;{>rxMh_Bn5{HY?$MR+NpNv9&YcS_<4dl
zi;OLpppH|~_)u^n6zX?sd@jc&mXd~PFwS8xV1d1!<OE<@YGO45qx#Vd{lJ=+XpX1i
ze00*VL`t(nQR4>o7Gcp0R0Pai8#cg}Bm!fN^JOYN85;l-Z{98jTjYq`4DvRJ6EG>e
zjWDIza+pda2clfW@I-MzlY!-nX2z5{ie4yW6I`%gLM5sYxRlHtWEGIFRteBg$Rr#<
zUC6nL$emD>P>UMSmTT1s)N=_cFw5$qS@y2j4&EMF_TKMVsXO@x@nP%l$Nud7-4r_Q
zU^+|q?38Rjv`V_?PG?Tfw$F8DI+t1%@^FC+<jH_SHpu1%;V^KF7^e<?kT23s^nIxJ
zI?+O)4E-YjLt9H4hf|9<ZYlS1Jq&;_!2t5|Sr%(01BOSC;<l7cBW)Kj#-yKA6h4f2
zw+x0~y}t;PBBC+tZ5oYlI}KyGR|<1V;EF782iPvl(u-}9djEEgX$&~*0H3-fLneJj
z4MumB3D&u5zZODe0gP+5%fVRo*fnBz-VA}De6O7~cGzsfBy`NQk|xq7y(eup)@#|M
zxjKDp`3+Q-|GReZk3m0-buUdG!lnr+pvwXp-SvDS&FHJ@#@>THnnp7;==9|`L+InC
z@sIbJG2p!G=^8m&rq#d7XB2$2jYg<l4y3^2>1hC^13q$udIVJrYla}C;lWX|gM(az
zgFs6RJ5l)1uQiGN;i5y<eIXU)Ae;gRS@gXWL{Bu;+SF~hJdOC=CU%rK98X3eUSeS|
z10fqj4GQrXuq`!EtyD0|@hmNbfQt~L201~Lic+vV19(!D6cG$_L&Gc*0CCbrH&elL
z5XeBRB~bt)d>meUB${McCRB33xN2qCF)qTUPW+^-lFdsl28qbmm)3`Pqnt`0LDi}7
z-ehGJXwl&1kWcgasu}4^K>2}cEwQYJ9{~jps;v~3sXj>J4D=|ab1K1bF^KTE6sr;t
z@2M78WMou8jzx8GJi|`(0XVV|Nwp2J5-mxBN<<*iv<Ngm#Hx-Y578paB62Yq0~kUG
zqgspms+!S}fOr!WE~>7QUSVp;9~}^hYF`jf_K66A(1Czbge2tW1ypsyBWB^u0VH`4
zB)xFEam99I&AWfGcD{CLaQUsT-?{tFinndXx<*!Kuda}_U)c)OnLKr7)n56OFa@mZ
zn90)q*w(gTfj9iPtPuLSs^;1=?X#~fwLT(iW%HYI-J1&3WG(dBD}Ooli>Ykuhwm?W
zAKA3X4q=^DaUYTGN1j@-it4#bnM+GA=c<2G^Lfpehvh>pitEIUo>ixN?s(>S_R4J2
z(hGN9{Pe{f{aN!PXK>YDTkwbS{?Mwc;^X98I+I@NxpU#u3%To`U0UwS*ET(1{y6&E
z(G~aW8-(eAbH)Wi><fMJ<E5V5%Sv@{xmKxuWyZ1Q@h_6|<kH)@H{{x8#nUolStl{l
zvwcd%8C>^Z6;*OoefIp~#rcaleBrX}YPiv}R#BBbwb(Y_ws0oro$pjC8otAD%Tb6%
zz5aqXkoN|10ma*xv91%)3<0*wJJ*(J%U)H;+5$=CNeFB=qdGcbdO^uM0nf&-pk73&
zaWQo_F{UkvIto6tA{q39hR4q0LI!Aw(RX3zx1neWC%e+78+CvVJ4CBG((RVmL;CyN
zv}seCxNp&MWmD?^9>@{~e#nfslpi9??osjc^L<v%J-Fj#lxD0tR%q7(-9JFX#+5~R
z+4_q2)bI|pn&dWJ!;Bq;F~G-kqjQhl+5s)g5z}txU?-eqh%}ypz0|d_=SrS?_ANWK
z1N{y%;EY4t7g91}GRCRPcoUZlTxZBM{u#!&er;g?O*~YQ>NG$bVO*jK-QppPMSmO*
zIaLXbs33w{xCs~npaOINh=L?O)T|PKsM_5_5wG@_SQt4~g6cR+wZd(oZIopb2v^`b
zVi1y!W3Y`v8>*1q!yQC2k~(rZ8HoZK1D1jqI;O@F#akJcNmacOgA_0U0IUT8ko*Nx
zWM~j%E6y7tw`4pjK@W%m%3zA<Wfrdsa3d0<C$!W?^+7HOJoO1m7bI8FJ&X1oGMBTX
zvdG3wM-i5gixW`Az$0cfSbA);&-C0(foq4`3Y!<MG9tH6W#9dqtsXM`Y}c(Z+1?`i
zTNHcC%-AaF%Hp?PS#?*<Os)EB7ANK>7E+7v&%dwukI9~6t3LnY>G{(O?Ta1r9l3_(
z@ob0UdsTM5x>`{QcMMkzx~ci8h3SGnnD+-2|M7yqB@Yw$TV+oxVsU2v%);4%uQBgy
z%=JDvCi@x{UwgsVnfG-nzAo9-1?)aKx@1`hKdPuRc<w4o<iV>*mNO5#^1cq))$#b5
z6%@g3IiUE%1^<b>|AgW{S@5^#{p}B1A71~{DaGF<d%BF(6?{kYzN0x>@dXRMaNZYQ
z?tKVSh85rI1>c3d@4`2&-(3I8DaCh1c3nYNEbOgAYn1`H{+v?TE!(@ltvn#tG%eH1
zy$?wF;A=|dS=oM8%Q8c_5Q3cv5yEMBT|OUj2q>a0#zwAUY}6;g{g_w^j{5rOXtb}d
zcr&Ht!CK^jw)iflvD7yHd;4p#IFpRB9YQyB!M<bSi%<bd;`oLK!`*+!T>ruv|KU7&
e!}gu^Fy8Rpk8l^>xKUS+H$J_9AHq8{X8#4Wj}Vmr

diff --git a/crypten/common/functions/__pycache__/regular.cpython-312.pyc b/crypten/common/functions/__pycache__/regular.cpython-312.pyc
deleted file mode 100644
index a157f42cdfb53e831ec04302b207c283fbcce59a..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 13314
zcmcgzX>1$UouA<hITWdzI!xJ;DPJ*t$X4t)wwu^-Ey;BbB|dU#lS(vaBvIxe&rp^{
zQ>k(Q5o>QvZ`zt}vapgCs0_QiDz?CS7yXdM9w^W+r0G-&VPFkx7uW#%!L_nL+Yh_@
z`@cCz$&8YGXb0ebX5R6CZ{GX8|Meb!T~+1caNVr`-;t{uIPO2_#k@r0VX=wlxGS8@
z$$XgW<7AsGg!zcA&&JcU7#1R8pBS<C*?De=lkFezeGc3mxJ$D14%g?Dy|VKizOO>A
zz?(~Ufx2ZkXr<gDS0bkh_bS}0<<)XE?lp1^a%<&U&^mdIT!*xJ<kjQukv&LlkQ+c7
z<wnpZxe2t{#wn|mrW@!hU42dLz1ezimYY$^E3X1=Q5;>|>oq8~T3M|~XE~L>=tOz1
zvf3=qa~JDGPLWU!Bh<GVxh+d_D@AUC_qTpVjrD$J1NHNTijdYHSE5=>_1g*+@t7JM
z?hgjy1-JgF#RI|9{>=q<fB%pY55<*8e}6&h?++_cJRnuGQU$8!2#!Uxu}DFXLquXo
zQO=D9qH;kR3<u(9sUQx9L!$-9P#`|6s0CpNq#_iRm2>?8SuRxSkD3xzg7JbFQ3BC|
zBN|ZE*m%JiMQTKe#tZi7SVRdIgwX&Pk1A?pEUpy9Q8gwP9I7&^peK^5Xv2X~B&)G-
zxFBihUL0+?jR)46sD%<r!LE&lL#Uyh8B-MYPG4OR=tFpPA|5!6LUA<^R4_zpAgYbV
zG^OAei=IMn={^_>%Y}-usL4S%8&C`4*^n~sx2sN!wAxIhl1Mv|RUknD#Js2wy)PaI
zxxyv65i_UcK2lo4NKf){yICY@lli3WhEeJUO))N>o3QzXM9T>!?$f8*cQz0nQ#9YH
z2_GA7%&4Bx>lf6WsG?SY6eLVJ22J$~1rZZ6Sg`A*?Rs@;#^>|>v13O(GP>j34z+Xl
zj-Wa*3RXLUu}CBq-7z>84aP&UsJ25@hQ`7HwPSRG@n+;nFwkf?rnvhK&R+5Evu{2-
zFRsanYcenX<j8FI+`d~%enZzMV)r5naY1u=(~AQ?HeOw9sbjp1Wki|gb;Ed=6yw&&
zB?Xx`M@Fqo3L~Xl&GJG?d9hpx*=F(Bh_=h{7?I3g6z@sQPExojm@||V`;9r`xTJW3
zixUdiHNu3P`DUaMe3o5hTPfQgt8JsN%iH#gz53L9(FA0H7>UV>x|?34LM4_`I2;@A
z55`6(3es>uBU}{AV|9?^DA=OWg3FxrKp5bE6bw{isqQ60{Ah`4W8t_)xCMZGKJ_um
zW2J~3#!tHlGQ}-a)y-G6<*M59Rlcd7yHfS^SUPk^@-5UhUa7iVHEsVblFnXwBlSjR
z?2fc?!P|Om&DAyYUVqN(pItxK^|3wc_2<1k(~gVP_g!3N{nT@xOI*v^YpbrVn)hzY
zdAH4bcjml17b<HnJ)3$qvwo&)&VFCuS~?dwTZ@ZTbFgaa9&~641gZNBf`5Ytwq#d?
zVA57@`I-=w`O};6)zZ_@P-fa&rAu3og`@?XNg*kY&=Od7jnKMXcIgvuLXKxZ^NWce
zzM!asF*Tz3Vq@{`vBB-5VaPXK9*}I@?>iKPFvp^eD?W&7pCNlue$W&np=dltc`lkn
zk`QJF1PfS%qC-Bt0I>}PA#p-c#w(@*TfU*tStUwIOssS;E}zjDCR$jEFRCcAMl4P#
zzJTv6G(t=Vo!?%t2g9+bqKni{)L~#OxL8H%f4>PnCUke9M8Tm8IrRWumV?hjEQlPV
zOcKHnN=~l2{!(A6@4{<SJqzyIOZ!s$E_@@?e%rk|EAGp-?#qL^SKqB_NWYYMb=Hxu
z+JSPS>)qZrd*{X0oY<NP&OA1|>5kaB;I5l`ZUqP>(BPLts6;A3iY<e~*OEcY;9v_J
z#ke1mG1^$?rg|7uV-Yr8hSrFY#>Qk}LfB*npick{V{Ua2j4Hv<U`UZ^T8&KQoCyo0
z1$<g45`rf14F<Gfs0Lp^^O-7nv%kaF6H^%{B@i6eJ3_2j)7yNZxG#h*$}$>2F9HU1
zs08cL_;3idP((BP!FZ9Lixc=@Wmw#NK)(-W3XC7>M*EZW0+uqVMe2GGU{j##0o~{j
z<HPhGG0-_JWx(p|AZA$fi|QfFs#*kRrTLxZ;b~_dSr(l>VnpOM{4|oJKxcIcI`39`
z(%qSTGfKX4+f=uO!L>PY?Tj$<;%xUF@zF29Ac+hn#_r<b>tXPQA@H=#B{ql<w=`dp
zGfSA-Qu9E-@g*e$vqS>otSI;(-Yi{+ZW-5z+k7hCNxa3Y%y(#aXjl{7=G_o_LSonR
zrLyj<qOz%nK-(Wt;=}s~4#Rvo$*kcHbFKyw?Jq`EB^Vou!d8?`tok%H=!;K`D*JsK
zHGRG%eZFZOLJn!6D2(SQOh%E4>Eg+0a%HG^SV9TlS{49n!Biy@!cQ9jnd0tM)tSQS
zuDc<9;^Ki1`eucjC+9ZY=)2Rp_daK{I~JT<Z_0DKZiI5q#}@@8WZiqo)^h7IYIROr
zojE+ycvG4a=3f0+$ZzhtBX*Yn#WGLOqGh5k;N@LFCG|Co)SJ9H(UZ0!Sf;r_UbemC
zECM2KX)qYF2E5FBmjw_rWwHcpE7v67X;OswC6a}ag#M&^KYsc}zEe^-!TE*W>pasc
zL8En+PYZ-}$Rg>EAMnq>sHUazdIPxfDcefM=MVWSJbbezcwgMlgmL~lPc7^NpX)-w
z*0Hm|_cJR=qc(iLDP|1)vEqp#B?{L`J&^F~en!U=;aD&b)(&)7S!2|r7Lecn7x()q
z?zX3U_E5TOzF}joVdH$mBRNm^9~KFYZ@0Aa02{OHx8NP-+Sq6qJ`H@CA*CR|n=8d)
zLDB`j#+)d!)CzovDa--rdBa*GJ}ME7egh!r!2<MUI2E3+ZqHS>&jhp8?fL30Q%CMr
zd-9&{Uo`$gyY=|rCG(wKcRbzs>TYCI)qj6idi=d7VBS68c>CsQexY^4%(1I|(^8sG
zxju2W+!v61&s{&&tE*2MCG)ZnSwPCyMP$+jOd9wGjw~l?MNC@a%0yrpOp0aET&5<&
zq#anaGfay5eHkX<766m#bNIqP6(ZH=!CZZT2(x}lfvBEDa$*(pkjo%&k}ADO<RuUj
zW9um4Wg@Q-d6lvp4CDnD<J3=nw{E-jQHj4G!gL!MwG3qj%or;o=ke1{ft13`m#g;8
zw9I+3)xLc7V}ClJkw&9YSv&xt@TEFZNb)P0`jgODZ+hT0T95;0<1#g%?hdHyQ0gn2
z`6eWjLcg_0NTh*B8NF$?)WuyAgSH_qXnVbyL}XEy!on2I1#;PTu~y_J?GT}S(w?+E
zf&P~7n*ru!eF!4-7PL)@<8Un#|9lbw6(8a_Y6vbt(VYmuq95`FN{q5V5JuQCKSDXD
z8(AlZVdt5?CfR%;87xB(k<95Jf3$-lH=F&w@nQHGmZ|q-FC2$$E)r$T;u;TWifLLd
z;qiQL?<+n%P6Z}rQ-+CW!wC2#CdUgRbzFxtld+E=kHvWqS_;GOF~F~q1}Rin9buZj
zz@IC)VRZK!X0%50O?@*3En`OHZTz&$Ah7*hu>DFL<Aut)OHZeszVIw;KdCk=t;%#=
z`_|QOz5n!V`;VTtoZ>Ax@0Que^4`u8Z}`5%ZSVZsqt}n#c;+`vduPske=KushX29&
zY}4LpH^@T!rfGNjXwKPYu$eiX^FB%pn3eE{2NKu3kM;SVws^kTA}*0p1aRnGZt)i&
zS2!C%22abcBp>3Ewx96d<KfqGD=i&kS-`|&uwG#SA+WPTZUVChC<|r7C!)EKAbD+x
z*2A&LD8h@Hk7AL8R^4qid`SiaQQe4d(g8q$J_>)HH8g5L45&j|!Et(=?)sEV$POXo
zy4(qEBrZhW!%sT_LRMbm^vO%Fq+UtKvsIfiXLD7Xrg~t)IV;~i_vX2`6X|1beP^Mj
zak>g=HJ(e6ROCWzrs=0^KU|w{e>7M9=+qHR)TRBY{pq2+yDclW>1wppxFHjPP17L0
z<_Z_L@{*R(W(@pB*@h`98_19a*^(9*+7+eSq&=#ZZN*MO5OqtEmw8f&U$L$7{c)7^
z#}VCMwmpfp*J`$hJ5$Az;up5OlxxlMns}F3&mD}1@I`VSev0#Eg(+Pp?Md!C_JoV$
z$^p`p)RR(Dn5s)k<$^rLGEq<Y5=r4Zj*=E7%+Ly20X$a7Wy{Bz6g7L&Dcci({G=04
zE^JHKk`k7tG-7#Vm`3ADI!hLoJMp-+un;T{k*D;KDzLoxqVU!_R9bSq1t(d>0Zoy6
z)TfY8kWMSgC`7ADy6>c)S0lLlZLBma0bxys2<<q;*&-`A5UvlXioSSRfPRSTROms=
zVLYqkZt3efOiyfq5@WWGRT5?zIV?<E7e)4VDnVohKW#78(-ikPmaKbv_uCWcLvOtS
zJ9%1I@OZE6zq~&)GP^PF**Wc8!1A3)O<Xvi67N=2PM^HsO$WZ)hN9`t)KHn?^{cLI
zxx58|CwsoWBPEsAS+yo}?5Z@=FcbK&dHNO9T~_v9`$o!|-7tIR`Xh6@Z}C5WJUvbY
z?@6vHh!fV4jAurkp2*j1ofesFNuNxep08@pRki1<)+5k`qURUtny<86Zh3D_%5hJB
z%p9I=PPgRipk%&KB7N%iEI4cMS(VcgiL#pXrku2jNwKoR$}(p#oTMJ<eQ{Pd#rP>7
zplpdO<QSK^B+BU%nZIdymtUqyAPUOsiK1{6PIqC#&wW`rrg1F)*6b&R{$-Jt)RH^C
za|nhc`bl`l^%}k!2ABh4z+P@~CLQMTf;Us8*C8X#OdTN+zwCnVAr09|Tlvag%U?W~
zv}twt=DKA}@mf?I#1DGZ9yp09a?uhwuEfXGD8jl3vC)p*STIftpT+yI%g2NOvIas?
zsNI2*&>>Y|x|gxBtSH|A9tS#HEcNK1Z@>@)17s5poK(k@fo-fY#JR!IVyIi5;Hd>7
zAaF=16lpZem?`Ii$|xd^dL(mMgJe{y2!67NB>K-7bawcjM>kd7q+}gKFBmgpYf#?i
z(|128IBsxW+OgrlS<3754JzXZw-%d?4+o-*mC?r%LzKCPOv*9w2N6b-t*$0=h)6q;
zbs*T+84LHTN9i5<hEvyr_?^1QW1;e*cw?1hs>DweDpVyBptz^1k=so(NteEL!x|#;
zZ}@4y27!&*0D%Vy0b!C%B`>@&U$ZV(vu@^0wq{+v#-DZiOX61xuG&jmQ(M!)ysIU1
z?6#{7vf$GB)cMS=e9hWvaiPU`ZQIptv*H|oy#nH@^XL0+$sZs4hvDoaM}Bo8vn}6p
zELAhjPj^m-7V7G+G+l1W@b7u29e3**)AD;QSK2PO%{0w=v%X!oJn6Q4-II__6&%c>
zVw-ta+wZEmN)HJ%DlX*fHcUH8B4MR6h@R=USPM{pnL7w)5T%x1rgXA)eRwnFEpiV#
zU}UXOYh{UN@hsU%O2WcUz#^U$qP3`9`ZY$^%=VcCC}TSp*Yrw83PmdtenYkU;LFA0
z)+#@x#K#qQV)1e88nGy=mRQ?67C8l&lLXK=_che<MNushhzExgtB*!mARbZzoBl@8
zaV0b~9M=$HXBa(%PbdfgHdEzDWxI|lrAkIoJ*p}qsfbz<k}8pV_-Pc!g1POkF}HcH
zZMwSY{mr-C>#|~Zc0+d_)V*#&s?JI+3pGtTsAn2}>iy9B<JGrowq>2qWILY8gVt<Y
zsB6qfm)l4wHtPCu+Hub?!vhzdoOiFux!07M<A#h!7dVc_o}ud>@$hBnG7NLi$|%!I
zE#F-%j|16?RF(6f%7->!Y8z-Z?<DgR+YKD3v{M5qhj}(7ekm68jXjOYuf%$U=u65)
z#<VzX|6zxwv&%${-}c%6;nK}In=bdxVX$y|fr+pVJQp0m4<G>(&_aVo!)(f|dOWK{
z{u@7y1fo9sdsBNa?9bGF_h9DCwXv&X?~lWWPG-g9+3m;kpzf^;Iz-Yh=iROI?hQFN
z0+v60>BE<1kNmhl?|v*RKBl`^rE^Lmlet(v%q-2R%%6RDx7S+nIMiX)Hub;e!qy4=
z<E0xV#kgg0eaa%)BW$+q=BmbCGFeXSDjqYC`4143Ny1%YPK!P6Hp{?~VG;5X8qj4I
zYzm`ysyA*~6<@8!q`hPl)3Tr@`M708fR97wS}eN-=b5mQUqg#z`@}tFXGRcvUw$Pe
z6MtG$iNhzwo6M5&Rp!&6Wm%~$R^Lg7ExU?55&Ck-js)^4{8hr=N~ckbx0(!0u4bRC
zQR6R;JPi!I&&kqXm&j<5dwBe1r&ViPoHl^i1<p8`cGG3%!TsV9$dimf9>xe(qBKIn
zaoJUL!VuDHL`aWENpr5(FDr~!6F-v`h~C(jv_j!RYNZT9^l%{pe$o)M*+=}(9Ek7;
z6yZr$^jkPgR-8akkOc;%@scOMyBDjLStlFNg~YlSquSW$XiSY`|1CDkHg1QNFgDe!
zpj@JPBkk{!eP>FHfG-@<;>`a`Y{pIsP7k1Z0IDUrU5SjwCs;lyp5m^bA%hxCBawFQ
ze36jGR8gTqfhv-f{(!b5%0;V|P`OBAhskT)mtP~+dM@Ui;8^4xhixRCvx;~j;+G1%
z*TX2L5og`P`lIuSa3FF@4jf2q=%)jE{p@63zdj5lfqA2p6IHcZRG;GJn*P4+=WX+y
z-MP;0DUOLIocj|_D--^D^;;-{@FfitImasL9+f6Y-A`mEkxmf$b{x4=aTrAX1|^D=
zDBvtW!9Ey{;k=y?RmPcF2}K+@r=F)mhd}(Uf-N?xvM|5pQlk=1hG{qph#L$1vkxvf
z218K=ePJgw2mqw4^@|yrh5Cm-UcG>F5Af4I!bf8d%3YPMYtOmcv*MBL`XhNzcl%v;
zV|wU=_#O9#tk{*^bnxSKxlLVpJi0gBbyrW1UwFbe)^Q};s#jSJhrO}wraM=;8$nff
zZMr_SZ>oz<AdRQbq!RNr?YWxvnMdzPo9@;$rN=X8E+^)j{kdlU?4$Xbj%g9qYdq=4
zFGR2_(b$$5pE)z5X3pmuw?5$P_RXmZn5%p4;!MfG)WOW2JMMKq8JTPP<@#Ta-CA>J
zQ;)F;cJ13&zdhTNZ{0P0Bz-8uU+zxz-mUR2V6WeJ`=D#4dA9Dumi(G+|0CFHUD)%j
z*nF?LcKT$tZd2C%$f6zZNJNf=RzI(WudVk#^Nl;wBX{c>(l6)Mb>FGO0jY)khkjH4
z%{fPU&%9@S&a-}|=M&G?Z2dQ<B@lS&)s5+6slNHD)?8I<zH04M&!>&vTheb@o|+xZ
z?74Q}{R6jKp2{{J|9JQ9#^b-*lWROa)$>lT5hQkVp2Pef9yqzxhj@+T#lLi{>T!tw
z+V1IbJC`gb0w7bA>+nz-i^OgON3N<NOjx)WMusi1#yH4iuGwHLiuIvH19b3^NfB(f
z5=O2I%TQ?SxEekTlQ%@_Xzh?BpW=S&Zp|n&FK68cX5+Wr2j<S^+y}Dafrmq=U%%VU
z%eu|hGaNs416o%9lF0W!miCe55upRlC4C&48PB?(nrpc2e(F|J&izzYeCpvo!t&7V
z$}T+6ZYkU8<lk{(2fIX@nG*jjuU5kjK|}gwrl*+po3OD%rD+$fPIhp}IN@oDWcb`T
zAOs&gFpA@~5WR8;$0*|A39{wLmmec%GCW}(t{E`Spbq%xY+>jW%)o8zIF5!>UkJZb
z72S0<{buI4TZMIZ_#rTn&RiS;`2qiBw)CW6<4UZPvPVNxR*<{6Yk>_nOS)6ELzn6T
z+Z!q#|1o#iEg`7y1yq^)O8rs9A*>yNDP7)G8l&1zr4n2F>Euvp5@Eb3{Y!HmA%yJ4
zchi1pUE_S+x?J5l-Kq5+{Gb_I1Z^L-&9&ye2S0AedSCceQ_lMW+t#7I1O^@)Q@|16
zaO@Ng9Y7!d6?m!dfiNq2KwmY5#<E>fe~5DJ)Ps$B4?eFH>`mCUayEW&<o%;LoYY*u
z<Dzt-BE9{#(}(kx&P{(Fyk7h>;8iUNa2bGwk-=7jIoB&;m26AGDzIp+J$Pys!jNrT
zDZ#Y=idZz!XDb1o;SU#qM^mYZAXvKw(5m2=!Jvvy=t$enrgcf$Qm8G-+Cww#13$uA
z&8~~%>G+l8<>buk`I=pGC$lwOw_eKCbY-1gI<D03qo|3ft9V|5sHXBwt3N`)oz&1K
zy`j%5d3!fc;o~Bvc9y{u%qu5!0v*QEtwC5<G?<3%)!XA=!%Uh&r5=;$C!<f(4IFVS
z9tszYBKqe8ZPoS{>R&ki{0rU3PrlmU^J4GelSiNLJ)xg#C%wVWk*Yp=BI(0U$*|y?
z%Jy>ECc<{gAa8>OAebM@lvL5|#i47Qz7GZIWLivSD~gQ)TZq?nLyidv*oHW(Jr-6D
zs2_nLfkwLxf|D~mzgWxhRsYFt_;=3#z~Oh>rlbe2@LW?jpXKTwI0U|jU#xWV^$*rK
zL7H43EfQb9*kI>9i?xhYA<gIF*FI=j&#zs4mTyM(?h3rG68Jq2D%T+UfQ>)+z-8kP
z@xQC&Bu{!*-qAcIeCljSznFKfp0Yo1R`NR^w7K}s`z>5k>jO^U{Zr2^NDbLlTXNEt
s1!wK2qBpbs6LIr>30aU6O`CBXh~F~x+^1qo=E+Y)|L^cITNr%)A7VmQ_5c6?

diff --git a/crypten/common/functions/__pycache__/sampling.cpython-312.pyc b/crypten/common/functions/__pycache__/sampling.cpython-312.pyc
deleted file mode 100644
index d886e7af2b8d077f72a9f31032528dbe4fb6629f..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 4387
zcmc&&U5pdQ9iOq+_WEp}ecYvd97W5K95|RWh5%83BL{_i5!4i#L{}=ax4ZVOv)(;+
z*T;RV8%IK_t&`$It#lU^DMu73AWkZ%4<YSCleboV=vhAL=q3+Tec}z}c%oA1e`fu0
z@;Q*I4;^V|XLe@(^Pi93@AtR=77BGBNQ)c3%X}3;=wGB#Pp(>Fbr1@3NJJu5(6IBy
z!#IsZ*C%+`C1TNi6^qPe*RWgkTt>r;$co;}c-RAPAH2PjIO@MojGc)xwtqy@RV}9|
zvhC4%RaEWHOOl)(H6<}AtD-bvhZ}W+&yFe54QzWwX<Qa0q2>|7Q1I2B)pOwJ95Tr_
znlg3A>mT54VG&zM#vkI0XU*qY@n-FvcUi6svD=dB?V@YSi;(DkZx=#&x8>GjYi4Cz
z20_(wt!Z!LmB?6V(Q~ubl6Kv!t>Fjw0b}xv<r2LXvjycnmdj#9FO<BZ&+=s8C|i@r
zF8b^Cr(h5AKFgO0we~`&zScZzc{Abl?P5pWN~Wt#YoO8Ey}q?>`#ka9pYO2Pb~dcW
z4EezK^k}RkA6&D;?M@(I1=s9r2+qu7g+w>qtB?y>p-j(uKP~(rI*X#gsXumbkbWka
zIbAh4o--xY&~)ySY>slOre}FYndC&-Fm-t(2RE3L6e%mIrZK>srFRzw=@K=PmQ+dS
zNuQh{t7*<0mAK>D#GW?+3X;y5fCVE3CLQD2m?>xFDc+Pdm>9lO8)_~q>9W8p+?Xy2
zvH^`8K!|(urzbcmm68QnQiaI@+E*vLai3hR`{Y(du}&_9PHy*^``<l&{P<iH+W}b}
z%b9??<laOYS|Hs!mL9!kp8NOq%`Zm-wolL}$6(bqL$GT5QVMU9s)x9u*lvM0ZMUMO
zZN|8$L(#~M*zRmjvAu$3z&dSaT$V0HJE=Fe$B?Ha!^Sz=uZd#Pv4K_Fl}o_0&vxni
zY^;M-%>Yv{8c*1G(#BIpCwNAVqM07W<7Rd&J`vXwFT`tJ#sw{#)zo+@rwVlE;*>#P
zy9dT5bp~wEjGVX;f?X+~he70zl!K+<thB`LUN}`@cdxMfEA0L%d!R6MH_|odyW;ze
ze}3pnXrZeT=_|bU4`1Y)V0ZbA(i`(#S6}(~^hc+!_uNV?Z#}xSX|NhRR>b#Mf7w^^
z&G={EDs_Sle@Ag&aj5uA;W#NKpaR7QUepmRj+9fS)Iv`&RqgDr`1_#;+u@8Y3_*{`
zhVpo6d{&s5F27%Te}1YOetspKsDu;M@cs{8Eu1KJLnnVn*;Dcqg_#bR3#M*VzG1`V
zKq)Z$);yj)Rb_h%L;v(e?gm3ezBp1m34R8;iiz^U(!tpS#la<J^D68L5*jQD6~dHm
zcve%8%^~Y)9E+aBtrp4vcebWQTxY-ceu4<*TvJ!u!>x`iPFA_;y)iD4AK=abhU7hf
z#abh$r3kL*{nv6PTx~#;qHrS;mvC@3rfVboh^)xwB*zPari&Dd8igY@HO?zJX{{j&
zks9&`D1M@hPVS>l*by#1+-Z8f0Z)t}DJg^OA*c6~E@b;?b^r>-vyc_g0~Q4%zuh?(
zyAqo>Kc4((@^{m>Uikd*?Ze9(j#UE3mY8GuPUtAqWC4l@5irxEcpJXLQQ*Q+*wD3y
zMY}cWJ41T6BoQw*B&OX_fyF0?-_6==XW=4b{4J)TYT<ehDqn3R$iikra57{ETT*-R
zZQ2#xQxL7d?2(p%P+er|7peZvyUm6KwIzA?lUDn*Su8gdQIO!w#`WG<Ok*!RAjg~6
z_YmC{Zc2aN3u3!veXq=q*MEE3E|Ng!$vY(Co3-14k>#<xWLE)tUj8dMVhWz`fuIUH
zCmDbh-XyxlX{xkmRD-gjfue~rNFUXt3sAh^$Phr(Xm$i?q!!3vLxO=OM|4H2sh$(~
z8C+T(msD<K(m^GWDC*S(f-bO2D<>x$fqm&Er%se%aBz?V1*DQCCTn7Sl*r>bD%`tF
zO&3N7oQ7S$NDRcdg9E>eMybKN0UCsIN7oq|XoRJ-$FAr=S~8Pk3J>aON)zU;rkNew
zJ0wC#aB=PsNOgm98uP68V=ws8Tu9Bp!5?T~FDxWM43IVGgg1bT+;9j@%_rmpAB<>N
zC+N`$x9gio7KIGtI+rzaSvyGAmV}L#1k?6VKW(qGVU*<7FrO=JLRg?F3Rvb%o&*yR
zz9&<_xXGwbf1VhRk!%N<p(D#rB%LkPIr4QM`RX%9<rD-(1|c5eJtT)Yse>dt0*~=E
zWWbypVgrTgyW#G#RkCJ&wGxh1!m(RjOW_zu;!60%O8CV)J%8T(#pXZtR>LQk*pv6z
zAQizARdy5TW7mecZCAD}xIg{*XXme-zqS4I{@eX`y8p2IOME;2muLUJ`>(r~pL@I7
z^-ke+qMjry7@kXBNmiffzi$41`o{D!d-zVK!oFG<x(B-3Q|c-5GaEs+J0s<EDLu>2
z3&nJ`v#;>VT_*7B(;u8(VYXJ7t@CF;eeSc^wb=EG;9Tz)y~}+kzr482yml`Tn)Q{A
zEHN9`6Fvbbc~%w3i1xN4`zAF4<)U_!Z#|jto0JW|W-M3A1vG&9M|B!##IPI*Srv(M
z#E}<t2<}?(?g(rh!XT}>WQ=Jl5m<UJO-E#@34^G(183*b*9nJ2#m=uj8rYI*on#zb
zItpLw^Z%y;$JhUf3)+wpA%hs#o+SPomS{0eXoB!vtLZv@IQ$WXpGa`$^dCV+0{Se3
zI}I$`J~#&WC2rVWXXyq5-I}N+A)ZdMVR(!~kO6A@P`G=gb9<$8`@#;0bO9ZquJXI3
zcW2Yp(6*IOUnSJHu)iAGSvYk!&^3Fg2qDlGiijva14Ke&t-WB%_9c_>iz}IQLU{rY
z$5k@n4Mc}f@_57^$!cOwkp^}0-vtR=j5uTu+!*842*Tm7QSe)@C*Ugh9z@WVZ4c2l
Yyye^Dn87dO)y`hL>EV%X+)EAq2h}a+-v9sr

diff --git a/crypten/communicator/__pycache__/__init__.cpython-312.pyc b/crypten/communicator/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 6a1c9333c7a83e9aee675f2b07d61bdf81ae6709..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1571
zcmb_cL2DC16rRcMX1CcSRB6?=N)|lmDkO?xRn$v0Ahe<CLCs}Zv#Z^@*@W4N8i|ld
zLBxaJ>e-W}{U=@`R$3Md1@X|EBzWmTd^4Lg+X~{L5AycSyqTBxzW2TPlu9KK$jZUr
z^S2~~zOzMNVm+f<0AmqZ$iglv<08h)j=8b2P!zZ=xMEo<N??m-+>#bhQMObozJQC0
zCBtgSQa~pjA#3OZE~@o}p4`F^RL4Pbs!}f3Jf~#R3W4?E>yA%}^Pom;YmaO6rZ-C}
zCENF-j(n+~FZ&9;U$+6qBBE@M3yITyJ;;-&*x!GF8faebuLj@cp6RP}sK0CBWtKI_
zOANQv(2nZ<tvg7M6`o(7BK0b@J<Y37&G8)Sn6C5OwzAr+Yn#5Ul}y*wO5vd_J8)9h
z9y-LQSv?-445Q}T2Aw0eY54@Yg9uAINISj}i54Vp*F5T!?HhztNFY42=@JfvlI!~{
zTW$Mvj+U#rXE}2Ae6IIrxl#o6oWa8xMz&ffj1F84gW;bA)kGV|&wNc}Rxivnr`FZ<
zntJTBdTdqAd`pkFC+>bp-)k%PHr4do$=8!_F15vxE?h#T9fV=Qa%Y|CJ^{4|h@1b@
z8L=V$t1|@G5uDiR4utMW12<v~VFfR<{{+FP&iVoDQW$OqrBz)btmy+(i2}<YF~C)q
z0yTnvAQIDi93-Arh-(=>w2?4`ND`FK>eHBz6pJEpJjp27N0|E@s3zJR$uwsoP;SbJ
zHF@l_Jhm!NtSjkFQGQiu72chHKmKv9S@<eWk~G}g#csx6j^i{K`@wFQSZs#q<aKcm
zB!S}3)u>f@>JdiukWFEQahO;@lCbiQGv5TLCi)Q}3Y0V5nqDZZkBqfu{!vOEZth1Z
zFmkx?R}H+ad(#g$S;J4U+>i3yBc0hH`4=_Q7Bf6~APhsEPhdDCtacu$pbJ}IBf{E~
z*ONgqI$iu)aKsusYsM}&o0H(M;~CZPZQJeTQ_q>o2a{2XgC5dVHVk+{3}XrL9C>fH
zl`G|nRdelYM1#}p3E%|$DPW9$4I_MF16|!fmw(35fkVwyCobX9?y!O{b`FVnypxV$
Nt&>FRecY0H&_Bp+LoxsW

diff --git a/crypten/communicator/__pycache__/communicator.cpython-312.pyc b/crypten/communicator/__pycache__/communicator.cpython-312.pyc
deleted file mode 100644
index f5c8cf60fc03a88fcfb26c34c8d093676cf7b9a0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 12605
zcmeG?ZBQIXb~F3Mu)u!6E@(lZk&qFK@FH2*mL>Fo0Dag#YztXA<MXYTodFgtJGf_7
z5_?dmvwdaca%?!C4N4_toJz$|%2mj($p8E+byfFgmqoXDqEy*+NmX3=BMGN+_K#HF
z>zUavSc%j5XS#OZboX?>?)UnAb@%+Ps>;ql`iJWO9Xs2?Fn_>;kt}*<;|OHt8G#Yl
zC^M)%*+CY{rl@J$JZNSa6LW?U%x^P-<)%sNHE0p6Z!?3|N!D-s2CMr0tZEJqkA$`N
z8q^yz8+V{Q&xj179W)8-pjosCrni}!dh0<elwp8u*#>1xUbzg)FktpQC)i;4a$%>y
zz0D5Vg+`$qo)z%4!?O~e74WPQnuJPtI^bCaPbWMb@N@}I=<OC<0ILNzz#5?%phu_y
z=oLHwYXvXBI-wTe4xtX9PuKylUhn~I5b6Q$6dC|FPL}z1sg*s__;@@P35OJkBwn`j
zkh+Itg@nQiAC87(nHR+2NGuW?;gwO5ACAYuN<@muPzou0h|llO%cD{}D)5o<iKsX(
z#*_fX7iROgYlb}jH+BG+XO!$afxW5c-(>x!#FOVmB~D<RE2AO|Oz7z0yvg#TA(<Z%
z#TXB>QzD^gBq0ik-4QvMSLP!!ACr{aj6`9XRcrbs<(x4`QRpK?B2aA(M`ao3z<=M-
zp^Q&-T<stSJ3GQ;azYVf9r=S76ao{Is-tk+L_<Db0);PYU<la-;2QI-jdAWt?&(WA
zPA9q38&JnQ61Vml+zKH(WF-^}i@Y?viD`-25fQkti7BKEMkeI|GzO3g$f{;&oNyIT
z0yVgBh0{Nhb{tJ|M@bdD*))B`^svS5K9^lW6fBX?=XHSZ2}Pq&4bwKn4;Fq{A|fA`
zQ7|J)Akmmx^-}ctO$6<VYP)nLL`Gy8^_=H5Qti3!iMj%cb1xd9eIeo9X~(G~cWP_G
zw;|>Ii3WKzt_ac<Shj603TO04cnjufRPRB4I{;i`{@t-Vx#vXMaWcuB)aHnDGSYT6
z@reO3CTPndPl(~ja6}Y%PzYH9rIhG$38Jh-Vj(mPydcAB)XC7N6iI%wYLUh0uxit=
zsAlLR<8;9IXv+cbV?x4RNFY>!Hz*+PXxh=0<hm$v{ozNU?!b95EJiMiG9NOC8Ya>>
z4~o<(O&~>~sGpamI0224Nf>A&V)$}t+DIMDk)V>OW@ukT7xpcp3#;0&PXhv~LsrNc
zX}inRHUKtU5eX6!jmQdBf4WMrb`p;&G!Y_7M3e)GdRc2*k_s!OLao%>1rZ@Z`G=JQ
zJF9Xbc`_CbN)s|p6_(9dxH7#*!c(|*+IRtIEa%DQ@wDSak~^UhZFqJhe7i*NKQ9XL
zFf1M#4P7RMkP_lUVIqO=%BT8!pWdK^rY&3Ymd+$i5Y!|YXO$z*M(B8nngZ&y$|s;@
zzTzEAJB}y0<Bv{U-}Z?+N-0I#PMtL9Vw5MM9FHmi@)*oZv+t-qMFiP_LqVOWLc5oH
z@f0HPBcQ_hDC^XICWKCWE7^?1Kw!~~M@1^2lYxY9gtjgzop}pId^oSIR!YNBv{G6n
zhK_jzp|BZg+k$5hq{$R`CTcWtN(OEi=t8{#--Nt;2u<dk@M+}WOtNZ4mr18+^D=2K
zjzfoh<tlJakFscwogz|52#3Hp=j&IoG1)m}G~3pKp%vL`!OF8}614@|m90NjMBvG^
zqdUoUYf_nwBcaiD7xB#jFk+)bih)VfZ3U6Qn#f=y?KE^n&A)(wM_7tRMTmSai~LYj
z3SW}>38N_=k0}w1Peh1SC6M9~BE=_o2!B!FF>J}AGQt-vE=J^u`k@dZ5r}U~StXVV
zMt)dUrgtf_v3l)k<dPm;R?_IQz{(<TjI>=ob#4^_NJC@5kgXzs*TJ2?9)QpW9Ci?z
zl_Jfr$-HWYHdK!beI;k~FAj8cwEaK^@gksR$z)Ik&+QVnx0LfQaQF@Ap&v+yNmE`L
zAmTg>Z^#)vi%2l4&*SWKBs|L6`16!B#E*c0#`xUQ<omw_pVg!X5~EupYV|2aI4uxW
zEi$VrK$586T2*m?i_k6K9`&XjeMzqG(bcud*yNz9VHjfUaIQ!sDg+X{!T$wmK1kn|
z&?s^UCr0;q8cB}Aenoq?!k2?ZMCm)XM<=Q^pC}TFT{4IY#|Z%&V%QnbC!7gwv0cJA
zqeqeW8Pz`pV)DfAQB3Im0a5o37+g;BvCw#SSvFH30|m6jwka@r6j5MQ5B>QR1o9VP
zJ47J&{xl+t9z{eL)x)KUKx2aHw}Fu}oOZEOOb~KfqNVJj(Nfk3PMZAY1b<!xMxpaE
z&UkQx2B!lGge8%%93a@ff7z^7V3Q#DE!gR)c3K#kR76=Vr+FnZE^bmA9|V}diUQ<8
zL@p;<da@%*Bv7*57>q9CPU#x+Rm091%Nn<1y}n__@}6_uS3hI<OUGul!tDlSNE;B2
z41wc5W}2O1$MTIQG{Pj9jUy$NDbd0*mcQ51x-nDCm`%^-Jq%pNvm{Py37lLWGCgbH
zGM*)I+DhQ02c?C04P3^PWk49pLZ^XYb}-{Ky+|Ul2MI<l`ssh+Lf;X-FBBftqH}&i
zByjXHF2kvd%;UjDR2mt<Qy4gIDv*VCaH6~v6Zx1Z3b_~v!bdqiPQ#^Ge0&HZALvMh
zEw4MAFi4l-Ri6KX9l5{@k;@SQLa@m!CCU|vZv~taL<HBT@PZT{ii(eiL6qT0V#JRD
ziZrBzARI@xQ8Z*0O>X8ewB8nHfD@1>Wknp%#cZ0^BpQxE$_YBE)&NRBRwwM|sV*Ji
ze>R;cKZUA9vw4v%wnx3fdcRFA(~lWdGw@TjA&Wx_!C;P@L2woT9AMGIh36nIqv{$?
z**AgfxeZk;*=_<+jsm#GY*aJlbzgDL4=S!#Bs~Y$xF^=N!tC=I&%Tsr-;yQMdN|d3
zIPH06jXPqzd@kc@NqJfpmCt_u>Ce-ir`Nc{`m3a;J>xl)@*G;}{pbFF>Q8%mZgahx
zRU5Y`RJEUl%seU~Jc|?5W^G*V9n|J;aP$`f``6|HU|Q(M`J!)_``n5b8bxj6_Tr>6
ziicT|FdSlMrR4vWVUsezVV+I*8&=I_Sg5z?gGJcnGV0Lf6);|R7<+Si1P-G_t80K#
z#?y>z%v}#t*N~}gN!7Njdwui4x!}5I$9(@>|GhGc%YK)!l-o4{%NLfcfDyof0(O<%
zO2h;<0UL_2Dd%Wu%Y01GAJY`L<E;cQ0X{{?k#*11A-BFf0jE>2*90BkWH0j_^EcS9
zA2vu?1E9K3y>g*%Aoyb6`C#AkeLw2!zo44~m5YhmbxVOws1Cv)h0IRuDq!>G1|Ptv
zaytNU$XsQH+p)^+Sm;i1jkm!wbCn-B-*qk=UKBDdT`BlAbfvhi_nn&=jap1KS&Ldq
zF?wnfqbHeV7Ovz9j2#-j0>bJx&pU`BmnamX60LrX=(O!IQsj8ovEWZ}&F^cm2Eq8=
zZ|XnoXHWZ^R4zy(y<kwa2ZQ615RZzGuM7s?h=-yW145}R7!;&1WGd)&**M%*Ndl<^
zJj98h8i5BvJ%T0#%?Mf%>__l8f(`@+5p*JW8o@INjv_dQ-~@th1U(4OA)ve90nGgv
z!K(n4wH-0t+z<?JC~!bVUIp+rbI)Y5a(6k#=EmF^cEb$WyEL1v?aEemW$Su!EqhqK
zmbG>pwV1tcGg*&qa5^~2V)jHK04z{>ioMU-tS8y~E)#Zx8V#PN`7?PnxwjT;!~IH!
zwU52eS6S`%o6Injowe?z5=e>Mbo)fb@B&c%4)c!1h!@A%X_m#<(TrEc(<Zzso-$o$
zZtB|lt_8|$t~|rcScXk-v&-ECOqiz4Q|MZ(p=Y5Bbq~E_SR#0d3SkCZjAo;xQqfVq
zwrdXNhjK0u@z5Fl08thX(G|t@=n+<7P#1|&bQp<k6<yKD3a;d>S4e0=hD^B}8G(DH
zI2@ShYeU(Ox0So#zi}0EADP~9&BF>_uina<Pcb8~JNR4nH?|0@@!zrUv$%F!?G}u+
zWf=vPh9+pa#ZF)hFG`D&(fg)8PmnIAo|(3kz)(@t9g2bp_A9!VnYMyw!DFqWWQ;Ox
z`xEe5j5$r0DQJ>tnqma2z}!UrfHcib*#z4q7@hP^mHompRW`-N8FKu(dkk%5Q4-27
zGsHG!5jZ@3A7KZW679+_fsrGe(Nb$az$kbFPSaF&ZUT3y7cG_17Fwavq-m_y$mO16
zxNj^<vnH|(e8YRRqGa&xT^GFHS@aT$)8!>7uu}@`U=PX#&fp`<%(Ah6Dbb?>c+-IG
z4NAsPQj3x?p8|}3Qv##L#Y2FPMSfp*;hbh!@=Im6fp*3<%)&P#oPwT(CS!DCgx>5|
zC`QdRrE1D<lqprOmY72o<-=ae2OG!=o3KNS1A1bN^B^j*UBM`=B}Q@3Q3A?i1{Gs1
zMlSa>Ml>)^S5R(Oz{;XaElLT{G@~WU#Qv+q$WA(P=MOz{KBw|#u~cFfE|8rU3fCDl
zLg#jj71-&@DJ$8XTX*~l$lyom6`rarT!Gl=cI9(Z&*w_ayqfZ_3uf1pH#_()>EW}>
z<I7H6zI4m7eVJ1B8_Pb1;cHPcv~9Wyyo7rTkKov5e<#Qo#%V=q$~jeq`jDff1eY{T
zZpvF>2=hoST@A;BsC_7A59NO=VtR-SI}BXg(U&R50D9Ifcm~mrx1YQWoKWFDN(qmO
z!fDk?ufA0KI2^YGY5p5@Xs}Vqg}7Lu1;7~R`YpMzShYs*$_E~JKT_cE(M{p8{l<#`
zK4PC^Sh|6G4elp?0tlzsX%hr&=1ag%nSHNv$~2ZAE<hhlh8TRz&O`Y3-YyF>$^6EA
zg{49NGE4pf+W0N1DR4kFM}(^?dsVgIdAo6CevL-d-<Nldh%xc%1Ua7Q#7zbseg(SV
zQZN*ij|cRMAVx3{1m<33d;J!Mk@o@k<9{-LyvE#TOnYm;^mi=PEQNl1D0%+k?~X38
zpV)8MKdHQDhF9Oo9JGC_s)e2Nwy@eZfo=|PUjREqx@Dm3MeDaU*Sg?MmS^Br>4E9P
zIaFJ~Au<kFmQ5rE4?@q2a4Gd8D1v+HN8<;6WhtYFr|ej5?p=9lvHP=UKYjMI=TptS
z-%;+rS-+E|d!+*Ua6?a};uK`E^wlAK0v`B2fI>8gx*Yg`N*3h+#54kk`YEAAfo%T1
z^Ut904~Pn*5}m@cx7>@}OYA?|m+dzzZ}06)HJ{bVY~01tO`m^<Y8i@vE;vAnqLV@R
z1~UX7bI7U%zbH`4;rq2Xeqbr9w#%VtT$HuFChii|GB`egFM$a836{)JF-A~*)XLn!
zi$v5iINThPWKr8x(!C?fKYX(kA6LsoI46a}Pep|CB-{c3O1x5&h6&#4!G~M0-;OA1
zl|C=J|0Z<v>93(@l&S?ku_JD5Z5_h1P}K&PE1_|j3}c-=cTYz~pn{BItp)W-Ezh23
zsJ57Preq%n>LU|TxF}c6aCHG^PW0;*C`e)Q2JMTN>#74GT>t621{otwz9^l%rfIV3
zEK=6Q?uY90-vd5*8u<Ag975R`_ug4Y#?_p1H81uiT}PHWS6xR|o=Uln%vjgCstmU?
z#qC_<n(ny0v*NroCuM5eQ?>2s+CbXfvBIvHlI}w@w)N_|`Hs1cO!Z@_>c<u%E8cYV
z(=%mv?M!Wb#@m|mwx+#pGxl|tciuVY)JHp$cD2t~?|64ETv+T{@ua;^L5m9S0{iaq
zh4{ksiuG1~>OjxBv*v^8>(fd8aLRdjeMi&68#l^lf0lIZS$BKq8|NAq{j2W%>vfF_
zp}EOL_uN#{)qKb8nZ5X7!@?WC+NHlpx_J0ZwbGfXXh>BwWGb4|70v54b@RvOj(vDy
zrWdlAnzmF;+e|Mo#O1*O7t2?j{x4mg*_S>p(}zm#=}ozNvF_qR_uMNP@4l3GU)t;c
zy{oNYGBv)1-E+?@TGBOp@9@nVXdLex>biCDi|)@~Ngq1%Et*8A-Ca9-?w*bD`WAd2
zzhEF}Uv&rQs0(e2Z`=r^y#A%rD+ia)W!jIY+K;E(Po}&lfA8x4N+-T;)!lx_xAT+6
z8;y&XmqMRTrhNxzZQ2xtOjBnHe%{X8t|txr9joqx5ASfx{>4k5J5t^=w_RuTp^|%g
zQtqDhjwe?_%agZyS36EF3@+{dtDk-mnzi5K7*7L`3byW6%NOp?{cFv=X})*%+?Spm
z3%<p{l&|Bq=fKxcs9j`l_%gozDc}CI@9`CT%6H_p=cq9`B>wA~dWz}ntzno$WUcvZ
znm?;!`sfA3;a<47*nQ)bOk+o?u_N7hFy%YA=6M3vx5k&LZb?<Qq^nzJdcFj{?oE0R
zEP7VG2bOA6-UBnI?^N%|Yq4JG%2c+dDqF#A$;-aA%0q>Vzcjq^(sJZh=W5^tWhfre
zroAm|u6?>pF4|X}ZSd;X1M{!Vy|(xi$oSHQ%;P;N_<4KQTqsPQ`k5bn?W~#YO*-2a
zI-&jIQz>U#l53*}KH#d$=?68E6on5h(FT;kx6km2szL-P`K@FY9`p^ZAiu)m902;&
z;_F}*PHJBOaE9KKkKpYBws;Z%==gtEGgkiJEW5w<HZ3S02CwyhZMDyIzV+(2rWaZ3
ze*KILvv&m(Q`wNT)N6CIkzW7;@)iKqp<nF;!cuHFGD5Afb}ombkq`ph>ucc!*QFga
v9w+lqhb~NR25{HRvh0S7VJrTXsrnD5>3?izOzhr!48n~ImJrJ}P$d5co3Ovw

diff --git a/crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc b/crypten/communicator/__pycache__/distributed_communicator.cpython-312.pyc
deleted file mode 100644
index 5815a86e1a0eae0b8ba7dab9da7a842b00d74b41..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 21201
zcmc(HdvF^^n%@lG#FOu*9^gwBC=!(QvPH>~C6Sb6S)?pdc1*7gL%@&%1p?fep=83~
zS#f+9a4na}^<7AweGwHqC-SVs^zNoC-(HpNO0Mj?TvZ5zG_bSWDyP<|Wb+p-d8=++
zsZ_qN2lF5_fVA4HOBdPG)6?(n@Ao~r8~@eeuu|Y|mj2)2|FMsvevL1ZGiC#K{uBZ;
zRFDeNVQN5p(gQSk*A3{%Q$L_5Ps4zLJdFcJ@-z*Y$kRMvCQr*q(SVi4GIU|vh<(6L
z!uqgf#4+H2upwv+J4ajtu94z_Vt6;bP7RdksN+=7{5lo1Fvaid#a0cJj?<o^-{4D+
zhZam6!-o7}2wBcB!Lb0-JNg?MzIk+l#TSka4TT~@g8f)@WMnK73i$ab8^F(!(?I|W
zzH<@087fW<OJ7va;cV5aDC+&}3tJ3%qybYUkiPd}nP%08Y*6{`p<}aFH@GtlKgLEl
zx8EIzj*h#dgKqvj<K~$N7iHa-Li~C19%KgnV`1Js!i+@Oad+519v$Po?tVym&L6nI
zM1rKSfZSt-bF=<S+4QY$F6#D&!|qW(%ZK38$QZ}F$2h153gG-Bj8q~i#bXc*K|k*o
z93jpZh(`F(&{%Yg6O4gyG{Oj0B?_lPY$}K2>;C>gJ3lho{&G9}@SgSnJ3a~@+m%K|
z+4f+F<Jr);F`fxR(aQXIN5_Q{Rb@U>7wdvjtKpw(1Mf1mZl$&~U3-4+`Sj*}$<6y#
zHb0u!clF@p!8Z;q8=k&3m_F2-Jk*;y^fbKPfecgtJ;_P)d1nFIIzurOE^1iNG%RKv
zEMz?_;w?er>-2z$G2>E{W^2F#?^|F=(sE1@#8^}*tngl>dbct5pjGwmfcLFIo2mpS
z#Mo6STqK1<m7*A8+(D-*ri8IGrNi5#4k^!|VNe%zsZy2~Oj)c-Spl__sM=8p@1?5u
zDtNCCmZ@@7Lrl3UMGd@f4OXa9)RLG=RZJa;sZzyk3RVNLZw}Ugza>};{?=d}`0n5)
z@auz{!EYGXdm4nQPG!xgNjmm7WVN0c84WWdOoaFIp=d-RAaz1_AnfNj_r;LkjYx3b
zt6GF!_gO*)Aufl2fcp3-(4@3PfzTNK62nB?!O-9!!$O7bQ8pT2IF8|3-J?-h>O5dl
zc)XRA#EwNGfI@C)l9C}34KkdUeE*FFrmv?vfLJ6sjKWoV=LZH{p}dS)!|GJo)Y4j<
z(s5Nmx|4bVKx{%6*A>Dg-Xv8ujCJL>i!|%xZBk?q%8Ehy_p_~djpiNFw>Sm$AZ_M2
zsZE9JDcr^yC{u!cnz|A;P<)A04WMeN6jq*63*(fpNQ&K%r(B9vo~k^ACE^z-y-G<T
zg`_?Kd(uM+jk4aR{z3<J+oc?QofI10B!!e`&>+=KQ};+|)UHoGEB7ozRa=~9UD_iU
zG{vBS5u5hc3B771Zc%z7g&>z(3M)^DZBX8%P(05V-ZZ}tYaSi+NLlwyVw~FNAClg9
zj}(gQr7_KY!n{-{se+~pofO4xEnGv;64%3sz`7XHN##K~l~Or{b8EJ*;JTISke*PN
zybj|uydei9?jGx<NPGS^u9tCYobp(EfXSDsaL|_(BLpiTTabxeM22s@6lKFf9~X)-
zf`Ro%F2tI;A{Rq!G=g~RzUT)b>|B^}H)kb^b0ADGyqCrH#!4T%%f*`VK)ERBU=8l(
zAd7+(G|wzG$rg%)c;5)apN|Gv92rspi<lU5J&R3rV-wwvL1s@4$S%My1SiNYm=7Qs
zz6Ay2*yt$33c4sKm>IDXg7q1Hc#P>{*(fWRq2+#_X9Z(8dI=KhLlIu7OsHWQNT3o~
zfY<mq$N^%JF9H&jV3y=gLntyB6-r5?vmC-V#74(PSzL)ME+e5R!dwy~1w$B{YlO}Z
zF+vf~k7nbY7)1V)eYcMILy>IQh2K=YLy3)J!h?c^)Cyk({RL)Ru<%jdANF11I3z9<
zH(4iEZ}E}bK3~k8XGXkIiWW%EO#?+<roM5NrCkk4SHr5S>FcU9w<*1&lb+IN$|`5}
zPw#*0z<cLz3|}8kmhD`tZCY+V`9&bv{B)}J%yRjewc@H-!))MMXfE{jg`2xR=veGn
z3Vam$F!a+4$sI>mi;u0Fv8?ax)YgXirW@_o+f!S1B|5M4u2t8~c3wL%cj9d)yq?I|
zi_`X&q`hUu-kPb~I&Zj9biHWymF1cp@b$^>Oq8Si>Qj?XE!VWI*u87^GV$f`r%j)G
zKJz4NPOjLWl4CK+w<fCnktu%W)#+CkO1`XWxz+he@5jA~C)Ti@#-zP5Q@tr&y)#+8
zGqcHkt#__BQ`eZOsF`_g`nlg0868e&@Ro*aFV4Mqv-4*aOE3R)YpV4~YV%QOOi#vD
zHCz9q_}aFX8<FdgCI7AJPmg@OX?bsVYTNNC!%A`E8sv=3MQ-;0tofGV6W7PC)UGE|
zZ6{J&p2Uu48lg)ocDLNzmWBQge2czh&B0asW9x^h;%2rOrbb(@0g%h9*IcH@X<m|r
zsbO3gIZonuebl0^r`w~)RRv2u5@1;5Y%DUhMOx4Y!kj4flSM_MW83nrr;X%z3X0&6
zm0YI2wmDIRU$$+{lvS@uODyGTTDCNaT~s#_1sEbC?Smx=S}KU}VQRt<H)x4SLEVMz
z&|Vuat7<`+QM^V64O%K1C;${MixEMS1j?PVIv~YN7=xe$#Epdg>*92<=pDm^DQ+6J
zK^t?NG^8M=wNlg%0J<j36PCCc+AWI>N|uW>M_;MnWdSR0k?Pb=A2%O_%vZb{L?!)A
ztDH+E7y<a(dI)w3x(FW&odUHol!YmjS3{gT66M_-z-5#LEe!?OXG4)-^b+TFpAIvA
z5SJC?aUTOEuOEbB6t1%hpI5}7^DN^JZudZ9j)#ypX32hU+puPFa(Bc3opa!w1n!Ue
z_zS?}CukL)MXb+pyu2)iWvNz4B6a=W&@(hhksbqZz5k%UL@(0F`AmSe!RUx!3Y?FI
z0u0y_Kq&>2fy2)QLLpz6;dzGTz?z`*?iA<{ht+4X^ZTNMLrjEud6YdA+naZ>%Z$f+
zFdPl|!`vaSob5#@jB5h#e^LK<nYvBsTCABpd#`j~JvDjioo(q_Z?e{#wzq$)hY!Ca
z!2McVJN+9JQw76NI2w)F2SZ_|qrIId+sMc}PxSSlIdSxCe^;mP=#gV5yLvhW>lyI7
z2A=6X+b39`?LG5Ur?2nCK$l=RbEM~_hh`s!@;p`+iBK?z9IUrb<b{UeXeh$&z%RxS
z&x~;FRt)Q5lvtF%*+;<h6tVj;jLcqSlvtuzo=Y5GWW2snKYw1ZXAKxWKRd*+yC9*U
zzX-#Ega%wmbRuuEDyu8jaPI-`gA%yE0`D^QYfH)3HpkURCLfs!{^;;pY0bKhE_s^1
zqt}-?*MV6%*X>kY^R@Q5_HS{}*Y+Q}#s0kJI~?abl&;R2aIIUYrk2d6?F(C%x9?xB
z?a0(NWy-6+EizVH6L!d5)10nuNmjR{s#{^+igrvskvKM0mT{HNHe73&Yx&aEwARo(
zA9#2Bly1g4ZJpiyW7oP7(tT&4s@rc_R;rF9^l#el25uC1398jXAfG|1k76H#&oFg3
z{OqIPso+=84>5eKF5iH`#}UkcXakt*D!m$?j4xa2?rsZWC27ld1Yrvkp@eHenjozY
z1W=hQp`5JKB2e~3p0qOdO1UYp9_C3~0BQ5&&_G*7*;EjB7<p@sQ+US)6-7fK%~Q9A
z>L|g~1D2@O8(d4^?p2~Rb7+wT6+;GC;17l@e<%VF90^7IJTvs?bLbWidu&7m5G=5s
zd?>GrYq1?F6f7KQ4!-EQVZn}HQA8yvTJfWS4}pwq<iZRyDpY_KglD7UzK!Cs7ZTpJ
ztS#L6F&?;2B)_OCrT8J_=l%jb5LIoitB*}S_Qv5^|ChF{^T%#Hb^WPy)8k(@J)W_<
zP%2E@>y!5SOmW?8-?bmi{Xn!QrZzu%tMQZ8k6Y6nr;{D00U1EVvr<KltJX>D)SeYf
z^_s<=wlpLy4fDHi9K3!o-Pn<A>{ziJxGR2tvT^^4r9+Niu{33>>J;in3X_~nasLrw
z?$_+YnV$sdN18=2&SdAE(xkvRtwn>w8nh;r7)P2zo|EHl>J)kb^PJ)PU41a^oM=fN
zWdfnW5C{#TQ5Y>~Xko_b#&v}Dxgf`Tzpqy?o+MDrY+!a946z&!@}-d|O+6lyB6Xsc
z6A7}|Y!=r(i%Vuv&+f!9TBig(l+WSd0!tCa(jdIVHs!-bEbmoF!6CF>ra*-#E*F)Y
z6_h|vEN?rJ0v~|gV!v86Sv0k6X2<l7bm{hF>Go7<%fhiG{-akveDy2KaS=&1=M~x0
z1JA20yT)k=EjAcrG=!hHUdz09KQkKFgV3*!?L5N-n9xPoDFBnHxD_$TMn~NKh<kf<
z6z35(Utm*Vj17Rw&j!4#AG)}x0}+7@umK3GXN_3#!GOR7E{ao!v*s}<v&IfX1PEme
z2g2w^Rh7K}pYl&1mifn!f;$FY!Rae$nBSKwX-SwiOyvCTh2RI##ptT#P{vh}a1@xt
zn^408PvSp2arRLjJ^K<gnam7}!nJxzK(5oEB$k0>8>uG(F|p10sD~8tCT4mZyn^HJ
zD!Uq+jLmMlwqtHbx^`!>c4w+~*V3_D{3ow|{OXFUciGZgVDP7)_<zp9C$yqrB3IB4
zq_OkRD34KvPR3Bq8do6`S>qeWb`<g#7+WmsEl9$lxOd-UyRdsH_)+x3=!&a*+0rcz
zsSF`dkgP!eJ+S--9a1tp>QbR#bQ1Hp08M5;j_WViqy4hbjs#l!wbXE_qzQf8aCu7+
zbzkLZOxT2hmxZKZCu!scZ^8&x@y+*Dx`s$NVN~`+w00)I+HH&*ltnXPQn6_baS)6L
zvXxnB<`C?*z$nUAVCBnAy<#<wn_$-&_JOXN1G*t9pnCz#G!y2yS*yfhd51zNOB(TM
z-IXl{(7qw>eazj1^$1G7&mJ{Wyexz?QLLV(o};e(?@QFn`sb)ibU;T#PbbWmfStrz
z`e3IY^>$!dXj3IyfrNR1bh2UpJIk*0AWooZ+Zg1>N5KdXWG;d+K*UO?Le}iRfI(t8
z^v1vwin?A7FoX#TMzWs>CfsObh~@F4kr^4~$HAH`wngE0L|*Y&2-6en+0Q;~CqV|K
zd{T}m%+MT%OIp;9C3yySYGPaSA#%3hIY`8{0M{vm8yTB(s%fTey6vs@FKzW1S6L#S
zscM|>ym9LKsdsymReRD^`;%4sQ&k7149Fe-XkDi-smW~iEHr)4w%GQ5dvbF}dh?Ow
z<|9+xAUIXj&OAB&WTNXAuDVQh(|rGp7p}kXt}j`=H(h-oS$$y2xCSYnpMHKmxYYcq
zX{F+Lq8se2D2&fmUaOm{n?JYExYYlV??d0Jy$g2wiz^e3bu-n`O@CF_y>w*u$hGdd
z?)0X%<fgXOP3_Bd-HE5b%T&~Z#klQy+q><_ie0%yh9wTOYVRcs{vW@qqN?j}Q*=qq
zFUqUe_3->Zw~MJw$7v4f>$8f@T_x0iZmsWf8~(PWsB5$SZ#U842h?DP3sMjNcV7HM
zAk@IlD0ay>t!$aTpVh^Pgs+px@-=#hLa+h?H)RRD3JBb!*ec_)tx`*F2ePgKvNnT-
z(hOF}!;lwjm%}JD=QtHaX#i&2qE$MOGj8l@Kx9yV)9`+F^d$Ke401;dRNM&d0PT6A
zC|)#NmeUA$m3j`T%MDcIMPA;>(}Fb6aAcrR%93g%V`-F11Z_#yd{k1k`5rwtYt@jy
z=Qm9%a7MU8UYFyf77^=-E^h9FlTUpBX$00x0Be?5i+I9G)UZO4(J|hQhjZNi02_r<
z4XR^3BCLJic+SrU&Vv%hlA}>zfW<uI$PaALiP+e`sE4hvQ6j1f7C$#03HYL;-#<JS
zkur<920<Uo7NZnEKrgEoEb7?H&?iz*kH?{)reF<m^0q+>CP8yH!9&61hrPH+5G8&*
zyhXG)!EnhR;@L}(NGO8M0#WTC*b7$5ofvH-ZDI$poXZ#iJA|aCs9XGy6X=)OFn$vi
zL5#u`A)%*)pML^zu`T)VQ*6-^q~YrB0iXZfR=QTUd6s#vf2FKt+5Yr$>(eRl%UUvJ
z6^YKw{zG3?99}xIQu)vVovLg}SGK1r+m|a2C%VDQ)Vgm|Mn~zCDN|fNW1F_El~>Q4
zoIaVU-g3=0XPfU^I3p^S%TJ#LGekw@Z}o<f(sey#0W)OvCIB!;9c;Z7m(5tFEq`YH
zRuAuh!R0kGho=u`iYw6k2pP-4@TqegqrY|?y<@}xyp}s5VdX>fW2uTZ5id_po}4vp
ztasIZ{Og)cu)*fI?s(VrWlekH;<9D`Qa^aVyIoIJK2CE;)IZ<U*<uJ7AS5{?ECP;O
z{t$4~vv2<1;AkM=Xv~5mECP_u6f!qTPyj&a0w6R2n3@294naEHhOtQ<P@XC{kYz~a
zD@aya@Q8$-4+gX2B((&9?QwuXLly=t0Im0gL6q|D34|K$lIpxKAXH1KT0J-YK0OB*
z#PtA<rm*!{a5Dn9nPZ)22m;&(xE&x!2ZlvrFd77NQW%g44F)3Yv3~?L^s{KoVP8Y<
zUxDYbD}cnlj<E_7{V}`>R)9}m7KMma$%~2pHF}6dYyv#k=s@^kC(*l%-jC3G1HCKg
z$)Lj$RT#^WK}WPfU4^Lpn;A+Q{vOhCAmbJk+wOrod-i`-(XsGDf;+2~Ez1=hh&Zs7
zp@BHP)4f^5S<o#teboM8`xl+}12-TyIqKGniHP={?Ez7zcd~c3``XF5lM6>hm37tL
zO=Ps+-QG%79uV=Rw9{$`WY-T24n?6rOz`E<AA&Chb<()FZTu4uxb%4pr`npPj3Iyl
z8iJL?>?K+Rx<7&_1?D<=tC#eVc*+SjP0f-Xmc=0@k5mJ+T0@UiYobyc0E3RfwlOR@
z(P?R!dB&iC4hg~_;vi_Cxo(5T3dY8N>YB5<@;zz}8ir`FkQrmG$6<F;TV)JI+<rJ$
z6d8g8PIzv5Jc~0dbcyJQJsy_|U5JuMAOw{}ar4xP`yk30Di$F}#FcRj5tWi?jiw>e
z48^7mwmO12xQax9hky*xKWQI_MjR1hM11)%yyur`#KM0KX}DGJ3af<DzDWR8!iuT{
zC|Gr<wWTW_N>)4s@<K)J?4ER;H(BRR)$L4GJdDSHN~h>dapjC-+OY-_2*@$>&)j(a
z`t$F;aBCZGr+jg7rTm%S>UAi=Kw{Vpb(CC{g^qN!H(BjXRqtHdcB}Ez{?C1%fdY6o
zQ&y8Wg|=GTq;0Aj%S@NIB+FY;<*f_nmKtyMf8zVtw`w^B@>AlXWVp?0PS8meQ2aS8
z?guq=0R+Iwj{Duy1iL)00ODZz%WxpYDLRcrepv`Gz>!!Dz$m;Q3GFH%F2GkU1Cw4c
zMoDeB3j(yDBi|?#&}m=<a63E40RUv-9K-<~5TPNqLn1;^=I7kvUW4ks0-;5;mE_W(
zM{TFsNPX-y)SRE>2<N|x?2Ib1lPQjU3rZsFh|ru!a(@PKg;}~-_#MpqHh2ZeuB0qs
z%9K>i)J@l=OB$0Ujj&HqQaQz^t6Gv(Evc&3R7o2UT9GqxBx5hdlOk&%<AdHXUwNbM
zdfmI5mj*uye;EE^-%9ZrAT&7YpohdjXs~zbnsm*Y=1n(j*KKL{zNC9!%Khl4hR<D}
zxmGQwRl6QpB^{bdQ8<)@%Wen%L5T<Kzjjyz22$b%FG9!lXxU}I<mFp3U;>f3>V2C)
z(8h^Ju29j-aasf=@yD!<Q!<8tP)Lj+T3lG+j2cpX+=A*qF>z#jsUoV@-`B*U$n{_!
zHA`av5OE-TWXuGu)b1;of^wbISC+m~pC^|F@hV5n02UsD9sr*#eCim0Mq~7)amdv-
zv{M(Fs|kxrM#wt{8?+3~78N?%&(-B=*F8oEM@MC>F~^#ZvQd99;D=3UqNgbP;CI<+
zM1{qpBc>DfU&8c>ddoQoZICR8O7c2>hjl7iP((q2XfQ?Rq#B9ZBIsjqnhz%gu4}=C
zGM`G15zQ!~9y5$Z1<?BudT*eI90+VGV|cxV6HH=2)M>ClQQ$ydM8Fw{i`C~dq{z(z
zwU6S4!7B)WjoarRn=;I}e(YLe62@N?Hmw{w_Elx)QuoxwnOCM?NmsQctJ+qp+LtRk
z6UV{J)S`XYah8^iEAMn(>zV6W*tfL%7V|}LWmDg3aX+dsXX&r2>T*pfM7Q~-p?RKJ
zcsA9r7tVP(ywlDp)2t~|wOOoiXR>PNYSpexd95gyG$+fO=Lc8I+u*R5!@FKd6;~we
z-?{EnFIop{Ox?`D^gz0zC0Wsus%RChGCh+$v-@C!npw5)fupfA9n&4@vK`5?9V=yR
zSqo3P*qtnP&sVM#Z_l{O6LvJsRCUorKK#s9-|aGNIBSWBj{kRX58**kT}6!=$PRdq
z!fB2Jp(Bf<G=+yoVz2dq#qm5`B!K;wtPNATOXam%rIpry9!{eMqTw(T;Ndia`y8C5
zyuc~fuH0jA<tj`F?b7)u$m!(7h#T%Eph(X{Zn>zzu?UnAjfj`8$RhSbBeR0MK@sH9
zsK~M*h8542&_p0mowH-{fKmSamu%)*T=cDw5*EF)(2)}Rq<wbJwZn6Vzq0HQH*3{{
zDl5BdP#&BM6d7vH;NmMto;b0@X)#=tmD`}OT&+_g$_22ve050Ko6tI~43nFcyTRZl
zvvVyIQDK!<^;Ju9HSjX{Ybm!%E2O0+Jz<YThH)*46t-xAi7RsHg!vxnO*!e|9QW{M
zY4nw+#DGE0wG{picbg5dJzD3e;4~eqeXVm;FTp{lm%KfTG}$i%HbTte0jM6B2eJ&o
zG#UzA2;=tV*vKd+@&N+z`Y;ngV>-WkmtaL%+ZTZp<APCq7?5v>A4C=)z>OCEQISL<
zP%>dOS*w_!hbAg@3wp>x6k9<LWF+X=o$&v##yMa1IVh>XnLgMbz_Wx+NJz7g6fXao
zD0@lbF*uMr19q!K*Ei1ctKrG;?Cz9vYeK)~D#s(O?;M-gzx~9`t`ANwo?LM~nlP+6
z%hJv*N#~Y##;(QYVmF)9Egi|0j$6C`3-kH#XTvKkPp7t?Njdux`forf9he-LHOx0I
zoLzD3PUzOMG5Yzkg{~FHu7vJui}k8`(tM>TBL?0qDsX7!CnC}6h!hN6$aNFC!bBUS
zd0C;&gQ^nYsT5BwX$<T!u;Z>Q@j~(z92`}k#F^V>xFx9{RJTheN+l(1_(|<DC<?J=
zyTE3D|Lp=ReF25HkUb25NtTc`EnM>M0I>=^bVfe@1{aD&5)^e(>CD?paL(-|FS)74
z&O^`H5O}Z`#$gyuI<OT+<hDx~L996MVF+zz>?nG~#ypOpMfCm>Ji*LI&yDj8$KnJC
z#bDlsYY73oDjx=^l9P-=itI+JBWf>#O|Dr;u;39Qq@w(ECZ*VeboLe$qCsaOWz8OW
z?<^X1R$LDQRe@oKoQa+7TQIIzylKnsq-FPtW$!nT_?5|5=F8{JH^)AREyh+{9R-qS
zoTXQXCx_n%r=1N+XG6-_gp^#7c5O?#w#{=X*N)|ae9;RdRhTb=Kq3<nbT8|&Cf>h`
z)0cD4(aLJD7Rhbkqd4%yX)SH#V33NB$_lO)cT_l-dgDrKGl`eUK+DFX`l@BgG4S$<
zbuCg*S|RaI=?Q#PHu-9qc60eC07>EWIeZlOBr2N)M>S|rj0E=_!@{-aaD8a4QZrtP
z$#HQbz@9RHcvvLI-89OuXTC?z%^M{M=()KdwAJTS1+S8H0SDX~rLV(HQb>6!t8aqF
z@%5Nu9+i^ncMpMNEu&n{IjPuoz&X+SEgm3%1N#?4K?Xt5jb{U7El)(jb5O4cic1jk
zl!+LKW5r%a@86-PK;pajN^tStV+b*jy@B2WdW+~0z?{Jl!O9OYgy_ir1ib8VD)z51
zLP13w8WD+aVhE@8?sHUvLvA}k$mV-0vY6~B!Xyg!cf;h@aOGhC<o;Rxm$o{%5<7Kx
z+1|6<)RVIJOu=2G>Y3K*)>$r9+L$=D2Fl#Q>4Wd-=a0Q>`I+$}+lRK5vV)1vwbH6|
zX+yHK;k~^#I<9xzWYXS4N$;Us+&?t`x0b(aS@E7tH9nIneKv9I8#p(G>fs&~Ojhl?
z@EjGs@1EB$>|M1#yk1HbmnE#C3JO)t(>E(Vs9UUCDccLx<YfK^nsZ?Kz<mGw@t^Je
zsN=(qm9j&3r^=L8&a_Ooyw#d6-IgrfmMYy29Vx9&mwJ+=o`uF#sW)*9E<z=&qCf;g
zBs;`koU=Qp!Fy1(Q`?XT>sc4uBK?LA`86BRD5W0(AzLq^$rw&Ulcj_kL*i|<e+wbC
zUWex5{MT1E?&J*MGC*QeU5d`RF965suD&|?>at}^fdP35ig?fgDXfP}@IVG=yLy1|
zPL4D{fiYJ7LnazSMYgqahYBO}ixfCiScwk@X<NZTg6qClCnhJ}xW_OxkYR!qpk7rF
zhfdW|I<_NUNBdd$#UnTp1r`N1=su0xd2o-8>=5L3ZU73+`$Gj@?3{G7DTo~`f#i6h
zE_*dzeQz1pz2poKAT)3e0_rITv$vd1;vZZ!-tB?@%Cd-5jM87cbu9J$H9&T_!-eG&
zH?H&OV>|kotPzszUb^v$XTEulwZO0Fuu=Gd1Tk3_=HVVsRI;|<Jz%nQ;Qp+5l%f~v
z63@mqLkKj`ofvTvJoSB9ycWijUr5NmVx$!3aX>qu03@p#xa|L@jc^*F*b0Z1ik_su
zc02+X<sBb8e(qX+<cVe52{_RN(eM#cfDNrSVR%ymeQ?c?k;l!b{C6uobj+(>J@+0o
zSU}iuHfI5ecjIuh^LH3m5vGV@hwY@pu!8V{#ImL4|36-|O9LUVncSaEl74jze?%;J
zH*5$t>|yrzJMJ2wD*PD4lh4^70?Q_hwddo(c`_h;a~?8$@^4e*z%cnifvri`)|9J$
z*-}r&)<buTH)(Y}J?uWn?rFqd#K6w_e1g^I8;J(T!Wg#ud_NrXhqGVIK3^~zfasE=
z&-Hip`A&D8@pV1bb*ihUU%Upn2g(v`<kzOMzg9xnO&>(FXVH5RJrjCC^e&)BEGk4L
zM5`=|Kq2V+&Yoib1Yhyw5R2RUEN(cmL=r*^Br%_`KgH00LXSWh0c*rB_OH?V8}vQ_
zZ;>MX7R~l3{gYeVZU}IH4MX@k^{viewBY^b+GRrpaIVWw+%eP}53P68l&R!fo!;1d
zM-L%5|7~oBli8+{+qx>_QMg%6A~CqWi=?EDo3fD*0;0s+HaQML>$Q~0i6uTkayzle
zCul6wd0S^RR$^|5gwVP(oAR`h^0bsvZ#=HV9+zUv<@^v@Z-xAsrdGWAd8_$0Rb}kR
z77ih7t`mM^121vjs<=&6$~hslzLV7KkmDe<zJ<hD<v0kfS3?|*M1@>%1u6Jjo!Qu$
zje`(KW0=liEX~G2h?I95#zsm9Au=|%brr_4Y&r<t_UesWZ(E6{GdAD07>%{JojPOf
z9gE)BAWkdJD9GB#YRUC`QPw_$uaBemJbHhL9*W*V$z4B!CfHQeNaQ5JDgBrOUd@a~
zM46kcO}qNCrns2V=qn!YC5!8Gd@V)~%}3u`4vO@2i2Vn6ML6c*^f?9lEHr(mn4(?3
zq>6q?Iix?^uPOU4Df_P|_phk>Us2osC$;mo$w;4}zbk&mNH@%ee@o$$RPg@*(r9bS

diff --git a/crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc b/crypten/communicator/__pycache__/in_process_communicator.cpython-312.pyc
deleted file mode 100644
index ecdabddd5c9a19e7b3adeee96d8b6746b0f00a6e..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 12002
zcmbtaTWlLwdY&O?sG&rO)ctOaVo5eFo3dgjS?6M}9ZO!Nw&GY$7EzLNY0gNdOp(f&
zk!7*cM!PVu5|Y4Dkw6NvMHHYw>}Jt*P@wU)4;%NPyFedGn(|7SdJ7lpJ_P84B4#%m
zKNS7{b7qE=L^=*S1kX8h?w9Ysp82=Z(qaytUsU|>$V-hJ_Xm8j9??u>UV_9Tr*H}%
z<px>I5AyKth&o1{gHE3134;RUIiupJYtRLGf+9wXMx{ZC=N#M#PH|o4lp<C7*va}G
zbWier=?i@6_w$DM!niuFLP9#DD&t}G`LQo}D1r>nv+>c<@mM4r(&Hq|8ne*siOZaZ
zs*9Y;;j9K73P0#{aH=pu*OuFW<32WD2VII|un7JVty!_T7QWdvi`5dPK@l$Vc8&+$
z#moF)DU`sf?EEr#FUooMDvgQ+^?VS!Aud;nFLQ$xN|RCoZ<UG%-m2iO6yB<pW~B_`
z8nt$0|MuA^&LM~5h4OkB!<REggHjH?G(MnJ1+;2{8COEw3~?32J0PxxxJ9Xf*0NFy
zVXIOH;Uh{tggYl4{vAejU+grAhgD6>J%TSJm|lNxSjd?rrtvf~2O(I5^Pb|S_$kN7
z4pwK18)1n}VGs|PK9k%vzTfXKoO)C<q)1HDL$R>x7Yt_@G6WKeT`-C#;v}jBwMat6
zDiJ-X>th-YEW>mE$u50#tm{%2=|0#MCX-{j8tV$@0H-Sw3y!hH1atEPW0OWPb{7dn
zq3eX4cg=xpjd~bStA=2P`>)0wOZxI)x^e%k^GeZN(QT<NgX`I}H7>}YTk{fxi`<lB
ziVI>T`oJb}*=>MrvWU*A0I>xxASr%|f1mps?7@OQHw;@Hw2wl!AwS~D>B3At#_?QE
zjk4`EW?t3Ht=#;F_OW?r$GIy)*fGq79k0Pi(}G@UwX^2C;CQP{fO06aXB8~6YU#Lz
z^cktKQrY;yW9Rf|uM$`f{4Bu1I)R<BXQatWWn*iOBRjHrR%%*&$hNIki)^enSm}{R
ztW-9(_HNVc+Op+VN^v}NO(*P>Nn}=Qj1z#mhwkIyM-yPQUAg11w6&WBM}5!<<k`h3
zF+2B3KoCz+G{NoUx;c%XfcKXH$vpQ~=92SeZi4rV{ltr_u6SnKlXxUALCX^n{k)8f
zMQ&FT-X9`wk&(B^&p?L1iuj;E+Nn`bR87@$m_{TX3j&AIHA4)>LZiTrf@5k-iNuBp
zvPMIQ#={qkqR~(!dM<v+5Mh*Il_13$Zv8w_Ls-=)Iu;@%q7tL%oRx^ihljDqJ*?^{
zAq|CMRK2K14GCs&lBR^d{@&*eArc#k8)Z;0m}QH8mmz3sbcjxyEdYtx;DZD=Swl{Q
zyi%44$~%~Lkn+)BVn^OR3RvaM*!mz4{tUO)&^9Z)<z1_)gUG!mc~+&4l+>{z?Ov;G
zTspq=`21^7P`p;x08#0^(nnTHccn^qeaT7g0sfA+ZPmLs<=va~9=zAS=jy><9=UcT
z-Tu^{oR02_HM#Yjo_9}dV0y*ZzT(^Wm51woa&`aF)c&KNwf&~+W><Ru8CLRjId=C|
z4Od>b>T6B;TGPIrt3H3q=bshtNZwVcJ|)$srN&jMEhV-6?GHbC^}|<Jq(`CXif7J~
ztoE-+d+e7(H;(_h?^k`P>Yf#;*UrT%_pJIISF2Y2PpAA(r~QXh)rVK4Bilz=e(|={
z`OQWvO#f>Ur?*bmd|yKrbCcWM+v2>ryS%r-b@R|cNdIeth+&J^ySpe1TWdea%c;D0
z6%vb_ZkOe!bcMHgp2kmtEXc<VMr`?DkHQUb*Bt$%6f*oyqv(7{3+Xx`$WCeIHJ+e&
z&~S7UE>1vOqCP)Tpy+#8eJ2Dn+&yp2ytX*8FtJ>`;_Y0kti9{4xH2&}vFdF}d0UcF
z3#o#7`Bxo)lJBzW0gmi}CVmI$gorI*FQjs3UKY_P(wT@?5^ebxvANa}>;#3{ruC$~
zok^*a%|CZnZ7F{dT7Z<#tME)YP<a@!WjDN-57f`?&B}F7@gugxwCZLxf+1%PpXB|H
z#N(&ObxjV*;rQ6393PVP^QsJrkQOI$Bu3v%ri6uKA)-&pilztp{Q^P3WjM#ib;k6>
za5NqR4UBYPzKeBYIH9&t9F9k$YFLk4RBiQ(F%%&P?Gp|8cNfc^h0ZiQt{LvG<Uv}T
z9{@^Sm6}sh^OF9-<a?7>_go+PH2O*OA7aTJJ-4M^w$-^?h8u<NnZp3ipYcC)EON7s
zSswIb{<1Xf{5FEIw(L0f+CGkZ6@=%sFfD?{>dcBAjepBqfRyqmXj6jKr$P@H1=av3
zaBhSF0%OYqxhN;LJQNxwTQcF*60Te4NW>|TjW<w;?2)>+JlQpZ_&n`*hCqyR#Y`&5
z@)=bhCozp8Whg>4T^<GHKQye$LnJ<GB1R)&c{hCz#U{<X$dHWL5l!w#*w`KF=R>-D
zP6aFtL$7fPO$$8oZh+-jJQCCQ>G6Fu;g{oMDhcTzVFU7Mz-L6&<Zvh^lku3{XXrdg
zPz10V3ZIwbfN`={*5WK>O&F+vsPYAMOqa)FdL)WVnxuIl?SiVvLva$Yd)&l{P@6)s
zr>4xi0In&}yYX=5_zSx^?h-IYo||(h+&H8)Fm9oo9{ZdF%Ljm;_7g-2!Je*B_G<1T
zc?@z4C+w7l0G4NF7~O!Xpoh<^TB5T6=>U5TJPle!D5@O}n3emX2h9(`pFt{DHY{~7
zJh|MEs_eW~dFFcM4dHs@t?m~-EBY;ev-r2+)c0RVdd^T%`T}R=FEZR}Y<v{=S|xRm
z1Ee1xqfCHl4?r3~_MtIUZ2T_D1;|s7N0&gJ#!@~)o`jgG6+ilstyTy@6cmNH0F<4;
zR(}n_H#6KH%XpOJF0Qd{`S?etK0K9fcyxnvxVz?_n>{)^@i|D6iQC>5P%ajy7p7Nh
zcc*H1UoB79c3wT2stw%o1=dBVyzb(>m1{K(i_wMX^1+V|eRwEUvv0MgJ5|%2t~oG!
zf_Afl-RxL;eIb$bwXS)5S5D2HTJ^{&kGx#F;_<J$p^xp{22YZ58x$&(vD*R}GRy~U
zU4{RJ!}4wL+@#Yl+<$Zcc8^h$Hl~InLlHop$&Y~;kUJ}?rbl8F@st(!g5X7zfJ=lt
z4zb_K_Wl5*2^!Z7IhG0s`d&;awAWZRh)q!1GLGw>bI*4y?Y!DP>%J}R-@aO#w*rz2
zua>P9fdmf%{{H?mYFI^q02FR6(Bu$6<zq<Cp{O5-bex1$<P?Ek(gST_k;gE~T_mDx
z%OZ&yzF26HSoW9Lgqh@by_Huc=O&jbuU5}aroCNBsp|o&`~ft4(3x7QmFdCaF9WGt
zdDGxynsQp)8Fzskhwj4gw;u~C86>e>2Nk$joQeZNfdZuf-AC{QvxI*})yAXxCT4{r
zQD%h)x5$A<&C!3B9D*0X5sL0yHOK=B4!AzXqN=VciSOm-HF?Jj<hC5fZjmg2@6<N3
z-L)19x%A1M6Gu?0(Mb`?w6L<NQwkHIh@RO0U8aI9MxY043ce~jg?_(?1`XO{!Jttb
z435T?@hGM}!QkuTp(raM&*NNPuqTA1!I-d%Z7(?qIYaQ*P#3<;Z8-SSri_a(t)|0}
z7a<p5+lvv?j)+a0v~Y_~B+?B{G(KR7=Ww*05Nx8+6=}!Ug6OXPlEa{k^VPh0Y1aDy
zFr(LysYB>)&8kFOAv<Mz1}JEe1~!4#q-!pN_(1`f^{ZxKJIhgx%XwKE6ek70c)t*Y
zkv_LU*ct)`0AHaAVHpzOW=4+~q}a3BKL&0>M}IH)3Eeh~4NtB!53B&3G<gjI4LdgZ
zBtdqTI9T8e@=ejUeKqU~&1gV-Ysb9sPT5-9{(0fHuXQ`}5!e*@s7x0!0>EHFdH@We
zfwz?+C_W3)X5N|R(&hwoNr6jgbMeOuKTi7Ew@=gs)#yZ{kia9JbBt^yVJLZc6?l%P
z;?F$SkIlZoV+sDLtgmtsNT#20{<GlR712xy(!-)+fNqE-3#hVzl(k7!qLf>ZU*z2$
z%3-h{6yT^U`DzwD3!bI3tIdH_b6~akK&tt`^=CipNj4uyH$S)H`-`>K_IcsmGP-U3
zp!}SHhGYPPvlt+jvTOt(mz^rE-&E=-FCZ^tUHEJ0aQQQG6Gv(HhQyb4{K@4g?Vv-j
zn#i*^F%;S>avR1_K*3^sN{rw#3o;ZejAJWQSwX@2+EwiC_=<zz%R1m8^U9l3Ny+5e
z$i%J3)^q*`asaymDb89_mX!M`=sEd8fvPX*((NAeTRs*r!1k&IyGw*xZfgSB7>HiP
z*@LZO0t#%EdI8~RJCd`tNAg%X)_hSpA3@LHmIrPoOo##t<P&=a;BE;NVbort5lyG2
zGc}u;(GrbPGY5>3fL}5y`{Q~aO3_g@27<JQkT_vVb0ZAH{BEea5p?`8QF9DZrWS2@
zG&WceN21sPuN}SA2x*hCa1hk+qfnix)zmOEjRdn@qB%bsGmB@itpWjDPn1;Nsc27E
z>`Hoe-7P7bZ(H;)_-~ao-l=X_I{3kn_l~5iJ2yDKG%(Mv`KlJ(3+|=8%dfxJb+!Ap
zZ{NBT3P7)Rm!g@@JZdXaqpe@P`QxP2%s7jE=rF1cqZ{z@Fsc;=fqBf(#D1ozHAN1=
z0p|8^mV@GD9^kYK)G(KBdr9({)>)$$Z&31qD66^;P}M!r$!;N;@@{IhN=OgMp)iSS
z0F)d|FhdV+uawBBAu9Uhm<nvea1DphHf8>lnjoRqnsB^9JsunykAVXv9y3I|(>!m8
z;7<-;AQxbH{-P}!zu^E#3_*!e#3rH{ZnLwYn1&0dD6vce7b{CN<%bC?eH&V7s0x9~
zQBkwlxzM>Zv>Z-X?3pcEEAd`AG<Rsp2}oJ1Yg(;4kg7Xy{aCv0iP^r-E1Q1);s>w1
z_sZ4UbaVIh*FSUp#&grNQh6%rIkhfwo~G@h29MSW{|s``T*qEMN2Nu#AT(@9C_uwm
z5klVt=!!m*rYsdn6TE}798F~A14I$bC=mI6t{N<9=f`y=J`pSA_O{C3!G<yfGaMMG
zl}(FX3tj1oowLrjion){sDwsum#|gaGlmxSs!_%R8Spy9?8&!o$~}F$y{>#-qXAC0
zd8M^aKjoP&ArfqAI0s%lMPf9ijgQj1a!Vr`gWOFT(I{jj_U6Y(eyqNaU9>^~GPI=h
zow~)Qg{E62&37v677r~PN_v{^m9?hJb|$5rY(MPPKogrS{5`zDemDzAm;BCA-X?au
zfXc@XY<^C?Wa785gRH;qA=rW6ndmt~Y4>56!BdnofRn@Yp@H2i!~GH1Z2`(ANCY+j
zL;-5tMlo=apvfihJm}dGl-`UJn0^=3f(RZU;{uM*FrhjHYH^J8nS`L-nbcq48XE^>
zH9myK8hT>3$cfVOE5W(o(o5;mwpj;U^Q=~NrK-BFJJMALX5F8A>waGSLF0Rk%V*wi
zxf;5D@zbeKrdGVilhX0+XO7dOl+OXH{_ba<{d#~(@mw@P$M`(RHBQ?|tX^(tij_z8
z5-S%F<+0M)*g{;+H8&{C(}=%(`h<-rxb&`Om);;q`0UjsIOq4Cpz<J}k^#>75Zpe-
zhNCKTsDevgq8Oo0pd3vC2PauQ;~2d9#VrDZ!h|UiNGlW~6d@!EuZ08y!{OgS4ecBR
zTVMg+dee6VcB$#R&ng8uBIC}UuIs|5-cP*gJ>UOb<<aFA=8rG-E%Ysg-aUD%@@Ud?
zblnMZ;v1v#DAjOow$vScN(duPtjESp6~m1qKd;d3HgG0+(2+gC*TBf1#*1=WNw9_j
z9g_!D!sOhbW!6wFGY@V?Y`kRKT3i^e^B;OHSDfZY6No09Q)#w8E0tAlY&1CstZQ)R
z1Zu3E7M4tnfcfWhloGt}VajX(6pAo(or9Wu+G(yY1C<SiAKX{O4};HN!CRpZWU{R6
zAEB0Z0fNmCx>sH^uP?r_@J70P7igXC*4d-zgzcN_n;%*V-S)_!ak^W#Yn=BwI<Fr8
z<@48`Pj@{1JMS~g<?{knRa@Wn-10t?l%DwpB8H_sb;m?u)5kZq-1#S%&jWdoi2<l)
zKPIo(zsah}gCPqCTM&o5!j{-}r-(RV8{+byYm1H2evHIJN;ss!1s^(&O`R0)RB}{N
zQ?lfkBkeFUV<Ovl#Zy?6J?qW9!f>Cn228Z%R}<_C{{kIpXsT{L@w>Tf0d0=e#z3ku
z0G~^xtGm(gXwMoR9m}n^eQjuTw67O)zAEO#%`q~77uXM`k>WBB_Ok$;?8v>*qMvt|
zx1#i`i2yiZ=yx7l+>!)0t<Wto$o8CXF8&>AnhqB<joz4hBPs3Jt_45*jCbeGn0}vP
z&Nw_y2pF8Q`4Jn=oeG03b2lWMAT}(d-dg49%~J=jc~Yv|uF4_{pqqUT61fUID77}x
zSb)~*o}(VTd`g-{Cin%Ll?I0b`unhd`oL$0&cyBk)dV@aqDIfHb(?MN0xmF+*aLPr
z!7D?V)`9fJh=O-4aci68I9wj$S3YpZ4d3~JjAh>z!Yv$p?r<3fCE$s`&j&gnG6d`=
zS5Ky2-cYY{q3y(PgRs>qwAY@50KXTg2iEq^&aa#fU-3HJW<AH>Eq&sK@axiFmHx9g
z`NR*BC4CvVw|Wk~5y2WR4$KMR?c)CrZopv8-rau7z5#S_(OZ3w3_7@$LTg3nVEKRI
zT2X5P^AS*=m`fz3dOCYQ-|OekGLQc&P{H4}#eHU!AA9+1&p_~W&zWG)$(~a^a9@GO
z8yUv{`((F}=sYomlkg=KL0^zj5{`y6ZB*6I#}xv?)AYmb!&DarRHz}3qrQ34hpCq^
z2w^ac0YaHv!a&2|A_i3Np2id^M+8M2`3VM;aZ-TH;p>|ipp%X+lgUHW6X+*j=-t!S
zA-K$~)zv43>b2tfS^t%;xvq3^<IJ;bWfe0gSWr?wd+5sHxx?v_#+l=HMIT%*h}{_{
z=PF;PDObI?cl~jA{n8<bvRMGBbq~$s#l3dry&0E7Ji%wAa&gZ_hXcBi9OC{BsYI;H
zG<e0P%p)b@j`aqvBY>Yj-RQ}1qS()`mzkY6+MPFUcm%NxMrhyn(a8@_-gqp-6^T83
zrlMFp#%Jn^#lx98=xU?EA+~J581);HC^lru9AX384BQ8QF=@f=V21eX_%S#A<c-;*
z<<!j)P|)QSIX4b&Gj<s0s3)lK(QVwazxSo5*(J_lvH(?(hibbZ04c%q86U@c|AX`W
eo~!)>=lMO?@!wp>SFV01->`J@j~vEyZvO|=Im0mk

diff --git a/crypten/config/__pycache__/__init__.cpython-312.pyc b/crypten/config/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 4ce971bd25ed47af3b65b35f9d3723a40be28ea0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 236
zcmX@j%ge<81Z#x;Wr;B|FgylvV1NnA_^bkCOlL@8NMX!j$YqRTWMp7sNM&3Nm5yRc
zVM=F=Vy<M?WO)fRgF%z=7O!(rWkE=4o^yU)T4wq!=H#?=KTVcfY{_7L5i?L#5etyG
z#U3A@n3EG9zmnlI$hcps`X#vq`W5;`h9>&SKr>2G^YkH_^yA|*^D;}~<Mj$Ee{tC4
w=BJeAq}mmMoDZ_JSOQ3VU}j`w{3^h}sPvFcxH-Rp`2n{;hk7G>5eHBb0B^iF@c;k-

diff --git a/crypten/config/__pycache__/config.cpython-312.pyc b/crypten/config/__pycache__/config.cpython-312.pyc
deleted file mode 100644
index d321d24083ef1c0a11f06d957ae6098590ed9ffb..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 4704
zcmai2T}&Lw5$^ffWq)P?^JlXLJm!CGSZtr|B*e#wfbC1T<4!SmikG1AvNOQq-JNyM
ztnuPSK_@@p$d|*36tEJVQJ!#|NLF5x7r*2sFXpfXn&Tu(XGOU;4kFn?QIx9rS#~kb
zHBi&jU0q#W^;K05{|E$p1lpe}{yW(v5b`y?IE}YE+wVeWfyhK=5+q_hnFs^#Y=TX4
z5stCO_y`YUT*8%fN8Aiy$weabw}|X|$Xb#jC0Qoq{svzLLyS=xQ&YNfLr+Fi(Q$>s
zi1&k}G9K+yQ)4k}g+<-=%l6-(vp^Jrn@3ogiEs)(X&#`Eosh{u@jJe~fwOEMPLIqw
zDnDeb`G{8zz+sq(Pj=lR5x?vPD##^31F{Ebsq6(>Ci{Sv%YL8-lnPn6MIPE4L@Kjf
zsMHAb(QJB1N#P;m<I!J(X?!9y>perGdR$G3>gc2r)5VOY$fB-_nyyks1arX>U>Qv)
zVmeBrNkvzvCXT68w55i9rm&%jxaP=+#&k`L!mpT8G#%v0@fhwArP&T~G^2~LXi6Ma
z#A_La#$h_6#Z%*=tm>U9RX4S1H)Sf}@vzC1#d+9LQ*<4>S7Kx1;b?gDiU^x3*D~?z
z(S(xHQE!|YZi}{!47ZK8ja&)Y>V2f4+PH5*jmn^zt-XChag3@-7#)klIW2X}J&;+l
zjL?pA>8L&ty7HP#T}h@@8l~|>R#dMml*VNRq*)7h?Pg2XCrrZ@;7~*XlC!egvM9PJ
z90nn>(m9$?V^_Po#dKDmP*c0}wjIQ`MKuGC!6jl7nhDMdc4&+?jtn=BHjbcWEDo?#
zM%fiG71t+_HC&`Ydm|XPu|tffQV=BFrZY_0K+-gx(%bEgL%5weqFK!19{F$NF4P7^
zPuGXTUDmH<Hmyrm#-f>o9?nLSiNTm1&?dAwp!m1l3S@!g$fO-J=B!O}%tL#WAzAW(
z!T9$VI5fl>yrv|^48OIZgbvnl8&TY8>e7?xt{YwS<ms*$gpaPIx-2&P5l&|fk0ixY
zab1$8Yl=cF?2Ly%m{tyCmaKb(HP4|H&!NS`&pa*LsAJKQFyWX-`a5*sNX%@xj!b5o
zEIhnDHpA#Hy9?aTQO}SWRxfeJCp}JY_nBiI-Wg72@W)9!4AK1#-y~$_z3msAvoc4d
z{2p1RiJT-FGsQCGGGXB7PV)`!GMQpR>~#Hm5I}%MGmSVwhW<1oZ7}4acy6OfDzcv>
z^`F1c`_X$tQr`!I7k+$E`mlHCU4vKCO3L7Iwc*vGV~T{%q*yWxcZ@1gU4f^$Q;4US
zqA4E7aBDhDCi8B_WTfFLgdN3mQZJC{+9Dmo1xV?DX>AC|EP3v)dE#%_2)3;S-(Cs6
zJvZ=gHz}={KfW4h*d&bi<WlQKu;G6AUU<1?HF#of;3WrxFKUjg)wHhEv@YFTt$AyX
z|J47|1;gfo9SxQIyr%ac_xPZzS1c()1*&PH;$!G65Iqm`9HZwk;rNeM<d{iZv8REz
z^1NBVO7S~IjD$GD7l$mY>Cse7F`YuIah$abiG4dXOp6&l$T4<eoIX@+xZRnvxT*oj
zEZOi^&yW2+`PARB9u)6)-s_y}|8(GaP{ao<1(u>?=Y!!7FjIK!{Q?1^f1g7;P@Q4H
zD0#4gIJ-GDvY(995%O~|&<r=j>xcxi?N{S-Y>vzE578me0O$=o$+4G6h?ze3Q$^3v
z6xO_$nuaPcCfaEp>L;W|acUwSn=r@5<JXmxcvZ;)Gn7~`SIBMfxXSRziju~jX?(*K
zhpepG2+yQtKzPVyI>ackUNwu618IiKOuZT=1w^(5ZKF)GIGr*!U0>|2J=5o4wbl=0
zmb^Gny-<I*eo?=F^WM$X1IOpw>%pVwy5DteA=GdGWUg<%dPAsQ6Y5rky2X!|E-kk_
z6HaU*<e!&S&jtREW50kc7KoP=<T%@`Fp+OL%xpGxFOepq=N;Wl=y?Wa_j4^|G&@cp
z7v>!bFxltYmSbhM7WQ*?nc-lBlSz;OFaVc@kT9KZYcs>$DF^3sG4?XKM5c(H@%X_V
zCQOm%8&m-t>$dJyM!6)7D{#5dX&i1qiX<7Oz0S*dN>ysOv~(h_8znZI6@Rw7`4rr|
z3?4yaxT&H+S)@l{gFW7+?Jzdou*buDHtxf9X&|#?lP&QEH!5q_DvzyH9$P;BsA{$H
z>=WVatBtbyE#mS9*DDV$bl>e>jQ!@Fx&Dpny2YXU!}o@lo0qRWXj`p5HFshC;NivI
z#UIVz07wMF^V~+QxKy)Txmw$K*9|}jgr8T|{__1zKgilKE8!>Ahsa{Dzqgfp+`<4Y
zihG0r{%tn{`R=-YiCD>tG0*MfDl=Q73!D(}o2JKDf=az7%NI<&4@<O4AW*E!D%Z-I
zSIU}~hE~gtJ@Fi~kX(pR3^P;Je?kZAwai=v>(hhZjcBOAwj`!F0`m17MB1$|0-!!S
z!(_5hmjd2G*;$MjOr>Unh&c=qLniYP;mi=M32ZzcHBcY&np}pfQy$&ypan`dZG*K2
z*cFl&LRykc56}<{(<UTXFdlGL@j!>rMj#q0?PMl;3SM4!M_%HGxL^VZxWivI|NSrg
zhc|?ZHKAceXjs&jhL+Df6;5ulE^p5Z9Bx_>nwI*Po1Y3@d)S@{CoMcP-k$Yf!&)%B
z5)41$A1TW-t5CuFe>H#^t7k_$0GoZ@*(;F8!qMIn+~Y0=XspoCJaFLqHpbbT@d-|_
z(*)i;9gO06>03aG%wSvbP3Q!3SW^*PSOKK)Dp|Fdfy?CUX%_WFH*C)W8GuS<>I(h6
zZHDzCBnr=Hv+Q0e0S@_PGWjjLzyOTc!chcT@rVPNKXX%zb$-@_gb9w2g$pC#eDFwk
zB{O_#!YNY4777%7n@k@rPH#n%BcQ4FJs|%gui&y)UAr)RcX-aX$@1Qoyzgzl-x>H)
zIPg5!j8~9Xi^uTsAFT@3eiG<m=7XomA3Z(HU%Wr${>t^(hp56UKc-?x-#$r7s&XcQ
zeL<40WuggtrbLotH3q}1su?_fG8&$gN|R=fpH$;16oX$I5I6XBK=FSE<|UK{v4^g+
z0_p_zOyHcs9{P#?0LTMkI^DXxVu+hpHk73$f!reBvK21RW;>}ra{uDJi)(cqD|H>~
z9^Yprw@W?~ZVU52dvc^_)$`6a$JV=_@U`0>#?`vz_P9=ORq?K)TY}3~vsLPG1-Ggg
z*KwTa!Cvd8o4BjKW!<ipZO-XgnxGPJork*=p*=thA6&)p6E_hbwe&{t8eSFu-GaAt
z^IBuwH2ZK7UINYY?0C*uhV7vjU<~W1hS>w6lwr2Z2_t+-ykC))uZjOFa^$6Zh+$f`
J2vSqV{{Yy8Bp(0(

diff --git a/crypten/cuda/__pycache__/__init__.cpython-312.pyc b/crypten/cuda/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 98ff47d6557057079f7c095eaebc377ceda90157..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 215
zcmX@j%ge<81Z#x;Ww`_C#~=<2FhLog#ej_I3@HpLj5!Rsj8Tk?3@J?Mj8ROL%$h7O
z8G(|TjJNolLtPww^7GO|QuB)Qi;9?m!hV{}x44r_QxfA#5Q4YZ<Kq)^a^mAxGJFPE
z@Jm_0B)34nLchq+L_fKxvH+-7AEZe?K0Y%qvm`!Vub}c5hfQvNN@-52T@fcx56I49
dAt3RAnURt4E`$09HU=J<3tTdd>_zNAVE|P#G`s)+

diff --git a/crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc b/crypten/cuda/__pycache__/cuda_tensor.cpython-312.pyc
deleted file mode 100644
index f4b9cf41b13bd39afaaa7a7557655b612ec47c5c..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 30985
zcmeHwYjjjscILhHQmLw>dZ<bz2@oX-JxYK8nKu|L-e4>n1AeHxT@<=kLPAL5Rtb<?
zYGcQfl)6bQjY&(y%tG#Xri(Edt2@awnVDpfOxC0)$(mFl*^(=)3F+>viC3?g0m(Co
zJ8LrY?Q`qidR+;V*q#0{$7a{L=l$4cpS}0l=jcz0iYy%5E!W?7|Ju_W_apjHoFU~|
z_)qYRa{?#uJzSgo%eV3DTi2#zzxp=4pnH>RGjwrnMjdyM6ZCI#g5iCgTt=IzlM{^J
z=GzMJYr?M?zXkX$6wJtF5efmVf(6hf7VP7`hE}x|={V6M7QN5QW$@e;n}HL}8L`&9
z*usohTW;(i@3($Jg|)V)%48+$0qNhu9)Mp$Ps3_#cdGp?T?&kFN{gag2QTn%n%_^w
z4D%8GIOo?5ZF*kp><WcN$rtp6`=s_WzK((3_Hb8UudnZdC`ny{=<Dc{e0xvsYdPB2
z+j&Cl4I!CYEy|+?mEhk(1;DTJ<6MLb!za5DekVK;?l^aoZ}sy@=b@I?eMk523miDv
zy7$E4XIqc^bx8x&nJi}Y2bB6l)FI#HpVqAlpX*<DX`QrT<GOZfus<yJu4^9<f(!)k
zh4wV{4<-u*vAs_UqL85#UFZ6H#B*YAIMlSWr>{NO6WZ0JM!QgMh#LI2m%00E*3X#B
zCz=vw|D3%fYF$7uh9z0ZTG7|n6G|E{O2Ph+UniLnB@qs?mYwoRh43dW>AIw11lTD-
z0{}|@)Wn(WzZ7^qF#5{0an*uOXLK*<IaBQe@;xwfHc#B(maItJj(@77ipVWg7zvw2
zjxZS5%eU!)XNGRJ4&)>XM5s;ir+<~%@1}<3xHhw(15WGlpW(W$&C<yM&&g+1eKx@W
z9F3&#ySTeDrwDwCX0d1p9Z+hbRX`Jtb~@5HjZ$7jDbBpmBM5bgPSG_)Wg%}leuvO&
z(R}u+7;XLv#TKy;mZq&l#7d%6-F|=^CzdGf;5iX%YSDBWHKuc3Icngpyo`TeH*mr}
z!T2WM<`MP_Cj6EP1z7i9MhVKqa-s#wifXICH>iU8y$s*hjPK?6wq<;;z;{u`ccoB_
zvR4XrK%d|MtP-4n)q)GKMkoPXCDsZD1oxY~T1y=Z@nnS5BcwE=+y;DmGrs-!F3b3C
z6l*artARl;<qRi2l~EDO(>c_-*Qhz$mdIJ5k#nt@6SJJ_)H;`G<ZM!NzLJ|SqqWO5
za;{Tzo?0U33XPoW)tsmEb9M_FVIBElYOf9omFd}1$MOlajx$T-U8&K!je-xDu}L^2
zQ~^Ub3)T4ABGdqG6;=Um6KVms3w3}ygnGc8LIdEFf*){~&<MC&SPl4;um-S2SPQsE
zXad|TtOML9tOwjLYydnUGy@(Ko&Y=~Yy><kYyvzYYzBN<*aCP|*b4ZJunn+P*bext
zumkWpVJF}*;Yq;fg<XKhh24NBgr@*c3N3&y2zvlu6!rqXB)-u0viMS4n|QMAE8>f7
zUlsSaeN8;n_KJA4EikC}A5Io$Z%e^`>`N9OT#JvWc0abY_MTuU#I~?gY=3E@y`w3;
zm7Qwxy?93K^&u_xxpQ5;oxVQ!gR}*PeBm>}urDZytkCuWNy47eGwAE>3;RL?{r!DX
zSQM5j+}9vBb^1=73x>}P^qgAbJJsITd!bo4<zM6L3i~d0_4LRkBUF^as7~|^^a`TX
zGe`|dx6;?u8}9S%>l--TBg$K_FW4*is5B*Cd*8YK0W^mdD2btgp0Mw9u>CByb?oiw
zqMCdsP>Yh<mr6-Z@tqb~3qrwjqAy6D7kzzFS7%pmP;RDpsb6fT9?O}USXH0U{@;rI
z(TU$rh!bn45XFI*%Ph-P%nf)0-Q^V#{&ib~?^aS|{DyRbuGfk<4Q6Io*IO3RbyImc
zPSCxd;zvRSN5IZ0i|P%qJP|ISwkE<~<_GyOZQIO6_^`T_D(s)+LhU9cMfx|h9F$R{
z#At1;5ngGJREyGRTymV!!fs+ia$H31&7yU>bF$zQeNh>JZihy^?v~;G)JSBP>o*2p
z#&EN_q@}YLcpsJq+JW~uTp#c?e8zW52!?~Fd|(g>KSIEWu8uC?#3@0%(A6%UlCgqH
zN~LTM_WDHR#9{=3DQu?9xUI>nWDQUbxQ#_81qavmbe)yg9+lU3x*O<+YOyA%P?VNh
z0H~f}xy-@JMf)yvrRr)5hEjZD1GU|+cJ-7H9_$y<mk!pKtlY|i2o8k%uzb6~L}KA*
z)hE-F9&p8KiIUhEl!P7;BnO3NlrN7(lR8Sia|0o)PZ|#*NIrS+nk;HbEmCJ_yZS}l
zr?&eV<kgRHqwxvQ_^=VnCWQX&zQes;;jUnhoGYJ$PtOu7noXUrLGF><7L-ARLJ&h;
z62?~!q+VrL)#Q6dyC+mGxz?nCdN}k1ri{@|hB1TacyC|t+KkR?$Qj_ojcksRrc|S>
z$%3v>fO1Kt!1AOe6b?$^5MgGrAT`V2$wOU0;$UyPDA8I-8d=AZg~%!+N76vkmehs&
zl7%XE`1MIcNbKoI8fd6l`5`^BqZ2Z(Zw>^yFsy;VkT+)#l!#489{P2F%iM!9&gP2l
zn)9uiv`y{%{?YFp9ed$U_>W%w{Z~g0+%GAgEm@T)SvBV<{Zy}W7eC;1Mf>^t_I(RR
z^57F;X0B{`)NsW%XSGLn&e>e|te#Qfdh3jJ_1v<RH+Ejz8Qu5GNADH6-U^HaCQi&0
zRa5Y`Yun!0abwrDU9r09Wg95PkC*vw?7p@;w(++HzCZNcp&!)EEIUTwvfz<PPYcj+
z>hQunnN}Mv>$<pM1855ZWp{xOxx$o&If#^?==)Tr_kD#9e?Ow%$Gv52*L8C3y07^-
zZrB)BYl;{_u~QUYazu>XRBw(`C}b}mF^=i3R2#Tq{V>G!2p`dRaS_9N{IBrCrZg?r
z5{e=wr9F~0O|jFV$GI>`Ys^JVVU=pCZCf8PW%Obd>xH^|Xx3=dtWgb3^`_2%Q5iPo
z)K79Lb87vru)05xl7d>JjEhpwafG6r)VR|=KtfM?jE<uwp4E0S!{;|->lJ9jdjkI!
zh#h~L<7uPjzD6D9Gm8$Z+j2MU^Eoc8ZkrwI^nQyU=b;TjhX=Xe&|l;wLIS^mR%mG8
zG~>;rWe7@|WV*(d>rGu!*R(##hh-Ijy!d`vxU*C21qUMS8rqn*`q=tbRR@7UTI^SI
zokTUET7bVM(R`lMZM4ko+I{87==tlLXffTYj8|-(wQYN-N6cp->fjrVYxtx|rWjc&
z4~k^tbqXGJyy~*YON)ugU=6Gp3qoZWfFOKo%o?)COwYziT8;|YAW8M`We$+kh=70C
z&;+O`%B~E}3fJ7hL$^F1th~AMwsXe6<7(^Vh8cJ59p|)r55{MOD>XiAns~oOqIpm1
zu|FmY&ICija9EO7BPh4Qq#gp@g|-RwcmN6-e}UwqbhP{tgsnJ~Gz78lB~529(yv4^
ze$pg!n;}XDQcO-J$F4vicixAp9*G*yqnObD2Dr@4S)Cxz9&hvjNbHQaAz^L!E&W4=
z8G8?bE^oAa%IP*(9+<d8{89d+lB0L3-m8yQ#a^1J-aOheerW8_)g!lC67DDCB}b$C
z06zAVPi%~P8Yed=JdM!<_w4SsUK@FB;=+u*?w+@HvSZr2Httw^&t5)J_ui@*d;Q#V
zFMQ;E@dq1jo%|qhGjRLZ%-Y@8izm;|l=<%*OOzeB>wPiqcu`JXJ7aIS=UtB0VRDW>
zkJhblEpWOr7xoIL3r%!aM4!25_f5JJ_PUrMZr?IxO4zr=&09X3_j2xM_|N7oT-i%}
z$cnE2dhOm-hCeX*_xcT4cuj<zZ2(*0fgY9bRtXCNQZB-2VRo7z`E{*BuIy=Ocy-v1
zz1&0+Rxm6PiMq+N$q!Kl>Fre#`z6ioRgMsmIOGMu+}Uep?Trb0V{GFGJ8$lswr`D_
zx5`_Zx;-JG+M~_*An~IczqwAkM-isF9OM|yx~Y?@kc~CnuV+n98oMB>T}m1+1bYU=
zY)-)%2!zCNS6DoU-c)1{MpH%{3Hu>p=h30cnj78Mx}%1-Y$LYOlXuO_<lbb?0QuSc
zG{HkOTB|o&vvXYT1*9|@d&b&GG{+gk&jN=$Ic=5MuCtVs_9tje?ImwTMk2HJ>V&;I
zZm$0F8cFk<*GLK+D$QwRiX-gPXk|^pUK2Ohd}*yr8bfD-&==$m<{oONJExs2X$Ub3
zIb&Isuvf*+RbN^wW!%keBO&xqNlqJy^}VPukiLZ77dQL9ye4{3Y2GkWVBRn?iQrXA
zzLx+Iv@9y7t`gdD7F#9Cis0oHkvlfDf#od*nG<*oQ6Unxi3qX95Z79(#OV-wxo`zw
z92)V@zgi<aSX>>kxDeHmTXu`&Hz@Jx-;hl^Eto|d#K=6DUhX&P^d(wUH)WzGHB-P7
z09gc0qI5&f99#+ay+H}L0bne=b)(_&$XI0jwXxT*0eNWy@@`=Qj6ySN?%HeSO1$Gc
z$9BeTE7^%l{`9E>cL?QvF$1S`Iz|47;7U|_b{{D?Z#|Hx8KtDF0H~J@axZ7WE_fSa
ztK!~mQ*{aNwp2f()+IW$9Yy>@JCxmpq`tj>K%)y!Qx|eJ-zFp_91PJM63(uShGi1I
zGGSji>5kji$4V3S^>Oq1{I;w6=X%!m3~69VE+BQj$PYE{mBe6})EppwJw1IFp+e~&
zR5UJKy-->D<Ym=_EtW(uhL`aB$iERFlgUlmQpE(Qn4x7k2$>oA7G)*OX6JA&-=yI?
zws&pQ&b3j~oZS;G%I_;lH*9x(37*We)%WpD4!zRswU$y+$rIrN>JHA%T=}7TbxZ_N
z>|cC9z-Oofk~FqMV<AedXh!CMNXHP6M<H3-U!|lZ@T3M{+F6CJm#?_7{Mz!_^3{p*
z)zjq|j4Q<%!=Vaz$Y#brHXMHn56CD#tP8^@J1r(dmOY2{8L4P3=eV#c?WZ-Jkg^Ra
zT|o(k*${yQ8!^za-w@<&XmRyJXpNv7vLFP*35|e<$<PLc?Ho2jkD$ut=_-|JP~~95
zMb57ulAz@z&3OojnT<nCkqCulZ+oA>4g)$YvdrN_49>^p^Mfo+JX1&#gDQq_JRqw@
zNrg^ZX<E<r361S1gbRKno7d#BKz7xEz@DSe?tMCN{BYZT@D*Vw?~_I;*xM;W{l!%O
zep8aal(h5?oC}=Bx%SymQrCMrsXq-5-<2%5lnNz*Om4I+C^-TF)*mqdT~|l{=8Z!u
zvug%Rnw{V}N(hMn&|_J+;<BjjUh(qTVt=C8A8Sk$Z;I-F?DEaJ>JqNHdz*LM-t(JX
zAK9Loaz=xrdnc;K4vzFrIw$wOTN<l+w_>_z&0X753wm9NC0YQTmc#qj*GIlSZC@ET
zul#JjfGcX@Lxd*ZD{HATw`U?Cb%P<`zrv`oeOz5hh)FqRf`_@KwG%1i)Mcci@^hSu
z!YV3hs(Eyv1H=L3xLdrUy1`Oex&-|rOTbxwM6Y$cAm}=ILElNVNL5*-8zSi0BEg7$
zoBs{duRv{<(Gp@ib6f<c{#b}K&Tv?I1}rv|J8Vd+`67mHV#IPBY-UpPq5Q(4#5fdM
zd}+xzCa|+5?X{$?HRa@r&KR<Bl@8A2f<kI)2$Q4@{^b9{Nhjcw2#@?$X$ARdl#*q6
zi|ughzQcR>A5VJoVvZj=eBi`!S%0ybN}$4%h6`Qd#iXHE=sK6QG0_h)UJp(rlKRlV
zIV|dzDJdO=Lr0BN?NDc!LT9=<!XbGdBP?gjQeKtLK!9vg1hy)1zK3O*(^V|XoD}~W
zMTBkvuyt8f{MLby1K&Ip<=JX%Ot>0j+Y_$M(Sm!<m9x%<gtH-5k#KH|nttr^j;|S8
zGjTC?{)0<5FU`2NQkv57<zveyI%3B@c<JU#GtSM}9-PZZOUIXuEt_~g?%XojGWkTT
z>VvwQbyFK|HYRE|-F0q3S<cc~XHCLcgXr_I`e|n~@|lZAHz&;Hh_$bn=paEh=6vVe
zw0%w7yhh$>Qy7M}a~!Qa#v4C}P|`C*3>P@5EMgFt`jUvbpgY@uzFO%(FJgQLSo$wA
z4)!SJlh~59^b-n2cttmC8ZH<%L*`$CZXi|Ruw~eq#`dLko87c6=D3JeUH7(#O)#DX
z_DMRy)XNJ6!$pxI!A#rNaB=#$v0FVrOcw>!c9Bw!*18|IKO(>G5&0cNIU@F@4kS}s
zEHHH#);dV5MKOv{iZexBTw#?mbki!yaS;c4UwF%+(w7pH>gpyXM2-^*(}x1xB)H|c
zh$&JWDIk`hQx`ESwWG8W&D6z_LP{I4Ahk7>x&*Y&3Ov(A3ZZAU47+t)m<R-OVYlLo
zaLO!1T#*vw*HeD^&;giQ+{LrQ2M_A@Xx2?Fb$99!y9C||W`V0n(db8w$FL`3=2t51
zO#ena>6r%&wzVcrol@UGe~8h-p^fMIBs$s0kttY6AB*yJg<xrrwqd|=?!o6y`WobX
zz9)S@<^7*<Xg@pFmk14{;{=GXLP1{ueg}+wD5(cIB-I|BjBXI*-)6z@z)@P)kSNhE
zNg7;Xpj}LwWy^{_DXE7!giM!L=272lPDEB+NU36|PWiyVDK`KIaxh-(5rY@Rq$Lby
zDb(K=5(Cserfo?Ubc$h8Nhf`I73I)Ye`!+J*UzYUk{?V9!qPdaTz48gR(n$4b*>Y<
zc%W|}jB`!Yp45T)vY!>DUa=>D?SNSwN?)NY`rgyc$-+x1)=Eeg4ys;@(s}{x97_=h
z^#^;C7M4Wz>)QiE$-*HePl%S6%+=*WRUO_R47Z;V1qesI7Xp3#Aq{nSZj#?csiBWB
z(NOJKOGYmwtSja`%O(ybJhjmS_Z_7ZRsY=jK(8x$j=%5Rf2ZTlOFuXkw?9kAl+W>V
zj%7$OdMWPk-7ocycZ_wseI{y+>Y^>9`nhGxZ*0D{`5mZb%c90;c=YtWikjJq#zaNq
zt*xZ7z3rN=*cr9ocU4X9z3ZwUITkw>)y)+<Myp0du$S)YS@#nO_Y+esQ_{41`>cC+
z!o53McyEz#)IWNB;_!`Uu08Y4v$0@e`MQK>ebh4NsU3ZJ)>Dh#OrDN=HpjN#^=yt>
z?s+O^J!=x4HL;iP=zhS@c#cFZ_dQ!j+h#qD(A>v1#DdeF^|PL>3D4HsuG`1&Z1|lQ
z<DRGQgzkEtrb6o}Wqra^AJfOgo7SllanJ7Cd+vI6qZn^_e8q-@cf*J{6^`ofyX&qV
zyuN?3dD>k!XDgksU@SeBxmy1``(674j#Kcxb2s~r7DAElsT(~!>#j|>(d1Z7EEIPi
znR@yAuYC8F=}r6Z1n-=VZ#sO}ePq^sGT}ZsXDf=H2XF1ML<?bU>ZqKxuS?k1O%>j5
zp0@9bn|I|)xg>tEy_Z&Zrj*MLbGiH@#$oWP83LLwmp4q)Z5-wrmXd`*bq%S*T;eqK
zQgvDw%-~WX<mI{uhdqZ+(P5?;OY@wMn=@M!%svPu7LAl&3mXB{gFRx0vkpQ9b&E(H
z*12$4$I}5P6c@xXwt^!i9sMGwboJRRZ4;CAG|nu4L`@+b20NI$ThTJra(&C>hRHLt
z%hn|-T0UDaAnuLQGM-fm=};f+9h56(d@FIjG8_8>d^e5B0$JA*N>ewmva&rzfGi@|
zi5nBg(u}G^dGk~ZtjT|gn9v}=W$wq`3bg39cc!9c+S?Mf%^i5=BUkGk=X>6mGj?dE
zYSZY3@vUQ9uWrA+AyKk3?rMz|0DNrq-Ycnkul75u-(4N+j8`ALZMa)~@Qx`_eQ>(u
zP~3Kij?i8md39n-+`e)0#9jNw*b52!#<+PSiH;@D@(VO$<Fze2vJbNUKawk_{Y>BS
z1tYn16@xC3erXZ>uFb*k_Fz~8yMICje2c(10m4|nNtz%(TRYh(43#JL{%eTM#m^fE
z%U5~^!=F&vF9bXN@A_j0<JJ48guB)IZ+9fB_fMA`h}+l!@8HPbgg0()p4@oX-W=PU
zus6re%_;1ZNRN`I(_qy1DwBL5!-ERvIzhDufD|Ol5_-rIhGBzX{3^bOjl(A7L<za>
z{ZxQpBI!x0LMmDyIZmM58rlz`fEaUy`yJ*4GbAzobJfFZ)uU}nDc2&H)OvW-V+yNs
zRkt;#x%h-aP`#m}rFj`Hctn2eJW73<`OSg}J50gSeN{9o!-e4e3$$dkhykS(rsNGv
zST+6Bl%vd$Vhe5+s<M$aElY)o=rb3wbeAdq^l!wf6-w<>_C@6vcQ1AUV{DI8&e?sy
z9T(~#)0`ZKc}rm|?0T9|>Z8&;W#BT#f$UduT*MNwLdw#mc6U9Ku8JZ?$r&l?){u4t
zOS%OS)1s-=HN<lnxKWi;IX)vrY21MHWNnpBBUI`mKoiJ>AHVLvfwX4ngw&6SPyQb2
zCcje}phP60NFsqf1lZ0?v`3a-hR8=FCA~`EMF8y8r$bT)`7Dsc&JT#<5Cj*KY%88L
zD<RTrNa8P+wM(y4?q&kSrO0B2SrX6Tu2$euQt=H+-=NrU61YO(mkIm|K#~tgqxcOK
z17wR4Oo)))LwMe~r`)86l<#d!K6FoJuEafFH&!>{db@EVbk|i4_MMOFz`a&BCd?I4
z^Jv4I)%Mn=kxk#+G8+8G&N+v3+%#qyJwH)(qyAd`WYx9CX-93eWzM@SdPqCv_{Fh{
z6X(Z<CO4#0KCV=N_IS(wk#YgpYM1wFXkt4vqHH5Woy4-8)7~eioxA2aL!lqNu$Pma
z&t%1SR=&IPu6_NSqhi)kn{d=l20wH(+|T-YP>3v_+Bi?e_|dVWlNGVHxcl(!Rd?No
z@6;vShogmmX)T$vd1h^u30viaG-Ip&I5z+)Hf=T^TZ8I|?6ZxAPPQ}Ie65okvXhVS
zP+4RxLb@Q>Dus|gbu^c(%9EjU#mSonGK;~fUea_??CLxdPGc)GsUw_|F^$U2!!%io
zPzEGhAQpg~T#-<-9_N#DHutDF@d5-Whh?s=5dsr_n>Ip#a#&ylRcMiAoiAe$k`5+O
ztNMivf<&5Fi8Qe}-TE$dYh^C~L-Ke=?v;yluyWEkc|q>r`i*i2x9<8`bWjRYcNXgt
zMQTn}vrvbgNFPvU+O@M-oi7Rla|ge9@xlLXYUt8~-z==9CVx+DawZo=XEton{3+wk
zsNb^FS~M_eR-!pAopHoS+!Q#QbSm}eQw<`{#;9^8Di4&7A1(l|hJ8KPebs=n&9d$q
zyoi=Q*%&c19cUr#u<s*1IdDqUL*}&3kF+?IZnu&n{TnF&!AR*w1zyl~fx}`uw++0J
zO^e5hpgqW8)9Q_&%g~0Zyid9|g|8hh%4oe7U-Y@^z=&#Sn8UOuGN+}<zNJ_Bv|{LY
zGuxrT(}Y#N1+xo$BL^LdJ$1+pJQ%h^qiv`8fkvc|9cJ6L+l7leDVo+@C6|;5>7+#d
z?|oWua6`b|A>hL>+Sy$rhh;)RZ4pi+YLyrm`PV7_Fk}bWr7gK7Q-l{x>>R^ESF{9%
z-T2iJmQz259TDB@H5v2MsFafa#mMQv^P1CRnPE{<tc+BqVSKlCDUQ!mO3L)zjwAoV
z)}%w|y3mEo;sNDiJLBj4I@uc1gGNe00yNl6*A1Iw2^Z6E^2s7-({ZBL+Zi~A^E!X2
zth&zEDDT^UpylMz6M<HCkbhh{Nkyf(z&-RiOn_KHoZUm=t6X;v_9QLA3!Q;}TsjAZ
zqjQO*5eoFakleo2l#TdCnaMmuK0;z>q<djd-O<w*#6cvw2!`}!3b&?o(o7BieM+9q
zH%ecnux}7}gTOBUB>6K*{vzWLQ8{Uzll+kMHHs;uh6Sjw5HZEsyra6Q{~n@-%5!$V
zbhkEQDTMwQfNkusC@5N+C|a9oTu_}TUc0#Vm$b~CW1S;R#~eLBS~cfhp{h!o-|dW@
zpQ@TVHtpULE&Q>&oD8&Q-Sr7~{j9q=;cf<7HTtTof8F+^tbg6KS^jQ0$n>z#znVE`
z^=RR&qblL3nyiM>*s(jd?StJnci-M{yE(pk*Imc%S;xMFW8bvnK-758=6vhvk*DX1
z?4z!@t#Pz#yl<>;GKg%Y{)DY@YQy)pes}91Zu+C`zrP(8+eMZr50<ph5<PiU9Pb(H
z`K^<;n}74=k7{;L@soRFRlk1lZq4o=@PB6h&*quZW3#0%BuZbHvlWl>qZ>wp6He%P
zy%rdN7ZX4sR2Gha_mAu!tzw73xF2-(y}h?QlRIau>*va9CXZb!9yxp;o|bFHv1L=o
zZdNABwnPu#w=RoY>+d-{<Aq~|6IJmQYj3|e<Jcc<`4r|El@q~fX6pH=k;4fwOEK~C
zROgIiSG0vrcT>@y&9CHEJ;jGekMM`9Z3nAt?eM9Nf@!;3m;@l>4Uj)RMgBl&$v~_d
zF}V)J(1E)?I_O(L#$>0tx$4NYf!#7vN+puVrxnWSs}?BJ&h8Jvj!0Gh^6GsU_+*nv
zgDk7Dwdp)9^#z6YU?`lrF&1KL-fxh84ULj7CRk-<DlXySN&_7@;mU0&haLQ5q|Q6m
z&nx>SS{KhDDMTw1*RbxR(sh$nqvyvjynP{Fx-M!3xaacDy8H>3Kei+8+7d08YufaY
zYjezbb=PFohb61xbm|W<XD^KwllIBG{<9ytHis-I^q-Zqm<&^{7AtJ5@ToYOA;#=n
zhUan35~1eEk`>5s1T(DM_@cSUy78ru_S9S$pja}fb753wKsHK+?NfhGS6Ci!ljKA5
zq}K_k1Ppc+lp-Yk7X&j5l<AQySx{iUzM3+eqH*4bXqZ7dYewB<|Df11z}_KdfPn+7
zR>{g?ZqtsBoI7LtuQpA3K6KT`ojao@0A?%q*}R@}J;`SJU%H@q&Ky+(N+--+AnbmW
z+=UIF(&so}ZmL9>5veTWVt4I^p*mrbT9yqo6-z3D1sXH;AOq8#eUPC{OX?WInRVv~
zXBbS4QI8_BYz`X{Fw~Gk<p+9C!|Fvt&D%+XPTQ+|h~eE43(_T**)o5^yCZdk;qmfV
zT5RQ+<bq`L<n_pwx^5wBSpJmSLgTA$IWzdk6HeqZM5>uK&dVH@4>N!X--uj`#Ewt9
zHoySJ<wXmow#;~UOuKeqNzvNLKQJS<imj8Y@I3B1Q4G0ZhLvK^=yqQEs+=;@k}GGX
zaeq=_dX-56TcjG5MfB-VNa<hr+)H=S*+sPb{+yY|Jzio|G^YMs_SBc{h@HP)8RKWm
z8xv(aK9i<V2kfSZflL;pN?}ZmMDwl?Tp#(>r7xRO5qi^-mlymjzVa@Gq{<`xdT1{a
z(2}oJmV9l(SvwhyJ2%HJB*^ZGuGV&37iX-i?v<3GZBqwk%63eb?1<ZT+#`dgX?tzl
zT)PBr&>7hhxS{T4NS1QS>}pd01#c9y?-XS;oCX&rtwj;iA%N_aK*4$EATYY7S204g
zh{^c7PBH$b3mwz;>REeT?uD^@QJ%;VTLL5)kSQ<`w_Jz23aChSbkD%g4{grI6kK&z
zUeFNw#8Bol8hGHMzbDv^2L;4%K-z&)Ko5NQ0jcjBkZ_S(#enP`mac4v19@iq6d0m@
zyHEy98@wyVUmbfj$4Fn3ZWCvnNw*;wsp-_!O7B+?4(2#A5Wl1u6X8iDYu5$TvNEq?
z5F;<sT3QQ=@%!uWXVTpy-9HZsg60J|IpPv^nI;Jo4=5eHUO8iJAmuCAIOr+Owzq8G
zuubr=)ca*y#`O!eQOHT%VjEaLJdYd*2L?hVY{-yu3Ua3ggjkInhXH|{j{#AahB_cO
z4KfjMAPYMcl=p)FiqE{^z%63!;b0M8$8aprZk0P6<}vfzmY=%;0j_Eei1e2<5}N&o
z9hG+fS;U*@zw{%@Yz4^TQ)trIG|RhMh8V7e?~k13^zNl;AgQUsg7SdBrJ5dte5i=T
z$cMgFx=l_09RQpQr`O183MF1a`U3*AWby~62x|pGai0W{7$dYin-amYHY4^Mv}!h@
zm_^V8_io1r#|9_e-&y|d^4R%11vB15pNEuu=_?2tu*XFhc{nuQuV4|QizCd>jxLlu
zey^aGS!5Yd#J7GPdIh2Papww8JZbleMO^=R=oJ><<M!$jRB)OvsIZ7{|2*^x(#qrZ
zs=x1|cCT1O483A6EG$A{l%3g$!_!4~W+K;&WbcFLk@sOB7HU~Dq}3t{YpG**$fW;{
zLX}IPufs1h+EkyyXXAmLfQ*v47qC;|{|3EWAZ<AD+Me->v5L2sLz1?8*eeL<r!y`&
zXL1~0ZomE~^<@Ddi&>_=$cUKV7Z(0K!o&YXdGof;FSosav1of`)-S)kEd1a8Q?>Vp
zi?&zh&GOsJ!vEdk?Iqk`c-{)n=fHEQqO{KE$QmZ1%aBQ+CQ;sUI7W?Tj6*(VfXkK^
zV=Lu|-$UC&)hHqx&&w+&UbykfwO4Sna*1n|UoQ6i6?H7XPr!DWQ_P<Y7XBX>pN%iK
zz5h+Sy|zFggL%un=9?M$M>H3ed2?a+%-ZSghsl;{dtKaI_p@HbWP7MF4|o>@XG)^X
zgyp{rqQ?EnKh=EvM7!ODKa9oFz#j_#vwy1gK3ufD@`jw>UKT!`-ClgDPNhCa5cEju
zL&q4DBga{xBgvpVcx#(c9_jxeUEUpT+KYO{POuO8t!3e}XkUm<l(Xqgh3`hwwWf)c
zOAs3aGBHw0+LJ6{Uh^V*geSAnv}RFm^fT1xJn7SfJHzME=G+%!<Y0P1ZlRPlnG|Tk
zjh<^gxRz15ZaU+kfy{w>{FZKcjF$F_nk}W^zaUg7B9OPyKYp9gqt88hJ@k-Z{^(Kg
z54A?`Sfa9N+P*GsUiU?`bl+pNv{SpK6#Q2-aIP<C^dRDY{?XH((H;c<H8tmpno*pR
zf9^JQYPX4kf0ErMe5p>|VAmk%(Q7oPHMo0cz^iL#WNwCx{YdSZ@uU_-0@3m%emUZQ
zAT>MDhh$<e8Qn)#iHkAn>Uwx3x1}07BlZ@r`cU~BOKC=-=!3YWQUj*_(fxGQ^JG7W
zcSCT4+Na#C^PL{_onjAeo${T=3E)s|kDP$Lry35P#Zx1_^jfmmNq^Ho>Kvd8c});(
znEvPv8qP*a(Xl>>fGnkAfm~ibEl!0$#CR=`1`1bR@Qz#UdnGe;HqaWcZ=D9T*D9i%
zCt<F9v?%u!N_x~L^C&S6iuRhLA_i&cp@O9gV|#t*fwYpQokl!$hLSYN{mUara`4|!
zuZdrl9{?K~8Tuxk0Amc+{%Lz-+}yYXP5Oed1-nW<wn!_`!l7E}^B{v%sW}1#a_0P*
zPlf*-<*Fi(w^67|_=}lN)){5Gn1yBjbjgj%n=Uz+$IMErl&0c*5btx}#3S9jY|u`6
zR`_Z9{io<up%>4U1OiD5<MIZGh9<#*pC1VJq+-CK2z~7kjMx#av8$^WPx&z$B?GO(
zq$kfXc+X+Hpz!ZegKPxVPCfwu2YsohOAIh8KZ8rOVporB*u?CN_-<G<;a04Po^S6J
zq-x5ziNH1jyQm0rzeG2Q!-KME6wVP+R`*rpqoZc|*r1YpZURpec$NSy0lXrFJHcJ;
z=fv=tK0!9nA}f38eFAipC*2?bl^w?{;+YY&^j-Q46ZmZc|AD~o68Jp=e@uW(52P6a
zbS5bu)ZHT=lj?s+J|>|tv4_bBKcO(vy+}+^!T8xv>GN+0d`95!2>d+(j;0jvxpI<$
zfQf*afQ5jKfSrJofSW)m0kWr-mJwiUzlMAats3B?Sx?b6h5;#T4<sS0bg2>ap~jGe
z%#;p<I}#HhnUAs7lAnsFB_bcrvQr!agf5{UVyV2zJ=B?u<_8Y0xIB9Dt*?xHWx{i#
z;u>CxSv6baPZaqtADAmEj~hI=9WZG~l+<26I_EB(XdWxRe0Z+JGf_SA^~;CmO3LRs
zv+)Rzb9<j3k2@8<TNtaG+LCD8KJD8PwT-@*Ft7O7Svq?0?aF!1REUHvAA2e$w!Hny
zJZCIA!jJNEZqEciwtwQQvHHY{=0r*JRL9+topbKxbEV#i`mwW<En|JS$m}Ses82Ym
zXC3~8!yl`eaWu_2$|k(951Vx~BpeNR5HxtRc53IHg2WSt68=LUIu1XyQVkFFRP6&J
zwQ|9|%=kRNu-$3gI$y^dx6PY)qaU_Drs9V>-dMAMKMPa*fP8A$Dm84C8dj}_RjXlD
zYFL#TmXVGsT0U<w7~S(W{MDIxGjH5LpQZCQqp|csF=ukk>#Rl}mEw9pz6TX7%wb%c
z3WM*#Dug}MRT+1u!r*&wfM<b5<EB&~e5}BSI-~IkHS7r%_Oa1EY8<zX*`|#v9_ni3
zf-2=i27Ep^LZxM=(i<(5KuLv9JVumCH0!8KIO?X2^$&HaWDTjpvXZGaei3Ei)Ns~O
zlW^3`I+_xWrfK84d7aP5CSZN4a(q76r}kvl0nDkNHa0xe8H`>^;!mZ+=e$jCEM2hZ
z;j<Wwb@MhJxM9*`j_`@u`n*7Ate!XL0F*p$NrlyG$1*%ff%SwX3;;J$Vbv<qte!Wg
z&}TKwBVA>ekIXr}myZD3N-8ctJ?ARF{PcZ$DVAgkynaYt{<P@*Ylx2E4F>rwRH>8b
zf(Vc-=;*<_3}UZrOIN7gjz|`&x1ppVmN0b_DrxG)qxXFmlP0_Z4Lx+yAobzRVb}|G
z^!4DYqo=E%Om<;KkThV25F|Rv$BPsL=kPucv%5_eVB0u{zmk#EgH}nuPmLk6B)ue8
zgd3)KO(JOx$({g+9G<GCS6%}h_yZYuK%V(2*g(7{-r2w&h8)I=fGCw>@EXu*=@OOt
z2UM!AM@;JQgqN-}3_t#f=VAGav=Hs3Z&M1ql+oFX%iGvwd&FMsy=J^6!5)&3ZJq`w
zkr9u6i9JaJjicX<camWTfSfq~P8x^;<I#E?bmD0Wyo-kq+${qn?LpF-?f?k9+5=Rh
zbQAkwy2F8_9t=QI52*zpOrHcG>r;~h5*gG;U9@o+sojAr(<9<6h#6vLXY>ckls`O{
zX?B*jrx<~nL@@>Dxj~&@KXl!K;|5=gAmER-D1V6zf7{_y_WA88`L96W5fiWpJ@n@%
z1pJkPcKX{asXt7S{xd49z*8wR&Qm^m45aHca9|Dl6DlFR>IPF3dS^<u;Dqpye!@*n
zEWhKH)z<>_law+G+c6mO-#w$T$#uk2kb|`<zvMFts@30PJfpzF?ozkZ`}w&3S<7+C
zrQx(qZN!92#yYuWA^u89#I%$dM?@Df?nL4%^#(j-nrVfmb(v$NKq)!nAya+E>3-S@
z7q`=I;*QyBl#L^P#-KI9&jN6f47eVWzD@xod-%<gkNm175Idrh>4*NTI4C`dSou%4
zF^)E5#y4RT+-1g$ByIQu9Roc<i9HoRw3-%pATx;m>QCB^Ei>j61}pTdDDZEY5^mO6
zop4r9J6GX+Ywy92?1yd#uXj!cV`Vdy&7=G{c8aT(+kC>YEpCUY0Kgoyb!)Dzd8Y|4
z&lj#8ITGDF>bYkx9UYiB^C2Dr$K%h?kiFA8Y8nmU!4)IYfWB7jyzZSW{Z8e(l~d)@
z<vVVlh?gI|^FpHhsH*b&Y~IQ_4$Cj-eXDj)nW2>)=YjPTVXkaJr;}c#B^v=?65lD=
zY7RWRR_~?Pkgkn7OWHeh_ETGdvGh|HXS7{uoj5!h`OvUY7JxEw{U5*XCw|83UJ}Ct
z68j5J>cVG#1_pmyMxi?zYo7Ya*8EfO(3;0;P{#q*yr~t1NY#y~*LTvZfh^b4$FFGw
zH)<j{O`rPaK?;$J6cI?q<h5)rv%<1bIV*}JKlYw2!{rTEy%TPF6m)WM+PPtBW8Ast
z_U43h4?DR{y_4E14WkhdNf|1=K@Fm=DyUSdUA^=RNZ6BwOFH0^S;3{@4-K1so^T12
zUp7K~%su2EhD+-H0X|yZKWKl@XZ+0+eFkpn)ASnqgI-G~r0g_!W=9V@`)b^I;DKqH
ze=|!-o3TH@CO@M-W4b=JKNy#)5&MH7V}GEYF^3gFG&sj;?GNlh3yrjzk3nQSK|s2~
z)HN?XZV{0EBQ_Fs50M5DklsP0duU4jHsVL9MDNP79Yo$$*rL<eKvH(9nHxxEQ1+_J
zjCqaL!8mH7MfYWG8DP(w7hld~{yAcsHJ8KwbE0m>T*XX4KbyC!TgWfg?x{3nFZN%=
zxMVGMdEdzF8g*LwC8Qh7TI*(``%|~F*42FjPZ`)~yqjsfFOrX$@-bZt*@?1EE9rcG
z|G|?-Tb@t<o!F%7x#ypKZvXQqUd{+}9&UZ^Xv^OH=^(a$F~Y-IBonM`mBdfYJ8_r^
zHP<fbn`i|7=R)rSJkawzzu@3_=bv-dKj-W};%xIKGw*p&%6YtT&iOZ{^98*3AxCij
zjD4*~hrsz)c&_vrKF+!34IVjUy`A4QzskaIp09B5n;z70u9|s{=W8z?{@74H;s4OE
iifXFG{_a{u5p@(%F|qAKLoG$rQABQzhm?cS%KryCP6QYL

diff --git a/crypten/debug/__pycache__/__init__.cpython-312.pyc b/crypten/debug/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index dfae79effe535c20c041c36ca0af676abfcf783b..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 977
zcmZuwy>HV%6u<LV-1H+Q2_Wc)B2kHYiG|dqsOr>_2Bb21F^+vPuKW?5FF;T#WvE0u
zF`=%AiK-0zA1r|kpc4}xLfwi266%0>=O$?fo^<b?-}n37^SkNkJOX-C{JXs=BlJ~#
zj7S;^gF7G`AP;#sL=m<y7P1sdk!;Bz%bpS{k!q=tW@%B*%3&lSq8$yxE!{_+`U+bU
zp0<mud^>08$HI1qx%!wo&D6kLb{qaN2BjhMOKuW30>4Fx9VWgX#6B->wn7#(Y2uPJ
z1;stD&dZOSFz_5kY&W5lxGV;np>VnB)oBh=(FtI@ICk?0I65q$t|&Ajm>P*Qr~-Qi
zbF#5@9~}+lJ=DM+-qlAl?cfgHLWWdxM<9uGDx4CW!9!p#@BzTEFLzJ}9}T^BBnFl<
z+P)Y$(kUbB`JGA~X$vtiP)3kXf{dbNAZP;D426o)T=hu3<@3UD;vk9bDDg;!0|29>
zBy4acb|S*{Mk{t1c<@=DFo!W}k2I-hqEe}JPnS#<HO(g`y|rSxwB2MRHnS3@Z3l6{
zY`fZQUjSI73F<9Io|=^SLCOfV&wHt^g^BBg>3VhiBIAH7P%>Qs_NR+}YN)*Qa^v+<
zzhv&|-wMU&?fv%0!t#g0@~6_=-rZjsnicltw;TP!YENGsKpdh15JRE@e|i~MD)4<!
zp=G#u=|BC@t6<4IZ-4-WKdbrP<Xm5!A4s}-dmtli;Y3I$Wi++eQx>S`vSv*3i43YF
z2~#St;xj{Vs%MLvJqDct%h?+0LK3@3#lOaLw(W$WZD;ilQI<99@>E}g=W2yyoz8=!
sSiSTnuoD?${JV(o{CBkY1J&N68eo*W*4M6g<uCdB-P}N%!i!m=e-LQyA^-pY

diff --git a/crypten/debug/__pycache__/debug.cpython-312.pyc b/crypten/debug/__pycache__/debug.cpython-312.pyc
deleted file mode 100644
index e7e716d13dcdc1cee33865f83e1195a8367fdc16..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6740
zcmbVQTX0jy8Qyb~j&8PW*~S)*d@zt8Y-C)(T!s{!U>E{83G@=2q>8L_EFYm;&N%|4
z$SqBoL2hU<DIH9c3`*OXI72&4rw^rX$+Qn-@=ysmBlpA)X`4Ru&53F0q?hTxt8*mV
zb(~Jt<NxexcmMr&_xo@Ap37xNP=40@pXi2Wg#L^hX5oy=;x(vTM<Nob7#gX5sS%pA
znGpuQbc~I2BOHZjbOedaMI^Ek9d(+F>fc*TwLW4Mxr=Cohq;zlDbae79<fO%+EO2B
z)?ftxDlOVzghRB$9H;0M9T%w)SBCPt{)&eU`zf6Xk43`f9Q>t>#$p>(t|JMJP$B}M
zDG-<jHf)CRvwHK1bWD>|N-`{|s+@>CA&zEG3<~fO)bwaL7E)C~8xLthJd_beB_XX!
zqFsP8rX=G+NEk~hXCzUGFXtkJ$K{x4Cj-N#AXpv?{5Qh?;y-{~M;g#-iPC1R{+(cK
zNHgyM&i<CcX&0Jcb8LNXu(pC`HD^b8vsV8`$xYYWxRyf^Do6d8`ng3$Ir^v6_bCeB
zFZ|syB%)A`S#7Nh+KBp*N}Z!AbQ(^ZLYG_5GpErxYU5|jIESkJetI}-?-Ql7eX1tP
z3BN^W)QqZgq@}aTl$6jLQW<SLnGmJXbR;4vIs-SNJLH5WDWR|?Clh{7XH_XSrn4a>
zqUx42=c?bJ!DUR2Nh&@(d|AS$8~U_(s_%TC(!aAWtYlJ}lmH2Ud6foI83m&?>-%3k
z1eUDY3S-nWKrW#9rk3j+S3B~S1)8&U%{R49#mY?^7ZB|_Ock`bPT?AJ%{K4$RovYr
zcX!1dD7gbOTG2i9mU!1abbAcQeGU&^;891{<ww7F^uCQW35S2ye*IMKhV@={4ECbe
z`UVB&9VZXfcLZ+GZ+&O871w)RgL|1_I1xS=OoZZ6FsR#u!FW<k$8g;l3_hO@#f%<n
zFeoO&!64c1n`jZ3BLy@cDfqMq!3b6Haa=?n(+tNi+O1rd(r$JyQ!^HR#X7w>4dinX
zjkFq8qj=_ua?5B(YdEeC$RQK|)KV_1;5-Mq@-w=QU##fa!;dBtV{#;|NGhmpEE$P_
zwhNjRPsKtS(d)5v46CzH#T@RfYIRH!4ErFdf$YhrH*X240KvHASD%GOOgbx(v#mBU
z?(j+b)qT(>C!|EuFXC|qk73gHtgv}Y94t;K0t5ZD&JixU1=f#;G<=m-LqwfDI(+zX
z-4>Cw;~+Gs0<S_9FRD96L#iCEZp=?9UN|fjpRYjfQ*R2JTMin`lnv0^g@^3}asl15
zAXm$k<CDiP49&BS3fo#@Tg&Xa3M-UYq0l<ZK16<AS7O)AHFy?S$`$y#)xuc_7O>G3
zRjq~wyfTImv2S;v0%)k+b`EJZ3uoSp!eHw&v3yhw6&kjcq>R<>QnfyY?V$1di<C%<
z4E8(|47O5Hm(j80V~&ktsa6!TFNe+|#i=!!-8rgm3o{HsPmq}MCloLR7(T|;30hJ}
zCSn;O6;d=AfOT#>sY-$pN}Lg7Re<ByLVy5K7|jUJ!BIUY5Gy5Y5v8#Zc#M6*c7K3y
z&hANJ-he$-lM^9q-~fH9hFuPzRfZZMQ%k1+jL9*wUWTlrD)?B3{Wje$ga1;sP$Dep
z4DixfJWc1wB)!EjdVz2<9#1Faa7arkx^r2J0gUN9kRaZH&JmIPtb*;2(trs*M4iQx
zRD4g^vR0wyGS~;n93=pq+u&av2LdqT5#Kzu@tQhoT|d{@oR{*<yrXrFcU%^)4dtJ`
z$Iwm-7*6gH>O<?`B8Mx`bXxvqLEM%Pt&U6QzkU8Y*^1R$vU<zb&H_`iZk*>`d9BF%
zrp}gm-vWd9O;u3RL=A|{HDux=sv+|uXe>h}wJI_xKqj>Wzm)dHkjVlv*)NPt3Xtio
zBQuKa^ol|}IBj@vrs}~B)V@Tp1!iLfX0bJp6cb2a7`TM{S5?5hVO|2*R0$y!U`+5W
z5UXY&d;kW0aeUjAO|WleGbRsW@(?ClF!5uu6_XxJI)Ug6EavCxP^iOKA-Ke7!00vL
z>oDO9)0BSb+YkTh^FRQ+&i@a*2LZeXFnACCKj3Y=;+S+y4HfyG=|gw<p2FcW-&03%
z4Y?peJ!bqDG$0BGs~1CYY69Y}dUTkhSM!;sg^SuSqvgfyyJgtuL+IJ#2u(1b!^yFn
z3vQX5a?BaH5XGU@>~Ic&C8esE{2ab(*k_0=hgp=N{Y>^vg1JXSv6u=@8LZrvtvKxK
z6}E1z27rDr$bu9Kj~g~pPE^ftQV{|1V6UZw3NgTvA%tT%l&JC(WH9g$3B+nP9*iZ9
zI+ZlUjG_=qh>#CR)gj5WmP%{b)Qb`fiOUJFxN?|qH0&~8$EePMSp~hrP}Li-nLU?O
zVq#F0vr-khy|~9Z8d4NlQo!)mY%T$<PRT2*Zkq{Pauh*15hUAGb_1Ui@UK1x<O2Ge
z9n9!QuI8zo*Y{lA^MidAPjAW7TlNIXuD(wY!#$9v<{XVz_Dt@1X<x<RD>-~+hfo;2
z>)1T+Y?|6xbaqb<+;w)(@y;v!B>$4V!h1`+_kF(eV=GK1W;a|jj<6zj+zk9Lrhr^R
zm#9nhCFT-$$wI)3V(7aZfEdN7?^@~rp0un6;7Bd#o2&-`^dxl(<+(hSr}HS!<Sk<s
z$mn>S6rDnTW|$oPG8N)M5FGX_{t4v#A;?iT?5ibSSjFTe=@w3FCtY<gPtcRjC^jK0
zN{%*_NpY_Y_XL%rCm5}!mi6Ek!l9aq)qe%$1iSSNII;<Lg8PisIdgTDy4;=vx6=Xg
zt#+z4g@rNL(p~OjK}}b4QX;b~5v0}%qd-Q0Hj&XXVf_plt;=Mzt|=Xrvk>WeSvdc?
z6P#>ZYu03g8D1{AFMhHq>REAF(9H2QX&gB^j2|?XCBCO{P>EB%6{U85{93(dKn<1s
z+B$Qx$mZ4@{|XYhwby$Ey~dgngYn1LONwZjY=GI;*BG<+MJmVS_$(y+(e>u2`qz|y
z!j`i|AE^Is)<6oZEh~yS3wE(aZx&{mQmnbQJ!g;NbYw-Dbepq5wpIH@J`1{Mj>79r
zIC75Y#ubd9Dca0YQ5-m|DCT~mIFwjX%s$bMT^i=EKD^{6tLN>gpEuk_{hpmUCJQ#u
zTzgrc%e<ErBUaw!65cOTHiFA#nn<7epXZlv!EeR`OT%!sm87wOv!R$Ql6(Tc2S|tU
z8w&U=>?^kSXWLJK?-Am%3Q1>pe4j9MJ|%^*o6FjSQSfY$qz2W)=>&Ol5wh)qB57#_
zr!;aRoKzGTEnxo@`Oytresh4>-oN6IBI{jkFvydZ)U55Kq(TBDY*w@DjOsSwq%<Ze
z667z!!_eVxQLq!yT{uS%CeMNkmPJYT$Z8PAkS8252+uew<T1pXLLv{l(xmemi4b+0
zlt{<nxk!V2D3wg<oD7^)-3p#Jq-lz715U<#miS;C`04hqVF`y61=zBoQ8frju6$N!
zpsLd`Nv9(kG-5HG#q9jebtkRc;cWpng~ih?)w(i(c`^{A=*$@@qjO~cx=k^+s<Waz
zHm2JWkoX5l)uBNS7)-&#qa^B9!^7+B7+ivG!<0PnC^*K_ZCWx0JH#m;2l-rhT*V0j
z32Y5=fs|^J=2-#;%m`<h*?!|kDQMhh0-hxT`(w#)D5idSDSpf;Ay`7iZu1}T2<CEE
zT)vXaR}^;NZY_2lD7y}RjJDdoLjAGhfoZMS5h$E3bp-N{Em%;?`idt|@&snGvz~nr
z>o%>gxcw!!f7adeVQbfd6}dbRYqzvdvp?9EKLk$`>o*k+y#f&m?b?0SGDS`8nDclI
z7V7(+9do|!LjR3O#kaHM+gbJvOdXnTdilr#ys7Pm$1|7b%43s{O-&TUS!d6jZ_~}#
zjo2#*%xv#f`xG<v)jG5E`<`8M-49i|2TI)o<?cOGho^VEd<-+%3u1RXLcMA&uoYoP
zN!U>qcD<D;w-3I(v)F#}&OoXCWd11LTF3PRR}U2S&U&`Zt=n+FA0I&V7#0SQyY0#g
zlP|n9QLw$y@Ond8*nYQh`@DPoTw7o!^NVl3`OR|Qfnwm`+qOFo{=Vnkp7*xh=_<CI
zhMc&m8O~tchQi*N(=*44yB{xZc%t0)WYPU3EZDk!`gEz~!CEAjKQ!0gd6U1v7uw$N
zzV7`==UcX4yMF2VRby$xfpYu7O8Zc$eW=`iB!6_yyYXi4jow10?CpQ+(65jD^2qI@
zcbMNiUfy}U<UO80Hs{@ZGjJm?(^U5MRJ?s9ZyyY-cn3<}fwFhc?ZJ}w;ry{bczm#f
zX?ez0c%k^E<HgPsv+iO1%dwdUOP$+i-TlxgcJ8{}_O`#Y_gJa(_^kWHe4AkI<;miP
zljXKkMfa%%8*1sge}cj%w(t~%+}<MJasTx4_NOX#1UCjdj&5S!*)iAzpWkwWR`~p`
zZHR%-yPLS90V_nzUxRVV2oT*m9#V;#TdF$lw-S|6zK%ycg~@45p2nm$OU3Vw&p{Cm
z9<1t2%WCSOd;^BzRn(n8{(S*`z&3xtx<7I>Pwl$C|LXn%UG{7&oSt>`%{6-Rj{EF3
z&igR}vhWQGIlGFi&v-zKz;q}d9`H99d231>RlsW_1xung80rtNHu&+97(~T^yK(eM
zUh~LXi-MgvNnA<nPvlduLn7;toqWpguRaKWS-}d7EwnleWPzb5YSE3T#t%^E2gv>x
z<hy5aQC-u%N=Hwrqvsxi#wUV<vMh8WU)Me4q`DS-$hZ0CGdG@@dHx=1pn5;)wo?z>
L^A1qeN8<ki*f8l#

diff --git a/crypten/mpc/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 7114ff0535c2b6fcca9d1b4f634e81a399918ff9..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1170
zcmZuvzfTi!6#stjuI>G3YiUJ(iyB&KVrW1U9EgiRa1a`(4!2xt?<iOA+T+`A3Eet4
zz{KEygNw$*82wLNXc$T^5(neJV$jBg!T7${9)*P0-g}?-EARV$e2qk81oS2Tuk@Nn
z=m%4L61t%M3&1|ok&Z27V-;hDIg7J-mA3^|0G-zbD_{rJpoari$QD)6!$C{3B~`+x
zi1g5VtjdN|y5X1TNmT*+U{Cjv8s?B8l!kr1CqH+g=O69aeRRox)3^4d@7Kk*yc*M`
zS4i#CW#I9;k`AA+z%+LG!g?{yxw1n{+oa}}QFTR!RJKgrASbvJ6C<^<X4fogf~R0q
ztB@x>%|6Z<<!Xh15^!kUG137dLIPoPB>~1H#zMf-yvyenv%qp$ms?sWfbE<(K(HIs
zo(Hy%=(&S3k4GhcSH1ycDR@EY!Xc1r(AIKVaQiiF?O8UvvYK0%*RrcC&!5aMtgaDO
z$>nXQ;63pZYO~a{I~i&_ne7ajevm1Ux<id}24XUrW|mE=X;V(!y<Rk^rW@;dn1trf
zh$J9=0>0`1um<|3-1?CCIPh+ub$hxAe`V%Cm?3@OySnE&@LcS<blx*Kx^z|dI(|9n
z^~x<11>(}Y*BQA6xHJ41L#!}~19QWaIvO!HYbG&t(hnxc@4Y&@H@iFAQbwA}$eUVI
znK%$8yyWF{!i{z(GF7OQ*Ue&Qgo<xuqh#yxs=6VFp~g1#*4}xIcNFXt+>oZ_Elbl}
zIZsTwVH?yexWN}@IZx_tUyjtO)X*1AQl;5Ep*>S>!z6mglvt|R@FUKKS;%(pltfv1
zwg|5;a=G&}an7#jHOqKJ#vz2=bafNhDUUJ!8$)>fJG%E1C6CeYF&g|63@ThBbQ(v|
zL@P4ZjEptpBPqH!x;xqko{A`(+IiSgl1(LfsN6kLk{2~OwKLh0Q%yN_C{O+l2}9fg
Q>i-kP_<mc&IO)yvKMj@f^#A|>

diff --git a/crypten/mpc/__pycache__/context.cpython-312.pyc b/crypten/mpc/__pycache__/context.cpython-312.pyc
deleted file mode 100644
index f7af200d27f33c2cac07e2f9009821ae9447024f..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 4981
zcmbVQZ)_7s7N7O5|Hh7;#QEnq&O#u;aM(Zyg|vk$1ZWa2;YespdcD+mH(?#y>&~tT
zN!PmcgoJZKN08bQ?kbU!DjgM^#791IAMV8UzQmZ;VM(P*<-^@KL()H>)9K!<y|D?X
zR5#A<%)FU-^WMBS@BKFabU17X%Ju61M&7DH=o`|}i=o(9J_(IWh(jC|MZ<-f8m6?q
zVc4M6^f0Z}%rK+X#$hAWhNvlK9yU{jHI`uu(CDZ&W*fEvjX8^kD>xHpJWCDRCn>-A
z-(<snKcyNE#uD-*H0rwrNyfs-q|9>%#8@mD7s4S~#9?z$Hd2}3q2XEHO%XX2gF<nX
zLQesmGjQ}LOv<d7BQUnMTq_c~(L3u9`W5J#vZSms;iVPDdabxhW^`JF?6#&TmREps
zzLi0;RUe9I=c@M#wZ0#P3`jwWQ9z36Q|k9r%2u|{{`4BsE3H!~#V`(X;&z3JIG>%V
zP;!+{ja2KcQmxo@jYbW6i$as|^E3TZ)=?qKcLjqRC6yVAilU!UZEp@7JJLNe*fV@k
zWsbep->2G+9qjKuIQ+)I@j<nwyJv9dSkM0BLkGJ@_P=(Z4~G0U)hNh(Oj2nuooWyz
z)y&6F3s{V+<}jX2$b4L7gt#E9CNL+d=|mDb2_ZZl<y9k>j3p$0h02U3<6)J-q4>CJ
zn-Fo78<B)5UUgzV&hb;H#iTSs1XhjjCHW+;TFLy85FV4%3avRlp>?XlWsXxAr^oq8
zl|CJcs&>rFNgN-6c9NGW;H216d9p4j#}dIaLA-ruuqb*kmIw#KVqE6W$brP9Y95J(
zVBb?1JP5hrkuJe&8hu^IF1p-{b?fE_GIbq`EgK(Njg6)SrZ#U!wQV`~mW+E#*1h!+
zqKvIGmNcCnT=F!}h5xweyy1dv#x~pWJ7=DTu@w_C+Rq*N;K<qjdo}fQjSDq9=EpNN
zJEo5;F%{?fKj^>9xbqfdv8N+<%ngec#|7(*b#~_`byvKXz4Os*W5+`E&Mz#Tc^X+7
zmq9cX*6%gxkhXSr>Y#BBoue+HG?hl9297#wNf{KwAo3eRFT*wH=0}A%FR>gS7BRVl
ztSquP8E45^%YqnZLt!jR5*tfKWg!ve*#s8Dyd?3G%|_1jHLy&V)*`)<LD@}0T=sXd
z@nq~Ik6Ce)O@y#4z*fN$3$hvU6(J<^fmJ54&>7+qUF^Yl=wuXD$ftNVDFGL4dKmK|
ziPwl^8ev^9H<`>9OuovC2(@XD=h;)ToRHuaaAH^j3(Kd(ctFHs!H!^5IEh1eGFZ^C
zpq&sO3!IW;(bl!ZUlOPEYwW|tC_)Y#kw^lO7A?OHua6ApAY#d@<B@XPz&I&0=vr|+
zjnalRJxUYX=rJKhDHO3$f4DHa@OD7e0?+ctM%aXY(H0zaeKj0JRzqEhVahP$oUWBu
zgKor98q-^=0@3jo%$#xR3Z-b7Tsf`GxO8eay1;}DW8kRoY=Dr=l<oVR;3!wFa;Q|8
z85e|q8iFe|YQ9ciD<0=X!}&G_rHsJKrO$p|c#PEQqorEc3%{-yf2t%e*oEA+H6_xp
zh5+3eS3w(&5m31{W7HJbH)WKY^feK$-YV6)+$ob{!aK_5`bu;3mOeMa>XcHQGMA;4
z^(DIA($`Xu&>)dQ(n(nqOJt)yUaCto&$}5Upp=z^)Th|+fZVRn0x+QQ(dX(uk+NBl
z?AK?N67!5pONV}iju3xeQ#jLgv(7<F?@X#fsZgv6LlX9n@T1QAIg2J6b$;L}y|%8|
z0=l}a6e4=TX~)X!A9!~Db3N}lK9REj#w-~XJ7*n#2~xg6vBxRSma@Nq`}Svd<SG=q
zK<OvZi6~TN(;d&wFKGmT4SxDPD%kjfrFc65YG}6J`78&{KE4SdxOX*h?;I(M3>p-Q
z;?U*5l|N#EI(d)2BGRR|N;S92g}|2=L=le`MPAicNA~KiQcZlK5xTl;Ai0-;2$W(5
z;Z13+3Dk<@&H9=R2s0Eqfo7@m?g?~;K7l5vR<s>S)C9~w0cQ;UFjt@#Iansjc=;>)
zhXCQ4I6lhDyx*XjWPmHYtTF_(e1@J%8YD$`z_U#JwhuT1%th}2+#uoq$Dr-U)Fle!
zsAJ%i{z6YspHT!~TLft&6ctXBZ4H5Ks=1h|B@!=L7PC-2vA#0K$N4h}ym#s_<oS{E
z1Q&QEDuzQ*X>VW^4wOg}IFv~6xI|cG6al^xIp%+%AEwcr=H44`&W+`Kfs8MZ^KHvC
z_db?L_W7;HOO5^EGAW<!198o=5aY$9d`P8-hK|DP(9tP7;IIIQeOlmnjEUS+n+M`r
zjwc{MhY+J7K!{v`J#dN-j{{Yb*{C=s`B~Kh7&W2c$Lju2jOT`+3%~|X9wL~Mi33e_
zmg@|eUNvf2T{QwI9phE=(E<k0upcIHT%|!Q)eZ<^1oQ7D1<Z4*MVC^wg7kwtJ`DmB
zHPuQmLjlx80iJLwP0a5ki_55(0D9FZfp-8>4#feuM)^1<9-%T3QHZN_cyvs45OqdG
z!ke53Npq@&KO@Ltk>g=qG^(0G^D#{em?UCMP>5=biXl$&S7ErWNHrBOGbY&x6GLGV
zmsD%fKX^%XPK2Ho+I%X+jeyLUL^{>+6rNVi;5dNs;ovm1g^ByBHYph<z;HAf#U$aX
z<|2;6_0W@uzJSHb%JlTK=8~$p=vq@d{~w1WflitOR{`I9;A_kI_GEl}Zn^LJ4&{7(
z8DC#|;A>}H`Zr4r?YV}nnTD;|hTuix1HE^3EZeYa*0@rMn%B>7&U&|gS7B<b%-c|H
z<BAnku{l?J#?`*mw0_a!n`h=DH-fi1Z*N#Q`o==zo8KAfs_Hxq^V2<f1l3A4a@AjW
zf9Cz1vpwT%zw7ibx*C_<t%dJ`rIxk_-qtI9m-}+wZ5i*joVP3E?OOD<X@6T5z3Ude
zKKRQ!Ek4hRv7)vvPdj|o50Rs)de*wK4Ylmb`MNW{?yT=ndf=YZx8&KL^K@oBomtOI
zInUvY=kTm~$yI-;@?zy(7yEV72KWqdu(RexpgAr&J|dqU4i<E4Zb|=QvCfk|e6P9@
zzE9wW-m>0p?#+67XU%zosfrNiVp-46u1?+Y>{)Ev@@L^s!cAsg$hN(Dxnho);}-)R
zbB=i~)39a5h?;!G$yv{yya}~zm_7W+foeQ?H}Y;IGPD$AuwS%)R7qrLd1ykemIqDi
zue^Nu<tzIx@5?oHWSTl=E%(|3H#Xhm@9a2mdH3zwS<6zb_tM)J-_F$rGPQvlmA5Pl
z!Jcew??XgYwJy1vE*-ge<iq~&Y3RYeKc{-AFB^Mq9G+{>c{XP}o3Dnlp5Q`bPr4Ug
zOEq<~Qy=d8G<<bywr%&#t~+f9$yvd<Ecklwy80IDn;z^xeA|}YKlo+M(9I1W9wOZ5
zo3F~5bvwUsciyQPTCfj2el%bJL;tV>(Yc`+bgODq-3_2qRpXQI-9!!|+J7FIkf)b=
z{K$sf$0=zSc<5i7{Jkvmw+*{`H=@5c8Q^`}THD)6-`-r;M=}4{+tO!ZKHq5V-9dl8
zog(i}WA9!w1aj^BR~E&nq#DURk^GEyz3_41iigNcyI&;qyvyoW%DNiBr&@o)r6S-$
zB02E!G+MG&Uuc<WnR92YzHbc!l=V2ZOe0%MzR=E}G=P(*D=`6$m|!<Qtw~Uj<t@UA
zM6q|@EhHS(wRV4e0)|OklE}X@V8?H(2PtEH9=?+7wF`{9z<CRd`5pKTsBjN?kyFIv
z3rLG_nB>huEF-%W!nC{iH6JMd-+&gB3$dJRtchIMf`#rA%PTRFOGf#<_-*KtPcn&s
wK`<#rExW*)_fh42RCga)?<2>3<opWNe}gK&Lc1TCs;FHnn|@7EwHmws0X;B#+5i9m

diff --git a/crypten/mpc/__pycache__/mpc.cpython-312.pyc b/crypten/mpc/__pycache__/mpc.cpython-312.pyc
deleted file mode 100644
index 704b6a64fda41b394eac2943768816e062bb2ace..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 16674
zcmb_jdu&_RdB2x0Q6wem{kD8%TaszZl<e4Us@YClzhci(+}H^k#R*08UP)9aQoi?6
zj#z4QTNk0*q_&U_l2>n0x?pjZ6mx)XG4_`WY*>o{gBU50LO6qgb${ePN6v<#1BU&+
zbDyGU$IE&Fo_p?jeCM3+eCK<ekN;9p;p6apQ1d@y!(op5clt0MkDj^T#&g^(Cvqa6
z;0EdKNbuv1K_^dnXTmk^9(1$3E8!V08!TgacfvbfK3LB3o`i4QKj=rkO!OuK;}wGy
zEMK0e91ji#k@t!IMAdlpU^UAJ5;fzsgS9MQk*FK58?5I!2PajG^%#@0-eTqZm>)e3
z?ieQqFL7d(RPnx3D|=siaf6K`oLK#Hey|De8oZmu+DqJEi&%%WRcboSy#!1QwqcYO
zsm*}MbFT+noYZWqZ7r^y;zRYH(<lQWz7U9|#>dmicr2=>WPF#$m53@O753prS!^_-
zsL|LfsB^}KNARjV^xWZtCsWChGpya`4uC?j?~pt-p%vk)`e^)BNj#N`C)Fd#SW1-S
z&uP)9srgns8I`9_k49xlG~1WOQprh4R?)ycp-xRm1?TugEJo8b9vwm4eHD;i!v;&-
zATM%*4#_#@H5yrOkso&CxM5y&Tq+-QOCHgAi8GN~hHt)fzhQ^yy2P6;y`mckFBd&X
zePS6>zvx985X+HPNR^_`1~-UrzwNt944_rDSb?-g+#pt7;s<N-4&q%WR-v?BtVY^^
zel@m!jZ))SpS2bvM<ig*tPy=c4CZ&U)LgPp{hBsdx7cu<7aK1*%$_Y`6Xwt=HY05l
zTaa!LTamVlZAdrfxL5f>;WQU&FO)xh>X5c)12LB|E4=CG1@XI|#oqiGKg(tLi+<WC
z?GYUYfqtJ?jeX?C>=5*pS>9+V2eSN_aik4Ecqe($Iqk{1$I5MmdRBC0J?|4e;+ZZ}
z8LOcD<?<}|Ml;7{%RX=$@Odulyx64Dtl5+0MYAs(yUM7s-qX&kW31NtHgX0gr@dKz
zgiCYs7TYT8j8@ir1Y>_tX3R9pMf^rx)`72p@ioOexU4tp%JNyK=)La9y5He{!auBi
zs66^lK(J5HpF^?~RV77GM<qdFM@~@Lu@#2p)Ho}SCnwUXFr*a^2@`T^GA>G@aBfPN
zh|21eFr>(_p|A<^3_uOBGdd)Q(r`SfgQrs~q=wlr@#Kh*RsduxT13+cwO@$JadmWD
zQsc2u*tZ5)3X_xBSaE=gMU#RuA;sduQ$p05R!YV^;u&d3P*WIImE>`ZtgQ>hCO}MJ
z{aRD!#-x}^J!1?XVc~cZ&EhngBJ~K-M8X_@JgulEG-DzRWOQ5-wrXe!2{ac1I3Y`u
zQWCI%6^5>EMMJcrVR#a}4%jdu#<4nd?GY}F#$%&GLW+vmos^JHYPba6rP1hQJSE$(
zbTEPSCZlS6Qc6tqm}8mflCXd0<Wy9|a@2^4rlB)(T0<BhGF+L{V0)_Xui29Uj-_Oo
zkVR0!!Wn&8G}MJrU_K=zQ>ySvGIfDkoA7j^VpusR4X0!*A}O-X)Co$!zDnbu8-oC&
zioi&Z2Ek6m6%*J<Ix0t#ss#FB7*2`lm?RhzGw>sv1KG;b`E*>y<N!S?ig7ibN=6eV
zBul!XT#!@1vJI{F#Sz&>6G}=@fK1xVA?$1{uAtu#fQ!PAC{4y=KqnSQ4dSx4&meho
zIO?Zi0u(lEb;0t|NsX4`lGr1}RV-H<DP@p&Sch*Nw1Ld#L(wFmJD$YCq6tQF+UdQ3
z!z2u(l2Z6+p~65yWJHdNAzmg9Rq$x=-s5FrKp{uLqs>hFtSI=Nk0#R65m`>j1veA)
zGVx=rvvVRfQE)5i2}v$^BM}-u5-F68MwO_l$_zxITute!g4{p@mKk4_G@h^EQl!K%
ztCFci>*R{cBTB*Z$_4f=)478-s9&34go*$1NF<hsDoP}x5F0o6nQ-y<8+z68iQZRx
z<(<2GW6(L!s~5Tg{lXJdaw}SAYD_s5HfG<1a^)i=zq`oY>*4}6xdV4<+7>o^Yq93g
zLg3Js9&UTz-}b)Od#h_{+rg_{%Qame*L2-Z=gL-^+TZeB^UXhT^Vnk3zFY-bmRDXb
z%X^#Vrx(0UOWr*z{_5O;>m&2SH%6D*zp+x^I{VVhOSz->JX~YjY-%R8*wCHxqtVr8
zFYmk4D!jGt+P)i(n|qg9`*Vk1KZ#}ytvS~lzAv0yTla18#_+A@^R3VQdKd}Suhh3t
z?R`w0i&0`cZe*CyrKQbsmblGwaR^`%6%g8d=B!DdhBSx@N$G-M;;09VKv9Ti6C<RZ
zVHB@z5{M6nkSH4}nxe|-7>LCpQjl9Uh7UPp0WY}&i9!-s5adq03QmlasW68M<MRn>
zLqvIz`_ji%HP3BX2!`gn^1;x8HzaqVB4+9c_#mpJ@B3LK_GON6@9P={lgsu#Xi1MD
zmrH3H(=NzXR~Cr+fHx(vGh#x4Bz8tj4JGRYDjlRTmz#Vc<Yr5kH(;cKpX6zTiC9H$
zM+qbPkQ=9n#IC%}C@Ofst{@TR?I=-b4;gJUY_YOTy@f3s(4*A+8%Qp4zpZYW+x6y#
zoM)w>Rj04zhR5;^kLCQIHgB1K?q+<c`N^E;^~#mTHoO8W!TMZ<hFDW210Y)JS0NV4
z#+a^9p|$yp(Y%Wu1KC+VVvd5|B~&=Hu+Xg0Xtze1LKL!HngFRyOpz`@WT)vTI$I67
zG@KKL3+`9~9FQUUJ%_vzMe+_LcKVZhQIH8*7-d}ssMSs+pg<2-)2d^$dBa<6*V>kw
zx96L;FE;PcFxWbqnaMl~7KZ@u0p$4rEEZwPBsKujAG9#BpVct6&BPQ4E0KU4elW6}
z7P2%ROg4obJ%xY{Btk$k4Hlm4<<C>Etw>6t>%mwuXO5n<Hb!fIiHsdfSza~U8OKm5
zI|19>pr`K>_DbMptPG%v9+(UzS{iHuDnDP!RD?op_L_2poSEH+QWK={Op=HsI@DBD
z6FUY^gb+8&!kI>`6)BKV;;fnhZ~-4Q32@J7GA3Dj0s;osBO0gB2)N*8K<s-Y@4+J1
zkT7+68HLI>k$@cpo98;;X<iC$U+^AX*l~0bX>j|BH*h6zIk4<)$$MMo_Pn+K+WsYP
z2*PCc#hDjLpsZ&Ira<9vfZ;&lvyMqlt^uFq#)=S4pQ00D#-WLsEH7`jY#!KB4wze<
zYNFNHTDi%nn|3}3Zq_->Taa0+5=^AzMw<PmU0K(dY5!T1m;Gvm@s)KMgh8!A1Qt``
z!0lbp*Fc%3>^v+@NJ)`|Bs58jFF{(S$6){{J!VVYl|ecm{2mEX|8-SS7o;Q5<C6k2
zp@fud_Jgto-Ev%kMo4~_u$me&#<D?Tb-I>mv!h_zXdaYD8MOzBIV3&Cfo`kxn=>Fu
zq^7pAne_<UwrLtb$QtIjDqM)8C+lvJJ~TmXHB2of<d|r&?8)f4)TCt7zMnxm`9hrR
zFE)`!TE00|I~u~mX~{B0Mpbn}>F@2Gn9|Ugl1F;QR7~l`@jI80dNoO+gh$o!#1o_O
zk<kQx>i*4I>oZKh2JX#~NZ*gb&={6v3CGtEOEC6e5W+4a<2tG`QwOJ>G%46E@uY2~
z2cc1|MKZ%yzi^6F-LPdDgBtX*bIeI*saYEPCQkVt7b+{1M+}t9yHQqfGe|Od8w(CK
zRVafSFP0XgGVw_0DNHsB$TI~^14fOD^^ZS7StelLSdm)&5Q(NW*IpgY``cD(JFf1Y
zJuq`1U%P$&D3XQ1_D?ISe>yf_Hy?ew@q^B#hQ5`$rn%~wW4R+{<N3~f?XDYpkt_su
z-L31mdU*E4%!%2jXP%zly--Irb-U0!Sa)UmN7Hwjy5`f1O*^i-SDM?Q2A^1|ZOr|#
z#<NU;foT!X^5b{^CrIFT;>Jwn0|okHh!W_D&Qj`3mVX7}O@_vIno~{H=0VEKu*2X^
z&=4)20UwP`@gaSYkN(EaK@RB$)I={_1-66D^h6v#UDt*cu1usfj>E{sB*?7?O;^fk
zn-{f5DB)SPj_w19P}uraL>TJVya3F<gX!sf#+(jQUx{(x*t0c|Kf|J2sy0<-VJobO
z9w9ZM+35g%%CNGHb2UtkV_||k#{$k9xsKs^kdo`h)91m=7C}2N7Mmq&-o%nt43k{v
zUO1-lktBQ+;yR#lP3L3?hqFUclHIB>9#z4P*R(wsSC#dPfz5BT@)@U0B@^(YVJ{_F
zbHNDbQmP8q+Yo^m!o*d}@nN768b{PvlE$tW3JlcKl9~I?Y-G|-sdcZJI1RBL55l9Y
z8@e}X(;D|6Daz~|lrrwZZ2S(Cl7XW_b5cn7({P$;L%K?))};Ng$-#br3gr+IaF}+k
zreU^arsYl8Eijm`?7O^gZqLVlVWqY?_w=1+VZQF&wzu1Er1Q;B-0~pNl+TA5Im8X<
zjNT6;Vf+E_;-?f(V5alVXC*Z)Yw{jKilnmP2GXsQ;sXprm>4VbcEI;Ss8MJRIu^+6
z%~V-f(4bwTR+>c&Z$MSumCWVLa!|+zg$1v$UQhe~t?7uqCUOoM`(C^X=AOcOaT1~J
z96R+~k8l(_3gKr6ZDXDLFm?G!n!jz8RG6u@R;f!P(*4&jvm+nuSnzhNUna>e=HD1Z
z#%?n(mC!B(P)|=O-9KxpgzwV?@j%hjbChS>+;>P<hiHR!4S>XFDgBEbwUCoZR!!i#
zs3}U;3R#7y&ZK^#?@XnI5$f_+C{wzTK!va0Jpau6;df8Ged66`-hSrhnT0Kf;RV`q
zc(MLS&h@%)C0LvDug4JKfD!j$WFAP|)S~Dy1R`)@*66tCErpAT^n+2M5j<`OC(`Q(
z;RvAHy+3Gk14RlM2N$`!_06+`GlR1)&%C@?-&wRy`~K1j*gE@>`M<1_Id}Bk#!fpj
zb%!P9Gt_QGG~OD14|kiQqJpHETcL79QX><IXgmpz=BujVT6l^kPO~yN+HvGFP1c^S
z?e+_5-hu?{4Ax%BUd}EDx8;M|ZYT@EZHvLj7QBzG*Jl233+*YfQ0VUJXbN8QXmSd|
z?Ltz49uHv>mXBec#`3|wC#7gYK0ynxulFPh?7T~B_aQYaTIZ&GaML{2xoMGX((UUB
zmyR~u(0@P%M;od3l;Xstj`cJ-1xi?j(+*goEvWMv5UuwZ>4`;;aS(8;$U{5i#sWnR
z@Hy=g9a+cEVDDy~NMS1?b^k>f2+EV$r*TtwOkpB0IiFN<Q3I~23kY3)<2GzKonV&-
zqI51jGD3JSc%C|b`0$Z|Or1$ZTYb>&nGLc(Q{gMO$Z&tgi%(L*_GcWvP^e6%<rmxx
zTEWL&k#SO&nEWA1mWe`{xHe3HQ&d3p1)l|(wJ5R#$m>t*iA2`=(zUX`0|ezP65?D<
zvoFlNuv{O?*N1YxyH$0wz8PQ6{psE(ub!DbJ9BoqzAs<jw^YCD_Gr$xVpQL)gr9Q$
z*gcN#X<KRQn%g&@x!HNM@s{(Rldsr+&*>~L;h!*12d%&^5U_7{c7a-Y42FN2dygN$
z1&9mR7o!?>o<y}xV9{!+vUs&x*{`TEIk_)#cY?K=)v_4exZvHmp0J76Fv9*?>PC}6
zOvUmTJcw;5+uA2-J~WW7Q&6GZKg1-|KT;#RO2HV=8d+;c8Rgl$yO05grQ?NM@ncC&
zM3Fc$wWlSh!KU)b++_puchE~`ngus2Tf;_5PWLzHqf{Y*66oRDH|JdBy!yo3@`pxo
zO9>R~W`>UBLYe-(PMW=p`PtPPz1_dk+}ELcb3V9v!Mk}qkN<k8u4kw=3?i6eI<jBF
z;PN2NfZ!UU=>aocq;@8j1&CY?%WZ6yay_bJ__2owj5rLj>ibRjvL86x)r-S&`x(r1
z+G!clrI<8@Gn8V`S-2dpI}qUDh*(BAg<O<y<V8&8uaf1#o-tZl(F0g!pa>w*5{n*N
zf4avkdP>jq1Bc<zgb;9M?wcl-L0wVfmYaFRq=dwLgfREx<l=)#s6@vn63kH~yx7+x
z><npl?Ro<f9`3<K7>inK2pL%tMkL&MAgF^yXy_kg5$a8uWtwKUdCZjF!AxlrAfq5^
z&aUS*j|6>^^{!n^kqZK5WN9aZWd##MrLna8WL}N}aiM_b+@}4K14s%knpGhffn?M!
z(<7`8V`fC8azC~5Xy&_SS&|Q`;IpiE7?^apaFK@lZ$&;wy{K!EeM#kZ4VwmDp=Jpr
zxVWgKo5q?SPv=~BYBn#{bmq$LG=`QN!}-SWN=40F<8pIfzPayK!>ZHK<by6603Q;%
zwG*=BZMy@<Ii#7cq+Ypj`NB`r%Z=Un#_k&<%i$yW@R8hw#o$qR;Ma33B4);1lSRj<
zl+?26LN4?xdJLIX>R5?<28d^xQ7P@G#32%OznAD>QB{aN8Z*7)*1)y{QsRIaGa}#G
ztNd7v)z8Rf`3w$L%zhA^Uoj4Cc+rz}i2MgGBTRDIiQ9>iOvDyTMLsxp<}u?;?qu4R
zc@~-1mJZZDp^u%0KFhk5NmZ1IqYgkSY@-jIzUi*L;Eu<W!>NJ`*N+IfpjskGP$=|i
zNhVJRqib2D9LYObqIyq+HPAgKbTb?uRyF85P`{R-3$92)&DbfLzCWjSKSTn}tEzt1
zKjXiC<gF9ePApb+FIV;Ct9ovn&sX*3;54<}W!^adadY3y!JA^P{BCvqZ2L_6JMMP_
zZwD5uamTsht-KQWQDCk<?`?l0uu|Q)T-}kc?s%tjdDE`^rd_w<zm6_ccPv()LQ|n5
z=ebgOxpK+7!FH!iXfhrmSw`xAj*MMmlp=LQUOenJStrq2x~M1eE_Lf?z&VXbUy!iL
z?~O^p&Nssf2?pcY)dpEmn2NA}zc3}!sbM>h3p*Eu4i%iR=?csqypWO;A`7j8vM8O;
zM0TAzRB$AvkbZB+PuT@<!GR_=Ke}}OOTbnRAi>7@gI6BE{P>Uim;GDv{w<6Ct{WX6
z`?r(BeCNzl%e7tk+OEagtqXyzcY{^%vwvge8*@9~?7#dc3*HUu)d>^hzDHm#2BsbX
z<8=&|B>jt?Vq6+KGwo1K%$JtgrAz(Xh#4NbM)EsKF$r@8<QXb@M5n=wu*0s*+8yp#
zv%~CchrIFxK*;AQktvy^gxIxqYLmznoJxA!@b09kz$eCs^~<2OP99?2_FYd(|BVu5
z9La-sy|(VEI(uQ}!rb{cGcyMk0v+&*%pIKhPR@6ywd;m&dF$i(t&iV2vApkOe&5N3
z{-+nZ2NqkO$@!MNO)J6XD}Q?VPZxv2a&SvNxMlv^i^1*%Z}&qa(BBskNomVT<gJ_A
zQj!Mh4;^wm)4V<GsMI0%!)|_LXt3T(DTbvicMwwvDQ6G>0w?HTum@`-U8Lwi3sZ$G
z-D1pCEUm7h^Odcj4#*-%Oc!JxKSq{e(PLY0DS7A=orps=FzA9`!BuL85mRDkT_9*r
z5kZ4x^=V}60FBBqO?&cVDg*K;(vV+M#+dveHA@pm?UZA5PBKe=g%VP^n23@|S<;;a
z1;?v>`0ca_C^{K%X&P3Bg3mSX0i7?pKxE2wRI+%H%0>`4Vrb^i|I+<Y;KRUD#r~Y*
zPDR6<i^A%ze)k6d%lePnK5Sd6IFNHtFkBOJ3L=DVe%HJGZ}%_OhjR|NK;bMT1q@j<
zYH7DZb!_5orMh;uex}|~&2E14_Rg#Ii`7Tg%C5UsJXA^9^>6HufGF@TehmHtZl`Y`
zNf&Fw4ZA=-sG7X96rq;pg&-$$)2)#Wm?BSp(}&H<&Oeg}ZJ`dP{FC>7y?K4TIjq5v
zd7KPb@<w2x#PI<ZYOU29IRo>?5kHOKld%$t;#i~6!+KjX3o$?r941HfIc)vmIEA_^
zf)qt4wyqeG->#pcT>FPeGZ<n{Q|)pS+FevODyQHPw_-PnA&@zxd;WA_Xip}W%r2D3
zT}UCAn#INJFD>rCy01M-5%1JVAf+)X_ghurFkMNG_OFd8I7`mz@4~%19f=G3g|owQ
zH1=JskQRc{Y5j9*dfEbJjib%?4>}IUv_=|8sS;DcZ5Yv!q{Xzuku-tbDBb`<o7F`R
zuktZIgv1Jbr|6EMh%N2{c#4?8?NqxKVP6#}g2-!0=`{ghmsrfmW_!sFMH)w_dOT)b
z;%YoOpxu@31`W!j7Rk(Ts5blRPF_V*G)Pu4ZjHY^r4t1oS<8r<$Hr?{5-u@58L=xN
zTA(9wAcGs@3L`#gziYuK{)NUVe~m`)s%^Dht={q1UyWXGS@Lf|IP!Aqu6*mRn|nXn
z_u;<V)&Jc1tH#CF<G=36x1L;XeKz0v>|*Pg+|f5qf@5Dj|N7Z=9Tr;;-9DIaJ-Xa_
z5?vNs2XaSWKlxiWK=YD+Gj48Y`)B&+qHiUxC4QD%tlhB?*g-Z2%!p-gYu?*BcW}wu
zZkZGE8O%4-K`z-O0&Ea=?u(FLJDs3>AQCyBjwZAk&B!9tibZ`Rn2}uXF+}BzrbHQX
znqvXA+D`1E&pnhdX-7s{!3!KC>`0wr9tN4+Wgem?M<_W?$w^9{rQ~@^NSGEp_>TYr
zf0)sy`6EbC)PySOfHDb2`3KarLJwn)Nr^-xf?(+_C}qyuC$(#FVt;JsVIp%%A2#fF
zm$<u~+m<``<U9A=691Fybhq9c;5kpt7Y>(u+kGc;_b7KSfZR%F=w|)$&V%`#2Uj__
zyFsr;Zne^bq>3djcgJdAgS%<<K%KkcUJvJ~{KDaIcTnTXdz8E9)yp=SWt&#LPIuj^
z56OL>!@c{y*WvD2_4?et)h6C8Kn812Y&{5y|FyH<J4?_v>r+9_gucauzJ<yvUVHg_
zFH_r2DzBrNbW(ZEN}F(>t8gFVbr_Ug70R)m2DiI?wX)2;b+snwZuqZF8{7?=?~?Es
za>8#kITD#jr4qYDY!gUD#y<&@(n!c#aN_?Vq|Bd_FQRS10~ShW%|me{JJFin=v77U
zhzj=+!fzA_HAN-6#F$+#Af1TL;e8@7`dcFV(;<J!Ygdh}7}v{Wi&A?$JU2x_<?F!F
zMe_YIB<!Db4;A<nMQIbV&Qf<}mtBUywJyUEt7NJ^6!oN?I;TvFD3rnKW&iUaUD3EY
z5|EcWC?Q`(!9_>VyfnJVh`G>^roVPZF38ad9IME1IvJy@u*?$?;69>NQh=N~iofEF
zjG7I?`x3<Klmp??0G=W~My&LA7rB+{`sM0P`RYxJ)mxy}HSfLNIN$JY``hg|>lT~$
z-f}H8AG?jvkYg+~#8mX&a}>&OYT2q7sW{|0TFW&g%y1vlE>j8{zhbH~>9xmbKBQ(~
zK3_VV?gspi!5w)0_*Hdb!(*Sgc0a@b`}$O3?ia=-qGMF@H^@8!mAGs)Qc78Uz<({L
z@&7}cQST~c3to0x)HMRv{m=Pdcn}}wWdBrj+2Z41!)R3IW>h9K(a6{zGf8H#l8{FW
zqIeN`S)jxuIJR91S!@t^f}j&zqvkkXPjLs?HtMwxC%FfJ_%`h^asPERN77Te{=$;K
zd!??K!WR*=SVV?5(+kZ5x73fD2X0U1n+Mj?qD;Oq_>C9=zJ>f60u;V#=JGtcoLWPH
zVE6EE8x*+v6W1O_fuRkW)={SaO-d%d!(1MPR=p@pZmv`^tm%I2uU88DA6TKbs6|?h
zCzxxbP-)d9hvOsKJ#@e<G{Q~`KD`KkCf8ITW^j^yQ>dPh<Ky^G+oYs~b>Dx0%Ij_A
zdVC)OY-MsvYvwJxE~u5Ik+=d09I=f+lvD^lH*oOT7a~WW8#r|4_%j2i3sv7bzP5y&
zUxva$Iq@f^WXO-x09}-HBKf^{pQdmekbi+spqf)?pKv$L^Y^PbzTz`(>u21~&$#WM
zaqXXR-T%RDM#@UIea3Y_HadihEzA7IJil??y~uZc>3Gq_H(bS^xabY3=IFl1idM5;
zSFPh>a5Yd~=UCvXR+~Khp4A#JzxQ4PSJSb|@qF*a<Da@V&maH96{ZRF0(#9Rs_3JN
RE%PsY;_CeZ6@6?0{|gl9k3#?e

diff --git a/crypten/mpc/__pycache__/ptype.cpython-312.pyc b/crypten/mpc/__pycache__/ptype.cpython-312.pyc
deleted file mode 100644
index 4ad4bd9b2cdcc8d459850ace31de3a648194d3b3..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 950
zcmZ`%&1(}u6o0c{X=Bol6f3CJy#(Bgp&)`q6l<&Cp@JzM_Ofhure<sQ!`VqN!9$TE
zwwE5;e?jWWze4d~#7kXz5EP_0A@<UP_$He)qWBKK_c8DN=FOY;zF5oy%IngvwKodD
zSLqBy?;G8#XzTz5O6m|0n-HK1RqINi+G?QL8UY3F0@XHv>Wu8ES)Hx73@dji9gC#e
zV%P`{iFA~7`WE*^Envd;sx_B0y3E2P;%RB#4_)5+Gv;Mv8Om}g-3tgiz`!OHY=shA
zrHZXl)z)Pfw$aipBh_QkidlP6-psfw{3tXjTlGUfd}N9mGh^;IUBOJ5X1YRff2AQ<
zVn(Yb3q9V71*4|uwU%(44sZ>@8+3s-$bfur_XWZZJcBjVe+wm#FJZAEBu7uG|I1YR
znUc4kDRKjws>nYw@P@i=0POX<dQL2DY1nMLeA^AfNSIy}HW?RYIWa}_&+{xj)thd;
z!MOZ%j(m{jAIiWY=lC&N=mt#wV#4aHiM+}@zE}}KTzOjIvsWtFu)<0ZdzIeQFUPHP
zR76fTz4mw(JPAx8Lvjsa9rjO+Z_jPc?M`mpJeaaN1#7=JxovOSyR%!)!Bn|ZD1R%R
z@60T`)jo{A8~r%*;8UsEDO9^y3`<rn9dR7loa3Z<#|a|Zs7t%xI8PdGy?>H(92$8t
z#XVWP)L7{)8y`oaSHLGw@i7T<!aXRWk(@@@fX~|fFO#M9d;7()^*de7(3eS8A(NMI
z*))b*#^oxcdEBeO7k-l^!*OP;XYhP@)A7jltl=B{EFQ?QCg%`-sDzNC2_VzoVg9F4
OAj{<C!VyT_EB+1GTjf0f

diff --git a/crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index b9f492b856ba79209e72f8838f42bb70b7f58124..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 294
zcmX@j%ge<81Z#x;WyLZwFgylvV1NnA_^bkCOlL@8NMX!j$YqRTWCXF9a+q?NqnLqg
z<`kB6rYM$5R!z2-Kr<LL8E=U>7G;)X<ffKnCI@FE7Nw?yq~;ap7Xf92oHFwgiz<;t
zi<p6$idcYzpC;=qu0*(2u*5C4B(M&!f?MqI@rgM(@$oAeJ_FS={L<Ag$t}>Y&@VDH
z(N8X_EGS9M)6XqP)-Nc^%*`yxEK4ockB`sH%PfhH*DI*}#bJ}1pHiBWYFES!)D3cM
mu@sQ_z|6?V_*H;`QU5N3+6OiU9+eBKmKV6J8rh3Dfzkj<QceK?

diff --git a/crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/arithmetic.cpython-312.pyc
deleted file mode 100644
index b6b1289b29fe958bebf8f3464518defd7b004850..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 35490
zcmc(I32>X&edmXhAOR8}!BeC}@FpaRB6VMuO^KpT(^e=SVU$7;KS%~e67mO75)mj?
zI^HdnI58PJ6*X}xD$!I_qK)aq9V?r3qqOPP?RL9>KnDm$*>!e3)5*@xt}G_gHnZE^
z-~YYuA_&NGnslGUhxfhj-N*la@B0tM#YF<#t+Ia_zWah8{5N_~T%jCT6byoJSr7%$
zFd~c^28{+DHVv8(XB;t)S_UmF&NN~jEf_3dVe^P>v~aL+v}mws)IMluah4IsXz^e%
z3tLA@MxBFB7A_cZjg}6UvaoHWY}7sIX5qq-^3jUH3WSS9`$*+z)nL_V^<Xug9fLJS
zVV@utzbuF)-!k%+4z37ThBqtC*M572Pp=e&!8)T5SQ%Ims8iBQhF6Law~FHMTOY7!
z@4jW?`3=G=^=4th;C23jBKp0COo0?QH9q2(5Ue{D7z;@LNWdrg$HdU6PYRBm@&!f$
zqk*xA*OYMv!@iRvA%Dad35<n9Ql=OY!7=r*5Rd!~3bRK-($EXOaKt}!8jq%-lc(@g
zv`3mabCl)AQ^}rZdV3Cs#!jg*rG3Hk0rBY&O5Hm)6cPi{FECw#*O;-M2>8ziq)d?%
zI5QF)LMz2z{9m{s-ZSpY-4qsoAA@*V2nd4)Q5ZCehCx%Ip#2kjMAOTLL36+&nqL;a
zC6_R04HSqL-LnnPR^4-<Sn#qiSR~ru+r>io4x}j3r6>**57+4%#KWR}Ng9i|TXei^
zQ0sM~9Y(SE4TD(nvQdq7sj*I7Y$<AV=}IdTOVJLuSO&jbbi=O@%i&jw74WOXO8C`c
z75o~p8vY7#k644g*P`?lx^n99+$+}VTD20-bx64izbo-uFRns<k5~`CLG-|H6dT|-
ziH-1^#l2z^QniT9cxn|};J1mb@Y}^U_+GIc{%X++e~q{reuuaQ{#vmEey6w={yMP}
zewVloez({Kf4$fZe}lLl{zh>F{7vFU_?yK(aT99Wg5S;f-70QD>^5;L{O#g4_&dby
z@OO$k;6EnrguhFC4F2PR*1;zNZG%05CkA&1+6VUpyo0@g)q{HjYX<uQdk6OgItKUS
z??7Pf;K9K5!9(IM<T{K|e_S_OPX?aMInPh%(@Yq>`!bb1QZVwuXdn_C8hF7k1w_8o
z{he6WMIJaTb8HE$W)I&wp3sTmz)-{!dBGp?jE4hZk6#pnk>J^YCyWBHBR!Fj=S)C4
z8IndlL!r?#;}L%(7#a(A7O?_*^vNl^6p)jljuR7}Ft$%5LgfVfLoayF`bWkCp3q5D
z81MwgP@3EjRv7kS$TQ{%2hR8jFnBm%;F-d_jc6XVC_8(H=iCbcR6XVihFMXRU~GK!
zL_nh2P+la6)}4_8VL%tu%t|;Tg(9J$(1@q~Tu2%bec@m<;O%7j`-cj2JIjnP?e@h+
z_?Ly4C8EAO-7W}{VZsnmpaH$5^vtQ?a&-*5?({LFZNYoB>|vXdQu|f*<gi_fQ$otS
z(||bPf`fu+QeuAJ5EF(SN;>T~W??N{6Ej?-^kyx6#Hpl;8AOZP(#n`&*rmMDet9{p
zPODZ%%oMhx<iePdm0qBGW4*W{X82t7l3HwPEe_ODrj@RQE?6TKN;qb|RroD}$8a&h
zXXhb=4WIjTq(*yE(nu9CGsbue#@L0@Yn2q*uhO~;G**>byb>A)s>^mUgHk?n8HVe#
z-=jU&TSZIKG%Qb})@+QKq~=GQ|EA^T#Eda@rY;yG%}R>lHYKF}A}zH{M)1Q}r`Zmp
zTCT)BboErmg!6`+B^aW`f-q#%%9+4k@Y?+o*bYSmamekF0@%*9gE?5yz|To3G^*Ro
z$2n9wj*S{R8x%PRq0KwtIUbgVj>|xY$~=m)LMTvDH}{YqpyNznD0p(h<M*gVg(T#~
z#y(DPLkvU$(r9ojz}tdowUIJVBCw~mPXUi1&k*ZFr{@5Hj$qg`<PQfrJpPdpwf@oZ
za6~OlX$b4Ge>C7}=Uwx9s4WbrN`bQkizo%_Vq2KOT#OSNm9u_n0&r6;5ipCg5~K?P
zl8yxYB1Sai86Oh^C($E-+rSI{v%!$08>OBR^mhyp`)pujqC>5VU?Cf>K*V$WgcS0N
z=uU*eKQ>Iqk4ocwz)&I^E43MH9(aR2YED-0P)L#pmryG^+59MA_uLB@c|i71#B+Kq
zbdFN1<;i%6jmn7t&<r{;CbHJai@<|<4UC?_8j#ca!yI)`C71~r;?tryH4elv775S<
z0&PhlaeRpI5pS3>KAsamJ5u1q@gUFvmCkWqXv{yNHVde3bbO2`KOj4g6v8O$hV`gC
zXUaJGN5UbXEk2pYfn|n*VdOiG!bQ(<F>p3GgyBTzsOv$A&odB{S{*F{-aD+YlUf#Z
zZ+wierC>np@C1RouuQ0?kg~)(<?=b=qG9NlXwyeq)Qp~RXk5Zb@U0|<&~2KG!1-V}
z5^a!Q()v|49yXBZkND*_WlY$7(M@tXY!ux)56d>{k6=w|2?CtXz!*f=vjpmXVAQw=
zBf%Fl1<)IHC9yS_vGOk61ktVzrtd^B6257W2tRl$GPZ%e{YMY<?>(F;!dQ=i@*f)t
zWK19-GG>~*jOkP$k|}}b(~x_{jOB4UQ}BX6?2kkwiJ%`VP$JBkDL}J{3y`ezWMSM#
z#>yiz#z-h*rbcIqwblYYNQA~R=BGa~IFPY0=;19u!obMMjFnHR)Iuprv|Ox|LbYdF
zGr~j|&<w);dfmFn=$Uor*Gb(Q*Kw+CY~ARYp>=1Z;3y-}!s|ex$>d(=nTd?e2mUA+
z@%f_lx#_@8B|$5y34ac_^`dZptKe|H-v0T=(~h!V+Jxe&sqh<n795`0fw`WqKR@5}
z1M?4U-?M$cD7E!SV(XFQ)`7e02kx7Ug&W?tuV1v_H|-dB-|l>M+of$Yrn~mqw7Vwm
zZizb%#@h}i;k#SzIV-2m&WtZOTi!2Uarxl%!P%y}<t-?q^pN3w_dyhbK)Sr;=gyVy
zyDH<Z##u4mx*6|_dkyb9_uxGOY1iiaHo;LgxohTRd{x)m&)t6Z&hrbK`qLG)mp?uI
z>B+udT7_!w?ZSns-IL~59BF%L+`jUjvu@_u1!wbI&Ak7ctI{>~SL?3SeRb88HC<72
z`PlTaR7HEDqJ6G1S<yAwM<so7`jfLKr#_jiSc_+O&E*}_J6?NiviC!);8=0bU3Gcu
z^w!t5r`&52?lp70^G!+j=E+`ET-lMT=t@*{&6nRk8L#L{R_skx97<FiLQ9I$`mu4i
zUOo8vgEOrOhv!QN@0$ci-6Cc}7$Q$`76gbgTdan6S%}CK5Ya$E&_34<Uos2`UPCmf
z0uKef`aNTTbDrE&-+{d!#y&a4P?ldhMSxHAoIb~bjPNEHGz7{%B8?A$oz}pK*TB{|
z*kUuK&RBV_Faa5lM_P-Yj0sgoSLCj{6YqwRC`{Y!qVUTi!PPn&i90vXolQ75$8DRX
zb$BtPb`%d31_dE3cESU}El~b!H!PDj`gk@p8$J<;j7yxxKh7ir3XD`(4?>#K2;o<c
zB1AA|3gjSz2!J$R6db0O@IJEW=*m2O<Phsc%EG&O-zvDuUyWUgrJRikXJg#f_}lL0
zKDnEOtUW=_Q!VcpLl_tY;6z}ueNR8r;pqdulBuV2!EnH9ls2K=nF2^uhQ>v|L~<Z~
z$G74+x++h{<xFRD_Pi<KY>L~OmiJs;<@=HEvS9oeQyep39~fyLfPO`8?qUL)`mQ}h
zlF5^Plp&kWNa#3qo!0mA;gLHp5h;Ds#O7S;Mp#-8FHCC?u$ZlJmLyt}XBZ-(&rpU&
zco&8Dt6HZbmt)hh%P&p8G-r-iZJD<ws<tr5<aAHkmyZVlezxle5zy~?HZnOD`mh-Z
zvz#_E-;y^IMo8UO@(8WZF+w!!4;v$sMBEo&C1$onw&Qu}=<GyHv^LM^P@apFWi`Bu
z!Ut6?@zyP~;*F7OBdOLciPkN*%j2#4?^GsQ_b00kJY<}HSL>!b*QlHsf7qbNyT&wh
zW?Wi69J^>Z@&QC-`ByX=wCHHHwDHxFs%lGAwat~stG3QpCaShRWE@lgxdKJx1CVS-
ztl&_B2+3@i2N*{if7yN~Rxw(aXDS(q^LeBQm%sx7p}@Jgt(LEA{c5E!1LQ;{p`A<i
zEI37Dv|=C-2`f;T$XX^N>X)8ChMPvVAu|>hr$;!_N4N1+6cDC$%i37Ia?<=o2X7!X
zNO2Tq4g59&`i&P+yKzes0hnUO&y@lj(K5_(F{85S#?Z+N1ki|#%yN=FqUZ*YLZ2gM
z@~Ndpz*KV=Gu%?kMG94L6f<FRP0`2q$wG8uV{%Uz=O+C!&%szrCW>Rc09F8_fk_zR
zwJ|g=k!Xd%I*H&u-}yA!j7F9kD5aSVztlmoM2}~z;H1V!B4INg054^tz)rRK*n$a1
z8*?|WQ<vs-<PH-;0Fhu7%Gz)3Unt!)X-zk;jyG?fvRt-J+h!^kT%Ox|CoSo&P45(c
zr}*{H&IT5$I_@CZD~@|Lt8aT3YI+eaNjobhi`jHbL`V(ck2%^nG%qxgi!MAtJ7a(*
z2HKem(9T4(IZ$WsmPwhX3#OQGu~M7C;UZS%5)UFassrwVFxH}*Ng+ZThB-wjBUL=S
zENz8gJsCv{O-)Q7|AHCMR^78DQp(FF0a?r(6U2fyj9)T9pr((vsPP3cYpfuO_G49P
zE0R`~&A$#ED57a3r>!v0)8W9l7+NcfWd~#dG5Ep3fE4nyk8}D`<w<05hL=l<sVv5?
zpBx_>Vq7)jL%}#hOf2hyh#or*wwX(AL81;xp>UW*sj>ucJZjt6LYBq6CjylFg}?}t
zI|t7Dhaw{rp7o691)tvOc?wb=F6066qZ9|$p9_qsc}%b)7Y8ZJ2$vFZDN}g-L_|WF
zB*g*?&QobLGUK>O<s|ncB!#8Dm=KBZK*kJS?`+0A7C0XP6<w&NVVlQWlqrz;JLv#r
zAyCP7VaCFUSC&d5Ko3S7Tq|udwgItYY4<Vyl4m9KnlYa0!e4i$cxW7g4`|HT4$Kr$
z_401CAszLY94Btt5R(^u6Lb4DBnVH!yD0psOek#optMcdpZ3zpUH2+h5KA@NlB{UI
z)OWAAYQ}oqv{2lv#J46ZykM#*K2cmh3$Ja`nDuzCdgHu!=S2L-b9bwspDeyt(LKNM
z&iZ#x-mQ3MvM62EJR40^b<;-IHusW!O?#K^Yl0zqSPlU<U~&*7BZQ_ZT+a=~HF%5N
z&Y`SNU2w`~z|zd#4FO09BOclm0TtvT0xM45FaGR}p_a;K5umso&Gwr3{IW%`k0Q*v
zNv0GMO>!2bh4^7$;33mDFz_~IS_6+UV5Mv4#JFqs?ac|-?n%qN(zaCThD7Ox+b!|Z
z4aw3c0CQFFxr8rM(Rm+A(vNU1UQ7{s=Nf0_-GFe@(2qWo9#bOmd&Wj08xqqjBTGp3
zp0|&b<4=(wTm=slrqliE`Ag@&5arxg(%BrhH7_T-3G>t6;xIgYf3#Ji!~R%9xyf#y
zx~6ht{g}Z=wJ;YW_8nvo=i0H3uscUaAQc@7ota=T12e9I0ETZFl_t|d5{<l`63RH_
z0(?|Jv?&jo)hGH96+s&w<D~84nw2CTVYpKl%)JiOar@UO<##u3!zyM%HL_Dy&hjzs
z=c8xIHF_D#&`1dO2A@JH`q7hq4-t83U6$uv%F+ezqJWK}z&za$@nEWEO`>K^vS#g4
z>SIV<8Yn>>wljFhN3{>DO9hE!2hEcb)ct--CNvB{`8gM+pe;;BYq#tPogtYuM`^M+
zT^9ZTsmT&(+K&WiFlJa$KDGo^N}Od~GJ?mEH2(-v34e<e;U;+Cb!?7Ti!K$VY}E-{
z^-RUp+AFmSww82N-Q^3@7c>f8?ijM@2CWefM6F?uu@_6dufm?@YYblZN2_vgg7#k<
zywWqsmJM1+bP7uk>7k-io*;?rVZyo>g>-5AT=|<TZmyVf%=bW?l~a<XPI<OCPgJ>z
z-zPR`*Hf@Jk)ZSPoCrZ99fHo?59|*yIpo?NS)Q&crkMJMiSUUtf^zNG+xGa!^bvWu
z0j4sd8UkP#I9CNJyW<n%W0Bx!V6P-WSCS?Ep~0aX4;>ty;3pWDMa~v}P_iOk`)so0
zxw!4Qhrr#B7?t%()l7ME0@ghcSVHebmIzSIoCw0YV8U|_G@<9|iO36(@~oFm(FDIh
zUUo<9KHnHL5+GL5mwfz)E=`6CIZYlDQ0n(3F$eU#*odX72Y@jhfuY#}L?}ITCrt|R
zAJ(&iDw8J>dudlvYrh(M2@*!#9;i*#`K#r+q31W~^zLfeQM5t<pUhq$hn|1ft<|Z7
zz)%>6Y0YOjjXlX_F`%@^Aiy@o6kP#6U(w+4g-3*c5JHLbQSUQj;qfzPLK0b~$YvoE
zX9AuU=t8jvd_L%if|0<e&)4s@GfG$@^}a+9A!8na7E2<!FH_9PTi==S6R_H1cpzhr
zpd=2@F#l>nnL@7D@%h65cV5bEVU3aYAiPwxB_ZY^>qRZ|KU2;yJm6J(#Z=&pq3fG&
zHOE)3Td;S%ec*OrVPkK)ygF6hnka9b9Z#08o!ooRSu@kJ(6D8}x%IwaEG$Ypw)~*^
z_W1YLBpiDep=K$H<AqfyEap&iRl>GvW_&hqBXlh^FD6@eq*{9ttv&DAcJn2wM>a$a
zvnBe+2z)$blbg-~B_x-RB}n7V9QaUUp7bWg5|H@jTreBFr&0{~P|!u@=o5;#%FozG
z;^{y_`#pS0ImqH0p5(cz4vi8WC#BnQ#_n@=%&18yKvOlKDyfM)#xxO$g;<(-Hsy-;
zPvjJq8Sxr-MEE+|oExijE?IPchm_$Sc))dKm6toFJ5psWiL#d2z<lpJhu%6AFKbDb
zJuz7TQev*)cK4m5fBC5&eQKff2uN-nNug0))DFd|K<95Tub5Go8j^8OxCk5G7&9*0
z-YS?-3edLy1+&gz$&?dN8I{?V-p1_Nv@(=XPB5j)N`_S#mXcmqyD4TKR;3}@d(p&<
zm3Bo`z%)$Ll;ws=WR>NHiR{mEsDsc;mLp&mGu<+OOCH&n*{6cgn0Y|>UDqu>tZv$`
z%*9L*V)&U;=i$AWDVK?o0@C^DF%vC|5(hAE%4xKu${ur#(FN0QXB0Hq)38VGjP57*
z{3t{%&68-==IMgvx6`KFwX)js&J2v7a;+pw%oGKbl}(_Qt|9_7%!vh&79|{0cL&?6
z^8N(<XN&Gvr2$Vf!yW)Py?rDHc{1Kqt)pNQbezS(GKzo|xr~h|abX4%U5lbbf}o5*
z8ii>CVN?+MvS0}EF<6%<h*yT088anhAThe>X(@P?EHUMZVIe9qjC@8enAvum2za{I
ziXb1y$mqpCBGJx|LZiY6QY6hoi}GgqsZFeWuUmqFq>zQ*HMpHI6Ad7d7(nWWmobiw
zWr`GWqJJb~LR}2gbIfl-n<PTVnIfY3!oHE<=|HCNDChxB=#sY9Yvm~50+l*J-X8M$
z;AO1T&43stxXZ>?mX%T3yt*Ca`JZ?nejBq3&4UeE;Hl_cXM>F1cia{ej@>e9Z@}xa
z%2a7%qO>tt+B|8!r;rUZ#}@3XK`dN8JbgG--j*nDo3kX#J5%Kw66G6`<(nq=LPGQE
zXD)qa#(&pYf3Lpz>iH|@Q}yc;_3Kmhn-le$)3CKb-r1(P-rJV@Cc(31Q80SSrmU|!
z?ynbIm6OH4TqAf|9+u6Jm2EZ8)*_Tt&sY}fH!T!ze&1Dbxp2DhHT%qqcU>N`+1Ll0
zjXtv3*aw>p4@eit1)rLJYPL67?oE}iOO&qz(Sx|>r=REM7paPlL`BCvS4GO@Nw_?-
zl{f0H)g@h>^QPO)cl>BV<yy47vV@s<)HPh)dSz>>wlh)NnW|l%s9m3SRbF;XJ7$LF
z%=0}+UAF<L>yY}D!>GL2{p#V*AD-!(edbDk!m;{`hwnRhCkh33UD~zh$Kt!2{`_>p
zbp#XQF2NKPmn>&iX!@CM_M4c}CA7W@L@x+BbgIVU@I<d590SpG!32a$1Q~NNRYf3`
z=m;q_HU?sd)Tx?sfMQ74ukjHoQZT%-fzkVRUN!{!YB@^@0<)l3Mu^6j1t>NYf)0v-
zUg1^qknt3(IX?{^015{4F!egi!TwYRThqo@D$G!FASLXIsddAuszJ-7AR;ItP%3vz
z>H-<S>dJxCQG?5j_FOQZg6-|s4gbcfYW}UhBDFN@0MZy(x^uda*AlIITDDx5MIG#X
z2moSqHGoqaOcm+82*Do)Aaj#<OXQ!_b?U}%V3#62k9@E;XuuB)#fJPN0k46}a;a1f
zT7GTYIpQBZA^LYkJ99UuleM{X=ST=8gm)pp(|b@zn8>D!!hGdBtKM3b>fW2^-g}Yr
zuFy=FP6sA9h__22Y6BRc@lkdHhcQoFYDPqdL~t=<8ug!N(31mYqW`#nx*$`)hcm1h
zN@NT{)|HHvOi{s(5&YC!vvDgS3u}B{VG(<aBTGW~zal$R0=lcF&b_u4<Z?~p?3QHB
zng@cVu;kK#$)3rx_ng(x20A_WR&JQ@ORn58RWM_iF1qJlIdf{(e`R=K^%L*8d)Ssv
zyLSE{a;NY6v4raoHhOVM94`t`&@W4bvWlta5{-KoO8Y>8Z}0g@+3tDk)aI1CDdBFK
z?R(F?CSJCCvH)JXw0fp=dPS<VJyF`8EL{y?UDcRwU-uJ7*UZVuXJ0+`g=2ReT>ydA
zMd=M&9<bjXJs;99sVo4D2<ZOf1H0hfWBA7hfKA<DA{l<vRlUb<{<Bv19+z#2uu$dS
zPGCfqf*nmdt!!Ya3^ck5U{I{=pg&gSOrUL15_hp2pd?I!1EU`3C|muj!q?QJLL@i<
zs4&W)g0?Ssk6fBizI_4uj5s2o(}d=t{1q^f3xvc>jAoWW6?&m^77r~+1vg5cN!JNY
z5K(zDovi{6<2eD~V%<K7DB4euEo(sZdd`gaAsdC#jDd#`jE4PV6EI{xH%7Y`U<8sg
zlL!mi`U7JiV1i3T7fh;3Cf@!L&rxi@0;Sj@PTvq;LuzwM!1g2Cb)0(9lp#e>4L~wU
zX3UhBe!b>Q3EzLdkOYzjo9$JUC2v27`Jsx>(hfOzH9ppaycz<1qITMZ-$t=)6FMrV
z#ui$4F4!MSyBkvO_Jq5AZXoV%PrAF~j_wbfHEG9+H+p|*GP;V0%7NKtamTHr^PS1H
zJ@Jm+aXZ;?A{OtEz$$d^{7LD~+09d}mpfkTh?nl1w8Bf<OD1>dY%EzNl`spUYIemP
zyFSqDFPjtY=GkZG25vXU-OWk&<8jC1|M;L#D0_@iYCkG+@9qF5)23Z8BTQ4i_%6JU
zBMMQLC0oKx8V1j0+M%S)rL@qbcUZpaHhpL*c3u1BAQ)Fw1Os7-A==Rkts~BJky2VQ
zAkVj0J3;9}SRgQsho*0nzD#ki!IQ;c+G<)V1e->Zyw;C=?QEe{Ln>^@K1wStuOMjI
zkSJ|PmNo&n=A7W9yDRSK$}zWmZ9PP)l}0^mDpi<<2-zu90r?1)fwWd5&T^|sa!o|8
zX;jKp;Nk#T`KW}5QacDC6+&roNSTYA(%JWDr9xa<o?~h|8D}MZ359xX8QYkASe7$G
z7IsF0PjL%Ua6$u?^vtB4W)H*%lXelf&}(qGl{|xXuz)=uiMHe+JxDXFC3~D^`!LF4
z_Ej)#e(cg?UwC}x$X)xYd+utoot}wYjb4dfed)?e$@(rnp=s!4Rh!t^jW>2&+cCdk
zc1N;lOVYVDZri$i!fD^Kz57|zmv`^#cRMnWgH9|*EE6z6V9BPACtTv^%9E!gT3Xw3
zzr$oNDV0CuDm#i&0A1*O6+x*i2caGi1<qHgJsI2h=w;__n^NPjD#Fz&)!-Bij)3TO
z;#qEAyY>?SM!Ir{BTFbk9&UQhB<dt@2#&4AIw4%ex%Zb*16!FHvlu+<Qv~jI7>4_}
z7+!)Jn@D2cN!ZxHc!p*iEH@_`3uIA!UK?cjeIKnz0%d?dFuUJ*X=lp5GGSjiTbpWF
zpJ-Tr*S<dOu9`fQE-rob*rj8s;(9VgS(9qqkZ9a+w|GOkwl!7Tk*MvMH^1X}%aQ8Z
zoxuOv-IIsYvgLk9!qNJrgYVbYU)_0SXR3B>qIT_kZK`{B0{>Y$AgOKB+h&d>-K!^i
z(^ZXGCY<UtqLJ#tegY341<7(Ng>?|a5N&>xsR0Zijkk0So&pc9BCLl8Oh}#=)bp_(
zprIz74?~SD9laF&0u0^B+<W#=(%BWabv<M!Z$-X*9nQUGmvppC?I;QS$z)VHrRE9K
zQ9IT`T820%#?;m5DD{`GMSoUrGez?1@rQlUhCGl@OY$6boa=w7<A7x|d#^ru<;kRT
zb=<c4chqTxcWlbr3&yEM^9b5H)#iUnYdt|?k{@ll`q-7nl1^{j=H;!Yb*VTaRS0V>
zZiJWLOrNBuryx})7M-jqgRnr952~2@ajsyDL4%{9m&<*A)eOp~i0-@=hL|#jiHtFH
zM&l~OR6P^CaX3(sE3+@!k!R9!rv5z|fmW0Y{k^k&GLmw(C!FnbrE|OE&i>nxyYS2i
z-NDh6{<y854~ZG+6-Vfv4GD40SjAAnoQ0h+SHZvt!Spr#nQWtIJ}W@>fm*qX88qfi
zQ@fm0l`ZEDVLQxFRoJXMe_XJn6jdRkuz(kAI9m+u@rA;eHC%vp@sr=xu>z@*MCl}^
zzF-`40e|G6EfvxRxpST)&&6t8D2f$K8Kgecw=PyB7BJkpdPytQkyBa;t+y&A()uPj
zHR+Jjl31aSByY^c3Ui%p&#99p^AIv;&T_ZZv*$R+ZI!N|#2g}hv5@tl$tXnB^W#WK
z3|W=~rj&uX)(f;4>@aszhOvK$kf@ruVUHZp{p2ZErSQc<g0C0sG5av>`z)u8Qm)oL
zEQfqT-u}>4fLgP9GmSM=#73tvcgu%~>dbO^#|EU3Ho}orN;ci7<{otez>Haz1X|b`
zprvEJD`vxrtiTN4eDrk;oTDmll$L;qSLafTJKYO3Qik+xTAUJ!skaqeFpTZ`oz#vM
zhaFxxOk{kP(?;5W(^T5n=AJ9vI2&@U9|hm)*TC3RWQ|g(vic$&O3ZMl64HK$yR@(p
zVr$xwyH&#*lvLX9lD;@}?JkThTMM~*GEA5&%PGAx2xF}g+!w)}Xpb4cY7iZfZAy$b
zrid@r#j6tjuNuB)RZ4?k%o_eSplvmSg|t#=u68J;X}>Y`z6fw3g^Uw<#PtUlOXco*
z^c5@TXvx!(M_&0#FMos9x^wS^rSKi)=4?xLDsM?YcwZ9~b1;S<KLIiI_(;Zz^XKdr
zs?W3CV#Z3p>&1+Vetodp#~J!iIDj`<G3&)>@zcs(6QMJn<I(oxq#z|rI=@F%jpAAx
z<)F1kC0dNqw=t#Co8-;I%NTr|KPSAxB<)b8j*s}F1+pge*9K42%2f^CRoPljLik(+
z&*<|8dVHBYqJj9)8%F&x+ZDnqnF6rm>=Zkb>hx1osdmO(5z!M+mfj&ROx|@$R&Z)0
zbOPD~sgRybI8>goL8r{_!l9$<5g+(89RHUtQWnw%NPh&+Tg>GL-=qkF0MZTey2)D)
zFH=lfVY+LAQFc(DGBd190Zy!w7MUppc&AvCnYlJeN*IZ!c>FlRO+-i6d<??QPjsCT
zv@6kdrT2xx%Aya2LJ~+87VbCPFB3{?XV%X&$5-{m?fVwpERwyi6l!W`#^Ti-IB-x}
zJJWOBbp4r`ShBR^Zt2dq3vV}k*8xd?S>4Q$1<&SW*_O$IpWDlDetfd;r_Q?Bvf1&k
z*S=Mmc9l&HO&3lZ-^ao7!Rf)*j!pKx?<yz7WXjc;a5YX^GWOD+x;?Yc%=y1Q_yKej
z{_7PB?zUTx-|k*m^Vq$X&B>OnQ+==ZlRC3xx+LXlNw`{O{a{4xZ`tFnmZWRvWY5o?
zb@Hk7*@nCBrgYQJ>s#hFzq#|~&f8_lrk%HsB%2<e>ifgPAJjFZ>NX_mpci@P@LPxP
zG$iYK?;J_g?VH+5mbTI9=xedrvo~VbVyU*RiMFlDw(WPTwx>NUH|*E!-zc83q?_8Q
zoOG#s>g<>6()BG@V^?CS`mRKM*L-QRe#4aY4;}B<cfWD&`uN<5WPSI1>pLB9b=)z;
z>j&=i-mM>aw=YpYK#4NN<rt>-!4>bE-kEZ@B-|}?hBpgu7QX4c>AdUSlCG|~YQJKi
z?Mqg#neI`K<+mj&+U6SG^xpKox$fq=yA|7@%}$lKB+4-)3+3(U`mJxA;~kj)M6!PC
z?b07seXlB6-!o<XisOUY#;<O>K5*l?YtN-xHYM=CcJq`?RuiXO4GC96y4?HvzM1{A
zC!mv_Yn^Y1m+zey@0RbqeKJwLH&uQpQGO^@{&b@J>0jZJg0f%Ppez2)37F-*_@`|@
z-uSNh$J^s|{mHVY;*O_qGk|O5Pn{KMclAv7m$#*B8?NrSvIDk#wQJ+$Yq9D`=X2jF
zK#{K-fV*z*od3<>&ET7%o1r^~yPZ8s#usl)T${M@(zTb8wOiulTe1e^ZpE5(i}%K{
zYsYA*kZA#xZV_7BZhZ3ECn@fI&2UUFYA|CrVQUDB#Q5arykU|o=fbfJV|1mWJ(cB*
zYw57KdRYpGesd`BrYu(^xUfWyK=3iIodjS7;gm&{msUBky-DZ#xNZG%UivrahV)}<
zph3EYAL%c$8i@N0MA4V`NC~}sGpmW-gws3MF!xN-xgl=b@LOpjM%t5eq?IFQFsk8L
zh6a0CC)lgJql_}Xi!Mn2p0cikms>CL=<7oI8!GADTrC0W7(bDJIO*j()Rw<~cw0yz
zu|(ae<CvB8DYb&8Ak3KM6uOios=0*vF#{QF#f-Y+I7UX%5GKrWP!%rS4^25|2`D}i
z<d;O!L=hzbc?Q#?GaF@w&KbTVoOV;bVu0b$K13{$bh6xe=Mpu2ALAF^g>2ly*#Cxm
z!M>89gp733kW6mBvVG2QWfxh%09#Bx2|>@t*jk@Q;U6{n;NjJ=*Jxy^ib=7pC?LyW
z)VUO!U=VY%{QV<GU5X?5lHsJ{xsoI2mS&_*-W^Tk*q_r7k_1vegx6Qjy|~cOt%!LW
zE<N?dgIrWhgZIdr{soks54>tiQ`1I47(_6QIdy6GXu_XioAOrs&8=$(@m!>(Q9??Y
zqJh}1VYDvWDXqemP^WaPN7JzDrg!si)~?^I4d^8a*|MD08g_=Rx;IF-#L+ndzvmR_
zPF(WAuKeJ3E;cUeW?PX4hv~_re@h{@9~sF_gsqf-w`3ziuOB>{cO&B6U(+gzA)Bh|
zd<{qE$b8TL#)<`d^SxRRw@;hj{Lap|cHSxd%c>t$C2J47+mNU|oT~jqqV^NX+M|<w
zUp#!TxN_>nSB@>qkgVNvrzcU{m#RICEXmq_wxMOCzwR%5Hf~$F9H7(gV2Hj5v-wfm
zSgOgjjbqHF9QPEc>p>g!3kGcsXtB~`SbaIRva+^v37P;}<<*!=SE}S>7dhrw2g-Z2
zM_tpo_EOl9OV|hjQ8WU8#9dBn@*Dz0pcJE2CK}mU2HH+pPHmG}6TajUNGR!YS!FBl
zV9DK!Ww|xdpj4u~(Y3o#d8hpjH)~-f!~`yum?fvk3QV`MKOqeH3Xmr4j4U_2CMyDu
zK#t~H>Q$8bizI(5y+<pgew}cMD3>gUwi4%=<&<&4TVhGG+%2op+Y8pbS6W(gjY0M`
zmsktWMm8zM=ejvt_m;3tmP7j<vW7UB@{*bEXHfRZORBNv!*&c%vnp^B3zWQMv$e$f
zD;G)CrE4)+pJqAiFIAM5OOc&t#BGYLRc_e9Y|aWJk1LgFP-Us{DoXEB(rCYcJA1Sz
zC8VqYrT4%UMbUa0S47U?_F#r2!X7<e!%)U4Uc~*!e?fc@u3wOFR|Sl>irEE_P$~MD
zZ9EBhqOE;F*t+8$NxJxijvoOluv;HVeuP7t{L;xz-1lG+*%35ibfPQuC*3HTnbRYy
zZ#(Qzy^Wl3q^-?QxDgP}m`~#7iHtGuBII5pBRKGeOUxxk2ocmp`GFJTr!r1vgT^kb
z<js78N+Hz+J6JERqR{ur`vG|*eaYBZ4@ow|Fd{>S1R13^@><BFX3OUGBM~&<L^xCQ
zEM4QwZRl6i>leu*AroDgJ`{v33A%i5fhI1>*yP5+{yu`kr;x}E1(?YiZ-<!~=o3Pg
z#XwvNMD58-%+a7F0sh1P5uReF=6|DN!CrrT&z#{KeGs)Ay619F^}J@C?73%OG1CoV
zdA8w3>$TQzwBJ~BZOxqj8=a}fjfuvM3yqu8uF}iaY3pmY$sRhq$4P6V3*T$#zE`#4
z^2GE+s;Vnd)it^Q=gz8hUHw!cPHd%WIubP<$(qh7E3T};g>Uku1Ef@hN_g(bU1#UL
zJQ9g&E{&LNo-@4XTK)dYhO2{D2Cw?A_~wq>J~iV@uI!sKzg~n(86iE8ZyxMOxI2>W
z&UuJ`Hr%W2PStLPbYnj9&cs_2-~G(H8~@XezuFP6-JGm_Zi-GCUOxEcgR{*yR$p74
zDDU{nK@wI}--7_?{Pg*I<u#WNOdpsLQ>(fYtGbh`Hq84ItG3*3O{{t%S>AJJ8|-AO
z%l@vcV!G+ImircCbv3$I+Y)biGP$BZUfvIp&g3CP!8DK$ISlxj9sZH)fg7i<oxa`t
z!!_Sqv*7B(XgXKTytv?Oh}#awn|A;B=(`Pn{#>Hza1xKs2GT-LT$-3E<ySK%o$Ya3
z`*OO*jD^7HnpOnzQP@ivHk_$mr!Z^~4@<%GxT;jos^PwKG7<=fU@{<+jc=iJX^y<V
zfVV`JL9g=KL~!x*|E0yaT%55#>D&~zZCc(b+S_*gEz%x(m~ve-oHQzy?~L$OJLdOv
z_tK?}XG0_7>`ootC$a|Q^zdn1{~H*QzJnTA$7KE!cR2DFgd~?xzAS0pj&k|B3D9wo
z01Fv^Xgc)D`RatT_x7{!;<n!3QGeGzQh&dz^jG@t%Q{H!9@@e6VgWiR{SPW*naJcf
zpR@zYYGjk9DkYXoUptxWsk7;om*}$TeET8Yqj%A^Jd*QleTbcAawT$P&1AfL59}Y7
z8bKhb>V7MufT{dvjl!RxIefP+pJaOXh@-GxbkcPHFDi{qHvt>PQAZiz*^fXzz@rcx
z>>LZF&T?cPgQI`)8)muty0RExR=zfLlAFtcY`|%FALNePJv~E1<A7Im_>QJuCRJe2
z1cN6=z92CypYX0o(VTE=DE^XIVt)3IC!(Tp2{lnBth|tfGk!9RKoqMOv<l;xaig-*
z4xenABYhTKk|N|Wgx`lywslUSnk%mzlA6Me5tna2gh4pYNyAo{7-$@7OF2CWr)SnZ
z8<=}G>D(B%ZCpMpL@2OXF{7L%Y_92JTGyxtGI2f&;F~)fzO^Y~m0_^N%+djnp+(9Y
z?Kc-et{wFxRwI`!0YAJgt;AcGR+bXVcMn6%s;nd2`a)K$7U^uBR+TGdX}>rOoU8pg
zQl6$gL3dH)I#{ia8nxkLwceDA?fHm%B;<X=`>U~+qI$0d4$zvSQ_7A~j8FNZ{{Od|
z7)KFZqpo>ebPn*VeR<`i{_w4bcmZ#TPHx<YS<@ZNYM{p^@<{nBZ6fahc`uW9ojj)C
zy@-%Pd1r0fA5o$|gU3uB<;#wj9nxZ@<~4*=d*j1Lq=ax1r7_YQ3evvo1Gidc4<}2z
z@0Rwx{mI*Blbdj+id3i1F0|}OmhGG@_^G{AzU6?^&Dh~J8z&DcL}1V7KbuyxrfmsV
z+nj0cnfZeYuE+0}fV7^pe^@M(R8V4OLEeyXHq7?j=)cyVYTlY?-g?)$m2x|$owL>j
zR~yN44_`W*ax^6zO|yIED(0=Jt|t;*PuwX_cJ-yY`V(FK3y!DgTo#J{r3p&Dc-?_y
z*+JZ0z8vDHc%T<O{wO?<+gLXn2mJig060Cke~?|t4gP2x;F)g2WB^(Q^8BVI2I?7j
z$7gy79bg&=nron+efI*N2*4X9LEyZGDLj5$Bs3btm$y78{oxm&s37B5SX@WI`uW<u
zou0msq?V@pR1b<{O;A2P0Hi{f5W(VGMjBKhYZ?D61$bZes{?9zbk7UUsIav|>3OH<
zW*7C;xToPUdSI85BRTbvanP{aKv#92!C>P=h49jr7Q)KVj>0SWj7-Z}N6~tpa_5J(
zIZj|ovrbIebvg3h{Gv;<nl=M%Oq_+FwW=6IGuu-4Twopw!yR$kj^ztWMP;zs`j<py
z`*I@<87XbXTL-$6<%XSE5qM<8&7&g$6?No9W4RDv4&($h_J}Dz1{(V~{rxC3mZPkt
z{mqBQq`$|Ia?G(-x4!;)xPxH~CgAx8DqTY*FVo|7@-*Bb--obtdq^toSaul#6`A);
zp{@(Q4YWu82C0ECaPGElX7BYqw<>0LCQG~SmiE&9NXd=3x|a~fGYiezlVv+N!jL5d
zGIA)IE=svn<j_m@Evb$B5*zouYe{bGUvNE@A6M+X@#M89Q_Wiv&0Fp|w<x&6vfyfE
zdcR8tb-2Rvj`J<&9doj4Z>sB1qU+FtgRT?MVTwb^vcqx5VZNaWJ19<7!Td2|fGNyS
zr2x=#r>Q+iB%2>k;M-TmZ<%=>TzsOI4<Rg-&zwf1YS!aY5riP7D5zIZotBt23i$$A
z*75WC_+?iJlMY<}-fNA1MWLSPb2zw(&VLG*E8)^Nl8^vdFpL0xO%|jO69NdWSGg6b
z(7p%Xh}f<^5p%+24eZk{o_63e`us~|{0t7jZ&xefY52#3)XdRMd-xX|aq1Sxk*xA$
zn>^3)p+Ini$vOFlb&mVbp7K$P*NeyT^++p@#X>a*+cVAvWeU~w(oZmaY>P2-J+CF>
z?hi!{jG{gC>B)e|1e+PVFFZafmzYJC$@EpmuIrfezp2#!L*75Z%NU}WLTV1{^)ezW
zQ=~OFFRi5|*+*L^iefJcAC?G?ihE@(Y1cmO&I*_U6_=(QbqPmZ+EF!YoiDhv4R>J_
zuf$y##YK|_E~q=r_Zu!FOIJ6|9=TF7d4Se*>D0DM7vi=$WT<JL?YUAiS37^?=Bh;X
zmdOKYr%Qgje4!JI#F((JBk)lq5f(A}z+J9`Zn=y#a_JOvV=c~L<MVHHno`~%F^i_r
zj#<ETo1#0^MUG`OsxG}pTHk!Fn6szZ#iaf?h#iuzZ^S9vW9TN6m`k6bP>eh?Kme1m
zEBDP9C}QcFk@}Ew8GIFxFfR$BTcdQ%NSLfZnMPW7r_2Xj;+v{kov2!!s@jyO+9bm}
ztQA;@q|0m5mG$YBtL_&I)teWE0{OxM7c(#8^R5Cgluz@>=6yQ?Y~Jyk?Q(%OMNGmO
zxtoUQivGYUMZm%7U3>$L6T%?f2w~Bk*{6Kj7dc9WG$#4JH9<KD?JJ^Ke&gt?&P&b(
zTMf8}T%X@i`?L#{e$-liSl<Q&$%e+slqYLwcI)X|Ij8d47U10(YCN&sB$QLn){#^s
znddt)G#zY82(;<tA<B?{{LRPI#`ML*9EyD%zYhG8?edV0CE4jT)n+bY4k~2=FwBvh
zgCBt_<O(cmlTM3e4ZnyFzXh0)GN*1{rUbNrFcDq~Gh1VtW%W!c&*RH`rc{1UBPV~8
z;GTQMYunx!xcc0c=Ta-zCh*_gIcZB*ti0@-_RStmR;*4{tV>j^)1MwqR_sYt97t5q
zH%*HE1s31)ywAT!eJ;U5%wBvFz95}n`px@1p{+k+wsmJalg^g7t%ZXGT5pO|*WWN=
z^y^Pk=SnqLOZq%=US);iR2ELsLGcaw6r)c}V>aa(r=W>q!6lNi{ho<%A!$PV=g^%2
z2uJB+epN=wm}th7g3y@ooWQ3V*~gDa`~v&*(AdL>6*Un)*+?Ii?&SCJN_oy!f`q}R
zXU9DB5hj&xA)<%eM36p5KrQLuOfR#b<*^eQpURRd)hUesLn@SI1t=H&M%Vn>cPCl3
z@MHmj{8?PBPvFnl*PnDBGn6mfgvePv<S@WKf_apSl8IPj1HoISc9LU6BbQM%VnSrj
z8l;vo&eAs#ov}^$M*ZQ_xJb>6M`|HI&S_!a?9F={5PKV=wMcjoOhY9opQ%qmy_>FX
zxaz#(OjdhAp;T4R^vo7sc@oI&(tgl0H7jNgTq&L_#q;ETz|W~*!dX8HMqE3eOU+Q6
z%75QS%#x+6a;i)Wnq%qeM7$;)iEh$JbVYc~tQ-uwn|0K(msvUF63^zkO@gTua`NM<
z#Yiqu?@}(*Yy7zv8|XPqJjiR<7AP0}Ws9NsS3j8;>NqWDeA)651yRSDoCaSNWs8Z)
zne?B6h9HNPP4XouH^w9MNobZuU1xfc61y^3FG}JKBPr1FY*`Zj`X(19sf8^OD)HW;
zI*-!Itb&+4Nq4tmwBeaC7&wGZjo~|x*w|dG<iXc5nf#WSaM<{UID_TH*#>4$!7L;g
zMPpNVV#aeXmqwAeW9debDhX!i`=+B(+!XDU)5wgS;-H-}@XD?<E*C6oPLwsz4kXLG
zlY8j4;U>Dd&$*c{>cMTp>)vjj4}aI2aO?m#LAMQW#uid;8?H^*YG?M$R?L~+EWTNc
z`-a<hq}qED?L7;&-8x*R-%iA-(pFjA5AUN0sYlnBNpvfiLR8UkEZ0lXxN!=a+CWf7
zxjjN2q5PPhPvala01_O749~GtC-v$}mtL9)&+eVukaVt#+tzUmi1ezXFzYvwIn-}E
z;VOigwy$<T{dx>TOMH9r9dT2oQC1_l-sXVaN>5hv5Bs2}#1i}owVkR4$p|6E_|(};
znt>>WOLY`x?d(J#FY&JLnVeOj!1!0sq#q)B8Erw4dC77*Q1(4)ChZ4K*)lOc(Y0}#
zXZes)Gg(tVE}x+h9k_a2CLHBv|2t~-Zg~1}W}SIxyZ@BhO$!X|20P)n<Ve|S5;k1j
z{hr)%ueHCwkAHW!-)rp0pLCw;qLJjJtD(<p;tBe^{WP^>xU0hF%M|%YiZPC>Pkb4N
z&j(6&M1E7?^NFD$e3^je3iqSnv|n&&G=OXFMQH;?(V@LF0el^s8)<E&x|+$`NglB>
zoQbmHNFU_<(msl5Bkx)Am{^c8tBhPcPH_S9hRGWxPa=<jvI`V?g}gr`Z<@R}$h$^f
z6M5IkV}it66uL>?x5@h}^4=uxZ^@e{kF3R{1@iugJZ5?G9SVJyytm0?`u#-;Js|HN
z$s=haXQqiS=KPhNLX6lY;#P8#M=(OFhKH|uk_r%mOP|M8LlO_+CEGvjB@ZErjtTJe
zYDnTCni80u`5+y_vC{DXf55Z_wI`$@7St!zQXAMtSwSJPE#PKtv;){#&pHIc#H+q6
zd}y><Z1*c6V#Mt<IHd>Bopuxh$}T#08!Qd?_ZtOk*@s56Wy_)oq5Bj9n6j39Xf#@y
zD6Zr_g&+#zam{L6^8=g7QvRSw@$MJNN$S)jb(GEi2gg2ljEY++SAh`4mpwq+D&;tY
z?z<3&lO~Hoxf+eo{SGC1S!y)WU}=$SL+F9kVyS#kVut51;jzeI+48_@v^;NkVB>y)
zWsl)O8B#5lw4msI1Iqr;=u+!L=zcS6n#1yhL2erh)>$p<7hM+1wg)A4^m>KS(oKb~
zd0;bGRzI*BEKeC0t@{nA`Y5`(f!=K-PYGEOLiUXhN(wBi9+a)Ncpp4(Fj_WKn!T)j
z+<%IN$v0azJ#aWtS7U)?=Yz5`OZj5E8-uvofl5}fQOCr{lVGs4KCqUdIqeSQs4K8^
z-7goMWf%8hsxR(OJ1gOplq!!}NPAIMaq$q&rd&MC(mgO6Evw{7$2w8RxB+<FTJ#5>
z`rM~z>{)y%3-NVGOVI1dl*=C;>(st?9>P^j`X_Ed+K=>^YJKX^Sf_FnIxG>K&Xi@n
zmSCl7rWdtYFE}meBb9fUpKm6a9iy8v?yR&hYa5YB5|Am;-i)0Lp5lj>wL0k@Jcdyv
zBB9X-9?{7@S4v`vj8lo?*WpO~qu&4>R5@w3_@@tPXc*MM)r&X?O`ViHEDm6l9k~7;
zrCqwGad9h$;=3fe7Y+Y~@Hu$*O$LMES1!TOyl52+#Xl1|ekSbrFT#<8aO7vgnx6@)
zekOQ-Cba!bSo?PZ-InYqxoG=)+fb3A;X{G^`~4L{arvuHU3%()U^Mg@F82P^UKYps
k(T(rfyMAhO#$By*=9{PHPu-3rJA2==?fuX~$=D?SKiEJn9RL6T

diff --git a/crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/beaver.cpython-312.pyc
deleted file mode 100644
index 6e9d26da6db9e344bbe4b32a5933595f60a35b4c..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10998
zcmd5iTW}OdlHJoiFU?Cc0wDo1Ed+w$A+12>Wq~aLlEAlMUb`5Kht_mUYB3K{(-M+A
za~@bWm^pKY2>U{EcrSLi-3X+B4a;#KmSaEGyK%AMjs3V8#y;u#><C|+e|%pU?Vj)a
zadDZ|(=$RE*jH@a6)3y9Dl021yD}>?Ykuu=RWMNQ`~GL(Cu<qz-|@vLe4(=N7E~q}
ziILb4b54J<VbeK|)$9B@9{NlnbJ%juLfg2IHEcU)V;K|E#Yp^hMl#<s>D12ICChc@
zT!mx>=#Xpxosu1(OR50qmK*>*k`rL1<O1lG+yH%&2Vj*{32=qv1-NpQ_4~d=qR0HK
z<_JcIB5L3Y5eH-N$_0D-g8GCyWD73~>!C8i$jmubV$PW)_8cdffEq7x0L{qjIm@Wo
zZ_zwQ`XW&xAC3g0k`n2Qjcqv?ji~a7Dtudvh<!2<)Tp3P96^;Mu_zH_12<S$ES(g^
z$id%2gial2<4k~dAc(Vvm|LcxsgDVoF4Qng!W1_REFN9J956mcaU{dsHr-s!!#Ehj
z1aJmgMxlkJtyh?7_L!g7JRv2f2BN(Ioz0kLrHsl%Gsl8rNY*?>#sfhy*f0AzjgQHp
zUSbD|nx!xdXAlJ8o2|`ic(8e-nY6Sv2g&FlbT@|wgUy3P2`j2HEXSIAWN}y~O@pJF
zEf7#5iW&%v)hv-`lhNY?y0I+)lFa<NrWF6NZSDNQlmEQ#)NFOea@T#wJtws0h1Lh_
zPNn!yY-|4;DlwGC&AJ_Y(D<(KPK8Vb-3>1jOq?0O)+OZ-bD;{v%t~yWEhp$eQTR7k
z^2{jXHy!&DC-HMs8U)ovvjnK%{3hapSK<Z`!*PN@JlJm!1Z3DN1eRU9eA$JrY8=%7
z0M=c-daim)u6oNOhP5}QI_EcROm*HmmOl20v;Hd%nic?!2`=6PxKO&-F{n&1YEcld
z?BWt|lwR%?`eFGn<tu=Z;1g!RT}-op8|Q1G7B>%A3Jr@Mfg=9RjVK;sgHFF$v&)g8
zuuMc)G;SK=M1Zm)AZ^BPp@PzE@<=eCjt<Iz54B-2G$d;-+DOEp+#?1rX{@5l6DNo5
z21S=C>?C>QNjpjJSq(#Cy8$GbPixm_TIU*e=NfkBYxkg7+tNo;?Wy7U4V&jS?8$A|
zGwaQ5c<wPNw~>`F_L$#_yEY<*<v>8I2n51WX()tsXCQESNDLKvtbu?O4F&?F5(beK
z2*7|c(+s6Tc_z393UF7%kotAzU-;HXyvcl;ePlD48y5iR^HRJZeo~`Yp@IV!G&958
zU~X_X_z5NrR(Ke8+fn8k?qCCV(Gv{FqBo;@3FJaHszv&esr=}77>O%S;T`7hcw-w~
zW7XnDD7Q@pa1$&k_X_U`vk5mBZjL1dI6{3|QjBrH)l+)YOdpr#{+|7bMdHh^Okvaf
zkJ-OrUjZ2;ED3AECYdD*o>U1t%cy9EXeqlM{Ju-dI7?32;e`7?UrR;8k#NTC1FM!W
z2(Oa0ye#h9jPp3*in|6--<K3a>Irw;9k-0Z4vbff!8aRNvjh=d4cvjc<$ZC>)4rOq
zpAw$9HSYLb^b?gSF2$#qUJg74Tfz&R*(hgD9GURNeIx9^Gs}5^Z{&?vl<SFC8gdu|
z=><&z)Hhn5O3M>>l%w`!T9gCN<Fg^ZPm^ZCr`8+X46HY5rDxnHRiIWIG9->g+U+n}
zK~pyxW8xN&G8;Gb74`U8hGk&qY%(xPPr$RFRO6<&6`y@3gCadVsuC+CC;l_m40LQy
zlD_IU=&FKIOEbpE*Q?^za?<QG>H4fNy55d~_CNN8{>b@YN0!+mudn#s^O=~ZuOwa-
zFH0q1i`z~y4NMCYW3Pa7_A*GFWp2Jb!oAE~Vf`*qgwy#Yne;|UI3{#Z=SdhOQ8gNj
zh6HF8L`kBqRcKU*$w4Bk+hhGAk)?v?852eXF(L`06%}}3wloRHdsI=02tyGCiNY`f
z{n4<1!_b=*&Wjheo$t9ohn){z5cWfhutn&(Kq>5K652~s_A8PsoF6G5k6sY2C~ChT
z4g!nd^ud{rY$;>F4p7x87U=8*P6p+Ou=%_^7*j&g2%QKhZAVl;#oc^fl0zyC1Qvic
z^z>ZtQ!ZMYgp;y5L?XiZG1?7$ZWT5cNCCHqi7hzo7J-tX?<EYqjZ!;+r?JL`heDbq
z7>x|KNcwXJJj0@j?UmRbP(fC)!Dvhdj3q5Qq%q%!5JD$ch(=(>VI?RFV_u<WNEJpG
zHE9;TkKnN~&1%){1Y{PLRV8?ee!0^$Wbm^E1cEB^Sl9p-mqFiYVIP3M<tE^yDLHv+
z(Zx&ih91Qsn1DTO!ZQ$bhQqV&RKY<rY1Tej6;%~{el<#h{ou0kA-Px8%tYzyS2bQF
zeKE~)=?Z<CqJuG<Ul5YXWWoJ{&m9^KL<h$j0s-B>4;WjtsVx+RKq7Xa$v`>+gQ;)(
zU*OzUZG3C@51!4e&sS~CNK=QiRR?DdJ*YZ3+nK96m~|f1{Uuz`SVLj&pC-y+2t*7)
zgwm@7MO6V|_linLmg<lBS5jeV72iSk@h~A#qFD=p2z=hbptb_m8j$2(aVVrBlf$ro
ziB{7mN2rGyFtiE2G|mIT4s2en0yLxWiO5#qhM<R|dBh;bGyzb%A?P2~_?J$eI;B~N
zJS>YL&5ctHhCtUKx*Ab6E0ICPz`?Z^qAk*lR5&p*N*z4SsSgbFh-$E(G(jh<rxkJ7
z5se)sJD^H-;=8TLIV);xkH!WmTN>M|v3(lbud%A;d~9-#^hY74Q~JUpc@{~y^aaKO
z5Y&NdZ7t}9W~ORE9ny<}a1s6<FZw6<F8k2r3{YJMf3aV}_xdKuJgj7#?uU%kXZeb;
zIxSE$BY;{ZW3%5FxjHi5GO_3Oo(I-7pSo+ZYqn2`@AgmkPo2x|?*7R8Pc^@)`KTgW
zdn)ffowc3*!c%?gwe)Lqp5~mVIqzvncF((;Q~h)9=A65E-e$jLNn75qjn_{!-fnzz
z^JK?E&g8Mo@7VQ-J~wT?J91}4Z`=36SJ-y7E7_jBoT~q=jWO^1!dh|T%GE1#)@Sn8
zXC9h3yYr!qscIeHJm=e)^X;5>x^8u*JKyLY7bkje_rBSmF#)ZriuqmpfId98ZhLpn
z^d7zKz#*VtRgt!)*i=hOd|1J_8s?mva?VXt{LG2>&%Spy>)e!g9!RnCt7;}jZjZb<
zmU4dXSu-i-JnJ&`IZwl!duPtQGw*(O&b>e9-ajk;toMW7pZ4e7T`6wf>l;6Dd*xhZ
zW3I9>U%5GD{!gB@A7UR`nA(k*%ek7(Q!TlgZ7J8hZRMP;?t!iDPR&&PyZ&ka%$a=s
zb2-~{pV;aa_ccsies^?wG+)0rXWOgyy<L-O$PDFcx94ozfl$rHxti8oO>4epSIYH;
zqw?0?^xp9c88NqV)5ng@pZeBj>pJp2)Yjivn2OrT`pFX+Hq$b>Hg9kIieb&)X6I|0
z=W5$>wQaNFhxH%GAD;Ng`|~riujXt2BJECD$5(#MAr^?-Y`Jmd+L5fc;jL9aSeY^9
zy$zYJsT1$MJpFRk+daGDfw%j^>YTSb$9I4K$UJXehTMMl$ekloLs@U<jQYUaIXj&5
zcINm_ik!8txw-1Cm6N8tea&Q7=1kV!Hg)=ey=~?@IeS}<Z%ej+?r<i%zxGmIDBs`2
zFjW0$TiuKG+^_4+FK)3ev%(lNEnsZ7ILwCp0odDng?Q=|<_Smx;7qerNv2KYFuajY
z0E<%t6o&#4d%OT3SaqzOJd<h9T+TcES>8_#;vdgNBhLF>1ZQyyG^~Xfn$Ru;GWL`v
zKbyHcRiAfk%ktaGPwoKx1@xMhi=dZNz)92(8x+C@z@pPnb0rZ_ixxv+fuYf3V~U4B
zfxiVzhUkKzyyP6ariKAz`CWf9LmPp#E|2q2dz=Z{haikduOPrEeVOq8fc2v<{iNw=
zAA-y9w}9~)U30dsdB!`_o^!k~TMZz~zwjq>vH2-n&^`o1h=jRFeY!%52;LdS0)KSh
zH$p3XblQlZTykl^T<k7ZjF>QiSqf{hxmbbJlfC#-tQe!97h;a3<vwfpIy43`B{;R1
z5ddv8m0}bc*FX!6D2p*&iJmb}f|pGA&!7uY42Ss-j4EH}5n_5R&c}=OGJgE(f*;R|
zbs(&R(eU7q3eJn#FAFh97!g^B_6iqAF8)5AJmUQUPCO~N+hhmzj|q6e<f$I~lRfvs
zxTksSWSL(+hE6+9zE#)(bC>+?^T65G()$)+2lc_pHW25rFVQCXZ3Kc>hU`JG7l3Bb
zrA3~@7W9Yp{MqwR^P6>B(uH^|(M)6qIR*8Cms&I`K^%o(6g#g2NHV{vWGYuJbu64K
zZXHh_pKSkO=i8m{bi?^`cKU4Uc;30|>S6F1$QSk+JmV&-^L7Exw}$zu72}t0KReNM
zyD9HmpR(d{*6_K*HO`K=-!@NLZ+mi%b(u|5UAgr;bB>)^e&^R_z<7vb^&{rzt5<Yb
zxnEe#9hKI{($+;)TMJ_O|Ep?o?rDjf1g{p=43rmhqDu;-@5;26R5s2BFqce=ih&O;
zPf%;<OPH6cu8O9cmH|9YmJ~zf%O$&BH<#m0;taEpuz(5RXp+eatHV6=k|J@Jz@oyP
zP)Q1wdj*3Eqpgq{DYJS=vFJ&S;>zRJG6p7GG%)`GBwr%RupV;<7n>T$zxTkU6qp*k
z1QQ9|he<Kr<Ur0q6+{~Q%Q4-$oQ?`oRER~l30Gtx5>;g|SE9O)Dk*4_a2~9eDh41@
z-;ah2s$-zf=X+=)=r%;@db3_HH0!j#+b@I7EA%TD1Vy)n^lq-e&@jYWVoyjGl;Vsq
zC#9|o6h}x(Z!eIFsEQb(tJ2qF42}s3O&|;`rh%Lw31e0oo6&2#()`N_PzuLD4Euyr
zN+bx}8w=epd`nMvKs44P_9!8U0fiP=e|#h^Gz%x_g6I{&P)s<1;-s{KVnhgwmr$&-
zAjV=t;XxY2qLj-J?}s29Gd{))O_YdkEeW-j?xoh!hU*ECNMFfbYUUuMSY(0+H|aot
zwngJ%pM*6IB2~@OCjvu6;~~Xy2`unoL_(uVB*e59zNuy{d}xgwGa8GPkr?h)+$31^
zP|-|<O9*tN;V(7^04(q7GM3j{JLg@W^RCad+}(9&*N^thw7=i|UU$~JKJVRs^(YwM
zEA#G^x5DZ08_{Ifr`7d<xA)Foh#Qq@CA)r4zIt!6>-zDf2HFSl+c=v(oMO>3`@V4d
zZuO`8-x!#4ugkgDW!Ss+JNBuTynB1H3&>Aep)uJ70Tl$P!&isLz1Lp*)K@pzm-jWM
ztn)U{Eze(hCU@s->;Kv_@9-s$eO(1a(U|*mWB!Xu%OMl@k0$dW$K&w=4+}@}FZ>d~
zVrMyC%+um^?eFVF#o?ave$hLDYu<uM!Mv=*p?{(leJiP$)s3@buxGG0!NnOcJ-CCG
z6foyyS_@h5(ku)_Hs-OTFB!>5xbv12%%_0n3FUKI)Ya)31%m_Gw3sSJR6&8uP`oj}
zIC>HCPh=<(ggbf{HBpd^#2YsGOO#v)SS}Wx@$+;?K}rKtW*QGO2Q&_dK?mKroq()W
zP(`5k|5`;bN{9>@8<-ghmUgI(PK)=GacI8_f3ed5lFS$0>ha5O)+CS4yFIu1(tWo=
z>Cj}$R97mLcef_nuXjPr>RUT0-hSrCJ2OK++Bf69^L);`6YwE8?Yh>L8k_U1gRnlw
zuls)2JcgI$op-t`T0ye#O9~c#Ey0A@1muGMgnKj&zM%uwu%y85Dtg7GF5~zEZ~SS!
z%m7|yFDdsqBhICFXK-;0N1AB><Hschj%$7l0&2KDFypgyyeF)2t3)rBAscR$SiEvd
z*yCon!2y}T@oL8>9cx=uw_pqILGcW9Q>*yYM0t-A5y_u7N#3|9Nq+YDN#W0s9e?$S
z*>UJ8lO2b=_^YM7c%z;dhZf9>HyU~I$1oP<#c2i_^wHNrWw$szO%EXb{IP2mUAE*e
z;ma*OjH-*dRUN62SuGt+<PePVSCrINCqs{(ZX|dF!BGG-O9|QA5OwegDrpR3K~!bE
z=tmCMe(Vsr1|9!^7!v@J%x`^+d26{eV)dMRd(Ms7$KL7Qd;PQQ&nzEUernTGkXiTk
zy!)h)EQCYBQ(r*8Jkv5gG$YQ|zb8*c^6vfg@E8}<15j~Rjkl+dCJ%oO2ah%V;$(Zq
z{PvNYqj74}%;D+goMYeYiJap=mOrpOxJD~S&A~-#4oYeLawgeO+@}TE5_<`ZIavc9
zF&E;(e1gTFUg0l|%7xJqFY))yhDx7eR8TR!lvDn4YHsjEf2~yX)eS13&dfm37caFM
zqoB8pe}3O$c-u6%=MubOOv-ue1}*pv3;ci!l5u7ltiwjZC%nP5aQJaxI;`SrAm)Q`
zvm+BV2FFqi&YY0Ey+=`n<y&4D>A>SE3g;WOHn`==pL0#Z>3(o+;lBh<m(Vl1Pj`Re
z_N}XM)9{3m5Hh#xfqR+x_mhtO)Z;8pj|XWu3^yPxlxO;@8G-07B3#sU<7o_B)6kxD
zP?tE0mu}GZsz5p@9SG}>^cpST(|>CldZrNpt`h0}8Zfj?h@x+JMTyBqGy1v6YmpV*
zMK;zAE<owdL>Pg4N{BuT`3fN4f*acdAA?#MvIT4Cclb@3eGpD+B?d>e#>GgG+8V!$
zD2OruK)+kL5+xxifEP5R4STjC=s>U}dtmL@(f+tQOlao7qM1fI^kHaiAa&3Ve;p(W
zFER9w@e3P%tQ(2w`y&ASlQ*FMSBUr)0B~qmFg7RNYJ6{O&MM@rLf*PQbK-%u@iW`5
zfAeh2^xPe|Gceo!Vavy!!&%$mGM31-a?VwkbJb1u{IKuszIT)v)BE=K>{(Y`-nH*)
zXR;$@`rPhF^`uwL*=lmOn!IgwvV9&}E|0fh{vkb@v)4|x=j?UKj(LYGd4w7le>D|`
zwxVzg)`a^7u72U-4DQC9i{EtdHp6PPs>RsRNYjw2glOoXxl28fUZsy-gz34MGcb^5
zuk}>&27KL!U=sp}fc5MPb=#<;MJ+THBdNz;Gz-*ze`9OYe^_;Zj6)k}C=<g}<U@{S
z*@a4m^?b%O{43-9jM@4b^UT*47u)s~1K^SHJnMRN$i%W+9@$uSJA&Os&<?+<Vp)VP
bw)K&)hOK(kW(WM5D)#w>Z7WzeW#E4Sabkp#

diff --git a/crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/binary.cpython-312.pyc
deleted file mode 100644
index 762b9d453f1b31c2478828ba854482d39f71e9c0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 23743
zcmeHvdvIIVncuy55d=Vj@3*8&@gYK@sQ1Hq*rBP1Ez7iJ$}h$a1mRv%kU)UC03{KD
zVmjm5CH;uVb#_QMN=<vxn5x~i+Im{0n>5<(?q=GZ=>P^d#A4)GrOiwyGyOvrown;g
z+Wx+CpCqm%Z#LQ4&h!rX;oN)P-}%1peCIpgIe%GJ=Hc*sRQ12l{;ZGV{wuv`PpKMM
z{sMtnPUJ*B%8l@YHeLza2krP~i#kS}gHHC%9(9eB43@C4BkCS09V}&GXVf#|9rTX)
z27T<^6)hVnA1r6#lBj>AVz2^Xw^$mj9H|<t8mS(v#=B>*#>O4xMDJ^y==;#7v}Uk&
zm=nw1=LhQ~=h+^usmAXi?&VgF8*Gpoq`C`SqSVGojZ&@DpyikOH!Jb2iN4{tS#lb2
zAKI02c<#+M2RF_K%6~;4`U8BSM3#ofq9GZ<=3yx&$)ThaJa;;h49cOH7#|5HrC1_P
z(WQ}u_F^lPCgXDWOfVcu7Q9L@kqm{;Az69fvxj<*$791MwTzWVB9|ob>3AfTJRA$h
zMM?e@kJ<yag6p&tx**Agl5j*0k42Kd`agKWN?R4^P+yikK+`NIaf7_b4cbJ0&|b=k
zyG8qJ{GdZ}ijLQ~57nfDF1+s%ov-owmlAxjiLR@>Sn`@p|LVq9H@=r%wTT|n_fpA2
zL!+nj;@xL@_lae%af4-IIbgZy2lOLFg(*b^-YZS-l~U!|c5}CsuvleIBUYoNYOw~e
zMyv&_73%=&#CpJbu>r6_Yy@l+n*f`{X252#1+Yb21Gq+93%FKX2e?iY00prXuvJ_S
zxL#}nY!ll7+r<vR4zUxkQ``W!LF@wT5(9t%aU<YHaTDMs;HcZw%5HJ5xEVO#EcPI_
zN8AFq1!?w*TTS@hiuY|uwGF@9@w;8zfpj~>oq#*VU4Xl!_QBm!$KW2Rb8xS;VelcT
zYjB?w7~C&y96TVk4jz=+1|OD$!AGR^gI|+&5B5q;gO5rrgMHH4!9(M=z(a+qM<cP2
zJU(zHBuk<~YoUigR~`Wm=u93TO-iDmkgpIweO3x5h2)t~QW#4}3E?!$EhLaV5*rqh
zabZ-FhvM>x5RQ+GjwM6MNIaJ4@v!2Qs#s!VMTKf2lz)0$NQ_1!$t0B`g~Dfq3!&(k
zB*ceMnIuGFC`)YwD+){y7h*y}8VwPv2@01fnG#C-F2!ZEXIMgh3KW&2B<^O#T|^oQ
z<wYnj0%IemkqMQf_+$i)9hIeo6icEZEWxN8PsYRXsL*vWE=R>+B9f8<J*=qyu**cE
z#CRk%mj4T5ytE^!N1p5AIGG>kld4qVIK*m<%IWfGW7;9w&b@@R9f&W{vY&NpA>&tL
zwX<I1n-<dI&Y>NNl4G1`*S>t4PjhE|S~}x5?O-k3l;$TWy~9YK^lPcoyy(<hT9@X}
zR%kKCuTl=H(`A&AwkNzOxioEKrI(muoD)rH{?&#RwYc?Ke5j?$C|wI(b|!1JuxR_J
z^h1)3c+y<ZtAr5dUp<Jv)@kp?@7YEptcB9NR>ox>bvA3?jo-BMBhQL7Ym7K8r1k5v
zEp3<EzvB3<({dZXX<OQ%;o!0@DQGcg+q97Ji?q}-bw;!jnZSyU!~2eYU7EYZTb975
zfU~g8C}$kB9Poz5LC%a3NPzUo61Y=gDv}X~BpH(9BPNzSr3jc)V6^y!h^R;eV!m<V
zR6-7)QY8qLc@hj7XH2azXE+2&Fe-&3L*qh7(2D~9pCZOQMcgk+Nl6}w#3WWJebyVP
z%9xey(<EJ72(v!)2#*u%LqLQ>38`BMMWecK7#T|>_0qJ4kQ_;bMkJw2=~_UbN|}U|
zr3)lWC<W`{hJ+>)8CEVp9zzW3B|_#<)^6eAnFs`9R0@f}Xj~YJiP8{y1nDWA30;W9
zWfPWqqv&r8;`f3S9q-obB3Z`JB_)MZr{#D^M0b)*elawiIw_AS2t$bsS9&wpI4BJk
z^qj2Va9oyYTA)_;u<_AG=HeM(9)dca6wbxs7b&$~o;sy4teloGXP^@?k+n`G0s-SH
zjf{c@)U=_5G80fG7>P(iFKl=W^FS;q5rJV2lH=l7n5Gw{VH$pf)0jnM>HJs(;+#qk
ziDHCis8Ccd3G>#-SS$jS4BrJg4lJ9{dQu%T4UeH{B92)|8O&3dCBl&e@|{BAqHs!-
zE=0mWCpt%6kI2e6V`9;(BO*|G2MQZ9vY>loF@=^QlGrUoF!z8=sHV6^;yr5l%EUvw
z(JvFzr#keELLxpU0}~1>iE(tB21B|ONhDLPY9!IG#&}>LF_a9cZ7SHoe5qY(IxvbU
zPGH$aLP^l1kw8*Z2H+sIoh8uuf$6aVFrg4L1<)Ivk{AsZTuPU&K>^m08H5_0xW>yQ
zu>#cv_rT%)laKcwK3?zu*D)x}v9MIILnA0SXz&Vl%=v|KfS@rs7aSmubA^&Kp+qQ|
zl;uj4#R`;Z6;midvq_^axRgM_mW&r1)X+ki(L%@snWnyi<LPGx2MSImF#;|ml%hig
zmokhpmKR*1+{i_x81*GcJD{NwgfBO3Nsf$exwJ*zwsVW3XvMaSjE1+2%8?O}<pn9R
zMbWQ%M#l^8U@#KHdLo!=E>_ukv`Cr_5@#^?O>lR*IiLT#U9Ufq_f>u2=E~})6Ic5d
zeZu^}Lht)8TyOia<EQQ)x&PR+wD&}I?}^;rfls#&+_BqAcii@FUv}a*?;E)7^<Q~t
z>Y+LNr{3m#bz`QwBjY=k*>EfeSlw~UUpIYWZfw!tal58z_Snp^`L<7MI#5RC6a4M!
zV<-fHd`-tM{A+Gk)MYBx&x@JP-H0zc#NYP!As&Hz#qK+9&Q~@0@Z3;l?bc78zwzA7
z7Z!K*=WCm1U!Hk+^2ir1t|4%PU##CZ>3GwZ_f}@SYx1>?voFoOv{c)bt?gQ<%hhh3
zJVF^>oOyA6X!^xm?Pk1JH_q;#+5h&z$wQyJIA7DP>iXHeGkf3Ow^Y3;TfJ%F(Dk-l
z_3p_-D8H_2skS>?+r4n|MrWqBJ6GGgRC_dAdlVIV@@5qHDy|%R{n%V*)+c=D*d06P
zYgq=uxiA6kaUwuevfKbL%OzDsgjA6TRFEI=-{A+i0B@Rrv{^DF#H5Qt@#uDgeG?${
zVK(c8<YAIsqHyja3o=!h#7G#Lc2XV-V<BlsgaFS-7OO-Dr7pOXTnUmBf*?Z&<qCFG
zo2o0Ww+G*YNRX%jnBczfa2Ud!8UOZ$-C6(kjC;Gh5fNcsXT^(M{a^kg1k9aJs@e!_
z35H(fNZVhng#JM&TlJ*vAF7CpK|j3=<efF^)oN<lo7AijNMX*Ab_DfOlVw`rY5pUd
zmI^6!Z9471kl0iEj;c#{NWo%s2yAu^sWP0su$2mvt&mSlrc|S<fSci5CPh;g0172o
z^oPg9kW5;;+)jYnEw2R#IN66nsV?vgX;E-tq8f`P6Vw-y8S036srDd~KZ(@Z;->bP
z;)jqm@fZL`(8X1?f8<`Q+&1aTw{Og}@1Azfx@X*Tb&D0kjl+}9{MKFnw(MV(efL}Q
z(qeu0&0UkOH+{DnH{J*=HXcH_JnyfaEMucCleVqXJq;BN4<U3Jwi+@A@i6_s9CR7x
zprkPr`XGL!5AbDsnwzLI2J$R3IiV!egXM=x4wt!DhiO2$WVx11Q+Vat`<G=93dqVP
zI!X6Wa|ACt@a{6bJCii1>`8+Ru@o!0YWog<*|qAsQ~h3&cBM;FSWKnuL4z>uATD?4
z6guExV+dd(w5Jo&m>A!zu3!h$l{DtsK}n7aU1JL4%aP=n5h)o7tEyr^SyEGZOcxp&
zi-noS!sd7=C0J3bhA0vor=XH3t6Ip8upCb$*e6|2L+N_k7*VTB;L{T2J|jih5?#6!
z3MZrE!gi)lKnG&lp3IcDZe`i7C>m$tQPEJ&k{6)@vL!V#^a_{`p);xdgi<p^Iu^B;
zlvr)~uav{q@Jw++8F~Y?j%cfUL)tO*2i7x>+V!}ckhfy^3ij~mSiu1fyHIe%q)W+w
zjm`drQaxe71N#}XcEse}$YQW?!O2W>in>tGN`su0N$fGs1-p}K!X|ztYbPbL4R6K&
zwnABW3|eRmN;WNk3LdInWnGd6G=lUnQ7pINORC<2p-JP2BQh}sFv0!0hAZ9h%gQ#5
znZ1>h58tY7qDgVSBUjrsb>voA{haFu_QkSx?R#ggHh^i7zGutU%>!(hw5@u*)v)9G
z$(x;-lh1wH@cd-it=g^E+izURoEZ4D_T;1|U*A5T%GN`AU?SE<!LPoCCeZ{#dKyE8
zE*D7X6Yn#*a20_EP6>8HR)806#EVH?W>^_LlDf1Qvgs1QspZ8|*%1CVa4-+KV@IKQ
zz@x?lKs@S59nopb#GqIWFpHMTp;*+7MxjSv1kVT|VHkRvvOqJDA<>*di?HzmEm0{p
zoIJyDvtn`}YLX8C6dVJjY&w%;DBDC@4!Mt#81zM?l_1j7X@;q`q9xH#i+`Uo90Fhy
zxGw&0d26S|xotDUKX88FdC&9F;mo@2i{2gi>iRi;X3ylITlL$o@4UG)^Yn9z_0O*y
z@31O~Q6|SxnDDtww)R<?rt!P_Ijc|pMhw$|c03~`$7IE(c8YPCwx-c6f3(PzqqH6t
z46}KO8f19E%-ext6VwuwiwIq*Mhh-dRu_Lj$rYXEj*F|PxsskrFZtJJ{p&OC^@>jO
z+w0;{wTrZ{79xr{v$#`iaR&ro{fbrR(Wjs77LH(TsaiTNMiLSv)-kkO-bUaF>Vc`l
z^fA?B(P35Zn5FbZJ#NeT+cNI9;vN&rG8LB8hFQ+`cNo?*4<*+|N-k_n$gMnSjt%$L
zJ~ErA1AUS$2z!$8Q`BWrV2jbBby`3%*X(SZ<!*%K%>W6aJ6&=LcuCb-pdcA1!IM}I
zFu~of@0?D~rf1T#ugtu%;K<bPx$er=?_nzofAyrd7#AcW7%m18FpDpS6$`>XOWe8Y
zF|hKXN?E{;PGc%|wp(C_l*aqv$F69UL>XB9l7`uj;7ZIqjW3qsfzrQ6$u|N_aKEhY
z$aL<R7e9!;7hUSylkMDdqbAe&*v-0Z=VQ70$M1uq-xa-Vv%<*e*!>Wqa>*X_$O0Ag
z*>a@=_27quiFSsG+w~h1Dp{)EkgeaaP?M?Od%Z4OzxO^kAWC3@@CX8CI<XRdnpN0p
z<)g(7aM$?$fL*33P;LS!xXGqLc8ntaZ$Y%>5L0R@FhMg7hS*<y<<iupH&TkY%lX?g
z?)GAuC(2}fp=$3X)EP%NDbkIMRjcJR<T4Xjt7R3TIMrams7ycl7_kXb>0!XoWOK&d
zthCY0Z92Y5*rSar<P9v*wp8taluT%|2AR#+mQug`95P(9F=0}0vTx?qFjML7-M&w#
zeO|474QnPHZ~2N5NXTOdJd1#t7%Z2;Xu7q~2<jcSUjC-}Al1U2G+7nUX~mczgh<1V
zMqzUe$4AGR5*%<CIxSmyvhh(dA@4vbW;_&pY5_qiAhphVz^De6;762w0|1E3P)i%v
zyxa0l3tKswg1Y9oLX*&O_IoJhcZajH`nn9&sE@{S#rW)3Fz2+wT)`QR#<A7^b(CVp
zocs-Zu%sZC{w5_S1#yDAbstPEHEzl_Zpt-oUb*fL>m-2^bd-(a<z9SxRwof8QXlMR
zX+hJkHaGF$CQE|k41#1F*3lOqB}=%n9itlQReKZ`cB);QgcvbB@C8Z=Dn<{D|5(-)
z*gJ)!*4U%me}ULU8vy2Vx9^H)%CqEd$hsTmYTs>sr+Lxck*{x=y*zXI0erb0C6JB6
zT3`Jh+*ZC%D*}6es=Ao)yT0TDu&Ys@R!d?s)5_AQd`~m268V?Z3$mb0aQVvi`I8?E
zzBf33{5lWYnr>Fp)dM8c2YR(lQPhoT-zJgw@Kf*uk+FX!oQ`96I*!fw5VT5|++iaZ
zRNFl5kucqhZ3VII0Fr{(sQYqPUnpk&U||JgTTfKFg#8mmdcs=oduA+_jEqQ!Wf^-e
zt3*B_g>u{zDN5vjMn{(w(f`ZxrcCoQx$=RGd*D9O^#Rz}u2su6U{1ra1{PE7osnw-
zws%fP;BYXmtmB>@Po9Amx?LVZBjjNMt2^Nh24mROfbjzTu(G+C;y<MVh{cNMEn4%_
za4z>?fX!mg*l$i$n0x|w3!i{a>*+w`*^YfJ+q0#5Ry}EL&(@(ukmk9fE{_(YFQr@W
zU7FQ$T-_C3S%ba=7j5QUeNEncj~DHx@46iq-yPp~YN<fr&Q$lKktD5#gcqKA#vt!5
zDJqS?#Il(!l*mbAG#Uy^%4V2XrD@9XrAry^FZmv<!%1zGNimX%kYrM#6s9J9zfgK|
zd{m+5f+LBbrZVv3W^u*#WniYdCv8Vq<j+xJ;yeJRM{mvai8l{i-8UclsCuz^a~?X`
z_|*7Z@9W>nSJcdU{=hRAn(_ak=MK#6HIv>iO1bieIUWfY%X;$a21M(-8{XNF^|iir
zj44Tz-e23f>XsinZk+f@$)DBS6#u*_({eml^<>8PWHANO*f0tlWfTZnGK(5S(xXj@
zFrZLc_N1+7vG4vq4QZQ|IT!PbPH9@{s8gNWU=X&8Jn6mnYgyW6SomXoCNqyN66L+W
zS=)Z|cA&RJJF6apvzdz4_7!MYF&?>@Dxr`lm8+PFDviBGRgNoE%g8y2WY-+ZN;yGU
zNUxJG03>MK4XaT}FsP8NmDxaz`vqlt9RQPUW$kR!Ow-#?=E!suT5R03=<U8GbSw#b
zvcjGluAlmT<hvRA+3=qX=Y;-@Z%w|rd*MX3dCOAsu59zJT=SmEBX1qQRaQ5B{>_()
zvgL%wth2m%9CpSluS~r%cRuHD&A3~O$ypbuFZ|{LwVnw%7kawtfyl&+1UDCh308|t
zUC?S|BOkUF&sJ_(2HBpanQzrY_DZc(tL-l<cPmX?LW!f6R%=Cyyx|~a5F|vb&Gg+Y
zdhIJjufq_%z5RzCD0)+x)TP9742_WE00Hl6q1#STOx|J_9jjX}-V1i*Dmcj3Kqk#r
zCc!Do07a4)2F`m+UKaV^Dcd&zEF`ZcO{boMAibBkojP{qsi~)~9(niJJICge3ny|d
zTb5dOWm|SFwd~8b>|6Bh|Nk-==;i+3l)?8Q=KIKCCQwaM_cHn~Uj!%?vI>P-3t1NT
zKPX#~kp1O9E+I?ekLe7@5ulYO1S7UN;niq4M;ijha`mb2!804uCT%|a3Mw58!VK3m
z&0$&DfghQsxq^o#Gj+3^8mifa3z+BN83!R@Jp?QcThv^F%ECNX+c?)d^8)s|pq5>p
zx;%Fx=U=zv@5=hS7MgPYof-Ge;webS4lV21I^05|GH{aS*cLIvAj81=2V(&1%~w!(
zu@rO#gRFa2+Z{?2&RcK^vgDz6=oB_P=6c_FWxgis?^xio{y@eZP`YGpwB99>-S_H}
zt|XF!tl2PuJoM-b5*|*Z4&|E}iZ*q*pyy>)EPF~<k@}xHd9S&Kv8PN+3lIXCTuci5
zYLiUCLk?0{8<YRkn&K5b^Pf_py@V~=V_2c{!0qVD{;B<Qt>g&htGaUh_2YAoW_@el
zBK<^liCAHpq24lvp_Z*&<{36XZEk1I(fT<Ha>%yE7nrVsX(I-{Xk*3pW!rIS2>zF6
zB7o{z2)_C7on;I3Q*hHyCQ=<yB>{8GONP!#<N*n5jWi5jcQ^-)(GsfXn%%S{YA3Y5
z0I*`>El~=xW+^qU3TRy3gq&n_Zk+4*K{edOGVcD&hW;F&zavl9o7X+lV_A30Tf}YJ
z=8N7pWY($hYj}AO6<UfKeKA0cCQqUmh!93CByx-U=2F^kxqGNYHBirJaiXwOYAW>x
zb`NPUZT@i1zcJ(9SS%oZSJY5vNe%7KM262im>lG<LJl(d8x*6dM9FMT0%}|f5GB7s
z**5~L;Evz+xK5)2ZCqz88|+dVWjU@&)Ou>}cPyK$4_^<W&CF~i^vp^-lkV+(>?n*R
ze4YG6UlukAUmt&&nWQjhZKhoh>~5p=m`|bl!X>##$jg6-D9e2-q~3sbCrHgFPOH1}
z&8ctB?VPX7nYMP#9QF6;iadZyw07F0^To}arDj^~!Aj>h5!WcKgxly9aLru%JfAad
zxtm+5(+5$`z4+dkP(^Jjwe`y$Y9udHQ;Hf`u*D?H_QfQ!#;H5xH1l7ax;TCQjnrK4
z)VDJ3HN^z{TSH?Mo<wM>S-#4&Uv1gUXmT47=^XW~h^KygO@aw|b(8+-J)0!${0C^#
zumzUp@71K?<eq<sCRt$V{d+b^+PAVvMBv&(W(Rs-{$BuQ>5|s<<V3T{3THDc!iH;9
zQa3{k*)_ES-m$ctW{*+U3X7i2aG%n0C8}}Si#H4tM$Qyks;PYJ)L6Mzy77Cq(g<rI
z?9JM&%o|#bJcpx*_EZ!0Yt@|zbz^~4m<TqOFQo#{#u8(rqj8xIBdVtXVUra)$bC>2
zf<YJ$B1vf^80-&}uCg%{oI}w#PS`r4IP{=w<S~OnJK9%(RbS7lE+`64R;T<T;#Yc7
z{19L6Vfxn#If#KyoJK;$-tg?AxA|&nq2rUbPsV;MX14V$t~+$ArgMHQSF?HY@GVk}
z7F%~L`gh*pY^9#OZ_kh0Z;bu%rmXMqGJNqp8AQ0a(lTYEYi-uOc5ZB5`rzDq=l)7_
zzeaufL!?B;l;t}BD@ciZu-0kzR98LkNT#qy8>-@?gG$P?<R-J~(MaX8-SEdvbBDMq
zj<9VQ`oPN|A9&n4tW3c(wl^yrNORdSjJ3u4{J(JNZbf#(?3>0OT^NfuN_Ua`_qGnu
z@oBiY3N+TthfLk+3Sp}j{`0E4o`|ig7#-9B(NPYSq?l%W8hSCyu52F!25?>oJ7<z|
z-UUwf$q+Ueiq{Z{fJ@Pw{~7S0kl9NVBFr#TLBNUQG?+GNalssz6x%F~SAuM}WSdp}
zyPfP9xaBS=i#b9>Mv4ye>8@y+YrC3UBxjCCGo6p-0R8PCt-Q}a%}*U!tm*v1ZmaMR
zh3&cR-A#u(_TU9y;16CqePX6=sj@v=*`BNHgmt%meg12GKldHVY&?)DTeno!kt^%?
z)OQHSHX1znqfgvrzfV2;IsKAjAX&faCd>Zzu9GV}%(L??e^OrEyTiRg<I{!QH!#m*
zM&~EU@!w3l=nXwO)!1THNI`;e)g#(4^Q+nd3=lReCmK-~oud8RA>jLck;k^egVH)k
z#34r)a(HwfQsfh{A<;zU4xE|)3Z<ZRNDXiDua=gT?Myq;&J_AeM@3)VWo%ub3|+Vz
zs7TwbzFOIs4O|TCSi$Cr&f5=cqk=*H&G#{C0#fVSc}8oDQA0dY^r}aTAAob<gT~aV
zd_&h`BYxi+uuXWdR}|S{8EvEc9_)`p?BrPrevc1thVvy3&p;?Br|6g_`75HcfV)sK
z6veqQDTW&x;8K+sjVC0<-<#-~ad)8<=k*{dB)IXGr~$UngjgWcQo#<PQ{XQZobdma
zLj~I<xQAcbW;ze19>z(GjaaJs_&z{vzYYLPPjC6;e%dee&G_CfpX$AhVEIh>-1+&o
zTt(+(FSycQab;*~X!^t(k-65_NAfidlZW&8c46wmbm)!oxouOI=lM_lt@(z=xz=|a
z)6RSi_I0LDPamG<^OaRN-!&bY9hw=MJMng8e%nke1L^Q6BBpz1kIWpI+xGV3^OZCG
zbR>*LR8&nrGgC6zoA=jb{KBoKw)qnuJpbPF3)08uuAN)z>C5)?-R#Zv9LcmF%{4tX
z&40J#PW6f=zA<vA4ky;ASCzA+Go^2PSuZLoNg01*JmYS_fvd`@S?`Q@u6Hhxt7u!Q
z*p#i<w9uEU*h=+Q=m{0&*eqN~jIfE3c6!Yd<4OmL{#2k?unXa_5g?x(oQ#m~H`z%f
z5nd0~{qf}E#uvr;p&vD@P#X#^r2xydrxF#VfhBDUK0)QJne|WR%KKp~`Fr%E%c373
zJ4|Eb-(l*8d;`@MyGp_pol;v)K`bV|s>#Q5<xghZ7Te9b<o_e&Frz+gp_9lY^Jy|%
z^}ui6WXUmWDuxQI%?V6_wV8DeZBOib-1qf+OGtr*E@Ct3A|$P8`MBy)bdk$;D9*G*
zXOERSYqcA9wo1!k{9<0<CpwK?H>(Q?G<j)xF@YWDknA5hv~vvD<s(-j_T0BDt1Arb
zP|lUo)cHWysBF-voT)8Gp_F%>rc=I>7$Cn2vKU@UGCztqj#GzX<2d4dF_s92qL8KF
z3cHB2#p@oA!S)zgp{z5{FgpAmiV7!jV8j+5EtF_QmmAyMbn1-~$xM^db#-O;+bfb5
zAHhj(Ni4XZA(<^bHCk{y3jYq1udD~okJt~OSSpTwp?{St^8s1R*<#?QK$_eMP;ikQ
zMoP#x@v>SQ^C`^<vZh*kLYfoE#2Eh(#W3B>S2rD7?A*KPeJEeux>Vhjt?pVF$W(Xb
zs<&l)+h7{a`<kvE()BYOj4kW_=;ZaD+~(d)_oEpvosum*#B1tW&w-y;9+=-f-8tL+
zc6X-oz@!V{R$0|j+1hN`+NH7$IMlOL)}1Zu#?c;{B21@VS>1KlAHC^d^&igo4*$|P
z6WgAxZl8Z{Vc_~RH)}H0?YZhB8Q+n=z3b(w4k|jGr@F5SnmanCJ;bLZSeJ2Y6LGfo
zowG8FS=s-s_Ovm-^AlSP?zQ4bojWWv5y%gVWog<5`JuKQ{G$7S-nVqCrL1-7&<Rn#
zs;iPkKGi{d^FVHaq3R~Eh9&C({K)@-z@HKLa{^>!W}e^jUr?x>z|R1*jW0&MH}PS`
zbR+*MzF5vR3YC7F=<^iPV1fE~Ae@?yo31t8urbovpYiQqO*+hn@p|<QC=MW=0~z0e
zViT24FnLseFSDLDxY#_xfXSN;%ZC*SVYq36S@qn{$yb{Upo(%<!*8j6a#l*M`82Un
zDl8c_ha`5CP`UU-kvTm~pOpVSS_*yA9aFby6rtv1*IXzg+=>*;N0u%_V7C&`fWq$D
zK@l|OW@Djp(E%eg9E!SxOC5?Q{vJ9vU?h2+2;ex%VJ`OYfjBsI@Qp|2PJHTJd#k#E
z&dkpx-%Y)fdiRxgUdgT7sz@p_it5Lt=68Ou|GoX!cg*k4we89I_h#ICmBCgy0A+KW
z1OH4qkm+m1ysyvX@&W7{n)9%XrZphe{>mOAer>cWOJOx_r5|WSL#|^*HVWRWti>FD
zE`_#ScE+AGt*&^(bf!rNxf|{Bs*N%I=(Uj5Le~Y11h7M+d@s%k2X&%Mqt>)dt+!Id
z+z;<!=lAV6L#(f2(k_jBNGnM@C^goCr~$IX6}p7i0nker#~Jk9Jv!ly8#JOrbfw0)
za2mJLu(M+@P$+kr7zc!VaqxeihnW{tpeMrZG;{-9kK!&YTbMNh`*80JPB^mjYvU0*
z2~4#r_hy;PWS-p2H&aP9-XlOgX4euZ4Wct{q<msCl9Cz6C8?BgttAS#P^XFs8Erw`
zzyrF<8fEmubQg@)D0YC(ba#t-RArw<!Bm}s2$flNY$;qzGe>HjQJdoTtXPC#FWO4^
zx1~Hrg49Mm(m-(cJ$j{hqQX826BRaqqESN?Qno5d@)tbM(T!+qjS(nOmXxJ>g^Cjd
z-7R>U-N;s`(xZaXrBOJVkhU})90?`PA!Hv(3@6AirQ%9idOF!PXqGBJi<to(CVqlk
z&}^_&tDSyv(Yr3+(E4uqJLS2CuF1#qSoNKMr)S~C8?D#Ak!?J%)X<x4=*>0sO+NnD
z)h!v{Bbl|2<b01zKXiNjrun9fZ*9K5A+u&nre#aEe(Tg@bY!`7v2E94+3tMn#t+uL
zw=UPZ9jR^y_Ado`vw_~50EaUhpqZ>)^tIn^+>~k9v~Zr~y<M|*ZhY=sCNPkxIyu>Q
ztEy#g;O#9LUn>^InfgGsBCzm6*1s#`-la$?l1|#APfIk-u8>sv9R)C@>vGDtngW(h
z%FCX#-NM4En9>Q+Y8s8ti%jVj79J}JM5c6W%a5jgD1Ltd+b;qbt><xV0M2KCq%?~<
z6C1{*L(1)1Fn`jmLd4g&xk$Op2sUusU1S{MH?9<d^^*!X#jNDGHA*?hDI5V0m~QSv
zDt2QOU0s9|B4bIq!H;Fpc?<HuD3wh8NXSwEstqIK{wdvBE3_UI@S@zVgbZkgUKqRU
z35FRo8x|eLpsX0Rm8%L;$}vPxs`c3zE^mqt$8ZcA5)Rit;r=WEw;u`Q`@Ihv4Y1?T
zU@Mkg<~6RbObTu_Ll9@I*fjkwDdh(QNQq1kwGpc+hx|Xoo8>J&S}7kBqYWYz7|lnF
zHt^=dx2oFb2Xa*b&^9&=+7{PsTl8;NHx0IY(tbVhuLD`%es$AeyJ^#)IqPno>zl7#
zuzy^7t#r}7-Q;Uw$pw$0;s+^b%x<r91Tv_PLZ2EfGM|fEh|>1vspq)w!~#Xk7M>sk
z6P{Evc!`P-OW!Ru?k9w+^~eWp#>Z9FX<o{j-*967@WPIqe@n)_g>ins+24PJnf7rm
zNwM_xD?8hV$(KKdE8BuW@)sJx9b!=m`+~vqW1*-T1Aj6x9>yu30P4gcIlAI9jGH;m
z#6`IWpX8kc+6WLL3vOIShGRI%ape&IHi{4kJWXH^fffSo09b`eM0YaVIAC5XrzlP&
z5FrpHKnpGT5&`B5$Na*+O|P#J_&oxz6L^cj41u=^kQ0HjFaA#`bd><@>&o*4-Y4)w
z0{@)AzajAN2>h79e<JXw1Tq8)1ZXhjzX2d0J2)Z$Rd7a=&MUt$LLJ_taJgc?>ie+z
zKCGfy^%r6&R~<)!v?~|UBj`nsq4QNrT@+#-?Ci`HbETw);QUcAcum<KSJ;izEXK7>
z2qa2u9QPXcxy|Kt->KrB;Gg1`?faaqcc5gssy??loI9572;HF&2+CD;7fI{XZwTF~
zz_)z!x@E3b|BTR`9{SwaJb!4JbL$ZZ-KpVR<)7PZ&NeEe{0@b1;g#~OUH{g8*KK#!
z-1TSx?#PsccXp^r5CT&x*;@2$EmV~E_g{MTC8}Z#eMi#~y6bj2>+Y620DN|5$6XKa
z+;P`sbDreyx)oT8>gr0J>+jaN5vuVZ)L?h+y6dqyH|n`-?)q%bO?TZ6Bw-=MqN%*I
z?XHV=t|h=iD?kY_SA~XrZu97vpio1-v+?eB-uV<y`TBY4571lYJc==34QIi%F6Y7J
z3a9g-yX7s;-FFZ8P<Km-b1N|EubMcTFY`~}7L$8{%KC|8c>*ZCx@qExd{yJb69`w-
zPdt|Q*J+@<=GCK29x%#)*k)v|Q+>fc8WIC7g&Orrm>%O=z_?uSnctLU`T^pD26O6o
ztVg?)Cn1xlgifa1FT)B$v>Y2|SA7(kS4AjOYLI501e<gU)vHpBB_mOp));Ji5e?Ex
z)-IVU__a^!)pp87cN}xDXRb!d^;E<h1yAB!WHd;vO)y@D=`2`q(7U{b;!7Zw=-RwO
z309Kq{ycJ8R?vq<8TY08fFdm)mR%6X_)}c&@7Q^s|8)h&w=cUmzU(uu`!jCeXWX{G
z;dXz<ZTO7a{NK1W7#d&sg!_NGUvcrZpK}E79x3O_w@hF+yqa9^?{aqj;fX`}67OUx
uThjQ>^O+9ZOt84-;k>)zuN__}gY%B}h8KpfCv%+#{>pLi^Ae<Ijr+gmTgAQr

diff --git a/crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/circuit.cpython-312.pyc
deleted file mode 100644
index be45a4e324dda325b64c389a40f360c21e64b601..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 5560
zcmcgw-ESMm5#Ku=ze#;il5JVCb5g5VR4mD~^Bu>r9JzKP%ce~U2-KwXg?Expp-6e}
zn25v?y#Osh)-Ft;Ma2LGs<scU<2?2cXda3d=!+BvwR&}d0LhDiJ}8p<&=hDpv*eMK
z-3CsYc7Yr2?(EI({`NOBd;EPc=p#_x3;knZIYh|E*szPcR@u485wc2TB6CSHQ~l*;
zIM(K8c%CTyg3ErX@e944M$4|<23uGb*u2%cEoWR{%MA~=&}R2Fe!seT>^0cGGhVPw
z7CIYq*)^GakGDt3j_;7$HN}iy7QRDf0<sfiP<DZAk=-C$We><U*$c8=_JIt^evln<
z0A!~e1lg74!Y%jE(#0@mxfi8nP0cBZ8Zc}I1kM4^&R;;R61}cl;F*4pn1h4)8K>9#
z7KD1WUNH!41T8|zbDwWdw-27^^#im)7$-OR1V2X-{A+MTd0uwNg2Crtob1Sf?HtS@
z3pqI475+v@fN^;q=62q$tvl~9IKz>1!n*?01j8}wh`}h1jeLuQUAcr$gmO+vDOA!G
zQJ+`Dczkj!HW51tl}po8c0)?ZsF}Vn^-}c0OJ}dd#6&u!=~7D9n2C(0$l~i+7!!+5
z#1kq_WK?~Gslu)#EP+f<zdMAFldxug|M+;p)85XLBtq!%w6%%i>C>!X62cLl2&{p1
zLIjemAqt8xZ#iW>yQEkyS$R`UDEDy4J=}Jfqv#%Cr{&bsG%;_vbS0&wsU;-SsX5C@
zrPQ2a`Qq^lm(In{yfhUHJJ}1CyS8sjP<4e`!9AO`{7qnJxEq8`{OstczPL2HJW3;v
zk0xk#3FaDITuO{CQFT$()i)Jw)P`ayYwh0yPP`5v?Er%i5QvrqVUpc_q_y*AvY6cF
z-Co~r8@3jT3!AN7yIuZPmw9gYAn7`|dST_l-H{W&dbu+4!XG@R*W^N9i7P$6;x6~C
z_&0pLYh1<K_krj1@AmCF_%4?@x#c1q2g{Qip|Cmekv~+LSUa@tA6XYh{<iHU-Z4%?
z;NJIkjYT|(X6EB|nSVSDC_`xCWIjn2xjgX5;1^JPUonWm&DC8w?`Uw`aC}~vdKG5L
z3wdYWrTcA@dcdwVyyCS<80Q8)ySqV|_ZZGv&1-nUGvJN9&v3{bY7K7=R-N}74#UH0
z0VA-?EwtEH8^4CDY9$9Jk>KNXzcl<tfV~++o6Gz%&+PhgU?bs3@F#H=hY`#{ciwU1
zk^n7PU}I`)nB`+YNa^RW5atjsrWcnox}q_6iz)hWl%|)YIdH(?2{oA%r>LTcHQtD`
zX(~#hrs(1z_+&K9EDTPFswS$7OG&lrcBm3HHI-0cSac$c>U2sOo=@vxU-gw37}b=7
zuBKDslOrd@^sG28EzU_)J}UN4r+|$zP&S>ClF6(XQxX}fh%eTBeE3Q_lai~RKAB1C
z>Tpz|dKUD!6N%Zxg`T~Zk&>#OJ<2o^Rkd{LsCY)zH4y{I+2tizR7zLb8~wGFjp?Ey
zCFVtlCUeTOY_aHEG4bTE7&|6@OB{?I6CV|0k?P)27eyWGjYjG(Okn3k<AsSx7<=S&
z>WD6;6aZ?X29c`Y4<B1zl$oM<^0zoEbVf}{G#i_js3K3XAad`YP$&yC9?SJQ)6;!0
z+;YO=6K^m_X5oY)ZD|ly?szo<g<C8xW^vK#3w$g}k%Y7z1!iE2Q!TfeiZ4pq8<r=X
z(W|vUDy_%sEk1h85@L~P#BybpWMGVjMi7!lp%_XqfHg&8Iskpg;n98r!X$q^NSu#B
zK=Ae6@%C+a`_>|B(%PdHZ`eHZ$<WxZ`+pmLKU^8Qupt~V&lSE|9^UnkmX04jTL~WC
zCP8Ocf!hpqL!22ZxHmfvm#?jyDtI>cKeE=pk}m|nY)e~-D^8bQ*$5sg@SCmerE^82
zAZ&U9Hv``bl!I&1#(}{N&*1lQY^bv&uXGn&n;u^wa@|?#-S8Z`?!?w?F;L{UdSJe-
z!z9pBkcv-~`b(Er1_~$Fh5b9Q5wa(dV;*6FY6dEh$Z-HGGM9rxgH()KR&*T8%56*?
zP{zq?tuO`>D26Xgt?1x+sKeW+;cm2pYZGu~KKChO${s(i`|yMAtERw7#Ar1ePC<%|
z*1h{J^mnT08JZF!;IZI(>MV;3Rd#`wvZ*jJSIvN9gNLGXYvQ0fqKvT7Z%WAwjL^j4
zNO+{`@R#5n`j)C;RtJS0PpXq?;<4(e|KNNNI2gs-N!Vez;w)=6_#Jl8UQmGt%&W7y
z#l<xQ8Q55*AtcVIeI1~Wfd<b;I|YK}xnM_0Do&VZ?*>CPcJa<mV3)^RxLg`2&J<g*
z5iIo;{YB@N6O_Q1K+rr-9|aS8P9NQpoj$tWDx4IY8&vVUE++pDjtkwac*rfdCRp6E
zhDTppXKOq@n^c$LnmU(?zpm<Z6m&^=G&E<DO@E-UTtwbIICGtMAHdM21j#{y#H*SY
zd8OAArNJAVeMO_kAcg*$`}_jDbAOQqo2v`;^w=0<-<AzNUT3)hi3jX|X<Oh8EOlLE
zF_Ct`Z1-LOLHC0QyXXO|v-syzA^G5SFrgq5AY@v+a*g6TfgmIGaa?vUJzC=NIYn=v
z{v?cCf=7D=gh~D^41EMtxKebRW4kWm36=WRyN-P59^4FdtR7i8vO2UfRKD_qkvpM*
zjnF_Pbfm!DaMu{J<siY9o8!gtQt0~mo0G-K>z9B_{(#M$<||J91jk`o<PJmtyf$Do
zU@U@5Of618vgZwleSWWET!AYKTmS^%8%B*9=W@rdFt^skW$`gFE6&pNB4on*Q;H^D
zUB1e)&(-Wz1~c4XF<1k<47MkrPJ2*P-7Fzdnx#X~!R~9-uwV5xha}7N8PMcWdjf<>
z5WcaZ(;P#WVwJnCz2(brIc)8J`@DI!5CKR^&T{*TZ^PfSF7#CC-3$)Wi8<D@P^p0f
zn`}i=H-Tc46QF7k&|&w28*;f54M?7U{vk05^DJyoWJXwMU}6QqOEJ8~6})sXbTm9i
zM1<i%ABPqb--U|S4+8Mmw;%GBQaW!=-t}~pCM%wPbL_4kl3B&yyDs!TxP7$AwvV4&
z&7X$`u{YNQ184W;Im{gfz_gc109!La_j8HQ3(b+jw#MLVV${ipMDLb^1v17c2H`Dd
z1HuNas(iu-h3M5nBA?VLdixD{cD@0^B%k;XmLnDap&x(ym)9zfM9gdE7!vGq;Y`s5
z6!ZBZM-LP{i0FZGdwHzlKm7K%Ic8paID}1@<o|%MqZwiNKn61J!MTa1Cm)uk^m$nO
zttNgpz}?GAi%%-_MHu`ecy?X}@!!H)mfjht_{DWW{A$Sy^!?wE_tZm@mtjiruF&}8
zu0}e3PN&GoHF)T06zn?C9JT6hYl8X<lIqLs{0ork)E6QZJp&uKpF?vBJrCXQ!b8VV
z;Qqt=EbnY4mC)1aq-F_=l0Hu{_ghX?O~L0GW@Af$u&L2OtUA<`j{l3y9j|_=c#|{}
zPr#>`QvHy@G*k_~co|~hgQb^hU}YBpBr-b*wj4T)O<W2)rq4Vl7t?Ykshpxw=)+v0
z;fl8$9LMdn5w87D#Q!nDj{sj+q3dQ(v8Ob>I<qoU@rrl60~_7})Ah$-TdBL$x!S$b
zU4E|o#7~}k=ef1aFLFQ4ReFx!>3M3S=c!8j)0N;erVp&}U1s+ku5*LyEKhyN^?%Cu
za-%yA!hdZGYul#=xC7f!u9XXJf1QJ>#|O28POf*mP2dh~x41!cy170Shjy^W_VO=}
C|D}Kc

diff --git a/crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/converters.cpython-312.pyc
deleted file mode 100644
index a0714fc96e40bcc6433d88c20ad871ee05302735..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 3817
zcmcInU2GHC6~5Oq<Nu$S&5xZpKM;~#FB>}nl0`r$2@4Oq8x}~AN>pSS&k)Ag<Lvc>
z{Om-E&{i^9)Fs+V31X||p$}|{)I78jl~yfFAG%UsJh8Qorbb$|>;rF6LaV|<)pN%l
z+k~jAs_Kz^=iGaK?wLFHeCPPjE|(nvt?c?&{1XR4f1?wFOl4;43NTBEM?6lTBpx^6
z63>h?ux3iINp75jHHK#s=A?Pt0zAi?6V{|{+@|xEggxmPcj&w|;Y_;5UBKHuM&oYY
z$=g51;~w4tv$|OvbUmfpo(^KodrF)U_%kU{l21yp6fcmcG$fF4lk)7O@D!J3=1W5K
znm}N^afpcWm82kxvC%70BJg8^lul8}u3=G%lG)nT7&SM@1`Gqgt-r$R60#w=B8?m8
zVCceA=8TDKF}S$Z;HuC2Wi}3HyPXW#{qj!lpignkG=XBKi++UWaWw)3#hu%&5mN99
zzF&@Q(R8zg1<QGCc$+sVrnu)-E8eui)aao2u2*#wQ-q#}PKs$1{9@hrH0nfhogvwa
z$dBPGqIuK*=QJ*M{kNwu&nTETU3~)~Vp151RbZThaOX`oUuV$;baQ4J%`g|xG!C-#
zf-z|lBjqc_@M1D(C-l8FE-go6S2d1Ar3pb}W2t0PV<rSybHfmsPLTv3NsDs=DAHR7
zex{O|^W2mqi%H=mAt|C+gwl--vYIzqxs(xEzmFOgHP<EmLK-X1@>F-2W+93Wpcmn=
zoSY2Lgh}7QaE#1Of_*qS84FJmF)7O8H6b02r6jogvOv<I$ytq!4DBB#EnrW-Yx)Tc
z3uuFNbLVl<_h!M@tNMDMnNf55=kgabw`cCm71|G}?T2#hhjacT|KJ#x`@8yvXAJUo
zW;+iSIuEOzhaci^>xMTO5N$D>-=1-8IFY}*;0vn0;Js+p7tHy3VX+>yh6;gxHPF8>
zl4t$v4quk_J>T37cK>`<hn&7m#6lG7zCgxR^fvxnUYc2)`E0Jx)T=i2=9>2ByazUs
z$#x!RhKemc+0c&)p_6Lp<Tri!mXXZ+>u>d}dVh85_WKW9-#FDnV>d=NIjX$DQKv7`
zo$#X9j}E)g@7sp0)~^G8U>{jII=Y71PK200_Fx!eG{+61$fxK0br_eBVp`~_=G=~1
zZ&;!@{X*Nw$f~$`n*gRX8+okX%zy$oItMvF&&ZW5i|Z)-vYk@RQ}z~?T4a|YkGl=7
z`jou}ub7NT08zLyq5w+Ga|%+pIoK1>!lt7IXK2ow6>~W%^AAL2uGm;=PHP7g`GJTA
zXhbz0>W%oTPaaQTxia19%mEo2D+(26#dN>?o#B0fgZDkO?R~9^H4Z4doeWG?EdNP*
z6)=Mw01q_Jwh>=N;QxIOeDeTA(z<O6m?~D|E5zGhmGU(=2TrKtRgL(bSJ&ok3SO`%
zHlDfqj*g%<s6l|iB~olFtg)xUMk-Z6VdJkGI@M>59j@9L_LYjlO&hfZxFC0$(9{W<
zG>)hBT{H8-H8Ca_5bd5MLQG7HDJgPEl+(d_jgwO(c17bvQM#Pc*hEU2&{!%Xv?^=v
z;r&AZ)Y3#kpcXo~6PiVYCXmL&qOxW#K{9Eh%e2aBwkaw7;glc%zO%`xM1;IXMGaKs
ziM$*Fq1Vj7`UsQ{pYEWdL^|o*UdDDB0==!IiLN@Tt7*+sQzK~nnjLnQ#mR&y5X~E#
zB1Dkn>gH(*7qmc>h%{4&Yy@7H^Z^@$U;3v2F$-wj;#g3Mp88Key7AHH{a+lueK_ao
zE_n8-o_!hiJBuUp;q}?|hCO%Bstw&4doi%55a?3_eXDQg0)uN-|C7cy3XLJPF;onO
z?#cICzIFEB9m-r>j^<qLYtH^H#?)lbI5y0vY0urE#Z<;oZ0;yDht=lrsw3BYG~;>F
z(7beE@q%7*mgPGwwI!x;$+_rUjxLX`aKE;HX@4+SIP!sd<b!<One5p4T-|x2<}}(f
zcBnZX|EJOoDd%px+g{jxP~Cknw|ijCJ+SWYEckm=f6u*W&flAPcZ1ncGv^+FFk9a$
z1bWp#?`m@{aI_FOt_F@j^yUI5vQ|GxX;te{eLV%=pz0gUvJLB&x~#>QZ4Iq@*IM_l
z*LP)X#g4x0(7AlaD2VfH>$)RQaO_nbd-Gib55;`fnVjQnmOcA?b02aIJl}Le^-I%R
z^>vT))Z5la14m9BwZ_U#8!RJ4Z#-=dw~oX2f+B?D<#vz?4KiQ}N=6yj00Iych_WYW
zchD%RmC2O?Rncivuv{rkJ2k6%d2+}!8l4nWP1u)wSDMj^@Aj8`?@*p}-_DwnfG%SZ
zO71W5&oD$zQ%olw%QVw;s_uUW+B!Iy9iaXW{zV0ruHztcdd_nqDoH81qudvD%&{GE
zsw3#sY;wxzw(Ni+5;S=dfD7%~HSSCaa7sC;_fMr(&|XbUJ+(C37$8%r$76LHYa}8?
zlR_jCWJx#pBJ{6;X1+QdB@=1QQGyp;rP9`w^3_s~kPL#syYNfT!vHC}t7$2`7|!kL
zTzIc&@!slQ-j}y@uX`GxZ=%zDb8p_#w<>%!^#|p5%G$ttMbB%uPJN<ett~|xaQQ$e
zZws%U{OWvRa6}y(SvxqQYp9;C<;yT+tzF-{n|?F)p!>H!dD#D_V~>tyedluS(X4fJ
z3jzTAJ$*Xp)#}UrW{9@GQ<4Z^34N`zc1Gy`3(^6D<}tL(eXov;`caU6Dn~jZleeh>
zJ#hl%AC&-^7E%3d^@I2lkz;g$LfQ-K(PWCBN(jdYR3t<bBOQWagTWa8y$<2Me?iX2
jsONjM=P{~(j6#o5_olfX`?o@E_#ECE#x^{Lb$|Z`@3$Yi

diff --git a/crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc b/crypten/mpc/primitives/__pycache__/replicated.cpython-312.pyc
deleted file mode 100644
index 30b9ba5264bad67d02caae0ac887c9d7bc68742c..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6300
zcmb_gUvLx08NZWGy0cDyEExzUEj=IvWP*ha!NxTqHh&yQa0q4!rO61PJKHj{B=4R4
zM?H5GnlyGoYJ14UW~MU{ozBDzbm~5Znf8H)K6Iv?sf5znbEPv(n-|_(oIW(uY5RRE
zog|FHI8Aq?Z+CC^zHj%t-QWJc{hiC@U?AP{{d?erT88->R?K867FNzfVV02@nT;}o
z?0E}YC|l24Wy@R4c}}*1w8<PuyKDo=%XW~0%!90v1&|K82BauEKssd+q)T>!bdRxq
z*8?=v9cGL6Ftfwo3jdW4VHC5BR%#nCM}@tL>1Ht>u$fQFx!E?(>a5IOg13pN@n*Yh
zxmnbFnO&oe8uQ(9Ub11)EwVKQ9@W_t%wXI~>(H@S=lYm&8~p7$bA);0L+HWl{D4^2
zWR^-AdEGwXGM|=n&104a;H#}pI&aR(%-OYiux_<37(1_Xx44@{zmE%R^wat(nqYO*
z!(-ig%U;q~quU0as?t}`Yx+uGhh?tJag1&Qulc}h4&5<;idH4lYtVZg$7oNR&DuB3
zlFpbOG4mtLlo+=3F=5LaPS7msj4skK+6#HFWyW&F%`xLnXmj>JKNkMu;t1pCyC2{Z
zO|>5m#bR+yN@|g4B&A5Fl|(cW4rz)k_4J2GB-SUXN;pZB=$JGT(fXx!X|I$B5iO#q
zjSq1B`B}p%tJ;JAK*F+0!hVmzh2w*RhP6-83^$12NSs9Fpb91o$9F=}q;iyyI57ll
zBca$O!x4_hv`Akvo>UEcD3MTNvSHKWB;0Q}QVNNy!D!@?V%Q=oZHW*iJZ#vNQ4Ooy
zNGPHiHc-^37}lr~^Sca(3gcJcEmbod73Mi=t|md0;ezFw7-%UJIid`yhJz@HAbndk
zY&16nv>Jp~LqNl{WW_2QG3<q|DlT=YGJO#UXoHEsXn-{B3xvs70>&B`OoRgo5*dtW
zkzqv*fT^Ot8xvzjZK+zcPo4#(xL?$L;OjJV&%1th<IKjZn-;wdId4PW`&|0O67QYv
zxcq~A?v2^{vw8QqtZ?q0=$UGrY<;h7QQVvpH|IquePqeIevX~lICnl*yCZ%4(b|2{
zg&pcZnfK|33~y_gur1ZDU#yjKwNk!zE7SzvqEMd`>VL9*aZ^KXQ^Wl8`Atoq3eBI@
zJvG}p(|WaSv2I(gZd>N){8+YbTfXkVgm7<F(}{U<z58|zZSI^9?hDQ-aZ;Q<H#eGH
zxATvJf7t_umwim_x`zyFtDCSc3F4G6DZKAkwnF`LfoW;~_2D~?U%i^&|H_|SCl|aE
zsktqa<8uS^-fM$*-OpuRC)3A3+!wv+lmC2ZW8B@WifH_sCht)@7seHDCWKLR?8=Y8
zv9pX02gER=T23&PV5+m#AX~Rods^P`uLInS+W;tSw8W1Kx}BD4VDqz21bWfJlmT87
z%)!FeFG3gq8bFI~{VDr%dxX)spRqq?bum~x2mqeM(W+x!gI>pKy(w7HVaxwPH-*DT
z$NaeN9>#A8ZH9>)A527*K_#ZC(nSEJm=YpVZ!#9vBJr3iB~`?v(ms(9o`|AJg-zJ#
zzzx`gJ71MRNRe0~sYxMK>L7q#gNhaj(^mP65>w*@I>lt#v8<7*K&*?zBoJ!JxTM9U
zghG1bWKaTl1H~aarbY*S<xIaKB}iP0hvQKgCLn0Pf+J8tOGuOAy*N~SLE78cjMa|L
z@9w2<?(EmJgxVGeD1ZzxtuYb`lg2pd3pDR(Y7Ok$v$ruJ_xcNSdjZ$8VI53H4Ld;Q
zaFblfn;{<zY52Srp9eL-IW-Yi73i_*Nwe&?QDh<CLS;_yT{IdW35Mf<K|DZmNYe<x
z!`bgNEb)ZFjvDNk!G%a4fb*phnhT>QMhatQ$uinxSVo%-%NXQi%?6uN;b3AaL6K}n
zlg|VJLQUig7Cs?W0v|VMI+3(P*In>e{{SM*EY~tl_cFu#?0;u?ryWW*6i)l+wG04K
z(=S?Xv@CRd()G)(Y(sm#{$P&VkbY^Rf62A}&131#2}`MPU#OXKPrCEM#&pM$Te{Ns
zfiibG@0K#Y%;~KA!2C0J-3Jz)&AAVxJKpMA;%x79UGB<ywp<zcAUSt2@7a>snz@+u
zw9W6k>uFoqpYyckxVE>~-toTZOuw`OQ-a-vvY3znQrh?pC{)r$nT3O$y;(#r+$Y^+
zC-k|&QV-p*kS3^+W)LbWlqBk8+J}lRZ1IAC14Ilg*cOIvZ^?`8S+1QNgs1=eDDdNu
zLnvMZ@rZHSgyLmvDH|7VZ@K+iUObfL4plcULjRS`ARc!?uN5HAf{<5mf**QO^Ea$z
z7m$5u5S<0fuHXpT55=qSU)cbn;0QXFoOt}svmmnE@vl9g22fq_$6+WvItbc^q6a%2
zK~dHDUt#{wp%Uu;$Ia0;6ldYTf+UsBIlHIxPRE_0oY?c*V<56z&(|Ks?k9|bwxReQ
zcEWX7FjqRS;0b;z{I9$VqVl8bOx1Iiy;*$wb;vO^qGzjx1}tm}&P>=ZmK5wJ-HI{=
zTE{uih5Kt&x>>A`+jLI1Rh)D-y1*XbZt`2pP)Qo`fxWQUo`*7NLD34rKs+2u!kI(9
z4OL1z3b<E5JbSV66=)1%2izC%Nqk!~9UpgH@5&s=`*y$ia{62ur99s0rpe^=&|LG(
zaK<w8{hViO`lUy)YXe0n#FNKABOVmgufK<BRQk1=S4~em$x9G|!gRkZ1O*S5_zGAq
zrg0ipUIMrx+n|TTd|uA0g@_RDa<^<H&cg&t-!AqEgr#<>@4^~`Ib?aOQuUF@ylD~E
zQuVPSj;%_%)m)EXaVDo>COn<V$u-WTT7X-1oN_5dWr5iOBdp^0>N89MQUK>G`TGfP
zR|}GvYT>ZCw!q@XRnCLzEy479wNVy%V#Ro1XV!!!VC$bUxfakeIWioP6(Dn8!t<mH
zqZg!$V^Ro+TTInLF%6iZrt~R9x-fQulCT1?Jl)eH?Nk+ok~8TT1f)RWn%kr`GBm2G
zJFY2h(ix<V@Ppu)0GWmOSxqJqae|?BGA4uNy{8UK@mO@MvDEjX5)J`#1j1ORl2j#x
znn?(GRjGM*JgM!D_wMelB)&9EkHo?X)h9KZ5xNuxkC>DdeWW7&)Z$bp&@AdSaEAs#
zGDQ7RsSf}QoTGpxv^X4sSXx8gTe90MX#~hPWxfSQN;vq6sTTBHxd~^EbCV(_n}=xw
zbC$}HxODI!Fkyli3z0r5h3f+siGy>H1rEl+NBG^z2@ud^mzCj2Sn<0EUSknl(nJJd
z)PciGL4zXGn+387n<>4u!o&@T?BTw^8j|6%fZiZ*r%s>mfim1kkW<jt&s9(e`ZA)r
zigQC4FMzmEoS;I^!Sey^@GlT)1{kQ|d}s8{(I2K3c`3(Bd46jqbeG?8&%I^Id342U
z@i>+lOO0b$V4SY0{geCCNAC0D#L(rjC12g_j+q^^yJmLHh2}@5cjbL86YTr^QjKfc
z`)>U`mv`#i<hl3GPX#A~bFY1L_S)G@DDT<{bhhHfi&q1SzU?{R_DpDDB<tIr_Z_O#
z0g*Pu(eF8?Jd>U|_9OlppYeVwY+C{z%)iS|H_f)pwB&?M@AJ!c#%4#lJ25mhJUKia
zn(dwGz1p7{`grvE=)`c|vuDu*gm-_A+y8bK<*|>SJLocc?)()BaP`W{7QA{Lhs!4&
zuNB#GPOI3@y2af8WFsI1o?5FCzEkx%r{PMVNw@0U8Y6J#iI<ilM%XEU7agKj%u`M%
z^SYx{7K1puf>jaF$l6VpDXdUmXCxLPW0e7>-)`71(x(J(q74UZK?*=&g|5y5x1hAb
zS+M|VU%nV&8GJFoB9wCM2R&upK@MQG4F%;LFj~4`anWKbEL>|x_Ys1$V*>ta8bq4;
z3)gVp?MZhnp|}T^NL#Y&cYMn4EUv2wzEt?E-ap^6@Rgz};4Yn$BXi9e%e9uAds~Lg
zcU~XKxdX^o%IgL$3fC1c#v1X$Fd4(UN4OVsR@Msp9mCOrw=gU$1UI{|MA>}<mXPie
zN;#2b(LG8heWSoSsVlw^+5uUTQRM{^hEDK-8TB{_xME`2e{5jbXa3AMAKL3#-^12=
l*7dNJWe+|SSoTF0<%tS;hL%wZ&~L-jtZSvcmUYn$@n6ZKR1E+C

diff --git a/crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc b/crypten/mpc/provider/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index d905c03d373858612aab979d14340fcfbb371a02..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 386
zcmYjMyGjE=6uoy}iJFM7!e3Yd4njyJmSQCfZsRsX$gE~%CmC)g!7cp?dpp5z@CW>Z
z1+lQQ6N60(@ovb&J8(F2?woU&*Jg7Qc%JuuZ(k7Lqq;1|S&(U)$pa`*n1jXyvEokd
zXg6`^+|51hC%z7n0O1Cd_lQZY@WbGfGa<xs|9q(Vkm+Z=h=!9)rNr`XOyiMF)mcU(
z8+FMRp|cX>enx68mK$*#U8Xc)lSdv$l3zhkfy;0a*2{zbx<Z;o$9!8h?6p}-m7gX1
zPg<pwH7UD!F69$U`5DYw!fGS#1Rb|Uj|yYcfzYNWmIXq}Y>-(gk4!PEpXi|)=jkbJ
gv$y*C=#b&dMZ}*Sz|I@A-l6jyz}6Ms*QmkEKhw}@+5i9m

diff --git a/crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/homomorphic_provider.cpython-312.pyc
deleted file mode 100644
index 20eb06d155d13498cf1683516cc6a3aaa19b1973..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1612
zcmbtUOK;Oa5Z-m1)P1Bt!=oxMQwqouBorZWK}fAyH9Zh<;FOEydbf$eFV;@m<W!;l
zhw>My@+UZRsl)~O3Kwpup_d*IGk&C`7=d6cfBTx9o$vE_-<Qi{1nlk9_ZRPELO$Uj
zvtrum--gaEVT4heIJ8MAk;n>R(hgw-PWKCmUsLMJTJZ~okw&BP^Nw%xXTsaC7#C(5
zDsIpNtzQM$C7d)VBTb3XW&vY1WmW(zG8wSMihv`m1gLaJG$pFkJqI4)w=FXZA4&CP
z6Ve|TrgR40{xrZY39}=C!hYI+O*N@kUEwYlM#xpCV~3V+Tc#0O8(a+q40xb=>uL+e
zt{PZ99vt7yIb3zUP_-OzceopJwnw8%!wXkWW|oEUgjR~=fZOX)5kuWin)yib{75!L
zD~L)jH?a*$kg^)v@uOPk__eK?n15I^Mb{6xTXTG~=BKjO+9z7**<{u4M$@g7mu@g-
zAtOCu)VrI*p!z%SNt6&_n|z+UaWK2`VX}Up)cY_)ObIbH)EnPF={+~lJ9yPG1Xr2Y
zS+n`D%tC=kViaIc664T-aHu{WsH)-|&Xkh<y_q~Z$=Ve7i3-Ab029;8>~GVZ9i+SE
ziTs*4NmeVw$%+X$MU(*oJO(~wl5u4qGQ`Th#+|(Ma~v;X%>U!EG~gl(mwApFwBZ9V
z6>2H~azll#f=9e=xh-6=!a&^=h9CUO_7Y?kjk_I3_YDzRJQ!xJ;5J>jt=^S9s@dwy
zFu#8(t;N&))~qliX9TJttg!9y&@y9kYnE$>?yv?wu@flxP{EBXK3Ir(T+ZW>E?yg=
z(a=UCMb}-!;kq7;>AK^wj*a~ZU5E0w(-pa~@N`+k<%-vph{d>yz3TvbN&Ut}B=Aa(
z0e_3&7QhbqIDTe(=}?x6tMpJgjs18g{sZED4XqF<*-as^K$Dnr*u(!MKId3@oaFjM
g;N6cmW`L=EEl^62&JsHJt#pB|(l_^x2)6OgA1ce3V*mgE

diff --git a/crypten/mpc/provider/__pycache__/provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/provider.cpython-312.pyc
deleted file mode 100644
index 2dd245020c4ad87bb2ebfe5e0e7f8403af591c07..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10237
zcmeG?TWlLwb~D2vHKHhy7WI~8jUJXvuSChV{EVVTwrt0iqQsVxb%dleO^zhW5~<u7
zITn{%2)hO%ZPVHdG;0Uh#i~WnN=ORpt5Eypq6>6^{%}kg6s9f^VDr)T%WG!QBp*f3
zx%1#dwCe!d7ASfl-FxTGy?5?;pK}lYvAo>LK>57#KW2gr4D%a&Fbi*VGN++)mkBdr
zc9xmYTXuq_&)l4Cf@k$H`-DBr-C`yj9CMxt+io#o{xeSBW1?h{_1XUwA4WqqeT>#6
zP~&rE8LAI#cbOI2BpYUL2|uwZEDX^?$GBTUf*oQ$GsZqM-Y&5TCc!G!o^-Aa=5jN3
zV`@%guHL=Rq-~7x@$undX;F+#ib0V`?=48OB1WR3GA)V9!u+fxhJvAK=_N5prWWR;
zs3MDV!A0?!B+f=;csL;Wr~I%~R!Af)`9c-|Z~{c87ydJEK=l!Om&t;cU=#yQ3}YgU
zR4LZ+S6Ce-31;`P$Cv~I2j@n2ee4K+%uhcy%&<Ve1oN(oVU}2qS>+O}iNBw*cUhMC
zu!3h6nZL5V&u*}z8;sAUasFP74Qh@_B1v&cM*NE6^0(jXQRe1*ZuXEveLW$vIIl?2
zp1Ju@&pe6U0GNr@@y{=QTiQP*MWvhbWFX!bm=4O*!E3Wpz(B0Oe>N5h&dLLR{S(<|
zYZc;4u7>LCe__5}W*$~`tsVO5TlWU<zO7bueUm|y{<yN5h0{7CawIA%!DvX*cqE2q
zrv&qHnhl6WkjZ64vbapjprHftmjCilmAI}ID){{4-cwsge#LM1p8aqkRn@g_+pg+L
zxx13W=&z4Jm4R8z?~4k=0h<vN4xfz(*x!Q{1;ZeP4hK+_iMKxo4hxxx$6RE3y4Sov
zt+{8r+o*cFzai!DI`8zzew2q!K<6XY;vqQ5JAlb0b_uu$c*&OFOkSGg3~ut8+>`?c
zPvOwm>l%AQ2L$OS0#kigNNQl6+ys@u79E%VrhThr>(V;Aacr~Yvy-3xQ0=(%jZE32
zwgK3Kcwn+tI!R)2DJo0A91%sDlYKmlEkr|sXmAeL2KYqQ9M|8+Ht&G1&;x3Fc43+9
zg?-(4nv-~%W#%gfYk!^n%E7qyq&(g0{I;h%Ro1;cwBxG2qx}5sRL7+U9skhvcU^z)
z-|o1SYPysxyPV`N6XdcG{96U7k0nzBD&#IBF{o`PxGB)Uf6h+WBz}f!ZGDni&maj4
z$}?u-nG1>}ggI0BnDm?|MJ+zzl*+>VElcxGxWctz$1QfE9NH3SE5dbQ0a|ys6lQy1
z)Co^}pe=*85?U9uUTDjqt%9}!+G=Rs(AI=Ku&Oq^2kJT)tAw$7XuZ%jKwAZEBed1f
z?uE7n+NMRjuU;!3N1gnJp?Q3Etq#=<2`W+`7!F62$PFm~ni%G24*9)>Ad$2hYsR%m
zG)NZB_rm)mI3FO<DXrx6;X&-g-F|-$)gb|@^n3Dz162viAyu$o8o>w!EQC&hsts7W
zKY~v<pO!_`)#pHCl_(?_iogfU4SlG8Mk~wt<_4?rvNSs><7T4Hg+d?@iAIz_AYPLP
zzTX^ghq-b+RLjgx?cNpsL)T7I^9sK$H0(4st?-Y8I-TFF1Hx1boOAGyYno=PgTo7>
zm^Soz_H~S*k`Hk5q1fD<W}5=36QBx^VDvgU09)k(#p7taG9Mru^Wnr=sFs;8-QL?b
zS8x7NJne2(-K{Bids1kppp1rcPl;rqq&W>8uzKvWE5Xb_zp#Mk0G<ZC%Ux|u`h@uf
z7l%GIt#Nlx9*w#;IL#XvI(u&L&5`lInZYx!o(;S)IQ}Z>ffXAZ!9#0~c_K|lZt6zI
zpxvGT#enWu1m=Uvbi6qq=3NuIVJ{ic1=K9tvof$#U7xP*R;#;L&h5CX@Aa&=-}i0!
z)*F*`M^*RHq;OOxZZ1gw4G1aEm5gq32+l{)R^&nJroiazOkr&*0&Dj5;pamN+Vp<u
zM(NrQl66N^HyGR_yCFrWDd|z6BI$Fb5*$!2et%2?Kg|$5F{prgxVE53ey0-*5iQ@J
zmcZfDWmAmE;y785x<u2x(H%fp49?CP9-+Y*vj3SooC7B(cMJHcG&hgOh>5eYU|8Qs
z7QsBt>HBB*8r@*YegMX&a~199A=!>cmEzuf)Y8G@h){HPmYF9mrVez#AG>yozQr9^
zD9&=d(qe*PnuaiY9k>#m?_z2o!G3Nz1uU~@1IPMj#W7FuE5@R;i(+JwI@$(8bxa@y
z5Lt^^lw6n;uTuB|G4S>d_^#p{a3p7?uo#>QMxtF}L=nNt7ojtvoRY&L7D1jNXud~5
zS=nZ#DCxkFQ&1U5*Mx;A{a`o`^Umxc;&nyPPmlKpu#Maa75D}MQ&oFMN!R++T3^b0
za6PDcdsc)U!FAiY>b!Si#req4XL;(3hsBhqA3`TrH5XT0`Sc+**(hShbShvUvw+Dr
z%m7dc?9@!D`6k-}Ep6tkC00R(qGbkM&w^6?Ob~1s`iN!nZ6jDiew30Re&DhZZ&7P2
zMq@z3;0>T@cL67WMD)RDeI=wH8cHp##0W)zfUzlZ6vn~-kCD(c*iYER)XBnRWL82|
zlt;*l0M0SP5;?v%pP2b?(Ll=MP=P@zt5{Le?iSVEk}7Lm3qCCCeC+bx9$p<z)}7vV
zo!N0!?s#j{UZ3jqZPq2dK=e~9!egNv>3yd!?cJ|>_pjaD7J8|Hek3&P)@bO2Q|f;W
z9Sq@Sa?Li3VF3zR;T%xN()}~YI|XG1V~T>34F*ZCVsSt*7c)B(G^@o=+2DJoqF`%y
z%&tKmQ!tL9Wd@aWK?y@h@d;cV{KDcmT!TFF3e1eRp26_jjLc=qB&b0tmz)FIidVla
zyGn;AV++x+&#ChQ7n3y}>8?4Xn;5B+Gq4>5im+B^AP14=VmBl*2;<~5R%f9qU=y7F
zY&OYz`#P>hjS6PF2oIE%-#)&2{Pw`=z`X<8Wo?gJI{vcZ&l=WWO|=|d8QOO3d+e&X
zePQ*&o#{ue<}VGNYUtm(vUTyn^<>@UN3OBmtnz<MQBb$pV)h(G(Lu%2Pzujh6O?02
zC4m|^hqh=LDGQJx?Cm18OP6^C!wWgyP)r}_@4gSq^R+><>TXVziED!o%l2E^;FWFH
zps5WyRd46|&7`+8<vo$74cb(1+uD_F!JqG@Tha`l`hRVZs||G5IfoGnQ~|jFC<7Hh
zseKU%J&e@|Rw)1EHLNIWjAHLOvhNB|>3#-7<h;8I8|BJ<0ksR|zPbIE@sH!{2U5*P
zQ115@mHU%h2euj>yp*ha{gLa9-ExoSftm;e>_toji)I8@6qH;u0&17@+2S9Mfn}6U
zg)0W5hO=rQ9lWWah&DCHf5zLBQ<i&$F12ZN!IEDK%2M`uGDeJzCS$X3cPJhROOwHc
zS>=@2YC7DxfkscO&)OKg05rv;;G>;~mR!PWmmoW-Wv3oRp^uh*GYv~K9Z*p}xwJej
zG^#@5+Lffxh|(yy(n7r|)UTaL3iXeKuK!sId@=$?=h+mXF~k2B4al2-G^7ApJ2HmV
zZVFK0C`y6soA+=j>eAh~wXE8|!Rrs058&c_l~tgxmtrBx4Hn#9Tt`bWhi4V`FkR9y
zW|f%{%-PwN2rKLgGs$5t0&Y6FF(&K!!ipl!ujwR*ISh@y+Zl{+LEd7?me4a1bwd&a
zj^g_fWtvI}+!aB%I28$nvWL`7LNg3xehAe^9AJmXe8{A2iOYs^#iV`JzG`J>5)4>d
z_EYvx*d^Pl{e|7eoZtb^tl#+Xnj>~?MhYpKCx90KR*W487_L@ueqI9K%t0XE#E?d)
zv=Sre)4&gtK>-lFzoPdjGJ2V)MV9qzV$Dr&Y!NGPcZZ?x@dEQ)@X>5qp<v;UU}G8W
zKiu2yG`6pW*Uu#zj@&7ET;H6o?^Wx2H>)-mQ}u%n`jYjRe|=1?zkJ8B<Ect}T2)VL
z+T&9_zV*&+&*7cgraR@7acLk^oI1aP?;v%uG=Y0_bd3!?yu_{Y#dx`BaBbn8G!<W!
z;1GYsIN!Xx18&Yb`c_B>i;S|$ui8ur$#REDV+XzX)=ei~P-(XL*gSa$dgNWGeD*A9
z30{llkP}^)UDQM^reA-4M`~sl-iCc;JONPiaZTrX>1N+nO{(UVmGfV?y=gbPWodVt
z>TX**zwPeYsclTxcB-|V>m_P!Z@RWmt?f(I9!q+Ted(=Fdk?A*p7(9mr@Sw1jVHY$
z58hI}BT3f?r84-G``|m8cl`3;nX`kZN6rS$y*YYj{KD&_V_6)~n;JbrMGwQrQ*PD~
z5rhE}hKi;ru3i=O>p_aU_`c_}GhRx{^H6=W%zRN+_4C)#dtX-Juk7W=1t(9sUU~wF
z2+!^QpY;EZ=garOB~Vpc($$LT2{%TrdA{oI)xUE%N?&82co<J}QrM@fX3HUm6QE=w
z`)2B3lsX>pP*{eTcYi?diP(2w?h?0TTjF!#MP!G90%Bn$A`&)GOgvRgcBRCenBWq&
z1aFCsBjEstricokDZ<#M0Nh|mbMaLP2Nj+o$&`fMRPm57olV%M@b;_7cN30&IO>N>
zkOad!$9{-RL6KAEQRi}9sq5aP>0Ch!Yh;=YU8qkT1$IN<B!{#1;v+JZ#$T5fW%7s6
zg;_ov&Pto5T*+0O>M2aW%7{*oL@at{!3mDqtRaR47h2gjAHyp7PoV;5$-&g^)vvRj
zGD7LV%K4p+Zq?Pca^a40@2$txjp^zxwYqD4eDh?g`sFPpSv~sThFU$ka_-CK-p%^0
zp$8qQ<_k&J-W_-IT3@>Dh}w1}-F8B4JCSNTrMgd1Wh<&4G1+oR^&C!nPO6@hTOE%)
zgI^r$-@I~%PkW5F4?Tx}y9Z97^Jp$lA%D8zKT`))uKEpIHzq$q8u`x~nImxy%nziD
zBB3DWkKiU4^G7oNBwz}jqoN#vY<Pj160NLKLEed8MMUOc2mG~w6!t?#$2%HRE@X$!
z5)vZ@`7}H3-m5o<G%hx;Il|J7NJz>m)LnEVX#V4RRBYzL{LebjU%*@$FJ9pKs-k7b
zbv9$;+|DNqSL)P}XV@c{p$oSz;PCJq<h5JK)3a=1IJN+Z{(PLp_va}#(U^(>d@h2>
zb@<kXP0yk5hz^3<&iMU-p(sTdiC5+A=hyf99OvRC6ooI@dLdPDF)3WsVdG)kEC|<&
zz}9NPb`zqNqTCQans<^cGvuWhcd-J6)U*q8a2yiFib9JgwFHy2z*D?E?;}|P=Y3=o
zX6BOj%<qG|Llz1kBNv7o1^kYKfVzU8e#n56JjtLTBECm&72ZVP79LZpa=bI|{B#i0
zti{nn2m*riF|`wEMI;oYJk6x-U*qf?st>0sMv{VVuJe9v^rBQhT?q0uNGTZb1|j=H
z!2O()lt_retCJufEpmZGibh)bh2d>Oc&qb}<~R2E+X8SerYeS$!Z2lW-3e#Mefu=X
z6ypyY0s+k#2+YO83-H^UfaVGWAQe8VzabKAMXb9KO^C+G9K9&zXJU~kZh_G|xbBB>
z;z6i10YdY6i71OS-AON4^(&TBIAs8<^H|ZKkcQ<nGJFfi-o^@DL=wRYH5U=FLKdea
zCI~nE;foFqnsDlG(F!fI{3%qon5Ueh(UIh9!9Qti`eo<Go#}>yYQw?x!}pJG9KYYc
z(Z3}mPmiU(H=b&E6Q(`oZT5XnoQ$L5w;XHVpRqyj3GF#-_G1~R&EA)BI_%9)J$86o
zQDPS}l@9wjoAH#`_hI)E?RIA>OYGfGE1O{EK$(3Y)4<!E85d_CW;24(eU1G};Orx;
z4gmU!K0(LvAoR5=BUj<a#P~uK4NZ(_uG}Zm1rzl<Dr)R;j{=;0EA;Cm9U#l_7CbOL
p&-BE`vT#y{b^eB__-Cf=pBUFuM+rN|{(Du3V@KGh3~lJy{u7u+`T+m{

diff --git a/crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/tfp_provider.cpython-312.pyc
deleted file mode 100644
index 08eb7cd3a9f35bce9dd5fd6894032f460f5a90af..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 3529
zcmaJ^O>7&-6`t8YF2$uJ$`UOrsY3sYDN0sGjihNDK&pRQpfTLW0Rke$g5F(GD|1O|
zb}2=~3h==P8Vwp5E+F+L6g|kW3+U*h&+WyogxJ^`uz|XV+>A&GkQ|D>H%qRTlG7FR
z=FPmB*_nOc_uk__(&;_|&;6nQ&V32mzp>MO<c_j42g)ijiAk%(p(TNax>yonOsGnZ
zT#_B7r0{XEnsC&T>Lg1^-j}L<PO6l0w2}sW*;J}&r@z!si9jw9GjWrcs?~o_4Bu56
zSfcslSJ=6n7lJn`R?T8%&(g17vpt=aYi8ZiJ*(!{S@33L?2I$JR?)4h<ybWj7N?AQ
zv*ziGtlV&elviiQtnPYc<2u-~Q_S{e9m}(gk7movGOvbv4o%y&GFys|eMR9gc^agz
zHXBvz3ac;Jrp1i#yrC32ot<|<StS-JQInJelfnm5P4OlzNzh8r%FxQtD$pv>CZJ6~
zt1b!oWRSVanyzP=7j5QxSIW#=3dE}yuUs~|p1}8@J^=qae+RKjJUkwMeCkX0>AlWj
zmJ>0H&|^^r;&r|^A)XYi7rSfygs)ZvU;YdIn_?4R`78Y+T~2z5XlB9`OyR!R^%}fu
z&!+CPsWDq}pDl@R@{=>-M<g$`3YR+G&N<DhXE&<0QTFTwE9WujSZ=O9ldC|#mUHcv
z<=&-%Vp<EfVKKb(T_H#|m}S_mU9SbA%Z$9l@Nz+-VtHlHV}Z;;!0@d3zCd!V>P#Tx
zUOx?+$v~(#*dVTv%B<oB%JoIw(sDqr1=MhnEV=0UzF72}M)9*EoBUbPU`q`^X3=RF
z#YP7uMQ^5|cRPi~QZO1}wrrX<UQQ1$*LwSa?+ZUPcNh-g)<E1KFSUt{k<Eo|?SnRb
z7Sms7<DXyp(}lG&TiW>A{QA*H+SzsUpW4}tnaA4MHhrlbTc6ydoAcY+&vD@o_g)MP
zt{h$YZF{lZzXNY1Mg$z_AQZ8`(+05*ib4#EqA$+H*THOjeDPifyvvdoLEIO8sUk!c
zIR+njAADpVMvmZ4vMFIZBLI-()`<v6?tBy2oipprYgMZkKMYC4k;5{mB|&r%BLV=K
zf}<QO3d@2HfB~q4@SrRZ*qI=~<B4UuI5&g^dkd#3;fq_N2fZ3vj>0VWHy}bE4sXtE
zYv<bZX}bT5k8gdvGWmy3+QP0v4x#sstyQ*$PPG%yh9))+KbU$rxjl5Dop?HsU75et
zT6<@G^3U%*8aVk#J;`uaBO)|(Q0E?617)9w#F&Sqo?sET$iC#uE%4K_vKKUbiPOIu
zYNVJ2JOY8CYms9XrN^S+zP{3-{;|kopVisx`M&3`yObS*>*NK7S7R#b3GO0x7zajC
zAdA_XD1L-u9E6L`?2tEfQ#PX5H6Hi7WSltYw%5=6F>d=i5a`C!8*;~u&tm#hExkf-
zT|m;IGt1lB1XAwxdW>$NGvl<u<8x<T1b4)pIoJ8zV2_@A9c?ZmR%9Yw+p-uVS4771
z<O|6VD#Q?e4-^4vA~W~{874;S+rsA=i7d-7BNfe%BjPH1kov#pOLy1qwMgp-LJ1Fv
z%AYxO>b}Q^T+{=&Xtoc41Dh0ODTM<LLWBVoj3F#bix@1<N6-t)h@8s{f?QZ-^u~-F
z6d>FVl?GaD&&~1rVh@~o%7);GJf=WOmyEjO1R`XhpdW<3SZ7sJ$3POu@V<)0Qxrod
zK{SDU=UI#gogg*Cpw{7sar0^j?-RH)&rhjZ)6pAHBG{H2P@SFR8+fyj>2wC+2k+pz
zNR1BQb0OkYJg&}amDbonjCXDCz%us^2tajqY<2eb?47wM+2Z4DaVtC7PC;DCzOnX;
zt&!8;%3`|j#b9PvB<cJH1hFr*bFV}gYtvT*nq3tmSouz&op_lUSslGSdS~oO=J?~x
z@%5?o`K?U8tw8d5q7@!%g^h)WnQiTtz>S_Thm1JgZaq?ueE0PTZ0X{s+8mx9mtLQW
zJ_U1}8$LA=wL*jfF&2_U6aHcd=}ALiks}oHFv!!3(wg3n7^qFVa4EaFa#UJ!xP+0V
z7gcVUZJ=U-rB$m|@n*w-g+vb1(c7Tq#W2Dl@xw3|W+E2hAoRPyrXU?nAIL(9=`&N@
z*GCTex?{QsTf1jL+#ulA^u&hrfId96t^FF}RT{jsnR!6B)9<x~XX&@r>H7S3I^Pyv
z3}jZ$v=`cG9;5Q~G5}rG^;+4nbUo<Pb*FANtEg+b4jH)Gu}GJvKD@wkc$*0n7(E$+
zjlB=zF5%m8oH7kZQDAO%b0BV#r>Vgk=Xa!(e0XO}l~3&q_klK=mdAF-RXH0j#wGc|
zV7OC_6_9?-8Wxi9i$RO`*iT?88vzjv#b?)R1)xXx;U%;l+GlNgc9j#BR|rA2YlgzF
z&|tR1%Q}~nm^&>{yA>eA@-e*H6l$2R`E|cn-w!|82kcic2H~B!$mmxhrSzLYLQnjQ
dXwS(f&&j*b$%p?T$9I);G`p7mhCsu&`5%b$T6h2e

diff --git a/crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc b/crypten/mpc/provider/__pycache__/ttp_provider.cpython-312.pyc
deleted file mode 100644
index e43b752f83b1738eae1e2e690bce65a66202b492..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 18194
zcmeHvX>c1?npii`je}?q2f<sSz(W*4$)spYwk}JiM3J%%%GPC>;~5NuhA6-!KzD<Z
zhyiWw#Hj*fB_gA#A+`2I^w<?qWv5JKtJd5<yPBQUj8dCQ0FyGfy_~G7mZ{YIlS$Q1
zW~M5e?|Xfq2|^Szo>c9RJQiNRt6#tV-uJ${`8RfZ5e4aU_y3M0o~NjPz>1n!rLg=T
zp)gMI6i@e2J@S?Ap-J7)Z|q@cxsB~%Nt>zP++!hahCXY5QBP67t;a^{#y+m!-eV_a
zrmwi)(c|cM_Bf%=@}@plzq`jxQ@s>#{wdv4VxYPx-ts=hTSM;8jPhD~JfyV<T5X>h
zl(tgR#zC81YbzU~eZ{}V0o^`>RNWhjhJ-*o<bV4@IPMn$Q9jo1kB6dSOprEcol3h9
zj`sRPeWCtPH14A%TQD{ljr*?%fdLWbDr*<Q@k{-ocsO|aQa}jtXXI(z2gA{TFr;t$
zH4V>)8SG~U2l_&<39-vzJ|y^9$r9lCa6EiDB$>o_24ND(bb;J0vE(t5@!<3ALHYIM
zTzOY&`8?FesSt(m?=kRnkC89pjqlSv3|twwvT$YLYJ#f?u4cHJ;c5w45t^SVv-T80
z-KwkGh73NN<T@h^ig9?UOJRY3Eg-~)B;%PguXP7iWWd`k@N>X#`Ojfl<5V2mNQx-i
zq}K7OJ}{!6K^c%_KBqrJAVC^78>qNhE>lz-pFvX6sBUW9s<uT4(yBFO9G$x-!maGX
z8a&IOqR}&EGOT~5UPF@oDg7TzVJd0*l>Rq#1mTjGR0s@P;x4r-Nhi&)BBQ#ZVXLms
zkk?lfFH!G{sED98z*U_;QmSiIifSLvyxl}m!nU{qZHiiRugX@>#Is2TR&7Wcd)bxm
zJZy^=>sD{cTfHq_sm>OuQcJmO(#kWRo76o9IIKMykX$#q=ozDJD@NOr)?`uAcF}m6
z@|hDYT?$d~_7C>O!vlTcU;xjgH!eUWBzj{Py}eM6dc|-eB;KVZ6Cb)94u<X;B$kg4
z4TJ;_yav>)3I&M?q(#6z5)eh<9_xS*3WmjSEb1$ktZ<YL^@V}1NXFh!T(U#v*KU@~
zPz}W6g2cvSLhzErCPG3?l$gF)v{zzq6#@gZN=z`;-!ED4W*}K_OSX7?z%PW}84QVW
z!Gt4h7X=`2BGM<($HBd!zKarzGi;YHZIU52KvpX;0ijovOmAPot5AWrn}U8EE71Xo
zz97*-5zmuXmwwmU8t)%yz1k|Y?Pv`OLjyodTl)ustpf^?YsDq0m6m}asY0W&D(&;j
za85L@A~`Kj8(R&_5Vr#gU!xX18^=$Kow#{2>uJk)+Gfhqp0-)fD=F*aBFf$Hqw<eR
zCk?Z%`UTE)<Jict3HH;ocX~eVnK8|A2MV=4W?6U9V-r>EUNU3JLODvmu|nxLMU>4k
z((pm!V;g04JSnE^zNyj~--FIM?sSS?;F|O`o8!i=kzF6`$=Yf%wwhU+ce4E}+vY`Q
z<+y#!e$$b4Zp}Ei&O56nIwucL?VPTAY&5uv=U>{pM6L%8e}mVN_9qs~_1x6CnW6OS
zZ_GK*r`i{}x-8d{;aaBNnQ5Qn_Tz(}-SWuc9IYLFJ#{5jybOS&f_mzV)EMi_NdV`!
zqTvP|4L9Z}IM51X(vYLM!;FsVu0_RcxYm_Pqhdxv#TwViaqKH+!5Ys11*0{p%L3)n
zc+RR7vvG}@N1UtYN;16hb5^5V%ri!_D@G$VWiJ|l5}6VWT`DD#r2#J=8@$jLT1kKe
z<N-oCW`w>Vm;|JicdY`R3t<Ch8!<y7A=G2mfZ1lukSqv|koio)7A)6ch6GGL^0Xis
zgy%&ZCZBVm4g2sZiHg-HR9@(A=oNnq*&63@5srvwrt-mybKEJw+ov26SJn8&v5hx3
zWnJ4cu5DB2r!UXMXI&j52N&Ta@H64`Yv<-%Z=?<uI0^Rpti3g3Z=E*G1m^6oqzv<b
z_jRek6eqj@OA8`2)P%1`u$}`Lek-gu>ad<!fkRBvsKa_z*Jpq|*Y}zJXeVOJw>l9<
z<m;a)a2hs8cRmY~lN!I~jfjE~O+HZpos&vH>dBojOCAKwaZP546p%TRtR@|@&lqXa
zMw*^6(yWa%C)uPaX(sXjo7k+KLRl6sEC=KtL*$G;F8>4~j^&@gP0%K}E(oyz9}I|b
zMg0)vgNPuKkEc~Wo*=DJf)6w8j0!DSZN+RmWHKXvUPP%_W6k8$N@W@Ym0v|=wN0xJ
za^aCjU{3KNWNRMmEmLgnU~~G~;!}?KN=`U+WcuPv=>FMR=dqFYMNehcvo+({I@Lb)
z&a9_xx;Eq4k@f7(cy`Zv_NERmIJZt6o_X`Z<vHiMRQnSXW#5$LnloJURNE}~9CE~(
zHS0(f6mBTf1>7Sw{eNx<kQn~w!3{gKb13WMULwZwURhmV$rQby$&-Fi*|8@a7rjJ-
z&OfFo3J`87?1WNb9w@vBU6MI|38Zkpkk1Mw3r_48qP>Z#)yGKfdkdxzKZI<}gR>rv
zShi`rf2{vzEL+x=DQlbFGV|j79kXReM!FWuo}YJmCau$rPmG50;#3!ii@*c(<U@B;
z*1aR+-ZA~g1A5MVG-XEo-;zqCEtRX$Ut^1j|7XG=4~ip*gGP<b{4vBqS*iUt;vl<9
z9MnWUMI1EcgvFea8*#%H=cObI%BEQp2lWiA&}c?uLm&ty86pZ=5(o2<AM8~s<_AP?
zK(jp&%vTuIiUT6bsE_uOyGF?h_xFXOz41##%+u+o#V|k?Cy|5uZ0liRC?ez}NdcKw
z;iCky<U#nguR26#Fl>=CRJr;LDP8?AtN0Vh);K~y{)>I{oO7ams&eK<I0wZ=DFd7X
z&RI|a%abn8PIu09%(~iFOP8x;$pzpt_N^KF)~SQD_EwZFU8B#ZE~o7BA%azE38iu(
zTW*8GdSy$R8UiZ;*eD73CDtE~hU0fBGP^8+cfo9l^3~8HBd<XxQO*HY7S|2Oh~uGp
zzM)4;fAG?TPMAYooM|wMs}oQ-&@J#NR12vH^62-WS43PRE6iFdGM0*mmMZyvGCL<(
z{QhX5KjimIMSg#Oj34a7GUxY$ZM0A6VY=H-92UStE$bx0UM%g$tOGKM6Txy44uV<s
zQj8Z6W&*A&f32v+37DaoL&O((pPIKhuXQXl8`$#YeRj5VxyB8pCI?%!T<2oT9yd}Z
z_csO_szxY1#uC^G<hE+khP~DD3*pp3_-TnzO3P=Uu+nZztkwpwT5AT*9wr1dL}!yV
zL7mmr%}_V#>K3qan+fK0uXrl%H>Txg$W}g;hbMxq*a$hxn-xnj%-LfeVtkh0m1-8M
z7QbIBCmg4N!S;pXv8XrL7ZAmuW=4buXu?yS%ssTeHI0=jWN@8IN>YAx<&@4)skN!&
za>_*nIagkSS+u#6RAdcv0!_s=6F~%VG%xY=I#;2Yb#oJ_CW{X#-tZHnO6&2s`;6U*
zA`P_O1n0$56%O=)#f|q_Wwim7dC7`Kv|b@LI3N{c5zT%|y+~Jf`NdFt5Jt*YgqR>o
z=Dt{OFKn5_grgT@#0=o0iDDt*?s#Q20nQyh+V4-)XzS5$JCx=A8*q>KCS-7kH`d-h
zf9w2*J=u+InT>6!j_chEHFdWy-MaK)BwO=RrsgGRItipX%hhGLx;d_4fh)OjeB}7V
zo=^EZmp;DqNhI62JJYy(wsCKI^S+tm>B?6ha!1MWDU4PB3icn!>6%ytI|ZwgQ$*W+
zwFUfJ28}P%IdwFGOfoMe>9~e5h1>}0zOH5H2dqOvke71C{<YL)z)57QBt=m5%S%t0
zTazZ>{v4zVsMI_Q=5u8PoD|Jb0`nqG%u5lpEajyn9YHHoUQ*$r&JF9(Mnr0~qE?91
zYDKM}&LJFr#ygl-yn}Z7;2r9;$+W_^d50kjZviN2PZ+ZJtcfG1@wj<Ub$5BSBd01U
z7eetXA#fRl0>Mk(0ra1Fn}WpR?;{c$C>LHhYo|lP<&Z$Q6L42tw19i%GfF1KD`^yk
zpv02Hf0q`%2c42JI50?rJ8%FD@_}xjTOc+CHq<{59}*Ct62phZxWtCR>2O&`NjUTs
z5HA7v3k2jv5_2UGj!WhX0YM0d1j(uhp5VhEE&yA9APU?UNK1$ZDiRO%3jw^13yc21
z<v_SE02WHASOb6`mjv&!h0Kk2iAcA-GN}>XfO2BXQ>aWn`T8*o7XK15AU7oy<9o;U
zP9FR`^hM-uWUgd)s$&79yrUyW=gX@<_1vlWxZ;zlZ0)X0?XKC{J@*@a+48d%kO%F>
z|FhUV!e76LgOU2gZ@+u%-G^Mu;>Nn${#*X(!*d(=An^i9b)$QvJIgg@xW>u&ouQA1
zKKa2M_rjvXb0aa5$T}J`j>b7h(?a9cJF$;rGw0?SJ4Tr~XFcd(S!aF5S)X;bW}L0l
z%$L@C)<3g7bnbi9*gVQSbk-A^)*VDJs0rmmA|w6~3gc9gz6LJb;b*WJuvaSwc9@34
zSAe|n24WZI-~be0h^HxNFF@)}gM!d4d>>Xqw${fIbW)r`#J|;teTWWs<&7nMEA|yB
zL889!zOHa?-GPDPKFF?7^N!NgyYrPbqo#$@s`0nR-kNNjE%l{3q5Z}WMt(4H@he9I
zY;Lx^IaA)8b~ZmMuO5GQ?A^3;v&<zBfNDb712wkg769|JxP(ey3b~@yKAuKUisqxh
zx7D^Ef_d~$Y&p6N#!_`dz?pz9QFH}-#0;}Kx~1QCWwq*j5zUdUzD7=>88)qR4qNVC
zwM5LBR6(w#z-$F~SZjrv7Oc(<4s;Wsk;X4_?HXq_KSMt@$2G24kh2*+XEa^gvQ8+V
zKO`?DEo7wyxS2XTO(iYhcwxJVCnd4%WVCNcA=cZyC|H5&0={5y0bhYo5AO<^?PDa%
z#ldJW4jx@uo8Ah~7f|OD(3b79=g2ORyCfqxWrYxQNft2_<^8b>5t#y8kVum%l5ybz
zW`u}aH6yWb4yTk&!jcuAOEjgt2TSJukSGRvLy|?K@pbq>6S#lDw_U(QOq@cA+QJ8y
zOd`9Jr(qf~4H=MPr)S(UX1Q4;lf7Bz<|)@#&Svmo+V?+lyu8f9bskQuqcrWPU8vkJ
zaqh$FQPZOho9C;%^A#H)2Zt)LS8-IuhViRoS8pb=<t>@=mf7;{sUwR(h>wgM`QT`l
z+mzupO`4}Frgwa~|K9#N?%-lc`S`A}T{rh+OBypJjgwcWJzv(`tC=l%1-JpwknfCr
zXVUZe*)MwT_S`qkm3E~%k?bq8c{7}MvW(1j;NF2b?$D!>%G3#2Un2^rMK}g8C>+P^
z1Z0xg@8@GdzhCIVCS+Z*Uu`p%P-&EJZiA9!)2T_qDQLM4KM~^`-lzW7vT=!Ft;gu4
zVuy9>a-G@Qxa{^=73Fsr#suM~B|MLWIeZ@qD+~w)PU^K9oqUB<FfXaJCO68j&@74?
zqCsyoB=)_k=^bEM@+u|<FA4qelGq<m_ApohPCy{;MdTH|N|=Gz?K8?I3r|i>M0El5
z@Mth3mFinHEXxBP(bE$St-FP&8^3@z5gQ@9MuC}!E6v(AWo(<$wk-?w+p_h$GWEM=
z>-Ss-rNR5yNO4UvPtd=;21lGk56AD*dObl84}eDVSz_Ig^{}<!p_*%i_uv8f??lWY
z&fGi6W|02^BSka=l9#fVr8)2XruysFhn5YiUjUJSAi{Yl=wG0aLVe8^*S4S6B!wU9
z6`}&@1LV(;*nA2ESs^MC3a4%zn$Z=CCx@yeHfS&74U67rEWScvmC=BJLgG$Aq+GZ^
zbXX8Tj$C<Ch<`d^*XDvCkN8&z6=1ikx7uBk-t_XUdw-hSzv!sQI_fiy`m{wBsem4?
zJh1XUT!VRplbGeqKg1`Vw+`Yg$7}?CVmD-919FvKJNg@D7hClW1=(ZZK4{@FvU`bz
z=P{NbutaWa(ApZ5HkOs!zA->aCJy+3ApEqXZo)DWi8X98cEu)BtVHiQ<mf$&-RmI{
zdp$)w#6R}fcpKy#4{?t@cCg(zNpz8{Sp52*AQjf8|0^KYdgUaL7Bti<Bv`66rjT%{
zx5BJ*mLd&SS^;J;sTH1vnx-3rETU;;>WG{aweFR#<+!HTb|iy*s8Cdzvclgw-x96u
zd5Jd`7SJ`x%J7VpKu}8p;FMcW(!jGsB`ABwotiBGEK_E<%Yw@r22TxdB_)`dFCr!I
zl<+oEGJz9cw-XSysaXk<R4!aI$*Mt-!{&9urhr``X^x<Dl$TV@dn)9Rd_r0`9-!Qn
zmmrK0Fs`7)tIdA>_w`h~PQ9^#5_Uqk!<r!tJeS+0wMQl`AL@4WO^Avfw!CW@GRxO1
z^cCu=@lEOq?XxEiJe!k?#Nr@xa*#Vi5ZIVw=0pihpzT+tAKu)2yeuPoPRJ4_@PBeI
zzsI{-1OsJA=!d}NcnBN-+Rfsn!FU`UvV81Hw53}R0X}&WYvP5&Q4&@if&gl-!Zo~L
z5s3*cIr|70Rdh4$@wp|l5^IQdP4Gn2<IIG{qe(+Jiy2DH^3#am7Q!m>QQ=L@E@Ot~
zC}9vY+&bY3X8!^*MbH)!*f4}yfu##SfDXwBYb_*Jqr{kSYp~EPsQ(?>#VF7V!vC$#
z8{7zYy?CK=<L!!D6(3e*E1%0$K9^#ksjB97)2*fto3m9fWU5|(CdYhPHC$}-7A|Y4
z$yjRUEZ&8jK-`=uX`U_Fma;5b95`#bblaTexyOcbYyG^tY%w?8bD65=rUHuOT=mMR
zdBIse&W&;DjW101W;VV&=iL9Oq-x^ruS$Fip6c=AW5?6Ad*?j+<~>!9s_Q2AWU5<6
zE%TM$$%;&6^QdXQyk_F^*n6W)uIW)t!zlA3+oQ_uAC*sfCa=y`Zl7*QSGLbIW-8l9
zO?e8$Waph@A0PYV#B|#<|7G-Ebj}Ge9-4~Lka0Flo`XQJ_?Pe9dvDI!^>_<aQvSc5
zG*QkCOO(M1k)6b>oUZJi<4&qJ=0g)ZWxMn5AG0v#ccK^I{@2azwVjRBf8q{S!Q~f?
z)~*KQFIu;DZ8H9H6AR@PjM4%(;PGC50Qq_u<yr;>u<qoTmL{KdP&W)gLoXFHd>3?u
zVS_FbtN<J2Y2E<QgPM9gX1KnA0WuBu6`q?>=H3ExGiy6J(0GAl9f^8Dvo))#&G1wo
zJe7qR3qMtTBT&6pyb;R1d5JfHt6X89FmDwDkQg=qThZSB8PC{7o`JhXQlaRv2)<Tc
zQW=L(rh|B)^;vT3i_*Lm*0@JoqvkX!yvFa2A=Ckyp1g-cRfcsT1G>5oYq2{OV!+n^
z@HcOTm7#u`m;P8Q!(avke53$NRiRH)*Kaa<=bOetbBlTkHWuYzFk}rHXo5FaASWe8
zD;e}9pDodRNC*L+@+vV!n%&wPj}grluL0Qz)c1Rkp4Ej|s6Lc||LHyX&n)YE;7r3M
zgAV)_TqGk8HXgLm6GkcrU<9DrE%<SiJIAQdVh-OD#e_ay4zXupLA@c_kZ;Dtg`;sH
zh?BBm)VPVMNVtRzMcSf8Vz3q7##TqJmDu2gFtiF0%r0Wq3z-t6AsMcS677e;K{U@x
zbXa0Qofq?iG-P9awT_A98|VSpl-Lg$ScUAa8|O#Pf6$Y)H)iaOv-YNxVX^brgM&X0
zf9-tjzUxP&7}z^;72-79U%U3Dov)=>$QHX#r_Y@GoA5sx4bGzZSC3xrK$HGNXtMp*
zrK$GmGhcr1-uJ%dI>5N(EJ`ttDY$?!;1GR;eqi{y@9V1LGp~QN^Y(#T2c|cFUA^n8
zs^iEgVMJN=#Pc`b{72U4Eqdg1Juy<-cYcw$o5;3yW?DPvT8~^md&58CpX_{S-}->h
z*iS7PVPuM#vut<*-wl+H3O6g4D8^cyYDdSw$&r&2?HMhwaObq^?yfIhzWefLU`E=z
zkmn&F4gtcpUe7qUWSuW$oG(lto~gZe<jWKHPW;))IcEpVIqDkeLWjh^?tW~A=RDyk
zs~y?)#E#qhZ|(ou()`<{TFUi0{o5r2yz_6DOjPv=tiUowG<HsJ>T)tatJ&67%KUZZ
z#;z*n=eC!-HZlLK-3&quaZu-85C#x4Z({auF?$Cxy<0(YfHPb7WsI1p)M4Ywt_s9O
z#j#*>rS{L4R)P7?RW`n1Y{SIGS=Z*2Y2N0#v3F$eMB`UB?|eylwq#4DWJ{Xc@(84;
z17io$T%Bx#LB6jhR6DW0jD9Ha)KC$4PJV(`Lw*}Ln>8+vij=@6jmW*LfM4?r@J>yo
z231L!vxEAskD}g!xq!Qx^jrl@*`|We(75t2L@_I0cfogKQ3m+983ov3=K59!_zn5O
zV5mrq5bjbwH9!m3Kwki;P3UUedpXcI81mvrL(mMT9gRQ=rBpxHf##q9J@Q9I+I$N2
z0V)2%kk0F=_2;6|WNSMKIrA~XpTZJ}m@ZjE(ZPQ5btd_6!Dq>RpCH+UP=D-lNdC-;
zfoF+|_#Ni2N;HHw;Afg5@<R3f<j4j$!5?+${?|^OK26M6vU=09y0;dw2+{N!1vVXU
z?GcO9)Q&Iq-rbva)XzFzN-=+HD+BDApeGEYyHXwVE_cebP_}83xfw%&boWSS>d>fb
zp#)rk_vr_<|E=jiH_erthJhR5GoU{`KXzv7#p#Z_FOPJhXu2C>h@53=7#RZ(RuhU=
z1o7@e;SWYU_|O0lk5Leh0mNf<h^Ivh0OB<(h-U&VT_@IoSIZ2#cOmp<wHQwDv}mYj
z0n}rYmIQ}Le0>|B9!pT~iiQgR*Qlq4H~w)D?-hWj9`S^apg}-Tt9l=@bfF!ypJ4Xy
zFhgxmxQ*E)W*<XVK<|^B1f`T{dxCCNc@#_6*NVu7n&=;hY)lT>TI5jR*Js}OtE+!;
z6&&B5;#3FVR!wal&H=O8jhI~!=a3|!$8Y%oWKYGp99ct8AiP6<()mU4V_pO;NpTIo
zb=D#H@B%)bWt5L+S^Ri**aE)0!ZTYU8g8ny=B#}@or~{DfC4dWO<IX_`wWCm;8w!6
z{}e8=;*aJeS$ZqV|I`A`0wrw4Y#U}Rn6+ZI9Wu!f+%CfG8mUoZ8?a5U^Q&a%0B$o%
zZr7+s7!OsS;p!(3&vMNvn#4!x>W{dZ>s>!OJn{T2S2OX>WNn(;Imv&;?VP%p;dZ8I
z*wA9fs3+@c%D9@QTwj#kE&HruCZ2XR!8cMFdk2Y2O<83wra!W{v4ofiP*}&t8j^-W
z-v#S7)(Cn^;VlB^%F1mxO$q-V9t%Ms2z<#1pV`7jY=N?DcX<&@FF__EejovtBVKJ#
zOP~iuq1N)ZW=9d4d!S1X&5l{l2hg+^-#9yRcC_t-^Kyi4hw>#!#|)qLY@PKS$~X?C
zEr(Wfc?~{D3)TUjr@gyo3I@Fo^l1#EABL}_p8_ei5R6sbXay9Jn1Te5gXE{MP8oU4
z`N+ExTZJhYDdM3)z(SH?3lpw@txT0(L)e~zE(Nx=8LoD6^DNh-V5+YEh_jE<BZqZ3
z*_d%PPQG*J^2e7yxjJ(u?P{EL9n9DdJ{2c%O#~-@3<UynxaKFFeFO*-SQ9j2f&mvG
zVJTP+dbvxngcOjgU^h??FF-nyU{Qg9JY^On8mCnq5;R92(+wIPm@%j`!X3x~ZHb(U
zcq-s?2u6cMy9LX2m`!3vF#2UEi8x3HcC;7}N2h|)<QtXmAk>dR4}`>Y9{pwPXR)uj
zbN5|y@P%>1Ozqe9eQEAoiiT{#y>TLNvn6GI<S3i)WGlC4z_8}Izaw3_eYWyQ#&INV
zIr7^jGi85+CJ(;hX*Yod2xeB3hUaJreL9}&aSyC9V2>$;sQ^2)Md@G%axQ*T4*?Yx
zm>)pb4i^P<27%!0Pq9OP`VT^ba0s%z(~ohu#7(Gx3cd;mAfUkDgMhNTvi7=+y>4>H
zbX(e9H*4RSG9Y<$jy7c7zKk1T*O7MnX5H->dwa_8$l+25qtFR6_~=fbp}X5xoaaIW
z=h@*?CtmGtKXX{;^(R6qu3UZxB=qEqSOJfbfSW4da`Qc%{}S6U`#bm%-2^<0PWQD}
zmzX-Xe(4D9VYe=CGqd%}ZjLQm-cZbzEqSf1d#Q|JJLn}&DZWZCb0*d;`x9|GU%70_
zM#rV(QB2`2xqub;XC|D!CYv3Q-$^d=9|c-4I#38-7=-`uA=z{l+2Y{VPZ^80z_(6B
zK9c|IKuKQjU_9JM4ue#t_P~DtXc-W~{p5d}i1L>rc=#lX`mX>4D^}49?C(6=edx@q
zC%aFRfPDG$69Ty-FhqXoHYokhvQPdbV81W}RX_!qR6RD*G`;MkXvaTL#lNEJ|Bm8*
zMS1_8I{zzb>)%r+{s&bLy0fdDzGi=7iqdrTg#8JH*WX+)o}}r9Zz#-v!yAqpX!jC@
IIeF&)0sq$beE<Le

diff --git a/crypten/nn/__pycache__/__init__.cpython-312.pyc b/crypten/nn/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 2edbe68008216ffeb67574c51538806523461593..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 2078
zcmb`|NpIUm6aZjSyS(q&oH&jh+wvxFaT4#cB+GUr$FS_Aco$+K(h>_kQW;XJUG&ml
z(R*(N+JDf0&|?n;1_*lSskfpo5Fm%5^C$}n0<=hh=<w;yXlBTHZ%F;r+1aMZ&-Z<Q
zfBs`!QGTOF^AorZu1-`%`9{$dUA2@S0xCrTOT_>*;-D485QH!cVT?coqY%Xy#4rwV
ze{9HV!**!L4(Py6=)^AQ!fxos9_Ybd=*2$h!+z+;0T{qR7{nnM!W(b{Z^BKy1-I}v
z+{Qa_2Zv!8@4{WY2lsFUM({q|$59x?2k-#LU<}7$93R3%oPY_Ogh`x&DNH~Dr(qgr
zU<PMl7Uy6N=V2a`ki-R8z(rWZC0N2`SjH7t!AI~2S78+&!()5`Pw*)`#Wh&Nby&v@
z*uYKL#4XsuZP>;g*ufN}a2Iwl4Qb3k2D6aGJ=pX29kz0~5Bqok2Y3jF_za$@N?Fk(
z->Q(mj3#2g%e*QHRjAXFp0wkdwox?Ev=}$N%S1$kwY=lHBD$N-`a!P@UYcGd@03l?
z^}Bk~Tn@?F9(SsjeorL7*qBu)`m+)nqBo_ps%O@XRK0xcIM$Nh>MF2{>#kr**G0TF
zq<xoprOJ`RaZwkohMe4LEbAhaX09h9X~!-xPsHT6>oMCC-OcFvd9lK(hUjc|95Y?6
z_<mEa`F_)1)v@dTs&zS*R<FxJ!HiiK(Tv=yQ}aapI*>m!Lpie<9_b>SeO+Ug2xj@Y
z<f1Af5@zcnx@R%ZGi(vbF|T595y}~eqBmzbub7pp8=RF5N{a~RIIC7fJjb0{m2x3s
z`;6;yhZPaY%Yrd3+GIV7&bf!|LPQG8E7U9zZ{;;qFqphj!O?4$A=(<>8MEXy<Gd*o
z81!cyGtSWP<Q)Z%oi9ZAgxO_7gieh7nQTZ`MfAjQ{d~3+jn_59_Ds3Oa3jUhqFF}A
zlshk4X2}rI=52+Fuem3ia)R-tA%ex)D*{FQlr!6{I<6t&XSRF&d-$bHijfG3_&Ik_
zb8P!UbogQQ(sOvJBD(#SOrh)Wb4%W8*Xf>?I?8CLdrQxcjy_B5^RPVKyq)MEI*Bf#
zo9H2Wi3kxT`iOpFfEXl(h#SOB;udk6xI=`97%@!TCGHU;#C_rcF-nXP<HSQ^pU4ph
z!~`)(Oc4oUnwTNv%TeL8#2hhCB#8xLkys*@33{jU72*-GN<1c>5KoCUVx8C^Hi<1_
zo7f>z#4eF04v7qrCH5pDWZI^8lqm3L)Qao!AThgSxPD$l$da#yMj2W;_LJrBhVD{C
z&_9+RQ>Xu5oqw%~Uk<-8AJpW(i}11e|J14fAnRT9JZL5PN;0^7R2yf=KTZBYqC$zN
zrZLOXwC|KF*;L+*COxbsFOqz5C0XK^Rr%y3Z9A!HR6$LfuU@{3Z8U1J#ZTo7`fqS+
zl0Sl~s{Yldr~_}5$zPQhzbG%>1~%2eTjf)5<*)LUs;Fn`&&uhau>-X|@O6}*$SeN?
D*;F4H

diff --git a/crypten/nn/__pycache__/distances.cpython-312.pyc b/crypten/nn/__pycache__/distances.cpython-312.pyc
deleted file mode 100644
index 328e0b011dcd24076ede72f3a2a879fc370bef13..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1764
zcma)7&2Jk;6rWkIolR)!q<kbrd<;||ujJU-6+)FoB4|?q5(KG194t%Yt#_Pkv>#?>
zOzg&ya)?9@6mdbh_DB>Y{tzxiL~3Qx3!J!>hDcQp6>oOec9J5*NIN@k-q-K_-p=gL
zlamt&#*detu78w8=no|f2FUR^w&AshT;yUO1-Oc_T5G-*WU3jAH1r{IGdsxDS>_;<
zxK#CS*3A8hK{9baOFxN(fJN@p$Zh+qkr*X&>Vb~0f&4Y(VW^5-RMlKu&A9q5YGPO0
z8L#RpM>WfG>laVEC+q6iF6!W_v4YHOf9iT9ypXMUf#*BilU?VjhR{tW+dLGc5i5xp
zYRN4oHy8^^C2-_grQV@doj9R8lI?mC+=5nHGM6}h6s{823rZ6c1V*Vulpm>7Vo`0?
zB<sk{QHCwDKx%H2JB>{UPHGJ|lB7fJt<75CbPBaE7*{fA;uW=1lYs){R8b@~))F2-
zFt^hDAMjN%N)5P3!3$-PL@nt>q2rqsvg8FU6d;j}HOAS$P~a(Ek^)O)i8Y<JFDt|v
zRs=~&q3K7?*}%(CM_T|XUP!L<ZtHUv#x5&sPK%8|&5@5oAkV4{C@s_+A*od)OHhzn
z+Gah)wnPAnBS{O|qzWK)D5*XKl7_PXGgOfXCtyS<6vPokuCWxssW_jtC183s&Hztr
zdZXh6EuV=~&0SnvgmP6m(A5SMEm>IN@V$fuYks~+Ec>cCOfxjL|EDp0onRS;rSso#
z0ccnN#-I}m7MpwbY>p@{M&*bEv|phsCMfO1urWAh>b$76dXBHc^gZ4~65h#>a8i=d
zLwBA-=pdCa>fs)u!zf*}kC#oopB3#E<2(mueS=aj^dzPI41fitE|}ls5C!!!fV)3V
zX~TDfpj7Cv2`6Ry$(v;vw91__x85nIY?i~Y?0P~vVS|ZMtIO3Db^G#pMoNQpZ-83N
z!t{6>{bo!aU3~4XerS}AjQRV|zqG60F^)lp&M=_T#|%_pu?MxStE=kV=xIH)KICJh
zJV^Ie5I11g)cVsvJKQ*QbmZfz%?!T)27Rq#!D9=R5sKz{wK>*|_=dyX+q2IUmTKMt
zGjSQFZFE0BeJ_9IFn{IlwIB4KjD6$Ry!DG=@hQ-n8drc;E8ooj{%!ZhqB*WQ5yA<8
zPE1f5#CI;NFHrhr+woJ)7^QC1pfqNezX%by!q=aobd^a*O77i)3lIDz)3!C3?^9}G
zt}bAq2zx&+CGLJaO)3R}>G2NwOPkIbCvR)nnMVfB+7Ash`|7=!xx<;cBmIRKc<iza
z7q;%h?;**aOVD!Fpjf|;5?jUD6XU%^y~tk&Q6Y%=d6>Z%pIkzC_5phN@7yc6^xan{
I2wt)4KXw|&Jpcdz

diff --git a/crypten/nn/__pycache__/init.cpython-312.pyc b/crypten/nn/__pycache__/init.cpython-312.pyc
deleted file mode 100644
index 6ae4455ddf7c867ec33bde65b660420f21fdd048..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1182
zcmZ`&O-vI(6rS1L{(vou)yiK`;sMh{Y5a>EK#UO#BzjRfK*+eZL*267ZDtk(QWT?!
zB{8B0gGWRYHE5zYIB_+4;l~3^yckd35Ih(U#y4%ZK@(pxZ{EE3eQ(~pxBD?1u0$ZO
zBfrx=4WX~{;7OolY~KW91|?AvTc{5umAj}9r%+Oz!+i=>&Y^)L2=%E7q8OG&QM!=R
zOH<s_p})`aMAdnv=$*&K9r%Iyq6yJ9u<pk-G=^i^H|f2YDB%ha$yH%(M?l?!3iD_X
zC-L3j1kT}0D5m@k_W|mFgnt0_7|$TLoGe``0|I5qA+IQYb_Wug^snSl+H2L0koOEP
z%LFuNO3SG!C~gkF@tY{8JjW04gbMtM9mJBEQ#~d|IdlmX*yvw2JQH7x`Gn7PSmL^<
zFgbCl%^fCuG?R75gvQNrDpXEgK>15C&0r}m{6ja2JEMHqaz%}4o33eC=D6XSj!g!K
z?SwSA>|7Jb<gdoKo5{vU<Lu~(c!G^(Az$3K<C55t9TTA&%*bXbD^SOeWQ-w7N-&ae
zGFixb&7v)BmXk0ne!68RJPeoc0Z>0D(Pw?{^sT8|PewlJ&7Y(7GyRYHXZO8mc-ru+
zaV;9pcWp!uzwBL(cD_xnMmrY<SE8NyuJur4x@W5A;mD`Z{`Ea|`3qn4=Gl>Dz2mL6
zs&_2-SM-kMV8^!X?ko5<SQQwo8WfkqzuLrf*hI~LYG!*NDnDVq8x)lILkalK;LQjM
z)h=r_OnPHsQIUXlxrXf$;ZK^(ND!e98D_?`Q^a;y#;}N}_8h~uIS4)?0$#}H*pw5o
z%VF+yC*{}@9^hGnaY{tkWiXI(nqZk;HEN8Q&~z`0UOJZn{&C72PGUhOCs}xk2oPde
z79pZSj+xj-hKfLnx`yjAq1d+2<WRw7IoDuTO#WkqR~Gv8E7+EClEW4~%??38{z$wV
z)TW9t-mXSCycMj(wOjR7yOhbm=0Oyx+d>%k;>qrfhGXweEu36xU2I)yUu=ILTRVPv
Xt>Mb;^LM)Q=Bifv9a8k-!c~6&zFab?

diff --git a/crypten/nn/__pycache__/loss.cpython-312.pyc b/crypten/nn/__pycache__/loss.cpython-312.pyc
deleted file mode 100644
index 7343877588a02ae7ab7bfb7c54c7891b384cfb14..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 9820
zcmeHNTWlQ1mF=DvhtHuz`5{G#OEx7>OCwU09j+}ajz!A0WYM%^(%FEf($k!7l1<M{
zkE?qm4mGrdtN@d1C6bYcnB*f)Vjvdm0QwA)U=i%cVu9U{p_zcftUh)T1W5jDlMWJp
z1bc2(_wXT#Qj`Q61KS|0yX#%I?z#8e>iLi6<^~1VyIcP>v9v=`eoZgI74;vMeu{_7
zim8}tRvD6abx1WsW;h$lg@?kb5>lR4%*c7gj9TG$!m`~^MC8VhTW3XTxlxfDM{fP9
z+?dF1KyKrz+&Yolgxuy;xp9%(g51Qa+<KAQirg)$avMsjw)J;3q5j{gNHw(@d)6_F
zSt}!FDN}#S%2GGpU&CT81q)P$LZ&(tHe)l&D3*J^ekfvw&nrVwTIx{Dj3TX@Q6|-)
z_<*9-Rik>J<GNFa8W^q~!?jq3+n&X3C(klj!*!WAZg?zb=j@Ejo-cV0&x}9lGHTT!
z8fAis(6s28{+C9Pd{e!wc(}{U3k6SQ<*SW~@{a$iDrMDFU;YP0;f-EhP{$0tLu<$N
z6}7CE6+I%~6r~)(Td>bcNzuan)kw}V@>4swWfn6YO?|h^@{Y&cVxi!0&oZ@GHHsID
z^BDT6#&zA!+n%mh+xi{vc&?DOa#kMop5)x&)%sdT)h734yP%Ic{ItPMEmDoRR(6y(
zp%dOrJ=N>F5R<OEG(!mS+{d5p^m2vH$xhz&aA$^>3Z9kk%;!6^B(g$@llD%v2)TCz
z^Jqh!`w)^poKvpHn=e?G2Iu1s{4&1#TI064*n5qixxRIGWlzt-*4|1}@3rms&qOY?
zT-%wPiTo<QeF@E!j4v&E7CVr@ed%5#*n?V`sjf&>3-wRk<1b7I%U%(KrgH3%awW`L
zaH~cPKIT?qFGB`nu1ouib@Em!s`Go8YL*M~Ux7=-rM6g3%dX1(k1ezuuEY=XEy!9k
zRoX}~)jfE)3{aMp2|TU8%Bqcxe@p$EI-p!p`!T<}QH2Y!t(gyYHe+P7y1pV|`Tl9t
zcS#=SlxvAk&3G5fv*o$LN+R{<7v~eHN<1a!R#Q^cqzx6y+=qwPl-Honvw^DKy`tC?
zRA=2ai<<BFeGMoxD$p1L8spQUatOE!_lx;wR<|Na+=u@qhVA-h2xCPzl7zd}tBq%>
z=OM47H7Es}%lo_<K*~yxJFTq1YbE!nauRwsjJZySro&!+Fr^7$WP>+(FNcG^T=l|E
zj{qR93EJs(*Gk<ocJ44rFMKwlc%%U0nxMT~cg;p;BZ1VsyMn@%xk3k2sRLSQN*l1V
zz-+d}th_)O8zkGrfHv3RF0)5j-m*-~?6^VUuwZ5Bc_b$k6-rlDPJRZ<S66USR#&Xm
z1gXKgE12ZB)XS=>TwoE{p&y4&tDF=}3s)O#*Ur11k<VDwI^P6T8+u_22F2{OP&L$X
zpc*DTk(T&q`ndk^n3cCC3;gk^-oQYNS)So}+#V@<macak&N@(N_wf!NY5Hg}FKpgQ
zNv#vYlzTst-;!PVPzmjBx%S9o-)NY7=&ia%c5t2@Tx@;lgD|rHD6H34+V`khW3}EF
zsAXb?`BF8KwOx;Li#dxMo>h$sFHo(wU0q6>Lw-uN!CxuFUyV5<6IRBnw(9!Y1)y;e
z=2naGZD_-3m#bmhoaDRcDUvrZ2C0)vh8kvuojWHjP3!svPaXJkMbu9H{u2^N<G&Ma
z7hnD7SKn&;K#1k@y~`wrWhHcf%W_P)cjw&EuTNcyTxZ(b?LSOFbXyL;aqLp>T-)_~
zc3wXF#@RRBU){6sdi%b`_U`%i?yK%X`(tyFxq<K0zaK?a^ssHmV%y&Nw!LpZe0AGG
zTldeSKQVvSSZVA3#i{wW{z_B7FgIF=@5OZZJ|vnnw!DKfI*|xNn@&qZE2>Q0z43|}
z)lMP#BaB;P;?kq<HSWCLwtdY6Dox!VMe6IHQ{TT^X=Ro8ePRMvLOhOkPigh!6G`~+
zi4D4*6MO^DO}hR{(a8EGb-Hdk8C@4XOq$^BXf7sKZT4MZ#v=QBMdf7IUGhCoh#eHJ
zS0rM8ccS1A=ammap=kW0cr>bg*rG;1_hC$p?*Dx(5oKb2qWT&$8Thg#ascZ{PYC2D
zQVPRO*F8J%BvBOOUr@h+)TozRP+gZ9s|b#yHkRQQIZC{7ixH1tE>;W%z`zz9&XU1v
z-$A%Zp3~Tf<(;;yyy(_4U~();ADEpNofOd6mOSK8&hW+$r6<$O$eYXq-Yt*$nWc0`
zgXm)r0~0x584NyRG1GEE!bUIy!#yOcbaXJ$ljLc%o?%EiIhkT5jeSl`JK0xz8a|WN
zyHdlZ<GHD<-akD3<zde$Xel;~m6>8p>LRP>(Kb1W+kRHk^V*jWrsQy^$1QFJ^XyME
zTS{ld@UU9fp0ZLwp}(@)k{BdcGr`WN7|Y-zw#N-#V(z$6fTT~`-Z(bGb37x<oYA1K
zd^(V%%Sf)9@yl<B-7l*Xfj;0pxB_Nb4sBNYauV8E_Y5M0puS+5p(!}Nja+(AYog{_
zgYj0lEXYZy|Kp^cFBHAiJDw}L9ve4KK{VKF7cdi2gr|s*G^;VGV*-l-=~5@FYH1DG
z5`ddZ_^KT^fFqcOOa7IJP3y%|v!`C4oa_2t_qV&h`^bBV2P*OBD!ZRsK$>{qTI-fe
zN8X5De0BEKg~WY}iT3$K`$A$*CB8?1t^Z1tccCMGkP>o|{9#H6X;&19M<RXvkszUp
zE|FovaZ@zDv@;ZaP*$WmcL3a2Uzfn`PwxP?#)#`=;U#_G`Y;u$6et!TDpZoT;gbc^
z;jA_4u`;Wnl?`)yY#dqtkJ-Nvv-}Wr74DZn1jaMs3LNss@wx&2TBL>s@OzPJJ%;4=
z;df^C%<I#OiCy!FT?+)z2PFD9A({73LM&PO%%k)~$y4}W54Cn#k&5pCYIQxm(np>L
z1r?~cJs;U)=gF4$a&lQu<~{BdN}_oHxXr-@<o#Xx!Tn4^>?LxAY&Zk&i5zE4AZ{N^
zcKJ?nb&<#fBDDaFC;!gCDE4J=9R3@BMHiF;ESl&7D36^V6YfaT9JpbFaVz5>ZsGnZ
z3iu3Fw<Zlb8W4Sfp%_Ka*^dyxF)iM~aDGBw4QE8O?Q&<`z@wMaaQRL#YZ9$N_%LE|
zca5qX5MHut15Y1;Qit)sbO8xsw7<Hi-^j<)+0sVw-n*e7;)91r@J@Kg83YBuf!)|P
zB4D9s2o^d5Q-X!4aWg}b@bMQ|k{o(-$>`jMB}ud{CU(y!cE4#{H5a>|p6`CTlGweF
zI97=t+r*e0L+6~5AsUKiPky@<e!D#sJ+4Y?Lgja0O<ILL@Xdj6;XlL{ip{>YSrI~m
zP6?q&F1*T^h)!<qt!rwxqIDhYxaVv9Xfew`XMMNN4V?Qy?-2#i;if%mXAE&*Sm4eG
zSiGdB>E5&~w{XTOMju?u7l_aUP>9qK;{sHk!vGu)oilEnPO)O1A_XH0Zf7z#<4|}Z
zkVMgf82RS?jvFA`4gtns^0a^`GSNh4fj3(`SZ1<6#d@_gbGVqIPr*fQikS!ikQ_|0
zj*bp`I-#XgB#4c8z33c+5Q1|Mkl^_#(JO^5g0B1BpJ2md)+?+lE!IN~(kIgUO&iCj
zE)HJ7=QDJOoLq@vvIx7lR$DK`wsOKO1t@|tan@|-O=~g;qqvbDs|6u19l&Ducb!Ba
zC1MdVIp2?@VP<O5J!NEz7D>!tT}S;$q$a?0|6dk!dDf(NhC;Pz3cbWeQqZ+u_zB@Y
zl44>aKpW*o=FBjbn4Ek`R6VIppBZ+GIeh}ro5-F(R^U3cT1#{ov|#(B50b7ac|&Wz
zv9_Y6G&>4&vCoJ%xG_dyq`((*MqG=Z68gSM9mQtL_Pu1?v#wCSnzI-O%Y@R^wiw%k
z=*CUqa2?8w-8guZ**T1ZtdSB}wR6fgfiYiwWcAt(+*(UFRyV1QYxMU-EiRRwg~q7O
z5|bg-MUW|DZc>N>=2qY~^ic+)n|Yo8gcZD%*O^u~k1%oAt8V0Ff=Cjr!x(1W6_joq
zpKcU=3a>@SW$UihUW-42LOK{hq-j}GmL$8)x9_d)U2oq5w{;O6yI(*8x7E~q@%ZfV
z*H6r-s~>L_m7@IY?Af_j-u4zdpP27_V&?2Z;z%WaWD`&JEXLy^q0s|RwgaB*kw~=1
z_heL_!GG-v&I&d^JK6%j{Ex7-ea@Kexx$tGPY{g?Dn$^3z0bkp6Vlj#J(hE9lVyz(
zfFcfhU>AMwPS(uHQ@o!a%i`-A*}0lAyn}O}0_@GOixG|Fq!0VQ;o;CtNpS%jc{5Us
z@*7C;Ux|l8!qT?f1`qXKvQOSfL4y-K_6ek)63BkA$~GdMI{9lIkqfkUQv$mE21O4r
z{Ubo;&!M7S^NFsjyMEEW*fTKSGf+u%EhGjj@xe_1`~pVclzfYZ3IN;!0JBi^MIXRa
zz6QX7xm==C^BcZ-N7jGy7T>vJ_}&(+HoS1;`RAW|L7@3-LA<*L&2VZ!GclSQ#3Ef1
zXdL1rVv7KMp^&vD@iQ_Rr<nJIN)ihJZ84pkV1A%|1=PlAsdQY_xjY+88`;9RfwO%J
zyw(Nrl_L`iHAd{L?a7E5UTZXK7YdTHW{nXm`!}~8oD7VZ9^1<b0mx;JhAa{D7XA-S
z55I-!LHQ@n^iZ@LT=YzezC^L$=D(qU=MTSI`_N3kq`+?@0+7&eBSQW7#6$<Q!VqW?
zPTzO=7b(Fpw^EIYjn<;#lN<jM<=1M<?>BVXO?390JddJQQ*A3?s{MlDUs2%FXFz;g
zqhByg%(c(QlUE=8cYOCx{xbfhYj^FKiF~y|n1oDiil|Qmh~@qO54WORn-i{^P^Q(R
zVGO!%7U(1V-<U}GeGDi*k&^tWk;4!;9LCmlrS!;>-7MhWx=L)Y6!eRde?xVb&i!sH
z=D#>SJ3aS>HzPl4_<qArwk<yT%>1Lz%uFvNPE_J2Wbl3fU1@b2p5oKa$xn8lrKfHr
zt3S>OouK4hDxi<^;^SN!KF;k8ML+fXcqrQEn`Nq{HHvS({6RcdWAbw$C(V^#`NS83
zqx34y9EgbtYcEx=hhA%EoFB&z%l41+VH6NabMr{v538!W)T*e7|5BQMqwH9Y?NZsy
zQ_Bi&%g59$>Vq@ZvVz-ka*NtN^CCUBFDLI(kE>Kb_vHh-)E@Oxk=pdAXw;^@sLn-~
U6}m5{cB*~qrMo^-=q~2-zczSx?EnA(

diff --git a/crypten/nn/__pycache__/module.cpython-312.pyc b/crypten/nn/__pycache__/module.cpython-312.pyc
deleted file mode 100644
index f1d8d57b50eabb0d1c28d00a0523bd027d431a66..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 131483
zcmeFa33yxAeJ6^YAOR9wz?~v5#T676?Uty;qD0BsNXa6l$g~|0B0z}}w_Jdd2$Qkm
zx-n_X5fvvDRXd;Q+O4VDZIo$d%D%Q!rEy!gov#B3R0w1Art0$EOgi)ClSL<v-OjxC
z`=4_+fFP|TZabYf*Vf_1xo2Pg`}v<gPft(N;dwXvf1I7YqSyTm{g5Av^s*Sj+clk6
z=hgS?y7*sxmma?j{e}T!mr>8-OkF0H#@uCQe=P$kJqEpQz}l6{QW*Qw25en6z0RO}
zOy@N{uk)JUG4MLN>@3cLxD=oL9itSR&SI^IP4%TKu^B8j4Y4*~h7#*wv3A6!Yf8vG
zt@CF5ioPq$m({9!+NINVWgB$99H04Yt=vuZ?^!{8m*0HZN*i;LGtZal%l75Uwd!@3
z*O+*J9H=={Q*%CQ&O*%vzJiCSxlyi9{kx>*{AFs+M$I{znhV)TI1!txi7jHWd5F!|
z#1^yI0>l<-VoO+T5n_uqv8z~Y31U}iVoO<UDPqesv1Ke)Ky0}tR$#HK5nG{&EoZTn
zh^^AZu4b{-h^^7YR<PJw#JV)Gl`OUnv1@#l^4xS)vDkXVHfUn2S!^R>n=~cVu-LVT
zU8jkyWwGlKyFnA{VzC<$yGavU$6_}l_7P3&8Wy_+v0F8<^(?j-vD-AU4J>v$Vs~g_
z8(Hj5#6GHtZDO&z5Zj`OUCUy3BX*A_b{&gtMeJTp?0Ocv53!GFVmGkZ{fIrFiQULz
z4<h!ECUz5xJ&f2k-zH_$H?!Dw#2(SaKEh&;BKC1j30qj~F~oLgVz;u`PQ)JfZB@!`
zX0ay_`vpzxHWqslu}^4Xx3kzT#6GDhcL$4o3b9XXVt2CGFCx~hiG7sCb|coKiQUCw
zPa(EP6WhXKy@>T`Vt2FHUc{c(#O`6SXAs+`iEU-EXAyhO*Q)e*FN^I*?0_ciJ{CKO
z*da~qV=Q(Uv0u`}?q{(gV*Q%f11vUx*b(0WrM81C_B>)QXkrhs*o%lA)s%3U#Rd`k
zj3%~?#f~9%Toc>QV!w>oXEm`$SnMUlenk^|l*K-W*kAA+Ra*8qi+vukzo>~l#$vyU
z*cUXh9V~VNv6Gr|JH0PHuj@LVs`Fm<zVy7l>%^$u_3{r1)V90yG20Q*>l1z6*1nzq
ze&)M9Ue9o#@4U}FJT%n5-s?W&>mT-sJt}C{=_CxLTP)HOZuIF0A9fkM`Yxl_06b^}
z4m6=oi`R@W#b@=_c~hR(zay2=mFl%3KFyno(B@s^O+%~fUK@U;dx68cGQ8;s9o`It
znO@+Qt}Ji8HxsF{kva>1bG(52T~2Qf!d%2T5trv}@aE!gz87%5tH9gn&Bw1oFW`Gu
z5z-XmSFsmxy{p9A<SoXpRbIgJu2SzRgk?xkiZ}tKl;Ll=7x24lHCkSdUlm@!?XF61
z1;Q%tT5l!ds=ZbCRpYHjSnI7p=<?Pgtn<1Mt{Jts*2OGsL*9{oUvPJtfM>VI?-O{8
z(9`en`-Q+6Pe2&x8|dqycb^a#5_`@x4h}YIQ#G>8Kg3w;_VrLGKSV#!Tr6Hja7`Cb
zzR4p!rgJNCNxw=Ih%R|vd7eT0pd^!A?U?SYO@3GZ%5~~>qq-Z0_I)mkNcm$n_pnFw
z4EO>*(I2zAPmT2U^0xstH2zqsZ?H!k9S-=sF>^rl^bOw7$4q`-f3Kg~E__<n6c`w8
zy4WPH+t|bt4mJ%AHu3C@!=otF-8a}5aJz#JK5UJ0L@^5R6LoP(cel9u)g2S2d27Ml
zf{ItuCrp>qm6vE?DSl@}t@bNvlW8y87m-63H`3I1Hqs~Ya!rR3pd<;8h#fGf_Zr6a
z0cGUIbni$ra8?;VHQTE?uW?L|(DW@+ht6eg7t`@EW*Zq)#^h7I5KIwxXI)1A-4qxd
z_EEP7F|Ka6%OGY_wsa+v+aD19G`E5vX3;046@9~E+z|1I)%fghKyXPHty%N-mw)BU
z*KKn<CerU_=S>A(sawdd3TIb^vZ`l1v*|O>-aH+0><n3ViaE&99ydhPWi~_wc+oCK
zuU;O4=kzW^u!F5;+75e$2GP!uo`7HQ2z#&uI(>suPlaA_Xh84`3P;-8PYOrHp}-Ip
zj)3HSgQtZdQRwaK_wju}B?T+@c>4RXgZlhJ@5o?Jpl@hU!2ce3x6yz#VqN954+Rbk
z4EOs6e1lkUdqr_bM0A=bfRay*1blwJ==i9mQY+j;gM$}?nbOKqVye+gKMngO-A8FU
z$Li4P{gI3VA?pD)G)qRtfs~7%F*2n`ePZvBI3OUn;1RvTFo6hk1GDezZw%(k@q<GF
zp-=6FSc1ZD82KVFdBoHHnB^P_IPLe-gkXGlcT%MM!3?=GydIi;e+Gg}y1&gR53Sx7
z$=DvUZeQ9FGt#h*Q0K3K@=v}G#`Jx<F~eK>ujxB<H}pU<VinShY^B9D2&=LO^A@)%
zdBi$o@Y8T%RXU0%0$0W+$EG_&j{2DsVMl$)TF)D&fG?yp;UAU0_{#{`7F9qWBBVzK
zQea9_b-HoGn10Nlg2>A@lMXRDw^A-Tm?Gy@|7uEcq7>tp@hnP9e8%+eDk~qXQXb0I
zVUrtzO&vZgc>?!*TMK=I?3aJo*VEVA=kp2-4AM%cnWuGYq8FDrmZpKF>7wsTBYmRJ
z?>;ShyfLesDQ4|C)7S46eS;!Rs>{R{hPVdrF*C~_v+#=jG-g;He0{LgL3<km%Z;qG
zjri_=9Kj{sz1+fU?yK%dZuJA5KDB0IZ*+C_#NIphvinB-yjM^{5cR%AmtTBs;Of9D
zLzJp=VqesredX}v;c4&0;XC#UN?Uo)kuzaiy0~cW*!)%EWx4rNVF??_iX<cHJMZZq
z@h}L$MsFY1AB}@ZD_6U_O_VZdlln_P9;FlnFVS5`&XwR~aJnku5JFZVd2=g}bg>n|
zA)S8NCTkW87RggsTH|^wJi{;Puj#QYu;fPdzhS&UpmF$^FEAnw0vrwseZZF<kORWd
zd7p^gKH&5Ac>+E`o?B_{_*EeIM4zwU>u*-TD@`o#T(jWe`J_xr5+VRI2#I*za=9`b
z(Yr;q3291D5Q89M6MiU2R?e{pk$x9~|E&ATCEfirT~X;mVSTu;K2q37tDtc5z(mW$
z`Dk{*ONT$i0x0}s(S+2`l?wVeFiDYYM1KV@d_<ShEaTXoXO-=Vgwk`CU{k`Q8Tm?S
z<PEf0FX=C*jsfqU*ZcLCGsg7Ew)mJ)Mp}BnvN2<?JYUu7e0jbK2=g;cS-mhyQ$_px
z)KK7zG8+UDXflMMUM+O+_=O8TU^o2L!i)fsNGs2NEytJj(lT&03!NjteL~OBU;uO$
zHNeAb^bC5FuaLbLJ%nhQ<CoRWojVChvAp#fC`KEuzcGG6)w-7ErKQ=|%c}<Pd$I;C
zI=``|USKbqYMxG>g|ZEU0tnQiB9PTCW$4;nrkK(13y5~CftVSaXTTpbdc0l<`T>CY
z28LoLY8qeHwA!dVzOXmpS1?xs1@Y}agiros2-x!e$f?WBd1++A6fF^6Z@b>MP|_4G
zX^NDrd!RF>R!knAXq~E#I&#B~@|oV7t+%VUL^GY&tXHkmdGnb<G_PoS-&B7jbM=QQ
zNd1YQK+<y!Ee`!n6M}zTgrJ8uocz!`{aaj(05H+89Kzj>?_lc;!K!1v(|vxTwd3Yf
zMlpQc8VM)UNJ*Pr+==(4+dbwGrNZ1iUocM^p@jG+kzJyN?v++fn69KxrcZfqTZ{i`
zz~=8Sy9bFV<W2X>BQWR-To@A1t-Nt~HwkR=+zFZ0Wj7S?#V^%XY_Pr_0@QN79?>U=
z46XyQ4-NK@BIwc3t^|YA`I3{eh?{9VY2M}a8B38qDWse9+f6A|*qgy%@0xJonn+<o
za@Z?wL6*2hMv$`t{}%5dkT9A4Qd)A@OHfnn0?ef5B|Ivx!(gUPhM8EjD??|X6^0j$
z<EAkagU-N@;HC`Vri?+<GRDGj^Oz|qtk#byvUCu3kk^k}#w-$kwVHI7*AdK?u&gP#
zSza#jD3(ouGHbPiLxT;XuV+N`Ll)9M>S}ENRNojQYN{Cx5^2MU1U1Ax2wW+g#@d1R
zm}OY>_4Zv<H&ratKXQssn45o#=?DBoS7LtY;V_5_3Od_3`4zVy`tZg7H3SR<-Lp9+
zw%^Ukdu7u^Yt-hL3WRONQG4c<{geBrIxn{a&rVlP)!(+4Muo}+VMAEh5D_*#(3#Uq
zuG*(eQ@zog!l|86XGyfe^__h;I&K-l6?<-Z!xaZZfKY{H3xy5g!iHIIXk%-na4!~7
zR>@RLw5a%%$AG-EN<K_QLHAR1_L5Kh7-`*eE%hyp`W^zO@<WqN%R{Eb31!RQG=I<Q
z{B|v)Jf@eG4Pr(>SuhYi=!2+8M#s<Tfw~QDW%;cP69XW*_%lY7y+IbMK}cb68H4AQ
zoh*Y*@LZCxLf-Ry;u?j{IOej)Ge}&R3<#BSl<W-PFcL{#Q!2;_RvlGpVZ1D;0ig<H
zU%%+{ct-`_MSyTWptM;e1ywBNjK@zLYAo#pXj>oST1Dd8Vky9R^hGA}86aPaFYI$X
zeILt~TdPWBf`!t0Tl(n&O7R~>z-T&q=G4Z8oQg31w^h7#VK#8HbH1keZgxp%RqL%l
zc-5gu_TiBIaI|#Ign8at94)V&FfCXM!q$RmXV_YL*XqF1^G@%*V_nUWf--@qL0K?d
zjzuh3(gmYmZo&9hUN9@7&49w-eZ~@Dyaq8Bj6hQ+`k~edrs=0!BA=G1O9U$e;%>h{
z3yv)ftPB%d8RB7@>NX165yYW$S_Sb)Bpt2LOuY<h;$okpT>BBovmRK;uL<LSTg|%{
zZU*K$=bLu3S>HD24X@fA$=(yP@A>Iwo1lgb{}#tUJ})Or^QRny)KRA3vFVqg`$5Co
zRbW9gC<76!31w!zVD#gGh!!v;<0r=Sg=nG-bjD5EI+joGH7d2|q5Y<0a?&xAT&mhT
zNK#B^i6BdO#tgkAOEHox1$!b1-!rBsOcWqOl09q<FO!n>NZNM*fM%D)^KUQ(%EEl8
z1<oaN{xcwJ{0TtO)87{u75e;2fsEQAKB4XCo(4rYN$}9u55`qV*D*3YJS0LM$2bD7
z0MXS53FsiqL*{PehGft`BzCLNnZRpL|A-eNb8t=FK&w4{en|bgl|m&Z3e}=IQK<F$
zdOaik0bz&G-99wv>vq+%tfFV|oXl`_`^BDaZOXN-dZj#Kk$7DsOzf8P@R87F>XwAm
zjRV6yjUKTta0bHfzMgKErpHN<2{t0DK>;l*;*dvxf;c@%`80W$=u~PJn5)Eb7fGHI
zvoS#?PZiv%<QAxJ!ZYJ4!143BAzl&n1n94(f_9gciKG*uQ9jjS!R!rq0^)J}VDJg}
zj3lOvGK!g5<zgkJH1_oS{e%Tnawt}a>Qrdu*0xvTXB(GIL3qUfeFT7FMY>Gql`p^e
z<&gDcsO)6KdUE2+jB0uaxOO)qTgG}bt>GM3B%^M^c-N5!YHPt>61JC2cZTh&XWBk8
z8Zy)F>kO$K`g^v03%0hft?m7ui0#;-nd0yTpVM@!*UjX-UG_%V&D?N#%Um^rq&Tv5
zp`<=sQa{@nE?Ixax`Crh?bfF)T!DX!1gBRLJ!vJ7T;j>dY$gQJh@T8h{A65NoWaQ;
z%{o)b8Mc@qdB@rT>(dVohXmIo#vCF^))3T*1ARfCsOD&aY&xEA;-t1us67R(BLo$Y
z4s?nmKDI{(xxB=$shsaV)XAHrY*My<5YT2N=1(EK0jrK+_lg(#{3w*kUr4mh+A3?O
zu=zYHnpTPe|K^35wFini-@qy2tQlxgDp$LeOadqAH2}RxZNc?>9GW#tjaR#+bORFK
z6lp|=J<R0XfU-;dGP(B@7J&E&1q|Dp@J7w%{6sx|1+ygjPR;wPh-Nx5F0OOx3Rf)@
zG=vKppxY^Eh!pH3zOi6(KV)_z(d_(}4w1~RK$6)BtK$U}v}f5;{0F=!OA+shPcnW{
z#(!9vfENk}Xt)G<+hEEV_`f*b58R*3QC==2LA|)^GdW9)0V~%sj`C2hMN_VYN*}k5
zr7Xi!THjT$`CiZ>&tTjAlHr=+t7fwfa@$7EQ$C`*Y-QWW<jKJvRc27;F_%bkm+Yei
zX&_+$r4*WX8PO;+NP<AEKv4bAmmm{dy3IKIDUe_gn@swJZHl*HA0asGSZo`$NNRyb
z#>`e1<BI<m+^UMWboo7-OoU2A0h=fSI?Bi?bJ#BK!#cZR5ZPuWkS!DM+wjh12v1XN
zDo2h=GA=-%jV-Btn7TJ+<12{$U^2Uy5wqtfMwe!XJsbc~slj{+03?Ete}#{Jf(0B5
z6zEEXh2k~g;x!A!>%ztBBE=gX0HIY*9)d)(Dq3DMQ+nNb^Tb@wcb>Y{8s4;j;$Sqp
zWZD<Xu82Ub12k9pp+#rUfeLw{ra4^G9I4rk{OL#a;mnFD+w_TO)tZ?vUOhLLcdO!e
zO5V4Hw{}b!qs8S5#p}bx>*pSMe?zEveWduvLgtZh=8+H0l=Hq31wx~gbyWZ9Vm4a(
zTuW2ScK!F(>06pD-&>!G_vB)Sdq}&y0_k1DJCb4$aA&myA54%fnYms-G>n-C9b@K|
zAQp)d#!Li1w&UOBN>c45lW}?V%hU$>lv0}owOM|;+D45oljpHG+TC*=9HInV{E!Kd
zEs4<W_4z@vF>P2kuozQ}d&JTDcohIkuPoR&?L)l)tvKU60bB$W*8?!&0clROzfVwA
zmPCR>>eVe==mP*brNXcgq69#PGDt$eOxYr&=klU_W)Q;JXceil;=9lJe8cYZ9?`GT
z^+X`}09L(ZQ8Lgsh;D;eSf)@CzMk_92Y~7sY3&&a43V}}2zX!+pmcekNFwZZmr<lW
z6SJUfPtO@yEGxB867t1tnn4w5KgUv)W@`4VMaq^a=ZodI{g^CwU<g(km?t+)ORz}V
zrb)j2F{<!SAOJC&!M5qzaPiu?+)(k_Nb#ezOFQ+_Hg!0|4&j5%kKQ<b>-e8M^}VOQ
z|3&P*eKVcc+iqvp(Jt-OV?(VfUnpq|mo(lS36(TPN_J2YC-hp~#Rre<x^d!G@1G2O
zZ{Yhwnj)|<k&;uSL~O_pvGhchF5X3et*5_Ko=kk~)dv(hHkmn0AJ}}2WKWk|t4``T
zRgQ;^N5X`JM?+dH-Qwo6=?Tg4Q{B=s*#Y!VeZm8DPg@-33@%gfKPan4!SR}%rQKMB
z82DC<+ft3fZfN~9D^@9xArKIlq`(;rC_AIp*Lb?IUJyqHxylX-Vb5uw-vvI|C$quc
zM&Xce6gx^(cV5qs2*fZvG{{tq$_~-&I=(5@eGp4Q*~CUOoCPHjNuIIpX&gkFWEc`j
zDPpN^u(dE240yzI^qGX=u{3o_!~TmgduQk)Z4*|QDivqaV=cNGMjC})Rm+)2wEq$U
zEdNZMJwIeCy<1fEYQw~#XjS8PEx+yfjw4jLYvRzny&MKy3sxa)6=sTOdvEs5TX#vT
zUD44QQlE%h=+Vr)h0OABX8FvT+4FOz8{>2SaMSMh`$C!JcQQ}Xj(LK1OlEP&TC{Z8
z6V7GJJ{#e37)M=-S4>yTJ;pv=kKt)7Sw@$tc*itme#LM(-2~mmIK>*pEh}RMV6Q6B
zub^wkQWzx*-HD{rPFJN>UPDsqR+T|XxbQhW7PuwZhEv=B^pB)gr+{i!Yt@gLNU}7Z
zI+nW9Rvfdg^z|IL7;%fH-NxkY{(0(<xAQwnp92aY7)uS1kqCRv(z;D}WVzmW+E|*H
z1E50$Ny6hVBAK5&UXWQPO(l|K)2yaaWp`&`OqBS@={5lf1;8co=d)5`tZ7OTp0QN9
z=Qxp~r~l+$E&YA@W8!b<1WS)`+&pf&05)%(&ac0Km?zK{fW)GU#wT<a^oj9P`pdce
zi^~%HLj|_&85-^bs#c&-Jo0BErEYc8cLT10eqjtcv+CoNjZ&JHD3R?@Bxxi_2ogdt
zWvk!=v>H{V0G!BBA!K*|kjJY*!`+JYpb8V)gJpoMBoia~d+*Q)Xcmw&9IzAaZVY-m
zAl`r(uOHH`o-<5n`OJ7TP{Hshx3OTo24xgD1ECieu(2NZobmOX8y-SmxiFG{g=BLC
zkQ*2Pz4rA(qKeuZgCy{yCQz{&sh(y;*_df;M|uAEjM~qMSrbHsu5?Zgna%;Ta4o|L
zEGd!r7Fg(_&#^QJU17xOfkr!)BFQ~tX)6E3?Nw6-hq#TJnaMw5X6l05W#b5f;6A6L
zEM%|J6Nnj6Vay0sOU%|kgvsPHq@k^BeS^azl5{ZUVBK&ljrZG7AV(}JGZb6pW^>KO
zhzi~1mf9Swl<BXPQvD|s?EgBT2T)PAuDWiasySTM9I4v=vC)v9_CaC!bk20oE#vnb
z6MLp|CimZ`*a_Q*I{f)CO=r)J7E~-0)P@UcBL#J^7fJ8bPnn{5CDVbc1K@^o@}|$;
z&Z)gyR2iz;w@}p<t|B2~)v-uXN66W6KZVlYx9du37K-b`#r2V5SXULLx+KyMTHlRV
z8z%Ndiz;V2t~X5_VrXl@Q5JTTMPQ9`{Oztcy54;1wqxDhJmJ2<kh|tTtyy<t^UaEz
z&n!IhSoo30B99z+f78Ej{?q0^-yT_Waxuk}pM76v%F6yIQ&;AiE&lH5h0XiJoA*ab
z4@?~Sz)^b7S#YiW>+R@cR-67_&S8i;@e*~ezHfy@>Gh0X&RFuP`Xj3@yYO1s)v`#|
z>JN4Lbk|#Z-)?)O?ad?XM>I3{n(eA>`p|r4?Z-xZ{g{&6r{Kd4=;$Ylg&4?>59;OE
zPgw$%_fsa(`bOH`I?L;31n;fQ-MiiVN9OFkYg7Ix-%9Um&3m`n{%BJQy>B<~v!pID
zf?%lJgz0@j|AOHK^EKV1L3~1`V<!n@DjH;FNM=*@*HHZ^Xa)A5Bp6G0ye9R?9~n9X
zh@fK6S*!e}{$&WUNK?Kg8T!;Hla$&g^~va48IioG_gW{+6Z#25uMvkbQeQM1bdzSS
z>4w+vq8Zxp)ZmX5aQia>Zw=gLBqtb1r9c&CALtbT_i5V$=KF<ilKOT_VqYSl3HA`z
z7>67NM*OOv)_2j<6M!I>179VNVsmq96s#YL<|w2Fb!hR7Y%Z<>d~pb~&>pPsP|R`F
z^r~Lu40t#QggFJ=C=MXc5C300!N#Qdpus0nohWh$k|i3t8F0Nv;fPQItq8KLU%Z6i
zo5tlxO3asj(jt>HFt*XHBtFoHR~7R|%(;n7Ajg=9m2*5QF+k!~Sd$rpoyvp}B;C_L
z<R1ac!49q9Oc1GexJ@DfO~Q1TC&grn%deU7j5@Yd3>S#u&;oUmu?^rb$kvo|31q?m
z3_&K$F%uOmG6X>+u3|HD>Cz=G;`&9zDzKY@Zgs92w=?A7-`PkX)?k154<q?c0KBcb
z^qd9z+OU1?&7!#zw@%E%a-pnhp=@KgY-6NsGfA#CUA4ht!57Ub2<KFO;4GNVow3Y1
z-$=h{gh9<6=SGrIZDK3|*rdl$t}7*$a++IXFkBfk;um9@#6f%(33bLyg!yF7Na<J1
zDla6qjzsDeXOFtO1z{KKYRr+)J;fL=AwHivdI=?bdP(<T2C&ZE{L<;*?6x^mB!9=m
z{-`5A<R}9U2$dg+<Q)xV9*yReUhBWwKeKiAR3vZR#A8uM-fPvbH(hVK?QkJo)Y-b=
zJQQ{wdjGMAvvUzR4S2zjl?{bfo*<coPo#ZpN=e=Hp;MQdKGAtOE$YabG;w}O0!wHQ
z=am?cC8^nRi(3X%ShnD=#sPF86i`ax_R=tPbajvsJ;`$Vn5LMPo>p>=g*hZZ=`;jm
z34=(wkeG>5;|G!VTwy|cPg0k}QYkSbQ<TFVO3W4-(=sGZw1Y2&9em-ciM=l$BrQoP
z?=p2!eh9L&E`JSmu`bJBG=CF~9aN~FOiCgT5Mv1x6Nk@A2^c}_YQiIzg~9%J7;HMp
zKo&;{4@8xj$Zt=G#!r8f%DyDetC9H7xF<X^%n@w?f_v<V!=y=T6%URXzOo-Is38bE
z3tXDC)n{|%64k%Uq*NFyHKjZ<Ng1gn?DM#J(4M?(V&%^ktL4gX5HPQj-_^e`Uy+u&
z{1=SYUzl__ya{y}s1FHSfMHAcJ!(i~#4cwiXV69s5_@LyoI+*Np(AxKfwl1slfYDE
z4>XnwM`g>k1O+bbEqCAy1Wsp$V9nMb?Dq9|Ap3<xO16N2CYa7NK)ggO8Y~ko21Fdh
z0_qkaw(1{^LpFpd=;3Hw=!Z=R6Lv`$6!pNE!(R_g7~ACyLl9FF0Pyj%T`H-;i{T-0
zV4xFD<Fp`|j<7<Zls$vSFcRT3&=tK(y#Pl!B+!YBq%9ljB{O{~DX?EX8AvdxJF_oQ
zkzTNvlO9}*j`Hb{BcV%T@7jan9?sW|3`3aa(~LTyQ!Tqj$@_&7a9pP~{GS2>8->06
zAf?1Mp7H@f`vg`jWzkHh%ON&m(TO7zT%h101q3C<%M_4YL<~@H9zo20Y-A8hd~SId
zGY*XO$1MIYjbPSdhW-F}!I4vLnAnf>yCvKfONWeJq)xgq<Gxr%{PJMX7iO`n2zAx4
zx)bGsu`E6?sx62=SkT6;WS4x|L4ewbfN^Lr{1|_6JY?M#D%}>bZkrgto9?{go^(gj
zOFz`*q;7i4{C4^q>2EsN55V!)%dVG23c;FXr*E1v1NC2PzS<nhsUl-poNM~>*T4L3
z-Ob~_-SwTW_wpB7I>Id-^L3qfi>kp+6>eWNnu_zlG3Dk#N)P5}=ht`642G(A-K*I&
zml3Yn7jjlci-p&luQ$KG^ZL%&s&Cibs9UJp7OvYCsoSwow<}z?E7bCMr0!UxxZ`T;
zJ)U%`^&YsQw5w^;8(-ggee2BA(97M)-1uP?TKKUMUHF*#!2;F^utfNMpMp>Q6_~o&
z+}3Tz-`^v&Hkscmwc`D~CUfhS)b}=~(EB#?UQ<ePKIoT`8Te{BQ_P>yb{B?tpNH)(
z)L+4ul})MG?sAQbB;=9keMs9S1rt`QX4~}lor~LRkSHkyf`=Go!gUh2@HGZK6`8fj
zw!u77qZkja=GE}Csmbkm_mM%bjW*R`3fd@WpkRsZCRxA6+it2yF?c5x>Q6D;<?&C^
z2B6}x0U&aK)$X+&S9gSM!ds8cw%)9quY81AZ?-^*yJ~+V`#{KkAX-*AVVSp<MAf4k
zVQaB$vAge%wPGn*L+mXhYY1AbuuT3rEOsv_^T<d<#bTEaP~z(7OlH>20J+8vLz(y$
zE%FMbB~X>rUN>RlY0gF3WbyNyhN`7A@~SRGi8@WQ+lox`>;|rlUmXwID&KwVX6sz#
zeEp+rcDKxJ46k}LlD#Wr-}PCus%1ZEMhR$q-iBrS(QHLomUy&L!i{`(G&^dk@rq;-
zwX%(vR1V=z4cD(M37H!BDGbEq691X3!+7;d2P93kUObJ7T51QzAcqN`sH2>5Op!XE
zoE?&We~A_okpbKSBwIN<bn~$g9Uy`MN3z44;un!+3C>{4<{$9o|K~<vzl8ntkW2kx
z4ZrwwC0cz+v7ejCmsH-*YVRejsed8c?(?wp;yqUO<-;75MHZ$yqJz8K9!nawWzNXL
zu7#3Oo+oQ0^*>p|tZ+V-ACE<`jijHcb!m>sGM&EIjXesm!LX5PfX0AHasxDiC@~vv
zC^tGgg%~cd>%m(x%QGr2;V7Hb({TbiZ{jltI;Aj1NjOGpNUfGkQC8Q^G+wW~**oX|
zPXDdW@a6+h`Dd@1J|D`iirA}2IbWUB=&bECjn10F#Z7Z5?;AtKO_Acm3z>(*nTJWB
z*QOeswdp?<y=Z6L5p|NF&{2y;FS@auH0Lv9u{Dwsoen!DH5wZ;vg06%b^!HBkLp-M
zl>=OMG2^o&8ia>#2c-W=bqmxE^Vy%S9mF^$JhCJOGA1av$1Nz;vT~`AdC1-}^dqN@
z8nfCqctc>C<0cqW_jqth4p=^pj@Ou!X`~j6$|IS>DV%=i+F_4BP1(HNfgzj^Ip5dg
z+d;g0z2K#D5YjtNg1S#Zlza}{?2dh&e!tJ9TBEU?l(-(;{b!_uQ4h?(A0i>0RToFy
z{P@HUZZqBkA;ln$&A8z=Du4zkZC^?!@tz2^JR|?*68`$qD{QP_y#{M`FYM>2zZ_s|
zM^Gu4C<x7Ha>7~Bqr@d+!=+S6!?Co!UdXB0@e!u)<_Ap}k*2ESsm6q48p``2+rmd#
zZVWfI=dI!I!i6(K5KHkUQ<>605POKV6yGm-tf)(DFr>tonnZE)LpCpNZsk_SMJ^pW
z{+a9wpyP^bAhly-tIC+hTU7vWXlP)e7P>T?eV0z5L!ibES-I4u1U(E%f0=?`?7&;h
zfHlNW#kVLP=d_ih&P4FB!#k>4UL;h(-3X-Mjb;-MSJV*552i|Do50XF2o3ye#DS5i
zPiA_oPu(ROHPT_5(y+aBIxuq*YV4D5oSY4Ws&?KyAFkSY$Nnh!l-Z@fx5OQTK6R&r
zM{qX!$mEgf)*07K_1msDT(g~_)!T2L2(R9L$G(HI?}V;g>$j$c{MO`7?7MPc^1xIe
zWUrn+AF)?c${LOH8ZGBU{RN!*To3~(>5?M`7(OPoiqbe5`Wz91fgvcG{e%aC_hruE
zs}7HrwBxf811zvVt9Kg2U>Nxxnx$+82{Awb%%!Buzzyhx2wyyQ^tc8&EDu4MVGf;N
z8XENU^L+`LOfh<{PlN%I?K7F^z>SmAINAoRW;pxf07UtO(><^@CP=(=^O<@^yq?7E
zCs|egDmtHZ=MlQ5`s9uGYxu1=Iido8i?$xcV(Vo-{MKXkBR9{_bVYvJU040~nm5+m
zJTbE-vhs$@zH(^t(DeC<LwA<$HMCiIsE2H?okZ-<NQ6~ML>PHuO1{^i8c((wWnxCN
zzH5F)0!(cK?e}E+46Y7-sy3{=$6&EYW+y9^i2dcH-oVgVA6);_?WsN3Q%l#dv1fQB
zaS3Zqfigva25*pDQL}hw@iUkvVGWe@9<AM15D7hOaoLjdD*Dv*k~NeDXB>a~i8r2j
z^T|8*bp*iICqoo#6A?xA+jVc$y;*<9-b8uUCZLBx?$+$!<iVE@)Azz<kb+5GsKhX_
zg{ob~h@(edP@s;X0VT&^$>?@fFNi71C8ygYnSVzrk1Rmglr^>t!~G0V$ciB&6ljVQ
z6H@Atj*N@k{Eg6s6H1R++#ci`#qkGH(Z&qDgB**~E>i%>uj5BBU78D?;osAAPzjih
zydu@_TPYu)w#l~X)pzWxXpBn#%9=K@@v;?`0kZQqDqVhv>|lHPFMw6a{0hcb%cvg6
zFltIK9;5H%{)Ru;LE7@9*o5;pP-ro$YvyMrnZkVBJgFBOP!{3yglEjC`V2^>B**DQ
zoYnUlCk=i2xAb1vbJO3iX>4pSw=7pOcI66tSA{iW#HwW^Gz>q-jAZVsx-GnXp24K7
zr706eWLg;!3wpj=Rl+B;FdnnW3yzIZ5~cZPj*%sPjJ*0KV{|Z}ST2uQ0t#DuwrFWz
z<Z*!)Hy_3&X?wtGKGevPhugCyOY2xNvcJqmmTW;19%fQ!fX8F2JW3sWTUvrSl46!K
ztBgQt<VTL+v`p+_N}xD713?b5hghsb@J(z6G%gA3nAA@iKypchD0xIATbDJ+BmM@0
z8#qNQS;b;&AEapI8`nBWW>lYAxA%JnPI)~$gYwaODW7UXC8zi??Rhd(haJ^y*0&39
z6waA$Rm>JfT>CERn4-v)$<@bnl#1)Oh?QWv=2)6!Zwo#cI$=8C-w$25J3yuY1Ou2<
zn<=AXseOLL6UQtv=0nj&b9D0SNDXwuY<ZMkX(*xwD(x%+ZZt-QR5D3)6S0agT<Yi#
zs9R4U_yn*FPL(!Z+j(_o#8!T9Rry3KoGO)7aO<$S;~_E;+w(wYOFy8OY{Y~r?q_K#
z{eztRsIy?fSsiv(M+-{s7L+X%)P)P`q9x@Y8V!X-(dsp`9Wzhy_m=ht6!#;undyvk
z3wgeo!0hpbhL&(cOQd1Xyt6gBZT}QZuqwmO%9+lvv+j;_%l&++{eFqA95t^G3+v}L
zg@pAHq2+-tEqy0<^Ym9a`LFGL{mAtrv-{>tHlS74j$A#WZPV=LaKRUD`sO-rK82Ui
z<0ozxeBnoCV{RV&+2#o|mUmMYYMaBg&3AIQNx5fQXR8<L9u3z$8mViUckYgE*)i36
zt?g>t3>sH+$GPc#E~<ye1yr`}>bCi^eUY5ULUve`DL`MliV0vdpkIxb<<__sU}1$D
zgN{}oTSUyD6W#{*iFL>>ewzXZ0<DYB6faM!%(nFV6Pj(>V3=$;`h;`YncRu7h@&QC
zt>MZ}X-^@E#<MKxRbK#lBIM-NGYj23T9*7thJYrKQr({b5pas;H9T)6JWsu8XRdL3
z<Ra)Vkw64q7HiQ++WV76TE>ZwxE1l*R!Rx{4VptV`sV>TS``{Y225hB>KZ4R?XlMo
zNR#W6Td&s*x{|lVze-c1ahV!z>QNgUk&#xxb9&W!>}(QbH3?)Y*RP@`mF|IS9EM^s
zlIGx%G}__v(*gg`gJcyf?QaOYI?1;>q*ypP06@$ji=X_q;NU7b?DN7ui=3POE&<3J
zFeHon5XdU7r-7;9>swjU$)-ak+$4t^#W1bak;ecLf?z;wZh7-vyx%ay42^5ywGz%T
zXksOB^=az%)4oC9#bI%0uvI3%+>)g!^I7e7t6&-eA#xq<R?M0eBUq&r2w-)7Lb6N*
ze>-pcP2)F4u04D8*%|*r{+e*!_D}qTf1WEV*9X75*CT?U6lIHLW{NEx?-2aUjj=Si
zbRY*D?<pT_rTZYLg6wc`=mI!kdBpLF+lckSpEZ=`p25?w!5qQa;-fGhf{<>&10xM)
zb38gUBJ}z&i+B+w9$#t)Fa#VToPpuiAQJezjd3$a+lkHGQM@QKR~kQaW1n#_RbGVB
z918JsXyles%$SPIrNsXOfp!YT-$%sfGkF;_d8<&IG<k>S{ND)9z$4p2&DL<u)`k4$
zaNZ$l0xPTaL62ly#+JS8WSxyz^20)^5gExz7^#9;!m9GI;U_yXOqOQk8(nGqkWXR9
z@uNqN9P8|GA3fZ1puKbN$xioy_M^u;JFuh&;iVtzk_^K9F%!MTvRkEf0O86P_$ToS
zIu^4GojMC6`B<hqVU^>00CHao?NtTRX@rkN1h6$L2ogmT%S_w|!F50N-qF)oe-&ke
z)Pc!3cOx|8U8sg%*H$=S#8$Z(n9tijpR@h0vxM*<8G@bEe`L`WuK7_aVRgF>e9;%b
z{zaDh&@JzL-l6%NL(F7MUwBBrXf%?|7~x#2&RMjOQy0#uo85TR8OhoFd*(Us@7h8+
z?YGW{bJ|1pc1~Ow#P_K4e}q8d*ErGhCo~3xO+o2!kt-!p+&?6a<$os(SdSE-cgP*m
z*4ws{yE%n%EeP2+|Hzb`dPIM}R+kAc*kwymqayd*jq-3y)-pWXd7W4Q5*F1ZK3?W$
z4d@W^7Njymw#Z^SVBnfO#|mW`2&zGP3b_d@3vU#IvPi;`ST%mHP!{8;ATPn`R#q0?
zcv-4(HvGF0bV+zr)T$z?WJp%^RHvdtps^Q@0fzO$t%0CSncFS+Np1;PijAZZ_RFr9
z0hLAhw77!9a4xS;a*xJWzQFetGrffx%+u3@+YSIxaWaKmNb>6sl<b@wx1)26-VT=6
zJTqP+7eS|42H`43&L+@DxTl9he>xHAcE>VW<Zs+tC7pf{i9-{~tH0I}7`HlYrBAOT
zNOS{c(+oo}J8=)Y-TAahe-jzm9<>)vw~{_NY;%!4=c?<gX2!#Xo8Ya)kuw#9SLSGb
zIf&K#nowp<)RsH#q$FWmH9Rwu_+sW@IIoFLK;%qan0z*hgA;+P<DtyTpCakqjFPCm
zX~DiZY~TFdz+CHZ1s5JU7=Gm7`>hfC<2XIxV2;9Yh8Rtbv!YS9(m!A;5sf*a?*)|!
zT5*}hn~dIsg}6kH#JMaqsAtV&R3>g4GhMQ&A`LB72I<l=bz&PSlp#7GJ&2`+lJIEG
zCqZE_so#$8qsB4QSDGQZp-r_JR{V`B1?V*=qXAXAFR4gE>90y>%OijT*qVC17D(9O
z`<NWPEC&oANXTAJ>@;Sk?GK-|`pcEc^YavNJq$Nfyti<&Xf){pdGf#{Jxf4>F6C4q
z<#440uV{b(3<7DNB>(}{v6;{Vr?DVkm7Tln#wQJ@Y%Yp@&y3+E&)%xJyyiM6l^%{`
zPzcG;PF}1;@J%dKVlke^vKWUr0v-rxh^#oEX4s*-Y$r;IQMxyPu3~0_4*r<l%W#%t
z`FM$&so8KA0NQ=#=r35KY;>jjDvhg2h}+$CegW+OijL+M(ZMZYN*~S1pI-O%t<i$Q
z>B{RVWZ1zka9}>q+k@+22tby-a8lQITDfsXqH>gq`ISPoE@m$fJQ$yc0Yd;mt%F|%
z1Z9n`dW91}Guag2v;)o)5}N_EO?!wnhQU^xv;I?xc!2^Y<{%Y^_-7Qbls3G@Qaho8
z)&Nto*vF+Gh$I^!Mit<$CATtOvT%f-r(;&IVwj3#p!ONcZDFx~NkYPyA5J>V<EsYP
zDrK&r;f4nQ8t#wm##8||#yR=d8m=}hWLJc<D`pNxvYRGS?%Hyve6O9Dw^iaS*~GJV
z^D3jx{p!gv811ANOq*U$zn(r5Sg3g<T=U4B^AA@2&Z>Ec3QEc+9-C@?u`QbJ45bS*
zowHwf!yR=vLk{6?UfF$vK6mS1ZhiE3^6nPkjPdo1nUP3A!)yR$H|H&y&2%))jH79G
z-Ky2Rn0xu~XJ<+;=I5&`UvIeHa66|4rqHdw-S(ZfTNUAr`)=3oi^2-&>FZC=ZV0bx
zn%WnwsGZt})6|DQa2DN9MP>*@=)9n$gzlW(1ZBcf0B*vd(cW03Da5W=h89W&w%<Vx
zdf?4Ajr`t9-fDTIj(L(uLTM1qB!hFwq4nApub0~Z$Qzw>0Sd6-d)_1Pb1t-QK9w9m
zCv`t<<ZDz!JH!?Wb|H{<tz=x9hC3GI+W}->gK88my3_dqbb*{9XTceU9oKg(6gPy6
z8zRL`VMkNQ+7ViJ`29e5T}K43jwa^8r6g>HXU&<-cdT`6lsWv+cS5|$Pg)u};i`$h
z<93%HdQrg*L#K$!bgp_vV8qhgQma6V*xha%H0h`A;#Uf2l%XEnhc$@g;vY~zzC1({
zFvsk4e6+6z$1%?gc}0QZt0<_YfCTR%@sdny!acXKVPQLJ4}Ca7K?em-P(TDW^P#|9
z<P6i#OBB3F!OIj(Q}8MU-=cs>AT9)bliq%f0@8wszfQqT3jPfRMBIyiP66#z@dFC}
zf&!u|_$FpRgaYcG|NlbpyzWDT!ED8*&CI&AKPps(OsgK4Abxz1VK6@m7RQqPz+f^T
z1Yd&J`|S0B-C*AFz^XSlELu{{&Ifr0bNK_S#a#FxGs9f*KrooA9$2mB!bPXuT(Ve_
zinu&00%yK?<KlXoxnQv<+k902pw@0ap<gV?G8aFnZZx|VyY*!#ZMWWNE?rDpW#05)
zXR5i9vQ{oS(@<PNuDMPBpmCMixwzATl&e|gX8g=3$IpFwgSqyBwZJSq*qCijdr-UD
zynb;%N?XH6fco8of660~MY=^|7US<MBv<gURNO{Jm!kMY>D06Gn^a~)7a*R1TPE<Y
zBYple#0H<jMG`&;9s1y2>3p9T3ryClF+(Bgjup65;%Kz}hKa3A@&82q;(w&zFDXcv
zw7;e}3XWqnFA`NHPnuO{PUU^0&vAV-B7&Yp+G;N(^v-L6&=HOco=?Tij25pEHy6g;
z&N!jFsPD2ugq9LBKPGyH&v?kg1*0ZfdPaM2n+2V+9X>;rVgu~h6?()zcX9~<E@FY8
z2I2(#BWOc7o)Xi3^U7J+m;mswl5pN1x4zL)azE^gkf?8v6)5F}EC-)_@W4i=|4A~W
z94e<WVRZqkEfP-vfe-c2tw>&hpYmWy`!P?fIHkdo?>WXn4U0pVEoSP)Wq}AKs}SBh
zNI<A&{sSEw73ioxZy$GNOU57q)k3|*xkCsPr5ZpHkY`SEUjSwet&#diEEZI+GD{@)
zR}!(%05T^9aAd8*&O~1{Jz5Mv?=<U+KR`e<7~vfLkTZvu@m<C#@EfG$gq({u276T9
zTCajd{NR{R>mk!rb7)wHWpWshgZOuyTaydFl$s!>)wzkiVb7THD=EZYxE0+VSOP12
zS83AFZ5=Lyr(Rx&M4BAHq0K(H7!NY_HeX26Br!@>672F-hvDqzK4R#%pE;D!n9gAl
zct^ngO0x%MmaSFF#pjb5I{UjdMnXp<E1-TjPwbZVLASCJyIFg>G2ima2E7Onq1p<`
z_WLSP-O>*ShUA-(?ib<ye|WE?tfxl$;I4dRSUT}Zi)Dr7K||E;N`+hP5uCE+D2)~c
zd?;Y0ihoS6lG_|MBr&_Tr!WCvbu)x7`zQE2<PrZ11%%*YW|jhe-`wo(QjnT7!&I-p
zNqAOiFyk@W<H{ABX8_0ig!qVL%+#f3Os3#ch<R(#T}R>cns-g_`ew%G9h;)X)zfh4
zMv?XJI^P|cO`mscj+WF;@0>V{Z|veu{G`8y(Yyj&HfM|4vf&FZT2cW8U0c+a8M2i`
zi^?WiUp_>hLsv0a8MkRnXa(CeU&G7t1lkHj80AiQ;)yUUZpX5`Gvk1z#coiQ^`izt
zK%O_Xi=C5k@<Jo0nmD*jD?qV56S`>{ySZJNj|0|5;Q+rmOj@9-nKEZS==2(CKiFdH
z<JWfqMx7ZN!HMm-#d^Na6Tg8pJE2nr`+#sVTSE<zwiUrT2`sX9^OiOW`-d)&KdyT6
z*NMI`kV>mZ+QrJI#5v+XAKg>N3*pTrZ2-K!P&4^vWyY;)A@LiRfoDydna9OAh`_dP
zLMCF6wf#X|Fqfs<k=0!*MzH|MQ|N!iUq%(j(%ssv6ertSM~Reulpxz;R9i5U?-v#D
zkJFAhiHwkF<w5EUvU%I}ZDB`s$a*kTOIP*O9*p4CQ5{Du&s*!Fw!DySbyQe0(aLP;
zOkw+~s0|(yE20%m6Z`Ji1=<;vd}qi65h~Kz@Q(oW;tW7IG@Q;Ca$m^P-r=gMu~c=}
zWYTLU-jT{Z2a?%eN6gH_=D;<$1~si(BVCgFEwhZypfgm^OtRE+{jItyh8_cRwg^8E
z<A&s|9b+P6+QTH>fdj^T6WlY78(z#qdIf>ulk}|YL*t53su3+DUm9K$N=#uT8eeoS
zQzDIh!Xx(;eK0boktWs;jHqJ1WK22=ie^<a3g#ZeX>vIU=r<0+@2cUlg|&#>P1fNJ
z&L-h-()eQTgmWSnq@s~bSjH{%3%Y6x-c#_do5*ASqO9ZA<RdAGfKusnht|;`iGUE7
zBKL_LC{F3WA|@Y=u{4?o^xG!28mn^LHkmhOqj<DE6%I1(<2KFA+vUD`t+eK#La=*N
zDfPG=btI8X@;b)T(W>+@CHHuSDv2CR_ojJuvix$~G3NM6hNebGLXBnkjx@a1u{5^w
z$;qQl?lTzp4D=z5B%o}3(&Q4LRsV&6qWK=n2oSHv9+|QC7osHlm;<{YeJmYeMgZ%X
zKVunkIj`!zWl?KO)>ciNl8d!;HOhBrzAC*#U74)LEX`LXZ$gcV@zt0EtpWt22WtZT
zVQV&XJZmfqW00wgL8jbxZgi@eeN8yQu4F$?>nw@UR}yQ6=H*ge$=0l*Y}B5uSw%VH
z*_wXk$gNRUQ4XKa4xK829#c|vB&=!7s#P9;SYxJr#Q-;$Vt^F2?C~l&pW{w70b?#;
zSHis}%>9)&v-BqINhRK<yk%d|xt#66)V-24Q3&QrNS!(AhAD#&^rTl{hyCJjizjeK
z(gAi`JUJKh>L)>m(}YZ#&$4F52P;XcFtz2<)G`}t(%wPtYeSimrVNIx3ZPcYRdr%i
z@8t@}hv_1=>Na>0CO(hzap0H8W`J?oV6l6K20*p|3zOW3BVIbXh<iQ<y}pYeS4qYx
zGLdE)E5J=OFYZB>^2IVa-Q)J0_w@C9PWAhk-Iz?jUXqo@S?&Qe!|n0A<($D<j-4fK
zvMPgKlJYge+K;0hKY^?ZMq{{(Z?ZjFQS<h;H?}QQYz$Xyj8rhkVz3%>Oc|%TNJ!m$
z8_q>q_ro>FOh?%1nuSA<=5Sr}+{Q@VuG`KQl3X8<+-;*|<sm|r&15%TBoiSmI+qg4
z3lejMjl{Mg*{di-tcqfp;sg3t+8(0*GIX`HG&^*d9lBJsX&(j}lQRehG|ao{g)@C%
zk;#-;;<|`(QU;fK++q`CL=vd$+05i7&H<Yw@kdnUj}as&@N?Zzg5p|YHia~0ZmK<4
zzubHzOZ_IzNi)i(IceOv(AXMoY>hPTBQ-%;IJ0ib7|N}KYCe=-e<!Em=9xMFZw*9?
zOTT^)XG_z|VD;@R;ItBoP#$IQN$^J7=(KKJH<^;mK2tLR`+<+3%>x}`NoFRLY^!K;
zW3pw;5B8p^rZG)+&@IrTVe+!PfG5BudKjk~@Ouk1R0_kbv>YO78Oj0X9wb9nEDfSn
z^ph!LdZ=qatI*W~!7Y2peGlJ^WVA|}XUs5EzWqaFqa#_`kg`J{XZCb64o)n(8av_R
z#3YKSQnO7hur9}~0WNDy*71;2$5@)A$H9+S26$fgDW981dD)5)KcZsT`XHH|NTLqE
z6#?-Kg0g9yU`Nqd_sAgKG=SsLxS-D;T(jIdNs{>2X_<T#1=BJqD#0n^(#qG*T|f8g
zzytWR+c1?DEw7r&z;dXqfBTs?o>{2b60X@2scD7_*R0a3N2c~n7e$LJX7;?gW43Fq
z`F6wJsH<^0<AZ`#@Y$MG`T&+4tE0{`$+$Ck$GQG~4vM{Bpeuu`A$@ucDsUD}H^XEU
zPUO<L0isCL$0XX~eY^$J`v%doJ}+nVf>{ciBJoH<&_vRxU^ek#;9Hob3>`HM2*Fe(
zaWF&XsrV&cK^xr4%P1qxY>I%y2K-wDNd*CuVmQTI@{yX4K!xTGDb=KnNi+ebe-{a2
zHVtRQrZP_F$L*qoWu{6oSo=$wpF9-z6K?dB-9G!|)RyT(cXDdO+3noe=@%T?`ruk<
z-Qo&^_O2HYADBZpz#N=Gj5z`?oH$8Ks<=m8j+ha4f{a6pnQ;{y);8no*a{{P#x)?c
zIJjo+kLitwotQD$H!OZaKmQ8_Z3tZX+#b1teed&L)U4x2DAC6h{5=JFz-xF<W^Rm$
zpN%;PywRl)66#?%jW8TAA3Kc!yC^1VWYys&Ya|!%P*FxI%EBF@so<1v7iwuYZI^^+
z*REY$Nl=9Z!SuL6yF$aAjRo-cmvna>xB=~@(bx7USDr!Dwkiz(lwWvuRDUl$?;HN<
zjr=T5B)>kC*AQyh{oaOKf$wj<wdVcDL$)Jy3mUF-p*+x}J=&^&Z_oRt?;nWlZ2v*l
zk(>Uh%7yIJ;q28j8^YN&v(DL`8-?NQ^|!N*Ojx3Ijo)5#V-3fOk-F_a$k{Qo0sAfY
z>cQJNJ0`5yla;k`81`ecu>=+t2>vRwjL<AN-t^43a^LdLHoy67r2LT|WNn#l`Fhpu
ztSw>tmXC}`7_t`pIL(}TK>wo*b85klGcr?a?$_yXyr`%yTtquGwQl0z2liFdXYbfu
zbe5&=uZo%?Me8OU(Tr8$4A;HJ_1`{s<J??Rxbff*oQGz-QzxcdUwJCzJT$Qv0S)1%
zmx9xezxZslVAZtex)rX)atp6Lef8;?N5i=rCiZ=hTRgq@m8U26!EmgkVrKK~qjRm1
z;uZ+L9K|6=1)9D+QnO{Q<#x@EXiixuXHB%YW>$aw(b=Kf#XCaI_PJ*x&h}98j%eN5
zDa+Ke;mn#3GRtS0?qsfqRapUGPtj|8aYbDL^V@k!e=oOsW^85<4ukUMtf5`U<~zO+
zI{C#&hdXqvJCx%gN6x2cwhFS5J-1-m9&uK^n=^ajo#NZhjpWqXgCa^_^UrLLl&uYw
zuDe-!%QAQI)-&@RCqiF%I@0mQ&@p!?r<=<0z#;U;zpX%hH%~+==tiKd`m2YgTBoZt
zI@YQg?;YnFpxmr_ERW2bNOt>N>%#W7@b<R(?Dly_d$eWmLd&sm%dsC6cHCSuT|HAA
zDQXB6c1&3i+^wvcwY+)g=DORJ8>h}sd#;X#G9UZBs#})dZNLju%`n$5-86B8l+NYz
z_SN?f>2;3M+ZnEpj^d>-RCp+oaX4f>{K<oJ23_`1{U@=U9iRMl)|OA$+W6!_mtL29
zSpUg`ExMvky?-sX%lE2_4z4x*VOiS2O{VXsl^uN4`h8dG!RE~GuQ%iUk4*MM7So^B
z*bmuEf7VPfad4H0aDuIi#Cya^SU`@;e3M`6S6Z=fVQOHaJ`x`I&Qx%{)_10A+mp;@
zN2V^wi)eEDowH<3pYX`JKsVrk1*1ub{5K@C+(D@dH>(!IF-J069t~~M#5`W=y!cNZ
zljU03vE*Wc<h|+8$zCtpW9h@A%r^q5h<*LRI@zF^fkD_O)8#+lp_q&QqodqzoF#1x
zZj;lp--<|5I#+;9k{Jm(nIQfJ09~pKzF2JB@!OwaH24u2LK@rv`~tl>uqGsz`!Kn1
zGu#t1u`5=N;d_GST`gLcA*wO|m0<Xr$U`7JZz?eDo_93d&4$z8Hf%2#lfvfn%FY*e
z!d+N2vkfpkCj&b^Jp&LZBj?J~lTW|ohTHnoP3+vux^UULg|gk@vfYugR-#yB-^hw<
zLa6m;o#Eofh2jli?w}Ba3>*}q1c2yF=Ypdgws#?G`Nt_sqCWMfqn+O~w%B%882_-s
zy!(-q8-{kMGLouGX+?2uH(@R@n{Z#cq><=>>do!Gp%?!fKCxpU5|aDBDJca{)3B7`
z<tL<7wVJIza^{$Y#kx%M+6R?S>Y;J|anO)v=2uj+96d;^JhXA?VMNgqJ*&ZMe2orx
z;OyV?X<a6!S2feogjiaK?@J>%jsW#lur!TOF^}kB?l-vjTUHah^o$x&fCf6qM6<NT
z7k?AKn8lU;lF`dGb<`gAOj^0#Z;YJOqo4G|>HZWz;x#fsS*Z#(aMvQc!$sBb$t3`|
z*mzkwy0wH_g9k!bnl$#n21SYmQ20faQPGrcQtwt#%H51JkBZ<+E=$!~qAZzbHN&J%
zcb53wga?Lv7O*tZtN=im$Mu&>OuA>yr%4-`CMUmqSiLy~S4T;$#mzYo(4K3>(r{?M
zdyPTllv9y5beY;y=)N6I?I{VhzCgBbE=#+Zh8jg11qx9g6zPgo0uVjo=rGPpG=g+h
zSBc=^`eo=>)YB5msR+snGIrS0a}EGU_Tz!GEObwlw6tig)z%G+%JzLOSEI`={$~sc
zR}IoN2b`k)A;o<kK`hlb2#+A-uT`Wm<!(Sepf{p$aa0kPMoK=S{*EH#n+TbLF@*|b
z>JH-e#W4y_QNT7MIZl#EP_42sNA0tsG5jC2N&f~Jz>YDEMrpKo^|TAhL2Eiw9!?j}
zoSC;a-L+**JQJ}MPk-q)+*@|tw9U1AC*wWSeAV8&*_E&q%OX1#BLOxe02?mOsG4~)
zQoIf)_t-J<JyUt4ZLEH4&Ag*ADpbF1f5ZM}29YS$SNDU)%#jbh?U~J)JvZ-cj;^k{
zdWguBYQVH=*Ua82)1A!nzb!4Fsd)9wl#TB1$ol#tcR}s=XCHs#!kgP?8mA6LGo9BQ
zR~<99*%LRPoX>2DR;`_BV;MipM?08!;f7^-Q0Js!%|)PvXXN5tq~H@8Dx&cjJR{Q{
zt8V?~k9B$G^$#du#j}(>NTfV8yYwt>M6d*onN@oc_GWzEDqD;&n3e*VW{F9s@()AM
z=1D<;`{DH&y2O!F5;%ioNZ_kjQo}Vft#Nbrmo+QCjoFh>8Qrp3Iuq$(Su_8v9<o;*
zftzOG=qN0*2HCD)R}!YtYEr7AOL1iT6UZr`NrVoZ{7U;yqij;(aibC0KgW4oTLY02
zSzQ26v$B?NUN>Fy0CO<e>?Ph^h}?$SKGZ{Us(N<eF>@HwOqx(RUSmH)JUaA!+=@nZ
z9LL&0{bC~}w2kuNsa0%AUGaA&<D38v2}pLTemIp&_)bMJYk*q0C~{GaWXe{nRo%l;
zVtOb+BS;sBRQ$pYL8+T2srE_yJj}k;u3K9#tXm8Inhti+WHas=(XOX89)+kxYNjMV
zt)<fIg^NiVS|Oc0rh3>~z@;8!GocwljI2nq4S9)hPuMWuQLUG$K6+TI>IITd;sl@s
z)mZIv-;y+eGG0WVwL|b^pU~7Ktbe-pqDxpK^y7~*OO%`*$wT=?_95;%587w+Z;@n>
z@m4yjTYO+`U|5;31{TwQ1^5mYpun)>z#x+SG$bkvdY97PCo1R$_twD8c^QzUsvsES
zj6Ed@=BOJ?ne!$j^H<_4z$+l?<+Ib3VQVeZ9y5Ci_zZq*^2lT>sfwi&Kd4f9ATH#6
zI**r!>k}}jo~vV-A`<E=#xf{Oi&C~S3J`8O#|%*SK^;3z3<j=Vl$0e<n=pG&h#8gf
zU^bn7Fp-a?^!dGgr~3l<%4CKj%H~2CHbTTbVaB8(T8)0mR?f8SFhscM+wI;+BlHN8
z(g-=6-{_jbwVI6)$Jz-K=;0qYwoV&oH+*~BjcvcN<LkzdW9x(o0XyUT$pfP<vzZAg
zr*k)(e$%ws6t^G<4YCFCZ&7s|_oq34sE|lIG&){out1DhQA)z|jx<H`U(RKLh$>)%
zoivY1*r_BOWWYrx-C#-bS`e#{eQE<#sqzkushNiSOIo|!Qu#0Gx+QHLEqtS<bqdLb
z1>wMgfVNuI)vDT4jh@bwy#2{;gpfC$JnC|L<i8*!Y1Oc2R9=M8*zrYZV>A?uu3#qV
z6U~?fkx^Epb{329GnPw-7~P&zeq3TEg5U$ZhR%u;Sd8?tP$rUX%Z4LFNyYT%V*0+A
z4S6U73il@%kC3fDm{(wz0k>QB1}?8+Iesgx<hM~a7BXz|dtTc#Z!5o>TlCt7>A>sb
z*T*9;#LjJ;^+OCrd|e%mPT=T14l=$~G2?j?P7GWmk*)*1la+fd{c8HOccFAkxOB^0
zPNZ~4D0AoE*3`e-ant$RtG=@;((q`cX4en$T4u^24_x=n^P#+!2^)gD1r=|#LVon*
zT;(4${7%C{b9=bCJ<@zM;(9z%c`Q=UF=2W+oi<MXZave;{b5@6o+1+;U+eOe5$#^F
zj)J5#5`&Wz<kJ{n8*mya7d&61(OmLTn$hh1ahlcK$@Oa@B?Wa`jXyNBm^41L(wPeB
z2aLxdF9x8&NjF05(i<7?xMLRBzxu?0_}@`k%mSAdP<r&>U3qBh)5A{AETOxMTDl81
zxx_n~WIC%AMzx;52k=c!XOYb<IVlrIKa<*`k{*)UQcJB*1K4C5W|`i>Dd2xXnrnIL
zjCTi&5(tI5I>}tCu1<R;FVkN^K2GOvB&VNs%$Sa)Cc2DI90rh)iJUI0Bif;vNWWw>
zD^=UbZvo)9m2pckDvZqZz($=05!>CZIZo9ro8y6s@jx*HD`(-e`c+GX$s8V$jStlz
zcrsw~)jov#L|E@1DjT;l<P94cl!g)((8I%kTdY7jZ6xuT^%6;r`_z~Z7xa~uOLw<R
zy(10h{IMaR9;99<gN+}oFlmgW@}(w&xMp4{HMh&iD{dJITW%m+IVhXJMe`szd2W{2
zgm}V@%|RS(4mD&0w>}v5^nv!JnIx~Dimzzi4vDz^pOI?sIWt6vLQA#NGOc}v4L5Dz
z#HR*Z_<T(>QTcoDw%#j|_4UFA7vJ)UIp}xIFs@+dx!ODzkKzY1ZipXWN;keVijmf!
z?EB73_W)@)4A#~smu>5lHT|Nmf20OVO)w!o&$-cKzQf0BT~9CH&?jrK0_7}6rQ}O0
zcnE%_9tZtsYylp60!cUrg=>(e;7R_MxP~RwDQPvs@Fd=oCVmLs;usLh!_nc4x5x%*
zq!5z~8?ito;&75o;W;E4djnxvVklx34)R0+G4ZNgEx$oCsqh<@2>;d~^RoN~vsF!z
ztW!D5!LYwrLiHvJKUiZZI6(!ISda-nYRuM;kKz1J`G-0LT<}4uaJX^}6+>qUIJwY3
zZ;c4(V3>@<fWFPlG$3Xi9vbEr3{3w^l$p4RvXH<zIXWlyZV5Wqh*5CpM%QKbSs)lz
zSe&jD<=~AamU>jaS;lh&Rk1b0SvL;8=}IlKj#9juO8#q@!FM;iPl`kj>;_F}4hT_n
zGf&kVH?i{6ys{Jow{NktGsI;}?gN_1y9fJDmIGu*KzCJ<{(L_i>G=3oQ%a(HPMC>7
z-yo0~a(0Ulbi=!}pWUN}6D;D;00aKqBMiOri*-n7!4GrrbIW8WE@1#=D9|d%a#a64
z%*6{~l5Q!k)}@}2p~E(kV{dYDD8YPgw%udI{K${OztSnE_<cjxaLb*XNoEYJ?iqjW
z%E~rP${c1At*}w*7Z_9;WM)L`7zt-~6b2;O&E(0HY)RE?l1@N`+0a?Crbu|er5o7I
z=49EC@W2;`qMU@85y6n+ge3SGpXy;p1PoS&To&Zz#`a(XTVRTAP1e8xA<N1)zMQyu
zi<pIp#D!+6Z2KaL6TeHr2!dD+9LXuGNOmblLQ~GW83qSqsmhWTn`x_4k^C&@tCWsr
zOO_~*1~`_gY&kC8j+ZMiP?)W(V+9ia8rGrz2J&-AC?AA@&Mh<d%CnQtPLIqxs@~0C
zaJ7bAtx<axboO=3Tf_laSv3FN##`p!-8R<{vh62>3b=n`1{D^aJr9SikH3EM`pJb=
zO*p{3uxe{~)z*1ibJSUQ?cmje6MLciw&yYnj*76oVrJj$-aGd7_sB=85Vi|5d9%6m
z_9ir=sC=PtW4LhR&Et{6ZD7kXxb>T~aL{nlC`l3wXlLjQO;Wci9TIn}X9Iadx^a`#
zAaP!i2%rYD)Nzu8gug?>L<}^<|8UMWIynjp4c-!}U4E37G$LlXmL#*alUrxt)7*gU
ziH_r#+rnVJ+O#;h_IuPonq-)Z@dhq9s@eIBYL0he__mV%k~$u<aw&CSl>10b%EYq8
zNWp7VWi_%fT$chSHap9_{Xw<fTnOgelJTKIZ?2(JyBQzR8*c_>>_HyoK_To}+=o9)
z5SD>-me5{m<o&)BZwihB=w-OnW%XKdBtYMl%8*wYIMmdb6{I7S0E2<x|FbOO0-9w>
z{>kwcXN2Sya+E@-O#ukpbJ)*<RyyNEdkS93#Hc6W6<F5(jCdti6#*s_`>EJNduH=9
za23ZuHfb$rj6&lv5U_-TrR20aody>vP+R@_uA&PDR9D25qmWg%2Um0EN<PFTLv<}E
zhr?1cyO-fcYBF#hv+%^+kI<W_HfCnmMKC)!Ssu=8;+V9Tmb)VCWk5MgUI+?I{&OT+
z>_@_Qm<+M60+H_mj2^yvcqTXEteMy=ec|Al8^P_om)`VU)6L_*Wt$xj*>(_g-pPP7
zwq{=OwUbv*;-33MZycIB8OenV`DMxZ&(8r?Ssz=l(3Zl}Or?twIGsliHQ+Qj84Otq
zmx5D5VKiWi+Yt~ry@bP4<1k7ZBd0fXoJC8Wplbe%Aq5c(??^F#2=L56?F+)~iDb@C
z+8DW6>Iue1m^$o5HWAMFxO!9IstbW~XUiEHiHLN=Wb@(z^@LQ+fV;NbkZo18u$VkM
z<xSUx9hD*L{!sP)2tr5YT}S?O+RP*2f;ACGeaKqRyGz}Z9~yktT_;}nSx~q94V{;8
z1Z+uY56DYv4c?h&-8f4e=9M9+j=Ka}{v(QCq&)&OhAW~?mou1(fP-e@hs3*7v@NNG
z^AG4dEm`h<;vT&T6x^gBDXw5cNx}DMn8<dQ;R-X9!Wr-r3s(;xnNrN_9%SpyMT9e$
ztA_@{8O+l|!^d#+;N-2NQhHE;^3X`p^Z6nUhdjkcdOOZ|hJC@K8vG%dopT157!+K6
zBKBP*v5a~KmhQNc#gJr7;h`T4(QwNDe}iZ~Z<=s95G_7NTk#+TZ3vPu_XP>lrNGd?
z!}1W@DJOB`$+03?RcjSq$p|wQn~9~sK7>&d9+?hFCc%)u0TYs%jXmI<6f2+rk(BJw
z_&eaZP%(5=TM&;6alA|Su)Nop{%Zgq@KqCpgH$X}8R7MlVjF-^W0?=vnF_BGGeVIK
z3^zpSG?qDkj3#r0M?jU-3d3-J0l%?Kzv)NZQXG(<I8zcTz-HI^`;djyL77(`oqTk9
z<GfA4Nu+CAu5Njyc_F7VoKqResh((sX$%;KZ)|)mcd7w=2uF0=?xi=p>%F=0owKt~
zg>21)=(fp-F0*_ha0SR^!6Ael!c1jI<4hS#LwP=bJX4bt&qy#u1r~&EzCepKDY_|K
zGGsE=`Fk3)6|l~cQ1y|B^$5c{rPIOLnsC|rh+{*@x`A&8WLKVt!#d(IYGwz5BzR`Y
z+)C)ifPob|DI;w{E<Ym#BOa%?L?Id*2nzm&dZ!=@Zb76)78Y|YZi(T@VxxjAHfoRs
zmC~d15HE6vnU!R`ryY2q(RG=8W-oc5QMn2W4joxyMmRkPR%=iImwow127n7LNVJ4x
zCYc<_d;_&>fsEFzuS&RTwm*?IN;4pIQ3RtZAn+R4DOpNsltBzEv0>y%WKXj5;P}RT
z1*#;`4NLo{#q1<Ua%k{FS{I*|YEl4=kvkpMZ%*|3`C%YxAr!>{{1KV@n8638b0)$~
zOimQqFtm*l5WsnC-QoeHCF6#|>8iIX-!;#ynkQ#m?V)w;5rmE=&7p;mbyrB(6|wG`
zcou%xrXHWXNdD5N_s*1G-yd;Qg{)O<#kDIIt0)?$V<qy61Wnp0k%v%b!u4V|t<R);
zGM%+r-iKM#Zi4KWbbsr}eraUFuCDYODM_g);<Lqj6bKaj1qEz(kl`t>m}<wVH{Bwo
zkX$W2uo}(PaFRu<UT@B2tDYF_T%MV-d_D`lW8_qDO_BwF3gRWGD*uJAdhrwnD*0N4
zE$PUq<<=@jMP93LmaY?fX@StR{me_OpGru+#8_qW5)-JpGjeqthW63Vgq6d}qX4&5
z;*tp^14Vs4E2C|sKgfmcS~Y;=7=<qQ`Iik4S6CY26z$Drz!-)_UK(&+@p&u_x&(Wf
zrNJtbmj+IxJk-))<xx--zceW7^I00LedmK*tEgQX%m>~7%IhL#L>HG^7Z?+HU2Oe)
z*2T#3>w;A#uZx`zxh`0F6l{!N7ZmmRtc#;V7o<BdwCf^(8x$nBPox#}58*oLVfbN!
z7bfmzk0hTgg8A7acZLBUPQgl=Gs5HYW5f&nTMQu}kqJBg1@{#J^npJ~xjMysPu!0C
z>{j6FaHUEucA0DCTklXGQ332xPjig%Gc6j2*6KI7;xU}H$$8YjYKji{4{c|sGvG`@
zWy!3#aMw40gF7)3*?);$=qTxjFUZOuQfb6Yr*Kt8%*+N+a$+FgG(-eQ&~|j_g1kES
zWA^<Wh=ounuXxfnVVdyCtQgtm&G_CPd}A<Dy?L(ub~UcuVG5jA4wKlCpCUbe+p+p?
z0nUrQnucSf&^}z8yf|%s>DiFA^ykBoL3CvqK*-uJFZiPmx!_rO6zric3+S>!U0KX!
z5>JtYx}q$f%Z4y@d`S!hH!UHr_>S<yBdq9a5Qm@(AWI+Y0!Dr(S@#MpyBeLKbx#OC
z@mWIG#!P<HzYM^#Q`_V<(M1C!2?`;01`qwxSjbxZ^G)aT%T8wouUno^@(ZPq)j2Pn
zpGfCaE|X9uBYs%P6dYeNv3hffBw5s(^Axf<j~7T;K9`9#!uL(^i6!$2?SBuBiUbG=
zVm2Wsf!A$z=1!hq?)8{+S+d$e+TaZr`ux7nZ|;q#eVM7Zq4o02pQf=_XC9i)m!1h(
zi+;YDe{tEFPiIxj6Mq(!KMb+U%A?>EwN}8wS2nWVT&&FZ5;lpld`|N%_6DE&%=s2Y
z2-oCmkN!EPT<l$T%EexJ%1I0%zD!f}b8$3RSD0j~OrGQm4>`%KJPL*=!xg!GB1I*i
z#5yd5B`RdDK<2K7navYZ6I&n-HRFuNF&{Zy4gLa~%H2Sk(m^Lu57CyDCl7v30;4p8
zN7~y@3OrYv5B9ydtP5^_U{}i=1jB5JVkJXG@(HX--!U?<G&v%rOTK#0P31A-js7hj
zMv$Po#YuvA)h%;$tB^&w>p|zHyzF6aZIzPcgF9wbmq|qIKrH2)&o@jjb{tHDBV^be
zyL$&^^Z#iY{Oc6_G6nw)B`c=?mo#U4GNtiU#PH9dX3fDK*}Mej5}|yu;xZHbu`?g4
zcVq>i(hpQZgc%!!Uc6j`1V<(7sL#nrJNe86zAC*&X6Zq!MSfTRCfrvE4IA|p1l3oO
zhId&Vf#htUL+-gG(VC!+S0g(ajI6zUVQPfVDKv#kn{Z|arxOakQ*dkJpKSl$_IbzA
zko73rc`n1gm}vmZXBp9vs(VYSZ2Kje8Vbg!ZraLB*=B@cMw-d&`mtSaeq1_OK&g7v
z{_{bm-;0|Oth9xgoD}}LW!j<(p1g4`fS<oK(c1SMN8w8$BX@ho@gVh4hK5?y2fJ+v
z_u&X6oI0@`2$K|Yj*Uab7k!eX^+2!CEv;8(Uf3y)zzmkQD|bgDS#%KhAkk5NxU=D^
z5A0A@C2OJYVvlbaPO%}>L}o01+`xyGU+Z@XupA$Nk6X5@VMWM`V#<?s948+^7Liai
zd@r-KNCFDZ=L^!wPVV}K^nX&}@hy`)$*p6ps0FO)#t{w}ix0S9tKRDaFBI1ri3(6Q
zH6}^f8emTn0fb~TNG?PnN|thw4K3YP@GVRa%%2p~v>Vc~G<Aiu?M<6Uh__Tor|DI;
z_BUyjk*4}55ZcP8pmU~A&z!$wZDi{?PWq~}cQ>-Ax_r%shS(eWe5ti@KH(tdCc!oY
z;1X~EZ)9qZS*11LXIxUuL<_`ah}F2UTtH;?j=E354&1G{IQP5Bq!TBUdOh&w>lbJE
zNRaOZw&CNHRsv#iMJM%G!CceS<wksnQ}*A@-a1!z>ul&)M<lxw7meVeri0Vx;W=wI
z1$#YYUCRdJhJGIt-rZQ?_|QEREeaGQ-Qd(-*67RBj&h`98{C2oo~buCDGKy;jLiKA
zS0(TpL0F!Dgzatw?(%e^Q7i9uC`;sR_`f&1@K3tgNv1s@{tB&|HxbB^04>V4V-l4;
zePg*jJ#xp|@Q=Qy#a~4mp+%mh_WlM1H>lCH=VjpqZH{0%HCfq|?>^k7%${nV?hWTu
z&0L6(TB(WkM*MZEg|U_I&|5Cmhkv?VoTy=qpkOB1j%!qQ+*)PF@y*U!pM1w9v&)wb
z*;#QJhHRA|uZ)bd%kRXgcK`5@-{<K@%a-gt=xO+8j%&4B4j6C%zD7aW4zX<AIE6ku
z+Nk8{ZWQ(b7x^xF2H@(PN#h0ucr6&%QM;~Qz~TD!u6pU79y$U~Zs1rsoN=X1?kAfW
zfl{w$=XJD5nSYZF{cDi`$u_teVUrc$r?1$tFv7%i2bPCj#=-D6FzW#G%0LD;aD&8q
z#wcsa?gp3T0&la%5Yg@J>+QuYC*0P*oB37J^pe|O#=A`DrfzmOa~CJ5R5`&Pr`09o
zME@4oB1oXhml#yWQ{^({EghLBS}tayN^yvunN55blgTM-sv#cpW-D{9Y}H#>k&C%V
zsX@QE!2oAvVa>-cWr=G#lJlm|;YF+cBx^Ytufh&LDN#+Q<yVrDYLwI~9;{|+Yr{dh
zJxZTc`nh6mCJ~KUF8KORp9w%HO01DMN5jTw7ZbhFD8^D~T;ZH|8QwQb9ZiW^e~-3z
zD~f|2*9Px`(*^VJS&w7Khpxh5-aSabm>lG_o|($GU2nKv9lXs<_(G0)sGqNlPmWJ_
zzW&7ZC$yJ!qaDhlj6E>~%h5gw7K@<Ns4p-O`B&7hq?*DUO-E$z`rlDkh@^?5QOJp1
z;dIf=zHp(|{E$;5D|odcVX;PA?WCq80!h|B3cgEKQx_Rol4`bogo~L9>0&0?ULyrJ
zHj#1PM+Urc2uvCOksxJC2Pelp9oSI}HXQQ-sIUuxB#_1Kf*_y4ar8f98=8r3Z0=@I
zuA9L&vYhH(hpTMarGU79ft48tG5f%oNI4{qfdC?Rk<tv{g>$>LEy7a)a2kGLo&2&}
ze%T|xD4$wgxK4xak){UH)e!i}t_f##%fM8Iyv;a^n^4KpvQebe^e<4sQa=^uhjCO)
zEQynaGDiddG30~^FqSwWFWntDGze!l5_7|nvlc1E@MB;}#$ss`mCo*Vb#n!Ccelhz
z)v^MBdtBY!0$l2z|Nq*16Y#jM^E`M4n87;44iF2MA;AS80f^uxks>KkTtsStERm9I
ziZTFVKoS%PP!|9f2(abUO+YObXyq@#NG_q;t)WP%=_GxuJV_d-$&=qrll(IpDnwAG
zRsT4R)4HuJ!by|APy4^`cb0qa;DV%N*>PK6K0I@A?>Xn5_4~f_ts3_0>4V?Y<8+XU
z1J@A*JepIi6~)|v(sjyE>Ixu!5_}_QYwp<Dk!oq7O<DKWtq339t-Y(@NUCcAX2W?;
z)dXbId92$Fjv^h<8U0qFh@UI1=OK}epneU`EwcDHz%se2e{<e5zZgZkCdwY`WIG9Q
zjNhQo`41MTo?BL-8fR9KIlY>xm65|4P_Dt_oOp9WmRCOfV$XM!mEQ_Ax)uabhsr?#
zxm-_gt~!)c>v6haT}3OYT&4y%l$_+8NNfcbn5`GO{t+cf``ZS_F_M*Q76V7xb_?OK
zu;#ftMY9Qf7<)_(Qg52cw<V1__P->Almj$iPRNhNOAaV_WO4ZS05EUtMm|3dr(293
ztpZhe2Yi8#pL=!3<fHGFuS&)qOEx@~Mq0jVx_TMZonmAAr)!o6+eNVj{D0#vB=ZT0
zf)V~(=msyN5|uTRs|U=H9`3|@A7M^JF<fjqsL|>TA_USXWP%wy`PoaK^(w&Y5AkCm
zWLFJ7gc}!68hw871Z?hGDZ>r2<8m3bIJZlU(KhF6s7blL`xftb#=yx#NQmFW129O0
zEx^wD`WZ*Y;ZoaAgLVIkJ>7wKKCC-ku|yaFWBC-7Zh7%@lcf-qQm1W&(rH^xN0{d(
zOD~M1X)K_k;HdM+ud`X1sFqE0m|WxcEUGO7s%?lOz+n+WBI-j)G`dowTHGmA%Yt2K
zqrJ=+-C)b-aQ%X9uX6mhSHk_v2Qxi)Cjaq1y+%6AFrES;ykh?$^O~CT3UVsGmW!49
zy3ZJxsxY%>YZAv119QVF-x%Zx!me1mZg4g5aW;Y_Z-1YLjR$W5vB?@7f&&~lXCo-4
zYf}Th0rI>J-5G!^l?4%7t8t<D90MwPs#&0G3qS;1emC>5<9)C;ZjlpV(h;-)uHtbR
z>OLmn*8)DJ5JJBLTmv~Gu#a`UVTV>>J9x+F?NOsM7rSpq+t4O>4$Ejxhan66CnF2u
z1er8$6<j0^gE;ys>H=D#rbJ%Shh%T}AZP_!Ru;oNmJdIP2*dd;?zG=#@;gWdxKsSV
zyv(k43(iY`1D)Sx88Y8}*wI2Zq6XjTE6B;#elLDBaBDuCXB-}T%2<mx<yBSiWW;dn
zeJaISLCV4=r}^?|Rv*uW)@lJ=&=<X+1zF^|&bugPYjYA9l;LG!ZJ<aFV}S6~*(P_9
zJS_nEZ`W8HZI`uddb^lhEZvyvLCXTX4{`WE$AqAJCf`<Jj@bp~ou1RU;`9jqDs|^n
zW3Yvo(t(rct#Ve?{rW*142hA4Ufnub`lWl4vHO!N?oY?=AHQdM>55cr(b%5xEq;uB
zFxhZ09Xkk&O&yv2m)kD2r580JMD+Rn?^iEkz-XXwU`HBTpGy}vCi5EA`awhOW!KMX
zJn~}36W&}pJNW3KWA;q%<D|P3RG<pEXANm(a<c~1Ji1u(4>^p2HM3QWa2fsI=hJT^
znTs>aJ!5OI<}!}%UbH$BYhG--&<3CLyQem%E7oUX&rc;+d@7yysU(z+imNATCR;Bp
zN;43hHgqO8@6Cch-RpTR*aFYB(itZI6QeI|e>vC2V7#`-7_SM^&5N%2ph7gWqsrhJ
z=Udz<q{|9|kuG)P=OEo64;}OK0;31$<8Aoc0$#niR(!vC8Gx=l&Bc=)6qt0x8<Z80
zoLmPxAo?O}Rccg61h_E5;Re{P16FJfauD%kzJgn^4&#jUAdd=~VJFgY!N!(%Cw#m9
zQ}hXf$cvP>#ap#Z?e9tio+CXQn2Dep140`b$@f*R==Ye&+84?ms}{(>j}D4tCM+sg
z&y`(|e16J)x@wU`2_=*6rTlq$b<`y!#<{T%DPm&5H>H>Ib^UZ&zTF>tcdps9T6eJ$
zT9K#+J}a|FBf$c2gzAX`%AXFbMQJe>pcd={Rm*4=OZ0s<Fn>feCifse2EpVXjk+3=
zL6~GD8iYp-CUU)ppRjgu7$1F^Tmx0E<3*oeaGF-gmB=w;0}f>N&Au4q+uM8xUcv*c
z(9PSMm86@<zEzk5%1tvaJPq)G5<Fj{S*(e3Fp~BBV)v}$2CVbUjMa5DeK)_v-lI8#
z)@zE3wc(^Qp}nT(j^=s%s%MYndij)|Hxd7v(Sp%@H`Lrn!AQ;t9;h-dPx(C4D*H?9
zf@>t7zRyPsQNuFz#G3}yFp@t~XywQ`FC9ftDXRPAw*4hHl@J+!iKQI+OK#-hHII;y
z1&_?92DE87P8zN8t|8FbeS>^8bm~;U!%%O-jUE!_tg@S8Any2vruatj1iYz9)iKam
znn{@m{GcB1Ojh@^qPD9d^*qcrJw*uP!kQ@mtU)r9eX^&|8DOa#cv5tr<{J}n!A$t9
zf=IRy9DcG7+NnFsLLlBVz{h~vGuZ%bGda*QI5v1(Oz#Q7%;lkh7AQcb>7Tm@#~f4!
z3|(A479ne*^Yx0Wg-dv%ZGG|dMCl99O)sxU__*-+=828dOO{{mxzsaNI^KODa=jF$
zS+7=2w0@~>x}h;uvQp)lteCE@xe)cfy<=Ufq{+OU9J;=6(Z#bD&Q3<Zmj6cnR|=;d
zO)tFT+QJQ~g&VFe+;qKmMRMh%>DtGV6_0(V3eh7TN>@FcEO~gkZrSCnm$tsP?OI(6
z!ak(y)?Hcg&4zC@{K}eZ>vyHr?@F)VGrs%$-uIWS{94@`byJD2_q^HjPQ`E4{94V#
zit*iJd#5WZ$Mzru#n`s%<qKbrg4e(5wP(`RYtrQiU5i6?S@~Gb^_u0A8(&+BAY1v{
z&+i}GHC}POX3@kGle;cGm9A-gd&AV=m0fS1duzw|253hkOilU3Q3maLyM8M1R%3d}
z#&qSTccQ7v?f6<{9i#1hb;IP~SGG)bBNR>Lw)1-toGX7j{H2#vX_Z%>3Pm24fuM!Y
z;l_7}2nB^jBpGNB1i%POW?YG^Tjt1ibG#ifn@SObcI7FA8CE}8&bwT^KZj2R3oVNE
z0y9M5lU!n3kexPk71Ob*SK7|EP24pJqIr$^YxCsBbgW^zwC>`P3ri+*rXuOm=Goi`
zEr28W%5}v}xF*sdCTsX9%Qb-)f*%w`AfSjXj#hoJLlbZXmTRKxWx+1*z?p&ksJ5gz
zP<4fHa(H_Ix1E<-gJv#XxNH$aV7a6kIUiaHNP|Ub5doO2h;3-3Z$(%_-x@@iW(VuV
zStJ27_w1XQvfu2$==G570nD~;1KNRJHUgwapqnTbtNLim=z&>52!6!I5Jt}3n8WZ(
z%WjpEb(6w=X*1&w28H$Tnp!v`7(lp3`aP8J7+XZBg{FYBfMhx35E?s&nLnx|w||Oz
z38(>BOF@E@iw9Oe(tE%xQcJ)n-ga|6{(V%3rN3~|#G|jCJs%s3jtzOOFRZ=AwTjiL
ziq+|g#<4wci&atcdiliTuhpi@S0Fq@e)HHa8p0kpkC<LBetvS(*S5Z~b*k$t_gr}t
z5k99EFTZ@~(xIvB*V@OU<6U1WK){InW*C#g#g~}Prpc640cJk7J>#Eq5CWx?C8pD6
z$8%_`dVl4MXUB@wQE6WFeyN*D2L~*U0ki7fv1mO`W6CPFTDC5&VwGzyhed+7?hmbn
z5!ux_FgUzx&Q|WiWAC|3ONfk|3GRM-j*>M;H?9F2nwwNM^e3WV;Oxf$7{&+h=aWn<
zU~lZ<Wt5{FpjuE_8|)~^Hu^YP?}b7^`nfLS-dPl^R1i$^LPr-J;B^3sfWSZykndyn
zBJO^5zJk}%Y4Gnwse)V6$BS5r9K$i`t|oE5z}`0CvFm`M^(y@MlviBbcwys2;_``0
zC&o9X%Nvui#_8gcvAnt58PuR=?G$cqIRM%_5s+`TL8#!-unxIsMz5|QRb}NwAE?+4
z2Kj5!?*=@Q&g*fR$s0I#vi*2>@2Qyrarh1aBiwj=57}nw24I?k0Hs`p4De`zkMVEF
zK}7b!1>+mLIGQzFq{hzd<)7u~DNhvNDXG3zQlBcRpL}3yFtuXim9BU0Oqc8$i$Wvv
z^@eM;J5sef-Wf{O?zvjLH<`EBv*!b49c-sG_N<v8VZXo~#B5$xw2lVxrP?4qD|$b|
z>WE$eZ&l4K-=#-Vez;6|-DpCR=>x)}dgYgJ<erN_wh?`dV&>s{=j?aa7m(iRBDWxS
z#6{jB5m1}m&jQauL)fYtGtwgO8Q;vWKEs!~XFPWU8Ptw*V5DzzU}<%BF9|G-FXJ2u
zo<Lu<yZRE5pn4E?J^E#f#=RWm6C_GAE*KyH`I@zjt%`V4<Nzyq+cn$`uLMqzaHsM0
z^gpvf$sz`n7~e*Jb;uh8mKC%ss96q6a)`=-cUnw|4+p=`kNkTiFm&Tth<l2(mKOyt
zkeM_X_*Jg0qsYe1Uo`gYi<`$Eec|rwHA^O*eXaUD+*FQl03bNO`}%^C@zNKc7=QMK
zr>-wuG5P3gXBDq^!==b~$`&P;?*82a-!A=~C%(1s+dGqs+tOu^Bx8@zE1U94u>k~Y
zadT3uP=0I_`vZ0_5XBbjPMKZ#WpvA8*oqg=j47{~LL)Z@D<BJRbR|Z@qwe!Z{FAZ_
zbv~5uGkJ-lMv$q|FitGupXI|yUbIECLc`I879B5Cm9S{=j$~b#JMt!8S)zMjDcL*x
z=$zfiIJHU@1HM_*h7@ik!Y4u_3}!l7UZt%Jl<P&f2kz{>87}^!v@U30m>mcL(?A#G
zHJ9NCfuO$0+h-8f#R;E-u6~e)osUQ*Ul8bAc7jl$GZ;}IK#S^Tvd*^R|9Ye7>s$CT
zXlCJmjZ+9BoD09SYW&$(tIy|*WsTi8UAW+tJI~+w;+Bc5%ej|wU(0{DaM^Tu^>lIR
zD?{gp#vgmpIzIi_%lN;~zl?Pg%`*NaG}8H7W|u`cFMTLAGWo~sRUEyt^dZi7AH+0$
zIA=k!$S1QPp-JU*4-d~-kOn>21xMbxNV7D$&}L>TzyadwflEUnG<f2`AyS<ZFoP%M
zM=C((2`%L&g!4%oF$xN=wBg1}k9cqgR-}UdE^Y`kn96|V3WVr2IE3nFqGBWCg~K!X
zwsFq?;OzZRB*DN~#?7qBcQ|`1Q76{qA}F`Kwl9@eGnPNTe%yhcgs545W-4pyK92(T
z$6kb4I7ZI{OLd#fBK!@s>UI{P)X3zQ*^M~5!9@t`s}BpZqU!)6)gfihB4m-^MR?l+
zB06z*EwWr?@!Xl*y|6yUQX770&eA-p-UJ+0pfiS8aPjrKwSU7v9W(M4=c<>9Tvxkk
z2Ym^r4Oq5NZ?LjkX@+mHVj+H#N1lI&wPubyyr1vLQ=&)4o_hWj=lP$r1c8mOiFl)$
zNI$xizMjB?%u7>hWjNHZOBt6?`<iuw1598I!N(zkMV_g}vZBi`k0c+IUzShzI^(PS
z^DVTQ7nm-PFVOD<zGJ;rsCP_VOfwAS^wF%Bs=+u3><g^QvJGQVu>#pKMcw@j?uJ*%
z;<)8n0L<VF%|uT3be~Z=+)<7{QJW8|MPLJ%aCp86LTtrmCiQ{t54r!ILmkjMLqy>%
z=eJCRU)aI(+~y0LCzee-_UiUzEdD+m3~srwWitG==o`_m<i1<JIvIO3iTF=Q%U2^e
z{0&ytPHeoq<<gdP<w}O4T8>auB^49l%Q=^FKp*C(N|s%SAo%)%<?rjtS4?K5%j=V|
zdbNi1$fGG9-L?+=;Y#omh~)|&_3&p4O-Gv_8gE%%ISVx!q04c2?h0_Bw+q|VoaEv=
zGQJ|FAFi1*Cw*Ge2<JV~n#jW}nzJA0W$xLp)Q+?Pj@LNWd+;Tn1pj>;lOxlGrQ?TE
zg-fXoF+8~{wXiW=zGiGU96LfFuq7GWl3cPS9oqtR2?m3HaWt8?NJb6Tx6*XM_JJou
zHq>GA+x+?}d|gh4!p{|j^StN^O@-z~7wdx|?i3Zlg2C|iKGZZvAP+6L1Z-Tz2YEhX
zjtZ<jlmjp1{&QlUM-wi3fNa3w^K)RXAqNDNi_S6dx>bgY!>*NYl!}Zd5CCPZUvQ;A
z%q-fPR21S);~)hx!f5fjxxq&64?1@K@DTS+j}?n-Ts#mWR17ghNY0OBipbex3vd4u
zCNIc<g{I*zYbFaTF&DBcAp9G+!3N6u0%E-P6$XP+26KFVrMo!-Nt^J^_}m6;0$^qz
z2z{KITyd(uE=58`6u{$I)_D-SZ4T5^?+FWofZhUGVuo`1uiOYE_5kuKtH;~VcTKJM
zdc&IyW7*R<)!u!*y!zs{3)=wea^A@KN*;JwBGD?T7%QC31}oWpIXUo^!gP5Pwkf22
zg>#`8_KunaimJVorNL50VL0rRAn!aBmTtQNB7cq6XHr;64oM}U5dIr;JgJh&pRvC!
zcp)1fG!_^^asvH9Bn#(GSe#T?Z$66PVh93#3}ppfC~GgX$|NLeCII+Iws|?b`ukvt
zHvICOoezo_FS=pXMneIy;K1oqjNCh2>L`%X0_`-H&>|49L{+>WiZre&rsrGI4j(PU
z&hr0_bx3Zdr+-TmHl+<dkBTIHX`|D2$47E7YXN-a`SjQAj{m1<s&}z{LOxUtI`#Na
zy@iqreNM#Cn2gIq3`N?8mnrz&*WC?~9w_M}h?b}A3PBAI!Lm{i-0*7Vpe`fqTIhxu
z+zAcyQOGlgJ|#yv`wKrz4qw?A-<xUV7wIX`q){Gc;C{3oC#(!Vs|S;<2h({6GySaY
zPsaDB^Y)K@o+q&9&ObM?2_|qYZy@q)Ycfxnm-}SYc6qJAS6njZ<|_P(n=h1m*r_Jm
z2-YE_KYK1HYx}!^{aG&k@p|9)sNKVoB3&F$=EW8ApP#6Z&ocS%ge|L3ry(k4i?X0v
z4|el<&2ElFmuaE`cdA|%>_QoPaU6Kv2vn{2YWYQB^NYZmh{QF&o?q@`-2+6Po$uj0
zb6^Yf!THjKD_B3&q_^-vyUlR*?DaYmUbVQ!5T$oo&cY)22w(}w63eoH#|*7S&PaLM
zLW|~B0jzFmh=yV~N5gu!e?Y>TEB73V{-O9wAfTmLI^#S7NXPJH@7G%59zPo<4w&qy
zu6~#<Glaun&#|HYA??-!Koz}^9jGF3OCyCZI4I%OApwDV2nOa7rF%Vg3F!=|Dr~${
zGy_na=yUx;Flp`|>cznHD_dv9qtOf+lRJKTphdbs-p!G2diUsuyF%&Ef$nY-AyXM5
zAC$hgu*a|~>;v4!I4Kt+X0!-4)K~#@Fry;lcESRJs`c*7;)H&V0H#^23p5Joq8p>0
zL3mT?>4O<G9QwFH&tSU<AI_*n+UBkh88#x7fCT{6Pv4XT*-tB&*C5~xHUa=&^cAfq
z#Y{J+Mpj6?K@G(Ls5L0Rp}{zchD&}N<?24pjZyA(dt}V5O+;?&8x_0ayPziwe}MP%
z@(1*mv)HSFu!bSJ{u_WNVw4{nA57(~yqdRq+A9||`<{D0g8%&cMhxGX4}Tfl;gq{V
z822crnF>+u*pgw#UAh+y%DjZ`C6mA#7{wm;0~If=v4B(W!F~Z)E?DEj5PolwPQyi|
z!a!{c`yD`ggkzyVXn2nvWGr?SqYuknEfB0ZjkDq~StLh^YItJRf>$<FpO~aVZ-YWp
z<$GLkqfD%j*1w7uGZC&c=P&TZnOwc$%@TMJ4;^M7;7oy$>QRL&HcLRaq=_rw46<PX
zKo9Qd>xrv{^>1fS?R~58%Cqk_+%>&u`T2*(_KxqFu33_-S#u$JCGyRJZxoD0-;b3h
zV~an?&dNU!e!uWB#wa)to{la4jt+Pr5wMkC&55DQ!<U9%8%b9*K^v{O@|Dk>|J+2k
z$2!c1ZS4x%hE_pQSOViX#Xd%Ygu-znY~U<|-m1&YothEZ8DSX=Se-B7jtLYtmD*u3
z1pJ*GnB}OGT!6Ci6RE=Z_43-u+Nt|f%Qjvu-;|7P0{P&I4sN2Wr9O*qSF+Aks8i5z
z33RnqK<axVFF(5SgDT;rW=Cr@8pfSM!z|sUJ10M!R9+H6D3i2Lc+s$Nym1p=>Tak1
z6i`IxDtu-45Cf;HP?WfV!zTc@{*zD_#Y*c3ei5&>nrm-Sss3Alr2t@y2M3SG!Q?v9
zd89`i&1rahssmPG{0@*b=tk|(qBDM9x6=o#)Z3$>IFTAKGHu@Cdxsprapz>e<MWB7
zWL*^d105Ve#LM_m_;Ux}p#P{;qK%&qABCIu=UPXfYi&L?+7VCqyV(NsXX^IDD-!v}
zpj~x_Zb~U!9~?v^+5iA9M^0f>h=Jjef#^A|+%v(Qo^h@hc<ec~)i)v-Iuz9-smW>?
zYS_%}Rvw+U#@DrM(nyyCkutl-o`&_^emX00&Ewa=vRgefgn-l!WnUJQ0a4{185*2h
zP(7UEUW`TKKL27}X8myu@}B>1d=`lxtIdt_iMW^EIBVDpnHRiv=#9)6y1;z|26Bm?
zui<SbFr{9$W<nBNod%#nubISBZ)X?n&pAahi7jt>9R%j~_8&WjRXCG-rqdzqFcUuY
zrj|Oc!Csij)m125%64Gzo>!0*yyVbuiEe{MrVn#>H{z8-rp7PepA?o|kCngj$oWU6
zOWF|PWkHcryp6n^qj(Ycn!POW`xGAGs1fJ`7Y8<P8C@7p?P%HhLS8q3@VyLPD0}CS
z&(N4XlbcZ6-+efbdy!((S&cRxXI~ei64wfP@bc+Pr-2<7d}G1bXu5buGH-|Kp9Rgx
zZu>_l=pLn9@NEuNW*sR1C{gj#00_R4jSq(4wuJ_Qf7)%M=O9JS?C|93)WS9C;<d@V
zwbI5nvyP!XxZb}<c{FnZnY8kCCOcR)yC8rZ)>A)NloKug5FX3!!Q@gXmK|-ffLw(|
zleTxsS9D@F(kB7P^L6*z5}owz1l<W2a+9+PhU*{#28(wFc-w}UtJB<b&v(ZAcEd-X
z@=t_F@ro<k-Eyo&9da}zJ<-t&pich{sDlS80!96<N8Tx*j{V110&|Xtdn0{*vER~2
zLYK|&K0ElFV35(LdYa-Vp6<~8L-%xcx!*I~U<D$jSG3usd|6pF;NZ~>t`UH6zk_X^
zkVwUH3X+z59At!Ji3bq{of1yP8zeZQ&n1QTQ}aRjW>{ZHyZ$aA>W&PE+Lri8Fx6Sj
z4Y?MHVd#26WSL!*7D!V6?-oGvQ-7yG(rH0w02)i$^>%1a+$M}Hb$hGVpTo|^vD*bo
zUMpUiDqcAi`FhTqIWW>#{A-Jo#Vgar_b2o2|3m<#)5?~IolTsQKp0u>X`z9VLulg-
z1<8F-vKpS1?oZV;d6c}I4Xk;7c9VRV3Eh+oFrR?OJb=dv4IcM}EqrXT@KJfzly(Qh
z$K|NXuS(S&NzkvHs~`|Pmj&O)1`4iEbhe`%vb#PyD1?&0j|~*!TYgY@c<_HISort=
z6wN>j6A=giC&^`q`mJ5PodW|~JNo)sz|%UtKGC6pi?OQpdu90HA?blzkjQOK@m)>v
zeNFKv8<kgyV1n42E#9E~?D_~{#ozHO>U<2+#_ZT_+*dc<vFj05%<R~gvAdkDEMhgt
z-pmQK4Syf|#)&ieBPNnvLUPFmnT&Av(^!&vJw=c?#WnS!b|-ax^zLNtPiS{;NOX3f
zwvWCsH~bhkCcgE5%*NdCquQ9Ha0Ce7-p1U0+k4aI{Bdm0o!o0T-JTmf+w-5y-JZ@4
z){wCWrB)_C&jR-_hip(j3f^e<VxP|8_hjmFM4)4Qb4`w%`{7Oxp6~u|d`Kq8YqkeR
zJ$Pq*mTT^e-U*#uUHy*ea)Or+(wj~cTH^QjoCdRBq%A6+R0^us>Fj&PoDQ7$j_vW*
zjwUV2Q2rNmwHaBTMK0A09$FkmVblB^A{kNnu{?gBLFCH~VE<?**gP0?JIyEiwEz;_
z3wVXVA!mDhU5A3);_657jC40t!@%PANVJc4pX5OXEE?1ZHi7{Ny1mj(eSmouu7?^N
zdPE`<W-nM!*5NE@LC^QM#vg)@2wm!#xU!qnZFs7u{ke6cP4Si%oVsxTY;)`A)2QyC
zxHMEw5LHWpa^lz|#idzN1^#xL*N;Apjtgpj>KT(qeZst#Phfm_4n$wAS47e4#h6Qt
zb3M}ra=6@?p_@MKSxH7;DF%3aD<!(mO3lQ<G9e9WJ-F_e#7PI18f0|P2lDvO@35ay
zX#8OC5o!lE%q^KxWHVtWsLLN`B17OpwvTeb1LlydV589|{^Ry?3;!472|5ZDt4(Lm
zLH`1qeqa$Y`<X@J_YM)v8ARe`6?oGpMao5qZ2Z6R&+xJN#4mv%Sc~Bo0Xlg>_E+%V
zu+kNi%n{T;`%`J|-K4w`<}gZGA=)QbkXnJOk?9l;TE7?2z0_PH*x^`y(Ma|n6|m%T
zWn`Y-S&dEb6$v}#3iLx^>!<3|2}-;&E+aO$W&5qj2S&wNC#cYvaWOc_3Fx(EUPdSe
z6XA$x%Le56LOJT>VJzb^ty4jAooY{St246VPuePFd@U=;Q-!H@cj%R97dT*DSx*;1
z*cBaIX6l3%XVlbmA?u}*NN6+%{yDNoa)SFvkqy3{!(mbV?8*wG-qGk8Xum3dl}dH<
zu3g|EK>`L~0|0q4uC|8<_$V2HRs6H)#^;3M_wXG@_MKH9akgRoIAT*J8lbK+n#jr`
z3`?f8OGK}4fHkZ{5on}{wqF5@KgdMtUBEk9T+S5YoYSuN{Q&nN;TA5BaIHvha((>&
z9q#c4l+Dykp>%ccbXD!e-V43w@24GB<%@?VT3=|#i;30?pZ2_be@XrMM<9Q@ANJ9)
z@@s{wQiZD~&s>EIO_*pcellJ5>16EF*B30D$o*>lR|nsIJh^Pc)dd@`SJkoZ$ve|k
zYsc=NE~~lNbfM|hma$xKEvK&*w$Nq6Qx~3^TnOE|mN#3{m0QO4eo!X98a`MMDk^*B
zv*$mXTu?uG`fI~)41Z+=BEi*nL529@p$muLvLH8IxeobZbPeAQALNEw@BC)rHwu4c
z!5`P|m}-4}(`4!7&M)7ctlcs8Ad=}dtz!>PMCcqW6@!4eZsNgIWdpieTsgMjZ$8Wo
z)!j3I0So=^>he8h5uZrVDoq{4dzWi0qQS5eO+fcN5$4(xtz+{fi%&ezMBAtuJ><9T
z9)YM3Yf}{KwY-p14^GN%Li9kwuf)u>Ih6f-&h<Wg(5EyEec_4PRAK$}vXx^GjGs=$
zmP{9xO{_^3u9#lF3Qx|YVoR?VSB{^UtV&fiTv_wZld1J{O-Tdw2BmFG-sYF7_$JJj
z1vtYkF?xg9(WM_2EP^A5ZE~v1bxlfntH@1O5ln7!_~wwCA5FX%Ysa}CzFPVQKh>ES
zULok-OKqO&^mvHS%ur6Yx$K#G7*8@Vc{DR(lvmeakSj?p1HPPG2$aId02+t!1?^6k
z^~)uA-+p-nE~UJ#c9nMP9LKqYFYwFWnIK8*yoZXMwMgK_T_8ytR}Y`gL_sZ_9FUia
zKw#?xczC&`mEOU!gu?eZy_|~wCMp_6szhP^v9D%dEnEp&VKO&a)iAXwRkaSAUB{oI
z0>?`Q^Sa}*TdD$`n2(UKW4FgUwgy!zJ&sI=#U9fQ?YcO~FvFmp6NTtm#%11_?@;?f
zMS&j;i_^vcJr2>(u;heWA?NjkB_ce}LnlbhWn6DZ=NkA9*DJP`R+)lc(o>2|ZHjaC
zJ}p|1O1mHPO=AOhArxflaQq%}D8mGCj>Hv$IH#QnPZ_OrE@+7F2T1Pu(M*MJp=f0D
zH(V!u$g31N0=zozPp;UXj_n`62iRdk!pdKM=+Z;4wOw1(np)JFUbG=ywGr#5qGn>*
zg?;Duysz*Rp1|f8p#mlrf^}W+W`XiAGzPbhyOMdk1c>;6HP^O~sC#ka0&64KQzVS6
z8n2EjR-w8QFb2ZE=-WAO>D>wNoZBXwXMl#;IHL(f8D1(rug#yF4LO=x*H%Jk%;cF2
z4z)J{)F0xu3<T;`{&6*+JqyTw00ylXSr3PN8oH*dQpL+ApL&-8kq#u+A4nrDUU$8?
zZesW3vdKrM4qYw2E17qf4AGlm=Kw!Uu6VF;QQF1idz?w;6Mzoi06&24cg=?-xzXKW
z;ATn}Bhf9IdyYE=$5}EMj;}yfbKrQk)&b8ygjj+Ib`~WPoLS%j*R6@+)$;-DR>K_A
zFk8<QJ`@Vs`KKkWA7;Bmyi#-nL`E>Lk!)!4=o%!T7c{9zU#SVxRvAxl@VI3m#rH#3
z4_GBoBUtr9)hb_?ELbhZ7liSt!0JmUCl03a)=u4j<?(lRerq@6!tdqnR|9*HUtWau
zIY)J0+Qg)Ql~v&5X2$+HFC2X!{QVG9RSUCyqSLefCeveu3O}mpp`x2_dJdcEaXyVZ
zYZp7;M1Y;$4qCcru)Vz+W9NK^#fAGd|7go6n3S``AzOlvKGBigaFda>T;U(p$kLO9
zZ)C}vP+Fe1HL~DDnvq?0yCW-~V6w<RvV0UgvY!BH7`eau<jDZ*a(y7AO2V=3KCmf!
zwZ$%66ZQ`FKwT0XI@b~U<9)q7&%nq4oWYKV;0&SDF)}79E`Xz@Rkm;ktT6~i(ty?+
z@3Q0`Hg2~5f8!8t{6Opc975A?K_a9h%ge>nzpJ$*grxnBVJGFd5g2BooxP`ycOtfV
z_h9Etu0*YBw>L)&DVg9R=w@=1$uTCvX(F&C#Pfl?1sqzt44N>h1H^rP0#Y=5HGv4X
zt(t0_kMCs3MV_wx<f0+d#2>5pUIEF424-GPNw7BvL+;JTT|&8=Mzfcw^Hv?${i@4p
z3L-Mm#sD(X^aVVQ=!qb5GBQtH0VJlW%lxuVV@al+vT-tJ!h<rOGdW=JVu?HB=z=2?
z&Rr(6ZkB=YA;O(A;UhEQE^&$}CuUgyUOq%j7Jw!UH*o&@Q56WovV{}jR~ydfj)lis
z$2w_AyzPZ;(<P-BvoB=78Xemi@T9ctV)cdUiDj?WU0ix$>14&%YTu|$mo|;%OqVXa
zSbL#%V&~;Om-eU_QuF~{+Kg8`(hEHIQHGo(Zj>97NL<QLY4~QIBNEt1r{@@l2Oj5D
zAkAQJkT7mFrx;AR-KJ=Oz7jBcH96kSGjs^3p?v6bV}6Dg+E|-lKx41QPxiq40|!3t
z$KfjXEw`|FIg=w>dFNhzb00Xx0h<`7g(IltCY~jW)KnT;bUP<gQTaYvv<gfGM%%b2
zx$2%Y(&81E1F#;7>yvrglPkBUkrvm(Y1MSuqKPL{Wh>!#a$;|)v>xF+#4-6@Q;(-B
zHu(RV&5zO>WmJ2kY>fPc8nX}Xah^r1_ufoZPP)ZpC0o1-1%)<>fSQd(!Imh>16x8l
z7%zw#|CG2>Q~(QhnHl1*nYbGSWOInwn}x&9QCOk#HB?!^o#Nv^DDL9`4sk>sRDJFn
zAU{&080Oz8D*D7nftjebOYGCr2gL_03lT?IrQCCny`0_o*@F-d9qCY_P`}PY4?<Ea
zwY!0>Iu;1bl&JNlkDa0<Ee&U5ApV&zzm`!c1w32eNKYp!h7mShlcT8}9eX=_2f8~T
zV`Hm(JI~R|vZuFK)MsI}=ZL_IXQ@HR_2MkAXdQl@msL#e=wOUu1f!CV-G+pB4aB?c
zQ1csYG(m{99Bd76wy0ls_MLN$b!;Evan+puJ`e*|@<U-&!bs9oy%=n*NqE?f(&#M|
zJyfGGcy6m0JB_wrYJea`wBPhL3Cfhr;MWdOD}k~?f8$ucX&vsp%?qF;Ew;Um)qX2#
z#Fd8x$##O6FFbbP&}E}2iwE@pMhv*Akw7eot;7pD+S$%xfYqR~@RoK0(uB;*fLb2(
zpwk^`YYc<<!6H*Z4~I}SoOyj0#T3yi?ECE`is`z+d4w+{Jfh@OoVJ-l&n}vYVSMfE
zJIppyWLyC%V(=!UQ?Y^;mUw!a(CaWh>L;GSMz39Zx%yJ|<)xRFPSsuM{dUE~(sWJR
zSkZJ|>{{N^RNm6bys4IJYwk&{x#w!$y?;_zJRK{!7OPLi>L>S3wOwnvC)IS%d$D^z
z$PUFy6sFXJDg(yTFhSmpe~JW{@*}8$2RYm_B-UFPM_zshE1po9bs*7#NU6X;DQ;~e
zS-_X@U8(1U)SsH99^O5KFFHcY@V)V>Kw3tTFzhJcidT-JXF*diM>z?1BNx;tH94~4
z^4d#lFE?Lme(jEQ=^8k(mI#+sR}15mXiz#4p`Yz^<r*zuP<UmAP5DRsa;6!+tS%-G
z@?$)T3ce}^zFM9e-5LI?vPiT_Rl;0d$Y3vafY<HoanElRoAYqz;KM_`on>f-KpXt+
z^qi&HNMZ;waOfTkx_;mk>^KN8WDGQ+1VMdhs7z$UfA16<92Q4z#lZvwg?>kWZ*TvZ
z0c9{l_zt_0qwynf-sR>3sB3MuK(Mn{;f@5wce+^(%J*g?bqI_>tcy0>D&an92m$Hg
zP8Kfh;_K&D3e1b{Hme_7{rt7EH%EIM0BKV-o8W7$fMVtw=mswk*6F$p$Y|ktMoT*3
zEFaaJa+Gp8Y<r>af=1ghpoY1O<f$QtVT-jcysb~SUmsav)4TI1bW)^5#w#_J?w8z8
zNT*N24T4q^x04gxXI~d?r_a7YQq9n#uf4CB$(?`nWto`qRC8)=|9#a<d+aN^1u&(&
zv(V;U5Ag;V5o3|G#dk=IX7n1QN!*wdWDFyxYwp6sN)8?@U*n+rbF2Bb6B|75^R|jq
zfDWx1@8lAY5Ta<4t#Iz5^sipqI0QhWp~L)Z(N^hSlk>C<Gcc!ZwuXb)Eq(ocW*av2
zv~;(qdK%q5pyvCC)8CnZbv9y2z@`LM4jvzJ_mzo>Wpi~N>Fq{%Y`=<BkF}2%qF17|
zcG|{hBC+8_JYR>HRlj}u?~@=WwI-PmT`I<{cpqd<ww_KyEH*r2O6uQJwuUBS6%HZ-
zL@McGNPIf`Y$chEF;$tyxK+98Q3~R@mV1w!lAyD#TjNhjf5pxnG~@cG?Ps{x)w``4
zys6`WUiAP+XqI7!btmSQTaVL(0(Unp=)!2-D3nv*om(Z^t03)7YlP<7QO$JoSApfy
z>vVS}7+@D?3*e(+EE(6|f@-Z=YPM%iqxILvA@S)#St5x9Mh2A(vER#}q7C6gYeMMO
zgo218upew(F-4U+-vosKV``TQCE01LtA+X$<{R<8pYvAyuwZXXKE6z1Vy;Ob)B=+5
z#%(FWeN#u@i)|t;xMVIZXb%Jb5ufw1-k{K6$Z3$_!EWsWjRN1YbRa1=uf*03S36jM
z&&lNmuFd4pc;X>g!_DCEe30NqsT35%fx$ab81lD@GCvt=vXGRk<!;`A_)>29ps*v9
zrAuuN^3`85`8_705;Tnb0V32QJyDv%{1WHMK_LoHZLIXls*9h#@M(BUN4OKAB(<i?
zY;FkNSUPny+wwb-v9@GuTN-J(M7DkQ)y)%+e(COH?A~Pj-gNBV@w=xh;g0sgK~c3S
zoos!hB3-%4OPKoDWb7fA){R^HqZ&cpU|D8~>7d~py@oD2|B)joa+cK`p+F-?sgub`
z4vOX6ECwaKBRjhJ!-8CJZj=}jK?$@N(uOBs!7kKoFZP7j?GwlITdPMP%R4<hA#f#-
zjRX4bbbqfHjW=n^mMj_40CV+M70uSET%cI3*Os^zDJb`~{Gu^hA&mqw<0o9AfVgk;
z2IGiwL0+N<E>R&anaMfk^begHFs$Ui$CV=*DqrN?-)C|Yi2{egLbZR&g%Kc8(1GBz
zD4{wI1(XF69qwiAbqyb}R}SuEl`lu?18XiQ2}{(qJl9bOqQ+(SHF=o8ZeEG~NF^T~
z7Y>q$zJ;!fyF_+Ssn<eZw)&iio)+k>+Tf5xSYmcXMxdVX40<vU#hrw1fpZG8%HdOf
zBm&R!IbP55BU#77;Qj~d-r^~h8Zs_Cwcyu%g{J{Bi$w105kx$*(uzQJ7duYQ23L1<
z(DG-3bY_Dhw<YqVcllq=MhGR{=TVILvG7QgDq2vkLW(GQrS4Y%-UCZzg+_8mqCGG{
z`fB(ez+>p`_F&-bNcI;_LnaiUdz&b*NQ8R6M4cIznN6U}o4n=xIveKsM&T#;jqpnw
z&=MM8Wn8ZGimGa0uf%k`0SPtG=mATfkZl=p2dG~wniRwIT4w+wIRnEhd?zhM&;hi0
zTqxkw34aIyU}7fHh02^H8my4<&)}}HNTFNNyA{RSfRdh|CO^y4Wb4fo7>6044*!Vg
ziJT&^07c0|m_(M{r@Tkjv*-#WGZ7XQogmVNygWRln1C#e-+ze^YZSF3D3Kcy0U_HE
z@NDPUY4~sTg+rKLvJ^_UcyVD+A|dSigYs`b`md|LotIqvXu9k%M68DuEBx4;IDg{B
z-ib$3MN7mf<#_1}caC>W?EKO(DCbU>Et{;LtW2(YAX)O@jqI%Qq7OpK_e1Hzv9n_l
zs#iU8;hE`$br(l2j7%eH?t)8zmh$lX`O&h1v7FhGP^|Qod(Pi8!Qd_MKJ)sf%XeM6
zOT~h_vf|3XmF{<1uPk_HFkQYI-YqLC$2Uw=T-Z7pNtLfSzxzAo&?TOXOdgorGgUfq
za_V5ZeEryNs1q(I9bb`*Era$_Y}r^CtW1PVVxZn<uR@zCkzBPI!*OxPg&mX25Qqu&
zmQ`JBxX|$Gnu%vG4_z91?aaGntJvz#UHIJOk@UjGakvW(p@c6_x@^_^5GzJ6M8^}a
z7DBKX9Aw5y1ph7O(<>2#V`nS?rKJfs!r_<l=>KUXEC3sMdHqZn&YVLDk^Xsui6Y#G
z1;?(xQUuS`PoeIft<~MJEW~-V)By$ed?>ingu#La)GxFth5QK#6A2)UQkhpGFOhF(
z@wW@!;?V@x0jR!<`g=Ci-wWI5a6`Lln~6|)a3<fN=YioeEmnl{MBs0TAG+ht%LGIC
zuj${H_~$=BG7}YKE_)jqZA9LXFN&XOA$q^Sj6a8Rc*?Lhh?<B>6}r#GE-(fvdcVYx
z1u<}l;;oVCHSU-<@Z$Lp)_Sap=arheu?MCrHo|Rm{;n_<2D~0`eYbpNGIn3G@$Pqa
zzq2{H`o1*&C|?N&(#Qh;@a2mqo=BCg7|XrBcHNcIU)}Xi?yo%bt!3%8yZ^Xs&*ZN0
zJ0~{0x-D6@XDk;9S0ZEOji1B9oQ{?A_Bk-jr^^@1a$G&tnl5j4g_6`6FW(y$WutG#
zcCLvyMeO%#G&-2Fm0@8r$<8sK@Oa^B^#=vf=;9BH8W4TwU|2NlO07^5cZy_Y$u1PK
zmsw>usOgp|l*|vAe~FulCpqk`iJ{jQ7=ADKyzqu6j)<%-4D{^?bTw&fI15%V>3^*}
zr^1p;f%So&W0afG6Al=a2~xcS^pb&Rl0m3xc+2U7EuRwQ?N_X0@p9A+&MJNHDgGe1
zB9v|U!Z#QZA{fTzgTsowWq2iRu)1!4&KS0j!ouw#FkHy1(e(vo#4E{Z3d-NwYFqm`
z1k<#u2ex6f{2S=Pra|u@?Nps;X(8v}_*R$gq8h+@8rs_7WyH3LkJ?X+HbOwB@=zW%
z+A#P1S{W-Mn!^J_C)=Nc{a$?C=x3j^IU(B|r4it$uINm6&#~k9p3R^?)f9h586v8>
z5X@8;kP+1FLl)H)#Rt`cbeN$}g+s<u4Q8Sz5%1`7;F7W##+gpHBKJGmwJA-%qg=V@
z(rt>jrg(WGZwALp#;Ic$JY#i(0H8lBR|spIy$q;ogu$lrKcuTt;a6o@sg*VWzjv_P
zK`1yGt~G|Gra)f@SMs3K4;M7-fO=@z>2o?l_NQ_XsmI><a&+(leB@^9J&R6gGe4<y
zf-}C^d9r_~Pedv7<JHpzKb3ST)2wrg?1Y?c{lx+Ctx3kO@nEJjjXOM}bgCcLjufWA
z@RP!O%f-)ZkpcJ_O&U1W*~OD8bV$y0gU`*Oft?b)?5L{m2KQ{BU$^L)zWy`dg{u+#
zok^%I&{t?@@3DTTXYlw*@R;ENYao6cE^sJx=(qbrc>tADYzMR%p6O`UH6BN0m~|Lj
z!ZjydI`j<7v60hyhCb1B*WKpR<yL0r)DbhIYnbjnSa0GCI$*me%N$>{Ai(Mv=<h(F
ztGx^%n7fy&3)!ywLUETVsscAO(Sw$YJJciRbgy(}x><g^T(vm4|JKBJ4#riU?O?@H
z`fu6?@q>c95W;XA`3_qcFwi#GUw*xYlh%gz2-uqRhe2PE*sKtJu^u{8C0_!PJl3z9
z%f<*ag{~sj96j3cw@EFjf$naWIo{c;gc=Iin!!-plQlqF0>i3gH@*U@;qHc(d?LXa
z7&@XhEkZ+k+JdGTYiN%M$~#<US$L;QH`muZu10qt$@BGmhJrP&XKJWmxgG84g`5Oo
z(}<|RBX$9J+<>aXz1>F#5BI|DQoo~|`=M`#?ZOy^j)~{5!w!M)VMnre=rwx~8w_E!
zI!`i+mURZKwp=?u3k4ayd^Fs$e;c5p0jm->xEq7WsT)1S&O3s}+m1F{NCqVwK#Pu!
zcylvWn%BXtKt!}jV_1yZ5K%V43SQZ&jtg3m`8(5-!1A}?#%AHyIy%I4Ek1;y<XRIL
zmHAP%Vijj!+QrE-pSAU|W%{%BW7sQLY0_rJyjR6_Yr)$0H%;o==^O)wR_l}^4m)Y$
z4j!i8ZPr<{S=z`YA5kl+=Va$GcO)?Hw^M`K4H!vmDYjRwMd1_Lws_`V+QJxq#`Q0K
zt;!(Uva)|w5nF@CWi))Zg?(PZ4hUz?Uy=53X|<|aZFPE``5WV_?~n&;QAbJvDYc~q
zX=%R+9By`7M$qe8GV@#Q;B9upr3Ttb|DXLLsOs#6z;0((SNAE(_=NU@M+IU`4Vyc<
zdYmrkEI6*JmF<qsXFp{2$xV87AOja_Jg5=92k_dDxMN1jE#7dXzaKgZw)LX_X0+9?
zXcJ;|D7tPGM~aRcp)!X^0ZCUZX1`&|s||e{+HRovKn{Y|)hcgx2%6)MWH{hd1TsFY
zvhxN6vXFf){D{M8LncY9_7T3oA|zku07muoc-$pjRhji5I7OPOC|<qRNW7{CW}ZmN
zGM{a|D&C-Ssi`?E08<FxMxlN+t*`b2DB`v8Rv!>nokDlo=g@mDY&bqRcxqtl9d~s1
zwVdgBrsq_5qNlT^-#K;%|GHyWCdKR4Ny27sHOBywhmN!W8{cs{F$4+_+3p}5XzvuF
zse7=e>y9J6{YUONNny5g$76eT?tXYr%Sk0%?eeNckvE%-|2NL!Fr6WJEXb5RdYB23
zL2|w2GRy)IsaZE>@P6R39-{N)_PW8gyyGB#@d=zMGp`ZR{exXX6gK?1BYCib)^&{L
zgSBC~$ZokrWF$X`r)+uv*=iob9tW3=qHKVnrKc=SZ7r`GtqQdlns3v~K)dC5qqU)S
z+au@>=ClphXpn2v4CK%|*o_cv!?gx{&V2_HvLNmxwbMMhg+(6uuSgbMcLHQwI$vUT
zzdmA6wQm**D^qk74MtNsiuSKU59$f3LiFmKv;3ZjXgEM>8!~;~<C9kSysfSY&^?&j
zf!{!Os4vb|hw_W8`7o^)zgmB_col3olMTDlNQ+l7e#YvrZn#>!I+?d8*|;Z-w0Jf6
zGOn`YbZp^tteR<g&2&ZGbR~jH*G!jIeoz{!ZM+f6uPqoWf?jw2g4@=Dyb3MIoY2C>
zkQNmhGn8A%j=;WA`w!f;kEkArb*h<jW|i?5PwmchpW~_BU%sbyy}D1KO{;e<BpG&<
zf@zp#*1EF>oc@6Qg|Cp;opGI@ls4mXy`;Q_e)CeYfj8m3;ODqHWCi~Wo;McE<Pf&C
zCe(rsTJ9n|w`!S+_x@i|FV!2dygaOQVGUwcfv}@j)dUySQDlNTW^BPL`_Au!Cc`Ta
zo_~;h<GU~14V&|e4_$a@y0Yft(-)rB4?idjEvUQ^%2`kVmU9tYS&VO-5Oqz%CBE2m
zq32pvW2&lgYI(Y<IbG7?<r-tla?)Mtzx;VHSeH|FCX@e6KHn;o6F%P~VfaSq%?g#2
z!r}#rq~J+UFDU&%d3|*8Up){mh?Xig9}9M&jJ*iydHv9AzV(TrKZM9lP-&p}8g`o=
z%2c0JT>At6>;DDVe9F<HoDx8wkaIXcr%y%&YW#|@AUy+O=t<w-poxCU`Qzz~gsS5F
zVM+Y>n16cm_G!kSJ`Un+sZM5!hs@L3sh+cNF|Ce=y3ms>By+5eg*I0v4@qJ43?7n3
z^X6nZhib&9=I0X1AujVX<`B;f=W-)|${ED!`YC775LaGS*H1ZvvU}CgVAK4RGq|-w
z!>XTh27k&Kbh(N@<qZCmGw8CP=0xdHyguO!Dx+1Qa>Xdt0@#~#2vLmWv6SP@M`0D}
zvVp8Z)tuXA6+X4@>ABoOKD=#)p{k)Zh-Zjb^RW#T2AYo-iW39JB(Q^chjG6B4z>n$
z5D#y^gHl6q2V3Xu;Qt1E(R;y1xFuiI@?nB_FM(#LnY_!ek9TSLhU&P^6e?r+K{~UB
zCnLPe#o)jMmCZ(3t0C*w>6Yy)4bA~RC7Bg+i3b?VMH2p|<s=J#)AEvpziHbcw$aYd
zgBRgpNya=ZN!Kv?A2HLd8IjKag?t0I;2nA#GyN;FdA^KJWbzJw#QZ>5MZaIY>RR>M
zRQ1}i-7oF`*v!GZ{#RlS?!h7qSZrU|0;VBDHe_7Exo^%iy!qR=d@M!h7qD0i7jgZq
zxQN1c6jq{W@ZN-r$T${?i}+u-yr?byNpKM-4}R@4Z+s@Xaw~n=h|*~WJMmi8ovErj
z-^of>-JLGk=H)CpuXFnZ+Jwu-V)888YWawdlaB~){4My1EEvp3<Va<z3x347jgiN?
zA9{RvR44{7E0J1$5|R+Aaf3ZadmyldoQtkahG29TZ(y;;ID#ZX8AYk&Xt8SZ8EDdJ
zCW&U*C{7$pj5eHY+#WxCvh!@ix~BM9qlJeK+KWt5{=e}Uk_^zFl_?S%2|HD;peqRc
zdjkQAqlm1w;VmXq6`N$NaBeH|AJkyKi)Ja05)GX1MkK})K@%T{V1*s<3se^HTh{O;
z3!r<T9+?0V5iZvVQ``uD$wg1T7yC2~`O1Zv+~pl2-pddz$IX0B9p1t_UdB@tykkJ8
zZ^#MWQ!#0t-ch-19Yqg}HdXS<>GP*wJUdpb+MzeMRBhXFYx}aVAaAgJS&{m(u`VmX
zx1BM3Me)#ok$0={wO~bDsg}wA$Bo5&u5+O5=x4$o7QmhiaG$O&!_g{hW2PN2uw<8X
zMJF6pUY~@GS>8T~IN-7Pc;|f}Pz>{($2;@FhWIp*J7w=E`7`qz9PEQCESv>&AH~+Y
z4V6?=F}E2B*CXACO!*wOZU@v3H~gs9_$n=)r;+Vw{47l4TjPfh+k*o$HqXtqjSn-j
zoptLHOE>O+RO!ie80O}t74n6H7z8*-I%ZX2G-z?qUKo{Vu<;b*cDFuldG(!%6GLJh
zE*{;bBCS{jcS-GFWBU~R0Au8t5q|j8g>-?f@Uqp{b8_gUR+FN36Po64jWpDw>(cBh
ziRf>j8U&{Jh}F2Yfa%Q;qlgO*sk6~Fp)RskB(W-hJ$=oR)6*F1g-NZN2fNRmL0}c@
z6T#}E=?=rok_b`ExT!J1QyEPt6Vm?&W3Y5nB^q818Ep}<a8E;p34>#b-FmohL#+i-
zW|d}2yu-L{BBS5qx5?wJ$+Ix6)|jhG5_rr-{Y~>ZRkAuBq6D^eD>P#6pyKzb!GSwm
zoYpRH2ktQ2s^t_S!%Iu{oK+!*p%iXgwqwVR_(|+K#3(Zb8k(WTx!zUKW)>yl*bX%z
zr|WnN7FVLLAtMXUofL6xkDr7F817UBUG|s*07XD0D4-8F8CVjE5HCZ7Y!CoV)^U&^
zu$C*+%_K0WJxBy8e*|IB?FNIIo_;he>h)WhtC!|XuHH?K#jB0lL+{%}9>2uI#juo-
z6G(ZL7D`QPES}v+Ott}8{dm@B2Pgwm7wb-!Jn{pHs~e1WIRP^0zl$5crK#(X*qrK|
z)m{tIn_Gn5+`@1)do-)B8ie|7YZkBs$bEYTM052;e_f`9hBC<UI2ZpM@vR;2nY`l~
zhk@`BJGuhj`wa7+mH5bTiJb&ZO>E~J@KovbCqBJuEevwT_P}uG{^_NwE{|LqdF^vk
zXTCo2=Ez&08-Mcr{qHZW=fkOkUqAfj;qfPx^KgcHKQ?(LU3^C}?~b|j2+ztgKZkMS
zo1Z{;0SQE-F=K(zWyy>yk)4Q`9B}Ebw-9V7bK0DLgOT_PmH&g^n#soE6<>yM#At^P
z_rJ(h`*X+^O#GC&gJlSyJshsJC;<z@;)TYK;-;w;>54ntzv|N!Ewj;VdR5FeUKO*Q
zZ}4m4QSl};lQfA*F~4MKrsXhR+854^7JXQj6J7T~iFOZeJSs+v@e)gRdB@3&+l>`?
zI_ESJ>>fNyqHl9&6m@wCBkvKy5=XZ%!;zW{!2?**pidWP8=K;rVfaEIk*O>EiQ(J-
zt<ao|<Za_P$=&ct;WjJ;dl9tDHtxU;aT`u~m9EkK32$Cq$cv*~H-@g-BQPS=pb}Z!
z&~9u7@evQ@zpVzFNuNFvDib}Tza(JZ3%4$I=L@0&`m(4@9UFfYO;=~fe}X&hO~i}A
z<S?|^qOSyZXfrAY`to9_ha|8u*k}1gFLjT@-+cYl&MVJ;Yh^O8{=K|?o|99cw|Qv=
zlZRQo^)_D-&HL-7Xmmfk%`;WCFkA3$Z$PvBp>z{jh!_~@jwbw0>2l6xH|EUb9_TrC
zvcD%WJoLkEcwLd%@~}!g*{RPvN1e{D=UPXfYlWil;qJ4i8k)~Gs)J7#`e85L%K}@D
zo7+D>=kinN!aPUlV%;#qmm1*ck`t#+(FlC;;&aKoS{c{2kL#!99ke|dm6Y1g8%%PV
z4Io#Tn562(bIH7FHK~O8P7g8pAMsAyxJWctshvqLi^lPi(Oltb_rq8?T4&GEHFA#r
zK2Fp%sxXTLuad2(BNHd+fDw6z7<f5!DB7Kqv0`#1kVGEwEY?l`(Lo^B&fms2yh}$v
zw`fAFs`}!60saUMcJ~eRJAw%u*muGvO}TP886V&g3r1-?^%=7OV^!g=Nz>$>s(O29
z2O&k(S@x-QO%T)2k_9%MY)-2_dzz+xl%u>ZgH;Y$ld>q4)h)~VY<o}R=yPH^dO|Jq
zv+XCa(xr>H!bv~UbJwj8U5|AS4mo`u)1A(^8dNjx;s@6r^3-^mn8}<cb%64jerZ#Z
z%-I0*z~cW**J=2GF%;VAT0OxouODke#g;VFW}LTamMFZ_VcF2|8CG>L`gCoGNNT7G
zSi2N6E1^*tg80A?L6Cr<b-2km!v%0Uy=OQb0Kh3DI4DOFfJ;hr`z<zk6`R_rkP`S{
za8vHWoB1FjXk--5yxsyF;bl$}S#V9Dwyg59u@mp-Y62IV#_2=CMFN~kR6}4{@yh7=
z(TRhXKYi)bY3h})5-8&XnGs}_vD=0lG&uBpR!?XYe$1?|cdv1SZX(sQ6JdILaU1<6
zV#F|D8~m>`va9PeL3>evSA^f>kOjv1DYd;YF!vYOk5=i2&#iip3-zk;;mK90g^lUr
zHOag+9?%@<O-owA<T-xA$`C4}d9y89(S;u(P|Ru#p(D|?n$w9pRWA$vh#+*qL;c6}
zICS#t;RVu00MOfiOdI;>oW$PX{}`7oLBLypncD0MKuG-BxcfC)Gs3^0GB4Kpyy9v=
zi7Ret!0*=NLRtAJ_wivgS&X0>lwGKWyYbQIl+nHy^2U`_l0I(yghODQhCT)~bVtj2
zvoruvqq!d!WIy~=b5GyVrue$UnlXk&XRjYIP%U?d!NS#V{+QruA(mwOz^!3xnWv2!
zy#6|227}cKc)eB}PZh@zfus73Y7g-F(EwQIUt)RyMSmAR!BDiq+g<}m|HVfDq%{+3
zCZ9;vHl>T3lX=az0;JLqCjZz6NXr078#EwYYXNDC1*9#iUKR`nq{Kv-r0z!)#^$zv
z3I?a^6P<4YzX>Svie#-57wGDrLOxKjimEUWw=<46pp|Je3|77a`(~5zhqv*t+<&X^
z4s=P^zO>&J({G<~HG+U^ml%*_FpD_FfIOkUPdetYEyfx(k_B70an5m6d#z|OIgB}}
ztJg2pkubca>x<iQXCbv|#dWwy_#vEG97L0T>KMRv`SW+<7=Rn4eem2VWsDBD00XDs
z>j(M_1M%g0k1XeYS&n_P-0T)v1f&8y_LN)Yq(_Gi=Ad#0F`WC)kaS@v=r}_5aO+{;
z+2TsATbJ~i?5na?kmtH-&>}X^hh1BEy*uDo+3Rh_#;Zg_;Jrjy??Z~}?l5%-qBbC4
z#*e_F*(;Z@`1d%#VaA~bR=6KQFa<G|C;l0up^-5tmuSD)ubOCRp0K(z`F7r&2_hbG
zQ2O_9H<RDh-P0@X2~42wKVSyQ#SALzAM#FAIdbtuE(O1+sYF9+O9cEGk;!`G1*^`Z
z(J@`K9OkG+({-!HB3JXOjo?W;IOWTiiv+Rwj$@VsT8)zlPd6u2zkMlOf#Q@HbR@%5
zo{usvJhemSzDk5&&xYr^Km%1BBp!!M2$QUOp<8wYXReWKI^C2o^iaXbyp#`T9#c_+
zHNbXrd24XpcEV6Rusy?Q|6BSj_cP(fXd4u7{8KiQtM|0?%b38wt$w^uc{tMOGEP9S
zHNJ8HZXtsvoGW3bp!4*xb{1Hlm?^-P*7wfCXtoi9i95-9JaASZ2@-=9n+2jNu>ZvM
zK|v5Gu#$>vCGk{AJXySKj{C-%#g~^{TJrte2>mv~O*9N*cbwlb@tJoES522M9dEt3
z?ZURnie&k^sj5`@x@2q}EKeC*ePZa{1uKGc(DUTtJKtIHTP?rVl3KhkUA8|NQz1!%
z7u{a9=)!WO4%4go>9CWNfbUs&U=5SZahdUn>|@p=tau=Z7_l=v5a_AGv0FRsHj^hg
zbKIO*9E2Mg7Xqre^0{y#mtRIr;ye*cbGQ0SKNZJ|i7X!OWn<_sswZqW-`KxY9eHZ$
zC-TKRaG|S6=3SOx85HRE1O;+=-@C%|MBzv%V~N7os&&0M6Ei@a+^pec5_EXr*&)U+
zQExzO;NA^8{1TSqaHBR^G~Ne<(xGP`aJ&2-!W;ow{|_Nok_oqflS0xMomtQhk5la^
z+fMeHNF-<Scb-1>DYee?AMQM>Zp|_mph%aG&V0)}j+euwc9|Q({cpI?=^HZB-=m3O
zzr23391-go!~S~lqKUrb;^wQxEew3TP6a-0!DHjS5rPiNIJ5Hae7|t>jVONc2cG1F
z>YKmT@<z**x_3I$%kLd47{42#lBSn8O+A%bzU7^rspZ@CGh{`Cx*e&KHB+srlICP_
z3-?@nvL;ovc4}v;s%3iNGGW6^ElVwIny#szd@xnB&a(k4C-UDdTz0*D(L^Fy-aL6U
zRo<M8HBT?7nppYnf~A?y^=4~KE#8$b+ntQ<7U)hc6DA^bvp{#h&*@_FdmO<=<Q84F
zTF7PZ%8Ay0SQ0}F;13pwT(%~<C#+8<yj4dNmhD0@dqwo!jUX<(*O??`Ho}$9{$jq_
zm4|YK3!h6aymJjzcRmmBE2NG0P~tm#WE?sqGYKLvaW&f(B9xo@kc=zaU(He2uZ|R-
zsQ*ZWj)TDqb%QiZU-PIMXip<?<!JWdwTS^oUwRTini*BKhG$UeGpO|=+LcSaq%H8x
z2JK7oL{t2DQ~XS0911{+_XLU7GyC9O?wKc{Rww=<Pj08T$Y=I7x4L?L>P??|^CaG=
zA@@|PAc<>P6F&|)*-0o#32FKixaDjLFYVIj4Bq!?rq=$y;{%`~Vn2aHl}yo3{i@+~
zdK-S#49cSWym<~lcG3Jqopx@;gSER|4Cs_WmsUsT1_;zB3<M9@s*EnBmM4qO?_TS+
zZ06$gIMfmwH#^qqL)@s{X9u5Cv!uOe(c;bTH;Yf^ah;{=`Jrs!=4~)-)^4l8uwct*
zaG*^a+v<z8O?r%U<Bb+18D~xSf8tq_)GKw~Mj~%#8NWKB_5p+}M3Rt8{}|-Tn<@lk
z;JH8!f;>FQaCsFr$}A0KPl7vfQWDv@=Oj2Cs~mrBYV$jHe!B-c{rNRN07avmK?gHk
zH_z$NATY4H+`E?xrGp`KO}_=QHXWnD3Mwhz#gCwGCyu)}v&4<JI@z*}(VyhY;c~Y#
z)_wP0_NEqZ(VOoSSN!~EzM7vZ-gxCR-`<)m-k2_aBANGuqCWlv)hVsBw=kM>!XlD_
zkakqD!WFELx&;lOZVraCqXjtX<dn@qrQk_J*zi_W&9Xlt!e$y(5ATsx>ZNMDtX6V$
z%=xhazEgqoyWtMH!wy!57DHI}1UmOaE=?ib?b39vqm^!eZr}Q|gu7jTp9)-mrQ>%`
zp1yMC+l@bl^(U?Ou0M{ltUu@9vM2bTvGCkp*oF6a@WOliTf?&O9!usuc3TTizRl!8
zR>;GQEW9i%ygcu^JK(On1A5)DlyBV;*zmgX0FpVpeyFV+g-Yoc^QqX<9X*<rh<q_}
zC<n*b=oiC>a=Y^wA^eNhMc<)(A+QUuXY*!CcP2XFBlC2(T~(cnK)(B_Yn|nX<n8-O
zY!XzO5C%UVI{w1p+y{%0CmHyNq&wrRQ6HUel)!<7Tn@c1ZlX`qVg*i$;T4{oQD06~
zkB`Lnt7fXI#0#V%H{hcD7`^!_jd(BjRdn+WD;5ns8J9+@1`3?^CcAI~A#+qYVvRS*
z89?MD+T9OIOK;=)M6Rl5mHXzYa-XQCJZUI?O;L8nwNGB0FC5&r!L@h?4IO&m%v;5#
z=9oxNs39^3K}xI9RLRA2zIf+`j*>P`kulWgBWs3WYoUcfJ^0Z<qqgbnoxXh9SYgh}
zYiQWibZ29*W@ndk4$fQqwA}*ib2e{mir>`~-{Q}%=PSd4fnB><1MfV0Cv<CsBjT@a
z-j?3!&!^Vc_IO|`TVZkdi8Qly-E9vfXTK@_kp}a&o9ScT5i;@r4Jz>XNg<bB07(Rj
z!5r|lU5J5cA;U)3CXRmw;3vAOGliaAX-pmeoNt9JV)?isBg*i{aP6EGWpUFGVDJrc
z;uLLkwP@*NMJn%(t9h-$A%9P6D9+@l2&_Kh$k)Y-pzKaq{vs;W7Z}HAS?2YY&UpX?
zP}^{kr$5`D8wE}D1PVCPCAw7{VD7lMEu1L;dF^zzBYdwjyl8H}+_&dU&nRJEdaZa>
zs(97p;I-9vrdHpXF1{<7cb8zRE<4=#hGp~91Rrevtmk8BKkhRxF#5Be&qd%Gi#)(x
zwKb8#O=Q9Us(vDI%d$r!qfoDhWr^Vec`6-=fN>vHjC({*AAVv^&k$=Ce&(SqN!E>L
zyvTLb9Bo<-nlMk$g%nFM8<10!a-1(?B;O3r<U8FAIStc35Tr89Y?JdYW=d1tGcnn^
z?Eo#%)Ra6k3-EPdoJ704@~|N-A+F}gS&7PqYvy#p=;4lFW(J-{9?VQ3!p|(3u3d7i
zc1@~w&DewQ#}+1I^&ezs<tM`L7j}`sm<UhD>c6vUJDihFti4hN2IT4jC|Hjz7$2N?
z0?fpchOyCW#j8`rtEVcG#dlq)N_l42yCT^~&WPBOa=lVD4H4dK9;1u~@?Aee2u=Ie
zY*VaRko4chb0|@8@bDvhGf*R~E?^i8XZGi~MC)ZB-bZZ86RE=Z_3{;0YTvm()w=s?
z`JQBK&-LPXx_EgqZ@D6^RwFaq&Q{~c`BNtUmdU?k!kzBaqE*iK2nsj{&ihQ_Oe**y
zGcvlgn#m!~$a>@xN~{``*v2d<uR()t%fzl5A^hCP$&YUNph|e1+0lB<>cpLD7c1#P
zd3))V|Dz<#EQ#7#gP9E`%)Cd1ABOKq`bwkFpAuz^&+>mPQD#@&PdriPw)7{GD07?F
z@S`Higt+bkXtEc<690d4RN3DU*b3|wJo+E-=K#Mj4+Um>Z7Hx{1nhPGg0+a*$9Hk}
z$x~U*f8+=L6O#;rO0b1XNxAKFDXD+P7XD|`!k=)0$#&qAA((`7@?X(+AEA`yV0<5m
z%L57|eQaY4>GKUD+K)^6RQ?2zKF$v~7GX!0{mls;Pv;H6^BY`Af5pL*wN7fr`D^}}
zNtsCXO#T4}%u*&bpiDM@G|GgPbm2Sp;^yRa<0IP3mEMmC5}my}l^Q2y^PN-%5*Rb*
z6@3pwE~uz=bqH3Jw6G{TO?W@QN~l!TDISo8+2A*#5i1-WSb&Q6phFa2#}j<Y(>SS&
zHaRBPm@qheY#^v-4)%a6<eK(?qv36=`<YIqBWgow$H^6xMn2Nk_GzQS2mcf}QYh|>
z5A5=QAYk_ijM#kEEQY>Tk(V<A(g$m#m@)_wYMH&1Fa(`MO<u#AM<7zzw=hU(P}t9r
z>_qn4*4BJ9>!pPVNg59FU5D_a=oPPd-shP2!)W7Z1m7!E`MoL1+Smf_bJJ#56>B77
zYeOyO9xTgT6-9WsNzGticQ<0;fZ-=TL{9cYj|GNx5Z@zMl%4Q_gU;(b7+{Zt#O*%S
zu<&3eHh^Gcz5Qp}yZTR^Q{hLy&Wr=hc!qZjx$8WH#Q20L;DZHBq=q8VE^Wu>+VQ!8
z0ZtFNO}^*@HFNfjfs_B5+y3WKMAYM75mU{HM_>4SGOsNeZ%gO3jeQ;`zp{nbO6yal
z_36@;V>#E$t0zh)_FUe7Y5!{vrpp@`%XGuouIb9Ui-#^8n#`U$IDRNyx&HiKMljug
z0H%n1QG2O&a_4J{rz*c*`)2Kxoo_8p)odOsnnwKJ;q${2D=)WPYDw3wdHeAzJJQYf
zrE2d>7w<w)4FO&s+hFv665a(v&Vb=Ckn<V`gv*9PpE*auK-*FI5R>0w*<~n8`A!tJ
zqeTVL-Qf?a<uDi4hdCOL>cbq%1cS``P{|xFJJeEKE<4Rf!DSB}%IVHke0H;h59JAW
zJzu!%W%qRsb{%g6li0>1>}<f=Dc}kTl=~cE0kAhbCBXOK8r8O=@gPVf^*!F#+XHoA
z@^3rrcUu!sIC1}6&p&A?>OR_#fbvLh=Ky>)QJY@-xId|axB~PdTIV24R0jq`i=7(B
zaIh|$k2S0KpuA(?D*ie{eSK(aJ9*CPW70bN{4|4qDl7pe51_m7_z`ieKi;7^JPnNq
za>pU^5n+U^0$mT`#?NXz4@J`3*YHh1vDMY^mA@=hHOxq_r<m;SQv)-3ClLj)Z*b`3
zOl}WCE}<7Q#qFlA_^Z7qVU#p;(Ml(ei7+b3k3nC&(z7}{KXzSMLix|RjMt)!M~r(l
zuXeh;3JSe>(>k!s!aDpFn_gN!7I`mkk!)2TDncb{u-?XU^SLB()h5fy*mD^_Ble9y
zMm5~Y5TGNfG+BG2P^J!Ibq?I)qNWjx3XqpbG2?pXPK?bayo177=H)HxDqaWI-OlA8
zS6`8T8s#th7N{ry=}<T?L8L-Kek;+sfS@*b%0p1bg{K_vj0@~Ft(iQEz)wNnaB|@?
z6=AFrp+x9t6uQh*ddqGbZk)S3;_xZ}hlm65O=`nnuaXD)X3k8^EJAL$nL_gymZU@V
z1jk*C`52JK0u|=I2(M<c;8UOg4`)h%0LAShc%HJh9p;_M7idIalu?y0y1ih;cZd<i
zi{=89bc&c1;@Nz`?Q7?D(ICa|aRa2$J}9&omyNf+bUK;$V6x`E-`()7XMbn&w;GZQ
zA57;xh?w_Vwx;qnk448$gF||F>TdE#D_$9XVfcD+>G;|gKR>zR+Vah*<(uCv-i&>6
zZRy6;(v4T1N-y0x9{Ks$_0^42YrpdO@yL56E8eeL3OB6}P1mm;+kG__7mRyx>4l}!
zu`<L3nyy(nU0rWt0hLr-%)5|h{!(#*5IL%B86roC=5z%$r?<bb9YLigwoTPtNxZW=
zS$=O4E@8`S#vY!#Q3)L|SfLyL1Brj5x&o9SUb><0oVB2-DE7~|u;c<1<KM!Z@Cu^M
z3<@LHAB*wh)EcnOOsyw)BG0(YJN3oJ@Nn%e<Ngy15n)XkCC2ILWGrT^ISFDmggTtl
zOtvxM@}9}#vK@HV8FYRY{hKLZSZzeigvSM(XT^V%EJ!YD&9%_y*b+P$t`As?nHwU%
z5JlVZK@cW|mE+HR_0DVcn^N_gt`=^du3C1n|3d#{;%mp>IG(P$<66~Ssj9ouRa?jI
z=aO8AaAMh^h08PYY)n;cOjm8bRs~hyo$0DwbTm~prfo9xB;j+R5GPR<$O+uI7Uv$g
z9qdBN<76s9I}6s4aU~)k>OlqZ8pf`BJIDMbg!W7>5MK`*6a2;ZkN?@&KmTvv*&#lj
z1hpOe!$08ly?Y?VvJj>*%ZcJMH}N~QC}60q=0z#T_-?f2`H;tk{d)1T>5|%uMHh-D
z&P}aMm#mwvte)6<dB>$4Q){ktrR%n)Dz|2Mq(Yk(q8)$n3zvBP+C8Ek1jsk9JYgk1
z>ToUGN|YeoV{)B9YAuS1C?N+2_L69H#fL?8(b^BU=0q22KUO(W<HrhjiW|VvT_|WT
z{4LjwefYUG*$J;Dxgb5QMD9>-0wgC$(<l@`T;el-rl8#p_V5pcoVsm_6INWUyA6?M
ztQRGst|$d4&l5-B-cu~Xx=9!*Yj~<Md<+6q5qpXV)hY&o)U2hJG|8$6R^vFy5UWRr
zdNuh-;A$?rkE*b{GRQ~ZXFvJq`f>`QUjpeCOFfN75@8&=arPO7GGGv(9f^7Z?12U`
zyUzTELodZ6FdEUdkm3peo+CNFTI}BS*CJjQEg}HT6Kc0qmrzMq$m)W__UtxnVT;PK
zjVv;6Ec7@arr6kF2+5g3yTlNv?-4%!SthSBv0y=n2~9H0#Gt>^Zd7(WdCme3Idn+k
z5Y8#enau{}%*#tXm%9twQq3y}J6=Y9Kh<nKy<e+oPSrF|^`>j?#>uyGHIK~?hR5~*
z!C#Bj!zJM4p11G3vg2Eu(rfp>7khw*=Lf^@S8Zax2f|}}C0{%hi%(X)z3|GCZ&jrm
z_q`X}&wMbB$O~00^ibyj`_+qJVHcZ=?m61r@Heg^nU6(;`PNVwne2t9-u0}X<7ohe
zji+|bZ3VRFv$O4c8e}0CNU@@Z0IC?FBlXvSH?rEC7<$;4@08-lT}|#<${;3Xc{n?<
zoaVY~Df3LVJ{)f1Odmw^70=}J=Ra?PH-hlme}4aT&Ejh{Yf?39rmGiSt8PeDHyCPd
z9@?#BDQGtu`{WzdSnuHTWGE9hiyIgHj%X`2FB<l{co~ImgjldefqsFENv+^FLM;^j
zEp}ni*Kw@!XjEh!4I9%&aL__0?70+$^!1kh1#kd;e;93*Ls>MD11W#`NF<OJ#3922
z78WCy1p=mCw921rT_iLT5kf#sot$WEIj2=js+lZ70?t?jljkhr1EOz-F&CTzNMPyO
z#Cx&liu3&n{z*SI&T~xOLoz_(m3thQirE>*gW(GA)EoZLPEP(m!|ORlUX{th#nUx)
zV-I|1VeQ1$$-Y$Gru4$iV=?T-Sk=U#RN?CBl?^ce8cxNQ)7WZ%s;1?g2fj6&+V)tg
z^Z@v3FxGk~Rk~qnFA`Wl=7j22Ds7E)ZPSOLNPg@22gY`dS56m~C95{2iZ@M{R9!1s
zmMU2`SwA`SUP<%&{Ch>JWX0rxsg>`QtotAzWuRSLQZ=?<E*#)a#(0Eo{K8ypq<t`r
zgt4#imKSuU0(ZZYk3|-8&%q;bhvXUt2JiPlyW4}#q-L2oTZ2o_6U!msRBYOQ0_^9^
z%Piu|wtr&Zq|cFz%Y5?$cV5P2-etC@F?)FDUZ=Zz7)&qHHJPW9cw&fw=JEU}Y%y?5
zAuD<S=4g<N@IbB9k=EdAZH)^Q2Ia|HK|mfy)R{(3Cjkc=r<_@Mrg188XAU!KS;c=r
z;upcP=HU|0wt)s&Pv2(>k?%5I0W*GwF8|LjnAkYB;A&ocy0BPIs_OX5rCKpoIGZ0T
zs-B1_$ocl_YiqWp)@-}FVEc64(ra~VQ*~>v)!mV*yW>jan|a^JOV@3=R(D^j?!I*0
zZXTg|-a#EW?<|VXlY2+1Zb!QA-fMLars^I{*F7vJ@8a^YLPZ_du*2o-@C=%KOPc+C
zWOCw6WLN{$e*`WuspCkH#Bgc$;^?9emlwbaKyisHwX6OQvT*m;E&0)k?}w16rm>1H
zl(v`No1q&-iGG)q=dv(YOHp8W=MO`9OW8K(&rpA+%S2W#U+6}!obND4ITJqb!i~Ld
z(Mk^qw?6SPS_{uFnwhI;?%>w0Vr!Y4^tYCeK4xn-e4N&9xUJSUu(eEv{H^69UuzAa
zaDyjH{|dm_It$wO5jY`@&g9?k^beh)9AJ3I{OjQuGiC7paT4<lug?w%%~421ecq)-
zps%T?9qtOCdAitspTbl!4(Z85&TZX^7H1La(ekaC0@CNwk^x1ln;`Fs(~{G9lrbSP
z<y-{+!)5j>mMs4nZaHpE@bZe5C716^7u}c4yHA!X&l)_YAH=8UJ(>Rz%BqDejzZTU
zzr$pd6_eXUVGnF7W}(ElOPf#dy-&BqB3lw8JYl;dB`4?b7xT`Cc3TByGj=3qhwqm8
z+I76U>zM&s+yM(fF|4;&c}}7DBHoF>4FiK>Lr)w*3AR3en!Sh5%0z9zuQnQc5ICLW
z<kP^$qv7*eiI5@;Y4ZOM!xzIi0~SR>=fb~~eFjq~qRTdc0RSw&j%pn7m`-xbj|6@b
zPln?@tNWI1y<~+A>}c6`th*14WM{_<96qtG`Y!RpyG83KcaIH?KYIS`#K!lEm!^u=
z|BX18_<LoQVX8r(QvAr**ryIfr~NV3zr*BbSsjD1psv}xP^>szw0>&O)uQ$3!u83>
zdYM397y)h^%#zVg7=dU3+QigTg)f5<@tH7^C1Qf?k?a_y$)rTXo$K)Rz2Gq%fnEaG
z-LBh2qG#ADh!hxMOFD;o2R$>yX_+fGlbP*OGfT7$6Dz0|BkwtxOGKg=0AqtQ++p1_
zQp8318RTWKC>NqYsxjY01>9bytYkd}R^%ygF$X2)^^kl;XK0DH_2aSB&!{0LB8J!L
zf;{#%;VHJJy${O_F-la68LCD4jO~rC9HD22Q-f+1s#OyeB77#_mW96&RwK2~<m&Q@
zXU|gysc}t?Phrp<Ce-2=2LYhIOF~7J&+nbiEg63xmAhne>r_vw{;qc(c(;D<bmgM)
zy0M(;!qVpzzgwa5CzVs`-$vatg<TM7GQJbkM;xvLM~ENt6=rHxfQtUUzOyX@=T07h
zzp<|N<K4Y5jhl(^=}d9PW9R#5+l)270OfTO>KVqx<3NixqH_oa93GaP|Ch;sV6u>X
zTf*|y?R3sF)Y}bbMFWHFEG}a_Fq3cZ6?cQ259bB0{Weyy!CyMj)8#GgY-R2}OrB)Y
z!K9bTvrLAV3^Vy6lNXp=VDb-{OfvZ;Ccn(&H<|oClXsc?Ig{@(`2myv&LoS?%41T(
zq?*YRCM%h2VzQ0NPA0pVJjCP)COk_z?M#j^;c46%Ve$ngUt+?LV9r;V{34TIW%3Ra
z@e(Q??tY(tiq$2}*p$k+=sAg?UKprCkqH4Kbb+8-f$RcMWV!j_{@><pQ**P!*^cFc
zj)n&Q2X4TA35P*`g^T}9sQ6Dq^?w#B`ZuB2zY8@dL(P90+Wpr#_vVM!em}%?c5hiU
zoIjp38^X_Q$!D^{%g6T5hWI;sHc}T}KVCT-!q4osHQ|Hd@v7Mne?L4FE?AV63{`(n
z8!B7#VJIuy`22o&L?7RD@vaMZT`OOeDql5~4=DHi?mvkXjy*7uKe_R}NW%wFWSlK%
z4liRx`1!CST%_t*{xRxV9$w9c<7f7P@X~O_*y-62er9)vmxU|FkIshhGrKPw3s;V<
znhoJ+cFFDB7pwgEnO#v3t{U4s8^X_QZGn1@AOHP=@T1`|e2u@e@zQYX*qyT>{LD6#
zhS!a)=KZ?ahIqJ{jm6LG-tfxsN|wOS?5DyFsvG#3eImReTrjqGHiVzq-f(5OdhChW
z5PoLYm4@#Rvnl+YZ72^fWH$WFHZ4&1_?eBz)IEM?mn;o0=11^@5vfuy@H4x<D!h!<
z;%9dKs&EZ6;b-=-@RD#7|G>}eec{@03mc4|*{zkh&u2qgX4iS|x3f{Giodh>X4Qqa
zjH8M8ncbEXejq&l&}@jmvt>8?s~%lODg4YnglVi|h4?|E*Qx&FXZC1#e^}+?@9d$h
zomt^h=H&0}zR3OhPyWsxjFhT*!_REP-6(f@HiVzqk?<naGq!Iw#NXK+G1Ytg%r03G
zUdztoXSNLssD(=uKUhEyhr@ehhUI3qBWr#5$?$mYY>2<JC$PW{$e;Y3UD6t^pTM}`
zXZCn_z4`+`$XBKQz|ZXZZQ+6md;mYQpTpo`z2Yza&K}I-hFqgJ<b3xz;ay=)4}U)_
Ui-b1-^Q_xAn_U<#6SCs}2j#2SLjV8(

diff --git a/crypten/nn/__pycache__/onnx_converter.cpython-312.pyc b/crypten/nn/__pycache__/onnx_converter.cpython-312.pyc
deleted file mode 100644
index 4e82f104658dc5cacdc46af5a4ead0f1cee21d0a..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 14933
zcmeG@TW}lKb-Tdg4e$l<{m}BE2Ska~(~>Az7G;t$MT&AH+Og<35QJS)pg;h=yA(wh
zoY09gA!|)V)k#H9(}^;5TWah{l$o|sI{A=0PMfwL1q3BP*UUsSaX*~t2Tj>c?ap+1
z&fNz<2x6RR(&<O9gtK?=<J`OVo_k*R@Si*$Cj;s2ivJpau$N(efiHTZHSqHAu8Co8
zFajg65oSbvvLh^gH;tI+(>!9PPj12#GO^5rWyH#=Ep4>M6fsTMN9?rB9C1uIN1Tx7
z1WUv<;U00bj6-eh87ZN7N=Hfs>qwbaTA^X}j`*OLb)-^ojMNCuSDBGo!3D5Ra09Ft
zJOCSn5`c}Od;Ez0A-N}%9?iY!IVe4*=W|aeJ)V2hb5Po&=W|ae?aRICIVgQb&*z>{
zdNTK>=b&^@&*z>(={FrCTZJ<CqHRJsK)+A{aJ%3I*e>`0?hq;g?i8v3c9<B^I{w96
ze?2Eu3pGORTW0lL*d)}w%D$ylj_mr(z3TIN?cShQgHU6P)%Yr7jI`%7_G!xNvv-<p
zWyJC}h9E`RM#|1Hi|kd;6m!LVj+xTyfP#Q-?2)R8>XB;Nu9CK^)Z6*_5Ab`3{H)@R
zPEN$90~f_eTqN-BJq^#G93#C~;xQr*Psc^+0~Q)XopmB6Oh&}vKFHgNI2M*<GW|h0
zREDsHo^WCD_pk%N4MsNV63km#ewLNB<!6`#tCyaIL1tcb@{pd6MK6m)miS<lKRq<`
z0uMur5nd8WI2Z}fhyovuV%_;zG<qcf^9V=B0x=R84M)WDyd2|${L^GQJ}gGno*fjc
z-=vfUBC((lpxr1=#TAfafe<v7#V9oJ7Qv`EbL}NK{|wK6y0ufDh<9G;B)j)@YP~z7
z(N5Yhq|RO>9r0<!F-l?+bU;!HUAMzessk{`d}L=TT9PgM)8$Xhom_EMEzYD}ElIBB
zA=EM<97j(aWayIKh0OXTh2_&)&YJQT)ub=#tT|yCx9Es+Pn`}~Mz-mt<90old*(JR
zVGbC066SGFu8p2cFyke9KKFdv*kG1Pm|>GmGgk^WnSXYAI7UJjwQW8hp9TsHT@272
zIuCpO=#KIirg@nJL$L9DSf=<UC47-DiqIiGDf8!r$%%>S0DU>HQ2?uOh}3UasseOl
z^r3(VE=<d!L^nyXgd#CXRJc$KcF-<}Vw~nYdTW(*EHHs^RI$?sjP2)0HGH??${Sc=
zM-`7oAnNx>xSL4i1Q$zj=TCz)LeU=hNy7kuL`oRPrlr~COKE%8T=$BvaVhxv;M}P!
zXZhNRS5Caz|B;nx-TD_hzrFLeC*5*%?$mv5)2fxRRAjj76j#0UQl@cls&Q|UtG>_e
z%erckTn#A$#3AGK!HYp$NR|1-C9r}?C$2BEesk~zIKFhH`zE6yIUI|^Vh3ejBX^01
z<0i$(Xe2hJZ6w{ebqA5Z5R~Bb#-bF@MOltZU7ej{Vfo_Zg^o~cf*znwIEosgop_)+
zFGOM&IwyjXERs%nbPp}lMuj6rQ4Pbk(_P`i5>G^Vl0;Q5AzltfCWCagSg+DSHyM+<
zXg}PD^SSW?V<Z^A7!btK^Id#DC8NBrI)Rlv;wW;M3!?tvqL9NxiA{pODhWnmL@8Gr
zo0Netv0BaXx%!#y8j*BFqaBnaa+AVO62v$WLqS;-I{2Am`kGFKBN0HtM`F=2k?_)F
z9J#i(5b6p^xKD^s+nzqyo(_MNQqiMfg!<11NfhW;DH-kybPx3ehWqv)*Hv8o6Ns;u
zkQh-+@~C2=E1)=o5-w42G9oKwVcI6QaEeXaBE=z(Qg$m6#R*wSlyEYNRUXA1RLbHc
z7J{+>)X`;E9I?0@o&f$%loCCwRXHbumqhgdDb~>#nFz{?DI8O5$MMwmpH?hWBrJ<c
z`B_~?49Ct=xu9^8C|;uH+V4<&xn<3pvQ^zT#is2LoN0Yd?3l*>)hW6tkp*Dtz@qBm
z#E=F6k^=ye5>4vCE-lzaav0k5Vq;_yaJGGnt1)Zem$jdKXfeC2tBl!VRgY&r@3%r@
z%KLu_nf&89p5F@UFzH-<KLgSr$E{5X6tmi)2aSNmfBMnRmjHTyC^N+NM&mqwlvxwV
z9bA=y1T00v4AQ`KmT6^nGZH%mdh$7jg@0F1sJe{bJadU2oHO(+OMHLlX&wZ<7@WX!
zCj;X}Zcmj1x-&cw1z#vRP(lD3m;(Mnk*TM$h+r5ZxSD<o>4XQ_1wg3`h*Sp(tY`X7
zfyuZ4=TOxlr0IzZu}C-+(Dfk#mILEAQ$awGqf#P~aP5IMC}j{Y79)5Weo_bk<@8SX
zwYr76*BVwC*7D?1`HCI5{msVPuKV^QzcND+=nIzC`&=6^eTVCsbHVwV8)SmsDs4Y9
z*NuXq@0Gs!-LLj%UGBMOepLzmD85f67mV|bl5W5G9lxb}k8Pa{Kox)z*{hHN^9DG-
zU>;*-cvDj`A`m!efzpE}!SYS(ta)Q)Vq7<)^iJ?hun8c~QF9oSgE!efV1X<cP!g;&
zGwZfL$X^IYgJgOGI@qc17wq@C9aDwWR8Zx^c@*(@HKA`<u~1S`tSUqBTNSSWYGN!Z
z$-$@`7>z{)WSAbEM1mwZAt^4}DG&`#h?3%qX{xkNM=~hWid#jfweiH_k|+m2*G10g
zw-Q`Vg`>>3ByjrKv%SNC=X=kb?LR%FSg1~<aFlmi)qz3dpgagU3Z*v1dTA;M!fm~h
zL7v2V1Yd=p)DK{eS#>k~=4@?awr11f^a{T>!yioX2eY-!OU{+rtsi=9CDysVkIEQ}
z^J^zxIho-qQ(WcZ#LX9PH>bFxw=du0j#3h%919q$Hz)*wdtVj<!OLTTcq|s#BjgoM
z1h43Yu5S3=;F$O<v{AUHBjLDWI~BY_U(L@31%*2!MkW>K8Bv%FiKoP1RB@>Jvy&6+
zObz5Olx%+t>z2<Ob6V>c;9SqL#dTwWy|fLM!*-GZt^}wseVNVi&2i+t1qsPjFxNt<
z&ObrJW{PRf#fZI!xyFS|VbJbh+7I*M65P1EU;ucP(NLgi9JRHABqQgbY22sha?b>(
z^H=@(y6Nfxj+wR0a%0S_^)Yj;%3;uRJ<LmjHpd#hEcX;RTsv|cz5uygK~h&JVY$qZ
z-3iM^ZEz*WQR^*8`hL*fO$C+ks*ZqejjO{6>v;2{EpjUXQe~855>{OOYry!%aQ$J{
zbp4CW9=;qXYu1*q;TK5kReQpA-F(%>F;^R4CGE4^tW9pwM;za*=W@@4UEZp{B`o89
zJ)e8(->2`=3{>fP7{8s4ZytwdVM^HYD0D|*EihC|!ba&+le1$?PV!&fsjkCI-_gDv
zZS;Z!tK`sV6!v}Ak#H2H(cOBtghQV<P+A?Vk8{=`qZFhG_Pz-9B%H?SaV1>ia25(v
z!uhsE$2;rJTg{^MX0&A2wJbt6MoUxinF&@(*H-<Mj{)xhYq!`wXnY{yMxOAt?JeZp
zkbv55bBugIeS`fl8)KT${zac)$TZ7MsX6nk&B&W(9aD_oKGWkwJ@PSDmf`lGn&{)b
z9R&5inYPo>$TZknqHc14P}1xJ%~}A9f+|0Xy<ZTca#)@Q|Bf>#gYtY~5_D_D)<a@(
z5L<qhpkvS9pi~FOKx(PNZk;?cN5m*Wu1Q(}C>Bj;23<{79XCYbP&yLy`YBGTAyW?&
zK{gIrcPtPjBsdMNz;Xh0JRU%)Nsdu$V3bEi(v5j*Fdi49AS#4#NLK8K=#n@sDO?1+
zQVK`&&Y&Qm#Q;7l#qlgkXb}uZ#bJD!;-lYTya&)!6csNmHKcba5|lKzfZATQ0KnU%
z;`Vz8`a(z#0$d<!5s(XXnsHSzuuwyf1hCAass|hnOU_}5;UAzwDJ6OC0+_pm*pVKL
zq-v2aC?*KrgrC$4at^deH`9FZjx)_ao#Gnj1{NDuTqW~~w5#DJd(YLJ<oc7X{b_)%
z<`rMvjlt`KH|v)pcXr>3rG4N%0F9t>Q^wbp^0j4ryHdVg|86mtSRc5{R?UpVbIq~f
z`1<~gw>9N$eRD9=b|}?$=uTU@?Wwf)Sjv8E)eLRt`oM}Qv98(~Pw8B5wyZ8w#;3~o
zOxfmC+2%Edvuv8@vaZr=M;4AOb=`AqUT*vD_FLO;f9}@KJ5QvxcV{=ZFZX=+<gJsp
zU%quJwYe*^`B-Z6vGnHS^L>l^ZXCXTc<JTqNAI~?9=OY|4K55W`F`SVT6F-{)e>e?
zTgH8AQMk>0-}yb~J@=_)?v8MG^lzfSKb&-*nny6#n{uC8Df8X%T=y)AZwkv#eE0CJ
z!*4yA-f}3_bSPccwFZj!01Gp;S7z*d%Ff^Py?Hsa^+0Otfjiba@(<kUt-W{2PwXdG
zK^-4p;Va9l))<e)InO<KX7Ha&{-NZjm7l-MEebcn*TeUl_um%M&4*J}hm)0`pLYUS
zslm@1yft`dd%C7~-UF_hx~-YoU8&k#cTOg2ccp7j%$KZG)h+G&R@WO{>8dUBu9fQg
zrJipMyfKij-Zt;nm+sI#S6jAW+j99Er<3(N<_C=lXWcbR<qM~mzPSA2-30Dh^T&+I
z;ashTNq)pLmHy?%wC?~okf<-{leJzJcI%UeHH>G7{ba3#sd|BxkX^r1+12mk-mR?Z
zueHA0VFmbiTO0c~S=VV_$nU83wFsH@+E>oHBwIk^z*Yq*-ww=^XT>xwLoS|W@>*`_
zs{{kWJkv?J=pguerF<tc^@X6Lm<NMVbseitA!@p5cA#Rr7?kJ<MM*{m003_RR7w?f
zAgerp@-GzyFh|tnBow-unTN&>LGTl-cnSa<P&;EUO_sLY?7MGk&)VxXIxD|#Z(S+%
zUYlN+PS);7m+nm3cdocfGp;Qu*OuhguC(iLk~^$A2Q;w`=<<AbTcGp?SWe@#cs(d)
zyMd5rLnf*SffsU?O|av*odxN->1r7WbQ9DU$6RE)0JAv{Gl;wmFmqrrq7qM2!f*|M
zV*Z69ig~W3q2%VN@aDHPJYPnOk{bo*f+lKNP1KrZ%^+U68P)TrIu<k|Fc<}=B=yem
zls)q?aPommG3Q^<XoL#Y%^<TbfE<NJR0vAEbTKv=5zr|J4$+7Ru1bFQOk=K@iaWpE
zZg4id1T&_xjY<Y8*$8|%`XQ)DIfnH;2vF!z;UeJ#s3cIOz>8Rc;OFp@@Fap|XJ>Xi
zk!e4iYCoK5?@qOM|Fq)x&CQGZZ*;xhm8>{EHvk~paWK<yG}Uo5)6tvi=>4g;?`Gd(
z-;IIS2a?{txj_IZI({$hs$Y8fo{LA((V~hDzCflNPqrRUbH_oZWL;HD?xd?N$+dm5
z=3u-}v!5v5KI(XQ!+YGpy<_zrFX7hl5F{YVLtceUJ`c&e%V0LTztD9n{fVTk5(TLN
zqQ%uJNIIE-mJPM&r$RD0%YbH#jtA4s^OSGsey8)Ns0IPI5TiN2D!QK}(5f`mN>v0p
z_|rf#WGXC)ng?1^d*qQ0c!qF;$wdH)P3<Q^VFSLqfL=7ELL!q;vfgbJ!;T1kiB-=4
zp!~#J^>tzC$xQvORQ;}W{hoBy-gL#jxq+;$VljBnR-J8X&ou2#HSJ9|?FRwpXqg|%
zdYkXLn?Z;<S{~$G3gj~uTsOKeb)Z*J#*$wPm6(9bYo){uYYi<6(^+Im#d;b?o%ZAk
z`!TQ+kLhV>)3j$12K3mT2GbyWa!jX~l`b21TgC3PU|wa9&R1Uv{Ry(lu+yPO5ldZf
zDOfJ`z{Xa}=)|FE<MsuZi&$41V&0%VU`B5eO#*rfkSYt(46L}0A1;M#GrOJ0jo`G9
zuy|RNc&bCI7Y_R6t)XCR2LT6B*s#J%3M*5AJG1S%=%r|E3NCeZyMsr?pE`AOMVqA#
zf2m@BCMflV#fYH#zP<$5$Q*)`2+kuw(j`FzuOPr9r*Lo^C8-C`3U^dNSyG(Oqry+G
zHz)@NAud7Fd?7x8{SkbO6@LqW@>je2YqPJ+E}p$_tIdMkzPxaG-jf9#xpAR!QM&J_
z|Llb;rM^t*rc~*sH{BV2e~JgK@%y9S8%^_1rb~||?MGJ}?)l+s=N8Vr*0j`o&ruI*
z!eY;j{_Fj(eJN>gQfpsacrop$UFyE)XjH2Qt`DS3`J|m+ar%;#Pu*?%d;dHBROLY0
zIhf=IAH8HiWr`km0-1Ge*f`V)Cg<xNH?EAKxt0>h4z$*~!vUG=TxssG3E=7dV{qO4
ziE)TgRs+-JW=`p31Q&M_6}{*4F2r;mOlcw%BSe(qu_(G=>1DqbB!EViN@7DZ&H5FY
z5Cfu&#$@AijEeMFod1;V@LLocSh7^lLr$WUVr5|Xbl~YT=bjzz9a79tO}+|Melx^M
z0RDh(lA`5C&_TYQNk_350mS!!RR$T#q$?X%>?MotZ^klByHicOZ|}IvrJH&mnoX5f
zu)C~`y)tQQSShJV)*rd^g*!t(Zcf$?rb|vG?V75tZW&-RlEI<>5f&Y`%%~tgkc~|%
zrg|0IygZqBgJG!8R8<NMmCHbH+%bXtgrkRBtjXIt8I@g{Hl9I(LH|_3bc8~|L_IEb
zvf&B+je484-k`>+={M?4y_n$P8<h>7{@MFqeFZ#%Z*a`CL$1(AFUIM|4bHB&0@-QF
zTP=ep>jww!-+pt9*1Q$`?O?RYxmEq`V6^A0a}kWw4!?6|j<SO1=q;Pd3h0s5ui8Mj
zQbUiZaM0Z}*br3js0i0TM)1#0DK3V>qu~(62p826aROXiYBT_<{GmxnhMRE%iOM|`
zn-m+B;l@I7MPg$C{lzAzelVqUR189Zff&#VW;}2o813rP8qSofuX%m-7J7$DwM7A*
zA-_j)pFMXfaHjV}|JmU)=M*=5v~jhlIC5DF+;vY#Bn$)v7nOJ=q{lEB)2&%w471Tc
zq@aWTS&i#E6iiN)uGA2&S9d@p0d@V5C+fRH`e91IEM3~2RsdXaxff6lAmBxd9>J>h
z%oF1g2?7XhWTZm?=9rJ2jNSMCwtbmxM^oF5X14XDw)Ld9^{p}Gj;fTqZGK>>KFhaf
z_+2S}SDN3m#*}%g7TsCzrkjWEd3U^Dv-2Y}Q`wyHZBO~OFCR|%4%~64e7(SOef-TQ
z?|FB<U$bk27QYrpvUOkDyYKy){f{EK=j;8j5oYtD8K(NtHpWqcm$n&uN6Oxjb=Ti-
z-1C=1ADO{DgBQB%>NeePKJ>$*#p^ce*Lr{R@pp$lMx0b&DC}i|>JhqAqhg4Itey<R
z>))W{@d`e5ZJTtq1Q#Y|@)B6|s4EmCU4(38atY>3;1(xGHohfJm@ydE7}ElZC{RLS
z0tJ<m4fVg68lSMBm;uMUHe0;z0bRo$+zsd`M;N{cku^Fw>ft<+9*wqD;?Jsl0L?h?
z#HxXX1!dtVMP)b(ps5(?;QM7h21kH|Apj^3p%yixjYVT~z=^OPrHT(@7$x!LNiiA%
zPt_>jdnLXD)NH&Gg=<g<eiZng@MUdg(heSi-=Lw4U!)B}@#F;og+Lz<1t-Be1v?X>
zWJ19Rog)p{nz{(FlHgR2gn@xVc$20+K^T^#GevEdw;&QUcqJ?a!k?DJNqC~G>uK#;
zT%|ROfLa<{?1B>n+H&C258tvXrdV9{iF232;JCLVXTz{l#Yx@m^lDx4N-(J)p-z8{
z%S6U@%SsNyK2kr4Viv*^<V|>0te^v8{E-`6>=05GprcAi5Y#)O`QW~RJrO*K90k2&
zpuU$eC8gJf7ls%8OV2IuogYqnI_LWS#pYhDyis?(?)8RDc}uFiC0*W@+;;F@`N5Uy
zO_}QLsp{>^`){}2o=R6g1)kXQiW|P`zQxg{(YFs~+E1j~PyE=OYJYCgmo9&P-kNol
z&z(|rw*NnL^w7;b_-rR`FgCXSG^mH}(c<66xqAewar7?7!VpFh1F?=5SK#IeLFAE)
z_Qo&?M#1=iQ&gxmICJR8w~_At6ah6)kz&c8A^39y%Lu*$;1PQLBdkF%m`ATAI=$|=
zX;}^-z3%y)(JQs7i%W_pU|JhX3c>WYS-%FQMg%ttm;Y$r1%LIKd2WxYWv%161!WNY
zt@B&DW1o%Z7U+M#<icao7(u2f^6N*SScORpE2p(NF500pa~^I5fsJZ<C)H5tG$3Xj
zP*T?*uv!6?REjMe9Tf>>=E%CyQ7A%H;lOHdG*=1m{xAUqc^{kaPJAXd1^yPYL+8{~
z^@Z8QbUBuH=Ru2UlydMwM5NQv&0}@WJE%O7VnvoBhZmgNAY&qvf-$LlOopzVC)-rX
zK}LXZK0urFmPxU}Ul)X95POZ(bc-do@R85q**HPNKw*i(1|B&dV4X4q!3ds@R>%N9
zuVUPuYx@@VEjpI=FE`)*-2A?@>%c2LbKP?<=R%Zz2Q<yXH_;{dwR(g`T|+`Ks?L?>
zZ8gRF+oNk^42t)Em9mYY{}0i&F{l4Ibt?{IbID&Jb^bMiI|zON;1LR5!WsnOVifEG
zjimeb%Sge83Mtsn4*B<yO6*UgRM8ew11aigXkZ6wOC7o)ru|KiQd&?zP*GRP@_J0l
z;fSOLU^sKdYA7Q7r4crF=Ax!a3l6&l0gs>=fYOlbmz#iYrz_>g6!aqUhuHNxc5Tk<
z3LzyBp%D#6I<$t=QYYwbq;@3@;--HiL4&E)Kw1oIRLZ-x=)>;IV;D#Xv4=*H7F!5K
zj$AD`k%<7YoEH^GuHGHcRaq?zaqu~XqXCF!(7DM1&clTO9bNR+jo!yl|1fp>QR7u{
zQk4`US;i!)ds2Z;xfb2{TMX3<>HXcO_9Jk}!L~R`(ts04f|0%r5H4p}_F)CXy5D0Q
zzhGSNG47u;JCn@L_n7LRF^xZCw*M>RTji{5{d*kzuXs>dJ2$jyx3RT9=ME&f0}s5_
zbAu2SQQ?~_S+iQ$*0r)SwsvicAHWN2IqO;5R>FE#w=fMYnfkq{`n}ouW-a5bRbxD|
z?uu)t7fxqOD^>qA=(HJEQ_9tZ6$1+c*@~JQ?bqA0<<+P)f9Q33!PmQ1*8wA3U~TM?
zHJ_c`yjEq0_o_1X6uY*?0oj@@taJ4Y%a|(XYBH=Z#rhV{F10RQPP1FqOfI(Kp_wsl
zUB%pLL-9sVqY>m*>k1o5X}0x4=<h*HZHUS9D5mv|X!HMA4T7h^3s+=peYUdhD?_*i
z_5TTLh=pdh_Getz18>b&23KwH@~MQ!;Cs%Vqs$Loy>8~+qqbg$`A2pZq1)5jX#P<H
H3-G@IN1*+m

diff --git a/crypten/optim/__pycache__/__init__.cpython-312.pyc b/crypten/optim/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index e41968f50d4a8f1941346993c762c72fe6153ce0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 252
zcmX@j%ge<81Z#x;WhpW;FgylvV1NnA_^bkCOlL@8NMX!j$YqRTWCXF9a+q?NqnLqg
z<`kB6rYM$5R!z2-Kr<LL8E<j=7nEe?W>%#Z0XfXU?k+{lK#3w2AmOLUdW$n3CJh$9
z#ax`80+zhR9v`2WlM^4mlHoH@EyFJr{gT`Q{R;geLlgbvqRN7j)I5E#X8rj1%)HE!
z_;|g7%3mBdx%nxjIjMF<+(1nrHxx?(i4V+-jEr9e7#J1rGKhR&W8e{=!Fqv9u93Zn
H6DSJ+;om$j

diff --git a/crypten/optim/__pycache__/optimizer.cpython-312.pyc b/crypten/optim/__pycache__/optimizer.cpython-312.pyc
deleted file mode 100644
index d27014ef6d6bfc9781db8b199ee23f4a8df1c556..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 4890
zcmb_gO>7j&6|SBidpx%B4{N}Hp&%GMtQibT669>yCE+h5%MvXLk+o!|JzX>Ip{IMc
zx(8!xkPzZPBqFhg1X!(tS3%m1*h3;k$~E^~m;kcXag>#E%FSSM*+Z1?Rd>&f4SP#V
z?&+?sdhgYH^}g>t|FyR_&2W7=_}}u*0mlACFVU3@A69>Xhr7&RhGwy;;8&Z{@E)^b
zmH1R#V=;D`8S$IUNC>T*iUhQN%Sub@ot_@WgZHWAoR&%cn_kXkG(RQ9M>SIlqY!)!
z?y>M?bq5~qGQmjyRLsz(;zsNyn@Si-=+_`Ck?HWe-miLQ#he#X|0h=dKz9W%Si0--
zq9eI(S=@;xxY;zvmCf>5UD~Eynw(SvG<aT@dPR6by4)7R;GV;$1$V2WU=~fh>n<-i
zmL&?F>DVs!W^|9w=vM^Sxk1Y+rfs^OS!fD$q#-191XE2~Zo8NwY!8yXSs`pLYqp!^
zC$H+2swG_R6uC29hKf+W;n@4Ura)KsOt&}(c@DN%l}=Si&%`oa!cc)lx@~Y1w&<RN
zZ8%qi<X3d77DzTsWx6i0B=Ey=S*lfFj@$A=mAv5cF(qZ%5}8Q|4P@et44hQHoy<c;
zVJ3S)*sde<+#PS4NzRNWkxu%^5s7H5Am^%ZLiUIF4VS|QAB2u}`7C)h_~5P)>drVd
z%b=)40X2eskVZok^_qpP@G(+Kc5`|luX{RTgFu9H+I$iUf@2+fjV}5?VIHfwi2dvg
zVx@EC9EvqBNvBrjh9g`AC_E$-7*WY&(@M}e#}kwM!VKabSt~hSbVJAP4PKN^1!s(W
zsJ>_4j}9rFyje$H=Ch_Z!&_booKc99gL0%3e{uY+S{S{{JdFnFs%u_z-lOoz?L3R5
zeiTe#H?+ED#D?*9E!MU!<|V=jtlSYjwSK*3y1y>Ti?K+T?5xL1O2gY&Y-iSJ=!xVt
zXLoyj(U=i`6z<}N<^iOFs~(F+$!d}rS$~3EdJlVuw`qv~pZ1{L&bHZ=@FIw0<-y3V
z)^ELO_dEt8Yj0=?R%himTJxf(^5*EN^&7<odpg9}hlty?#I<BS>1~PT)R-KsC+gZ2
zO>XeEMWaTto>;53u9ZikudQFKOh!J}*zLEJZG^GwuJW#R19+`#(VjFm*OBSee}ym|
zH-L*lT7)Tqvx_Wf=6dr`0|a<p<xfuKj+<|#u1b;uU<R3ubSu`ZAmNIpEx1=xsS7Pq
z9PlJE8OdV<J}E<h$;hL5B&Vg%5psu8D!L)kgbH-2MLMAu!J}>%5b(`rLZn(icmaql
zN#VK?UXrxeU?vT>ZLJAFuZJ}L8W;mhInbvPUb&}fJjo6@s1N~(LM!zGglf5QeycJf
z3`C{o63v7t=y#}Z?))b$Fj6D05S}ATx(zY~k=Q_OP#7NDh;N)v*E|*DCcl9cfajnA
zm)0mEnl(YYg&Ey0iFI6e-V#L6h%-#HK!;cZPSlO;{IQm86i3Il=Atc&h!6tx4h{xs
z#YqeHMaVjTwz;DSpG~73p7j9uX=PM)MDhcdw$`7^4ESl&CDU}fAp8VTiJw$>?RNy^
z<adTl=BHaA?Z>fyzw5$WRh*R4k$!^q=%+jk*r+f3R76yM5*%A`CE>T9{u$A9up$i!
z;UvFDnG~js-=S9_#X!xIaD`R$yW74>;sQUZM*M_Q)fuTGAg6=G`PZWdy-M}q)r0cT
zk%OW62bJ4{J5^EH>YU$)G|9C|pC4{!a(3M(!Ws7{z~DN2+0Xj7-h1<*_q1>Paq8^j
z?Aa%{_l<uwu>Ic88v}c9bu4!e-6?)rdr-e$|MKGEfp;1Q-g&&^-KX8hmqy=QICJaA
z_fmiB*|pre`CiAv_|x7!%Y)liV%k7STaCvzZdhUQ-VHC)Y&7%5rr-U9CO3L^eKo`v
zwls$JzhKF(!CNPnH;&vB55?!!XV#xiFCID7ICARo=;>!0&n$1+2~k56%ZI=F=j<P|
ze;Imm`1JF*Hgtw$Zyto~fx(p|WUOppJ9a;~bpO)g$V6jg;>pP27p$}EJHLGI)`>g&
zmijh*I@ajhz2N=fdyRd^mN)UGH}XrHwvwc6ZGzHlVEbbK-bVl41@DWC&-%Z;(gztU
zgRHA}F*V#s4KJp6BgGfCJxd)}g#+0dS|_5RW3jr7+g(7f{1!+A&+9J`#YQ6VI%;F0
za=dpD85*&AJQva^W4F5#?DkNC&BeY^%F%UFvLvM*FE@*bmgei)?f!cFs`k2XuU|0_
zsw>3W?3sW)lVndOuKx!0#s^fpQZkpMZkSY%QjWG)?naR30a^jPaZDYmDbE23S_lYi
zZYyQ!yd#xzo|Cf)Fvg}G$3k5g;ti?5XHQk=fy8kdXc_{OoOKFFBwdQJ6vhGYO2S6P
zZ3WGM<;<cytcZ#u=g@yRUKK5XH?F9MK&|2!!u0@bW(Dkm?g2GC+LQ{ROlu>77S7K=
z8jARF6yPD6g5ps0g9QPr=srw<ZkC^dCq&Rgv?}>X#-S{~NaZW}7pN;iZ`3njZ+f8s
zasv!UZdX=@2632F!>*hvf<Ya?+5(@X>&iP^_aG6Z07yo=6#_K}i(_$-PoSVDGEn9U
zl;p)CD8+^gUfu5DEdNn}>dH_8X*dgoL!ROd6x5BewupZJf~<*5J`X=z<ae|Nb1-09
zFI+}@M@Pm*=aJ86X<<J9Az#~0s4bv#D%H^Q*j}sWqeG>7M+Ja%GSQG2Cdv-S19KFF
zsk*+%Yp?F(tt_;L=o(b_FtSN*ZnJHSe9??0H-qg*qKVcfqI15cCLrU-h@oL>fd~~R
zgxV1mX7Fh>C??usOR-P^#wt1s4sPg3(7jwXtFL;7rYJeO<vArmlcUy#bW?j1I40!2
zFtVy3tMK!47pS$NfHZRq0@pNPbUN~F;mp&Sq>#28s`3mzm=*<{Dh8Mys#7U}FHRAq
z2a38Yh@f5)PEDO`mBvBxax}xVQ3MhD#-Uf(aX_`jM$@ICRMapn<%&_yWnyv@z|T)m
zOfm^crMTbSX11SH6`S0O4=y!N<Q_?^=yx@b?fk|Te>MkC(26>4*V*$utY`Dm@W|ru
z{>Cu4EY`dCPI75v_rlTpxfe_u*n8*X(yq}vCx3kwOf#_ec^nf~Qf%vvXhFR9P}_po
zz#%Nyy#4O{$McQN2bQ*sJV<|%UJ##`KPxx3O#C+eJc%jK<5(qk!T|g$<^rmUR4zw_
zLoVm1b2%VY&7$X?T<#+vLHMOJmouC~E+?sPkb7|ZJySB&mL*Y_y7l70r9SB<dmige
zre5qAO=e%7)3zo9m1<I^LsBy+=^sY^P<uDr%$A@&N~-rjdWKez)k@>nskZ}5kI8Y2
v5$U;OxUIxBO<V0}THoJU&p+7ymmNRVH2COl_s89f{iBWk(f=?SQIh@#5xPOq

diff --git a/crypten/optim/__pycache__/sgd.cpython-312.pyc b/crypten/optim/__pycache__/sgd.cpython-312.pyc
deleted file mode 100644
index e1059dd3d0a2a3b8f8ee0b85f1577c3902979c7a..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6266
zcmb^#ZEO?g`8}WQ*s()MNJv8L<Psp*;5wwhfIuNAfwbkLYeQEWr9CdbvvcNrXWl#K
z3#Wn#X-r~TI;kSrDiO3w4F#?2yZgtqADy;8F{X=q;s?^!AN>cV6%{|GJ@1{*=LEOg
zq`h(Op1bGcec$K%-oMq<R3jKS>;IK(SdY*@$b&UpMc`2sfGdbcJSCxF#5;IeqEe1w
z2ZbDH5b@57h<6E&8?;G3Oixi^_ZQ^h#1|A?!<6oQDXobqaazDJlgPXlInbj%c>W>G
zA)sN3N5c-D8m7I-`r}=fP@Li&7rnzy1EMc_hF!cHW~PSSm(V0NTs4HkRXRO1IKX{g
zh0qJBv?QbiSyLHRQ(|MBs);csfjM4;mkckcF>((nuq;L9Bx#D75VbKTr4Xh}Djcn5
zV4M(CO~A@{={+N=%qXV{Jfp~rHYPA}1*b9+$HcLcGFVQ(WFo{=TEQA8#{@=+GombN
zA}5K{9GQ>dWWG$K4C@inj3jVa7UjfgmNjQTgcEA7A(X5o&0#L3G9eLG#EnWqxR<d&
zGJ}B@0H-pV!jOFtbu$WPcrgZQ;DtCWLQa(Am1GhoP>qsFt0km_nNVC(I1Og8*2Q2>
z6G{}8riyeCV@je*;3(nZTug%%gkW+mBWb<N_HaqSgdiryG?o`)+*BnYCLY#p;Ez4a
zqy><!O@%9q<GB<Nzy>SHvXNjfdwCVtC0jNRjVg+?VqdTTP`p~fEo@0gI7t=kT@sgL
zwJ|KHV~WIAS{rc`6@+r&PZn9xxl&vL{3gR2E>v>faZbtzs_7!ch-3^}o^2wF&Rk;W
zMwM~F@K<||2~m=mQGvliTH<2h(MAAlH{~9l1a(S+?R^Ih94I*zW}X8d!?Cfb;bu_?
zx=>2t1u1GfVJIA7B>dd=Xiuc1Z+O~kYi5PSC}akOC0h)wq>vO<W#h6bKP1ZOj0Tc5
z4krXH93ACiXC^qjn#uBh9EI>r7bUVRGp1?j-tO*+iHT@TjlvcbSyQ3{pXuJb`|y|u
z4{|p*s;1R$%Y&n7K5lqyG|I?|CiL1GISJ7ZwlmX=8P*VnpbJxx$BUVyyOcxJ%%}!=
zh8N>;5~Zb#LF_k_(bO}-I0T}gMHx<le@GE4#jB7-7!|}a3S=G(0=Segq2M!RzR<78
zs>lnN!~sc9YFdbiaY%hJNLnOKSjz$(0y>lCA*KN-6Hl1HqNWLuo$NdS+fH%XSlPD8
zYDY$egeaebe3p;}ex?-C1V_d=drsTdGsAR&ql~07%vR&g46}_%n3xDNGV&Bxx{Qm!
zGt4v0h$c*G=OjE+lmSvBD;P%vnSXjA6QCb~={1&qI(<4~fe9NNKW(VENCT@p4XK8h
zm?)++h3(LhQuT;1<AS8bL~SavGLb{{g1R*k&{KAJo*aXkL4Gn51AoI%ib#g8Xz|j#
zt1Zk-jES)^MgV_PreIdfa$r$nM^c4Ky#H^TmD}KdwO`Q_Y;6$tsBE*7u#Zx#KqRQ7
zP=ek#$ofh`$*2%JkY&J|1>Tew^OW@xZh%QU@kn+c^e%M;X{7ZqM%JOhJ9B7G3yM2#
z6yIW378;H-@Ps#L&^(xfcO<<QY~Qnv8%4R+{cWmjCi*|lL|2%Jt~e8I&0yVE%;fy;
znbh)~I4jC`T5_%X3i+<@mJd2}RoIEE;!G}U2J8Mdm33t4tTXG%x_S3|t{G3(jT^Hx
zUv*{!LaHn41ZX$d!&hbxPZ@Vr7O_@)in1taG_kgo2y~%63yonVOlA7%dW2#QTdL-_
z<Y{XxD2sl)5uq%V^;o_`p(zyho=8{}(=9K^P=iH&W!u!toST{6V4<w)!Wh+hCC+YD
z3?$)ev-noDOeNm1OLs_E_gGSOZ%KykFK5v`R&Rre=TGk`g`33+&A{1=2zd;;k<vR-
ziAZ^7N@Bxay;@X7SvC4worcP(yNq^Gul@n)P7Y(NVBJm95~t~F)w3B63w9f%yVOit
zz?j6W?qONd9kXn>T6d~~6xZEmtBXl^V-kaym>2uVg&0L&v$CtwJ;nY~)x9hmlQ?J@
zSe5XQY-5b`Pujb+RJwbz8~5z&j^U{^6uNGsPv}+?d^A0U8-RY=5A{20E$DmjMs0_1
z|K>dUssXLtFxUB>`u^cL>2B?|MSQFO!^wN~fu-P{<>0|w@ZfDnKG>hHA6W7a+^cPw
z3%x&dbMwNnyR|*HPTi(|{iZ>>cRARX3-;Y^&Ie!2*B@Q-A0?#W_hUDAEsWf)eRc&=
zOFnosUw>@Le~b`CZmzp2Ec)-(?)o_J7y8cLqXzAB%fW$MaNzbxKKM$$erU-*^uUeQ
zH5QtgLQ7{M5CY(#&)rac$@6dx@;A&iFTDJ-;9~gJ*$<-z|7-dBQ%n9+z|_%w$$8fk
zEcj}deN4{BEcqe@|Jr4L#~pvi!pY^$y*c>#dq4Ge{L@o&IX1g9=jmAJS`2;a+3^VU
z1ffH&#X&;TNX8fdBN<y5WTzDfCNOE1vcj4oflORt)fhl;fNf?R*@_97hwnl=7%#7P
zl7OU77>;rz?856nn(1hMa0)>KpVb7G)%}K(LCZ<Ld-Q6+6rCvS#ErlMK1wKcmqCGB
z;FU^h2e{LD3`q*%AY7)`nhs+N9wvm4x`@-<voy7NLAdLQ6dGHW8@qCiU0))~yZzGP
zg1>IrAISLwbHj^`pZdEW((oF$0`CfCk_a%Ac^|IjbuC%0av&n(hIvD~5Cxy>pfu{j
zCc8c*OVzJPwu-|+%uz(mKusinwsODCJhRjrZ-Iem$lng4rx_<ev;nyQavG2uAeRAE
z0pupo00Pc8f!>q#B+F}gaRuk8%XO7=^@Zb=Ig&L+*0S5TP}Y`_6hUj}$-1X;mDgdp
zu63XB%Kpmp&3H>SjmdhG#4A?~;H$Lyr>ZnaauuuNd$1~!wpI<T$$9~Gs@Sa<ny=<P
z+3Il$Z-Nz&7pq2T|HK7X4GT9(&G@n)XFuTO-2^fu`?9_yiHB7qTdMrY_Eji&gjH17
zG4IW~ry+S;E4S{D9;$H1x9HASNs>LgB?Ii^$ofEoo@B>=yB_e?YO+U5hIOaFdoOcN
za=qY0Sx4-tco{+)Q4dn72{<Tw9pcg8_{AjsI+~zXW2Pwceb_hsyYCB_R8CTap~xmA
z_;53ibIh+y@=a?u)Nn|YF%G)yFH=(SV({Udfp4Ht3=X%*sl|$ej6)^7HpXdC^##&R
zK)Qp&BWS~okNIjMrhJe-01H|M%O(~1G`H7r!mQ7Bxh9nw!;vB~nhm|y>L=LI4EX@Y
zB&8W8K3u0)6)Un{C7Y)Jy3agoF^&Xq8<6TwQuHx2X-KEx$W3>fT?O<$noe^(j~Rk;
zh`jEC&C7!B<^_$5jp<IHW_2f!z!g5i*|6Wt@Kr@6=}xj0Ogy5}CUh#T(>$BjeP+op
z>jDkiP{|(4Rb&(fm;@{|?ID$cKr9fce}y=NF2ax2H2#GB5u2}Rdx*Nc&4qPMmj(*8
z>z8Uf?==RN8$-FqP`+{NLqyeW{;ak0=X+-d9@79rf!@%z+_E*-vh@*atLd3_71}o~
zyqRm?IqNU9G7B4Wt&v$zA<(g~Ef<K+dhK`jTiWI(=i48l=DMEQLxra1E938s&%OnX
z0my6)EH_1RO_8OhJ%zURtMU2x)#Q9~vF@Yw*Vlg(ydJ#Kz8v0{3-9}QV0r(`x&1Ha
z!>{DqhUV$}Ch;77ziH#b**i_4LR-hx#C&3b`#`uREFQ~u?ajCK&e4UY_Jy9G&J?<~
zevrJD{B8ZML%(Uvb?u(>6<Q;=j^<hq7W$8TviDDW|GaOx|J7XotNH%dmIANM^)GB&
ziXObv*>}J5831yfeRKVVK>O9_=bv9Vl@COh13Pko9k=@bF!-y%j}P7U{_%Kz=Zkj(
zM?Y)bSm@mR!Io=V7B_yh<@%Oeq5Rf;`Of|G{r5XJ&-LGLXuNXdog;HQuI`@Sy|8Ps
z;o81@Yxmz9wtv|J%6U)&dVSDGp@!zi$0@LlVW7uu(7s`gCy%S(<pW~1Cu%3y^xc-h
zP4q84gH5jAA87*clP1?-hxe0!hrpX$gU?h!`$0;yeK~R>Oq~dONY5+7;SIDQ)hr9q
zmXVB>gk_;omWr4vmgSWg%NmWT(QM#7AWW|*wzx4tlAvj(%+`dY`98BRAuW{A@sQ-I
zZiUM?7tupUm&^0u6ou;772wynzEHQm(A4^MU8ig3SI<+lYy0Esh^yJ?J`84PgEj%H
z?kydrVbVMpxa-KIBW=(V&wg_Q2XG%el69!0emtNlih8sbQMI2V<}3GG6xDnw{52wX
GgZbYl@)g+t

-- 
2.43.0


From 8f93a63796282cf2bb0be5d39ef24ff3ee8bce9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 60/70] fix: nn.Graph never evaluated a node that lists the
 same input twice

---
 crypten/nn/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 21d0fd5..9436bdf 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -669,8 +669,9 @@ class Graph(Container):
             """Marks a value as having been computed."""
             computed[name] = True
             for key, value_list in self._graph.items():
-                if name in value_list:
-                    inputs_available[key][value_list.index(name)] = True
+                for idx, value_name in enumerate(value_list):
+                    if value_name == name:
+                        inputs_available[key][idx] = True
 
         def _find_computable_node():
             """Find a node for which all inputs are available."""
-- 
2.43.0


From 1a4921ab4a9a23105724a39bd63f468a7b0bef42 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 61/70] fix: nn.Graph discarded an output that was ready before
 the other outputs

---
 crypten/nn/module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 9436bdf..683fa75 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -684,7 +684,8 @@ class Graph(Container):
             """Clear values that are no longer needed (to save memory)."""
             remove_keys = []
             for remove_key in values.keys():
-                can_be_removed = True
+                # values that will be returned are always needed:
+                can_be_removed = remove_key not in self.output_names
 
                 # we cannot remove a value if it is still needed:
                 for key, value_list in self._graph.items():
-- 
2.43.0


From d59dfe6cfb773b8d61e0f0b829593a232b4cb820 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 62/70] fix: nn.Graph evaluated a module with several outputs
 for ever when none carries its name

---
 crypten/nn/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 683fa75..8cd57ac 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -732,6 +732,7 @@ class Graph(Container):
                 for node, value in zip(output_names, output):
                     values[node] = value
                     _mark_as_computed(node)
+                computed[node_to_compute] = True
 
             # return output if it is available:
             if all(computed[output_name] for output_name in self.output_names):
-- 
2.43.0


From f1be5be525db6c449ff56b8717855ec7163e68a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 63/70] fix: nn.Graph and nn.Sequential of an OrderedDict read
 an input name as a list of characters

---
 crypten/nn/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 8cd57ac..5cc4d9b 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -648,6 +648,8 @@ class Graph(Container):
         assert name not in self._graph, "Module %s already exists." % name
         self.register_module(name, module)
         if input_names is not None:
+            if not isinstance(input_names, (list, tuple)):
+                input_names = [input_names]
             self._graph[name] = input_names
         if output_names is not None:
             module._output_names = output_names
-- 
2.43.0


From ad6b16063b42b7efdb27666a8fb57594062221a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 64/70] fix: update_parameters scaled the gradient it applied
 in place

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 5cc4d9b..447f0ff 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -343,7 +343,7 @@ class Module:
                 else:
                     grad = param.grad
 
-                param.sub_(grad.mul_(learning_rate))
+                param.sub_(grad.mul(learning_rate))
 
     def register_buffer(self, name, buffer):
         """
-- 
2.43.0


From b09cc17cd2bbe1a9afbcfbca8a5a6c07f1af973c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 65/70] fix: parameters() returned the parameters of a shared
 module several times, so one step updated them repeatedly

---
 crypten/nn/module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 447f0ff..7b554ee 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -187,13 +187,13 @@ class Module:
         Yields:
             (string, CrypTensor or torch.Tensor): Tuple containing the name and parameter
         """
-        for name, param in self._parameters.items():
-            param_name = name if prefix is None else prefix + "." + name
-            yield param_name, param
+        modules = [("", self)]
         if recurse:
-            for module_name, module in self.named_children():
-                pre = module_name if prefix is None else prefix + "." + module_name
-                yield from module.named_parameters(recurse=recurse, prefix=pre)
+            modules = self.named_modules()  # yields shared modules only once
+        for module_name, module in modules:
+            for name, param in module._parameters.items():
+                names = [prefix, module_name, name]
+                yield ".".join(n for n in names if n), param
 
     def _save_to_state_dict(self, destination, prefix, keep_vars):
         """
-- 
2.43.0


From 635c4a11a9332125764cf71a001fb4662b837db3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 66/70] fix: encrypt() left modules that were added to an
 encrypted module in plaintext

---
 crypten/nn/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 7b554ee..941ab1b 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -498,8 +498,9 @@ class Module:
                     self.set_buffer(name, buffer.get_plain_text())
                     self._buffers[name].requires_grad = False
 
-            # apply encryption recursively:
-            return self._apply(lambda m: m.encrypt(mode=mode, src=src))
+        # apply encryption recursively (also to modules added later):
+        for module in self.children():
+            module.encrypt(mode=mode, src=src)
         return self
 
     def decrypt(self):
-- 
2.43.0


From 139cdac21f3e870a3d17ad1b566f4d411b2ad95e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 67/70] fix: load_state_dict did not restore the buffers of a
 module (such as batchnorm statistics)

---
 crypten/nn/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 941ab1b..6c742cb 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -237,7 +237,10 @@ class Module:
 
         # get state dict for just the current module (without children)
         local_state = {
-            key: val for key, val in self.named_parameters() if val is not None
+            key: val
+            for named_values in (self.named_parameters, self.named_buffers)
+            for key, val in named_values(recurse=False)
+            if val is not None
         }
 
         # in strict mode, check for missing keys in the state_dict:
-- 
2.43.0


From 8d0c1fd1ef42db0929bc010a1cfaf92f08912b51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 68/70] fix: load_state_dict with strict=False failed on a
 missing key

---
 crypten/nn/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 6c742cb..07be6b3 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -253,6 +253,8 @@ class Module:
         # loop over parameters / buffers in module:
         for name, param in local_state.items():
             key = prefix + name
+            if key not in state_dict:  # only allowed when not strict
+                continue
             input_param = state_dict[key]
 
             # size in state_dict should match size of parameters:
-- 
2.43.0


From 0729e84413aa0b209e91a64b0b160fc2aae61666 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 69/70] fix: strict load_state_dict accepted keys the module
 does not have

---
 crypten/nn/module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 07be6b3..b457830 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -298,6 +298,12 @@ class Module:
                     "Specified state_dict has incorrect version: {}".format(version)
                 )
 
+            # in strict mode, check for unexpected keys in the state_dict:
+            expected_keys = self.state_dict(keep_vars=True)
+            for key in state_dict:
+                if key not in expected_keys:
+                    raise ValueError("Unexpected key {} in state dict.".format(key))
+
         # make copy state_dict so that load() can modify it:
         state_dict = state_dict.copy()
 
-- 
2.43.0


From 39153ac8ad718509a29c0f3272c24247d1959d01 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 70/70] fix: nn.Graph failed when a graph output is one of
 several outputs of a module not evaluated first

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b457830..a4102c7 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -749,7 +749,7 @@ class Graph(Container):
                 computed[node_to_compute] = True
 
             # return output if it is available:
-            if all(computed[output_name] for output_name in self.output_names):
+            if all(computed.get(name, False) for name in self.output_names):
                 result = [values[output_name] for output_name in self.output_names]
                 return result[0] if len(result) == 1 else tuple(result)
 
-- 
2.43.0

