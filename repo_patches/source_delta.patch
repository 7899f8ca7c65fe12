From 07403a20ec051651c617e67dfa16abcf1ca9b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 01/17] fix: decode negative fixed-point values slightly above
 an integer

FixedPointEncoder.decode divided negative values by (scale - 1) before
flooring, so a negative value whose remainder is small (e.g. -9 + 2^-16)
was decoded one whole unit too low (-9.99998).
---
 crypten/encoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index c567a93..df9748d 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -71,10 +71,9 @@ class FixedPointEncoder:
             return None
         assert is_int_tensor(tensor), "input must be a LongTensor"
         if self._scale > 1:
-            correction = (tensor < 0).long()
-            dividend = tensor.div(self._scale - correction, rounding_mode="floor")
+            # floor division and modulo agree for negative values as well
+            dividend = tensor.div(self._scale, rounding_mode="floor")
             remainder = tensor % self._scale
-            remainder += (remainder == 0).long() * self._scale * correction
 
             tensor = dividend.float() + remainder.float() / self._scale
         else:
-- 
2.43.0


From e8cec0bfbbdd5caf85be725d1a53f27f06572f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 02/17] fix: divide a 0-dimensional encrypted tensor by a float

div_ wrapped the divisor in a 1-element vector, which cannot be multiplied
in place into a 0-dimensional share.
---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f3f4dab..c20f96a 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -476,7 +476,7 @@ class ArithmeticSharedTensor:
 
         # Otherwise multiply by reciprocal
         if isinstance(y, float):
-            y = torch.tensor([y], dtype=torch.float, device=self.device)
+            y = torch.tensor(y, dtype=torch.float, device=self.device)
 
         assert is_float_tensor(y), "Unsupported type for div_: %s" % type(y)
         return self.mul_(y.reciprocal())
-- 
2.43.0


From 09848e72accdcfc6e367955730cf3214bd913fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 03/17] fix: pad with an encrypted value without losing share
 precision

The 64-bit share of the padding value went through torch's floating-point
pad value, which drops its low bits on every party.
---
 crypten/mpc/primitives/arithmetic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index c20f96a..096d15f 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -251,10 +251,12 @@ class ArithmeticSharedTensor:
             assert (
                 value.dim() == 0
             ), "Private values used for padding must be 0-dimensional"
-            value = value.share.item()
-            result.share = torch.nn.functional.pad(
-                result.share, pad, mode=mode, value=value
-            )
+            # NOTE: torch's pad takes a floating-point value, which cannot
+            # represent a 64-bit share; fill in the share separately.
+            padding = torch.ones_like(result.share, dtype=torch.bool)
+            padding = ~torch.nn.functional.pad(padding, pad, mode=mode, value=False)
+            result.share = torch.nn.functional.pad(result.share, pad, mode=mode)
+            result.share[padding] = value.share
         else:
             raise TypeError(
                 "Cannot pad ArithmeticSharedTensor with a %s value" % type(value)
-- 
2.43.0


From 93536fd1c3c12acd778de7778caa60c10a20e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 04/17] fix: odd integer powers above three

pow(p) for odd p computed (x^3)^((p-1)/2), e.g. x^6 instead of x^5.
---
 crypten/common/functions/power.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cc2254f..96670e1 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -41,8 +41,7 @@ def pow(self, p, **kwargs):
     elif p % 2 == 0:
         return self.square().pow(p // 2)
     else:
-        x = self.square().mul_(self)
-        return x.pow((p - 1) // 2)
+        return self.square().pow((p - 1) // 2).mul_(self)
 
 
 def pos_pow(self, p):
-- 
2.43.0


From 1bd6fd9228ae5454f960b9be20260edbd99516a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:34 +0000
Subject: [PATCH 05/17] fix: comparisons of tensors that do not have the
 default precision

---
 crypten/mpc/mpc.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 5a755c3..e7b101b 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -233,13 +233,12 @@ class MPCTensor(CrypTensor):
     def _ltz(self):
         """Returns 1 for elements that are < 0 and 0 otherwise"""
         shift = torch.iinfo(torch.long).bits - 1
-        precision = 0 if self.encoder.scale == 1 else None
 
         result = self._to_ptype(Ptype.binary)
         result.share >>= shift
-        result = result._to_ptype(Ptype.arithmetic, precision=precision, bits=1)
-        result.encoder._scale = 1
-        return result
+        # the sign bit is an integer, whatever the precision of self is
+        result.encoder = FixedPointEncoder(precision_bits=0)
+        return result._to_ptype(Ptype.arithmetic, precision=0, bits=1)
 
     def eq(self, y):
         """Returns self == y"""
@@ -265,13 +264,10 @@ class MPCTensor(CrypTensor):
 
         # Perform equality testing using binary shares
         x0._tensor = x0._tensor.eq(x1._tensor)
-        x0.encoder = self.encoder
+        x0.encoder = FixedPointEncoder(precision_bits=0)
 
         # Convert to Arithmetic sharing
-        result = x0.to(Ptype.arithmetic, bits=1)
-        result.encoder._scale = 1
-
-        return result
+        return x0.to(Ptype.arithmetic, precision=0, bits=1)
 
     def div(self, y):
         r"""Divides each element of :attr:`self` with the scalar :attr:`y` or
-- 
2.43.0


From 2796526d40a5ff26ffa6f30c02d367cca361871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 06/17] fix: adding tensors of different precision no longer
 rescales the operand in place

---
 crypten/mpc/primitives/arithmetic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 096d15f..b69e817 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -316,7 +316,8 @@ class ArithmeticSharedTensor:
             return self
         elif self.encoder.scale < new_encoder.scale:
             scale_factor = new_encoder.scale // self.encoder.scale
-            self.share *= scale_factor
+            # out of place: the share may be a view of another tensor's share
+            self.share = self.share * scale_factor
         else:
             scale_factor = self.encoder.scale // new_encoder.scale
             self = self.div_(scale_factor)
@@ -376,7 +377,7 @@ class ArithmeticSharedTensor:
             if additive_func:  # ['add', 'sub', 'add_', 'sub_']
                 # Re-encode if necessary:
                 if self.encoder.scale > y.encoder.scale:
-                    y.encode_as_(result)
+                    y = y.encode_as(result)
                 elif self.encoder.scale < y.encoder.scale:
                     result.encode_as_(y)
                 result.share = getattr(result.share, op)(y.share)
-- 
2.43.0


From d34d5ae61935a49ea9bc48376b76272e5c5a6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:39 +0000
Subject: [PATCH 07/17] fix: keep fractions when comparison results meet real
 values or are divided

---
 crypten/mpc/primitives/arithmetic.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index b69e817..19ae0f4 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -362,7 +362,13 @@ class ArithmeticSharedTensor:
             result = self.clone()
 
         if public:
-            y = result.encoder.encode(y, device=self.device)
+            encoder = self.encoder
+            if encoder.scale == 1 and (isinstance(y, float) or is_float_tensor(y)):
+                # real values do not fit the encoding of an integer tensor
+                encoder = FixedPointEncoder()
+                if additive_func:
+                    result.encode_(encoder)
+            y = encoder.encode(y, device=self.device)
 
             if additive_func:  # ['add', 'sub']
                 if result.rank == 0:
@@ -395,7 +401,7 @@ class ArithmeticSharedTensor:
                 if self.encoder.scale > 1:
                     return result.div_(result.encoder.scale)
                 else:
-                    result.encoder = self.encoder
+                    result.encoder = encoder
             else:  # scale by larger of self.encoder.scale and y.encoder.scale
                 if self.encoder.scale > 1 and y.encoder.scale > 1:
                     return result.div_(result.encoder.scale)
@@ -455,6 +461,9 @@ class ArithmeticSharedTensor:
             y = y.long()
 
         if isinstance(y, int) or is_int_tensor(y):
+            if self.encoder.scale == 1 and (is_tensor(y) or abs(y) != 1):
+                # the quotient of an integer tensor is not an integer
+                self.encode_(FixedPointEncoder())
             validate = cfg.debug.validation_mode
 
             if validate:
@@ -599,8 +608,8 @@ class ArithmeticSharedTensor:
 
     def square_(self):
         protocol = globals()[cfg.mpc.protocol]
-        self.share = protocol.square(self).div_(self.encoder.scale).share
-        return self
+        self.share = protocol.square(self).share
+        return self.div_(self.encoder.scale)
 
     def square(self):
         return self.clone().square_()
-- 
2.43.0


From b8ddc82228bfc17b658c060582ce3806c8cc8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 08/17] fix: combine tensors of different precision in cat,
 stack, pad, scatter and assignments

---
 crypten/common/functions/regular.py  | 11 +++++++++-
 crypten/mpc/primitives/arithmetic.py | 31 +++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index d40dd95..cd6ebd7 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -255,11 +255,20 @@ def __cat_stack_helper(op, tensors, *args, **kwargs):
         func = getattr(tensors[0]._tensor, op)
 
     # type coordination
-    for i, tensor in enumerate(tensors[1:]):
+    tensors = list(tensors)
+    for i, tensor in enumerate(tensors):
         if torch.is_tensor(tensor) or isinstance(tensor, (int, float)):
             tensors[i] = tensors[0].new(tensor)
         assert isinstance(tensors[i], type(tensors[0])), f"{op} tensor type mismatch"
 
+    # coordinate the encodings of shared tensors
+    if hasattr(tensors[0], "encode_as"):
+        finest = max(tensors, key=lambda t: t.encoder.scale)
+        tensors = [
+            t if t.encoder.scale == finest.encoder.scale else t.encode_as(finest)
+            for t in tensors
+        ]
+
     # Operate on all input tensors
     result = tensors[0].clone()
     result._tensor = func([tensor._tensor for tensor in tensors], *args, **kwargs)
diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 19ae0f4..d153dca 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -226,6 +226,7 @@ class ArithmeticSharedTensor:
         assert isinstance(value, ArithmeticSharedTensor), (
             "Unsupported input type %s for __setitem__" % type(value)
         )
+        value = self._align(value)
         self.share.__setitem__(index, value.share)
 
     def pad(self, pad, mode="constant", value=0):
@@ -238,7 +239,7 @@ class ArithmeticSharedTensor:
 
         result = self.shallow_copy()
         if isinstance(value, (int, float)):
-            value = self.encoder.encode(value).item()
+            value = result._align(value).item()
             if result.rank == 0:
                 result.share = torch.nn.functional.pad(
                     result.share, pad, mode=mode, value=value
@@ -255,6 +256,7 @@ class ArithmeticSharedTensor:
             # represent a 64-bit share; fill in the share separately.
             padding = torch.ones_like(result.share, dtype=torch.bool)
             padding = ~torch.nn.functional.pad(padding, pad, mode=mode, value=False)
+            value = result._align(value)
             result.share = torch.nn.functional.pad(result.share, pad, mode=mode)
             result.share[padding] = value.share
         else:
@@ -274,9 +276,9 @@ class ArithmeticSharedTensor:
                 "Can't stack %s with ArithmeticSharedTensor" % type(tensor)
             )
 
-        result = tensors[0].shallow_copy()
+        result = max(tensors, key=lambda t: t.encoder.scale).shallow_copy()
         result.share = torch_stack(
-            [tensor.share for tensor in tensors], *args, **kwargs
+            [result._align(tensor).share for tensor in tensors], *args, **kwargs
         )
         return result
 
@@ -335,6 +337,21 @@ class ArithmeticSharedTensor:
     def encode_as(self, other):
         return self.encode(other.encoder)
 
+    def _align(self, other):
+        """Gives self the finer encoding of the two, and returns other in it"""
+        if not isinstance(other, ArithmeticSharedTensor):
+            # real values do not fit the encoding of an integer tensor
+            if self.encoder.scale == 1 and not (
+                isinstance(other, int) or is_int_tensor(other)
+            ):
+                self.encode_(FixedPointEncoder())
+            return self.encoder.encode(other)
+        if self.encoder.scale < other.encoder.scale:
+            self.encode_as_(other)
+        elif self.encoder.scale > other.encoder.scale:
+            other = other.encode_as(self)
+        return other
+
     def _arithmetic_function_(self, y, op, *args, **kwargs):
         return self._arithmetic_function(y, op, inplace=True, *args, **kwargs)
 
@@ -525,10 +542,11 @@ class ArithmeticSharedTensor:
         public = isinstance(tensor, (int, float)) or is_tensor(tensor)
         private = isinstance(tensor, ArithmeticSharedTensor)
         if public:
-            enc_tensor = self.encoder.encode(tensor)
+            enc_tensor = self._align(tensor)
             if self.rank == 0:
                 self._tensor.index_add_(dim, index, enc_tensor)
         elif private:
+            tensor = self._align(tensor)
             self._tensor.index_add_(dim, index, tensor._tensor)
         else:
             raise TypeError("index_add second tensor of unsupported type")
@@ -553,9 +571,11 @@ class ArithmeticSharedTensor:
         public = isinstance(other, (int, float)) or is_tensor(other)
         private = isinstance(other, ArithmeticSharedTensor)
         if public:
+            other = self._align(other)
             if self.rank == 0:
-                self.share.scatter_add_(dim, index, self.encoder.encode(other))
+                self.share.scatter_add_(dim, index, other)
         elif private:
+            other = self._align(other)
             self.share.scatter_add_(dim, index, other.share)
         else:
             raise TypeError("scatter_add second tensor of unsupported type")
@@ -645,6 +665,7 @@ class ArithmeticSharedTensor:
         assert isinstance(src, ArithmeticSharedTensor), (
             "Unrecognized scatter src type: %s" % type(src)
         )
+        src = self._align(src)
         self.share.scatter_(dim, index, src.share)
         return self
 
-- 
2.43.0


From 42b873c51827bde83f4a667f7bea0fbb97920739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 09/17] fix: max pooling with different padding per dimension

---
 crypten/common/functions/pooling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e726478..92f8497 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -392,7 +392,10 @@ def _pool2d_reshape(
 
     out_size = tuple(n + (h, w))
 
-    input = torch.nn.functional.pad(input, padding, value=pad_value)
+    # NOTE: pad takes the padding of the last dimension first
+    input = torch.nn.functional.pad(
+        input, padding[2:] + padding[:2], value=pad_value
+    )
     if ceil_mode:
         update_pad = [0, 0, 0, 0]
         update_pad[3] = h * s[0] + (k[0] - 1) * d[0] - input.size(-2)
-- 
2.43.0


From 164bf7da0b3e2ade341a32fbaef9b02557a8c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:12 +0000
Subject: [PATCH 10/17] fix: seed the trusted third party from system entropy

Its seeds came from torch's default generator, whose initial state is the
same in every process, so every session used the same, publicly known
correlated randomness.
---
 crypten/mpc/provider/ttp_provider.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index 9ff5bf3..71e3dc4 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -6,6 +6,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import logging
+import os
 
 import crypten
 import crypten.communicator as comm
@@ -251,7 +252,12 @@ class TTPServer:
         """Create random generator to send to a party"""
         ws = comm.get().get_world_size()
 
-        seeds = [torch.randint(-(2**63), 2**63 - 1, size=()) for _ in range(ws)]
+        # NOTE: torch's default generator starts from the same seed in every
+        # process, so the seeds must come from the system's entropy source.
+        seeds = [
+            torch.tensor(int.from_bytes(os.urandom(8), "big") - 2**63)
+            for _ in range(ws)
+        ]
         reqs = [
             dist.isend(tensor=seeds[i], dst=i, group=self.ttp_group) for i in range(ws)
         ]
-- 
2.43.0


From 9dba9d7bbb8cf502ce551a94d38d630d36773acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:25 +0000
Subject: [PATCH 11/17] fix: re-randomize the results of replicated
 multiplication

Each party's share of a product was a function of the shares of the factors
only, and truncation sends one of these shares to another party: for a
square, that party could solve for the missing share of the secret. ABY3
adds a fresh sharing of zero to every product; do the same.
---
 crypten/mpc/primitives/replicated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 4f245b8..67ccc0e 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -64,6 +64,8 @@ def __replicated_secret_sharing_protocol(op, x, y, *args, **kwargs):
     z.share += getattr(torch, op)(x1, y2, *args, **kwargs)
     z.share += getattr(torch, op)(x2, y1, *args, **kwargs)
 
+    # Re-randomize: the local products are functions of the inputs' shares
+    z.share += z.PRZS(z.share.size(), device=z.device).share
     return z
 
 
@@ -99,6 +101,8 @@ def square(x):
 
     z = x.shallow_copy()
     z.share = x_square
+    # Re-randomize: the local products are functions of the inputs' shares
+    z.share += z.PRZS(z.share.size(), device=z.device).share
     return z
 
 
-- 
2.43.0


From 64b0c1fa3b5c22e1a1106dacdae93c2734e272f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:50 +0000
Subject: [PATCH 12/17] fix: initialize the trusted third party client again
 after uninit

The client singleton outlived crypten.uninit(), so a second session with the
TTP provider deadlocked: the server waited for a handshake the clients
skipped, and they kept using the destroyed process groups.
---
 crypten/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 8e2b84d..681e52f 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -85,6 +85,8 @@ def init_thread(rank, world_size):
 
 
 def uninit():
+    # the client's connection to the trusted third party ends with the session
+    crypten.mpc.provider.ttp_provider.TTPClient.uninit()
     return comm.uninit()
 
 
-- 
2.43.0


From 97b7a0382a46980b8eb49f3d4dc19e16bb05b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 13/17] fix: do not broadcast the buffers of a model loaded
 from one party

load_from_party zeroes the parameters of the copy it sends to the other
parties, but sent buffers, such as the running statistics of batch
normalization, in clear.
---
 crypten/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 681e52f..16d98e2 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -342,6 +342,8 @@ def load_from_party(
                 result_zeros = copy.deepcopy(result)
                 for p in result_zeros.parameters():
                     p.data.fill_(0)
+                for b in result_zeros.buffers():
+                    b.data.fill_(0)
             else:
                 result = comm.get().broadcast_obj(-1, src)
                 raise TypeError("Unrecognized load type %s" % type(result))
-- 
2.43.0


From c33ea28188018d9ae8771f069a8c763696050a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 14/17] fix: keep messages of different senders and operations
 apart between threads

A message that arrived before its receiver asked for it was handed to whatever
operation read the mailbox next: already crypten.init_thread failed, and
collectives returned other operations' data, when one thread ran ahead.
---
 .../communicator/in_process_communicator.py   | 66 +++++++++++--------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/crypten/communicator/in_process_communicator.py b/crypten/communicator/in_process_communicator.py
index ca4bb3c..e1d2b69 100644
--- a/crypten/communicator/in_process_communicator.py
+++ b/crypten/communicator/in_process_communicator.py
@@ -7,7 +7,6 @@
 
 import logging
 import threading
-from operator import itemgetter
 from queue import Queue
 
 import torch
@@ -32,6 +31,8 @@ class InProcessCommunicator(Communicator):
         self.rank = rank
         self.reset_communication_stats()
         self._name = f"rank{rank}"
+        # messages taken from this party's mailbox that nobody asked for yet
+        self._pending = []
 
         with InProcessCommunicator.lock:
             if InProcessCommunicator.mailbox is None:
@@ -40,7 +41,7 @@ class InProcessCommunicator(Communicator):
                 ]
 
                 # This prevents one thread from running ahead of the others and doing
-                # multiple puts that would show up in the get calls below
+                # multiple puts before the others take part in a collective
                 InProcessCommunicator.barrier = threading.Barrier(self.world_size)
 
         # logging:
@@ -64,16 +65,33 @@ class InProcessCommunicator(Communicator):
     def is_initialized(cls):
         return hasattr(cls.tls, "instance")
 
+    def _put(self, tensor, dst, collective=True):
+        """Puts a copy of the tensor in the mailbox of party dst."""
+        self.mailbox[dst].put((collective, self.rank, tensor.clone()))
+
+    def _take(self, src=None, collective=True):
+        """
+        Takes the oldest message from party src (or from any party) out of the
+        mailbox. Messages of other parties, and messages sent by point-to-point
+        operations when a collective asks (or vice versa), are kept for later.
+        """
+        idx = 0
+        while True:
+            while idx < len(self._pending):
+                kind, rank, tensor = self._pending[idx]
+                if kind == collective and src in (None, rank):
+                    del self._pending[idx]
+                    return tensor
+                idx += 1
+            self._pending.append(self.mailbox[self.rank].get())
+
     def send(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
-        self.mailbox[dst].put((self.rank, tensor.clone()))
+        self._put(tensor, dst, collective=False)
 
     def recv(self, tensor, src=None):
         """Receives a tensor from an (optional) source src."""
-        rank, result = self.mailbox[self.rank].get()
-        if src is not None and rank != src:
-            raise NotImplementedError("Can't receive messages out of order yet")
-        return result
+        return self._take(src, collective=False)
 
     def isend(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
@@ -92,21 +110,17 @@ class InProcessCommunicator(Communicator):
         """Receives a tensor from an (optional) source src."""
 
         class Result:
-            def __init__(self, mailbox, rank):
+            def __init__(self, communicator):
                 self.completed = False
-                self.mailbox = mailbox
-                self.rank = rank
+                self.communicator = communicator
 
             def is_completed(self):
                 return self.completed
 
             def wait(self):
-                rank, result = self.mailbox[self.rank].get()
-                if src is not None and rank != src:
-                    raise NotImplementedError("Can't receive messages out of order yet")
-                tensor.copy_(result)
+                tensor.copy_(self.communicator._take(src, collective=False))
 
-        return Result(self.mailbox, self.rank)
+        return Result(self)
 
     def scatter(self, scatter_list, src, size=None, async_op=False):
         """Scatters a list of tensors to all parties."""
@@ -115,11 +129,11 @@ class InProcessCommunicator(Communicator):
 
         if src == self.rank:
             for i in range(self.world_size):
-                self.mailbox[i].put(scatter_list[i].clone())
+                self._put(scatter_list[i], i)
 
         self.barrier.wait()
 
-        return self.mailbox[self.rank].get()
+        return self._take(src)
 
     def reduce(self, tensor, dst, op=ReduceOp.SUM, async_op=False):
         """Reduces the tensor data across all parties."""
@@ -155,13 +169,12 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
-        self.mailbox[dst].put((self.rank, tensor.clone()))
+        self._put(tensor, dst)
 
         self.barrier.wait()
 
         if self.rank == dst:
-            result = [self.mailbox[dst].get() for _ in range(self.world_size)]
-            return [tensor for rank, tensor in sorted(result, key=itemgetter(0))]
+            return [self._take(src) for src in range(self.world_size)]
 
     def all_gather(self, tensor, async_op=False):
         """Gathers tensors from all parties in a list."""
@@ -169,16 +182,11 @@ class InProcessCommunicator(Communicator):
             raise NotImplementedError()
 
         for i in range(self.world_size):
-            self.mailbox[i].put((self.rank, tensor.clone()))
+            self._put(tensor, i)
 
         self.barrier.wait()
 
-        result = sorted(
-            (self.mailbox[self.rank].get() for _ in range(self.world_size)),
-            key=itemgetter(0),
-        )
-
-        return [tensor for (rank, tensor) in result]
+        return [self._take(src) for src in range(self.world_size)]
 
     def broadcast(self, tensor, src, async_op=False):
         """Broadcasts the tensor to all parties."""
@@ -187,11 +195,11 @@ class InProcessCommunicator(Communicator):
 
         if self.rank == src:
             for i in range(self.get_world_size()):
-                self.mailbox[i].put(tensor.clone())
+                self._put(tensor, i)
 
         # No need for a barrier here.
 
-        return self.mailbox[self.rank].get()
+        return self._take(src)
 
     def get_world_size(self):
         """Returns the size of the world."""
-- 
2.43.0


From e13233af2ecc12512bfed5c4e21f405d15af6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:39 +0000
Subject: [PATCH 15/17] fix: convert models whose parameters have equal values

The ONNX exporter merges initializers with equal values (in evaluation mode)
and adds Identity nodes, which the converter does not know. Every model loaded
with load_from_party has all-zero parameters at the other parties, so any model
with two parameters of the same shape could not be converted there.
---
 crypten/nn/onnx_converter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/onnx_converter.py b/crypten/nn/onnx_converter.py
index 9a95a10..b0f5812 100644
--- a/crypten/nn/onnx_converter.py
+++ b/crypten/nn/onnx_converter.py
@@ -139,6 +139,8 @@ def _export_pytorch_model(f, pytorch_model, dummy_input):
         "do_constant_folding": False,
         "export_params": True,
         "input_names": ["input"],
+        # keeps the exporter from merging parameters that have equal values
+        "keep_initializers_as_inputs": True,
         "operator_export_type": OperatorExportTypes.ONNX,
         "output_names": ["output"],
         "opset_version": _OPSET_VERSION,
@@ -211,7 +213,10 @@ def _get_input_output_names(onnx_model):
     """
     Return input and output names of the ONNX graph.
     """
-    input_names = [input.name for input in onnx_model.graph.input]
+    initializers = {node.name for node in onnx_model.graph.initializer}
+    input_names = [
+        input.name for input in onnx_model.graph.input if input.name not in initializers
+    ]
     output_names = [output.name for output in onnx_model.graph.output]
     assert len(input_names) >= 1, "number of inputs should be at least 1"
     assert len(output_names) == 1, "number of outputs should be 1"
-- 
2.43.0


From e2105ca1a4796422d9619ba007c2b6cf45ad626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:49 +0000
Subject: [PATCH 16/17] fix: trace_once checks whether the request cache is
 empty

The request cache is a list, which has no empty() method.
---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index 6868ddb..da7c636 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -54,7 +54,7 @@ class TupleProvider:
         """Sets tracing attribute True only if the request cache is empty.
         If `trace_once()` is called again, it sets tracing attribute to False
         """
-        untraced = self.request_cache.empty()
+        untraced = len(self.request_cache) == 0
         self.trace(tracing=untraced)
 
     def _save_requests(self, filepath=None):
-- 
2.43.0


From 6e4189378874b7c5d32e72d3f2c16ad580370ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:49 +0000
Subject: [PATCH 17/17] fix: request tuples from the provider when cached ones
 are used up

The cache keeps an empty list for a request whose tuples are all used, and the
next request of the kind failed with an IndexError.
---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index da7c636..d40a507 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -133,7 +133,7 @@ class TupleProvider:
             hashable_kwargs = frozenset(kwargs.items())
             request = (func_name, args, hashable_kwargs)
             # Read from cache
-            if request in self.tuple_cache.keys():
+            if len(self.tuple_cache.get(request, [])) > 0:
                 return self.tuple_cache[request].pop()
             # Cache miss
             return object.__getattribute__(self, func_name)(*args, **kwargs)
-- 
2.43.0

