From 2ecc5bc2c4f486b29740b1bcc9f5869299ea69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 01/47] fix: bitstring.signed no longer inverts the bit string
 it reads

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..7d12d49 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From e62807952acbc09c3a1597294cafd5c2e367eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 02/47] fix: ~ on a bitstring returns a new value instead of
 inverting the operand in place

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7d12d49..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From 4a01c445750584d414ea373f523a8b0d047b19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 03/47] fix: truth value of a bitstring under Python 3

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From a754481785b65f1b65ee8186d23ca645742399ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 04/47] fix: bitstring arithmetic refuses unsupported operands

---
 cmdis/bitstring.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..a41e3f6 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -328,28 +328,23 @@ class bitstring(object):
 
     def __add__(self, other):
         b = bitstring(self)
-        b.__iadd__(other)
-        return b
+        return b.__iadd__(other)
 
     def __sub__(self, other):
         b = bitstring(self)
-        b.__isub__(other)
-        return b
+        return b.__isub__(other)
 
     def __mul__(self, other):
         b = bitstring(self)
-        b.__imul__(other)
-        return b
+        return b.__imul__(other)
 
     def __floordiv__(self, other):
         b = bitstring(self)
-        b.__ifloordiv__(other)
-        return b
+        return b.__ifloordiv__(other)
 
     def __mod__(self, other):
         b = bitstring(self)
-        b.__imod__(other)
-        return b
+        return b.__imod__(other)
 
     def __lshift__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From 4c4ce0843e845b2bda3debf1de37a4b42a3d89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 05/47] fix: integer 2**32 gets a 64-bit bitstring

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index a41e3f6..bbd55af 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From b71e4b492456181750a673b32d1676de0bd54e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 06/47] fix: bitstring from a bytearray (bytearray is a
 Sequence too)

---
 cmdis/bitstring.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index bbd55af..2d27167 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
             # Little endian byte array.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From bb300734f4074b8885c99d6d60a1df75844709f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 07/47] fix: comparing a bitstring with an unsupported type

---
 cmdis/bitstring.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 2d27167..1860caa 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -180,10 +181,12 @@ class bitstring(object):
         return self.__eq__(other) or self.__lt__(other)
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From c3515ccd9ef9697fc7541ed466e6104e41d7d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 08/47] fix: cmp/cmn (register) compare with Rm

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..ae4128e 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From f73674349e382bc03d65391cd3d6be0599f9ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 09/47] fix: misspelt register list in push.w

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ae4128e..de242ee 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 017df6478d7cb88c5989adbef96c3caa5c525e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 10/47] fix: push.w with fewer than two registers is
 unpredictable

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index de242ee..0690c5f 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -797,7 +797,7 @@ def push_t1(i, M, reglist):
 def push_t2(i, M, reglist):
     i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
-    if i.registers.bit_count() == 0:
+    if i.registers.bit_count() < 2:
         raise UnpredictableError()
     i.operands = [ReglistOperand(i.registers)]
 
-- 
2.43.0


From 932c8952f328d88d806b0fa03d4ee8578bdd3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 11/47] fix: undefined name when executing mvn.w

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 0690c5f..c9a8481 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From 8719fb4615497b845a77f6dad5d586da3c79aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 12/47] fix: undefined name in ASR by zero

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 8f9b2a607339f64d0f599b0a3bbf463b2988216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 13/47] fix: blx lr branches to the old link register value

---
 cmdis/instructions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c9a8481..5700387 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,17 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From 548f4cf4a02084f341f38dd8cca367fe2b9a4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 14/47] fix: mrs reads the flags from xpsr

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 5700387..09aacaa 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -938,9 +938,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From 967c50fdb605dce533ee42a406ab01f6fca43268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 15/47] fix: IPSR is nine bits wide

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..bab1a17 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From da0ca7479b0e53221ee94ffc6f9846f0da8d42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 16/47] fix: special register operand keeps the suffix of mask
 0b11

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..250e706 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -148,7 +148,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -171,7 +171,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From fbfb96ee1eb7cd250d5a74750cfea93b3048e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 17/47] fix: mock CPU selects the stack pointer by the value of
 CONTROL

---
 cmdis/mock_cpu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..8215cc3 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
@@ -57,6 +57,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
                 (reg == CORE_REGISTER['psp'] and spsel == 1):
             self._regs[CORE_REGISTER['sp']] = value
+        elif reg == CORE_REGISTER['control']:
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 02bab4f841889008ffebe54036dc3d7854ae5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 18/47] fix: mock memory accesses stay within their region

---
 cmdis/mock_cpu.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 8215cc3..0250376 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -69,27 +69,29 @@ class MockCpuModelDelegate(CpuModelDelegate):
     def read_memory(self, addr, size=32):
         mem, offset = self._find_mem(addr)
         if mem:
+            # Bytes past the end of the region read as zero.
+            data = mem.data[offset:offset+size//8].ljust(size // 8, b'\0')
             if size == 8:
-                return mem.data[offset:offset+1]
+                return data[0]
             elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
+                return bytes_to_le16(data)
             elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
+                return bytes_to_le32(data)
         return 0
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                mem.data[offset:offset+1] = [value]
-            elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
-            elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+        if size == 8:
+            self.write_memory_block(addr, bytearray([value & 0xff]))
+        elif size == 16:
+            self.write_memory_block(addr, le16_to_bytes(value))
+        elif size == 32:
+            self.write_memory_block(addr, le32_to_bytes(value))
 
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
+            # Drop the part that is past the end of the region.
+            data = data[:len(mem.data) - offset]
             mem.data[offset:offset+len(data)] = data
 
     def read_memory_block(self, addr, length):
-- 
2.43.0


From 3df5a9a12ff9289ba7ad71bf8c62df72f7d73bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 19/47] fix: register views: index offset and bounds

---
 cmdis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index bab1a17..50d27ef 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From 4334bc3b4dc40d6855154e2b4191a7319294df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 20/47] fix: decoding fewer than two bytes is an undefined
 instruction

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..1cf5936 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From d807ad2db2e63f0855309d2377c0f4bc1b52289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 21/47] fix: adr label operands use the aligned PC and the sign
 of the offset

---
 cmdis/formatter.py    | 11 +++++++----
 cmdis/instructions.py |  5 +++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 250e706..67965e2 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -16,7 +16,7 @@
 
 from .utilities import bytes_to_le16
 from .registers import CORE_REGISTER_NAMES
-from .helpers import SRType
+from .helpers import (Align, SRType)
 
 class Operand(object):
     def format(self, formatter):
@@ -80,15 +80,18 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, alignment=1):
         self._offset = offset
+        self._alignment = alignment
 
     def format(self, formatter):
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        address = formatter.instruction.address
+        target = (Align(address + 4, self._alignment) + self._offset) & 0xffffffff
+        comment = "0x%x" % target
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (Align(address + 4, self._alignment) + self._offset - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 09aacaa..ca4c79a 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -267,14 +267,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, alignment=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, alignment=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From 4c5e03430ecfce6a411c1e4b4fee38c5853d3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 22/47] fix: instructions that write PC do not advance it again

---
 cmdis/instructions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ca4c79a..b637bbc 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -75,7 +75,8 @@ class AddSub(DataProcessing):
                 cpu.apsr.c if self.use_carry else bit0)
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, overflow)
-        super(AddSub, self)._eval(cpu)
+        if self.d != 15:
+            super(AddSub, self)._eval(cpu)
 
 class BitOp(DataProcessing):
     def _eval(self, cpu):
@@ -369,7 +370,8 @@ class Move(DataProcessing):
             result = ~result
         cpu.r[self.d] = result
         self._set_flags(cpu, result, cpu.apsr.c, None)
-        cpu.pc += self.size
+        if self.d != 15:
+            cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
 def mov0(i, D, Rm, Rd):
@@ -632,7 +634,8 @@ class Load(Instruction):
         else:
             data = data.zero_extend(32)
         cpu.r[self.t] = data
-        cpu.pc += self.size
+        if self.t != 15:
+            cpu.pc += self.size
 
 class Store(Instruction):
     def __init__(self, mnemonic, word, is32bit):
-- 
2.43.0


From 9d3ddda151664ec35564920a5192a906841b4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 23/47] fix: movs.w (immediate) sets C from the expanded
 immediate

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index b637bbc..a23c337 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -369,7 +369,8 @@ class Move(DataProcessing):
         if self.negate:
             result = ~result
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        carry = getattr(self, 'carry', None)
+        self._set_flags(cpu, result, cpu.apsr.c if carry is None else carry, None)
         if self.d != 15:
             cpu.pc += self.size
 
@@ -408,7 +409,7 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, None) # no carry out: C is unchanged
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From 75b142641ea94d3d6592f24dafd10edee9af110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 24/47] fix: decoder tree dump under Python 3

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 1cf5936..7c05374 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -187,7 +187,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes.keys()):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0


From 8c62943477b2d1bc9cffbc7b80f7579305d71f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 25/47] fix: delegate base class declares the block accesses
 the model uses

---
 cmdis/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmdis/model.py b/cmdis/model.py
index 50d27ef..ddb0900 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -307,4 +307,10 @@ class CpuModelDelegate(object):
     def write_memory(self, addr, value, size=32):
         pass
 
+    def read_memory_block(self, addr, length):
+        pass
+
+    def write_memory_block(self, addr, data):
+        pass
+
 
-- 
2.43.0


From e45fbf7bcddc087bb2dae85bcc20aa565e2d6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 26/47] fix: pattern parser rejects stray characters after
 fixed bits and bit counts

---
 cmdis/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 7c05374..16e5ad3 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -359,7 +359,9 @@ def parse_spec(spec):
                 bitcount = ''
                 state = 0
             elif c not in string.digits:
+                # Switch to close bitcount state and back up.
                 state = 4
+                i -= 1
             else:
                 bitcount += c
         # Close bitcount state.
@@ -378,10 +380,12 @@ def parse_spec(spec):
             if c in ('0', '1'):
                 bits += c
             else:
+                # Switch to default state and back up.
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 6ff6594656b8d495ba16845cb1accf820e17b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 27/47] fix: bit-field helpers with lsb 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..de6c8cc 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From a2aa6a41ce2c55f2cc69cdc67278c0ae8248c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 28/47] fix: missing struct import in utilities

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index de6c8cc..319785f 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -15,6 +15,8 @@
 # limitations under the License.
 
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
+import struct
+
 def hamming_weight(v):
     weight = 0
     while v != 0:
-- 
2.43.0


From 34b4fb7c5441acac0bdaf25318f3163815147cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 29/47] fix: byteListToU32leList under Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 319785f..bf6deac 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -51,7 +51,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From f02d0970a070e61f44029d300e819f1fd3a259c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 30/47] fix: console reset command takes its argument list like
 the others

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..35a8157 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 10610f6a474eeb3824552a964a139d2208498426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 31/47] fix: console help lists the commands that exist

---
 cmdis/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 35a8157..3ddc40f 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -50,11 +50,6 @@ COMMAND_INFO = {
             'args' : "",
             'help' : "Display target type and IDs"
             },
-        'status' : {
-            'aliases' : ['stat'],
-            'args' : "",
-            'help' : "Show the target's current state"
-            },
         'reg' : {
             'aliases' : [],
             'args' : "[REG]",
@@ -115,6 +110,11 @@ COMMAND_INFO = {
             'args' : "[-c/--center] ADDR [LEN]",
             'help' : "Disassemble instructions at an address"
             },
+        'map' : {
+            'aliases' : [],
+            'args' : "",
+            'help' : "Show the memory map"
+            },
         'log' : {
             'aliases' : [],
             'args' : "LEVEL",
-- 
2.43.0


From 891e8fa7c82731ee8920cff0cee26ad7d87289d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 32/47] fix: console writes of halfwords and words above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 3ddc40f..5598001 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) & ((1 << width) - 1) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 6431f1e47c664bf8ab522c91e0c549d2ec5b9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 33/47] fix: console hex dump labels lines with byte addresses

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 5598001..29cd995 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From d4e15f55c8d8c4b24f0419de188c25cc359bb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 34/47] fix: console disassembly of nothing

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 29cd995..d57fc5c 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -623,7 +623,7 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
+        if text.endswith("\n"):
             text = text[:-1]
         print text
 
-- 
2.43.0


From 5109870762d19ba0bc31b5fe608a1ed4b8d0614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 35/47] fix: console starts without a binary file under Python
 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index d57fc5c..0133bdd 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From ba4358db0b20ea4585e9f90adf6261fe16ea8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 36/47] fix: undefined name in hex_width error

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 0133bdd..28bbcd6 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -135,7 +135,7 @@ def hex_width(value, width):
     elif width == 32:
         return "%08x" % value
     else:
-        raise ToolError("unrecognized register width (%d)" % reg.size)
+        raise ToolError("unrecognized register width (%d)" % width)
 
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
-- 
2.43.0


From 526eefd613a1174e4634eff94f74903bd36ed1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 37/47] fix: console repeats a whole command line and ignores
 empty commands

---
 cmdis/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 28bbcd6..bc6cac5 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
@@ -206,7 +206,8 @@ class SimConsole(object):
 
     def process_command_line(self, line):
         for cmd in line.split(';'):
-            self.process_command(cmd)
+            if cmd.strip():
+                self.process_command(cmd)
 
     def process_command(self, cmd):
         try:
-- 
2.43.0


From 7bfdd6922f95107dd53d84fef371a7b5c370fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 38/47] fix: console Python expression after a space

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index bc6cac5..48cfc8d 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -212,7 +212,7 @@ class SimConsole(object):
     def process_command(self, cmd):
         try:
             if (cmd.strip())[0] == '$':
-                cmd = cmd[1:].strip()
+                cmd = cmd.strip()[1:].strip()
                 self.tool.handle_python(cmd)
                 return
 
-- 
2.43.0


From 49279a066986b521af5e02e03863755d1825a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 39/47] fix: an unknown command option no longer ends the
 console

---
 cmdis/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 48cfc8d..8f53b37 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -167,9 +167,14 @@ class ToolError(Exception):
 class ToolExitException(Exception):
     pass
 
+class CommandOptionParser(optparse.OptionParser):
+    # The default is to exit the program.
+    def error(self, msg):
+        raise ToolError(msg)
+
 def cmdoptions(opts):
     def process_opts(fn):
-        parser = optparse.OptionParser(add_help_option=False)
+        parser = CommandOptionParser(add_help_option=False)
         for opt in opts:
             parser.add_option(opt)
         def foo(inst, args):
-- 
2.43.0


From 0037af039e04eff0375f7d3e50031211d640e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 40/47] fix: memory hints are not byte or halfword loads to pc

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a23c337..da9d0c5 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -687,6 +687,8 @@ def ldr_str_reg_t2(i, Rn, Rt, imm2, Rm):
     i.m = Rm.unsigned
     if i.n == 15:
         raise DecodeError()
+    if i.t == 15 and isinstance(i, Load) and i.memsize != 32:
+        raise DecodeError() # memory hints (PLD, PLI)
     i.index = True
     i.add = True
     i.wback = False
-- 
2.43.0


From 13a394f8e32745f57af9f2c87184108f968c743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:24 +0000
Subject: [PATCH 41/47] fix: words matching no encoding are undefined
 instructions

The tree's children were a defaultdict, so a missing key gave an empty list.
---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 16e5ad3..ed50132 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -172,7 +172,7 @@ class DecoderTree(object):
         for k, subdecoders in children.items():
             children[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=dict(children))
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 5853851ec14d7b9605435993a2c6b8ab8efb2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 42/47] fix: a bit string operator with None on the left raises
 TypeError

---
 cmdis/bitstring.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 1860caa..a90879a 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -397,28 +397,28 @@ class bitstring(object):
         return bitstring(self._value | other, width)
 
     def __radd__(self, other):
-        return bitstring(other).__add__(self)
+        return NotImplemented if other is None else bitstring(other).__add__(self)
 
     def __rsub__(self, other):
-        return bitstring(other).__sub__(self)
+        return NotImplemented if other is None else bitstring(other).__sub__(self)
 
     def __rmul__(self, other):
-        return bitstring(other).__mul__(self)
+        return NotImplemented if other is None else bitstring(other).__mul__(self)
 
     def __rfloordiv__(self, other):
-        return bitstring(other).__floordiv__(self)
+        return NotImplemented if other is None else bitstring(other).__floordiv__(self)
 
     def __rmod__(self, other):
-        return bitstring(other).__mod__(self)
+        return NotImplemented if other is None else bitstring(other).__mod__(self)
 
     def __rand__(self, other):
-        return bitstring(other).__and__(self)
+        return NotImplemented if other is None else bitstring(other).__and__(self)
 
     def __rxor__(self, other):
-        return bitstring(other).__xor__(self)
+        return NotImplemented if other is None else bitstring(other).__xor__(self)
 
     def __ror__(self, other):
-        return bitstring(other).__or__(self)
+        return NotImplemented if other is None else bitstring(other).__or__(self)
 
     def __iadd__(self, other):
         if isinstance(other, bitstring):
-- 
2.43.0


From 8290f747f9cbbc4869109c24b9da7c0fa729a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 43/47] fix: assigning to an empty slice changes nothing

---
 cmdis/bitstring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index a90879a..579b52d 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -263,6 +263,7 @@ class bitstring(object):
             start, stop, step = key.indices(self._width)
             if step != 1:
                 raise ValueError("cannot set slice with step != 1")
+            stop = max(start, stop)
             if isinstance(value, six.integer_types):
                 value = bitstring(value)
             elif isinstance(value, six.string_types):
-- 
2.43.0


From da90c73ec32e5478eaff0c3ef673976ab455953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 44/47] fix: an integer assigned to a wide slice fills all of
 it

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 579b52d..a763a38 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -265,7 +265,7 @@ class bitstring(object):
                 raise ValueError("cannot set slice with step != 1")
             stop = max(start, stop)
             if isinstance(value, six.integer_types):
-                value = bitstring(value)
+                value = bitstring(value, stop - start)
             elif isinstance(value, six.string_types):
                 value = bitstring(value)
             elif not isinstance(value, bitstring):
-- 
2.43.0


From a5647ab8716f60b8b142efd4eb9d79e380c73920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 45/47] fix: console step only decodes the instruction it
 executes

---
 cmdis/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 8f53b37..5ff7be4 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -509,15 +509,13 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
 
-            if not len(ilist):
+            # Only decode the first instruction.
+            i = next(dis.disasm(code, pc), None)
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From d1300ec369494138ebd439194f22079e3b76698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 46/47] fix: console wreg refuses an unknown register

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 5ff7be4..f97a4c7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -414,6 +414,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 8d6d500b572c2a1c765ace30ac38eb457193b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 47/47] fix: console disasm lists the instructions before an
 unpredictable one

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index f97a4c7..d5c6eea 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -629,6 +629,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
         if text.endswith("\n"):
             text = text[:-1]
         print text
-- 
2.43.0

