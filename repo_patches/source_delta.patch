From c0c92610bb83be315beae62066352f506842664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 01/27] fix: compare the least significant byte of a UInt

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From e621952372108f279a7a341e0b5f2104c6bc3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/27] fix: write a fixed string as its own bytes, never
 unhexlified

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..25eaa97 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -386,7 +386,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 4780e397aae79a642b65e2a12f6258d26fe198fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 03/27] fix: write hashes as raw bytes, never unhexlified

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 25eaa97..4177e23 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -432,7 +432,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From 613b5989c835e619482713942d49328306684aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 04/27] fix: write 64 byte list items as raw bytes, never
 unhexlified

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 4177e23..0657817 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -417,7 +417,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
-- 
2.43.0


From 2dfc67a087b6a8e52fc5e2c7063cf3538f24f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 05/27] fix: WriteVarString must work for every encoding

---
 neocore/IO/BinaryWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 0657817..d0ed72c 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -368,11 +368,8 @@ class BinaryWriter(object):
             value = value.encode(encoding)
 
         length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
         self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From 29f112d51affca25ae992996e8947bacb7583c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 06/27] fix: WriteByte must not drop values of int subclasses

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index d0ed72c..b86210d 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -82,7 +82,7 @@ class BinaryWriter(object):
             self.stream.write(value)
         elif type(value) is str:
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From c07ba0efeeab79e051defeb0f331b3c22bf01340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 07/27] fix: deserializing a UInt from too short a stream is an
 error

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..ead3fa0 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -39,7 +39,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = reader.SafeReadBytes(self.Size)
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From 7c15446759d62adb69d39c242caf9d44b0eadcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 08/27] fix: Fixed8 division and rounding must be exact for
 large values

---
 neocore/Fixed8.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..3c98b58 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -88,7 +86,8 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
@@ -124,13 +123,14 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        whole = abs(self.value) // Fixed8.D
+        return whole if self.value >= 0 else -whole
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From 4b4573c09a62541269ac0741ee7c3c92538b15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 09/27] fix: Fixed8 must take a decimal number at its exact
 value

---
 neocore/Fixed8.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 3c98b58..6704efe 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,6 +7,8 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
+from fractions import Fraction
+
 
 class Fixed8:
     value = 0
@@ -27,6 +29,8 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
+        if isinstance(number, float):
+            number = Fraction(str(number))
         out = int(number * Fixed8.D)
         return Fixed8(out)
 
@@ -51,6 +55,7 @@ class Fixed8:
         val = None
         try:
             val = float(value)
+            val = Fraction(str(value))
         except Exception as e:
             pass
         if not val:
-- 
2.43.0


From 694ae9081cf3e68761c2e5b8a414a61af090931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 10/27] fix: trim the right subtree of a merkle tree with its
 own flags

---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From a7b38cb4d7e56bd442edc33e5cb23f3caa19c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 11/27] fix: address_to_scripthash must reject what is not a
 NEO address

---
 neocore/bin/cli.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..cf4dbbf 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -24,10 +24,12 @@ class ConversionError(Exception):
 def address_to_scripthash(address):
     data = bytes(base58.b58decode(address))
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure there is a signature byte, a scripthash and a checksum
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
+
+    # Make sure signature byte is correct.
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From 5e12d0e535f2be94e27888d38751db9195615f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 12/27] fix: a valid address has the NEO version byte and a 20
 byte script hash

---
 neocore/Utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..d5f7097 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -7,8 +7,8 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            valid = len(data) == 21 and data[0] == 0x17
         except ValueError:
             # checksum mismatch
             valid = False
-- 
2.43.0


From d0728c2475b37355876fff7cf181bc3ada506718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 13/27] fix: check the NEP-2 header, flag and length before
 decrypting

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..a1615ba 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -128,6 +128,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From 9f4623f52271d1f8f28094f78df5df371083c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 14/27] fix: signing and verifying must not depend on the curve
 left in use

---
 neocore/Cryptography/Crypto.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..ebbb0a8 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -114,6 +114,8 @@ class Crypto(object):
             bytearray: the signature of the message.
         """
 
+        Crypto.SetupSignatureCurve()
+
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
@@ -155,6 +157,7 @@ class Crypto(object):
             message = message.encode('utf-8')
 
         if len(public_key) == 33:
+            Crypto.SetupSignatureCurve()
             public_key = bitcoin.decompress(public_key)
             public_key = public_key[1:]
 
-- 
2.43.0


From 9be9a7e24adc89628abf44e9ad08669a77557dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 15/27] fix: verifying with a malformed compressed public key
 is False

---
 neocore/Cryptography/Crypto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index ebbb0a8..8dabec3 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -156,12 +156,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            Crypto.SetupSignatureCurve()
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From dc8004976300fcb24694884fd57ed3af388033cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 16/27] fix: order points with the same x by their y

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..f772b06 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From 7f39c72f2d44d1ecd2b940566ed87b9d931b8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 17/27] fix: scalar multiplication must halve the scalar as an
 integer

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f772b06..b2a5837 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -519,7 +519,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From d51a4e64253de1b561a4d19bf3ce307339c83bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 18/27] fix: dividing an int by a field value needs
 __rtruediv__

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b2a5837..5525aa4 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From 628b7fd1b708ad00c7bc03dbf03f05051e16aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 19/27] fix: the negative of field zero is zero

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 5525aa4..acda038 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value((self.p - val.value) % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From c75c8bb594456b2940c67ef71b88ec956aa26863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 20/27] fix: field square roots need integer exponents

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index acda038..d4668ec 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,7 +292,7 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
             x = val ** ((self.p + 1) / 4)
             if x == 1:
-- 
2.43.0


From 7182219dbc472a62a6c261949e69c8a6e6249e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 21/27] fix: secp256r1 must use the order of its base point

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index d4668ec..08181c5 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -807,7 +807,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551)
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
-- 
2.43.0


From ace5e703b1b6765203eab81bdacd11ac7ae32911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 22/27] fix: FromBytes_Secp256r1 takes raw bytes in every
 supported length

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 08181c5..9d3ff6f 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -842,12 +842,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From 970d5d2fd528438b801e0d20fc0d8334836920ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 23/27] fix: decoding a point from too short a stream is an
 error

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 9d3ff6f..aa822ff 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -575,7 +575,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From dfa6a1b622d81c0a937c4d7348a47b6adcfe0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 24/27] fix: field square roots need integer exponents for p =
 5 mod 8 too

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index aa822ff..b3d8e9d 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -294,11 +294,11 @@ class FiniteField:
         if sw == 3 or sw == 7:
             res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p + 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From d041fb52dea0ffdb80c6606d7e85c5b7595c2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 25/27] fix: the inverse of a negative number has the right
 sign

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b3d8e9d..c9d7606 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -311,7 +311,7 @@ class FiniteField:
         """
         calculate the multiplicative inverse
         """
-        return modinv(value.value, self.p)
+        return modinv(value.value % self.p, self.p)
 
     def value(self, x):
         """
-- 
2.43.0


From f1a66e768a7110caeaa52eb360f039821693d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 26/27] fix: refuse an encoding of infinity with trailing bytes

---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index c9d7606..109085d 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -602,6 +602,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for infinity encoding")
             return self.Infinity
 
         # these are compressed
-- 
2.43.0


From e5172ee42b12a3fff3492fd00e706be14fcf708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:36 +0000
Subject: [PATCH 27/27] fix: ReadVarInt by default refused the largest values
 which WriteVarInt writes

---
 neocore/IO/BinaryReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryReader.py b/neocore/IO/BinaryReader.py
index 2749825..57d41b7 100644
--- a/neocore/IO/BinaryReader.py
+++ b/neocore/IO/BinaryReader.py
@@ -228,7 +228,7 @@ class BinaryReader(object):
         """
         return self.unpack('%sQ' % endian, 8)
 
-    def ReadVarInt(self, max=sys.maxsize):
+    def ReadVarInt(self, max=0xFFFFFFFFFFFFFFFF):
         """
         Read a variable length integer from the stream.
         The NEO network protocol supports encoded storage for space saving. See: http://docs.neo.org/en-us/node/network-protocol.html#convention
-- 
2.43.0

