From d92b86eef09e9ac1e4a591555dcd1fe110205d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 01/53] fix: slice length prefix of text counts its encoded
 bytes, not characters

---
 tfchain/encoders/rivine.py | 4 +++-
 tfchain/encoders/sia.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..f04ee0c 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,8 +170,10 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
+            # the prefix counts encoded bytes, not characters
+            value = value.encode('utf-8')
             self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..c72ef8a 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,8 +85,10 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
+            # the prefix counts encoded bytes, not characters
+            value = value.encode('utf-8')
             self.add_int(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
-- 
2.43.0


From 6a7d78f0b3a8e78f70404a6007785c6d53d69e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 02/53] fix: currency value errors are raised as documented
 instead of a NameError

---
 tfchain/errors.py               | 2 +-
 tfchain/types/PrimitiveTypes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..9187291 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
-- 
2.43.0


From 3e7a4cb77b78b144bb5c26bf5befdee7f007fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 03/53] fix: empty currency JSON value decodes to the zero
 currency

---
 tfchain/types/PrimitiveTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 9187291..f34217b 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -195,6 +195,8 @@ class Currency(BaseDataTypeClass):
         if obj == '':
             obj = None
         c = cls()
+        if obj is None:
+            return c
         c.value = Decimal(obj) * Decimal('0.000000001')
         return c
 
-- 
2.43.0


From f5423df8d08ee38533eeb37f0685f319199706d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 04/53] fix: subtracting a currency from a number keeps the
 operand order

---
 tfchain/types/PrimitiveTypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index f34217b..6d7f10e 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -259,7 +259,10 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        other = Currency._op_other_as_currency(other)
+        return other - self
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 47699e6d167b91a72a262896348de79c6c93863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 05/53] fix: a block stake can be copied from a block stake,
 not from a currency

---
 tfchain/types/PrimitiveTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 6d7f10e..3c1644a 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -385,7 +385,7 @@ class Blockstake(BaseDataTypeClass):
         if value is None:
             self._value = 0
             return
-        if isinstance(value, Currency):
+        if isinstance(value, Blockstake):
             self._value = value.value
             return
         if isinstance(value, str):
-- 
2.43.0


From 3523ac7929f55fd9350076ca7a88e46059f667ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 06/53] fix: the root of an empty merkle tree is the hash of no
 data

---
 tfchain/crypto/merkletree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/crypto/merkletree.py b/tfchain/crypto/merkletree.py
index 1cbea49..34a83e6 100644
--- a/tfchain/crypto/merkletree.py
+++ b/tfchain/crypto/merkletree.py
@@ -54,7 +54,7 @@ class Tree:
         // Root returns the Merkle root of the data that has been pushed.
         """
         if self.head is None:
-            return sum(self.hash_func, bytearray())
+            return sum_(self.hash_func, bytearray())
 
         # // The root is formed by hashing together subTrees in order from least in
         # // height to greatest in height. The taller subtree is the first subtree in
-- 
2.43.0


From 3aae2fc5f94f5de884d445c8bcb02d395af4bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 07/53] fix: the checksum of a nil address is verified like any
 other

---
 tfchain/types/ConditionTypes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..b05ec11 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -322,11 +322,10 @@ class UnlockHash(BaseDataTypeClass):
             expectedNH = b'\x00'*UnlockHash._HASH_SIZE
             if h.value != expectedNH:
                 raise ValueError("unexpected nil hash {}".format(h.value.hex()))
-        else:
-            expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
-            checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
-            if expected_checksum != checksum:
-                raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
+        expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
+        checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
+        if expected_checksum != checksum:
+            raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
 
         return uh
     
-- 
2.43.0


From d9bc24e55ae9ed76c978769de43e0325d7d3c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 08/53] fix: the type of an address is read in the base it is
 written in

---
 tfchain/types/ConditionTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index b05ec11..029e111 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -314,7 +314,7 @@ class UnlockHash(BaseDataTypeClass):
         if len(obj) != UnlockHash._TOTAL_SIZE_HEX:
             raise ValueError("UnlockHash is expexcted to be of length {} when JSON-encoded, not of length {}".format(UnlockHash._TOTAL_SIZE_HEX, len(obj)))
 
-        t = UnlockHashType(int(obj[:UnlockHash._TYPE_SIZE_HEX]))
+        t = UnlockHashType(int(obj[:UnlockHash._TYPE_SIZE_HEX], 16))
         h = Hash(value=obj[UnlockHash._TYPE_SIZE_HEX:UnlockHash._TYPE_SIZE_HEX+UnlockHash._HASH_SIZE_HEX])
         uh = cls(type=t, hash=h)
         
-- 
2.43.0


From bb92e0e2dbc66598cd5b832ed52713d199a46620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 09/53] fix: an unset hash is encoded as the nil hash it is
 written as

---
 tfchain/types/PrimitiveTypes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 3c1644a..de7a486 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -173,6 +173,20 @@ class Hash(BinaryData):
             return '0'*(Hash.SIZE*2)
         return s
 
+    def sia_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Sia Binary Encoding format,
+        the nil hash is encoded as an array of zero bytes.
+        """
+        encoder.add_array(self._value or bytearray(Hash.SIZE))
+
+    def rivine_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Rivine Binary Encoding format,
+        the nil hash is encoded as an array of zero bytes.
+        """
+        encoder.add_array(self._value or bytearray(Hash.SIZE))
+
 
 from math import floor
 from decimal import Decimal
-- 
2.43.0


From 41649207e287d68117919cb31f2f3566c4007481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 10/53] fix: the JSON form of a transaction can be serialised,
 its version is a number

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..df339b7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': int(self.version)}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From cf61ce1f6a7b21aa5e2224bbb6e61d0fa6ad52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 11/53] fix: a transaction without an id can be hashed and
 compared

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index df339b7..5f2cfe5 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,5 @@
 import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
-- 
2.43.0


From a4a7a2689084033d14a6ea1fb72d0165cdee5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 12/53] fix: block stake output ids are bounded by the block
 stake outputs

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 5f2cfe5..49ca8e2 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -226,10 +226,10 @@ class TransactionBaseClass(ABC):
 
     def blockstake_outputid_new(self, index):
         """
-        Compute the ID of a Coin Output within this transaction.
+        Compute the ID of a Blockstake Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
-- 
2.43.0


From dfd66fa70edef1a34c07b28b13622dbb059d4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 13/53] fix: a block stake input without known parent output is
 not signed nor fulfilled

---
 tfchain/types/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
-- 
2.43.0


From 5c6edccac01a2e58482ab6a21336967b74cd259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 14/53] fix: unsigned block stake inputs keep a transaction
 unfulfilled

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 49ca8e2..d1e995a 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -297,7 +297,7 @@ class TransactionBaseClass(ABC):
         """
         return reduce(
             (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From 848fbbc1e07357ab52913a2d12dabf5127f33e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 15/53] fix: random secrets and identifiers come from the
 operating system

---
 tfchain/internal/jsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..c6ea6db 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -21,7 +21,7 @@ def blake2_string(s, digest_size=32):
     return blake2(s, digest_size=digest_size).hex()
 
 def generateRandomInt(fromInt, toInt):
-    return random.randint(fromInt, toInt)
+    return random.SystemRandom().randint(fromInt, toInt)
 
 
 def generateXCharID(x):
-- 
2.43.0


From 72ff9fc30d992bb2d27c77f4152ac76cd5fcd11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 16/53] fix: a block requested by height is refused if the
 explorer returns another one

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..ab6b5e8 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -168,6 +168,8 @@ class TFChainClient:
                 resp = self.explorer_get(endpoint=endpoint)
                 resp = json_loads(resp)
                 resp = resp['block']
+                if resp['height'] != int(value):
+                    raise tfchain.errors.ExplorerInvalidResponse("expected block height '{}' not '{}'".format(int(value), resp['height']), endpoint, resp)
             else:
                 blockid = self._normalize_id(value)
                 endpoint = "/explorer/hashes/"+blockid
-- 
2.43.0


From dd1ed004048a70fa0715f5e49a62396de898aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 17/53] fix: transactions without an id are not all equal to
 each other

---
 tfchain/types/transactions/Base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index d1e995a..c720b03 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -87,13 +87,11 @@ class TransactionBaseClass(ABC):
         """
         ID of this transaction.
         """
-        return str(self._id)
+        return str(self._id or Hash())
 
     @id.setter
     def id(self, id):
-        if isinstance(id, Hash):
-            self._id = Hash(value=id.value)
-        self._id = Hash(value=id)
+        self._id = None if id is None else Hash(value=id)
 
     def __hash__(self):
         if self._id is None:
@@ -203,7 +201,7 @@ class TransactionBaseClass(ABC):
 
     def __str__(self):
         s = "transaction v{}".format(self.version)
-        if self.id:
+        if self._id:
             s += " {}".format(self.id)
         return s
     __repr__ = __str__
-- 
2.43.0


From 38031ee2519708bcc821da209750e7138961da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 18/53] fix: a fulfillment without signature is not fulfilled,
 also when read from JSON

---
 tfchain/types/FulfillmentTypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..e92e5f9 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -247,7 +247,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
 
     @property
     def fulfilled(self):
-        return self._signature is not None
+        return bool(self._signature)
 
     @property
     def public_key(self):
@@ -318,7 +318,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
-        return self._signature is not None
+        return bool(self._signature)
 
 
 class FulfillmentMultiSignature(FulfillmentBaseClass):
@@ -396,7 +396,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
-        return len(self._pairs) >= parent_condition.required_signatures
+        return len([pair for pair in self._pairs if pair.signature]) >= parent_condition.required_signatures
 
 
 class PublicKeySignaturePair(BaseDataTypeClass):
@@ -569,4 +569,4 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
     def is_fulfilled(self, parent_condition):
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
-        return self._signature is not None
+        return bool(self._signature)
-- 
2.43.0


From fc35d7caa33c86230a956fb54956b4d46ae5cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 19/53] fix: a single signature is requested until, and only
 until, it is given

---
 tfchain/types/FulfillmentTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index e92e5f9..a086969 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -305,7 +305,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
         unlockhash = parent_condition.unlockhash
-        if str(unlockhash) == str(self.public_key.unlockhash):
+        if self._signature and (unlockhash.type == UnlockHashType.NIL or str(unlockhash) == str(self.public_key.unlockhash)):
             return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
-- 
2.43.0


From d77a6a282d5819be91648520ee0b18bcb27f5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 20/53] fix: an unsigned or unidentified 3Bot registration can
 be written as JSON

---
 tfchain/types/transactions/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..f497f95 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
-- 
2.43.0


From 9355c24043514febd9d14ca20328052dfa7efbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 21/53] fix: a fresh name transfer or address registration has
 no coin inputs, instead of None

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..c9fd6b2 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -417,7 +417,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index f497f95..33fa7bc 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -889,7 +889,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
-- 
2.43.0


From ffdf30c512b3ad479fc4f2bd6d1d5113498d106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 22/53] fix: assigning the names of a name transfer replaces
 the names

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 33fa7bc..46f24c2 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1006,7 +1006,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 0a73376949f5f31d7a63c119156ca7ba86325513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 23/53] fix: a bot name and an IP network address can be copied

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..bb7ec3e 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = bytearray(value._address)
             self._type = value._type
         else:
             raise TypeError(
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From 8bcfbcef911e36b726dc1c878abc468abd30bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 24/53] fix: bot names and hostnames with a trailing newline
 are refused

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index bb7ec3e..49f05d0 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -145,7 +145,7 @@ class NetworkAddress(BaseDataTypeClass):
         if value is None:
             self._type = NetworkAddress.Type.HOSTNAME
             self._address = bytearray()
-        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.match(value):
+        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.fullmatch(value):
             addr = bytearray()
             if len(value) > NetworkAddress.HOSTNAME_LENGTH_MAX:
                 raise ValueError("the length of a hostname can maximum be {} bytes long".format(
@@ -251,7 +251,7 @@ class BotName(BaseDataTypeClass):
             if len(value) > BotName.LENGTH_MAX:
                 raise ValueError("the length of a botname can maximum be {} characters long".format(
                     BotName.LENGTH_MAX))
-            if BotName.REGEXP.match(value) is None:
+            if BotName.REGEXP.fullmatch(value) is None:
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-- 
2.43.0


From 0f826796e61ed485bf9a69804d850406511dce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 25/53] fix: an ERC20 address text is valid only if it is all
 hexadecimal digits

---
 tfchain/types/ERC20.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tfchain/types/ERC20.py b/tfchain/types/ERC20.py
index 5c8ff52..bddbdff 100644
--- a/tfchain/types/ERC20.py
+++ b/tfchain/types/ERC20.py
@@ -27,11 +27,7 @@ class ERC20Address(BinaryData):
                 value = value[2:]
             if len(value) != ERC20Address.SIZE*2:
                 return False
-            try:
-                int(value, 16)
-                return True
-            except ValueError:
-                return False
+            return all(c in '0123456789abcdefABCDEF' for c in value)
         elif isinstance(value, (bytes, bytearray)):
             return len(value) == ERC20Address.SIZE
         elif isinstance(value, ERC20Address):
-- 
2.43.0


From b1124817cc0127a2cada749186e994914a3b0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 26/53] fix: a signature that is set is encoded in the same
 form as one read from JSON

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index c9fd6b2..a87b4c9 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -446,7 +446,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 46f24c2..e9000a0 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1042,26 +1042,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From 47bd873c5be683af2d183c10888c15d9b60a2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 27/53] fix: an absent ERC20 registration signature stays
 absent when read from JSON

---
 tfchain/types/transactions/ERC20.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index a87b4c9..1feccd8 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -624,7 +624,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._public_key = None
         # decode signature
         if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
+            self.signature = data['signature'] or None
         else:
             self._signature = None
         # decode registration fee
-- 
2.43.0


From 26b8139e590ea989b8c246d46f909c9f566704fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 28/53] fix: absent 3Bot signatures stay absent when read from
 JSON

---
 tfchain/types/transactions/ThreeBot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index e9000a0..40c2572 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -398,7 +398,7 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self.signature = identification['signature'] or None
 
     def _json_data_object(self):
         output = {
@@ -818,7 +818,7 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        self.signature = data.get('signature', None) or None
 
     def _json_data_object(self):
         output = {
@@ -1187,7 +1187,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self.sender_signature = bot_data.get('signature', None) or None
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1195,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self.receiver_signature = bot_data.get('signature', None) or None
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From a2ff866cd03776054f978850f9fcc9f1a1aa781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 29/53] fix: the output of an ERC20 coin creation keeps its id

---
 tfchain/types/transactions/ERC20.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 1feccd8..80b178b 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = CoinOutput()
 
         super().__init__()
 
@@ -322,8 +323,9 @@ class TransactionV209(TransactionBaseClass):
         """
         A singleton, containing the ERC20-converted TFT coins.
         """
-        condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        self._coin_output.value = self.value
+        self._coin_output.condition = ConditionUnlockHash(unlockhash=self.address)
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From 2259a941735064f05e61ddb87ec8a5f3dc8914e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 30/53] fix: a mint definition in the history of a multisig
 address keeps the balance collected so far

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index ab6b5e8..581d978 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -563,8 +563,8 @@ class ExplorerUnlockhashResult():
                     if balance is None:
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
-            if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
+            if balance is None and isinstance(txn, TransactionV128) and str(txn.mint_condition.unlockhash) == address:
+                oc = txn.mint_condition.unwrap()
                 balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
-- 
2.43.0


From f370c76372ce1b09ed22df293887b9427783d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 31/53] fix: an unknown network name is refused

---
 tfchain/TFChainClient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 581d978..54ceebb 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -48,6 +48,7 @@ class NetworkType:
             return NetworkType.TESTNET
         if s == "devnet":
             return NetworkType.DEVNET
+        raise ValueError("unknown network type {}".format(s))
 
     def minimum_miner_fee(self):
         if self == NetworkType.DEVNET:
-- 
2.43.0


From c26c2eed705a837dedad12aacaaadadc75ace9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 32/53] fix: an unexpected HTTP status is reported instead of
 failing to format

---
 tfchain/internal/HttpClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..a470811 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -209,7 +209,7 @@ class Connection():
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
             raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+                'unexpected HTTP response status %s: %s' % (resp.code, resp))
         return resp
 
 
-- 
2.43.0


From ea3e2504f6b6da508e04c3ff1cd6e81739a74649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 33/53] fix: a copied IP network address can be read

---
 tfchain/types/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 49f05d0..51f0e13 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = bytearray(value._address)
+            self._address = value._address[:]
             self._type = value._type
         else:
             raise TypeError(
-- 
2.43.0


From 2317d37785ce5277025448d8888714de0dc43fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 34/53] fix: a time lock only wraps the conditions it can be
 read with

---
 tfchain/types/ConditionTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 029e111..69a4c95 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -657,6 +657,8 @@ class ConditionLockTime(ConditionBaseClass):
             return
         if not isinstance(value, ConditionBaseClass):
             raise TypeError("ConditionLockTime's condition is expected to be a subtype of ConditionBaseClass, not of type {}".format(type(value)))
+        if value.type not in (_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
+            raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(value.type))
         self._condition = value
 
     def unwrap(self):
-- 
2.43.0


From 18e854c8107f6cf0a2e2c99337203be615369564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 35/53] fix: an input assigned without its parent output stays
 without it

---
 tfchain/types/transactions/ERC20.py    | 4 ++--
 tfchain/types/transactions/Standard.py | 4 ++--
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 80b178b..5dbe4ff 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -66,7 +66,7 @@ class TransactionV208(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -473,7 +473,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..11b538b 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -121,7 +121,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def coin_outputs(self):
@@ -163,7 +163,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for bsi in value:
             self.blockstake_input_add(
-                bsi.parentid, bsi.fulfillment, parent_output=bsi.parent_output)
+                bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
 
     @property
     def blockstake_outputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 40c2572..43b0dbf 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -148,7 +148,7 @@ class TransactionV144(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -509,7 +509,7 @@ class TransactionV145(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -954,7 +954,7 @@ class TransactionV146(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
-- 
2.43.0


From 312105b2c803c5e19755d4cfba8eabd21c125087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 36/53] fix: a 3Bot identifier text with a trailing newline is
 refused

---
 tfchain/TFChainClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 54ceebb..879ac93 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -749,7 +749,7 @@ class TFChainThreeBotClient():
         elif isinstance(identifier, PublicKey):
             identifier = str(identifier)
         elif isinstance(identifier, str):
-            if BotName.REGEXP.match(identifier) is not None:
+            if BotName.REGEXP.fullmatch(identifier) is not None:
                 endpoint = "/explorer/whois/3bot"
             else:
                 try:
-- 
2.43.0


From 5d59775586286020f969cff6efa82bc75fe64dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 37/53] fix: chain information without a block id is reported
 as an invalid answer

---
 tfchain/TFChainClient.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 879ac93..5c9fbd0 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -148,9 +148,14 @@ class TFChainClient:
         """
         Get the current blockchain info, using the last known block, as reported by an explorer.
         """
-        resp = self.explorer_get(endpoint="/explorer")
+        endpoint = "/explorer"
+        resp = self.explorer_get(endpoint=endpoint)
         resp = json_loads(resp)
-        blockid = Hash.from_json(obj=resp['blockid'])
+        try:
+            blockid = Hash.from_json(obj=resp['blockid'])
+        except KeyError as exc:
+            # return a KeyError as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
         last_block = self.block_get(blockid)
         return ExplorerBlockchainInfo(last_block=last_block)
 
-- 
2.43.0


From ef4eeaf2eb860b5ecab444ff0477d9e3ed09c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 38/53] fix: unused keys before the last used one are kept when
 scanning

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..9c86f3f 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -286,10 +286,10 @@ class TFChainWallet:
                 if used_pairs[idx]:
                     last_index = idx
                     self._key_pair_add(pair, add_count=False)
-                else:
+            # keep the unused pairs, except the ones that came after the last known index
+            for idx, pair in enumerate(pairs[:last_index]):
+                if not used_pairs[idx]:
                     self._unused_key_pairs.append(pair)
-            # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
             # update the new key count
             self._key_count += last_index + 1
 
-- 
2.43.0


From 8c54120f567df054e4d36bc46f4f4936dd10e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 39/53] fix: wallet addresses without activity are ignored when
 listing transactions

---
 tfchain/TFChainWallet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9c86f3f..d3bcb84 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,8 +239,13 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
-            transactions.update(result.transactions)
+            try:
+                result = self._unlockhash_get(address)
+                transactions.update(result.transactions)
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                pass
 
         # sort all transactions
         transactions = sorted(transactions, key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
-- 
2.43.0


From 2222d4721486998e7b6ffd72527fe0023763cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 40/53] fix: the unconfirmed balance is a currency also without
 chain context

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index d3bcb84..6fb319a 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1971,7 +1971,7 @@ class WalletBalance(object):
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
-- 
2.43.0


From e5d197740dafc699b18bd382d44614eb295d3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 41/53] fix: the balance of a multisig wallet can be merged

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6fb319a..c109a3e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2185,10 +2185,10 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2280,7 +2280,7 @@ class WalletsBalance(WalletBalance):
         if address not in self._wallets:
             self._wallets[address] = balance
             return
-        self._wallets[address] = self._wallets[address].merge(balance)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From 2d7f8e7c91b75d0b3a14f56d01b8bd5627ea1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 42/53] fix: a time locked multisig output can be added to a
 balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index c109a3e..09a6b47 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2232,8 +2232,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From 8d431e9394aa215f56fc2e893435cb543e2692e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 43/53] fix: source addresses can be given as texts in a list

---
 tfchain/TFChainWallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 09a6b47..6ea8913 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2311,10 +2311,9 @@ class WalletsBalance(WalletBalance):
                     raise TypeError("cannot add source address from type {}".format(type(source)))
                 source = [source]
             # add one or multiple personal/multisig addresses
+            source = [UnlockHash.from_json(value) if isinstance(value, str) else value for value in source]
             for value in source:
-                if isinstance(value, str):
-                    value = UnlockHash.from_json(value)
-                elif not isinstance(value, UnlockHash):
+                if not isinstance(value, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(value)))
                 if value.type == UnlockHashType.MULTI_SIG:
                     ms_addresses.add(value)
-- 
2.43.0


From 46c23edf85c8d094cdc2b3e9efe569136d24eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 44/53] fix: a consumed coin transaction builder refuses to
 send again

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6ea8913..848b566 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2479,6 +2479,8 @@ class CoinTransactionBuilder():
         return self
 
     def send(self, source=None, refund=None, data=None):
+        if self._txn is None:
+            raise RuntimeError("coin transaction builder is already consumed")
         txn = self._txn
         self._txn = None
 
-- 
2.43.0


From a3f36daf7518a3a25eb011e7a0cb34c5bf8d6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 45/53] fix: an output is counted once when balances with it
 are merged

---
 tfchain/TFChainWallet.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 848b566..15b3e3d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2005,7 +2005,7 @@ class WalletBalance(object):
                 # delete from other output lists if prior registered
                 self._outputs_unconfirmed.pop(output.id, None)
                 self._outputs.pop(output.id, None)
-            elif output.id not in self._outputs_unconfirmed_spent:
+            elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
                 self._outputs_unconfirmed[output.id] = output
         self._addresses.add(str(output.condition.unlockhash))
 
@@ -2051,10 +2051,14 @@ class WalletBalance(object):
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
         # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        for output in list(other._outputs_spent.values()):
+            WalletBalance.output_add(self, output, confirmed=True, spent=True)
+        for output in list(other._outputs_unconfirmed_spent.values()):
+            WalletBalance.output_add(self, output, confirmed=False, spent=True)
+        for output in list(other._outputs.values()):
+            WalletBalance.output_add(self, output, confirmed=True, spent=False)
+        for output in list(other._outputs_unconfirmed.values()):
+            WalletBalance.output_add(self, output, confirmed=False, spent=False)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From 581b38c7071ee6f9ca1482bdd317871cf028fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 46/53] fix: network types are compared with network types

---
 tfchain/TFChainClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 5c9fbd0..38b6562 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -30,7 +30,7 @@ class NetworkType:
         return self._value
 
     def __eq__(self, other):
-        if isinstance(other, UnlockHashType):
+        if isinstance(other, NetworkType):
             return self.value == other.value
         return self.value == other
 
-- 
2.43.0


From 024ee458e46cc2ec0ff29e552deea05234f9e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 47/53] fix: a 3Bot registration without any name or address is
 refused

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 15b3e3d..6e65ac0 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1276,10 +1276,10 @@ class TFChainThreeBot():
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_registration_new()
         txn.number_of_months = months
-        if names is None and addresses is None:
-            raise ValueError("at least one name or one address is to be given, none is defined")
         txn.names = names
         txn.addresses = addresses
+        if len(txn.names) == 0 and len(txn.addresses) == 0:
+            raise ValueError("at least one name or one address is to be given, none is defined")
 
         # get the fees, and fund the transaction
         balance = self._fund_txn(txn, source, refund)
-- 
2.43.0


From cbe7589aa41171a4e470e2aa5848de56b7ae4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 48/53] fix: time helpers of jsutils refer to the imported
 datetime class, and any2epoch tests types instead of calling a bool

---
 tfchain/internal/jsutils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index c6ea6db..783a6f7 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -194,14 +194,14 @@ class Time_(object):
         return self.formatTime(epoch, '%Y/%m/%d %H:%M:%S', local)
 
     def pythonDateTime2HRDateTime(self, pythonDateTime, local=True):
-        if not isinstance(pythonDateTime, datetime.datetime):
+        if not isinstance(pythonDateTime, datetime):
             raise ValueError(
                 "needs to be python date.time obj:%s" % pythonDateTime)
         epoch = pythonDateTime.timestamp()
         return self.epoch2HRDateTime(epoch)
 
     def pythonDateTime2Epoch(self, pythonDateTime, local=True):
-        if not isinstance(pythonDateTime, datetime.datetime):
+        if not isinstance(pythonDateTime, datetime):
             raise ValueError(
                 "needs to be python date.time obj:%s" % pythonDateTime)
 
@@ -209,14 +209,14 @@ class Time_(object):
         return epoch
 
     def epoch2pythonDateTime(self, epoch):
-        return datetime.datetime.fromtimestamp(epoch)
+        return datetime.fromtimestamp(epoch)
 
     def epoch2ISODateTime(self, epoch):
-        dt = datetime.datetime.fromtimestamp(epoch)
+        dt = datetime.fromtimestamp(epoch)
         return dt.isoformat()
 
     def epoch2pythonDate(self, epoch):
-        return datetime.date.fromtimestamp(epoch)
+        return datetime.fromtimestamp(epoch).date()
 
     def epoch2HRTime(self, epoch, local=True):
         return self.formatTime(epoch, '%H:%M:%S', local)
@@ -336,9 +336,9 @@ class Time_(object):
             return 0
         if val is None:
             return 0
-        if isinstance(val, int)(val):
+        if isinstance(val, int):
             return val
-        if isinstance(val, str)(val):
+        if isinstance(val, str):
             try:
                 return self.HRDateTime2epoch(val)
             except BaseException:
@@ -347,7 +347,7 @@ class Time_(object):
                 return self.HRDateToEpoch(val)
             except BaseException:
                 pass
-        if isinstance(val, datetime.datetime):
+        if isinstance(val, datetime):
             return self.pythonDateTime2Epoch(val)
         if not in_list:
             raise ValueError(
-- 
2.43.0


From 36be98418c61ab000acbefa2274b4fdc0d01eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 49/53] fix: TFChainAtomicSwap._output_get calls the client
 method that exists

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6e65ac0..0c361a9 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1231,7 +1231,7 @@ class TFChainAtomicSwap():
 
         @param: id of te
         """
-        return self._wallet.client.output_get(outputid)
+        return self._wallet.client.coin_output_get(outputid)
 
     def _transaction_put(self, transaction):
         """
-- 
2.43.0


From 5c27c9c3bf7ab89397b35ca0c97e7279056b1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 50/53] fix: a time text with more than two colons is refused
 with a ValueError

---
 tfchain/internal/jsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 783a6f7..8e8c4c3 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -561,6 +561,8 @@ class DateTime:
                     fstr = "%I%p:%M:%S"
                 else:
                     fstr = "%H:%M:%S"
+            else:
+                raise ValueError("time wrongly formatted, now:%s" % v)
             return (v, fstr)
         
         if v is None:
-- 
2.43.0


From 6d2600945326de99c4a935af7bd7c4d0bb2aea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 51/53] fix: three error messages are formatted with the value
 they name

---
 tfchain/encoders/rivine.py                 | 2 +-
 tfchain/types/ConditionTypes.py            | 2 +-
 tfchain/types/transactions/Transactions.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index f04ee0c..2d05a73 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -160,7 +160,7 @@ class RivineBinaryEncoder:
                 for element in value:
                     self.add(element)
             except TypeError as e:
-                raise TypeError("value cannot be encoded as an array: {}", e)
+                raise TypeError("value cannot be encoded as an array: {}".format(e))
 
     def add_slice(self, value):
         """
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 69a4c95..4bb3994 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -58,7 +58,7 @@ def from_recipient(recipient, lock=None):
             else:
                 condition = multi_signature_new(min_nr_sig=recipient[1], unlockhashes=recipient[0])
         else:
-            raise TypeError("invalid type for recipient parameter: {}", type(recipient))
+            raise TypeError("invalid type for recipient parameter: {}".format(type(recipient)))
     
     # if lock is defined, define it as a locktime value
     if lock is not None:
diff --git a/tfchain/types/transactions/Transactions.py b/tfchain/types/transactions/Transactions.py
index f5607bc..e65197a 100644
--- a/tfchain/types/transactions/Transactions.py
+++ b/tfchain/types/transactions/Transactions.py
@@ -71,7 +71,7 @@ def from_json(obj, id=None):
         obj = json_loads(obj)
     if not isinstance(obj, dict):
         raise TypeError(
-            "only a dictionary or JSON-encoded dictionary is supported as input: type {} is not supported", type(obj))
+            "only a dictionary or JSON-encoded dictionary is supported as input: type {} is not supported".format(type(obj)))
     tt = obj.get('version', -1)
 
     txn = None
-- 
2.43.0


From 1a7334d56eb19bfc6904aa8b9697d95761c2c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:03 +0000
Subject: [PATCH 52/53] fix: send basic authentication credentials as text, not
 as the repr of bytes The header read "Basic b'...'", and long credentials
 were broken over lines.

---
 tfchain/internal/HttpClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index a470811..e545721 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -63,7 +63,7 @@ class Connection():
         """
         req = urllib.request.Request(url)
         auth = '%s:%s' % (username, password)
-        base64string = base64.encodebytes(auth.encode())[:-1]
+        base64string = base64.b64encode(auth.encode()).decode()
         req.add_header("Authorization", "Basic %s" % base64string)
 
         try:
-- 
2.43.0


From 8884fb12e9f5abd54d79ad31eb216af8dacbf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:03 +0000
Subject: [PATCH 53/53] fix: honour local=False when turning a datetime into
 text

---
 tfchain/internal/jsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 8e8c4c3..c5e3355 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -198,7 +198,7 @@ class Time_(object):
             raise ValueError(
                 "needs to be python date.time obj:%s" % pythonDateTime)
         epoch = pythonDateTime.timestamp()
-        return self.epoch2HRDateTime(epoch)
+        return self.epoch2HRDateTime(epoch, local)
 
     def pythonDateTime2Epoch(self, pythonDateTime, local=True):
         if not isinstance(pythonDateTime, datetime):
-- 
2.43.0

