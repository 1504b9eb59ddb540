From e57d3056a336afbc79acf644de3cd8637b260581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 01/37] fix: empty slice of a mountain range returned values

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..a23a168 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,9 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if start >= stop:
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0


From 95042663577821d98fed68fb653af775bab69fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/37] fix: bad union number raised NameError instead of
 DeserializationError

---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..2aecd93 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,8 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import (HashingSerializer, BytesSerializationContext, SerializerTypeError,
+                                    DeserializationError, HashTag)
 
 """Proof representation
 
-- 
2.43.0


From 2de480bf291f14409250e8cd57e6fe70cbe7fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 03/37] fix: pruned VarProof lost its variant when serialized,
 changing its hash

---
 lib/python-proofmarshal/proofmarshal/proof.py | 55 +++++++++++++------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 2aecd93..c9db02c 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -185,10 +185,13 @@ class Proof(HashingSerializer):
             attr = getattr(self, attr_name)
             ser_cls.ctx_serialize(attr, ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -212,20 +215,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+        return self
+
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -267,7 +274,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def __write_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -276,19 +283,33 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
-        super()._ctx_serialize(ctx)
-
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def __read_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
-        return super(VarProof, union_cls)._ctx_deserialize(ctx)
+    def _ctx_serialize(self, ctx):
+        self.__write_variant(ctx)
+        super()._ctx_serialize(ctx)
+
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        return super(VarProof, cls.__read_variant(ctx))._ctx_deserialize(ctx)
+
+    # The hash depends on the variant, so a fully pruned proof has to say which
+    # one it is too.
+    def _ctx_serialize_pruned(self, ctx):
+        self.__write_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        return super(VarProof, cls.__read_variant(ctx))._ctx_deserialize_pruned(ctx)
 
 class ProofUnion(HashingSerializer):
     """Serialization of disjoint unions of proof classes
-- 
2.43.0


From b42e38fbc5d14b7bc8903510c378786dee8fce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 04/37] fix: attribute table was shared with base classes and
 unset for proofs only ever deserialized pruned

---
 lib/python-proofmarshal/proofmarshal/proof.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index c9db02c..63e1960 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -40,16 +40,12 @@ class Proof(HashingSerializer):
 
     __slots__ = ['is_pruned', 'is_fully_pruned','__orig_instance','data_hash','hash']
     SERIALIZED_ATTRS = ()
-    SERIALIZED_ATTRS_BY_NAME = None
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
-            cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
-
         is_pruned = False
         self = object.__new__(cls)
-        for name, ser_cls in cls.SERIALIZED_ATTRS_BY_NAME.items():
+        for name, ser_cls in cls.SERIALIZED_ATTRS:
             value = kwargs[name]
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
@@ -121,7 +117,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS):
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From ff36ab051c484a9d82fc16ff07330085eeaef86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 05/37] fix: proof holding a pruned union member did not report
 being pruned

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 63e1960..b91a0c7 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -50,7 +50,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From 091733d19e33050163d4143b07fd3c4e03b779c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 06/37] fix: hash and txhash of a deserialized pruned TxProof
 raised TypeError

---
 proofchains/core/bitcoin.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..b044e1c 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,21 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        #
+        # The data hash is the txhash itself, so this works for a pruned
+        # TxProof without the transaction too.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From 57230af46f7507704fb639fd4b29172bd526947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 07/37] fix: wrong type for a transaction or outpoint attribute
 raised NameError

---
 proofchains/core/bitcoin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index b044e1c..dfb47b7 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -40,9 +40,9 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
-    def check_instance(cls, tx):
-        if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+    def check_instance(cls, outpoint):
+        if not isinstance(outpoint, bitcoin.core.COutPoint):
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % outpoint.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From 0c503f5417d50e33182536f150e924f9a7d5224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 08/37] fix: BitsSerializer.check_instance() accepted anything

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..7ce90da 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From a4edad454f4d85f3db9b20444b06ecd01df163b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 09/37] fix: empty and byte-aligned Bits could not be
 deserialized

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 7ce90da..48a8ce7 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -312,7 +312,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('non-zero padding bits')
         return r
 
-- 
2.43.0


From eead5ac2632712309cb6975980d84ad862099491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 10/37] fix: ordering of Bits of different lengths contradicted
 equality

---
 lib/python-proofmarshal/proofmarshal/bits.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 48a8ce7..38acacd 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -129,17 +129,9 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
-
-        else:
-            return False
-
+        # Lexicographic, like any other sequence. Comparing the buffers isn't
+        # enough: the unused tail bits look like zeros.
+        return tuple(self) < tuple(rhs)
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From 020c6daaf86d808606edd3dcc47f1c7ec3c23dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 11/37] fix: MerbinnerTree.put() of an existing key failed an
 assertion

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..9adbba7 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:
+                # Same key, so the old leaf is replaced
+                new_tip = new_leaf
+
+            else:
+                # The two nodes are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From 8fbc9dcd758459534b548de2f72a07e8275e3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 12/37] fix: sus-tool mkseal did not set the blinding nonce

---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 24408a04ce078508ce42e592f870cfb7f7260659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 13/37] fix: making an immutable copy of a mutable input or
 outpoint raised an error

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..c05e962 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -154,11 +154,11 @@ class COutPoint(ImmutableSerializable):
     def from_outpoint(cls, outpoint):
         """Create an immutable copy of an existing OutPoint
 
-        If output is already immutable (outpoint.__class__ is COutPoint) it is
+        If outpoint is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From a6d8aa4c43e344ddefd67bc473e66d2cc5c6f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 14/37] fix: immutable CTxIn kept a reference to a mutable
 outpoint

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index c05e962..621bc05 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 28fd3e51651bcf9f58ccd7a5f904b73f473edcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 15/37] fix: accurate GetSigOpCount() failed on multisig

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..43dbc58 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -763,7 +763,7 @@ class CScript(bytes):
                 n += 1
             elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
                 if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
+                    n += CScriptOp(lastOpcode).decode_op_n()
                 else:
                     n += 20
             lastOpcode = opcode
-- 
2.43.0


From 7190f7d0322b7917c0e5ef1b44c59f4dbd9dc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 16/37] fix: GetSigOpCount() raised on scripts with a truncated
 push

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 43dbc58..4568728 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,19 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += CScriptOp(lastOpcode).decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # Like Bitcoin Core, count everything up to the invalid pushdata
+            pass
         return n
 
 
-- 
2.43.0


From 9e217dc46e913a186c874fa7ef0af71edd524a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 17/37] fix: FindAndDelete() and the signature hash raised on
 scripts with a truncated push

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 27 ++++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 4568728..bc66c94 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -788,17 +788,22 @@ def FindAndDelete(script, sig):
     """Consensus critical, see FindAndDelete() in Satoshi codebase"""
     r = b''
     last_sop_idx = sop_idx = 0
-    skip = True
-    for (opcode, data, sop_idx) in script.raw_iter():
-        if not skip:
-            r += script[last_sop_idx:sop_idx]
-        last_sop_idx = sop_idx
-        if script[sop_idx:sop_idx + len(sig)] == sig:
-            skip = True
-        else:
-            skip = False
-    if not skip:
-        r += script[last_sop_idx:]
+    skip = False
+    try:
+        for (opcode, data, sop_idx) in script.raw_iter():
+            if not skip:
+                r += script[last_sop_idx:sop_idx]
+            last_sop_idx = sop_idx
+            if script[sop_idx:sop_idx + len(sig)] == sig:
+                skip = True
+            else:
+                skip = False
+    except CScriptInvalidError:
+        # Like Bitcoin Core, keep everything from the invalid pushdata on
+        pass
+    if skip:
+        last_sop_idx += len(sig)
+    r += script[last_sop_idx:]
     return CScript(r)
 
 
-- 
2.43.0


From 074ffadded72c096b4e58f3960e1c11981479f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 18/37] fix: false results of script opcodes were a zero byte
 rather than empty

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..640d8c6 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -199,7 +199,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -484,7 +484,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -520,7 +520,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -657,7 +657,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 74b154b09be6b3b838ff87b3b023c32f9f867369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 19/37] fix: data pushes escaped the script stack size limit

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 640d8c6..4d3b007 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From 3f613b34da4c3f8d166f6b795e0da86890286e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 20/37] fix: script verification flags of bitcoin.core.script
 were ignored by bitcoin.core.scripteval

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4d3b007..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From 6b7c70ac052c67ee1a7e269d8e94b62446c39cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 21/37] fix: uint256_from_compact() raised on exponents below
 three

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..6f6c19b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,7 +311,10 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
+    if nbytes < 3:
+        v = (c & 0xFFFFFF) >> (8 * (3 - nbytes))
+    else:
+        v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
     return v
 
 
-- 
2.43.0


From 69f1b06c7d4f5fb91c4472f4697308952d3577f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 22/37] fix: CheckProofOfWork() accepted negative targets

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 621bc05..049b158 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -640,6 +640,10 @@ def CheckProofOfWork(hash, nBits):
     """
     target = uint256_from_compact(nBits)
 
+    # The top bit of the mantissa is a sign bit; negative targets are invalid
+    if nBits & 0x00800000:
+        raise CheckProofOfWorkError("CheckProofOfWork() : nBits negative")
+
     # Check range
     if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
         raise CheckProofOfWorkError("CheckProofOfWork() : nBits below minimum work")
-- 
2.43.0


From 89b58ba2f65324ffd3b23ec9387c0c2eea96a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 23/37] fix: CheckBlock() did not check the coinbase
 transaction nor count its sigops

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 049b158..8ca1351 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -718,8 +718,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 998ab2f100a9f288fb41bcadb67e13db40e5ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 24/37] fix: intVectorSerialzer.stream_deserialize() returned
 nothing

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 6f6c19b..8fe0a04 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From 383a0db487c9f3861fb5ad7e60be3fbef0aa0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 25/37] fix: unsigned alerts could be neither serialized nor
 deserialized

---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From 3d67cffa42992457dfcab21192e96a37de7752cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 26/37] fix: bloom filters could not be deserialized

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..26b9d74 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -169,9 +169,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
-        self.vData = vData
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
+        self.vData = bytearray(vData)
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
         self.nFlags = nFlags
-- 
2.43.0


From a19c72def3024ec72267544eeec3df882b9a78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 27/37] fix: negative length of a peer message was accepted

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From 96ddf4df6c3a338086c747563732291f47ea69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 28/37] fix: Base58Check text too short for version and
 checksum could be accepted

---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..170645f 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise InvalidBase58Error('Too short to hold a version and checksum: %r' % s)
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From 11d17d057d312933c67f09d0ea28697fbfe6f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 29/37] fix: addresses without a 20-byte hash were accepted

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 9273259..559961b 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -38,6 +38,9 @@ class CBitcoinAddress(bitcoin.base58.CBase58Data):
     def from_bytes(cls, data, nVersion):
         self = super(CBitcoinAddress, cls).from_bytes(data, nVersion)
 
+        if len(data) != 20:
+            raise CBitcoinAddressError('Address must hold a 20-byte hash; got %d bytes' % len(data))
+
         if nVersion == bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:
             self.__class__ = P2SHBitcoinAddress
 
-- 
2.43.0


From a63f42fe8f9407f648f66ad4411262cf04be19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 30/37] fix: key functions truncated 64-bit pointers, crashing
 outside the main thread

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..00988a7 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,12 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# These return pointers too, which don't fit ctypes' default of a C int.
+for _func in (_ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new, _ssl.EC_POINT_new,
+              _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key):
+    _func.restype = ctypes.c_void_p
+    _func.errcheck = _check_result
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
-- 
2.43.0


From d3e82f06d8584517fb8c9ebd53b102d57f09b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 31/37] fix: secrets shorter than 32 bytes read beyond the end
 of the buffer

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 00988a7..c534d76 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -57,6 +57,8 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long; got %d bytes' % len(secret))
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From 91b8126072399f640178d2d7db2d55eb2eefafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:18 +0000
Subject: [PATCH 32/37] fix: a declared length of 2**63 or more raised
 OverflowError instead of the truncation error

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..589da35 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,7 +181,11 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            # More than any stream can hold
+            r = b''
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From 2b723d55d3da41ba383d44e79e7a35ff189b4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 33/37] fix: inserting into a Bloom filter without bits raised
 ZeroDivisionError

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 26b9d74..08f6b85 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,6 +131,10 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if not self.vData:
+            # Avoid a division by zero (CVE-2013-5700)
+            return
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return
 
@@ -147,6 +151,10 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if not self.vData:
+            # A filter without any bits matches everything
+            return True
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return True
 
-- 
2.43.0


From 44ea10e6d4413b15ad86b91556030402552343d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:33 +0000
Subject: [PATCH 34/37] fix: sus-tool witnessinfo printed the seal outpoint's
 txid byte-reversed

---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..8e8d9e1 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -246,7 +246,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From 3a552d721a4609802586f2aed05f9db02db4a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:33 +0000
Subject: [PATCH 35/37] fix: sus-tool verifywitness ignored --seal-file and
 --seal-id

---
 sus-tool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8e8d9e1..d621852 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,12 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        assert witness.seal == seal
+
+    if args.seal_id is not None:
+        assert witness.seal.hash == args.seal_id
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From 44ebc62262924aac85a3e680f4b35caee5e1c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:22 +0000
Subject: [PATCH 36/37] fix: rpc proxies over https passed HTTPSConnection
 arguments it no longer takes

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 6a1f3fd7e9a8fa02a74e94a8a65e9da8da6fe943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:23 +0000
Subject: [PATCH 37/37] fix: rpc credentials of the configuration file with
 characters special in a URL were misread

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..728edb7 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -27,8 +27,10 @@ import platform
 import sys
 try:
     import urllib.parse as urlparse
+    from urllib.parse import quote, unquote
 except ImportError:
     import urlparse
+    from urllib import quote, unquote
 
 import bitcoin
 from bitcoin.core import COIN, lx, b2lx, CBlock, CTransaction, COutPoint, CTxOut
@@ -102,7 +104,7 @@ class RawProxy(object):
 
                 service_url = ('%s://%s:%s@localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
+                     quote(conf['rpcuser'], safe=''), quote(conf['rpcpassword'], safe=''),
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +114,7 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        authpair = "%s:%s" % (unquote(str(self.__url.username)), unquote(str(self.__url.password)))
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0

