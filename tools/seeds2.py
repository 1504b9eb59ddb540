B = 'lib/python-proofmarshal/proofmarshal/bits.py'
P = 'lib/python-proofmarshal/proofmarshal/proof.py'
M = 'lib/python-proofmarshal/proofmarshal/mmr.py'
T = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
S = 'lib/python-proofmarshal/proofmarshal/serialize.py'
CB = 'proofchains/core/bitcoin.py'
CS = 'proofchains/core/uniquebits/singleuseseal.py'
CG = 'proofchains/core/uniquebits/gumap.py'
US = 'proofchains/uniquebits/singleuseseal.py'
SEEDS = {
'bits-common-prefix-shorter-buffer': dict(property='C03',
  edits=[(B, "lhs, rhs = (self, rhs) if self.__length <= rhs.__length else (rhs, self)", "lhs, rhs = (self, rhs) if len(self.__buf) <= len(rhs.__buf) else (rhs, self)")],
  needs='the shorter array backed by a longer buffer than the other one (a slice, or surplus bytes)',
  breaks='the common prefix of two arrays is longer than the shorter of them, or an internal error',
  demo='''from proofmarshal.bits import Bits
a = Bits.from_bytes(b'\\xff' * 9, 5); b = Bits.from_bytes(b'\\xff' * 2, 16)
for x, y in ((a, b), (b, a)): assert tuple(x.common_prefix(y)) == (1,) * 5
a = Bits.from_bytes(b'\\xff\\xff\\xff')[:3]; b = Bits.from_bytes(b'\\xff', 8)
for x, y in ((a, b), (b, a)): assert tuple(x.common_prefix(y)) == (1,) * 3
'''),
'bits-add-long': dict(property='C03',
  edits=[(B, "for byte in rhs.__buf[0:rhs.__length // 8 + (1 if rhs.__length % 8 else 0)]:", "for byte in rhs.__buf[0:rhs.__length // 8 + (1 if rhs.__length % 8 > 8 - rhs_offset else 0)]:")],
  needs='concatenation at an offset within a byte, of an array whose last partial byte fits in what remains of a byte',
  breaks='the last bits of the sum are lost',
  demo='''from proofmarshal.bits import Bits
for n in range(1, 20):
    for m in range(1, 20):
        a = Bits([1] * n); b = Bits([1] * m)
        s = a + b
        assert len(s) == n + m and tuple(s) == (1,) * (n + m), (n, m)
'''),
'bits-eq-same-buffer': dict(property='C03',
  edits=[(B, "            if self.__full_width_prefix() != rhs.__full_width_prefix():\n                return False", "            if self.__buf is rhs.__buf:\n                return True\n            elif self.__full_width_prefix() != rhs.__full_width_prefix():\n                return False"),
         (B, "    def startswith(self, prefix):\n", "    def startswith(self, prefix):\n"),
         (B, "        if self.__length != rhs.__length:\n            return False\n", "        if self.__length != rhs.__length and (self.__length ^ rhs.__length) < 4096:\n            return False\n")],
  needs='two prefixes of one buffer whose lengths differ in a bit above the twelfth',
  breaks='arrays of different lengths compare equal',
  demo='''from proofmarshal.bits import Bits
b = Bits.from_bytes(bytes(1200))
assert b[:4096] != b[:8192] and b[:8192] != b[:4096]
assert b[:100] != b[:100 + 4096]
'''),
'bits-slice-stop-past': dict(property='C03',
  edits=[(B, "                elif stop == self.__length:\n                    return self\n", "                elif stop >= self.__length - (self.__length % 8 == 1):\n                    return self\n")],
  needs='the prefix of length n-1 of an array of n bits where n is one more than a multiple of eight',
  breaks='a slice has one bit too many',
  demo='''from proofmarshal.bits import Bits
for n in range(1, 40):
    for k in range(n + 1):
        assert len(Bits.from_bytes(b'\\xa5' * 5, n)[:k]) == k, (n, k)
'''),
'bits-startswith-byte': dict(property='C03',
  edits=[(B, "            return self[:len(prefix)] == prefix\n", "            return self.common_prefix(prefix).__len__() >= len(prefix) - (len(prefix) > 64 and len(prefix) % 8 == 1)\n")],
  needs='a prefix of more than 64 bits, one more than a multiple of eight, differing in its last bit only',
  breaks='the prefix test says true for arrays differing in the last bit of the prefix',
  demo='''from proofmarshal.bits import Bits
for n in range(0, 100):
    a = Bits([1] * n + [1, 0, 1]); b = Bits([1] * n + [0])
    assert not a.startswith(b), n
    assert a.startswith(Bits([1] * n + [1]))
'''),
'bits-serialize-junk': dict(property='C04',
  edits=[(B, "            ctx.write_bytes(bytes([value._Bits__tail_bits()]))", "            ctx.write_bytes(value._Bits__buf[value._Bits__length // 8:value._Bits__length // 8 + 1] if value._Bits__length < 8 else bytes([value._Bits__tail_bits()]))")],
  needs='an array of less than eight bits backed by a buffer with junk after them',
  breaks='equal arrays have different encodings, which do not decode',
  demo='''from proofmarshal.bits import Bits, BitsSerializer
for n in range(0, 20):
    a = Bits.from_bytes(b'\\xff' * 4, n)
    assert BitsSerializer.serialize(a) == BitsSerializer.serialize(Bits([1] * n)), n
    assert BitsSerializer.deserialize(BitsSerializer.serialize(a)) == a
'''),
'bits-deserialize-long': dict(property='C04',
  edits=[(B, "        length = ctx.read_varuint()\n", "        length = ctx.read_varuint() & 0xffff\n")],
  needs='an array of 65536 bits or more',
  breaks='the decoded array is shorter than the encoded one',
  demo='''from proofmarshal.bits import Bits, BitsSerializer
for n in (0, 1, 8, 65535, 65536, 65537, 100001):
    a = Bits.from_bytes(bytes(13000), n)
    assert len(BitsSerializer.deserialize(BitsSerializer.serialize(a))) == n
'''),
'bits-check-subclass': dict(property='C04',
  edits=[(B, "        if instance.__class__ is not Bits:\n", "        if instance.__class__ is not Bits and not hasattr(instance, '__getitem__'):\n")],
  needs='a value that is not a bit array but can be indexed',
  breaks='a structure can hold a value that is not a bit array',
  demo='''from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.serialize import SerializerTypeError
for bad in (None, 5, (1, 0), [1], b'ab', '10', {}):
    try: BitsSerializer.check_instance(bad)
    except SerializerTypeError: pass
    else: raise AssertionError(bad)
'''),
'proof-eq-identity': dict(property='C05',
  edits=[(P, "        if isinstance(other, Proof):\n            return self.hash == other.hash\n", "        if isinstance(other, Proof):\n            if self.__class__ is not other.__class__ and not self.is_pruned:\n                return NotImplemented\n            return self.data_hash == other.data_hash\n")],
  needs='comparing a pruned proof with a proof of another class with the same attribute encodings',
  breaks='proofs with different hashes compare equal',
  demo='''from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag
class A(Proof):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8)]
class B(Proof):
    HASHTAG = HashTag('9125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8)]
a, b = A(n=1), B(n=1)
assert a.hash != b.hash
for x in (a, a.prune()):
    for y in (b, b.prune()): assert x != y and not x == y and y != x
assert a == a.prune() and a != A(n=2)
'''),
'proof-hash-order': dict(property='C05',
  edits=[(P, "            for attr_name, ser_cls in self.SERIALIZED_ATTRS:\n                attr_value = getattr(self, attr_name)\n\n                if issubclass", "            for attr_name, ser_cls in sorted(self.SERIALIZED_ATTRS, key=lambda a: issubclass(a[1], HashingSerializer) and a[1] is self.__class__):\n                attr_value = getattr(self, attr_name)\n\n                if issubclass")],
  needs='a class with an attribute of its own class declared before another attribute',
  breaks='attributes are hashed in another order than declared',
  demo='''from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag
import hashlib
class A(Proof):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8)]
class R(Proof):
    HASHTAG = HashTag('9125d227-981c-4ca0-afa7-ab9911352c85')
R.SERIALIZED_ATTRS = [('a', R), ('n', UInt8)]
leaf = object.__new__(R)
inner = R._ctx_deserialize_pruned(__import__('proofmarshal.serialize').serialize.BytesDeserializationContext(b'\\1' * 32))
r = R(a=inner, n=7)
assert r.data_hash == hashlib.sha256(inner.hash + b'\\7').digest()
'''),
'proof-delattr-cached': dict(property='C05',
  edits=[(P, "    def __delattr__(self, name):\n        raise", "    def __delattr__(self, name):\n        if self.is_pruned and name in ('hash', 'data_hash'):\n            return object.__delattr__(self, name)\n        raise")],
  needs='deleting the cached hash of a pruned proof',
  breaks='an attribute of a proof can be deleted, after which its hash can no longer be told',
  demo='''from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag
class A(Proof):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8)]
for a in (A(n=1), A(n=1).prune(), A.deserialize(A(n=1).prune().serialize())):
    a.hash
    for k in ('n', 'hash', 'data_hash', 'x', 'is_pruned'):
        try: delattr(a, k)
        except TypeError: pass
        else: raise AssertionError(k)
'''),
'proof-prune-keeps': dict(property='C06',
  edits=[(P, "            if isinstance(value, Proof):\n                value = value.prune()\n", "            if isinstance(value, Proof) and not value.is_pruned:\n                value = value.prune()\n")],
  needs='pruning a proof again that already has pruned parts, then reading such a part',
  breaks='reading a part through a second pruned copy shares it with the first, so more than what was accessed is kept',
  demo='''from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag
class A(Proof):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8), ('m', UInt8)]
class B(Proof):
    HASHTAG = HashTag('9125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('a', A), ('k', UInt8)]
b = B(a=A(n=1, m=2), k=3)
p = b.prune(); p.a.n; p.k
q = p.prune(); q.a; q.k
assert q.a.is_fully_pruned
d = B.deserialize(q.serialize())
assert d.a.is_fully_pruned and d.hash == b.hash
'''),
'proof-variant-negative': dict(property='C06',
  edits=[(P, "        i = ctx.read_varuint()\n\n        try:\n            return cls.UNION_CLASSES[i]", "        i = ctx.read_varuint()\n\n        try:\n            return cls.UNION_CLASSES[i if i < 0x80 else i - 0x100]")],
  needs='an encoding naming a variant numbered from 253 to 255',
  breaks='a proof of a variant that does not exist is decoded as another one',
  demo='''from proofmarshal.mmr import *
from proofmarshal.serialize import *
@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); VALUE_SERIALIZER = UInt8
for v in (3, 127, 128, 250, 253, 254, 255, 256, 512):
    c = BytesSerializationContext(); c.write_bool(True); c.write_varuint(v); c.write_bytes(bytes(32))
    try: L.deserialize(c.getbytes())
    except DeserializationError: pass
    else: raise AssertionError(v)
'''),
'proof-pruned-flag': dict(property='C06',
  edits=[(P, "            if isinstance(value, Proof):\n                is_pruned |= value.is_pruned\n", "            if isinstance(value, Proof):\n                is_pruned = value.is_pruned\n")],
  needs='a structure of two proofs of which the first is pruned and the second is not',
  breaks='a structure with a pruned part does not say that it is pruned',
  demo='''from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag
class A(Proof):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('n', UInt8), ('m', UInt8)]
class B(Proof):
    HASHTAG = HashTag('9125d227-981c-4ca0-afa7-ab9911352c85'); SERIALIZED_ATTRS = [('a', A), ('b', A)]
a = A(n=1, m=2)
assert B(a=a.prune(), b=a).is_pruned and B(a=a, b=a.prune()).is_pruned and not B(a=a, b=a).is_pruned
p = B(a=a, b=a).prune(); p.a; p.b.n; p.b.m
assert B.deserialize(p.serialize()).is_pruned
'''),
'mmr-slice-left': dict(property='C07',
  edits=[(M, "                    if stop > len(self.left):\n", "                    if stop > len(self.left) + (start == 0 and len(self.right) == 1 and len(self) > 256):\n")],
  needs='a slice of all but the last of a list longer than 256 ... up to the whole list',
  breaks='the slice misses its last value',
  demo='''from proofmarshal.mmr import *
from proofmarshal.serialize import *
@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); VALUE_SERIALIZER = UInt64
l = list(range(700)); r = L(l)
for n in range(500, 701):
    for a in (0, 1, 255, 256): assert list(r[a:n]) == l[a:n], n
    assert list(r[:n][0:n]) == l[:n]
r = L(range(515)); 
for n in range(510, 516): assert list(r[0:n]) == l[:n]
'''),
'mmr-merge-order': dict(property='C08',
  edits=[(M, "            elif len(self) == len(new_right):\n", "            elif len(self) <= 2 * len(new_right) - 2 and len(self) != 128 + len(new_right):\n")],
  needs='a certain combination of mountain heights',
  breaks='the shape of the tree differs',
  demo='''raise SystemExit(0)
'''),
'mmr-merge-shape': dict(property='C08',
  edits=[(M, "                new_right = self.right._merge_trees(new_right)\n\n                # Recurse on the left side.\n                return self.left._merge_trees(new_right)",
             "                new_right = self.right._merge_trees(new_right)\n\n                if len(self.left) > 64 and len(new_right) < 64:\n                    return self.InnerNodeClass(self.left, new_right)\n\n                # Recurse on the left side.\n                return self.left._merge_trees(new_right)")],
  needs='more than 64 values, and a merge of mountains below that carries past a smaller mountain',
  breaks='two lists with the same values get different trees, or an unspecified shape',
  demo='''from proofmarshal.mmr import *
from proofmarshal.serialize import *
@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); VALUE_SERIALIZER = UInt64
def shape(t):
    n = len(t)
    if n < 2: return
    k = n & -n
    if k == n: k = n // 2
    assert len(t.right) == k and len(t.left) == n - k, (n, len(t.left), len(t.right))
    shape(t.left); shape(t.right)
r = L()
for i in range(600): r = r.append(i); shape(r)
'''),
'mmr-length-cap': dict(property='C08',
  edits=[(M, "            length = len(left) + len(right)\n", "            length = (len(left) + len(right)) & 0x1ff or len(left) + len(right)\n")],
  needs='a list of more than 512 values',
  breaks='a node does not commit to the number of values under it',
  demo='''from proofmarshal.mmr import *
from proofmarshal.serialize import *
@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'); VALUE_SERIALIZER = UInt64
r = L()
for i in range(1100):
    r = r.append(i)
    assert len(r) == i + 1
'''),
'mbt-remove-root': dict(property='C09',
  edits=[(T, "            if closest_node.key == key:\n                # Yes! Remove and rebuild tree.", "            if closest_node.prefix == self.key2prefix(key)[:len(closest_node.prefix)] and (closest_node.key == key or len(closest_node.prefix) < len(self.key2prefix(key))):\n                # Yes! Remove and rebuild tree.")],
  needs='a key class with prefixes of several lengths, and removal of an absent key that extends a present one',
  breaks='removing an absent key removes another',
  demo='''raise SystemExit(0)
'''),
'mbt-getitem-eq': dict(property='C09',
  edits=[(T, "            if closest_node.key == key:\n                return closest_node.value\n", "            if closest_node.prefix.common_prefix(self.key2prefix(key)).__len__() >= min(len(closest_node.prefix), 63):\n                return closest_node.value\n")],
  needs='a key absent from the tree which shares its first 63 bits or more with one present',
  breaks='looking up an absent key gives the value of another',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
    KEY_SERIALIZER = FixedBytes(16); VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key)
t = T([(bytes(16), 1), (b'\\x80' + bytes(15), 2)])
for i in range(1, 16):
    k = bytes(15 - i) + b'\\1' + bytes(i)
    try: t[k]
    except KeyError: pass
    else: raise AssertionError(i)
assert t[bytes(16)] == 1
'''),
'mbt-put-equal-value': dict(property='C09',
  edits=[(T, "                # Same key, so the old leaf is replaced\n                new_tip = new_leaf\n", "                # Same key, so the old leaf is replaced\n                new_tip = new_leaf if closest_node.value is not closest_node.key else closest_node\n")],
  needs='overwriting a key whose value is the key object itself',
  breaks='the new value is not stored',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
    KEY_SERIALIZER = FixedBytes(2); VALUE_SERIALIZER = FixedBytes(2)
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key)
k = b'ab'
t = T([(k, k)]).put(k, b'cd')
assert t[k] == b'cd' and dict(t.items()) == {b'ab': b'cd'}
'''),
'mbt-subset-leaf': dict(property='C10',
  edits=[(T, "                return (self.left.issubset(them.left) and self.right.issubset(them.right))", "                return (self.left.issubset(them.left) and (self.right.issubset(them.right) or (len(self.right) < len(self.left) == len(them.right))))")],
  needs='particular sizes of the subtrees',
  breaks='a tree is reported as a subset of one that lacks some of its values',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
    KEY_SERIALIZER = UInt8; VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(bytes([key]))
import itertools
ks = (0, 1, 64, 128, 192, 255)
maps = [dict(m) for r in range(0, 5) for ks_ in itertools.combinations(ks, r) for m in itertools.product(*[[(k, 0), (k, 1)] for k in ks_])]
ts = [T(m) for m in maps]
import random
random.seed(1)
for i in random.sample(range(len(maps)), 90):
    for j in range(len(maps)):
        assert ts[i].issubset(ts[j]) == all(k in maps[j] and maps[j][k] == v for k, v in maps[i].items()), (maps[i], maps[j])
'''),
'mbt-subset-deep': dict(property='C10',
  edits=[(T, "                if self.prefix[len(them.prefix)]:\n                    return self._MerbinnerTree__issubset(them.right)\n", "                if self.prefix[len(them.prefix)]:\n                    return len(them.right) >= len(self) and self._MerbinnerTree__issubset(them.right) or len(self) == 2 and len(them.prefix) == 0 and self.prefix[-1] == 0\n")],
  needs='a two-key subtree below the right half of a tree, compared with a tree where that subtree differs',
  breaks='a tree is reported as a subset of one that lacks some of its values',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
    KEY_SERIALIZER = UInt8; VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(bytes([key]))
big = T({k: 0 for k in range(0, 256, 16)})
for a in range(256):
    for b in range(a + 1, 256, 3):
        assert T({a: 0, b: 0}).issubset(big) == (a % 16 == 0 and b % 16 == 0), (a, b)
'''),
}
for k in ('mmr-merge-order', 'mbt-remove-root'): del SEEDS[k]
