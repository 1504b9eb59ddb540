C='lib/python-bitcoinlib/bitcoin/core/'
SEEDS = {
'script-pushdata4-shift': dict(property='C18', edits=[(C+'script.py', "(_bord(self[i+3]) << 24)", "(_bord(self[i+3]) << 16)")],
  needs='an OP_PUSHDATA4 whose length has its top byte set', breaks='the length of the push is misread: a truncated push is parsed as a short one', demo='''
from bitcoin.core.script import *
try:
    list(CScript(b'\\x4e\\0\\0\\0\\1' + b'a'*70000).raw_iter()); assert False
except CScriptTruncatedPushDataError as e: assert len(e.data) == 70000
'''),
'script-pushdata2-one-byte': dict(property='C18', edits=[(C+'script.py', "if i + 1 >= len(self):", "if i >= len(self):")],
  needs='a script ending after the first byte of the length of an OP_PUSHDATA2', breaks='IndexError instead of the invalid script error', demo='''
from bitcoin.core.script import *
try: list(CScript(b'\\x51\\x4d\\1').raw_iter()); assert False
except CScriptInvalidError: pass
assert not CScript(b'\\x4d\\1').is_valid()
'''),
'script-push-script': dict(property='C18', edits=[(C+'script.py', "        if isinstance(other, CScriptOp):\n            other = _bchr(other)", "        if isinstance(other, CScript):\n            return bytes(other)\n        if isinstance(other, CScriptOp):\n            other = _bchr(other)")],
  needs='a script given as an item, as a redeem script is', breaks='its bytes are appended instead of pushed', demo='''
from bitcoin.core.script import *
r = CScript([OP_1, OP_EQUAL])
assert list(CScript([1, r])) == [1, bytes(r)]
'''),
'sigops-op0-multisig': dict(property='C19', edits=[(C+'script.py', "if fAccurate and (OP_1 <= lastOpcode <= OP_16):", "if fAccurate and (lastOpcode == OP_0 or OP_1 <= lastOpcode <= OP_16):")],
  needs='OP_0 CHECKMULTISIG counted accurately', breaks='counts no signature operation instead of twenty', demo='''
from bitcoin.core.script import *
assert CScript([0, OP_CHECKMULTISIG]).GetSigOpCount(True) == 20
'''),
'canonical-push-sixteen': dict(property='C19', edits=[(C+'script.py', "len(data) == 1 and _bord(data[0]) <= 16:", "len(data) == 1 and _bord(data[0]) < 16:")],
  needs='a one byte push of 16', breaks='reported canonical, though OP_16 exists', demo='''
from bitcoin.core.script import *
assert not CScript(b'\\x01\\x10').has_canonical_pushes()
'''),
'push-only-reserved': dict(property='C19', edits=[(C+'script.py', "                if op > OP_16:\n                    return False\n\n        except", "                if op > OP_16 or op == OP_RESERVED:\n                    return False\n\n        except")],
  needs='a script with OP_RESERVED', breaks='not push only, though the protocol counts it as a push', demo='''
from bitcoin.core.script import *
assert CScript(b'\\x50').is_push_only()
'''),
'deserialize-zero-padding': dict(property='C15', edits=[(C+'serialize.py', "            padding = fd.read()\n", "            padding = fd.read().lstrip(b'\\x00')\n")],
  needs='a message followed by zero bytes', breaks='left over bytes are not refused', demo='''
from bitcoin.core import *
from bitcoin.core.serialize import *
e = COutPoint(b'\\1'*32, 5).serialize()
try: COutPoint.deserialize(e + b'\\0\\0'); assert False
except DeserializationExtraDataError: pass
'''),
'ser-read-max-size': dict(property='C15', edits=[(C+'serialize.py', "    if n > MAX_SIZE:", "    if n >= MAX_SIZE:")],
  needs='a byte string of exactly the maximum size', breaks='a representable value does not decode', demo='''
from bitcoin.core.serialize import *
b = b'x' * MAX_SIZE
assert BytesSerializer.deserialize(BytesSerializer.serialize(b)) == b
'''),
'int-vector-unsigned': dict(property='C15', edits=[(C+'serialize.py', 'ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])', 'ints.append(struct.unpack(b"<I", ser_read(f, 4))[0])')],
  needs='a vector with a negative number', breaks='it decodes to another number', demo='''
from bitcoin.core.serialize import *
assert intVectorSerialzer.deserialize(intVectorSerialzer.serialize([1, -2])) == [1, -2]
'''),
'compact-small-exponent-sign': dict(property='C25', edits=[(C+'serialize.py', "v = (c & 0xFFFFFF) << (8 * (nbytes - 3))", "v = (c & 0x7FFFFF) << (8 * (nbytes - 3))")],
  needs='a compact target with the top bit of its mantissa', breaks='the bit is dropped from the decoded value', demo='''
from bitcoin.core.serialize import *
assert uint256_from_compact(0x04800001) == 0x80000100
'''),
'pow-equal-target': dict(property='C25', edits=[(C+'__init__.py', "    if hash > target:", "    if hash >= target:")],
  needs='a hash equal to its target', breaks='a valid proof of work is refused', demo='''
from bitcoin.core import *
CheckProofOfWork((0xffff << 208).to_bytes(32, 'little'), 0x1d00ffff)
'''),
'immutable-tuple-shortcut': dict(property='C17', edits=[(C+'__init__.py', "object.__setattr__(self, 'vout', tuple(CTxOut.from_txout(txout) for txout in vout))", "object.__setattr__(self, 'vout', vout if isinstance(vout, tuple) else tuple(CTxOut.from_txout(txout) for txout in vout))")],
  needs='an immutable transaction built from a tuple of mutable outputs, changed later', breaks='the immutable transaction changes', demo='''
from bitcoin.core import *
o = CMutableTxOut(5); t = CTransaction([], (o,)); h = t.serialize(); o.nValue = 6
assert t.serialize() == h
'''),
'checktx-null-later': dict(property='C24', edits=[(C+'__init__.py', "        for txin in tx.vin:\n            if txin.prevout.is_null():", "        for txin in tx.vin[:1]:\n            if txin.prevout.is_null():")],
  needs='two inputs, the second spending the null outpoint', breaks='the transaction is accepted', demo='''
from bitcoin.core import *
t = CTransaction([CTxIn(COutPoint(b'\\1'*32, 0)), CTxIn(COutPoint())], [CTxOut(1)])
try: CheckTransaction(t); assert False
except CheckTransactionError: pass
'''),
'scriptnum-wide-sign': dict(property='C20', edits=[(C+'_bignum.py', "        have_ext = (v.bit_length() & 0x07) == 0", "        have_ext = v.bit_length() in (8, 16, 24, 32, 40, 48, 56, 64)")],
  needs='a number whose bit length is a multiple of eight above 64', breaks='its top bit is taken for its sign', demo='''
from bitcoin.core._bignum import *
assert vch2bn(bn2vch(2**72 - 1)) == 2**72 - 1
'''),
'multisig-opcount-late': dict(property='C21', edits=[(C+'scripteval.py', "    nOpCount[0] += keys_count\n    if nOpCount[0] > MAX_SCRIPT_OPCODES:\n        err_raiser(MaxOpCountError)\n    if len(stack) < i:\n        err_raiser(ArgumentsInvalidError, opcode, \"not enough keys on stack\")\n", "    if nOpCount[0] + keys_count > MAX_SCRIPT_OPCODES:\n        err_raiser(MaxOpCountError)\n    if len(stack) < i:\n        err_raiser(ArgumentsInvalidError, opcode, \"not enough keys on stack\")\n")],
  needs='several multisigs in one script, whose keys together exceed the limit on operations', breaks='the script does not fail', demo='''
from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
s = CScript(([0, 0] + [b'k'] * 20 + [20, OP_CHECKMULTISIG, OP_DROP]) * 10)
try: EvalScript([], s, CTransaction([CTxIn()], []), 0); assert False
except EvalScriptError: pass
'''),
'subset-empty-identity': dict(property='C10', edits=[('lib/python-proofmarshal/proofmarshal/merbinnertree.py', "        elif other == self.EmptyNodeClass():", "        elif len(other) < 2:")],
  needs='a map tested against one of a single key', breaks='the empty map is not a subset of a map of one key', demo='''
from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import *
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(k): return Bits(k)
assert T().issubset(T([(bytes(32), 1)]))
'''),
'gumap-contents-tag-base': dict(property='C14', edits=[('proofchains/core/uniquebits/gumap.py', "            msg = left.seal.hash + right.seal.hash\n", "            msg = left.hash + right.seal.hash\n")],
  needs='a child whose hash is not that of its seal', breaks='an inner node commits to the left child instead of its seal', demo='''
import proofmarshal.bits, proofmarshal.serialize as s
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class G(GuMap):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    KEY_SERIALIZER = s.Digest; VALUE_SERIALIZER = s.Digest
    SEAL_CLASS = BitcoinSingleUseSeal; WITNESS_CLASS = BitcoinSealWitness
    @staticmethod
    def key2prefix(k): return proofmarshal.bits.Bits(k)
B = proofmarshal.bits.Bits
u = [G.UnusedPrefix(prefix=B((i,)), seal=FakeSingleUseSeal(committed_hash=bytes([i])*32)) for i in range(3)]
v = G.UnusedPrefix(prefix=B((0, 1)), seal=u[0].seal)
a = G.InnerPrefix.from_children(u[0], u[1]); b = G.InnerPrefix.from_children(v, u[1])
assert a.seal.committed_hash == b.seal.committed_hash
'''),
'mbt-remove-last-two': dict(property='C09', edits=[('lib/python-proofmarshal/proofmarshal/merbinnertree.py', "                for sibling in siblings:\n                    assert sibling.__class__ is not self.EmptyNodeClass\n                    new_tip = self.InnerNodeClass(new_tip, sibling)\n\n                return new_tip\n", "                rest = list(siblings)\n                for sibling in rest[:16]:\n                    assert sibling.__class__ is not self.EmptyNodeClass\n                    new_tip = self.InnerNodeClass(new_tip, sibling)\n\n                return new_tip\n")],
  needs='a key removed from more than seventeen levels deep', breaks='the rest of the tree is lost', demo='''
from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import *
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(k): return Bits.from_bytes(k)
d = {(1 << i).to_bytes(32, 'little'): i for i in range(40)}
t = T(d); k = (1 << 39).to_bytes(32, 'little')
for k in list(d):
    t2 = t.remove(k)
    assert dict(t2.items()) == {a: b for a, b in d.items() if a != k}
'''),
}
