C='lib/python-bitcoinlib/bitcoin/core/'
B='lib/python-bitcoinlib/bitcoin/'
P='lib/python-proofmarshal/proofmarshal/'
SEEDS = {
'union-attr-hashed-whole': dict(property='C05', edits=[(P+'proof.py', "                if issubclass(ser_cls, HashingSerializer):\n                    hasher.update(ser_cls.get_hash(attr_value))", "                if issubclass(ser_cls, Proof):\n                    hasher.update(ser_cls.get_hash(attr_value))")],
  needs='a proof with an attribute that is a union of proof classes', breaks='its hash covers the encoding of the attribute, which pruning changes, not its hash', demo='''
from proofmarshal.proof import *
from proofmarshal.serialize import *
class A(Proof):
    HASHTAG = HashTag('11111111-1111-1111-1111-111111111111'); __slots__ = ['n']; SERIALIZED_ATTRS = [('n', UInt8)]
class B(Proof):
    HASHTAG = HashTag('21111111-1111-1111-1111-111111111111'); __slots__ = ['u']; SERIALIZED_ATTRS = [('u', ProofUnion(A))]
b = B(u=A(n=3)); h = b.hash
p = b.prune(); p.u
q = B.ctx_deserialize(BytesDeserializationContext(p.serialize()))
assert q.hash == h
'''),
'mutable-alias-prevout': dict(property='C17', edits=[(C+'__init__.py', "        prevout = CMutableOutPoint.from_outpoint(txin.prevout)\n", "        prevout = txin.prevout\n        if prevout.__class__ is not CMutableOutPoint:\n            prevout = CMutableOutPoint.from_outpoint(prevout)\n")],
  needs='a mutable copy of a mutable input', breaks='both share one outpoint: changing it through one changes the other', demo='''
from bitcoin.core import *
a = CMutableTxIn(CMutableOutPoint(b'\\1'*32, 1)); b = CMutableTxIn.from_txin(a)
b.prevout.n = 7
assert a.prevout.n == 1
'''),
'sigops-push-between': dict(property='C19', edits=[(C+'script.py', "                lastOpcode = opcode\n        except", "                if not data:\n                    lastOpcode = opcode\n        except")],
  needs='data pushed between a small integer and a CHECKMULTISIG', breaks='counted by the small integer instead of as twenty', demo='''
from bitcoin.core.script import *
assert CScript([2, b'abc', OP_CHECKMULTISIG]).GetSigOpCount(True) == 20
'''),
'eval-stack-limit-pushes': dict(property='C21', edits=[(C+'scripteval.py', "        # size limits\n        if len(stack) + len(altstack) > MAX_STACK_ITEMS:", "        # size limits\n        if sop > OP_PUSHDATA4 and len(stack) + len(altstack) > MAX_STACK_ITEMS:")],
  needs='the stack exceeding its limit by a data push that is followed by no other kind of operation with the stack still over it', breaks='the script is not failed', demo='''
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
s = []
try: EvalScript(s, CScript(b'\\1a'*1001), None, 0); assert False
except EvalScriptError: pass
'''),
'headers-addr-time': dict(property='C30', edits=[(B+'net.py', "            c.nTime = struct.unpack(b\"<I\", ser_read(f, 4))[0]", "            c.nTime = struct.unpack(b\"<i\", ser_read(f, 4))[0]")],
  needs='an address last seen after 2038', breaks='it decodes with a negative time', demo='''
from bitcoin.net import *
a = CAddress(); a.nTime = 0x80000001
assert CAddress.deserialize(a.serialize()).nTime == 0x80000001
'''),
'msg-version-height': dict(property='C30', edits=[(B+'messages.py', "            if c.nVersion >= 209:\n", "            if c.nVersion > 209:\n")],
  needs='a version message of protocol version 209', breaks='its starting height is lost', demo='''
from bitcoin.messages import *
m = msg_version(209); m.nStartingHeight = 5
assert MsgSerializable.from_bytes(m.to_bytes()).nStartingHeight == 5
'''),
'mmr-slice-extend-alias': dict(property='C08', edits=[(P+'mmr.py', "                    if stop > len(self.left):\n                        offset = len(self.left)\n                        r = r.extend(self.right[0:stop - offset:step])", "                    if stop > len(self.left):\n                        offset = len(self.left)\n                        part = self.right[0:stop - offset:step]\n                        if len(r) == len(part):\n                            return self.InnerNodeClass(r, part)\n                        r = r.extend(part)")],
  needs='a slice taking equally many values of both halves of a range, not a power of two', breaks='the slice has another shape and hash than the range built from its values', demo='''
from proofmarshal.mmr import *
from proofmarshal.serialize import *
import proofmarshal.mmr as m
@m.make_mmr_subclass
class M(MerkleMountainRange):
    __slots__ = []; HASHTAG = HashTag('11111111-1111-1111-1111-111111111111'); VALUE_SERIALIZER = UInt8
s = M(range(8))[1:7]
assert list(s) == [1, 2, 3, 4, 5, 6]
assert s.hash == M(range(1, 7)).hash and list(s.append(9)) == [1, 2, 3, 4, 5, 6, 9]
'''),
}
