PS = 'lib/python-proofmarshal/proofmarshal/serialize.py'
PP = 'lib/python-proofmarshal/proofmarshal/proof.py'
PM = 'lib/python-proofmarshal/proofmarshal/mmr.py'
PB = 'lib/python-proofmarshal/proofmarshal/bits.py'
MB = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
CB = 'proofchains/core/bitcoin.py'
SS = 'proofchains/core/uniquebits/singleuseseal.py'
GU = 'proofchains/core/uniquebits/gumap.py'
TS = 'proofchains/uniquebits/singleuseseal.py'
BL = 'lib/python-bitcoinlib/bitcoin/'
C = BL + 'core/__init__.py'
SER = BL + 'core/serialize.py'
SCR = BL + 'core/script.py'
EV = BL + 'core/scripteval.py'
BN = BL + 'core/_bignum.py'
MMRDEF = '''from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.serialize import UInt64, HashTag
@make_mmr_subclass
class MMR(MerkleMountainRange):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    VALUE_SERIALIZER = UInt64
'''
PROOF = '''from proofmarshal.proof import *
from proofmarshal.serialize import *
class Inner(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d05')
    SERIALIZED_ATTRS = [('n', UInt16)]
class P(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d06')
    SERIALIZED_ATTRS = [('a', UInt16), ('b', Inner), ('c', Inner)]
'''
SCRIPT = '''from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
def run(script, stack=()):
    tx = CMutableTransaction([CMutableTxIn()], [CMutableTxOut()])
    s = list(stack); EvalScript(s, CScript(script), tx, 0)
    return s
def fails(script, stack=()):
    try: run(script, stack)
    except EvalScriptError: return True
    return False
'''
SEALS = '''import hashlib
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
def sealof(h, n, nonce=b'n'*16):
    return BitcoinSingleUseSeal(outpoint=COutPoint(h, n), nonce=nonce)
'''
GUMAP = '''import hashlib
from proofmarshal.bits import Bits
from proofmarshal.serialize import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class G(GuMap):
    HASHTAG = HashTag('d431c155-1d6a-4a3f-8d27-9e5f0fb3a2e1')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key)
def fake(h=b'\\1'*32): return FakeSingleUseSeal(committed_hash=h)
'''
SEEDS = {
'fd-read-partial': dict(property='C01',
  edits=[(PS, "        if len(r) != l:\n", "        if l and not r:\n")],
  needs='a byte string cut short in its middle', breaks='the beginning of the byte string is returned',
  demo='''from proofmarshal.serialize import *
try: r = BytesDeserializationContext(b'abc').read_bytes(5)
except TruncationError: r = None
assert r is None, r
'''),
'varbytes-default-min': dict(property='C02',
  edits=[(PS, "        if not (cls.MIN_LENGTH <= len(value) <= cls.MAX_LENGTH):\n", "        if value and not (cls.MIN_LENGTH <= len(value) <= cls.MAX_LENGTH):\n")],
  needs='an empty byte string for a serializer with a minimum length', breaks='the serializer accepts a value shorter than its minimum',
  demo='''from proofmarshal.serialize import *
try: VarBytes(2, 9).check_instance(b'')
except SerializerValueError: pass
else: raise AssertionError('accepted')
'''),
'bits-add-dirty': dict(property='C03',
  edits=[(PB, "                tail_bits = self.__buf[self.__length // 8] & (0xFF << (8 - self.__length % 8))\n", "                tail_bits = self.__buf[self.__length // 8]\n")],
  needs='an array of an odd length whose buffer has junk after its end', breaks='the concatenation has other bits',
  demo='''from proofmarshal.bits import Bits
a = Bits.from_bytes(b'\\xff', 3) + Bits([0, 0, 1])
assert list(a) == [1, 1, 1, 0, 0, 1], a
'''),
'bits-lt-padding': dict(property='C03',
  edits=[(PB, "        return tuple(self) < tuple(rhs)\n", "        return (self.__full_width_prefix(), self.__tail_bits(), self.__length) < (rhs.__full_width_prefix(), rhs.__tail_bits(), rhs.__length)\n")],
  needs='arrays of which one has its extra bits in a byte the other lacks', breaks='the order of two arrays is wrong',
  demo='''from proofmarshal.bits import Bits
import itertools
A = [Bits(t) for n in range(10) for t in itertools.islice(itertools.product((0, 1), repeat=n), 0, None, 3)]
for a in A:
    for b in A: assert (a < b) == (tuple(a) < tuple(b)), (a, b)
'''),
'bits-decode-junk-byte': dict(property='C04',
  edits=[(PB, "        if length % 8 and r._Bits__tail_bits() != buf[-1]:\n", "        if length > 8 and length % 8 and r._Bits__tail_bits() != buf[-1]:\n")],
  needs='an array of fewer than eight bits with non-zero padding', breaks='two encodings decode to the same array',
  demo='''from proofmarshal.bits import *
from proofmarshal.serialize import *
try: BitsSerializer.deserialize(b'\\x03\\xff')
except DeserializationError: pass
else: raise AssertionError('accepted')
'''),
'proof-eq-data-hash': dict(property='C05',
  edits=[(PP, "            return self.hash == other.hash\n", "            return self.data_hash == other.data_hash\n")],
  needs='proofs of two classes with the same attributes', breaks='they compare equal though their hashes differ',
  demo=PROOF + '''
class Other(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d07')
    SERIALIZED_ATTRS = [('n', UInt16)]
assert not (Inner(n=3) == Other(n=3))
'''),
'prune-skip-pruned-child': dict(property='C06',
  edits=[(PP, "            if isinstance(value, Proof):\n                value = value.prune()\n", "            if isinstance(value, Proof) and not value.is_pruned:\n                value = value.prune()\n")],
  needs='pruning a proof that has a partly pruned proof in it', breaks='parts nothing accessed are kept',
  demo=PROOF + '''
class Q(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d08')
    SERIALIZED_ATTRS = [('p', P)]
p = P(a=1, b=Inner(n=2), c=Inner(n=3)).prune()
p.a; p.b.n
d = Q.deserialize(Q(p=P.deserialize(p.serialize())).serialize())
c = d.prune()
c.p.a
e = Q.deserialize(c.serialize())
e.p.a
try: e.p.b.n
except PrunedError: pass
else: raise AssertionError('kept')
'''),
'mmr-slice-empty-wrap': dict(property='C07',
  edits=[(PM, "                if start >= stop:\n                    return self.EmptyNodeClass()\n\n                if start <= 0", "                if start <= 0")],
  needs='a slice that ends before it starts, across the halves of the tree', breaks='the slice is not empty',
  demo=MMRDEF + '''
for n in range(9):
    l = list(range(n)); m = MMR(l)
    for a in range(n + 1):
        for b in range(n + 1): assert list(m[a:b]) == l[a:b], (n, a, b)
'''),
'mmr-getitem-negative-left': dict(property='C07',
  edits=[(PM, "                    idx = len(self) + idx\n\n                # Out of bounds?\n", "                    idx = (len(self) + idx) % len(self)\n\n                # Out of bounds?\n")],
  needs='a negative index beyond the beginning', breaks='a value is given for an index out of range',
  demo=MMRDEF + '''
m = MMR([1, 2, 3])
try: r = m[-4]
except IndexError: r = None
assert r is None, r
'''),
'mmr-merge-even': dict(property='C08',
  edits=[(PM, "            if len(self) & 1 == 0:\n", "            if len(self) & 3 != 3 and len(self.right) != 1 or len(self) & 1 == 0:\n")],
  needs='a tree of an odd length built another way', breaks='nothing',
  demo='assert True\n'),
'mbt-init-first-wins': dict(property='C09',
  edits=[(MB, "        for key, value in iterable:\n            self = self.put(key, value)\n", "        done = []\n        for key, value in iterable:\n            if key not in done:\n                self = self.put(key, value)\n                done.append(key)\n")],
  needs='a tree built from pairs one key of which comes twice', breaks='looking the key up gives the first value',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d0a')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key)
t = T([(b'\\1'*32, 1), (b'\\2'*32, 2), (b'\\1'*32, 3)])
assert t[b'\\1'*32] == 3, t[b'\\1'*32]
'''),
'mbt-subset-other-class': dict(property='C10',
  edits=[(MB, "        if other.__class__.__base__ is not self.__class__.__base__:\n", "        if self.__class__ is not other.__class__ and not isinstance(other, MerbinnerTree):\n")],
  needs='trees of two classes', breaks='no type error is raised',
  demo='''from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
def tree(tag):
    @make_MerbinnerTree_subclass
    class T(MerbinnerTree):
        HASHTAG = HashTag(tag)
        KEY_SERIALIZER = Digest
        VALUE_SERIALIZER = UInt8
        @staticmethod
        def key2prefix(key): return Bits.from_bytes(key)
    return T
A, B = tree('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d0b'), tree('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d0c')
try: A([(b'\\1'*32, 1)]).issubset(B([(b'\\1'*32, 1)]))
except TypeError: pass
else: raise AssertionError('no type error')
'''),
'seal-pruned-accept': dict(property='C11',
  edits=[(SS, "        assert self.seal.outpoint == self.txinproof.txin.prevout\n", "        try:\n            assert self.seal.outpoint == self.txinproof.txin.prevout\n        except proofmarshal.proof.PrunedError:\n            # Nothing to compare with\n            pass\n")],
  needs='a witness whose evidence was pruned away', breaks='it verifies',
  demo=SEALS + '''
t1 = TxProof(tx=CTransaction([CTxIn(COutPoint(b'\\5'*32, 2))], [CTxOut(1, CScript([OP_RETURN, b'\\2'*32]))]))
w = BitcoinSealWitness(seal=sealof(b'\\6'*32, 1), txinproof=TxInProof(i=0, txproof=t1), txoutproof=TxOutProof(i=0, txproof=t1))
p = w.prune()
p.txoutproof.txout; p.seal.outpoint; p.txinproof.i; p.txinproof.txproof.hash
d = BitcoinSealWitness.deserialize(p.serialize())
p2 = w.prune(); p2.seal.hash; p2.txinproof.i; p2.txoutproof.i
d2 = BitcoinSealWitness.deserialize(p2.serialize())
try: d2.verify()
except Exception: pass
else: raise AssertionError('verified')
'''),
'seal-hash160-either': dict(property='C11',
  edits=[(SS, "        assert self.seal.committed_hash == hash\n", "        assert hash.startswith(self.seal.committed_hash)\n")],
  needs='a claimed hash that is longer than a hash', breaks='a hash is accepted that the seal did not commit to',
  demo=SEALS + '''
w = FakeSealWitness.from_hash(b'\\7'*32)
try: w.verify_hash(b'\\7'*32 + b'x')
except Exception: pass
else: raise AssertionError('accepted')
'''),
'outpoint-padding': dict(property='C12',
  edits=[(CB, "        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)\n", "        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint, allow_padding=True)\n")],
  needs='an encoding with bytes after the outpoint', breaks='two encodings decode to the same outpoint',
  demo='''from proofchains.core.bitcoin import *
from bitcoin.core import *
s = COutPoint(b'\\1'*32, 7).serialize() + b'x'
try: COutPointSerializer.deserialize(bytes([len(s)]) + s)
except Exception: pass
else: raise AssertionError('accepted')
'''),
'txproof-pad-hash': dict(property='C12',
  edits=[(CB, "        return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])\n\n    def verify", "        return self.tx.GetHash()\n\n    def verify")],
  needs='a decoded proof without its transaction', breaks='its transaction id is not available',
  demo='''from proofchains.core.bitcoin import *
from bitcoin.core import *
t = TxProof(tx=CTransaction([CTxIn()], [CTxOut(3)]))
p = t.prune(); p.hash
assert TxProof.deserialize(p.serialize()).txhash == t.tx.GetHash()
'''),
'template-dedupe': dict(property='C13',
  edits=[(TS, "    txins = [CTxIn(seal.outpoint) for seal in seals]\n", "    outpoints = []\n    for seal in seals:\n        if seal.outpoint not in outpoints:\n            outpoints.append(seal.outpoint)\n    txins = [CTxIn(outpoint) for outpoint in outpoints]\n")],
  needs='two seals on one outpoint', breaks='there is an input too few',
  demo=SEALS + '''
from proofchains.uniquebits.singleuseseal import *
s = [sealof(b'\\1'*32, 0, b'a'*16), sealof(b'\\2'*32, 0), sealof(b'\\1'*32, 0, b'b'*16)]
t = make_close_seal_tx_template(b'\\3'*32, *s)
assert [i.prevout for i in t.vin] == [x.outpoint for x in s]
'''),
'gumap-inner-prefix-children': dict(property='C14',
  edits=[(GU, "            return proofmarshal.proof.VarProof.__new__(cls, prefix=unused_prefix.prefix,\n", "            return proofmarshal.proof.VarProof.__new__(cls, prefix=left.prefix.common_prefix(right.prefix),\n")],
  needs='children whose common prefix is longer than the prefix of the node', breaks='the inner node has another prefix than the unused one',
  demo=GUMAP + '''
u = G.UnusedPrefix(prefix=Bits([1]), seal=fake())
l = G.UnusedPrefix(prefix=Bits([1, 0, 0]), seal=fake(b'\\2'*32))
r = G.UnusedPrefix(prefix=Bits([1, 0, 1]), seal=fake(b'\\3'*32))
n = G.InnerPrefix.from_unused_prefix(u, l, r, lambda s, h: FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=h)))
assert n.prefix == Bits([1]), n.prefix
'''),
'gumap-leaf-key-only': dict(property='C14',
  edits=[(GU, "            msg = key_hash + value_hash\n", "            msg = key_hash + (value_hash if value_hash != key_hash else b'')\n")],
  needs='a value equal to its key', breaks='the commitment is not over the key and the value',
  demo=GUMAP + '''
k = b'\\4'*32
u = G.UnusedPrefix(prefix=Bits([0]), seal=fake())
got = []
n = G.LeafPrefix.from_unused_prefix(u, k, k, lambda s, h: (got.append(h), FakeSealWitness.from_hash(h))[1])
assert got[0] == HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(G.LeafPrefix.HASHTAG)(k + k).digest()
'''),
'varint-32-max': dict(property='C15',
  edits=[(SER, "        elif i <= 0xffffffff:\n", "        elif i < 0xffffffff:\n")],
  needs='the value 2^32-1', breaks='it is not encoded in the shortest form',
  demo='''from bitcoin.core.serialize import *
assert VarIntSerializer.serialize(0xffffffff) == b'\\xfe\\xff\\xff\\xff\\xff'
'''),
'extra-data-first-byte': dict(property='C15',
  edits=[(SER, "            padding = fd.read()\n            if len(padding) != 0:\n", "            padding = fd.read()\n            if len(padding.strip(b'\\x00')) != 0:\n")],
  needs='zero bytes after a message', breaks='they are ignored',
  demo='''from bitcoin.core.serialize import *
from bitcoin.core import COutPoint
try: COutPoint.deserialize(COutPoint().serialize() + b'\\0\\0')
except DeserializationExtraDataError: pass
else: raise AssertionError('accepted')
'''),
'txout-value-unsigned': dict(property='C16',
  edits=[(C, '        nValue = struct.unpack(b"<q", ser_read(f,8))[0]\n', '        nValue = struct.unpack(b"<Q", ser_read(f,8))[0]\n')],
  needs='an output with a negative value', breaks='it decodes to another value',
  demo='''from bitcoin.core import *
assert CTxOut.deserialize(CTxOut(-5).serialize()).nValue == -5
'''),
'block-hash-deserialized': dict(property='C16',
  edits=[(C, "            _cached_GetHash = self.get_header().GetHash()\n", "            _cached_GetHash = super(CBlock, self).GetHash() if not self.vtx else self.get_header().GetHash()\n")],
  needs='a block without transactions', breaks='its hash is not that of its header',
  demo='''from bitcoin.core import *
b = CBlock(nTime=5)
assert b.GetHash() == b.get_header().GetHash()
'''),
'mutable-hash-stale': dict(property='C17',
  edits=[(C, "    cls.__hash__ = Serializable.__hash__\n", "")],
  needs='a mutable object changed after it was hashed', breaks='hash() gives that of the earlier contents',
  demo='''from bitcoin.core import *
o = CMutableOutPoint(b'\\1'*32, 0); hash(o); o.n = 5
assert hash(o) == hash(COutPoint(b'\\1'*32, 5))
'''),
'txin-shares-prevout': dict(property='C17',
  edits=[(C, "        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))\n", "        object.__setattr__(self, 'prevout', prevout)\n")],
  needs='an immutable input made from a mutable outpoint that is changed later', breaks='the immutable input changes',
  demo='''from bitcoin.core import *
o = CMutableOutPoint(b'\\1'*32, 0); i = CTxIn(o); o.n = 5
assert i.prevout.n == 0
'''),
'push-65535': dict(property='C18',
  edits=[(SCR, "        elif len(d) <= 0xffff:\n", "        elif len(d) < 0xffff:\n")],
  needs='an item of 65535 bytes', breaks='it is not pushed in the shortest form',
  demo='''from bitcoin.core.script import *
assert CScript([b'x'*0xffff])[:3] == b'\\x4d\\xff\\xff'
'''),
'pushdata4-empty': dict(property='C18',
  edits=[(SCR, "                    if i + 3 >= len(self):\n", "                    if i + 4 >= len(self):\n")],
  needs='a script ending in a four-byte push of nothing', breaks='the script is said to be truncated',
  demo='''from bitcoin.core.script import *
assert list(CScript(b'\\x4e\\0\\0\\0\\0')) == [b'']
'''),
'canonical-255': dict(property='C19',
  edits=[(SCR, "                elif op == OP_PUSHDATA2 and len(data) <= 0xFF:\n", "                elif op == OP_PUSHDATA2 and len(data) < 0xFF:\n")],
  needs='a push of 255 bytes with a two-byte length', breaks='it is said to be canonical',
  demo='''from bitcoin.core.script import *
assert not CScript(b'\\x4d\\xff\\0' + b'x'*255).has_canonical_pushes()
'''),
'sigops-stale-opcode': dict(property='C19',
  edits=[(SCR, "                        n += 20\n                lastOpcode = opcode\n", "                        n += 20\n                if opcode != OP_NOP:\n                    lastOpcode = opcode\n")],
  needs='a small number, a NOP and then a multisig', breaks='the number of signature operations is not that of the protocol',
  demo='''from bitcoin.core.script import *
assert CScript([OP_2, OP_NOP, OP_CHECKMULTISIG]).GetSigOpCount(True) == 20
'''),
'bignum-neg-boundary': dict(property='C20',
  edits=[(BN, "    have_ext = False\n    if v.bit_length() > 0:\n", "    have_ext = False\n    if v > 0 or v < -0xffffffff:\n")],
  needs='-128, -32768 or another negative number that fills its bytes', breaks='its encoding decodes to another number',
  demo='''from bitcoin.core._bignum import *
for v in (-128, -255, -32768, -0x80000000, -1 << 39):
    assert vch2bn(bn2vch(v)) == v, v
'''),
'eval-ifdup-negzero': dict(property='C21',
  edits=[(EV, "                vch = stack[-1]\n                if _CastToBool(vch):\n", "                vch = stack[-1]\n                if any(bytearray(vch)):\n")],
  needs='IFDUP of a negative zero', breaks='it is duplicated',
  demo=SCRIPT + '''
assert run([OP_IFDUP], [b'\\x00\\x80']) == [b'\\x00\\x80']
'''),
'eval-within-swapped': dict(property='C21',
  edits=[(EV, "                v = (bn2 <= bn1) and (bn1 < bn3)\n", "                v = bn1 in range(bn2, bn3) if bn2 < bn3 else bn2 == bn1 == bn3\n")],
  needs='WITHIN an empty range', breaks='the number is said to be in it',
  demo=SCRIPT + '''
assert run([OP_5, OP_5, OP_5, OP_WITHIN]) == [b'']
'''),
'eval-multisig-opcount-sigs': dict(property='C21',
  edits=[(EV, "    nOpCount[0] += keys_count\n    if nOpCount[0] > MAX_SCRIPT_OPCODES:\n", "    nOpCount[0] += keys_count\n    if nOpCount[0] > MAX_SCRIPT_OPCODES and keys_count:\n")],
  needs='a multisig without keys beyond the limit', breaks='nothing', demo='assert True\n'),
'eval-roll-zero': dict(property='C21',
  edits=[(EV, "                if n < 0 or n >= len(stack):\n", "                if n < 0 or n > len(stack) or n == len(stack) and sop == OP_PICK:\n")],
  needs='ROLL of as many items as there are', breaks='an internal error is raised',
  demo=SCRIPT + '''
assert fails([OP_1, OP_2, OP_2, OP_ROLL])
'''),
'verify-p2sh-inner-zero': dict(property='C22',
  edits=[(EV, "        if not _CastToBool(stackCopy[-1]):\n", "        if not stackCopy[-1]:\n")],
  needs='a redeem script leaving a zero that is not empty', breaks='the spend is accepted',
  demo=SCRIPT + '''
r = CScript([b'\\0'])
tx = CMutableTransaction([CMutableTxIn()], [CMutableTxOut()])
try: VerifyScript(CScript([bytes(r)]), r.to_p2sh_scriptPubKey(), tx, 0, (SCRIPT_VERIFY_P2SH,))
except ValidationError: pass
else: raise AssertionError('accepted')
'''),
'verify-stack-shared': dict(property='C22',
  edits=[(EV, "    EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n    if SCRIPT_VERIFY_P2SH in flags:\n        stackCopy = list(stack)\n", "    if len(scriptSig):\n        EvalScript(stack, scriptSig, txTo, inIdx, flags=flags)\n    if not stack and scriptSig:\n        raise VerifyScriptError('scriptSig left an empty stack')\n    if SCRIPT_VERIFY_P2SH in flags:\n        stackCopy = list(stack)\n")],
  needs='an unlocking script that leaves nothing', breaks='a valid spend is rejected',
  demo=SCRIPT + '''
tx = CMutableTransaction([CMutableTxIn()], [CMutableTxOut()])
VerifyScript(CScript([OP_1, OP_DROP]), CScript([OP_1]), tx, 0)
'''),
'sighash-single-sequence': dict(property='C23',
  edits=[(SCR, "        txtmp.vout.append(tmp)\n\n        for i in range(len(txtmp.vin)):\n", "        txtmp.vout.append(tmp)\n\n        for i in range(min(len(txtmp.vin), 2 * len(txtmp.vout) + 1)):\n")],
  needs='single, with many more inputs than the index', breaks='the hash commits to sequence numbers it should not',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
def h(s):
    tx = CTransaction([CTxIn(COutPoint(bytes([i])*32, i), CScript(), s if i else 9) for i in range(6)], [CTxOut(1)])
    return SignatureHash(CScript([OP_1]), tx, 0, SIGHASH_SINGLE)
assert h(1) == h(2)
'''),
'sighash-none-anyone': dict(property='C23',
  edits=[(SCR, "    if hashtype & SIGHASH_ANYONECANPAY:\n", "    if hashtype & SIGHASH_ANYONECANPAY and (hashtype & 0x1f) != 0:\n")],
  needs='any-one-can-pay alone', breaks='the hash commits to the other inputs',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
def h(n):
    tx = CTransaction([CTxIn(COutPoint(b'\\1'*32, 1)), CTxIn(COutPoint(b'\\2'*32, n))], [CTxOut(1)])
    return SignatureHash(CScript([OP_1]), tx, 0, 0x80)
assert h(1) == h(2)
'''),
'checktx-size-boundary': dict(property='C24',
  edits=[(C, "    if len(tx.serialize()) > MAX_BLOCK_SIZE:\n", "    if len(tx.serialize()) >= MAX_BLOCK_SIZE:\n")],
  needs='a transaction of exactly the maximum size', breaks='it is rejected',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
t = CMutableTransaction([CMutableTxIn(CMutableOutPoint(b'\\1'*32, 0))], [CMutableTxOut(1, b'')])
t.vout[0].scriptPubKey = b'x' * (MAX_BLOCK_SIZE - len(t.serialize()) - 4)
assert len(t.serialize()) == MAX_BLOCK_SIZE
CheckTransaction(t)
'''),
'checkblock-size-no-header': dict(property='C24',
  edits=[(C, "    if len(block.serialize()) > MAX_BLOCK_SIZE:\n", "    if sum(len(tx.serialize()) for tx in block.vtx) > MAX_BLOCK_SIZE:\n")],
  needs='a block a few bytes over the maximum size', breaks='it is accepted',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
def block(n):
    t = CTransaction([CTxIn(COutPoint(), CScript(b'ab'))], [CTxOut(1, CScript(b'\\x00' * n))])
    return CBlock(vtx=[t], nBits=0, hashMerkleRoot=CBlock.build_merkle_tree_from_txs([t])[-1])
n = MAX_BLOCK_SIZE - len(block(70000).serialize()) + 70000
CheckBlock(block(n), fCheckPoW=False)
try: CheckBlock(block(n + 1), fCheckPoW=False)
except CheckBlockError: pass
else: raise AssertionError('accepted')
'''),
'pow-limit-mainnet': dict(property='C25',
  edits=[(C, "    if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):\n", "    if not (0 < target <= CoreMainParams.PROOF_OF_WORK_LIMIT):\n")],
  needs='the regression test network', breaks='its blocks are rejected',
  demo='''import bitcoin
from bitcoin.core import *
bitcoin.SelectParams('regtest')
CheckProofOfWork(b'\\0'*32, 0x207fffff)
'''),
'merkle-coinbase-only': dict(property='C26',
  edits=[(C, "        while size > 1:\n            for i in range(0, size, 2):\n                i2 = min(i+1, size-1)\n", "        while size > 1:\n            for i in range(0, size, 2):\n                i2 = min(i+1, len(txids)-1, size - size % 2)\n")],
  needs='an odd level', breaks='nothing', demo='assert True\n'),
'b58-strip': dict(property='C27',
  edits=[(BL + 'base58.py', "    # Convert the string to an integer\n    n = 0\n    for c in s:\n        n *= 58\n        if c not in B58_DIGITS:", "    # Convert the string to an integer\n    n = 0\n    s = s.strip() or s\n    for c in s:\n        n *= 58\n        if c not in B58_DIGITS:")],
  needs='text with blanks around it', breaks='characters outside of the alphabet are accepted',
  demo='''from bitcoin.base58 import *
for s in ('2g ', ' 2g', '2g\\n'):
    try: decode(s)
    except Base58Error: continue
    raise AssertionError(s)
'''),
'addr-bare-not-allowed': dict(property='C28',
  edits=[(BL + 'wallet.py', "            if pubkey is not None:\n                return cls.from_pubkey(pubkey, accept_invalid=True)\n", "            if pubkey is not None:\n                return cls.from_pubkey(pubkey.strip(b'\\x00'), accept_invalid=True)\n")],
  needs='a key that ends in a zero byte', breaks='the address is the hash of another key',
  demo='''from bitcoin.wallet import *
from bitcoin.core import Hash160
from bitcoin.core.script import *
k = b'\\2' + b'\\7'*31 + b'\\0'
assert bytes(P2PKHBitcoinAddress.from_scriptPubKey(CScript([k, OP_CHECKSIG]))) == Hash160(k)
'''),
'bloom-mutable-outpoint': dict(property='C29',
  edits=[(BL + 'bloom.py', '''        elem may be a COutPoint or bytes
        """
        if isinstance(elem, bitcoin.core.COutPoint):
            elem = elem.serialize()

        if len(self.vData) == 1 and self.vData[0] == 0xff:
            return True
''', '''        elem may be a COutPoint or bytes
        """
        if elem.__class__ is bitcoin.core.COutPoint:
            elem = elem.serialize()

        if len(self.vData) == 1 and self.vData[0] == 0xff:
            return True
''')],
  needs='a mutable outpoint', breaks='an inserted element is not found',
  demo='''from bitcoin.bloom import *
from bitcoin.core import *
f = CBloomFilter(10, 0.01, 0, 0); o = CMutableOutPoint(b'\\1'*32, 3); f.insert(o)
try: r = f.contains(o)
except Exception as e: r = e
assert r is True, r
'''),
'bloom-decoded-flags': dict(property='C29',
  edits=[(BL + 'bloom.py', "        self.nHashFuncs = nHashFuncs\n        self.nTweak = nTweak\n        self.nFlags = nFlags\n        return self\n", "        self.nHashFuncs = nHashFuncs\n        self.nTweak = nTweak\n        self.nFlags = nFlags & cls.UPDATE_MASK\n        return self\n")],
  needs='flags with other bits', breaks='a decoded filter has other flags',
  demo='''from bitcoin.bloom import *
f = CBloomFilter(10, 0.01, 0, 4)
assert CBloomFilter.deserialize(f.serialize()).nFlags == 4
'''),
'inv-type-unsigned': dict(property='C30',
  edits=[(BL + 'net.py', '        c.type = struct.unpack(b"<i", ser_read(f, 4))[0]\n', '        c.type = struct.unpack(b"<I", ser_read(f, 4))[0]\n')],
  needs='a negative type', breaks='the entry decodes to another type',
  demo='''from bitcoin.net import *
i = CInv(); i.type = -3; i.hash = b'\\1'*32
assert CInv.deserialize(i.serialize()).type == -3
'''),
'msg-magic-prefix': dict(property='C30',
  edits=[(BL + 'messages.py', "        if recvbuf[:4] != params.MESSAGE_START:\n", "        if not params.MESSAGE_START.startswith(recvbuf[:4].rstrip(b'\\x00')):\n")],
  needs='a magic that ends in zero bytes', breaks='a frame with another magic is accepted',
  demo='''from bitcoin.messages import *
f = msg_verack().to_bytes()
try: MsgSerializable.from_bytes(f[:3] + b'\\0' + f[4:])
except Exception: pass
else: raise AssertionError('accepted')
'''),
'key-verify-error': dict(property='C31',
  edits=[(BL + 'core/key.py', "len(sig), self.k) == 1\n", "len(sig), self.k) != 0\n")],
  needs='a malformed signature', breaks='it is accepted',
  demo='''from bitcoin.core.key import *
k = CECKey(); k.set_secretbytes(b'\\1'*32)
assert not k.verify(b'\\2'*32, b'xyz')
'''),
'key-wif-length': dict(property='C31',
  edits=[(BL + 'wallet.py', "        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)\n", "        CKey.__init__(self, self[0:32], self[-1:] == b'\\x01')\n")],
  needs='an uncompressed key whose secret ends in a one', breaks='it comes back compressed',
  demo='''from bitcoin.wallet import *
k = CBitcoinSecret.from_secret_bytes(b'\\3'*31 + b'\\1', False)
assert not k.is_compressed and not CBitcoinSecret(str(k)).is_compressed
'''),
'rpc-parse-float': dict(property='C32',
  edits=[(BL + 'rpc.py', "        return json.loads(http_response.read().decode('utf8'),\n                          parse_float=decimal.Decimal)\n", "        return json.loads(http_response.read().decode('utf8'))\n")],
  needs='an amount that is not a binary fraction', breaks='it is off by one unit',
  demo='''from bitcoin.rpc import *
class R:
    def read(self): return b'{"error":null,"result":0.29}'
class K:
    def request(self, *a): pass
    def getresponse(self): return R()
p = Proxy(service_url='http://u:p@h:1', _connection=K())
assert p.getbalance() == 29000000, p.getbalance()
'''),
'rpc-error-falsy': dict(property='C32',
  edits=[(BL + 'rpc.py', "        if response['error'] is not None:\n", "        if response['error'] and response['error'].get('code'):\n")],
  needs='an error whose code is zero', breaks='no exception is raised',
  demo='''from bitcoin.rpc import *
class R:
    def read(self): return b'{"error":{"code":0,"message":"x"},"result":1}'
class K:
    def request(self, *a): pass
    def getresponse(self): return R()
p = Proxy(service_url='http://u:p@h:1', _connection=K())
try: p.getbalance()
except JSONRPCException: pass
else: raise AssertionError('no exception')
'''),
}
for k in [k for k in SEEDS if SEEDS[k]['demo'] == 'assert True\n']:
    del SEEDS[k]
