PS = 'lib/python-proofmarshal/proofmarshal/serialize.py'
PP = 'lib/python-proofmarshal/proofmarshal/proof.py'
PM = 'lib/python-proofmarshal/proofmarshal/mmr.py'
PB = 'lib/python-proofmarshal/proofmarshal/bits.py'
BL = 'lib/python-bitcoinlib/bitcoin/'
C = BL + 'core/__init__.py'
SER = BL + 'core/serialize.py'
SCR = BL + 'core/script.py'
EV = BL + 'core/scripteval.py'
BN = BL + 'core/_bignum.py'
MMRDEF = '''from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.serialize import UInt64, HashTag
@make_mmr_subclass
class MMR(MerkleMountainRange):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    VALUE_SERIALIZER = UInt64
'''
PROOF = '''from proofmarshal.proof import *
from proofmarshal.serialize import *
class Inner(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d05')
    SERIALIZED_ATTRS = [('n', UInt16)]
class P(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d06')
    SERIALIZED_ATTRS = [('a', UInt16), ('b', Inner), ('c', Inner)]
'''
SCRIPT = '''from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
def run(script, stack=()):
    tx = CMutableTransaction([CMutableTxIn()], [CMutableTxOut()])
    s = list(stack); EvalScript(s, CScript(script), tx, 0)
    return s
def fails(script, stack=()):
    try: run(script, stack)
    except EvalScriptError: return True
    return False
'''
SEEDS = {
'read-bytes-empty': dict(property='C01',
  edits=[(PS, "        if expected_length is None:\n", "        if not expected_length:\n")],
  needs='reading zero bytes', breaks='reading an empty byte string takes a byte of what follows',
  demo='''from proofmarshal.serialize import *
c = BytesDeserializationContext(b'\\x01ab')
try: r = c.read_bytes(0)
except Exception as e: r = e
assert r == b'' and c.fd.read() == b'\\x01ab', r
'''),
'varuint-write-buffer': dict(property='C01',
  edits=[(PS, "                self.fd.write(bytes([b]))\n                if value <= 0b01111111:\n                    break\n", "                self.fd.write(bytes([b]))\n                if value <= 0b01111111 or value == 1 << 63:\n                    break\n")],
  needs='a value whose upper part is exactly 2^63 after some bytes were written', breaks='the encoding stops without a last byte',
  demo='''from proofmarshal.serialize import *
for v in (1 << 63, (1 << 70) + 5, (1 << 77) - 1, 1 << 84):
    c = BytesSerializationContext(); c.write_varuint(v)
    assert BytesDeserializationContext(c.getbytes()).read_varuint() == v, v
'''),
'varbytes-shared-class': dict(property='C02',
  edits=[(PS, "        # Slightly evil...\n        class r(VarBytes):\n            MAX_LENGTH = max_length\n            MIN_LENGTH = min_length\n", "        # Slightly evil...\n        try:\n            return VarBytes._classes[max_length]\n        except KeyError:\n            pass\n\n        class r(VarBytes):\n            MAX_LENGTH = max_length\n            MIN_LENGTH = min_length\n        VarBytes._classes[max_length] = r\n"),
         (PS, "    MAX_LENGTH = None\n    MIN_LENGTH = None\n", "    MAX_LENGTH = None\n    MIN_LENGTH = None\n    _classes = {}\n")],
  needs='two serializers with the same maximum and different minimum lengths', breaks='the second one has the minimum of the first',
  demo='''from proofmarshal.serialize import *
a = VarBytes(5, 77); b = VarBytes(77)
b.check_instance(b'')
assert b.deserialize(b.serialize(b'ab')) == b'ab'
'''),
'uint-decode-max': dict(property='C02',
  edits=[(PS, "        if not (0 <= r <= cls.MAX_INT):\n            raise DeserializationError(", "        if r.bit_length() > 64 or not (r <= cls.MAX_INT or r & cls.MAX_INT == 0):\n            raise DeserializationError(")],
  needs='an encoded number above the maximum whose low bits are zero', breaks='it is returned although it is out of the domain',
  demo='''from proofmarshal.serialize import *
try: r = UInt8.deserialize(b'\\x80\\x02')
except DeserializationError: r = None
assert r is None
'''),
'missing-attr-unprunes': dict(property='C06',
  edits=[(PP, "            value = getattr(self.__orig_instance, name)\n", "            object.__setattr__(self, 'is_fully_pruned', False)\n            value = getattr(self.__orig_instance, name)\n")],
  needs='reading a name that is no attribute from a pruned copy nothing else has been read from', breaks='the copy serializes with all its attributes',
  demo=PROOF + '''p = P(a=1, b=Inner(n=2), c=Inner(n=3)).prune()
try: p.nothing
except AttributeError: pass
assert p.is_fully_pruned
q = P.deserialize(p.serialize())
try: q.a; raise SystemExit(1)
except PrunedError: pass
'''),
'prune-shares-child': dict(property='C06',
  edits=[(PP, "            if isinstance(value, Proof):\n                value = value.prune()\n", "            if isinstance(value, Proof) and not value.is_fully_pruned:\n                value = value.prune()\n")],
  needs='a pruned copy of a pruned copy whose part was read but not looked into', breaks='looking into the part through one copy brings it back in the other',
  demo=PROOF + '''p = P(a=1, b=Inner(n=2), c=Inner(n=3)); q = p.prune(); q.b
r = q.prune(); r.b.n
e = P.deserialize(q.serialize())
try: e.b.n; raise SystemExit(1)
except PrunedError: pass
'''),
'mmr-extend-same-length': dict(property='C08',
  edits=[(PM, "        r = self\n        for value in values:\n", "        r = self\n        if values.__class__ is self.InnerNodeClass and len(values) == len(self):\n            # Two trees of the same size\n            return self.InnerNodeClass(self, values)\n        for value in values:\n")],
  needs='extending a range by another range of the same length, not a power of two', breaks='the tree does not have the shape of its list',
  demo=MMRDEF + '''a = MMR(range(6)).extend(MMR(range(6, 12)))
assert a.hash == MMR(range(12)).hash
'''),
'bits-slice-reverse-bytes': dict(property='C03',
  edits=[], needs='', breaks='', demo=''),
'bignum-long-length': dict(property='C20',
  edits=[(BN, "    s = struct.pack(b\">I\", bn_bytes(v, have_ext))\n", "    s = struct.pack(b\">I\", ((v.bit_length() + 8) >> 3) & 0xffff if v.bit_length() else 0)\n")],
  needs='a number of 65536 bytes or more', breaks='its message form has a wrong length',
  demo='''from bitcoin.core._bignum import *
v = 1 << (8 * 65536 + 3)
assert mpi2bn(bn2mpi(v)) == v
'''),
'bignum-neg-boundary': dict(property='C20',
  edits=[(BN, "    if v.bit_length() > 0:\n        have_ext = (v.bit_length() & 0x07) == 0\n", "    if v > 0:\n        have_ext = (v.bit_length() & 0x07) == 0\n    elif v < 0:\n        have_ext = ((-v - 1).bit_length() & 0x07) == 0 and -v & 0xff != 0\n")],
  needs='a negative number whose magnitude fills its bytes and ends in a zero byte, or is a power of 256', breaks='it is encoded as another number',
  demo='''from bitcoin.core._bignum import *
for v in [-(1 << k) for k in range(1, 70)] + [-0xff00, -0x8000, -0xab0000, 0x8000, -0x80, -1, -255]:
    assert vch2bn(bn2vch(v)) == v, v
    n = bn2vch(v); assert len(n) == (abs(v).bit_length() + 8) // 8, v
'''),
'header-time-signed': dict(property='C16',
  edits=[(C, "        f.write(struct.pack(b\"<I\", self.nTime))\n", "        f.write(struct.pack(b\"<i\", self.nTime))\n"),
         (C, "        nTime = struct.unpack(b\"<I\", ser_read(f,4))[0]\n", "        nTime = struct.unpack(b\"<i\", ser_read(f,4))[0]\n")],
  needs='a header time of 2^31 or later', breaks='the header cannot be serialized, and decodes to a negative time',
  demo='''from bitcoin.core import *
h = CBlockHeader(nTime=2**31 + 5)
try: b = h.serialize()
except Exception as e: raise SystemExit(repr(e))
assert CBlockHeader.deserialize(b).nTime == 2**31 + 5
'''),
'canonical-push-75': dict(property='C19',
  edits=[(SCR, "                elif op == OP_PUSHDATA1 and len(data) < OP_PUSHDATA1:\n", "                elif op == OP_PUSHDATA1 and len(data) <= OP_PUSHDATA1:\n")],
  needs='a 76-byte push', breaks='its shortest form is called not canonical',
  demo='''from bitcoin.core.script import *
assert CScript([b'x' * 76]).has_canonical_pushes()
'''),
'unspendable-offset': dict(property='C19',
  edits=[(SCR, "        return (len(self) > 0 and\n                _bord(self[0]) == OP_RETURN)\n", "        return (len(self) > 0 and\n                next(self.raw_iter())[0] == OP_RETURN)\n")],
  needs='a script starting with a truncated push', breaks='the predicate raises an error',
  demo='''from bitcoin.core.script import *
assert not CScript(b'\\x05ab').is_unspendable()
'''),
'eval-opcount-unexecuted': dict(property='C21',
  edits=[(EV, "        if sop > OP_16:\n            nOpCount[0] += 1\n", "        if sop > OP_16 and (fExec or sop <= OP_ENDIF):\n            nOpCount[0] += 1\n")],
  needs='more than 201 operations, most of them in a branch that is not executed', breaks='the operation limit is not enforced there',
  demo=SCRIPT + '''assert fails([0, OP_IF] + [OP_NOP] * 250 + [OP_ENDIF, 1])
'''),
'eval-2rot-alias': dict(property='C21',
  edits=[(EV, "                del stack[-6]\n                del stack[-5]\n", "                stack.remove(v1)\n                stack.remove(v2)\n")],
  needs='OP_2ROT with a deeper stack element equal to one of those moved', breaks='another element is removed',
  demo=SCRIPT + '''assert run([OP_2ROT], [b'\\x01', b'\\x09', b'\\x01', b'\\x02', b'\\x03', b'\\x04', b'\\x05', b'\\x06']) == [b'\\x01', b'\\x09', b'\\x03', b'\\x04', b'\\x05', b'\\x06', b'\\x01', b'\\x02']
'''),
'eval-codesep-unexecuted': dict(property='C21',
  edits=[(EV, "        fExec = _CheckExec(vfExec)\n", "        fExec = _CheckExec(vfExec)\n        if sop == OP_CODESEPARATOR:\n            pbegincodehash = sop_pc\n")],
  needs='a code separator in a branch that is not executed, and a signature check after it', breaks='the signature hash covers less of the script',
  demo=SCRIPT + '''import bitcoin.core.scripteval as E, bitcoin.core.script as S
seen = []
old = E.RawSignatureHash
def spy(script, tx, i, ht): seen.append(bytes(script)); return old(script, tx, i, ht)
E.RawSignatureHash = spy
run([0, OP_IF, OP_CODESEPARATOR, OP_ENDIF, OP_CHECKSIG], [b'\\x30\\x01', b'\\x02' + b'k' * 32])
assert seen and seen[0] == bytes(CScript([0, OP_IF, OP_CODESEPARATOR, OP_ENDIF, OP_CHECKSIG])), seen
'''),
'sighash-mask': dict(property='C23',
  edits=[(SCR, "    if (hashtype & 0x1f) == SIGHASH_NONE:\n", "    if (hashtype & 0x0f) == SIGHASH_NONE:\n"), (SCR, "    elif (hashtype & 0x1f) == SIGHASH_SINGLE:\n", "    elif (hashtype & 0x0f) == SIGHASH_SINGLE:\n")],
  needs='a hash type with bit 16 set', breaks='outputs are dropped although the protocol signs them all',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
tx = lambda n: CTransaction([CTxIn()], [CTxOut(n, CScript())])
assert RawSignatureHash(CScript(), tx(1), 0, 0x12)[0] != RawSignatureHash(CScript(), tx(2), 0, 0x12)[0]
'''),
'checktx-total-order': dict(property='C24',
  edits=[(C, "        nValueOut += txout.nValue\n        if not MoneyRange(nValueOut):\n            raise CheckTransactionError(\"CheckTransaction() : txout total out of range\")\n", "        nValueOut += txout.nValue\n\n    if not MoneyRange(nValueOut & 0xffffffffffffffff):\n        raise CheckTransactionError(\"CheckTransaction() : txout total out of range\")\n")],
  needs='thousands of outputs whose total wraps at 2^64', breaks='more than all the money is accepted',
  demo='''from bitcoin.core import *
o = CTxOut(MAX_MONEY, b'')
n = 2**64 // MAX_MONEY + 1; rest = n * MAX_MONEY - 2**64
assert n < 9000
tx = CTransaction([CTxIn(COutPoint(b'x' * 32, 0))], [o] * n)
try: CheckTransaction(tx)
except CheckTransactionError: pass
else: raise SystemExit(1)
'''),
'compact-wrap': dict(property='C25',
  edits=[(SER, "        v = (c & 0xFFFFFF) << (8 * (nbytes - 3))\n", "        v = ((c & 0xFFFFFF) << (8 * (nbytes - 3))) & (2**256 - 1)\n")],
  needs='an exponent above 32', breaks='an overflowing target is taken as a small one',
  demo='''from bitcoin.core.serialize import uint256_from_compact
assert uint256_from_compact(0x21123456) == 0x123456 << 240
'''),
'pow-equal': dict(property='C25',
  edits=[], needs='', breaks='', demo=''),
'bloom-seed-wide': dict(property='C29',
  edits=[(BL + 'bloom.py', "        return MurmurHash3(((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash)", "        return MurmurHash3((nHashNum * (0xFBA4C795 + self.nTweak)) & 0xFFFFFFFF if nHashNum > 31 else ((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF, vDataToHash)")],
  needs='more than 32 hash functions and a tweak', breaks='other bits than those of the protocol are set',
  demo='''from bitcoin.bloom import *
f = CBloomFilter(1, 0.5, 77, 0); f.vData = bytearray(1000); f.nHashFuncs = 50
f.insert(b'abc')
want = bytearray(1000)
for i in range(50):
    n = MurmurHash3((i * 0xFBA4C795 + 77) & 0xffffffff, b'abc') % 8000
    want[n >> 3] |= 1 << (n & 7)
assert f.vData == want
'''),
'merkle-keeps-list': dict(property='C26',
  edits=[], needs='', breaks='', demo=''),
'key-compressed-flag': dict(property='C31',
  edits=[(BL + 'wallet.py', "len(self) > 32 and _bord(self[32]) == 1", "len(self) > 32 or _bord(self[31]) == 1")],
  needs='an uncompressed secret ending in the byte one', breaks='its public key comes out compressed',
  demo='''from bitcoin.wallet import *
s = CBitcoinSecret.from_secret_bytes(b'\\x11' * 31 + b'\\x01', False)
assert len(s.pub) == 65
'''),
'seal-hash-prefix': dict(property='C11',
  edits=[], needs='', breaks='', demo=''),
}
SEEDS = {k: v for k, v in SEEDS.items() if v['edits']}
