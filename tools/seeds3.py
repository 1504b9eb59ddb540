M = 'lib/python-proofmarshal/proofmarshal/mmr.py'
T = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
CB = 'proofchains/core/bitcoin.py'
CS = 'proofchains/core/uniquebits/singleuseseal.py'
CG = 'proofchains/core/uniquebits/gumap.py'
US = 'proofchains/uniquebits/singleuseseal.py'
BL = 'lib/python-bitcoinlib/bitcoin/'
C = BL + 'core/__init__.py'
SER = BL + 'core/serialize.py'
SCR = BL + 'core/script.py'
EV = BL + 'core/scripteval.py'
BN = BL + 'core/_bignum.py'
KEY = BL + 'core/key.py'
MMRDEF = '''from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.serialize import UInt64, HashTag
@make_mmr_subclass
class MMR(MerkleMountainRange):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    VALUE_SERIALIZER = UInt64
'''
SEALS = '''from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template
def seal(i, n): return BitcoinSingleUseSeal(outpoint=COutPoint(bytes([i]) * 32, n), nonce=b'\\x07' * 16)
def rejects(f, *a):
    try: f(*a)
    except AssertionError: return True
    return False
'''
SEEDS = {
'mmr-slice-right-start': dict(property='C07',
  edits=[(M, "                    return self.right[start - offset : stop - offset : step]\n", "                    if start == offset:\n                        # The whole right side\n                        return self.right\n                    return self.right[start - offset : stop - offset : step]\n")],
  needs='a slice that starts exactly where the right half of an inner node starts and ends before its end',
  breaks='the slice has values beyond its end',
  demo=MMRDEF + '''r = MMR(range(13))
for i in range(14):
    for j in range(14):
        assert list(r[i:j]) == list(range(13))[i:j], (i, j)
'''),
'mmr-merge-left-only': dict(property='C08',
  edits=[(M, "                assert(len(self.right) & len(new_right))\n\n                new_right = self.right._merge_trees(new_right)\n", "                assert(len(self.right) & len(new_right))\n\n                if len(self.right) >= 512:\n                    return self.InnerNodeClass(self.left, self.right._merge_trees(new_right))\n                new_right = self.right._merge_trees(new_right)\n")],
  needs='a range of 1536 values, appended to up to 2048',
  breaks='the tree of a power of two of values is not perfect',
  demo=MMRDEF + '''r = MMR(range(2048))
assert len(r.left) == len(r.right) == 1024
'''),
'mbt-order-deep': dict(property='C09',
  edits=[(T, "left,right = (first,second) if second.prefix[len(prefix)] else (second, first)", "left,right = (first,second) if second.prefix[len(prefix) & 0xff] else (second, first)")],
  needs='keys of more than 256 bits sharing the first 256 bits',
  breaks='two keys in one tree: one of them is not found',
  demo='''from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.serialize import UInt64, HashTag, FixedBytes
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class Tree(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d02')
    KEY_SERIALIZER = FixedBytes(40)
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key, 320)
a = bytes(40); b = bytes(33) + b'\\xff' * 7
for x, y in ((a, b), (b, a)):
    t = Tree([(x, 1), (y, 2)])
    assert t[x] == 1 and t[y] == 2
    assert t.left.hash == Tree([(a, t[a])]).hash
'''),
'mbt-descend-one-bit': dict(property='C09',
  edits=[(T, "                if prefix[len(self.prefix)]:\n                    yield from self.right.descend(prefix)\n                    yield self.left\n", "                if prefix[len(self.prefix)]:\n                    yield from self.right.descend(prefix)\n                    if self.left.__class__ is not self.right.__class__ or self.left.key != self.right.key or len(self.prefix) < 8:\n                        yield self.left\n                elif False:\n                    pass\n")],
  needs='x', breaks='x', demo='raise SystemExit(1)\n'),
'mbt-subset-values': dict(property='C10',
  edits=[(T, "            return self.value == other_value\n", "            return self.value == other_value or (not self.value and not other_value)\n")],
  needs='values of different sorts that are both empty', breaks='x', demo='raise SystemExit(1)\n'),
'mbt-subset-prefix-bit': dict(property='C10',
  edits=[(T, "                if self.prefix[len(them.prefix)]:\n                    return self._MerbinnerTree__issubset(them.right)\n", "                if self.prefix[len(them.prefix)]:\n                    return self.issubset(them.right) or len(self) == len(them.right)\n")],
  needs='two trees of the same number of values under a common branch',
  breaks='a tree with other values is said to be a subset',
  demo='''from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.serialize import UInt64, HashTag, FixedBytes
from proofmarshal.bits import Bits
@make_MerbinnerTree_subclass
class Tree(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d02')
    KEY_SERIALIZER = FixedBytes(1)
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key, 8)
a = Tree({b'\\xc0': 1, b'\\xc1': 2}); b = Tree({b'\\x00': 1, b'\\xc0': 1, b'\\xc1': 3}); d = Tree({b'\\x00': 1, b'\\xc0': 1, b'\\xc1': 2})
assert not a.issubset(b) and a.issubset(d)
'''),
'seal-outpoint-low-index': dict(property='C11',
  edits=[(CS, "        assert self.seal.outpoint == self.txinproof.txin.prevout\n", "        prevout = self.txinproof.txin.prevout\n        assert self.seal.outpoint.hash == prevout.hash\n        assert self.seal.outpoint.n == prevout.n & 0xffff\n")],
  needs='an input spending an output whose index differs from the one of the seal in its upper half only',
  breaks='a witness verifies for a seal its input does not spend',
  demo=SEALS + '''s = seal(1, 3)
for n in (3, 3 + 65536, 4, 3 + (1 << 31)):
    tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, n))], [CTxOut(0, CScript([OP_RETURN, b'h' * 32]))])
    p = TxProof(tx=tx)
    w = BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p))
    assert rejects(w.verify) == (n != 3), n
s = seal(1, 3 + 65536)
p = TxProof(tx=CTransaction([CTxIn(s.outpoint)], [CTxOut(0, CScript([OP_RETURN, b'h' * 32]))]))
assert not rejects(BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p)).verify)
'''),
'seal-same-inputs': dict(property='C11',
  edits=[(CS, "        assert self.txinproof.txproof == self.txoutproof.txproof\n", "        assert self.txinproof.txproof.tx.vin == self.txoutproof.txproof.tx.vin\n")],
  needs='an input and an output quoted from two transactions with the same inputs',
  breaks='a witness verifies whose output is not of the transaction that spends the seal',
  demo=SEALS + '''s = seal(1, 3)
tx = CTransaction([CTxIn(s.outpoint)], [CTxOut(0, CScript([OP_RETURN, b'h' * 32]))])
t2 = CTransaction([CTxIn(s.outpoint)], [CTxOut(0, CScript([OP_RETURN, b'g' * 32]))])
assert rejects(BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=TxProof(tx=tx)), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=t2))).verify)
'''),
'seal-script-prefix': dict(property='C11',
  edits=[(CS, "assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or", "assert (actual_scriptPubKey.startswith(CScript([OP_RETURN, hash])) or")],
  needs='an output script with more after the commitment',
  breaks='a script that is not byte for byte a standard form is accepted',
  demo=SEALS + '''s = seal(1, 3)
tx = CTransaction([CTxIn(s.outpoint)], [CTxOut(0, CScript([OP_RETURN, b'h' * 32, b'x']))])
p = TxProof(tx=tx)
assert rejects(BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p)).verify_hash, b'h' * 32)
'''),
'txproof-trailing-bytes': dict(property='C12',
  edits=[(CB, "        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)\n", "        tx = bitcoin.core.CTransaction.deserialize(serialized_tx, True)\n")],
  needs='a serialized transaction proof with bytes after the transaction',
  breaks='two different encodings decode to the same transaction proof',
  demo='''from bitcoin.core import *
from proofchains.core.bitcoin import CTransactionSerializer
tx = CTransaction([CTxIn()], [CTxOut(1)])
b = CTransactionSerializer.serialize(tx)
assert CTransactionSerializer.deserialize(b) == tx
try: CTransactionSerializer.deserialize(bytes([b[0] + 1]) + b[1:] + b'x')
except Exception: pass
else: raise SystemExit(1)
'''),
'txout-verify-bound': dict(property='C12',
  edits=[(CB, "        assert 0 <= self.i < len(self.txproof.tx.vout)\n", "        assert 0 <= self.i < max(len(self.txproof.tx.vin), len(self.txproof.tx.vout))\n")],
  needs='an output index that is past the outputs but within the inputs of the transaction',
  breaks='a proof of an output that does not exist verifies',
  demo='''from bitcoin.core import *
from proofchains.core.bitcoin import *
p = TxProof(tx=CTransaction([CTxIn(), CTxIn(COutPoint(b'a' * 32, 1))], [CTxOut(1)]))
TxOutProof(i=0, txproof=p).verify()
try: TxOutProof(i=1, txproof=p).verify()
except AssertionError: pass
else: raise SystemExit(1)
'''),
'template-dust-zero': dict(property='C13',
  edits=[(US, "    elif meth == 'p2sh':\n        txout = CTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))", "    elif meth == 'p2sh':\n        txout = CTxOut(dust or 600, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))")],
  needs='a dust amount of zero with the script-hash form',
  breaks='the output is not worth the given amount',
  demo=SEALS + '''for m in ('p2sh', 'p2pkh'):
    for d in (0, 1, 600): assert make_close_seal_tx_template(b'd' * 32, seal(1, 1), meth=m, dust=d).vout[0].nValue == d
'''),
'template-sorted-seals': dict(property='C13',
  edits=[(US, "    txins = [CTxIn(seal.outpoint) for seal in seals]\n", "    txins = [CTxIn(outpoint) for outpoint in dict.fromkeys(seal.outpoint for seal in seals)]\n")],
  needs='two seals with one outpoint (and different nonces)',
  breaks='there is no input for one of the seals',
  demo=SEALS + '''a = BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, 1), nonce=b'\\x07' * 16)
b = BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, 1), nonce=b'\\x08' * 16)
assert len(make_close_seal_tx_template(b'd' * 32, a, b).vin) == 2
'''),
'gumap-children-order': dict(property='C14',
  edits=[(CG, "            msg = left.seal.hash + right.seal.hash\n", "            msg = min(left.seal.hash, right.seal.hash) + max(left.seal.hash, right.seal.hash)\n")],
  needs='a witness made for the children in the other order',
  breaks='an inner node with its children swapped verifies',
  demo='GU'),
'gumap-shared-tag': dict(property='C14',
  edits=[(CG, "                cls.CONTENTS_HASHTAG = HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)", "                subclass.CONTENTS_HASHTAG = HashTag('b925044d-320e-4c1f-9ef8-20614d260676').derive(cls.HASHTAG)")],
  needs='an inner node of a map made before the first leaf of it',
  breaks='leaves are committed to under the tag of inner nodes',
  demo='GU'),
'varint-ffff': dict(property='C15',
  edits=[(SER, "        elif i <= 0xffff:\n            f.write(_bchr(0xfd))", "        elif i < 0xffff:\n            f.write(_bchr(0xfd))")],
  needs='the number 65535', breaks='an encoding that is not the shortest',
  demo='''from bitcoin.core.serialize import VarIntSerializer as V
assert V.serialize(65535) == b'\\xfd\\xff\\xff' and V.serialize(65536) == b'\\xfe\\0\\0\\1\\0'
'''),
'vector-prealloc': dict(property='C15',
  edits=[(SER, "        r = []\n        for i in range(n):\n            r.append(inner_cls.stream_deserialize(f))\n        return r\n", "        r = [None] * n\n        for i in range(n):\n            r[i] = inner_cls.stream_deserialize(f)\n        return r\n")],
  needs='a vector whose announced length is huge and whose contents are missing',
  breaks='memory is used in proportion to a number in the input, and another error is raised',
  demo='''from bitcoin.core.serialize import *
from bitcoin.core import CTxIn
import io
for n in (2 ** 64 - 1, 2 ** 62, 10):
    try: VectorSerializer.stream_deserialize(CTxIn, io.BytesIO(b'\\xff' + n.to_bytes(8, 'little')))
    except SerializationTruncationError: pass
'''),
'tx-version-unsigned': dict(property='C16',
  edits=[(C, '''    def stream_deserialize(cls, f):
        nVersion = struct.unpack(b"<i", ser_read(f,4))[0]
        vin =''', '''    def stream_deserialize(cls, f):
        nVersion = struct.unpack(b"<I", ser_read(f,4))[0]
        vin ='''), (C, '''        f.write(struct.pack(b"<i", self.nVersion))
        VectorSerializer.stream_serialize(CTxIn, self.vin, f)''', '''        f.write(struct.pack(b"<I", self.nVersion & 0xffffffff))
        VectorSerializer.stream_serialize(CTxIn, self.vin, f)''')],
  needs='a transaction with a negative version', breaks='the version decodes to another number',
  demo='''from bitcoin.core import *
for v in (1, -1, -2 ** 31, 2 ** 31 - 1): assert CTransaction.deserialize(CTransaction(nVersion=v).serialize()).nVersion == v
'''),
'outpoint-index-signed': dict(property='C16',
  edits=[(C, '''        hash = ser_read(f,32)
        n = struct.unpack(b"<I", ser_read(f,4))[0]
        return cls(hash, n)''', '''        hash = ser_read(f,32)
        n = struct.unpack(b"<i", ser_read(f,4))[0]
        if n < 0:
            n = 0xffffffff
        return cls(hash, n)''')],
  needs='an output index of 2^31 or more that is not 2^32-1', breaks='the outpoint decodes to the null index',
  demo='''from bitcoin.core import *
for n in (0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1): assert COutPoint.deserialize(COutPoint(b'a' * 32, n).serialize()).n == n
'''),
'mutable-alias-txout': dict(property='C17',
  edits=[(C, '''        """Create a fullly mutable copy of an existing TxOut"""
        return cls(txout.nValue, txout.scriptPubKey)''', '''        """Create a fullly mutable copy of an existing TxOut"""
        if txout.__class__ is cls:
            return txout
        return cls(txout.nValue, txout.scriptPubKey)''')],
  needs='a mutable copy of a mutable transaction', breaks='a change of an output of the copy changes the original',
  demo='''from bitcoin.core import *
a = CMutableTransaction([], [CMutableTxOut(5)])
b = CMutableTransaction.from_tx(a); b.vout[0].nValue = 6
assert a.vout[0].nValue == 5
'''),
'immutable-alias-txout': dict(property='C17',
  edits=[(C, "        if txout.__class__ is CTxOut:\n", "        if isinstance(txout, CTxOut) and not hasattr(txout, '__dict__'):\n")],
  needs='a subclass with slots', breaks='a mutable output is shared with the immutable transaction',
  demo='''from bitcoin.core import *
o = CMutableTxOut(5)
t = CTransaction([], [o]); h = t.serialize(); o.nValue = 6
assert t.serialize() == h
'''),
'pushdata2-65535': dict(property='C18',
  edits=[(SCR, "        elif len(d) <= 0xffff:\n            return b'\\x4d'", "        elif len(d) < 0xffff:\n            return b'\\x4d'")],
  needs='a push of exactly 65535 bytes', breaks='the push built is not the smallest one',
  demo='''from bitcoin.core.script import *
s = CScript([b'a' * 65535])
assert s.has_canonical_pushes() and s[0] == 0x4d
'''),
'pushdata4-length-truncated': dict(property='C18',
  edits=[(SCR, "                    if i + 3 >= len(self):\n", "                    if i + 2 >= len(self):\n")],
  needs='a script that ends in the third byte of the length of a four-byte push',
  breaks='another error instead of the one for invalid scripts',
  demo='''from bitcoin.core.script import *
for n in range(4): assert not CScript(b'\\x4e' + b'\\0' * n).is_valid(), n
'''),
'sigops-last-opcode-push': dict(property='C19',
  edits=[(SCR, "                lastOpcode = opcode\n", "                if data is None:\n                    lastOpcode = opcode\n")],
  needs='a small number followed by a push right before CHECKMULTISIG, counted accurately',
  breaks='the number of signature operations is not that of the protocol',
  demo='''from bitcoin.core.script import *
assert CScript([OP_2, b'a' * 33, OP_CHECKMULTISIG]).GetSigOpCount(True) == 20
assert CScript([OP_2, OP_CHECKMULTISIG]).GetSigOpCount(True) == 2
'''),
'bignum-negative-ext': dict(property='C20',
  edits=[(BN, "        have_ext = (v.bit_length() & 0x07) == 0\n", "        have_ext = ((v if v > 0 else v + 1).bit_length() & 0x07) == 0\n")],
  needs='-128 and other negatives of powers of two, or -129',
  breaks='the encoding of a negative number decodes to another one',
  demo='''from bitcoin.core._bignum import *
for v in range(-70000, 70000): assert vch2bn(bn2vch(v)) == v, v
'''),
'eval-multisig-drop-first': dict(property='C21',
  edits=[(EV, "    for k in range(sigs_count):\n        sig = stack[-isig - k]\n", "    for k in range(min(sigs_count, 1)):\n        sig = stack[-isig - k]\n")],
  needs='a multisignature script that contains its second signature', breaks='the hash signed is another one',
  demo='MS'),
'eval-alt-limit': dict(property='C21',
  edits=[(EV, "        if len(stack) + len(altstack) > MAX_STACK_ITEMS:\n", "        if len(stack) + len(altstack) > MAX_STACK_ITEMS and fExec:\n")],
  needs='x', breaks='x', demo='raise SystemExit(1)\n'),
'eval-pick-equal': dict(property='C21',
  edits=[(EV, "                if n < 0 or n >= len(stack):\n", "                if n < 0 or n > len(stack):\n")],
  needs='PICK or ROLL of exactly as many items as there are', breaks='an internal error instead of a failed script',
  demo='''from bitcoin.core.script import *
from bitcoin.core.scripteval import *
for op in (OP_PICK, OP_ROLL):
    try: EvalScript([], CScript([1, 1, 2, op]), None, 0)
    except EvalScriptError: pass
'''),
'eval-within-upper': dict(property='C21',
  edits=[(EV, "                v = (bn2 <= bn1) and (bn1 < bn3)\n", "                v = bn1 in range(min(bn2, bn3), bn3) or bn1 == bn2 == -bn3 != 0 and bn1 < 0\n")],
  needs='x', breaks='x', demo='raise SystemExit(1)\n'),
'eval-bool-negzero': dict(property='C21',
  edits=[(EV, "            if (i == (len(s) - 1)) and (sv == 0x80):\n", "            if (i == (len(s) - 1)) and (sv == 0x80) and len(s) <= MAX_NUM_SIZE:\n")],
  needs='a negative zero of more than four bytes', breaks='it is taken as true',
  demo='''from bitcoin.core.script import *
from bitcoin.core.scripteval import *
for n in range(9):
    st = []; EvalScript(st, CScript([b'\\0' * n + b'\\x80', OP_IF, 1, OP_ELSE, 2, OP_ENDIF]), None, 0)
    assert st == [b'\\2'], n
'''),
'verify-vout-bound': dict(property='C22',
  edits=[(EV, "    if txin.prevout.n >= len(txFrom.vout):\n", "    if txin.prevout.n > len(txFrom.vout):\n")],
  needs='an input spending the output just past the last one', breaks='an internal error instead of a rejection',
  demo='''from bitcoin.core import *
from bitcoin.core.scripteval import *
f = CTransaction([], [CTxOut(1)])
try: VerifySignature(f, CTransaction([CTxIn(COutPoint(f.GetHash(), 1))]), 0)
except VerifySignatureError: pass
'''),
'verify-p2sh-copy': dict(property='C22',
  edits=[(EV, "        pubKey2 = CScript(stackCopy.pop())\n\n        EvalScript(stackCopy, pubKey2, txTo, inIdx, flags=flags)\n", "        pubKey2 = CScript(stackCopy.pop())\n        stackCopy = stackCopy[-20:]\n\n        EvalScript(stackCopy, pubKey2, txTo, inIdx, flags=flags)\n")],
  needs='a redeem script that uses more than twenty items of the stack', breaks='a valid spend is rejected',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
for n in (1, 20, 25):
    r = CScript([OP_DROP] * (n - 1))
    VerifyScript(CScript([OP_1] * n + [r]), r.to_p2sh_scriptPubKey(), None, 0, (SCRIPT_VERIFY_P2SH,))
'''),
'sighash-alias': dict(property='C23',
  edits=[(SCR, "    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)\n", "    txtmp = bitcoin.core.CMutableTransaction(list(txTo.vin), list(txTo.vout), txTo.nLockTime, txTo.nVersion)\n    txtmp.vin = [txin if txin.__class__ is bitcoin.core.CMutableTxIn and not txin.scriptSig else bitcoin.core.CMutableTxIn.from_txin(txin) for txin in txtmp.vin]\n")],
  needs='a mutable transaction with empty input scripts (as being signed), hash type NONE or SINGLE',
  breaks='computing the hash changes the transaction',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
t = CMutableTransaction([CMutableTxIn(), CMutableTxIn()], [CMutableTxOut(1), CMutableTxOut(2)])
for h in (1, 2, 3, 0x81, 0x82, 0x83):
    b = t.serialize(); SignatureHash(CScript([OP_1]), t, 0, h); assert t.serialize() == b, h
'''),
'checkblock-sigops-per-tx': dict(property='C24',
  edits=[(C, "        nSigOps += GetLegacySigOpCount(tx)\n        if nSigOps", "        nSigOps = max(nSigOps, GetLegacySigOpCount(tx))\n        if nSigOps")],
  needs='two transactions of a block that together have too many signature operations', breaks='the block is accepted',
  demo='''from bitcoin.core import *
from bitcoin.core.script import *
cb = CTransaction([CTxIn(COutPoint(), CScript(b'aa'))], [CTxOut(0, CScript(b'\\xac' * 15000))])
t = CTransaction([CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(0, CScript(b'\\xac' * 15000))])
b = CBlock(vtx=[cb, t])
try: CheckBlock(b, False, False)
except CheckBlockError: pass
else: raise SystemExit(1)
'''),
'checktx-coinbase-null': dict(property='C24',
  edits=[(C, "        for txin in tx.vin:\n            if txin.prevout.is_null():\n", "        for txin in tx.vin[1:]:\n            if txin.prevout.is_null():\n")],
  needs='a transaction of several inputs whose first one is null', breaks='it is accepted',
  demo='''from bitcoin.core import *
try: CheckTransaction(CTransaction([CTxIn(), CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(0)]))
except CheckTransactionError: pass
else: raise SystemExit(1)
'''),
'compact-size-sign': dict(property='C25',
  edits=[(SER, "    nbytes = (c >> 24) & 0xFF\n", "    nbytes = (c >> 24) & 0x3F\n")],
  needs='a size byte of 64 or more', breaks='the target is another number',
  demo='''from bitcoin.core.serialize import uint256_from_compact as u
for n in (3, 34, 63, 64, 100, 255): assert u((n << 24) | 0x123456) == 0x123456 << (8 * (n - 3)), n
'''),
'merkle-odd-level': dict(property='C26',
  edits=[(C, "                i2 = min(i+1, size-1)\n", "                i2 = min(i+1, max(size, len(txids) - 4)-1)\n")],
  needs='nine or more transactions with an odd level', breaks='the root is another one',
  demo='''from bitcoin.core import *
def root(l):
    while len(l) > 1:
        if len(l) % 2: l = l + l[-1:]
        l = [Hash(l[i] + l[i + 1]) for i in range(0, len(l), 2)]
    return l[0]
for n in range(1, 40):
    l = [bytes([i]) * 32 for i in range(n)]
    assert CBlock.build_merkle_tree_from_txids(l)[-1] == root(l), n
'''),
'b58-single-one': dict(property='C27',
  edits=[(BL + 'base58.py', "    for c in s[:-1]:\n        if c == B58_DIGITS[0]: pad += 1\n", "    for c in s[:-1]:\n        if c == B58_DIGITS[0] and pad < 32: pad += 1\n")],
  needs='more than 32 leading zero bytes', breaks='bytes do not come back from their text',
  demo='''from bitcoin.base58 import *
for n in range(80): assert decode(encode(b'\\0' * n)) == b'\\0' * n and decode(encode(b'\\0' * n + b'x')) == b'\\0' * n + b'x', n
'''),
'b58-check-short': dict(property='C27',
  edits=[(BL + 'base58.py', "        if check0 != check1:\n", "        if check0[:3] != check1[:3]:\n")],
  needs='a corruption of the last byte of the checksum only', breaks='corrupted text is accepted',
  demo='''from bitcoin.base58 import *
k = decode('1C7zdTfnkzmr13HfA2vNm5SJYRK6nEKyq8')
try: CBase58Data(encode(k[:-1] + bytes([k[-1] ^ 1])))
except Base58ChecksumError: pass
else: raise SystemExit(1)
'''),
'addr-push-length': dict(property='C28',
  edits=[(BL + 'wallet.py', "                and _bord(scriptPubKey[2])  == 0x14\n", "                and _bord(scriptPubKey[2])  <= 0x14\n")],
  needs='a script of 25 bytes with a shorter push at the place of the hash', breaks='a script that is not an address script gets an address',
  demo='''from bitcoin.core.script import *
from bitcoin.wallet import *
for n in range(15, 20):
    s = CScript([OP_DUP, OP_HASH160, b'a' * n] + [OP_NOP] * (20 - n) + [OP_EQUALVERIFY, OP_CHECKSIG])
    try: CBitcoinAddress.from_scriptPubKey(s)
    except CBitcoinAddressError: pass
    else: raise SystemExit(1)
'''),
'bloom-full-first-byte': dict(property='C29',
  edits=[(BL + 'bloom.py', '''            elem = elem.serialize()

        if len(self.vData) == 1 and self.vData[0] == 0xff:
            return

''', '''            elem = elem.serialize()

        if len(self.vData) and self.vData[0] == 0xff and self.vData[-1] == 0xff:
            return

''')],
  needs='a filter whose first and last bytes are full', breaks='an element inserted is not found',
  demo='''from bitcoin.bloom import *
f = CBloomFilter(20, 0.01, 0, 0); f.vData = bytearray(b'\\xff' + bytes(20) + b'\\xff')
for i in range(20): f.insert(bytes([i])); assert f.contains(bytes([i]))
'''),
'murmur-long': dict(property='C29',
  edits=[(BL + 'bloom.py', "    h1 ^= len(vDataToHash) & 0xFFFFFFFF\n", "    h1 ^= len(vDataToHash) & 0xFF\n")],
  needs='data of 256 bytes or more', breaks='the hash is not MurmurHash3',
  demo='''from bitcoin.bloom import MurmurHash3 as m
def ref(seed, d):
    r = lambda x, n: ((x << n) | (x >> (32 - n))) & 0xffffffff
    h = seed
    for i in range(0, len(d) - len(d) % 4, 4):
        k = r(int.from_bytes(d[i:i + 4], 'little') * 0xcc9e2d51 & 0xffffffff, 15) * 0x1b873593 & 0xffffffff
        h = (r(h ^ k, 13) * 5 + 0xe6546b64) & 0xffffffff
    k = int.from_bytes(d[len(d) - len(d) % 4:], 'little')
    h ^= r(k * 0xcc9e2d51 & 0xffffffff, 15) * 0x1b873593 & 0xffffffff
    h ^= len(d); h ^= h >> 16; h = h * 0x85ebca6b & 0xffffffff; h ^= h >> 13; h = h * 0xc2b2ae35 & 0xffffffff
    return h ^ (h >> 16)
for n in (0, 1, 2, 3, 4, 255, 256, 300): assert m(5, b'x' * n) == ref(5, b'x' * n), n
'''),
'msg-checksum-partial': dict(property='C30',
  edits=[(BL + 'messages.py', "        if checksum != h[:4]:\n", "        if msglen and checksum != h[:4]:\n")],
  needs='a message without a body and with a wrong checksum', breaks='a corrupt frame is accepted',
  demo='''from bitcoin.messages import *
b = bytearray(msg_verack().to_bytes()); b[-1] ^= 1
try: MsgSerializable.from_bytes(bytes(b))
except ValueError: pass
else: raise SystemExit(1)
'''),
'alert-cancel-truncated': dict(property='C30',
  edits=[(BL + 'net.py', '        c.nRelayUntil = struct.unpack(b"<q", ser_read(f,8))[0]\n', '        c.nRelayUntil = struct.unpack(b"<Q", ser_read(f,8))[0]\n')],
  needs='a negative time', breaks='the alert decodes to another time',
  demo='''from bitcoin.net import *
a = CUnsignedAlert(); a.nRelayUntil = -5
assert CUnsignedAlert.deserialize(a.serialize()).nRelayUntil == -5
'''),
'key-verify-error': dict(property='C31',
  edits=[(KEY, "        return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1\n", "        return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) != 0\n")],
  needs='a signature that is not DER', breaks='it verifies',
  demo='''from bitcoin.core.key import *
k = CECKey(); k.set_secretbytes(b'\\1' * 32)
assert k.verify(b'h' * 32, k.sign(b'h' * 32)) and not k.verify(b'h' * 32, b'junk')
'''),
'key-sig-buffer': dict(property='C31',
  edits=[(KEY, "        return mb_sig.raw[:sig_size0.value]\n", "        return mb_sig.raw[:max(sig_size0.value, 71)]\n")],
  needs='a signature shorter than 71 bytes', breaks='the signature carries bytes after its end',
  demo='''from bitcoin.core.key import *
k = CECKey(); k.set_secretbytes(b'\\1' * 32)
for i in range(60):
    s = k.sign(bytes([i]) * 32); assert len(s) == s[1] + 2
'''),
'rpc-balance-float': dict(property='C32',
  edits=[(BL + 'rpc.py', "        r = self._call('getreceivedbyaddress', str(addr), minconf)\n        return int(r * COIN)\n", "        r = self._call('getreceivedbyaddress', str(addr), minconf)\n        return int(float(r) * COIN)\n")],
  needs='an amount such as 0.29', breaks='an amount is off by one unit',
  demo='''from bitcoin.rpc import Proxy
import decimal
p = Proxy('http://u:p@localhost:1')
for s, n in (('0.29', 29000000), ('1.15', 115000000), ('20999999.99999999', 2099999999999999), ('0.00000001', 1)):
    p._call = lambda *a: decimal.Decimal(s)
    assert p.getreceivedbyaddress('x') == n, s
'''),
'rpc-txout-order': dict(property='C32',
  edits=[(BL + 'rpc.py', "        r['bestblock'] = lx(r['bestblock'])\n", "        r['bestblock'] = lx(r['bestblock'].lstrip('0').zfill(56))\n")],
  needs='a block hash with fewer than eight leading zeros (or more)', breaks='the hash has another length',
  demo='''from bitcoin.rpc import Proxy
from bitcoin.core import *
import decimal
p = Proxy('http://u:p@localhost:1')
p._call = lambda *a: {'value': decimal.Decimal('1.0'), 'scriptPubKey': {'hex': '51'}, 'bestblock': '0' * 10 + 'ab' * 27}
assert len(p.gettxout(COutPoint(b'a' * 32, 1))['bestblock']) == 32
'''),
}
GU = '''from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
from proofmarshal.serialize import *
import proofmarshal.bits
def world(tag):
    @make_GuMap_subclass
    class Map(GuMap):
        HASHTAG = HashTag(tag)
        KEY_SERIALIZER = FixedBytes(4); VALUE_SERIALIZER = UInt64
        SEAL_CLASS = BitcoinSingleUseSeal; WITNESS_CLASS = BitcoinSealWitness
        @staticmethod
        def key2prefix(k): return proofmarshal.bits.Bits.from_bytes(k, 32)
    return Map
def unused(Map, bits, h): return Map.UnusedPrefix(prefix=proofmarshal.bits.Bits(bits), seal=FakeSingleUseSeal(committed_hash=h * 32))
log = []
def witness(seal, h): log.append(h); return FakeSealWitness.from_hash(h)
A = world('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d0a'); B = world('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d0a')
l, r = unused(A, [0], b'l'), unused(A, [1], b'r')
A.InnerPrefix.from_unused_prefix(unused(A, [], b'x'), l, r, witness); A.InnerPrefix.from_unused_prefix(unused(A, [], b'x'), r, l, witness)
assert log[0] != log[1]
n = A.LeafPrefix.from_unused_prefix(unused(A, [], b'x'), b'abcd', 5, witness)
B.LeafPrefix.from_unused_prefix(unused(B, [], b'x'), b'abcd', 5, witness)
assert log[2] == log[3]
'''
for k in ('gumap-children-order', 'gumap-shared-tag'): SEEDS[k]['demo'] = GU
for k in [k for k, v in SEEDS.items() if v['needs'] == 'x' or v['breaks'] == 'x']: del SEEDS[k]
SEEDS['eval-multisig-drop-first']['demo'] = '''from bitcoin.core import *
from bitcoin.core.script import *
import bitcoin.core.scripteval as E
seen = []
def spy(sig, pubkey, script, txTo, inIdx, err): seen.append(bytes(script)); return True
E._CheckSig = spy
s1, s2 = b'\\x30' * 10, b'\\x31' * 10
t = CTransaction([CTxIn()], [CTxOut(1)])
E.EvalScript([b'', s1, s2], CScript([s1, OP_DROP, s2, OP_DROP, 2, b'k' * 33, b'm' * 33, 2, OP_CHECKMULTISIG]), t, 0)
assert all(s1 not in s and s2 not in s for s in seen) and seen
'''
