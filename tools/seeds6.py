from seeds5 import PS, PP, PM, PB, MB, CB, SS, GU, TS, BL, C, SER, SCR, EV, BN, MMRDEF, PROOF
W = BL + 'wallet.py'
SEEDS = {
'proof-eq-class': dict(property='C05', edits=[(PP, "        if isinstance(other, Proof):\n            return self.hash == other.hash", "        if isinstance(other, Proof):\n            return self.__class__ is other.__class__ and self.hash == other.hash")],
    needs='two proof classes with the same tag (a subclass)', breaks='proofs with equal hashes compare different', demo='''from proofmarshal.proof import *
from proofmarshal.serialize import *
class A(Proof):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    SERIALIZED_ATTRS = [('n', UInt64)]
class B(A): pass
assert A(n=3).hash == B(n=3).hash
assert A(n=3) == B(n=3)
'''),
'pruned-error-attribute': dict(property='C06', edits=[(PP, "class PrunedError(Exception):", "class PrunedError(AttributeError):")],
    needs='a property that reads a part pruned away', breaks='the attribute error for the property, not the pruning error', demo='''from proofmarshal.proof import PrunedError
from proofchains.core.bitcoin import *
from bitcoin.core import *
p = TxInProof(i=0, txproof=TxProof(tx=CTransaction([CTxIn(COutPoint(b'\\1'*32, 0))], []))).prune()
p.i
d = TxInProof.deserialize(p.serialize())
try: d.txin
except PrunedError as e: assert e.attr_name == 'tx'
'''),
'mmr-getitem-bool': dict(property='C07', edits=[(PM, "            if isinstance(idx, int):\n                # convert", "            if type(idx) is int:\n                # convert")],
    needs='an index of a subclass of int', breaks='indexing raises the type error', demo=MMRDEF + '''class I(int): pass
m = MMR([1,2,3])
assert m[I(1)] == 2 and m[True] == 2
'''),
'mbt-lookup-pruned-absent': dict(property='C06', edits=[(MB, "        except AttributeError:\n            pass\n        raise KeyError(key)", "        except (AttributeError, proofmarshal.proof.PrunedError):\n            pass\n        raise KeyError(key)")],
    needs='a lookup in a decoded tree whose leaf was pruned away', breaks='a key that is there is reported absent', demo='''from proofmarshal.merbinnertree import *
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import *
from proofmarshal.bits import *
@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('5ae2ad20-5bf8-4b1c-8bd2-3b2b5c1b2d01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(k): return Bits(k)
ks = [b'\\0'*32, b'\\xff'*32]
t = T([(ks[0], 1), (ks[1], 2)])
p = t.prune(); assert p[ks[0]] == 1
d = T.deserialize(p.serialize())
assert d[ks[0]] == 1
try: d[ks[1]]
except PrunedError: pass
'''),
'fixedbytes-zero': dict(property='C02', edits=[(PS, "        if len(value) != cls.EXPECTED_LENGTH:", "        if cls.EXPECTED_LENGTH and len(value) != cls.EXPECTED_LENGTH:")],
    needs='fixed-length bytes of length zero', breaks='values of any length are accepted', demo='''from proofmarshal.serialize import *
F = FixedBytes(0)
F.check_instance(b'')
try: F.check_instance(b'x')
except SerializerValueError: pass
else: raise AssertionError
'''),
'varuint-continuation': dict(property='C01', edits=[(PS, "                if value > 0b01111111:\n", "                if value >> 7 or value == 0b01111111 << 56:\n"), (PS, "                if value <= 0b01111111:\n                    break\n                value >>= 7", "                value = (value & 0xffffffffffffffffff) >> 7 if value < 1 << 1024 else value % (1 << 1030) >> 7")],
    needs='a very large integer', breaks='encodings of integers above 2^1030', demo='''from proofmarshal.serialize import *
for v in (1 << 1100, (1 << 700) + 5, 127 << 56):
    c = BytesSerializationContext(); c.write_varuint(v)
    assert BytesDeserializationContext(c.getbytes()).read_varuint() == v
'''),
'read-bytes-zero': dict(property='C01', edits=[(PS, "        r = self.fd.read(l)\n        if len(r) != l:", "        r = self.fd.read(l)\n        if not r and l or len(r) < l - 1:")],
    needs='input cut short by one byte', breaks='a prefix one byte short is accepted', demo='''from proofmarshal.serialize import *
try: BytesDeserializationContext(b'abc').read_bytes(4)
except TruncationError: pass
else: raise AssertionError
'''),
'addr-noncanonical': dict(property='C28', edits=[(W, "            scriptPubKey = script.CScript(scriptPubKey) # in case it's not a CScript instance yet\n\n            try:\n                scriptPubKey = script.CScript(tuple(scriptPubKey)) # canonicalize", "            scriptPubKey = script.CScript(scriptPubKey) # in case it's not a CScript instance yet\n\n            try:\n                scriptPubKey = script.CScript([op for op in scriptPubKey if op != script.OP_NOP]) # canonicalize")],
    needs='a script with an extra no-op', breaks='a script of another form is taken for an address', demo='''from bitcoin.wallet import *
from bitcoin.core.script import *
s = CScript(b'\\x76\\x61\\xa9\\x14' + b'\\1'*20 + b'\\x88\\xac')
try: CBitcoinAddress.from_scriptPubKey(s)
except CBitcoinAddressError: pass
else: raise AssertionError
'''),
'addr-p2sh-other-network': dict(property='C28', edits=[(W, "        assert self.nVersion == bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']\n        return script.CScript([script.OP_HASH160, self, script.OP_EQUAL])", "        return script.CScript([script.OP_HASH160, self.to_bytes().rjust(20, b'\\0').lstrip(b'\\0') or bytes(20), script.OP_EQUAL])")],
    needs='a script hash with leading zero bytes', breaks='the script of the address', demo='''from bitcoin.wallet import *
a = P2SHBitcoinAddress.from_bytes(b'\\0' + b'\\1'*19)
assert a.to_scriptPubKey() == b'\\xa9\\x14\\0' + b'\\1'*19 + b'\\x87'
'''),
'p2sh-pushdata': dict(property='C19', edits=[(SCR, "        return (len(self) == 23 and\n                _bord(self[0]) == OP_HASH160 and\n                _bord(self[1]) == 0x14 and\n                _bord(self[22]) == OP_EQUAL)", "        try:\n            ops = list(self.raw_iter())\n        except CScriptInvalidError:\n            return False\n        return (len(ops) == 3 and ops[0][0] == OP_HASH160 and ops[1][1] is not None and\n                len(ops[1][1]) == 20 and ops[2][0] == OP_EQUAL)")],
    needs='the hash pushed with OP_PUSHDATA1', breaks='another script is taken for pay-to-script-hash', demo='''from bitcoin.core.script import *
assert CScript(b'\\xa9\\x14' + bytes(20) + b'\\x87').is_p2sh()
assert not CScript(b'\\xa9\\x4c\\x14' + bytes(20) + b'\\x87').is_p2sh()
'''),
'sighash-anyone-single-index': dict(property='C23', edits=[(SCR, "    if hashtype & SIGHASH_ANYONECANPAY:\n        tmp = txtmp.vin[inIdx]\n        txtmp.vin = []\n        txtmp.vin.append(tmp)", "    if hashtype & SIGHASH_ANYONECANPAY:\n        tmp = txtmp.vin[inIdx]\n        txtmp.vin = [txin for txin in txtmp.vin if txin is tmp or (txin.prevout == tmp.prevout and txin.nSequence == tmp.nSequence and not txin.scriptSig and not tmp.scriptSig)]")],
    needs='an empty script and an input of the same outpoint', breaks='the anyone-can-pay hash covers another input', demo='''from bitcoin.core import *
from bitcoin.core.script import *
import hashlib
o = COutPoint(b'\\1'*32, 0)
t = CTransaction([CTxIn(o), CTxIn(o)], [CTxOut(1)])
u = CTransaction([CTxIn(o)], [CTxOut(1)])
assert RawSignatureHash(CScript(), t, 0, 0x81)[0] == RawSignatureHash(CScript(), u, 0, 0x81)[0]
'''),
'finddelete-adjacent': dict(property='C23', edits=[(SCR, "            if not skip:\n                r += script[last_sop_idx:sop_idx]\n            last_sop_idx = sop_idx\n            if script[sop_idx:sop_idx + len(sig)] == sig:\n                skip = True\n            else:\n                skip = False", "            if not skip:\n                r += script[last_sop_idx:sop_idx]\n            last_sop_idx = sop_idx\n            if not skip and script[sop_idx:sop_idx + len(sig)] == sig:\n                skip = True\n            else:\n                skip = False")],
    needs='two code separators in a row', breaks='the second one stays', demo='''from bitcoin.core.script import *
assert FindAndDelete(CScript(b'\\x51\\xab\\xab\\x52'), CScript([OP_CODESEPARATOR])) == b'\\x51\\x52'
'''),
'block-header-cached-hash': dict(property='C16', edits=[(C, "    def GetHash(self):\n        \"\"\"Return the block hash\n", "    def GetHash(self):\n        \"\"\"Return the block hash.\n")],
    needs='-', breaks='-', demo='assert True\n'),
'from-tx-version': dict(property='C17', edits=[(C, "            vin = [CMutableTxIn.from_txin(txin) for txin in tx.vin]", "            vin = [txin if txin.__class__ is CMutableTxIn and not txin.scriptSig else CMutableTxIn.from_txin(txin) for txin in tx.vin]")],
    needs='a mutable input without a script', breaks='a mutable copy shares the input', demo='''from bitcoin.core import *
t = CMutableTransaction([CMutableTxIn(CMutableOutPoint(b'\\1'*32, 0))], [])
u = CMutableTransaction.from_tx(t)
t.vin[0].nSequence = 5
assert u.vin[0].nSequence == 0xffffffff
'''),
'merkle-dup-cve': dict(property='C26', edits=[(C, "                i2 = min(i+1, size-1)", "                i2 = min(i+1, size-1 if size != 7 else size-1-(size == len(txids) and i == 6))")],
    needs='seven transactions', breaks='the last one is paired with the one before it', demo='''from bitcoin.core import *
import hashlib
H = lambda b: hashlib.sha256(hashlib.sha256(b).digest()).digest()
l = [bytes([i])*32 for i in range(7)]
t = CBlock.build_merkle_tree_from_txids(l)
x = l
while len(x) > 1:
    if len(x) % 2: x = x + [x[-1]]
    x = [H(x[i] + x[i+1]) for i in range(0, len(x), 2)]
assert t[-1] == x[0]
'''),
'target-exponent-cap': dict(property='C25', edits=[(SER, "    if nbytes <= 3:\n        v = (c & 0xFFFFFF) >> 8 * (3 - nbytes)", "    if nbytes < 3:\n        v = (c & 0xFFFF00) >> 8 * (3 - nbytes)")],
    needs='an exponent below three whose low byte carries into the result', breaks='the decoded target', demo='''from bitcoin.core.serialize import *
for e in (0, 1, 2, 3):
    c = (e << 24) | 0x123456
    assert uint256_from_compact(c) == 0x123456 >> 8*(3-e), e
'''),
'uint256-short': dict(property='C15', edits=[(SER, "        if len(r) < n:\n            raise SerializationTruncationError", "        if len(r) < min(n, 0x1000000):\n            raise SerializationTruncationError")],
    needs='a string of more than 16 MiB cut short', breaks='accepted cut short', demo='''from bitcoin.core.serialize import *
import io
try: BytesSerializer.stream_deserialize(io.BytesIO(b'\\xfe' + (0x1000001).to_bytes(4, 'little') + bytes(0x1000000)))
except SerializationTruncationError: pass
else: raise AssertionError
'''),
'bn-mpi-negative-zero': dict(property='C20', edits=[(BN, "    if v_bytes[0] & 0x80:", "    if v_bytes[0] & 0x80 and v_bytes != b'\\x80' * len(v_bytes):")],
    needs='an encoding all of whose bytes are 0x80', breaks='the number decodes positive', demo='''from bitcoin.core._bignum import *
for v in (-0x80, -0x8080 + 0x8000, -(0x0080), -0x808080 + 0x800000):
    assert vch2bn(bn2vch(v)) == v and mpi2bn(bn2mpi(v)) == v
'''),
'key-wif-flag': dict(property='C31', edits=[(W, "len(self) > 32 and _bord(self[32]) == 1)", "len(self) > 32 and _bord(self[-1]) == 1)")],
    needs='a secret text with more than one extra byte', breaks='taken as compressed', demo='assert True\n'),
'eval-checkmultisig-order': dict(property='C21', edits=[(EV, "            if opcode == OP_PICK:\n", "            if opcode == OP_PICK or n == 0:\n")],
    needs='a roll of zero', breaks='the top item is duplicated', demo='''from bitcoin.core.script import *
from bitcoin.core.scripteval import *
from bitcoin.core import *
st = [b'\\1', b'\\2']
EvalScript(st, CScript([0, OP_ROLL]), CTransaction(), 0)
assert st == [b'\\1', b'\\2'], st
'''),
'eval-if-stack-empty-unexecuted': dict(property='C21', edits=[(EV, "                if fExec:\n                    check_args(1)\n                    vch = stack.pop()", "                if fExec:\n                    check_args(1)\n                    vch = stack.pop() if len(vfExec) < 20 else stack[-1]")],
    needs='conditionals nested twenty deep', breaks='the condition stays on the stack', demo='''from bitcoin.core.script import *
from bitcoin.core.scripteval import *
from bitcoin.core import *
st = [b'\\1'] * 25
EvalScript(st, CScript([OP_IF] * 25 + [OP_ENDIF] * 25), CTransaction(), 0)
assert st == []
'''),
'bits-invert-shared': dict(property='C03', edits=[(PB, "        if not isinstance(other, Bits):", "        if not isinstance(other, Bits) :")], needs='-', breaks='-', demo='assert True\n'),
}
for k in [k for k in SEEDS if SEEDS[k]['demo'] == 'assert True\n']: del SEEDS[k]
