C='lib/python-bitcoinlib/bitcoin/core/'
B='lib/python-bitcoinlib/bitcoin/'
P='lib/python-proofmarshal/proofmarshal/'
U='proofchains/core/uniquebits/'
SEEDS = {
'fake-seal-prefix': dict(property='C11', edits=[(U+'singleuseseal.py', "assert self.seal.committed_hash == hash", "assert self.seal.committed_hash.startswith(hash)")],
  needs='a hash that is a proper prefix of the committed one', breaks='the witness accepts it', demo='''
from proofchains.core.uniquebits.singleuseseal import *
w = FakeSealWitness.from_hash(bytes(range(32)))
w.verify_hash(bytes(range(32)))
try: w.verify_hash(bytes(range(31)))
except Exception: pass
else: assert False
'''),
'txout-value-unsigned': dict(property='C16', edits=[(C+'__init__.py', 'nValue = struct.unpack(b"<q", ser_read(f,8))[0]', 'nValue = struct.unpack(b"<Q", ser_read(f,8))[0]')],
  needs='an output with a negative value (as the signature hash uses)', breaks='it decodes to another value', demo='''
from bitcoin.core import *
t = CTxOut()
assert CTxOut.deserialize(t.serialize()).nValue == -1
'''),
'checkblock-dup-adjacent': dict(property='C24', edits=[(C+'__init__.py', "        if txid in unique_txids:\n            raise CheckBlockError(\"CheckBlock() : duplicate transaction\")\n        unique_txids.add(txid)", "        if txid in unique_txids:\n            raise CheckBlockError(\"CheckBlock() : duplicate transaction\")\n        unique_txids = {txid}")],
  needs='a block with a transaction repeated, but not right after itself', breaks='accepted', demo='''
from bitcoin.core import *
from bitcoin.core.script import CScript
def tx(k): return CTransaction([CTxIn(COutPoint(bytes([k])*32, 0))], [CTxOut(1, CScript())])
cb = CTransaction([CTxIn(COutPoint(), CScript(b'\\1\\1'))], [CTxOut(1, CScript())])
v = [cb, tx(1), tx(2), tx(1)]
b = CBlock(vtx=v)
try: CheckBlock(b, fCheckPoW=False, fCheckMerkleRoot=False, cur_time=1)
except ValidationError: pass
else: assert False
'''),
'checkblock-sigops-accurate': dict(property='C24', edits=[(C+'__init__.py', "nSigOps += txout.scriptPubKey.GetSigOpCount(False)", "nSigOps += txout.scriptPubKey.GetSigOpCount(True)")],
  needs='a block of outputs with multisig after small integers', breaks='its signature operations are undercounted', demo='''
from bitcoin.core import *
from bitcoin.core.script import *
s = CScript([OP_1, OP_CHECKMULTISIG] * 1001)
t = CTransaction([CTxIn(COutPoint(), CScript(b'\\1\\1'))], [CTxOut(1, s)])
try: CheckBlock(CBlock(vtx=[t]), fCheckPoW=False, fCheckMerkleRoot=False, cur_time=1)
except ValidationError: pass
else: assert False
'''),
'rpc-index-error-code': dict(property='C32', edits=[(B+'rpc.py', "            r = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)\n        except JSONRPCException as ex:\n", "            r = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)\n        except JSONRPCException as ex:\n            if ex.error['code'] != -5:\n                raise\n")],
  needs='an error answer with another code than "invalid address or key"', breaks='not the documented exception', demo='''
import bitcoin.rpc as r
class R:
    def read(self): return b'{"error": {"code": -8, "message": "x"}, "result": null}'
class Conn:
    def request(self, *a): pass
    def getresponse(self): return R()
p = r.Proxy('http://a:b@localhost', _connection=Conn())
try: p.getrawtransaction(b'\\0'*32)
except IndexError: pass
'''),
'b58-checksum-3': dict(property='C27', edits=[(B+'base58.py', "        if check0 != check1:", "        if check0[:3] != check1[:3]:")],
  needs='text whose checksum differs in its last byte only', breaks='accepted', demo='''
from bitcoin.base58 import *
import bitcoin.core
d = b'\\5' + b'payload'; k = bitcoin.core.Hash(d)[:4]
assert CBase58Data(encode(d + k)) == b'payload'
try: CBase58Data(encode(d + k[:3] + bytes([k[3] ^ 1])))
except Base58Error: pass
else: assert False
'''),
'sighash-codesep-in-push': dict(property='C23', edits=[(C+'script.py', "FindAndDelete(script, CScript([OP_CODESEPARATOR]))", "CScript(script.replace(b'\\xab', b''))")],
  needs='a script with the code separator byte inside pushed data', breaks='the byte is removed from the data', demo='''
from bitcoin.core import *
from bitcoin.core.script import *
t = CTransaction([CTxIn(COutPoint(b'\\1'*32, 0))], [CTxOut(1, CScript())])
assert SignatureHash(CScript([b'\\xab\\xab']), t, 0, 1) != SignatureHash(CScript([b'']), t, 0, 1) != SignatureHash(CScript(b'\\x02'), t, 0, 1)
assert SignatureHash(CScript([b'\\xab\\xab']), t, 0, 1) != SignatureHash(CScript(b'\\x02'), t, 0, 1)
'''),
'verify-p2sh-inner-last': dict(property='C22', edits=[(C+'scripteval.py', "        if not _CastToBool(stackCopy[-1]):", "        if not _CastToBool(stackCopy[0]):")],
  needs='a redeem script that leaves several values, true below and false on top', breaks='accepted', demo='''
from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
r = CScript([OP_1, OP_0]); s = r.to_p2sh_scriptPubKey()
t = CTransaction([CTxIn(COutPoint(b'\\1'*32, 0), CScript([r]))], [CTxOut(1, CScript())])
try: VerifyScript(t.vin[0].scriptSig, s, t, 0, (SCRIPT_VERIFY_P2SH,))
except ValidationError: pass
else: assert False
'''),
'eval-multisig-opcount': dict(property='C21', edits=[(C+'scripteval.py', "    nOpCount[0] += keys_count\n    if nOpCount[0] > MAX_SCRIPT_OPCODES:\n", "    if nOpCount[0] + keys_count > MAX_SCRIPT_OPCODES:\n")],
  needs='several multisig operations whose keys together exceed the operation limit', breaks='the script is not failed', demo='''
from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
t = CTransaction([CTxIn(COutPoint(b'\\1'*32, 0))], [CTxOut(1, CScript())])
s = CScript(([OP_0, OP_0] + [b'k'] * 20 + [20, OP_CHECKMULTISIG]) * 11)
try: EvalScript([], s, t, 0)
except EvalScriptError: pass
else: assert False
'''),
'prune-of-partial-child': dict(property='C06', edits=[(P+'proof.py', "            if isinstance(value, Proof):\n                value = value.prune()", "            if isinstance(value, Proof) and not value.is_pruned:\n                value = value.prune()")],
  needs='a pruned copy of a proof parts of which had been pruned away, accessed only down to such a part', breaks='everything present in that part is kept, not only what was accessed', demo='''
from proofmarshal.proof import *
from proofmarshal.serialize import *
T = lambda k: HashTag('%d1111111-1111-1111-1111-111111111111' % k)
class L(Proof):
    HASHTAG = T(1); __slots__ = ['n']; SERIALIZED_ATTRS = [('n', UInt8)]
class A(Proof):
    HASHTAG = T(2); __slots__ = ['x', 'y']; SERIALIZED_ATTRS = [('x', L), ('y', L)]
class B(Proof):
    HASHTAG = T(3); __slots__ = ['a']; SERIALIZED_ATTRS = [('a', A)]
b = B(a=A(x=L(n=1), y=L(n=2)))
p = b.prune(); p.a.x.n
q = B.ctx_deserialize(BytesDeserializationContext(p.serialize()))
r = q.prune(); r.a
z = B.ctx_deserialize(BytesDeserializationContext(r.serialize()))
assert z.hash == b.hash
try: z.a.x
except PrunedError: pass
else: assert False
'''),
'mbt-values-cached': dict(property='C09', edits=[(P+'merbinnertree.py', "            yield from self.left.values()\n            yield from self.right.values()", "            l, r = list(self.left.values()), list(self.right.values())\n            yield from (l + r if len(l) < 4 or len(r) < 4 else r + l)")],
  needs='a tree with at least four keys in both halves', breaks='items() pairs keys with the values of others', demo='''
from proofmarshal.merbinnertree import *
from proofmarshal.serialize import *
from proofmarshal.proof import *
import proofmarshal.bits as bits
class T(MerbinnerTree):
    __slots__ = []; HASHTAG = HashTag('11111111-1111-1111-1111-111111111111'); KEY_SERIALIZER = UInt8; VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(k): return bits.Bits.from_bytes(bytes([k]))
make_MerbinnerTree_subclass(T)
d = {k: 255 - k for k in range(0, 256, 16)}
assert dict(T(d).items()) == d
'''),
'bits-invert-short': dict(property='C03', edits=[(P+'bits.py', "for byte in self.__buf[:self.__length // 8 + 1]])", "for byte in self.__buf[:(self.__length + 7) // 8]])\n            if len(self.__buf) > len(inverted_buf) and self.__length % 8:\n                inverted_buf = inverted_buf[:-1] + self.__buf[len(inverted_buf):][:1]")],
  needs='an array of a length that is no multiple of eight backed by a longer buffer', breaks='its inverse has wrong last bits', demo='''
from proofmarshal.bits import *
a = Bits.from_bytes(b'\\xf0\\x55\\x33', 12)
assert tuple(~a) == tuple(1 - b for b in a)
'''),
'gumap-inner-verify-left': dict(property='C14', edits=[(U+'gumap.py', "            msg = left.seal.hash + right.seal.hash\n", "            msg = left.seal.hash + (right.seal.hash if right.prefix != left.prefix else left.seal.hash)\n")],
  needs='children with equal prefixes', breaks='the seal commits to the left child twice, not to both', demo='''
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
class G(GuMap):
    HASHTAG = HashTag('11111111-1111-1111-1111-111111111111'); KEY_SERIALIZER = Digest; VALUE_SERIALIZER = Digest
    SEAL_CLASS = BitcoinSingleUseSeal; WITNESS_CLASS = BitcoinSealWitness
make_GuMap_subclass(G)
def seal(k): return FakeSingleUseSeal(committed_hash=bytes([k])*32)
def up(k): return G.UnusedPrefix.__mro__[1].UnusedPrefix and super(GuMap, G.UnusedPrefix).__new__(G.UnusedPrefix, prefix=Bits(), seal=seal(k))
got = []
def mk(s, h): got.append(h); return FakeSealWitness.from_hash(h)
G.InnerPrefix.from_unused_prefix(up(1), up(2), up(3), mk)
G.InnerPrefix.from_unused_prefix(up(1), up(2), up(4), mk)
assert got[0] != got[1]
'''),
'outpoint-null-hash-only': dict(property='C24', edits=[(C+'__init__.py', "return ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))", "return ((self.hash == b'\\x00'*32) and (self.n >= 0xfffffff0))")],
  needs='an outpoint of zero hash and an index just below the null one', breaks='taken for null', demo='''
from bitcoin.core import *
from bitcoin.core.script import CScript
CheckTransaction(CTransaction([CTxIn(COutPoint(b'\\0'*32, 0xfffffffe)), CTxIn(COutPoint(b'\\1'*32, 0))], [CTxOut(1, CScript())]))
'''),
}
