B='lib/python-bitcoinlib/bitcoin/'
TOOL='''
import subprocess, sys, os, tempfile
R = os.getcwd()
sys.path[:0] = [R, R+'/lib/python-bitcoinlib', R+'/lib/python-proofmarshal']
import glob
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
d = tempfile.mkdtemp()
os.mkdir(d + '/.bitcoin')
with open(d + '/.bitcoin/bitcoin.conf', 'w') as f: f.write('rpcuser=u\\nrpcpassword=p\\n')
env = dict(os.environ, HOME=d, PYTHONPATH=os.pathsep.join(sys.path[:3]))
def tool(*args):
    p = subprocess.run([sys.executable, R+'/sus-tool.py'] + list(args), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode()
def put(name, obj):
    with open(d+'/'+name, 'wb') as f: f.write(obj.serialize())
def witness(n=1, nonce=b'n'*16, digest=b'd'*32):
    seal = BitcoinSingleUseSeal(outpoint=COutPoint(b'h'*32, n), nonce=nonce)
    tx = CTransaction([CTxIn(seal.outpoint)], [CTxOut(0, CScript([OP_RETURN, digest]))])
    t = TxProof(tx=tx)
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=t), txoutproof=TxOutProof(i=0, txproof=t))
'''
SEEDS = {
'tool-info-index-signed': dict(property='C33', edits=[('sus-tool.py', "    print('OutPoint:\\t%s:%d' % (b2lx(seal.outpoint.hash), seal.outpoint.n))", "    print('OutPoint:\\t%s:%d' % (b2lx(seal.outpoint.hash), seal.outpoint.n & 0x7fffffff))")],
  needs='sealinfo of a seal on an output index above 2^31', breaks='another outpoint is printed', demo=TOOL+'''
for n in (5, 0x80000001):
    put('s', BitcoinSingleUseSeal(outpoint=COutPoint(b'h'*32, n), nonce=b'n'*16))
    rc, out = tool('sealinfo', 's')
    assert rc == 0 and ('68'*32 + ':%d\\n' % n) in out, (rc, out)
'''),
'tool-digest-only-without-seal': dict(property='C33', edits=[('sus-tool.py', "    if args.digest is not None:\n        witness.verify_hash(args.digest)", "    if args.digest is not None and args.seal_id is None:\n        witness.verify_hash(args.digest)")],
  needs='verifywitness with both a digest and a seal hash', breaks='the digest is not looked at', demo=TOOL+'''
w = witness()
put('w', w)
assert tool('verifywitness', '-d', '64'*32, '--seal-id', b2x(w.seal.hash), 'w')[0] == 0
assert tool('verifywitness', '-d', '65'*32, 'w')[0] != 0
assert tool('verifywitness', '-d', '65'*32, '--seal-id', b2x(w.seal.hash), 'w')[0] != 0
'''),
'tool-outpoint-base': dict(property='C33', edits=[('sus-tool.py', "            n = int(str_n)", "            n = int(str_n, 0)")],
  needs='an output index written in another notation', breaks='0x10 is taken, 010 refused', demo=TOOL+'''
assert tool('mkseal', '68'*32 + ':0x10', 'a')[0] != 0 or not os.path.getsize(d + '/a') if os.path.exists(d + '/a') else True
tool('mkseal', '68'*32 + ':10', 'b')
assert os.path.getsize(d + '/b') > 0
rc, out = tool('mkseal', '68'*32 + ':0x11', 'c')
assert not os.path.exists(d + '/c'), 'taken'
'''),
'template-dust-floor': dict(property='C13', edits=[('proofchains/uniquebits/singleuseseal.py', "        txout = CTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))", "        txout = CTxOut(max(dust, 546), CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))")],
  needs='a dust amount below 546', breaks='the p2sh output is worth more than asked', demo='''
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template as m
assert m(b'd'*32, meth='p2sh', dust=600).vout[0].nValue == 600
assert m(b'd'*32, meth='p2sh', dust=100).vout[0].nValue == 100
'''),
'script-pushdata4-short-length': dict(property='C18', edits=[(B+'core/script.py', "                    if i + 3 >= len(self):", "                    if i + 3 > len(self):")],
  needs='a script ending three bytes into the length of a PUSHDATA4', breaks='an IndexError instead of the invalid-script error', demo='''
from bitcoin.core.script import CScript, CScriptInvalidError
for k in range(4):
    try: list(CScript(b'\\x4e' + b'\\x00'*k)); assert False
    except CScriptInvalidError: pass
'''),
'verify-p2sh-pushonly-late': dict(property='C27', edits=[(B+'base58.py', "        if check0 != check1:", "        if check0.strip(b'\\x00') != check1.strip(b'\\x00'):")],
  needs='a checksum starting or ending with a zero byte, with the zero moved', breaks='a corrupt checksum is accepted', demo='''
import bitcoin.base58 as b, bitcoin.core
for i in range(100000):
    d = i.to_bytes(4, 'big')
    h = bitcoin.core.Hash(b'\\x00' + d)[:4]
    if h[0] == 0 and h[3] != 0: break
try: b.CBase58Data(b.encode(b'\\x00' + d + h[1:] + h[:1])); assert False
except b.Base58ChecksumError: pass
'''),
}
SEEDS['b58-checksum-strip'] = SEEDS.pop('verify-p2sh-pushonly-late')
