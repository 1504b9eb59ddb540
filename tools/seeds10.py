T = 'sus-tool.py'
PRE = '''
import os, sys, subprocess, tempfile, shutil
from bitcoin.core import *
from proofchains.core.uniquebits.singleuseseal import *
d = tempfile.mkdtemp()
os.makedirs(d + '/.bitcoin'); open(d + '/.bitcoin/bitcoin.conf', 'w').write('rpcuser=a\\nrpcpassword=b\\n')
tool = os.path.abspath('sus-tool.py'); env = dict(os.environ, HOME=d, PYTHONPATH=os.pathsep.join(os.path.abspath(x) for x in ('lib/python-bitcoinlib', 'lib/python-proofmarshal', '.')))
def run(*a):
    r = subprocess.run([sys.executable, '-W', 'ignore', tool] + list(a), cwd=d, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout
def point(k, n): return '%02x' % k * 32 + ':%d' % n
def data(f): return open(d + '/' + f, 'rb').read()
def seal(f): return BitcoinSingleUseSeal.deserialize(data(f))
h = bytes(range(32)).hex()
try:
'''
POST = '''
finally: shutil.rmtree(d)
'''
def demo(s): return PRE + '\n'.join('    ' + l for l in s.strip().split('\n')) + POST
SEEDS = {
'tool-seal-replaced': dict(property='C33', edits=[(T, "mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb')", "mkseal_parser.add_argument('seal_fd', type=argparse.FileType('wb')")],
  needs='mkseal naming a file that exists', breaks='a seal in use is overwritten, and with it the only copy of its nonce', demo=demo('''
assert run('mkseal', point(1, 0), 'f')[0] == 0
old = data('f')
run('mkseal', point(2, 0), 'f')
assert data('f') == old
''')),
'tool-witness-replaced': dict(property='C33', edits=[(T, "with open(seal_fd.name + '.witness', 'xb')", "with open(seal_fd.name + '.witness', 'wb')")],
  needs='mkwitness of a seal witnessed before, with another transaction', breaks='the earlier witness is overwritten', demo=demo('''
run('mkseal', point(1, 0), 'f')
def tx(v): return CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(v)]).serialize().hex()
assert run('mkwitness', 'f', '--tx', tx(1))[0] == 0
old = data('f.witness')
run('mkwitness', 'f', '--tx', tx(2))
assert data('f.witness') == old
''')),
'tool-witness-any-index': dict(property='C33', edits=[(T, "            if txin.prevout == seal.outpoint:", "            if txin.prevout.hash == seal.outpoint.hash:")],
  needs='a transaction spending another output of the transaction the seal is on, before the seal or instead of it', breaks='the witness quotes an input that does not spend the seal', demo=demo('''
run('mkseal', point(1, 0), 'f')
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 5)), CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(1)])
assert run('mkwitness', 'f', '--tx', t.serialize().hex())[0] == 0
BitcoinSealWitness.deserialize(data('f.witness')).verify()
''')),
'tool-verify-either': dict(property='C33', edits=[(T, "    witness.verify()\n\n    if args.digest is not None:\n        witness.verify_hash(args.digest)", "    if args.digest is None:\n        witness.verify()\n\n    else:\n        witness.verify_hash(args.digest)")],
  needs='a digest given, and a witness committing to it whose input does not spend the seal', breaks='verifywitness succeeds', demo=demo('''
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
s = BitcoinSingleUseSeal(outpoint=COutPoint(b'\\1' * 32, 0), nonce=bytes(16))
t = CTransaction([CTxIn(COutPoint(b'\\2' * 32, 0))], [CTxOut(0, CScript([OP_RETURN, bytes(range(32))]))])
p = TxProof(tx=t)
open(d + '/w', 'wb').write(BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p)).serialize())
assert run('verifywitness', 'w')[0] != 0
assert run('verifywitness', 'w', '-d', h)[0] != 0
''')),
'tool-close-sorted': dict(property='C33', edits=[(T, "    seals = seals.keys()", "    seals = sorted(seals.keys(), key=lambda seal: seal.outpoint.n)")],
  needs='two seals given, the index of the first the larger', breaks='the printed transaction closes them in another order', demo=demo('''
run('mkseal', point(1, 7), 'f'); run('mkseal', point(2, 3), 'g')
st, out = run('mkclosetx', h, 'f', 'g')
t = CTransaction.deserialize(bytes.fromhex(out.strip()))
assert [i.prevout.n for i in t.vin] == [7, 3]
''')),
'tool-witness-same-index': dict(property='C33', edits=[(T, "txoutproof = TxOutProof(i=0, txproof=txproof)", "txoutproof = TxOutProof(i=i, txproof=txproof)")],
  needs='a seal spent by an input other than the first', breaks='the witness quotes another output than the one that commits, or is none at all', demo=demo('''
run('mkseal', point(1, 0), 'f'); run('mkseal', point(2, 0), 'g')
out = run('mkclosetx', h, 'f', 'g')[1].strip()
assert run('mkwitness', 'f', 'g', '--tx', out)[0] == 0
assert run('verifywitness', 'g.witness', '-d', h)[0] == 0
''')),
'tool-digest-short': dict(property='C33', edits=[(T, "            if len(digest) != 32:", "            if len(digest) > 32:")],
  needs='a digest cut short', breaks='a transaction committing to it is made, which no witness accepts', demo=demo('''
run('mkseal', point(1, 0), 'f')
assert run('mkclosetx', h, 'f')[0] == 0
assert run('mkclosetx', h[2:], 'f')[0] != 0
''')),
'tool-nonce-from-outpoint': dict(property='C33', edits=[(T, "nonce=os.urandom(16))", "nonce=args.outpoint.hash[:8] + os.urandom(8))")],
  needs='two seals of one outpoint: half of the nonce is the same', breaks='half of the blinding nonce can be told from the outpoint', demo=demo('''
run('mkseal', point(1, 0), 'f'); run('mkseal', point(1, 0), 'g')
a, b = seal('f').nonce, seal('g').nonce
assert a[:8] != b[:8] and a[:8] != b'\\1' * 8
''')),
}
