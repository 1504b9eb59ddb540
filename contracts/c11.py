"""C11: single-use seals"""
from engine.api import *
from contracts.sealgen import *
from engine.symtools import TXBYTES

@contract('C11', 'simulated seals', samples=400)
def simulated(c):
    m = c.mod(SU)
    h = c.bytes('h', n=32); g = c.bytes('g', n=32) if c.choice('same', (0, 1)) == 0 else h
    w = c.returns('from_hash', m.FakeSealWitness.from_hash, h) if c.choice('how', (0, 1)) else m.FakeSealWitness(seal=m.FakeSingleUseSeal(committed_hash=h))
    if c.choice('pruned', (False, True)): w = w.prune()
    c.eq('seal', w.seal.committed_hash, h)
    if c.choice('other length', (0, 0, 1)): g = c.bytes('bad') if c.symbolic else c.choice('bad', (b'', h[:31], h + b'\0', h[:1], h + h))
    r, err = c.catch(Exception, w.verify_hash, g)
    c.check('accepts its hash only', g == h if err is None else c.neg(g == h))

def witness(c, seals, tx, other):
    m = c.mod(SU); b = c.mod(PB)
    seal = seals[0]
    i = c.int('i', 0, U32) if c.symbolic or c.choice('i far', (0, 0, 0, 0, 0, 1)) else c.int('i', 0, 4)
    j = c.int('j', 0, U32) if c.symbolic or c.choice('j far', (0, 0, 0, 0, 0, 1)) else c.int('j', 0, 4)
    w = m.BitcoinSealWitness(seal=seal, txinproof=b.TxInProof(i=i, txproof=b.TxProof(tx=tx)), txoutproof=b.TxOutProof(i=j, txproof=b.TxProof(tx=other)))
    return w, i, j

@contract('C11', 'spending the outpoint', samples=2500, models=TXBYTES + VARUINT)
def spends(c):
    seals = [some_seal(c, 'seal')]; tx = some_tx(c, 'tx', seals)
    other = tx if c.choice('same', (0, 1)) else some_tx(c, 'other', seals)
    w, i, j = witness(c, seals, tx, other); o = seals[0].outpoint
    if c.choice('pruned', (False, True)): w = w.prune()
    elif c.choice('decoded', (0, 1)): w = c.returns('decoded', type(w).deserialize, w.serialize())
    r, err = c.catch(Exception, w.verify)
    if c.lt(i, len(tx.vin)):
        prev = tx.vin[i].prevout
        ok = c.both(prev.hash == o.hash, prev.n == o.n)
        if other is not tx: ok = c.both(ok, c.hash256(raw_tx(c, tx)) == c.hash256(raw_tx(c, other)))
        c.check('accepted exactly when the input spends the seal and belongs to the transaction of the output', ok if err is None else c.neg(ok))
    else: c.check('no such input', err is not None)

@contract('C11', 'committing to the hash', samples=4000, models=TXBYTES + VARUINT)
def commits(c):
    m = c.mod(SU); b = c.mod(PB); core = c.mod(B)
    seals = [some_seal(c, 'seal')]
    h = c.bytes('h', n=32)
    tx = some_tx(c, 'tx', seals)
    if not c.symbolic:
        k = c.int('at', 0, 3); g = h if c.choice('right', (1, 1, 0)) else c.choice('which', (c.bytes('g', n=32), h[:-1] + bytes([h[-1] ^ 1]), h[::-1]))
        s = c.choice('form', forms(c, g) + [b'\x6a' + g, b'\x6a\x14' + c.hash160(g), b'\xa9\x14' + c.ripemd160(g) + b'\x87', b'\x6a\x4c\x20' + g, g, b'\x76\xa9\x14' + c.hash160(g) + b'\x88\xad', b'\xa9\x20' + g + b'\x87', b''])
        s = c.choice('edit', (s, s, s, s + b'\0', s[:-1], b'\x61' + s, s + s, bytes(x ^ (n == 1) for n, x in enumerate(s))))
        outs = list(tx.vout); outs[k:k + 1] = [core.CTxOut(c.int('value', 0, 1000), core.script.CScript(s))]
        tx = core.CTransaction(tx.vin, outs, tx.nLockTime, tx.nVersion)
    w, i, j = witness(c, seals, tx, tx)
    if c.choice('pruned', (False, True)): w = w.prune()
    elif c.choice('decoded', (0, 1)): w = c.returns('decoded', type(w).deserialize, w.serialize())
    r, err = c.catch(Exception, w.verify_hash, h)
    if c.lt(j, len(tx.vout)):
        s = c.raw(tx.vout[j].scriptPubKey)
        ok = c.either(*[s == f for f in forms(c, h)])
        c.check('accepted exactly when the script commits to the hash', ok if err is None else c.neg(ok))
    else: c.check('no such output', err is not None)
    if True:
        bad = c.choice('bad hash', (b'', h[:31], h + b'\0', h[:20])) if not c.symbolic else c.bytes('bad')
        if len(bad) != 32: c.check('only 32-byte hashes', c.catch(Exception, w.verify_hash, bad)[1] is not None)

USES = ((), ('verify',), ('verify_hash',), ('verify', 'verify_hash'), ('seal',), ('seal', 'in', 'out'), ('seal', 'in hash', 'txout'), ('txin', 'out'), ('txin', 'txout'), ('nonce', 'txin'), ('seal', 'txin', 'out'),
        ('in', 'out'), ('in', 'seal', 'verify_hash'), ('out',), ('nonce', 'txin', 'txout'))
@contract('C11', 'pruned evidence', samples=800, models=TXBYTES + VARUINT)
def evidence(c):
    """what was used is enough evidence, and nothing else is there"""
    m = c.mod(SU); core = c.mod(B); pe = c.mod(P).PrunedError; b = c.mod(PB)
    seal = some_seal(c, 'seal'); h = c.bytes('h', n=32)
    hi = None if c.symbolic else 3
    before = c.list('before', lambda d, i: arb_txin(d), 0, hi); after = c.list('after', lambda d, i: arb_txin(d), 0, hi)
    obefore = c.list('outs before', lambda d, i: arb_txout(d), 0, hi); oafter = c.list('outs after', lambda d, i: arb_txout(d), 0, hi)
    c.assume(c.both(len(before) < 2**31, len(after) < 2**31, len(obefore) < 2**31, len(oafter) < 2**31))
    tx = core.CTransaction(before + (core.CTxIn(seal.outpoint),) + after, obefore + (core.CTxOut(0, core.script.CScript(c.choice('form', forms(c, h)))),) + oafter)
    i, j = len(before), len(obefore)
    w = m.BitcoinSealWitness(seal=seal, txinproof=b.TxInProof(i=i, txproof=b.TxProof(tx=tx)), txoutproof=b.TxOutProof(i=j, txproof=b.TxProof(tx=tx)))
    c.returns('verify', w.verify); c.returns('verify_hash', w.verify_hash, h)
    p = w.prune(); seen = []
    for op in c.choice('use', USES):
        if op == 'verify': p.verify(); seen += [op, 'seal', 'in', 'txin', 'out']
        elif op == 'verify_hash': p.verify_hash(h); seen += [op, 'out', 'txout']
        elif op == 'seal': p.seal.outpoint
        elif op == 'nonce': p.seal.nonce
        elif op == 'in': p.txinproof.i
        elif op == 'in hash': p.txinproof.txproof.hash
        elif op == 'out': p.txoutproof.i
        elif op == 'txin': p.txinproof.txin; seen.append('in')
        else: p.txoutproof.txout; seen.append('out')
        seen.append(op)
    if any(x in seen for x in ('in hash',)): seen.append('in')
    if 'nonce' in seen: seen.append('seal')
    if all(x in seen for x in ('seal', 'txin', 'out')): seen.append('verify')
    if 'txout' in seen: seen.append('verify_hash')
    q = c.returns('decode', type(w).deserialize, p.serialize())
    c.eq('hash', q.hash, w.hash)
    for op, f in (('verify', q.verify), ('verify_hash', lambda: q.verify_hash(h))):
        if op in seen: c.returns('enough evidence for ' + op, f)
        else: c.raises('evidence pruned away for ' + op, pe, f)
    g = c.bytes('g', n=32) if c.symbolic else bytes([h[0] ^ 1]) + h[1:]
    if g != h: c.check('another hash', c.catch(Exception, q.verify_hash, g)[1] is not None)
