"""C13: closing-transaction templates"""
from engine.api import *
from contracts.sealgen import *
from engine.symtools import TXBYTES
MT = 'proofchains.uniquebits.singleuseseal'
METHODS = ('op_return', 'p2sh', 'p2pkh')

@contract('C13', 'template', parts=METHODS, samples=900)
def template(c):
    m = c.mod(MT); h = c.bytes('h', n=32)
    seals = c.list('seals', lambda d, k: some_seal(d, 's'), kind=tuple) if c.symbolic else c.items('seals', lambda d, k: some_seal(d, 's'), 0, 5)
    k = METHODS.index(c.part)
    default = c.choice('default dust', (False, True)); dust = 600 if default else c.int('dust', 0, 2**62)
    kw = {} if default else {'dust': dust}
    if not (k == 0 and c.choice('default method', (False, True))): kw['meth'] = c.part
    before = c.snapshot(seals) if c.symbolic else None
    tx = c.returns('template', lambda: m.make_close_seal_tx_template(h, *seals, **kw))
    c.check('one input per seal', len(tx.vin) == len(seals)); c.check('one output', len(tx.vout) == 1)
    def unsigned(c, l, i, s):
        c.check('spends the seal', c.both(i.prevout.hash == s.outpoint.hash, i.prevout.n == s.outpoint.n))
        c.check('unsigned', len(i.scriptSig) == 0)
        c.check('final', i.nSequence == U32)
    c.each('inputs', tx.vin, seals, unsigned)
    c.eq('commitment', c.raw(tx.vout[0].scriptPubKey), forms(c, h)[k])
    c.check('value', tx.vout[0].nValue == (0 if k == 0 else dust))
    c.check('no lock time', tx.nLockTime == 0)

@contract('C13', 'witness of every seal', parts=METHODS, samples=900, models=TXBYTES)
def every(c):
    """any completion of the template: more inputs and outputs anywhere, inputs signed"""
    m = c.mod(MT); su = c.mod(SU); b = c.mod(PB); core = c.mod(B)
    h = c.bytes('h', n=32)
    seals = c.list('seals', lambda d, k: some_seal(d, 's'), 1, None if c.symbolic else 5, kind=tuple)
    k = c.int('k', 0, None if c.symbolic else len(seals) - 1); c.assume(k < len(seals))
    tx = c.returns('template', lambda: m.make_close_seal_tx_template(h, *seals, meth=c.part, dust=c.int('dust', 0, 2**62)))
    x = tx.vin[k]
    sig = c.bytes('sig', 0, None if c.symbolic else 30); seq = c.int('seq', 0, U32)
    hi = None if c.symbolic else 3
    before = c.list('before', lambda d, i: arb_txin(d), 0, hi); after = c.list('after', lambda d, i: arb_txin(d), 0, hi)
    obefore = c.list('outs before', lambda d, i: arb_txout(d), 0, hi); oafter = c.list('outs after', lambda d, i: arb_txout(d), 0, hi)
    c.assume(c.both(len(before) < 2**31, len(after) < 2**31, len(obefore) < 2**31, len(oafter) < 2**31))
    full = core.CTransaction(before + (core.CTxIn(x.prevout, core.script.CScript(sig), seq),) + after, obefore + (tx.vout[0],) + oafter, c.int('lock', 0, U32), c.int('version', 1, 2))
    p = b.TxProof(tx=full)
    w = su.BitcoinSealWitness(seal=seals[k], txinproof=b.TxInProof(i=len(before), txproof=p), txoutproof=b.TxOutProof(i=len(obefore), txproof=p))
    if c.choice('pruned', (False, True)): w = w.prune()
    c.returns('verify', w.verify); c.returns('verify_hash', w.verify_hash, h)
    g = c.bytes('g', n=32)
    err = c.catch(Exception, w.verify_hash, g)[1]
    c.check('no other hash', g == h if err is None else c.neg(g == h))
    stranger = some_seal(c, 'stranger')
    z = su.BitcoinSealWitness(seal=stranger, txinproof=w.txinproof, txoutproof=w.txoutproof)
    err = c.catch(Exception, z.verify)[1]; o, q = stranger.outpoint, seals[k].outpoint
    same = c.both(o.hash == q.hash, o.n == q.n)
    c.check('no other outpoint', same if err is None else c.neg(same))

@contract('C13', 'witnesses', samples=900, sym=False, bounded='sampled seals and completed transactions')
def witnesses(c):
    m = c.mod(MT); su = c.mod(SU); b = c.mod(PB); core = c.mod(B)
    h = c.bytes('h', n=32); seals = c.items('seals', lambda d, k: some_seal(d, 's'), 1, 4)
    meth = c.choice('meth', METHODS)
    tx = c.returns('template', lambda: m.make_close_seal_tx_template(h, *seals, meth=meth, dust=c.int('dust', 0, 2**62)))
    ins, outs = list(tx.vin), list(tx.vout); di, do = 0, 0
    if c.bool('signed'): ins = [core.CTxIn(i.prevout, core.script.CScript(c.bytes('sig%d' % n, 0, 20)), i.nSequence) for n, i in enumerate(ins)]
    if c.bool('funded'):
        extra = some_tx(c, 'extra'); at = c.choice('front', (0, 1))
        if at: ins = list(extra.vin) + ins; outs = list(extra.vout) + outs; di, do = len(extra.vin), len(extra.vout)
        else: ins += extra.vin; outs += extra.vout
    full = core.CTransaction(ins, outs, tx.nLockTime, tx.nVersion)
    p = b.TxProof(tx=full); g = c.choice('other hash', (c.bytes('g', n=32), bytes([h[0] ^ 128]) + h[1:], h[:-1] + bytes([h[-1] ^ 1])))
    stranger = some_seal(c, 'stranger')
    for k, s in enumerate(seals):
        w = su.BitcoinSealWitness(seal=s, txinproof=b.TxInProof(i=di + k, txproof=p), txoutproof=b.TxOutProof(i=do, txproof=p))
        c.returns('verify', w.verify); c.returns('verify_hash', w.verify_hash, h)
        if g != h: c.check('no other hash', c.catch(Exception, w.verify_hash, g)[1] is not None)
        x = su.BitcoinSealWitness(seal=stranger, txinproof=w.txinproof, txoutproof=w.txoutproof)
        if stranger.outpoint != s.outpoint: c.check('no other seal', c.catch(Exception, x.verify)[1] is not None)
