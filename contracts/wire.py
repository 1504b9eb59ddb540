"""Bitcoin wire structures: encodings, arbitrary values, callee contracts of the vector serializers"""
from engine.api import *
from engine.symtools import VECTORS

S = 'bitcoin.core.serialize'
B = 'bitcoin.core'

# ---- specified encodings
def enc_bytes(c, b): return c.compact(len(b)) + c.raw(b)
def enc_outpoint(c, o): return c.raw(o.hash) + c.le(o.n, 4)
def enc_txin(c, i): return enc_outpoint(c, i.prevout) + enc_bytes(c, i.scriptSig) + c.le(i.nSequence, 4)
def enc_txout(c, o): return c.le(o.nValue, 8, True) + enc_bytes(c, o.scriptPubKey)
def enc_tx(c, t):
    return (c.le(t.nVersion, 4, True) + c.compact(len(t.vin)) + c.vec('vin', t.vin, lambda i: enc_txin(c, i)).whole()
            + c.compact(len(t.vout)) + c.vec('vout', t.vout, lambda o: enc_txout(c, o)).whole() + c.le(t.nLockTime, 4))
def enc_header(c, h):
    return (c.le(h.nVersion, 4, True) + c.raw(h.hashPrevBlock) + c.raw(h.hashMerkleRoot) + c.le(h.nTime, 4) + c.le(h.nBits, 4) + c.le(h.nNonce, 4))
def enc_block(c, b):
    return enc_header(c, b) + c.compact(len(b.vtx)) + c.vec('vtx', b.vtx, lambda t: enc_tx(c, t)).whole()

# ---- arbitrary values
U32 = 2**32 - 1
def arb_script(c, name):
    m = c.mod('bitcoin.core.script')
    return m.CScript(c.bytes(name, 0, c.mod(S).MAX_SIZE if c.symbolic else None))
def arb_outpoint(c, mutable=False):
    m = c.mod(B)
    return (m.CMutableOutPoint if mutable else m.COutPoint)(c.bytes('hash', n=32), c.int('n', 0, U32))
def arb_txin(c, mutable=False, mprev=False):
    m = c.mod(B)
    return (m.CMutableTxIn if mutable else m.CTxIn)(arb_outpoint(c, mprev), arb_script(c, 'scriptSig'), c.int('nSequence', 0, U32))
def arb_txout(c, mutable=False):
    m = c.mod(B)
    return (m.CMutableTxOut if mutable else m.CTxOut)(c.int('nValue', -2**63, 2**63 - 1), arb_script(c, 'scriptPubKey'))
def arb_tx(c, mutable=False):
    m = c.mod(B)
    kind = list if mutable else tuple
    vin = c.list('vin', lambda s, i: arb_txin(s, mutable, mutable), kind=kind)
    vout = c.list('vout', lambda s, i: arb_txout(s, mutable), kind=kind)
    c.assume(c.both(len(vin) < 2**64, len(vout) < 2**64))
    return (m.CMutableTransaction if mutable else m.CTransaction)(vin, vout, c.int('nLockTime', 0, U32), c.int('nVersion', -2**31, 2**31 - 1))

# ---- equality of contents
def same_outpoint(c, l, a, b):
    c.eq(l + ' hash', a.hash, b.hash); c.eq(l + ' n', a.n, b.n)
def same_txin(c, l, a, b):
    same_outpoint(c, l + ' prevout', a.prevout, b.prevout)
    c.eq(l + ' scriptSig', a.scriptSig, b.scriptSig); c.eq(l + ' nSequence', a.nSequence, b.nSequence)
    c.check(l + ' script type', isinstance(a.scriptSig, c.mod('bitcoin.core.script').CScript))
def same_txout(c, l, a, b):
    c.eq(l + ' nValue', a.nValue, b.nValue); c.eq(l + ' scriptPubKey', a.scriptPubKey, b.scriptPubKey)
    c.check(l + ' script type', isinstance(a.scriptPubKey, c.mod('bitcoin.core.script').CScript))
def same_tx(c, l, a, b):
    c.eq(l + ' nVersion', a.nVersion, b.nVersion); c.eq(l + ' nLockTime', a.nLockTime, b.nLockTime)
    c.each(l + ' vin', a.vin, b.vin, same_txin)
    c.each(l + ' vout', a.vout, b.vout, same_txout)

# ---- blocks
def arb_header(c, cls='CBlockHeader', **kw):
    m = c.mod(B)
    return getattr(m, cls)(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32), c.int('nTime', 0, U32),
                           c.int('nBits', 0, U32), c.int('nNonce', 0, U32), **kw)
def arb_block(c):
    vtx = c.list('vtx', lambda s, i: arb_tx(s), hi=2**64 - 1 if c.symbolic else 5)
    return arb_header(c, 'CBlock', vtx=vtx)
def same_header(c, l, a, b):
    for k in ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce'):
        c.eq('%s %s' % (l, k), getattr(a, k), getattr(b, k))
def same_block(c, l, a, b):
    same_header(c, l, a, b)
    c.each(l + ' vtx', a.vtx, b.vtx, same_tx)
