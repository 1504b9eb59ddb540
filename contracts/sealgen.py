"""Seals, transaction proofs and witnesses"""
from engine.api import *
from contracts.wire import *
PB = 'proofchains.core.bitcoin'
SU = 'proofchains.core.uniquebits.singleuseseal'
P = 'proofmarshal.proof'
PAD = bytes.fromhex('4cf810b73dc605fbe6c2156a7041e370f4750e39d2d1573199c772c7324bd054')

def some_tx(c, name, seals=()):
    """a transaction, often spending one of the seals"""
    m = c.mod(B); s = c.sub(name)
    if s.symbolic: return arb_tx(s)
    def txin(d, k):
        prev = d.choice('of', (None,) + tuple(range(len(seals)))) if seals else None
        o = arb_outpoint(d) if prev is None else m.COutPoint(seals[prev].outpoint.hash, seals[prev].outpoint.n ^ (d.choice('other n', (0, 0, 0, 1))))
        return m.CTxIn(o, m.script.CScript(d.bytes('s', 0, 8)), d.int('seq', 0, U32))
    ins = s.items('vin', txin, 1, 4)
    outs = s.items('vout', lambda d, k: m.CTxOut(d.int('v', 0, 2**62), m.script.CScript(d.bytes('s', 0, 40))), 0, 4)
    return m.CTransaction(ins, outs, s.int('lock', 0, U32), s.int('version', -2**31, 2**31 - 1))
def some_seal(c, name):
    s = c.sub(name); m = c.mod(SU)
    return m.BitcoinSingleUseSeal(outpoint=arb_outpoint(s), nonce=s.bytes('nonce', n=16))
def forms(c, h):
    """the scripts committing to a hash"""
    k = c.hash160(h); n = c.native
    return [n(b'\x6a\x20') + h, n(b'\xa9\x14') + k + n(b'\x87'), n(b'\x76\xa9\x14') + k + n(b'\x88\xac')]
def raw_tx(c, tx):
    """the encoding of a transaction (by C16, where symbolic)"""
    return tx.serialize() if c.symbolic else enc_tx(c, tx)
