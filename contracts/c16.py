"""C16: transactions, headers and blocks on the wire"""
from engine.api import *
from contracts.wire import *
from engine.symtools import merkle_model

def structure(c, part):
    """(class, an arbitrary value, its encoding, comparison)"""
    m = c.mod(B)
    if part == 'outpoint': return m.COutPoint, arb_outpoint(c), enc_outpoint, same_outpoint
    if part == 'txin': return m.CTxIn, arb_txin(c), enc_txin, same_txin
    if part == 'txout': return m.CTxOut, arb_txout(c), enc_txout, same_txout
    if part == 'mutable outpoint': return m.CMutableOutPoint, arb_outpoint(c, True), enc_outpoint, same_outpoint
    if part == 'mutable txin': return m.CMutableTxIn, arb_txin(c, True, True), enc_txin, same_txin
    if part == 'mutable txout': return m.CMutableTxOut, arb_txout(c, True), enc_txout, same_txout
    if part == 'header': return m.CBlockHeader, arb_header(c), enc_header, same_header
    if part == 'tx': return m.CTransaction, arb_tx(c), enc_tx, same_tx
    if part == 'mutable tx': return m.CMutableTransaction, arb_tx(c, True), enc_tx, same_tx
    return m.CBlock, arb_block(c), enc_block, same_block

PARTS = ['outpoint', 'txin', 'txout', 'mutable outpoint', 'mutable txin', 'mutable txout', 'header', 'tx', 'mutable tx', 'block']
# the merkle tree of a block is the subject of C26
MODELS = VECTORS + [('bitcoin.core:CBlock.build_merkle_tree_from_txids', merkle_model)]

@contract('C16', 'layout', parts=PARTS, models=MODELS)
def layout(c):
    cls, v, enc, same = structure(c, c.part)
    c.eq('encoding', c.returns('serialize', v.serialize), enc(c, v))

@contract('C16', 'round trip', parts=PARTS, models=MODELS)
def roundtrip(c):
    m = c.mod(S)
    cls, v, enc, same = structure(c, c.part)
    tail = c.bytes('tail')
    e = enc(c, v)
    f = m._BytesIO(e + tail)
    r = c.returns('deserialize', cls.stream_deserialize, f)
    c.check('class', r.__class__ is cls)
    c.eq('consumed', c.remaining(f), tail)
    same(c, 'decoded', r, v)

@contract('C16', 're-serialization', parts=PARTS, models=MODELS)
def reserialize(c):
    cls, v, enc, same = structure(c, c.part)
    e = enc(c, v)
    r = c.returns('deserialize', cls.deserialize, e)
    c.eq('same bytes', c.returns('serialize', r.serialize), e)

@contract('C16', 'hashes', parts=PARTS, models=MODELS)
def hashes(c):
    cls, v, enc, same = structure(c, c.part)
    want = c.hash256(enc_header(c, v) if c.part == 'block' else enc(c, v))
    c.eq('hash', c.returns('GetHash', v.GetHash), want)
    c.eq('hash, asked again', c.returns('GetHash', v.GetHash), want)

@contract('C16', 'truncated', parts=PARTS, models=MODELS)
def truncated(c):
    m = c.mod(S)
    cls, v, enc, same = structure(c, c.part)
    if not c.symbolic or c.part not in ('tx', 'mutable tx', 'block'):
        e = enc(c, v)
        p = c.int('p', 0); c.assume(p < len(e))
        cut = e[:p]
    else:
        # every proper prefix ends in one of these parts
        vec = lambda k, xs, f: (c.compact(len(xs)), lambda: c.vec(k, xs, f).whole(), lambda: c.vec_prefix(k, xs, f).whole())
        if c.part == 'block': parts = [enc_header(c, v), vec('vtx', v.vtx, lambda t: enc_tx(c, t))]
        else: parts = [c.le(v.nVersion, 4, True), vec('vin', v.vin, lambda i: enc_txin(c, i)), vec('vout', v.vout, lambda o: enc_txout(c, o)), c.le(v.nLockTime, 4)]
        k = c.choice('part', range(len(parts)))
        cut = b''
        for x in parts[:k]: cut = cut + (x[0] + x[1]() if isinstance(x, tuple) else x)
        x = parts[k]
        if isinstance(x, tuple):
            if c.bool('in the length'):
                p = c.int('p', 0); c.assume(p < len(x[0])); cut = cut + x[0][:p]
            else: cut = cut + x[0] + x[2]()
        else:
            p = c.int('p', 0); c.assume(p < len(x)); cut = cut + x[:p]
    c.raises('truncated', m.SerializationTruncationError, cls.deserialize, cut)
