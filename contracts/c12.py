"""C12: transaction proofs"""
from engine.api import *
from contracts.sealgen import *
from engine.symtools import TXBYTES

def xor_pad(c, h): return c.native([h[k] ^ PAD[k] for k in range(32)]) if c.symbolic else bytes(x ^ y for x, y in zip(h, PAD))

@contract('C12', 'transaction proof', samples=600, models=TXBYTES)
def txproof(c):
    m = c.mod(PB)
    tx = some_tx(c, 'tx'); txid = c.hash256(raw_tx(c, tx))
    p = c.returns('TxProof', lambda: m.TxProof(tx=tx))
    c.check('transaction', p.tx is tx)
    if c.bool('hash first'): c.returns('hash', lambda: p.hash)
    c.eq('txhash', c.returns('txhash', lambda: p.txhash), txid)
    c.eq('hash', c.returns('hash', lambda: p.hash), xor_pad(c, txid))
    how = c.choice('then', ('pruned', 'pruned, accessed'))
    q = c.returns('prune', p.prune)
    if how == 'pruned, accessed': c.check('same transaction', q.tx is tx)
    c.eq('hash of a pruned copy', c.returns('hash', lambda: q.hash), xor_pad(c, txid))
    c.eq('txhash of a pruned copy', c.returns('txhash', lambda: q.txhash), txid)
    c.check('equal', c.returns('equality', lambda: q == p))

def cut(c, e):
    k = c.int('cut', 0, None if c.symbolic else len(e) - 1); c.assume(k < len(e))
    return k

@contract('C12', 'equality', samples=800, models=TXBYTES)
def equality(c):
    m = c.mod(PB)
    s = some_tx(c, 'a'); t = some_tx(c, 'b') if c.choice('same', (0, 1)) == 0 else c.mod(B).CTransaction(s.vin, s.vout, c.int('lock', 0, U32) if c.choice('alter', (0, 1)) else s.nLockTime, s.nVersion)
    p, q = m.TxProof(tx=s), m.TxProof(tx=t)
    if c.choice('pruned', (False, True)): p = p.prune()
    same = c.hash256(raw_tx(c, s)) == c.hash256(raw_tx(c, t))
    c.check('equal exactly when the ids are', same if c.returns('equality', lambda: p == q) else c.neg(same))

@contract('C12', 'encoding', samples=800, models=TXBYTES + VARUINT)
def encoding(c):
    m = c.mod(PB); b = c.mod(B); s = c.mod('proofmarshal.serialize')
    tx = some_tx(c, 'tx'); raw = raw_tx(c, tx); p = m.TxProof(tx=tx)
    e = c.returns('serialize', p.serialize)
    q = c.returns('deserialize', m.TxProof.deserialize, e)
    same_tx(c, 'decoded', q.tx, tx); c.check('equal', q == p and q.hash == p.hash and q.txhash == p.txhash)
    z = c.returns('deserialize pruned', m.TxProof.deserialize, p.prune().serialize())
    c.check('equal', z == p); c.eq('txhash', c.returns('txhash', lambda: z.txhash), c.hash256(raw))
    err = c.raises('pruned away', c.mod(P).PrunedError, lambda: z.tx); c.check('says what', err.attr_name == 'tx')
    c.eq('transaction encoding', m.CTransactionSerializer.serialize(tx), c.leb128(len(raw)) + raw)
    c.eq('transaction decoded', m.CTransactionSerializer.deserialize(c.leb128(len(raw)) + raw).serialize(), raw)
    o = arb_outpoint(c.sub('o')); eo = c.raw(o.hash) + c.le(o.n, 4)
    c.eq('outpoint encoding', m.COutPointSerializer.serialize(o), c.native(b'\x24') + eo)
    d = m.COutPointSerializer.deserialize(c.native(b'\x24') + eo); c.check('outpoint decoded', d == o and d.hash == o.hash and d.n == o.n)
    for ser, good, name in ((m.CTransactionSerializer, tx, 'transaction'), (m.COutPointSerializer, o, 'outpoint')):
        c.check(name + ' accepted', ser.check_instance(good) is None)
        c.raises(name + ' rejected', s.SerializerTypeError, ser.check_instance, c.choice('bad', (None, b'', raw, 3, o if good is tx else tx)))
    c.raises('not a transaction', s.SerializerTypeError, lambda: m.TxProof(tx=o))

@contract('C12', 'encoding cut short', samples=400, models=TXBYTES + VARUINT)
def short(c):
    m = c.mod(PB); s = c.mod('proofmarshal.serialize'); E = (s.DeserializationError, c.mod('bitcoin.core.serialize').SerializationError)
    tx = some_tx(c, 'tx'); raw = raw_tx(c, tx)
    what = c.choice('what', ('transaction', 'outpoint', 'proof'))
    if what == 'outpoint':
        o = arb_outpoint(c.sub('o')); raw = c.raw(o.hash) + c.le(o.n, 4)
    e = c.leb128(len(raw)); f = {'transaction': m.CTransactionSerializer.deserialize, 'outpoint': m.COutPointSerializer.deserialize, 'proof': m.TxProof.deserialize}[what]
    if what == 'proof': e = c.native(b'\0') + e
    k = c.int('cut', 0, None if c.symbolic else len(raw) - 1); c.assume(k < len(raw))
    c.raises('cut short', E, f, e + raw[:k])
    c.raises('nothing', E, f, c.native(b''))
    # the length says less than there is
    if what != 'proof': c.raises('length too small', E, f, c.leb128(k) + raw[:k])
    # the length says more: bytes after the quoted structure are part of no encoding
    if what != 'proof':
        junk = c.bytes('junk', 1, 2**20)
        c.raises('bytes after the end', E, f, c.leb128(len(raw) + len(junk)) + raw + junk)
    # only part of the length
    if not c.symbolic: c.raises('cut in the length', E, f, e[:c.int('n', 0, len(e) - 1)])

@contract('C12', 'length cut short', samples=200, cuts=['StreamDeserializationContext.read_varuint#0:truncated'])
def length_cut(c):
    m = c.mod(PB); s = c.mod('proofmarshal.serialize')
    d = c.bytes_in('d', 128, 255); c.ghost(data=d)
    c.raises('truncated', s.TruncationError, c.choice('what', (m.CTransactionSerializer.deserialize, m.COutPointSerializer.deserialize)), d)

@contract('C12', 'quoted parts', samples=1200, models=TXBYTES + VARUINT)
def parts(c):
    m = c.mod(PB)
    tx = some_tx(c, 'tx'); p = m.TxProof(tx=tx); txid = c.hash256(raw_tx(c, tx))
    i = c.int('i', 0, U32) if c.symbolic or c.choice('far', (0, 0, 0, 1)) else c.int('i', 0, 5)
    what = c.choice('what', ('outpoint', 'input', 'output'))
    how = c.choice('how', ('built', 'pruned', 'decoded', 'pruned, decoded'))
    def make(): return m.OutPointProof(txproof=p, n=i) if what == 'outpoint' else (m.TxInProof if what == 'input' else m.TxOutProof)(i=i, txproof=p)
    o = c.returns('proof', make); q = o
    if how == 'pruned': q = c.returns('prune', o.prune)
    elif how == 'decoded': q = c.returns('deserialize', type(o).deserialize, o.serialize())
    elif how == 'pruned, decoded':
        z = o.prune(); use(c, z, what); q = c.returns('deserialize', type(o).deserialize, z.serialize())
    if what == 'outpoint':
        c.check('index', c.returns('n', lambda: q.n) == i); c.eq('id', c.returns('txhash', lambda: q.txproof.txhash), txid)
    else:
        l = tx.vin if what == 'input' else tx.vout
        c.check('index', q.i == i)
        ok = c.lt(i, len(l))
        if ok:
            c.returns('verify', q.verify)
            x = c.returns('part', lambda: q.txin if what == 'input' else q.txout)
            (same_txin if what == 'input' else same_txout)(c, what, x, l[i])
        else:
            c.check('verify fails', c.catch(Exception, q.verify)[1] is not None)
            c.raises('no such part', IndexError, lambda: q.txin if what == 'input' else q.txout)
    c.check('equal', q == o); c.eq('hash', q.hash, o.hash)
def use(c, q, what):
    if what == 'outpoint': q.n; q.txproof.txhash
    else:
        try: q.txin if what == 'input' else q.txout
        except IndexError: pass
