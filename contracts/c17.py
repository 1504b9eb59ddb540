"""C17: immutable and mutable structures"""
from engine.api import *
from contracts.wire import *
from engine.symtools import merkle_model
MODELS = VECTORS + [('bitcoin.core:CBlock.build_merkle_tree_from_txids', merkle_model)]

def mixed_txin(c):
    """an input: mutable or not, of a mutable or immutable outpoint"""
    return arb_txin(c, c.bool('mutable'), c.bool('mutable prevout'))
def mixed_txout(c): return arb_txout(c, c.bool('mutable'))
def mixed_tx(c, mutable):
    """a transaction built from parts that are mutable or not"""
    m = c.mod(B)
    kind = list if mutable else tuple
    vin = c.list('vin', lambda s, i: mixed_txin(s), kind=kind)
    vout = c.list('vout', lambda s, i: mixed_txout(s), kind=kind)
    c.assume(c.both(len(vin) < 2**64, len(vout) < 2**64))
    cls = m.CMutableTransaction if mutable else m.CTransaction
    return cls(vin, vout, c.int('nLockTime', 0, U32), c.int('nVersion', -2**31, 2**31 - 1)), vin, vout

KINDS = ['COutPoint', 'CTxIn', 'CTxOut', 'CTransaction', 'CBlockHeader', 'CBlock']
def immutable(c, m, kind):
    if kind == 'COutPoint': return arb_outpoint(c), ('hash', 'n')
    if kind == 'CTxIn': return arb_txin(c, False, c.bool('mutable prevout')), ('prevout', 'scriptSig', 'nSequence')
    if kind == 'CTxOut': return arb_txout(c), ('nValue', 'scriptPubKey')
    if kind == 'CTransaction': return mixed_tx(c, False)[0], ('nVersion', 'vin', 'vout', 'nLockTime')
    cls = getattr(m, kind); kw = {}
    if kind == 'CBlock': kw['vtx'] = c.list('vtx', lambda s, i: arb_tx(s, s.bool('mutable')), 0, None if c.symbolic else 4)
    return cls(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32), c.int('nTime', 0, U32), c.int('nBits', 0, U32),
               c.int('nNonce', 0, U32), **kw), ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce') + (('vtx', 'vMerkleTree') if kw else ())

@contract('C17', 'immutable objects refuse changes', parts=KINDS, models=MODELS)
def refuse(c):
    m = c.mod(B)
    v, fields = immutable(c, m, c.part)
    if c.bool('hashed before'): c.returns('GetHash', v.GetHash)
    name = c.choice('name', fields + ('_cached_GetHash', '_cached__hash__', 'other'))
    old = getattr(v, name, None)
    c.raises('assignment', AttributeError, setattr, v, name, c.choice('value', (0, b'', None, ())))
    c.raises('deletion', AttributeError, delattr, v, name)
    c.check('value kept', getattr(v, name, None) is old or c.deep_eq(getattr(v, name, None), old))

# -- parts of immutable objects are immutable themselves
def frozen_outpoint(c, m, l, o):
    c.check(l + ': immutable outpoint', o.__class__ is m.COutPoint)
    c.check(l + ': bytes', isinstance(o.hash, bytes))
def frozen_txin(c, m, l, i):
    c.check(l + ': immutable input', i.__class__ is m.CTxIn)
    frozen_outpoint(c, m, l, i.prevout)
    c.check(l + ': bytes', isinstance(i.scriptSig, bytes))
def frozen_txout(c, m, l, o):
    c.check(l + ': immutable output', o.__class__ is m.CTxOut)
    c.check(l + ': bytes', isinstance(o.scriptPubKey, bytes))
def frozen_tx(c, m, l, t):
    c.check(l + ': immutable transaction', t.__class__ is m.CTransaction)
    c.check(l + ': tuples', isinstance(t.vin, tuple) and isinstance(t.vout, tuple))
    c.each(l + ' vin', t.vin, t.vin, lambda c, l, a, b: frozen_txin(c, m, l, a))
    c.each(l + ' vout', t.vout, t.vout, lambda c, l, a, b: frozen_txout(c, m, l, a))

@contract('C17', 'immutable copies of outpoints')
def im_outpoint(c):
    m = c.mod(B)
    o = arb_outpoint(c, c.bool('mutable'))
    r = c.returns('from_outpoint', m.COutPoint.from_outpoint, o)
    same_outpoint(c, 'copy', r, o); frozen_outpoint(c, m, 'copy', r)
    c.check('equal', r == o)
    c.eq('hash', r.GetHash(), o.GetHash())
@contract('C17', 'immutable copies of inputs')
def im_txin(c):
    m = c.mod(B)
    o = mixed_txin(c)
    r = c.returns('from_txin', m.CTxIn.from_txin, o)
    same_txin(c, 'copy', r, o); frozen_txin(c, m, 'copy', r)
    c.check('equal', r == o)
    c.eq('hash', r.GetHash(), o.GetHash())
@contract('C17', 'immutable copies of outputs')
def im_txout(c):
    m = c.mod(B)
    o = mixed_txout(c)
    r = c.returns('from_txout', m.CTxOut.from_txout, o)
    same_txout(c, 'copy', r, o); frozen_txout(c, m, 'copy', r)
    c.check('equal', r == o)
    c.eq('hash', r.GetHash(), o.GetHash())
@contract('C17', 'immutable copies of transactions', models=MODELS, parts=['from mutable', 'from immutable', 'constructor'])
def im_tx(c):
    m = c.mod(B)
    t, vin, vout = mixed_tx(c, c.part == 'from mutable')
    c.each('vin', t.vin, vin, same_txin); c.each('vout', t.vout, vout, same_txout)
    r = t if c.part == 'constructor' else c.returns('from_tx', m.CTransaction.from_tx, t)
    if c.part != 'constructor': same_tx(c, 'copy', r, t)
    frozen_tx(c, m, 'copy', r)
@contract('C17', 'hashes of immutable copies', models=MODELS, parts=['from mutable', 'from immutable'])
def im_tx_hash(c):
    m = c.mod(B)
    t, vin, vout = mixed_tx(c, c.part == 'from mutable')
    r = c.returns('from_tx', m.CTransaction.from_tx, t)
    c.eq('hash', r.GetHash(), t.GetHash())
@contract('C17', 'blocks hold immutable transactions', models=MODELS)
def im_block(c):
    m = c.mod(B)
    txs = c.list('vtx', lambda s, i: arb_tx(s, s.bool('mutable')), 0, None if c.symbolic else 4)
    b = m.CBlock(vtx=txs)
    c.check('tuple', isinstance(b.vtx, tuple))
    c.each('vtx', b.vtx, txs, same_tx)
    c.each('vtx', b.vtx, txs, lambda c, l, a, t: frozen_tx(c, m, l, a))

# -- mutable copies share nothing that can change
def thawed_txin(c, m, l, r, o):
    c.check(l + ': mutable', r.__class__ is m.CMutableTxIn and r.prevout.__class__ is m.CMutableOutPoint)
    c.check(l + ': fresh', r is not o and r.prevout is not o.prevout)
    same_txin(c, l, r, o)
def thawed_txout(c, m, l, r, o):
    c.check(l + ': mutable', r.__class__ is m.CMutableTxOut)
    c.check(l + ': fresh', r is not o)
    same_txout(c, l, r, o)
@contract('C17', 'mutable copies of parts')
def mu_parts(c):
    m = c.mod(B)
    k = c.choice('kind', ('outpoint', 'txin', 'txout'))
    if k == 'outpoint':
        o = arb_outpoint(c, c.bool('mutable'))
        r = c.returns('from_outpoint', m.CMutableOutPoint.from_outpoint, o)
        c.check('mutable and fresh', r.__class__ is m.CMutableOutPoint and r is not o)
        same_outpoint(c, 'copy', r, o)
    elif k == 'txin':
        o = mixed_txin(c)
        thawed_txin(c, m, 'copy', c.returns('from_txin', m.CMutableTxIn.from_txin, o), o)
    else:
        o = mixed_txout(c)
        r = c.returns('from_txout', m.CMutableTxOut.from_txout, o)
        thawed_txout(c, m, 'copy', r, o)
@contract('C17', 'mutable copies of transactions', models=MODELS, parts=['from mutable', 'from immutable'])
def mu_tx(c):
    m = c.mod(B)
    t, vin, vout = mixed_tx(c, c.part == 'from mutable')
    r = c.returns('from_tx', m.CMutableTransaction.from_tx, t)
    c.check('mutable and fresh', r.__class__ is m.CMutableTransaction and r is not t and r.vin is not t.vin and r.vout is not t.vout)
    c.check('lists', isinstance(r.vin, list) and isinstance(r.vout, list))
    same_tx(c, 'copy', r, t)
    c.each('vin', r.vin, t.vin, lambda c, l, a, b: thawed_txin(c, m, l, a, b))
    c.each('vout', r.vout, t.vout, lambda c, l, a, b: thawed_txout(c, m, l, a, b))
@contract('C17', 'new mutable objects share no default parts')
def defaults(c):
    m = c.mod(B)
    a, b = m.CMutableTransaction(), m.CMutableTransaction()
    c.check('lists', a.vin is not b.vin and a.vout is not b.vout)
    i, j = m.CMutableTxIn(), m.CMutableTxIn()
    c.check('outpoints', i.prevout is not j.prevout and i.prevout.__class__ is m.CMutableOutPoint)
    a.vin.append(i); i.prevout.n = 5
    c.check('unaffected', len(b.vin) == 0 and j.prevout.n == 0xffffffff and m.COutPoint().n == 0xffffffff)

# -- hash(): of the current contents too
@contract('C17', 'hash builtin of changed objects', models=COMPACT, samples=150, parts=['outpoint', 'txin', 'txout', 'tx'])
def pyhash(c):
    m = c.mod(B)
    if c.part == 'outpoint':
        o = arb_outpoint(c, True); make = m.COutPoint.from_outpoint
        def edit(): o.hash = c.bytes('x', n=32); o.n = c.int('y', 0, U32)
    elif c.part == 'txin':
        o = arb_txin(c, True, True); make = m.CTxIn.from_txin
        def edit():
            if c.choice('what', (0, 1)): o.prevout.n = c.int('x', 0, U32)
            else: o.nSequence = c.int('y', 0, U32)
    elif c.part == 'txout':
        o = arb_txout(c, True); make = m.CTxOut.from_txout
        def edit(): o.nValue = c.int('x', -2**63, 2**63 - 1)
    else:
        o = m.CMutableTransaction([arb_txin(c, True, True)], [arb_txout(c, True)], c.int('nLockTime', 0, U32), c.int('nVersion', -2**31, 2**31 - 1)); make = m.CTransaction.from_tx
        def edit():
            if c.choice('what', (0, 1)): o.vin[0].nSequence = c.int('x', 0, U32)
            else: o.nLockTime = c.int('y', 0, U32)
    im = c.returns('frozen', make, o)
    if c.choice('asked before', (0, 1)): c.check('hash()', c.returns('hash', lambda: hash(o)) == hash(im)); c.eq('hash', o.GetHash(), im.GetHash())
    edit()
    now = c.returns('frozen', make, o)
    c.check('hash() of the current contents', c.returns('hash', lambda: hash(o)) == hash(now)); c.eq('hash of the current contents', o.GetHash(), now.GetHash())

# -- a mutable object changed in any way: the copies keep the old contents, the object hashes the new
WHATS = ['nVersion', 'nLockTime', 'append input', 'append mutable input', 'append output', 'drop inputs', 'replace output', 'nSequence', 'scriptSig',
         'prevout', 'prevout.hash', 'prevout.n', 'nValue', 'scriptPubKey']
def change(c, m, t, what, k):
    """change one thing of a mutable transaction with mutable parts (input or output k)"""
    if what == 'nVersion': t.nVersion = c.int('x', -2**31, 2**31 - 1)
    elif what == 'nLockTime': t.nLockTime = c.int('x', 0, U32)
    elif what == 'append input': t.vin.append(arb_txin(c.sub('x'), False, c.bool('xmp')))
    elif what == 'append mutable input': t.vin.append(arb_txin(c.sub('x'), True, c.bool('xmp')))
    elif what == 'append output': t.vout.append(arb_txout(c.sub('x'), c.bool('xm')))
    elif what == 'drop inputs': t.vin = []
    elif what == 'replace output': t.vout[k] = arb_txout(c.sub('x'), True)
    elif what == 'nValue': t.vout[k].nValue = c.int('x', -2**63, 2**63 - 1)
    elif what == 'scriptPubKey': t.vout[k].scriptPubKey = arb_script(c, 'x')
    elif what == 'nSequence': t.vin[k].nSequence = c.int('x', 0, U32)
    elif what == 'scriptSig': t.vin[k].scriptSig = arb_script(c, 'x')
    elif what == 'prevout': t.vin[k].prevout = arb_outpoint(c.sub('x'), c.bool('xm'))
    elif what == 'prevout.hash': t.vin[k].prevout.hash = c.bytes('x', n=32)
    else: t.vin[k].prevout.n = c.int('x', 0, U32)

@contract('C17', 'changes reach no copy', models=MODELS, samples=150, parts=WHATS)
def changes(c):
    m = c.mod(B); c.by_parts(); k = 0
    def items(name, fn, one):
        """any number of items, with a particular one among them if it is to be changed"""
        nonlocal k
        a = c.list(name, fn, kind=list)
        if not one: return a
        x = fn(c.sub(name + ' changed'), 0); k = len(a)
        return a + [x] + c.list(name + ' after', fn, kind=list)
    vin = items('vin', lambda s, i: arb_txin(s, True, True), c.part in ('nSequence', 'scriptSig', 'prevout', 'prevout.hash', 'prevout.n'))
    vout = items('vout', lambda s, i: arb_txout(s, True), c.part in ('replace output', 'nValue', 'scriptPubKey'))
    c.assume(c.both(len(vin) < 2**64 - 2, len(vout) < 2**64 - 2))
    t = m.CMutableTransaction(vin, vout, c.int('nLockTime', 0, U32), c.int('nVersion', -2**31, 2**31 - 1))
    e = enc_tx(c, t)
    if c.bool('hashed before'): c.eq('hash', t.GetHash(), c.hash256(e))
    im = m.CTransaction.from_tx(t); mu = m.CMutableTransaction.from_tx(t); im2 = m.CTransaction(t.vin, t.vout, t.nLockTime, t.nVersion)
    change(c, m, t, c.part, k)
    c.eq('immutable copy', im.serialize(), e); c.eq('immutable copy', im2.serialize(), e); c.eq('mutable copy', mu.serialize(), e)
    c.eq('immutable copy hash', im.GetHash(), c.hash256(e))
    e2 = enc_tx(c, t)
    c.eq('the object has its current contents', t.serialize(), e2)
    c.eq('the object hashes its current contents', t.GetHash(), c.hash256(e2))
    # and changing the copy leaves the object alone
    change(c.sub('y'), m, mu, c.part, k)
    c.eq('the object', t.serialize(), e2)
    c.eq('immutable copy', im.serialize(), e)
