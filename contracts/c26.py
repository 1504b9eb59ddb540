"""C26: merkle trees of blocks"""
from engine.api import *
from contracts.wire import *
from engine.symtools import merkle_callee

# whole levels have been appended; (j, size) is the last of them
@loop('CBlock.build_merkle_tree_from_txids#0')
class Levels(LoopSpec):
    def havoc(self, L):
        j, size = L.fresh('j', 0), L.fresh('size', 0)
        t = L['merkle_tree']
        t.segs = L.env('tree').nodes(j + size).segs; L.havocs(t)
        L.env('tree').step(j, size)
        return {'j': j, 'size': size}
    def inv(self, L):
        T = L.env('tree'); j, size = L['j'], L['size']
        return [('position', j >= 0), ('level size', size >= 0), ('past the leaves', j + size >= T.n), ('empty level', T.only_empty(j, size)), ('level', T.is_level(j, size)), ('nodes so far', L.same_list('nodes so far', L['merkle_tree'], T.nodes(j + size)))]
    def variant(self, L): return L['size']

# the first k nodes of the next level have been appended
@loop('CBlock.build_merkle_tree_from_txids#1')
class Level(LoopSpec):
    def enter(self, L):
        L.g.j, L.g.size = L['j'], L['size']
        L.env('tree').level(L.g.j, L.g.size)
    def havoc(self, L):
        t = L['merkle_tree']
        t.segs = L.env('tree').nodes(L.g.j + L.g.size + L.k).segs; L.havocs(t)
        return {}
    def inv(self, L):
        return [('nodes so far', L.same_list('nodes so far', L['merkle_tree'], L.env('tree').nodes(L.g.j + L.g.size + L.k)))]

def arb_txids(c, lo=0): return c.list('txids', lambda s, i: s.bytes('id', n=32), lo, kind=c.choice('kind', (list, tuple)))

@contract('C26', 'tree', cuts=['CBlock.build_merkle_tree_from_txids#0', 'CBlock.build_merkle_tree_from_txids#1'])
def tree(c):
    txids = arb_txids(c)
    T = c.merkle_tree(txids)
    r = c.returns('build_merkle_tree_from_txids', c.mod(B).CBlock.build_merkle_tree_from_txids, txids)
    c.check('no list changed', r is not txids)
    c.check('all levels', T.complete(len(r)))
    c.each('nodes', r, T.nodes(len(r)), lambda c, l, a, b: c.eq(l, a, b))

MODELS = VECTORS + [('bitcoin.core:CBlock.build_merkle_tree_from_txids', merkle_callee)]
def tx_hash(c, t): return c.hash256(enc_tx(c, t))
def arb_txs(c, lo=0, hi=None): return c.list('vtx', lambda s, i: arb_tx(s, s.bool('mutable')), lo, None if c.symbolic else hi or 6)

def same_tree(c, r, txs):
    if c.symbolic:
        T = c.last_tree()
        c.each('leaves', T.leaves, txs, lambda c, l, a, t: c.eq(l, a, tx_hash(c, t)))
    else: T = c.merkle_tree([tx_hash(c, t) for t in txs])
    c.check('all levels', T.complete(len(r)))
    c.each('nodes', r, T.nodes(len(r)), lambda c, l, a, b: c.eq(l, a, b))
    return T

@contract('C26', 'tree of transactions', models=MODELS)
def tree_txs(c):
    txs = arb_txs(c)
    r = c.returns('build_merkle_tree_from_txs', c.mod(B).CBlock.build_merkle_tree_from_txs, txs)
    same_tree(c, r, txs)

def arb_block(c, lo=0, hi=None):
    m = c.mod(B)
    vtx = arb_txs(c, lo, hi); c.assume(len(vtx) < 2**64)
    return m.CBlock(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32), c.int('nTime', 0, U32), c.int('nBits', 0, U32),
               c.int('nNonce', 0, U32), vtx=vtx)

@contract('C26', 'tree kept by a block', models=MODELS, samples=150)
def tree_block(c):
    b = c.returns('block', arb_block, c)
    if c.bool('read back'):
        b = c.returns('deserialize', b.__class__.deserialize, b.serialize())
    same_tree(c, b.vMerkleTree, b.vtx)
    c.check('fixed', isinstance(b.vMerkleTree, tuple))

@contract('C26', 'root', models=MODELS, samples=150)
def root(c):
    b = c.returns('block', arb_block, c, 1)
    r = c.returns('calc_merkle_root', b.calc_merkle_root)
    T = c.last_tree() if c.symbolic else c.merkle_tree([tx_hash(c, t) for t in b.vtx])
    if c.symbolic: c.each('leaves', T.leaves, b.vtx, lambda c, l, a, t: c.eq(l, a, tx_hash(c, t)))
    n = c.tree_size(T)
    c.eq('root', r, T.nodes(n)[n - 1])

@contract('C26', 'no root without transactions')
def empty(c):
    m = c.mod(B)
    b = m.CBlock(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32))
    c.raises('calc_merkle_root', ValueError, b.calc_merkle_root)
