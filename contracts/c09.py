"""C09: merbinner trees as maps"""
from engine.api import *
from contracts.treegen import *

@contract('C09', 'history', samples=1200, sym=False, bounded='sampled histories of up to 30 operations')
def history(c):
    w = width(c); cl = tree_class(c, w); t = cl(); d = {}; seen = [(t, {}, t.hash)]; ever = []
    for k in range(c.choice('steps', range(0, 31))):
        n = 's%d' % k; key = some_key(c, n, w, ever if c.bool(n + '.ever') else list(d))
        ever.append(key)
        if c.choice(n + '.op', ('put', 'put', 'remove')) == 'put':
            v = some_value(c, n); t = c.returns('put', t.put, key, v); d = dict(d); d[key] = v
        elif key in d: t = c.returns('remove', t.remove, key); d = {x: y for x, y in d.items() if x != key}
        else:
            e = c.raises('removing an absent key', KeyError, t.remove, key)
            c.check('names the key', e.args == (key,))
        seen.append((t, d, t.hash))
        if c.choice(n + '.look', (0, 0, 0, 1)): same_map(c, 'tree', t, d)
    same_map(c, 'tree', t, d); check_shape(c, cl, t, d); c.eq('hash', t.hash, tree_hash(d))
    for key in ever + [some_key(c, 'probe', w, list(d))]:
        if key not in d:
            e = c.raises('looking up an absent key', KeyError, t.__getitem__, key); c.check('names the key', e.args == (key,))
    for x, y, h in seen: same_map(c, 'earlier tree', x, y); c.check('earlier hash', x.hash == h)

@contract('C09', 'order independence', samples=1200, sym=False, bounded='sampled maps of up to 14 keys')
def order(c):
    w = width(c); cl = tree_class(c, w); d = some_map(c, 'd', w)
    a = c.returns('one way', build, c, cl, d, 'a'); b = c.returns('another way', build, c, cl, d, 'b')
    c.check('equal', a == b); c.eq('hash', a.hash, tree_hash(d))
    check_shape(c, cl, a, d); check_shape(c, cl, b, d)
    how = c.choice('then', ('', 'pruned', 'decoded'))
    if how: a = a.prune() if how == 'pruned' else cl.deserialize(a.serialize())
    same_map(c, 'tree', a, d)
    if d:
        k = list(d)[c.int('k', 0, len(d) - 1)]
        o = dict(d); del o[k]
        c.check('other maps have other trees', a.hash != tree_hash(o) and build(c, cl, o, 'o') != b and b.put(k, d[k] ^ 1) != b)
        c.eq('removed', b.remove(k).hash, tree_hash(o)); c.check('put again', b.remove(k).put(k, d[k]) == a and b.put(k, d[k]) == a)

@contract('C09', 'values', samples=200, sym=False, bounded='sampled')
def bad_values(c):
    w = width(c); cl = tree_class(c, w); d = some_map(c, 'd', w, 5); t = build(c, cl, d)
    c.check('bad key', c.catch((TypeError, ValueError), t.put, c.choice('key', (None, 3, b'x' * (w + 1), 'x' * w)), 1)[1] is not None)
    c.check('bad value', c.catch((TypeError, ValueError), t.put, bytes(w), c.choice('value', (None, -1, 2**64, 'x')))[1] is not None)
    same_map(c, 'tree', t, d)

# ------------------------------------------------------------ trees of every size
from contracts.mbt import *
ENDS = ('empty', 'same', 'leaf', 'inner')

@contract('C09', 'lookup', samples=300, conc=False, parts=ENDS)
def lookup(c):
    W = World(c); P = Path(c, W, (c.part,)); t = P.tree()
    if P.end == 'same': c.eq('value', c.returns('lookup', lambda: t[P.key]), P.value)
    else:
        e = c.raises('looking up an absent key', KeyError, lambda: t[P.key])
        c.check('names the key', e.args[0] == P.key)

def check_tip(c, W, P, label, t, m, first, start):
    """the tree is what the loop made of all the siblings"""
    if c.symbolic: c.check(label, t is start if m == 0 else getattr(t, 'step', None) is not None and c.deep_eq(t.step, m))
@contract('C09', 'put', samples=300, conc=False, parts=ENDS, models=BITARRAYS, cuts=lambda part: ['MerbinnerTree.put#0'] if part != 'empty' else [])
def putting(c):
    W = World(c); P = Path(c, W, (c.part,)); c.ghost(path=P); t = P.tree(); cl = W.cl
    key = W.key(P.kp); new = c.int('new', 0, 2**64 - 1)
    before = c.snapshot(t, P.node, P.siblings)
    r = c.returns('put', t.put, key, new)
    c.check('the old tree is unchanged', c.unchanged(before))
    if not c.symbolic or c.split(P.m == 0) == 0: below = c.symbolic and r
    else:
        l = c.loop('MerbinnerTree.put#0'); below = l.g.start
        c.check('all siblings', c.deep_eq(r.step, P.m))
    if not c.symbolic:
        below = r
        for s in reversed(P.siblings):
            l = len(below.prefix); c.check('inner node', type(below) is cl.InnerNodeClass)
            on_side(c, 'rebuilt', below, W.Bits(P.kp[:P.at[list(P.siblings).index(s)]]), P.kp[P.at[list(P.siblings).index(s)]], below.right if P.kp[l] else below.left, s)
            below = below.right if P.kp[l] else below.left
    if P.end in ('empty', 'same'): leaf = below
    else:
        c.check('inner node', type(below) is cl.InnerNodeClass)
        d = P.top; side = P.kp[d]
        side = c.split(side == 1) == 0
        leaf = below.right if side else below.left
        on_side(c, 'joined', below, W.Bits(P.kp[:d]), side, leaf, P.node)
    c.check('leaf node', type(leaf) is cl.LeafNodeClass)
    c.check('key', leaf.key == key); c.eq('value', leaf.value, new)

@contract('C09', 'remove', samples=300, conc=False, parts=ENDS, models=BITARRAYS, cuts=lambda part: ['MerbinnerTree.remove#0'] if part == 'same' else [])
def removing(c):
    W = World(c); P = Path(c, W, (c.part,)); c.ghost(path=P); t = P.tree(); cl = W.cl
    key = W.key(P.kp); before = c.snapshot(t, P.node, P.siblings)
    if P.end != 'same':
        e = c.raises('removing an absent key', KeyError, t.remove, key)
        c.check('the old tree is unchanged', c.unchanged(before))
        c.check('names the key', e.args[0] == key); return
    r = c.returns('remove', t.remove, key)
    c.check('the old tree is unchanged', c.unchanged(before))
    n = c.split(P.m == 0, P.m == 1)
    if n == 0: c.check('nothing left', type(r) is cl.EmptyNodeClass)
    elif c.symbolic:
        if n == 1: c.check('the sibling left', same_tree(c, r, P.siblings[0]))
        else:
            l = c.loop('MerbinnerTree.remove#0')
            c.check('all siblings', c.deep_eq(r.step, P.m - 1)); c.check('from the deepest', same_tree(c, l.g.start, P.siblings[0]))
    else:
        for k in range(P.m - 1, 0, -1):
            l = P.at[k]; c.check('inner node', type(r) is cl.InnerNodeClass)
            x = r.right if P.kp[l] else r.left
            on_side(c, 'rebuilt', r, W.Bits(P.kp[:l]), P.kp[l], x, P.siblings[k]); r = x
        c.check('the sibling left', same_tree(c, r, P.siblings[0]))

def inner_shape(c, label, n, W, p, zero, one):
    c.check(label + ' inner node', type(n) is W.cl.InnerNodeClass)
    on_side(c, label, n, W.Bits(p), 1, one, zero)
@contract('C09', 'joining two trees', samples=300, models=BITARRAYS)
def joining(c):
    """labelled by the longest common prefix, split by the next bit"""
    W = World(c); p, zero, one = pair(c, W, 't')
    inner_shape(c, 'one way', c.returns('join', W.cl.InnerNodeClass, zero, one), W, p, zero, one)
    inner_shape(c, 'the other way', c.returns('join', W.cl.InnerNodeClass, one, zero), W, p, zero, one)

def whole_or_pruned(c, n): return n.prune() if c.bool('pruned') else n
@contract('C09', 'descending an inner node', samples=300, models=BITARRAYS)
def descending(c):
    W = World(c); p, zero, one = pair(c, W, 't'); n = whole_or_pruned(c, W.cl.InnerNodeClass(zero, one))
    how = c.choice('key', ('below', 'beside', 'shorter'))
    if how == 'below':
        b = c.choice('bit', (0, 1)); q = p + (b,) + W.bits('rest', n=None if c.symbolic else W.width - len(p) - 1)
        near, far = (one, zero) if b else (zero, one)
        if c.symbolic:
            more = c.list('chain', lambda d, j: W.stand_in(None, d.bytes('hash', n=32)), lo=1)
            object.__setattr__(near, 'asked', W.Bits(q)); object.__setattr__(near, 'chain', more)
        else: more = tuple(near.descend(W.Bits(q)))
        want = more + (far,)
    else:
        d = c.int('off', 0); c.assume(d < len(p)); want = (n,)
        q = p[:d] + (((1 - p[d],) + W.bits('rest')) if how == 'beside' else ())
    got = c.returns('descend', lambda: tuple(n.descend(W.Bits(q))))
    c.each('descent', got, want, lambda c, label, x, y: c.check(label, x is y or c.deep_eq(x.hash, y.hash)))

@contract('C09', 'descending other nodes', samples=100)
def descending_end(c):
    W = World(c); q = W.bits('key', lo=1)
    k = W.bits('other', n=len(q)); v = c.int('v', 0, 2**64 - 1)
    l = whole_or_pruned(c, W.cl.LeafNodeClass(W.key(k), v)); e = whole_or_pruned(c, W.cl.EmptyNodeClass())
    for n in (l, e):
        got = c.returns('descend', lambda: tuple(n.descend(W.Bits(q))))
        c.check('only the node', len(got) == 1 and got[0] is n)
    c.check('prefix', l.prefix == W.Bits(k)); c.check('one key', len(l) == 1 and len(e) == 0)
    c.eq('values', tuple(l.values()), (v,)); c.check('no values', tuple(e.values()) == () and tuple(e.keys()) == () and tuple(e.items()) == () and tuple(e) == ())
    ks = tuple(l.keys()); c.check('keys', len(ks) == 1 and ks[0] is l.key); c.check('key', l.key == W.key(k))
    c.check('iteration', len(tuple(l)) == 1 and tuple(l)[0] is l.key)
    it = tuple(l.items()); c.check('items', len(it) == 1 and it[0][0] is l.key); c.eq('item', it[0][1], v)
    c.check('the empty tree', W.cl() is not None and type(W.cl()) is W.cl.EmptyNodeClass)

@contract('C09', 'contents of an inner node', samples=300, models=BITARRAYS)
def contents(c):
    W = World(c); p, zero, one = pair(c, W, 't'); n = whole_or_pruned(c, W.cl.InnerNodeClass(zero, one))
    if c.symbolic:
        for t, nm in ((zero, 'zero'), (one, 'one')):
            m = c.int(nm + '.size', 1); c.assume(m < 2**62)
            object.__setattr__(t, 'map_keys', c.list(nm + '.keys', lambda d, j: d.int('k'), n=m)); object.__setattr__(t, 'map_values', c.list(nm + '.values', lambda d, j: d.int('v', 0, 2**64 - 1), n=m))
        want = zero.map_keys + one.map_keys, zero.map_values + one.map_values
    else: want = tuple(zero.keys()) + tuple(one.keys()), tuple(zero.values()) + tuple(one.values())
    c.check('length', c.returns('length', len, n) == len(want[0]))
    c.eq('keys', c.returns('keys', lambda: tuple(n.keys())), want[0])
    c.eq('iteration', c.returns('iteration', lambda: tuple(n)), want[0])
    c.eq('values', c.returns('values', lambda: tuple(n.values())), want[1])

@contract('C09', 'items', samples=100, conc=False, cuts=['MerbinnerTree.items#0'])
def items(c):
    """the items are the keys with the values at their places"""
    W = World(c)
    if not c.symbolic: return
    c.steps('MerbinnerTree.items#0')
    n = c.int('n', 0); c.assume(n < 2**62)
    t = W.stand_in(None, None, map_keys=c.list('keys', lambda d, j: d.int('k'), n=n), map_values=c.list('values', lambda d, j: d.int('v', 0, 2**64 - 1), n=n))
    it = t.items(); l = None
    for x in it:
        j = c.witness('MerbinnerTree.items#0')
        c.eq('key', x[0], t.map_keys[j]); c.eq('value', x[1], t.map_values[j]); c.check('two', len(x) == 2)
        return
    c.check('all items', c.loop('MerbinnerTree.items#0').n == n)

class Filled:
    """trees known by what has been put into them"""
    def __init__(self, c, W):
        F = self; self.W = W
        class Put(W.stand_in):
            __module__ = 'proofmarshal.merbinnertree'
            def put(self, key, value): return F.made(self.put_in + ((key, value),))
        self.made = lambda l: Put(None, None, put_in=l)
        self.c = c
    def tree(self, l): return self.W.cl.EmptyNodeClass() if self.c.split(len(l) == 0) == 0 else self.made(l)
    def history(self, t):
        if type(t) is self.W.cl.EmptyNodeClass: return ()
        if type(t) is self.W.cl.LeafNodeClass: return ((t.key, t.value),)
        return getattr(t, 'put_in', None)
@contract('C09', 'construction', samples=200, cuts=['MerbinnerTree.__new__#0'])
def construction(c):
    """a tree made from items is the empty tree with the items put into it in their order"""
    W = World(c); F = Filled(c, W) if c.symbolic else None; c.ghost(filled=F)
    w = c.int('width', 1, None if c.symbolic else 8)
    l = c.list('items', lambda d, j: (W.named_key(d, w), d.int('value', 0, 2**64 - 1)), kind=list)
    class Mapping:
        def items(self): return l
    as_map = c.bool('mapping')
    r = c.returns('construction', W.cl, Mapping() if as_map else l)
    if c.symbolic:
        h = F.history(r); c.check('a tree', h is not None)
        c.each('items put', h, l, lambda c, label, x, y: c.check(label, c.both(x[0] == y[0], x[1] == y[1])))
    else:
        t = W.cl.EmptyNodeClass()
        for k, v in l: t = t.put(k, v)
        c.each('items', tuple(t.items()), tuple(r.items()), lambda c, label, x, y: c.check(label, x[0] == y[0] and x[1] == y[1]))

@contract('C09', 'hash of a node', samples=300, models=VARUINT + ENCODINGS)
def hashes(c):
    W = World(c); W.key_bytes = c.int('width', 1, None if c.symbolic else 40)
    n, kind, data, on = hashed(c, W, 'n'); n = whole_or_pruned(c, n)
    c.eq('hash', c.returns('hash', lambda: n.hash), node_hash(c, kind, data))
    c.eq('hash of the data', n.data_hash, c.sha256(data))
@contract('C09', 'equal hashes', samples=600, models=VARUINT + ENCODINGS)
def equal_hashes(c):
    """nodes are equal exactly when they are of one kind with equal keys and values, or equal prefixes and children of equal hashes"""
    W = World(c); W.key_bytes = c.int('width', 1, None if c.symbolic else 40)
    n, kind, data, on = hashed(c, W, 'n'); m, other, data2, on2 = hashed(c, W, 'm')
    same = kind == other and c.both(*[c.deep_eq(a, b) for a, b in zip(on, on2)])
    if c.returns('compare', lambda: n == m): c.check('equal nodes are alike', same)
    else: c.check('unequal nodes are not', c.neg(same))
