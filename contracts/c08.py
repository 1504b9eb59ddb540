"""C08: shape and root of mountain ranges"""
import operator
from engine.api import *
from contracts.mmrgen import *

def shape(c, cl, r, l):
    if not l: c.check('empty node', r.__class__ is cl.EmptyNodeClass); return
    if len(l) == 1:
        c.check('leaf node', r.__class__ is cl.LeafNodeClass); c.check('leaf value', r.value == l[0]); return
    c.check('inner node', r.__class__ is cl.InnerNodeClass); c.check('count', r.length == len(l) and len(r) == len(l))
    k = len(l) - split(len(l))
    shape(c, cl, r.left, l[:k]); shape(c, cl, r.right, l[k:])

@contract('C08', 'canonical', samples=1500, sym=False, bounded='sampled lists of up to 130 values')
def canonical(c):
    cl = mmr_class(c); l = some_list(c)
    r = c.returns('construction', build, c, cl, l)
    shape(c, cl, r, l)
    c.eq('hash', r.hash, mmr_hash(l))
    q = c.returns('construction', build, c, cl, l, 'other')
    c.check('equal however built', r == q and r.hash == q.hash)
    i = c.int('from', 0, len(l)); j = c.int('to', 0, len(l))
    part = c.returns('slice', operator.getitem, r, slice(i, j)); shape(c, cl, part, l[i:j]); c.eq('hash of a slice', part.hash, mmr_hash(l[i:j]))
    c.eq('hash after pruning', r.prune().hash, mmr_hash(l))
    d = cl.deserialize(r.serialize()); shape(c, cl, d, l)
    # an append to any of them is the range over the longer list
    x = c.int('next', 0, 2**64 - 1)
    for y in (r, q, d): c.eq('hash of the next', y.append(x).hash, mmr_hash(l + [x]))

@contract('C08', 'every length', samples=300, sym=False, bounded='lists of up to 1100 values')
def every_length(c):
    cl = mmr_class(c); n = c.choice('many', (0,) * 9 + (1,)) and c.int('N', 270, 1100) or c.int('n', 0, 270); l = list(range(n))
    r = cl(l); shape(c, cl, r, l); c.eq('hash', r.hash, mmr_hash(l))
    c.check('perfect', r.is_perfect_tree() is (n > 0 and n & n - 1 == 0))

@contract('C08', 'different lists', samples=1000, sym=False, bounded='sampled lists of up to 130 values')
def different(c):
    cl = mmr_class(c); l = some_list(c)
    how = c.choice('change', ('append', 'drop', 'alter', 'swap', 'other', 'insert'))
    k = c.int('at', 0, max(len(l) - 1, 0)); o = list(l)
    if how == 'append': o.append(c.choice('v', (0, 1)))
    elif how == 'insert': o.insert(k, c.choice('v', (0, 1)))
    elif how == 'drop': o = o[:k] + o[k + 1:]
    elif how == 'alter' and l: o[k] = o[k] ^ 1
    elif how == 'swap' and l: j = c.int('with', 0, len(l) - 1); o[k], o[j] = o[j], o[k]
    else: o = some_list(c, 'o')
    c.check('equal exactly when the lists are', (build(c, cl, l) == build(c, cl, o, 'other')) is (l == o))

# ------------------------------------------------------------ ranges of every size
from contracts.mmrtree import *

def is_canonical(c, cl, label, r, l):
    """r is the tree of l: the specified shape over the specified values"""
    x = listed(c, cl, r)
    c.check(label + ' made of ranges', x is not None)
    c.eq(label + ' values', x, l)
    n = len(l)
    k = c.split(n == 0, n == 1)
    if type(r) in (cl.EmptyNodeClass, cl.LeafNodeClass, cl.InnerNodeClass): c.check(label + ' kind of node', type(r) is (cl.EmptyNodeClass, cl.LeafNodeClass, cl.InnerNodeClass)[k])
    shaped(c, cl, label, r)

@contract('C08', 'bit lemma', conc=False)
def bit_lemma(c): c.band_lemma()

@contract('C08', 'small trees', samples=100)
def small(c):
    cl = mmr_class(c); v = c.int('v', 0, 2**64 - 1); w = c.int('w', 0, 2**64 - 1)
    e = c.returns('empty', cl)
    is_canonical(c, cl, 'empty', e, ())
    x = c.returns('append', e.append, v); is_canonical(c, cl, 'one value', x, (v,))
    y = c.returns('append', x.append, w)
    c.check('two values', c.both(type(y) is cl.InnerNodeClass, type(y.left) is cl.LeafNodeClass, type(y.right) is cl.LeafNodeClass, y.length == 2, y.left.value == v, y.right.value == w))

@contract('C08', 'append keeps the shape', samples=300)
def appending(c):
    cl = mmr_class(c); l, r, A, B, p, m = inner(c, cl)
    if c.symbolic: also(c, (len(l), p))
    v = c.int('v', 0, 2**64 - 1)
    if c.symbolic: one = power(c, 'one'); c.assume(one == 1); k = multiple(c, 'half', one, 0); c.assume(c.either(p == 1, len(l) == 2 * k))
    x = c.returns('append', r.append, v)
    shaped(c, cl, 'appended', x)
    c.check('kind of node', isinstance(x, cl.InnerNodeClass) or c.symbolic and hasattr(x, 'items'))

@contract('C08', 'merge keeps the shape', samples=300, models=PERFECTLY)
def merge(c):
    cl = mmr_class(c); l, r, Q, q = merging(c, cl); c.ghost(range=(c, cl))
    x = c.returns('merge', r._merge_trees, q)
    shaped(c, cl, 'merged', x)

@contract('C08', 'extend keeps the shape', samples=300, cuts=[EXTEND])
def extending(c):
    cl = mmr_class(c); c.ghost(range=(c, cl))
    what = c.choice('from', ('empty', 'leaf', 'inner', 'construction'))
    v = c.int('v', 0, 2**64 - 1); new = c.list('new', val)
    if what == 'inner': l, r, A, B, p, m = inner(c, cl)
    else: l = (v,) if what == 'leaf' else (); r = cl.LeafNodeClass(v) if l else cl.EmptyNodeClass()
    x = c.returns('construction', cl, new) if what == 'construction' else c.returns('extend', r.extend, range_over(c, cl, new) if c.choice('values', ('list', 'range')) == 'range' else new)
    shaped(c, cl, 'extended', x)

@contract('C08', 'slices keep the shape', samples=300, cuts=[EXTEND])
def slicing(c):
    cl = mmr_class(c); l, r, A, B, p, m = inner(c, cl); n = len(l)
    c.ghost(range=(c, cl))
    a = c.opt('start?', lambda: c.int('start', None if c.symbolic else -n - 3, None if c.symbolic else n + 3))
    b = c.opt('stop?', lambda: c.int('stop', None if c.symbolic else -n - 3, None if c.symbolic else n + 3))
    x = c.returns('slice', operator.getitem, r, slice(a, b))
    shaped(c, cl, 'slice', x)
    c.check('kind of node', c.symbolic and hasattr(x, 'items') or type(x) is (cl.EmptyNodeClass, cl.LeafNodeClass, cl.InnerNodeClass)[min(len(l[a:b]), 2)])

def hashed(c, cl, name):
    """a node of any kind, known by its children's hashes: node, what the specification hashes, what it depends on"""
    kind = c.choice(name + '.kind', ('empty', 'leaf', 'inner'))
    if kind == 'empty': return cl.EmptyNodeClass(), kind, c.native(b''), ()
    if kind == 'leaf':
        v = c.int(name + '.v', 0, 2**64 - 1)
        return cl.LeafNodeClass(v), kind, c.leb128(v), (v,)
    l, r, A, B, p, m = inner(c, cl, name=name + '.')
    if c.symbolic:
        h = [c.bytes(name + '.left', n=32), c.bytes(name + '.right', n=32)]
        object.__setattr__(r.left, 'digest', h[0]); object.__setattr__(r.right, 'digest', h[1])
    else: h = [mmr_hash(A), mmr_hash(B)]
    return r, kind, h[0] + h[1] + c.leb128(len(l)), (h[0], h[1], len(l))

def node_hash(c, kind, data): return c.sha256(c.native(derived(raw_tag(SUB[kind]), raw_tag(TAG))) + c.sha256(data))

@contract('C08', 'hash of a node', samples=300, models=VARUINT)
def hashes(c):
    cl = mmr_class(c); r, kind, data, on = hashed(c, cl, 'x')
    c.eq('hash', c.returns('hash', lambda: r.hash), node_hash(c, kind, data))
    if kind != 'empty': c.eq('hash of the data', r.data_hash, c.sha256(data))

@contract('C08', 'equal hashes', samples=600, models=VARUINT)
def equal_hashes(c):
    """nodes are equal exactly when they are of one kind with equal values, or equal counts and halves of equal hashes"""
    cl = mmr_class(c); r, kind, data, on = hashed(c, cl, 'x'); q, other, data2, on2 = hashed(c, cl, 'y')
    same = kind == other and c.both(*[a == b for a, b in zip(on, on2)])
    if c.returns('compare', lambda: r == q): c.check('equal nodes are alike', same)
    else: c.check('unequal nodes are not', c.neg(same))

@loop('MerkleMountainRange.is_perfect_tree#0')
class Perfect(LoopSpec):
    """the count is an odd number times 2**j; every turn halves it"""
    def enter(self, L): L.g.j = None
    def havoc(self, L):
        L.g.j = L.fresh('j', 0)
        return {'l': L.env('times')(L.g.j)}
    def inv(self, L):
        if L.g.j is None: return [('the count', L['l'] == L.env('times')(L.env('j')))]
        if L.mode == 'assume': return []
        return [('halved', L.both(L.g.j >= 1, L['l'] == L.env('times')(L.g.j - 1)))]
    def variant(self, L): return L['l']

@contract('C08', 'perfect trees', samples=300, cuts=['MerkleMountainRange.is_perfect_tree#0'])
def perfect(c):
    cl = mmr_class(c)
    if c.symbolic:
        if c.choice('no values', (False, True)): n = 0; want = False
        else:
            def times(j):
                # the odd part of the count, times 2**j
                t = c.indexed('times', j).int('n', 1)
                c.assume(c.either(c.both(j == 0, t % 2 == 1), c.both(j > 0, t == 2 * c.indexed('times', j - 1).int('n', 1))))
                return t
            j = c.int('j', 0); n = times(j); want = c.indexed('times', 0).int('n', 1) == 1
            c.ghost(times=times, j=j)
    else: n = c.int('n', 0, 64); want = n > 0 and n & n - 1 == 0
    r = range_over(c, cl, c.list('l', val, n=n))
    got = c.returns('is_perfect_tree', r.is_perfect_tree)
    c.check('perfect', want if got else c.neg(want))
