"""C05: proof hashes"""
from engine.api import *
from contracts.proofgen import *
from contracts.anyclass import *

def disturb(c, p, node, cl):
    """anything that must not matter to the hash; returns the proof to go on with"""
    what = c.choice('op', ('hash', 'data_hash', 'access', 'eq', 'serialize', 'prune', 'decode', 'decode pruned', 'repr', 'hash()', 'path'))
    if what == 'hash': p.hash
    elif what == 'data_hash': p.data_hash
    elif what == 'access':
        for a in node.attrs: getattr(p, a)
    elif what == 'path': walk(c, p, node)
    elif what == 'eq': p == build(c, cl, node), p == p, p != 3
    elif what == 'serialize': p.serialize()
    elif what == 'repr': repr(p)
    elif what == 'hash()': hash(p)
    elif what == 'prune': p = p.prune()
    elif what == 'decode': p = root(cl, node).deserialize(p.serialize())
    elif what == 'decode pruned': p = root(cl, node).deserialize(p.prune().serialize())
    return p
def walk(c, p, node):
    while isinstance(node, Node) and node.attrs:
        a = c.choice('step', tuple(node.attrs) + (None,))
        if a is None: return
        p = getattr(p, a); node = node.attrs[a]

KINDS = ('Leaf', 'Other', 'Blob', 'Pair', 'None_', 'One', 'Two', 'More', 'Zero', 'Self', 'Chain', 'Mix')
def known(c, p):
    """any state of the hashes kept with a proof"""
    k = c.choice('known', ('', 'hash') if c.prefix else ('', 'data_hash', 'hash'))
    if k == 'hash': p.hash
    elif k: p.data_hash
def accessed(c, node):
    """the attributes accessed: none, one or all"""
    if not c.symbolic: return [a for a in node.attrs if c.bool(a)]
    if not node.attrs: return []
    return c.choice('accessed', [[]] + [[a] for a in node.attrs] + [list(node.attrs)] * (len(node.attrs) > 1))
def copies(c, p, node):
    """a proof, its pruned copy in any state, or a pruned copy of that"""
    known(c, p)
    for k in range(c.choice('copies', (0, 1, 2))):
        p = p.prune(); s = c.sub('copy%d' % k)
        for a in accessed(s, node): getattr(p, a)
        known(s, p)
    return p

@contract('C05', 'every proof', parts=KINDS, models=VARUINT, samples=2000)
def every(c):
    cl = classes(c)
    node = some_node(c, 'p', c.part, 1); p = build(c, cl, node); q = copies(c, p, node)
    c.eq('data hash', c.returns('data_hash', lambda: q.data_hash), data_hash(c, node))
    c.eq('hash', c.returns('hash', lambda: q.hash), spec_hash(c, node))
    c.eq('get_hash', c.returns('get_hash', lambda: q.get_hash()), spec_hash(c, node))
    c.eq('serializer hash', cl[node.kind].get_hash(q), spec_hash(c, node))
    c.eq('hash of the original', p.hash, spec_hash(c, node))
    c.eq('data hash of the original', p.data_hash, data_hash(c, node))
    c.check('equal', p == q and q == p and not p != q)

@contract('C05', 'hash is defined by class and contents', samples=1500, sym=False, bounded='sampled proofs of a family of classes (nested, union, empty)')
def by_contents(c):
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.choice('root', ROOTS)); p = build(c, cl, node)
    c.check('variant tags', all(bytes(cl[k].HASHTAG) == tag_of(k) for k in VARIANTS))
    orig = p
    for k in range(c.choice('ops', range(0, 7))):
        sub = c.sub('op%d' % k)
        r, err = sub.catch(m.PrunedError, disturb, sub, p, node, cl)
        if err is None: p = r
    c.eq('data hash', c.returns('data_hash', lambda: p.data_hash), data_hash(c, node))
    c.eq('hash', c.returns('hash', lambda: p.hash), spec_hash(c, node))
    c.eq('get_hash', c.returns('get_hash', lambda: p.get_hash()), spec_hash(c, node))
    c.eq('hash of the original', orig.hash, spec_hash(c, node))
    fresh = build(c, cl, node)
    c.check('equal', p == fresh and fresh == p and not p != fresh and hash(p) == hash(fresh))
    c.eq('serializer hash', cl[node.kind].get_hash(p), spec_hash(c, node))

FIRST = tuple((k, a) for k in KINDS for a, _ in SHAPES[k])
@contract('C05', 'every difference', parts=FIRST, models=VARUINT, samples=500)
def difference(c):
    """two proofs of a class differing in an attribute (and perhaps in later ones)"""
    cl = classes(c); kind, at = c.part
    va = {}; vb = {}; same = True
    for a, k in SHAPES[kind]:
        va[a] = some_part(c, 'p.' + a, k)
        if a == at:
            vb[a] = some_part(c, 'q.' + a, k); same = False
            c.assume(distinct(c, k, va[a], vb[a]))
        else: vb[a] = va[a] if same else some_part(c, 'q.' + a, k)
    p = build(c, cl, Node(kind, **va)); q = build(c, cl, Node(kind, **vb))
    c.check('data hashes', p.data_hash != q.data_hash); c.check('hashes', p.hash != q.hash)
    c.check('unequal', p != q and not p == q)
    c.check('unequal pruned', p.prune() != q.prune() and not p.prune() == q and p != q.prune())
def some_part(c, name, k):
    if not is_part(k): return value(c, name, k)
    kind = k
    if k in UNIONS: kind = c.choice(name + '.class', UNIONS[k])
    if k == 'U': kind = c.choice(name + '.variant', ('One', 'Zero'))
    return Opaque(kind, c.bytes(name + '.data_hash', n=32))
def distinct(c, k, v, w):
    if isinstance(v, Node): return v.kind != w.kind or v.dh != w.dh
    return c.neg(same_value(c, v, w))

@contract('C05', 'every class', parts=KINDS, models=VARUINT, samples=300)
def every_class(c):
    """proofs of different classes and other things"""
    cl = classes(c)
    va = {a: some_part(c, 'p.' + a, k) for a, k in SHAPES[c.part]}
    node = Node(c.part, **va); p = build(c, cl, node)
    other = c.choice('class', [k for k in KINDS if k != c.part])
    q = build(c, cl, Opaque(other, c.bytes('data_hash', n=32) if c.bool('data differs') else p.data_hash))
    c.check('hashes', p.hash != q.hash); c.check('unequal', p != q and not p == q)
    c.check('unequal pruned', p.prune() != q and q != p.prune())
    c.check('unequal to other things', p != p.hash and not p == None and p != 3)

@contract('C05', 'different contents', samples=1500, sym=False, bounded='sampled proofs of a family of classes (nested, union, empty)')
def different(c):
    cl = classes(c)
    node = some_node(c, 'p', c.choice('root', ROOTS)); p = build(c, cl, node)
    how = c.choice('other', ('attribute', 'attribute', 'class', 'variant'))
    if how == 'attribute': other = changed_node(c, 'change', node)
    elif how == 'class': other = Node('Other' if node.kind == 'Leaf' else 'None_', **node.attrs) if node.kind in ('Leaf', 'Zero') else None
    else: other = Node('Two', **node.attrs) if node.kind == 'One' else Node('None_') if node.kind == 'Zero' else None
    c.assume(other is not None)
    q = build(c, cl, other)
    c.check('data hashes', how != 'attribute' or p.data_hash != q.data_hash)
    c.check('hashes', p.hash != q.hash); c.check('unequal', p != q and not p == q)
    if c.bool('pruned'): c.check('unequal pruned', p.prune() != q.prune() and not p.prune() == q)
    c.check('unequal to other things', p != p.hash and not p == None and p != node.key())

@contract('C05', 'attributes cannot be rebound', parts=KINDS, models=VARUINT, samples=300)
def frozen(c):
    cl = classes(c)
    node = some_node(c, 'p', c.part, 1 if not c.symbolic else 0); p = build(c, cl, node)
    how = c.choice('as', ('itself', 'pruned', 'accessed', 'decoded', 'decoded pruned'))
    if how in ('pruned', 'accessed', 'decoded pruned'): p = p.prune()
    if how == 'accessed':
        for a in node.attrs: getattr(p, a)
    if how in ('decoded', 'decoded pruned'): p = root(cl, node).deserialize(p.serialize())
    name = c.choice('name', tuple(node.attrs) + ('hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'something', 'HASHTAG', '_Proof__orig_instance', 'SERIALIZED_ATTRS'))
    k = c.choice('known', ('', 'data_hash', 'hash'))
    if k: getattr(p, k)
    c.raises('setattr', TypeError, setattr, p, name, c.choice('value', (0, None, b'x')))
    c.raises('delattr', TypeError, delattr, p, name)
    c.eq('hash', p.hash, spec_hash(c, node))

@contract('C05', 'tags', samples=300)
def tags(c):
    s = c.mod(S)
    t = c.bytes('tag', n=16); u = c.bytes('sub', n=16); msg = c.bytes('msg')
    new = lambda b: bytes.__new__(s.HashTag, b)
    g = new(t)
    c.eq('tagged hash', g(msg).digest(), c.sha256(t + msg))
    c.eq('nothing hashed', g().digest(), c.sha256(t))
    d = g.derive(new(u))
    c.eq('derived', c.raw(d), c.sha256(c.native(raw_tag('8125d227-981c-4ca0-afa7-ab9911352c85')) + t + u)[:16]); c.check('a tag', type(d) is s.HashTag)

@contract('C05', 'text of tags', samples=300, sym=False, bounded='sampled')
def tag_text(c):
    s = c.mod(S)
    t = c.bytes('tag', n=16)
    h = t.hex(); text = '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
    g = s.HashTag(text)
    c.eq('tag', bytes(g), t); c.check('text', str(g) == text)

HASHLOOPS = ['Proof.__new__#0', 'Proof.calc_data_hash#0']
@contract('C05', 'a class of any attributes', cuts=HASHLOOPS, samples=600)
def any_attributes(c):
    """the hash of a proof of a class with any number of attributes of any kinds, and of its copies"""
    K, attrs = any_class(c)
    v = c.vec('hashed', attrs, lambda a: a.hashed); c.ghost(hashed=v)
    p = c.returns('construct', make, c, K, attrs)
    known(c, p); q = p
    for k in range(c.choice('copies', (0, 1, 2))):
        q = q.prune()
        known(c.sub('copy%d' % k), q)
    dh = c.sha256(v.whole())
    c.eq('data hash', c.returns('data_hash', lambda: q.data_hash), dh)
    c.eq('hash', c.returns('hash', lambda: q.hash), c.sha256(c.native(tag_of('Leaf')) + dh))
    c.eq('get_hash', c.returns('get_hash', lambda: q.get_hash()), c.sha256(c.native(tag_of('Leaf')) + dh))
    c.eq('data hash of the original', p.data_hash, dh)
    c.check('equal', p == q and q == p and not p != q)

@contract('C05', 'subclasses', parts=KINDS, models=VARUINT, samples=200)
def subclasses(c):
    """a class that only inherits has the tag of its parent, and equal hashes are equality"""
    cl = classes(c)
    va = {a: some_part(c, 'p.' + a, k) for a, k in SHAPES[c.part]}
    node = Node(c.part, **va); p = build(c, cl, node)
    sub = type('Sub', (cl[c.part],), {'__slots__': []}); q = sub(**{a: getattr(p, a) for a in va})
    known(c, p)
    c.eq('data hash', q.data_hash, data_hash(c, node)); c.eq('hash', q.hash, spec_hash(c, node))
    c.check('equal', p == q and q == p and not p != q and not q != p)
    z = q.prune()
    c.check('equal pruned', p == z and z == p and not p != z and p.prune() == z)
