"""C06: pruning"""
from engine.api import *
from contracts.proofgen import *
from contracts.anyclass import *
from contracts.wire import same_txin, same_txout
from contracts.sealgen import some_tx
from engine.symtools import TXBYTES

class Seen:
    """what has been accessed through a pruned copy: the attributes of each part visited"""
    def __init__(self): self.visited = False; self.kids = {}
    def visit(self, node, a):
        self.visited = True
        if isinstance(node.attrs[a], Node): return self.kids.setdefault(a, Seen())

def access(c, p, node, seen):
    """follow a path of attributes, in the pruned copy and in the description"""
    while True:
        a = c.choice('attr', tuple(node.attrs) + ('no_such_attribute', None))
        c = c.sub('next')
        if a is None: return
        if a == 'no_such_attribute':
            c.raises('not an attribute', AttributeError, getattr, p, a)
            return
        v = node.attrs[a]
        if isinstance(v, Node):
            p = c.returns('access', getattr, p, a); seen = seen.visit(node, a); node = v
            c.check('class', type(p).__name__ == node.kind)
            if not node.attrs: return
        else:
            c.check('value', same_value(c, c.returns('access', getattr, p, a), v))
            seen.visit(node, a)
            return
def partial(node):
    """parts of it are known by their hash only"""
    return isinstance(node, Opaque) or any(partial(v) for v in node.attrs.values() if isinstance(v, Node))

def present(c, p, node, seen, m):
    """the decoded proof holds what was accessed and nothing else"""
    c.eq('hash of part', c.returns('hash of part', lambda: p.hash), spec_hash(c, node))
    c.check('class of part', type(p).__name__ == node.kind)
    c.check('pruned', p.is_fully_pruned is (not seen.visited))
    c.raises('not an attribute', AttributeError, getattr, p, 'no_such_attribute')
    for a, v in node.attrs.items():
        if not seen.visited:
            e = c.raises('pruned away', m.PrunedError, getattr, p, a)
            c.check('says what was pruned', e.attr_name == a and e.instance is p and a in str(e))
        elif isinstance(v, Node): present(c, c.returns('part', getattr, p, a), v, seen.kids.get(a, Seen()), m)
        else: c.check('value', same_value(c, c.returns('part', getattr, p, a), v))
def whole(c, p, node):
    """nothing of the original has changed"""
    c.check('original not pruned', p.is_pruned is partial(node) and p.is_fully_pruned is isinstance(node, Opaque))
    c.eq('original hash', p.hash, spec_hash(c, node))
    for a, v in node.attrs.items():
        if isinstance(v, Node): whole(c, getattr(p, a), v)
        else: c.check('original value', same_value(c, getattr(p, a), v))


KINDS = ('Leaf', 'Blob', 'Pair', 'None_', 'One', 'More', 'Zero', 'Self', 'Chain', 'Mix')

def some_accesses(c, p, node, seen, depth=0):
    """access any set of attributes (in one order), and of the parts one attribute each, or all"""
    if not node.attrs: return
    names = list(node.attrs)
    if depth == 0:
        which = [a for a in names if c.bool(a)]
        if len(which) > 1 and c.bool('reversed'): which = which[::-1]
    else: which = c.choice('accessed', [()] + [(a,) for a in names] + [tuple(names)] * (len(names) > 1))
    for a in which:
        v = node.attrs[a]
        if isinstance(v, Node):
            q = c.returns('access', getattr, p, a); c.check('class', type(q).__name__ == v.kind)
            kid = seen.visit(node, a)
            c.check('kept', getattr(p, a) is q)
            if depth == 0 and len(which) <= 2: some_accesses(c.sub(a), q, v, kid, 1)
        else:
            c.check('value', same_value(c, c.returns('access', getattr, p, a), v)); seen.visit(node, a)

@contract('C06', 'every pruned copy', parts=KINDS, models=VARUINT, samples=1000)
def every(c):
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.part, 1); orig = build(c, cl, node)
    if c.bool('hashed before'): orig.hash
    p = c.returns('prune', orig.prune); seen = Seen()
    c.check('pruned', p.is_pruned is True and p.is_fully_pruned is True and type(p) is type(orig))
    c.raises('not an attribute', AttributeError, getattr, p, 'no_such_attribute')
    some_accesses(c, p, node, seen)
    c.check('fully pruned', p.is_fully_pruned is (not seen.visited))
    c.eq('hash', p.hash, spec_hash(c, node))
    e = c.returns('serialize', p.serialize)
    q = c.returns('deserialize', root(cl, node).deserialize, e)
    present(c, q, node, seen, m)
    c.eq('encoding of the decoded', q.serialize(), e)
    whole(c, orig, node)

@contract('C06', 'every pruned copy of a pruned copy', parts=KINDS, models=VARUINT, samples=1000)
def again(c):
    """what a decoded proof holds can be pruned again"""
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.part, 1); orig = build(c, cl, node)
    p = orig.prune(); seen = Seen()
    if not node.attrs: seen.visited = False
    for a in node.attrs:
        getattr(p, a); seen.visit(node, a)
    decoded = c.bool('decoded')
    if decoded: p = root(cl, node).deserialize(p.serialize())
    r = c.returns('prune', p.prune); s2 = Seen()
    c.check('pruned', r.is_pruned is True and r.is_fully_pruned is True)
    some_accesses(c, r, node, s2, 1)
    c.eq('hash', r.hash, spec_hash(c, node))
    present(c, c.returns('deserialize', root(cl, node).deserialize, c.returns('serialize', r.serialize)), node, s2, m)
    if decoded: present(c, p, node, seen, m)
    whole(c, orig, node)

@contract('C06', 'pruned copies', samples=2500, sym=False, bounded='sampled proofs of a family of classes (nested, union, empty) and access paths')
def pruned(c):
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.choice('root', ROOTS)); orig = build(c, cl, node)
    enc = orig.serialize() if c.bool('serialized before') else None
    if c.bool('hashed before'): orig.hash
    p = c.returns('prune', orig.prune); seen = Seen()
    c.check('pruned', p.is_pruned is True and p.is_fully_pruned is True and type(p) is type(orig))
    for k in range(c.choice('accesses', range(0, 5))):
        sub = c.sub('access%d' % k)
        if sub.choice('kind', (0, 0, 0, 1)): sub.choice('neutral', (lambda: p.hash, lambda: p == orig, lambda: p.serialize(), lambda: hash(p), lambda: repr(p)))()
        else: access(sub, p, node, seen)
    c.check('fully pruned', p.is_fully_pruned is (not seen.visited))
    c.eq('hash', p.hash, spec_hash(c, node))
    e = c.returns('serialize', p.serialize)
    q = c.returns('deserialize', root(cl, node).deserialize, e)
    present(c, q, node, seen, m)
    c.eq('encoding of the decoded', q.serialize(), e)
    whole(c, orig, node)
    c.check('same encoding of the original', enc is None or orig.serialize() == enc)
    # a part pruned away can be pruned and decoded again
    r = c.returns('deserialize', root(cl, node).deserialize, q.prune().serialize())
    present(c, r, node, Seen(), m)
    # pruning the decoded proof again
    if seen.visited:
        z = q.prune(); s2 = Seen()
        a = c.choice('again', tuple(node.attrs))
        getattr(z, a); s2.visit(node, a)
        # parts that were missing in q stay missing: serializing needs the others only
        z2 = root(cl, node).deserialize(z.serialize())
        c.eq('hash', z2.hash, spec_hash(c, node))
        c.check('first level present', not z2.is_fully_pruned)
        c.eq('still what was there', q.serialize(), e)

@contract('C06', 'every whole proof', parts=KINDS, models=VARUINT, samples=500)
def every_whole(c):
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.part, 1); p = build(c, cl, node)
    whole(c, p, node)
    c.raises('not an attribute', AttributeError, getattr, p, 'no_such_attribute')
    e = c.returns('serialize', p.serialize)
    q = c.returns('deserialize', root(cl, node).deserialize, e)
    whole(c, q, node)
    c.check('equal', p == q); c.eq('encoding', q.serialize(), e)
    c.raises('not an attribute', AttributeError, getattr, q, 'no_such_attribute')
    # made of pruned parts
    for a, v in node.attrs.items():
        if isinstance(v, Node):
            z = cl[node.kind](**dict({b: getattr(p, b) for b in node.attrs}, **{a: getattr(p, a).prune()}))
            c.check('made of a pruned part', z.is_pruned is True and z.is_fully_pruned is False and z == p)

@contract('C06', 'every encoding cut short', parts=KINDS, models=VARUINT, samples=500)
def every_cut(c):
    cl = classes(c); s = c.mod(S)
    node = some_node(c, 'p', c.part, 1); p = build(c, cl, node)
    how = c.choice('as', ('pruned', 'whole', 'accessed'))
    if how != 'whole': p = p.prune()
    if how == 'accessed' and node.attrs: getattr(p, c.choice('attr', tuple(node.attrs)))
    e = p.serialize(); k = c.int('cut', 0, None if c.symbolic else len(e) - 1); c.assume(k < len(e))
    c.raises('truncated', s.DeserializationError, root(cl, node).deserialize, e[:k])

@contract('C06', 'every bad encoding', parts=KINDS, models=VARUINT, samples=500)
def every_bad(c):
    """a pruned flag that is neither true nor false, a variant that does not exist"""
    cl = classes(c); s = c.mod(S); kind = c.part; R = cl['U'] if kind in VARIANTS else cl[kind]
    rest = c.bytes('rest')
    c.raises('pruned flag', s.DeserializationError, R.deserialize, c.le(c.int('flag', 1, 254), 1) + rest)
    flag = c.choice('flag?', (b'\0', b'\xff'))
    c.raises('nothing', s.DeserializationError, R.deserialize, c.native(b''))
    if kind in VARIANTS: c.raises('variant', s.DeserializationError, R.deserialize, c.native(flag) + c.leb128(c.int('variant', len(VARIANTS), None if c.symbolic else 2**40)) + rest)
    if kind == 'Chain': c.raises('class', s.DeserializationError, R.deserialize, c.native(b'\0') + c.bytes('v', n=7) + c.leb128(c.int('class', 2, None if c.symbolic else 2**40)) + rest)

COUNT = 300
def many(c):
    """a union of many classes, and a disjoint union of many classes"""
    m = c.mod(P); s = c.mod(S)
    class V(m.VarProof):
        HASHTAG = s.HashTag(TAGS['U'])
    tag = lambda k: s.HashTag('738b5a85-d6f1-4873-9c21-%012x' % k)
    vs = [V.declare_variant(type('V%d' % k, (V,), {'SERIALIZED_ATTRS': [('v', s.UInt16)], 'SUB_HASHTAG': tag(k)})) for k in range(COUNT)]
    ds = [type('D%d' % k, (m.Proof,), {'SERIALIZED_ATTRS': [('v', s.UInt16)], 'HASHTAG': tag(k)}) for k in range(COUNT)]
    D = m.ProofUnion(*ds)
    Box = type('Box', (m.Proof,), {'SERIALIZED_ATTRS': [('a', V), ('b', D)], 'HASHTAG': tag(COUNT)})
    return V, vs, D, ds, Box
@contract('C06', 'unions of many classes', models=VARUINT, parts=[(k, k + 50) for k in range(0, COUNT, 50)], samples=60)
def unions(c):
    m = c.mod(P); s = c.mod(S)
    V, vs, D, ds, Box = many(c)
    k = c.choice('class', range(*c.part)); v = c.int('v', 0, 65535); tail = c.bytes('tail', 0, 10)
    p = vs[k](v=v); d = ds[k](v=v); b = Box(a=p, b=d)
    e = c.native(b'\0') + c.leb128(k) + c.leb128(v)
    c.eq('variant encoding', p.serialize(), e)
    c.eq('pruned variant encoding', p.prune().serialize(), c.native(b'\xff') + c.leb128(k) + c.sha256(c.leb128(v)))
    f = c.leb128(k) + c.native(b'\0') + c.leb128(v)
    c.eq('union encoding', D.serialize(d), f)
    for what, r in (('variant', c.returns('variant', V.deserialize, e + tail)), ('variant', c.returns('variant', V.deserialize, p.prune().serialize() + tail)), ('member', c.returns('member', D.deserialize, f + tail))):
        c.check('class of the ' + what, type(r) is (vs if what == 'variant' else ds)[k])
        c.check('hash of the ' + what, r.hash == (p if what == 'variant' else d).hash)
        if not r.is_pruned: c.check('value of the ' + what, r.v == v)
    q = c.returns('box', Box.deserialize, b.serialize())
    c.check('parts', type(q.a) is vs[k] and type(q.b) is ds[k] and q.a.v == v and q.b.v == v and q.hash == b.hash)
    c.check('no such variant', c.catch(s.DeserializationError, V.deserialize, c.native(b'\0') + c.leb128(COUNT + k) + c.leb128(v))[1] is not None)
    c.check('no such class', c.catch(s.DeserializationError, D.deserialize, c.leb128(COUNT + k) + c.native(b'\0') + c.leb128(v))[1] is not None)

@contract('C06', 'whole proofs', samples=800, sym=False, bounded='sampled proofs of a family of classes')
def complete(c):
    cl = classes(c); m = c.mod(P)
    node = some_node(c, 'p', c.choice('root', ROOTS)); p = build(c, cl, node)
    whole(c, p, node)
    c.raises('not an attribute', AttributeError, getattr, p, 'no_such_attribute')
    q = c.returns('deserialize', root(cl, node).deserialize, c.returns('serialize', p.serialize))
    whole(c, q, node)
    c.check('equal', p == q)
    # made of pruned parts
    for a, v in node.attrs.items():
        if isinstance(v, Node):
            z = cl[node.kind](**dict({b: getattr(p, b) for b in node.attrs}, **{a: getattr(p, a).prune()}))
            c.check('made of a pruned part', z.is_pruned is True and z.is_fully_pruned is False and z == p)

@contract('C06', 'malformed encodings', samples=800, sym=False, bounded='sampled')
def malformed(c):
    cl = classes(c); s = c.mod(S)
    node = some_node(c, 'p', c.choice('root', ROOTS)); p = build(c, cl, node)
    if c.bool('pruned'): p = p.prune()
    e = p.serialize()
    c.raises('truncated', s.DeserializationError, root(cl, node).deserialize, e[:c.int('cut', 0, len(e) - 1)])
    c.raises('pruned flag', s.DeserializationError, root(cl, node).deserialize, bytes([c.int('flag', 1, 254)]) + e[1:])
    if node.kind in VARIANTS: c.raises('variant', s.DeserializationError, root(cl, node).deserialize, e[:1] + bytes([c.int('variant', len(VARIANTS), 127)]) + e[2:])

# ---- a class with any number of attributes
NEW, WRITE, READ = 'Proof.__new__#0', 'Proof._ctx_serialize#0', 'Proof._ctx_deserialize#0'
@contract('C06', 'a class of any attributes', parts=['none', 'one', 'free'], cuts=lambda part: [NEW], samples=300)
def any_built(c):
    """construction: every attribute is the value given, and it knows whether a part of it is pruned"""
    K, attrs = any_class(c, c.part)
    p = c.returns('construct', make, c, K, attrs)
    c.check('not fully pruned', p.is_fully_pruned is False)
    if c.part != 'free': c.check('pruned', c.iff(p.is_pruned, c.part == 'one'))
    c.raises('not an attribute', AttributeError, getattr, p, 'no_such_attribute') if not c.symbolic else None
    def one(c, l, a, b): c.check('value', getattr(p, a.name) is a.value and getattr(p, b.name) is a.value)
    c.each('attributes', attrs, attrs, one)

@contract('C06', 'encoding of a class of any attributes', cuts=[NEW, WRITE, READ], samples=400)
def any_encoded(c):
    K, attrs = any_class(c)
    v = c.vec('wire', attrs, lambda a: whole_enc(c, a)); tail = c.native(b'')
    def decoded(a, e):
        c.check('encoding of its own value', e.k == 4 * a.k)
        return a.value
    c.ghost(wire=v, tail=tail, decoded=decoded, copy=None)
    p = c.returns('construct', make, c, K, attrs)
    e = c.returns('serialize', p.serialize)
    c.eq('encoding', e, c.native(b'\0') + v.whole())
    q = c.returns('deserialize', K.deserialize, e)
    c.check('class', type(q) is K); c.check('not fully pruned', q.is_fully_pruned is False)
    def one(c, l, a, b): c.check('value', same_attr(c, getattr(q, a.name), a.value))
    c.each('attributes', attrs, attrs, one)
def whole_enc(c, a):
    if c.symbolic: return Elem(4 * a.k).enc
    return a.ser.serialize(a.value) if a.part else a.hashed
def same_attr(c, x, v):
    if c.symbolic: return x is v
    return type(x) is type(v) and (x.enc == v.enc if isinstance(v, Val) else x == v)

def in_state(c, p, K, attrs):
    """a pruned copy of which an arbitrary set of attributes has been accessed, the parts accessed in an arbitrary state"""
    q = c.returns('prune', p.prune)
    if not c.symbolic:
        for a in attrs:
            if a.acc: kept_value(c, a, getattr(q, a.name))
        return q
    if c.bool('accessed'):
        # by induction over the accesses ('one more access')
        def get(k):
            a = attrs[k]
            if c.split(a.acc) == 0: return state_of(c, a, 2)
        q.__dict__['bulk'] = get
        object.__setattr__(q, 'is_fully_pruned', False)
    return q
def kept_value(c, a, x):
    c.check('value kept', type(x) is type(a.value) and (x.enc == a.value.enc if isinstance(x, Val) else x == a.value))
    if a.part: c.check('part pruned', x.is_pruned is True and x.is_fully_pruned is True)
def state_of(c, a, state):
    """the value of an attribute in a pruned copy"""
    if not a.part: return a.value
    d = a.__dict__.setdefault('states', {})
    if state not in d: d[state] = a.value.__class__.make(a.k, state, a.value.hash, True)
    return d[state]

@contract('C06', 'one more access', cuts=[NEW], samples=400)
def one_more(c):
    """any state of access of a class of any attributes, and an access of any attribute"""
    K, attrs = any_class(c)
    p = c.returns('construct', make, c, K, attrs)
    q = in_state(c, p, K, attrs)
    j = c.int('j', 0, None if c.symbolic else max(len(attrs) - 1, 0)); c.assume(j < len(attrs)); a = attrs[j]
    x = c.returns('access', getattr, q, a.name)
    if not a.part: c.check('value', same_attr(c, x, a.value))
    else:
        c.check('pruned copy', x is not a.value and x.is_pruned is True); c.eq('hash of the part', x.hash, a.value.hash)
        if c.symbolic:
            c.check('state', c.both(x.k == a.k, x.state == (2 if 'bulk' in q.__dict__ and c.split(a.acc) == 0 else 1)))
    c.check('kept', getattr(q, a.name) is x)
    c.check('pruned', q.is_pruned is True and q.is_fully_pruned is False)
    c.check('the original keeps its own', getattr(p, a.name) is a.value and p.is_fully_pruned is False)
    if c.symbolic: frame(c, attrs, p, q, j)
def frame(c, attrs, p, q, j):
    """the others are as they were"""
    k = c.int('other', 0); c.assume(k < len(attrs)); c.assume(c.neg(k == j)); a = attrs[k]
    c.check('nothing else stored', a.name not in q.__dict__ and a.name not in p.__dict__)

@contract('C06', 'encoding of a pruned copy of any attributes', cuts=[NEW, WRITE, READ], samples=400)
def any_copy(c):
    """of a copy in any state of access: what was accessed, and the others as pruned as can be"""
    K, attrs = any_class(c)
    p = c.returns('construct', make, c, K, attrs)
    q = in_state(c, p, K, attrs)
    if c.symbolic: some = q.is_fully_pruned is False
    else: some = any(a.acc for a in attrs)
    c.check('fully pruned', q.is_fully_pruned is (not some))
    if not some:
        dh = c.new_bytes('dh') if c.symbolic else p.data_hash
        if c.symbolic:
            c.assume(len(dh) == 32); object.__setattr__(p, 'data_hash', dh)
        e = c.returns('serialize', q.serialize)
        c.eq('encoding', e, c.native(b'\xff') + dh)
        r = c.returns('deserialize', K.deserialize, e)
        c.check('fully pruned', r.is_fully_pruned is True and r.is_pruned is True and type(r) is K); c.eq('data hash', r.data_hash, dh)
        return
    def kept(k):
        a = attrs[k]
        if c.split(a.acc) == 0: return state_of(c, a, 2)
        return state_of(c, a, 1)
    def enc(a):
        if not c.symbolic: return a.ser.serialize(a.value.prune()) if a.part else a.hashed
        if not a.part: return Elem(4 * a.k).enc
        return Elem(4 * a.k + (2 if c.split(a.acc) == 0 else 1)).enc
    v = c.vec('wire', attrs, enc)
    def decoded(a, e):
        c.check('encoding of its own value', e.k == 4 * a.k + ((2 if c.split(a.acc) == 0 else 1) if a.part else 0))
        return kept(a.k)
    c.ghost(wire=v, tail=c.native(b''), decoded=decoded, copy=q, kept=kept)
    e = c.returns('serialize', q.serialize)
    c.eq('encoding', e, c.native(b'\0') + v.whole())
    c.ghost(wanted=kept)
    r = c.returns('deserialize', K.deserialize, e)
    c.check('class', type(r) is K); c.check('not fully pruned', r.is_fully_pruned is False)
    def one(c, l, a, b):
        x = getattr(r, a.name)
        if c.symbolic: c.check('value', x is kept(a.k))
        elif a.part: c.check('part pruned', x.is_fully_pruned is True and x == a.value)
        else: c.check('value', same_attr(c, x, a.value))
    c.each('attributes', attrs, attrs, one)

@contract('C06', 'encoding of a class of any attributes cut short', cuts=[READ + ':truncated'], samples=300)
def any_cut(c):
    K, attrs = any_class(c); s = c.mod(S)
    c.raises('nothing', s.DeserializationError, K.deserialize, c.native(b''))
    v = c.vec_prefix('wire', attrs, lambda a: whole_enc(c, a))
    c.ghost(wire=v, decoded=lambda a, e: a.value)
    c.raises('truncated', s.DeserializationError, K.deserialize, c.native(b'\0') + v.whole())
    d = c.bytes('data_hash', 0, 31)
    c.raises('truncated pruned', s.DeserializationError, K.deserialize, c.native(b'\xff') + d)

@contract('C06', 'properties of proofs of transactions', parts=['in', 'out'], models=TXBYTES + VARUINT, samples=300)
def of_transactions(c):
    """an input or output of a transaction pruned away is reported as pruned too"""
    m = c.mod(P); b = c.mod('proofchains.core.bitcoin')
    tx = some_tx(c, 'tx'); l = tx.vin if c.part == 'in' else tx.vout
    i = c.int('i', 0, 2**32 - 1) if c.symbolic else c.int('i', 0, 3); c.assume(i < len(l))
    cls, name = (b.TxInProof, 'txin') if c.part == 'in' else (b.TxOutProof, 'txout')
    orig = cls(i=i, txproof=b.TxProof(tx=tx)); same = same_txin if c.part == 'in' else same_txout
    if c.bool('read before'): same(c, 'whole', getattr(orig, name), l[i])
    p = orig.prune(); how = c.choice('accessed', ('', 'i', 'txproof', 'i txproof', 'all'))
    for a in how.split():
        if a == 'all': same(c, 'through a pruned copy', c.returns(name, getattr, p, name), l[i])
        else: getattr(p, a)
    d = c.returns('decode', cls.deserialize, p.serialize())
    if how == 'all': same(c, 'kept', c.returns(name, getattr, d, name), l[i]); return
    e = c.raises('pruned away', m.PrunedError, getattr, d, name)
    if not how: c.check('says what was pruned', e.instance is d and e.attr_name in ('i', 'txproof'))
    else: c.check('says what was pruned', e.attr_name == 'tx' and e.instance is d.txproof)
    if c.bool('pruned again'): c.raises('pruned away', m.PrunedError, getattr, d.prune(), name)
    same(c, 'original', getattr(orig, name), l[i])

@contract('C06', 'trees', samples=300, sym=False, bounded='sampled maps of up to 14 keys')
def trees(c):
    """entries of a merbinner tree"""
    from contracts import treegen as tg
    m = c.mod(P); w = tg.width(c); cl = tg.tree_class(c, w); d = tg.some_map(c, 'm', w); t = tg.build(c, cl, d)
    keys = list(d); seen = [k for j, k in enumerate(keys) if c.bool('access%d' % j)]
    p = t.prune()
    for k in seen: c.check('through a pruned copy', c.returns('lookup', lambda: p[k]) == d[k])
    absent = [k for k in (tg.some_key(c, 'absent%d' % j, w, keys) for j in range(c.choice('absent', (0, 0, 1, 2)))) if k not in d]
    for k in absent: c.raises('absent', KeyError, lambda: p[k])
    q = c.returns('decode', cl.deserialize, c.returns('serialize', p.serialize))
    c.eq('hash', q.hash, t.hash)
    for k in seen: c.check('kept', c.returns('lookup', lambda: q[k]) == d[k])
    for k in absent: c.raises('absent', KeyError, lambda: q[k])
    for k in keys:
        if k in seen: continue
        v, e = c.catch(m.PrunedError, lambda: q[k])
        # the leaf an absent key led to is there too
        c.check('pruned away', e is not None if not absent else e is not None or v == d[k])
    c.check('original', all(t[k] == d[k] for k in keys) and len(t) == len(d))
