"""Merbinner trees over maps"""
from engine.api import *
import hashlib
from contracts.proofgen import leb, derived, raw_tag, enc_value
T = 'proofmarshal.merbinnertree'
TAG = '2bb60984-0486-41ab-aad6-bd5b1586bd14'
SUB = {'empty': 'ca380e10-c7d5-44df-aef0-55bce2125329', 'leaf': 'f5cc855e-9d21-4f8d-ab42-7883c765c323', 'inner': '66d74741-0ffd-4178-9a79-641a45e23dda'}
def tree_class(c, width, values='UInt64', tag=TAG):
    m = c.mod(T); s = c.mod('proofmarshal.serialize'); B = c.mod('proofmarshal.bits').Bits
    return m.make_MerbinnerTree_subclass(type('Tree', (m.MerbinnerTree,), {'__slots__': [], 'HASHTAG': s.HashTag(tag), 'KEY_SERIALIZER': s.FixedBytes(width),
        'VALUE_SERIALIZER': s.UInt64, 'key2prefix': staticmethod(lambda key: B.from_bytes(key))}))
def bits_of(key): return tuple(x >> k & 1 for x in key for k in range(7, -1, -1))
def common(ps):
    a, b = min(ps), max(ps); n = 0
    while n < len(a) and a[n] == b[n]: n += 1
    return a[:n]
def tagged(kind, data): return hashlib.sha256(derived(raw_tag(SUB[kind]), raw_tag(TAG)) + hashlib.sha256(data).digest()).digest()
def tree_hash(d):
    if not d: return tagged('empty', b'')
    if len(d) == 1:
        (k, v), = d.items(); return tagged('leaf', k + leb(v))
    p = common([bits_of(k) for k in d])
    return tagged('inner', enc_value('bits', p) + b''.join(tree_hash({k: v for k, v in d.items() if bits_of(k)[len(p)] == s}) for s in (0, 1)))
def check_shape(c, cl, t, d):
    if not d: c.check('empty node', t.__class__ is cl.EmptyNodeClass); return
    if len(d) == 1:
        (k, v), = d.items()
        c.check('leaf node', t.__class__ is cl.LeafNodeClass); c.check('leaf', t.key == k and t.value == v and tuple(t.prefix) == bits_of(k)); return
    c.check('inner node', t.__class__ is cl.InnerNodeClass)
    p = common([bits_of(k) for k in d])
    c.check('prefix', tuple(t.prefix) == p)
    check_shape(c, cl, t.left, {k: v for k, v in d.items() if not bits_of(k)[len(p)]}); check_shape(c, cl, t.right, {k: v for k, v in d.items() if bits_of(k)[len(p)]})
def some_key(c, name, width, used=()):
    how = c.choice(name + '.key', ('new', 'near', 'near', 'used', 'used', 'edge'))
    k = c.bytes(name + '.k', n=width)
    if how == 'edge': return c.choice(name + '.edge', (bytes(width), b'\xff' * width, bytes(width - 1) + b'\1', b'\x80' + bytes(width - 1), b'\x7f' + b'\xff' * (width - 1)))
    if used and how != 'new':
        u = used[c.int(name + '.of', 0, len(used) - 1)]
        if how == 'used': return u
        i = c.int(name + '.bit', 0, 8 * width - 1)
        return (int.from_bytes(u, 'big') ^ 1 << i).to_bytes(width, 'big')
    return k
def some_value(c, name): return c.choice(name + '.v', (0, 1, 2, 3, 2**64 - 1))
def width(c): return c.choice('width', (1, 1, 2, 3, 4, 32))
def same_map(c, label, t, d):
    c.check(label + ' length', len(t) == len(d))
    items = list(t.items())
    c.check(label + ' items', len(items) == len(d) and dict(items) == d)
    c.check(label + ' keys', sorted(t.keys()) == sorted(d) and list(t) == [k for k, v in items]); c.check(label + ' values', list(t.values()) == [v for k, v in items])
    for k, v in d.items(): c.check(label + ' lookup', c.returns(label + ' lookup', lambda: t[k]) == v)
def build(c, cl, d, name='b'):
    """the tree of a map, by some history"""
    keys = list(d); how = c.choice(name + '.how', ('dict', 'pairs', 'put', 'put', 'detour', 'detour'))
    rot = c.int(name + '.rot', 0, max(len(keys) - 1, 0)); keys = keys[rot:] + keys[:rot]
    if c.bool(name + '.reversed'): keys = keys[::-1]
    if c.bool(name + '.sorted'): keys.sort()
    if how == 'dict': return cl({k: d[k] for k in keys})
    if how == 'pairs': return cl([(k, d[k]) for k in keys])
    t = cl()
    if how == 'put':
        for k in keys: t = t.put(k, d[k])
        return t
    extra = []
    for i, k in enumerate(keys):
        t = t.put(k, d[k] if c.bool('%s.right%d' % (name, i)) else d[k] ^ 1)
        e = some_key(c, '%s.e%d' % (name, i), len(k), keys)
        if e not in d: t = t.put(e, 7); extra.append(e)
    for i, k in enumerate(keys): t = t.put(k, d[k])
    for e in dict.fromkeys(extra): t = t.remove(e)
    return t
def some_map(c, name, w, hi=14):
    d = {}
    for k in range(c.choice(name + '.size', range(hi + 1))): d[some_key(c, '%s.%d' % (name, k), w, list(d))] = some_value(c, '%s.%d' % (name, k))
    return d
