"""A family of proof classes, plain descriptions of their instances, and what the hashes are by definition"""
from engine.api import *
from contracts.bitsgen import some_bits
from contracts import bitsgen
import hashlib
P = 'proofmarshal.proof'
S = 'proofmarshal.serialize'

class Node:
    """a proof as plain data: its class and the values of its attributes"""
    def __init__(self, kind, **attrs): self.kind = kind; self.attrs = attrs
    def key(self): return (self.kind,) + tuple((k, v.key() if isinstance(v, Node) else v) for k, v in self.attrs.items())

SHAPES = {
    'Leaf': (('n', 'u8'),),
    'Other': (('n', 'u8'),),
    'Blob': (('data', 'var'), ('digest', 'digest')),
    'Pair': (('left', 'Leaf'), ('right', 'Blob'), ('x', 'u64'), ('flag', 'bool')),
    'None_': (),
    'One': (('v', 'u16'),),
    'Two': (('v', 'u16'),),
    'More': (('head', 'U'), ('k', 'four'), ('tail', 'U')),
    'Zero': (),
    'Self': (('prev', 'Self'), ('v', 'u16'), ('next', 'Self'), ('w', 'any')),
    'Chain': (('v', 'any'), ('prev', 'LeafOrChain')),
    'Mix': (('a', 'any'), ('u', 'U'), ('either', 'LeafOrBlob'), ('z', 'u64')),
    'Top': (('left', 'Leaf'), ('right', 'Leaf'), ('either', 'LeafOrBlob'), ('u', 'U'), ('pair', 'Pair'), ('bits', 'bits'), ('none', 'None_')),
}
VARIANTS = ('One', 'Two', 'More', 'Zero')           # of the union U, in order
TAGS = {'Leaf': '19e5278a-76cc-479c-8713-e7648636979c', 'Other': '4c3cce55-0a90-404e-baf3-a6720205e8ab', 'Blob': 'a5092f56-3a31-476a-ac81-1b00211140eb',
        'Pair': '557eb533-63be-497d-b163-7d1875de9681', 'None_': '65d34d83-3291-4813-9119-bd7e29b9dea3', 'Top': 'ed624663-7a20-4dd6-8980-9870003dfbe7',
        'Self': '0f7e8b52-9c1d-4d68-a9b3-6a5f1c5d7e11', 'Chain': '5d0c2b6a-02f4-4e0b-8f0e-f3a7b0c1d9e2', 'Mix': 'c9a1d4f7-3b5e-4c86-9d20-1e8f7a6b5c43',
        'U': '738b5a85-d6f1-4873-9c21-300a01166f1d', 'One': '390de307-8787-47b7-b25d-250aba02b1e5', 'Two': '4ea09c8e-87f5-4978-a829-78d42ab8638a',
        'More': 'a7ca25ce-8fee-4063-b022-96b2dbcb392e', 'Zero': 'ca380e10-c7d5-44df-aef0-55bce2125329'}
def raw_tag(u): return bytes.fromhex(u.replace('-', ''))
def derived(sub, tag): return hashlib.sha256(raw_tag('8125d227-981c-4ca0-afa7-ab9911352c85') + sub + tag).digest()[:16]
def tag_of(kind):
    return derived(raw_tag(TAGS[kind]), raw_tag(TAGS['U'])) if kind in VARIANTS else raw_tag(TAGS[kind])

def leb(v):
    out = b''
    while v > 127: out += bytes([v & 127 | 128]); v >>= 7
    return out + bytes([v])
def enc_value(kind, v):
    if kind == 'bool': return b'\xff' if v else b'\0'
    if kind in ('u8', 'u16', 'u64'): return leb(v)
    if kind in ('digest', 'four'): return v
    if kind == 'var': return leb(len(v)) + v
    if kind == 'bits':
        t = v + (0,) * (-len(v) % 8)
        return leb(len(v)) + bytes(sum(t[i + k] << 7 - k for k in range(8)) for i in range(0, len(t), 8))
class Opaque(Node):
    """a proof of which only the class and the data hash are known"""
    def __init__(self, kind, dh): Node.__init__(self, kind); self.dh = dh
    def key(self): return (self.kind, self.dh)
class Val:
    """a value of a type known only by its encoding"""
    def __init__(self, enc): self.enc = enc

def encoded(c, kind, v):
    """encoding of an attribute that is not a proof"""
    if kind == 'bool': return c.native(b'\xff' if v else b'\0')
    if kind in ('u8', 'u16', 'u64'): return c.leb128(v)
    if kind in ('digest', 'four'): return v
    if kind == 'any': return v.enc
    if kind == 'var': return c.leb128(len(v)) + v
    return enc_value(kind, v)
def data_hash(c, node):
    if isinstance(node, Opaque): return node.dh
    pre = c.native(b'')
    for a, k in SHAPES[node.kind]:
        v = node.attrs[a]
        pre = pre + (spec_hash(c, v) if isinstance(v, Node) else encoded(c, k, v))
    return c.sha256(pre)
def spec_hash(c, node): return c.sha256(c.native(tag_of(node.kind)) + data_hash(c, node))

def classes(c):
    m = c.mod(P); s = c.mod(S); b = c.mod(bitsgen.BITS)
    ser = {'u8': s.UInt8, 'u16': s.UInt16, 'u64': s.UInt64, 'bool': s.SerBool, 'digest': s.Digest, 'four': s.FixedBytes(4), 'var': s.VarBytes(40), 'bits': b.BitsSerializer}
    class AnySer(s.Serializer):
        @classmethod
        def check_instance(cls, value):
            if type(value) is not Val: raise s.SerializerTypeError('not a value')
        @classmethod
        def ctx_serialize(cls, self, ctx): ctx.write_bytes(self.enc)
        @classmethod
        def ctx_deserialize(cls, ctx): return Val(ctx.read_bytes(7))
    ser['any'] = AnySer
    class U(m.VarProof):
        HASHTAG = s.HashTag(TAGS['U'])
    ser['U'] = U
    out = {'U': U}
    def new(kind):
        d = {'SERIALIZED_ATTRS': [(a, ser[k]) for a, k in SHAPES[kind]]}
        if kind in VARIANTS:
            d['SUB_HASHTAG'] = s.HashTag(TAGS[kind])
            out[kind] = U.declare_variant(type(kind, (U,), d))
        else:
            d['HASHTAG'] = s.HashTag(TAGS[kind])
            if kind in ('Leaf', 'Blob'): d['__slots__'] = [a for a, k in SHAPES[kind]]
            out[kind] = type(kind, (m.Proof,), d)
        ser[kind] = out[kind]
    for k in ('Leaf', 'Other', 'Blob', 'Pair', 'None_') + VARIANTS: new(k)
    ser['LeafOrBlob'] = m.ProofUnion(out['Leaf'], out['Blob'])
    for k in ('Self', 'Chain'):
        # classes with attributes of their own class
        class X(m.Proof):
            HASHTAG = s.HashTag(TAGS[k])
        X.__name__ = X.__qualname__ = k
        ser[k] = out[k] = X
        ser['LeafOrChain'] = m.ProofUnion(out['Leaf'], X)
        X.SERIALIZED_ATTRS = [(a, ser[b]) for a, b in SHAPES[k]]
    new('Mix'); new('Top')
    out['serializers'] = ser
    return out

def value(c, name, kind):
    if kind == 'bool': return c.bool(name)
    if kind in ('u8', 'u16', 'u64'):
        if c.symbolic: return c.int(name, 0, 2**int(kind[1:]) - 1)
        return c.choice(name + '?', (None, 0, 1, 127, 128)) or c.int(name, 0, 2**int(kind[1:]) - 1)
    if kind == 'digest': return c.bytes(name, n=32) if c.symbolic else c.choice(name + '?', (bytes(32), None, None)) or c.bytes(name, n=32)
    if kind == 'four': return c.bytes(name, n=4)
    if kind == 'var': return c.bytes(name, 0, 40)
    if kind == 'any': return Val(c.bytes(name, n=7))
    if kind == 'bits': return some_bits(c, name, 20)
UNIONS = {'LeafOrBlob': ('Leaf', 'Blob'), 'LeafOrChain': ('Leaf', 'Chain')}
def is_part(k): return k in SHAPES or k == 'U' or k in UNIONS
def some_node(c, name, kind, depth=2):
    if kind in UNIONS: kind = c.choice(name + '.class', UNIONS[kind])
    if kind == 'U': kind = c.choice(name + '.variant', VARIANTS if not c.symbolic else ('Two', 'Zero') if depth == 0 else ('Two', 'More'))
    if depth < 0 or depth == 0 and kind in ('More', 'Self', 'Chain', 'Mix', 'Pair') and c.symbolic or depth == 0 and kind in ('More', 'Self', 'Chain') or not c.symbolic and depth < 2 and c.choice(name + '.opaque', (0, 0, 0, 1)): return Opaque(kind, c.bytes(name + '.data_hash', n=32))
    if c.symbolic:
        # all parts whole, or all known by their hash only
        if depth == 1: depth = c.choice(name + '.parts', (1, 0)) if any(is_part(k) for a, k in SHAPES[kind]) else 1
    return Node(kind, **{a: some_node(c, name + '.' + a, k, depth - 1) if is_part(k) else value(c, name + '.' + a, k) for a, k in SHAPES[kind]})
def root(cl, node): return cl['U'] if node.kind in VARIANTS else cl[node.kind]
def build(c, cl, node):
    if isinstance(node, Opaque):
        e = c.native(b'\xff')
        if node.kind in VARIANTS: e = e + c.native(bytes([VARIANTS.index(node.kind)]))
        return root(cl, node).deserialize(e + node.dh)
    d = {a: build(c, cl, v) if isinstance(v, Node) else c.mod(bitsgen.BITS).Bits(v) if dict(SHAPES[node.kind])[a] == 'bits' else v for a, v in node.attrs.items()}
    return cl[node.kind](**d)
def changed_node(c, name, node):
    """the same, but for one attribute somewhere"""
    if isinstance(node, Opaque):
        h = c.bytes(name + '.other', n=32)
        return None if h == node.dh else Opaque(node.kind, h)
    if not node.attrs: return None
    a = c.choice(name + '.attr', tuple(node.attrs)); v = node.attrs[a]; k = dict(SHAPES[node.kind])[a]
    if isinstance(v, Node):
        w = changed_node(c, name + '.' + a, v)
        if w is None: return None
    else:
        w = value(c, name + '.new', k)
        if same_value(c, v, w): return None
    return Node(node.kind, **dict(node.attrs, **{a: w}))
def same_value(c, v, w):
    if type(v) is not type(w) and type(v).__name__ == 'Bits': v = tuple(v)
    return v.enc == w.enc if isinstance(v, Val) else v == w
ROOTS = ('Leaf', 'Other', 'Blob', 'Pair', 'None_', 'U', 'U', 'Self', 'Chain', 'Mix', 'Top', 'Top')
