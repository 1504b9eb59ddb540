"""C15: Bitcoin wire primitives"""
from engine.api import *

M = 'bitcoin.core.serialize'

@contract('C15', 'compact size')
def compact(c):
    m = c.mod(M)
    v = c.int('v', 0, 2**64 - 1); tail = c.bytes('tail')
    enc = c.compact(v)
    c.eq('encoding', c.returns('serialize', m.VarIntSerializer.serialize, v), enc)
    f = m._BytesIO(enc + tail)
    c.eq('decoded', c.returns('deserialize', m.VarIntSerializer.stream_deserialize, f), v)
    c.eq('consumed', c.remaining(f), tail)
    p = c.int('p', 0); c.assume(p < len(enc))
    c.raises('truncated', m.SerializationTruncationError, m.VarIntSerializer.deserialize, enc[:p])

@contract('C15', 'compact size refuses negative values')
def compact_neg(c):
    m = c.mod(M)
    v = c.int('v', None, -1)
    f = m._BytesIO()
    c.raises('negative', ValueError, m.VarIntSerializer.stream_serialize, v, f)
    c.eq('nothing written', f.getvalue(), b'')

@contract('C15', 'byte strings', parts=['BytesSerializer', 'VarStringSerializer'], models=COMPACT)
def bytestr(c):
    m = c.mod(M); ser = getattr(m, c.part)
    b = c.bytes('b', 0, m.MAX_SIZE if c.symbolic else 70000); tail = c.bytes('tail')
    enc = c.compact(len(b)) + b
    c.eq('encoding', c.returns('serialize', ser.serialize, b), enc)
    f = m._BytesIO(enc + tail)
    c.eq('decoded', c.returns('deserialize', ser.stream_deserialize, f), b)
    c.eq('consumed', c.remaining(f), tail)
    p = c.int('p', 0); c.assume(p < len(enc))
    c.raises('truncated', m.SerializationTruncationError, ser.deserialize, enc[:p])

@contract('C15', 'byte strings too long are refused', parts=['BytesSerializer', 'VarStringSerializer'], models=COMPACT)
def bytestr_long(c):
    m = c.mod(M); ser = getattr(m, c.part)
    n = c.int('n', m.MAX_SIZE + 1, 2**64 - 1); tail = c.bytes('tail')
    e = c.raises('too long', m.SerializationError, ser.deserialize, c.compact(n) + tail)
    c.check('not reported as truncation', not isinstance(e, m.SerializationTruncationError))

@contract('C15', 'ser_read')
def serread(c):
    m = c.mod(M)
    b = c.bytes('b'); n = c.int('n', 0)
    f = m._BytesIO(b)
    if n > m.MAX_SIZE:
        e = c.raises('too long', m.SerializationError, m.ser_read, f, n)
        c.check('not reported as truncation', not isinstance(e, m.SerializationTruncationError))
    elif n > len(b): c.raises('truncated', m.SerializationTruncationError, m.ser_read, f, n)
    else:
        c.eq('read', c.returns('ser_read', m.ser_read, f, n), b[:n])
        c.eq('consumed', c.remaining(f), b[n:])

class Inner:
    """any element class whose own serialization meets its contract"""
    def __init__(self, c, m): self.c = c; self.m = m
    def enc(self, o):
        if self.c.symbolic: return o.enc
        return bytes([len(o)]) + o
    def draw(self, s, i):
        if not self.c.symbolic: return s.bytes('e', 0, 40)
        return Elem(i)
    def stream_serialize(self, o, f): f.write(self.enc(o))
    def stream_deserialize(self, f):
        if not self.c.symbolic: return self.m.ser_read(f, self.m.ser_read(f, 1)[0])
        o, whole = take_elem(f)
        if not whole: raise self.m.SerializationTruncationError('element cut short')
        return o

def setup(c, m):
    """(serialize, deserialize, items, element encoding, module) for each vector serializer"""
    if c.part == 'objects':
        inner = Inner(c, m)
        items = c.list('items', inner.draw, kind=list)
        return (lambda xs, f: m.VectorSerializer.stream_serialize(inner, xs, f)), \
               (lambda f: m.VectorSerializer.stream_deserialize(inner, f)), items, inner.enc
    if c.part == 'uint256':
        items = c.list('items', lambda s, i: s.bytes('e', n=32), kind=list)
        return m.uint256VectorSerializer.stream_serialize, m.uint256VectorSerializer.stream_deserialize, items, lambda b: b
    items = c.list('items', lambda s, i: s.int('e', -2**31, 2**31 - 1), kind=list)
    return m.intVectorSerialzer.stream_serialize, m.intVectorSerialzer.stream_deserialize, items, lambda v: c.le(v, 4, True)

PARTS = ['objects', 'uint256', 'int']
W = dict(zip(PARTS, ['VectorSerializer', 'uint256VectorSerializer', 'intVectorSerialzer']))

@contract('C15', 'vectors', parts=PARTS, models=COMPACT, cuts=lambda p: [W[p] + '.stream_serialize#0', W[p] + '.stream_deserialize#0'])
def vectors(c):
    m = c.mod(M)
    ser, deser, items, enc = setup(c, m)
    n = len(items)
    c.assume(n < 2**64)
    pre = c.bytes('pre'); tail = c.bytes('tail')
    v = c.vec('items', items, enc)
    c.ghost(vec=v, tail=tail)
    f = m._BytesIO(); f.write(pre)
    c.returns('serialize', ser, items, f)
    whole = c.compact(n) + v.whole()
    c.eq('encoding', f.getvalue(), pre + whole)
    f = m._BytesIO(whole + tail)
    r = c.returns('deserialize', deser, f)
    c.check('a list', isinstance(r, list))
    c.eq('decoded', r, items)
    c.eq('consumed', c.remaining(f), tail)

@contract('C15', 'vectors truncated', parts=PARTS, models=COMPACT, cuts=lambda p: [W[p] + '.stream_deserialize#0:truncated'])
def vectors_cut(c):
    m = c.mod(M)
    ser, deser, items, enc = setup(c, m)
    n = len(items)
    c.assume(n < 2**64)
    h = c.compact(n)
    if c.bool('in the length'):
        p = c.int('p', 0); c.assume(p < len(h))
        c.raises('truncated', m.SerializationTruncationError, deser, m._BytesIO(h[:p]))
    else:
        v = c.vec_prefix('items', items, enc)
        c.ghost(vec=v)
        c.raises('truncated', m.SerializationTruncationError, deser, m._BytesIO(h + v.whole()))

@contract('C15', 'uint256 vectors refuse other lengths', samples=100)
def vec256_bad(c):
    m = c.mod(M)
    b = c.bytes('b'); c.assume(len(b) != 32)
    c.raises('not 32 bytes', AssertionError, m.uint256VectorSerializer.serialize, [b])

@contract('C15', 'whole messages')
def whole(c):
    """Serializable.deserialize over any class that reads some prefix of its input"""
    m = c.mod(M)
    b = c.bytes('b', 0, 1000); tail = c.bytes('tail')
    class Msg(m.Serializable):
        def __init__(self, b): self.b = b
        def stream_serialize(self, f): f.write(self.b)
        @classmethod
        def stream_deserialize(cls, f): return cls(m.ser_read(f, len(b)))
    c.eq('serialize', c.returns('serialize', Msg(b).serialize), b)
    c.eq('hash', c.returns('GetHash', Msg(b).GetHash), c.hash256(b))
    r = c.returns('with padding allowed', Msg.deserialize, b + tail, True)
    c.eq('decoded', r.b, b)
    if len(tail) == 0:
        c.eq('decoded', c.returns('no padding', Msg.deserialize, b + tail).b, b)
    else:
        e = c.raises('extra data', m.DeserializationExtraDataError, Msg.deserialize, b + tail)
        c.eq('decoded object in the error', e.obj.b, b)
        c.eq('padding in the error', e.padding, tail)
