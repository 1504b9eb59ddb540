"""C01: proof-stream primitives"""
from engine.api import *

M = 'proofmarshal.serialize'

# write_varuint: what is written so far, followed by the encoding of what is left, is the encoding of the argument
@loop('StreamSerializationContext.write_varuint#0')
class WriteVaruint(LoopSpec):
    def enter(self, L):
        L.g.fd = L['self'].fd
        L.g.pre = L.g.fd.getvalue()
        L.g.v0 = L['value']
    def havoc(self, L):
        L.g.fd.done = (L.g.pre + L.fresh_bytes('written')).segs
        L.havocs(L.g.fd)
        return {'value': L.fresh('value', 1)}
    def inv(self, L):
        v = L['value']
        n = len(L.g.pre)
        return [('value positive', v >= 1),
                ('keeps what was written', L.eqn(L.g.fd.getvalue()[:n], L.g.pre)),
                ('encoding', L.unfolds(L.leb128(L.g.v0), L.g.fd.getvalue()[n:] + L.leb128(v)))]
    def variant(self, L): return L['value']

# read_varuint: value + 2**shift * w is the encoded integer, where the encoding of w is what remains of it
@loop('StreamDeserializationContext.read_varuint#0')
class ReadVaruint(LoopSpec):
    def enter(self, L):
        L.g.fd = L['self'].fd
        L.g.v = L.env('varuint')
        L.g.tail = L.env('tail')
    def havoc(self, L):
        L.g.fd.done = L.fresh_bytes('done').segs
        L.g.fd.rest = (L.leb128(L.fresh('w', 0)) + L.g.tail).segs
        L.havocs(L.g.fd)
        return {'value': L.fresh('value', 0), 'shift': L.fresh('shift', 0)}
    def inv(self, L):
        v, s = L['value'], L['shift']
        w = L.head_arg(L.g.fd.remaining(), 'leb')
        L.g.w = w
        return [('shift', s >= 0), ('value', v >= 0), ('value below 2**shift', v < 2**s), ('w', w >= 0),
                ('value + w * 2**shift', v + w * 2**s == L.g.v),
                ('rest of the stream', L.eqn(L.g.fd.remaining(), L.leb128(w) + L.g.tail))]
    def variant(self, L): return L.head_arg(L.g.fd.remaining(), 'leb')

# on a stream all of whose bytes carry the continuation bit, the loop consumes bytes until the stream is truncated
@loop('StreamDeserializationContext.read_varuint#0:truncated')
class ReadTruncated(LoopSpec):
    def enter(self, L):
        L.g.fd = L['self'].fd
        L.g.data = L.env('data')
    def havoc(self, L):
        L.g.fd.done = L.fresh_bytes('done').segs
        k = L.fresh('consumed', 0)
        L.assume(k <= len(L.g.data))
        L.g.fd.rest = L.g.data[k:].segs
        L.havocs(L.g.fd)
        return {'value': L.fresh('value', 0), 'shift': L.fresh('shift', 0)}
    def inv(self, L):
        r = L.g.fd.remaining(); d = L.g.data
        v, s = L['value'], L['shift']
        return [('shift', s >= 0), ('value', v >= 0), ('value below 2**shift', v < 2**s),
                ('suffix', L.eqn(r, d[len(d) - len(r):]))]
    def variant(self, L): return len(L.g.fd.remaining())

@contract('C01', 'varuint encodes', cuts=['StreamSerializationContext.write_varuint#0'])
def varuint_encodes(c):
    m = c.mod(M)
    v = c.int('v', 0)
    pre = c.bytes('pre')
    ctx = m.BytesSerializationContext()
    ctx.write_bytes(pre)
    c.returns('write_varuint', ctx.write_varuint, v)
    c.eq('written is the LEB128 encoding', ctx.getbytes(), pre + c.leb128(v))

@contract('C01', 'varuint decodes', cuts=['StreamDeserializationContext.read_varuint#0'])
def varuint_decodes(c):
    m = c.mod(M)
    v = c.int('v', 0)
    tail = c.bytes('tail')
    c.ghost(varuint=v, tail=tail)
    ctx = m.BytesDeserializationContext(c.leb128(v) + tail)
    r = c.returns('read_varuint', ctx.read_varuint)
    c.eq('decoded value', r, v)
    c.eq('consumes exactly the encoding', c.remaining(ctx.fd), tail)

@contract('C01', 'varuint truncation', cuts=['StreamDeserializationContext.read_varuint#0:truncated'])
def varuint_truncated(c):
    # every proper prefix of an encoding is such a byte string (lemma below)
    m = c.mod(M)
    d = c.bytes_in('d', 128, 255)
    c.ghost(data=d)
    ctx = m.BytesDeserializationContext(d)
    c.raises('truncated varuint', m.TruncationError, ctx.read_varuint)

@contract('C01', 'varuint prefix lemma', samples=400)
def varuint_prefixes(c):
    """every byte of an encoding but the last has the continuation bit (induction on the value)"""
    v = c.int('v', 0)
    e = c.leb128(v)
    if c.symbolic:
        k = c.int('k', 0)
        c.assume(k < len(e) - 1)
        # the first byte, or by induction a byte of the encoding of v // 128
        if k == 0: c.lemma('first byte', e[0] >= 128)
        else:
            q = c.leb128(v // 128)
            c.lemma('shorter', c.both(v // 128 < v, len(q) == len(e) - 1, k - 1 < len(q) - 1))
            c.lemma('tail of the encoding', c.deep_eq(e[1:], q))
    else:
        m = c.mod(M)
        k = c.int('k', 0, len(e) - 1)
        c.check('continuation bits', all(b >= 128 for b in e[:-1]) and e[-1] < 128)
        c.raises('truncated varuint', m.TruncationError, m.BytesDeserializationContext(e[:k]).read_varuint)

@contract('C01', 'bool')
def bools(c):
    m = c.mod(M)
    v = c.bool('v')
    pre = c.bytes('pre'); tail = c.bytes('tail')
    ctx = m.BytesSerializationContext()
    ctx.write_bytes(pre)
    c.returns('write_bool', ctx.write_bool, v)
    enc = b'\xff' if v else b'\x00'
    c.eq('written', ctx.getbytes(), pre + enc)
    ctx = m.BytesDeserializationContext(enc + tail)
    r = c.returns('read_bool', ctx.read_bool)
    c.check('decoded', r is v)
    c.eq('consumed', c.remaining(ctx.fd), tail)

@contract('C01', 'bool rejects other bytes and truncation')
def bools_bad(c):
    m = c.mod(M)
    b = c.int('b', 0, 255)
    tail = c.bytes('tail')
    ctx = m.BytesDeserializationContext(bytes([b]) + tail)
    if b == 0 or b == 255:
        r = c.returns('valid bool', ctx.read_bool)
        c.check('decoded', r is (b == 255))
    else:
        e = c.raises('other byte', m.DeserializationError, ctx.read_bool)
        c.check('not the truncation error', not isinstance(e, m.TruncationError))
    c.raises('empty stream', m.TruncationError, m.BytesDeserializationContext(b'').read_bool)

@contract('C01', 'non-bools are refused')
def bools_type(c):
    m = c.mod(M)
    v = c.choice('v', (0, 1, None, 'x', b'\xff', 2))
    ctx = m.BytesSerializationContext()
    c.raises('not a bool', TypeError, ctx.write_bool, v)
    c.eq('nothing written', ctx.getbytes(), b'')

@contract('C01', 'bytes')
def raw_bytes(c):
    m = c.mod(M)
    b = c.bytes('b'); pre = c.bytes('pre'); tail = c.bytes('tail')
    ctx = m.BytesSerializationContext()
    ctx.write_bytes(pre)
    c.returns('write_bytes', ctx.write_bytes, b)
    c.eq('written', ctx.getbytes(), pre + b)
    ctx = m.BytesDeserializationContext(b + tail)
    r = c.returns('read_bytes', ctx.read_bytes, len(b))
    c.eq('decoded', r, b)
    c.eq('consumed', c.remaining(ctx.fd), tail)

@contract('C01', 'bytes truncation')
def raw_bytes_bad(c):
    m = c.mod(M)
    b = c.bytes('b')
    n = c.int('n', 1, 1 << 62)
    c.assume(n > len(b))
    c.raises('truncated bytes', m.TruncationError, m.BytesDeserializationContext(b).read_bytes, n)
