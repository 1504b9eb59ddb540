"""C04: serialized bit arrays"""
from engine.api import *
from contracts.bitsgen import *

def enc(c, t):
    t = t + (0,) * (-len(t) % 8) if True else t
    return bytes(sum(t[i + k] << (7 - k) for k in range(8)) for i in range(0, len(t), 8))

@contract('C04', 'encoding and decoding', samples=3000, sym=False, bounded='sampled bit arrays of up to 90 bits')
def round_trip(c):
    m = c.mod(BITS); S = m.BitsSerializer
    t = some_bits(c, 'a', 300); a = make(c, 'a', t)
    e = c.returns('serialize', S.serialize, a)
    want = c.leb128(len(t)) + enc(c, t)
    c.eq('encoding', e, want)
    b = c.returns('deserialize', S.deserialize, e)
    c.check('equal array', b == a and tuple(b) == t and type(b) is m.Bits)
    s = c.mod('proofmarshal.serialize')
    tail = c.bytes('tail', 0, 20)
    ctx = s.BytesDeserializationContext(e + tail)
    c.check('with something behind', tuple(c.returns('deserialize', S.ctx_deserialize, ctx)) == t)
    c.eq('consumes the encoding only', c.remaining(ctx.fd), tail)
    k = c.int('cut', 0, len(e) - 1)
    c.raises('truncated', s.DeserializationError, S.deserialize, e[:k])
    if len(t) % 8:
        bad = e[:-1] + bytes([e[-1] | c.int('padding', 1, (1 << 8 - len(t) % 8) - 1)])
        c.raises('padding', s.DeserializationError, S.deserialize, bad)
    c.check('instance accepted', c.returns('check_instance', S.check_instance, a) is None)

@contract('C04', 'any bytes', samples=2000, sym=False, bounded='sampled')
def any_bytes(c):
    m = c.mod(BITS); S = m.BitsSerializer; s = c.mod('proofmarshal.serialize')
    n = c.int('n', 0, 40); body = c.bytes('body', 0, 7)
    e = c.leb128(n) + body
    need = (n + 7) // 8
    ok = len(body) >= need and (n % 8 == 0 or body[need - 1] & (0xff >> n % 8) == 0)
    ctx = s.BytesDeserializationContext(e)
    r, err = c.catch(s.DeserializationError, S.ctx_deserialize, ctx)
    c.check('accepted exactly when well formed', (err is None) == ok)
    if ok: c.eq('bits', tuple(r), tuple(x >> k & 1 for x in body for k in range(7, -1, -1))[:n])

@contract('C04', 'values that are not bit arrays', samples=100)
def not_bits(c):
    m = c.mod(BITS); s = c.mod('proofmarshal.serialize'); p = c.mod('proofmarshal.proof')
    class Holder(p.Proof):
        HASHTAG = s.HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
        SERIALIZED_ATTRS = [('bits', m.BitsSerializer)]
    class Sub(m.Bits): pass
    bad = c.choice('value', (None, b'', b'ab', (1, 0), [1], '101', 5, True, m.Bits, object()))
    c.raises('check_instance', s.SerializerTypeError, m.BitsSerializer.check_instance, bad)
    c.raises('in a structure', s.SerializerTypeError, lambda: Holder(bits=bad))
    a = any_bits(c, 'a')[3]; c.check('in a structure', c.returns('structure', lambda: Holder(bits=a)).bits is a)

# ------------------------------------------------------------ every bit array of every size
def body(c, buf, n, r):
    """the bits as bytes, zero-padded; r is n % 8"""
    return buf[:n // 8] + (c.le((buf[n // 8] >> (8 - r)) * 2 ** (8 - r), 1) if r else c.native(b''))
def some_array(c):
    r = int(c.part) if c.part else c.choice('odd bits', range(8))
    buf, n, t, a = any_bits(c, 'a', r)
    return buf, n, t, a, r, body(c, buf, n, r)
ODD = list('01234567')

@contract('C04', 'encoding', samples=60, parts=ODD, models=VARUINT)
def encoding(c):
    S = c.mod(BITS).BitsSerializer
    buf, n, t, a, r, e = some_array(c); keep = c.snapshot(a)
    c.check('instance accepted', c.returns('check_instance', S.check_instance, a) is None)
    c.eq('encoding', c.returns('serialize', S.serialize, a), c.leb128(n) + e)
    ctx = c.mod('proofmarshal.serialize').BytesSerializationContext(); pre = c.bytes('pre'); ctx.write_bytes(pre)
    c.returns('ctx_serialize', S.ctx_serialize, a, ctx)
    c.eq('in a context', ctx.getbytes(), pre + c.leb128(n) + e)
    c.check('unchanged', c.unchanged(keep))

@contract('C04', 'decoding', samples=60, parts=ODD, models=VARUINT)
def decoding(c):
    S = c.mod(BITS).BitsSerializer; s = c.mod('proofmarshal.serialize')
    buf, n, t, a, r, e = some_array(c); tail = c.bytes('tail')
    ctx = s.BytesDeserializationContext(c.leb128(n) + e + tail)
    x = c.returns('deserialize', S.ctx_deserialize, ctx)
    c.eq('consumes the encoding only', c.remaining(ctx.fd), tail)
    c.check('equal array', c.returns('equal', lambda: x == a))
    same_bits(c, 'decoded', x, t)

@contract('C04', 'truncated', samples=60, parts=ODD, models=VARUINT)
def truncated(c):
    S = c.mod(BITS).BitsSerializer; s = c.mod('proofmarshal.serialize')
    buf, n, t, a, r, e = some_array(c)
    k = c.int('cut', 0, len(e) - 1)
    c.assume(k < len(e))
    c.raises('truncated', s.DeserializationError, S.deserialize, c.leb128(n) + e[:k])

@contract('C04', 'longer than any buffer', samples=200, models=VARUINT)
def huge(c):
    S = c.mod(BITS).BitsSerializer; s = c.mod('proofmarshal.serialize')
    n = c.int('n', 0) if c.symbolic else 2 ** c.int('exponent', 3, 90) + c.int('more', 0, 9)
    d = c.bytes('d', 0, None if c.symbolic else 40); c.assume(len(d) * 8 < n)
    c.raises('truncated', s.DeserializationError, S.deserialize, c.leb128(n) + d)

@contract('C04', 'truncated length', cuts=['StreamDeserializationContext.read_varuint#0:truncated'])
def truncated_length(c):
    # every proper prefix of the encoding of a length is such a byte string (C01 'varuint prefix lemma')
    S = c.mod(BITS).BitsSerializer; s = c.mod('proofmarshal.serialize')
    d = c.bytes_in('d', 128, 255); c.ghost(data=d)
    c.raises('truncated', s.DeserializationError, S.deserialize, d)

@contract('C04', 'padding', samples=60, parts=ODD[1:], models=VARUINT)
def padding(c):
    S = c.mod(BITS).BitsSerializer; s = c.mod('proofmarshal.serialize')
    r = int(c.part) if c.part else c.choice('odd bits', range(1, 8))
    P = c.bytes('whole bytes'); n = 8 * len(P) + r
    last = c.int('bits', 0, 2 ** r - 1) * 2 ** (8 - r) + c.int('padding', 1, 2 ** (8 - r) - 1)
    c.raises('non-zero padding', s.DeserializationError, S.deserialize, c.leb128(n) + P + c.le(last, 1) + c.bytes('tail'))

@contract('C04', 'other values', samples=100)
def other_values(c):
    m = c.mod(BITS); s = c.mod('proofmarshal.serialize')
    bad = c.choice('value', (None, b'', b'ab', (1, 0), [1], '101', 5, True, m.Bits, object()))
    c.raises('check_instance', s.SerializerTypeError, m.BitsSerializer.check_instance, bad)
