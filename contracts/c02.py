"""C02: typed serializers"""
from engine.api import *

M = 'proofmarshal.serialize'

def other_values(c, name, *classes):
    """a value of another type than any of classes"""
    vals = [v for v in (None, True, False, 0, 5, -1, 'text', b'bytes', b'', 1.5, (), bytearray(b'x'), object())
            if not any(v.__class__ is k for k in classes)]
    return c.choice(name, vals)

def roundtrip(c, m, ser, v, enc, tail):
    """encoding is enc, decoding it (followed by tail) gives v back and consumes exactly enc"""
    c.eq('encoding', c.returns('serialize', ser.serialize, v), enc)
    ctx = m.BytesDeserializationContext(enc + tail)
    r = c.returns('deserialize', ser.ctx_deserialize, ctx)
    c.check('decoded type', r.__class__ is v.__class__)
    c.eq('decoded value', r, v)
    c.eq('consumed', c.remaining(ctx.fd), tail)
    c.eq('deserialize()', c.returns('deserialize()', ser.deserialize, enc), v)

@contract('C02', 'SerBool')
def serbool(c):
    m = c.mod(M)
    v = c.bool('v'); tail = c.bytes('tail')
    c.check('accepted', c.returns('check_instance', m.SerBool.check_instance, v) is None)
    roundtrip(c, m, m.SerBool, v, b'\xff' if v else b'\x00', tail)

@contract('C02', 'SerBool refuses other types')
def serbool_bad(c):
    m = c.mod(M)
    c.raises('not a bool', m.SerializerTypeError, m.SerBool.check_instance, other_values(c, 'v', bool))

UINTS = ['UInt8', 'UInt16', 'UInt32', 'UInt64']
BITS = {'UInt8': 8, 'UInt16': 16, 'UInt32': 32, 'UInt64': 64}

@contract('C02', 'UInt', parts=UINTS, models=VARUINT)
def uint(c):
    m = c.mod(M); ser = getattr(m, c.part); top = 2 ** BITS[c.part]
    v = c.int('v'); tail = c.bytes('tail')
    if c.both(v >= 0, v < top):
        c.check('accepted', c.returns('check_instance', ser.check_instance, v) is None)
        roundtrip(c, m, ser, v, c.leb128(v), tail)
    else:
        c.raises('out of range', m.SerializerValueError, ser.check_instance, v)
        if v >= 0:
            c.raises('decoding out of range', m.DeserializationError, ser.ctx_deserialize,
                     m.BytesDeserializationContext(c.leb128(v) + tail))
            c.raises('decoding out of range', m.DeserializationError, ser.deserialize, c.leb128(v))

@contract('C02', 'UInt refuses other types', parts=UINTS)
def uint_type(c):
    m = c.mod(M); ser = getattr(m, c.part)
    c.raises('not an int', m.SerializerTypeError, ser.check_instance, other_values(c, 'v', int))

@contract('C02', 'UInt truncated', parts=UINTS, cuts=['StreamDeserializationContext.read_varuint#0:truncated'])
def uint_trunc(c):
    m = c.mod(M); ser = getattr(m, c.part)
    d = c.bytes_in('d', 128, 255)
    c.ghost(data=d)
    c.raises('truncated', m.TruncationError, ser.deserialize, d)

def fixed_class(c, m):
    """Digest, or FixedBytes of any length"""
    if c.choice('kind', ('fixed', 'digest')) == 'digest': return m.Digest, 32
    n = c.int('n', 0, None if c.symbolic else 600)
    f = c.returns('FixedBytes', m.FixedBytes, n)
    c.check('a serializer', issubclass(f, m.FixedBytes))
    return f, n

@contract('C02', 'FixedBytes and Digest')
def fixed(c):
    m = c.mod(M)
    ser, n = fixed_class(c, m)
    v = c.bytes('v', n=n) if not c.bool('other length') else c.bytes('w')
    tail = c.bytes('tail')
    if len(v) == n:
        c.check('accepted', c.returns('check_instance', ser.check_instance, v) is None)
        roundtrip(c, m, ser, v, v, tail)
    else:
        c.raises('wrong length', m.SerializerValueError, ser.check_instance, v)
        if len(v) < n: c.raises('truncated', m.TruncationError, ser.deserialize, v)

@contract('C02', 'FixedBytes refuses other types')
def fixed_type(c):
    m = c.mod(M)
    ser, n = fixed_class(c, m)
    c.raises('not bytes', m.SerializerTypeError, ser.check_instance, other_values(c, 'v', bytes))
    c.raises('negative length', ValueError, m.FixedBytes, c.int('neg', None, -1))
    c.raises('length not an int', TypeError, m.FixedBytes, c.choice('bad', (None, 'x', b'y', True, 1.0)))

def var_class(c, m):
    lo = c.int('lo', 0, None if c.symbolic else 600)
    hi = c.int('hi', 1, None if c.symbolic else 700)
    c.assume(lo < hi)
    if c.both(lo == 0, c.bool('one argument')): f = c.returns('VarBytes', m.VarBytes, hi)
    else: f = c.returns('VarBytes', m.VarBytes, lo, hi)
    c.check('a serializer', issubclass(f, m.VarBytes))
    return f, lo, hi

@contract('C02', 'VarBytes', models=VARUINT)
def var(c):
    m = c.mod(M)
    ser, lo, hi = var_class(c, m)
    if not c.symbolic and c.bool('inside'): v = c.bytes('v', lo, hi)
    else: v = c.bytes('v')
    tail = c.bytes('tail')
    enc = c.leb128(len(v)) + v
    if c.both(lo <= len(v), len(v) <= hi):
        c.check('accepted', c.returns('check_instance', ser.check_instance, v) is None)
        roundtrip(c, m, ser, v, enc, tail)
    else:
        c.raises('bad length', m.SerializerValueError, ser.check_instance, v)
        c.raises('decoding a bad length', m.DeserializationError, ser.deserialize, enc + tail)

@contract('C02', 'VarBytes truncated', models=VARUINT)
def var_trunc(c):
    m = c.mod(M)
    ser, lo, hi = var_class(c, m)
    n = c.int('len', 0, None if c.symbolic else 700)
    if not c.symbolic and c.bool('huge'):
        # longer than any buffer
        hi = 2 ** c.int('exponent', 60, 90); n = hi - c.int('less', 0, 2); ser = m.VarBytes(hi)
    v = c.bytes('v', 0, None)
    c.assume(len(v) < n)
    c.raises('truncated', m.DeserializationError, ser.deserialize, c.leb128(n) + v)

@contract('C02', 'VarBytes refuses other types')
def var_type(c):
    m = c.mod(M)
    ser, lo, hi = var_class(c, m)
    c.raises('not bytes', m.SerializerTypeError, ser.check_instance, other_values(c, 'v', bytes))
    a = c.int('a'); b = c.int('b')
    c.assume(c.neg(c.both(0 <= a, a < b)))
    c.raises('bad bounds', ValueError, m.VarBytes, a, b)
    c.raises('bounds not ints', TypeError, m.VarBytes, c.choice('bad', (None, 'x', b'y', 1.0)), 5)
