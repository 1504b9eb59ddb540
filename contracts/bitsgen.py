"""Arbitrary bit arrays"""
from engine.api import *
import operator
BITS = 'proofmarshal.bits'

def junk(c, name, bits):
    """a buffer holding the bits, whatever follows them"""
    n = len(bits)
    out = bytearray(c.bytes(name + '.buf', n=(n + 7) // 8 + c.choice(name + '.extra', (0, 0, 0, 0, 1, 2, 9))))
    for i, b in enumerate(bits):
        m = 0x80 >> i % 8
        out[i // 8] = out[i // 8] | m if b else out[i // 8] & ~m
    return bytes(out)
def some_bits(c, name, hi=70):
    n = c.choice(name + '.short', range(0, 20)) if c.choice(name + '.size', (0, 0, 1)) == 0 else c.int(name + '.n', 0, hi)
    b = c.bytes(name + '.bits', n=(n + 7) // 8)
    return tuple(b[i // 8] >> (7 - i % 8) & 1 for i in range(n))
def make(c, name, bits):
    """a bit array with these bits, made in any way"""
    B = c.mod(BITS).Bits
    how = c.choice(name + '.made', ('buffer', 'buffer', 'buffer', 'items', 'slice', 'truth', 'sum', 'inverse'))
    if how == 'items': return B(bits)
    if how == 'truth': return B(iter([('', 'x')[b] for b in bits]))
    if how == 'slice':
        more = some_bits(c, name + '.more', 20)
        return B.from_bytes(junk(c, name, bits + more), len(bits) + len(more))[:len(bits)]
    if how == 'sum':
        k = c.int(name + '.at', 0, len(bits))
        return B.from_bytes(junk(c, name, bits[:k]), k) + B.from_bytes(junk(c, name + '2', bits[k:]), len(bits) - k)
    if how == 'inverse': return ~B.from_bytes(junk(c, name, tuple(1 - b for b in bits)), len(bits))
    return B.from_bytes(junk(c, name, bits), len(bits))
def related(c, name, bits, hi=70):
    """bits often sharing a long prefix with the given ones"""
    how = c.choice(name + '.rel', ('any', 'same', 'prefix', 'longer', 'flip', 'flip', 'fork'))
    if how == 'any': return some_bits(c, name, hi)
    if how == 'same': return bits
    k = c.int(name + '.cut', 0, len(bits))
    if how == 'prefix': return bits[:k]
    if how == 'longer': return bits + some_bits(c, name, 20)
    if k == len(bits): return bits + (1,)
    if how == 'flip': return bits[:k] + (1 - bits[k],) + bits[k + 1:]
    return bits[:k] + (1 - bits[k],) + some_bits(c, name, 20)

# ------------------------------------------------------------ every bit array of every size
def bits_of(c, buf, n): return c.gen_list(n, lambda i: (buf[i // 8] >> (7 - i % 8)) & 1, kind=tuple)
def any_bits(c, name, odd=None):
    """any bit array (every one is made of a buffer and a length): buffer, length, bits, array"""
    buf = c.bytes(name + '.buf', 0 if not odd else 1)
    n = c.int(name + '.n', 0, 8 * len(buf)) if odd is None else 8 * c.int(name + '.bytes', 0, len(buf) - (1 if odd else 0)) + odd
    return buf, n, bits_of(c, buf, n), c.mod(BITS).Bits.from_bytes(buf, n)

def same_bits(c, label, r, t):
    """array r is of type Bits and has the bits t"""
    c.check(label + ' type', type(r) is c.mod(BITS).Bits)
    n = len(t)
    c.check(label + ' length', len(r) == n)
    i = c.int(label + '.byte', 0) * 8 + c.choice(label + '.bit', range(8)) if c.symbolic else c.int(label + '.at', 0, n - 1)
    c.assume(i < n)
    c.check(label + ' bits', c.returns(label + ' read', operator.getitem, r, i) == t[i])
