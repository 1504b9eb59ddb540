"""Scripts described by their operations"""
from engine.api import *
from engine.symtools import RAWITER
from contracts.scriptspec import parse, sigops, push

SC = 'bitcoin.core.script'
WIDTH = {76: 1, 77: 2, 78: 4}

def enc_op(c, o):
    """an operation as bytes, its length prefix as the opcode prescribes"""
    op, d = o
    if d is None or op < 76: return c.le(op, 1) + (d if d is not None else c.native(b''))
    return c.le(op, 1) + c.le(len(d), WIDTH[op]) + d

COMMON = (0xac, 0xad, 0xae, 0xaf, 0x51, 0x52, 0x60, 0x61, 0x50, 0x4f, 0x6a, 0x87, 0xa9, 0xab, 0xff, 0x63, 0x68, 79, 80)
PUSHES = (0, 1, 2, 20, 33, 65, 75, 76, 77, 78)
def arb_op(s, i=None):
    """any operation: (opcode, data or None)"""
    if s.symbolic:
        op = s.int('op', 0, 255)
        if op > 78: return (op, None)
        if op < 76: n = op
        elif op == 76: op = 76; n = s.int('n', 0, 255)
        elif op == 77: op = 77; n = s.int('n', 0, 65535)
        else: op = 78; n = s.int('n', 0, 2**32 - 1)
        return (op, s.bytes('data', n=n))
    how = s.choice('class', ('any', 'any', 'common', 'common', 'push'))
    op = s.int('op', 0, 255) if how == 'any' else s.choice('common', COMMON) if how == 'common' else s.choice('push', PUSHES)
    if op > 78: return (op, None)
    if op < 76: n = op
    else:
        n = s.int('n', 0, 256 ** WIDTH[op] - 1)
        if n > 70000: n = (0, 1, 75, 76, 255, 256, 65535, 65536)[n % 8]
        if n > 600 and s.int('big', 0, 9) > 0: n %= 300
    return (op, s.bytes('data', n=n))
def cut_tail(s):
    """a push that ends too early"""
    if s.symbolic: return s.bytes('tail', 1)
    op = s.choice('tailop', tuple(range(1, 79)) + (76, 77, 78) * 20)
    if op < 76: return bytes([op]) + s.bytes('taildata', n=s.int('have', 0, op - 1))
    w = WIDTH[op]
    if s.bool('short length'): return bytes([op]) + s.bytes('taildata', n=s.int('have', 0, w - 1))
    n = s.int('tailn', 1, min(256 ** w - 1, 2**32 - 1))
    return bytes([op]) + n.to_bytes(w, 'little') + s.bytes('taildata', n=min(n - 1, s.int('have', 0, 80)))

class Parsed:
    pass
def arb_ops(c, name='script', hi=None, tails=('whole', 'cut short'), op=arb_op):
    """an arbitrary script, with its operations"""
    s = c.sub(name)
    p = Parsed()
    p.ops = s.list('ops', op, 0, hi)
    p.tail = cut_tail(s) if s.choice('tail', tails) == 'cut short' else None
    b = s.vec('ops', p.ops, lambda o: enc_op(c, o)).whole()
    p.script = c.mod(SC).CScript(b if p.tail is None else b + p.tail)
    p.n = len(p.ops)
    if c.symbolic: p.ops = c.script_ops(p.script, p.ops, p.tail, lambda o: enc_op(c, o))
    return p

def operation_at(c, b, pos):
    """what the script encoding says about position pos < len(b): ('op', opcode, data, end) or ('cut', data or None)"""
    n = len(b) - pos - 1
    op = b[pos]
    if op > 78: return ('op', op, None, pos + 1)
    if op < 76: w = 0; size = op
    else:
        w = 1 if op == 76 else 2 if op == 77 else 4
        if c.lt(n, w): return ('cut', None)
        size = c.from_le(b[pos + 1:pos + 1 + w])
    start = pos + 1 + w
    if c.lt(n - w, size): return ('cut', b[start:])
    return ('op', op, b[start:start + size], start + size)

