"""C03: bit arrays as sequences of bits"""
from engine.api import *
from contracts.bitsgen import *
import operator

def state(*bs): return [(b._Bits__length, b._Bits__buf, tuple(b)) for b in bs]

@contract('C03', 'sequence', samples=4000, sym=False, bounded='sampled bit arrays of up to 90 bits')
def sequence(c):
    B = c.mod(BITS).Bits
    t = some_bits(c, 'a'); a = make(c, 'a', t); before = state(a)
    c.check('length', len(a) == len(t))
    c.eq('bits', tuple(a), t)
    c.check('type of bits', all(type(x) is int for x in a))
    for i in range(-len(t), len(t)): c.check('index', a[i] == t[i])
    for i in (len(t), -len(t) - 1, len(t) + 1, len(t) + 8, -len(t) - 9, 2**70, -2**70): c.raises('index out of range', IndexError, operator.getitem, a, i)
    k = c.choice('how', ('prefix', 'any', 'any'))
    n = len(t)
    pick = lambda nm: c.choice(nm + '?', (True, True, False)) and c.int(nm, -n - 3, n + 3) or None
    s = slice(None, pick('stop')) if k == 'prefix' else slice(pick('start'), pick('stop'), c.choice('step', (None, None, 1, 2, 3, -1, -2, 8)))
    c.eq('slice', tuple(c.returns('slice', operator.getitem, a, s)), t[s])
    c.check('slice length', len(a[s]) == len(t[s]) and type(a[s]) is B)
    i = c.returns('inverse', operator.invert, a)
    c.eq('inverse', tuple(i), tuple(1 - x for x in t))
    c.check('inverse length', len(i) == len(t) and type(i) is B)
    c.check('repr', repr(a) == 'Bits([%s])' % ','.join(map(str, t)))
    c.check('unchanged', state(a) == before)
    c.check('from itself', B(a) == a and tuple(B(a)) == t)
    c.eq('from its bits', B(t), a)
    c.check('empty', tuple(B()) == () and len(B()) == 0)

@contract('C03', 'two arrays', samples=8000, sym=False, bounded='sampled bit arrays of up to 90 bits')
def pairs(c):
    B = c.mod(BITS).Bits
    s = some_bits(c, 'a'); t = related(c, 'b', s)
    a = make(c, 'a', s); b = make(c, 'b', t); before = state(a, b)
    c.check('equality', (a == b) is (s == t)); c.check('inequality', (a != b) is (s != t))
    c.check('less', (a < b) is (s < t)); c.check('greater', (a > b) is (s > t))
    c.check('at most', (a <= b) is (s <= t)); c.check('at least', (a >= b) is (s >= t))
    r = c.returns('sum', operator.add, a, b)
    c.check('sum', tuple(r) == s + t and len(r) == len(s) + len(t) and type(r) is B)
    c.check('starts with', a.startswith(b) is (s[:len(t)] == t))
    n = 0
    while n < len(s) and n < len(t) and s[n] == t[n]: n += 1
    for x, y in ((a, b), (b, a)):
        p = c.returns('common prefix', x.common_prefix, y)
        c.check('common prefix', tuple(p) == s[:n] and len(p) == n and type(p) is B)
    c.check('unchanged', state(a, b) == before)

@contract('C03', 'other types', samples=300)
def others(c):
    buf, n, t, a = any_bits(c, 'a')
    o = c.choice('other', (None, 0, 1, (), [], b'', b'\0', '', object()))
    c.check('never equal', (a == o) is False and (a != o) is True)
    c.raises('order', TypeError, c.choice('op', (operator.lt, operator.le, operator.gt, operator.ge)), a, o)
    c.raises('sum', TypeError, operator.add, a, o)
    c.raises('starts with', TypeError, a.startswith, o); c.raises('common prefix', TypeError, a.common_prefix, o)
    c.raises('index', TypeError, operator.getitem, a, c.choice('index', (None, 'x', 1.0, (0,), b'')))

@contract('C03', 'buffers', samples=600, sym=False, bounded='sampled')
def buffers(c):
    B = c.mod(BITS).Bits
    b = c.bytes('buf', 0, 12); n = c.int('n', -3, 8 * len(b) + 9)
    full = tuple(x >> k & 1 for x in b for k in range(7, -1, -1))
    c.check('whole buffer', tuple(B.from_bytes(b)) == full)
    if n < 0 or n > len(full): c.raises('length', ValueError, B.from_bytes, b, n)
    else: c.check('bits', tuple(c.returns('from_bytes', B.from_bytes, b, n)) == full[:n])
    c.raises('buffer type', TypeError, B.from_bytes, c.choice('bad', (bytearray(b), None, 'ab', list(b), 3)))
    c.raises('length type', TypeError, B.from_bytes, b, c.choice('badn', ('1', 1.0, True, b'')))

# ------------------------------------------------------------ every bit array of every size
def any_pair(c):
    """two bit arrays, each as from any_bits, and where they first differ (or one of them ends)"""
    shape, r = (c.part or '').split() if c.part else (c.choice('shape', SHAPES), c.choice('bit', range(8)))
    r = int(r); B = c.mod(BITS).Bits
    def arr(buf, n): return buf, n, bits_of(c, buf, n), B.from_bytes(buf, n)
    if shape == 'shared':
        x = c.bytes('x'); n = c.int('n', 0, 8 * len(x)); m = c.int('m', 0, 8 * len(x))
        X = arr(x, n); Y = X if c.bool('itself') else arr(x, m)
        return X, Y, n if Y is X or c.lt(n, m) else m
    P = c.bytes('common'); RX = c.bytes('x.rest'); RY = c.bytes('y.rest'); d = 8 * len(P) + r
    if shape == 'differ':
        v = c.choice('value', (0, 1)); h = c.int('high', 0, 2 ** r - 1)
        bx = (h * 2 + v) * 2 ** (7 - r) + c.int('x.low', 0, 2 ** (7 - r) - 1); by = (h * 2 + 1 - v) * 2 ** (7 - r) + c.int('y.low', 0, 2 ** (7 - r) - 1)
        n = d + 1 + c.int('x.more', 0, 7 - r + 8 * len(RX)); m = d + 1 + c.int('y.more', 0, 7 - r + 8 * len(RY))
        return arr(P + c.le(bx, 1) + RX, n), arr(P + c.le(by, 1) + RY, m), d
    if r:
        h = c.int('high', 0, 2 ** r - 1)
        x, y = [c.le(h * 2 ** (8 - r) + c.int(k + '.low', 0, 2 ** (8 - r) - 1), 1) for k in ('x', 'y')]
    else: x = y = c.native(b'')
    X = arr(P + x + RX, d); Y = arr(P + y + RY, d + c.int('y.more', 0, (8 - r) % 8 + 8 * len(RY)))
    return (X, Y, d) if shape == 'ends' else (Y, X, d)
SHAPES = ('differ', 'ends', 'longer', 'shared')
PARTS = ['%s %d' % (s, r) for s in SHAPES[:3] for r in range(8)] + ['shared 0']

@contract('C03', 'index', samples=300)
def index(c):
    buf, n, t, a = any_bits(c, 'a'); i = c.int('i')
    c.check('length', len(a) == n)
    if c.lt(i, n) and c.lt(-n - 1, i):
        r = c.returns('index', operator.getitem, a, i)
        c.check('bit', r == t[i if c.lt(-1, i) else i + n]); c.check('type of bit', type(r) is int)
    else: c.raises('index out of range', IndexError, operator.getitem, a, i)

@loop('Bits.__iter__#0')
class _(LoopSpec):
    def havoc(self, L): return {}

@contract('C03', 'iteration', samples=200, cuts=['Bits.__iter__#0'])
def iteration(c):
    buf, n, t, a = any_bits(c, 'a')
    c.steps('Bits.__iter__#0')
    if not c.symbolic: c.check('bits', tuple(a) == t); return
    it = iter(a)
    try: v = next(it)
    except StopIteration:
        c.check('stops at the end', c.loop('Bits.__iter__#0').k == n); return
    k = c.witness('Bits.__iter__#0')
    c.check('position', k < n); c.check('bit', v == t[k])
    next(it)

def iter_model(w, orig):
    from engine.sym import SIter
    def __iter__(self):
        n = self._Bits__length; buf = self._Bits__buf
        return SIter(n, lambda i: (buf[i // 8] >> (7 - i % 8)) & 1)
    return __iter__
ITER = [('proofmarshal.bits:Bits.__iter__', iter_model)]

def pack(c, bits, j, m=8):
    """byte j of an array of bits, of which it has m"""
    r = 0
    for k in range(m): r = r + (1 if bits[8 * j + k] else 0) * (128 >> k)
    return r

@loop('Bits.__new__#0')
class _(LoopSpec):
    def full(self, L):
        bits = L.env('bits')
        def byte(j):
            v = L.total([(L.one(bits[j * 8 + r]), 128 >> r) for r in range(8)])
            v.lo, v.hi = 0, 255
            return v
        return byte
    def havoc(self, L):
        k = L.k; bits = L.env('bits')
        m = L.mod8(k)
        byte = L.total([(L.one(bits[k - m + r]), 128 >> r) for r in range(m)], mul=8 - m, hi=256 - (1 << (8 - m))) if m else 0
        L.havocs(L['buf'])
        buf = L['buf']; buf.segs = L.gen_list(k // 8, self.full(L)).segs
        return {'length': k, 'byte': byte}
    def inv(self, L):
        k = L.k; bits = L.env('bits'); m = L.mod8(k)
        yield 'length', L['length'] == k
        yield 'bits of the last byte', L['byte'] == (L.total([(L.one(bits[k - m + r]), 128 >> r) for r in range(m)]) if m else 0)
        yield 'bytes', L.same_list('bytes', L['buf'], L.gen_list(k // 8, self.full(L)))

@contract('C03', 'construction', samples=300, cuts=['Bits.__new__#0'])
def construction(c):
    B = c.mod(BITS).Bits
    bits = c.list('bits', lambda s, i: s.int('bit'))
    c.ghost(bits=bits)
    r = c.returns('Bits', B, bits)
    same_bits(c, 'array', r, c.gen_list(len(bits), lambda i: 1 if bits[i] else 0, kind=tuple))

@contract('C03', 'construction of nothing', samples=50)
def construction0(c):
    B = c.mod(BITS).Bits
    c.check('empty', len(B()) == 0); c.check('same', B() == B()); c.check('no bits', len(B([])) == 0)
    buf, n, t, a = any_bits(c, 'a')
    same_bits(c, 'from itself', c.returns('Bits', B, a), t)

@contract('C03', 'buffer', samples=400)
def buffer(c):
    B = c.mod(BITS).Bits
    buf = c.bytes('buf')
    if c.bool('whole'): same_bits(c, 'whole', c.returns('from_bytes', B.from_bytes, buf), bits_of(c, buf, 8 * len(buf))); return
    n = c.int('n')
    if c.lt(-1, n) and c.lt(n, 8 * len(buf) + 1): same_bits(c, 'array', c.returns('from_bytes', B.from_bytes, buf, n), bits_of(c, buf, n))
    else: c.raises('length', ValueError, B.from_bytes, buf, n)

@contract('C03', 'equality', samples=100, parts=PARTS)
def equality(c):
    A, O, d = any_pair(c)
    same = c.both(A[1] == O[1], d == A[1])
    keep = c.snapshot(A[3], O[3])
    r = c.returns('==', operator.eq, A[3], O[3])
    c.check('equal', c.both(c.implies(r, same), c.implies(same, r)))
    c.check('different', c.returns('!=', operator.ne, A[3], O[3]) == c.neg(r))
    c.check('operands unchanged', c.unchanged(keep))

@contract('C03', 'order', samples=100, parts=PARTS, models=ITER)
def order(c):
    A, O, d = any_pair(c); c.first_difference(A[2], O[2], d)
    a, n, b, m = A[2], A[1], O[2], O[1]
    if c.lt(d, n) and c.lt(d, m): less, same = c.lt(a[d], b[d]), False
    else: less, same = c.lt(n, m), n == m
    k = c.choice('op', (0, 1, 2, 3))
    keep = c.snapshot(A[3], O[3])
    r = c.returns('order', (operator.lt, operator.le, operator.gt, operator.ge)[k], A[3], O[3])
    e = (less, c.either(less, same), c.neg(c.either(less, same)), c.neg(less))[k]
    c.check('order', c.both(c.implies(r, e), c.implies(e, r)))
    c.check('operands unchanged', c.unchanged(keep))

@contract('C03', 'starts with', samples=100, parts=PARTS)
def starts(c):
    A, P, d = any_pair(c)
    keep = c.snapshot(A[3], P[3])
    r = c.returns('startswith', A[3].startswith, P[3])
    e = c.both(P[1] <= A[1], d == P[1])
    c.check('starts with', c.both(c.implies(r, e), c.implies(e, r)))
    c.check('operands unchanged', c.unchanged(keep))

@loop('Bits.common_prefix#0')
class _(LoopSpec):
    def havoc(self, L): return {'common_prefix_length': L['common_prefix_length']}
    def inv(self, L):
        yield 'no difference so far', L.k * 8 <= L.env('d')
        yield 'prefix', L['common_prefix_length'] == L['lhs']._Bits__length // 8 * 8

@contract('C03', 'common prefix', samples=100, parts=PARTS, cuts=['Bits.common_prefix#0'])
def common(c):
    A, O, d = any_pair(c); c.ghost(d=d)
    keep = c.snapshot(A[3], O[3])
    r = c.returns('common_prefix', A[3].common_prefix, O[3])
    same_bits(c, 'prefix', r, A[2][:d])
    c.check('operands unchanged', c.unchanged(keep))

@loop('Bits.__add__#0')
class _(LoopSpec):
    def parts(self, L):
        n = L['self']._Bits__length; o = L['rhs_offset']; a = L['self']._Bits__buf; b = L['rhs']._Bits__buf
        m = L.fork(o, 1, 7)
        def tail(j):
            if L.is_zero(j): t = (a[n // 8] >> (8 - m)) << (8 - m)
            else: t = (b[j - 1] % (1 << m)) << (8 - m)
            return L.ranged(t, 0, 255, 8 - m)
        return tail, lambda j: L.ranged(tail(j) + (b[j] >> m), 0, 255)
    def havoc(self, L):
        tail, byte = self.parts(L)
        L.havocs(L['rhs_buf']); L['rhs_buf'].segs = L.gen_list(L.k, byte).segs
        return {'tail_bits': tail(L.k)}
    def inv(self, L):
        tail, byte = self.parts(L)
        yield 'bits carried', L['tail_bits'] == tail(L.k)
        yield 'bytes', L.same_list('bytes', L['rhs_buf'], L.gen_list(L.k, byte))

@contract('C03', 'sum', samples=600, parts=list('01234567'), cuts=lambda part: [] if part == '0' else ['Bits.__add__#0'])
def plus(c):
    A = any_bits(c, 'a'); O = any_bits(c, 'b'); n = A[1]
    c.assume(n % 8 == int(c.part)) if c.part else None
    keep = c.snapshot(A[3], O[3])
    r = c.returns('sum', operator.add, A[3], O[3])
    same_bits(c, 'sum', r, A[2] + O[2])
    c.check('operands unchanged', c.unchanged(keep))

@contract('C03', 'inverse', samples=300)
def inverse(c):
    buf, n, t, a = any_bits(c, 'a')
    keep = c.snapshot(a)
    same_bits(c, 'inverse', c.returns('inverse', operator.invert, a), c.gen_list(n, lambda i: 1 - t[i], kind=tuple))
    c.check('operands unchanged', c.unchanged(keep))

def new_model(w, orig):
    """the constructor by its contract ('construction')"""
    import z3
    from engine.sym import SIter, SList, VBytes, Sub, GenBase, SInt, as_slist, is_sym, ite, mkbool, zt, zb, cur, truth
    f = orig.__func__ if isinstance(orig, staticmethod) else orig
    def __new__(cls, iterable=None):
        if not isinstance(iterable, (SIter, SList)): return f(cls, iterable)
        bits = as_slist(iterable); n = bits.length()
        if not is_sym(n) or not mkbool(zt(n) > 0): return f(cls, iterable)
        self = object.__new__(cls)
        p = cur(); packed = z3.Function(p.fresh('packed'), z3.IntSort(), z3.IntSort())
        def digit(i):
            if not truth(i < n): return 0
            return ite(mkbool(zb(bits[i] != 0)), 1, 0)
        def byte(j):
            # the digits are what is known of it
            t = packed(zt(j)); p.add(z3.And(t >= 0, t <= 255))
            v = SInt(t, 0, 255); v.bits = tuple((lambda i: lambda: digit(i))(8 * j + 7 - k) for k in range(8))
            return v
        self._Bits__length = n; self._Bits__buf = VBytes._mk((Sub(GenBase(byte), 0, (n + 7) // 8),))
        return self
    return staticmethod(__new__)

STEPS = ['%s %s' % (s, w) for s in ('plain', 'up', 'down') for w in ('-', 'a', 'o', 'ao')]
@contract('C03', 'slices', samples=100, parts=STEPS, models=ITER + [('proofmarshal.bits:Bits.__new__', new_model)])
def slices(c):
    buf, n, t, a = any_bits(c, 'a')
    by, where = (c.part or c.choice('step', STEPS)).split()
    by = None if by == 'plain' else c.int('by', 1) if by.startswith('up') else c.int('by', None, -1)
    s = slice(c.int('start') if 'a' in where else None, c.int('stop') if 'o' in where else None, by)
    want = t[s]
    keep = c.snapshot(a)
    same_bits(c, 'slice', c.returns('slice', operator.getitem, a, s), want)
    c.check('operands unchanged', c.unchanged(keep))
