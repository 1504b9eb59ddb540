"""Symbolic values: mathematical integers, booleans, byte strings (ropes), lists.

Values answer to the real Python types (`__class__`), so the code under
verification cannot tell them from concrete ones; anything outside the subset
raises Unsupported (which the code under verification cannot catch).
"""
import z3, builtins
from . import core
from .core import Unsupported, Infeasible, PathStop

_isint = lambda x: type(x) is not SInt and type(x) is not SBool and isinstance(x, builtins.int)

def cur(): return core.cur()

# ---------------------------------------------------------------- integers
def term(x):
    """python int or z3 Int term"""
    tx = type(x)
    if tx is SInt: return x.t
    if tx is SBool: return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if tx is bool: return int(x)
    if isinstance(x, int) : return int.__int__(x)
    raise Unsupported('not an integer: %s' % type(x).__name__)

def zt(x):
    t = term(x)
    return z3.IntVal(t) if type(t) is int else t

def is_intlike(x):
    return type(x) in (SInt, SBool) or isinstance(x, int)

def lo_hi(x):
    tx = type(x)
    if tx is SInt: return x.lo, x.hi
    if tx is SBool: return 0, 1
    v = int(x); return v, v

def mk(t, lo=None, hi=None, mul=None):
    if type(t) is int: return t
    if z3.is_int_value(t): return t.as_long()
    if lo is not None and lo == hi: return lo
    return SInt(t, lo, hi, mul)

def is_sym(x): return type(x) in (SInt, SBool)

def mkbool(e):
    if e is True or e is False: return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)

def zb(x):
    """z3 Bool or python bool of a bool-like"""
    if type(x) is SBool: return x.e
    if type(x) is SInt: return x.t != 0
    if isinstance(x, (bool, int)): return bool(x)
    return x

def zand(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def zor(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def znot(x):
    x = zb(x)
    return (not x) if isinstance(x, bool) else z3.Not(x)

def zimplies(a, b): return zor(znot(a), b)

def truth(x):
    """python bool, forking when symbolic"""
    if x is True or x is False: return x
    tx = type(x)
    if tx is SBool: return cur().branch(x.e)
    if tx is SInt: return cur().branch(x.t != 0)
    if tx is VBytes: return truth(x.length() != 0)
    if z3.is_bool(x): return cur().branch(x)
    return bool(x)

def known(x):
    """True if x is certainly true on this path (no fork)"""
    if x is True or x is False: return x
    return cur().entails(zb(x))

POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())

def pow2(s):
    """2**s for a non-negative integer s"""
    if _isint(s): return 1 << int(s)
    t = z3.simplify(s.t)
    c = 0
    if z3.is_int_value(t): return 1 << t.as_long()
    if z3.is_add(t):
        rest = []
        for a in t.children():
            if z3.is_int_value(a): c += a.as_long()
            else: rest.append(a)
        t = rest[0] if len(rest) == 1 else z3.Sum(*rest)
    if c < 0:
        t = z3.simplify(s.t); c = 0
    p = POW2(t)
    cur().add(p >= 1)
    cur().add(z3.Implies(t >= 0, p >= t + 1))
    r = p * (1 << c) if c else p
    return SInt(r, 1, None)

def concretize(x, limit=520, what='integer'):
    """fork over all feasible values of x"""
    if type(x) is SBool: return int(truth(x))
    if type(x) is not SInt: return int(x)
    p = cur()
    for _ in range(limit):
        if x.lo is not None and x.lo == x.hi: return x.lo
        key = ('conc', x.t.get_id(), len(p.facts))
        # pick a deterministic candidate: interval scan when small, else a model
        if x.lo is not None and x.hi is not None and x.hi - x.lo < limit:
            for v in range(x.lo, x.hi + 1):
                if v == x.hi and False: return v
                if p.branch(x.t == v): return v
            raise Infeasible()
        if p.pos < len(p.decisions):
            # replay: candidate values are stored with the decisions
            v = p.ex.cand.get(tuple(map(str, p.decisions[:p.pos])))
        else: v = None
        if v is None:
            if p._check() != z3.sat: raise Unsupported('cannot enumerate ' + what)
            v = p.solver.model().eval(x.t, model_completion=True).as_long()
            p.ex.cand[tuple(map(str, p.decisions[:p.pos]))] = v
        if p.branch(x.t == v): return v
    raise Unsupported('too many values to enumerate (%s)' % what)

def _mask_and(t, m):
    """t & m for a non-negative constant m, all integers t (floor div/mod)"""
    out = None; k = 0
    while m:
        while not m & 1: m >>= 1; k += 1
        w = 0
        while m & 1: m >>= 1; w += 1
        a = t if k == 0 else t / (1 << k)
        a = a % (1 << w)
        if k: a = a * (1 << k)
        out = a if out is None else out + a
        k += w
    return out

BAND = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
BXOR = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())

def _width(x):
    lo, hi = lo_hi(x)
    if lo is None or hi is None or lo < 0: return None
    return max(hi.bit_length(), 1)

def _bits(x, w):
    """the w binary digits of 0 <= x < 2**w, lowest first, as terms"""
    if not is_sym(x): return [z3.IntVal(int(x) >> k & 1) for k in range(w)]
    b = getattr(x, 'bits', None)
    if b is not None: return [zt(bit(b, k)) for k in range(w)]
    t = zt(x); p = cur(); key = ('bits', t.get_id())
    if key not in p.aux or len(p.aux[key][1]) < w:
        bs = [p.fresh_int('bit') for _ in range(w)]
        p.add(z3.And(*[z3.And(y >= 0, y <= 1) for y in bs], t == z3.Sum(*[y * (1 << k) for k, y in enumerate(bs)])))
        p.aux[key] = (t, bs)
    bs = p.aux[key][1]
    return bs + [z3.IntVal(0)] * (w - len(bs))
def bit(bits, k):
    """digit k of a list of digits (computed when asked for)"""
    if k >= len(bits): return 0
    b = bits[k]
    return b() if callable(b) else b
def digits(bits):
    """an integer given by its digits"""
    t = z3.IntVal(0) if not bits else z3.Sum(*[zt(bit(bits, k)) * (1 << k) for k in range(len(bits))])
    t = z3.simplify(t)
    r = mk(t, 0, (1 << len(bits)) - 1)
    if type(r) is SInt: r.bits = tuple(bits)
    return r
def _digit(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t, 0, 1)
def multiple(t, y):
    """t as y * q + r with 0 <= r < y, when that can be read off"""
    t = z3.simplify(t); q = []; r = 0
    for e in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(e): r += e.as_long(); continue
        c = e.children() if z3.is_mul(e) else ()
        if c and z3.is_int_value(c[0]) and c[0].as_long() % y == 0:
            m = z3.IntVal(c[0].as_long() // y)
            for x in c[1:]: m = m * x
            q.append(m)
        else: return None
    if not q: return None
    q = q[0] if len(q) == 1 else z3.Sum(*q)
    return z3.simplify(q + r // y), r % y

def i_and(a, b):
    if type(a) is SBool or type(b) is SBool: a, b = mk(term(a), 0, 1), mk(term(b), 0, 1)
    if not is_sym(a) and not is_sym(b): return int(a) & int(b)
    if not is_sym(a): a, b = b, a
    if not is_sym(b):
        m = int(b)
        if m == 0: return 0
        if m < 0:
            if m == -1: return a
            return a - i_and(a, ~m)
        if type(a) is SInt and a.bits is not None: return digits([a.bits[k] if m >> k & 1 else 0 for k in range(min(len(a.bits), m.bit_length()))])
        if a.lo is not None and a.lo >= 0 and a.hi is not None and m + 1 == (1 << m.bit_length()) and a.hi <= m:
            return a
        lo, hi = lo_hi(a)
        return mk(_mask_and(a.t, m), 0, m if not (hi is not None and lo is not None and lo >= 0) else min(m, hi),
                  mul=max((m & -m).bit_length() - 1, a.mul if type(a.mul) is int else 0))
    wa, wb = _width(a), _width(b)
    if wa and wb and min(wa, wb) <= 16:
        w = min(wa, wb)
        return digits([_digit(z3.If(z3.And(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))) for x, y in zip(_bits(a, w), _bits(b, w))])
    # general: uninterpreted, with sound bounds for non-negative operands
    x, y = a.t, b.t
    if str(x) > str(y): x, y = y, x
    r = BAND(x, y)
    cur().add(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= 0, r <= x, r <= y)))
    cur().add(z3.Implies(x == y, r == x))
    cur().add(z3.Implies(z3.Or(x == 0, y == 0), r == 0))
    return SInt(r)

def _disjoint(a, b):
    """a is a multiple of M and 0 <= b < M"""
    m = getattr(a, 'mul', None) if type(a) is SInt else None
    if type(a) is int and a:
        m = (a & -a).bit_length() - 1
    if m is None: return False
    lo, hi = lo_hi(b)
    if type(m) is int:
        M = 1 << m
        if lo is not None and lo >= 0 and hi is not None and hi < M: return True
        return m > 0 and known(zand(b >= 0, b < M))
    return known(zand(b >= 0, b < m))

def i_or(a, b):
    if type(a) is SBool or type(b) is SBool: a, b = mk(term(a), 0, 1), mk(term(b), 0, 1)
    if not is_sym(a) and not is_sym(b): return int(a) | int(b)
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    if _disjoint(a, b) or _disjoint(b, a):
        r = a + b
        if type(r) is SInt:
            r.mul = None
        return r
    return a + b - i_and(a, b)

class _NoBits(Exception): pass
def _support(r):
    """which bits may be set: (lowest, one past the highest)"""
    k = r.size(); lo, hi = 0, k
    if z3.is_bv_value(r):
        n = r.as_long(); return ((n & -n).bit_length() - 1, n.bit_length()) if n else (0, 0)
    if r.decl().kind() == z3.Z3_OP_CONCAT:
        for x in r.children():
            if z3.is_bv_value(x) and x.as_long() == 0: hi -= x.size()
            else: break
        for x in reversed(r.children()):
            if z3.is_bv_value(x) and x.as_long() == 0: lo += x.size()
            else: break
    return lo, hi
def _sum(a, b, k):
    (la, ha), (lb, hb) = _support(a), _support(b)
    if ha > lb and hb > la: return a + b
    if ha > lb: a, b, ha = b, a, hb
    # no common bits
    return b if ha == 0 else a if ha == k else z3.Concat(z3.Extract(k - 1, ha, b), z3.Extract(ha - 1, 0, a))
def low_bits(t, k, leaves, memo):
    """the value of an integer term modulo 2**k, as a bit vector (everything but division by other numbers is compatible with that)"""
    key = (t.get_id(), k)
    if key in memo: return memo[key][1]
    d = t.decl().kind(); ch = t.children(); low = lambda x, n=k: low_bits(x, n, leaves, memo)
    if z3.is_int_value(t): r = z3.BitVecVal(t.as_long() % (1 << k), k)
    elif d == z3.Z3_OP_ADD:
        r = low(ch[0])
        for x in ch[1:]: r = z3.simplify(_sum(r, low(x), k))
    elif d == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0 if z3.is_int_value(ch[0]) else 1]):
        n, x = (ch[0], ch[1]) if z3.is_int_value(ch[0]) else (ch[1], ch[0])
        n = n.as_long(); s = (n & -n).bit_length() - 1 if n > 0 else 0
        if n == 0 or s >= k: r = z3.BitVecVal(0, k)
        else:
            r = low(x, k - s)
            if n >> s != 1: r = r * (n >> s)
            if s: r = z3.Concat(r, z3.BitVecVal(0, s))
    elif d == z3.Z3_OP_MUL:
        r = low(ch[0])
        for x in ch[1:]: r = r * low(x)
    elif d == z3.Z3_OP_SUB:
        r = low(ch[0])
        for x in ch[1:]: r = r - low(x)
    elif d == z3.Z3_OP_UMINUS: r = -low(ch[0])
    elif d in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0 and ch[1].as_long() & (ch[1].as_long() - 1) == 0:
        s = ch[1].as_long().bit_length() - 1
        if d == z3.Z3_OP_MOD:
            if s == 0: r = z3.BitVecVal(0, k)
            elif s >= k: r = low(ch[0])
            else: r = z3.ZeroExt(k - s, low(ch[0], s))
        else: r = z3.Extract(k + s - 1, s, low(ch[0], k + s))
    elif t.decl().eq(BXOR): r = low(ch[0]) ^ low(ch[1])
    elif t.decl().eq(BAND): r = low(ch[0]) & low(ch[1])
    elif d in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_MOD, z3.Z3_OP_IDIV):
        u = z3.simplify(t)
        if u.get_id() not in leaves:
            p = cur(); w = 64
            for x, f, v in list(leaves.values()):
                if x.decl().eq(u.decl()) and p.entails(x == u): leaves[u.get_id()] = (u, f, v); break
            else:
                for n in (1, 8, 32):
                    if p.entails(z3.And(u >= 0, u < (1 << n))): w = n; break
                leaves[u.get_id()] = (u, w < 64, z3.BitVec('leaf%d' % len(leaves), w))
        _, whole, v = leaves[u.get_id()]
        if k <= v.size(): r = z3.Extract(k - 1, 0, v) if k < v.size() else v
        elif whole: r = z3.ZeroExt(k - v.size(), v)
        else: raise _NoBits('%s at %d bits' % (str(u)[:60], k))
    else: raise _NoBits(t.decl().name())
    r = z3.simplify(r); memo[key] = (t, r)
    return r
def same_word(a, b, w=32):
    """equality of two integers below 2**w, decided bit by bit where their terms allow it"""
    if not is_sym(a) and not is_sym(b): return int(a) == int(b)
    e = mkbool(zt(a) == zt(b))
    if e is True or not known(zand(a >= 0, a < (1 << w), b >= 0, b < (1 << w))): return e
    try:
        leaves, memo = {}, {}
        x, y = low_bits(zt(a), w, leaves, memo), low_bits(zt(b), w, leaves, memo)
    except _NoBits: return e
    s = z3.Solver(); s.set('timeout', 20000); s.add(x != y)
    return True if s.check() == z3.unsat else e

def i_xor(a, b):
    if type(a) is SBool or type(b) is SBool: a, b = mk(term(a), 0, 1), mk(term(b), 0, 1)
    if not is_sym(a) and not is_sym(b): return int(a) ^ int(b)
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    if not is_sym(a): a, b = b, a
    if type(b) is int and a.xr is not None and b >= 0:
        x, k = a.xr
        return i_xor(x, k ^ b)
    if type(b) is int and 0 <= b <= 255 and a.src is not None and a.src[0] == 'digest':
        # a byte of a digest and a constant: a bijection
        x, y = zt(a), z3.IntVal(b); r = BXOR(x, y)
        cur().add(z3.And(r >= 0, r <= 255, BXOR(r, y) == x))
        r = SInt(r, 0, 255); r.xr = (a, b)
        return r
    wa, wb = _width(a), _width(b)
    if a.bits is None and getattr(b, 'bits', None) is None and (_disjoint(a, b) or _disjoint(b, a)):
        r = a + b
        if type(r) is SInt: r.mul = None
        return r
    if wa and wb and max(wa, wb) <= 16:
        w = max(wa, wb)
        return digits([_digit(z3.If(x != y, z3.IntVal(1), z3.IntVal(0))) for x, y in zip(_bits(a, w), _bits(b, w))])
    x, y = zt(a), zt(b)
    if str(x) > str(y): x, y = y, x
    r = BXOR(x, y)
    cur().add(z3.Implies(z3.And(x >= 0, y >= 0), r >= 0))
    if wa and wb:
        w = max(wa, wb); cur().add(r < (1 << w))
        return SInt(r, 0, (1 << w) - 1)
    return SInt(r)

def _arith(op):
    def f(self, other):
        if not is_intlike(other):
            if isinstance(other, float): raise Unsupported('float arithmetic')
            return NotImplemented
        return op(self, other)
    return f

def i_add(a, b):
    x, y = term(a), term(b)
    if type(x) is int and type(y) is int: return x + y
    if type(y) is int and y == 0: return a
    if type(x) is int and x == 0: return b
    (l1, h1), (l2, h2) = lo_hi(a), lo_hi(b)
    return mk(x + y, None if l1 is None or l2 is None else l1 + l2, None if h1 is None or h2 is None else h1 + h2)

def i_sub(a, b):
    x, y = term(a), term(b)
    if type(x) is int and type(y) is int: return x - y
    if type(y) is int and y == 0: return a
    if type(x) is not int and type(y) is not int and x.eq(y): return 0
    (l1, h1), (l2, h2) = lo_hi(a), lo_hi(b)
    return mk(x - y, None if l1 is None or h2 is None else l1 - h2, None if h1 is None or l2 is None else h1 - l2)

def i_mul(a, b):
    x, y = term(a), term(b)
    if type(x) is int and type(y) is int: return x * y
    if type(x) is int: a, b, x, y = b, a, y, x
    if type(y) is int:
        if y == 0: return 0
        if y == 1: return a
        l, h = lo_hi(a)
        if y < 0: l, h = h, l
        return mk(x * y, None if l is None else l * y, None if h is None else h * y,
                  mul=(y & -y).bit_length() - 1)
    (l1, h1), (l2, h2) = lo_hi(a), lo_hi(b)
    lo = 0 if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0 else None
    hi = h1 * h2 if lo == 0 and h1 is not None and h2 is not None else None
    return mk(x * y, lo, hi)

def i_floordiv(a, b):
    y = term(b); x = term(a)
    if type(x) is int and type(y) is int: return x // y
    if type(y) is int:
        if y == 0: raise ZeroDivisionError('integer division or modulo by zero')
        if y == 1: return a
        if y < 0: return i_floordiv(i_sub(0, a), -y)
        l, h = lo_hi(a)
        qr = multiple(x, y)
        if qr is not None: return mk(qr[0], None if l is None else l // y, None if h is None else h // y)
        return mk(x / y, None if l is None else l // y, None if h is None else h // y)
    if truth(mkbool(y == 0)): raise ZeroDivisionError('integer division or modulo by zero')
    if truth(mkbool(y > 0)): return mk(z3.simplify(zt(a) / y))
    return mk((-zt(a)) / (-y))

def i_mod(a, b):
    y = term(b); x = term(a)
    if type(x) is int and type(y) is int: return x % y
    if type(y) is int:
        if y == 0: raise ZeroDivisionError('integer division or modulo by zero')
        if y < 0: return i_sub(0, i_mod(i_sub(0, a), -y))
        l, h = lo_hi(a)
        if l is not None and h is not None and l >= 0 and h < y: return a
        qr = multiple(x, y)
        if qr is not None: return qr[1]
        return mk(x % y, 0, y - 1)
    if truth(mkbool(y == 0)): raise ZeroDivisionError('integer division or modulo by zero')
    if truth(mkbool(y > 0)):
        r = zt(a) % y
        cur().add(z3.And(r >= 0, r < y))
        return mk(r, 0)
    return i_sub(0, mk((-zt(a)) % (-y)))

def i_lshift(a, k):
    if is_sym(k):
        l, h = lo_hi(k)
        if l is not None and h is not None and h - l <= 64: k = concretize(k)
        else:
            if truth(k < 0): raise ValueError('negative shift count')
            p = pow2(k)
            r = i_mul(a, p)
            if type(r) is SInt:
                r.mul = p
                (la, ha) = lo_hi(a)
                if la is not None: cur().add(r.t >= la * p.t)
                if ha is not None: cur().add(r.t <= ha * p.t)
            return r
    k = int(k)
    if k < 0: raise ValueError('negative shift count')
    r = i_mul(a, 1 << k)
    if type(r) is SInt and type(a) is SInt and a.bits is not None: r.bits = (0,) * k + tuple(a.bits)
    return r

SHR8 = z3.Function('shr8', z3.IntSort(), z3.IntSort(), z3.IntSort())
def shr8(a, m):
    """a // 256**m for a, m >= 0"""
    if not is_sym(a) and not is_sym(m): return int(a) >> (8 * int(m))
    p = cur(); x, t = zt(a), z3.simplify(zt(m))
    f = SHR8(x, t)
    k = ('shr8', f.get_id())
    if k not in p.aux:
        p.aux[k] = f
        r = p.fresh_int('byte')
        p.add(z3.And(f >= 0, r >= 0, r < 256, f == 256 * SHR8(x, z3.simplify(t + 1)) + r, SHR8(x, z3.simplify(t + 1)) >= 0, z3.Implies(t == 0, f == x)))
    return SInt(f, 0)
def div8(k):
    """k / 8 if k is syntactically a multiple of 8"""
    t = z3.simplify(k.t)
    def div(e):
        if z3.is_int_value(e): return z3.IntVal(e.as_long() // 8) if e.as_long() % 8 == 0 else None
        if z3.is_mul(e):
            c = e.children()
            if z3.is_int_value(c[0]) and c[0].as_long() % 8 == 0:
                r = z3.IntVal(c[0].as_long() // 8)
                for x in c[1:]: r = r * x
                return r
            return None
        if z3.is_add(e):
            ds = [div(x) for x in e.children()]
            return None if any(d is None for d in ds) else z3.Sum(*ds)
        return None
    d = div(t)
    return None if d is None else SInt(z3.simplify(d), 0)
def nbytes(a):
    """number of bytes of a > 0"""
    p = cur()
    k = ('nbytes', z3.simplify(zt(a)).get_id())
    if k not in p.aux:
        for a0 in p.aux.setdefault('nbytes of', []):
            if is_sym(a) and known(a == a0):
                m, top = nbytes(a0); p.aux[k] = (m, a, top)
                return p.aux[k][0], p.aux[k][2]
        p.aux['nbytes of'].append(a)
        n = p.fresh_nat('nbytes', 1)
        top = shr8(a, n - 1)
        p.add(z3.And(n.t >= 1, zt(top) >= 1, zt(top) <= 255, SHR8(zt(a), n.t) == 0))
        p.aux[k] = (n, a, top)
    return p.aux[k][0], p.aux[k][2]

def i_rshift(a, k):
    if is_sym(k):
        l, h = lo_hi(k)
        if l is not None and h is not None and h - l <= 64: k = concretize(k)
        else:
            if truth(k < 0): raise ValueError('negative shift count')
            m = div8(k)
            if m is not None and is_sym(a) and known(a >= 0): return shr8(a, m)
            return i_floordiv(a, pow2(k))
    k = int(k)
    if k < 0: raise ValueError('negative shift count')
    if type(a) is SInt and a.bits is not None:
        r = i_floordiv(SInt(a.t, a.lo, a.hi), 1 << k)
        if type(r) is SInt: r.bits = tuple(a.bits[k:])
        return r
    return i_floordiv(a, 1 << k)

def i_cmp(a, b, op):
    x, y = term(a), term(b)
    if type(x) is int and type(y) is int:
        return {'<': x < y, '<=': x <= y, '==': x == y}[op]
    (l1, h1), (l2, h2) = lo_hi(a), lo_hi(b)
    if op == '<':
        if h1 is not None and l2 is not None and h1 < l2: return True
        if l1 is not None and h2 is not None and l1 >= h2: return False
        return mkbool(zt(a) < zt(b))
    if op == '<=':
        if h1 is not None and l2 is not None and h1 <= l2: return True
        if l1 is not None and h2 is not None and l1 > h2: return False
        return mkbool(zt(a) <= zt(b))
    if h1 is not None and l2 is not None and h1 < l2: return False
    if l1 is not None and h2 is not None and l1 > h2: return False
    X, Y = zt(a), zt(b)
    if X.eq(Y): return True
    return mkbool(X == Y)

def _shape_int(cls):
    def unsupported_attr(self, name):
        if hasattr(int, name): raise Unsupported('int.%s on a symbolic integer' % name)
        raise AttributeError("'int' object has no attribute %r" % name)
    cls.__getattr__ = unsupported_attr
    b = lambda op: _arith(op)
    cls.__add__ = b(i_add); cls.__radd__ = b(lambda s, o: i_add(o, s))
    cls.__sub__ = b(i_sub); cls.__rsub__ = b(lambda s, o: i_sub(o, s))
    cls.__mul__ = b(i_mul); 
    def rmul(s, o):
        if type(o) is str and len(o) == 1 and (s.hi is None or s.hi > 64): return VText.repeat(o, s)
        return i_mul(o, s) if is_intlike(o) else _arith(i_mul)(s, o)
    cls.__rmul__ = rmul
    cls.__floordiv__ = b(i_floordiv); cls.__rfloordiv__ = b(lambda s, o: i_floordiv(o, s))
    cls.__mod__ = b(i_mod); cls.__rmod__ = b(lambda s, o: i_mod(o, s))
    cls.__divmod__ = b(lambda s, o: (i_floordiv(s, o), i_mod(s, o)))
    cls.__rdivmod__ = b(lambda s, o: (i_floordiv(o, s), i_mod(o, s)))
    cls.__lshift__ = b(i_lshift); cls.__rlshift__ = b(lambda s, o: i_lshift(o, s))
    cls.__rshift__ = b(i_rshift); cls.__rrshift__ = b(lambda s, o: i_rshift(o, s))
    cls.__neg__ = lambda s: i_sub(0, s)
    cls.__pos__ = lambda s: s
    cls.__abs__ = lambda s: s if truth(i_cmp(0, s, '<=')) else i_sub(0, s)
    def truediv(s, o): raise Unsupported('true division')
    cls.__truediv__ = cls.__rtruediv__ = truediv
    def pw(s, o, m=None):
        if not is_sym(o) and m is None and 0 <= o <= 8:
            r = 1
            for _ in range(o): r = r * s
            return r
        raise Unsupported('power')
    def rpw(s, o, m=None):
        if o == 2: return pow2(s)
        if o == 256: return pow2(s * 8)
        raise Unsupported('power')
    cls.__pow__ = pw; cls.__rpow__ = rpw
    def b(op):
        # an integral float compares as the integer it is
        f = _arith(op)
        return lambda s, o: f(s, int(o)) if type(o) is float and o.is_integer() else f(s, o)
    cls.__lt__ = b(lambda s, o: i_cmp(s, o, '<'))
    cls.__le__ = b(lambda s, o: i_cmp(s, o, '<='))
    cls.__gt__ = b(lambda s, o: i_cmp(o, s, '<'))
    cls.__ge__ = b(lambda s, o: i_cmp(o, s, '<='))
    def eq(s, o):
        if not is_intlike(o):
            if isinstance(o, float): raise Unsupported('float comparison')
            return NotImplemented
        return i_cmp(s, o, '==')
    def ne(s, o):
        r = eq(s, o)
        if r is NotImplemented: return r
        return mkbool(znot(r))
    cls.__eq__ = eq; cls.__ne__ = ne
    cls.__index__ = lambda s: concretize(s)
    cls.__int__ = lambda s: concretize(s)
    cls.__hash__ = lambda s: hash(concretize(s))
    def flt(s): raise Unsupported('float()')
    cls.__float__ = flt
    cls.__repr__ = lambda s: '<sym int %s>' % str(s.t)[:100] if __import__('os').environ.get('VF_DBG') and type(s) is SInt else '<sym int>'
    cls.__str__ = cls.__repr__
    cls.__format__ = lambda s, spec: '<sym int>'
    return cls

@_shape_int
class SInt:
    __slots__ = ('t', 'lo', 'hi', 'mul', 'src', 'bsrc', 'bits', 'xr')
    def __init__(self, t, lo=None, hi=None, mul=None):
        self.t = t; self.lo = lo; self.hi = hi; self.mul = mul; self.src = None; self.bsrc = None; self.bits = None; self.xr = None
    __class__ = property(lambda s: int)
    def __bool__(self):
        if self.lo is not None and self.lo > 0: return True
        return cur().branch(self.t != 0)
    __and__ = _arith(i_and); __rand__ = _arith(i_and)
    __or__ = _arith(i_or); __ror__ = _arith(i_or)
    __xor__ = _arith(i_xor); __rxor__ = _arith(i_xor)
    def __invert__(self): return i_sub(i_sub(0, self), 1)
    def bit_length(self):
        """fork on the number of bits (bounded)"""
        a = abs(self)
        if not is_sym(a): return int(a).bit_length()
        n = SInt(cur().fresh_int('bitlen'), 0, None)
        # pow2(n-1) <= a < pow2(n)  (n == 0 iff a == 0)
        if truth(a == 0): return 0
        if a.hi is not None and a.hi < (1 << 600):
            for k in range(1, a.hi.bit_length() + 1):
                if truth(a < (1 << k)): return k
            raise Infeasible()
        n, top = nbytes(a)
        t = z3.simplify(zt(top))
        bl = z3.IntVal(1)
        for i in range(1, 8): bl = z3.If(t >= (1 << i), z3.IntVal(i + 1), bl)
        return SInt(8 * (n.t - 1) + bl, 1)
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        n = concretize(length)
        if signed:
            if not truth(zand(self >= -(1 << (8*n-1)), self < (1 << (8*n-1)))): raise OverflowError('int too big to convert')
        else:
            if truth(self < 0): raise OverflowError("can't convert negative int to unsigned")
            if not truth(self < (1 << (8*n))): raise OverflowError('int too big to convert')
        bs = int_bytes_le(self, n, signed)
        if byteorder == 'big': bs = bs[::-1]
        return VBytes._lit(bs)

class SBool:
    __slots__ = ('e',)
    __class__ = property(lambda s: bool)
    def __init__(self, e): self.e = e
_shape_int(SBool)
SBool.__bool__ = lambda s: cur().branch(s.e)
SBool.__hash__ = lambda s: hash(truth(s))
SBool.__repr__ = SBool.__str__ = lambda s: '<sym bool>'
def _bop(f, g):
    def h(s, o):
        if type(o) is bool or type(o) is SBool: return mkbool(f(zb(s), zb(o)))
        if is_intlike(o): return g(s, o)
        return NotImplemented
    return h
SBool.__and__ = SBool.__rand__ = _bop(lambda a, b: zand(a, b), i_and)
SBool.__or__ = SBool.__ror__ = _bop(lambda a, b: zor(a, b), i_or)
SBool.__xor__ = SBool.__rxor__ = _bop(lambda a, b: z3.Xor(core.zbool(a), core.zbool(b)), i_xor)
SBool.__invert__ = lambda s: i_sub(i_sub(0, s), 1)

def int_bytes_le(v, n, signed):
    """little-endian bytes of v (known in range), as a list"""
    if not is_sym(v):
        return list(int(v).to_bytes(n, 'little', signed=signed))
    if type(v) is SBool: v = mk(term(v), 0, 1)
    if v.bsrc is not None and v.bsrc[1] == n and v.bsrc[2] == signed:
        return list(v.bsrc[0])
    lo, hi = v.lo, v.hi
    u = v.t
    if signed and not (lo is not None and lo >= 0):
        u = z3.If(v.t >= 0, v.t, v.t + (1 << (8 * n)))
    out = []
    p = cur()
    key = ('bytes', v.t.get_id(), n, signed)
    if key not in p.aux:
        if n == 1: bs = [u]
        else:
            # the digits are fixed by their sum
            if not p.entails(z3.And(u >= 0, u < (1 << (8 * n)))): raise Unsupported('encoding an integer that may be out of range')
            bs = [p.fresh_int('digit') for _ in range(n)]
            p.add(z3.And(*[z3.And(b >= 0, b <= 255) for b in bs], u == z3.Sum(*[b * (1 << (8 * k)) for k, b in enumerate(bs)])))
        p.aux[key] = (v.t, bs)
    for k, e in enumerate(p.aux[key][1]):
        b = SInt(e, 0, 255); b.src = (v, k, n, signed)
        out.append(b)
    return out

def int_from_le(bs, signed):
    n = len(bs)
    if n == 0: return 0
    if not any(is_sym(b) for b in bs):
        return int.from_bytes(bytes(int(b) for b in bs), 'little', signed=signed)
    s0 = getattr(bs[0], 'src', None) if type(bs[0]) is SInt else None
    if s0 is not None and s0[2] == n and s0[3] == signed:
        if all(type(b) is SInt and b.src is not None and b.src[0] is s0[0] and b.src[1] == k and b.src[2] == n
               and b.src[3] == signed for k, b in enumerate(bs)):
            return s0[0]
    t = z3.Sum(*[zt(b) * (1 << (8 * k)) if k else zt(b) for k, b in enumerate(bs)]) if n > 1 else zt(bs[0])
    if signed:
        t = z3.If(zt(bs[-1]) >= 128, t - (1 << (8 * n)), t)
        r = mk(t, -(1 << (8*n-1)), (1 << (8*n-1)) - 1)
    else:
        r = mk(t, 0, (1 << (8 * n)) - 1)
    if type(r) is SInt: r.bsrc = (tuple(bs), n, signed)
    return r

def ite(c, a, b):
    """non-forking conditional on integers"""
    c = zb(c)
    if c is True: return a
    if c is False: return b
    (l1, h1), (l2, h2) = lo_hi(a), lo_hi(b)
    return mk(z3.If(c, zt(a), zt(b)), None if l1 is None or l2 is None else min(l1, l2),
              None if h1 is None or h2 is None else max(h1, h2))

def imin(a, b): return a if truth(a <= b) else b
def imax(a, b): return a if truth(a >= b) else b

# ---------------------------------------------------------------- ropes
class Base:
    """an indexable source of elements"""
    def at(self, i): raise NotImplementedError
    pure = True                # at() is fork-free and usable under a quantifier
    def at_pure(self, t): raise Unsupported('quantified access')

class SymBase(Base):
    """arbitrary bytes: an uninterpreted function of the index"""
    def __init__(self, name, params=()):
        self.name = name; self.params = tuple(params)
        self.f = z3.Function(name, *([z3.IntSort()] * (len(self.params) + 2)))
    def at_pure(self, t): return self.f(*self.params, t)
    def at(self, i):
        t = self.f(*self.params, zt(i))
        p = cur()
        k = ('rng', t.get_id())
        if k not in p.aux:
            p.aux[k] = t
            p.add(z3.And(t >= 0, t <= 255))
        return SInt(t, 0, 255)

class BitBase(SymBase):
    """arbitrary bytes with named bits"""
    def bit(self, i, k):
        """bit k of byte i"""
        self.at(i)
        return SInt(z3.Function(self.name + '.bit', *([z3.IntSort()] * (len(self.params) + 2)))(*self.params, z3.simplify(8 * zt(i) + k)), 0, 1)
    def at(self, i):
        r = super().at(i); p = cur(); k = ('bitbase', r.t.get_id())
        if k not in p.aux:
            f = z3.Function(self.name + '.bit', *([z3.IntSort()] * (len(self.params) + 2)))
            bs = [f(*self.params, z3.simplify(8 * zt(i) + j)) for j in range(8)]
            p.add(z3.And(*[z3.And(b >= 0, b <= 1) for b in bs], r.t == z3.Sum(*[b * (1 << j) for j, b in enumerate(bs)])))
            p.aux[k] = (r.t, bs)
        r.bits = tuple(SInt(b, 0, 1) for b in p.aux[k][1])
        return r

class DigestBase(SymBase):
    """the output of a hash function on a given byte string"""
    def __init__(self, alg, arg, n):
        super().__init__(cur().fresh('dig_' + alg))
        self.alg = alg; self.arg = arg; self.n = n
    def at(self, i):
        r = super().at(i)
        if type(i) is int: r.src = ('digest', self, i, None)
        return r
def whole_digest(v):
    """the digest whose bytes these are, in order"""
    x = v[0]
    if type(x) is not SInt or x.src is None or x.src[0] != 'digest' or x.src[2] != 0: return None
    b = x.src[1]
    if len(v) < b.n: return None
    for k in range(b.n):
        x = v[k]
        if type(x) is not SInt or x.src is None or x.src[0] != 'digest' or x.src[1] is not b or x.src[2] != k: return None
    return b
def unmasked(v, w):
    """the bytes without the same constants they are combined with"""
    if not all(type(x) is SInt and type(y) is SInt and x.xr is not None and y.xr is not None and x.xr[1] == y.xr[1] for x, y in zip(v, w)): return None
    return [x.xr[0] for x in v], [y.xr[0] for y in w]

class ConstBase(Base):
    def __init__(self, v): self.v = v
    def at(self, i): return self.v
    def at_pure(self, t): return zt(self.v)

class GenBase(Base):
    """elements computed by a function of the index (may fork)"""
    def __init__(self, fn, pure_fn=None): self.fn = fn; self.pure_fn = pure_fn
    def at(self, i): return self.fn(i)
    def at_pure(self, t):
        if self.pure_fn is None: raise Unsupported('quantified access to a computed sequence')
        return self.pure_fn(t)

def is_mutable(v):
    """an object whose attributes or contents can be changed in place"""
    t = type(v)
    if t is SList: return v.kind is list
    if t is VByteArray or t is SSet: return True
    if is_intlike(v) or t in (VBytes, VStr, SInt, SBool) or isinstance(v, (VBytes, str, tuple, type(None), builtins.bytes)): return False
    return t.__setattr__ is object.__setattr__ and (hasattr(v, '__dict__') or hasattr(t, '__slots__'))

def attributes(o):
    d = {}
    for c in type(o).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for a in ((sl,) if isinstance(sl, str) else sl):
            if a != '__weakref__':
                try: d[a] = object.__getattribute__(o, a)
                except AttributeError: pass
    try: d.update(object.__getattribute__(o, '__dict__'))
    except AttributeError: pass
    return d
def reach(v):
    """parts of a container or object that a change could affect"""
    if type(v) is SList:
        for s in v.segs:
            if type(s) is Lit: yield from s.v
            elif type(s) is Sub:
                at = getattr(s.base, '_at', None) or getattr(s.base, 'fn', None)
                if type(at) is ElemCache: yield from (x for _, x in at.d.values())
                elif type(s.base) is ConstBase: yield s.base.v
    elif isinstance(v, (tuple, builtins.list)): yield from v
    elif isinstance(v, builtins.dict): yield from v.values()
    elif is_object(v): yield from attributes(v).values()
def is_object(v):
    return not isinstance(v, type) and getattr(type(v), '__module__', '').split('.')[0] in ('bitcoin', 'proofmarshal', 'proofchains') and not is_intlike(v)
def snapshot(roots, limit=3000):
    """the attributes of every object reachable from the roots"""
    out = []; seen = set(); todo = builtins.list(roots)
    while todo and len(seen) < limit:
        v = todo.pop()
        if id(v) in seen: continue
        if type(v) is SList or isinstance(v, (tuple, builtins.list, builtins.dict)) or is_object(v):
            seen.add(id(v))
            if is_object(v): out.append((v, attributes(v)))
            elif type(v) is SList: out.append((v, v.segs))
            todo.extend(reach(v))
    return out
def changed(snap):
    """objects whose attributes or contents are no longer what they were (attributes added for caching aside)"""
    out = []
    for v, d in snap:
        if type(v) is SList:
            if v.segs is not d: out.append((v, None))
            continue
        now = attributes(v)
        for a, x in d.items():
            if a not in now or now[a] is not x and not (type(x) is type(now[a]) is int and x == now[a]): out.append((v, a))
        for a in now:
            if a not in d and not a.startswith('_cached') and a not in ('hash', 'data_hash'): out.append((v, a))
    return out

class ElemCache:
    """elements of a sequence, made on demand; equal indices give the same object where that can be observed"""
    def __init__(self, make): self.make = make; self.d = {}; self.objs = []; self.born = []
    def __call__(self, i, *a):
        t = z3.simplify(zt(i)); k = t.get_id()
        if k in self.d: return self.d[k][1]
        for t0, o in self.objs:
            if truth(mkbool(t0 == t)):
                self.d[k] = (t, o)
                return o
        v = self.make(i, *a)
        if k in self.d: return self.d[k][1]
        self.d[k] = (t, v)
        if is_mutable(v): self.objs.append((t, v)); self.born.append(snapshot([v]))
        return v
    def values(self): return [(SInt(t), v) for t, v in self.d.values()]

class Lit:
    __slots__ = ('v', 'n')
    def __init__(self, v): self.v = tuple(v); self.n = len(self.v)
    def at(self, i):
        if is_sym(i): i = concretize(i)
        return self.v[i]
    def cut(self, p):
        p = concretize(p)
        return Lit(self.v[:p]), Lit(self.v[p:])

class Sub:
    __slots__ = ('base', 'off', 'n')
    def __init__(self, base, off, n): self.base = base; self.off = off; self.n = n
    def at(self, i): return self.base.at(self.off + i)
    def cut(self, p):
        return Sub(self.base, self.off, p), Sub(self.base, self.off + p, self.n - p)

class USeg:
    """an encoding given by a specification function, unfolded on demand"""
    __slots__ = ('key', 'arg', 'n', 'unfold_fn', 'same', 'vec')
    def __init__(self, key, arg, n, unfold_fn, same=None):
        self.key = key; self.arg = arg; self.n = n; self.unfold_fn = unfold_fn
        self.same = same
    def unfold(self):
        p = core.CUR
        if p is not None:
            # equations assumed by a loop invariant
            for k, arg, segs in p.aux.get('equations', ()):
                if k == self.key and (arg is self.arg or is_intlike(arg) and is_intlike(self.arg) and _same_int(arg, self.arg)): return list(segs)
        return self.unfold_fn()
    def equated(self):
        p = core.CUR
        return p is not None and any(k == self.key and (arg is self.arg or is_intlike(arg) and is_intlike(self.arg) and _same_int(arg, self.arg))
                                     for k, arg, _ in p.aux.get('equations', ()))
    def at(self, i): raise AssertionError

def seg_len(segs):
    n = 0
    for s in segs: n = n + s.n
    return n

def _norm(segs):
    out = []
    for s in segs:
        if type(s.n) is int and s.n == 0: continue
        if type(s) is Lit and out and type(out[-1]) is Lit:
            out[-1] = Lit(out[-1].v + s.v)
        elif type(s) is Sub and out and type(out[-1]) is Sub and out[-1].base is s.base \
                and _same_int(out[-1].off + out[-1].n, s.off):
            out[-1] = Sub(s.base, out[-1].off, out[-1].n + s.n)
        else: out.append(s)
    return tuple(out)

def _same_int(a, b):
    a, b = term(a), term(b)
    if type(a) is int and type(b) is int: return a == b
    d = z3.simplify((a if type(a) is not int else z3.IntVal(a)) - b)
    return z3.is_int_value(d) and d.as_long() == 0

def seg_split(segs, p):
    L = []; R = list(segs)
    while R:
        if type(p) is int and p == 0: break
        s = R[0]
        if _same_int(p, s.n):
            L.append(s); R.pop(0); p = 0; break
        if truth(p >= s.n):
            L.append(s); R.pop(0); p = p - s.n; continue
        if truth(p <= 0): break
        if type(s) is USeg:
            if hasattr(s, 'vec') and s.vec.cut is None and not s.equated():
                a, b = s.vec.cut_at(s.arg, p)
                L.append(a); R[0] = b
                break
            R[0:1] = s.unfold(); continue
        a, b = s.cut(p)
        L.append(a); R[0] = b
        break
    return L, R

def seg_at(segs, i):
    R = list(segs)
    while R:
        s = R[0]
        if truth(i < s.n):
            if type(s) is USeg:
                R[0:1] = s.unfold(); continue
            return s.at(i)
        i = i - s.n; R.pop(0)
    raise Infeasible()

def clamp_index(i, n, dflt):
    if i is None: return dflt
    if truth(i < 0):
        i = i + n
        if truth(i < 0): return 0
        return i
    if truth(i > n): return n
    return i

def elem_eq(a, b):
    r = a == b
    return r

def slices_eq(a, b, n, eqf, quant):
    """condition that n elements of Sub a and Sub b agree"""
    if a.base is b.base and _same_int(a.off, b.off): return True
    if isinstance(a.base, DigestBase) and isinstance(b.base, DigestBase) and a.base.alg == b.base.alg \
            and _same_int(n, a.base.n) and _same_int(a.off, 0) and _same_int(b.off, 0):
        r = rope_eq(a.base.arg, b.base.arg)
        cur().assumptions.add('hash functions are injective on the values compared (no collisions)')
        return zb(r)
    if type(a.base) is ConstBase and type(b.base) is ConstBase:
        return zor(zb(a.base.v == b.base.v), zb(n == 0))
    if type(n) is int and n <= 40:
        cs = []
        for k in range(n):
            c = eqf(a.at(k), b.at(k))
            if c is False: return False
            cs.append(c)
        return zand(*cs)
    if not quant: raise Unsupported('comparison of sequences of objects')
    j = z3.Int(cur().fresh('q'))
    f = a.base.at_pure(zt(a.off) + j) == b.base.at_pure(zt(b.off) + j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zt(n)), f))

CONST_DIGESTS = {}
def known_digest(l, s):
    """the constant whose digest l starts with, if s is a whole symbolic digest of the same kind"""
    b = s.base
    if not isinstance(b, DigestBase) or not _same_int(s.off, 0) or type(s.n) is not int or s.n != b.n or l.n < s.n: return None
    v = l.v[:s.n]
    if not all(type(x) is int for x in v): return None
    return CONST_DIGESTS.get((b.alg, builtins.bytes(v)))

def segs_eq(A, B, eqf, quant):
    """exact equality of two segment lists of equal total length -> bool or z3"""
    A = list(A); B = list(B); conds = []
    guard = 0
    while A and B:
        guard += 1
        if guard > 3000: raise Unsupported('comparison too long')
        a, b = A[0], B[0]
        if type(a.n) is int and a.n == 0: A.pop(0); continue
        if type(b.n) is int and b.n == 0: B.pop(0); continue
        ta, tb = type(a), type(b)
        if ta is USeg and tb is USeg and a.key == b.key:
            c = a.same(b) if a.same else zb(a.arg == b.arg)
            if c is True or c is not False and known(mkbool(c)):
                A.pop(0); B.pop(0); continue
            conds.append(c); A.pop(0); B.pop(0)      # prefix-free encodings
            if c is False: return False
            continue
        if ta is USeg: A[0:1] = a.unfold(); continue
        if tb is USeg: B[0:1] = b.unfold(); continue
        if ta is Lit and tb is Lit:
            k = min(a.n, b.n)
            if k >= 20:
                u = unmasked(a.v[:k], b.v[:k]) or (a.v, b.v)
                d, e = whole_digest(u[0]), whole_digest(u[1])
                if d is not None and e is not None:
                    k = d.n
                    if k != e.n: raise Unsupported('digests of different kinds')
                    c = slices_eq(Sub(d, 0, k), Sub(e, 0, k), k, eqf, quant)
                    if c is False: return False
                    if c is not True: conds.append(c)
                    A[0] = Lit(a.v[k:]); B[0] = Lit(b.v[k:])
                    continue
            for x, y in zip(a.v[:k], b.v[:k]):
                c = eqf(x, y)
                if c is False: return False
                if c is not True: conds.append(c)
            A[0] = Lit(a.v[k:]); B[0] = Lit(b.v[k:])
            continue
        if ta is Lit or tb is Lit:
            (l, s) = (a, b) if ta is Lit else (b, a)
            d = whole_digest(l.v)
            if d is not None:
                x = [Sub(d, 0, d.n)] + ([Lit(l.v[d.n:])] if l.n > d.n else [])
                if ta is Lit: A[0:1] = x
                else: B[0:1] = x
                continue
            if is_sym(s.n) and not (s.n.lo is not None and s.n.lo > 0) and truth(s.n == 0):
                (B if ta is Lit else A).pop(0); continue
            d = known_digest(l, s)
            if d is not None:
                # a digest against one computed from constants: compare what was hashed
                c = zb(rope_eq(s.base.arg, d)); k = s.n
                cur().assumptions.add('hash functions are injective on the values compared (no collisions)')
                if c is False: return False
                if c is not True: conds.append(c)
                if ta is Lit: A[0] = Lit(l.v[k:]); B.pop(0)
                else: B[0] = Lit(l.v[k:]); A.pop(0)
                continue
            if truth(s.n >= l.n): k = l.n
            else: k = concretize(s.n)
            for j in range(k):
                c = eqf(l.v[j], s.at(j))
                if c is False: return False
                if c is not True: conds.append(c)
            l2, s2 = Lit(l.v[k:]), Sub(s.base, s.off + k, s.n - k)
            if ta is Lit: A[0], B[0] = l2, s2
            else: A[0], B[0] = s2, l2
            continue
        if type(a.base) is not type(b.base):
            if is_sym(a.n) and known(a.n == 0): A.pop(0); continue
            if is_sym(b.n) and known(b.n == 0): B.pop(0); continue
        if _same_int(a.n, b.n): n = a.n; A.pop(0); B.pop(0)
        elif truth(a.n <= b.n):
            n = a.n; A.pop(0); B[0] = Sub(b.base, b.off + n, b.n - n)
        else:
            n = b.n; B.pop(0); A[0] = Sub(a.base, a.off + n, a.n - n)
        c = slices_eq(a, b, n, eqf, quant)
        if c is False: return False
        if c is not True: conds.append(c)
    return zand(*conds)

def _expand(a, stop):
    """unfold the vectors of a until one of `stop` appears (so that their lengths can be compared)"""
    segs = list(a.segs); i = 0; fuel = 4
    while i < len(segs):
        s = segs[i]
        if type(s) is USeg and s.key.startswith('vec') and fuel and not any(t.key == s.key and known(mkbool(zb(t.arg == s.arg))) for t in stop):
            segs[i:i + 1] = s.unfold(); fuel -= 1
        else: i += 1
    return VBytes._mk(_norm(segs))

def rope_eq(a, b):
    """equality of two VBytes (as bool/SBool)"""
    if a is b or a.segs is b.segs: return True
    va, vb = [[s for s in x.segs if type(s) is USeg and s.key.startswith('vec')] for x in (a, b)]
    if va and vb and not known(a.length() == b.length()):
        a = _expand(a, vb); b = _expand(b, [s for s in a.segs if type(s) is USeg])
    la, lb = a.length(), b.length()
    if not truth(la == lb): return False
    return mkbool(segs_eq(a.segs, b.segs, lambda x, y: zb(x == y), True))

def byte_of(x):
    """validate one element for bytes()"""
    if not is_intlike(x):
        if hasattr(x, '__index__'): x = x.__index__()
        else: raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if type(x) is SBool: x = mk(term(x), 0, 1)
    lo, hi = lo_hi(x)
    if lo is not None and lo >= 0 and hi is not None and hi <= 255:
        return x if is_sym(x) else int(x)
    if not truth(zand(x >= 0, x <= 255)): raise ValueError('bytes must be in range(0, 256)')
    if is_sym(x):
        r = SInt(x.t, 0, 255, x.mul); r.src = x.src; r.bsrc = x.bsrc; r.bits = x.bits
        return r
    return int(x)

def to_vbytes(x):
    """coerce a bytes-like to VBytes, or None"""
    if isinstance(x, VBytes): return x
    if type(x) is VByteArray: return VBytes._mk(x.segs)
    if type(x) is VHex: raise Unsupported('bytes of a hexadecimal text')
    if isinstance(x, (builtins.bytes, builtins.bytearray)): return VBytes._lit(x)
    return None

class VBytes:
    """plays the role of the type `bytes` in the instrumented program"""
    segs = ()
    def __new__(cls, x=None, *args, **kw):
        if args or kw:
            if isinstance(x, str): return VBytes._sub(cls, VBytes._lit(x.encode(*args, **kw)).segs)
        return VBytes._sub(cls, VBytes._conv(x))
    @staticmethod
    def _sub(cls, segs):
        self = object.__new__(cls)
        object.__setattr__(self, 'segs', segs)
        return self
    @staticmethod
    def _mk(segs):
        return VBytes._sub(VBytes, _norm(segs))
    @staticmethod
    def _lit(vals):
        vals = tuple(vals)
        return VBytes._sub(VBytes, (Lit(vals),) if vals else ())
    @staticmethod
    def _conv(x):
        if x is None: return ()
        v = to_vbytes(x)
        if v is not None: return v.segs
        if isinstance(x, str): raise TypeError('string argument without an encoding')
        if type(x) is SInt or (isinstance(x, int) and type(x) is not SBool):
            if truth(x < 0): raise ValueError('negative count')
            return _norm((Sub(ConstBase(0), 0, x),)) if is_sym(x) else ((Lit((0,) * int(x)),) if x else ())
        if hasattr(type(x), '__bytes__'): return to_vbytes(x.__bytes__()).segs
        if isinstance(x, SList):
            out = []
            for s in x.segs:
                if type(s) is Lit: out.append(Lit(tuple(byte_of(e) for e in s.v)))
                else: out.append(_byte_sub(s))
            return _norm(out)
        if isinstance(x, SIter): return VBytes._conv(x.to_slist())
        return _norm((Lit(tuple(byte_of(e) for e in x)),))
    # -- queries
    def length(self): return seg_len(self.segs)
    def __len__(self):
        return concretize(self.length(), what='length')
    def is_const(self):
        return all(type(s) is Lit and not any(is_sym(b) for b in s.v) for s in self.segs)
    def const(self):
        return builtins.bytes(int(b) for s in self.segs for b in s.v)
    def explicit(self):
        """list of byte values if every byte is explicit, else None"""
        if all(type(s) is Lit for s in self.segs): return [b for s in self.segs for b in s.v]
        return None
    def bytelist(self, n=None):
        """list of the byte values; the length must be concrete (or n)"""
        if n is None: n = concretize(self.length(), what='length')
        segs = list(self.segs); out = []
        while segs and len(out) < n:
            s = segs[0]
            if type(s) is USeg: segs[0:1] = s.unfold(); continue
            k = concretize(s.n, what='length')
            for j in range(k): out.append(s.at(j))
            segs.pop(0)
        return out
    def __bool__(self): return truth(self.length() != 0)
    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self.length()
            if i.step is not None and not (not is_sym(i.step) and i.step == 1):
                if not is_sym(i.step) and i.step == -1 and i.start is None and i.stop is None: return self._reversed()
                bl = self.bytelist()
                return VBytes._lit(bl[slice(*[None if v is None else concretize(v) for v in (i.start, i.stop, i.step)])])
            if i.start is None and i.stop is None: return VBytes._mk(self.segs)
            a = clamp_index(i.start, n, 0)
            b = clamp_index(i.stop, n, n)
            if (type(a) is int and a == 0): left = self.segs
            elif b is not n and truth(b <= a): return VBytes._lit(())
            else: left = None
            if left is None:
                _, R = seg_split(self.segs, a)
            else: R = list(left)
            if b is n: return VBytes._mk(R)
            L, _ = seg_split(R, b - a)
            return VBytes._mk(L)
        if not is_intlike(i):
            raise TypeError('byte indices must be integers or slices, not %s' % type(i).__name__)
        n = self.length()
        if truth(i < 0): i = i + n
        if not truth(zand(i >= 0, i < n)): raise IndexError('index out of range')
        return seg_at(self.segs, i)
    def _reversed(self):
        out = []
        for s in reversed(self.segs):
            if type(s) is USeg: raise Unsupported('reversing an encoding')
            if type(s) is Lit: out.append(Lit(s.v[::-1]))
            else: out.append(_rev_sub(s))
        return VBytes._mk(out)
    def __iter__(self):
        segs = list(self.segs)
        while segs:
            s = segs.pop(0)
            if type(s) is USeg: segs[0:0] = s.unfold(); continue
            if type(s) is Lit: yield from s.v
            else:
                k = 0
                while truth(s.n > k):
                    yield s.at(k); k += 1
                    if k > 600: raise Unsupported('iteration over a long symbolic byte string')
    def __reversed__(self): return iter(self._reversed())
    def __add__(self, o):
        o = to_vbytes(o)
        if o is None: return NotImplemented
        return VBytes._mk(self.segs + o.segs)
    def __radd__(self, o):
        o = to_vbytes(o)
        if o is None: return NotImplemented
        return VBytes._mk(o.segs + self.segs)
    def __mul__(self, k):
        if not is_intlike(k): return NotImplemented
        e = self.explicit()
        if is_sym(k):
            if e is not None and len(e) == 1:
                if truth(k <= 0): return VBytes._lit(())
                return VBytes._mk((Sub(ConstBase(e[0]), 0, k),))
            k = concretize(k)
        if k > 4096 and e is not None and len(e) == 1:
            return VBytes._mk((Sub(ConstBase(e[0]), 0, int(k)),))
        return VBytes._mk(tuple(self.segs) * max(int(k), 0))
    __rmul__ = __mul__
    def __eq__(self, o):
        o = to_vbytes(o)
        if o is None: return NotImplemented
        return rope_eq(self, o)
    def __ne__(self, o):
        r = VBytes.__eq__(self, o)
        return r if r is NotImplemented else mkbool(znot(r))
    def __hash__(self):
        if self.is_const(): return hash(self.const())
        if not isinstance(self.length(), int) or self.length() > 2: raise Unsupported('hash() of symbolic bytes')
        return hash(self._force())
    def _force(self):
        return builtins.bytes(concretize(b) for b in self.bytelist())
    def _cmp(self, o, strict):
        """self < o (strict) or <=, lexicographically"""
        o = to_vbytes(o)
        if o is None: return NotImplemented
        if self.is_const() and o.is_const(): return self.const() < o.const() if strict else self.const() <= o.const()
        la, lb = self.length(), o.length()
        n = imin(la, lb)
        if type(n) is int and n <= 64:
            a, b = self[:n].bytelist(n), o[:n].bytelist(n)
            r = (la < lb) if strict else (la <= lb)
            r = zb(r)
            for x, y in reversed(list(zip(a, b))):
                r = zor(zb(x < y), zand(zb(x == y), r))
            return mkbool(r)
        raise Unsupported('ordering of symbolic byte strings')
    def __lt__(self, o): return self._cmp(o, True)
    def __le__(self, o): return self._cmp(o, False)
    def __gt__(self, o):
        o = to_vbytes(o)
        return NotImplemented if o is None else o._cmp(self, True)
    def __ge__(self, o):
        o = to_vbytes(o)
        return NotImplemented if o is None else o._cmp(self, False)
    def __contains__(self, x): return truth(contains_bytes(self, x))
    def __setattr__(self, k, v):
        if type(self) is VBytes: raise AttributeError("'bytes' object has no attribute %r" % k)
        object.__setattr__(self, k, v)
    # -- methods
    def startswith(self, p):
        p = to_vbytes(p); n = p.length()
        if truth(self.length() < n): return False
        return rope_eq(VBytes._mk(seg_split(self.segs, n)[0]), p)
    def endswith(self, p):
        p = to_vbytes(p); n = p.length(); m = self.length()
        if truth(m < n): return False
        return rope_eq(VBytes._mk(seg_split(self.segs, m - n)[1]), p)
    def join(self, parts):
        out = []; first = True
        if isinstance(parts, SIter): parts = parts.to_slist()
        for x in parts:
            if not first: out.extend(self.segs)
            first = False
            v = to_vbytes(x)
            if v is None: raise TypeError('sequence item: expected a bytes-like object, %s found' % type(x).__name__)
            out.extend(v.segs)
        return VBytes._mk(out)
    def hex(self):
        return binascii_hexlify(self).decode('ascii')
    def decode(self, *a, **k):
        if self.is_const(): return self.const().decode(*a, **k)
        return VStr._from_bytes(self)
    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)
    def _strip(self, chars, l, r):
        if self.is_const(): 
            b = self.const(); ch = None if chars is None else to_vbytes(chars).const()
            if l: b = b.lstrip(ch)
            if r: b = b.rstrip(ch)
            return VBytes._lit(b)
        if chars is None: raise Unsupported('strip')
        ch = to_vbytes(chars).const(); x = self
        for _ in range(80):
            if r and truth(x.length() > 0) and truth(zor(*[zb(x[-1] == c) for c in ch])): x = x[:-1]; continue
            if l and truth(x.length() > 0) and truth(zor(*[zb(x[0] == c) for c in ch])): x = x[1:]; continue
            return x
        raise Unsupported('strip of a long symbolic byte string')
    def find(self, sub, start=None, end=None):
        if self.is_const() and (is_intlike(sub) or to_vbytes(sub).is_const()):
            return self.const().find(sub if is_intlike(sub) else to_vbytes(sub).const(),
                                     *[None if v is None else concretize(v) for v in (start, end)])
        raise Unsupported('bytes.find')
    def split(self, sep=None, maxsplit=-1):
        if self.is_const():
            return SList([VBytes._lit(p) for p in self.const().split(None if sep is None else to_vbytes(sep).const(), maxsplit)])
        sepc = to_vbytes(sep).const()
        if len(sepc) != 1: raise Unsupported('bytes.split')
        n = self.length()
        if is_sym(n) : raise Unsupported('bytes.split')
        bl = self.bytelist(); out = []; curp = []
        for b in bl:
            if maxsplit != 0 and truth(b == sepc[0]):
                out.append(VBytes._lit(curp)); curp = []; maxsplit -= 1
            else: curp.append(b)
        out.append(VBytes._lit(curp))
        return SList(out)
    def count(self, x):
        if self.is_const(): return self.const().count(x if is_intlike(x) else to_vbytes(x).const())
        raise Unsupported('bytes.count')
    def index(self, x):
        if self.is_const(): return self.const().index(x if is_intlike(x) else to_vbytes(x).const())
        raise Unsupported('bytes.index')
    def replace(self, a, b):
        if self.is_const(): return VBytes._lit(self.const().replace(to_vbytes(a).const(), to_vbytes(b).const()))
        raise Unsupported('bytes.replace')
    def translate(self, *a): raise Unsupported('bytes.translate')
    def __getattr__(self, name):
        if name == 'segs': return ()
        if hasattr(builtins.bytes, name): raise Unsupported('bytes.%s' % name)
        raise AttributeError('%r object has no attribute %r' % (type(self).__name__, name))
    @staticmethod
    def fromhex(s): return VBytes._lit(builtins.bytes.fromhex(s))
    def __repr__(self):
        return repr(self.const()) if self.is_const() else "b'<sym>'"
    __str__ = __repr__
    def __bytes__(self):
        raise Unsupported('native bytes() of a symbolic byte string')
    def __buffer__(self, flags): raise Unsupported('buffer access')

VBytes.__name__ = VBytes.__qualname__ = 'bytes'

def _byte_sub(s):
    b = s.base
    return Sub(GenBase(lambda i: byte_of(b.at(i))), s.off, s.n)

def _rev_sub(s):
    b, off, n = s.base, s.off, s.n
    if type(b) is ConstBase: return s
    if isinstance(b, RevBase) and _same_int(off, 0) and _same_int(n, b.n):
        return Sub(b.base, b.off, b.n)
    return Sub(RevBase(b, off, n), 0, n)

class RevBase(Base):
    def __init__(self, base, off, n): self.base, self.off, self.n = base, off, n
    def at(self, i): return self.base.at(self.off + (self.n - 1 - i))
    def at_pure(self, t): return self.base.at_pure(zt(self.off) + zt(self.n) - 1 - t)

def plain_bytes(x):
    """bytes whose iteration yields its bytes (not overridden, as CScript does)"""
    return isinstance(x, VBytes) and type(x).__iter__ is VBytes.__iter__

def contains_bytes(b, x):
    if is_intlike(x):
        if b.explicit() is not None: return mkbool(zor(*[zb(e == x) for e in b.explicit()]))
        raise Unsupported('membership in a symbolic byte string')
    x = to_vbytes(x)
    if x is None: raise TypeError('a bytes-like object is required')
    e, xe = b.explicit(), x.explicit()
    if e is not None and xe is not None:
        return mkbool(zor(*[zand(*[zb(p == q) for p, q in zip(e[k:k+len(xe)], xe)])
                            for k in range(len(e) - len(xe) + 1)]))
    raise Unsupported('membership in a symbolic byte string')

# mutable objects register so that loop frames can be checked
def register(o):
    o.version = 0
    if core.CUR is not None:
        core.CUR.aux.setdefault('mutables', []).append(o)

def touch(o):
    o.version += 1

class VByteArray:
    """bytearray"""
    def __init__(self, x=None):
        self.segs = VBytes._conv(x); register(self)
    __class__ = property(lambda s: builtins.bytearray)
    def _b(self): return VBytes._mk(self.segs)
    def length(self): return seg_len(self.segs)
    def __len__(self): return concretize(self.length())
    def __bool__(self): return truth(self.length() != 0)
    def __getitem__(self, i):
        r = self._b()[i]
        if isinstance(i, slice):
            return VByteArray(r)
        return r
    def __setitem__(self, i, v):
        if isinstance(i, slice): raise Unsupported('bytearray slice assignment')
        v = byte_of(v); n = self.length()
        if truth(i < 0): i = i + n
        if not truth(zand(i >= 0, i < n)): raise IndexError('bytearray index out of range')
        touch(self)
        L, R = seg_split(self.segs, i)
        _, R = seg_split(R, 1)
        self.segs = _norm(tuple(L) + (Lit((v,)),) + tuple(R))
    def append(self, v): touch(self); self.segs = _norm(self.segs + (Lit((byte_of(v),)),))
    def extend(self, v): touch(self); self.segs = _norm(self.segs + tuple(VBytes._conv(v)))
    def __iadd__(self, v): self.extend(v); return self
    def __add__(self, o): return VByteArray(VBytes._mk(self.segs + to_vbytes(o).segs))
    def __iter__(self): return iter(self._b())
    def __eq__(self, o):
        o = to_vbytes(o)
        return NotImplemented if o is None else rope_eq(self._b(), o)
    def __ne__(self, o): return mkbool(znot(VByteArray.__eq__(self, o)))
    __hash__ = None
    def reverse(self): touch(self); self.segs = self._b()._reversed().segs
    def insert(self, i, v):
        touch(self)
        L, R = seg_split(self.segs, i); self.segs = _norm(tuple(L) + (Lit((byte_of(v),)),) + tuple(R))
    def pop(self, i=-1):
        b = self._b(); n = b.length()
        if truth(n == 0): raise IndexError('pop from empty bytearray')
        v = b[i]
        if truth(i < 0): i = i + n
        L, R = seg_split(self.segs, i); _, R = seg_split(R, 1)
        touch(self); self.segs = _norm(tuple(L) + tuple(R)); return v
    def __getattr__(self, name):
        if hasattr(builtins.bytearray, name): raise Unsupported('bytearray.%s' % name)
        raise AttributeError(name)

class VBytesIO:
    """io.BytesIO: `done` has been read/written up to the position, `rest` follows"""
    def __init__(self, x=None):
        self.done = (); self.rest = tuple(VBytes._conv(x)) if x is not None else ()
        register(self)
    def read(self, n=-1):
        # a vector is read element by element
        while self.rest and type(self.rest[0]) is USeg and self.rest[0].key.startswith('vec'):
            self.rest = _norm(tuple(self.rest[0].unfold()) + tuple(self.rest[1:]))
        if n is None or (not is_sym(n) and n < 0) or (is_sym(n) and truth(n < 0)):
            r = self.rest; self.rest = ()
        else:
            m = seg_len(self.rest)
            # a buffer is shorter than 2**63 bytes, and nothing longer can be asked for
            if is_sym(n):
                if is_sym(m): cur().assume(zb(m < 2**63))
                if truth(n >= 2**63): raise OverflowError("cannot fit 'int' into an index-sized integer")
            elif n >= 2**63: raise OverflowError("cannot fit 'int' into an index-sized integer")
            if truth(n >= m): r = self.rest; self.rest = ()
            else:
                L, R = seg_split(self.rest, n); r = tuple(L); self.rest = tuple(R)
        touch(self)
        self.done = _norm(self.done + tuple(r))
        return VBytes._mk(r)
    def write(self, b):
        v = to_vbytes(b)
        if v is None: raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        touch(self)
        n = v.length()
        if self.rest:
            m = seg_len(self.rest)
            if truth(n >= m): self.rest = ()
            else: self.rest = tuple(seg_split(self.rest, n)[1])
        self.done = _norm(self.done + v.segs)
        return n
    def getvalue(self): return VBytes._mk(tuple(self.done) + tuple(self.rest))
    def getbuffer(self): return self.getvalue()
    def tell(self): return seg_len(self.done)
    def remaining(self): return VBytes._mk(self.rest)
    def seek(self, pos, whence=0):
        allv = tuple(self.done) + tuple(self.rest)
        if whence == 1: pos = self.tell() + pos
        elif whence == 2: pos = seg_len(allv) + pos
        if truth(pos > seg_len(allv)): raise Unsupported('seek past the end')
        L, R = seg_split(allv, pos); self.done, self.rest = tuple(L), tuple(R); touch(self)
        return pos
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, name):
        import io
        if hasattr(io.BytesIO, name): raise Unsupported('BytesIO.%s' % name)
        raise AttributeError(name)

# ---------------------------------------------------------------- strings
class VStr:
    """a symbolic text string of known length (code points)"""
    __class__ = property(lambda s: str)
    def __init__(self, codes): self.c = tuple(codes)
    @staticmethod
    def _from_bytes(b): return VStr(b.bytelist())
    @staticmethod
    def of(x):
        if type(x) is VStr: return x
        if isinstance(x, str): return VStr(ord(ch) for ch in x)
        return None
    def simp(self):
        if not any(is_sym(c) for c in self.c): return ''.join(map(chr, self.c))
        return self
    def length(self): return len(self.c)
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __add__(self, o):
        o = VStr.of(o); return NotImplemented if o is None else VStr(self.c + o.c).simp()
    def __radd__(self, o):
        o = VStr.of(o); return NotImplemented if o is None else VStr(o.c + self.c).simp()
    def __mul__(self, k): return VStr(self.c * concretize(k)).simp()
    __rmul__ = __mul__
    def __eq__(self, o):
        o = VStr.of(o)
        if o is None: return NotImplemented
        if len(o.c) != len(self.c): return False
        return mkbool(zand(*[zb(x == y) for x, y in zip(self.c, o.c)]))
    def __ne__(self, o):
        r = VStr.__eq__(self, o); return r if r is NotImplemented else mkbool(znot(r))
    def __hash__(self): return hash(''.join(chr(concretize(c)) for c in self.c))
    def __getitem__(self, i):
        if isinstance(i, slice): return VStr(self.c[i]).simp()
        return VStr((self.c[concretize(i)],)).simp()
    def __iter__(self):
        for c in self.c: yield VStr((c,)).simp()
    def encode(self, *a, **k):
        for c in self.c:
            if not known(c < 128): raise Unsupported('encode of non-ASCII')
        return VBytes._lit(self.c)
    def startswith(self, p):
        p = VStr.of(p); return len(p.c) <= len(self.c) and VStr(self.c[:len(p.c)]) == p
    def __repr__(self): return "'<sym str>'"
    def __str__(self): return '<sym str>'
    def __format__(self, spec): return '<sym str>'
    def __getattr__(self, name):
        if hasattr(str, name): raise Unsupported('str.%s' % name)
        raise AttributeError(name)

def str_char(s, i):
    """s[i] for a constant string and a symbolic index, without forking"""
    codes = sorted((k, ord(ch)) for k, ch in enumerate(s))
    t = z3.IntVal(codes[-1][1])
    for k, c in codes[-2::-1]: t = z3.If(i.t == k, z3.IntVal(c), t)
    cs = [c for _, c in codes]
    r = mk(t, min(cs), max(cs))
    if type(r) is SInt: r.src = ('char', s, i)
    return VStr((r,)).simp()
def char_index(s, ch):
    """s.index(ch) for a constant string and a symbolic character"""
    x = ch.c[0]
    if type(x) is SInt and x.src is not None and x.src[0] == 'char' and x.src[1] == s and len(set(s)) == len(s): return x.src[2]
    if not truth(zor(*[zb(x == ord(k)) for k in set(s)])): raise ValueError('substring not found')
    t = z3.IntVal(s.index(s[-1]))
    for k in s[::-1]: t = z3.If(zt(x) == ord(k), z3.IntVal(s.index(k)), t)
    return mk(t, 0, len(s) - 1)

class VText:
    """a text of symbolic length: a sequence of code points"""
    __class__ = property(lambda s: str)
    def __init__(self, segs): self.segs = _norm(segs)
    @staticmethod
    def of(x):
        if type(x) is VText: return x
        v = VStr.of(x) if isinstance(x, str) and type(x) is not VHex else None
        return None if v is None else VText((Lit(v.c),) if v.c else ())
    @staticmethod
    def repeat(s, n):
        """a character n times"""
        if truth(n <= 0): return ''
        return VText((Sub(ConstBase(ord(s)), 0, n),))
    @staticmethod
    def joined(l):
        """''.join of a list of characters"""
        def code(x):
            v = VStr.of(x)
            if v is None or len(v.c) != 1: raise Unsupported('joining texts')
            return v.c[0]
        out = []
        for s in l.segs:
            if type(s) is Lit: out.append(Lit(c for x in s.v for c in VStr.of(x).c))
            else: out.append(Sub(GenBase((lambda b: lambda i: code(b.at(i)))(s.base)), s.off, s.n))
        return VText(out)
    def length(self): return seg_len(self.segs)
    def __len__(self): return concretize(self.length(), what='length of a text')
    def __bool__(self): return truth(self.length() != 0)
    def __add__(self, o):
        o = VText.of(o); return NotImplemented if o is None else VText(self.segs + o.segs)
    def __radd__(self, o):
        o = VText.of(o); return NotImplemented if o is None else VText(o.segs + self.segs)
    def __getitem__(self, i):
        if isinstance(i, slice):
            r = SList(segs=self.segs)[i]
            return VText(r.segs)
        return VStr((seg_at(self.segs, SList(segs=self.segs)._idx(i, 'string')),)).simp()
    def __iter__(self): raise Unsupported('iterating over a text of symbolic length')
    def __eq__(self, o):
        o = VText.of(o)
        if o is None: return NotImplemented
        if not truth(self.length() == o.length()): return False
        return mkbool(segs_eq(self.segs, o.segs, lambda x, y: zb(x == y), False))
    def __ne__(self, o):
        r = self.__eq__(o); return r if r is NotImplemented else mkbool(znot(r))
    def __hash__(self): raise Unsupported('hash of a text')
    def __repr__(self): return "'<sym text>'"
    def __str__(self): return '<sym text>'
    def __format__(self, spec): return '<sym text>'
    def __getattr__(self, name):
        if hasattr(str, name): raise Unsupported('str.%s' % name)
        raise AttributeError(name)

class BEBase(Base):
    """the bytes of a positive number, most significant first"""
    def __init__(self, v): self.v = v; self.n = nbytes(v)[0]
    def at(self, i):
        p = cur(); j = self.n - 1 - i
        r = shr8(self.v, j) - 256 * shr8(self.v, j + 1)
        p.add(z3.And(zt(r) >= 0, zt(r) <= 255))
        return SInt(zt(r), 0, 255)
def be_bytes(v):
    """the shortest big-endian form of v (none of zero)"""
    if not is_sym(v): return VBytes._lit(int(v).to_bytes((int(v).bit_length() + 7) // 8, 'big'))
    if truth(v == 0): return VBytes._lit(())
    d = cur().aux.setdefault('bebase', [])
    for b in d:
        if known(b.v == v): return VBytes._mk((Sub(b, 0, b.n),))
    d.append(BEBase(v))
    return VBytes._mk((Sub(d[-1], 0, d[-1].n),))
def be_value(b):
    """the number with these big-endian bytes"""
    R = list(b.segs)
    while R:
        s = R[0]
        if type(s) is Lit and all(type(x) is int and x == 0 for x in s.v): R.pop(0)
        elif type(s) is Sub and type(s.base) is ConstBase and type(s.base.v) is int and s.base.v == 0: R.pop(0)
        else: break
    if not R: return 0
    if len(R) == 1 and type(R[0]) is Sub and type(R[0].base) is BEBase and _same_int(R[0].off, 0) and known(R[0].n == R[0].base.n): return R[0].base.v
    return None
def hex_of_int(n):
    """'%x' % n"""
    if not is_sym(n): return '%x' % n
    if truth(n < 0): raise Unsupported('hexadecimal text of a negative number')
    if truth(n == 0): return '0'
    top = nbytes(n)[1]
    b = be_bytes(n)
    return VHex(b, skip=1 if truth(top < 16) else 0)

class VHex:
    """text (or ASCII bytes) of the hexadecimal digits of a byte string of unknown length"""
    def __init__(self, b, pre='', kind=str, skip=0): self.b = b; self.pre = pre; self.kind = kind; self.skip = skip      # skip: without its first digit, which is 0
    __class__ = property(lambda s: s.kind)
    def length(self): return len(self.pre) + 2 * self.b.length() - self.skip
    def __len__(self): return concretize(self.length())
    def __bool__(self): return truth(self.length() != 0)
    def decode(self, *a, **k):
        if self.kind is str: raise AttributeError("'str' object has no attribute 'decode'")
        return VHex(self.b, self.pre, str, self.skip)
    def encode(self, *a, **k):
        if self.kind is not str: raise AttributeError("'bytes' object has no attribute 'encode'")
        return VHex(self.b, self.pre, builtins.bytes, self.skip)
    def __radd__(self, o):
        if type(o) is str and self.kind is str:
            if self.skip and not self.pre and o[-1:] == '0': return VHex(self.b, o[:-1])
            return VHex(self.b, o + self.pre, str, self.skip)
        return NotImplemented
    def __eq__(self, o):
        if type(o) is VHex:
            if o.kind is not self.kind: return False
            if o.skip != self.skip: raise Unsupported('comparing hexadecimal texts')
            if o.pre == self.pre: return rope_eq(self.b, o.b)
            raise Unsupported('comparing hexadecimal texts')
        if self.kind is str and isinstance(o, str) and not self.pre and not self.skip:
            v = VStr.of(o)
            if len(v.c) % 2: return False
            if not truth(self.length() == len(v.c)): return False
            try: return rope_eq(self.b, binascii_unhexlify(v))
            except ValueError: return False
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o); return r if r is NotImplemented else mkbool(znot(r))
    def __hash__(self): raise Unsupported('hash of a hexadecimal text')
    def __iter__(self): raise Unsupported('iterating over a hexadecimal text')
    def __getitem__(self, i): raise Unsupported('indexing a hexadecimal text')
    def __repr__(self): return "'<hex>'"
    __str__ = __repr__
    def __getattr__(self, name):
        if hasattr(self.kind, name): raise Unsupported('%s.%s' % (self.kind.__name__, name))
        raise AttributeError(name)

class VDec:
    """a decimal number: t / 10**e, exact as long as its digits fit the precision of the decimal context"""
    def __init__(self, t, e): self.t = t; self.e = e
    def __class__(self): raise Unsupported('class of a decimal number')
    def __mul__(self, k):
        if not is_intlike(k): raise Unsupported('product with a decimal number')
        r = self.t * k
        if not known(zand(r < 10**27, r > -10**27)): raise Unsupported('a decimal product that may be rounded')
        return VDec(r, self.e)
    __rmul__ = __mul__
    def trunc(self):
        m = 10**self.e
        if truth(self.t >= 0): return self.t // m
        return -((-self.t) // m)
    def __bool__(self): return truth(self.t != 0)
    def __getattr__(self, name): raise Unsupported('decimal.%s' % name)
    def _no(self, *a): raise Unsupported('arithmetic of decimal numbers')
    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __float__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __round__ = __int__ = __neg__ = __abs__ = _no
    __hash__ = None
    __repr__ = __str__ = lambda s: '<decimal>'

class SFloat:
    """the floating point number nearest to n / d"""
    __class__ = property(lambda s: float)
    def __init__(self, n, d): self.n = n; self.d = d
    def nearest(self, n, d): return mkbool(zand(zb(self.n == n), self.d == d))
    def __truediv__(self, k):
        if self.d == 1 and type(k) is int and 0 < k <= 1 << 53: return SFloat(self.n, k)
        raise Unsupported('floating point division')
    def _no(self, *a): raise Unsupported('floating point arithmetic')
    def __getattr__(self, name): raise Unsupported('float.%s' % name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __rtruediv__ = __floordiv__ = __mod__ = __float__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __round__ = __int__ = __bool__ = _no
    __hash__ = None
    __repr__ = __str__ = lambda s: '<float>'
def to_float(x):
    if type(x) is SInt:
        if not known(zand(x <= 1 << 53, x >= -(1 << 53))): raise Unsupported('float() of an integer that may be rounded')
        return SFloat(x, 1)
    if isinstance(x, (VBytes, VStr, VHex)) or type(x) is VDec: raise Unsupported('float()')
    return x if type(x) is SFloat else float(x)

def binascii_hexlify(b):
    b = to_vbytes(b)
    if b.is_const():
        import binascii
        return VBytes._lit(binascii.hexlify(b.const()))
    if is_sym(b.length()): return VHex(b, '', builtins.bytes)
    out = []
    for x in b.bytelist():
        if not is_sym(x):
            out.extend(b'%02x' % x); continue
        for nib in (x // 16, x % 16):
            r = ite(nib < 10, nib + 48, nib + 87)
            r.src = ('hex', x, nib) if type(r) is SInt else None
            out.append(r)
    return VBytes._lit(out)

def binascii_unhexlify(h):
    import binascii
    if type(h) is VHex:
        if h.pre: raise Unsupported('a hexadecimal text with a prefix')
        if h.skip: raise binascii.Error('Odd-length string')
        return h.b
    if isinstance(h, str) and type(h) is not VStr:
        return VBytes._lit(binascii.unhexlify(h))
    if type(h) is VStr: h = h.encode()
    b = to_vbytes(h)
    if b.is_const(): return VBytes._lit(binascii.unhexlify(b.const()))
    bl = b.bytelist()
    if len(bl) % 2: raise binascii.Error('Odd-length string')
    vals = []
    for c in bl:
        src = c.src if type(c) is SInt else None
        if src and src[0] == 'hex': vals.append(src[2]); continue
        if truth(zand(c >= 48, c <= 57)): vals.append(c - 48)
        elif truth(zand(c >= 97, c <= 102)): vals.append(c - 87)
        elif truth(zand(c >= 65, c <= 70)): vals.append(c - 55)
        else: raise binascii.Error('Non-hexadecimal digit found')
    out = []
    for k in range(0, len(vals), 2):
        s1 = bl[k].src if type(bl[k]) is SInt else None
        s2 = bl[k+1].src if type(bl[k+1]) is SInt else None
        if s1 and s2 and s1[0] == 'hex' and s2[0] == 'hex' and s1[1] is s2[1]: out.append(s1[1])
        else: out.append(byte_of(vals[k] * 16 + vals[k+1]))
    return VBytes._lit(out)

# ---------------------------------------------------------------- lists
class SList:
    """list/tuple whose length may be symbolic"""
    def __init__(self, items=(), kind=list, segs=None):
        self.kind = kind
        self.segs = tuple(segs) if segs is not None else ((Lit(items),) if items else ())
        if kind is list: register(self)
        else: self.version = 0
    __class__ = property(lambda s: s.kind)
    def length(self): return seg_len(self.segs)
    def __len__(self): return concretize(self.length(), what='list length')
    def __bool__(self): return truth(self.length() != 0)
    def native(self):
        return all(type(s) is Lit for s in self.segs)
    def items(self):
        if not self.native(): raise Unsupported('explicit items of a symbolic list')
        return [e for s in self.segs for e in s.v]
    def copy(self, kind=None): return SList(kind=kind or self.kind, segs=self.segs)
    def _idx(self, i, what='list'):
        if not is_intlike(i):
            raise TypeError('%s indices must be integers or slices, not %s' % (what, type(i).__name__))
        n = self.length()
        if truth(i < 0): i = i + n
        if not truth(zand(i >= 0, i < n)): raise IndexError('%s index out of range' % what)
        return i
    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self.length()
            if i.step is not None and not (not is_sym(i.step) and i.step == 1):
                if not is_sym(i.step) and i.step == -1 and i.start is None and i.stop is None:
                    return SList(kind=self.kind, segs=_norm([Lit(s.v[::-1]) if type(s) is Lit else _rev_sub(s)
                                                             for s in reversed(self.segs)]))
                if not self.native():
                    start, stop, step = slice_indices(i, n)
                    m = (stop - start + (step - 1)) // step if truth(step > 0) else (start - stop + (-step - 1)) // -step
                    m = imax(m, 0)
                    whole = self.segs
                    return SList(kind=self.kind, segs=_norm((Sub(GenBase(lambda j: seg_at(whole, start + j * step)), 0, m),)))
                its = self.items()
                return SList(its[slice(*[None if v is None else concretize(v) for v in (i.start, i.stop, i.step)])], kind=self.kind)
            a = clamp_index(i.start, n, 0); b = clamp_index(i.stop, n, n)
            if b is not n and truth(b <= a): return SList(kind=self.kind)
            _, R = seg_split(self.segs, a)
            L, _ = seg_split(R, b - a)
            return SList(kind=self.kind, segs=_norm(L))
        return seg_at(self.segs, self._idx(i))
    def __setitem__(self, i, v):
        if self.kind is tuple: raise TypeError("'tuple' object does not support item assignment")
        touch(self)
        if isinstance(i, slice):
            n = self.length()
            if i.step is not None and i.step != 1: raise Unsupported('extended slice assignment')
            a = clamp_index(i.start, n, 0); b = clamp_index(i.stop, n, n)
            if truth(b < a): b = a
            L, R = seg_split(self.segs, a); _, R = seg_split(R, b - a)
            self.segs = _norm(tuple(L) + tuple(as_slist(v).segs) + tuple(R)); return
        i = self._idx(i, 'list assignment')
        L, R = seg_split(self.segs, i); _, R = seg_split(R, 1)
        self.segs = _norm(tuple(L) + (Lit((v,)),) + tuple(R))
    def __delitem__(self, i):
        touch(self)
        if isinstance(i, slice): self[i] = (); return
        i = self._idx(i, 'list assignment')
        L, R = seg_split(self.segs, i); _, R = seg_split(R, 1)
        self.segs = _norm(tuple(L) + tuple(R))
    def __iter__(self):
        i = 0
        while truth(i < self.length()):
            yield seg_at(self.segs, i)
            i += 1
            if i > 2000 : raise Unsupported('iteration over a symbolic list')
    def __reversed__(self): return iter(self[::-1])
    def _mut(self, name):
        if self.kind is not list: raise AttributeError("'tuple' object has no attribute %r" % name)
        touch(self)
    def append(self, v): self._mut('append'); self.segs = _norm(self.segs + (Lit((v,)),))
    def extend(self, v): self._mut('extend'); self.segs = _norm(self.segs + as_slist(v).segs)
    def pop(self, i=-1):
        self._mut('pop')
        n = self.length()
        if truth(n == 0): raise IndexError('pop from empty list')
        if truth(i < 0): i = i + n
        if not truth(zand(i >= 0, i < n)): raise IndexError('pop index out of range')
        L, R = seg_split(self.segs, i); X, R = seg_split(R, 1)
        v = seg_at(X, 0)
        self.segs = _norm(tuple(L) + tuple(R))
        return v
    def insert(self, i, v):
        self._mut('insert')
        n = self.length(); i = clamp_index(i, n, n)
        L, R = seg_split(self.segs, i)
        self.segs = _norm(tuple(L) + (Lit((v,)),) + tuple(R))
    def reverse(self): self._mut('reverse'); self.segs = self[::-1].segs
    def clear(self): self._mut('clear'); self.segs = ()
    def remove(self, v):
        self._mut('remove')
        for k, e in enumerate(self.items()):
            if truth(e == v): del self[k]; return
        raise ValueError('list.remove(x): x not in list')
    def index(self, v):
        for k, e in enumerate(self.items()):
            if truth(e == v): return k
        raise ValueError('not in list')
    def count(self, v):
        if self.native():
            r = 0
            for e in self.items():
                c = e == v
                r = r + (c if type(c) is SBool else int(bool(c)))
            return r
        k = ('count', tuple(id(s) for s in self.segs))
        f = cur().aux.get('list_count')
        if f: return f(self, v)
        raise Unsupported('list.count on a symbolic list')
    def sort(self, **k):
        its = sorted(self.items(), **k); self._mut('sort'); self.segs = (Lit(its),) if its else ()
    def __contains__(self, v): return truth(list_contains(self, v))
    def __add__(self, o):
        if not isinstance(o, self.kind): return NotImplemented
        return SList(kind=self.kind, segs=_norm(self.segs + as_slist(o).segs))
    def __radd__(self, o):
        if not isinstance(o, self.kind): return NotImplemented
        return SList(kind=self.kind, segs=_norm(as_slist(o).segs + self.segs))
    def __iadd__(self, o):
        if self.kind is list: self.extend(o); return self
        return self + o
    def __mul__(self, k):
        if is_sym(k) and self.native() and len(self.items()) == 1:
            if truth(k <= 0): return SList(kind=self.kind)
            return SList(kind=self.kind, segs=(Sub(ConstBase(self.items()[0]), 0, k),))
        return SList(self.items() * concretize(k), kind=self.kind)
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, self.kind): return NotImplemented
        return list_eq(self, as_slist(o))
    def __ne__(self, o):
        r = SList.__eq__(self, o); return r if r is NotImplemented else mkbool(znot(r))
    def __lt__(self, o): return self._cmp(o, True) if isinstance(o, self.kind) else NotImplemented
    def __le__(self, o): return self._cmp(o, False) if isinstance(o, self.kind) else NotImplemented
    def __gt__(self, o): return as_slist(o)._cmp(self, True) if isinstance(o, self.kind) else NotImplemented
    def __ge__(self, o): return as_slist(o)._cmp(self, False) if isinstance(o, self.kind) else NotImplemented
    def _cmp(self, o, strict):
        o = as_slist(o)
        if not (self.native() and o.native()): return lexicographic(self, o, strict)
        a, b = self.items(), o.items()
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))): r = zor(zb(x < y), zand(zb(x == y), r))
        return mkbool(r)
    def __hash__(self):
        if self.kind is list: raise TypeError("unhashable type: 'list'")
        return hash(tuple(self.items()))
    def __repr__(self): return '[<sym list>]' if not self.native() else repr(self.items())
    def __getattr__(self, name):
        if hasattr(list, name): raise Unsupported('list.%s' % name)
        raise AttributeError("'%s' object has no attribute %r" % (self.kind.__name__, name))

def slice_indices(o, n):
    """slice.indices on symbolic bounds"""
    step = 1 if o.step is None else o.step
    if is_sym(step):
        if truth(step == 0): raise ValueError('slice step cannot be zero')
    elif step == 0: raise ValueError('slice step cannot be zero')
    if truth(step > 0):
        return (clamp_index(o.start, n, 0), clamp_index(o.stop, n, n), step)
    def low(i, d):
        if i is None: return d
        if truth(i < 0):
            i = i + n
            return i if truth(i >= 0) else -1
        return n - 1 if truth(i >= n) else i
    return (low(o.start, n - 1), low(o.stop, -1), step)

def lexicographic(a, b, strict):
    """order of two sequences by the first difference the contract named (c.first_difference)"""
    p = cur(); la, lb = a.length(), b.length()
    for A, B, d in p.aux.get('firstdiff', ()):
        for x, y in ((A, B), (B, A)):
            if known(la == x.length()) and known(lb == y.length()):
                n = imin(la, lb)
                if p.choose(2) == 0:
                    # lemma: they agree up to there
                    j = p.fresh_nat('j', 0)
                    p.assume_checked(zand(j >= 0, j < d))
                    p.assume(zb(A[j] == B[j]))
                    p.check('sequences compared agree before the first difference', zb(a[j] == b[j]), kind='lemma')
                    raise PathStop()
                if truth(d < n):
                    u, v = a[d], b[d]
                    p.check('sequences compared differ at the first difference', znot(zb(u == v)), kind='lemma')
                    return mkbool(zb(u < v))
                return (la < lb) if strict else (la <= lb)
    raise Unsupported('ordering of symbolic sequences')

VGen = None     # set by world
def as_slist(x):
    if type(x) is SList: return x
    if isinstance(x, SIter): return x.to_slist()
    if type(x) is VGen: return x.whole()
    if plain_bytes(x) or type(x) is VByteArray:
        segs = []
        work = list(x.segs)
        while work:
            s = work.pop(0)
            if type(s) is USeg: work[0:0] = s.unfold()
            else: segs.append(s)
        return SList(kind=tuple, segs=segs)
    return SList(tuple(x), kind=tuple)

def list_contains(lst, v):
    if type(lst) is SList and not lst.native():
        f = cur().aux.get('list_contains')
        if f is not None: return f(lst, v)
        raise Unsupported('membership in a symbolic list')
    its = lst.items() if type(lst) is SList else list(lst)
    cs = []
    for e in its:
        if e is v: return True
        c = e == v
        if c is NotImplemented: continue
        c = zb(c)
        if c is True: return True if not cs else mkbool(zor(*cs, True))
        cs.append(c)
    return mkbool(zor(*cs))

def list_eq(a, b):
    if not truth(a.length() == b.length()): return False
    return mkbool(segs_eq(a.segs, b.segs, lambda x, y: zb(x == y), False))

class SIter:
    """lazy iterable over a possibly symbolic sequence"""
    end = None          # what happens after the last element (an exception, say)
    source = None       # what enumerate() goes through
    def __init__(self, n, at, end=None, source=None):
        self.n = n; self.at = at; self.pos = 0
        if end is not None: self.end = end
        if source is not None: self.source = source
    def length(self): return self.n
    def to_slist(self):
        if self.end is not None: self.end()
        if is_sym(self.n):
            return SList(kind=tuple, segs=(Sub(GenBase(self.at), 0, self.n),))
        return SList(tuple(self.at(i) for i in range(self.n)), kind=tuple)
    def __iter__(self): return self
    def __next__(self):
        if truth(self.pos < self.n):
            v = self.at(self.pos); self.pos += 1
            if self.pos > 2000: raise Unsupported('iteration over a symbolic sequence')
            return v
        if self.end is not None: self.end()
        raise StopIteration

class SRange(SIter):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if is_sym(step): raise Unsupported('range step')
        if step > 0: n = (stop - start + (step - 1)) // step
        else: n = (start - stop + (-step - 1)) // (-step)
        n = imax(n, 0) if is_sym(n) else max(n, 0)
        super().__init__(n, lambda i: start + i * step)
    __class__ = property(lambda s: range)
    def __iter__(self): return SIter(self.n, self.at)
    def __len__(self): return concretize(self.n)
    def __getitem__(self, i): return self.at(i)
    def __contains__(self, v): return truth(zand(v >= self.start, v < self.stop)) if self.step == 1 else any(truth(x == v) for x in self)

class SSet:
    """set with symbolic membership"""
    def __init__(self, items=(), kind=set):
        self.kind = kind; self.elems = []; register(self); self.ghost = None
        if items is not None:
            for x in items: self._add(x)
            self.version = 0
    __class__ = property(lambda s: s.kind)
    def _add(self, x):
        if self.ghost is None and truth(list_contains(self.elems, x)): return
        self.elems.append(x)
    def add(self, x):
        touch(self)
        if self.ghost is not None: self.ghost.add(x); return
        self._add(x)
    def discard(self, x):
        touch(self)
        for k, e in enumerate(self.elems):
            if truth(e == x): del self.elems[k]; return
    def remove(self, x):
        n = len(self.elems); self.discard(x)
        if len(self.elems) == n: raise KeyError(x)
    def contains(self, x):
        if self.ghost is not None: return self.ghost.contains(x)
        return list_contains(self.elems, x)
    def __contains__(self, x): return truth(self.contains(x))
    def length(self):
        if self.ghost is not None: raise Unsupported('size of a symbolic set')
        return len(self.elems)
    def __len__(self): return self.length()
    def __bool__(self): return self.length() > 0
    def __iter__(self):
        if self.ghost is not None: raise Unsupported('iteration over a symbolic set')
        return iter(list(self.elems))
    def __eq__(self, o): return len(self) == len(o) and all(x in o for x in self)
    def __or__(self, o):
        r = SSet(self.elems, self.kind)
        for x in o: r._add(x)
        return r
    def update(self, *os):
        for o in os:
            for x in o: self.add(x)
    def issubset(self, o): 
        o = o if type(o) is SSet else SSet(o)
        return all(truth(o.contains(x)) for x in self)
    def __le__(self, o): return self.issubset(o)
    def __sub__(self, o): return SSet([x for x in self if not truth(o.contains(x) if type(o) is SSet else list_contains(list(o), x))], self.kind)
    def __and__(self, o): return SSet([x for x in self if truth(o.contains(x) if type(o) is SSet else list_contains(list(o), x))], self.kind)
    union = __or__; intersection = __and__; difference = __sub__
    def copy(self): return SSet(self.elems, self.kind)
    def clear(self): touch(self); self.elems = []
    def __hash__(self): raise Unsupported('hash of set')
    def __getattr__(self, name):
        if hasattr(set, name): raise Unsupported('set.%s' % name)
        raise AttributeError(name)
