"""Specification functions, in both modes: plain Python on concrete values, encodings unfolded on demand on symbolic ones."""
import z3
from . import core, sym
from .core import cur, Unsupported
from .sym import *

# ---- LEB128: enc(v) = [v] if v < 128 else [v % 128 + 128] ++ enc(v // 128)
LEBLEN = z3.Function('leblen', z3.IntSort(), z3.IntSort())

def leb128(v):
    if not is_sym(v):
        v = int(v); out = bytearray()
        while True:
            if v < 128: out.append(v); return bytes(out)
            out.append(v % 128 + 128); v //= 128
def leb_useg(v):
    t = zt(v)
    p = cur()
    k = ('leblen', t.get_id())
    if k not in p.aux:
        p.aux[k] = t
        p.add(z3.And(LEBLEN(t) >= 1, z3.Implies(t < 128, LEBLEN(t) == 1), z3.Implies(t >= 128, LEBLEN(t) == 1 + LEBLEN(t / 128)),
                     z3.Implies(t >= 128, LEBLEN(t / 128) >= 1)))
    def unfold():
        if truth(v < 128): return [Lit((byte_of(v),))]
        q = p.fresh_int('q'); r = p.fresh_int('r')
        p.add(z3.And(t == 128 * q + r, r >= 0, r < 128, q >= 1, q == t / 128, r == t % 128))
        return [Lit((SInt(r, 0, 127) + 128,)), leb_useg(SInt(q, 1))]
    return USeg('leb', v if is_sym(v) else int(v), SInt(LEBLEN(t), 1), unfold)
def leb_sym(v):
    if not is_sym(v): return VBytes._lit(leb128(v))
    if v.hi is not None and v.hi < 128 and v.lo is not None and v.lo >= 0: return VBytes._lit((v,))
    return VBytes._mk((leb_useg(v),))

# ---- callee contracts of the proof stream primitives (proved by C01), used by their callers
def model_write_varuint(w, orig):
    def write_varuint(self, value):
        if not is_intlike(value) or not known(value >= 0): return orig(self, value)
        self.fd.write(leb_sym(value))
    return write_varuint
def model_read_varuint(w, orig):
    def read_varuint(self):
        fd = self.fd
        s = fd.rest[0] if fd.rest else None
        if type(s) is USeg and s.key == 'leb':
            fd.read(s.n)
            return s.arg
        return orig(self)
    return read_varuint
VARUINT = [('proofmarshal.serialize:StreamSerializationContext.write_varuint', model_write_varuint),
           ('proofmarshal.serialize:StreamDeserializationContext.read_varuint', model_read_varuint)]

def vec_key(objs):
    p = cur(); objs = as_slist(objs)
    d = p.aux.setdefault('veckeys', {})
    # identifies the elements: where they come from (the objects named by the key are kept)
    k = tuple((id(s.base), str(z3.simplify(zt(s.off))), str(z3.simplify(zt(s.n)))) if type(s) is Sub else (id(s),) for s in objs.segs)
    if k not in d: d[k] = (len(d), [getattr(s, 'base', s) for s in objs.segs])
    return 'obj%d' % d[k][0]

# ---- vectors: concatenation of the encodings of the items from k on
class Vec:
    """enc(items[k]) ++ enc(items[k+1]) ++ ... ++ enc(items[n-1]), optionally cut short inside item `cut`"""
    def __init__(self, key, items, enc, cut=None, cutpos=None):
        self.key = key; self.items = as_slist(items); self.enc = enc; self.n = self.items.length()
        self.cut = cut; self.cutpos = cutpos
        self.F = z3.Function('veclen:' + key, z3.IntSort(), z3.IntSort())
        self.cache = {}
    def elem(self, k):
        t = z3.simplify(zt(k))
        if t.get_id() not in self.cache: self.cache[t.get_id()] = (t, to_vbytes(self.enc(self.items[k])))
        return self.cache[t.get_id()][1]
    def end(self): return self.n if self.cut is None else self.cut
    def at(self, k):
        """the encoding from item k on, one segment"""
        p = cur(); t = zt(k); f = self.F(t)
        kk = ('veclen', self.key, t.get_id())
        if kk not in p.aux:
            p.aux[kk] = t
            p.add(f >= 0)
            if self.cut is None: p.add(z3.Implies(t >= zt(self.n), f == 0))
        def unfold():
            if truth(k < self.end()):
                e = self.elem(k); rest = self.at(k + 1)
                p.add(f == zt(e.length()) + zt(rest.length()))
                return list(e.segs) + list(rest.segs)
            if self.cut is not None:
                e = self.elem(k)[:self.cutpos]
                p.add(f == zt(e.length()))
                return list(e.segs)
            p.add(f == 0)
            return []
        def same(o):
            if known(mkbool(zb(k == o.arg))): return True
            raise Unsupported('comparison of two positions of a vector')
        s = USeg('vec:' + self.key, k, SInt(f, 0), unfold, same)
        s.vec = self
        return VBytes._mk((s,))

    def cut_at(self, k, p):
        """split after p bytes (0 < p < length): some item j contains the cut"""
        c = cur()
        j = c.fresh_nat('cutitem', 0); q = c.fresh_nat('cutpos', 0)
        c.assume(zand(j >= k, j < self.n))
        e = self.elem(j)
        c.assume(q < e.length())
        v = Vec('%s.%s' % (self.key, c.fresh('prefix')), self.items, self.enc, j, q)
        s = v.at(k).segs[0]
        c.add(s.n.t == zt(p))
        def nope(): raise Unsupported('the rest of a vector that was cut')
        return s, USeg('rest', (self.key, p), SInt(zt(self.at(k).length()) - zt(p), 0), nope, None)

def vec_by_parts(key, items, enc):
    """the encodings of a list some of whose elements are given: those are encoded now, the others stay vectors"""
    out = VBytes._mk(())
    for s in as_slist(items).segs:
        if type(s) is Lit:
            for x in s.v: out = out + to_vbytes(enc(x))
        else:
            l = SList(segs=(s,)); out = out + Vec(key + vec_key(l), l, enc).at(0)
    return out
def by_parts(objs): return cur().aux.get('by_parts') and any(type(s) is Lit for s in as_slist(objs).segs)

class ConcVec:
    def __init__(self, key, items, enc): self.items = items; self.enc = enc
    def whole(self): return b''.join(self.enc(x) for x in self.items)

# ---- an arbitrary element: known only by its (abstract) encoding
class Elem:
    def __init__(self, k):
        self.k = k
        t = zt(k); f = z3.Function('elemlen', z3.IntSort(), z3.IntSort())(t)
        cur().add(f >= 0)
        self.n = SInt(f, 0)
        self.enc = VBytes._mk((USeg('elem', k, self.n, lambda: [ElemPart(self, 0, self.n)]),))
    def __eq__(self, o): return self.k == o.k if isinstance(o, Elem) else NotImplemented
    __hash__ = None
class ElemPart(Sub):
    """bytes of an element"""
    __slots__ = ('elem',)
    def __init__(self, elem, off, n):
        self.elem = elem
        Sub.__init__(self, SymBase('elembytes', (zt(elem.k),)), off, n)
    def cut(self, p): return ElemPart(self.elem, self.off, p), ElemPart(self.elem, self.off + p, self.n - p)
def take_elem(f):
    """read one element: (element, True), or (None, False) if the stream ends inside it"""
    if not f.rest: return None, False
    s = f.rest[0]
    if type(s) is USeg and s.key.startswith('vec'):
        f.rest = tuple(s.unfold()) + tuple(f.rest[1:])
        return take_elem(f)
    if type(s) is USeg and s.key == 'elem':
        f.read(s.n); return Elem(s.arg), True
    if type(s) is ElemPart and len(f.rest) == 1 and known(s.off == 0): 
        if known(s.n < s.elem.n): return None, False
    raise Unsupported('the stream does not continue with an element (%s)' % type(s).__name__)

# ---- compact sizes
def compact_sym(n):
    t = zt(n)
    ln = SInt(z3.If(t < 0xfd, z3.IntVal(1), z3.If(t <= 0xffff, z3.IntVal(3), z3.If(t <= 0xffffffff, z3.IntVal(5), z3.IntVal(9)))), 1, 9)
    def unfold():
        if truth(n < 0xfd): return [Lit((byte_of(n),))]
        if truth(n <= 0xffff): return [Lit([0xfd] + int_bytes_le(n, 2, False))]
        if truth(n <= 0xffffffff): return [Lit([0xfe] + int_bytes_le(n, 4, False))]
        return [Lit([0xff] + int_bytes_le(n, 8, False))]
    return VBytes._mk((USeg('compact', n, ln, unfold),))
def varint_ser_model(w, orig):
    orig = orig.__func__
    def stream_serialize(cls, i, f):
        if is_sym(i) and known(zand(i >= 0, i < 2**64)): f.write(compact_sym(i))
        else: orig(cls, i, f)
    return classmethod(stream_serialize)
def varint_deser_model(w, orig):
    orig = orig.__func__
    def stream_deserialize(cls, f):
        s = f.rest[0] if f.rest else None
        if type(s) is USeg and s.key == 'compact':
            f.done = tuple(f.done) + (s,); f.rest = tuple(f.rest[1:]); touch(f)
            return s.arg
        return orig(cls, f)
    return classmethod(stream_deserialize)
COMPACT = [('bitcoin.core.serialize:VarIntSerializer.stream_serialize', varint_ser_model),
           ('bitcoin.core.serialize:VarIntSerializer.stream_deserialize', varint_deser_model)]

# ---- merkle trees: leaves, then level by level the hashes of adjacent pairs, the last element of an odd level paired with itself
MLEVEL = z3.Function('mlevel', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
class MerkleTree:
    """the tree over a list of hashes of any length; mlevel(j, s): a level of s nodes starts at index j"""
    def __init__(self, leaves):
        self.leaves = as_slist(leaves); self.n = self.leaves.length(); self.cur = None
        p = cur()
        self.id = p.aux['trees'] = p.aux.get('trees', 0) + 1
        self.base = GenBase(self.at); self.cache = {}
        p.add(self._lv(0, self.n))
    def _lv(self, j, s): return MLEVEL(z3.IntVal(self.id), zt(j), zt(s))
    def is_level(self, j, s): return mkbool(self._lv(j, s))
    def step(self, j, s):
        """definition of the level after (j, s)"""
        cur().add(z3.Implies(z3.And(self._lv(j, s), zt(s) > 1), self._lv(j + s, (s + 1) // 2)))
    def only_empty(self, j, s): return mkbool(zor(zand(self.n > 0, s >= 1), zand(self.n == 0, s == 0, j == 0)))
    def level(self, j, s): self.cur = (j, s)
    def at(self, p):
        if truth(p < self.n): return seg_at(self.leaves.segs, p)
        if self.cur:
            j, s = self.cur; lo = j + s
            if truth(zand(p >= lo, p < lo + (s + 1) // 2)):
                i = p - lo
                k = 2 * i + 1
                if not truth(k <= s - 1): k = s - 1
                from .world import digest
                return digest('sha256', digest('sha256', self.at(j + 2 * i) + self.at(j + k)))
        t = z3.simplify(zt(p))
        if t.get_id() not in self.cache:
            self.cache[t.get_id()] = (t, VBytes._mk((Sub(SymBase('node%d' % self.id, (t,)), 0, 32),)))
        return self.cache[t.get_id()][1]
    def nodes(self, m): return SList(segs=(Sub(self.base, 0, m),))
    def complete(self, m):
        return mkbool(zor(zand(self.n == 0, m == 0), zand(self.n > 0, m >= 1, self._lv(m - 1, 1))))
class ConcMerkleTree:
    def __init__(self, leaves):
        import hashlib
        H = lambda b: hashlib.sha256(hashlib.sha256(b).digest()).digest()
        self.t = level = list(leaves)
        self.t = list(level)
        while len(level) > 1:
            if len(level) % 2: level = level + [level[-1]]
            level = [H(level[k] + level[k + 1]) for k in range(0, len(level), 2)]
            self.t += level
    def nodes(self, m): return self.t[:m]
    def complete(self, m): return m == len(self.t)
