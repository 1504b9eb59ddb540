"""Contracts: one text, executed symbolically (proof) and concretely (replay, bounded search)."""
import zlib
import os, sys, json, random, builtins, importlib, hashlib as _hashlib, traceback
from . import core, sym, loops, world
from .core import Unsupported, PathStop, Infeasible, EngineExc
from .loops import LoopSpec, Poison
from .world import BULK
from . import specs
from .specs import VARUINT, COMPACT, Elem, take_elem
import z3

REGISTRY = []
LOOPS = {}

class Contract:
    def __init__(self, prop, name, fn, **kw):
        self.prop = prop; self.name = name; self.fn = fn
        self.cuts = kw.pop('cuts', ())
        self.models = kw.pop('models', ())
        self.samples = kw.pop('samples', 300)
        self.sym = kw.pop('sym', True)
        self.conc = kw.pop('conc', True)
        self.timeout = kw.pop('timeout', 60)
        self.tmax = kw.pop('tmax', 420)
        self.query_ms = kw.pop('query_ms', 8000)
        self.parts = kw.pop('parts', None)
        self.max_paths = kw.pop('max_paths', 20000)
        self.bounded = kw.pop('bounded', None)      # text of the bound, when not a proof
        self.weight = kw.pop('weight', 1)
        assert not kw, kw

def contract(prop, name, **kw):
    def deco(fn):
        REGISTRY.append(Contract(prop, name, fn, **kw))
        return fn
    return deco

def loop(key):
    def deco(cls):
        LOOPS[key] = cls
        return cls
    return deco

class Skip(Exception):
    """the drawn input is outside the contract's precondition"""
class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__('%s %s' % (label, detail)); self.label = label; self.detail = detail

# ------------------------------------------------------------ shared
def short(x, n=200):
    try: r = repr(x)
    except Exception as e: r = '<%s>' % type(x).__name__
    return r if len(r) <= n else r[:n] + '...'

class Base:
    symbolic = False
    part = None
    def opt(self, name, mk):
        """None or a value"""
        return mk() if self.bool(name) else None

class SymCtx(Base):
    symbolic = True
    def __init__(self, w, prefix='', idx=(), part=None):
        self.w = w; self.prefix = prefix; self.idx = tuple(idx); self.part = part
    # inputs
    def _sym(self, name):
        full = self.prefix + name
        if not self.idx: return z3.Int(full)
        return z3.Function(full, *([z3.IntSort()] * (len(self.idx) + 1)))(*self.idx)
    def int(self, name, lo=None, hi=None):
        t = self._sym(name)
        p = core.cur()
        k = ('in', t.get_id())
        if k not in p.aux:
            p.aux[k] = t
            if lo is not None: p.add(t >= sym.zt(lo))
            if hi is not None: p.add(t <= sym.zt(hi))
        if isinstance(lo, int) and isinstance(hi, int) and type(lo) is int and type(hi) is int and lo == hi: return lo
        return sym.SInt(t, lo if type(lo) is int else None, hi if type(hi) is int else None)
    def bool(self, name):
        return self.choice(name, (False, True))
    def symbool(self, name):
        return sym.mkbool(self._sym(name) != 0)
    def choice(self, name, options):
        options = list(options)
        if self.idx:
            k = sym.concretize(self.int(name, 0, len(options) - 1))
        else:
            p = core.cur()
            k = p.inputs.get(self.prefix + name)
            if k is None:
                k = p.choose(len(options))
                p.inputs[self.prefix + name] = k
        return options[k]
    small = False
    def _len(self, name, lo, hi, most):
        n = self.int(name, lo, hi)
        if not SymCtx.small or type(lo) is not int or not sym.is_sym(n) or self.idx: return n
        # the search for a failing input after a failed proof: only short ones
        k = lo + core.cur().choose(most)
        core.cur().add(n.t == k)
        if type(hi) is int and k > hi: raise PathStop()
        return k
    def bytes(self, name, lo=0, hi=None, n=None):
        if n is None: n = self._len(name + '.len', lo, hi, 6)
        base = sym.SymBase(self.prefix + name, self.idx)
        return sym.VBytes._mk((sym.Sub(base, 0, n),))
    def bitbytes(self, name, n):
        """n bytes whose single bits are looked at"""
        return sym.VBytes._mk((sym.Sub(sym.BitBase(self.prefix + name, self.idx), 0, n),))
    def bytes_in(self, name, blo, bhi, lo=0, hi=None):
        """a byte string all of whose bytes lie in blo..bhi"""
        n = self._len(name + '.len', lo, hi, 6)
        base = RangeBase(self.prefix + name, self.idx); base.lo, base.hi = blo, bhi
        return sym.VBytes._mk((sym.Sub(base, 0, n),))
    def list(self, name, fn, lo=0, hi=None, kind=tuple, n=None):
        if n is None: n = self._len(name + '.len', lo, hi, 4)
        def make(i):
            sub = SymCtx(self.w, self.prefix + name + '[].', self.idx + (z3.simplify(sym.zt(i)),), self.part)
            return fn(sub, i)
        at = sym.ElemCache(make)
        s = sym.SList(kind=kind, segs=(sym.Sub(InputBase(at), 0, n),) if sym.is_sym(n) or n else ())
        return s
    def items(self, name, fn, lo, hi, kind=builtins.list):
        """a list of case-split concrete length lo..hi"""
        n = self.choice(name + '.n', range(lo, hi + 1))
        return kind(fn(SymCtx(self.w, '%s%s[%d].' % (self.prefix, name, k), self.idx, self.part), k) for k in range(n))
    def shared(self, a, b):
        """how many leading elements two sequences have in common because they are one and the same piece"""
        x, y = sym.as_slist(a), sym.as_slist(b); n = 0
        p, q = builtins.list(x.segs), builtins.list(y.segs)
        while p and q and type(p[0]) is sym.Sub and type(q[0]) is sym.Sub:
            s, t = p[0], q[0]
            if sym.known(s.n == 0): p.pop(0); continue
            if sym.known(t.n == 0): q.pop(0); continue
            if s.base is not t.base or not sym._same_int(s.off, t.off) and not sym.known(s.off == t.off): break
            if sym._same_int(s.n, t.n) or sym.known(s.n == t.n): n = n + s.n; p.pop(0); q.pop(0)
            elif sym.truth(s.n <= t.n):
                n = n + s.n; q[0] = sym.Sub(t.base, t.off + s.n, t.n - s.n); p.pop(0)
            else: n = n + t.n; p[0] = sym.Sub(s.base, s.off + t.n, s.n - t.n); q.pop(0)
        return n
    def unsupported(self, what): raise Unsupported(what)
    def indexed(self, name, j):
        """inputs that depend on an index"""
        return SymCtx(self.w, self.prefix + name + '.', self.idx + (z3.simplify(sym.zt(j)),), self.part)
    def sub(self, name): return SymCtx(self.w, self.prefix + name + '.', self.idx, self.part)
    # claims
    def assume(self, cond):
        core.cur().assume_checked(core.zbool(sym.zb(cond)))
    def check(self, label, cond, detail=''):
        core.cur().check(label, sym.zb(cond), kind='post')
    def any(self, label, conds):
        """at least one of the conditions holds"""
        for x in conds:
            if sym.known(sym.mkbool(sym.zb(x))): core.cur().check(label, True, kind='post'); return
        self.check(label, self.either(*conds))
    def word(self, label, a, b):
        """equality of two 32 bit words"""
        core.cur().check(label, sym.zb(sym.same_word(a, b)), kind='lemma')
    def lemma(self, label, cond):
        core.cur().check(label, sym.zb(cond), kind='lemma')
    def eq(self, label, a, b):
        check_eq(label, a, b)
    def deep_eq(self, a, b): return sym.mkbool(deq(a, b))
    def fail(self, label, detail=''):
        p = core.cur()
        p.ex.notes.append('%s: %s' % (label, detail))
        p.check(label, False, kind='unexpected')
    def returns(self, label, fn, *a, **k):
        try: return fn(*a, **k)
        except PathStop: raise
        except Exception as e:
            self.fail(label + ': no exception', '%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
            raise PathStop()
    def raises(self, label, exc, fn, *a, **k):
        try: r = fn(*a, **k)
        except exc as e:
            core.cur().check(label, True)
            return e
        except Exception as e:
            self.fail(label, 'raised %s instead: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
        else:
            core.cur().ex.notes.append('%s: returned normally' % label)
            core.cur().check(label, False, kind='post')
        raise PathStop()
    def catch(self, exc, fn, *a, **k):
        """(value, None) or (None, exception); other exceptions propagate"""
        try: return fn(*a, **k), None
        except exc as e: return None, e
    def finding(self, fid, what): raise PathStop()
    def mod(self, name): return self.w.load(name)
    def implies(self, a, b): return sym.mkbool(sym.zimplies(a, b))
    def both(self, *xs): return sym.mkbool(sym.zand(*xs))
    def either(self, *xs): return sym.mkbool(sym.zor(*xs))
    def neg(self, x): return sym.mkbool(sym.znot(x))
    # helpers used by specifications
    def sha256(self, b): return world.digest('sha256', sym.VBytes(b))
    def ripemd160(self, b): return world.digest('ripemd160', sym.VBytes(b))
    def hash256(self, b): return self.sha256(self.sha256(b))
    def hash160(self, b): return self.ripemd160(self.sha256(b))
    def le(self, v, n, signed=False): return sym.VBytes._lit(sym.int_bytes_le(v, n, signed))
    def from_le(self, b, signed=False): return sym.int_from_le(b.bytelist(), signed)
    def native(self, b): return sym.VBytes._lit(b)
    def iff(self, a, b): return sym.mkbool(sym.zand(sym.zimplies(a, b), sym.zimplies(b, a)))
    def openssl(self):
        """bitcoin.core.key over a model of libcrypto, whose state is returned"""
        from . import openssl
        saved, core.CUR = core.CUR, None
        try: openssl.install(self.w)
        finally: core.CUR = saved
        return openssl.model()
    def hex(self, b): return sym.binascii_hexlify(b).decode('utf8')
    def raw(self, b):
        """plain bytes of a bytes subclass"""
        v = sym.to_vbytes(b); return sym.VBytes._mk(v.segs)
    def same(self, a, b):
        """equality of two byte strings"""
        return sym.mkbool(sym.zb(sym.rope_eq(sym.to_vbytes(a), sym.to_vbytes(b))))
    def each(self, label, a, b, fn):
        """same length, and fn(c, label, x, y) for each pair of elements"""
        p = core.cur()
        A, B = sym.as_slist(a), sym.as_slist(b)
        p.check(label + ' (length)', sym.zb(A.length() == B.length()))
        if A.native() and B.native():
            for x, y in zip(A.items(), B.items()): fn(self, label, x, y)
        elif p.choose(2) == 0:
            j = p.fresh_nat('elem', 0)
            p.assume_checked(sym.zand(j >= 0, j < A.length()))
            fn(self, label, A[j], B[j])
            raise PathStop()
    def leb128(self, v): return specs.leb_sym(v)
    def merkle_tree(self, leaves):
        t = specs.MerkleTree(leaves); self.ghost(tree=t)
        return t
    def witness(self, key):
        """index of the element a loop was working on when it was left"""
        l = core.cur().aux.get('loops', {}).get(key)
        return None if l is None or l.phase == 0 else l.k - 1
    def set_hit(self, key, name):
        """index of the earlier element a membership test found"""
        l = core.cur().aux.get('loops', {}).get(key)
        if l is None: return None
        s = l.loc.get(name)
        return s.ghost.hit if s is not None and s.ghost is not None else None
    def lt(self, a, b): return sym.truth(a < b)
    def loop(self, key): return core.cur().aux.get('loops', {}).get(key)
    def steps(self, *keys):
        """the contract itself takes one element from generators whose loop is cut"""
        core.cur().aux.setdefault('steps', set()).update(keys)
    def script_ops(self, script, ops, tail, enc):
        from . import symtools
        o = symtools.Ops(ops, tail, enc)
        symtools.tag(script, o)
        return o
    def band(self, x, y, v):
        """an instance of the lemma on powers of two: x & y == v"""
        if not sym.is_sym(x) and not sym.is_sym(y): self.lemma('bitwise and', (x & y) == v); return
        a, b = z3.simplify(sym.zt(x)), z3.simplify(sym.zt(y))
        core.cur().add(z3.And(sym.BAND(a, b) == sym.zt(v), sym.BAND(b, a) == sym.zt(v)))
    def band_lemma(self):
        """(q * 2**j) & 2**j is 2**j when q is odd, 0 when it is even (values below 2**65)"""
        s = z3.Solver(); q, j = z3.BitVecs('q j', 72); one = z3.BitVecVal(1, 72)
        s.add(z3.ULT(j, 65), z3.LShR(q << j, j) == q, ((q << j) & (one << j)) != ((q & one) << j))
        core.cur().check('lemma on powers of two', s.check() == z3.unsat, kind='lemma')
    def sequence(self, name, lo, hi):
        """a ghost sequence of integers"""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        def at(k):
            t = f(z3.simplify(sym.zt(k))); core.cur().add(z3.And(t >= lo, t <= hi))
            return sym.SInt(t, lo, hi)
        return at
    def expansion(self, name, radix):
        """the digits of an arbitrary number (ghosts)"""
        from . import symtools
        return symtools.Expansion(name, radix, self.choice(name + '.positive', (True, False)))
    def any_text(self, name, lo=0, n=None):
        """an arbitrary text (code points up to 0x10ffff)"""
        if n is None: n = self.int(name + '.len', lo)
        f = z3.Function(name + '.char', z3.IntSort(), z3.IntSort())
        def at(i):
            t = f(z3.simplify(sym.zt(i))); core.cur().add(z3.And(t >= 0, t <= 0x10ffff))
            return sym.SInt(t, 0, 0x10ffff)
        return sym.VText((sym.Sub(sym.GenBase(at), 0, n),))
    def table_text(self, name, table, n):
        """n characters, each from a table"""
        d = self.sequence(name, 0, len(table) - 1)
        return sym.VText((sym.Sub(sym.GenBase(lambda i: sym.VStr.of(sym.str_char(table, d(i))).c[0]), 0, n),))
    def text_cat(self, *parts):
        r = sym.VText(())
        for x in parts: r = r + x
        return r
    def text_eq(self, label, a, b):
        A, B = sym.VText.of(a), sym.VText.of(b)
        if A is None: self.check(label + ' is a text', False); raise PathStop()
        self.check(label + ': length', A.length() == B.length())
        i = self.int('char', 0); self.assume(i < A.length())
        self.check(label + ': every character', A[i] == B[i])
    def relation(self, name):
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return lambda a, b: sym.mkbool(f(z3.simplify(sym.zt(a)), z3.simplify(sym.zt(b))))
    def define(self, fact):
        """an instance of a ghost definition"""
        core.cur().add(core.zbool(sym.zb(fact)))
    def new_bytes(self, name):
        from . import symtools
        return symtools.fresh_bytes(name)
    def any_op(self, script, n, one, tail):
        from . import symtools
        symtools.tag(script, symtools.AnyOp(n, one, tail))
    def set_op(self, script, one, tail):
        from . import symtools
        o = symtools.tag_of(script); o.one = one; o.tail = tail
    def gen_list(self, n, fn, kind=list):
        """the list of fn(0) .. fn(n - 1)"""
        if not sym.is_sym(n): return sym.SList([fn(k) for k in range(n)], kind=kind)
        return sym.SList(kind=kind, segs=(sym.Sub(sym.GenBase(sym.ElemCache(fn)), 0, n),))
    def first_difference(self, a, b, d):
        """sequences a and b agree before d, and differ at d unless one of them ends there"""
        core.cur().aux.setdefault('firstdiff', []).append((a, b, d))
    def handed_out(self, l):
        """(index, element) for the elements of a gen_list that have been looked at"""
        s = l.segs[0]
        if len(l.segs) != 1 or not sym.known(s.off == 0): raise Unsupported('elements of a list that was changed')
        return s.base.fn.values()
    def snapshot(self, *roots): return (roots, sym.snapshot(roots))
    def unchanged(self, snap):
        roots, s = snap
        if sym.changed(s): return False
        # elements of symbolic lists, since they were first looked at
        todo = list(roots); seen = set()
        while todo:
            v = todo.pop()
            if id(v) in seen: continue
            seen.add(id(v))
            if type(v) is sym.SList:
                for g in v.segs:
                    if type(g) is sym.Sub:
                        at = getattr(g.base, '_at', None) or getattr(g.base, 'fn', None)
                        if type(at) is sym.ElemCache and builtins.any(sym.changed(b) for b in at.born): return False
            todo.extend(sym.reach(v))
        return True
    def digest(self, alg, b): return world.digest(alg, sym.VBytes(b))
    def running_sum(self, at, n):
        from . import symtools
        return symtools.RunningSum(at, n)
    def ghosts(self): return core.cur().aux.setdefault('ghost', {})
    def tag(self, obj, sub, *extra):
        """remember an object's place in its list"""
        from . import symtools
        symtools.tag(obj, tuple(z3.IntVal(x) for x in extra) + tuple(sub.idx))
    def opaque_bool(self, name, obj):
        from . import symtools
        return symtools.opaque_bool(name, obj)
    def last_tree(self): return core.cur().aux['treecalls'][-1]
    def tree_size(self, t): return t.size
    def ghost(self, **kw): core.cur().aux.setdefault('ghost', {}).update(kw)
    def remaining(self, fd): return fd.remaining()
    def split(self, *conds):
        """case split on conditions"""
        for k, x in enumerate(conds):
            if sym.truth(x): return k
        return len(conds)
    def note(self, *a):
        if os.environ.get("VF_DBG"): sys.stdout.write(" ".join(map(str, a))[:1500] + "\n")
    def shr8(self, v, m): return sym.shr8(v, m)
    def nbytes(self, v): return sym.nbytes(v)[0] if sym.is_sym(v) else (int(v).bit_length() + 7) // 8
    def compact(self, n):
        # Bitcoin compact size
        if sym.is_sym(n): return specs.compact_sym(n)
        if n < 0xfd: return sym.VBytes._lit((n,))
        if n <= 0xffff: return sym.VBytes._lit((0xfd,)) + self.le(n, 2)
        if n <= 0xffffffff: return sym.VBytes._lit((0xfe,)) + self.le(n, 4)
        return sym.VBytes._lit((0xff,)) + self.le(n, 8)
    def pieces(self, rope):
        """the list of pieces that a byte string was joined of"""
        b = sym.to_vbytes(rope)
        if not b.segs: return sym.SList([])
        v = getattr(b.segs[0], 'vec', None) if len(b.segs) == 1 else None
        if v is None or not sym.known(b.segs[0].arg == 0): raise Unsupported('not a joined sequence: %r' % (b.segs,))
        return sym.SList(segs=tuple(v.items.segs))
    def vec(self, key, items, enc):
        """a vector: .whole() is the concatenation of the encodings of its items"""
        items = sym.as_slist(items)
        if items.native():
            whole = sym.VBytes._mk(())
            for x in items.items(): whole = whole + enc(x)
            v = specs.ConcVec(key, items, enc); v.whole = lambda: whole
            return v
        if specs.by_parts(items):
            whole = specs.vec_by_parts(key + ':', items, enc)
            v = specs.ConcVec(key, items, enc); v.whole = lambda: whole
            return v
        v = specs.Vec(key + ':' + specs.vec_key(items), items, enc)
        v.whole = lambda: v.at(0)
        return v
    def by_parts(self):
        """elements that are given are encoded when the list is, so that they may change afterwards"""
        core.cur().aux['by_parts'] = True
    def vec_prefix(self, key, items, enc):
        """an arbitrary proper prefix of the concatenation, cut inside item j; needs an item"""
        n = sym.as_slist(items).length()
        j = self.int(key + '.cut', 0); self.assume(j < n)
        q = self.int(key + '.cutpos', 0)
        v = specs.Vec(key + '.prefix:' + specs.vec_key(items), items, enc, j, q)
        self.assume(q < v.elem(j).length())
        v.whole = lambda: v.at(0)
        return v

class RangeBase(sym.SymBase):
    def at(self, i):
        b = super().at(i)
        core.cur().add(z3.And(b.t >= self.lo, b.t <= self.hi))
        return sym.SInt(b.t, self.lo, self.hi)

class InputBase(sym.Base):
    def __init__(self, at): self._at = at
    def at(self, i): return self._at(i)

def deq(a, b):
    """deep equality -> bool or z3"""
    if a is b: return True
    if sym.is_intlike(a) and sym.is_intlike(b) : return sym.zb(sym.i_cmp(a, b, '==')) if sym.is_sym(a) or sym.is_sym(b) else a == b
    va, vb = sym.to_vbytes(a), sym.to_vbytes(b)
    if va is not None and vb is not None: return sym.zb(sym.rope_eq(va, vb))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        A, B = sym.as_slist(a), sym.as_slist(b)
        if A.native() and B.native():
            x, y = A.items(), B.items()
            if len(x) != len(y): return False
            return sym.zand(*[deq(p, q) for p, q in zip(x, y)])
        if not sym.truth(A.length() == B.length()): return False
        return sym.segs_eq(A.segs, B.segs, deq, False)
    r = a == b
    return sym.zb(r)

def check_eq(label, a, b):
    p = core.cur()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        A, B = sym.as_slist(a), sym.as_slist(b)
        if not (A.native() and B.native()):
            p.check(label + ' (length)', sym.zb(A.length() == B.length()))
            if p.choose(2) == 0:
                j = p.fresh_nat('elem', 0)
                p.assume_checked(sym.zand(j >= 0, j < A.length()))
                check_eq(label + ' (element)', A[j], B[j])
                raise PathStop()
            return
        x, y = A.items(), B.items()
        if len(x) != len(y): p.check(label + ' (length)', False); return
        for q, r in zip(x, y): check_eq(label, q, r)
        if not x: p.check(label, True)
        return
    va, vb = sym.to_vbytes(a), sym.to_vbytes(b)
    if va is not None and vb is not None:
        ka, kb = [[s for s in x.segs if type(s) is sym.USeg and hasattr(s, 'vec')] for x in (va, vb)]
        if ka and len(ka) == len(kb):
            sa = list(va.segs)
            for x, y in zip(ka, kb):
                if x.key == y.key: continue
                # two vectors with the same elements have the same encoding
                if not (sym.known(x.arg == 0) and sym.known(y.arg == 0)): break
                p.check(label + ' (vector length)', sym.zb(x.vec.end() == y.vec.end()))
                if p.choose(2) == 0:
                    j = p.fresh_nat('elem', 0)
                    p.assume_checked(sym.zand(j >= 0, j < x.vec.end()))
                    check_eq(label + ' (element)', x.vec.elem(j), y.vec.elem(j))
                    raise PathStop()
                sa[[i for i, s in enumerate(sa) if s is x][0]] = y
            a = sym.VBytes._mk(tuple(sa)); b = vb
            va, vb = sym.to_vbytes(a), sym.to_vbytes(b)
        if len(va.segs) == 1 and len(vb.segs) == 1:
            x, y = va.segs[0], vb.segs[0]
            if type(x) is type(y) is sym.Sub and isinstance(x.base, sym.DigestBase) and isinstance(y.base, sym.DigestBase) and x.base is not y.base \
               and x.base.alg == y.base.alg and all(sym._same_int(s.off, 0) and sym._same_int(s.n, s.base.n) for s in (x, y)):
                # same hash function: same argument
                return check_eq(label + ' (pre-image)', x.base.arg, y.base.arg)
    p.check(label, deq(a, b))

# ------------------------------------------------------------ concrete
def mined_constants():
    import ast
    out = set()
    for r in ('lib/python-bitcoinlib/bitcoin', 'lib/python-proofmarshal/proofmarshal', 'proofchains'):
        for d, _, fs in os.walk(os.path.join(world.REPO, r)):
            if 'test' in d: continue
            for f in fs:
                if f.endswith('.py'):
                    try: t = ast.parse(open(os.path.join(d, f), encoding='utf8').read())
                    except SyntaxError: continue
                    for n in ast.walk(t):
                        if isinstance(n, ast.Constant) and type(n.value) is int: out.add(n.value)
    return sorted(out)
_mined = None
EDGE = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 75, 76, 77, 79, 80, 81, 127, 128, 129, 252, 253, 254, 255, 256, 257, 511, 512, 519, 520, 521,
        0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
        2**53, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**255, 2**256 - 1]

# the proof library takes values of the very class int or bytes, the bitcoin library those of subclasses too
ODD = False
class OddBytes(bytes): __slots__ = ()
class OddInt(int): __slots__ = ()

class ConcCtx(Base):
    """draws inputs from a random source, a z3 model, or a recording"""
    def __init__(self, source, prefix='', idx=(), part=None, log=None):
        self.s = source; self.prefix = prefix; self.idx = tuple(idx); self.part = part
        self.log = log if log is not None else {}
    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        raise Unsupported('c.%s: only for proofs' % name)
    def _full(self, name):
        full = self.prefix + name
        return full + ''.join('[%d]' % i for i in self.idx)
    def int(self, name, lo=None, hi=None):
        v = self.s.int(self, self.prefix + name, self.idx, lo, hi)
        self.log[self._full(name)] = v
        return self._odd(name, v, b'%d' % v, OddInt)
    def bool(self, name): return self.choice(name, (False, True))
    def symbool(self, name): return bool(self.int(name, 0, 1))
    def choice(self, name, options):
        options = list(options)
        k = self.s.choice(self, self.prefix + name, self.idx, len(options))
        self.log[self._full(name)] = k
        return options[k]
    def bitbytes(self, name, n): return self.bytes(name, n=n)
    def bytes(self, name, lo=0, hi=None, n=None):
        if n is None:
            n = self.s.length(self, self.prefix + name + '.len', self.idx, lo, hi)
            self.log[self._full(name + '.len')] = n
        v = self.s.bytes(self, self.prefix + name, self.idx, n)
        self.log[self._full(name)] = v.hex()
        return self._odd(name, v, v, OddBytes)
    def _odd(self, name, v, key, cls):
        """now and then a value of a subclass, where the library takes those"""
        return cls(v) if ODD and zlib.crc32(key, zlib.crc32((self.prefix + name).encode())) % 7 == 0 else v
    def bytes_in(self, name, blo, bhi, lo=0, hi=None):
        b = self.bytes(name, lo, hi)
        b = bytes(blo + x % (bhi - blo + 1) if not blo <= x <= bhi else x for x in b)
        self.log[self._full(name)] = b.hex()
        return b
    def list(self, name, fn, lo=0, hi=None, kind=tuple, n=None):
        if n is None: n = self.s.listlen(self, self.prefix + name + '.len', self.idx, lo, hi)
        self.log[self._full(name + '.len')] = n
        return kind(fn(ConcCtx(self.s, self.prefix + name + '[].', self.idx + (i,), self.part, self.log), i) for i in range(n))
    def items(self, name, fn, lo, hi, kind=builtins.list):
        n = self.choice(name + '.n', range(lo, hi + 1))
        return kind(fn(ConcCtx(self.s, '%s%s[%d].' % (self.prefix, name, k), self.idx, self.part, self.log), k) for k in range(n))
    def sub(self, name): return ConcCtx(self.s, self.prefix + name + '.', self.idx, self.part, self.log)
    def assume(self, cond):
        if not cond: raise Skip()
    def check(self, label, cond, detail=''):
        self.s.checks += 1
        if not cond: raise CheckFailed(label, detail)
    lemma = check
    def any(self, label, conds): self.check(label, builtins.any(conds))
    def eq(self, label, a, b):
        self.s.checks += 1
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): raise CheckFailed(label, 'lengths %d and %d' % (len(a), len(b)))
            for x, y in zip(a, b): self.eq(label, x, y)
            return
        if not (a == b): raise CheckFailed(label, '%s != %s' % (short(a), short(b)))
    def deep_eq(self, a, b): return a == b
    def fail(self, label, detail=''): raise CheckFailed(label, detail)
    def returns(self, label, fn, *a, **k):
        self.s.checks += 1
        try: return fn(*a, **k)
        except (Skip, CheckFailed): raise
        except Exception as e: raise CheckFailed(label + ': no exception', 'raised %s: %s' % (type(e).__name__, e))
    def raises(self, label, exc, fn, *a, **k):
        self.s.checks += 1
        try: r = fn(*a, **k)
        except (Skip, CheckFailed): raise
        except exc as e: return e
        except Exception as e: raise CheckFailed(label, 'raised %s instead: %s' % (type(e).__name__, e))
        raise CheckFailed(label, 'returned %s' % short(r))
    def catch(self, exc, fn, *a, **k):
        try: return fn(*a, **k), None
        except exc as e: return None, e
    def finding(self, fid, what):
        self.s.findings[fid] = what
    def mod(self, name): return importlib.import_module(name)
    def implies(self, a, b): return (not a) or bool(b)
    def both(self, *xs): return all(xs)
    def either(self, *xs): return any(xs)
    def neg(self, x): return not x
    def sha256(self, b): return _hashlib.sha256(b).digest()
    def ripemd160(self, b): return _hashlib.new('ripemd160', b).digest()
    def hash256(self, b): return self.sha256(self.sha256(b))
    def hash160(self, b): return self.ripemd160(self.sha256(b))
    def le(self, v, n, signed=False): return v.to_bytes(n, 'little', signed=signed)
    def from_le(self, b, signed=False): return int.from_bytes(b, 'little', signed=signed)
    def native(self, b): return b
    def openssl(self): pass
    def same(self, a, b): return a == b
    def iff(self, a, b): return bool(a) == bool(b)
    def hex(self, b): return b.hex()
    def raw(self, b): return bytes(b)
    def each(self, label, a, b, fn):
        if len(a) != len(b): raise CheckFailed(label, 'lengths %d and %d' % (len(a), len(b)))
        for x, y in zip(a, b): fn(self, label, x, y)
    def leb128(self, v): return specs.leb128(v)
    def gen_list(self, n, fn, kind=builtins.list): return kind(fn(k) for k in range(n))
    def first_difference(self, a, b, d): pass
    def band(self, x, y, v): self.check('bitwise and', (x & y) == v)
    def shared(self, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return n
    def unsupported(self, what): raise Skip()
    def band_lemma(self): pass
    def snapshot(self, *roots): return sym.snapshot(roots)
    def unchanged(self, snap): return not sym.changed(snap)
    def merkle_tree(self, leaves): return specs.ConcMerkleTree(leaves)
    def lt(self, a, b): return a < b
    def steps(self, *keys): pass
    def tree_size(self, t): return len(t.t)
    def ghost(self, **kw): pass
    def expansion(self, name, radix):
        from . import symtools
        k = self.choice(name + '.bytes', (0, 1, 1, 2, 3, 8, 20, 25, 25, 60))
        return symtools.ConcExpansion(int.from_bytes(self.bytes(name, n=k), 'big'), radix)
    def any_text(self, name, lo=0, n=None):
        return ''.join(chr(self.choice('%s[%d]' % (name, k), (48, 73, 79, 108, 0, 32, 49, 65, 122, 127, 233, 0x661, 0x1d7d9, 0xff11))) for k in range(self.int(name + '.len', lo, 12) if n is None else n))
    def table_text(self, name, table, n): return ''.join(table[self.int('%s[%d]' % (name, k), 0, len(table) - 1)] for k in range(n))
    def text_cat(self, *parts): return ''.join(parts)
    def text_eq(self, label, a, b): self.eq(label, a, b)
    def remaining(self, fd):
        p = fd.tell(); r = fd.read(); fd.seek(p); return r
    def split(self, *conds):
        for k, x in enumerate(conds):
            if x: return k
        return len(conds)
    def note(self, *a):
        if os.environ.get("VF_DBG"): sys.stdout.write(" ".join(map(str, a))[:1500] + "\n")
    def shr8(self, v, m): return v >> (8 * m)
    def nbytes(self, v): return (v.bit_length() + 7) // 8
    def compact(self, n):
        if n < 0xfd: return bytes([n])
        if n <= 0xffff: return b'\xfd' + n.to_bytes(2, 'little')
        if n <= 0xffffffff: return b'\xfe' + n.to_bytes(4, 'little')
        return b'\xff' + n.to_bytes(8, 'little')
    def vec(self, key, items, enc): return specs.ConcVec(key, items, enc)
    def by_parts(self): pass
    def vec_prefix(self, key, items, enc):
        if not items: raise Skip()
        j = self.int(key + '.cut', 0, len(items) - 1)
        e = enc(items[j])
        q = self.int(key + '.cutpos', 0, len(e) - 1)
        v = specs.ConcVec(key, items, enc); cut = b''.join(enc(x) for x in items[:j]) + e[:q]
        v.whole = lambda: cut
        return v

class Source:
    def __init__(self): self.checks = 0; self.findings = {}

class RandomSource(Source):
    def __init__(self, seed, scale=1.0):
        super().__init__(); self.r = random.Random(seed); self.scale = scale
        global _mined
        if _mined is None: _mined = mined_constants()
    def int(self, c, name, idx, lo, hi):
        r = self.r
        L = lo if lo is not None else -(2**80); H = hi if hi is not None else 2**80
        if H < L: raise Skip()
        u = r.random()
        if u < 0.25:
            v = r.choice((L, L + 1, H, H - 1, L + 2, H - 2))
        elif u < 0.5:
            v = r.choice(EDGE) * (-1 if L < 0 and r.random() < .4 else 1)
        elif u < 0.6:
            v = r.choice(_mined) + r.choice((-1, 0, 0, 1))
        elif u < 0.75: v = r.randint(max(L, -300), min(H, 300)) if max(L, -300) <= min(H, 300) else L
        elif u < 0.9:
            b = r.randrange(0, max(H.bit_length(), L.bit_length()) + 1)
            v = r.getrandbits(b) if b else 0
            if L < 0 and r.random() < .5: v = -v
        else: v = r.randint(L, H)
        if not L <= v <= H: v = r.randint(L, H)
        return v
    def choice(self, c, name, idx, n): return self.r.randrange(n)
    def length(self, c, name, idx, lo, hi):
        r = self.r
        H = hi if hi is not None else 700
        u = r.random()
        if u < .25: v = r.choice((lo, lo + 1, H, H - 1)) if hi is not None else r.choice((lo, lo + 1))
        elif u < .45: v = r.choice((0, 1, 2, 20, 31, 32, 33, 64, 65, 75, 76, 80, 252, 253, 255, 256, 520))
        else: v = lo + int(r.random() ** 3 * 40)
        if not lo <= v <= H: v = lo + r.randrange(0, min(H - lo, 40) + 1)
        return v
    def bytes(self, c, name, idx, n):
        r = self.r
        u = r.random()
        if u < .1: return bytes(n)
        if u < .2: return b'\xff' * n
        if u < .3: return bytes(r.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))
        return r.randbytes(n)
    def listlen(self, c, name, idx, lo, hi):
        r = self.r
        H = hi if hi is not None else 40
        u = r.random()
        if u < .55: v = lo + r.randrange(0, 4)
        elif u < .85: v = lo + r.randrange(0, 10)
        else: v = lo + r.randrange(0, 34)
        return min(v, H)

class ModelSource(Source):
    """values of the counterexample found by the solver"""
    def __init__(self, model, choices):
        super().__init__(); self.m = model; self.choices = choices
    def _eval(self, name, idx):
        if not idx: t = z3.Int(name)
        else: t = z3.Function(name, *([z3.IntSort()] * (len(idx) + 1)))(*[z3.IntVal(i) for i in idx])
        return self.m.eval(t, model_completion=True).as_long()
    def int(self, c, name, idx, lo, hi):
        v = self._eval(name, idx)
        if lo is not None and v < lo: v = lo
        if hi is not None and v > hi: v = hi
        return v
    def choice(self, c, name, idx, n):
        if idx:
            v = self._eval(name, idx); return v if 0 <= v < n else 0
        return self.choices.get(name, 0)
    def length(self, c, name, idx, lo, hi):
        v = self.int(c, name, idx, lo, hi)
        if v > 300000: raise Skip()
        return v
    listlen = length
    def bytes(self, c, name, idx, n):
        f = z3.Function(name, *([z3.IntSort()] * (len(idx) + 2)))
        out = bytearray()
        if n > 20000: return bytes(n)
        pre = [z3.IntVal(i) for i in idx]
        for k in range(n):
            v = self.m.eval(f(*pre, z3.IntVal(k)), model_completion=True).as_long()
            out.append(v % 256)
        return bytes(out)

class RecordedSource(Source):
    def __init__(self, rec): super().__init__(); self.rec = rec
    def _k(self, c, name, idx): return name + ''.join('[%d]' % i for i in idx)
    def int(self, c, name, idx, lo, hi): return self.rec.get(self._k(c, name, idx), lo or 0)
    def choice(self, c, name, idx, n): return self.rec.get(self._k(c, name, idx), 0)
    def length(self, c, name, idx, lo, hi): return self.rec.get(self._k(c, name, idx), lo)
    listlen = length
    def bytes(self, c, name, idx, n): return bytes.fromhex(self.rec.get(self._k(c, name, idx), '00' * n))

class TooLong(BaseException): pass
def run_limited(con, source, part, cpu):
    """run_concrete within so many seconds of processor time; -> also ('slow', ...)"""
    import signal
    def stop(*a): raise TooLong()
    old = signal.signal(signal.SIGVTALRM, stop); signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 5)
    log = {}
    try: return run_concrete(con, source, part, log)
    except TooLong: return 'slow', 'no answer within %d s of processor time' % cpu, log
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0); signal.signal(signal.SIGVTALRM, old)
def run_concrete(con, source, part=None, log=None):
    """-> ('ok'|'skip'|'fail', detail, log)"""
    global ODD
    ODD = 'C15' <= con.prop < 'C33' or con.prop == 'C01'
    c = ConcCtx(source, part=part, log=log)
    try:
        con.fn(c)
        return 'ok', '', c.log
    except Skip: return 'skip', '', c.log
    except CheckFailed as e: return 'fail', str(e), c.log
    except Unsupported as e: return 'skip', 'unsupported %s' % e, c.log
    except RecursionError as e: return 'skip', 'recursion', c.log
    except MemoryError: return 'skip', 'memory', c.log
    except Exception as e:
        return 'fail', 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]), c.log
