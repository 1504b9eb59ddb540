"""Loop controllers: cut loops by their invariant, or unroll."""
import builtins, sys
from . import core, sym
from .core import Unsupported, PathStop, cur
from .sym import *
import z3

import os
ENGINE = os.path.dirname(os.path.abspath(__file__))
SPECS = {}          # active loop specifications: key -> LoopSpec class
UNROLL_LIMIT = 400

class Poison:
    """value of a variable the loop specification says nothing about"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def _p(self, *a, **k):
        raise Unsupported('variable %r is not described by the loop invariant' % object.__getattribute__(self, '_n'))
    __getattr__ = __call__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = _p
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _p
    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = __floordiv__ = __mod__ = __index__ = __int__ = __contains__ = _p
    __hash__ = _p

class LoopSpec:
    """base class of loop contracts; `L` is the controller"""
    def enter(self, L): pass
    def havoc(self, L): return {}
    def inv(self, L): return ()
    def variant(self, L): return None
    # yields(L, k): what iteration k of a loop in a generator yields, once and nothing else
    def iterable(self, L, it): return it

class PieceList:
    """what a generator yields for all elements of a sequence"""
    def __init__(self, l): self.l = l

class NoSpec:
    pass

class Loop:
    def __init__(self, key, it, stored, is_for):
        self.key = key; self.is_for = is_for; self.stored = stored
        self.phase = 0; self.count = 0; self.k = 0
        self.spec = None
        self.g = type('ghost', (), {})()
        if core.CUR is not None and key in SPECS:
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename.startswith(ENGINE): f = f.f_back
            if f is not None and f.f_code.co_flags & 0x20 and key not in cur().aux.get('steps', ()):
                # what such a generator yields before the arbitrary iteration would be lost
                if not (hasattr(SPECS[key], 'yields') and cur().aux.get('collect') is not None): raise Unsupported('generator with loop %s cut by an invariant' % key)
            self.spec = SPECS[key]()
            cur().aux.setdefault('loops', {})[key] = self
            cur().ex.loops_cut.add(key)
        self.declared = set()
        if is_for:
            from . import world
            it = world.own_iter(it)
            self.src = it
            if self.spec is not None: self._indexed(it)
            else: self.it = sym_iter(it)
    def _indexed(self, it):
        if isinstance(it, VBytes) and not plain_bytes(it): it = iter(it)
        if type(it) is sym.VGen: it = it.whole()
        it = self.spec.iterable(self, it)
        self.end = getattr(it, 'end', None); self.seq = it
        if isinstance(it, SIter) and not is_sym(it.pos) and it.pos == 0: self.n, self.at = it.n, it.at
        elif isinstance(it, SIter): self.n = it.n - it.pos; self.at = (lambda it, o: lambda i: it.at(o + i))(it, it.pos)
        elif type(it) in (SList, VByteArray, VText) or plain_bytes(it): self.n, self.at = it.length(), it.__getitem__
        elif isinstance(it, (list, tuple, range)): self.n, self.at = len(it), it.__getitem__
        else: raise Unsupported('loop over %s cut by an invariant' % type(it).__name__)
    # spec helpers
    def __getitem__(self, name):
        try: return self.loc[name]
        except KeyError: raise Unsupported('loop invariant of %s refers to unknown variable %r' % (self.key, name))
    def has(self, name): return name in self.loc
    def fresh(self, hint, lo=None, hi=None):
        t = cur().fresh_int(hint)
        if lo is not None: cur().add(t >= zt(lo))
        if hi is not None: cur().add(t <= zt(hi))
        return SInt(t, lo if type(lo) is int else None, hi if type(hi) is int else None)
    def whole(self):
        """the sequence a for loop goes through"""
        return as_slist(self.plain()).copy(tuple)
    def plain(self):
        s = self.seq
        while isinstance(s, SIter) and s.source is not None: s = s.source
        return s
    def item(self, k):
        """element k of that sequence (without its number)"""
        x = self.at(k); s = self.seq
        while isinstance(s, SIter) and s.source is not None: x = x[1]; s = s.source
        return x
    def fresh_bytes(self, hint, n=None, lo=0):
        if n is None: n = self.fresh(hint + '.len', lo)
        return VBytes._mk((Sub(SymBase(cur().fresh(hint)), 0, n),))
    def bitbytes(self, n):
        """arbitrary bytes whose single bits are looked at"""
        return VBytes._mk((Sub(BitBase(cur().fresh('bits')), 0, n),))
    def fresh_list(self, hint):
        n = self.fresh(hint + '.len', 0)
        return SList(segs=(Sub(GenBase(lambda i: Poison(hint)), 0, n),))
    def shr8(self, a, m): return shr8(a, m)
    def nbytes(self, a): return nbytes(a)[0] if is_sym(a) else (a.bit_length() + 7) // 8
    def sequence(self, n, at):
        """the byte string of length n with byte at(i) at i"""
        return VBytes._mk((Sub(at, 0, n),))
    def char(self, s, i): return str_char(s, i) if is_sym(i) else s[i]
    def gen_list(self, n, fn):
        if not is_sym(n): return SList([fn(k) for k in range(n)])
        return SList(segs=(Sub(GenBase(ElemCache(fn)), 0, n),))
    def fork(self, x, lo, hi): return concretize(mk(zt(x), lo, hi)) if is_sym(x) else x
    def mod8(self, k): return self.fork(k % 8, 0, 7)
    def one(self, x): return ite(mkbool(zt(x) != 0), 1, 0) if is_sym(x) else int(bool(x))
    def ranged(self, x, lo, hi, mul=None): return SInt(x.t, lo, hi, mul) if is_sym(x) else x
    def total(self, parts, mul=None, hi=255):
        """sum of products"""
        return SInt(z3.Sum(*[zt(a) * b for a, b in parts]), 0, hi, mul)
    def generator(self, at): return GenBase(at)
    def deep_eq(self, a, b):
        from . import api
        return mkbool(api.deq(a, b))
    def same_list(self, name, a, b):
        """lists of equal length with equal elements (checked at an arbitrary index)"""
        if self.mode == 'assume' and not (as_slist(a).native() and as_slist(b).native()): return True     # nothing further is assumed: havoc made it so
        if self.mode == 'assume' or as_slist(a).segs is as_slist(b).segs: return self.deep_eq(a, b)
        from . import api
        p = cur(); A, B = as_slist(a), as_slist(b)
        if not truth(A.length() == B.length()): return False
        if p.choose(2) == 0:
            j = p.fresh_nat('elem', 0)
            p.assume_checked(zand(j >= 0, j < A.length()))
            p.check('%s: invariant %s (element)' % (self.key, name), api.deq(A[j], B[j]), kind='loop')
            raise PathStop()
        return True
    def all_literals(self, l, f):
        """f holds for the elements a list was given explicitly"""
        return self.both(*[f(x) for s in as_slist(l).segs if type(s) is Lit for x in s.v])
    def same(self, a, b): return mkbool(zand(zimplies(zb(a), zb(b)), zimplies(zb(b), zb(a))))
    def is_zero(self, k): return truth(k == 0)
    def split(self, x): return truth(x)
    def same_word(self, a, b): return same_word(a, b)
    def both(self, *xs): return mkbool(zand(*[zb(x) for x in xs]))
    def either(self, *xs): return mkbool(zor(*[zb(x) for x in xs]))
    def no_small(self, op): return mkbool(zor(zb(op < 0x51), zb(op > 0x60)))
    def implies(self, a, b): return mkbool(zimplies(a, b))
    def fresh_bool(self, hint): return SBool(z3.Bool(cur().fresh(hint)))
    def havocs(self, *objs):
        for o in objs:
            self.declared.add(id(o)); touch(o)
    def assume(self, c): cur().assume(zb(c))
    def native(self, b): return VBytes._lit(b)
    def env(self, name):
        """a ghost value the contract announced (c.ghost)"""
        try: return cur().aux['ghost'][name]
        except KeyError: raise Unsupported('no ghost %r for the invariant of %s' % (name, self.key))
    def leb128(self, v):
        from . import specs
        return specs.leb_sym(v)
    def eqn(self, a, b):
        """equality of byte strings or integers"""
        va, vb = to_vbytes(a), to_vbytes(b)
        if va is None: return a == b
        return rope_eq(va, vb)
    def unfolds(self, enc, segs):
        """the encoding `enc` (one segment) equals `segs`"""
        if self.mode == 'check': return rope_eq(enc, segs)
        if len(enc.segs) == 1 and type(enc.segs[0]) is USeg:
            u = enc.segs[0]
            if not any(x is u for x in segs.segs):
                cur().aux.setdefault('equations', []).append((u.key, u.arg, segs.segs))
                return u.n == segs.length()
        return rope_eq(enc, segs)
    def head_arg(self, rope, key):
        """argument of the encoding a byte string starts with"""
        s = rope.segs[0] if rope.segs else None
        if type(s) is USeg and s.key == key: return s.arg
        if type(s) is Lit and key == 'leb' and s.n == 1: return s.v[0]
        raise Unsupported('the stream does not start with a %s encoding' % key)
    mode = 'check'
    mapped = False          # a loop in a generator taken as a whole
    taken = False           # whether the arbitrary iteration has begun
    # protocol
    def _check(self, when):
        for name, c in self.spec.inv(self):
            cur().check('%s: invariant %s %s' % (self.key, name, when), zb(c), kind='loop')
    def step(self, loc):
        if self.spec is None:
            self.count += 1
            if core.CUR is not None and self.count > UNROLL_LIMIT:
                raise Unsupported('loop %s unrolled more than %d times' % (self.key, UNROLL_LIMIT))
            return ()
        self.loc = loc
        if self.phase == 0:
            self.phase = 1
            self.spec.enter(self)
            self._check('on entry')
            p = cur()
            self.out = p.aux['collect'] if hasattr(self.spec, 'yields') else None
            if self.out is not None and p.choose(2) == 0:
                # the loop as a whole: one piece per element
                self.out.append(PieceList(self.gen_list(self.n, lambda k: self.spec.yields(self, k))))
                self.k = self.n; self.mapped = True
                d = dict(self.spec.havoc(self) or {})
                for nm in self.stored:
                    if nm not in d: d[nm] = Poison(nm)
                return d
            self.out0 = None if self.out is None else len(self.out)
            # arbitrary iteration
            if self.is_for:
                self.k = self.fresh('k', 0)
                cur().add(self.k.t <= zt(self.n))
            d = dict(self.spec.havoc(self) or {})
            for nm in self.stored:
                if nm not in d: d[nm] = Poison(nm)
            newloc = dict(loc); newloc.update(d); self.loc = newloc
            self.mode = 'assume'
            for name, c in self.spec.inv(self): p.assume(zb(c))
            self.mode = 'check'
            if p._check() == z3.unsat: raise core.Infeasible()
            v = self.spec.variant(self)
            if v is None and self.is_for: v = self.n - self.k
            self.var0 = v
            self.muts = [(o, o.version) for o in p.aux.get('mutables', ())]
            self.frame = snapshot([v for v in newloc.values() if v is not None])
            return d
        # the body has run once: the invariant must hold again
        if self.out is not None:
            new = self.out[self.out0:]
            cur().check('%s: one piece per element' % self.key, len(new) == 1, kind='loop')
            if len(new) == 1: cur().check('%s: piece of an element' % self.key, rope_eq(to_vbytes(new[0]), to_vbytes(self.spec.yields(self, self.k - 1))), kind='loop')
        self._check('preserved')
        if self.var0 is not None:
            v = self.spec.variant(self)
            if v is None and self.is_for: v = self.n - self.k
            cur().check('%s: variant decreases and is bounded' % self.key,
                        zand(v < self.var0, self.var0 >= 0), kind='loop')
        for o, ver in self.muts:
            if o.version != ver and id(o) not in self.declared:
                raise Unsupported('loop %s mutates an object its contract does not mention (%s)' % (self.key, type(o).__name__))
        for o, a in changed(self.frame):
            if type(o) is not SList and id(o) not in self.declared:
                raise Unsupported('loop %s changes %s.%s, which its contract does not mention' % (self.key, type(o).__name__, a))
        cur().ex.loop_bodies.add(self.key)
        raise PathStop()
    def has_next(self):
        if self.spec is not None:
            if truth(self.k < self.n): return True
            if getattr(self, 'out', None) is not None and not self.mapped: raise PathStop()
            if self.end is not None: self.end()
            return False
        try: self.nextval = next(self.it)
        except StopIteration: return False
        return True
    def next(self):
        if self.spec is not None:
            self.taken = True
            v = self.at(self.k); self.k = self.k + 1
            return v
        v = self.nextval; self.nextval = None
        return v

def sym_iter(it):
    if isinstance(it, SRange): return iter(it)
    return iter(it)
