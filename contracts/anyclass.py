"""A proof class with any number of attributes of any kinds (C05, C06)"""
from engine.api import *
from contracts.proofgen import *
KINDS_OF_ATTR = ('u8', 'u64', 'bool', 'digest', 'var', 'any', 'bits', 'Leaf', 'Blob', 'U', 'LeafOrBlob', 'Pair')

class Attr:
    """an attribute: its name, serializer and value, and what it contributes to the hash"""
    def __init__(self, name, ser, value, part, hashed, acc): self.name = name; self.ser = ser; self.value = value; self.part = part; self.hashed = hashed; self.acc = acc

def part_class(c):
    """proofs known by their contract only: a hash, an encoding (whole, pruned, or pruned in some state of access), decoded back"""
    m = c.mod(P)
    class Part(m.Proof):
        def prune(self): return Part.make(self.k, 1, self.hash, True)
        def ctx_serialize(self, ctx): ctx.write_bytes(Elem(4 * self.k + self.state).enc)
    def make(k, state, h, pruned):
        p = object.__new__(Part)
        for a, v in (('k', k), ('state', state), ('hash', h), ('is_pruned', pruned), ('is_fully_pruned', False), ('_Proof__orig_instance', None)): object.__setattr__(p, a, v)
        return p
    Part.make = make
    return Part

def any_class(c, mode='free'):
    """the class, its attributes; mode: 'none' of the values is pruned, 'one' at least is, or 'free'"""
    m = c.mod(P); s = c.mod(S)
    if not c.symbolic:
        cl = classes(c); ser = cl['serializers']
        def draw(d, k):
            kind = d.choice('kind', KINDS_OF_ATTR)
            if not is_part(kind):
                v = value(d, 'v', kind); e = encoded(d, kind, v)
                return Attr('a%d' % k, ser[kind], c.mod(bitsgen.BITS).Bits(v) if kind == 'bits' else v, False, e, d.bool('acc'))
            node = some_node(d, 'v', kind, 1 if mode == 'free' else 0); v = build(d, cl, node)
            if mode == 'none':
                d.assume(not v.is_pruned)
            return Attr('a%d' % k, ser[kind], v, True, spec_hash(d, node), d.bool('acc'))
        attrs = c.list('attrs', draw)
        if mode == 'one': c.assume(any(a.part and a.value.is_pruned for a in attrs))
        K = type('K', (m.Proof,), {'HASHTAG': s.HashTag(TAGS['Leaf']), 'SERIALIZED_ATTRS': [(a.name, a.ser) for a in attrs]})
        return K, attrs
    names = {}; Part = part_class(c)
    def draw(d, k):
        name = 'attr%d' % len(names); names[name] = k
        part = c.split(d.bool('part')) == 0
        if part: v = Part.make(k, 0, d.bytes('hash', n=32), False if mode == 'none' else d.bool('pruned'))
        else: v = Val(Elem(4 * k).enc)
        a = Attr(name, None, v, part, v.hash if part else v.enc, d.bool('acc'))
        class Ser(m.Proof if part else s.Serializer):
            @classmethod
            def check_instance(cls, x):
                if type(x) is not (Part if part else Val): raise s.SerializerTypeError('not of the type')
            @classmethod
            def ctx_deserialize(cls, ctx):
                e, whole = take_elem(ctx.fd)
                if not whole: raise s.TruncationError('cut short')
                return c.ghosts()['decoded'](a, e)
            def ctx_serialize(x, ctx):
                if part: x.ctx_serialize(ctx)
                else: ctx.write_bytes(x.enc)
        a.ser = Ser; a.k = k
        return a
    attrs = c.list('attrs', draw)
    class K(m.Proof):
        HASHTAG = s.HashTag(TAGS['Leaf'])
        SERIALIZED_ATTRS = c.gen_list(len(attrs), lambda k: (attrs[k].name, attrs[k].ser), kind=tuple)
        def __getattr__(self, name):
            # the storage of an instance: names stand for positions in the list of attributes
            if name in names and 'bulk' in self.__dict__:
                r = self.__dict__['bulk'](names[name])
                if r is not None: return r
            return m.Proof.__getattr__(self, name)
    c.ghost(attrs=attrs, names=names, mode=mode, wanted=lambda k: attrs[k].value)
    if mode == 'one':
        w = c.int('pruned one', 0); c.assume(w < len(attrs)); x = attrs[w]
        c.assume(x.part); c.assume(x.value.is_pruned)
        c.ghost(w=w)
    return K, attrs

def make(c, K, attrs):
    """an instance with these values"""
    if not c.symbolic: return K(**{a.name: a.value for a in attrs})
    names = c.ghosts()['names']
    return K(**{BULK: lambda name: attrs[names[name]].value})

def stored(L, p): return [n for n in p.__dict__ if n in L.env('names')]
def before(L, k, at, old=None):
    """the storage holding at(j) for j < k (and what it held before for the others)"""
    def get(j):
        if L.split(j < k): return at(j)
        return old(j) if old else None
    return get
def grown(L, p, at):
    """exactly the attribute of this iteration has been stored, with the value expected"""
    new = stored(L, p); k = L.g.k0
    if not new: return [('one more', False)]
    return [('one more', len(new) == 1), ('in its place', L.env('names')[new[0]] == k), ('its value', p.__dict__[new[0]] is at(k))]

@loop('Proof.__new__#0')
class NewAttrs(LoopSpec):
    """the attributes before the k-th are those given; whether one of them is pruned"""
    def enter(self, L): L.g.k0 = None
    def havoc(self, L):
        p = L['self']; L.declared.add(id(p)); L.g.k0 = L.k
        for n in stored(L, p): del p.__dict__[n]
        p.__dict__['bulk'] = before(L, L.k, L.env('wanted'))
        return {'is_pruned': False if L.env('mode') == 'none' else L.fresh_bool('is_pruned')}
    def inv(self, L):
        f = []; mode = L.env('mode')
        if mode == 'none': f = [('nothing pruned', L.same(L['is_pruned'], False))]
        if mode == 'one': f = [('one pruned', L.implies(L.k > L.env('w'), L['is_pruned']))]
        if L.mode == 'assume': return f
        p = L['self']
        if L.g.k0 is None: return f + [('nothing yet', not stored(L, p) and 'bulk' not in p.__dict__)]
        return f + grown(L, p, L.env('wanted'))

@loop('Proof.calc_data_hash#0')
class HashAttrs(LoopSpec):
    """what is hashed so far, followed by the contributions of the attributes left, is the preimage"""
    def enter(self, L): L.g.h = L['hasher']; L.g.pre = L.g.h.buf; L.g.vec = L.env('hashed')
    def havoc(self, L):
        L.g.h.buf = L.g.pre + L.fresh_bytes('hashed'); L.havocs(L.g.h)
    def inv(self, L):
        n = len(L.g.pre); out = L.g.h.buf
        return [('keeps what was hashed', L.eqn(out[:n], L.g.pre)), ('preimage', L.unfolds(L.g.vec.at(0), out[n:] + L.g.vec.at(L.k)))]

@loop('Proof._ctx_serialize#0')
class WriteAttrs(LoopSpec):
    """the same of the encoding; attributes not accessed come in one by one"""
    def enter(self, L):
        L.g.f = L['ctx'].fd; L.g.pre = L.g.f.getvalue(); L.g.vec = L.env('wire'); L.g.k0 = None
    def havoc(self, L):
        L.g.f.done = (L.g.pre + L.fresh_bytes('written')).segs
        L.havocs(L.g.f); L.g.k0 = L.k
        p = L['self']
        if p.is_pruned is True and L.env('copy') is p:
            L.declared.add(id(p)); p.__dict__['bulk'] = before(L, L.k, L.env('kept'), p.__dict__['bulk'])
    def inv(self, L):
        n = len(L.g.pre); out = L.g.f.getvalue()
        return [('keeps what was written', L.eqn(out[:n], L.g.pre)), ('encoding', L.unfolds(L.g.vec.at(0), out[n:] + L.g.vec.at(L.k)))]

@loop('Proof._ctx_deserialize#0')
class ReadAttrs(LoopSpec):
    """the attributes before the k-th have been read, the encodings of the others remain"""
    def enter(self, L):
        L.g.f = L['ctx'].fd; L.g.vec = L.env('wire'); L.g.tail = L.env('tail'); L.g.k0 = None; L.g.names = L.env('names')
    def havoc(self, L):
        L.g.f.done = L.fresh_bytes('done').segs
        L.g.f.rest = (L.g.vec.at(L.k) + L.g.tail).segs
        L.havocs(L.g.f); L.g.k0 = L.k
        kw = L['kwargs']; kw.clear(); k = L.k
        def get(name):
            if L.split(L.g.names[name] < k): return L.env('wanted')(L.g.names[name])
            raise KeyError(name)
        kw[BULK] = get
    def inv(self, L):
        f = [('rest of the stream', L.eqn(L.g.f.remaining(), L.g.vec.at(L.k) + L.g.tail))]
        if L.mode == 'assume': return f
        kw = L['kwargs']; new = [n for n in kw if n != BULK]
        if L.g.k0 is None: return f + [('nothing yet', len(kw) == 0)]
        if len(new) != 1 or new[0] not in L.g.names: return f + [('one more', False)]
        return f + [('in its place', L.g.names[new[0]] == L.g.k0), ('its value', kw[new[0]] is L.env('wanted')(L.g.k0))]

@loop('Proof._ctx_deserialize#0:truncated')
class ReadCut(LoopSpec):
    """the same on a stream that ends inside an attribute"""
    def enter(self, L):
        L.g.f = L['ctx'].fd; L.g.vec = L.env('wire')
    def havoc(self, L):
        L.g.f.done = L.fresh_bytes('done').segs
        L.g.f.rest = L.g.vec.at(L.k).segs
        L.havocs(L.g.f); L['kwargs'].clear()
    def inv(self, L):
        return [('not past the cut', L.k <= L.g.vec.cut), ('rest of the stream', L.eqn(L.g.f.remaining(), L.g.vec.at(L.k)))]
