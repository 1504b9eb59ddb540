"""Merbinner trees of every size: nodes of which only the contract of a tree is known.

A tree with a key prefix is empty, a leaf, or an inner node: the longest common prefix of its keys, and the two trees
of the keys that go on with a 0 and with a 1.  The children of the node under verification are stand-ins (`Tree`)
meeting the contract of a tree; every method is verified with them in place, which is the step of an induction over
the tree.  Keys are opaque except for the bit sequence a tree files them under, of any (one) length; bit sequences
are known by the contract of bit arrays (C03)."""
from engine.api import *
from contracts.bitrope import *
from contracts.treegen import T, TAG, SUB, leb, derived, raw_tag

def key_class(c):
    """keys, which are the same exactly when their bits are"""
    class Key:
        def __init__(self, bits, token=None, enc=None): self.bits = bits; self.token = token; self.enc = enc
        def __eq__(self, other):
            if not isinstance(other, Key): return NotImplemented
            return self.token == other.token if self.token is not None else self.bits == other.bits
        def __ne__(self, other): return not self.__eq__(other)
        __hash__ = None if c.symbolic else lambda self: hash(tuple(self.bits))
        def __repr__(self): return 'Key(%s)' % ''.join(map(str, self.bits))
    return Key
def SERIALIZER(w, orig):
    @classmethod
    def check_instance(cls, instance): pass         # a bit array known by contract is a bit array
    return check_instance
def ENCODED(w, orig):
    @classmethod
    def ctx_serialize(cls, value, ctx): ctx.write_bytes(value.enc)
    return ctx_serialize
BITARRAYS = [('proofmarshal.bits:BitsSerializer.check_instance', SERIALIZER)]
ENCODINGS = BITARRAYS + [('proofmarshal.bits:BitsSerializer.ctx_serialize', ENCODED)]

class World:
    """a class of trees with the keys above"""
    def __init__(self, c):
        m = c.mod(T); s = c.mod('proofmarshal.serialize')
        Key = self.Key = key_class(c); self.c = c; self.symbolic = c.symbolic
        class KeySerializer(s.Serializer):
            @classmethod
            def check_instance(cls, key):
                if not isinstance(key, Key): raise s.SerializerTypeError('not a key')
            @classmethod
            def ctx_serialize(cls, key, ctx):
                if key.enc is not None: ctx.write_bytes(key.enc); return
                ctx.write_varuint(len(key.bits)); ctx.write_bytes(bytes(key.bits))
        self.cl = m.make_MerbinnerTree_subclass(type('Tree', (m.MerbinnerTree,), {'__slots__': [], 'HASHTAG': s.HashTag(TAG), 'KEY_SERIALIZER': KeySerializer,
            'VALUE_SERIALIZER': s.UInt64, 'key2prefix': staticmethod(lambda key: key.bits)}))
        if c.symbolic: self.Bits = Rope_class(c); self.stand_in = stand_in_class(c, self.cl)
        else: self.Bits = c.mod('proofmarshal.bits').Bits
    def named_key(self, d, w): return self.Key(None, d.int('token')) if self.symbolic else self.key(d.list('key', bit, n=w))
    def key(self, bits): return self.Key(self.Bits(bits))
    def tree(self, name, prefix, key=None, **more):
        """any non-empty tree whose keys share exactly the prefix"""
        if self.symbolic: return self.stand_in(self.Bits(prefix), self.c.bytes(name + '.hash', n=32), **more)
        if len(prefix) == self.width: return self.cl.LeafNodeClass(self.key(prefix), len(name))
        n = self.width - len(prefix) - 1
        return self.cl.InnerNodeClass(self.cl.LeafNodeClass(self.key(prefix + (0,) + (0,) * n), 1), self.cl.LeafNodeClass(self.key(prefix + (1,) + (1,) * n), 2))
    def bits(self, name, n=None, lo=0): return self.c.list(name, bit, lo=lo, n=n)

def stand_in_class(c, cl):
    class Tree(cl):
        """what every non-empty tree does, by its contract"""
        __module__ = 'proofmarshal.merbinnertree'
        def __new__(r, prefix, digest, **more):
            self = object.__new__(r)
            for k, v in dict(more, prefix=prefix, digest=digest, _Proof__orig_instance=None).items(): object.__setattr__(self, k, v)
            return self
        is_pruned = False
        @property
        def hash(self): return self.digest
        def __len__(self): return len(self.map_keys)
        def keys(self): yield from self.map_keys
        def values(self): yield from self.map_values
        def descend(self, prefix):
            c.lemma('descends for the same key', self.asked == prefix)
            yield from self.chain
    cl.UNION_CLASSES.append(Tree)
    return Tree

def on_side(c, label, node, prefix, side, one, other):
    """an inner node of that prefix with one on that side and the other tree on the other"""
    c.check(label + ' prefix', node.prefix == prefix)
    x, y = (node.right, node.left) if side else (node.left, node.right)
    c.check(label + ' sides', c.both(same_tree(c, x, one), same_tree(c, y, other)))
def same_tree(c, x, y): return x is y or c.deep_eq(x.hash, y.hash)

class Path:
    """the way down a tree along a key: where it ends, and the siblings passed (deepest first), each with all the bits
    of the key before some level and the other bit there"""
    def __init__(self, c, W, ends):
        self.c = c; self.W = W
        kp = self.kp = W.bits('key', lo=1); w = W.width = len(kp); self.key = W.key(kp)
        c.assume(w < 2**60)
        end = self.end = c.choice('end', ends)
        self.value = None
        if end == 'empty': self.top = self.node = None; m = 0
        elif end == 'same': self.top = w; m = c.int('depth', 0); self.value = c.int('old', 0, 2**64 - 1); self.node = W.cl.LeafNodeClass(W.key(kp), self.value)
        else:
            d = self.top = c.int('off', 0); c.assume(d < w); m = c.int('depth', 0)
            if end == 'leaf': self.node = W.cl.LeafNodeClass(W.key(self.off(d) + W.bits('rest', n=w - d - 1)), c.int('old', 0, 2**64 - 1))
            else:
                rest = W.bits('rest'); c.assume(len(rest) < w - d - 1)
                self.node = W.tree('end', self.off(d) + rest)
        self.m = m
        c.assume(m <= (w if self.top is None else self.top))
        self.at = c.list('level', lambda d, j: d.int('at', 0), n=m)
        if not c.symbolic: self.at = self.fit(list(self.at))
        self.siblings = c.list('sibling', self.sibling, n=m)
    def fit(self, at):
        last = self.top
        for k in range(len(at)): at[k] = last = max(min(at[k], last - 1), len(at) - 1 - k)
        return at
    def off(self, l): return self.kp[:l] + (1 - self.kp[l],)
    def level(self, j):
        """where the tree after j siblings differs from the rest"""
        if self.c.symbolic and self.c.split(j == 0) == 0: return self.top
        return self.at[j - 1] if j else self.top
    def sibling(self, d, j):
        c = self.c; l = self.at[j]
        c.assume(l < self.level(j))
        rest = self.W.bits('rest') if False else d.list('rest', bit)
        if not c.symbolic: rest = rest[:len(self.kp) - l - 1]
        c.assume(len(rest) <= len(self.kp) - l - 1)
        if c.symbolic: return self.W.stand_in(self.W.Bits(self.off(l) + rest), d.bytes('hash', n=32))
        return self.W.tree('s%d' % j, self.off(l) + rest)
    def tree(self):
        """the tree all this is the way down of"""
        W = self.W
        if self.c.symbolic: 
            nodes = (self.node if self.node is not None else W.cl.EmptyNodeClass(),)
            return W.stand_in(None, None, asked=self.key.bits, chain=nodes + self.siblings)
        t = self.node if self.node is not None else W.cl.EmptyNodeClass()
        for s in self.siblings: t = W.cl.InnerNodeClass(t, s)
        return t

def pair(c, W, name, **more):
    """two non-empty trees of which one goes on with a 0 after the common prefix of all their keys: prefix, trees"""
    p = W.bits(name + '.prefix'); a = W.bits(name + '.a'); b = W.bits(name + '.b')
    if not c.symbolic:
        W.width = len(p) + 1 + max(len(a), len(b))
    return p, W.tree(name + '.zero', p + (0,) + a, **more), W.tree(name + '.one', p + (1,) + b, **more)
def list_of(W, t): return t.map_keys, t.map_values

def hashed(c, W, name, kind=None):
    """a node of any kind, known by the encodings and hashes it is made of: node, kind, hashed data, what that depends on"""
    kind = kind or c.choice(name + '.kind', ('empty', 'leaf', 'inner')); cl = W.cl
    if kind == 'empty': return cl.EmptyNodeClass(), kind, c.native(b''), ()
    if kind == 'leaf':
        v = c.int(name + '.v', 0, 2**64 - 1); k = c.bytes(name + '.key', n=W.key_bytes)
        return cl.LeafNodeClass(W.Key(None, enc=k), v), kind, k + c.leb128(v), (k, v)
    h = [c.bytes(name + '.left', n=32), c.bytes(name + '.right', n=32)]
    if c.symbolic:
        p = W.Bits((), c.bytes(name + '.prefix')); enc = p.enc; l, r = (W.stand_in(None, x) for x in h)
    else:
        p = W.Bits(c.list(name + '.prefix', bit)); enc = leb(len(p)) + bytes(sum(b << 7 - k for k, b in enumerate(p[i:i + 8])) for i in range(0, len(p), 8))
        l, r = (cl.LeafNodeClass(W.Key(None, enc=x), 0) for x in h); h = [l.hash, r.hash]
    return c.mod('proofmarshal.proof').VarProof.__new__(cl.InnerNodeClass, left=l, right=r, prefix=p), kind, enc + h[0] + h[1], (enc, h[0], h[1])
def node_hash(c, kind, data): return c.sha256(c.native(derived(raw_tag(SUB[kind]), raw_tag(TAG))) + c.sha256(data))
