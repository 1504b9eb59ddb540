"""C14: nodes of globally unique maps"""
from engine.api import *
from contracts.sealgen import *
from contracts.proofgen import leb, derived, raw_tag
from contracts.bitsgen import some_bits
import hashlib
G = 'proofchains.core.uniquebits.gumap'
TAG = '73777384-88f0-40cc-a836-443cc6db3589'
LEAF, INNER = [derived(raw_tag(t), derived(raw_tag(k), raw_tag(TAG))) for t, k in (('59c17f37-7e26-4aea-8a5b-7c0db66af35b', '0c60f344-9109-4930-aec1-432c5750fcba'),
                                                                                   ('b925044d-320e-4c1f-9ef8-20614d260676', '6893cac7-e834-49cd-8e95-77707b0499b5'))]
def map_class(c, values='int', keys='int'):
    """keys: integers or digests; values: integers or proofs"""
    m = c.mod(G); s = c.mod('proofmarshal.serialize'); su = c.mod(SU); Bits = c.mod('proofmarshal.bits').Bits
    d = {'__slots__': [], 'HASHTAG': s.HashTag(TAG), 'KEY_SERIALIZER': s.UInt32 if keys == 'int' else s.Digest, 'VALUE_SERIALIZER': s.UInt64 if values == 'int' else su.FakeSingleUseSeal,
         'SEAL_CLASS': su.BitcoinSingleUseSeal, 'WITNESS_CLASS': su.BitcoinSealWitness,
         'key2prefix': staticmethod((lambda key: Bits.from_bytes(key.to_bytes(4, 'big'))) if keys == 'int' else (lambda key: Bits.from_bytes(key)))}
    return m.make_GuMap_subclass(type('Map', (m.GuMap,), d))
def tagged(c, tag, msg): return c.sha256(c.native(tag) + msg)
class Asked:
    """makes witnesses, and remembers what for"""
    def __init__(self, c, seal_hash=None): self.c = c; self.calls = []; self.form = c.choice('form', (0, 1, 2, 'fake'))
    def __call__(self, seal, h):
        self.calls.append((seal, h)); c = self.c; su = c.mod(SU); core = c.mod(B); b = c.mod(PB)
        if self.form == 'fake': return su.FakeSealWitness.from_hash(h)
        p = b.TxProof(tx=core.CTransaction([core.CTxIn(seal.outpoint)], [core.CTxOut(0, core.script.CScript(forms(c, h)[self.form]))]))
        return su.BitcoinSealWitness(seal=seal, txinproof=b.TxInProof(i=0, txproof=p), txoutproof=b.TxOutProof(i=0, txproof=p))
def some_any_seal(c, name):
    su = c.mod(SU)
    return some_seal(c, name) if c.choice(name + '.real', (0, 1)) else su.FakeSingleUseSeal(committed_hash=c.bytes(name + '.h', n=32))
def some_key(c, name, keys): return c.choice(name + '?', (0, 1, 127, 128)) if keys == 'int' and c.choice(name + '.small', (0, 1)) else c.int(name, 0, U32) if keys == 'int' else c.bytes(name, n=32)
def some_value(c, name, values): return c.int(name, 0, 2**64 - 1) if values == 'int' else c.mod(SU).FakeSingleUseSeal(committed_hash=c.bytes(name, n=32))
def contents(c, keys, values, k, v): return tagged(c, LEAF, (leb(k) if keys == 'int' else k) + (leb(v) if values == 'int' else v.hash))
def unused(c, cl, name, prefix=None):
    Bits = c.mod('proofmarshal.bits').Bits
    return cl.UnusedPrefix(prefix=Bits(some_bits(c, name + '.prefix', 20) if prefix is None else prefix), seal=some_any_seal(c, name))
def accepts(c, node): return c.catch(Exception, node.verify)[1] is None

@contract('C14', 'entries', samples=1500, sym=False, bounded='sampled')
def entries(c):
    keys = c.choice('keys', ('int', 'digest')); values = c.choice('values', ('int', 'proof')); cl = map_class(c, values, keys)
    u = unused(c, cl, 'u', ()) if c.choice('root', (0, 1)) else unused(c, cl, 'u'); ask = Asked(c)
    c.assume(ask.form == 'fake' or type(u.seal).__name__ == 'BitcoinSingleUseSeal')
    k, v = some_key(c, 'k', keys), some_value(c, 'v', values)
    h = u.hash
    n = c.returns('from_unused_prefix', cl.LeafPrefix.from_unused_prefix, u, k, v, ask)
    want = contents(c, keys, values, k, v)
    c.check('closes one seal', len(ask.calls) == 1); c.check('the seal of the prefix', ask.calls[0][0] is u.seal)
    c.eq('commitment', ask.calls[0][1], want)
    c.check('contents', n.key == k and n.value == v and type(n) is cl.LeafPrefix)
    c.check('prefix', n.prefix == cl.key2prefix(k)); c.check('seal', n.seal == n.witness.seal)
    if ask.form != 'fake': c.check('seal of the prefix', n.seal == u.seal)
    c.returns('verify', n.verify); c.check('unused prefix unchanged', u.hash == h)
    c.returns('unused prefixes verify', u.verify)
    # the witness stands for nothing else
    k2, v2 = some_key(c, 'k2', keys), some_value(c, 'v2', values)
    for a, b in ((k, v2), (k2, v), (k2, v2)):
        o = c.mod(P).VarProof.__new__(cl.LeafPrefix, witness=n.witness, key=a, value=b)
        c.check('verifies exactly when the contents are the sealed ones', accepts(c, o) is (contents(c, keys, values, a, b) == want))
    x = c.mod(P).VarProof.__new__(cl.InnerPrefix, prefix=u.prefix, witness=n.witness, left=u, right=u)
    c.check('not another kind of node', not accepts(c, x))
    d = c.returns('decode', cl.deserialize, n.serialize()); c.check('decoded', d == n); c.returns('decoded verify', d.verify)

@contract('C14', 'inner nodes', samples=1500, sym=False, bounded='sampled')
def inner(c):
    cl = map_class(c); VP = c.mod(P).VarProof
    u = unused(c, cl, 'u'); ask = Asked(c)
    c.assume(ask.form == 'fake' or type(u.seal).__name__ == 'BitcoinSingleUseSeal')
    def child(name):
        x = unused(c, cl, name)
        how = c.choice(name + '.kind', ('unused', 'unused', 'leaf', 'inner'))
        if how == 'leaf': return cl.LeafPrefix.from_unused_prefix(x, c.int(name + '.key', 0, U32), 5, lambda s, h: c.mod(SU).FakeSealWitness.from_hash(h))
        if how == 'inner': return cl.InnerPrefix.from_children(x, unused(c, cl, name + '2'))
        return x
    l, r = child('l'), child('r')
    want = tagged(c, INNER, l.seal.hash + r.seal.hash)
    n = c.returns('from_unused_prefix', cl.InnerPrefix.from_unused_prefix, u, l, r, ask)
    c.check('closes one seal', len(ask.calls) == 1); c.check('the seal of the prefix', ask.calls[0][0] is u.seal); c.eq('commitment', ask.calls[0][1], want)
    c.check('prefix', n.prefix == u.prefix); c.check('children', n.left is l and n.right is r and type(n) is cl.InnerPrefix)
    c.check('seal', n.seal == n.witness.seal); c.returns('verify', n.verify)
    if ask.form != 'fake': c.check('seal of the prefix', n.seal == u.seal)
    z = child('z')
    for a, b in ((r, l), (z, r), (l, z), (l, l)):
        o = VP.__new__(cl.InnerPrefix, prefix=u.prefix, witness=n.witness, left=a, right=b)
        c.check('verifies exactly when the children have the sealed seals', accepts(c, o) is (a.seal.hash + b.seal.hash == l.seal.hash + r.seal.hash))
    o = VP.__new__(cl.LeafPrefix, witness=n.witness, key=1, value=2)
    c.check('not another kind of node', not accepts(c, o))
    d = c.returns('decode', cl.deserialize, n.serialize()); c.check('decoded', d == n); c.returns('decoded verify', d.verify)
    # made from two children
    f = c.returns('from_children', cl.InnerPrefix.from_children, l, r)
    p, q = tuple(l.prefix), tuple(r.prefix); k = 0
    while k < len(p) and k < len(q) and p[k] == q[k]: k += 1
    c.check('common prefix', tuple(f.prefix) == p[:k]); c.check('children', f.left is l and f.right is r)
    c.eq('sealed', f.witness.seal.committed_hash, want); c.returns('verify', f.verify)
    o = VP.__new__(cl.InnerPrefix, prefix=f.prefix, witness=f.witness, left=r, right=l)
    c.check('not in another order', accepts(c, o) is (l.seal.hash == r.seal.hash))

# ------------------------------------------------------------ every key, value, seal, witness and child
from contracts.mbt import Rope_class, BITARRAYS, agree, bit
KINDS = [(k, v) for k in ('any', 'proof') for v in ('any', 'proof')]

class Worlds:
    """a class of maps with opaque keys and values, and seals, witnesses and children known by their contracts only"""
    def __init__(self, c, keys='any', values='any', vary=True):
        self.c = c; self.kind = c.choice('kinds', (('fake', 'fake'), ('fake', 'bitcoin'), ('bitcoin', 'fake'), ('bitcoin', 'bitcoin'))) if vary else ('fake', 'bitcoin'); su = c.mod(SU); s = c.mod('proofmarshal.serialize'); p = c.mod(P); self.keys = keys; self.values = values
        class AnySer(s.Serializer):
            """values of a type known only by their encoding"""
            @classmethod
            def check_instance(cls, v):
                if not isinstance(v, Val): raise s.SerializerTypeError('not a value')
            @classmethod
            def ctx_serialize(cls, v, ctx): ctx.write_bytes(v.enc)
        class AnyProof(p.Proof):
            """proofs known only by their hash"""
            __module__ = 'proofmarshal.proof'
            def __new__(cls, h): self = object.__new__(cls); object.__setattr__(self, 'hash', h); object.__setattr__(self, 'is_pruned', False); object.__setattr__(self, '_Proof__orig_instance', None); return self
        self.Proof = AnyProof; Bits = c.mod('proofmarshal.bits').Bits
        self.Bits = Rope_class(c) if c.symbolic else Bits
        d = {'__slots__': [], 'HASHTAG': s.HashTag(TAG), 'KEY_SERIALIZER': {'any': AnySer, 'proof': AnyProof}[keys], 'VALUE_SERIALIZER': {'any': AnySer, 'proof': AnyProof}[values],
             'SEAL_CLASS': su.BitcoinSingleUseSeal, 'WITNESS_CLASS': su.BitcoinSealWitness, 'key2prefix': staticmethod(lambda key: ('prefix of', key))}
        self.cl = c.mod(G).make_GuMap_subclass(type('Map', (c.mod(G).GuMap,), d))
        def opaque(base, *names):
            class Stand(base):
                __module__ = base.__module__
                is_pruned = False
                def __new__(cls, **kw):
                    self = object.__new__(cls); object.__setattr__(self, '_Proof__orig_instance', None)
                    for k, v in kw.items(): object.__setattr__(self, k, v)
                    return self
                def verify_hash(self, h): assert h == self.accepted
            return Stand
        self.Seals = {'fake': opaque(su.FakeSingleUseSeal), 'bitcoin': opaque(su.BitcoinSingleUseSeal)}
        self.Witnesses = {'fake': opaque(su.FakeSealWitness), 'bitcoin': opaque(su.BitcoinSealWitness)}
        self.Child = opaque(self.cl)
        self.cl.UNION_CLASSES.append(self.Child)
    def item(self, name, kind): return Val(self.c.bytes(name, 0)) if kind == 'any' else self.Proof(self.c.bytes(name, n=32))
    def key(self, name): return self.item(name, self.keys)
    def value(self, name): return self.item(name, self.values)
    def seal(self, name): return self.Seals[self.kind[0]](hash=self.c.bytes(name + '.hash', n=32))
    def witness(self, name): return self.Witnesses[self.kind[1]](seal=self.seal(name + '.seal'), accepted=self.c.bytes(name + '.accepted', n=32), hash=self.c.bytes(name + '.hash', n=32))
    def prefix(self, name): return self.Bits(self.c.list(name, bit))
    def child(self, name): return self.Child(prefix=self.prefix(name + '.prefix'), seal=self.seal(name + '.seal'), hash=self.c.bytes(name + '.hash', n=32))
    def unused(self, name): return self.cl.UnusedPrefix(prefix=self.prefix(name + '.prefix'), seal=self.seal(name + '.seal'))
    def leaf_seal(self, k, v): return tagged(self.c, LEAF, enc(k) + enc(v))
    def inner_seal(self, l, r): return tagged(self.c, INNER, l.seal.hash + r.seal.hash)
class Val:
    def __init__(self, enc): self.enc = enc
def enc(x): return x.enc if isinstance(x, Val) else x.hash
class Maker:
    """makes the witness, and remembers what for"""
    def __init__(self, w): self.w = w; self.calls = []
    def __call__(self, seal, h): self.calls.append((seal, h)); return self.w
def judge(c, node, w, want):
    """verifying succeeds exactly when the witness accepts the commitment"""
    if c.bool('pruned'): node = node.prune()
    if c.bool('right'): c.assume(w.accepted == want) if c.symbolic else object.__setattr__(w, 'accepted', want)
    ok = w.accepted == want
    r, err = c.catch(Exception, node.verify)
    c.check('verifies exactly when the witness accepts the commitment', ok if err is None else c.neg(ok))

@contract('C14', 'any entry', parts=KINDS, samples=400, models=BITARRAYS)
def any_entry(c):
    W = Worlds(c, *c.part); cl = W.cl
    u = W.unused('u'); k = W.key('k'); v = W.value('v'); w = W.witness('w'); ask = Maker(w)
    if c.bool('before'): cl.LeafPrefix.from_unused_prefix(W.unused('u0'), W.key('k0'), W.value('v0'), Maker(W.witness('w0')))
    prefix = u.prefix; seal = u.seal; snap = c.snapshot(u)
    n = c.returns('from_unused_prefix', cl.LeafPrefix.from_unused_prefix, u, k, v, ask)
    c.check('closes one seal', len(ask.calls) == 1); c.check('the seal of the prefix', ask.calls[0][0] is seal)
    c.eq('commitment', ask.calls[0][1], W.leaf_seal(k, v))
    c.check('contents', n.key is k and n.value is v and n.witness is w and type(n) is cl.LeafPrefix)
    c.check('seal', n.seal is w.seal); c.check('prefix', n.prefix[1] is k)
    c.check('unused prefix unchanged', c.unchanged(snap) and u.prefix is prefix and u.seal is seal)
    c.returns('unused prefixes verify', u.verify)
    judge(c, n, w, W.leaf_seal(k, v))

@contract('C14', 'any inner node', samples=800, models=BITARRAYS)
def any_inner(c):
    W = Worlds(c); cl = W.cl
    u = W.unused('u'); l = W.child('l'); r = W.child('r'); w = W.witness('w'); ask = Maker(w)
    if c.bool('before'): cl.InnerPrefix.from_unused_prefix(W.unused('u0'), r, l, Maker(W.witness('w0')))
    prefix = u.prefix; seal = u.seal; snap = c.snapshot(u, l, r)
    n = c.returns('from_unused_prefix', cl.InnerPrefix.from_unused_prefix, u, l, r, ask)
    c.check('closes one seal', len(ask.calls) == 1); c.check('the seal of the prefix', ask.calls[0][0] is seal)
    c.eq('commitment', ask.calls[0][1], W.inner_seal(l, r))
    c.check('contents', n.left is l and n.right is r and n.witness is w and type(n) is cl.InnerPrefix)
    c.check('prefix', n.prefix is prefix or n.prefix == prefix); c.check('seal', n.seal is w.seal)
    c.check('unused prefix and children unchanged', c.unchanged(snap))
    judge(c, n, w, W.inner_seal(l, r))

@contract('C14', 'any two children', samples=800, models=BITARRAYS)
def any_children(c):
    W = Worlds(c); cl = W.cl; su = c.mod(SU)
    p = c.list('p', bit); a = c.list('a', bit); b = c.list('b', bit)
    how = c.choice('prefixes', ('fork', 'first', 'second', 'same'))
    left, right = {'fork': (p + (0,) + a, p + (1,) + b), 'first': (p, p + a), 'second': (p + a, p), 'same': (p, p)}[how]
    l = W.child('l'); r = W.child('r'); object.__setattr__(l, 'prefix', W.Bits(left)); object.__setattr__(r, 'prefix', W.Bits(right))
    if c.bool('swap'): l, r = r, l
    snap = c.snapshot(l, r)
    f = c.returns('from_children', cl.InnerPrefix.from_children, l, r)
    c.check('longest common prefix', f.prefix == W.Bits(p)); c.check('children', f.left is l and f.right is r and type(f) is cl.InnerPrefix)
    c.check('simulated', type(f.witness) is su.FakeSealWitness); c.eq('sealed', f.witness.seal.committed_hash, W.inner_seal(l, r))
    c.check('seal', f.seal is f.witness.seal); c.check('children unchanged', c.unchanged(snap))
    if c.bool('pruned'): f = f.prune()
    c.returns('verify', f.verify)

def made(c, W, node):
    """verification of a node whose witness accepts one commitment only"""
    return c.catch(Exception, node.verify)[1] is None
@contract('C14', 'any other contents', samples=600, models=BITARRAYS + VARUINT, parts=[('int', 'int'), ('digest', 'int'), ('int', 'proof'), ('digest', 'proof')])
def other_contents(c):
    """a witness accepting the commitment to some contents verifies no others"""
    cl = map_class(c, c.part[1], c.part[0]); W = Worlds(c, vary=False); VP = c.mod(P).VarProof
    k, v = some_plain(c, 'k', c.part[0]), some_plain(c, 'v', c.part[1]); k2, v2 = some_plain(c, 'k2', c.part[0]), some_plain(c, 'v2', c.part[1])
    if not c.symbolic:
        if c.bool('same key'): k2 = k
        if c.bool('same value'): v2 = v
    w = W.witness('w'); ask = Maker(w)
    u = c.mod(P).VarProof.__new__(cl.UnusedPrefix, prefix=c.mod('proofmarshal.bits').Bits(), seal=W.seal('s'))
    n = cl.LeafPrefix.from_unused_prefix(u, k, v, ask)
    object.__setattr__(w, 'accepted', ask.calls[0][1])
    c.returns('verify', n.verify)
    same = lambda a, b: a == b if not hasattr(a, 'hash') else a.hash == b.hash
    ok = c.both(same(k, k2), same(v, v2))
    got = made(c, W, VP.__new__(cl.LeafPrefix, witness=w, key=k2, value=v2))
    c.check('verifies the sealed contents only', ok if got else c.neg(ok))
    x = W.child('x'); y = W.child('y')
    cl.UNION_CLASSES.append(W.Child)
    c.check('not another kind of node', not made(c, W, VP.__new__(cl.InnerPrefix, prefix=c.mod('proofmarshal.bits').Bits(), witness=w, left=x, right=y)))
def some_plain(c, name, kind):
    if kind == 'int': return c.int(name, 0, U32)
    h = c.bytes(name, n=32)
    return h if kind == 'digest' else c.mod(SU).FakeSingleUseSeal(committed_hash=h)

@contract('C14', 'any other children', samples=600, models=BITARRAYS)
def other_children(c):
    W = Worlds(c, vary=False); cl = W.cl; VP = c.mod(P).VarProof
    l = W.child('l'); r = W.child('r'); w = W.witness('w'); ask = Maker(w)
    cl.InnerPrefix.from_unused_prefix(W.unused('u'), l, r, ask); object.__setattr__(w, 'accepted', ask.calls[0][1])
    a, b = c.choice('order', ((0, 1), (1, 0), (2, 1), (0, 2), (0, 0), (2, 3))); z = (l, r, W.child('z'), W.child('z2'))
    ok = c.both(z[a].seal.hash == l.seal.hash, z[b].seal.hash == r.seal.hash)
    got = made(c, W, VP.__new__(cl.InnerPrefix, prefix=W.prefix('p'), witness=w, left=z[a], right=z[b]))
    c.check('verifies the sealed seals in their order only', ok if got else c.neg(ok))
    k = W.key('k'); v = W.value('v')
    if c.symbolic: c.check('not another kind of node', not made(c, W, VP.__new__(cl.LeafPrefix, witness=w, key=k, value=v)))
