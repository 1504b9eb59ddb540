"""C10: subsets"""
from engine.api import *
from contracts.treegen import *

def subset(d, e): return all(k in e and e[k] == v for k, v in d.items())
@contract('C10', 'inclusion', samples=4000, sym=False, bounded='sampled maps of up to 14 keys')
def inclusion(c):
    w = width(c); cl = tree_class(c, w); e = some_map(c, 'e', w)
    how = c.choice('how', ('any', 'part', 'part', 'part', 'alter', 'more', 'group', 'group'))
    if how == 'any': d = some_map(c, 'd', w)
    elif how == 'group':
        # the keys starting with some prefix, often all of them
        keys = list(e); c.assume(keys)
        k = bits_of(keys[c.int('k', 0, len(keys) - 1)]); p = k[:c.int('p', 0, len(k))]
        d = {x: v for x, v in e.items() if bits_of(x)[:len(p)] == p}
        drop = c.choice('drop', (None, None, 0, 1))
        if drop is not None and len(d) > drop: d.pop(list(d)[drop])
    else: d = {k: v for i, (k, v) in enumerate(e.items()) if c.bool('in%d' % i)}
    if how in ('alter', 'more') or c.choice('change', (0, 0, 1)):
        k = some_key(c, 'x', w, list(d) or list(e)); d[k] = some_value(c, 'x')
    a = build(c, cl, d, 'a'); b = build(c, cl, e, 'b')
    if c.bool('pruned'): a = a.prune()
    if c.bool('other pruned'): b = b.prune()
    c.check('d in e', c.returns('issubset', a.issubset, b) is subset(d, e))
    c.check('e in d', c.returns('issubset', b.issubset, a) is subset(e, d))
    c.check('d in d', a.issubset(build(c, cl, d, 'c')) is True)
    c.check('nothing in d', cl().issubset(a) is True); c.check('d in nothing', a.issubset(cl()) is (not d))

@contract('C10', 'other classes', samples=300, sym=False, bounded='sampled')
def other(c):
    w = width(c); cl = tree_class(c, w); o = tree_class(c, w, tag=c.choice('tag', (TAG, '390de307-8787-47b7-b25d-250aba02b1e5')))
    d = some_map(c, 'd', w, 4); a = build(c, cl, d, 'a')
    b = c.choice('what', (0, 0, 1))
    b = build(c, o, d if c.bool('same') else some_map(c, 'e', w, 4), 'b') if not b else c.choice('thing', (None, 3, {}, (), b''))
    c.raises('another class', TypeError, a.issubset, b)

# ------------------------------------------------------------ trees of every size
from contracts.mbt import *

class Asked:
    """the subset questions asked, and their answers: yes means that every key of the first is in the second with an equal
    value, no that some key of it is not"""
    def __init__(self, c, W):
        self.c = c; self.W = W; self.log = []; A = self
        if not c.symbolic: return
        def answer(self, other):
            if same_tree(c, self, other): return True
            return A.ask(self, other)
        def asked(self, other):
            c.lemma('asked about different trees', c.neg(same_tree(c, self, other)))
            return A.ask(self, other)
        self.answer = answer; self.asked = asked
    def ask(self, x, y):
        for a, b, r in self.log:
            if alike(self.c, a, x) and alike(self.c, b, y): return r
        r = self.c.bool('answer%d' % len(self.log)); self.log.append((x, y, r))
        return r
    def included(self, x, y):
        """whether x is included in y: True, False or None for not known"""
        if not self.c.symbolic: return subset(dict(items_of(x)), dict(items_of(y)))
        if alike(self.c, x, y) or self.c.split(self.c.deep_eq(x.hash, y.hash)) == 0: return True
        for a, b, r in self.log:
            if alike(self.c, a, x) and alike(self.c, b, y): return r
        return None
    def judge(self, answer, *pairs):
        """the answer is yes exactly when all the pairs are inclusions"""
        known = [self.included(x, y) for x, y in pairs]
        if answer: self.c.check('yes only when all of it is in', answer is True and all(k is True for k in known))
        else: self.c.check('no only when a part of it is not in', answer is False and any(k is False for k in known))
def alike(c, a, x):
    """the very same tree, or a pruned copy of it"""
    whole = lambda t: t if t._Proof__orig_instance is None else t._Proof__orig_instance
    return whole(a) is whole(x)
def items_of(t): return [(tuple(k.bits), v) for k, v in t.items()]

@contract('C10', 'inner nodes', samples=1000, models=BITARRAYS, parts=('same', 'above', 'below', 'beside'))
def inner_nodes(c):
    """prefixes the same, or one longer than the other, or differing at some bit"""
    W = World(c); A = Asked(c, W); cl = W.cl; m = c.mod('proofmarshal.proof').VarProof
    p = W.bits('p'); a = W.bits('a'); b = W.bits('b'); n = len(p)
    d = c.int('d', 0); c.assume(d < n if c.part in ('above', 'beside') else d == 0) if c.symbolic else None
    if not c.symbolic:
        if c.part in ('above', 'beside'): c.assume(n > 0); d = min(d, n - 1)
    x = W.bits('x'); y = W.bits('y')
    tops = {'same': lambda: p, 'above': lambda: p[:d], 'below': lambda: p + (c.choice('side', (0, 1)),) + x, 'beside': lambda: p[:d] + (1 - p[d],) + x}[c.part]()
    leaf = c.part in ('below', 'beside') and c.bool('leaf')
    if not c.symbolic: W.width = max(n + 1 + len(a), n + 1 + len(b), len(tops) if leaf else len(tops) + 1 + max(len(x), len(y)))
    inner = lambda name, p, l, r: m.__new__(cl.InnerNodeClass, prefix=W.Bits(p), left=W.tree(name + '0', p + (0,) + l), right=W.tree(name + '1', p + (1,) + r))
    me = inner('me', p, a, b)
    if leaf:
        c.assume(not c.symbolic or True)
        if not c.symbolic: tops = tops + (0,) * (W.width - len(tops))
        them = cl.LeafNodeClass(W.key(tops), c.int('v', 0, 2**64 - 1))
    else: them = inner('them', tops, x, y)
    if c.symbolic:
        for t, nm in ((me, 'me'), (them, 'them')): object.__setattr__(t, 'hash', c.bytes(nm + '.hash', n=32))
        # equal hashes are equal kinds, prefixes and children (C09)
        equal = c.both(same_tree(c, me.left, them.left), same_tree(c, me.right, them.right)) if c.part == 'same' else False
        c.assume(c.both(c.implies(same_tree(c, me, them), equal), c.implies(equal, same_tree(c, me, them))))
        run = cl.InnerNodeClass._MerbinnerTree__issubset
        type.__setattr__(cl.InnerNodeClass, '_MerbinnerTree__issubset', A.answer)
        for k in ('issubset', '_MerbinnerTree__issubset'): type.__setattr__(W.stand_in, k, A.answer)
    else: run = cl.InnerNodeClass._MerbinnerTree__issubset
    if c.bool('pruned'): me = me.prune()
    if c.bool('other pruned'): them = them.prune()
    r = c.returns('issubset', run, me, them)
    if c.part == 'same': A.judge(r, (me.left, them.left), (me.right, them.right))
    elif c.part == 'above': A.judge(r, (me, them.right if c.split(p[d] == 1) == 0 else them.left))
    else: c.check('keys on both sides of the next bit, or beside the prefix', r is False)

@contract('C10', 'leaves', samples=300, models=BITARRAYS)
def leaves(c):
    W = World(c); cl = W.cl; kp = W.bits('key', lo=1); W.width = len(kp)
    key = W.key(kp); v = c.int('v', 0, 2**64 - 1); me = cl.LeafNodeClass(key, v)
    if c.bool('pruned'): me = me.prune()
    found = c.bool('found'); w = c.int('w', 0, 2**64 - 1)
    if c.symbolic:
        def getitem(self, k):
            c.lemma('looks its key up', k == key)
            if found: return w
            raise KeyError(k)
        type.__setattr__(W.stand_in, '__getitem__', getitem)
        them = W.stand_in(None, c.bytes('hash', n=32))
    else:
        other = W.bits('other', n=len(kp))
        if other == kp: other = other[:-1] + (1 - other[-1],)
        them = cl({key if found else W.key(other[:-1] + (1 - kp[-1],)): w, W.key(other): 1})
    r = c.returns('issubset', me._MerbinnerTree__issubset, them)
    c.check('found with an equal value', found and v == w if r else c.neg(found and v == w))
    e = cl.EmptyNodeClass(); c.check('nothing', c.returns('issubset', e._MerbinnerTree__issubset, them) is True)

@contract('C10', 'any two trees', samples=300, conc=False, models=BITARRAYS)
def any_trees(c):
    W = World(c); A = Asked(c, W); cl = W.cl; e = cl.EmptyNodeClass(); W.width = 3
    def tree(name):
        if c.bool(name + '.empty'): return e
        t = W.tree(name, W.bits(name + '.prefix'))
        c.assume(c.neg(same_tree(c, t, e)))         # different kinds have different hashes (C09)
        return t
    if c.symbolic: type.__setattr__(W.stand_in, '_MerbinnerTree__issubset', A.asked)
    a, b = tree('a'), tree('b')
    r = c.returns('issubset', a.issubset, b)
    if a is e: c.check('nothing is in anything', r is True)
    elif b is e: c.check('not in nothing', r is False)
    else: A.judge(r, (a, b))
    W2 = World(c); W2.width = 3
    for t in (a, e):
        for o in (W2.tree('o', ()), W2.cl.EmptyNodeClass(), 3, None, (), {}, c.mod(T).MerbinnerTree):
            c.raises('another class', TypeError, t.issubset, o)
