"""Mountain ranges of every size: nodes whose children are known by the contract of a range only.

A range "is" a list of values: empty, a leaf, or an inner node of the right shape over the two halves.  The children
of the node under verification are stand-ins (`Range`) meeting that contract; every method of the node is verified
against the contract with them in place, which is the step of the induction over the tree."""
from engine.api import *
from contracts.mmrgen import *
import operator

def val(d, k): return d.int('v', 0, 2**64 - 1)
def range_over(c, cl, l):
    """a range over the list, known by its contract only"""
    return Range_class(c, cl)(l) if c.symbolic else cl(l)
def Range_class(c, cl):
    if hasattr(cl, 'Range'): return cl.Range
    class Range(cl):
        """what every mountain range does, for a list of any length"""
        __module__ = 'proofmarshal.mmr'
        def __new__(r, l):
            self = object.__new__(r); object.__setattr__(self, 'items', l); object.__setattr__(self, '_Proof__orig_instance', None)
            return self
        is_pruned = False
        @property
        def hash(self): return self.digest
        def __len__(self): return len(self.items)
        def __iter__(self): return iter(self.items)
        def __reversed__(self): return iter(self.items[::-1])
        def __getitem__(self, idx):
            if isinstance(idx, slice):
                c.lemma('unit step', idx.step is None or idx.step == 1)
                return r_new(self.items[idx.start:idx.stop])
            return self.items[idx]
        def append(self, value): return r_new(self.items + (value,))
        def _merge_trees(self, new_right):
            # the precondition: a perfect tree whose size divides the size of this range
            c.lemma('merging a perfect tree into a range of a multiple of its size', divides(c, len(self.items), len(new_right)))
            c.lemma('merging into an inner node', c.both(len(self.items) >= 2, len(new_right) >= 2))
            return r_new(self.items + listed(c, cl, new_right))
    def r_new(l): return Range(l)
    type.__setattr__(cl, 'Range', Range); type.__setattr__(cl, 'ctx', c)
    if cl.UNION_CLASSES is not None: cl.UNION_CLASSES.append(Range)
    return Range
def listed(c, cl, r):
    """the list a range is"""
    if hasattr(r, 'items') and c.symbolic: return r.items
    if type(r) is cl.EmptyNodeClass: return ()
    if type(r) is cl.LeafNodeClass: return (r.value,)
    if type(r) is cl.InnerNodeClass: return listed(c, cl, r.left) + listed(c, cl, r.right)
    return None
def shaped(c, cl, label, r):
    """every inner node (down to the ranges known by contract) is split as specified and counts its values"""
    if type(r) is not cl.InnerNodeClass: return
    a, b = len(listed(c, cl, r.left)), len(listed(c, cl, r.right))
    c.check(label + ' count', r.length == a + b)
    c.check(label + ' halves', halves(c, a, b))
    shaped(c, cl, label, r.left); shaped(c, cl, label, r.right)

# sizes: p is a power of two throughout
def power(c, name):
    """a power of two"""
    if not c.symbolic: return 2 ** c.choice(name + '.exponent', (0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 9))
    p = c.int(name, 1); h = c.int(name + '.half', 1)
    c.assume(c.either(p == 1, p == 2 * h))
    c.ghost(powers=c.ghosts().get('powers', ()) + ((p, p), (2 * p, 2 * p), (2 * p, p)))
    c.band(2 * p, p, 0)
    return p
def multiple(c, name, p, lo=1):
    """a multiple of p, at least lo * p; with it come q = 2 * m and q + p"""
    if not c.symbolic: return c.int(name + '.times', lo, max(1, min(6, 300 // p))) * p
    m = c.int(name, lo if lo < 2 else None); c.assume(m >= (p if lo else 0))
    if lo == 0: c.assume(c.either(m == 0, m >= p))
    c.ghost(powers=c.ghosts().get('powers', ()) + ((m, p), (2 * m, 2 * p), (2 * m, p), (2 * m + p, p)))
    c.band(2 * m, p, 0); c.band(2 * m + p, p, p)
    return m
def also(c, *pairs):
    """further consequences: (n, p) when the power of two p divides n"""
    if c.symbolic: c.ghost(powers=c.ghosts().get('powers', ()) + pairs)
def divides(c, n, p):
    """p is a power of two that divides n"""
    if not c.symbolic: return p > 0 and p & p - 1 == 0 and n % p == 0
    return c.either(*[c.both(n == a, p == b) for a, b in c.ghosts().get('powers', ())])
def halves(c, a, b):
    """a tree of a + b values is split into a and b: at the lowest set bit, or in half when that is the only one"""
    if not c.symbolic: return a > 0 and b == split(a + b)
    # b is a power of two and 2 * b divides a: b is the lowest set bit of a + b
    return c.both(a > 0, c.either(c.both(a == b, divides(c, b, b)), divides(c, a, 2 * b)))

def inner(c, cl, odd=None, name=''):
    """an inner node over lists of any length: its list, the node, the two halves, p"""
    p = power(c, name + 'p')
    if odd is not None: c.assume((p == 1) if odd else (p > 1))
    if c.choice(name + 'perfect', (False, True)): a, m = p, None
    else: m = multiple(c, name + 'm', p); a = 2 * m
    c.assume(a + p < 2**62)
    A = c.list(name + 'A', val, n=a); B = c.list(name + 'B', val, n=p)
    node = cl.InnerNodeClass(range_over(c, cl, A), range_over(c, cl, B))
    return A + B, node, A, B, p, m

EXTEND = 'MerkleMountainRange.extend#0'
def merging(c, cl):
    """an inner node and a perfect tree of a size that divides its own"""
    l, r, A, B, p, m = inner(c, cl); n = len(l)
    how = c.choice('size', ('same', 'smaller', 'twice'))
    if how == 'same': q = p
    elif how == 'twice': c.assume(m is None); q = 2 * p
    else:
        # p = 2 * k, where q divides k
        q = power(c, 'q'); k = multiple(c, 'k', q); c.assume(p == 2 * k)
        c.band(n, q, 0); also(c, (n, 2 * q), (n, q))
    c.assume(c.both(n + q < 2**62, q >= 2))
    if m is None: also(c, (n, 2 * p), (n, n))
    Q = c.list('Q', val, n=q)
    return l, r, Q, range_over(c, cl, Q)
def PERFECT(w, orig):
    def is_perfect_tree(self):
        c = self.ctx
        c.lemma('a perfect tree', divides(c, len(self), len(self)))
        return True
    return is_perfect_tree
PERFECTLY = [('proofmarshal.mmr:MerkleMountainRange.is_perfect_tree', PERFECT)]

