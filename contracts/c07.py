"""C07: a mountain range is the list it was built from"""
from engine.api import *
from contracts.mmrgen import *
import operator

class Int(int):
    """any subclass of int"""

@contract('C07', 'list', samples=1500, sym=False, bounded='sampled lists of up to 130 values')
def as_list(c):
    cl = mmr_class(c); l = some_list(c)
    r = c.returns('construction', build, c, cl, l)
    how = c.choice('then', ('', '', 'decoded', 'pruned'))
    if how == 'decoded': r = c.returns('decode', cl.deserialize, r.serialize())
    if how == 'pruned': r = c.returns('prune', r.prune)
    c.check('length', len(r) == len(l))
    c.eq('items', list(r), l); c.eq('reversed', list(reversed(r)), l[::-1])
    n = len(l)
    for i in range(-n, n): c.check('index', r[i] == l[i])
    for i in (0, 1, -1, n - 1):
        if -n <= i < n: c.check('index of another kind of int', c.returns('index', operator.getitem, r, Int(i)) == l[i])
    for i in (False, True):
        if i < n: c.check('index by a bool', c.returns('index', operator.getitem, r, i) == l[i])
    c.raises('index out of range', IndexError, operator.getitem, r, Int(n))
    for i in (n, n + 1, -n - 1, -n - 2, 2 * n + 1, -2 * n - 1, 2**64, -2**64): c.raises('index out of range', IndexError, operator.getitem, r, i)
    c.raises('index type', TypeError, operator.getitem, r, c.choice('bad', ('0', None, 1.0, (0,))))
    c.raises('assignment', TypeError, operator.setitem, r, 0, 1); c.raises('deletion', TypeError, operator.delitem, r, 0)

@contract('C07', 'slices', samples=3000, sym=False, bounded='sampled lists of up to 130 values')
def slices(c):
    cl = mmr_class(c); l = some_list(c); r = build(c, cl, l); n = len(l)
    bound = lambda nm: c.choice(nm + '?', (None, 'near', 'any', 'any')) and c.int(nm, -n - 3, n + 3)
    a, b = bound('start'), bound('stop')
    s = slice(a, b, c.choice('step', (None, 1)))
    x = c.returns('slice', operator.getitem, r, s)
    c.eq('slice', list(x), l[s]); c.check('slice length', len(x) == len(l[s]))
    c.check('class of the slice', isinstance(x, cl))
    c.eq('range sliced', list(r), l)
    s = slice(a, b, c.choice('other step', (2, -1, 3, -2)))
    x, err = c.catch(NotImplementedError, operator.getitem, r, s)
    if err is None: c.eq('stepped slice', list(x), l[s])

@contract('C07', 'earlier versions', samples=600, sym=False, bounded='sampled lists of up to 60 values')
def versions(c):
    cl = mmr_class(c); r = cl(); l = []; seen = [(r, [], r.hash)]
    for k in range(c.choice('steps', range(1, 30))):
        if c.choice('s%d' % k, (0, 0, 1)): x = some_list(c, 'e%d' % k, 6); r = c.returns('extend', r.extend, x); l = l + x
        else: x = c.int('v%d' % k, 0, 2**64 - 1); r = c.returns('append', r.append, x); l = l + [x]
        seen.append((r, l, r.hash))
    for r, l, h in seen:
        c.eq('items', list(r), l); c.check('length', len(r) == len(l)); c.check('hash', r.hash == h)
        if l: c.check('last', r[-1] == l[-1] and r[len(l) - 1] == l[-1] and r[0] == l[0])

@contract('C07', 'values', samples=300, sym=False, bounded='sampled')
def values(c):
    cl = mmr_class(c); l = some_list(c, hi=9); r = build(c, cl, l)
    bad = c.choice('bad', (-1, 2**64, 'x', None, True, b'', 1.0))
    c.check('rejected', c.catch((TypeError, ValueError), r.append, bad)[1] is not None)
    c.check('rejected', c.catch((TypeError, ValueError), r.extend, l + [bad])[1] is not None)
    c.eq('unchanged', list(r), l)

# ------------------------------------------------------------ ranges of every size
from contracts.mmrtree import *


def is_range(c, cl, label, r, l):
    """r is a mountain range over l"""
    c.check(label + ' class', isinstance(r, cl))
    x = listed(c, cl, r)
    c.check(label + ' made of ranges', x is not None)
    c.eq(label, x, l)

@contract('C07', 'bit lemma', conc=False)
def bit_lemma(c): c.band_lemma()

@contract('C07', 'one or no value', samples=300)
def small(c):
    cl = mmr_class(c)
    e = cl.EmptyNodeClass(); v = c.int('v', 0, 2**64 - 1); x = c.returns('leaf', e.append, v)
    c.check('empty range', c.both(type(cl()) is type(e), len(e) == 0)); c.eq('no values', tuple(e), ()); c.eq('none backwards', tuple(reversed(e)), ())
    is_range(c, cl, 'one value', x, (v,))
    c.check('length', len(x) == 1); c.eq('value', tuple(x), (v,)); c.eq('backwards', tuple(reversed(x)), (v,))
    i = c.int('i', None, None)
    r, err = c.catch(IndexError, operator.getitem, x, i)
    if err is None: c.check('index', c.either(i == 0, i == -1)); c.eq('indexed', r, v)
    else: c.check('out of range', c.neg(c.either(i == 0, i == -1)))
    c.raises('nothing there', IndexError, operator.getitem, e, i)
    a = c.opt('start', lambda: c.int('a')); b = c.opt('stop', lambda: c.int('b')); s = slice(a, b, c.choice('step', (None, 1)))
    is_range(c, cl, 'slice', c.returns('slice', operator.getitem, x, s), (v,)[s])
    is_range(c, cl, 'slice of nothing', c.returns('slice', operator.getitem, e, s), ())
    w = c.int('w', 0, 2**64 - 1)
    is_range(c, cl, 'two values', c.returns('append', x.append, w), (v, w))
    is_range(c, cl, 'same leaf', x, (v,)); is_range(c, cl, 'still nothing', e, ())

@contract('C07', 'reading a range', samples=300)
def reading(c):
    cl = mmr_class(c); l, r, A, B, p, m = inner(c, cl); n = len(l)
    what = c.choice('what', ('length', 'index', 'forwards', 'backwards', 'bad index', 'stepped', 'change'))
    if what == 'length': c.check('length', len(r) == n)
    elif what == 'forwards': c.eq('items', list(r), list(l))
    elif what == 'backwards': c.eq('items backwards', list(reversed(r)), list(l[::-1]))
    elif what == 'index':
        i = c.int('i', None, None)
        x, err = c.catch(IndexError, operator.getitem, r, i); inside = c.both(i >= -n, i < n)
        c.check('index error exactly when out of range', inside if err is None else c.neg(inside))
        if err is None: c.eq('value', x, l[i])
    elif what == 'bad index': c.raises('index type', TypeError, operator.getitem, r, c.choice('bad', ('0', None, 1.0, (0,))))
    elif what == 'stepped': c.raises('only contiguous slices', NotImplementedError, operator.getitem, r, slice(None, None, c.choice('step', (2, -1, 3))))
    else: c.raises('assignment', TypeError, operator.setitem, r, 0, 1); c.raises('deletion', TypeError, operator.delitem, r, 0)

@contract('C07', 'slices of a range', samples=200, cuts=[EXTEND])
def slicing(c):
    cl = mmr_class(c); l, r, A, B, p, m = inner(c, cl); n = len(l)
    c.ghost(range=(c, cl))
    a = c.opt('start?', lambda: c.int('start', None if c.symbolic else -n - 3, None if c.symbolic else n + 3))
    b = c.opt('stop?', lambda: c.int('stop', None if c.symbolic else -n - 3, None if c.symbolic else n + 3))
    s = slice(a, b, c.choice('step', (None, 1)))
    is_range(c, cl, 'slice', c.returns('slice', operator.getitem, r, s), l[s])

@contract('C07', 'append', samples=300)
def appending(c):
    cl = mmr_class(c); l, r, A, B, p, m = inner(c, cl); before = c.snapshot(r)
    v = c.int('v', 0, 2**64 - 1)
    is_range(c, cl, 'appended', c.returns('append', r.append, v), l + (v,))
    c.check('unchanged', c.unchanged(before))

@contract('C07', 'merge', samples=300, models=PERFECTLY)
def merge(c):
    cl = mmr_class(c); l, r, Q, q = merging(c, cl); before = c.snapshot(r, q); c.ghost(range=(c, cl))
    is_range(c, cl, 'merged', c.returns('merge', r._merge_trees, q), l + Q)
    c.check('unchanged', c.unchanged(before))

@contract('C07', 'extend', samples=300, cuts=[EXTEND])
def extending(c):
    cl = mmr_class(c); c.ghost(range=(c, cl))
    what = c.choice('from', ('empty', 'leaf', 'inner', 'construction'))
    v = c.int('v', 0, 2**64 - 1); new = c.list('new', val)
    if what == 'inner': l, r, A, B, p, m = inner(c, cl)
    else: l = (v,) if what == 'leaf' else (); r = cl.LeafNodeClass(v) if l else cl.EmptyNodeClass()
    before = c.snapshot(r)
    x = c.returns('construction', cl, new) if what == 'construction' else c.returns('extend', r.extend, range_over(c, cl, new) if c.choice('values', ('list', 'range')) == 'range' else new)
    is_range(c, cl, 'extended', x, l + new)
    c.check('unchanged', c.unchanged(before))
