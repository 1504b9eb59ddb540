"""Mountain ranges over lists"""
from engine.api import *
import hashlib
from contracts.proofgen import leb, derived, raw_tag
M = 'proofmarshal.mmr'
TAG = '738b5a85-d6f1-4873-9c21-300a01166f1d'
SUB = {'empty': '390de307-8787-47b7-b25d-250aba02b1e5', 'leaf': '4ea09c8e-87f5-4978-a829-78d42ab8638a', 'inner': 'a7ca25ce-8fee-4063-b022-96b2dbcb392e'}

def mmr_class(c, name='Ints'):
    m = c.mod(M); s = c.mod('proofmarshal.serialize')
    return m.make_mmr_subclass(type(name, (m.MerkleMountainRange,), {'__slots__': [], 'HASHTAG': s.HashTag(TAG), 'VALUE_SERIALIZER': s.UInt64}))
def split(n):
    """how many of n>1 items are on the right"""
    k = n & -n
    return k if k < n else n // 2
def tagged(kind, data): return hashlib.sha256(derived(raw_tag(SUB[kind]), raw_tag(TAG)) + hashlib.sha256(data).digest()).digest()
def mmr_hash(l):
    if not l: return tagged('empty', b'')
    if len(l) == 1: return tagged('leaf', leb(l[0]))
    k = len(l) - split(len(l))
    return tagged('inner', mmr_hash(l[:k]) + mmr_hash(l[k:]) + leb(len(l)))
def some_list(c, name='l', hi=None):
    n = c.choice(name + '.n', tuple(range(0, 34)) + (47, 62, 63, 64, 65, 96, 127, 128, 129, 130)) if hi is None else c.choice(name + '.n', range(hi + 1))
    if c.choice(name + '.kind', (0, 1)): return [c.choice(name + '.base', (0, 100, 2**63)) + k for k in range(n)]
    b = c.bytes(name + '.items', n=n)
    return [x % 3 if c.choice(name + '.few', (0, 1)) else x for x in b]
def build(c, cl, l, name='b'):
    """the range over a list, made in any way"""
    how = c.choice(name + '.how', ('new', 'append', 'extend', 'mixed', 'generator'))
    if how == 'new': return cl(l)
    if how == 'generator': return cl(x for x in l)
    r = cl()
    if how == 'append':
        for x in l: r = r.append(x)
    elif how == 'extend': r = r.extend(iter(l))
    else:
        k = 0
        while k < len(l):
            n = c.choice('%s.%d' % (name, k), (1, 1, 2, 3, 5, 8, 13))
            r = r.append(l[k]) if n == 1 else r.extend(cl(l[k:k + n])) if n == 3 else r.extend(l[k:k + n])
            k += n if n > 1 else 1
    return r
