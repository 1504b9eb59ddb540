"""C20: script numbers"""
from engine.api import *

M = 'bitcoin.core._bignum'

# big-endian magnitude: the bytes written so far are the top bytes of v, the i bytes below them remain
@loop('bn2bin#0')
class Bn2Bin(LoopSpec):
    def enter(self, L):
        L.g.s = L['s']; L.g.v = L['v']; L.g.n = L['i']; n = L.g.n; v = L.g.v
        L.g.bytes = L.generator(lambda j: L.shr8(v, n - 1 - j) % 256)
    def havoc(self, L):
        i = L.fresh('i', 0); L.assume(i <= L.g.n)
        L.g.s.segs = L.sequence(L.g.n - i, L.g.bytes).segs
        L.havocs(L.g.s)
        return {'i': i}
    def inv(self, L):
        i = L['i']
        return [('range', (i >= 0)), ('range', i <= L.g.n), ('bytes so far', L.eqn(L.g.s, L.sequence(L.g.n - i, L.g.bytes)))]
    def variant(self, L): return L['i']

# the value read so far is the top part of the number being decoded
@loop('bin2bn#0')
class Bin2Bn(LoopSpec):
    def enter(self, L):
        L.g.a = a = L.env('a'); L.g.n = len(L['s'])
        L.shr8(a, L.nbytes(a))       # nothing above the top byte
    def havoc(self, L): return {'l': L.fresh('l', 0), 'ch': None}
    def inv(self, L): return [('value so far', L['l'] == L.shr8(L.g.a, L.g.n - L.k))]

def describes(c, r, v):
    """r is the shortest little-endian sign-magnitude form of v"""
    if v == 0: c.eq('zero is empty', r, b''); return
    a = -v if v < 0 else v
    n = len(r)
    c.check('not empty', n >= 1)
    top = r[n - 1]
    m = c.shr8(a, n - 1)
    c.check('the last byte holds the top of the magnitude and the sign', top == (m + 128 if v < 0 else m))
    c.check('no magnitude is lost', m < 128)
    if m == 0:
        c.check('shortest', n >= 2)
        c.check('the extra byte is needed for the sign', r[n - 2] >= 128)
    if c.symbolic:
        j = c.int('j', 0); c.assume(j < n - 1)
        c.check('magnitude bytes', r[j] == c.shr8(a, j) % 256)
    else:
        c.check('magnitude bytes', all(r[j] == (a >> (8 * j)) % 256 for j in range(n - 1)))

def number(c):
    # enumerate zero and the signs separately
    s = c.choice('sign', ('zero', 'positive', 'negative'))
    if s == 'zero': return 0
    a = c.int('magnitude', 1)
    c.assume(c.nbytes(a) <= 2**32 - 2)
    return a if s == 'positive' else -a

@contract('C20', 'shortest form', cuts=['bn2bin#0'])
def encode(c):
    m = c.mod(M)
    v = number(c)
    r = c.returns('bn2vch', m.bn2vch, v)
    c.check('bytes', r.__class__ is bytes)
    describes(c, r, v)

@contract('C20', 'decodes to the same integer', cuts=['bn2bin#0', 'bin2bn#0'])
def decode(c):
    m = c.mod(M)
    v = number(c)
    c.ghost(a=-v if v < 0 else v)
    r = m.bn2vch(v)
    c.eq('decoded', c.returns('vch2bn', m.vch2bn, r), v)

@contract('C20', 'big-number message form', cuts=['bn2bin#0'])
def mpi(c):
    m = c.mod(M)
    v = number(c)
    c.ghost(a=-v if v < 0 else v)
    r = c.returns('bn2mpi', m.bn2mpi, v)
    n = len(r) - 4
    c.check('length prefix', n >= 0)
    c.eq('length prefix', r[:4], c.le(n, 4)[::-1])
    describes(c, r[4:][::-1], v)
    if not c.symbolic or v == 0: c.eq('decoded', c.returns('mpi2bn', m.mpi2bn, r), v)

@contract('C20', 'message form decodes', cuts=['bn2bin#0', 'bin2bn#0'])
def mpi_back(c):
    m = c.mod(M)
    v = number(c)
    c.ghost(a=-v if v < 0 else v)
    c.eq('decoded', c.returns('mpi2bn', m.mpi2bn, m.bn2mpi(v)), v)

@contract('C20', 'message form with a wrong length is refused')
def mpi_bad(c):
    m = c.mod(M)
    b = c.bytes('b'); n = c.int('n', 0, 2**32 - 1)
    c.assume(len(b) != n)
    c.check('refused', c.returns('mpi2bn', m.mpi2bn, c.le(n, 4)[::-1] + b) is None)
    if len(b) < 4: c.check('refused', c.returns('mpi2bn', m.mpi2bn, b) is None)
