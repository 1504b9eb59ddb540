"""C29: Bloom filters"""
from engine.api import *
from engine.symtools import MURMUR
M = 'bitcoin.bloom'
MASK = 0xffffffff

# ---- Murmur3 (x86, 32 bit)
def rotl(x, r): return ((x << r) & MASK) | (x >> (32 - r))
def mix(k): return (rotl((k * 0xcc9e2d51) & MASK, 15) * 0x1b873593) & MASK
def round(h, k): return (((rotl(h ^ mix(k), 13) * 5) & MASK) + 0xe6546b64) & MASK
def final(h, n):
    h = h ^ (n & MASK)
    h = ((h ^ (h >> 16)) * 0x85ebca6b) & MASK
    h = ((h ^ (h >> 13)) * 0xc2b2ae35) & MASK
    return h ^ (h >> 16)
def ref_murmur(seed, b):
    h = seed; n = len(b) // 4 * 4
    for i in range(0, n, 4): h = round(h, int.from_bytes(b[i:i + 4], 'little'))
    if b[n:]: h ^= mix(int.from_bytes(b[n:], 'little'))
    return final(h, len(b))

@loop('MurmurHash3#0')
class Blocks(LoopSpec):
    # h1 is the state after the words before i
    def enter(self, L): L.g.h = L.env('state'); L.g.next = L.env('seed'); L.g.j = None
    def havoc(self, L):
        L.g.j = j = L.fresh('j', 0); L.g.next = L.env('after')(j)
        return {'i': 4 * j, 'h1': L.g.h(j)}
    def inv(self, L):
        n = len(L['vDataToHash'])
        j = L.g.j if L.mode == 'assume' else 0 if L.g.j is None else L.g.j + 1
        return [('at a word', L['i'] == 4 * j), ('within the words', L['i'] <= n - n % 4), ('state', True if L.mode == 'assume' else L.same_word(L['h1'], L.g.next))]
    def variant(self, L): return len(L['vDataToHash']) - L['i']

@contract('C29', 'hash', samples=4000, cuts=['MurmurHash3#0'])
def murmur(c):
    m = c.mod(M); seed = c.int('seed', 0, MASK); b = c.bytes('b')
    if not c.symbolic: c.eq('hash', c.returns('MurmurHash3', m.MurmurHash3, seed, b), ref_murmur(seed, b)); return
    n = len(b); w = n // 4
    # state(j): after j words, where state(0) is the seed and state(j + 1) is round(state(j), word j)
    h = c.sequence('state', 0, MASK)
    c.ghost(state=h, seed=seed, after=lambda j: round(h(j), c.from_le(b[4 * j:4 * j + 4])))
    r = c.returns('MurmurHash3', m.MurmurHash3, seed, b)
    l = c.loop('MurmurHash3#0'); t = b[4 * w:]
    if l is None: c.unsupported('no loop over the words')
    c.lemma('all words', l.g.j == w)
    last = h(l.g.j)
    if c.lt(0, len(t)): last = last ^ mix(c.from_le(t))
    c.word('hash', r, final(last, n))

def some_filter(c, m):
    """any filter the protocol allows"""
    f = m.CBloomFilter.__new__(m.CBloomFilter)
    size = c.choice('size', (0, 1, 1, 2, 3, 5, 8, 36000)) if c.choice('s', (0, 1)) else c.int('bytes', 1, 36000)
    f.vData = bytearray(size if c.choice('empty', (0, 1, 1)) else c.bytes('data', n=size))
    f.nHashFuncs = c.choice('funcs', (0, 1, 2, 5, 49, 50)) if c.choice('n', (0, 1)) else c.int('nHashFuncs', 0, 50)
    f.nTweak = c.int('tweak', 0, 2**32 - 1); f.nFlags = c.choice('flags', (0, 1, 2, 3, 4, 255))
    return f
def positions(f, e): return [ref_murmur((i * 0xFBA4C795 + f.nTweak) & MASK, e) % (len(f.vData) * 8) for i in range(f.nHashFuncs)] if f.vData else []
def some_elem(c, name):
    k = c.choice(name + '?', (0, 1, 2, 3, 4)); b = c.mod('bitcoin.core')
    if k == 2: return b.script.CScript(c.bytes(name, 0, 40))
    return c.bytes(name, 0, 40) if k > 2 else (b.CMutableOutPoint if k else b.COutPoint)(c.bytes(name + '.hash', n=32), c.int(name + '.n', 0, 2**32 - 1))
def raw(c, e): return e if isinstance(e, bytes) else bytes(e.hash) + e.n.to_bytes(4, 'little')
def bits(f): return int.from_bytes(f.vData, 'little')

@contract('C29', 'never forgets', samples=1200, sym=False, bounded='sampled filters and histories')
def remembers(c):
    m = c.mod(M)
    if c.choice('made', (0, 0, 0, 1)):
        n = c.int('elements', 1, 30000); p = c.choice('rate', (0.5, 0.1, 0.01, 0.0001, 1e-9))
        f = c.returns('filter', m.CBloomFilter, n, p, c.int('tweak', 0, 2**32 - 1), c.choice('flags', (0, 1, 2)))
        c.check('within limits', f.IsWithinSizeConstraints())
    else: f = some_filter(c, m)
    want = bits(f); n, t, g, size = f.nHashFuncs, f.nTweak, f.nFlags, len(f.vData); seen = []
    def same(f):
        c.eq('hash functions', f.nHashFuncs, n); c.eq('tweak', f.nTweak, t); c.eq('flags', f.nFlags, g); c.eq('size', len(f.vData), size)
    for k in range(c.choice('steps', range(1, 8))):
        s = c.sub('step%d' % k); op = s.choice('op', ('insert', 'insert', 'insert', 'again', 'ask', 'decode'))
        if op == 'decode':
            e = c.returns('serialize', f.serialize)
            c.eq('encoding', e, c.compact(len(f.vData)) + bytes(f.vData) + n.to_bytes(4, 'little') + t.to_bytes(4, 'little') + bytes([g]))
            f = c.returns('deserialize', m.CBloomFilter.deserialize, e); same(f)
        else:
            x = s.choice('which', seen) if op == 'again' and seen else some_elem(s, 'e'); r = raw(c, x); pos = positions(f, r)
            if op == 'ask': c.check('contains exactly when all bits are set', bool(f.contains(x)) is all(want >> p & 1 for p in pos))
            else:
                c.returns('insert', f.insert, x); seen.append(x)
                new = want
                for p in pos: new |= 1 << p
                want = new
        c.check('bits', bits(f) == want); same(f)
        for x in seen: c.check('remembers', c.returns('contains', f.contains, x) is True)
    for x in seen:
        r = raw(c, x); c.check('as bytes or outpoint', f.contains(r) is True)

# ---- proved for filters of every size, with the hash function by its contract
def any_filter(c, least=1):
    m = c.mod(M); f = m.CBloomFilter.__new__(m.CBloomFilter); n = c.int('size', least, 36000)
    f.vData = bytearray(c.bitbytes('data', n)); f.nHashFuncs = c.int('nHashFuncs', 0, 50); f.nTweak = c.int('tweak', 0, MASK); f.nFlags = c.int('flags', 0, 255)
    return f
def seed(f, i): return (i * 0xFBA4C795 + f.nTweak) & MASK
def elem(c, name):
    """an element, and its bytes"""
    k = c.choice(name + '?', (0, 1, 2)); b = c.mod('bitcoin.core')
    if k: e = (b.COutPoint if k == 1 else b.CMutableOutPoint)(c.bytes(name + '.hash', n=32), c.int(name + '.n', 0, MASK)); return e, c.raw(e.hash) + c.le(e.n, 4)
    e = c.bytes(name, 0, None if c.symbolic else 40); return e, e
def position(c, f, r, i):
    """the position the protocol specifies: hash i of the element, modulo the number of bits"""
    return (c.mod(M).MurmurHash3(seed(f, i), r) if c.symbolic else ref_murmur(seed(f, i), r)) % (len(f.vData) * 8)
def isset(v, p): return (v[p // 8] >> (p % 8)) & 1 == 1
def at_bit(c, p):
    """(one process for each bit of a byte)"""
    if c.symbolic: c.assume(p % 8 == c.part)
def parameters(f): return (f.nHashFuncs, f.nTweak, f.nFlags, len(f.vData))
def same_parameters(c, f, old):
    for k, a, b in zip(('hash functions', 'tweak', 'flags', 'size'), parameters(f), old): c.eq(k, a, b)

@loop('CBloomFilter.insert#0')
class Insert(LoopSpec):
    # the filter keeps its size, and what the contract claims of it holds after every hash
    def enter(self, L): L.g.v = L['self'].vData; L.g.n = len(L.g.v)
    def havoc(self, L):
        L.g.v.segs = L.bitbytes(L.g.n).segs; L.havocs(L.g.v)
    def inv(self, L):
        return [('same array', L['self'].vData is L.g.v), ('size', len(L.g.v) == L.g.n), ('claim', L.env('claim')(L.g.v, L.k))]
@loop('CBloomFilter.contains#0')
class Contains(LoopSpec):
    # no bit was missing so far
    def inv(self, L): return [('claim', L.env('claim')(L['self'].vData, L.k))]

@contract('C29', 'an inserted element has all its bits set', models=MURMUR, cuts=['CBloomFilter.insert#0'], parts=range(8), samples=300)
def sets(c):
    f = any_filter(c); e, r = elem(c, 'e'); j = c.int('hash', 0, 49); c.assume(j < f.nHashFuncs); old = parameters(f)
    p = position(c, f, r, j); at_bit(c, p)
    c.ghost(claim=lambda v, k: c.implies(k > j, isset(v, p)))
    c.returns('insert', f.insert, e)
    c.check('bit set', isset(f.vData, p)); same_parameters(c, f, old)

@contract('C29', 'insertions keep the bits that are set', models=MURMUR, cuts=['CBloomFilter.insert#0'], parts=range(8), samples=300)
def keeps(c):
    f = any_filter(c); e, r = elem(c, 'e'); p = c.int('position', 0); c.assume(p < 8 * len(f.vData)); at_bit(c, p); c.assume(isset(f.vData, p)); old = parameters(f)
    c.ghost(claim=lambda v, k: isset(v, p))
    c.returns('insert', f.insert, e)
    c.check('still set', isset(f.vData, p)); same_parameters(c, f, old)

@contract('C29', 'insertions set no other bits', models=MURMUR, cuts=['CBloomFilter.insert#0'], parts=range(8), samples=300)
def others(c):
    f = any_filter(c); e, r = elem(c, 'e'); p = c.int('position', 0); c.assume(p < 8 * len(f.vData)); at_bit(c, p); was = isset(f.vData, p)
    if c.symbolic:
        # p is not one of the positions
        def hashed(s, d, h):
            i = c.witness('CBloomFilter.insert#0')
            if i is not None: c.define(c.implies(c.both(i >= 0, i < f.nHashFuncs, s == seed(f, i), c.same(d, r)), h % (len(f.vData) * 8) != p))
        c.ghost(hashed=hashed)
    else: c.assume(all(p != position(c, f, r, i) for i in range(f.nHashFuncs)))
    c.ghost(claim=lambda v, k: c.implies(isset(v, p), was))
    c.returns('insert', f.insert, e)
    c.check('not set', c.implies(isset(f.vData, p), was))

@contract('C29', 'an element with all its bits set is contained', models=MURMUR, cuts=['CBloomFilter.contains#0'], samples=300)
def contained(c):
    f = any_filter(c); e, r = elem(c, 'e'); c.ghost(claim=lambda v, k: True); snap = c.snapshot(f)
    if not c.symbolic:
        for i in range(f.nHashFuncs): p = position(c, f, r, i); f.vData[p // 8] |= 1 << (p % 8)
        snap = c.snapshot(f)
    a = c.returns('contains', f.contains, e)
    c.check('asking changes nothing', c.unchanged(snap))
    if a is not True:
        c.check('a bool', a is False)
        if not c.symbolic: c.check('contained', False); return
        i = c.witness('CBloomFilter.contains#0')
        if i is None: c.unsupported('where a bit was missing')
        c.check('one of the hashes', c.both(i >= 0, i < f.nHashFuncs)); c.check('missing only if its bit is', c.neg(isset(f.vData, position(c, f, r, i))))

@contract('C29', 'an element with a bit unset is not contained', models=MURMUR, cuts=['CBloomFilter.contains#0'], samples=300)
def missing(c):
    f = any_filter(c); e, r = elem(c, 'e'); j = c.int('hash', 0, 49); c.assume(j < f.nHashFuncs); p = position(c, f, r, j); c.assume(c.neg(isset(f.vData, p)))
    c.ghost(claim=lambda v, k: k <= j)
    c.check('not contained', c.returns('contains', f.contains, e) is False)

@contract('C29', 'a filter without bits contains everything', samples=50)
def no_bits(c):
    m = c.mod(M); f = m.CBloomFilter.__new__(m.CBloomFilter); f.vData = bytearray()
    f.nHashFuncs = c.int('nHashFuncs', 0, 50); f.nTweak = c.int('tweak', 0, MASK); f.nFlags = c.int('flags', 0, 255); old = parameters(f)
    e, r = elem(c, 'e'); d, q = elem(c, 'd')
    c.returns('insert', f.insert, e); same_parameters(c, f, old)
    c.check('contained', c.returns('contains', f.contains, e) is True); c.check('other elements too', c.returns('contains', f.contains, d) is True); same_parameters(c, f, old)

@contract('C29', 'serialization', samples=300)
def wire(c):
    m = c.mod(M); f = any_filter(c, 0); tail = c.bytes('tail', 0, 20); d = c.raw(bytes(f.vData)); old = parameters(f)
    e = c.compact(len(f.vData)) + d + c.le(f.nHashFuncs, 4) + c.le(f.nTweak, 4) + c.le(f.nFlags, 1)
    c.eq('encoding', c.returns('serialize', f.serialize), e)
    s = c.mod("bitcoin.core.serialize")._BytesIO(e + tail)
    g = c.returns('deserialize', m.CBloomFilter.stream_deserialize, s)
    c.check('class', type(g) is m.CBloomFilter); c.eq('data', bytes(g.vData), d); same_parameters(c, g, old); c.eq('consumed', c.remaining(s), tail)
    c.check('can be inserted into', isinstance(g.vData, bytearray)); c.eq('unchanged', bytes(f.vData), d)
