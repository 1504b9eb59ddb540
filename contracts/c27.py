"""C27: Base58 and Base58Check"""
from engine.api import *
M = 'bitcoin.base58'
DIGITS = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

def ref_encode(b):
    z = len(b) - len(b.lstrip(b'\0')); n = int.from_bytes(b, 'big'); out = ''
    while n: n, r = divmod(n, 58); out = DIGITS[r] + out
    return '1' * z + out
def ref_decode(s):
    """the only byte string with this encoding"""
    z = len(s) - len(s.lstrip('1')); n = 0
    for x in s: n = n * 58 + DIGITS.index(x)
    return bytes(z) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
def some_bytes(c, name, hi=None):
    b = c.bytes(name, 0, hi)
    return bytes(c.choice(name + ' zeros', (0, 0, 0, 1, 2, 3, 25, 33))) + b + bytes(c.choice(name + ' end', (0, 0, 0, 1, 2)))
def text(c, name):
    return ''.join(DIGITS[x % 58] for x in bytes(c.choice(name + ' ones', (0, 0, 1, 2, 30))) + c.bytes(name, 0, 60))
BAD = list('0OIl +/=-_\n\t\0') + [chr(x) for x in range(128) if chr(x) not in DIGITS] + ['\xe9', '\u0661', '\U0001d7d9', '\uff11']

@contract('C27', 'encoding', samples=3000, sym=False, bounded='sampled byte strings')
def encoding(c):
    m = c.mod(M); b = some_bytes(c, 'b')
    s = c.returns('encode', m.encode, b)
    c.eq('text', s, ref_encode(b))
    c.eq('decoded', c.returns('decode', m.decode, s), b)
    c.check('bytes', type(m.decode(s)) is bytes)

@contract('C27', 'decoding', samples=3000, sym=False, bounded='sampled texts')
def decoding(c):
    m = c.mod(M); s = text(c, 's')
    b = c.returns('decode', m.decode, s)
    c.eq('decoded', b, ref_decode(s)); c.eq('text', m.encode(b), s)
    k = c.int('at', 0, len(s)); x = c.choice('bad', BAD)
    c.raises('bad character', m.InvalidBase58Error, m.decode, s[:k] + x + s[k + c.choice('instead', (0, 1)):])

def corrupt(c, s):
    k = c.int('where', 0, max(len(s) - 1, 0)); d = DIGITS[c.int('digit', 0, 57)]
    return c.choice('how', (s[:k] + d + s[k + 1:], s[:k] + s[k + 1:], s[:k] + d + s[k:], '1' + s, s[::-1], s[1:], s[:-1], s[:k], s + s, s.swapcase(), s[:k] + s[k + 1:k + 2] + s[k:k + 1] + s[k + 2:]))

@contract('C27', 'checked', samples=4000, sym=False, bounded='sampled texts')
def checked(c):
    m = c.mod(M); d = c.bytes('d', 0, 80) if c.choice('len', (0, 1)) else c.bytes('d20', n=20); v = c.int('v', 0, 255)
    raw = c.native(bytes([v])) + d; raw += c.hash256(raw)[:4]
    o = c.returns('from_bytes', m.CBase58Data.from_bytes, d, v)
    t = c.returns('text', str, o); c.eq('text', t, ref_encode(raw))
    x = c.returns('from text', m.CBase58Data, t)
    c.check('class', isinstance(x, m.CBase58Data)); c.eq('data', bytes(x), d); c.eq('version', x.nVersion, v); c.check('same', x.to_bytes() == d)
    c.eq('text again', str(x), t)
    how = c.choice('corrupt', ('text', 'raw', 'check', 'cut', 'other sum', 'random'))
    if how == 'text': t2 = corrupt(c, t)
    elif how == 'random': t2 = text(c, 'r')
    else:
        r = bytearray(raw); k = c.int('byte', 0, len(r) - 1)
        if how == 'check': k = len(r) - 1 - k % 4
        if how == 'cut': r = r[:k]
        elif how == 'other sum': r = r[:-4] + c.choice('sum', (c.sha256(bytes(r[:-4]))[:4], c.hash256(bytes(r[:-4]))[-4:], c.hash256(bytes(r[1:-4]))[:4], c.hash256(bytes(r[:-4]))[:4][::-1], c.hash256(bytes(r[:-4]))[:3], b'\0\0\0\0'))
        else: r[k] ^= 1 << c.int('bit', 0, 7)
        t2 = ref_encode(bytes(r))
    y, err = c.catch(m.Base58Error, m.CBase58Data, t2)
    try: k = ref_decode(t2)
    except ValueError: k = b''
    good = len(k) >= 5 and c.hash256(k[:-4])[:4] == k[-4:]
    if err is None:
        c.check('checksum', good); c.eq('data', bytes(y), k[1:-4]); c.eq('version', y.nVersion, k[0])
    else: c.check('rejected with reason', not good)
    bad = c.int('bad version')
    if not 0 <= bad <= 255: c.raises('version out of range', ValueError, m.CBase58Data.from_bytes, d, bad)

@contract('C27', 'checksums with special bytes', samples=250, sym=False, bounded='sampled payloads whose checksum holds a zero, 255 or repeated byte')
def special_sums(c):
    """payloads looked for until their checksum has the special byte; every sum made from it by moving, doubling or leaving out bytes"""
    m = c.mod(M); v = c.int('v', 0, 255); d = c.bytes('d', 0, 40); at = c.int('at', 0, 3); x = c.choice('byte', (0, 0, 255, 0x31, 0x20, None))
    for k in range(3000):
        raw = bytes([v]) + d + bytes([k & 255, k >> 8]); h = c.hash256(raw)[:4]
        if h[at] == x or x is None and h[at] == h[at - 1]: break
    o = c.returns('right sum', m.CBase58Data, ref_encode(raw + h)); c.eq('payload', bytes(o), raw[1:])
    z = bytes([h[at]])
    for bad in {h[1:] + h[:1], h[-1:] + h[:-1], h[::-1], bytes(sorted(h)), h[:at] + h[at + 1:], h[:at] + h[at + 1:] + z, z + h[:at] + h[at + 1:], h[:at] + z + h[at:], h + z, z + h, h[:2] + h[3:] + h[2:3], h[2:] + h[:2], h.swapcase(), h.upper(), h.lower(), bytes(4), h[:3] + bytes([h[3] ^ 1]), bytes([h[0] ^ 128]) + h[1:]} - {h}:
        r = raw + bad; good = c.hash256(r[:-4])[:4] == r[-4:]
        y, err = c.catch(m.Base58Error, m.CBase58Data, ref_encode(r)); c.check('wrong sum', (err is None) == good)

# ---------------------------------------------------------------- proofs
# Every byte string is some zero bytes followed by the base-256 digits of a number N, every text over the alphabet some ones
# followed by the base-58 digits of one: z zeros and N stand for both. q(k) is what is left of N after k digits.
@loop('encode#0')
class Digits(LoopSpec):
    """n is what is left after len(res) digits, res the digits taken"""
    def enter(self, L):
        L.g.e = e = L.env('e')
        L.g.digits = lambda k: L.gen_list(k, lambda i: L.char(L.env('alphabet'), e.digit(i)))
    def havoc(self, L):
        k = L.fresh('k', 0); e = L.g.e
        e.step(k)
        res = L['res']; res.segs = L.g.digits(k).segs; L.havocs(res)
        return {'n': e.q(k), 'r': None}
    def inv(self, L):
        res = L['res']; k = res.length()
        return [('what is left', L['n'] == L.g.e.q(k)), ('no more digits than there are', k <= L.g.e.j), ('digits so far', L.same_list('digits so far', res, L.g.digits(k)))]
    def variant(self, L): return L['n']

@loop('encode#1')
class Zeros(LoopSpec):
    def havoc(self, L): return {'pad': L.fresh('pad', 0), 'c': None}
    def inv(self, L): return [('zeros so far', L['pad'] == L.k), ('all of them zeros', L.k <= L.env('z'))]

@loop('decode#0')
class Value(LoopSpec):
    """n is the number with the digits read so far"""
    def enter(self, L): L.g.first = True
    def havoc(self, L):
        if L.env('e') is not None: L.env('e').step(L.env('e').j - 1 - (L.k - L.env('z')))
        return {'n': L.fresh('n', 0), 'c': None, 'digit': None}
    def inv(self, L):
        e = L.env('e'); k = L.k; z = L.env('z')
        if e is None: return [('a number', L['n'] >= 0), ('up to the bad character', k <= L.env('bad'))]
        if L.split(k <= z): return [('no digit yet', L['n'] == 0)]
        return [('number so far', L['n'] == e.q(e.j - (k - z)))]

@loop('decode#1')
class Ones(LoopSpec):
    def havoc(self, L):
        e = L.env('e'); e.step(e.j - 1)
        return {'pad': L.fresh('pad', 0), 'c': None}
    def inv(self, L): return [('ones so far', L['pad'] == L.k), ('all of them ones', L.k <= L.env('z'))]

@contract('C27', 'lemma: what is left is positive until the last digit', conc=False)
def positive(c):
    """q(k) >= 1 exactly for k < j, when j is least with q(j) = 0"""
    what = c.choice('case', ('backwards', 'forwards'))
    a, b, d = c.int('q(k)', 0), c.int('q(k+1)', 0), c.int('digit', 0, 57)
    c.assume(a == 58 * b + d)
    if what == 'backwards': c.lemma('positive before a positive one', c.implies(b >= 1, a >= 1))
    else: c.lemma('zero after zero', c.implies(a == 0, c.both(b == 0, d == 0)))

def both_forms(c):
    m = c.mod(M); z = c.int('z', 0, None if c.symbolic else 40); e = c.expansion('N', 58)
    c.ghost(e=e, z=z, alphabet=DIGITS)
    return m, z, e, bytes(z) + e.bytes(), c.text_cat('1' * z, e.text(DIGITS))

@contract('C27', 'text of bytes', samples=1500, cuts=['encode#0', 'encode#1'])
def text_of_bytes(c):
    m, z, e, b, t = both_forms(c)
    c.text_eq('text', c.returns('encode', m.encode, b), t)

@contract('C27', 'bytes of text', samples=1500, cuts=['decode#0', 'decode#1'])
def bytes_of_text(c):
    m, z, e, b, t = both_forms(c)
    r = c.returns('decode', m.decode, t)
    c.check('bytes', r.__class__ is bytes); c.eq('bytes', r, b)

@contract('C27', 'bad characters', samples=1500, cuts=['decode#0'])
def bad_characters(c):
    m = c.mod(M); n = c.int('n', 0, None if c.symbolic else 40); x = c.any_text('bad', n=1)
    c.assume(c.neg(c.either(*[x == d for d in DIGITS])))
    c.ghost(e=None, z=0, bad=n)
    c.raises('bad character', m.InvalidBase58Error, m.decode, c.text_cat(c.table_text('good', DIGITS, n), x, c.any_text('rest')))

from contracts.base58text import BASE58, text_of, is_text

@contract('C27', 'version, payload and checksum', models=BASE58, samples=1500)
def with_checksum(c):
    """text is accepted exactly when the bytes it stands for end in their checksum, and it gives version and payload back"""
    m = c.mod(M); k = c.bytes('k', 0)
    if not c.symbolic and c.choice('made', (0, 1, 1)): k = k + c.hash256(k)[:4]
    good = c.split(len(k) < 5) == 1 and c.split(c.same(c.hash256(k[:-4])[:4], k[-4:])) == 0
    o, err = c.catch(m.Base58Error, m.CBase58Data, text_of(c, k))
    if not good: c.check('refused', err is not None); return
    c.check('accepted', err is None); c.check('class', type(o) is m.CBase58Data)
    c.eq('payload', c.raw(o), k[1:-4]); c.eq('version', o.nVersion, k[0]); c.check('text', is_text(c, c.returns('str', str, o), k))
    c.eq('to_bytes', o.to_bytes(), k[1:-4])

@contract('C27', 'made from bytes', models=BASE58, samples=800)
def from_bytes(c):
    m = c.mod(M); d = c.bytes('d', 0); v = c.int('v'); sub = c.choice('class', (False, True))
    class Mine(m.CBase58Data): pass
    cl = Mine if sub else m.CBase58Data
    if c.split(c.both(0 <= v, v <= 255)) == 1: c.raises('version out of range', ValueError, cl.from_bytes, d, v); return
    o = c.returns('from_bytes', cl.from_bytes, d, v); c.check('class', type(o) is cl); c.eq('payload', c.raw(o), d); c.eq('version', o.nVersion, v)
    raw = c.le(v, 1) + d; c.check('text', is_text(c, c.returns('str', str, o), raw + c.hash256(raw)[:4]))
    p = c.returns('back', cl, str(o)); c.check('class', type(p) is cl); c.eq('payload', c.raw(p), d); c.eq('version', p.nVersion, v)
