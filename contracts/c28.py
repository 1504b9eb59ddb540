"""C28: addresses and output scripts"""
from engine.api import *
from contracts.c27 import ref_encode, corrupt
W = 'bitcoin.wallet'
NETS = {'mainnet': (0, 5), 'testnet': (111, 196), 'regtest': (111, 196)}

def p2pkh(h): return b'\x76\xa9\x14' + h + b'\x88\xac'
def p2sh(h): return b'\xa9\x14' + h + b'\x87'
def select(c, net):
    b = c.mod('bitcoin'); b.SelectParams(net); return b
def kinds(c, m): return [(m.P2PKHBitcoinAddress, p2pkh), (m.P2SHBitcoinAddress, p2sh)]
def addr_text(c, v, h):
    raw = bytes([v]) + h; return ref_encode(raw + c.hash256(raw)[:4])

@contract('C28', 'both ways', samples=1500, sym=False, bounded='sampled')
def both_ways(c):
    m = c.mod(W); sc = c.mod('bitcoin.core.script'); net = c.choice('net', sorted(NETS))
    try:
        select(c, net)
        h = c.bytes('h', n=20); k = c.choice('kind', (0, 1)); cl, form = kinds(c, m)[k]; v = NETS[net][k]
        how = c.choice('how', ('bytes', 'bytes, version', 'text', 'text, class', 'base', 'script', 'script, class'))
        t = addr_text(c, v, h); s = sc.CScript(form(h))
        a = c.returns('address', {'bytes': lambda: cl.from_bytes(h), 'bytes, version': lambda: cl.from_bytes(h, v), 'text': lambda: m.CBitcoinAddress(t), 'text, class': lambda: cl(t),
                                  'base': lambda: m.CBitcoinAddress.from_bytes(h, v), 'script': lambda: m.CBitcoinAddress.from_scriptPubKey(s), 'script, class': lambda: cl.from_scriptPubKey(s)}[how])
        c.check('kind', type(a) is cl); c.eq('hash', bytes(a), h); c.eq('version', a.nVersion, v)
        c.eq('script', bytes(c.returns('to_scriptPubKey', a.to_scriptPubKey)), form(h))
        b = c.returns('back', m.CBitcoinAddress.from_scriptPubKey, a.to_scriptPubKey())
        c.check('equal', b == a and type(b) is cl and b.nVersion == v)
        c.eq('text', c.returns('str', str, a), t); c.check('from text', m.CBitcoinAddress(str(a)) == a)
        # other classes do not take it
        o, f2 = kinds(c, m)[1 - k]
        c.raises('other class', m.CBitcoinAddressError, o.from_scriptPubKey, s)
        c.raises('other class', (m.CBitcoinAddressError, ValueError), o, t)
        # texts with another version or length
        v2 = c.int('v2', 0, 255)
        if v2 not in NETS[net]:
            c.raises('other version', m.CBitcoinAddressError, m.CBitcoinAddress, addr_text(c, v2, h))
            c.raises('other version', (m.CBitcoinAddressError, ValueError), cl, addr_text(c, v2, h))
        h2 = c.bytes('h2', 0, 40)
        if len(h2) != 20: c.raises('not a 20-byte hash', m.CBitcoinAddressError, m.CBitcoinAddress, addr_text(c, v, h2))
        other = c.choice('then', sorted(NETS)); select(c, other)
        if v not in NETS[other]: c.raises('address of another network', m.CBitcoinAddressError, m.CBitcoinAddress, t)
        else: c.check('same version', type(m.CBitcoinAddress(t)) is cl)
    finally: select(c, 'mainnet')

def edit(c, s):
    """a script, changed a little"""
    k = c.int('at', 0, max(len(s) - 1, 0)); x = bytes([c.choice('byte', (0, 1, 0x13, 0x14, 0x15, 0x4c, 0x61, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xff))])
    return c.choice('edit', (s, s, s[:k] + x + s[k + 1:], s[:k] + x + s[k:], s[:k] + s[k + 1:], s + x, x + s, s[:k], s + s, s[:-1] + x))
def pushes(c, d):
    """ways to push some bytes, canonical or not"""
    n = len(d)
    return c.choice('push', (bytes([n]) + d, bytes([n]) + d, b'\x4c' + bytes([n]) + d, b'\x4d' + bytes([n, 0]) + d, b'\x4e' + bytes([n, 0, 0, 0]) + d))
def push_at(s, i):
    """the push at i: (bytes, next index), or None"""
    if i >= len(s): return None
    op = s[i]; i += 1
    if op > 0x4e: return None
    n, w = (op, 0) if op < 0x4c else (None, 1 << (op - 0x4c))
    if n is None:
        if len(s) < i + w: return None
        n = int.from_bytes(s[i:i + w], 'little'); i += w
    if len(s) < i + n: return None
    return s[i:i + n], i + n
def kind_of(c, s):
    """(kind, hash) of a script with pushes in any form allowed"""
    if len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87': return 'p2sh', s[2:22]
    if s[:2] == b'\x76\xa9':
        p = push_at(s, 2)
        if p and len(p[0]) == 20 and s[p[1]:] == b'\x88\xac': return 'p2pkh', p[0]
    p = push_at(s, 0)
    if p and s[p[1]:] == b'\xac' and len(p[0]) in (33, 65): return 'bare %d' % len(p[0]), c.hash160(p[0])
    return None, None

@contract('C28', 'scripts', samples=5000, sym=False, bounded='sampled')
def scripts(c):
    m = c.mod(W); sc = c.mod('bitcoin.core.script')
    h = c.bytes('h', n=20); k33 = c.bytes('k33', n=33); k65 = c.bytes('k65', n=65)
    f = c.choice('form', ('p2pkh', 'p2sh', 'bare33', 'bare65', 'any', 'others'))
    s = {'p2pkh': lambda: b'\x76\xa9' + pushes(c, h) + b'\x88\xac', 'p2sh': lambda: b'\xa9' + pushes(c, h) + b'\x87', 'bare33': lambda: pushes(c, k33) + b'\xac', 'bare65': lambda: pushes(c, k65) + b'\xac',
         'any': lambda: c.bytes('any', 0, 80), 'others': lambda: c.choice('other', (b'\x51' + pushes(c, k33) + b'\x51\xae', b'\x6a' + pushes(c, h), pushes(c, k33[:32]) + b'\xac', pushes(c, k65[:64]) + b'\xac', pushes(c, k33) + b'\xad', b'\xa9' + pushes(c, h) + b'\x88'))}[f]()
    s = edit(c, s); kind, want = kind_of(c, s)
    a, err = c.catch(m.CBitcoinAddressError, m.CBitcoinAddress.from_scriptPubKey, sc.CScript(s))
    if kind is None: c.check('rejected', err is not None)
    else:
        c.check('accepted', err is None)
        if kind == 'bare 65' and bytes(a) == c.hash160(push_at(s, 0)[0][:64]):
            c.finding('bare-uncompressed-pubkey-script', 'a script of a bare uncompressed public key maps to the hash of its first 64 bytes'); return
        c.eq('hash', bytes(a), want); c.check('kind', type(a) is (m.P2SHBitcoinAddress if kind == 'p2sh' else m.P2PKHBitcoinAddress))
    canon, bare = c.choice('canonical only', (False, True)), c.choice('no bare keys', (False, True))
    b, err = c.catch(m.CBitcoinAddressError, lambda: m.P2PKHBitcoinAddress.from_scriptPubKey(sc.CScript(s), accept_non_canonical_pushdata=not canon, accept_bare_checksig=not bare))
    ok = kind is not None and kind != 'p2sh' and not (bare and kind.startswith('bare')) and not (canon and s[0 if kind.startswith('bare') else 2] in (0x4c, 0x4d, 0x4e))
    c.check('accepted exactly when allowed', ok is (err is None))
    if ok: c.eq('hash', bytes(b), want)
    d, err = c.catch(m.CBitcoinAddressError, m.P2SHBitcoinAddress.from_scriptPubKey, sc.CScript(s))
    c.check('script hash exactly for its form', (kind == 'p2sh') is (err is None))

@contract('C28', 'public keys and redeem scripts', samples=600, sym=False, bounded='sampled')
def keys(c):
    m = c.mod(W); sc = c.mod('bitcoin.core.script')
    pub = c.bytes('pub', 0, 70)
    a = c.returns('from_pubkey', lambda: m.P2PKHBitcoinAddress.from_pubkey(pub, accept_invalid=True)); c.eq('hash', bytes(a), c.hash160(pub)); c.check('kind', type(a) is m.P2PKHBitcoinAddress)
    s = c.bytes('script', 0, 60)
    a = c.returns('from_redeemScript', m.P2SHBitcoinAddress.from_redeemScript, sc.CScript(s)); c.eq('hash', bytes(a), c.hash160(s)); c.check('kind', type(a) is m.P2SHBitcoinAddress)
    secret = c.bytes('secret', n=32); c.assume(0 < int.from_bytes(secret, 'big') < 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)
    for compressed in (True, False):
        k = m.CKey(secret, compressed)
        a = c.returns('from_pubkey', m.P2PKHBitcoinAddress.from_pubkey, k.pub); c.eq('hash', bytes(a), c.hash160(bytes(k.pub)))
        a = c.returns('from_pubkey', m.P2PKHBitcoinAddress.from_pubkey, bytes(k.pub)); c.eq('hash', bytes(a), c.hash160(bytes(k.pub)))
    c.raises('not a key', m.CBitcoinAddressError, m.P2PKHBitcoinAddress.from_pubkey, b'\x05' + bytes(k.pub)[1:])

# ---------------------------------------------------------------- proofs
from contracts.base58text import BASE58, text_of, is_text

def checked_text(c, v, d):
    raw = c.le(v, 1) + d; return text_of(c, raw + c.hash256(raw)[:4])
def is_checked_text(c, t, v, d):
    raw = c.le(v, 1) + d; return is_text(c, t, raw + c.hash256(raw)[:4])
def one_of(c, v, options):
    """the option v equals, or None"""
    k = c.split(*[v == x for x in options]); return options[k] if k < len(options) else None
def network(c):
    net = c.choice('net', sorted(NETS)); select(c, net); return NETS[net]

@contract('C28', 'every text', models=BASE58, samples=1500)
def every_text(c):
    """a text with a checksum is an address exactly when it has a version of the network and twenty bytes"""
    m = c.mod(W)
    try:
        vs = network(c); v = c.int('v', 0, 255); d = c.bytes('d', 0) if c.choice('any length', (0, 1)) else c.bytes('d20', n=20)
        if not c.symbolic: v = c.choice('version', (v, *vs))
        cl = (m.CBitcoinAddress, m.P2PKHBitcoinAddress, m.P2SHBitcoinAddress)[c.choice('class', (0, 1, 2))]
        t = checked_text(c, v, d); k = one_of(c, v, vs); kind = None if k is None else (m.P2PKHBitcoinAddress, m.P2SHBitcoinAddress)[vs.index(k)]
        fine = kind is not None and (cl is m.CBitcoinAddress or cl is kind) and c.split(len(d) == 20) == 0
        if not fine:
            c.raises('refused', m.CBitcoinAddressError if cl is m.CBitcoinAddress else (m.CBitcoinAddressError, ValueError), cl, t); return
        a = c.returns('address', cl, t)
        c.check('kind', type(a) is kind); c.eq('hash', c.raw(a), d); c.eq('version', a.nVersion, v); c.check('text', is_checked_text(c, c.returns('str', str, a), v, d))
        want = (p2pkh, p2sh)[vs.index(k)](d)
        s = c.returns('script', a.to_scriptPubKey); c.eq('script', c.raw(s), want)
        c.check('a script', type(s) is c.mod('bitcoin.core.script').CScript)
        for how in (lambda: kind.from_bytes(d), lambda: kind.from_bytes(d, v), lambda: m.CBitcoinAddress.from_bytes(d, v)):
            b = c.returns('from_bytes', how); c.check('the same', type(b) is kind); c.eq('hash', c.raw(b), d); c.eq('version', b.nVersion, v)
    finally: select(c, 'mainnet')

def _ops(w, orig):
    def __iter__(self):
        g = cur().aux.get('ghost', {}); got = g.get('canonical')
        if got is None or got[0] is not None and not known(mkbool(zb(rope_eq(to_vbytes(self), got[0])))): raise Unsupported('operations of another script')
        if got[1] is None: raise w.load('bitcoin.core.script').CScriptInvalidError('by contract')
        yield got[1]
    return __iter__
def _coerce(w, orig):
    f = orig.__func__
    def coerce(cls, other): return other.b if type(other) is Whole else f(cls, other)
    return classmethod(coerce)
from engine.core import cur
from engine.sym import known, mkbool, zb, rope_eq, to_vbytes
class Whole:
    def __init__(self, b): self.b = b
CANON = [('bitcoin.core.script:CScript.__iter__', _ops), ('bitcoin.core.script:CScript._CScript__coerce_instance', _coerce)]
def some_script(c):
    """(a script, its canonical form or None)"""
    if c.symbolic:
        s = c.bytes('s', 0); k = c.bytes('canonical', 0) if c.choice('valid', (True, False)) else None
        c.ghost(canonical=(s, None if k is None else Whole(k)))
        return s, k
    sc = c.mod('bitcoin.core.script'); h = c.bytes('h', n=20); k33 = c.bytes('k33', n=33); k65 = c.bytes('k65', n=65)
    s = {'p2pkh': lambda: b'\x76\xa9' + pushes(c, h) + b'\x88\xac', 'p2sh': lambda: b'\xa9' + pushes(c, h) + b'\x87', 'bare33': lambda: pushes(c, k33) + b'\xac', 'bare65': lambda: pushes(c, k65) + b'\xac',
         'any': lambda: c.bytes('any', 0, 80)}[c.choice('form', ('p2pkh', 'p2sh', 'bare33', 'bare65', 'any'))]()
    s = edit(c, s)
    try: return s, bytes(sc.CScript(tuple(sc.CScript(s))))
    except sc.CScriptInvalidError: return s, None
def has_form(c, s, n, **at):
    """n bytes, with those of the given places as given"""
    if c.split(len(s) == n) == 1: return False
    return c.split(c.both(*[s[int(k[1:])] == v for k, v in at.items()])) == 0
def p2pkh_kind(c, s, bare):
    """what the canonical form of a script pays to"""
    if s is None: return None, None
    if has_form(c, s, 25, _0=0x76, _1=0xa9, _2=0x14, _23=0x88, _24=0xac): return 'p2pkh', s[3:23]
    if bare and has_form(c, s, 35, _0=0x21, _34=0xac): return 'bare 33', c.hash160(s[1:34])
    if bare and has_form(c, s, 67, _0=0x41, _66=0xac): return 'bare 65', c.hash160(s[1:66])
    return None, None

@contract('C28', 'every script', parts=['any address', 'key hash'], models=CANON, samples=1500)
def every_script(c):
    """canonical form by contract: C18"""
    m = c.mod(W); sc = c.mod('bitcoin.core.script'); anyone = c.part == 'any address'
    try:
        vs = network(c); s, canon = some_script(c); bare = canonical = None
        if anyone: call = lambda: m.CBitcoinAddress.from_scriptPubKey(sc.CScript(s))
        else:
            bare, raw = c.choice('bare', (True, False)), c.choice('as it is', (True, False))
            if raw:
                # nothing is made canonical: the script itself has to have the form
                canon = s
            call = lambda: m.P2PKHBitcoinAddress.from_scriptPubKey(sc.CScript(s), accept_non_canonical_pushdata=not raw, accept_bare_checksig=bare)
        if anyone and has_form(c, s, 23, _0=0xa9, _1=0x14, _22=0x87): kind, h = 'p2sh', s[2:22]
        else: kind, h = p2pkh_kind(c, canon, anyone or bare)
        if kind is None: c.raises('refused', m.CBitcoinAddressError, call); return
        a = c.returns('accepted', call)
        if kind == 'bare 65':
            if not c.symbolic and bytes(a) == c.hash160(canon[1:65]): c.finding('bare-uncompressed-pubkey-script', 'a script of a bare uncompressed public key maps to the hash of its first 64 bytes'); return
            if c.symbolic and known(mkbool(zb(c.same(c.raw(a), c.hash160(canon[1:65]))))): c.check('the known finding', True); return
        c.eq('hash', c.raw(a), h); c.check('kind', type(a) is (m.P2SHBitcoinAddress if kind == 'p2sh' else m.P2PKHBitcoinAddress)); c.eq('version', a.nVersion, vs[1 if kind == 'p2sh' else 0])
    finally: select(c, 'mainnet')

@contract('C28', 'script hash scripts', samples=800)
def script_hashes(c):
    m = c.mod(W); sc = c.mod('bitcoin.core.script')
    try:
        vs = network(c); s, _ = some_script(c); r = c.bytes('redeem', 0, None if c.symbolic else 700)
        if has_form(c, s, 23, _0=0xa9, _1=0x14, _22=0x87):
            a = c.returns('accepted', m.P2SHBitcoinAddress.from_scriptPubKey, sc.CScript(s)); c.eq('hash', c.raw(a), s[2:22]); c.check('kind', type(a) is m.P2SHBitcoinAddress); c.eq('version', a.nVersion, vs[1])
        else: c.raises('refused', m.CBitcoinAddressError, m.P2SHBitcoinAddress.from_scriptPubKey, sc.CScript(s))
        if c.split(len(r) <= 520) == 1: c.raises('too large to spend', ValueError, m.P2SHBitcoinAddress.from_redeemScript, sc.CScript(r)); return
        a = c.returns('from_redeemScript', m.P2SHBitcoinAddress.from_redeemScript, sc.CScript(r)); c.eq('hash', c.raw(a), c.hash160(r)); c.eq('version', a.nVersion, vs[1])
        c.eq('script', c.raw(a.to_scriptPubKey()), p2sh(c.hash160(r)))
    finally: select(c, 'mainnet')

@contract('C28', 'every public key', samples=300)
def every_key(c):
    from contracts import ecref as E
    o = c.openssl(); m = c.mod(W); K = c.mod('bitcoin.core.key')
    try:
        vs = network(c); pub = c.bytes('pub', 0, None if c.symbolic else 70); how = c.choice('as', ('any', 'bytes', 'key'))
        if not c.symbolic: c.assume(pub != b'\0')
        if how == 'any': a = c.returns('from_pubkey', lambda: m.P2PKHBitcoinAddress.from_pubkey(pub, accept_invalid=True))
        else:
            ok = o.point(pub)[0] if c.symbolic else E.decode(pub) is not None
            call = lambda: m.P2PKHBitcoinAddress.from_pubkey(K.CPubKey(pub) if how == 'key' else pub)
            if c.split(ok) == 1: c.raises('not a key', m.CBitcoinAddressError, call); return
            a = c.returns('from_pubkey', call)
        c.eq('hash', c.raw(a), c.hash160(pub)); c.check('kind', type(a) is m.P2PKHBitcoinAddress); c.eq('version', a.nVersion, vs[0]); c.eq('script', c.raw(a.to_scriptPubKey()), p2pkh(c.hash160(pub)))
        c.raises('not bytes', TypeError, m.P2PKHBitcoinAddress.from_pubkey, 'x' * 33)
    finally: select(c, 'mainnet')
