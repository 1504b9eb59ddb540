"""C31: keys, signatures"""
from engine.api import *
from contracts import ecref as E
from contracts.c27 import ref_encode, corrupt
K = 'bitcoin.core.key'
W = 'bitcoin.wallet'
WIF = {'mainnet': 128, 'testnet': 239, 'regtest': 239}

def secret_of(c, name):
    k = c.choice(name + '?', (0, 0, 0, 1)); n = int.from_bytes(c.bytes(name, n=32), 'big') % (E.N - 1) + 1
    return c.choice(name + ' edge', (1, 2, 3, E.N - 1, E.N - 2, (E.N - 1) // 2, 255, 256, 2**128, 2**248)) if k else n
def hash_of(c, name):
    return c.choice(name + ' edge', (bytes(32), b'\xff' * 32, bytes(31) + b'\1', E.N.to_bytes(32, 'big'), b'\0' + b'\xff' * 31)) if c.choice(name + '?', (0, 0, 0, 1)) else c.bytes(name, n=32)
def flip(c, name, b):
    if not b: return b
    k = c.int(name + ' at', 0, len(b) - 1); return b[:k] + bytes([b[k] ^ (1 << c.int(name + ' bit', 0, 7))]) + b[k + 1:]

@contract('C31', 'signing', samples=500, sym=False, bounded='sampled keys and hashes')
def signing(c):
    m = c.mod(W); d = secret_of(c, 'secret'); h = hash_of(c, 'hash'); comp = c.choice('compressed', (True, False)); pt = E.times(d, E.G); raw = d.to_bytes(32, 'big')
    how = c.choice('how', ('bytes', 'secret', 'wif')); net = c.choice('net', sorted(WIF)); b = c.mod('bitcoin')
    try:
        b.SelectParams(net)
        text = ref_wif(c, WIF[net], raw, comp)
        k = c.returns('key', {'bytes': lambda: m.CKey(raw, comp), 'secret': lambda: m.CBitcoinSecret.from_secret_bytes(raw, comp), 'wif': lambda: m.CBitcoinSecret(text)}[how])
        if how != 'bytes': c.eq('text', str(k), text); c.eq('version', k.nVersion, WIF[net])
        other = c.int('version', 0, 255)
        if other != WIF[net]: c.raises('another version', m.CBitcoinSecretError, m.CBitcoinSecret, ref_wif(c, other, raw, comp))
        t2 = corrupt(c, text)
        if t2 != text: c.raises('corrupted text', (c.mod('bitcoin.base58').Base58Error, ValueError), m.CBitcoinSecret, t2)
    finally: b.SelectParams('mainnet')
    c.eq('public key', bytes(k.pub), E.encode(pt, comp)); c.check('compressed', k.is_compressed is comp and k.pub.is_compressed is comp); c.check('valid', k.pub.is_fullyvalid and k.pub.is_valid)
    sig = c.returns('sign', k.sign, h); c.check('bytes', type(sig) is bytes)
    c.check('verifies', k.pub.verify(h, sig) is True); c.check('by definition', E.verify(pt, h, sig))
    p2 = m.bitcoin.core.key.CPubKey(E.encode(pt, c.choice('form', (True, False)))); c.check('verifies under the encoded key', p2.verify(h, sig) is True)
    h2 = flip(c, 'other', h); c.check('not for another hash', (k.pub.verify(h2, sig) is True) is E.verify(pt, h2, sig))
    d2 = secret_of(c, 'other secret'); k2 = m.CKey(d2.to_bytes(32, 'big'), comp)
    if d2 != d: c.check('not under another key', k2.pub.verify(h, sig) is False)
    c.check('still verifies', k.pub.verify(h, sig) is True); c.eq('public key afterwards', bytes(k.pub), E.encode(pt, comp))
    n = c.int('length', 0, 70)
    if n != 32: c.raises('not 32 bytes', ValueError, k.sign, bytes(n)); c.raises('a secret of another length', ValueError, m.CKey, bytes([1]) * n)
    c.raises('not bytes', TypeError, k.sign, c.choice('thing', ('x' * 32, 5, None, [0] * 32, bytearray(32))))
def ref_wif(c, v, raw, comp):
    b = bytes([v]) + raw + (b'\1' if comp else b''); return ref_encode(b + c.hash256(b)[:4])

@contract('C31', 'verifying', samples=700, sym=False, bounded='sampled keys, hashes and signatures')
def verifying(c):
    m = c.mod(K); d = secret_of(c, 'secret'); h = hash_of(c, 'hash'); pt = E.times(d, E.G); form = c.choice('compressed', (True, False)); pub = E.encode(pt, form)
    r, s = E.sign(d, h, secret_of(c, 'nonce')); how = c.choice('how', ('good', 'good', 'high', 'hash', 'key', 'sig', 'r', 's', 'zero', 'range', 'cut', 'more', 'junk', 'hybrid', 'long', 'bad key', 'swapped'))
    if r == 0 or s == 0: return
    sig = E.der(r, s); want = None
    if how == 'high': sig = E.der(r, E.N - s)
    elif how == 'hash': h = flip(c, 'hash', h)
    elif how == 'key': pub = E.encode(E.times(secret_of(c, 'other'), E.G), form)
    elif how == 'sig': sig = flip(c, 'sig', sig)
    elif how == 'r': sig = E.der((r + c.choice('add', (1, -1, 2, E.N // 3))) % E.N, s)
    elif how == 's': sig = E.der(r, (s + c.choice('add', (1, -1, 2, E.N // 3))) % E.N)
    elif how == 'zero': sig = E.der(*c.choice('z', ((0, s), (r, 0), (0, 0))))
    elif how == 'range': sig = E.der(*c.choice('z', ((r + E.N, s), (r, s + E.N), (E.N, s), (r, E.N))))
    elif how == 'cut': sig = sig[:c.int('n', 0, len(sig) - 1)]
    elif how == 'more': sig = sig + c.bytes('more', 1, 3)
    elif how == 'junk': sig = c.bytes('junk', 0, 80)
    elif how == 'hybrid': pub = bytes([6 + pt[1] % 2 ^ c.choice('wrong', (0, 1))]) + E.encode(pt, False)[1:]
    elif how == 'long': h = h + c.bytes('tail', 1, 8)
    elif how == 'bad key': pub = c.choice('bad', (b'', b'\0', b'\5' + pub[1:], pub[:-1], pub + b'\0', flip(c, 'pub', pub), bytes([2]) + b'\xff' * 32))
    elif how == 'swapped': sig = E.der(s, r)
    k = c.returns('key', m.CPubKey, pub); q = E.decode(pub)
    if pub != b'\0': c.check('valid exactly if a point', k.is_fullyvalid is (q is not None))
    c.check('is_valid', k.is_valid is (len(pub) > 0)); c.check('is_compressed', k.is_compressed is (len(pub) == 33)); c.eq('bytes', bytes(k), pub)
    c.check('verifies exactly by definition', c.returns('verify', k.verify, h, sig) is E.verify(q, h, sig))
    e = m.CECKey(); e.set_pubkey(pub); c.check('the same', e.verify(h, sig) is E.verify(q, h, sig))

@contract('C31', 'sharing and exporting keys', samples=250, sym=False, bounded='sampled keys')
def sharing(c):
    m = c.mod(K); d, e = secret_of(c, 'secret'), secret_of(c, 'other'); h = hash_of(c, 'hash')
    if c.choice('small', (0, 0, 0, 1)): d, e = c.choice('product', ((153, 1), (3, 82), (886, 1), (1, 246), (2, 443)))   # an x coordinate with leading zeros
    a, b = m.CECKey(), m.CECKey(); a.set_secretbytes(d.to_bytes(32, 'big')); b.set_secretbytes(e.to_bytes(32, 'big'))
    p = m.CECKey(); p.set_pubkey(E.encode(E.times(e, E.G), c.choice('form', (True, False))))
    pt = E.times(d * e % E.N, E.G)
    x = c.returns('shared', a.get_raw_ecdh_key, p); c.eq('the x coordinate of the product', x, pt[0].to_bytes(32, 'big'))
    c.eq('from the other side', b.get_raw_ecdh_key(a), x); c.eq('hashed', a.get_ecdh_key(b), c.sha256(x)); c.eq('by another function', a.get_ecdh_key(p, kdf=lambda k: k[::-1]), x[::-1])
    if c.choice('compressed', (False, True)): a.set_compressed(True)
    q = m.CECKey(); der = a.get_privkey(); c.check('taken in', bool(q.set_privkey(der)))
    c.check('holds the secret', d.to_bytes(32, 'big') in der)
    c.eq('the same public key', q.get_pubkey(), a.get_pubkey()); c.eq('the same shared secret', q.get_raw_ecdh_key(p), x)
    c.check('the same signatures', E.verify(E.times(d, E.G), h, q.sign(h)) and a.verify(h, q.sign(h)))

@contract('C31', 'in other threads', samples=12, sym=False, bounded='sampled')
def threads(c):
    import threading
    m = c.mod(W); d = secret_of(c, 'secret').to_bytes(32, 'big'); h = hash_of(c, 'hash'); out = []
    def work():
        k = m.CKey(d); out.append(k.pub.verify(h, k.sign(h)))
    ts = [threading.Thread(target=work) for _ in range(3)]
    for t in ts: t.start()
    for t in ts: t.join()
    c.eq('verified', out, [True] * 3)

# ---- proved: what the code asks of libcrypto, for all keys, hashes and signatures
@contract('C31', 'what verification asks', samples=300)
def asks(c):
    o = c.openssl(); m = c.mod(K); pub = c.bytes('pub'); h = c.bytes('hash'); sig = c.bytes('sig')
    if not c.symbolic: ok, good = E.decode(pub) is not None, E.verify(E.decode(pub), h, sig); c.assume(pub != b'\0')
    else:
        ok, pt = o.point(pub); good = c.both(ok, o.verdict(pt, h, sig) == 1)
    k = c.returns('key', m.CPubKey, pub)
    c.check('valid exactly if a point', c.iff(k.is_fullyvalid, ok))
    c.check('is_valid', c.iff(k.is_valid, len(pub) > 0)); c.check('is_compressed', c.iff(k.is_compressed, len(pub) == 33)); c.eq('bytes', c.raw(k), pub)
    for again in (0, 1):
        r = c.returns('verify', k.verify, h, sig)
        c.check('a bool', isinstance(r, bool)); c.check('verifies exactly if libcrypto says so', c.iff(r, good))

@contract('C31', 'what signing asks', samples=100)
def signs(c):
    o = c.openssl(); m = c.mod(W); d = c.bytes('secret', 0, None if c.symbolic else 40) if c.choice('any length', (0, 1)) else c.bytes('secret', n=32); comp = c.choice('compressed', (True, False))
    if not c.symbolic: c.assume(0 < int.from_bytes(d, 'big') < E.N)
    if not c.lt(len(d), 32) and not c.lt(32, len(d)):
        k = c.returns('key', m.CKey, d, comp); form = 2 if comp else 4
        want = o.encoding(o.times(d), form) if c.symbolic else E.encode(E.times(int.from_bytes(d, 'big'), E.G), comp)
        c.eq('public key', c.raw(k.pub), want); c.check('compressed', c.iff(k.is_compressed, comp)); c.check('valid', k.pub.is_fullyvalid)
        h = c.bytes('hash', 0, None if c.symbolic else 40)
        if not c.lt(len(h), 32) and not c.lt(32, len(h)):
            s = c.returns('sign', k.sign, h)
            if c.symbolic: c.eq('the hash signed', o.last[0], h); c.eq('the signature', s, o.last[1])
            c.check('verifies', c.returns('verify', k.pub.verify, h, s)); c.check('under the encoded key', c.returns('verify', c.mod(K).CPubKey(want).verify, h, s))
            c.eq('public key afterwards', c.raw(k.pub), want)
        else: c.raises('not a hash', ValueError, k.sign, h)
        c.raises('not bytes', TypeError, k.sign, 'x' * 32)
    else: c.raises('not a secret', ValueError, m.CKey, d, comp)
