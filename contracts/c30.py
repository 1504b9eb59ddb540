"""C30: peer-to-peer messages"""
import socket
from engine.api import *
from contracts.wire import *
from engine.symtools import merkle_model, FIXEDVECTORS
M = 'bitcoin.messages'
N = 'bitcoin.net'
MAGIC = {'mainnet': b'\xf9\xbe\xb4\xd9', 'testnet': b'\x0b\x11\x09\x07', 'regtest': b'\xfa\xbf\xb5\xda'}
NETS = sorted(MAGIC)
I32, I64, U64 = 2**31 - 1, 2**63 - 1, 2**64 - 1
NAMES = ['version', 'verack', 'addr', 'alert', 'inv', 'getdata', 'getblocks', 'getheaders', 'headers', 'tx', 'block', 'getaddr', 'ping', 'pong', 'mempool']
MODELS = VECTORS + FIXEDVECTORS + [('bitcoin.core:CBlock.build_merkle_tree_from_txids', merkle_model)]

# ---- arbitrary values
def arb_addr(c, time=True):
    a = c.mod(N).CAddress()
    if time: a.nTime = c.int('nTime', 0, U32) # version messages do not carry it
    a.nServices = c.int('nServices', 0, U64); a.pchReserved = c.bytes('reserved', n=12)
    a.ip = socket.inet_ntoa(c.bytes('ip', n=4)); a.port = c.int('port', 0, 65535)
    return a
def arb_inv(c):
    i = c.mod(N).CInv(); i.type = c.int('type', -2**31, I32); i.hash = c.bytes('hash', n=32); return i
def arb_vec(c, name, fn): return c.list(name, fn, hi=U64 if c.symbolic else None, kind=list)
def arb_hash(s, k): return s.bytes('h', n=32)
def arb_locator(c):
    l = c.mod(N).CBlockLocator(); l.nVersion = c.int('nVersion', -2**31, I32); l.vHave = arb_vec(c, 'vHave', arb_hash); return l
def arb_string(c, name): return c.bytes(name, 0, c.mod(S).MAX_SIZE if c.symbolic else 300)
def arb_calert(c):
    a = c.mod(N).CAlert(); a.vchMsg = arb_string(c, 'msg'); a.vchSig = arb_string(c, 'sig'); return a
def arb_headers(s, k):
    if s.symbolic or s.choice('with transactions', (0, 0, 1)): return arb_block(s)
    return arb_header(s, 'CBlock')
def arb(c, name):
    m = c.mod(M); o = getattr(m, 'msg_' + name)()
    if name == 'version':
        o.nVersion = c.int('version', 209, I32) if c.symbolic or c.choice('v', (0, 1)) else c.choice('nVersion', (209, 60002, 70001, I32))
        c.assume(o.nVersion != 10300)
        o.nServices = c.int('nServices', 0, U64); o.nTime = c.int('nTime', -2**63, I64)
        o.addrTo = arb_addr(c.sub('to'), False); o.addrFrom = arb_addr(c.sub('from'), False); o.nNonce = c.int('nNonce', 0, U64)
        o.strSubVer = arb_string(c, 'subver'); o.nStartingHeight = c.int('height', -2**31, I32)
    elif name == 'addr': o.addrs = arb_vec(c, 'addrs', lambda s, k: arb_addr(s))
    elif name == 'alert': o.alert = arb_calert(c)
    elif name in ('inv', 'getdata'): o.inv = arb_vec(c, 'inv', lambda s, k: arb_inv(s))
    elif name in ('getblocks', 'getheaders'): o.locator = arb_locator(c.sub('locator')); o.hashstop = c.bytes('hashstop', n=32)
    elif name == 'headers': o.headers = arb_vec(c, 'headers', arb_headers)
    elif name == 'tx': o.tx = arb_tx(c.sub('tx'))
    elif name == 'block': o.block = arb_block(c.sub('block'))
    elif name in ('ping', 'pong'): o.nonce = c.int('nonce', 0, U64)
    return o

# ---- specified bodies
def enc_addr(c, a, time=True):
    return (c.le(a.nTime, 4) if time else b'') + c.le(a.nServices, 8) + a.pchReserved + socket.inet_aton(a.ip) + c.le(a.port, 2)[::-1]
def enc_inv(c, i): return c.le(i.type, 4, True) + i.hash
def enc_int(c, v): return c.le(v, 4, True)
def enc_vec(c, key, xs, enc): return c.compact(len(xs)) + c.vec(key, xs, enc).whole()
def enc_locator(c, l): return c.le(l.nVersion, 4, True) + enc_vec(c, 'vHave', l.vHave, lambda h: h)
def enc_calert(c, a): return enc_bytes(c, a.vchMsg) + enc_bytes(c, a.vchSig)
def enc_msg(c, name, o):
    if name == 'version':
        return (c.le(o.nVersion, 4, True) + c.le(o.nServices, 8) + c.le(o.nTime, 8, True) + enc_addr(c, o.addrTo, False) + enc_addr(c, o.addrFrom, False) + c.le(o.nNonce, 8)
                + enc_bytes(c, o.strSubVer) + c.le(o.nStartingHeight, 4, True))
    if name == 'addr': return enc_vec(c, 'addrs', o.addrs, lambda a: enc_addr(c, a))
    if name == 'alert': return enc_calert(c, o.alert)
    if name in ('inv', 'getdata'): return enc_vec(c, 'inv', o.inv, lambda i: enc_inv(c, i))
    if name in ('getblocks', 'getheaders'): return enc_locator(c, o.locator) + o.hashstop
    if name == 'headers': return enc_vec(c, 'headers', o.headers, lambda b: enc_block(c, b))
    if name == 'tx': return enc_tx(c, o.tx)
    if name == 'block': return enc_block(c, o.block)
    if name in ('ping', 'pong'): return c.le(o.nonce, 8)
    return c.native(b'')
def frame(c, magic, cmd, body, n=None, sum=None):
    return magic + cmd + bytes(12 - len(cmd)) + c.le(len(body) if n is None else n, 4) + (c.hash256(body)[:4] if sum is None else sum) + body

FIELDS = {'CAddress': ('protover', 'nTime', 'nServices', 'pchReserved', 'ip', 'port'), 'CInv': ('type', 'hash'), 'CBlockLocator': ('nVersion', 'vHave'), 'CAlert': ('vchMsg', 'vchSig'),
          'CUnsignedAlert': ('nVersion', 'nRelayUntil', 'nExpiration', 'nID', 'nCancel', 'setCancel', 'nMinVer', 'nMaxVer', 'setSubVer', 'nPriority', 'strComment', 'strStatusBar', 'strReserved'),
          'msg_version': ('protover', 'nVersion', 'nServices', 'nTime', 'addrTo', 'addrFrom', 'nNonce', 'strSubVer', 'nStartingHeight'), 'msg_addr': ('protover', 'addrs'),
          'msg_alert': ('protover', 'alert'), 'msg_inv': ('protover', 'inv'), 'msg_getdata': ('protover', 'inv'), 'msg_getblocks': ('protover', 'locator', 'hashstop'),
          'msg_getheaders': ('protover', 'locator', 'hashstop'), 'msg_headers': ('protover', 'headers'), 'msg_tx': ('protover', 'tx'), 'msg_block': ('protover', 'block'),
          'msg_ping': ('protover', 'nonce'), 'msg_pong': ('protover', 'nonce'), 'msg_verack': ('protover',), 'msg_getaddr': ('protover',), 'msg_mempool': ('protover',)}
def same(c, l, a, b):
    """same type and all fields equal"""
    t = type(b).__name__
    if t == 'CBlock': c.check(l + ' type', type(a) is type(b)); same_block(c, l, a, b)
    elif t == 'CTransaction': c.check(l + ' type', type(a) is type(b)); same_tx(c, l, a, b)
    elif t in FIELDS:
        c.check(l + ' type', type(a) is type(b))
        for k in FIELDS[t]: same(c, '%s.%s' % (l, k), getattr(a, k), getattr(b, k))
    elif t == 'list': c.check(l + ' list', isinstance(a, list)); c.each(l, a, b, same)
    elif t == 'str': c.check(l, a == b)
    else: c.eq(l, a, b)

def params(c, net):
    b = c.mod('bitcoin'); return {'mainnet': b.MainParams, 'testnet': b.TestNetParams, 'regtest': b.RegTestParams}[net]()
def some_message(c):
    """(message, its body, within the size a frame may have)"""
    o = arb(c, c.part); body = enc_msg(c, c.part, o)
    c.assume(len(body) <= c.mod(S).MAX_SIZE)
    return o, body
def body_of(c, o, body):
    """the body the message's own writer produces: the specified one"""
    if not c.symbolic: return body
    g = c.mod(M)._BytesIO(); c.returns('msg_ser', o.msg_ser, g); b = g.getvalue()
    c.eq('body', b, body)
    c.assume(len(b) <= c.mod(S).MAX_SIZE)
    return b

@contract('C30', 'frame', parts=NAMES, models=MODELS, samples=150)
def written(c):
    """what a message is serialized to, on every network"""
    m = c.mod(M); o, body = some_message(c); net = c.choice('net', NETS); p = params(c, net)
    w = frame(c, MAGIC[net], c.part.encode(), body_of(c, o, body))
    c.eq('frame', c.returns('to_bytes', o.to_bytes, p), w)
    if net == 'mainnet':
        c.eq('frame', c.returns('to_bytes', o.to_bytes), w)
        g = m._BytesIO(); c.returns('stream_serialize', o.stream_serialize, g); c.eq('written', g.getvalue(), w)

@contract('C30', 'round trip', parts=NAMES, models=MODELS, samples=150)
def roundtrip(c):
    m = c.mod(M); o, body = some_message(c); net = c.choice('net', NETS); p = params(c, net); tail = c.bytes('tail', 0, 20)
    w = frame(c, MAGIC[net], c.part.encode(), body)
    if net == 'mainnet' and c.bool('whole'):
        same(c, c.part, c.returns('from_bytes', m.MsgSerializable.from_bytes, w), o)
    else:
        f = m._BytesIO(w + tail)
        same(c, c.part, c.returns('decode', m.MsgSerializable.stream_deserialize, f, p), o); c.eq('consumed', c.remaining(f), tail)

@contract('C30', 'corrupt frames', parts=NETS, samples=300)
def corrupt(c):
    """frames with arbitrary contents: another magic, cut short, or a checksum that is not that of the body"""
    m = c.mod(M); s = c.mod(S); p = params(c, c.part); magic = MAGIC[c.part]
    how = c.choice('how', ('header', 'magic', 'cut', 'too long', 'sum'))
    cmd = c.bytes('command', n=12); sum = c.bytes('sum', n=4); body = c.bytes('body', 0, s.MAX_SIZE if c.symbolic else None)
    if how == 'header': b = c.bytes('b', 0, 23)
    elif how == 'magic':
        g = c.bytes('magic', n=4); c.assume(c.neg(g == magic)); b = g + cmd + c.le(c.int('length', 0, U32), 4) + sum + body
    elif how == 'cut':
        n = c.int('length', 1, s.MAX_SIZE); c.assume(n > len(body)); b = magic + cmd + c.le(n, 4) + sum + body
    elif how == 'too long': b = magic + cmd + c.le(c.int('length', s.MAX_SIZE + 1, U32), 4) + sum + body
    else:
        if len(body) == 0: body = c.native(b'')
        c.assume(c.neg(sum == c.hash256(body)[:4])); b = magic + cmd + c.le(len(body), 4) + sum + body
    exc = (ValueError, s.SerializationError) if c.symbolic else Exception
    c.raises('rejected', exc, m.MsgSerializable.stream_deserialize, m._BytesIO(b), p)
    if c.part == 'mainnet': c.raises('rejected', exc, m.MsgSerializable.from_bytes, b)

@contract('C30', 'corruptions of messages', parts=NAMES, samples=120, sym=False, bounded='sampled messages and corruptions')
def corrupted(c):
    m = c.mod(M); o = arb(c, c.part); net = c.choice('net', NETS); p = params(c, net)
    good = o.to_bytes(p); body = good[24:]
    how = c.choice('how', ('magic', 'network', 'sum', 'flip', 'cut', 'cut', 'length', 'body', 'single hash'))
    k = c.int('k', 0, 3); bit = 1 << c.int('bit', 0, 7)
    def flip(b, i): return b[:i] + bytes([b[i] ^ bit]) + b[i + 1:]
    if how == 'magic': bad = flip(good, k)
    elif how == 'network':
        other = c.choice('other', [x for x in NETS if x != net]); bad = MAGIC[other] + good[4:]
    elif how == 'sum': bad = flip(good, 20 + k)
    elif how == 'flip': bad = good[:20] + c.choice('sums', (b'\0\0\0\0', b'\xff\xff\xff\xff', good[20:24][::-1])) + body; c.assume(bad != good)
    elif how == 'cut': bad = good[:c.choice('edge', (23, 24, len(good) - 1)) if c.choice('near', (0, 1)) else c.int('at', 0, len(good) - 1)]; c.assume(len(bad) < len(good))
    elif how == 'length':
        n = c.choice('n', (len(body) + 1, max(len(body) - 1, 0), 0, 2**24, 2**32 - 1)); c.assume(n != len(body))
        bad = good[:16] + c.le(n, 4) + good[20:]
    elif how == 'body': c.assume(body); bad = flip(good, 24 + c.int('byte', 0, len(body) - 1))
    else: bad = good[:20] + c.sha256(body)[:4] + body
    r, err = c.catch(Exception, m.MsgSerializable.stream_deserialize, m._BytesIO(bad), p)
    c.check('rejected with an error', err is not None, repr(r))
    if net == 'mainnet': c.check('rejected with an error', c.catch(Exception, m.MsgSerializable.from_bytes, bad)[1] is not None)

# ---- structures carried by messages
def arb_alert(c):
    a = c.mod(N).CUnsignedAlert()
    for k in ('nVersion', 'nID', 'nCancel', 'nMinVer', 'nMaxVer', 'nPriority'): setattr(a, k, c.int(k, -2**31, I32))
    for k in ('nRelayUntil', 'nExpiration'): setattr(a, k, c.int(k, -2**63, I64))
    for k in ('strComment', 'strStatusBar', 'strReserved'): setattr(a, k, arb_string(c, k))
    a.setCancel = arb_vec(c, 'setCancel', lambda s, i: s.int('id', -2**31, I32))
    a.setSubVer = arb_vec(c, 'setSubVer', lambda s, i: arb_string(s, 'ver'))
    return a
def alert_parts(c, a):
    """its encoding, piece by piece: bytes, or (vector key, items, encoding of an item)"""
    i = lambda v: enc_int(c, v)
    return [i(a.nVersion) + c.le(a.nRelayUntil, 8, True) + c.le(a.nExpiration, 8, True) + i(a.nID) + i(a.nCancel), ('setCancel', a.setCancel, i), i(a.nMinVer) + i(a.nMaxVer),
            ('setSubVer', a.setSubVer, lambda b: enc_bytes(c, b)), i(a.nPriority) + enc_bytes(c, a.strComment) + enc_bytes(c, a.strStatusBar) + enc_bytes(c, a.strReserved)]
PARTS = {'address': (arb_addr, lambda c, a: [enc_addr(c, a)], 'CAddress'), 'address without time': (lambda c: arb_addr(c, False), lambda c, a: [enc_addr(c, a, False)], 'CAddress'),
         'inventory': (arb_inv, lambda c, i: [enc_inv(c, i)], 'CInv'),
         'locator': (arb_locator, lambda c, l: [c.le(l.nVersion, 4, True), ('vHave', l.vHave, lambda h: h)], 'CBlockLocator'),
         'alert': (arb_calert, lambda c, a: [enc_calert(c, a)], 'CAlert'), 'alert contents': (arb_alert, alert_parts, 'CUnsignedAlert')}
def structure(c):
    draw, pieces, cl = PARTS[c.part]; o = draw(c); ps = pieces(c, o)
    return o, ps, getattr(c.mod(N), cl), (True,) if c.part == 'address without time' else ()
def joined(c, ps):
    out = c.native(b'')
    for x in ps: out = out + (enc_vec(c, *x) if isinstance(x, tuple) else x)
    return out

@contract('C30', 'structures', parts=sorted(PARTS), models=MODELS, samples=200)
def structures(c):
    m = c.mod(M); o, ps, cl, a = structure(c); w = joined(c, ps)
    if c.bool('read'):
        tail = c.bytes('tail', 0, 20)
        f = m._BytesIO(w + tail); same(c, c.part, c.returns('deserialize', cl.stream_deserialize, f, *a), o); c.eq('consumed', c.remaining(f), tail)
    else:
        g = m._BytesIO(); c.returns('serialize', o.stream_serialize, g, *a); c.eq('encoding', g.getvalue(), w)

@contract('C30', 'structures cut short', parts=sorted(PARTS), models=MODELS, samples=200)
def cut_structures(c):
    m = c.mod(M); o, ps, cl, a = structure(c)
    # every proper prefix ends in one of these pieces
    k = c.choice('piece', range(len(ps))); w = joined(c, ps[:k]); x = ps[k]
    if isinstance(x, tuple):
        h = c.compact(len(x[1]))
        if c.symbolic and c.bool('in the items'): w = w + h + c.vec_prefix(*x).whole()
        else:
            if not c.symbolic: h = enc_vec(c, *x)
            p = c.int('cut', 0); c.assume(p < len(h)); w = w + h[:p]
    else: p = c.int('cut', 0); c.assume(p < len(x)); w = w + x[:p]
    c.raises('truncated', c.mod(S).SerializationTruncationError, cl.stream_deserialize, m._BytesIO(w), *a)
