"""C32: amounts and hashes exchanged with a node"""
from engine.api import *
from engine.symtools import fresh_amount, DECODING
from contracts.c27 import ref_encode
import json, decimal
R = 'bitcoin.rpc'
HIGH = 2100000000000000            # all the coins there will be

def ref_hex(b): return b[::-1].hex()
class Refused(Exception): pass

# ---- through the whole stack: a node answers over a stand-in for the connection
class Node:
    """the far end of a connection: keeps what was posted, answers with the texts it was given"""
    def __init__(self): self.posted = []; self.answer = 'null'; self.error = None
    def request(self, how, path, data, headers): self.posted.append(json.loads(data, parse_float=decimal.Decimal))
    def getresponse(self): return self
    def read(self):
        if self.raw is not None: return self.raw.encode('utf8')
        return ('{"result": %s, "error": %s, "id": %d}' % ('null' if self.error and not self.both else self.answer, self.error or 'null', self.posted[-1]['id'])).encode('utf8')
    raw = None; both = False

def amount_text(c, name, n):
    """the ways nodes write an amount of n base units"""
    s = '-' if n < 0 else ''; a = abs(n); d = decimal.Decimal(n).scaleb(-8)
    out = ['%s%d.%08d' % (s, a // 10**8, a % 10**8), '%s%d.%08d' % (s, a // 10**8, a % 10**8), '%s%de-8' % (s, a), format(d.normalize(), 'f') if n else '0', str(d)]
    if n % 10**8 == 0: out += ['%s%d' % (s, a // 10**8)] * 2
    return c.choice(name, out)
def some_amount(c, name):
    k = c.choice(name + '?', (0, 1, 1, 2, 3, 3, 4, 4)); n = c.int(name, 0, HIGH)
    if k == 0: n = c.choice(name + ' edge', (0, 1, 2, 3, 29, 57, 58, 99999999, 10**8, 10**8 + 1, 113, 114, 115, 116, 29000000, 57000000, 110000000, 4611686018427, HIGH - 1, HIGH))
    if k == 1: n %= 10**c.int(name + ' digits', 1, 12)
    if k == 2: n -= n % 10**c.int(name + ' zeros', 1, 9)
    return min(n, HIGH)
def some_tx(c):
    from contracts.wire import arb_tx
    return arb_tx(c)
def address(c, name):
    h = c.bytes(name, n=20); raw = bytes([c.choice(name + ' kind', (0, 5))]) + h; return ref_encode(raw + c.hash256(raw)[:4]), h

METHODS = ('getbalance', 'getreceivedbyaddress', 'getinfo', 'gettxout', 'listunspent', 'sendtoaddress', 'getblock', 'getblockhash', 'getrawmempool', 'getrawtransaction', 'verbose', 'gettransaction',
           'lockunspent', 'sendrawtransaction', 'signrawtransaction', 'submitblock', 'addresses', 'refused')
@contract('C32', 'over the connection', parts=METHODS, samples=300, sym=False, bounded='sampled values')
def wired(c):
    m = c.mod(R); core = c.mod('bitcoin.core'); node = Node(); p = m.Proxy('http://user:pw@localhost:1', _connection=node); C = core.COIN; how = c.part
    def asked(*want): c.eq('asked', node.posted[-1]['method'], want[0]); c.eq('params', node.posted[-1]['params'], list(want[1:]))
    def exact(label, got, n): c.check(label, type(got) is int and got == n, 'got %r, the amount is %r' % (got, n))
    h = c.bytes('hash', n=32); t = ref_hex(h); n = some_amount(c, 'amount'); a = amount_text(c, 'as', n)
    if how == 'getbalance':
        if c.choice('owed', (0, 0, 1)): n = -n; a = amount_text(c, 'as', n)
        node.answer = a; exact('amount', c.returns('getbalance', p.getbalance, 'x', 3), n); asked('getbalance', 'x', 3)
    elif how == 'getreceivedbyaddress':
        x, _ = address(c, 'to'); node.answer = a; w = c.mod('bitcoin.wallet').CBitcoinAddress(x)
        exact('amount', c.returns('call', p.getreceivedbyaddress, w, 2), n); asked('getreceivedbyaddress', x, 2)
    elif how == 'getinfo':
        fee = some_amount(c, 'fee'); f = amount_text(c, 'fee as', fee); b = c.choice('wallet', (True, False))
        node.answer = '{%s "paytxfee": %s, "blocks": 7}' % ('"balance": %s,' % a if b else '', f)
        r = c.returns('getinfo', p.getinfo); exact('fee', r['paytxfee'], fee); c.eq('others', r['blocks'], 7)
        if b: exact('balance', r['balance'], n)
    elif how == 'gettxout':
        s = c.bytes('script', 0, 40); bb = c.bytes('block', n=32); k = c.int('n', 0, 2**32 - 1); mem = c.choice('mempool', (True, False))
        node.answer = json.dumps({'bestblock': ref_hex(bb), 'scriptPubKey': {'hex': s.hex()}, 'confirmations': 4}).replace('}}', '}}')[:-1] + ', "value": %s}' % a
        r = c.returns('gettxout', p.gettxout, core.COutPoint(h, k), mem); asked('gettxout', t, k, mem)
        exact('value', r['txout'].nValue, n); c.eq('script', bytes(r['txout'].scriptPubKey), s); c.eq('block', r['bestblock'], bb); c.eq('others', r['confirmations'], 4)
        node.answer = 'null'; c.raises('spent', IndexError, p.gettxout, core.COutPoint(h, k), mem)
    elif how == 'listunspent':
        rows = []; want = []
        for i in range(c.choice('rows', range(4))):
            s = c.sub('row%d' % i); v = some_amount(s, 'v'); hh = s.bytes('hash', n=32); sc = s.bytes('script', 0, 40); x, hx = address(s, 'to'); k = s.int('n', 0, 2**32 - 1)
            rows.append('{"txid": "%s", "vout": %d, "address": "%s", "scriptPubKey": "%s", "amount": %s, "confirmations": 9}' % (ref_hex(hh), k, x, sc.hex(), amount_text(s, 'as', v))); want.append((hh, k, x, sc, v))
        node.answer = '[%s]' % ', '.join(rows); some = c.choice('addresses', (False, True)); xs = [w[2] for w in want]
        r = c.returns('listunspent', lambda: p.listunspent(1, 99, [c.mod('bitcoin.wallet').CBitcoinAddress(x) for x in xs]) if some else p.listunspent(1, 99)); asked('listunspent', *([1, 99] + ([xs] if some else [])))
        c.eq('rows', len(r), len(want))
        for u, (hh, k, x, sc, v) in zip(r, want):
            exact('amount', u['amount'], v); c.eq('hash', u['outpoint'].hash, hh); c.eq('n', u['outpoint'].n, k); c.eq('address', str(u['address']), x); c.eq('script', bytes(u['scriptPubKey']), sc)
    elif how == 'sendtoaddress':
        x, _ = address(c, 'to'); node.answer = '"%s"' % t; w = c.mod('bitcoin.wallet').CBitcoinAddress(x)
        c.eq('transaction', c.returns('sendtoaddress', p.sendtoaddress, w, n), h)
        q = node.posted[-1]; c.eq('asked', q['method'], 'sendtoaddress'); c.eq('address', q['params'][0], x); c.check('amount sent', q['params'][1] * C == n, '%r for %d base units' % (q['params'][1], n))
    elif how == 'getblock':
        from contracts.wire import arb_block
        b = arb_block(c); node.answer = '"%s"' % b.serialize().hex(); r = c.returns('getblock', p.getblock, h); asked('getblock', t, False); c.eq('block', r.serialize(), b.serialize())
        c.raises('not a hash', TypeError, p.getblock, t)
    elif how == 'getblockhash':
        k = c.int('height', 0, 10**7); node.answer = '"%s"' % t; c.eq('hash', c.returns('getblockhash', p.getblockhash, k), h); asked('getblockhash', k)
    elif how == 'getrawmempool':
        hs = [c.sub('t%d' % i).bytes('hash', n=32) for i in range(c.choice('count', range(4)))]; node.answer = json.dumps([ref_hex(x) for x in hs]); r = c.returns('getrawmempool', p.getrawmempool)
        c.eq('count', len(r), len(hs))
        for x, y in zip(r, hs): c.eq('hash', x, y)
    elif how == 'getrawtransaction':
        tx = some_tx(c); node.answer = '"%s"' % tx.serialize().hex(); r = c.returns('getrawtransaction', p.getrawtransaction, h); asked('getrawtransaction', t, 0); c.eq('transaction', r.serialize(), tx.serialize())
    elif how == 'verbose':
        tx = some_tx(c); bb = c.bytes('block', n=32); mined = c.choice('mined', (True, False))
        node.answer = json.dumps(dict({'hex': tx.serialize().hex(), 'txid': t, 'version': 1, 'locktime': 0, 'vin': [], 'vout': [], 'time': 5}, **({'blockhash': ref_hex(bb)} if mined else {})))
        r = c.returns('getrawtransaction', p.getrawtransaction, h, True); asked('getrawtransaction', t, 1); c.eq('transaction', r['tx'].serialize(), tx.serialize()); c.eq('block', r['blockhash'], bb if mined else None); c.eq('others', r['time'], 5)
    elif how == 'gettransaction':
        node.answer = '{"fee": 1}'; c.returns('gettransaction', p.gettransaction, h); asked('gettransaction', t)
    elif how == 'lockunspent':
        ps = [(c.sub('o%d' % i).bytes('hash', n=32), c.sub('o%d' % i).int('n', 0, 2**32 - 1)) for i in range(c.choice('count', range(4)))]; node.answer = 'true'; u = c.choice('unlock', (True, False))
        c.returns('lockunspent', p.lockunspent, u, [core.COutPoint(x, y) for x, y in ps]); asked('lockunspent', u, [{'txid': ref_hex(x), 'vout': y} for x, y in ps])
    elif how == 'sendrawtransaction':
        tx = some_tx(c); node.answer = '"%s"' % t; high = c.choice('high fees', (False, True)); c.eq('hash', c.returns('sendrawtransaction', p.sendrawtransaction, tx, high), h)
        asked('sendrawtransaction', tx.serialize().hex(), *([True] if high else []))
    elif how == 'signrawtransaction':
        tx = some_tx(c); tx2 = some_tx(c.sub('signed')); node.answer = json.dumps({'hex': tx2.serialize().hex(), 'complete': True}); r = c.returns('signrawtransaction', p.signrawtransaction, tx, [])
        asked('signrawtransaction', tx.serialize().hex(), []); c.eq('transaction', r['tx'].serialize(), tx2.serialize()); c.check('complete', r['complete'])
    elif how == 'submitblock':
        from contracts.wire import arb_block
        b = arb_block(c); c.returns('submitblock', p.submitblock, b); asked('submitblock', b.serialize().hex())
    elif how == 'addresses':
        x, hx = address(c, 'to'); node.answer = '"%s"' % x
        for name, f in (('getnewaddress', p.getnewaddress), ('getrawchangeaddress', p.getrawchangeaddress), ('getaccountaddress', p.getaccountaddress)):
            r = c.returns(name, f); c.eq('hash', bytes(r), hx); c.eq('text', str(r), x)
        pub = c.bytes('pub', 0, 70); node.answer = json.dumps({'isvalid': True, 'address': x, 'pubkey': pub.hex()}); r = c.returns('validateaddress', p.validateaddress, x); asked('validateaddress', x); c.eq('text', str(r['address']), x); c.eq('key', r['pubkey'], pub)
    else:
        e = {'code': c.choice('code', (-5, -5, 0, -1, 1, -32601, c.int('any code', -2**31, 2**31 - 1))), 'message': c.choice('message', ('no such thing', '', 'x'))}
        if c.choice('data', (0, 0, 1)): e['data'] = None
        node.error = json.dumps(e); node.both = c.choice('both', (False, False, True)); node.answer = c.choice('also', ('null', '0', 'true', '"00"', '[]', '{}', '1.5'))
        for name, f in (('getblock', lambda: p.getblock(h)), ('getblockhash', lambda: p.getblockhash(1)), ('getrawtransaction', lambda: p.getrawtransaction(h)), ('gettransaction', lambda: p.gettransaction(h))): c.raises(name, IndexError, f)
        for name, f in (('getbalance', p.getbalance), ('getinfo', p.getinfo), ('listunspent', p.listunspent), ('getrawmempool', p.getrawmempool), ('getnewaddress', p.getnewaddress), ('getrawchangeaddress', p.getrawchangeaddress),
                        ('getaccountaddress', p.getaccountaddress), ('gettxout', lambda: p.gettxout(core.COutPoint(h, 0))), ('lockunspent', lambda: p.lockunspent(True, [])), ('sendtoaddress', lambda: p.sendtoaddress('x', 5)),
                        ('getreceivedbyaddress', lambda: p.getreceivedbyaddress('x')), ('sendrawtransaction', lambda: p.sendrawtransaction(core.CTransaction())), ('signrawtransaction', lambda: p.signrawtransaction(core.CTransaction())),
                        ('submitblock', lambda: p.submitblock(core.CBlock())), ('validateaddress', lambda: p.validateaddress('x')), ('any other', lambda: p.help())):
            x = c.raises(name, m.JSONRPCException, f); c.check('the error of the node', x.error == e)
        node.raw = c.choice('malformed', ('{"error": null}', '{"error": null, "id": 1}')); c.eq('no result', c.raises('no result', m.JSONRPCException, p.getbalance).error['code'], -343)
        node.getresponse = lambda: None; c.eq('no answer', c.raises('no answer', m.JSONRPCException, p.getbalance).error['code'], -342)

# ---- proved: what a call makes of an arbitrary answer
@contract('C32', 'answers', samples=200, parts=('error', 'result', 'neither'))
def answers(c):
    m = c.mod(R); sent = []; r = {}; e = {'code': c.int('code'), 'message': c.choice('message', ('', 'no such thing'))}
    class Conn:
        def request(self, *a): sent.append(a)
    class Node(m.Proxy):
        def _get_response(self): return r
    # what the request looks like is checked over the connection
    p = Node(service_url='http://user:pw@localhost:1', _connection=Conn()); v = c.choice('value', (None, c.int('result'), [], ''))
    if c.part == 'error':
        r['error'] = e
        if c.choice('both', (False, True)): r['result'] = v
        x = c.raises('raises', m.JSONRPCException, p._call, 'getinfo'); c.check('the error of the node', c.both(x.error['code'] == e['code'], x.error['message'] == e['message']))
    elif c.part == 'result':
        r['error'] = None; r['result'] = v; c.check('result', c.returns('call', p._call, 'getinfo') is v)
    else:
        r['error'] = None; c.eq('code', c.raises('raises', m.JSONRPCException, p._call, 'getinfo').error['code'], -343)
    c.eq('requests', len(sent), 1)

# ---- proved: each method against an arbitrary answer of the node
def node_of(c, answer):
    """a proxy whose node gives this answer, and what it was asked"""
    m = c.mod(R); asked = []
    class Node(m.Proxy):
        def __init__(self): pass
        def _call(self, name, *args): asked.append((name, args)); return answer
    return Node(), asked
def coins(c, name):
    """an amount a node sends, and its base units"""
    n = c.int(name, -HIGH, HIGH)
    if c.choice(name + '?', (0, 1)): return n, n * 10**8             # a whole number of coins
    return (fresh_amount(n) if c.symbolic else decimal.Decimal(n).scaleb(-8)), n
def hexed(c, h): return c.hex(h[::-1])
def called(c, asked, name, *args):
    c.eq('calls', len(asked), 1); c.eq('method', asked[0][0], name); c.eq('number of params', len(asked[0][1]), len(args))
    for x, y in zip(asked[0][1], args): c.check('param', x == y)

@contract('C32', 'amounts received', samples=300, parts=('getbalance', 'getreceivedbyaddress', 'getinfo', 'gettxout', 'listunspent'))
def received(c):
    a, n = coins(c, 'amount'); core = c.mod('bitcoin.core')
    if c.part == 'getbalance':
        p, asked = node_of(c, a); acc = c.choice('account', ('*', '', 'x')); conf = c.int('minconf', 0)
        c.eq('amount', c.returns('getbalance', p.getbalance, acc, conf), n); called(c, asked, 'getbalance', acc, conf)
    elif c.part == 'getreceivedbyaddress':
        p, asked = node_of(c, a); conf = c.int('minconf', 0)
        c.eq('amount', c.returns('getreceivedbyaddress', p.getreceivedbyaddress, 'mfWxJ45yp2SFn7UciZyNpvDKrzbhyfKrY8', conf), n); called(c, asked, 'getreceivedbyaddress', 'mfWxJ45yp2SFn7UciZyNpvDKrzbhyfKrY8', conf)
    elif c.part == 'getinfo':
        f, fee = coins(c, 'fee'); r = {'paytxfee': f, 'blocks': c.int('blocks')}; w = c.choice('wallet', (True, False)); b = r['blocks']
        if w: r['balance'] = a
        p, asked = node_of(c, r); r = c.returns('getinfo', p.getinfo); called(c, asked, 'getinfo')
        c.eq('fee', r['paytxfee'], fee); c.eq('others', r['blocks'], b)
        if w: c.eq('balance', r['balance'], n)
        c.check('nothing else', len(r) == 2 + w)
    elif c.part == 'listunspent':
        rows = []; want = []; x = '1111111111111111111114oLvT2'
        for i in range(c.choice('rows', range(3))):
            d = c.sub('row%d' % i); b, v = coins(d, 'v'); h = d.bytes('hash', n=32); s = d.bytes('script'); k = d.int('n', 0, 2**32 - 1); want.append((h, k, s, v))
            rows.append({'txid': hexed(c, h), 'vout': k, 'address': x, 'scriptPubKey': c.hex(s), 'amount': b, 'confirmations': 4})
        p, asked = node_of(c, rows); u = c.returns('listunspent', p.listunspent, 2, 7); called(c, asked, 'listunspent', 2, 7); c.eq('rows', len(u), len(want))
        for r, (h, k, s, v) in zip(u, want):
            c.eq('amount', r['amount'], v); c.eq('hash', r['outpoint'].hash, h); c.eq('n', r['outpoint'].n, k); c.eq('script', c.raw(r['scriptPubKey']), s); c.eq('address', c.raw(r['address']), bytes(20)); c.eq('others', r['confirmations'], 4)
    else:
        s = c.bytes('script'); bb = c.bytes('block', n=32); h = c.bytes('hash', n=32); k = c.int('n', 0, 2**32 - 1); mem = c.symbool('mempool')
        p, asked = node_of(c, {'value': a, 'bestblock': hexed(c, bb), 'scriptPubKey': {'hex': c.hex(s)}})
        r = c.returns('gettxout', p.gettxout, core.COutPoint(h, k), mem); called(c, asked, 'gettxout', hexed(c, h), k, mem)
        c.eq('value', r['txout'].nValue, n); c.eq('script', c.raw(r['txout'].scriptPubKey), s); c.eq('block', r['bestblock'], bb); c.check('nothing else', len(r) == 2)

@contract('C32', 'amounts sent', samples=300)
def sent(c):
    n = c.int('amount', 0, HIGH); h = c.bytes('hash', n=32); p, asked = node_of(c, hexed(c, h)); x = '1111111111111111111114oLvT2'
    c.eq('transaction', c.returns('sendtoaddress', p.sendtoaddress, x, n), h); c.eq('method', asked[0][0], 'sendtoaddress'); c.eq('address', asked[0][1][0], x); c.check('params', len(asked[0][1]) == 2)
    v = asked[0][1][1]
    # the number nearest to the amount (whose shortest text is the amount, below 2**25 coins)
    if c.symbolic: c.check('amount', v.nearest(n, 10**8))
    else: c.check('amount', decimal.Decimal(repr(v)) * 10**8 == n)

@contract('C32', 'hashes', models=DECODING, samples=300, parts=('getblock', 'getblockhash', 'getrawmempool', 'gettransaction', 'lockunspent', 'sendrawtransaction', 'getrawtransaction'))
def hashes(c):
    h = c.bytes('hash', n=32); core = c.mod('bitcoin.core')
    if c.part == 'getblockhash':
        p, asked = node_of(c, hexed(c, h)); k = c.int('height', 0); c.eq('hash', c.returns('getblockhash', p.getblockhash, k), h); called(c, asked, 'getblockhash', k)
    elif c.part == 'gettransaction':
        p, asked = node_of(c, {}); c.returns('gettransaction', p.gettransaction, h); called(c, asked, 'gettransaction', hexed(c, h))
    elif c.part == 'getrawmempool':
        l = c.list('hashes', lambda s, i: s.bytes('hash', n=32), kind=list); p, asked = node_of(c, c.gen_list(len(l), lambda i: hexed(c, l[i])))
        r = c.returns('getrawmempool', p.getrawmempool); called(c, asked, 'getrawmempool'); c.each('hashes', r, l, lambda c, lab, a, b: c.eq(lab, a, b))
    elif c.part == 'lockunspent':
        l = c.items('outpoints', lambda s, i: core.COutPoint(s.bytes('hash', n=32), s.int('n', 0, 2**32 - 1)), 0, 2); p, asked = node_of(c, True); u = c.symbool('unlock')
        c.returns('lockunspent', p.lockunspent, u, l); c.eq('method', asked[0][0], 'lockunspent'); c.check('unlock', asked[0][1][0] == u); got = asked[0][1][1]; c.eq('outpoints', len(got), len(l))
        for x, o in zip(got, l): c.check('outpoint', c.both(x['txid'] == hexed(c, o.hash), x['vout'] == o.n, len(x) == 2))
    elif c.part == 'sendrawtransaction':
        d = c.bytes('serialized')
        class Tx:
            def serialize(self): return d
        p, asked = node_of(c, hexed(c, h)); high = c.choice('high fees', (False, True)); c.eq('hash', c.returns('sendrawtransaction', p.sendrawtransaction, Tx(), high), h)
        called(c, asked, 'sendrawtransaction', c.hex(d), *((True,) if high else ()))
    elif c.part == 'getblock':
        d = c.bytes('serialized'); p, asked = node_of(c, c.hex(d))
        if not c.symbolic: c.unsupported('see above')
        c.eq('block', c.returns('getblock', p.getblock, h).got, d); called(c, asked, 'getblock', hexed(c, h), False)
    else:
        d = c.bytes('serialized'); verbose = c.choice('verbose', (False, True))
        if not c.symbolic: c.unsupported('see above')
        if not verbose:
            p, asked = node_of(c, c.hex(d)); c.eq('transaction', c.returns('getrawtransaction', p.getrawtransaction, h).got, d); called(c, asked, 'getrawtransaction', hexed(c, h), 0); return
        r = {'hex': c.hex(d), 'txid': hexed(c, h), 'version': 1, 'locktime': 0, 'vin': [], 'vout': []}; bb = c.bytes('block', n=32); mined = c.choice('mined', (False, True))
        if mined: r['blockhash'] = hexed(c, bb)
        p, asked = node_of(c, r); r = c.returns('getrawtransaction', p.getrawtransaction, h, True); called(c, asked, 'getrawtransaction', hexed(c, h), 1); c.eq('transaction', r['tx'].got, d)
        if mined: c.eq('block', r['blockhash'], bb)
        else: c.check('no block', r['blockhash'] is None)

# ---- where a call goes, and with which credentials
def password(c, name, more=''):
    return ''.join(c.choice('%s %d' % (name, k), "abzAZ019-_.+=/:@?&%!~$;,*()[]'" + '"' + more) for k in range(c.int(name + ' length', 1, 12)))
@contract('C32', 'the node called', samples=600, sym=False, bounded='sampled addresses, credentials and configuration files')
def node_called(c):
    import base64, http.client, os, shutil, tempfile, urllib.parse
    m = c.mod(R); b = c.mod('bitcoin'); seen = []
    user, pw = password(c, 'user'), password(c, 'password'); port = c.int('port', 1, 65535); https = c.choice('https', (False, True))
    net = c.choice('net', ('mainnet', 'testnet', 'regtest')); how = c.choice('how', ('url', 'file', 'home')); raw = c.choice('raw', (False, True)); kw = {}
    if c.choice('timeout', (False, True)): kw['timeout'] = 7
    d = tempfile.mkdtemp(prefix='rpc-'); C = http.client.HTTPConnection; old = C.request, C.getresponse, os.environ.get('HOME')
    def request(self, how, path, data=None, headers={}, **k): seen.append((self, how, path, data, dict(headers)))
    class Answer:
        def read(self): return b'{"result": 5, "error": null, "id": 1}'
    try:
        C.request = request; C.getresponse = lambda self: Answer(); b.SelectParams(net); path = ''
        cls = m.RawProxy if raw else m.Proxy
        if how == 'url':
            path = c.choice('path', ('', '/', '/wallet')); host = c.choice('host', ('localhost', '10.0.0.7', 'node.example')); enc = lambda s: urllib.parse.quote(s, safe='')
            p = c.returns('proxy', cls, '%s://%s:%s@%s:%d%s' % ('https' if https else 'http', enc(user), enc(pw), host, port, path), **kw)
        else:
            host = 'localhost'; lines = ['rpcuser=' + user, 'rpcpassword=%s' % pw]; given = c.choice('port', ('file', 'argument', 'neither', 'both'))
            if given in ('file', 'both'): lines.append('rpcport=%d' % port)
            if given in ('argument', 'both'): kw['service_port'] = port if given == 'argument' else 1
            if given == 'argument' and c.choice('usual', (0, 0, 1)): kw['service_port'] = port = c.choice('which', (8332, 18332))
            if given == 'neither': port = {'mainnet': 8332, 'testnet': 18332, 'regtest': 18332}[net]
            ssl = c.choice('ssl', ('1', 'true', 'True') if https else (None, '0', 'false', 'False'))
            if ssl: lines.append('rpcssl=' + ssl)
            lines = ['# a comment', 'server', ''] + [c.choice('spaces', (l, l + '  ', l.replace('=', ' = ', 1), l + ' # rest')) for l in lines]
            f = os.path.join(d, 'x.conf')
            if how == 'home': os.makedirs(d + '/.bitcoin'); f = d + '/.bitcoin/bitcoin.conf'; os.environ['HOME'] = d
            else: kw['btc_conf_file'] = f
            with open(f, 'w') as fd: fd.write('\n'.join(lines) + '\n')
            p = c.returns('proxy', cls, **kw)
        n = c.int('calls', 1, 3)
        for k in range(n): c.eq('answer', c.returns('call', p.getblockcount), 5)
        c.eq('requests', len(seen), n)
        for k, (conn, verb, at, data, headers) in enumerate(seen):
            c.check('host and port', (conn.host, conn.port) == (host, port), 'got %r' % ((conn.host, conn.port),)); c.check('https', isinstance(conn, http.client.HTTPSConnection) is https)
            c.check('timeout', conn.timeout == kw.get('timeout', 30)); c.eq('posted to', (verb, at), ('POST', path))
            a = headers['Authorization']; a = a.encode() if isinstance(a, str) else a
            c.eq('credentials', a, b'Basic ' + base64.b64encode(('%s:%s' % (user, pw)).encode('utf8')))
            q = json.loads(data); c.eq('method', q['method'], 'getblockcount'); c.eq('params', q['params'], [])
        c.check('numbered apart', len({json.loads(x[3])['id'] for x in seen}) == n)
        if how != 'url':
            with open(f, 'a') as fd: fd.write('rpcssl=maybe\n')
            c.raises('unknown rpcssl', ValueError, cls, **kw)
    finally:
        C.request, C.getresponse = old[:2]; b.SelectParams('mainnet')
        if old[2] is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = old[2]
        shutil.rmtree(d)
