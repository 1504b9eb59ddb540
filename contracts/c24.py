"""C24: context-free checks of transactions, headers and blocks"""
from engine.api import *
from contracts.wire import *
from engine.symtools import merkle_model, set_is_prefix, havoc_prefix, RunningSum, tag, tag_of

MAX_MONEY = 21000000 * 100000000
MAX_SIZE = 1000000
MAX_SIGOPS = 20000
NULL = b'\0' * 32

def is_null(c, o): return c.both(o.hash == c.native(NULL), o.n == U32)
def same(c, a, b): return enc_outpoint(c, a) == enc_outpoint(c, b)
def money(c, v): return c.both(0 <= v, v <= MAX_MONEY)

# ---------------------------------------------------------------- transactions
@loop('CheckTransaction#0')
class Outputs(LoopSpec):
    """every output seen is in range and so is every running total"""
    def enter(self, L): L.g.sum, L.g.j, L.g.ok = L.env('outs')
    def havoc(self, L):
        L.g.sum.step(L.k)
        return {'nValueOut': L.g.sum(L.k)}
    def inv(self, L):
        return [('running total', L['nValueOut'] == L.g.sum(L.k)), ('outputs seen', L.implies(L.g.j < L.k, L.g.ok))]

@loop('CheckTransaction#1')
class Inputs(LoopSpec):
    """the outpoints seen are distinct and are the members of the set"""
    def enter(self, L):
        L.g.at, L.g.i1, L.g.i2, L.g.differ = L.env('ins')
    def havoc(self, L):
        havoc_prefix(L, L['vin_outpoints'], L.g.at, L.k, (L.g.i1,))
        return {}
    def inv(self, L):
        return [('members', set_is_prefix(L['vin_outpoints'], L.g.at, L.k)), ('distinct', L.implies(L.g.i2 < L.k, L.g.differ))]

@loop('CheckTransaction#2')
class NullInputs(LoopSpec):
    def enter(self, L): L.g.j, L.g.ok = L.env('nulls')
    def inv(self, L): return [('none null', L.implies(L.g.j < L.k, L.g.ok))]

CHECKTX = ['CheckTransaction#0', 'CheckTransaction#1', 'CheckTransaction#2']

def tx_rules(c, tx):
    """the context-free rules, evaluated"""
    if not tx.vin or not tx.vout or len(enc_tx(c, tx)) > MAX_SIZE: return False
    total = 0
    for o in tx.vout:
        total += o.nValue
        if not 0 <= o.nValue <= MAX_MONEY or not 0 <= total <= MAX_MONEY: return False
    pts = [(bytes(i.prevout.hash), i.prevout.n) for i in tx.vin]
    if len(set(pts)) != len(pts): return False
    if len(pts) == 1 and pts[0] == (NULL, U32): return 2 <= len(tx.vin[0].scriptSig) <= 100
    return (NULL, U32) not in pts

@contract('C24', 'transactions', cuts=CHECKTX, models=VECTORS, samples=300, max_paths=60000)
def check_tx(c):
    m = c.mod(B)
    tx = arb_tx(c, c.bool('mutable'))
    if not c.symbolic:
        r, e = c.catch(m.CheckTransactionError, m.CheckTransaction, tx)
        c.check('verdict', (e is None) == tx_rules(c, tx))
        return
    vin, vout = tx.vin, tx.vout
    nin, nout = len(vin), len(vout)
    j = c.int('j', 0); i1 = c.int('i1', 0); i2 = c.int('i2', 0); z = c.int('z', 0)
    c.assume(i1 < i2)
    total = RunningSum(lambda k: vout[k].nValue, nout)
    if c.lt(j, nout): total.step(j); out_ok = c.both(money(c, vout[j].nValue), money(c, total(j + 1)))
    else: out_ok = True
    differ = c.neg(same(c, vin[i1].prevout, vin[i2].prevout)) if c.lt(i2, nin) else True
    not_null = c.neg(is_null(c, vin[z].prevout)) if c.lt(z, nin) else True
    c.ghost(outs=(total, j, out_ok), ins=(lambda k: vin[k].prevout, i1, i2, differ), nulls=(z, not_null))
    size = len(tx.serialize())          # the encoding is C16's
    coinbase = nin == 1 and is_null(c, vin[0].prevout)
    r, e = c.catch(m.CheckTransactionError, m.CheckTransaction, tx)
    if e is None:
        c.check('inputs and outputs', c.both(nin > 0, nout > 0))
        c.check('size', size <= MAX_SIZE)
        c.check('outputs in range', out_ok)
        c.check('no duplicate inputs', differ)
        if coinbase: c.check('coinbase script', c.both(2 <= len(vin[0].scriptSig), len(vin[0].scriptSig) <= 100))
        else: c.check('no null input', not_null)
    else:
        bad = [nin == 0, nout == 0, size > MAX_SIZE]
        k = c.witness(CHECKTX[0])
        if k is not None and c.lt(-1, k) and c.lt(k, nout): bad += [c.neg(money(c, vout[k].nValue)), c.neg(money(c, total(k + 1)))]
        k = c.witness(CHECKTX[1])
        hit = c.set_hit(CHECKTX[1], 'vin_outpoints')
        if hit is not None: bad.append(c.both(hit >= 0, hit < k, k < nin, same(c, vin[hit].prevout, vin[k].prevout)))
        if coinbase: bad += [len(vin[0].scriptSig) < 2, len(vin[0].scriptSig) > 100]
        else:
            k = c.witness(CHECKTX[2])
            if k is not None and c.lt(-1, k) and c.lt(k, nin): bad.append(is_null(c, vin[k].prevout))
        c.any('a rule is broken', bad)

def edge_tx(c):
    """transactions around the limits"""
    m = c.mod(B)
    mutable = c.bool('mutable')
    nin = c.choice('inputs', (0, 1, 1, 1, 2, 3, 5)); nout = c.choice('outputs', (0, 1, 1, 2, 2, 3, 6))
    null = m.COutPoint()
    pts = []
    for k in range(nin):
        s = c.sub('in%d' % k)
        how = s.choice('outpoint', ('new', 'new', 'new', 'null', 'null hash', 'max n', 'again', 'same hash', 'same n'))
        n = s.int('n', 0, U32); h = s.bytes('hash', n=32)
        if how == 'null': h, n = NULL, U32
        elif how == 'null hash': h = NULL
        elif how == 'max n': n = U32
        elif how == 'again' and pts: h, n = pts[s.int('which', 0, len(pts) - 1)]
        elif how == 'same hash' and pts: h = pts[0][0]
        elif how == 'same n' and pts: n = pts[-1][1]
        pts.append((h, n))
    if c.bool('coinbase') and nin == 1: pts = [(NULL, U32)]
    vin = []
    for k, (h, n) in enumerate(pts):
        s = c.sub('in%d' % k)
        l = s.choice('scriptlen', (0, 1, 2, 3, 50, 99, 100, 101, 102, 200))
        vin.append((m.CMutableTxIn if mutable else m.CTxIn)(m.CMutableOutPoint(h, n) if mutable else m.COutPoint(h, n), m.script.CScript(bytes(l)), s.int('seq', 0, U32)))
    vout = []; left = MAX_MONEY
    for k in range(nout):
        s = c.sub('out%d' % k)
        how = s.choice('value', ('small', 'small', 'small', 'zero', 'rest', 'rest', 'rest+1', 'max', 'max+1', '-1', 'any', 'min'))
        v = {'small': s.int('v', 0, 10**9), 'zero': 0, 'rest': left, 'rest+1': left + 1, 'max': MAX_MONEY, 'max+1': MAX_MONEY + 1, '-1': -1,
             'any': s.int('any', -2**63, 2**63 - 1), 'min': -2**63}[how]
        left = max(0, min(MAX_MONEY, left - v))
        vout.append((m.CMutableTxOut if mutable else m.CTxOut)(v, m.script.CScript(bytes(s.choice('scriptlen', (0, 1, 25))))))
    cls = m.CMutableTransaction if mutable else m.CTransaction
    args = c.int('nLockTime', 0, U32), c.int('nVersion', -2**31, 2**31 - 1)
    size = c.choice('size', (None,) * 9 + (-1, 0, 1))
    if size is not None and vin and vout:
        # pad one script so that the whole takes exactly the limit, give or take one byte
        where = c.choice('padded', ('in', 'out'))
        tx = cls(vin, vout, *args)
        room = MAX_SIZE + size - len(enc_tx(c, tx)) - 4
        if where == 'in':
            o = vin[-1]; vin[-1] = o.__class__(o.prevout, m.script.CScript(bytes(len(o.scriptSig) + room)), o.nSequence)
        else:
            o = vout[-1]; vout[-1] = o.__class__(o.nValue, m.script.CScript(bytes(len(o.scriptPubKey) + room)))
    return cls(vin, vout, *args)

@contract('C24', 'transactions around the limits', sym=False, samples=4000, bounded='sampled: up to 5 inputs and 6 outputs')
def check_tx_edges(c):
    m = c.mod(B)
    tx = edge_tx(c)
    r, e = c.catch(m.CheckTransactionError, m.CheckTransaction, tx)
    c.check('verdict', (e is None) == tx_rules(c, tx), repr(e))

@contract('C24', 'coinbase transactions', samples=600)
def coinbase(c):
    m = c.mod(B)
    tx = arb_tx(c, c.bool('mutable')) if c.symbolic else edge_tx(c)
    want = c.both(len(tx.vin) == 1, is_null(c, tx.vin[0].prevout)) if c.lt(0, len(tx.vin)) else False
    c.eq('is_coinbase', bool(c.returns('is_coinbase', tx.is_coinbase)), want)

@contract('C24', 'money range')
def money_range(c):
    v = c.int('v')
    c.eq('MoneyRange', c.returns('MoneyRange', c.mod(B).MoneyRange, v), money(c, v))

# ---------------------------------------------------------------- headers
def pow_model(w, orig):
    from engine import api
    c = api.SymCtx(w)
    def CheckProofOfWork(hash, nBits):
        g = c.ghosts()
        c.eq('hash checked', hash, g['hash']); c.eq('bits checked', nBits, g['bits'])
        g['seen'] = True
        if c.choice('work', ('invalid', 'valid')) == 'invalid': raise w.load(B).CheckProofOfWorkError('no work')
    return CheckProofOfWork

def arb_header(c):
    m = c.mod(B)
    return m.CBlockHeader(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32), c.int('nTime', 0, U32), c.int('nBits', 0, U32), c.int('nNonce', 0, U32))

def work_ok(c, h, bits):
    """C25's condition, evaluated"""
    e, mant = bits >> 24, bits & 0xffffff
    t = mant * 256 ** (e - 3) if e >= 3 else mant // 256 ** (3 - e)
    return mant < 2**23 and 0 < t <= 2**224 - 1 and int.from_bytes(h, 'little') <= t

@contract('C24', 'headers', models=[('bitcoin.core:CheckProofOfWork', pow_model)], samples=600)
def check_header(c):
    m = c.mod(B)
    h = arb_header(c)
    f = c.bool('fCheckPoW')
    now = c.int('now', -7300, U32 + 7300) if c.symbolic else c.choice('off', (c.int('now', 0, U32), h.nTime, h.nTime - 7200, h.nTime - 7201, h.nTime - 7199, 0))
    c.ghost(hash=c.hash256(enc_header(c, h)), bits=h.nBits, seen=False)
    r, e = c.catch(m.CheckBlockHeaderError, m.CheckBlockHeader, h, fCheckPoW=f, cur_time=now)
    if c.symbolic:
        g = c.ghosts()
        c.check('work is checked when asked for', f == g['seen'])
        late = h.nTime > now + 7200
        work = True if not f else c.choice('work', ('invalid', 'valid')) == 'valid'
    else:
        late = h.nTime > now + 7200
        work = not f or work_ok(c, c.hash256(enc_header(c, h)), h.nBits)
    c.check('verdict', c.both(work, c.neg(late)) if e is None else c.either(not work, late))

@contract('C24', 'headers now', sym=False, samples=200, bounded='sampled')
def check_header_now(c):
    m = c.mod(B)
    now = c.int('now', 7200, U32)
    h = m.CBlockHeader(nTime=min(U32, max(0, now + 7200 + c.choice('off', (-7200, -1, 0, 1, 2, 5000)))))
    old = m.time
    m.time = type('T', (), {'time': staticmethod(lambda: now)})
    try: r, e = c.catch(m.CheckBlockHeaderError, m.CheckBlockHeader, h, fCheckPoW=False)
    finally: m.time = old
    c.check('verdict', (e is None) == (h.nTime <= now + 7200))

# ---------------------------------------------------------------- signature operations of a transaction
@loop('GetLegacySigOpCount#0')
class SigIn(LoopSpec):
    def enter(self, L): L.g.a, L.g.b, L.g.n = L.env('sigs')
    def havoc(self, L):
        L.g.a.step(L.k)
        return {'nSigOps': L.g.a(L.k)}
    def inv(self, L): return [('counted', L['nSigOps'] == L.g.a(L.k))]
@loop('GetLegacySigOpCount#1')
class SigOut(LoopSpec):
    def enter(self, L): L.g.a, L.g.b, L.g.n = L.env('sigs')
    def havoc(self, L):
        L.g.b.step(L.k)
        return {'nSigOps': L.g.a(L.g.n) + L.g.b(L.k)}
    def inv(self, L): return [('counted', L['nSigOps'] == L.g.a(L.g.n) + L.g.b(L.k))]

def sigops_model(w, orig):
    from engine.symtools import opaque_int
    from engine import api
    def GetSigOpCount(self, fAccurate):
        core_ok = fAccurate is False
        api.SymCtx(w).check('the legacy count is used', core_ok)
        return opaque_int('sigops', self)
    return GetSigOpCount

@contract('C24', 'legacy signature operations', cuts=['GetLegacySigOpCount#0', 'GetLegacySigOpCount#1'],
          models=[('bitcoin.core.script:CScript.GetSigOpCount', sigops_model)])
def legacy_sigops(c):
    m = c.mod(B)
    if not c.symbolic:
        tx = arb_tx(c, c.bool('mutable'))
        c.eq('count', c.returns('GetLegacySigOpCount', m.GetLegacySigOpCount, tx),
             sum(i.scriptSig.GetSigOpCount(False) for i in tx.vin) + sum(o.scriptPubKey.GetSigOpCount(False) for o in tx.vout))
        return
    def txin(s, i):
        t = arb_txin(s); c.tag(t.scriptSig, s, 0); return t
    def txout(s, i):
        t = arb_txout(s); c.tag(t.scriptPubKey, s, 1); return t
    tx = m.CTransaction(c.list('vin', txin), c.list('vout', txout))
    a = RunningSum(lambda k: tx.vin[k].scriptSig.GetSigOpCount(False), len(tx.vin))
    b = RunningSum(lambda k: tx.vout[k].scriptPubKey.GetSigOpCount(False), len(tx.vout))
    c.ghost(sigs=(a, b, len(tx.vin)))
    c.eq('count', c.returns('GetLegacySigOpCount', m.GetLegacySigOpCount, tx), a(len(tx.vin)) + b(len(tx.vout)))

# ---------------------------------------------------------------- blocks
@loop('CheckBlock#0')
class Txs(LoopSpec):
    """all transactions seen are valid, none but the first a coinbase, their ids distinct and the members of the set, their signature operations counted"""
    def enter(self, L): L.g.sum, L.g.j, L.g.ok, L.g.at, L.g.i1, L.g.i2, L.g.differ = L.env('txs')
    def havoc(self, L):
        L.g.sum.step(L.k)
        havoc_prefix(L, L['unique_txids'], L.g.at, L.k, (L.g.i1,))
        return {'nSigOps': L.g.sum(L.k)}
    def inv(self, L):
        return [('counted', L['nSigOps'] == L.g.sum(L.k)), ('limit', L['nSigOps'] <= MAX_SIGOPS), ('transactions seen', L.implies(L.g.j < L.k, L.g.ok)),
                ('members', set_is_prefix(L['unique_txids'], L.g.at, L.k)), ('distinct', L.implies(L.g.i2 < L.k, L.g.differ))]

def m_bool(name):
    def mk(w, orig):
        from engine.symtools import opaque_bool
        return lambda self: opaque_bool(name, self)
    return mk
def m_hash(w, orig):
    from engine.symtools import opaque_bytes
    return lambda self: opaque_bytes('txid', self, 32)
def m_sigops(w, orig):
    from engine.symtools import opaque_int
    return lambda tx: opaque_int('sigops', tx)
def m_checktx(w, orig):
    from engine.symtools import opaque_bool
    from engine.sym import truth
    def CheckTransaction(tx):
        if not truth(opaque_bool('valid', tx)): raise w.load(B).CheckTransactionError('invalid')
    return CheckTransaction
def m_header(w, orig):
    from engine import api
    c = api.SymCtx(w)
    def CheckBlockHeader(h, fCheckPoW=True, cur_time=None):
        g = c.ghosts()
        c.eq('header checked', enc_header(c, h), g['header']); c.check('options passed on', fCheckPoW == g['pow']); c.check('options passed on', cur_time is g['now'])
        g['seen'] = True
        if c.choice('header', ('invalid', 'valid')) == 'invalid': raise w.load(B).CheckProofOfWorkError('no work')
    return CheckBlockHeader
def m_size(w, orig):
    from engine.symtools import opaque_int
    from engine import sym
    def serialize(self):
        return sym.VBytes._mk((sym.Sub(sym.SymBase('wire'), 0, opaque_int('wiresize', self)),))
    return serialize
def m_root(w, orig):
    from engine.symtools import opaque_bytes
    return lambda self: opaque_bytes('root of the tree', self, 32)

@contract('C24', 'blocks', cuts=['CheckBlock#0'], conc=False, max_paths=60000, models=[
    ('bitcoin.core:CBlock.build_merkle_tree_from_txids', merkle_model),
    ('bitcoin.core:CBlock.calc_merkle_root', m_root),
    ('bitcoin.core:CheckBlockHeader', m_header), ('bitcoin.core:CheckTransaction', m_checktx), ('bitcoin.core:GetLegacySigOpCount', m_sigops),
    ('bitcoin.core:CTransaction.is_coinbase', m_bool('coinbase')), ('bitcoin.core:CTransaction.GetHash', m_hash),
    ('bitcoin.core.serialize:Serializable.serialize', m_size)])
def check_block(c):
    m = c.mod(B)
    def tx(s, i):
        t = m.CTransaction((), (), s.int('id'), 1) if False else arb_tx(s)
        c.tag(t, s); return t
    vtx = c.list('vtx', tx)
    b = m.CBlock(c.int('nVersion', -2**31, 2**31 - 1), c.bytes('prev', n=32), c.bytes('root', n=32), c.int('nTime', 0, U32), c.int('nBits', 0, U32), c.int('nNonce', 0, U32), vtx=vtx)
    c.tag(b, c)
    n = len(b.vtx)
    f, fm = c.bool('fCheckPoW'), c.bool('fCheckMerkleRoot'); now = c.choice('now', (None, 1234567))
    cb = lambda k: b.vtx[k].is_coinbase()
    valid = lambda k: c.opaque_bool('valid', b.vtx[k])
    total = RunningSum(lambda k: m.GetLegacySigOpCount(b.vtx[k]), n)
    txid = lambda k: b.vtx[k].GetHash()
    j = c.int('j', 0); i1 = c.int('i1', 0); i2 = c.int('i2', 0); c.assume(i1 < i2)
    ok = c.both(valid(j), c.either(j == 0, c.neg(cb(j)))) if c.lt(j, n) else True
    differ = c.neg(txid(i1) == txid(i2)) if c.lt(i2, n) else True
    c.ghost(txs=(total, j, ok, txid, i1, i2, differ), header=enc_header(c, b), pow=f, now=now, seen=False)
    r, e = c.catch(m.ValidationError, m.CheckBlock, b, fCheckPoW=f, fCheckMerkleRoot=fm, cur_time=now)
    g = c.ghosts()
    root_ok = c.either(not fm, b.hashMerkleRoot == b.calc_merkle_root())
    size_ok = len(b.serialize()) <= MAX_SIZE
    header_ok = g['seen'] and c.choice('header', ('invalid', 'valid')) == 'valid'
    if e is None:
        c.check('header', header_ok); c.check('not empty', n > 0); c.check('size', size_ok)
        c.check('coinbase first', cb(0)); c.check('transactions', ok); c.check('no duplicates', differ)
        c.check('signature operations', total(n) <= MAX_SIGOPS); c.check('merkle root', root_ok)
    else:
        bad = [g['seen'] and not header_ok, n == 0, c.neg(size_ok), c.neg(root_ok)]
        if c.lt(0, n): bad.append(c.neg(cb(0)))
        k = c.witness('CheckBlock#0')
        if k is not None and c.lt(-1, k) and c.lt(k, n):
            bad += [c.neg(valid(k)), total(k + 1) > MAX_SIGOPS, c.both(k > 0, cb(k))]
            hit = c.set_hit('CheckBlock#0', 'unique_txids')
            if hit is not None: bad.append(c.both(hit >= 0, hit < k, txid(hit) == txid(k)))
        c.any('a rule is broken', bad)

# ---------------------------------------------------------------- sampled blocks
from contracts.scriptspec import sigops

def easy_block(c, core):
    """a block that is valid or misses one of the rules"""
    null = core.COutPoint()
    S = core.script.CScript
    broken = c.choice('broken', ('nothing',) * 4 + ('no coinbase', 'two coinbases', 'coinbase later', 'duplicate', 'invalid tx', 'sigops', 'sigops ok', 'size', 'size ok', 'size over', 'root', 'root dup',
                                 'empty', 'work', 'time', 'coinbase only'))
    n = {'coinbase only': 1}.get(broken) or c.choice('txs', (1, 2, 3, 4, 5, 7))
    if broken in ('no coinbase', 'two coinbases', 'coinbase later', 'duplicate', 'invalid tx') and n < 3: n = 3
    def plain(k, value=1000):
        s = c.sub('tx%d' % k)
        return core.CTransaction([core.CTxIn(core.COutPoint(s.bytes('prev', n=32), s.int('n', 0, 1000)), S(bytes(s.choice('l', (0, 10, 107)))))],
                                 [core.CTxOut(value, S(s.bytes('spk', 0, 30)))], s.int('lock', 0, U32))
    vtx = [core.CTransaction([core.CTxIn(null, S(bytes(c.choice('cblen', (2, 3, 50, 100)))))], [core.CTxOut(50 * 10**8, S(b'\x51'))])]
    vtx += [plain(k) for k in range(1, n)]
    where = c.int('where', 1, n - 1) if n > 1 else 0
    if broken == 'no coinbase': vtx = vtx[1:]
    elif broken == 'two coinbases': vtx.insert(where, core.CTransaction([core.CTxIn(null, S(b'ab'))], [core.CTxOut(1, S())]))
    elif broken == 'coinbase later': vtx = vtx[1:2] + vtx[:1] + vtx[2:]
    elif broken == 'duplicate': vtx.insert(c.int('again at', 1, n), vtx[where])
    elif broken == 'invalid tx': vtx[where] = plain(where, c.choice('bad value', (-1, MAX_MONEY + 1)))
    elif broken in ('sigops', 'sigops ok'):
        # exactly the limit, or one more, spread over the block in inputs and outputs
        room = MAX_SIGOPS + (broken == 'sigops') - sum(sigops(i.scriptSig, False) for t in vtx for i in t.vin) - sum(sigops(o.scriptPubKey, False) for t in vtx for o in t.vout)
        if room < 0: c.assume(False)
        multi = c.int('multi', 0, room // 20)
        code = c.choice('op', (b'\xac', b'\xad')) * (room - 20 * multi) + c.choice('mop', (b'\xae', b'\xaf', b'\x52\xae')) * multi
        half = c.int('half', 0, len(code))
        if code[half - 1:half + 1] == b'\x52\xae': half += 1
        vtx.append(core.CTransaction([core.CTxIn(core.COutPoint(b'\x07' * 32, 7), S(code[:half]))], [core.CTxOut(1, S()), core.CTxOut(1, S(code[half:]))]))
    elif broken in ('size', 'size ok', 'size over'):
        b = core.CBlock(vtx=vtx)
        target = {'size': MAX_SIZE + 1, 'size ok': MAX_SIZE, 'size over': MAX_SIZE + 5000}[broken]
        filler = lambda k: core.CTransaction([core.CTxIn(core.COutPoint(b'\x09' * 32, 9), S(bytes(400000)))], [core.CTxOut(1, S(bytes(k)))])
        vtx.append(filler(300000))
        k = 300000 + target - len(enc_block(c, core.CBlock(vtx=vtx)))
        vtx[-1] = filler(k)
    if broken == 'empty': vtx = []
    tree = c.merkle_tree([c.hash256(enc_tx(c, t)) for t in vtx]).t
    root = tree[-1] if tree else c.bytes('some root', n=32)
    if broken == 'root': root = c.choice('wrong root', (bytes(32), root[::-1], tree[0] if n > 1 else bytes(32), c.bytes('some root', n=32)))
    if broken == 'root dup': vtx = vtx + vtx[-1:]       # same root when the last level is odd
    now = c.int('now', 0, 2**31)
    late = c.choice('late', (7201, 7202, 100000)) if broken == 'time' else c.choice('late ok', (7200, 7199, 0, -1000000))
    t = min(U32, max(0, now + late))
    bits = 0x207fffff if broken != 'work' else c.choice('bits', (0x207fffff, 0x2100ffff, 0x20ffffff, 0x207fffff, 0))
    f = c.bool('fCheckPoW')
    nonce = 0
    while True:
        b = core.CBlock(c.int('version', 1, 3), b'\x01' * 32, root, t, bits, nonce, vtx=vtx)
        good = int.from_bytes(c.hash256(enc_header(c, b)), 'little') <= 0x7fffff << 232
        if good == (broken != 'work' or bits != 0x207fffff): break
        nonce += 1
    return b, f, now

def block_rules(c, b, f, fm, now):
    if f:
        e, mant = b.nBits >> 24, b.nBits & 0xffffff
        t = mant * 256 ** (e - 3) if e >= 3 else mant // 256 ** (3 - e)
        if not (mant < 2**23 and 0 < t <= 2**255 - 1 and int.from_bytes(c.hash256(enc_header(c, b)), 'little') <= t): return False
    if b.nTime > now + 7200 or not b.vtx or len(enc_block(c, b)) > MAX_SIZE: return False
    cb = lambda t: len(t.vin) == 1 and t.vin[0].prevout.hash == NULL and t.vin[0].prevout.n == U32
    if not cb(b.vtx[0]) or any(cb(t) for t in b.vtx[1:]): return False
    if not all(tx_rules(c, t) for t in b.vtx): return False
    ids = [c.hash256(enc_tx(c, t)) for t in b.vtx]
    if len(set(ids)) != len(ids): return False
    if sum(sigops(i.scriptSig, False) for t in b.vtx for i in t.vin) + sum(sigops(o.scriptPubKey, False) for t in b.vtx for o in t.vout) > MAX_SIGOPS: return False
    return not fm or c.merkle_tree(ids).t[-1] == b.hashMerkleRoot

@contract('C24', 'blocks around the limits', sym=False, samples=300, bounded='sampled: up to 9 transactions')
def check_block_edges(c):
    core = c.mod(B)
    core._SelectCoreParams('regtest')
    try:
        b, f, now = easy_block(c, core)
        fm = c.choice('fCheckMerkleRoot', (True, True, False))
        r, e = c.catch(core.ValidationError, core.CheckBlock, b, fCheckPoW=f, fCheckMerkleRoot=fm, cur_time=now)
        c.check('verdict', (e is None) == block_rules(c, b, f, fm, now), repr(e))
    finally: core._SelectCoreParams('mainnet')

def script_model(w, orig):
    from engine import core
    def is_valid(self):
        script, ok = core.cur().aux['ghost']['parses']
        if self is not script: raise core.Unsupported('another script')
        return ok
    return is_valid

@contract('C24', 'single inputs and outputs', models=[('bitcoin.core.script:CScript.is_valid', script_model)], samples=1500)
def singles(c):
    m = c.mod(B); mut = c.choice('mutable', (False, True))
    if c.symbolic:
        o = arb_txout(c, mut); ok = c.symbool('parses'); c.ghost(parses=(o.scriptPubKey, ok))
    else:
        s = m.script.CScript(c.bytes('script', 0, 6) + c.choice('end', (b'', b'', b'\x4c', b'\x02\x01', b'\x4e\xff')))
        o = (m.CMutableTxOut if mut else m.CTxOut)(c.choice('edge', (0, -1, 1, MAX_MONEY, MAX_MONEY + 1, MAX_MONEY - 1, c.int('v', -2**63, 2**63 - 1), c.int('w', 0, MAX_MONEY))), s)
        try: ok = len(list(s.raw_iter())) >= 0
        except m.script.CScriptInvalidError: ok = False
    c.check('an output is valid exactly when amount and script are', c.iff(c.returns('is_valid', o.is_valid), c.both(o.nValue >= 0, o.nValue <= MAX_MONEY, ok)))
    i = arb_txin(c, mut, mut) if c.symbolic or c.choice('any', (0, 1)) else m.CTxIn(nSequence=c.choice('seq', (U32, U32 - 1, 0, 2**31)))
    c.check('an input is final exactly at the largest sequence number', c.iff(c.returns('is_final', i.is_final), i.nSequence == U32))
