"""C19: script predicates and signature-operation counts"""
from engine.api import *
from contracts.scripts import *

@contract('C19', 'pay-to-script-hash pattern', samples=800)
def p2sh(c):
    b = c.bytes('script', n=c.choice('length', (23, 22, 24, None)) if not c.symbolic else None)
    if not c.symbolic and len(b) >= 23 and c.bool('shaped'):
        b = bytearray(b); b[0] = 0xa9; b[1] = 0x14; b[22] = 0x87
        k = c.choice('spoiled', (None, None, 0, 1, 22))
        if k is not None: b[k] ^= 1 << c.int('bit', 0, 7)
        b = bytes(b)
    s = c.mod(SC).CScript(b)
    r = c.returns('is_p2sh', s.is_p2sh)
    want = False
    if len(b) == 23: want = c.both(b[0] == 0xa9, b[1] == 0x14, b[22] == 0x87)
    c.eq('pattern', bool(r), want)

@contract('C19', 'unspendable scripts')
def unspendable(c):
    b = c.bytes('script')
    if not c.symbolic and b and c.bool('op_return'): b = b'\x6a' + b[1:]
    r = c.returns('is_unspendable', c.mod(SC).CScript(b).is_unspendable)
    want = False
    if c.lt(0, len(b)): want = b[0] == 0x6a
    c.eq('first operation', bool(r), want)

class AllOps(LoopSpec):
    """every operation seen passes"""
    def enter(self, L): L.g.j, L.g.ok = L.env('ops')
    def inv(self, L): return [('operations seen', L.implies(L.g.j < L.k, L.g.ok))]
@loop('CScript.is_push_only#0')
class PushOnly(AllOps): pass
@loop('CScript.has_canonical_pushes#0')
class Canonical(AllOps): pass

def is_push(c, o): return o[0] <= 0x60
def is_canonical(c, o):
    op, d = o
    if d is None or op == 0: return True
    n = len(d)
    if op < 76: return c.neg(c.both(op == 1, d[0] <= 16)) if c.symbolic and op == 1 or not c.symbolic and n == 1 else True
    return n >= {76: 76, 77: 256, 78: 65536}[op]

def for_all_ops(c, key, method, passes, label):
    p = arb_ops(c)
    r = None
    if not c.symbolic:
        r = c.returns(method, getattr(p.script, method))
        ops, whole = parse(p.script)
        c.check('script as intended', whole == (p.tail is None))
        c.eq(label, bool(r), whole and all(passes(c, o) for o in p.ops))
        return
    j = c.int('j', 0)
    ok = passes(c, p.ops[j]) if c.lt(j, p.n) else True
    c.ghost(ops=(j, ok))
    r = c.returns(method, getattr(p.script, method))
    if r:
        c.check(label + ': every operation passes', ok)
        c.check(label + ': parses', p.tail is None)
    else:
        bad = [p.tail is not None]
        k = c.witness(key)
        if k is not None and c.lt(-1, k) and c.lt(k, p.n): bad.append(c.neg(passes(c, p.ops[k])))
        c.any(label + ': an operation fails', bad)

@contract('C19', 'push-only scripts', cuts=['CScript.is_push_only#0'], models=RAWITER, samples=1500)
def push_only(c): for_all_ops(c, 'CScript.is_push_only#0', 'is_push_only', is_push, 'push only')
@contract('C19', 'canonical pushes', cuts=['CScript.has_canonical_pushes#0'], models=RAWITER, samples=2500)
def canonical(c): for_all_ops(c, 'CScript.has_canonical_pushes#0', 'has_canonical_pushes', is_canonical, 'canonical pushes')
@contract('C19', 'valid scripts', models=RAWITER, samples=1000)
def valid(c):
    p = arb_ops(c)
    c.eq('parses', bool(c.returns('is_valid', p.script.is_valid)), p.tail is None)

# the count so far is that of the operations seen; the last opcode is remembered
@loop('CScript.GetSigOpCount#0')
class SigOps(LoopSpec):
    def enter(self, L): L.g.sum, L.g.ops = L.env('sigs')
    def havoc(self, L):
        L.g.sum.step(L.k)
        d = {'n': L.g.sum(L.k)}
        if L.is_zero(L.k): d['lastOpcode'] = 0xff
        else: d['lastOpcode'] = L.g.ops.op(L.k - 1)
        return d
    def inv(self, L):
        last = 0xff if L.is_zero(L.k) else L.g.ops.op(L.k - 1)
        return [('count', L['n'] == L.g.sum(L.k)), ('last opcode', L.either(L['lastOpcode'] == last, L.both(L.no_small(L['lastOpcode']), L.no_small(last))))]

def op_sigops(c, op, last, accurate):
    if op == 0xac: return 1
    if op == 0xad: return 1
    if op == 0xae or op == 0xaf:
        if accurate and last is not None and last >= 0x51 and last <= 0x60: return last - 0x50
        return 20
    return 0

@contract('C19', 'signature operations', parts=['legacy', 'accurate'], cuts=['CScript.GetSigOpCount#0'], models=RAWITER, samples=1500)
def sigop_count(c):
    p = arb_ops(c)
    acc = c.part == 'accurate'
    if not c.symbolic:
        c.eq('count', c.returns('GetSigOpCount', p.script.GetSigOpCount, acc), sigops(p.script, acc))
        return
    total = c.running_sum(lambda k: op_sigops(c, p.ops.op(k), p.ops.op(k - 1) if c.lt(0, k) else None, acc), p.n)
    c.ghost(sigs=(total, p.ops))
    c.eq('count', c.returns('GetSigOpCount', p.script.GetSigOpCount, acc), total(p.n))

@contract('C19', 'any bytes', sym=False, samples=3000, bounded='sampled')
def any_bytes(c):
    b = c.bytes('script', 0, c.choice('hi', (5, 30, None)))
    s = c.mod(SC).CScript(b)
    ops, whole = parse(b)
    c.eq('is_valid', c.returns('is_valid', s.is_valid), whole)
    c.eq('is_push_only', c.returns('is_push_only', s.is_push_only), whole and all(is_push(c, o) for o in ops))
    c.eq('has_canonical_pushes', c.returns('has_canonical_pushes', s.has_canonical_pushes), whole and all(is_canonical(c, o[:2]) for o in ops))
    for acc in (False, True): c.eq('sigops', c.returns('GetSigOpCount', s.GetSigOpCount, acc), sigops(b, acc))
