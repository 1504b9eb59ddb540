"""C21: the script interpreter"""
from engine.api import *
from contracts.wire import *
from contracts import scriptref, sighashref
from contracts.scriptspec import parse, push
from contracts.scriptgen import *
SE = 'bitcoin.core.scripteval'
SC = 'bitcoin.core.script'

# ---------------------------------------------------------------- whole scripts on the real interpreter
def run_both(c, script, stack, tx, idx, label=''):
    m = c.mod(SE)
    env = plain_env(c, script, tx, idx)
    want = list(stack); fails = None
    try: scriptref.evaluate(env, want, script)
    except scriptref.Fail as e: fails = str(e)
    got = list(stack)
    before = tx.serialize()
    _, e = c.catch(m.EvalScriptError, m.EvalScript, got, c.mod(SC).CScript(script), tx, idx)
    c.check(label + 'fails exactly when the rules say so', (e is not None) == (fails is not None), '%s: rules %s, got %s' % (script.hex()[:300], fails, e))
    if e is None:
        c.eq(label + 'final stack', got, want)
        c.check(label + 'items are bytes', all(isinstance(x, bytes) for x in got))
    c.check('transaction unchanged', tx.serialize() == before)
    return fails

@contract('C21', 'whole scripts', sym=False, samples=15000, bounded='sampled scripts of up to 33 operations', weight=3)
def scripts(c):
    tx = small_tx(c)
    stack = list(c.list('stack', lambda s, i: item(s), 0, 12))
    ops = c.list('ops', lambda s, i: one_op(s))
    script = b''.join(ops)
    depth = 0
    for o in ops:
        if o in (b'\x63', b'\x64'): depth += 1
        elif o == b'\x68' and depth: depth -= 1
    if c.choice('closed', (True, True, True, False)): script += b'\x68' * depth
    if c.choice('cut', (False,) * 6 + (True,)): script += c.choice('tail', (b'\x05ab', b'\x4c', b'\x4d\x01', b'\x4e\0\0\0', b'\x4c\x03a', b'\x4b'))
    run_both(c, script, stack, tx, 0)

@contract('C21', 'one operation in context', sym=False, samples=20000, bounded='sampled', weight=3)
def one_in_context(c):
    """an operation on a stack that suits it, inside any condition context"""
    tx = small_tx(c)
    op = c.choice('op', list(range(0x4f, 0x100)) + EXEC * 2)
    stack = [item(c.sub('s%d' % k)) for k in range(c.choice('depth', (0, 1, 2, 3, 4, 6, 7)))]
    if op in (0x79, 0x7a): stack.append(scriptref.number_form(c.int('index', -1, len(stack) + 1)))
    if op in (0x87, 0x88) and len(stack) > 1 and c.bool('equal'): stack[-1] = stack[-2]
    if 0x9a <= op <= 0xa5 and len(stack) > 2 and c.bool('close'):
        v = c.int('v', -2**31, 2**31)
        for k in range(1, 4): stack[-k] = scriptref.number_form(v + c.int('d%d' % k, -1, 1))
    alt = [item(c.sub('a%d' % k)) for k in range(c.choice('altdepth', (0, 0, 1, 2)))]
    conds = [c.sub('c%d' % k).bool('v') for k in range(c.choice('conds', (0, 0, 0, 1, 2, 3)))]
    script = b'\x6b' * len(alt)
    for v in conds: script += b'\x51\x63' if v else b'\x51\x64'
    elses = c.choice('else', (b'', b'', b'\x67', b'\x67\x67'))
    if conds: script += elses
    script += bytes([op])
    script += b''.join(one_op(c.sub('o%d' % k)) for k in range(c.choice('more', (0, 0, 1, 2))))
    script += b'\x68' * len(conds) + b'\x6c' * c.choice('back', (0, len(alt)))
    run_both(c, script, stack + alt[::-1], tx, 0)

@contract('C21', 'limits', sym=False, samples=3000, bounded='sampled around the limits')
def limits(c):
    tx = small_tx(c)
    what = c.choice('limit', ('script size', 'operations', 'multisig operations', 'stack', 'altstack', 'element', 'unexecuted operations', 'number size', 'unexecuted element'))
    d = c.choice('delta', (-1, 0, 1, 2))
    stack = []
    if what == 'script size':
        n = 10000 + d; script = b''
        while len(script) + 500 < n: script += push(b'a' * 400) + b'\x75'
        script += push(b'x' * (n - len(script) - 3)) if n - len(script) - 3 > 255 else b'\x51' * (n - len(script))
        script = script[:n] if len(script) >= n else script + b'\x51' * (n - len(script))
    elif what == 'operations': script = b'\x61' * (201 + d)
    elif what == 'unexecuted operations': script = b'\0\x63' + b'\x75' * (199 + d) + b'\x68'
    elif what == 'multisig operations':
        k = c.int('keys', 0, 21)
        script = b'\x61' * (200 - k + d) + b'\0\0' + push(b'k') * k + push(scriptref.number_form(k)) + b'\xae'
    elif what == 'stack':
        stack = [b''] * (999 + d); script = c.choice('op', (b'\x51', b'\0', b'\x74', b'\x76', b'\x6e\x6d', b'\x61', b'\x75', b'\x6e'))
    elif what == 'altstack':
        stack = [b''] * (990 + d); script = b'\x6b' * 5 + b'\x51' * 10
    elif what == 'element': script = push(b'e' * (520 + d))
    elif what == 'unexecuted element': script = b'\0\x63' + push(b'e' * (520 + d)) + b'\x68'
    else:
        n = 4 + d; script = push(bytes(n - 1) + b'\x01') + c.choice('op', (b'\x8b', b'\x51\x93', b'\x51\x9c', b'\0\0\xa5', b'\x91', b'\x92', b'\x51\x7c\x93', b'\xae', b'\x51\x51\xa5'))
        stack = [b'1', b'2']
    run_both(c, script, stack, tx, 0, what + ': ')

@contract('C21', 'signatures', sym=False, samples=4000, bounded='sampled, up to five keys', weight=2)
def signatures(c):
    tx = small_tx(c)
    idx = c.choice('input', range(len(tx.vin)))
    sep = c.choice('separators', (b'', b'', b'\xab', b'\x61\xab', b'\x51\x75\xab\x61'))
    multi = c.choice('multi', (False, False, True))
    verify = c.choice('verify', (False, True))
    ht = c.choice('hash type', (1, 1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x40, 0xff))
    tail = c.choice('tail', (b'', b'\xab', b'\x61', b'\x51\x75'))
    if not multi:
        script = sep + bytes([0xac + verify]) + tail
        # the code the signature covers starts after the last separator that was executed
        code = script[sep.rindex(b'\xab'):] if b'\xab' in sep else script
        o, key = key_of(c, c.choice('key', range(4)))
        h = sighashref.sighash(code if c.choice('right code', (True, True, True, False)) else script + b'\x61', tx, idx, ht)
        sig = o.sign(h) + bytes([ht])
        how = c.choice('how', ('good', 'good', 'good', 'empty', 'wrong type', 'bad key', 'bad sig'))
        if how == 'empty': sig = b''
        elif how == 'wrong type': sig = sig[:-1] + bytes([ht ^ 1])
        elif how == 'bad key': key = c.bytes('badkey', 0, 40)
        elif how == 'bad sig': sig = c.bytes('badsig', 1, 75)
        run_both(c, script, [b'bottom', sig, key], tx, idx)
        if c.bool('signature inside'):
            script2 = push(sig) + b'\x75' + script
            run_both(c, script2, [b'bottom', sig, key], tx, idx, 'signature inside: ')
        return
    nk = c.int('keys', 0, 5); ns = c.int('sigs', 0, nk)
    pick = [c.choice('key%d' % k, range(4)) for k in range(nk)]
    script = sep + bytes([0xae + verify]) + tail
    code = script[sep.rindex(b'\xab'):] if b'\xab' in sep else script
    h = sighashref.sighash(code, tx, idx, ht)
    which = sorted(set(c.choice('sig%d' % k, range(nk)) for k in range(ns))) if nk else []
    while len(which) < ns: which.append(which[-1])
    if c.choice('shuffled', (False, False, True)): which.reverse()
    sigs = [key_of(c, pick[k])[0].sign(h) + bytes([ht]) for k in which]
    if sigs and c.choice('spoil', (False, False, True)): sigs[c.choice('which', range(len(sigs)))] = c.choice('with', (b'', b'\x30\x01', b'x' * 70))
    stack = [b'bottom'] * c.choice('below', (0, 1, 1, 1, 2)) + sigs + [scriptref.number_form(ns + c.choice('dn', (0, 0, 0, 0, 1, -1)))] + \
            [key_of(c, k)[1] for k in pick] + [scriptref.number_form(nk + c.choice('dk', (0, 0, 0, 0, 0, 1, -1)))]
    run_both(c, script, stack, tx, idx)

# ================================================================ proofs
from engine.symtools import SIGHASH, NUMBERS, RAWITER, EVALSTEP, AnyOp
GROUPS = ['0x4f-0x60', '0x61-0x6c', '0x6d-0x72', '0x73-0x78', '0x79-0x7a', '0x7b-0x88', '0x89-0x92', '0x93-0x99', '0x9a-0x9d', '0x9e-0xa2', '0xa3-0xa5', '0xa6-0xab', '0xac-0xad', '0xae-0xaf', '0xb0-0xba', '0xbb-0xff', 'push', 'end']

class Symbolic:
    """the primitives, left open: fixed functions of their arguments"""
    def __init__(self, c, script, tx, idx): self.c = c; self.script = script; self.tx = tx; self.idx = idx
    def lit(self, x): return self.c.native(x)
    def num(self, x):
        if len(x) > 4: raise scriptref.Fail('number too long')
        return self.c.mod('bitcoin.core._bignum').vch2bn(x)
    def enc(self, v): return self.c.mod('bitcoin.core._bignum').bn2vch(v)
    def true(self, x): return self.c.mod(SE)._CastToBool(x)
    def all_true(self, l): return self.c.mod(SE)._CheckExec(l)
    def hash(self, name, x):
        if name == 'hash160': return self.c.hash160(x)
        if name == 'hash256': return self.c.hash256(x)
        return self.c.digest(name, x)
    def code(self, begin): return self.c.mod(SC).CScript(self.script[begin:])
    def remove(self, code, sig): return self.c.mod(SE).FindAndDelete(code, self.c.mod(SC).CScript([sig]))
    def checksig(self, sig, key, code): return self.c.mod(SE)._CheckSig(sig, key, code, self.tx, self.idx, None)
    def multisig(self, st, op, code):
        n = [st.count]
        try: self.c.mod(SE)._CheckMultiSig(op, code, st.stack, self.tx, self.idx, None, n)
        except self.c.mod(SE).EvalScriptError: raise scriptref.Fail('CHECKMULTISIG')
        st.count = n[0]


@loop('_EvalScript#0')
class Main(LoopSpec):
    """the interpreter's state is the one the rules give; one operation keeps it so"""
    def enter(self, L):
        L.g.env, L.g.start, L.g.state, L.g.one = L.env('c21')
        L.g.ref = L.g.start; L.g.fails = False; L.g.stepped = False
    def havoc(self, L):
        s = L.g.state
        L.g.ref = scriptref.State(s.stack.copy(), s.alt.copy(), s.cond.copy(), s.count, s.begin)
        st = L['stack']
        st[:] = s.stack
        alt, cond, count = s.alt.copy(), s.cond.copy(), [s.count]
        L.havocs(st, alt, cond, count, L.g.ref.stack, L.g.ref.alt, L.g.ref.cond)
        return {'altstack': alt, 'vfExec': cond, 'nOpCount': count, 'pbegincodehash': s.begin}
    def step(self, L):
        """what the rules make of the state"""
        if not L.g.stepped:
            L.g.stepped = True
            op, data, pos = L.g.one
            try: scriptref.step(L.g.env, L.g.ref, op, data, pos)
            except scriptref.Fail: L.g.fails = True
    def inv(self, L):
        if L.mode == 'assume': return []
        if L.phase == 1 and L.g.one is not None and L.g.one[0] is not None and L.taken: self.step(L)
        if L.g.fails: return [('the rules fail here', False)]
        r = L.g.ref
        return [('depth', len(L['stack']) <= 2**32), ('stack', L.deep_eq(L['stack'], r.stack)), ('altstack', L.deep_eq(L['altstack'], r.alt)), ('conditions', L.deep_eq(L['vfExec'], r.cond)),
                ('operations', L['nOpCount'][0] == r.count), ('code start', L['pbegincodehash'] == r.begin),
                ('items are short enough', short_items(L['stack'], L)), ('items are short enough (altstack)', short_items(L['altstack'], L))]
def short_items(l, L):
    return L.all_literals(l, lambda x: L.both(len(x) <= 2**32 - 1))

def arb_state(c, name):
    s = c.sub(name)
    bytes_of = lambda d, i: d.bytes('item', 0, 2**32 - 1)
    script = c.ghosts()['script']
    begin = s.int('begin', 0); c.assume(begin <= len(script))
    stack = s.list('stack', bytes_of, kind=list); c.assume(len(stack) <= 2**32)
    return scriptref.State(stack, s.list('alt', bytes_of, kind=list), s.list('cond', lambda d, i: d.symbool('b'), kind=list),
                           s.int('count', 0, 201), begin)

@contract('C21', 'one operation on any state', cuts=['_EvalScript#0'], parts=GROUPS, models=RAWITER + NUMBERS + EVALSTEP, conc=False, timeout=100, weight=2)
def any_state(c):
    m = c.mod(SE)
    script = c.mod(SC).CScript(c.bytes('script'))
    c.ghost(script=script)
    tx = c.tag(c.mod(B).CTransaction(), c.sub('tx')); idx = c.int('idx', 0)
    env = Symbolic(c, script, tx, idx)
    stack = c.list('initial', lambda d, i: d.bytes('item', 0, 2**32 - 1), kind=list)
    c.assume(len(stack) <= 2**32)        # of what fits in memory
    start = scriptref.State(stack.copy(), [], [], 0, 0)
    st = arb_state(c, 'state')
    pos = c.int('pos', 0); c.assume(pos < len(script))
    tail = None
    if c.part == 'end':
        one = None; n = 0
        tail = c.choice('tail', (None, 'cut short'))
    else:
        n = c.int('n', 0)
        if c.part == 'push':
            op = c.choice('op', range(79)); one = (op, c.bytes('data', 0, 2**32 - 1), pos)
        else:
            lo, hi = [int(x, 16) for x in c.part.split('-')]
            one = (c.choice('op', range(lo, hi + 1)), None, pos)
    c.any_op(script, n, one, tail)
    c.ghost(c21=(env, start, st, one), eval=(tx, idx))
    _, e = c.catch(m.EvalScriptError, m.EvalScript, stack, script, tx, idx)
    L = c.loop('_EvalScript#0')
    if L is None:
        c.check('only a script that is too long fails at once', c.both(e is not None, len(script) > 10000))
        return
    c.check('not too long', len(script) <= 10000)
    if e is None:
        c.check('not cut short', tail is None)
        c.check('conditions are closed', len(st.cond) == 0)
        c.eq('final stack', stack, st.stack)
    elif L.taken:
        Main().step(L)
        c.check('the rules fail here', L.g.fails)
    else: c.check('cut short or unterminated', c.either(tail is not None, len(st.cond) > 0))

# ---------------------------------------------------------------- the helpers
@loop('_CheckExec#0')
class Conditions(LoopSpec):
    def enter(self, L): L.g.j, L.g.v = L.env('cond')
    def inv(self, L): return [('all true so far', L.implies(L.g.j < L.k, L.g.v))]

@contract('C21', 'conditions', cuts=['_CheckExec#0'], samples=200)
def conditions(c):
    """executing exactly when every enclosing condition is true"""
    m = c.mod(SE)
    l = c.list('cond', lambda d, i: d.symbool('b'), kind=list)
    if not c.symbolic: c.eq('executing', bool(m._CheckExec(l)), all(l)); return
    j = c.int('j', 0)
    c.ghost(cond=(j, l[j] if c.lt(j, len(l)) else True))
    r = c.returns('_CheckExec', m._CheckExec, l)
    if r: c.check('every condition is true', l[j] if c.lt(j, len(l)) else True)
    else:
        k = c.witness('_CheckExec#0')
        c.check('a condition is false', c.both(k >= 0, k < len(l), c.neg(l[k]) if c.lt(k, len(l)) else False))

@loop('_CastToBool#0')
class Zeros(LoopSpec):
    def enter(self, L): L.g.j, L.g.zero = L.env('zeros')
    def inv(self, L): return [('zero so far', L.implies(L.g.j < L.k, L.g.zero))]

@contract('C21', 'truth of an item', cuts=['_CastToBool#0'], samples=600)
def truth_value(c):
    """everything but zero, of either sign, is true"""
    m = c.mod(SE)
    if not c.symbolic:
        b = item(c)
        c.eq('truth', bool(m._CastToBool(b)), scriptref.truth_of(b)); return
    b = c.bytes('b'); n = len(b)
    # an arbitrary position; item is false iff each byte is zero, but the last may be 0x80
    j = c.int('j', 0)
    zero = b[j] == 0 if c.lt(j, n) else True
    c.ghost(zeros=(j, zero))
    r = c.returns('_CastToBool', m._CastToBool, b)
    k = c.witness('_CastToBool#0')
    inside = k is not None and c.lt(-1, k) and c.lt(k, n)
    if r: c.check('a significant byte', c.both(inside, c.neg(c.both(b[k] == 0)), c.neg(c.both(k == n - 1, b[k] == 0x80))) if inside else False)
    else: c.check('no significant byte', c.either(zero, c.both(j == n - 1, b[j] == 0x80)) if c.lt(j, n) else True)

@contract('C21', 'one signature', models=SIGHASH, samples=300)
def one_signature(c):
    """the signature is checked with the hash its last byte selects; an empty one never verifies"""
    m = c.mod(SE)
    tx = arb_tx(c)
    if not c.symbolic:
        c.assume(tx.vin)
        script = c.bytes('script', 0, 50); idx = c.choice('idx', range(len(tx.vin))); ht = c.int('ht', 0, 255)
        o, key = key_of(c, c.choice('key', range(4)))
        sig = o.sign(sighashref.sighash(script, tx, idx, ht)) + bytes([ht]) if c.bool('good') else c.bytes('sig', 0, 80)
        if c.choice('other', (False, False, True)): key = key_of(c, 0)[1]
        want = len(sig) > 0 and verifies(c, key, sighashref.sighash(script, tx, idx, sig[-1]), sig[:-1])
        c.eq('verdict', bool(m._CheckSig(sig, key, c.mod(SC).CScript(script), tx, idx, None)), want)
        return
    script = c.mod(SC).CScript(c.bytes('script')); idx = c.int('idx', 0); sig = c.bytes('sig'); key = c.bytes('key')
    h = c.bytes('hash', n=32)
    c.ghost(rsh=(script, tx, idx, sig[-1] if c.lt(0, len(sig)) else None, h))
    r = c.returns('_CheckSig', m._CheckSig, sig, key, script, tx, idx, None)
    if not c.lt(0, len(sig)): c.eq('empty', bool(r), False)
    else: c.check('verdict', r == c.mod('bitcoin.core.key').sig_pred(key, h, sig[:-1]))

# ---------------------------------------------------------------- CHECKMULTISIG
# M(a, b): the last a signatures can be found, in order, among the last b keys. Matching greedily from the first is the rule.
class Multi:
    def __init__(self, c, env, stack, nk, ns, op):
        self.op = op; self.c = c; self.env = env; self.stack = stack; self.n = len(stack); self.nk = nk; self.ns = ns; self.code = None
        self.M = c.relation('M')
    def sig(self, k): return self.stack[self.n - 1 - (self.nk + 2 + k)]
    def key(self, k): return self.stack[self.n - 1 - (1 + k)]
    def base(self, a, b):
        c = self.c
        c.define(c.implies(a == 0, self.M(a, b))); c.define(c.implies(a > b, c.neg(self.M(a, b))))
    def unfold(self, a, b):
        """the rule at (a, b)"""
        c = self.c
        ok = self.env.checksig(self.sig(self.ns - a), self.key(self.nk - b), self.code)
        if ok: c.define(self.M(a, b) == self.M(a - 1, b - 1)); self.base(a - 1, b - 1)
        else: c.define(self.M(a, b) == self.M(a, b - 1)); self.base(a, b - 1)

@loop('_CheckMultiSig#0')
class Removing(LoopSpec):
    """the code, without the signatures seen"""
    def enter(self, L): L.g.m, L.g.code = L.env('multi'); L.g.k0 = None
    def havoc(self, L):
        L.g.code = L.env('new_code')(); L.g.k0 = L.k
        L.g.m.code = L.g.code
        return {'script': L.g.code}
    def inv(self, L):
        if L.mode == 'assume': return []
        want = L.g.code if L.g.k0 is None else L.g.m.env.remove(L.g.code, L.g.m.sig(L.g.k0))
        return [('code', L.deep_eq(L['script'], want))]

@loop('_CheckMultiSig#1')
class Matching(LoopSpec):
    def enter(self, L):
        L.g.m = L.env('multi')[0]; L.g.at = None
        done = L.g.m.c.loop('_CheckMultiSig#0'); L.g.removed = 0 if done is None else done.k
    def havoc(self, L):
        m = L.g.m
        a = L.fresh('a', 0); b = L.fresh('b', 0)
        L.assume(L.both(a <= m.ns, b <= m.nk)); L.g.at = (a, b)
        m.base(a, b)
        return {'sigs_count': a, 'keys_count': b, 'isig': m.nk + 3 + (m.ns - a), 'ikey': 2 + (m.nk - b), 'success': a <= b}
    def inv(self, L):
        m = L.g.m; a, b = L['sigs_count'], L['keys_count']
        if L.mode == 'check' and L.g.at is not None: m.unfold(*L.g.at)
        return [('every signature was removed from the code', L.g.removed == m.ns), ('counts', L.both(0 <= a, a <= m.ns, 0 <= b, b <= m.nk)), ('signature', L['isig'] == m.nk + 3 + (m.ns - a)), ('key', L['ikey'] == 2 + (m.nk - b)),
                ('still possible', L.same(L['success'], a <= b)), ('VERIFY fails at once', L.implies(m.op == 0xaf, a <= b)), ('the answer is kept', m.M(a, b) == m.M(m.ns, m.nk))]
    def variant(self, L): return L['keys_count']

@loop('_CheckMultiSig#2')
class Popping(LoopSpec):
    def enter(self, L): L.g.m = L.env('multi')[0]
    def total(self, L): return L.g.m.nk + L.g.m.ns + 3
    def havoc(self, L):
        i = L.fresh('i', 0); L.assume(i <= self.total(L))
        st = L['stack']; L.havocs(st)
        st[:] = L.g.m.stack[:L.g.m.n - (self.total(L) - i)]
        return {'i': i}
    def inv(self, L):
        i = L['i']
        if L.mode == 'assume': return []
        return [('count', L.both(0 <= i, i <= self.total(L))), ('stack', L.deep_eq(L['stack'], L.g.m.stack[:L.g.m.n - (self.total(L) - i)]))]
    def variant(self, L): return L['i']

@contract('C21', 'several signatures', cuts=['_CheckMultiSig#0', '_CheckMultiSig#1', '_CheckMultiSig#2'], models=NUMBERS + EVALSTEP[2:3] + EVALSTEP[4:], conc=False, timeout=100,
          parts=['CHECKMULTISIG', 'CHECKMULTISIGVERIFY'])
def several_signatures(c):
    m = c.mod(SE)
    op = 0xae if c.part == 'CHECKMULTISIG' else 0xaf
    script = c.mod(SC).CScript(c.bytes('script'))
    tx = c.tag(c.mod(B).CTransaction(), c.sub('tx')); idx = c.int('idx', 0)
    env = Symbolic(c, script, tx, idx)
    stack = c.list('stack', lambda d, i: d.bytes('item', 0, 2**32 - 1), kind=list)
    before = stack.copy(); n = len(stack)
    count = c.int('count', 0, 201)
    bn = c.mod('bitcoin.core._bignum').vch2bn
    bad = None; nk = ns = 0; M = None
    if n < 1: bad = 'a number is missing'
    elif len(stack[n - 1]) > 4: bad = 'number too long'
    else:
        nk = bn(stack[n - 1])
        if c.either(nk < 0, nk > 20): bad = 'number of keys'
        elif count + nk > 201: bad = 'too many operations'
        elif n < nk + 2: bad = 'keys are missing'
        elif len(stack[n - 2 - nk]) > 4: bad = 'number too long'
        else:
            ns = bn(stack[n - 2 - nk])
            if c.either(ns < 0, ns > nk): bad = 'number of signatures'
            elif n < nk + ns + 3: bad = 'signatures are missing'
            else: M = Multi(c, env, before, nk, ns, op); M.base(ns, nk)
    c.ghost(eval=(tx, idx), multi=(M, script), new_code=lambda: c.mod(SC).CScript(c.new_bytes('code')))
    nops = [count]
    def err(cls, *a): raise m.EvalScriptError('failed')
    _, e = c.catch(m.EvalScriptError, m._CheckMultiSig, op, script, stack, tx, idx, err, nops)
    if bad is not None: c.check('fails: ' + bad, e is not None); return
    found = M.M(ns, nk)
    if e is not None:
        L = c.loop('_CheckMultiSig#1')
        if L is not None and L.g.at is not None: M.unfold(*L.g.at)
        c.check('only VERIFY fails, and only if signatures are not found', c.both(op == 0xaf, c.neg(found)))
        return
    c.eq('operations', nops[0], count + nk)
    rest = before[:n - (nk + ns + 3)]
    if op == 0xaf: c.check('found', found)
    elif found: rest.append(c.native(b'\x01'))
    else: rest.append(c.native(b''))
    c.eq('stack', stack, rest)
