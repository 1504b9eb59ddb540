"""C22: verifying that scripts are satisfied"""
from engine.api import *
from contracts.wire import *
from contracts import scriptref
from contracts.scriptspec import parse, push
from contracts.scriptgen import *
from engine.symtools import EVALCALL, VERIFYCALL
SE = 'bitcoin.core.scripteval'
SC = 'bitcoin.core.script'

def truth(c, x): return c.mod(SE)._CastToBool(x) if c.symbolic else scriptref.truth_of(x)
def is_p2sh(c, b): 
    if len(b) != 23: return False
    return c.both(b[0] == 0xa9, b[1] == 0x14, b[22] == 0x87)

def rules(c, E, sig, pub, p2sh):
    """the protocol's order of evaluation; E.run(stack, script) evaluates in place or raises Fail; returns whether the spend is valid"""
    stack = []
    try:
        E.run(stack, sig)
        kept = list(stack)
        E.run(stack, pub)
        if len(stack) == 0: return False
        if not truth(c, stack[-1]): return False
        if p2sh and is_p2sh(c, pub):
            if not E.push_only(sig): return False
            if len(kept) == 0: return False
            inner = kept.pop()
            E.run(kept, inner)
            if len(kept) == 0: return False
            return truth(c, kept[-1])
        return True
    except scriptref.Fail: return False

class Modelled:
    """evaluation left open: a fixed function of stack and script"""
    def __init__(self, c, tx, idx, flags): self.c = c; self.tx = tx; self.idx = idx; self.flags = flags
    def run(self, stack, script):
        m = self.c.mod(SE)
        try: m.EvalScript(stack, self.c.mod(SC).CScript(script), self.tx, self.idx, self.flags)
        except m.EvalScriptError: raise scriptref.Fail('evaluation')
    def push_only(self, s): return self.c.mod(SC).CScript(s).is_push_only()

@contract('C22', 'order of evaluation', models=EVALCALL, conc=False)
def verify_script(c):
    m = c.mod(SE)
    sig = c.mod(SC).CScript(c.bytes('sig')); pub = c.mod(SC).CScript(c.bytes('pub'))
    tx = c.tag(c.mod(B).CTransaction(), c.sub('tx')); idx = c.int('idx', 0)
    p2sh = c.bool('p2sh'); other = c.bool('other flag')
    flags = set()
    if p2sh: flags.add(c.mod(SC).SCRIPT_VERIFY_P2SH)
    if other: flags.add(c.mod(SC).SCRIPT_VERIFY_STRICTENC)
    if c.bool('as a tuple'): flags = tuple(flags)
    c.ghost(eval=(tx, idx), flags=flags)
    try:
        m.VerifyScript(sig, pub, tx, idx, flags)
        e = None
    except c.mod(B).ValidationError as err: e = err
    ok = rules(c, Modelled(c, tx, idx, flags), sig, pub, p2sh)
    if e is None: c.check('accepted: the rules hold', ok)
    else: c.check('refused: a rule is broken', c.neg(ok))


@contract('C22', 'a script hash pattern needs an item', conc=False)
def p2sh_needs_item(c):
    """used by the model of EvalScript: HASH160 on an empty stack fails"""
    st = scriptref.State([], [], [], 0, 0)
    _, e = c.catch(scriptref.Fail, scriptref.step, Always(c), st, 0xa9, None, 0)
    c.check('fails', e is not None)
class Always:
    def __init__(self, c): self.c = c
    def all_true(self, l): return True

def arb_idx(c, tx): return c.int('idx', *(() if c.symbolic else (-2, len(tx.vin) + 1)))

@contract('C22', 'inputs of a transaction', models=VERIFYCALL, conc=False)
def verify_signature(c):
    m = c.mod(SE)
    tx = arb_tx(c.sub('to'), c.bool('mutable')); frm = arb_tx(c.sub('from'), c.bool('mutable source'))
    idx = c.int('idx')
    nin, nout = len(tx.vin), len(frm.vout)
    ok = False; call = None
    if c.lt(-1, idx) and c.lt(idx, nin):
        txin = tx.vin[idx]
        if c.lt(txin.prevout.n, nout):
            call = (txin.scriptSig, frm.vout[txin.prevout.n].scriptPubKey, tx, idx)
            ok = c.raw(txin.prevout.hash) == c.raw(frm.GetHash())      # the hash of its encoding: C16, C17
    satisfied = c.bool('satisfied')
    c.ghost(verify=call, satisfied=satisfied)
    try: m.VerifySignature(frm, tx, idx); e = None
    except c.mod(B).ValidationError as err: e = err
    if e is None: c.check('accepted: the output is spent and its script satisfied', c.both(ok, satisfied))
    else: c.check('refused: not this output, or its script is not satisfied', c.neg(c.both(ok, satisfied)))

# ---------------------------------------------------------------- sampled
class Real:
    """evaluation by the reference interpreter"""
    def __init__(self, c, tx, idx): self.c = c; self.tx = tx; self.idx = idx
    def run(self, stack, script): scriptref.evaluate(plain_env(self.c, bytes(script), self.tx, self.idx), stack, bytes(script))
    def push_only(self, s):
        ops, whole = parse(bytes(s))
        return whole and all(o[0] <= 0x60 for o in ops)

def spend(c, tx_of):
    """(scriptSig, scriptPubKey) that often fit; tx_of(scriptSig) gives the spending transaction and index"""
    inner_kind = c.choice('inner', ('true', 'equal', 'sig', 'multi', 'ops', 'false', 'empty', 'flow', 'last zero'))
    args = b''; unsigned = None
    if inner_kind == 'true': inner = b'\x51'
    elif inner_kind == 'false': inner = c.choice('f', (b'\0', b'\x01\x80', b'\x01\0', b'\x51\x69', b'\x51\x75', b'\x6a'))
    elif inner_kind == 'empty': inner = b''
    elif inner_kind == 'equal': d = c.bytes('d', 0, 80); inner = push(d) + c.choice('eq', (b'\x87', b'\x88', b'\x88\x51')); args = push(d if c.choice('same', (True, True, False)) else d + b'x')
    elif inner_kind == 'sig': key = key_of(c, c.choice('k', range(4)))[1]; inner = push(key) + c.choice('cs', (b'\xac', b'\xad', b'\xad\x51')); unsigned = 1
    elif inner_kind == 'multi':
        inner = b'\x52' + b''.join(push(key_of(c, k)[1]) for k in range(3)) + b'\x53\xae'; unsigned = 2
    elif inner_kind == 'flow': inner = c.choice('fl', (b'\x63\x51\x67\0\x68', b'\x64\x51\x67\0\x68', b'\x63\x68\x51', b'\x63\x51', b'\x68')); args = c.choice('arg', (b'\x51', b'\0', b''))
    elif inner_kind == 'last zero': inner = push(c.choice('z', (b'\0\0\x80', b'\x80\0', b'\x80', b'\0', b'\0\x80\x80', b'\x01\0', b'\0\0')))
    else: inner = b''.join(one_op(c.sub('i%d' % k)) for k in range(c.choice('n', range(6)))); args = b''.join(push(item(c.sub('a%d' % k))) for k in range(c.choice('na', range(4))))
    shape = c.choice('shape', ('bare', 'p2sh', 'p2sh', 'p2sh', 'wrong hash', 'almost p2sh'))
    h = c.hash160(inner)
    pub = inner
    if shape == 'p2sh': pub = b'\xa9\x14' + h + b'\x87'
    elif shape == 'wrong hash': pub = b'\xa9\x14' + h[:-1] + bytes([h[-1] ^ 1]) + b'\x87'
    elif shape == 'almost p2sh': pub = c.choice('almost', (b'\xa9\x4c\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x88\x51', b'\x61\xa9\x14' + h + b'\x87'))
    if unsigned:
        tx, idx = tx_of(b'')
        ht = c.choice('ht', (1, 2, 3, 0x81, 0x83))
        hash_ = sighashref.sighash(inner, tx, idx, ht)
        which = [c.choice('key', range(4))] if unsigned == 1 else sorted((c.choice('k1', range(3)), c.choice('k2', range(3))))
        if unsigned == 1 and c.choice('right', (True, True, False)): which = [[k for k in range(4) if key_of(c, k)[1] in inner][0]]
        args = (b'\0' if unsigned == 2 else b'') + b''.join(push(key_of(c, k)[0].sign(hash_) + bytes([ht])) for k in which)
    pre = c.choice('before', (b'', b'', b'', b'\x61', b'\x51\x75', b'\x51', b'\x61\x61', b'\0'))
    sig = pre + args + (push(inner) if shape != 'bare' else b'')
    sig += c.choice('after', (b'',) * 8 + (b'\x61', b'\x05', b'\x6a'))
    if c.choice('drop', (False,) * 9 + (True,)): sig = c.choice('instead', (b'', push(inner), args))
    return sig, pub

@contract('C22', 'sampled spends', sym=False, samples=6000, bounded='sampled', weight=2)
def sampled(c):
    m = c.mod(SE); S = c.mod(SC)
    tx = small_tx(c); idx = c.choice('input', range(len(tx.vin)))
    sig, pub = spend(c, lambda s: (tx, idx))
    p2sh = c.bool('p2sh')
    want = rules(c, Real(c, tx, idx), sig, pub, p2sh)
    flags = (S.SCRIPT_VERIFY_P2SH,) if p2sh else c.choice('flags', ((), (S.SCRIPT_VERIFY_STRICTENC,), (S.SCRIPT_VERIFY_EVEN_S, S.SCRIPT_VERIFY_NOCACHE)))
    before = tx.serialize()
    _, e = c.catch(c.mod(B).ValidationError, m.VerifyScript, S.CScript(sig), S.CScript(pub), tx, idx, set(flags) if c.bool('set') else flags)
    c.check('verdict', (e is None) == want, '%s %s p2sh=%s: rules %s, got %r' % (sig.hex(), pub.hex(), p2sh, want, e))
    c.check('transaction unchanged', tx.serialize() == before)

@contract('C22', 'sampled inputs', sym=False, samples=3000, bounded='sampled', weight=2)
def sampled_inputs(c):
    m = c.mod(SE); S = c.mod(SC); b = c.mod(B)
    mut = c.bool('mutable')
    n = c.int('n', 0, 3); pos = c.int('pos', 0, 2); count = c.int('inputs', 1, 3)
    pos = min(pos, count - 1)
    nout = c.int('outs', 0, 3)
    def build(frm, scriptsig):
        h = frm.GetHash() if c.choice('right tx', (True, True, True, True, False)) else c.bytes('h', n=32)
        ins = [b.CTxIn(b.COutPoint(h if k == pos or c.sub('o%d' % k).bool('same') else bytes(32), n if k == pos else k), S.CScript(scriptsig if k == pos else b''), k) for k in range(count)]
        tx = b.CTransaction(ins, [b.CTxOut(5, S.CScript(b'\x51'))] * c.choice('to', (1, 2)))
        return b.CMutableTransaction.from_tx(tx) if mut else tx
    # the signature does not cover scriptSigs, but it covers the source's hash; outputs are fixed first
    holder = {}
    def tx_of(s):
        frm = b.CTransaction([b.CTxIn()], [b.CTxOut(k, S.CScript(b'\x51' if k != n else b'')) for k in range(nout)])
        holder['f'] = frm
        return build(frm, s), pos
    sig, pub = spend(c, tx_of)
    frm = b.CTransaction([b.CTxIn()], [b.CTxOut(k, S.CScript(c.choice('others', (b'\x51', b'\0')) if k != n else pub)) for k in range(nout)])
    tx = build(frm, sig)
    idx = c.choice('idx', (pos, pos, pos, pos, 0, -1, count, count - 1, -count))
    want = False
    if 0 <= idx < count:
        i = tx.vin[idx]
        if i.prevout.n < nout and bytes(i.prevout.hash) == c.hash256(enc_tx(c, frm)):
            want = rules(c, Real(c, tx, idx), bytes(i.scriptSig), bytes(frm.vout[i.prevout.n].scriptPubKey), False)
    before = tx.serialize()
    _, e = c.catch(b.ValidationError, m.VerifySignature, frm, tx, idx)
    c.check('verdict', (e is None) == bool(want), 'rules %s, got %r' % (want, e))
    c.check('transaction unchanged', tx.serialize() == before)
