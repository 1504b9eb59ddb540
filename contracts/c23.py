"""C23: signature hashes"""
from engine.api import *
from contracts.wire import *
from contracts import scriptref, sighashref
from contracts.scripts import operation_at
from contracts.scriptspec import parse, push
from engine.symtools import find_and_delete_model, RAWITER
SC = 'bitcoin.core.script'

# ---------------------------------------------------------------- deleting an operation from a script
@loop('FindAndDelete#0')
class Deleting(LoopSpec):
    """kept: the operations before the last one read, without the deleted ones; the last one read is pending"""
    def enter(self, L):
        L.g.f = L.env('deletion'); L.g.first = True; L.g.loop = L; L.g.f.loop = L
    def havoc(self, L):
        f = L.g.f; c = f.c; b = f.script
        f.first = L.is_zero(L.k)
        if f.first: f.kept = c.native(b''); f.q = f.p = 0; f.skip = False
        else:
            f.q = L.fresh('q', 0); L.assume(f.q < len(b))
            f.p = L.fresh('p', 0); L.assume(L.both(f.q < f.p, f.p <= len(b)))
            f.kept = c.new_bytes('kept'); L.assume(len(f.kept) <= f.q)
            f.skip = b[f.q:f.p] == f.sub
            if f.skip: f.skip = True
            else: f.skip = False
        # what comes next
        f.next = ('end',)
        if c.lt(f.p, len(b)): f.next = operation_at(c, b, f.p)
        L.assume(L.k < L.n if f.next[0] == 'op' else L.k == L.n)
        f.set_next(f.p, f.next)
        return {'r': f.kept, 'last_sop_idx': f.q, 'skip': f.skip, 'sop_idx': f.q}
    def inv(self, L):
        f = L.g.f; c = f.c
        if L.mode == 'assume': return []
        if f.first is None: return [('nothing read', L.both(len(L['r']) == 0, L['last_sop_idx'] == 0, L.same(L['skip'], False)))]
        f.read = True
        return [('kept', L.eqn(L['r'], f.kept_all())), ('not longer', len(f.kept_all()) <= f.p), ('pending', L['last_sop_idx'] == f.p),
                ('deleted next', L.same(L['skip'], f.script[f.p:f.next[3]] == f.sub))]

class Deletion:
    def __init__(self, c, script, sub): self.c = c; self.script = script; self.sub = sub; self.first = None; self.read = False
    def set_next(self, p, t): self.c.set_op(self.script, None if t[0] != 'op' else (t[1], t[2], p), 'cut short' if t[0] == 'cut' else None)
    def kept_all(self):
        """with the pending operation"""
        return self.kept if self.first or self.skip else self.kept + self.script[self.q:self.p]

@contract('C23', 'deleting an operation', cuts=['FindAndDelete#0'], models=RAWITER[:1], parts=['separator', 'push'], samples=1500, timeout=150)
def delete(c):
    m = c.mod(SC)
    if not c.symbolic:
        ops = c.items('ops', lambda d, k: d.choice('op', (b'\xab', b'\xab', b'\x51', b'\x01\xab', b'\x02ab', b'\0', b'\x4c\x01\xab', b'\x4d\x02\0ab', push(b'x' * 80), b'\x01\x51', b'\x02\xab\xab', b'\x61')), 0, 9)
        script = b''.join(ops) + c.choice('tail', (b'', b'', b'', b'\x05\xab\xab', b'\x4c', b'\x4d\xab', b'\x4b\xab'))
        if c.choice('any', (False, False, True)): script = c.bytes('script', 0, 30)
        sub = b'\xab' if c.part == 'separator' else push(c.choice('data', (b'', b'\xab', b'ab', b'x' * 80, b'\xab\xab', b'\x51')))
        arg = m.CScript([m.OP_CODESEPARATOR]) if c.part == 'separator' else m.CScript(sub)
        r = c.returns('FindAndDelete', m.FindAndDelete, m.CScript(script), arg)
        c.eq('remaining script', bytes(r), scriptref.remove(script, sub))
        c.check('type', type(r) is m.CScript)
        return
    script = m.CScript(c.bytes('script'))
    if c.part == 'separator': sub = c.native(b'\xab')
    else:
        d = c.bytes('data', 0, 2**32 - 1); n = len(d)
        if c.lt(n, 76): sub = c.le(n, 1) + d
        elif c.lt(n, 256): sub = c.native(b'\x4c') + c.le(n, 1) + d
        elif c.lt(n, 65536): sub = c.native(b'\x4d') + c.le(n, 2) + d
        else: sub = c.native(b'\x4e') + c.le(n, 4) + d
    f = Deletion(c, c.raw(script), sub)
    c.any_op(script, c.int('n', 0), None, None)
    f.set_next = lambda p, t: c.set_op(script, None if t[0] != 'op' else (t[1], t[2], p), 'cut short' if t[0] == 'cut' else None)
    c.ghost(deletion=f)
    r = c.returns('FindAndDelete', m.FindAndDelete, script, m.CScript(sub))
    c.eq('remaining script', c.raw(r), f.kept_all() + f.script[f.p:])
    c.check('not longer than the script', len(r) <= len(script))
    c.check('type', r.__class__ is m.CScript)

# ---------------------------------------------------------------- the hash
class Change(LoopSpec):
    """the inputs before the current one have been changed, and nothing else has"""
    def enter(self, L):
        L.g.h = L.env('sighash'); L.g.c = L.g.h[0]; L.g.k0 = None
    def expected(self, L, i, o, k): pass
    def havoc(self, L):
        c = L.g.c; tmp = L['txtmp']; m = c.mod(B)
        L.g.old = tmp.vin[:]; L.g.k0 = L.k
        def make(i):
            o = L.g.old[i]
            sc, seq = self.expected(L, i, o, L.g.k0)
            return m.CMutableTxIn(m.CMutableOutPoint(o.prevout.hash, o.prevout.n), sc, seq)
        L.g.new = c.gen_list(len(L.g.old), make)
        L.havocs(tmp.vin)
        tmp.vin[:] = L.g.new
        return {}
    def inv(self, L):
        if L.mode == 'assume' or L.g.k0 is None: return []
        c = L.g.c; tmp = L['txtmp']; out = [('same inputs', L.deep_eq(len(tmp.vin), len(L.g.old)))]
        cur = tmp.vin[L.g.k0]
        for i, x in c.handed_out(tmp.vin):
            o = L.g.old[i]
            sc, seq = self.expected(L, i, o, L.g.k0 + 1)
            out.append(('input', L.both(L.eqn(x.prevout.hash, o.prevout.hash), x.prevout.n == o.prevout.n, L.eqn(x.scriptSig, sc), x.nSequence == seq)))
        return out
@loop('RawSignatureHash#0')
class Blank(Change):
    def expected(self, L, i, o, k): return (L.native(b''), o.nSequence) if L.g.c.lt(i, k) else (o.scriptSig, o.nSequence)
class Zero(Change):
    def expected(self, L, i, o, k):
        if L.g.c.lt(i, k) and i != L.g.h[1]: return (o.scriptSig, 0)
        return (o.scriptSig, o.nSequence)
@loop('RawSignatureHash#1')
class ZeroNone(Zero): pass
@loop('RawSignatureHash#3')
class ZeroSingle(Zero): pass
@loop('RawSignatureHash#2')
class Pad(LoopSpec):
    """empty outputs worth -1, one for each position before the input's"""
    def enter(self, L): L.g.c = L.env('sighash')[0]; L.g.old = None
    def havoc(self, L):
        tmp = L['txtmp']; one = L.g.c.mod(B).CTxOut()
        L.g.old = [one] * L.k; L.g.k0 = L.k
        L.havocs(tmp.vout); tmp.vout[:] = L.g.old
        return {}
    def inv(self, L):
        v = L['txtmp'].vout
        if L.mode == 'assume': return []
        if L.g.old is None: return [('none yet', len(v) == 0)]
        k = L.g.k0
        return [('one more', len(v) == k + 1), ('the others', L.deep_eq(v[:k], L.g.old)), ('worth -1', v[k].nValue == -1), ('no script', len(v[k].scriptPubKey) == 0)]
def hash_cuts(part):
    return ['RawSignatureHash#0'] + {'none': ['RawSignatureHash#1'], 'single': ['RawSignatureHash#2', 'RawSignatureHash#3'], 'all': []}[part]

def spec_preimage(c, code, tx, idx, hashtype, kind):
    """what is hashed; code: the script without separators; tx.vin[idx] exists, and tx.vout[idx] where kind is 3"""
    nin, nout = len(tx.vin), len(tx.vout)
    def enc_in(i, k):
        mine = k == idx
        if mine: return enc_outpoint(c, i.prevout) + enc_bytes(c, code) + c.le(i.nSequence, 4)
        return enc_outpoint(c, i.prevout) + c.compact(0) + c.le(i.nSequence if kind == 'all' else 0, 4)
    if hashtype & 0x80: ins = c.compact(1) + enc_in(tx.vin[idx], idx)
    else: ins = c.compact(nin) + c.vec('vin', c.gen_list(nin, lambda k: enc_in(tx.vin[k], k)), lambda e: e).whole()
    if kind == 'none': outs = c.compact(0)
    elif kind == 'single':
        def enc_out(k):
            if k == idx: return enc_txout(c, tx.vout[idx])
            return c.native(b'\xff' * 8 + b'\0')
        if not c.lt(0, idx): outs = c.compact(1) + enc_txout(c, tx.vout[0])
        else: outs = c.compact(idx + 1) + c.vec('vout', c.gen_list(idx + 1, enc_out), lambda e: e).whole()
    else: outs = c.compact(nout) + c.vec('vout', tx.vout, lambda o: enc_txout(c, o)).whole()
    return c.le(tx.nVersion, 4, True) + ins + outs + c.le(tx.nLockTime, 4) + c.le(hashtype, 4)

def hash_concretely(c, m, tx):
    script = m.CScript(c.bytes('script')) if c.choice('any', (False, True)) else m.CScript(b''.join(
        c.items('ops', lambda d, k: d.choice('op', (b'\xab', b'\xab', b'\x51', b'\x01\xab', b'\x76\xa9', b'\x4c\x02\xab\xab', b'\x02\xab\x51', b'x' * 80)), 0, 6)))
    idx = c.int('idx', 0, len(tx.vin) + 2)
    named = {'all': (0, 1, 4, 0x81, 0x80, 0x11, 0x41, 0xffffffff, 0x103, 0x80000001, 0x12, 0x13, 0x92, 0x0a, 0x0b, 0x06, 0x07, 0x1e, 0x1f, 0x9b),
             'none': (2, 0x82, 0x42, 0x102, 0xffffff02, 0x22, 0xe2, 0x10002), 'single': (3, 0x83, 0x43, 0x63, 0x103, 0x80000083, 0x23, 0xa3)}[c.part]
    if c.choice('named', (True, True, False)): ht = c.choice('hashtype', named)
    else:
        ht = c.int('hashtype', 0, U32); low = ht & 31
        if c.part == 'all':
            if low in (2, 3): ht ^= 1 << (2 + ht % 3)
        else: ht = ht - low + (2 if c.part == 'none' else 3)
    low = {'none': 2, 'single': 3}.get(c.part)
    if low is None: c.assume(ht & 31 not in (2, 3))
    before = tx.serialize(), script[:], type(tx)
    want = sighashref.preimage(script, tx, idx, ht)
    h, err = c.returns('RawSignatureHash', m.RawSignatureHash, script, tx, idx, ht)
    c.eq('hash', h, sighashref.sighash(script, tx, idx, ht))
    c.check('error', (err is None) == (want is not None))
    c.check('the transaction is unchanged', tx.serialize() == before[0] and type(tx) is before[2] and script == before[1])
    if want is None: c.raises("SignatureHash", ValueError, m.SignatureHash, script, tx, idx, ht)
    else: c.eq('SignatureHash', c.returns('SignatureHash', m.SignatureHash, script, tx, idx, ht), h)

@contract('C23', 'signature hash', cuts=hash_cuts, models=VECTORS + [('bitcoin.core.script:FindAndDelete', find_and_delete_model)], parts=['all', 'none', 'single'], samples=1500, timeout=120, weight=2)
def raw_hash(c):
    m = c.mod(SC)
    tx = arb_tx(c, c.bool('mutable'))
    if not c.symbolic: return hash_concretely(c, m, tx)
    script = m.CScript(c.bytes('script', 0, 2**64 - 1))
    idx = c.int('idx', 0); ht = c.int('hashtype', 0, U32)
    low = ht & 31
    if c.part == 'none': c.assume(low == 2)
    elif c.part == 'single': c.assume(low == 3)
    else: c.assume(c.both(c.neg(low == 2), c.neg(low == 3)))
    c.ghost(sighash=(c, idx))
    before = c.snapshot(tx)
    h, err = c.returns('RawSignatureHash', m.RawSignatureHash, script, tx, idx, ht)
    c.check('the transaction is unchanged', c.unchanged(before))
    nin, nout = len(tx.vin), len(tx.vout)
    if c.lt(idx, nin) and (c.part != 'single' or c.lt(idx, nout)):
        c.check('no error', err is None)
        code = m.FindAndDelete(script, m.CScript(c.native(b'\xab')))
        c.eq('hash', h, c.hash256(spec_preimage(c, code, tx, idx, ht, c.part)))
    else:
        c.check('error', err is not None)
        c.eq('constant one', h, c.native(b'\x01' + bytes(31)))
