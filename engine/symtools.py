"""callee contracts (models) shared by several properties"""
import z3
from . import core, sym, specs
from .core import cur, Unsupported, PathStop
from .sym import *
from .specs import Vec, COMPACT, vec_key, MerkleTree

# vector serializers, by their contracts (C15 'vectors', 'vectors truncated'), for vectors of arbitrary length
def write_vector(w, orig, cls, args, objs, f, write):
    objs_ = as_slist(objs)
    if objs_.native(): return orig(cls, *args)
    m = w.load('bitcoin.core.serialize')
    n = objs_.length()
    m.VarIntSerializer.stream_serialize(n, f)
    p = cur()
    if specs.by_parts(objs_):
        def enc1(o):
            g = m._BytesIO(); write(o, g); return g.getvalue()
        if p.choose(2) == 1:
            j = p.fresh_nat('j', 0); p.assume_checked(zand(j >= 0, j < n))
            enc1(objs_[j])
            raise PathStop()
        f.write(specs.vec_by_parts('', objs_, enc1)); return
    objs_ = objs_.copy(); snap = snapshot([objs_])
    caches = [(a, len(a.born)) for s in objs_.segs for a in [getattr(getattr(s, 'base', None), '_at', None) or getattr(getattr(s, 'base', None), 'fn', None)] if type(a) is ElemCache]
    def enc(o):
        # the elements as they were when serialized
        if changed(snap) or any(changed(b) for a, n in caches for b in a.born[n:]): raise Unsupported('elements changed after they were serialized')
        g = m._BytesIO()
        write(o, g)
        return g.getvalue()
    v = Vec(vec_key(objs_), objs_, enc)
    if p.choose(2) == 1:
        # the contract's precondition: every element serializes
        j = p.fresh_nat('j', 0); p.assume_checked(zand(j >= 0, j < n))
        enc(objs_[j])
        raise PathStop()
    f.write(v.at(0))
def read_vector(w, orig, cls, args, f, read, objects=True):
    m = w.load('bitcoin.core.serialize')
    g = m._BytesIO(); g.rest = f.rest
    n = m.VarIntSerializer.stream_deserialize(g)
    s = g.rest[0] if g.rest else None
    if not is_sym(n) or type(s) is not USeg or not hasattr(s, 'vec'): return orig(cls, *args)
    v = s.vec
    if not (known(s.arg == 0) and known(n == v.n)): return orig(cls, *args)
    f.done = tuple(f.done) + tuple(g.done); f.rest = tuple(g.rest); touch(f)
    p = cur()
    def elem(i):
        h = m._BytesIO(v.elem(i))
        return read(h), h
    if p.choose(2) == 1:
        j = p.fresh_nat('j', 0); p.assume_checked(zand(j >= 0, j < v.end()))
        o, h = elem(j)
        p.check('vector element is read exactly', zb(h.remaining().length() == 0), kind='lemma')
        raise PathStop()
    if v.cut is not None:
        h = m._BytesIO(v.elem(v.cut)[:v.cutpos])
        try: read(h)
        except m.SerializationTruncationError: raise m.SerializationTruncationError('element cut short')
        p.check('an element cut short is rejected', False, kind='lemma')
        raise PathStop()
    f.done = tuple(f.done) + (s,); f.rest = tuple(f.rest[1:]); touch(f)
    cache = {}
    def at(i):
        t = z3.simplify(zt(i))
        if t.get_id() not in cache: cache[t.get_id()] = (t, elem(i)[0])
        return cache[t.get_id()][1]
    return SList(segs=(Sub(GenBase(at), 0, n),))
def ser_model(w, orig):
    orig = orig.__func__
    def stream_serialize(cls, inner_cls, objs, f):
        return write_vector(w, orig, cls, (inner_cls, objs, f), objs, f, lambda o, g: inner_cls.stream_serialize(o, g))
    return classmethod(stream_serialize)
def deser_model(w, orig):
    orig = orig.__func__
    def stream_deserialize(cls, inner_cls, f):
        return read_vector(w, orig, cls, (inner_cls, f), f, lambda h: inner_cls.stream_deserialize(h))
    return classmethod(stream_deserialize)
VECTORS = COMPACT + [('bitcoin.core.serialize:VectorSerializer.stream_serialize', ser_model),
           ('bitcoin.core.serialize:VectorSerializer.stream_deserialize', deser_model)]

# the other two, whose elements have fixed encodings
def fixed_models(name, write, read):
    def ser(w, orig):
        orig = orig.__func__
        def stream_serialize(cls, objs, f): return write_vector(w, orig, cls, (objs, f), objs, f, write(w))
        return classmethod(stream_serialize)
    def deser(w, orig):
        orig = orig.__func__
        def stream_deserialize(cls, f): return read_vector(w, orig, cls, (f,), f, read(w))
        return classmethod(stream_deserialize)
    return [('bitcoin.core.serialize:%s.stream_serialize' % name, ser), ('bitcoin.core.serialize:%s.stream_deserialize' % name, deser)]
def _write256(w):
    def write(o, g):
        if not truth(v_length(o) == 32): raise AssertionError()
        g.write(o)
    return write
def v_length(o): return to_vbytes(o).length()
def _read_n(w, n): return lambda h: w.load('bitcoin.core.serialize').ser_read(h, n)
def _write_int(w): return lambda o, g: g.write(w.shims['struct'].pack('<i', o))
def _read_int(w): return lambda h: w.shims['struct'].unpack('<i', _read_n(w, 4)(h))[0]
FIXEDVECTORS = fixed_models('uint256VectorSerializer', _write256, lambda w: _read_n(w, 32)) + fixed_models('intVectorSerialzer', _write_int, _read_int)

# the merkle tree of a block of arbitrary size: left open here, the subject of C26
def merkle_model(w, orig):
    orig = orig.__func__
    def build(txids):
        t = as_slist(txids)
        if t.native(): return orig(txids)
        return SList(segs=(Sub(GenBase(lambda i: None), 0, cur().fresh_nat('treelen', 1)),))
    return staticmethod(build)

# the contract of build_merkle_tree_from_txids proved by C26 'tree'
def merkle_callee(w, orig):
    orig = orig.__func__
    def build(txids):
        t = as_slist(txids)
        tree = MerkleTree(t)
        m = cur().fresh_nat('treelen', 0)
        cur().assume(zb(tree.complete(m)))
        tree.size = m; cur().aux.setdefault('treecalls', []).append(tree)
        return tree.nodes(m)
    return staticmethod(build)

class PrefixSet:
    """contents of a set during a loop: the first k elements of a sequence, plus those added since"""
    def __init__(self, at, k, interest=()):
        self.at = at; self.k = k; self.interest = interest; self.added = []; self.hit = None
    def contains(self, x):
        for e in self.added:
            if truth(e == x): return True
        p = cur()
        if p.choose(2) == 0:
            i = p.fresh_nat('member', 0)
            p.assume_checked(zand(i >= 0, i < self.k))
            if not truth(self.at(i) == x): raise PathStop()
            self.hit = i
            return True
        for j in self.interest:
            if truth(zand(j >= 0, j < self.k)) and truth(self.at(j) == x): raise PathStop()
        return False
    def add(self, x): self.added.append(x)
    def is_prefix(self, k):
        """holds the first k elements exactly"""
        if not self.added: return self.k == k
        if len(self.added) == 1: return mkbool(zand(self.k + 1 == k, zb(self.at(self.k) == self.added[0])))
        return False
def set_is_prefix(s, at, k):
    """loop invariant helper: set s holds exactly the elements 0..k-1"""
    if s.ghost is not None: return s.ghost.is_prefix(k)
    if not s.elems: return k == 0
    raise Unsupported('contents of a set')
def havoc_prefix(L, s, at, k, interest=()):
    s.elems = []; s.ghost = PrefixSet(at, k, interest); L.havocs(s)

class RunningSum:
    """sum of the first k values of a sequence"""
    def __init__(self, at, n):
        p = cur(); self.at_ = at; self.n = n
        c = p.aux['sums'] = p.aux.get('sums', 0) + 1
        self.f = z3.Function('sum%d' % c, z3.IntSort(), z3.IntSort())
        p.add(self.f(z3.IntVal(0)) == 0)
    def __call__(self, k): return SInt(self.f(z3.simplify(zt(k)))) if is_sym(k) or k else 0
    def step(self, k):
        if truth(zand(k >= 0, k < self.n)): cur().add(self.f(z3.simplify(zt(k + 1))) == self.f(z3.simplify(zt(k))) + zt(self.at_(k)))
def tag(obj, key):
    cur().aux.setdefault('tags', {})[id(obj)] = (obj, key)
    return obj
def tag_of(obj):
    t = cur().aux.get('tags', {}).get(id(obj))
    if t is None: raise Unsupported('an object the contract does not know')
    return t[1]

def opaque_int(name, obj, lo=0, hi=None):
    """an integer that is a function of an object's place in its list"""
    key = tag_of(obj)
    t = z3.Function(name, *([z3.IntSort()] * (len(key) + 1)))(*key) if key else z3.Int(name)
    p = cur()
    k = ('opaque', t.get_id())
    if k not in p.aux:
        p.aux[k] = t
        if lo is not None: p.add(t >= lo)
        if hi is not None: p.add(t <= hi)
    return SInt(t, lo, hi)
def opaque_bool(name, obj): return opaque_int(name, obj, 0, 1) == 1
def opaque_bytes(name, obj, n): return VBytes._mk((Sub(SymBase(name, tag_of(obj)), 0, n),))

# ---- scripts given by their operations; what raw_iter() and iter() yield is their contract (proved by C18)
class Ops:
    """operations (opcode, data or None), then either the end of the script or a push cut short (`tail`)"""
    def __init__(self, items, tail, enc):
        self.items = as_slist(items); self.n = self.items.length(); self.tail = tail; self.enc = enc
        self.pos = RunningSum(lambda k: enc(self.items[k]).length(), self.n)
        self.cache = {}
    def __getitem__(self, k): return self.items[k]
    def op(self, k): return self.items[k][0]
    def data(self, k): return self.items[k][1]
class OpsIter(SIter):
    def __init__(self, w, ops, at):
        self.w = w; self.ops = ops
        super().__init__(ops.n, at)
    def end(self):
        if self.ops.tail is not None: raise self.w.load('bitcoin.core.script').CScriptInvalidError('cut short')
def raw_iter_model(w, orig):
    def raw_iter(self):
        t = cur().aux.get('tags', {}).get(id(self)) if core.CUR is not None else None
        if t is None or not isinstance(t[1], Ops): return orig(self)
        ops = t[1]
        def at(k):
            ops.pos.step(k)
            op, data = ops[k]
            return (op, data, ops.pos(k))
        return OpsIter(w, ops, at)
    return raw_iter
def cooked_model(w, orig):
    def __iter__(self):
        t = cur().aux.get('tags', {}).get(id(self)) if core.CUR is not None else None
        if t is None or not isinstance(t[1], Ops): return orig(self)
        ops = t[1]
        def at(k):
            op, data = ops[k]
            if data is not None: return data
            if truth(zand(op >= 0x51, op <= 0x60)): return op - 0x50
            return op
        return OpsIter(w, ops, at)
    return __iter__
RAWITER = [('bitcoin.core.script:CScript.raw_iter', raw_iter_model), ('bitcoin.core.script:CScript.__iter__', cooked_model)]

# ---- functions left open: equal arguments give equal results
def opaque_call(name, args, make):
    """the result of a fixed but unknown function; `make` produces a fresh result"""
    from .api import deq
    tab = cur().aux.setdefault('opaque:' + name, [])
    for a, r in tab:
        if len(a) == len(args) and all(x is y or known(mkbool(zb(deq(x, y)))) for x, y in zip(a, args)): return r
    r = make()
    tab.append((tuple(args), r))
    return r
def fresh_bool(name): return mkbool(cur().fresh_int(name) != 0)
def fresh_bytes(name, lo=0, hi=None):
    p = cur()
    if lo == hi: return VBytes._mk((Sub(SymBase(p.fresh(name)), 0, lo),))
    n = SInt(p.fresh_int(name + '.len'), lo, hi); p.add(n.t >= lo)
    if hi is not None: p.add(n.t <= hi)
    return VBytes._mk((Sub(SymBase(p.fresh(name)), 0, n),))
def is_const(x):
    v = to_vbytes(x)
    return v is None or v.is_const()

# C20's contracts of the number conversions, as far as they are needed: fixed functions, and their ranges
def vch2bn_model(w, orig):
    def vch2bn(s):
        v = to_vbytes(s)
        if v is None or v.is_const(): return orig(s)
        def make():
            p = cur(); n = SInt(p.fresh_int('num'))
            if truth(v.length() <= 4): p.add(z3.And(n.t >= -(2**31) + 1, n.t <= 2**31 - 1)); n = SInt(n.t, -(2**31) + 1, 2**31 - 1)
            if truth(v.length() == 0): p.add(n.t == 0)
            return n
        return opaque_call('vch2bn', (VBytes._mk(v.segs),), make)
    return vch2bn
def bn2vch_model(w, orig):
    def bn2vch(v):
        if type(v) is SBool: v = 1 if truth(v) else 0
        if not is_sym(v): return orig(v)
        lo, hi = lo_hi(v)
        if lo == 0 and hi == 1: return orig(1 if truth(v == 1) else 0)
        def make():
            small = known(mkbool(zand(v >= -2**40, v <= 2**40)))
            return fresh_bytes('vch', 0, 6 if small else 2**32 - 1)
        if not known(mkbool(zand(v >= -2**40, v <= 2**40))): raise Unsupported('the length of a number out of range')
        return opaque_call('bn2vch', (v,), make)
    return bn2vch
NUMBERS = [('bitcoin.core._bignum:vch2bn', vch2bn_model), ('bitcoin.core._bignum:bn2vch', bn2vch_model)]
def predicate_model(name):
    """a boolean function of a byte string, left open"""
    def model(w, orig):
        def f(x):
            if is_const(x): return orig(x)
            return opaque_call(name, (VBytes._mk(to_vbytes(x).segs),), lambda: fresh_bool(name))
        return f
    return model
def find_and_delete_model(w, orig):
    def FindAndDelete(script, sig):
        m = w.load('bitcoin.core.script')
        def make():
            b = to_vbytes(script); n = b.length(); hi = n.hi if is_sym(n) else n
            r = fresh_bytes('deleted', 0, hi)
            cur().add(zb(r.length() <= n))
            return m.CScript(r)
        return opaque_call('FindAndDelete', (script, sig), make)
    return FindAndDelete

class AnyOp(Ops):
    """some script of which one arbitrary operation matters"""
    def __init__(self, n, one, tail):
        self.n = n; self.one = one; self.tail = tail; ops = self
        class Pos:
            step = staticmethod(lambda k: None)
            def __call__(s, k): return ops.one[2]
        self.pos = Pos()
    def __getitem__(self, k): return self.one[:2]
def all_true_model(w, orig):
    def _CheckExec(vfExec):
        l = as_slist(vfExec)
        if l.native() and not l.items(): return True
        return opaque_call('all_true', (l.copy(),), lambda: fresh_bool('run'))
    return _CheckExec
def same_context(txTo, inIdx):
    tx, idx = cur().aux['ghost']['eval']
    if txTo is not tx or not known(inIdx == idx): raise Unsupported('a signature checked for another transaction or input')
def check_sig_model(w, orig):
    def _CheckSig(sig, pubkey, script, txTo, inIdx, err_raiser):
        same_context(txTo, inIdx)
        return opaque_call('checksig', (sig, pubkey, script), lambda: fresh_bool('sigok'))
    return _CheckSig
def multisig_model(w, orig):
    def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
        same_context(txTo, inIdx)
        p = cur()
        def make():
            if p.choose(2) == 0: return None
            n = SInt(p.fresh_int('count'), 0, 201); p.add(z3.And(n.t >= 0, n.t <= 201))
            size = p.fresh_nat('depth', 0); p.add(size.t >= 0)
            nm = p.fresh('after')
            def at(i):
                l = SInt(z3.Function(nm + '.len', z3.IntSort(), z3.IntSort())(zt(i)), 0, 2**32 - 1); p.add(z3.And(l.t >= 0, l.t <= 2**32 - 1))
                return VBytes._mk((Sub(SymBase(nm, (zt(i),)), 0, l),))
            return SList(segs=(Sub(GenBase(at), 0, size),)), n
        r = opaque_call('multisig', (opcode, script, stack.copy(), nOpCount[0]), make)
        if r is None: raise w.load('bitcoin.core.scripteval').EvalScriptError('CHECKMULTISIG')
        touch(stack); stack.segs = r[0].segs; nOpCount[0] = r[1]
    return _CheckMultiSig
EVALSTEP = [('bitcoin.core.scripteval:_CheckExec', all_true_model), ('bitcoin.core.scripteval:_CastToBool', predicate_model('true')),
            ('bitcoin.core.scripteval:_CheckSig', check_sig_model), ('bitcoin.core.scripteval:_CheckMultiSig', multisig_model),
            ('bitcoin.core.scripteval:FindAndDelete', find_and_delete_model)]

def raw_sighash_model(w, orig):
    """the hash of the arguments the contract announced (C23 says what it is)"""
    def RawSignatureHash(script, txTo, inIdx, hashtype):
        sc, tx, idx, ht, h = cur().aux['ghost']['rsh']
        p = cur()
        p.check('signature hash of this script, transaction, input and hash type',
                zand(txTo is tx, zb(rope_eq(to_vbytes(script), to_vbytes(sc))), zb(inIdx == idx), zb(hashtype == ht)) if ht is not None else False)
        return (h, None if p.choose(2) == 0 else 'out of range')
    return RawSignatureHash
SIGHASH = [('bitcoin.core.scripteval:RawSignatureHash', raw_sighash_model)]

def fresh_stack(name):
    p = cur()
    size = p.fresh_nat('depth', 0); p.add(size.t >= 0)
    nm = p.fresh(name); cache = {}
    def at(i):
        t = z3.simplify(zt(i))
        if t.get_id() not in cache:
            l = SInt(z3.Function(nm + '.len', z3.IntSort(), z3.IntSort())(t), 0, 2**32 - 1); p.add(z3.And(l.t >= 0, l.t <= 2**32 - 1))
            cache[t.get_id()] = (t, VBytes._mk((Sub(SymBase(nm, (t,)), 0, l),)))
        return cache[t.get_id()][1]
    return SList(segs=(Sub(GenBase(at), 0, size),))
# EvalScript by C21: the outcome is a function of stack and script; a script hash pattern fails on an empty stack
def eval_model(w, orig):
    def EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
        same_context(txTo, inIdx)
        v = to_vbytes(scriptIn); p = cur()
        def make():
            if not truth(stack.length() != 0) and truth(v.length() == 23) and truth(zand(zb(v[0] == 0xa9), zb(v[1] == 0x14), zb(v[22] == 0x87))): return None
            return None if p.choose(2) == 0 else fresh_stack('evaluated')
        r = opaque_call('eval', (stack.copy(), v), make)
        if r is None: raise w.load('bitcoin.core.scripteval').EvalScriptError('failed')
        touch(stack); stack.segs = r.segs
    return EvalScript
EVALCALL = [('bitcoin.core.scripteval:EvalScript', eval_model), ('bitcoin.core.scripteval:_CastToBool', predicate_model('true')),
            ('bitcoin.core.script:CScript.is_push_only', predicate_model('push only'))]
def verify_model(w, orig):
    def VerifyScript(scriptSig, scriptPubKey, txTo, inIdx, flags=()):
        want = cur().aux['ghost']['verify']
        cur().check('the scripts of this input and output are verified', False if want is None else
                    zand(zb(rope_eq(to_vbytes(scriptSig), to_vbytes(want[0]))), zb(rope_eq(to_vbytes(scriptPubKey), to_vbytes(want[1]))), txTo is want[2], zb(inIdx == want[3])))
        if not cur().aux['ghost']['satisfied']: raise w.load('bitcoin.core.scripteval').VerifyScriptError('not satisfied')
    return VerifyScript
VERIFYCALL = [('bitcoin.core.scripteval:VerifyScript', verify_model)]

def gethash_model(w, orig):
    def GetHash(self): return opaque_call('GetHash', (self,), lambda: fresh_bytes('hash', 32, 32))
    return GetHash
VERIFYCALL += [('bitcoin.core.serialize:Serializable.GetHash', gethash_model), ('bitcoin.core.serialize:ImmutableSerializable.GetHash', gethash_model)]
VERIFYCALL += [('bitcoin.core:CTransaction.GetHash', gethash_model), ('bitcoin.core:CMutableTransaction.GetHash', gethash_model)]

# ---- transactions of arbitrary size by their encoding, a fixed function of their contents (C16: what it is, and that it decodes to an equal transaction)
def tx_code(tx):
    p = cur(); tab = p.aux.setdefault('txcodes', [])
    for t, code, n in tab:
        if t is tx or all(getattr(t, a) is getattr(tx, a) for a in ('vin', 'vout', 'nVersion', 'nLockTime')): return code, n
    code = SInt(p.fresh_int('txcode'))
    n = SInt(z3.Function('txlen', z3.IntSort(), z3.IntSort())(code.t), 10); p.add(n.t >= 10)
    tab.append((tx, code, n))
    return code, n
def tx_bytes(tx):
    code, n = tx_code(tx)
    return VBytes._mk((USeg('tx', code, n, lambda: [Sub(SymBase('txbytes', (code.t,)), 0, n)]),))
def tx_ser_model(w, orig):
    def stream_serialize(self, f):
        if as_slist(self.vin).native() and as_slist(self.vout).native(): return orig(self, f)
        f.write(tx_bytes(self))
    return stream_serialize
def tx_deser_model(w, orig):
    orig = orig.__func__
    def stream_deserialize(cls, f):
        s = f.rest[0] if f.rest else None
        tab = cur().aux.get('txcodes', ()) if core.CUR is not None else ()
        if type(s) is USeg and s.key == 'tx':
            f.done = tuple(f.done) + (s,); f.rest = tuple(f.rest[1:]); touch(f)
            for t, code, n in tab:
                if code is s.arg: return t
        if type(s) is Sub and getattr(s.base, 'name', None) == 'txbytes':
            for t, code, n in tab:
                if code.t is s.base.params[0] and len(f.rest) == 1 and known(s.off == 0) and known(s.n < n):
                    raise w.load('bitcoin.core.serialize').SerializationTruncationError('a transaction cut short')
            raise Unsupported('part of the encoding of a transaction')
        return orig(cls, f)
    return classmethod(stream_deserialize)
TXBYTES = COMPACT + [('bitcoin.core:CTransaction.stream_serialize', tx_ser_model), ('bitcoin.core:CTransaction.stream_deserialize', tx_deser_model)]

# MurmurHash3, proved by C29 'hash', as some function of seed and data
def murmur_model(w, orig):
    def MurmurHash3(nHashSeed, vDataToHash):
        v = to_vbytes(vDataToHash)
        if v is None or not is_intlike(nHashSeed): raise Unsupported('hash of something else')
        if not truth(zand(nHashSeed >= 0, nHashSeed <= 0xffffffff)): raise AssertionError('seed')
        p = cur(); tab = p.aux.setdefault('murmur', [])
        from .world import same_rope
        for b, f in tab:
            if same_rope(b, v): break
        else:
            if any(truth(rope_eq(b, v)) for b, f in tab): raise Unsupported('hashes of equal data')
            f = z3.Function('murmur%d' % len(tab), z3.IntSort(), z3.IntSort()); tab.append((v, f))
        t = f(z3.simplify(zt(nHashSeed))); p.add(z3.And(t >= 0, t <= 0xffffffff))
        r = SInt(t, 0, 0xffffffff)
        g = p.aux.get('ghost', {}).get('hashed')
        if g: g(nHashSeed, v, r)
        return r
    return MurmurHash3
MURMUR = [('bitcoin.bloom:MurmurHash3', murmur_model)]

# ---- amounts a node sends, and decoding by contract
def fresh_amount(n):
    """the decimal number n / 10**8"""
    return VDec(n, 8)
class Decoded:
    """what a byte string decodes to"""
    def __init__(self, got): self.got = got
def _decode(w, orig): return staticmethod(lambda got, *a, **k: Decoded(got))
DECODING = [('bitcoin.core:CBlock.deserialize', _decode), ('bitcoin.core:CTransaction.deserialize', _decode)]

class Expansion:
    """the digits of a number N in base `radix`: q(0) = N, q(k) = radix * q(k + 1) + digit(k), 0 <= digit(k) < radix;
    j is the number of digits (q(k) >= 1 exactly for k < j: see the lemmas)"""
    def __init__(self, name, radix, positive):
        p = cur()
        I = z3.IntSort()
        self.radix = radix; self.F = z3.Function(name + '.q', I, I); self.D = z3.Function(name + '.digit', I, I)
        self.j = p.fresh_nat(name + '.count', 1) if positive else 0
        self.N = self.q(0)
    def q(self, k):
        f = SInt(self.F(z3.simplify(zt(k))), 0); cur().add(f.t >= 0)
        cur().add(z3.Implies(zt(k) < zt(self.j), f.t >= 1)); cur().add(z3.Implies(zt(k) >= zt(self.j), f.t == 0))
        return f
    def step(self, k):
        """the definition at k"""
        d = self.digit(k)
        cur().add(self.q(k).t == self.radix * self.q(k + 1).t + d.t)
    def digit(self, k):
        d = self.D(z3.simplify(zt(k))); cur().add(z3.And(d >= 0, d < self.radix))
        return SInt(d, 0, self.radix - 1)
    def bytes(self): return be_bytes(self.N) if is_sym(self.j) else VBytes._lit(())
    def text(self, alphabet):
        if not is_sym(self.j): return ''
        return VText((Sub(GenBase(lambda i: VStr.of(str_char(alphabet, self.digit(self.j - 1 - i))).c[0]), 0, self.j),))
class ConcExpansion:
    def __init__(self, n, radix):
        self.N = n; self.radix = radix; self.digits = []
        while n: n, r = divmod(n, radix); self.digits.append(r)
        self.j = len(self.digits)
    def bytes(self): return self.N.to_bytes((self.N.bit_length() + 7) // 8, 'big')
    def text(self, alphabet): return ''.join(alphabet[d] for d in self.digits[::-1])
