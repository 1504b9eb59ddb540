"""C18: building and parsing scripts"""
from engine.api import *
from contracts.scripts import *

# ---------------------------------------------------------------- parsing
# one operation is yielded from an arbitrary position, and the position moves past it
@loop('CScript.raw_iter#0')
class RawIter(LoopSpec):
    def enter(self, L): L.g.arbitrary = False
    def havoc(self, L):
        L.g.arbitrary = True
        return {'i': L.env('pos')}
    def inv(self, L):
        i = L['i']
        if not L.g.arbitrary: return [('starts at the beginning', i == 0)]
        if L.mode == 'assume': return []
        return [('moves past the operation', i == L.env('next'))]

def raised_cut(c, m, e, data):
    c.check('invalid script', isinstance(e, m.CScriptInvalidError))
    if data is not None:
        c.check('the payload so far is reported', isinstance(e, m.CScriptTruncatedPushDataError))
        c.eq('the payload so far', e.data, data)

def some_script(c, name='script'):
    """arbitrary bytes when proving; when sampling, often something that parses"""
    if c.symbolic: return c.bytes(name)
    how = c.choice(name + ' how', ('parses',) * 9 + ('bytes',) * 9 + ('length', 'much'))
    if how == 'parses': return bytes(arb_ops(c, name).script)
    if how == 'bytes': return c.bytes(name, 0, 60)
    # a stated length with any of its bytes set
    n = c.choice(name + ' stated', [k << 8 * j for j in range(4) for k in (1, 2, 127, 128, 255)] + [0x01010101, 0x7fffffff, 0x80000001])
    wide = c.choice(name + ' wide', [w for w in (2, 4) if n < 256**w])
    return c.choice(name + ' before', (b'', b'\x51', b'\x01a')) + (b'\x4d' if wide == 2 else b'\x4e') + n.to_bytes(wide, 'little') + c.bytes(name + ' data', 0, 40) * (1 if how == 'length' else 7000)

@contract('C18', 'one operation', cuts=['CScript.raw_iter#0'], samples=2500)
def one_operation(c):
    m = c.mod(SC)
    b = some_script(c)
    s = m.CScript(b)
    c.steps('CScript.raw_iter#0')
    if not c.symbolic:
        got = []; e = None
        it = s.raw_iter()
        try:
            for x in it: got.append(x)
        except m.CScriptInvalidError as err: e = err
        pos = 0
        for x in got:
            t = operation_at(c, b, pos)
            c.eq('operation', tuple(x), (t[1], t[2], pos) if t[0] == 'op' else None)
            c.eq('data type', type(x[1]) in (bytes, type(None)), True)
            pos = t[3]
        if e is not None:
            t = operation_at(c, b, pos)
            c.eq('error', t[0], 'cut'); raised_cut(c, m, e, t[1])
        else: c.eq('end', pos, len(b))
        return
    pos = c.int('pos', 0); c.assume(pos <= len(b))
    t = ('end',) if not c.lt(pos, len(b)) else operation_at(c, b, pos)
    c.ghost(pos=pos, next=t[3] if t[0] == 'op' else 0)
    g = s.raw_iter()
    r, e = c.catch((m.CScriptInvalidError, StopIteration), next, g)
    if t[0] == 'end': c.check('end', isinstance(e, StopIteration))
    elif t[0] == 'cut': raised_cut(c, m, e, t[1])
    else:
        c.check('an operation', e is None)
        op, data, idx = r
        c.eq('opcode', op, t[1]); c.eq('position', idx, pos)
        if t[2] is None: c.check('no data', data is None)
        else:
            c.check('data type', data.__class__ is bytes)
            c.eq('data', data, t[2])
        c.catch((m.CScriptInvalidError, StopIteration), next, g)      # the position moves past it

# items: small integers as integers, data as bytes, the rest as opcodes
@loop('CScript.__iter__#0')
class Cooked(LoopSpec):
    def havoc(self, L):
        L.assume(L.k == L.env('op'))
        return {}

def item_of(c, m, o):
    """the item an operation is parsed to"""
    op, d = o
    if d is not None: return d
    if op >= 0x51 and op <= 0x60: return op - 0x50
    return op

@contract('C18', 'items', cuts=['CScript.__iter__#0'], models=RAWITER[:1], samples=1500)
def items(c):
    m = c.mod(SC)
    p = arb_ops(c)
    if not c.symbolic:
        got = []; e = None
        try:
            for x in p.script: got.append(x)
        except m.CScriptInvalidError as err: e = err
        c.eq('items', got, [item_of(c, m, o) for o in p.ops])
        for x, (op, d) in zip(got, p.ops):
            c.check('kind', type(x) is (bytes if d is not None else int if 0x51 <= op <= 0x60 else m.CScriptOp))
        c.eq('error', e is not None, p.tail is not None)
        return
    k = c.int('k', 0); c.assume(k <= p.n)
    c.steps('CScript.__iter__#0'); c.ghost(op=k)
    r, e = c.catch((m.CScriptInvalidError, StopIteration), next, iter(p.script))
    if c.lt(k, p.n):
        c.check('an item', e is None)
        c.eq('item', r, item_of(c, m, p.ops[k]))
        c.check('kind', r.__class__ is bytes if p.ops.data(k) is not None else isinstance(r, int))
        if p.ops.data(k) is None: c.check('opcodes are opcodes', c.either(isinstance(r, m.CScriptOp), c.both(p.ops.op(k) >= 0x51, p.ops.op(k) <= 0x60)))
    elif p.tail is not None: c.check('error', isinstance(e, m.CScriptInvalidError))
    else: c.check('end', isinstance(e, StopIteration))

# ---------------------------------------------------------------- building
KINDS = ['opcode', 'small integer', 'minus one', 'integer', 'bytes', 'bytearray', 'script']
def number_form(v):
    """shortest little-endian sign-magnitude form"""
    if v == 0: return b''
    a = abs(v); n = (a.bit_length() + 8) // 8
    return (a | (1 << (8 * n - 1)) if v < 0 else a).to_bytes(n, 'little')

def arb_item(c, m, kind):
    """(item, its encoding, the item it is parsed back to)"""
    if kind == 'opcode':
        op = c.choice('op', range(79, 256)) if c.symbolic else c.int('op', 79, 255)
        x = m.CScriptOp(op)
        return x, c.le(op, 1), op - 0x50 if 0x51 <= op <= 0x60 else x
    if kind == 'small integer':
        n = c.int('n', 0, 16)
        return n, c.le(n + 0x50 if c.lt(0, n) else 0, 1), n if c.lt(0, n) else c.native(b'')
    if kind == 'minus one': return -1, c.native(b'\x4f'), m.CScriptOp(0x4f)
    if kind == 'integer':
        v = c.int('v')
        if c.symbolic: c.assume(c.either(v < -1, v > 16)); d = c.mod('bitcoin.core._bignum').bn2vch(v)
        else:
            c.assume(v < -1 or v > 16); d = number_form(v)
    else: d = c.bytes('data', 0, 2**32 - 1 if c.symbolic else c.choice('hi', (80, 300, 70000)))
    n = len(d)
    if c.lt(n, 76): e = c.le(n, 1) + d
    elif c.lt(n, 256): e = c.native(b'\x4c') + c.le(n, 1) + d
    elif c.lt(n, 65536): e = c.native(b'\x4d') + c.le(n, 2) + d
    else: e = c.native(b'\x4e') + c.le(n, 4) + d
    return (v if kind == 'integer' else bytearray(d) if kind == 'bytearray' else m.CScript(d) if kind == 'script' else d), e, d

def bn_model(w, orig):
    """C20's contract, as far as it is needed here: some byte string that depends on the number only"""
    from engine import sym
    from engine.core import cur
    def bn2vch(v):
        if not sym.is_sym(v): return orig(v)
        p = cur()
        d = p.aux.setdefault('vch', {})
        k = v.t.get_id()
        if k not in d:
            n = sym.SInt(p.fresh_int('vchlen'), 1); p.add(n.t >= 1); p.add(n.t <= 2**32 - 1)
            d[k] = (v, sym.VBytes._mk((sym.Sub(sym.SymBase(p.fresh('vch')), 0, n),)))
        return d[k][1]
    return bn2vch
BN = [('bitcoin.core._bignum:bn2vch', bn_model)]

@contract('C18', 'shortest form of an item', parts=KINDS, models=BN, samples=400)
def encode_item(c):
    m = c.mod(SC)
    x, e, _ = arb_item(c, m, c.part)
    s = c.returns('CScript', m.CScript, [x])
    c.check('type', s.__class__ is m.CScript)
    c.eq('encoding', c.raw(s), e)

@contract('C18', 'appending an item', parts=KINDS, models=BN, samples=300)
def append_item(c):
    m = c.mod(SC)
    x, e, _ = arb_item(c, m, c.part)
    head = c.bytes('head', 0, None if c.symbolic else 50)
    s = c.returns('add', m.CScript(head).__add__, x)
    c.check('type', s.__class__ is m.CScript)
    c.eq('encoding', c.raw(s), head + e)

class Item:
    """any item whose shortest form is known (contract 'shortest form of an item')"""
    def __init__(self, k): self.k = k; self.form = Elem(k).enc
def coerce_model(w, orig):
    f = orig.__func__
    def coerce(cls, other):
        if type(other) is Item: return other.form
        return f(cls, other)
    return classmethod(coerce)
COERCE = [('bitcoin.core.script:CScript._CScript__coerce_instance', coerce_model)]
@loop('CScript.__new__.coerce_iterable#0')
class Forms(LoopSpec):
    def yields(self, L, k): return L.item(k).form

@contract('C18', 'any number of items', models=COERCE, cuts=['CScript.__new__.coerce_iterable#0'], conc=False)
def any_items(c):
    """a script built of any number of items is their forms one after the other"""
    m = c.mod(SC)
    if not c.symbolic: c.unsupported('items known by their form')
    xs = c.list('items', lambda d, k: Item(k), kind=c.choice('container', (list, tuple)))
    if c.bool('iterator'): r = c.returns('CScript', lambda: m.CScript(iter(xs)))
    else: r = c.returns('CScript', m.CScript, xs)
    c.check('type', r.__class__ is m.CScript)
    c.each('forms', c.pieces(c.raw(r)), xs, lambda c, l, a, b: c.eq('form', a, b.form))

@contract('C18', 'several items', models=BN, bounded='two items; sampled: up to 1100', samples=1500)
def several(c):
    m = c.mod(SC)
    n = c.choice('n', (2,)) if c.symbolic else c.choice('n', range(9)) if c.choice('many', range(60)) else c.choice('n', (40, 300, 1100))
    xs = []; e = c.native(b'')
    for k in range(n):
        s = c.sub('item%d' % k)
        x, f, _ = arb_item(s, m, s.choice('kind', KINDS if not c.symbolic else ['minus one', 'bytes', 'integer']))
        xs.append(x); e = e + f
    r = c.returns('CScript', m.CScript, c.choice('container', (list, tuple))(xs))
    c.eq('encoding', c.raw(r), e)
    if not c.symbolic: c.eq('from an iterator', bytes(m.CScript(iter(xs))), e)

@contract('C18', 'bytes are taken as they are')
def as_is(c):
    m = c.mod(SC)
    b = c.bytes('b')
    s = c.returns('CScript', m.CScript, bytearray(b) if c.choice('bytearray', (False, True)) else b)
    c.eq('bytes', c.raw(s), b)

@contract('C18', 'too long to push', conc=False)
def too_long(c):
    m = c.mod(SC)
    if not c.symbolic: c.unsupported('4 GiB of data')
    d = c.bytes('data', 2**32)
    c.raises('refused', ValueError, m.CScript, [d])

# an item in the middle of a script is read back as itself, and reading continues right after it
@contract('C18', 'items read back', cuts=['CScript.raw_iter#0'], parts=KINDS, models=BN, samples=300)
def read_back(c):
    m = c.mod(SC)
    x, e, back = arb_item(c, m, c.part)
    if c.symbolic:
        head, rest = c.bytes('head'), c.bytes('rest')
        s = m.CScript(head + c.raw(m.CScript([x])) + rest)
        c.steps('CScript.raw_iter#0')
        c.ghost(pos=len(head), next=len(head) + len(e))
        g = s.raw_iter()
        op, data, idx = c.returns('next', next, g)
        c.eq('item', item_of(c, m, (op, data)), back)
        if c.choice('go on', (False, True)): c.catch((m.CScriptInvalidError, StopIteration), next, g)
    else:
        head = [arb_item(c.sub('h%d' % k), m, c.sub('h%d' % k).choice('kind', KINDS)) for k in range(c.choice('before', range(3)))]
        rest = [arb_item(c.sub('r%d' % k), m, c.sub('r%d' % k).choice('kind', KINDS)) for k in range(c.choice('after', range(3)))]
        its = head + [(x, e, back)] + rest
        s = m.CScript([i[0] for i in its])
        c.eq('items', list(s), [i[2] for i in its])
        for a, b in zip(list(s), [i[2] for i in its]): c.check('kind', type(a) is type(b) or isinstance(a, int) and isinstance(b, int) or type(a) is bytes)

@contract('C18', 'opcodes of small numbers')
def encode_n(c):
    m = c.mod(SC)
    n = c.int('n', *(() if c.symbolic else (-3, 20)))
    r, e = c.catch(ValueError, m.CScriptOp.encode_op_n, n)
    ok = c.both(0 <= n, n <= 16)
    if e is None:
        c.check('accepted', ok); c.eq('opcode', int(r), n + 0x50 if c.lt(0, n) else 0); c.eq('back', r.decode_op_n(), n); c.check('small', r.is_small_int())
    else: c.check('refused', c.neg(ok))

@contract('C18', 'small numbers of opcodes')
def decode_n(c):
    m = c.mod(SC)
    op = c.choice('op', range(256)); o = m.CScriptOp(op)
    small = op == 0 or 0x51 <= op <= 0x60
    c.eq('small', bool(o.is_small_int()), small)
    r, e = c.catch(ValueError, o.decode_op_n)
    c.eq('number', r if e is None else None, (op - 0x50 if op else 0) if small else None)

@contract('C18', 'printing a script', sym=False, samples=1500, bounded='sampled')
def printing(c):
    m = c.mod(SC)
    b = some_script(c)
    c.check('text', isinstance(c.returns('repr', repr, m.CScript(b)), str))
