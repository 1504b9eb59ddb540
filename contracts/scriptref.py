"""The script rules: one operation at a time, and whole scripts.

The arithmetic, hashing and signature primitives are taken from an environment E:
 E.num(item) -> integer (raises Fail if it is longer than four bytes), E.enc(int) -> item, E.true(item) -> bool,
 E.hash(name, item) -> item, E.all_true(list of bools) -> bool,
 E.checksig(sig, key, code) -> bool, E.multisig(state, op, code), E.remove(code, sig) -> code"""
from contracts.scriptspec import parse, push

class Fail(Exception):
    pass

DISABLED = frozenset((0x65, 0x66, 0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99))
ONE = b'\x01'

class State:
    """stack, alternate stack, conditions being executed, operations counted, start of the code signatures cover"""
    def __init__(self, stack, alt, cond, count, begin):
        self.stack = stack; self.alt = alt; self.cond = cond; self.count = count; self.begin = begin

def need(st, n):
    if len(st.stack) < n: raise Fail('%d items needed' % n)
def b(E, v): return E.lit(ONE if v else b'')

def step(E, st, op, data, pos):
    """one operation"""
    run = E.all_true(st.cond)
    if op <= 78:
        if len(data) > 520: raise Fail('too large to push')
        if run: st.stack.append(data)
    else:
        if op in DISABLED: raise Fail('disabled')
        if op > 0x60:
            st.count = st.count + 1
            if st.count > 201: raise Fail('too many operations')
        if 0x63 <= op and op <= 0x68: flow(E, st, op, run)
        elif run: execute(E, st, op, pos)
    if len(st.stack) + len(st.alt) > 1000: raise Fail('too many items')

def flow(E, st, op, run):
    if op == 0x63 or op == 0x64:            # IF NOTIF
        v = False
        if run:
            need(st, 1)
            v = E.true(st.stack.pop())
            if op == 0x64: v = not v
        st.cond.append(v)
    elif op == 0x67:                        # ELSE
        if len(st.cond) == 0: raise Fail('no IF')
        st.cond.append(not st.cond.pop())
    elif op == 0x68:                        # ENDIF
        if len(st.cond) == 0: raise Fail('no IF')
        st.cond.pop()

UNARY = {0x8b: lambda a: a + 1, 0x8c: lambda a: a - 1, 0x8f: lambda a: -a, 0x90: lambda a: a if a >= 0 else -a,
         0x91: lambda a: 1 if a == 0 else 0, 0x92: lambda a: 0 if a == 0 else 1}
BINARY = {0x93: lambda a, b: a + b, 0x94: lambda a, b: a - b,
          0x9a: lambda a, b: 1 if a != 0 and b != 0 else 0, 0x9b: lambda a, b: 1 if a != 0 or b != 0 else 0,
          0x9c: lambda a, b: 1 if a == b else 0, 0x9d: lambda a, b: 1 if a == b else 0, 0x9e: lambda a, b: 1 if a != b else 0,
          0x9f: lambda a, b: 1 if a < b else 0, 0xa0: lambda a, b: 1 if a > b else 0,
          0xa1: lambda a, b: 1 if a <= b else 0, 0xa2: lambda a, b: 1 if a >= b else 0,
          0xa3: lambda a, b: a if a < b else b, 0xa4: lambda a, b: a if a > b else b}
HASHES = {0xa6: 'ripemd160', 0xa7: 'sha1', 0xa8: 'sha256', 0xa9: 'hash160', 0xaa: 'hash256'}

def take(st, n):
    """the top n items, the deepest first"""
    need(st, n)
    out = [st.stack.pop() for k in range(n)]
    out.reverse()
    return out
def put(st, *items):
    for x in items: st.stack.append(x)

def execute(E, st, op, pos):
    if op == 0x4f or 0x51 <= op and op <= 0x60: put(st, E.enc(op - 0x50))
    elif op == 0x61 or 0xb0 <= op and op <= 0xb9: pass
    elif op == 0x69:                        # VERIFY
        (x,) = take(st, 1)
        if not E.true(x): raise Fail('VERIFY')
    elif op == 0x6a: raise Fail('RETURN')
    elif op == 0x6b:                        # TOALTSTACK
        (x,) = take(st, 1); st.alt.append(x)
    elif op == 0x6c:                        # FROMALTSTACK
        if len(st.alt) == 0: raise Fail('empty altstack')
        put(st, st.alt.pop())
    elif op == 0x6d: take(st, 2)            # 2DROP
    elif op == 0x6e: x, y = take(st, 2); put(st, x, y, x, y)
    elif op == 0x6f: x, y, z = take(st, 3); put(st, x, y, z, x, y, z)
    elif op == 0x70: w, x, y, z = take(st, 4); put(st, w, x, y, z, w, x)
    elif op == 0x71: u, v, w, x, y, z = take(st, 6); put(st, w, x, y, z, u, v)
    elif op == 0x72: w, x, y, z = take(st, 4); put(st, y, z, w, x)
    elif op == 0x73:                        # IFDUP
        (x,) = take(st, 1); put(st, x)
        if E.true(x): put(st, x)
    elif op == 0x74: put(st, E.enc(len(st.stack)))
    elif op == 0x75: take(st, 1)
    elif op == 0x76: (x,) = take(st, 1); put(st, x, x)
    elif op == 0x77: x, y = take(st, 2); put(st, y)
    elif op == 0x78: x, y = take(st, 2); put(st, x, y, x)
    elif op == 0x79 or op == 0x7a:          # PICK ROLL
        need(st, 2)
        n = E.num(st.stack.pop())
        size = len(st.stack)
        if n < 0 or n >= size: raise Fail('out of range')
        x = st.stack[size - 1 - n]
        if op == 0x7a: del st.stack[size - 1 - n]
        put(st, x)
    elif op == 0x7b: x, y, z = take(st, 3); put(st, y, z, x)
    elif op == 0x7c: x, y = take(st, 2); put(st, y, x)
    elif op == 0x7d: x, y = take(st, 2); put(st, y, x, y)
    elif op == 0x82: (x,) = take(st, 1); put(st, x, E.enc(len(x)))
    elif op == 0x87 or op == 0x88:          # EQUAL EQUALVERIFY
        x, y = take(st, 2)
        if x == y:
            if op == 0x87: put(st, b(E, True))
        elif op == 0x87: put(st, b(E, False))
        else: raise Fail('EQUALVERIFY')
    elif op in UNARY:
        (x,) = take(st, 1)
        put(st, E.enc(UNARY[op](E.num(x))))
    elif op in BINARY:
        x, y = take(st, 2)
        v = BINARY[op](E.num(x), E.num(y))
        if op != 0x9d: put(st, E.enc(v))
        elif v == 0: raise Fail('NUMEQUALVERIFY')
    elif op == 0xa5:                        # WITHIN
        x, lo, hi = take(st, 3)
        x, lo, hi = E.num(x), E.num(lo), E.num(hi)
        put(st, b(E, lo <= x and x < hi))
    elif op in HASHES:
        (x,) = take(st, 1); put(st, E.hash(HASHES[op], x))
    elif op == 0xab: st.begin = pos
    elif op == 0xac or op == 0xad:          # CHECKSIG
        sig, key = take(st, 2)
        ok = E.checksig(sig, key, E.remove(E.code(st.begin), sig))
        if op == 0xac: put(st, b(E, ok))
        elif not ok: raise Fail('CHECKSIGVERIFY')
    elif op == 0xae or op == 0xaf: E.multisig(st, op, E.code(st.begin))
    else: raise Fail('no such operation')

def multisig(E, st, op, code):
    """CHECKMULTISIG: dummy sig... n key... m"""
    need(st, 1)
    nk = E.num(st.stack.pop())
    if nk < 0 or nk > 20: raise Fail('number of keys')
    st.count = st.count + nk
    if st.count > 201: raise Fail('too many operations')
    need(st, nk + 1)
    keys = [st.stack.pop() for k in range(nk)]
    ns = E.num(st.stack.pop())
    if ns < 0 or ns > nk: raise Fail('number of signatures')
    need(st, ns + 1)
    sigs = [st.stack.pop() for k in range(ns)]
    st.stack.pop()
    for s in sigs: code = E.remove(code, s)
    # the signatures must be found among the keys, in order
    def match(i, j):
        if i == len(sigs): return True
        if len(sigs) - i > len(keys) - j: return False
        if E.checksig(sigs[i], keys[j], code): return match(i + 1, j + 1)
        return match(i, j + 1)
    ok = match(0, 0)
    if op == 0xae: put(st, b(E, ok))
    elif not ok: raise Fail('CHECKMULTISIGVERIFY')

def evaluate(E, stack, script):
    """evaluates a whole script on a stack (in place)"""
    if len(script) > 10000: raise Fail('too long')
    st = State(stack, [], [], 0, 0)
    ops, whole = parse(script)
    for op, data, pos in ops: step(E, st, op, data, pos)
    if not whole: raise Fail('ends inside a push')
    if st.cond: raise Fail('unterminated IF')

# ---------------------------------------------------------------- primitives on plain bytes
def number(x):
    """value of a little-endian sign-magnitude number"""
    v = int.from_bytes(x, 'little')
    if x and x[-1] & 0x80: v = -(v - (1 << (8 * len(x) - 1)))
    return v
def number_form(v):
    if v == 0: return b''
    a = abs(v); n = (a.bit_length() + 8) // 8
    return (a | (1 << (8 * n - 1)) if v < 0 else a).to_bytes(n, 'little')
def truth_of(x):
    """anything but zero, of either sign"""
    return x.rstrip(b'\0') != b'' and not (x[-1] == 0x80 and x[:-1].rstrip(b'\0') == b'')
def remove(code, op):
    """the script without the operations that are written `op`"""
    out = b''; at = 0
    ops, whole = parse(code)
    starts = [o[2] for o in ops]
    for k, p in enumerate(starts):
        if k + 1 < len(starts): end = starts[k + 1]
        else:
            # the last operation that is complete
            d = ops[k][1]
            end = p + 1 if ops[k][0] > 78 else p + 1 + {76: 1, 77: 2, 78: 4}.get(ops[k][0], 0) + len(d)
        if code[p:end] != op: out += code[p:end]
        at = end
    return out + code[at:]

class Plain:
    """the primitives on plain bytes; sigcheck(sig without its last byte, key, code, hash type) -> bool"""
    def __init__(self, script, sigcheck): self.script = script; self.sigcheck = sigcheck
    def lit(self, x): return x
    def num(self, x):
        if len(x) > 4: raise Fail('number too long')
        return number(x)
    def enc(self, v): return number_form(v)
    def true(self, x): return truth_of(x)
    def all_true(self, l): return all(l)
    def hash(self, name, x):
        import hashlib
        h = lambda n, y: hashlib.new(n, y).digest()
        if name == 'hash160': return h('ripemd160', h('sha256', x))
        if name == 'hash256': return h('sha256', h('sha256', x))
        return h(name, x)
    def code(self, begin): return self.script[begin:]
    def remove(self, code, sig): return remove(code, push(sig))
    def checksig(self, sig, key, code):
        if len(sig) == 0: return False
        return self.sigcheck(sig[:-1], key, code, sig[-1])
    def multisig(self, st, op, code): multisig(self, st, op, code)
