"""The functions of libcrypto that bitcoin.core.key calls, by the contracts their manual gives (assumed)."""
import types
from . import core, sym
from .core import cur, Unsupported
from .sym import *

class Whole:
    """what a pointer points to"""
    def __init__(self, **kw): self.__dict__.update(kw)
class Bare:
    """a pointer as a python integer: passed on as it is, it loses its upper half"""
    def __init__(self, p): self.p = p
class Ref:
    def __init__(self, o): self.o = o
class Buf:
    def __init__(self, x):
        if is_intlike(x): self.data = VBytes._mk(VBytes._conv(x))
        else: self.data = to_vbytes(x) + VBytes._lit((0,))
    @property
    def raw(self): return self.data
    def __len__(self): return concretize(self.data.length())
class UInt:
    def __init__(self, v=0): self.value = v
def need(what, cond): cur().check('libcrypto: ' + what, zb(cond))

class Fn:
    def __init__(self, name, f, pointer): self.name = name; self.f = f; self.pointer = pointer; self.restype = None; self.errcheck = None; self.argtypes = None
    def __call__(self, *args):
        for a in args:
            if type(a) is Bare: need('%s is given whole pointers' % self.name, False)
        r = self.f(*args)
        if self.pointer:
            if self.restype is None: need('the result of %s is a whole pointer' % self.name, False)
            r = 0 if r is None else Bare(r)
        if self.errcheck is not None: r = self.errcheck(r, self, args)
        return r

class Model:
    """one state per path: what the opaque functions gave so far"""
    def __init__(self): self.points = []; self.encodings = []; self.verdicts = []; self.last = None
    # arbitrary but fixed functions
    def point(self, b):
        """(is it a point, the point) of an encoding"""
        for pt, form, e in self.encodings:
            if truth(rope_eq(e, b)): return True, pt
        for e, ok, pt in self.points:
            if truth(rope_eq(e, b)): return ok, pt
        ok = SBool(z3.Bool(cur().fresh('point'))); pt = Whole(); self.points.append((b, ok, pt)); return ok, pt
    def times(self, s):
        for t, pt in cur().aux.setdefault('times', []):
            if truth(rope_eq(t, s)): return pt
        pt = Whole(); cur().aux['times'].append((s, pt)); return pt
    def encoding(self, pt, form):
        for p, f, e in self.encodings:
            if p is pt and f == form: return e
        e = VBytes._mk((Sub(SymBase(cur().fresh('encoded')), 0, 33 if form == 2 else 65),))
        self.encodings.append((pt, form, e)); return e
    def verdict(self, pt, h, s):
        """1: the signature verifies, 0: it does not, -1: it could not be tried"""
        for p, a, b, r in self.verdicts:
            if p is pt and truth(rope_eq(a, h)) and truth(rope_eq(b, s)): return r
        t = cur().fresh_int('verdict'); cur().add(z3.And(t >= -1, t <= 1)); r = SInt(t, -1, 1)
        self.verdicts.append((pt, h, s, r)); return r
def model():
    p = cur()
    if 'openssl' not in p.aux: p.aux['openssl'] = Model(); p.assumptions.add('libcrypto behaves as its manual says (engine/openssl.py)')
    return p.aux['openssl']

def taken(b, n, what):
    b = to_vbytes(b) if not isinstance(b, Buf) else b.data
    need('%s is within its buffer' % what, zand(zb(n >= 0), zb(n <= b.length()))); return b[:n]
def _new(nid): need('the curve', nid == 714); return Whole(priv=None, pub=None, form=4, freed=False)
def _free(k):
    if k is not None and type(k) is Whole: k.freed = True
def alive(k):
    if type(k) is Ref: k = k.o
    if k.freed: need('the key has not been freed', False)
    return k
def _out(k, b, n):
    k = alive(k); b = taken(b.o.o, n, 'a public key'); ok, pt = model().point(b)
    if truth(ok): k.pub = pt; return 1
    return 0
def _in(k, b):
    k = alive(k)
    if k.pub is None: return 0
    e = model().encoding(k.pub, k.form)
    if b is None or is_intlike(b): return e.length()
    buf = b.o.o
    need('the public key fits its buffer', e.length() <= buf.data.length()); buf.data = e + buf.data[e.length():]; return e.length()
def _verify(t, h, n, s, m, k):
    k = alive(k); h = taken(h, n, 'a hash'); s = taken(s, m, 'a signature')
    if k.pub is None: return -1
    return model().verdict(k.pub, h, s)
def _size(k): alive(k); return SInt(model_size(), 8, 80)
def model_size():
    m = model()
    if not hasattr(m, 'size'): m.size = cur().fresh_int('size'); cur().add(z3.And(m.size >= 8, m.size <= 80))
    return m.size
def _sign(t, h, n, buf, size, k):
    k = alive(k); h = taken(h, n, 'a hash'); need('the signature fits its buffer', buf.data.length() >= SInt(model_size(), 8, 80))
    if k.priv is None: return 0
    m = model(); l = cur().fresh_int('siglen'); cur().add(z3.And(l >= 8, l <= model_size()))
    s = VBytes._mk((Sub(SymBase(cur().fresh('signature')), 0, SInt(l, 8, 80)),))
    r = m.verdict(m.times(k.priv), h, s); cur().add(zt(r) == 1)
    size.o.value = SInt(l, 8, 80); buf.data = s + buf.data[s.length():]; m.last = (h, s); return 1
def _bin(s, n, bn):
    bn.v = taken(s, n, 'a number'); return bn
def _mul(g, r, n, q, m, ctx):
    if q is not None or m is not None or not isinstance(g, Whole): raise Unsupported('EC_POINT_mul')
    r.pt = model().times(n.v); return 1
def _setpriv(k, n): alive(k).priv = n.v; return 1
def _setpub(k, p): alive(k).pub = p.pt; return 1
def _form(k, f): alive(k).form = f
def _group(k): alive(k); return Whole()
FUNCS = dict(EC_KEY_new_by_curve_name=(_new, 1), EC_KEY_free=(_free, 0), o2i_ECPublicKey=(_out, 0), i2o_ECPublicKey=(_in, 0), ECDSA_verify=(_verify, 0), ECDSA_size=(_size, 0), ECDSA_sign=(_sign, 0),
             BN_new=(lambda: Whole(v=None), 1), BN_bin2bn=(_bin, 1), BN_CTX_new=(lambda: Whole(), 1), EC_KEY_get0_group=(_group, 1), EC_POINT_new=(lambda g: Whole(pt=None), 1), EC_POINT_mul=(_mul, 0),
             EC_KEY_set_private_key=(_setpriv, 0), EC_KEY_set_public_key=(_setpub, 0), EC_POINT_free=(lambda p: None, 0), BN_CTX_free=(lambda c: None, 0), BN_free=(lambda b: None, 0), BN_clear_free=(lambda b: None, 0), EC_KEY_set_conv_form=(_form, 0))
class Lib:
    def __init__(self):
        for n, (f, p) in FUNCS.items(): setattr(self, n, Fn(n, f, p))
    def __getattr__(self, n):
        def missing(*a): raise Unsupported('libcrypto: %s' % n)
        f = Fn(n, missing, n == 'EC_KEY_get0_public_key'); setattr(self, n, f); return f

def mk_ctypes():
    m = types.ModuleType('ctypes'); lib = Lib()
    m.cdll = types.SimpleNamespace(LoadLibrary=lambda n: lib); m.CDLL = lambda n: lib
    m.util = types.SimpleNamespace(find_library=lambda n: n)
    m.create_string_buffer = Buf; m.byref = Ref; m.pointer = Ref; m.c_uint32 = m.c_uint = m.c_int = UInt
    def c_void_p(v=None): return v.p if type(v) is Bare else v
    m.c_void_p = c_void_p
    return m
def install(world):
    """bitcoin.core.key itself, over the model"""
    if getattr(world, 'openssl', None): return
    world.openssl = True
    c = mk_ctypes(); world.shims['ctypes'] = c; world.shims['ctypes.util'] = c
    old = world.modules.pop('bitcoin.core.key', None)
    m = world.load('bitcoin.core.key', real=True)
    for x in list(world.modules.values()):
        for n, v in list(vars(x).items()):
            if v is old and old is not None: setattr(x, n, m)
            elif n == 'CPubKey' and v is getattr(old, 'CPubKey', 0): setattr(x, n, m.CPubKey)
