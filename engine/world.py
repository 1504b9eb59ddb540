"""Loads the code under verification from its current source, with a mechanical,
semantics-preserving instrumentation (see DESIGN.md for the exact list)."""
import ast, builtins, sys, os, types, functools, importlib
from . import core, sym, loops
from .core import Unsupported, cur
from .sym import *

REPO = os.environ.get('VF_REPO', '/repo')
ROOTS = [os.path.join(REPO, 'lib/python-bitcoinlib'), os.path.join(REPO, 'lib/python-proofmarshal'), REPO]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BULK = '\0bulk'       # key of a dict under which a function stands for the values of arbitrarily many keys

# ------------------------------------------------------------ AST rewriting
CALLS = {'int', 'list', 'tuple', 'set', 'frozenset', 'range', 'enumerate', 'zip', 'reversed', 'bytearray',
         'iter', 'next', 'map', 'filter', 'type', 'bool', 'str', 'isinstance', 'dict', 'hasattr', 'getattr', 'float'}

def name(id, ctx=None): return ast.Name(id=id, ctx=ctx or ast.Load())
def call(f, *args): return ast.Call(func=name(f), args=list(args), keywords=[])

class Locals(ast.NodeVisitor):
    """names stored in a statement list, not descending into nested scopes"""
    def __init__(self): self.names = set(); self.skip = set()
    def visit_FunctionDef(self, n): self.names.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.names.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.names.add(n.id)
    def visit_Global(self, n): self.skip.update(n.names)
    visit_Nonlocal = visit_Global
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
    def visit_Import(self, n):
        for a in n.names: self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

def stored_names(stmts):
    v = Locals()
    for s in stmts: v.visit(s)
    return v.names - v.skip

class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.scope = []          # ('func'|'class', name)
        self.fn = []             # per function: dict(n=loop counter, locals=set)
        self.shadow = set()
        self.uid = 0
        self.module = None
    # scopes
    def qual(self):
        out = []
        for kind, nm in self.scope:
            out.append(nm)
            if kind == 'func' : out.append('<locals>')
        if out and out[-1] == '<locals>': out.pop()
        return '.'.join(out)
    def short(self):
        """qualified name without the enclosing functions"""
        names = []
        for kind, nm in self.scope: names.append((kind, nm))
        # drop everything up to the last function that encloses a class
        cut = 0
        for i, (k, _) in enumerate(names[:-1]):
            if k == 'func' and any(kk == 'class' for kk, _ in names[i+1:]): cut = i + 1
        return '.'.join(nm for _, nm in names[cut:])
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        self.scope.append(('func', n.name))
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: params.add(a.vararg.arg)
        if a.kwarg: params.add(a.kwarg.arg)
        self.fn.append({'n': 0, 'locals': params | stored_names(n.body)})
        q = self.short()
        body = []
        for i, s in enumerate(n.body):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                body.append(s); continue
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body + ([] if body else [ast.Pass()])
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        if a.vararg: n.body.insert(k, ast.Assign([ast.Name(a.vararg.arg, ast.Store())], call('vf_varargs', name(a.vararg.arg))))
        if self.module and not self.module.startswith('contracts'): n.body.insert(k, ast.Expr(call('vf_enter', ast.Constant(self.module + ':' + q))))
        if delegates(n.body): n.decorator_list.append(name('vf_generator'))
        # annotations are dropped
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]: x.annotation = None
        self.fn.pop(); self.scope.pop()
        return n
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scope.append(('class', n.name))
        fn, self.fn = self.fn, []
        body = []
        for s in n.body:
            r = self.visit(s); body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.fn = fn
        self.scope.pop()
        return n
    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        fn = self.fn; self.fn = fn + [{'n': 0, 'locals': set()}]
        n.body = self.visit(n.body)
        self.fn = fn
        return n
    # expressions
    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        n.value = call('vf_yield_from', n.value)
        return n
    def visit_Constant(self, n):
        if isinstance(n.value, bytes): return call('vf_b', n)
        return n
    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue): v.value = self.visit(v.value)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            if isinstance(op, ast.In): return call('vf_in', n.left, n.comparators[0])
            if isinstance(op, ast.NotIn): return call('vf_notin', n.left, n.comparators[0])
            if isinstance(op, ast.Is): return call('vf_is', n.left, n.comparators[0])
            if isinstance(op, ast.IsNot): return ast.UnaryOp(ast.Not(), call('vf_is', n.left, n.comparators[0]))
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return call('vf_mod', n.left, n.right)
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call('vf_getitem', n.value, self.slice(n.slice))
        return n
    def slice(self, s):
        if isinstance(s, ast.Slice):
            return call('vf_slice', *[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)])
        return s
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn: return call('vf_list', n)
        return n
    def _comp(self, n, elt):
        """(fn, iter, cond, unpack) or None"""
        if len(n.generators) != 1: return None
        g = n.generators[0]
        if isinstance(g.target, ast.Name): params, unpack = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            params, unpack = [e.id for e in g.target.elts], True
        else: return None
        for sub in ast.walk(elt):
            if isinstance(sub, (ast.Yield, ast.YieldFrom, ast.NamedExpr)): return None
        def lam(body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=body)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return call('vf_gen', lam(elt), g.iter, cond, ast.Constant(unpack))
    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        if not self.fn: return n
        return self._comp(n, n.elt) or n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.fn: return n
        c = self._comp(n, n.elt)
        return call('vf_listcomp', c) if c is not None else call('vf_list', n)
    def visit_SetComp(self, n):
        self.generic_visit(n)
        c = self._comp(n, n.elt)
        return call('vf_c_set', c) if c is not None and self.fn else n
    def visit_Set(self, n):
        self.generic_visit(n)
        return call('vf_c_set', ast.List(n.elts, ast.Load()))
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        for a in n.args:
            if isinstance(a, ast.Starred): a.value = call('vf_star', a.value)
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.shadow:
            f.id = 'vf_c_' + f.id
        elif isinstance(f, ast.Attribute):
            if f.attr in ('encode', 'to_bytes', 'join', 'indices', 'update', 'index') :
                n.args = [f.value] + n.args; n.func = name('vf_m_' + f.attr)
            elif f.attr == 'from_bytes' and isinstance(f.value, ast.Name) and f.value.id == 'int':
                n.func = name('vf_int_from_bytes')
            elif f.attr == 'fromkeys' : pass
        return n
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None: n.type = name('Exception')
        elif isinstance(n.type, ast.Name) and n.type.id == 'BaseException': n.type = name('Exception')
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if k:
                n.value = call('vf_unstar', n.value, ast.Constant(k[0]), ast.Constant(len(t.elts) - k[0] - 1))
                t.elts[k[0]] = t.elts[k[0]].value
        return n
    # loops
    def _breaks(self, stmts, flag):
        """replace the breaks of this loop by: flag = False; break"""
        out = []
        for s in stmts:
            if isinstance(s, ast.Break):
                out.append(ast.Assign([name(flag, ast.Store())], ast.Constant(False))); out.append(s)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.append(s)
            elif isinstance(s, (ast.For, ast.While)) :
                s.orelse = self._breaks(s.orelse, flag); out.append(s)
            else:
                for fld in ('body', 'orelse', 'finalbody'):
                    if hasattr(s, fld): setattr(s, fld, self._breaks(getattr(s, fld), flag))
                if hasattr(s, 'handlers'):
                    for h in s.handlers: h.body = self._breaks(h.body, flag)
                out.append(s)
        return out
    def _loop(self, n, is_for):
        fn = self.fn[-1]
        key = '%s#%d' % (self.short(), fn['n']); fn['n'] += 1
        self.uid += 1; u = self.uid
        L, D, X = 'vf_L%d' % u, 'vf_d%d' % u, 'vf_x%d' % u
        stored = stored_names(n.body) | (stored_names([n.target]) if is_for else set())
        if not is_for:
            for w in ast.walk(n.test):
                if isinstance(w, ast.NamedExpr): stored.add(w.target.id)
        # breaks must be rewritten before nested loops turn into `while True`
        body = self._breaks(n.body, X) if n.orelse else n.body
        newbody = []
        for s in body:
            r = self.visit(s); newbody.extend(r if isinstance(r, list) else [r])
        orelse = []
        for s in n.orelse:
            r = self.visit(s); orelse.extend(r if isinstance(r, list) else [r])
        it = self.visit(n.iter) if is_for else ast.Constant(None)
        head = [ast.Assign([name(D, ast.Store())], ast.Call(ast.Attribute(name(L), 'step', ast.Load()),
                                                          [call('vf_locals')], []))]
        restore = []
        for v in sorted(fn['locals']):
            restore.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [name(D)]),
                [ast.Assign([name(v, ast.Store())], ast.Subscript(name(D), ast.Constant(v), ast.Load()))], []))
        if restore: head.append(ast.If(name(D), restore, []))
        if is_for:
            head.append(ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(name(L), 'has_next', ast.Load()), [], [])),
                               [ast.Break()], []))
            head.append(ast.Assign([n.target], ast.Call(ast.Attribute(name(L), 'next', ast.Load()), [], [])))
        else:
            t = self.visit(n.test)
            if not (isinstance(t, ast.Constant) and t.value is True or isinstance(t, ast.Constant) and t.value == 1):
                head.append(ast.If(ast.UnaryOp(ast.Not(), t), [ast.Break()], []))
        pre = [ast.Assign([name(L, ast.Store())], call('vf_loop', ast.Constant(key), it,
                    ast.Constant(tuple(sorted(stored))), ast.Constant(is_for)))]
        post = []
        if orelse:
            pre.append(ast.Assign([name(X, ast.Store())], ast.Constant(True)))
            post.append(ast.If(name(X), orelse, []))
        return pre + [ast.While(ast.Constant(True), head + newbody, [])] + post
    def visit_For(self, n):
        if not self.fn: self.generic_visit(n); return n
        return self._loop(n, True)
    def visit_While(self, n):
        if not self.fn: self.generic_visit(n); return n
        return self._loop(n, False)

def delegates(body):
    """whether a function body contains `yield from`, nested functions aside"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.YieldFrom): return True
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): todo.extend(ast.iter_child_nodes(x))
    return False

def instrument(src, filename, module=None):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, filename)
    r = Rewriter(); r.module = module
    # a module-level definition shadowing a builtin keeps its meaning
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name in CALLS: r.shadow.add(node.name)
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store) and node.id in CALLS: r.shadow.add(node.id)
        if isinstance(node, ast.arg) and node.arg in CALLS: r.shadow.add(node.arg)
    body = []
    for i, s in enumerate(tree.body):
        x = r.visit(s); body.extend(x if isinstance(x, list) else [x])
    tree.body = body
    ast.fix_missing_locations(tree)
    class Fix(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'vf_locals': n.func.id = 'locals'
            return n
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return compile(Fix().visit(tree), filename, 'exec')

# ------------------------------------------------------------ hooks
_bcache = {}
def vf_b(b):
    v = _bcache.get(b)
    if v is None: v = _bcache[b] = VBytes._lit(b)
    return v

def vf_in(x, c):
    if type(c) in (SList,): return list_contains(c, x)
    if type(c) is SSet: return c.contains(x)
    if isinstance(c, (VBytes, VByteArray)): return contains_bytes(c if isinstance(c, VBytes) else c._b(), x)
    if symbolic(x):
        if isinstance(c, dict): return list_contains([k for k in c if comparable(k, x)], x)
        if isinstance(c, (list, tuple, set, frozenset)): return list_contains(list(c), x)
        if isinstance(c, range): return mkbool(zand(x >= c.start, x < c.stop)) if c.step == 1 else list_contains(list(c), x)
        if type(c) is str and type(x) is VStr and len(x.c) == 1 and type(x.c[0]) is SInt and x.c[0].src and x.c[0].src[:2] == ('char', c): return True
        if isinstance(c, str): return list_contains(list(c), x) if type(x) is VStr and len(x.c) == 1 else (_ for _ in ()).throw(Unsupported('str in'))
        if type(c) is VStr: raise Unsupported('in symbolic string')
    elif isinstance(c, (list, tuple)) and any(symbolic(e) for e in c): return list_contains(list(c), x)
    return x in c
def comparable(k, x):
    if isinstance(x, VBytes): return isinstance(k, VBytes)
    if type(x) is VStr: return isinstance(k, str)
    return is_intlike(k) if is_sym(x) else True
def vf_notin(x, c):
    r = vf_in(x, c)
    return mkbool(znot(r)) if is_sym(r) else not r

def symbolic(x):
    t = type(x)
    if t in (SInt, SBool, VStr): return True
    if isinstance(x, VBytes): return not x.is_const()
    if t is SList: return True
    if t is tuple: return any(symbolic(e) for e in x)
    return False

def vf_is(a, b):
    if a is b: return True
    ta, tb = type(a), type(b)
    if ta is SBool and (b is True or b is False): return mkbool(a.e if b else znot(a))
    if tb is SBool and (a is True or a is False): return mkbool(b.e if a else znot(b))
    if ta is SInt or tb is SInt:
        if a is None or b is None or isinstance(a, type) or isinstance(b, type): return False
        raise Unsupported('identity of integers')
    return False

def vf_mod(a, b):
    if isinstance(a, str):
        if type(a) is VStr: raise Unsupported('formatting')
        if a == '%x' and type(b) is SInt: return sym.hex_of_int(b)
        if has_sym(b): return fmt(a, b)
        return a % b
    return a % b
def has_sym(b):
    if isinstance(b, tuple): return any(has_sym(x) for x in b)
    return type(b) in (SInt, SBool, VStr, VText, SList, VHex, VDec, SFloat) or isinstance(b, (VBytes, VByteArray))
class Txt(str):
    """the text of a message built from symbolic values"""
def fmt(a, b):
    return Txt('<formatted: %s>' % a.replace('%', '%%'))

def vf_slice(a, b, c): return slice(a, b, c)

def vf_getitem(a, i):
    ta = type(a)
    if isinstance(i, slice) and ta in (list, tuple, str, builtins.bytes) and any(is_sym(v) for v in (i.start, i.stop, i.step)):
        if ta in (list, tuple): return SList(tuple(a), kind=ta)[i]
        if ta is builtins.bytes: return VBytes._lit(a)[i]
        return VStr.of(a)[slice(*[None if v is None else concretize(v) for v in (i.start, i.stop, i.step)])]
    if is_sym(i):
        if ta in (list, tuple):
            n = len(a)
            if truth(i < 0): i = i + n
            if not truth(zand(i >= 0, i < n)): raise IndexError('%s index out of range' % ta.__name__)
            if all(type(e) is int for e in a) and a:
                t = z3.IntVal(a[-1])
                for k in range(n - 2, -1, -1): t = z3.If(zt(i) == k, z3.IntVal(a[k]), t)
                return mk(t, min(a), max(a))
            return a[concretize(mk(zt(i), 0, n - 1))]
        if isinstance(a, str) and ta is not VStr:
            n = len(a)
            if truth(i < 0): i = i + n
            if not truth(zand(i >= 0, i < n)): raise IndexError('string index out of range')
            return str_char(a, i)
        if ta is builtins.bytes: return VBytes._lit(a)[i]
    if ta is dict and BULK in a and i not in a: return a[BULK](i)
    if isinstance(a, dict) and symbolic(i):
        for k in a:
            if comparable(k, i) and truth(k == i): return a[k]
        if hasattr(ta, '__missing__'): return a.__missing__(i)
        raise KeyError(i)
    if ta is VStr and is_sym(i):
        n = len(a.c)
        if truth(i < 0): i = i + n
        if not truth(zand(i >= 0, i < n)): raise IndexError('string index out of range')
        return a[concretize(mk(zt(i), 0, n - 1))]
    return a[i]

def vf_list(l): return SList(tuple(l))

class Chunk:
    """what a generator yields for all the elements of a sequence of symbolic length"""
    def __init__(self, l): self.l = l
class VGen:
    """a generator that delegates to others"""
    def __init__(self, g): self.g = g; self.pending = None; self.pos = 0
    def __iter__(self): return self
    def __next__(self):
        while True:
            if self.pending is not None:
                if truth(self.pos < self.pending.length()):
                    self.pos += 1
                    if self.pos > 2000: raise Unsupported('iteration over a symbolic sequence')
                    return self.pending[self.pos - 1]
                self.pending = None
            v = next(self.g)
            if type(v) is not Chunk: return v
            self.pending = v.l; self.pos = 0
    def raw(self):
        if self.pending is not None: yield Chunk(self.pending[self.pos:]); self.pending = None
        yield from self.g
    def whole(self):
        """the list of what is left"""
        out = []; lits = []
        for v in self.raw():
            if type(v) is Chunk:
                if lits: out.append(Lit(lits)); lits = []
                out.extend(v.l.segs)
            else: lits.append(v)
        if lits: out.append(Lit(lits))
        return SList(segs=sym._norm(tuple(out)), kind=tuple)
    def send(self, v):
        if v is None: return next(self)
        raise Unsupported('generator.send')
    def throw(self, *a): return self.g.throw(*a)
    def close(self): self.g.close()
sym.VGen = VGen
def vf_generator(f):
    import functools
    @functools.wraps(f)
    def g(*a, **k): return VGen(f(*a, **k))
    return g
def vf_yield_from(x):
    x = own_iter(x)
    if type(x) is VGen: return x.raw()
    if isinstance(x, SIter) and is_sym(x.n) and x.pos == 0 and x.end is None: x = x.to_slist()
    if type(x) is SList and not x.native(): return iter((Chunk(x),))
    return loops.sym_iter(x)

class GenObj(SIter):
    """a generator expression over a symbolic sequence"""
    parts = None
    def to_slist(self):
        if self.parts is None: return SIter.to_slist(self)
        return SList(kind=tuple, segs=self.parts)

def vf_gen(fn, it, cond, unpack):
    it = own_iter(it)
    call1 = (lambda x: fn(*x)) if unpack else fn
    condf = None if cond is None else ((lambda x: cond(*x)) if unpack else cond)
    src = end = None
    if type(it) in (SList, VByteArray) or plain_bytes(it): src = (it.length(), it.__getitem__)
    elif isinstance(it, SIter) and it.pos == 0: src = (it.n, it.at); end = it.end
    if src is not None and is_sym(src[0]) and not (src[0].hi is not None and src[0].hi <= 64):
        if condf is not None: raise Unsupported('filtered comprehension over a symbolic sequence')
        n, at = src
        p = cur()
        def make(i, strict=False):
            try: return call1(at(i))
            except Exception:
                if strict: raise
                raise core.Infeasible()
        get = sym.ElemCache(make)
        # on an arbitrary element, does it return that very element without a case distinction?
        w = p.fresh_nat('w', 0)
        pos, nf = p.pos, len(p.facts)
        same = False
        if type(it) is SList and len(it.segs) == 1 and type(it.segs[0]) is Sub:
            try:
                p.nofork += 1
                e = it.segs[0].base.at(w); same = is_obj(e) and call1(e) is e
            except Exception: pass
            except (Unsupported, core.NoFork): pass
            finally: p.nofork -= 1
        if same:
            if type(it) is SList: return it if it.kind is tuple else it.copy(tuple)
            return SIter(n, at, end)
        total = getattr(fn, 'vf_total', False) or p.choose(2) == 0
        if total and p.aux.get('by_parts') and type(it) is SList and len(it.segs) > 1:
            # the elements that are given are mapped now
            g = GenObj(n, None, end); g.parts = []
            def mapped(s):
                def one(i):
                    try: return call1(s.at(i))
                    except Exception: raise core.Infeasible()
                return sym.Sub(sym.GenBase(sym.ElemCache(one)), 0, s.n)
            for s in it.segs:
                if type(s) is sym.Lit: g.parts.append(sym.Lit(tuple(call1(x) for x in s.v)))
                else: g.parts.append(mapped(s))
            g.at = lambda i: sym.seg_at(g.parts, i)
            return g
        if total: return GenObj(n, get, end)
        # some element raises: exhibit it
        w = p.fresh_nat('w', 0)
        p.assume_checked(z3.And(w.t >= 0, w.t < zt(n)))
        get(w, True)
        raise core.PathStop()
    def gen():
        for x in (loops.sym_iter(it)):
            if condf is None or truth(condf(x)): yield call1(x)
    return gen()

def is_obj(e): return not isinstance(e, (int, builtins.bytes, str)) and not is_sym(e) and not plain_bytes(e)

def vf_listcomp(g):
    if type(g) is SList: return g.copy(list)
    if isinstance(g, SIter): return SList(segs=g.to_slist().segs)
    return SList(tuple(g))

def vf_c_int(x=0, *a):
    if a:
        if type(x) is VHex and tuple(a) == (16,) and x.pre in ('0x', '0x0', '0X0', '0') and not x.skip:
            v = sym.be_value(x.b)
            if v is not None: return v
        if type(x) in (VStr, VHex, VText) or isinstance(x, (VBytes, VByteArray)): raise Unsupported('int(text, base)')
        return int(x, *a)
    if type(x) is SInt: return x
    if type(x) is SBool: return mk(term(x), 0, 1)
    if type(x) is VDec: return x.trunc()
    if isinstance(x, VBytes): return int(x.const())
    return int(x)
def vf_c_float(x=0.0): return to_float(x)
def vf_c_bool(x=False):
    return truth(x) if type(x) in (SInt, SBool) else bool(x)
def vf_c_str(x='', *a):
    if type(x) is VStr: return x
    if isinstance(x, VBytes) and not a: 
        return type(x).__str__(x)
    if a and isinstance(x, VBytes): return x.decode(*a)
    r = type(x).__str__(x)
    return r
def _seq(x, kind):
    if type(x) is VGen: x = x.whole()
    if type(x) is SList: return SList(kind=kind, segs=x.segs)
    if isinstance(x, SRange) or isinstance(x, SIter):
        s = x.to_slist() if x.pos == 0 else SList(tuple(x))
        return SList(kind=kind, segs=s.segs)
    if plain_bytes(x) or type(x) is VByteArray: return SList(kind=kind, segs=as_slist(x).segs)
    return None
def own_iter(x):
    """an object of the code under verification with its own __iter__ (as the contract in force models it)"""
    if sym.is_object(x) and isinstance(getattr(type(x), '__iter__', None), types.FunctionType): return type(x).__iter__(x)
    return x
def vf_c_list(x=()):
    x = own_iter(x)
    if isinstance(x, VBytes) and not plain_bytes(x): x = iter(x)
    r = _seq(x, list)
    return r if r is not None else SList(tuple(x))
def vf_c_tuple(x=()):
    x = own_iter(x)
    r = _seq(x, tuple)
    if r is not None: return tuple(r.items()) if r.native() else r
    return tuple(x)
def vf_c_set(x=()): return SSet(x)
def vf_c_frozenset(x=()): return SSet(x, frozenset)
def vf_c_dict(*a, **k): return dict(*a, **k)
def vf_c_range(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1: return SRange(0, a[0])
        return SRange(*a)
    return range(*a)
def _ia(x):
    """(length, at) of an indexable iterable, or None"""
    if type(x) is VGen: x = x.whole()
    if type(x) in (SList, VByteArray, VText) or plain_bytes(x): return x.length(), x.__getitem__
    if isinstance(x, SIter) and x.pos == 0: return x.n, x.at
    if isinstance(x, (list, tuple, range)): return len(x), lambda i: vf_getitem(x, i)
    return None
class Star:
    """the rest of the positional arguments: a sequence of any length"""
    def __init__(self, l): self.l = l
    def _no(self, *a): raise Unsupported('a call with a symbolic number of arguments')
    __iter__ = __getitem__ = __len__ = __eq__ = __bool__ = __call__ = __add__ = _no
    __hash__ = None
    def __getattr__(self, name): self._no()
def vf_star(x):
    if type(x) is SList and not x.native(): return (Star(x),)
    return x
def vf_varargs(t):
    if not t or type(t[-1]) is not Star: return t
    l = t[-1].l
    return SList(kind=tuple, segs=(((Lit(t[:-1]),) if len(t) > 1 else ()) + tuple(l.segs)))
def vf_unstar(x, before, after):
    """the parts of a starred assignment"""
    if type(x) is VGen: x = x.whole()
    if type(x) is not SList: x = SList(list(loops.sym_iter(x)))
    n = x.length()
    if truth(n < before + after): raise ValueError('not enough values to unpack')
    return tuple(x[i] for i in range(before)) + (x[before:n - after].copy(list),) + tuple(x[n - after + i] for i in range(after))
def vf_c_enumerate(x, start=0):
    x = own_iter(x)
    if type(x) is VGen: x = x.whole()
    ia = _ia(x)
    if ia is not None: return SIter(ia[0], lambda i: (i + start, ia[1](i)), getattr(x, 'end', None) if isinstance(x, SIter) else None, x)
    return enumerate(x, start)
def vf_c_zip(*xs, **kw):
    ias = [None if isinstance(x, SIter) and x.end is not None else _ia(x) for x in xs]
    if all(a is not None for a in ias) and ias and any(is_sym(a[0]) for a in ias) and not kw:
        n = ias[0][0]
        for a in ias[1:]: n = imin(n, a[0])
        return SIter(n, lambda i: tuple(a[1](i) for a in ias))
    return zip(*[loops.sym_iter(x) for x in xs], **kw)
def vf_c_reversed(x):
    if type(x) is SList: return SIter(x.length(), (lambda s: s.__getitem__)(x[::-1]))
    if plain_bytes(x): r = x._reversed(); return SIter(r.length(), r.__getitem__)
    if isinstance(x, SRange): return SIter(x.n, lambda i: x.at(x.n - 1 - i))
    return reversed(x)
def vf_c_bytearray(*a): return VByteArray(*a)
def vf_c_iter(x, *a):
    if not a:
        ia = _ia(x) if not isinstance(x, (SIter, VGen)) else None
        if ia is not None and type(x) is not range: return SIter(ia[0], ia[1])
    return iter(x, *a)
def vf_c_next(it, *d): return next(it, *d)
def vf_c_map(f, *its):
    if len(its) == 1: return vf_gen(f, its[0], None, False)
    return map(f, *its)
def vf_c_filter(f, it): return filter(lambda x: truth((f or (lambda y: y))(x)), it)
def vf_c_type(*a):
    if len(a) == 1: return a[0].__class__ if type(a[0]) in (SInt, SBool, SList, VByteArray, SSet, VStr, VText, VHex, SFloat) else type(a[0])
    return type(*a)
def vf_c_isinstance(x, t):
    return isinstance(x, t)

_PLAIN = (builtins.list, builtins.tuple, builtins.bytes, builtins.bytearray, builtins.int, builtins.bool, builtins.str)
def _lacks(x, n):
    """a stand-in for a builtin value has the attributes of the builtin class only"""
    k = x.__class__
    return type(x) is not k and k in _PLAIN and type(x).__module__.startswith('engine') and not hasattr(k, n)
def vf_c_hasattr(x, n): return not _lacks(x, n) and hasattr(x, n)
def vf_c_getattr(x, n, *d):
    if _lacks(x, n):
        if d: return d[0]
        raise AttributeError('%r object has no attribute %r' % (x.__class__.__name__, n))
    return getattr(x, n, *d)
def join_pieces(o, g):
    """bytes.join of what a generator yields"""
    aux = cur().aux; old = aux.get('collect'); aux['collect'] = out = []
    try:
        for x in g: out.append(x)
    finally: aux['collect'] = old
    if not any(type(x) is loops.PieceList for x in out): return o.join(out)
    if len(o): raise Unsupported('joining a sequence of symbolic length')
    r = VBytes._mk(())
    for x in out:
        if type(x) is not loops.PieceList: r = r + o.join([x]); continue
        from . import specs
        r = r + specs.Vec('join:' + specs.vec_key(x.l), x.l, lambda e: e).at(0)
    return r
def vf_m_encode(o, *a, **k):
    if type(o) in (VStr, VHex): return o.encode(*a, **k)
    if type(o) is Txt: raise Unsupported('encoding a formatted message')
    r = o.encode(*a, **k)
    return VBytes._lit(r) if isinstance(r, builtins.bytes) else r
def vf_m_to_bytes(o, *a, **k):
    r = o.to_bytes(*a, **k)
    return VBytes._lit(r) if isinstance(r, builtins.bytes) else r
def vf_m_index(o, *a):
    if type(o) is str and len(a) == 1 and type(a[0]) is VStr and len(a[0].c) == 1: return sym.char_index(o, a[0])
    return o.index(*a)
def vf_m_join(o, *a):
    if len(a) == 1 and isinstance(o, (builtins.bytes, VBytes)) and type(a[0]) is types.GeneratorType: return join_pieces(o, a[0])
    if len(a) == 1 and isinstance(o, (builtins.bytes, VBytes)) and not len(o):
        l = a[0].to_slist() if isinstance(a[0], SIter) and is_sym(a[0].n) else a[0]
        if type(l) is SList and not l.native():
            from . import specs
            return specs.Vec('join:' + specs.vec_key(l), l, lambda e: e).at(0)
    if type(o) is str and o == '' and len(a) == 1 and type(a[0]) is SList and not a[0].native(): return VText.joined(a[0])
    if isinstance(o, str) and len(a) == 1:
        parts = list(a[0]); first = True; out = VStr(())
        if type(o) is not VStr and not any(type(p) is VStr for p in parts): return o.join(parts)
        for p in parts:
            if not first: out = VStr.of(out) + o
            out = VStr.of(out) + p; first = False
        return VStr.of(out).simp()
    return o.join(*a)
def vf_m_indices(o, *a):
    if isinstance(o, slice) and len(a) == 1 and any(is_sym(v) for v in (o.start, o.stop, o.step, a[0])):
        return slice_indices(o, a[0])
    return o.indices(*a)
def vf_m_update(o, *a, **k): return o.update(*a, **k)
def vf_int_from_bytes(b, byteorder='big', *, signed=False):
    v = to_vbytes(b)
    if v is None: v = VBytes._lit(VBytes(b).bytelist())
    if byteorder == 'big' and not signed and is_sym(v.length()):
        r = sym.be_value(v)
        if r is not None: return r
    bl = v.bytelist()
    if byteorder == 'big': bl = bl[::-1]
    return int_from_le(bl, signed)

def vf_enter(q):
    if core.CUR is not None: core.CUR.ex.functions.add(q)

def v_len(x):
    t = type(x)
    if t in (SList, VByteArray, SSet) or isinstance(x, VBytes):
        if isinstance(x, VBytes) and '__len__' in _user_len(t): return t.__len__(x)
        return x.length()
    if isinstance(x, SIter) or t in (VHex, VText): return x.length()
    m = getattr(t, '__len__', None)
    if m is not None and isinstance(m, types.FunctionType):
        r = m(x)
        if is_sym(r):
            if truth(r < 0): raise ValueError('__len__() should return >= 0')
            return r
        return r if isinstance(r, int) else builtins.len(x)
    return builtins.len(x)
@functools.lru_cache(None)
def _user_len(t):
    for k in t.__mro__:
        if k is VBytes: return ()
        if '__len__' in k.__dict__: return ('__len__',)
    return ()

def v_minmax(is_min):
    def f(*a, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if kw or not any(is_sym(x) for x in xs): return (min if is_min else max)(xs if xs or not kw else xs, **kw)
        r = xs[0]
        for x in xs[1:]:
            # python keeps the first on ties
            if truth(x < r) if is_min else truth(x > r): r = x
        return r
    return f
def v_sum(xs, start=0):
    if type(xs) is SList and not xs.native() or isinstance(xs, SIter) and is_sym(xs.n):
        f = cur().aux.get('list_sum')
        if f: return f(xs, start)
        raise Unsupported('sum over a symbolic sequence')
    r = start
    for x in xs: r = r + x
    return r
def v_any(xs):
    for x in (iter(xs)):
        if truth(x): return True
    return False
def v_all(xs):
    if isinstance(xs, SIter) and is_sym(xs.n):
        raise Unsupported('all() over a symbolic sequence')
    for x in iter(xs):
        if not truth(x): return False
    return True
def v_hash(x):
    if isinstance(x, VBytes) and type(x).__hash__ is VBytes.__hash__:
        return SHash(x)
    m = getattr(type(x), '__hash__', None)
    if isinstance(m, types.FunctionType) and type(x) not in (SInt, SBool): return m(x)
    return hash(x)
class SHash(builtins.int):
    """hash() of bytes: a function of their value. In a dict or set all such keys fall together and are told apart by =="""
    def __new__(cls, v):
        h = builtins.int.__new__(cls, 0); h.v = v; return h
    def __eq__(self, o):
        if type(o) is SHash: return self.v == o.v
        raise Unsupported('comparing hash() values')
    def __ne__(self, o): return mkbool(znot(self == o))
    def __hash__(self): return 0
    def _no(self, *a): raise Unsupported('computing with hash() values')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __xor__ = __rxor__ = __and__ = __rand__ = __or__ = __ror__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __mod__ = __floordiv__ = __lshift__ = __rshift__ = __neg__ = __invert__ = _no
def v_ord(x):
    if type(x) is VStr:
        if len(x.c) != 1: raise TypeError('ord() expected a character')
        return x.c[0]
    if isinstance(x, VBytes): return x[0]
    return ord(x)
def v_chr(x):
    if is_sym(x): return VStr((x,))
    return chr(x)
def v_divmod(a, b): return (a // b, a % b)
def v_sorted(x, **k):
    return SList(sorted(list(x), **k))
def v_print(*a, **k): pass

# ------------------------------------------------------------ library shims
def mk_struct():
    import struct as real
    m = types.ModuleType('struct'); m.error = real.error
    SZ = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
          'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}
    def parse(f):
        if isinstance(f, VBytes): f = f.const().decode()
        elif isinstance(f, builtins.bytes): f = f.decode()
        order = '<'
        if f[:1] in '<>!=@': order = f[0]; f = f[1:]
        elif f: order = '@'
        if order in '@=':
            if any(c in 'hHiIlLqQ' for c in f) and order == '@' and len(f) > 1: raise Unsupported('native struct alignment')
            order = '<'
        out = []; num = ''
        for ch in f:
            if ch.isdigit(): num += ch; continue
            if ch == ' ': continue
            if ch == 's': out.append(('s', int(num or 1)))
            elif ch in SZ or ch in '?cx': out.extend([(ch, 1)] * int(num or 1))
            else: raise Unsupported('struct format %r' % f)
            num = ''
        return ('>' if order in '>!' else '<'), out
    def pack(f, *vals):
        order, items = parse(f)
        need = [i for i in items if i[0] != 'x']
        if len(need) != len(vals): raise real.error('pack expected %d items for packing (got %d)' % (len(need), len(vals)))
        out = []; vals = list(vals)
        for ch, k in items:
            if ch == 'x': out.append(Lit((0,))); continue
            v = vals.pop(0)
            if ch == 's':
                b = to_vbytes(v)
                if b is None: raise real.error("argument for 's' must be a bytes object")
                n = b.length()
                if truth(n >= k): out.extend(seg_split(b.segs, k)[0])
                else: out.extend(b.segs); out.extend(VBytes(k - n).segs)
            elif ch == '?': out.append(Lit((1 if truth(v) else 0,)))
            elif ch == 'c': out.extend(to_vbytes(v).segs)
            else:
                n, signed = SZ[ch]
                if not is_intlike(v): raise real.error('required argument is not an integer')
                lo, hi = (-(1 << (8*n-1)), (1 << (8*n-1)) - 1) if signed else (0, (1 << (8*n)) - 1)
                if not truth(zand(v >= lo, v <= hi)): raise real.error('argument out of range')
                bs = int_bytes_le(v, n, signed)
                out.append(Lit(bs[::-1] if order == '>' else bs))
        return VBytes._mk(out)
    def calcsize(f): return sum((k if ch == 's' else 1 if ch in '?cx' else SZ[ch][0]) for ch, k in parse(f)[1])
    def unpack(f, b):
        order, items = parse(f)
        v = to_vbytes(b)
        if v is None: raise TypeError('a bytes-like object is required')
        n = calcsize(f)
        if not truth(v.length() == n): raise real.error('unpack requires a buffer of %d bytes' % n)
        out = []; segs = v.segs
        for ch, k in items:
            w = k if ch == 's' else 1 if ch in '?cx' else SZ[ch][0]
            L, segs = seg_split(segs, w)
            part = VBytes._mk(L)
            if ch == 'x': continue
            if ch in 'sc': out.append(part)
            elif ch == '?': out.append(truth(part.bytelist(1)[0] != 0))
            else:
                bl = part.bytelist(w)
                out.append(int_from_le(bl[::-1] if order == '>' else bl, SZ[ch][1]))
        return tuple(out)
    def unpack_from(f, b, offset=0):
        v = to_vbytes(b); n = calcsize(f)
        return unpack(f, v[offset:offset + n])
    m.pack, m.unpack, m.calcsize, m.unpack_from = pack, unpack, calcsize, unpack_from
    class Struct:
        def __init__(self, f): self.format = f; self.size = calcsize(f)
        def pack(self, *a): return pack(self.format, *a)
        def unpack(self, b): return unpack(self.format, b)
        def unpack_from(self, b, offset=0): return unpack_from(self.format, b, offset)
    m.Struct = Struct
    return m

def digest(alg, arg):
    """hash a VBytes: concretely if constant, symbolically otherwise"""
    n = 20 if alg in ('ripemd160', 'sha1') else 32
    if arg.is_const():
        import hashlib
        r = hashlib.new(alg, arg.const()).digest()
        sym.CONST_DIGESTS[alg, r] = arg
        return VBytes._lit(r)
    p = cur()
    cache = p.aux.setdefault('digests', [])
    for a, al, d in cache:
        if al == alg and same_rope(a, arg): return d
    for a, al, d in cache:
        if al == alg and known_same(a, arg): return d
    d = VBytes._mk((Sub(DigestBase(alg, arg, n), 0, n),))
    cache.append((arg, alg, d))
    return d

def same_rope(a, b):
    """syntactic identity"""
    if a.segs is b.segs: return True
    if len(a.segs) != len(b.segs): return False
    for x, y in zip(a.segs, b.segs):
        if type(x) is not type(y): return False
        if type(x) is Lit:
            if x.n != y.n or not all(p is q or _same_int(p, q) for p, q in zip(x.v, y.v)): return False
        elif type(x) is Sub:
            if x.base is not y.base or not _same_int(x.off, y.off) or not _same_int(x.n, y.n): return False
        else:
            if x is not y and not (x.key == y.key and (x.arg is y.arg or is_intlike(x.arg) and is_intlike(y.arg) and _same_int(x.arg, y.arg))): return False
    return True
_same_int = sym._same_int

def known_same(a, b):
    """pieces of the same things, with bounds that are equal on this path"""
    A, B = list(a.segs), list(b.segs)
    bases = lambda S: {id(s.base) for s in S if type(s) is Sub}
    if bases(A) and bases(B) and not (bases(A) & bases(B)): return False
    while A and B:
        x, y = A[0], B[0]
        if type(x) is Sub and sym.known(x.n == 0): A.pop(0); continue
        if type(y) is Sub and sym.known(y.n == 0): B.pop(0); continue
        if type(x) is Lit and type(y) is Lit:
            n = min(x.n, y.n)
            if not all(p is q or _same_int(p, q) for p, q in zip(x.v[:n], y.v[:n])): return False
            A[0:1] = [Lit(x.v[n:])] if n < x.n else []; B[0:1] = [Lit(y.v[n:])] if n < y.n else []
        elif type(x) is Sub and type(y) is Sub:
            if x.base is not y.base or not (_same_int(x.off, y.off) or sym.known(x.off == y.off)) or not (_same_int(x.n, y.n) or sym.known(x.n == y.n)): return False
            A.pop(0); B.pop(0)
        elif type(x) is Lit and type(y) is Sub or type(x) is Sub and type(y) is Lit:
            l, s, S, T = (x, y, A, B) if type(x) is Lit else (y, x, B, A)
            if l.n > 40 or not sym.known(s.n >= l.n): return False
            if not all(_same_int(p, s.base.at(s.off + k)) for k, p in enumerate(l.v)): return False
            S.pop(0); T[0] = Sub(s.base, s.off + l.n, s.n - l.n)
        elif type(x) is type(y):
            if not (x.key == y.key and (x.arg is y.arg or is_intlike(x.arg) and is_intlike(y.arg) and _same_int(x.arg, y.arg))): return False
            A.pop(0); B.pop(0)
        else: return False
    return all(type(s) is Sub and sym.known(s.n == 0) for s in A + B)

def mk_hashlib():
    m = types.ModuleType('hashlib')
    class H:
        def __init__(self, alg, b=None):
            self.name = alg; self.buf = VBytes._lit(()) if b is None else self._chk(b); register(self)
            self.digest_size = 20 if alg in ('ripemd160', 'sha1') else 32
        def _chk(self, b):
            v = to_vbytes(b)
            if v is None: raise TypeError('object supporting the buffer API required')
            return v if type(v) is VBytes else VBytes._mk(v.segs)
        def update(self, b): touch(self); self.buf = self.buf + self._chk(b)
        def digest(self): return digest(self.name, self.buf)
        def hexdigest(self): return self.digest().hex()
        def copy(self): return H(self.name, self.buf)
    m.sha256 = lambda b=None: H('sha256', b)
    m.sha1 = lambda b=None: H('sha1', b)
    m.new = lambda alg, b=None: H(alg, b)
    return m

def mk_io():
    m = types.ModuleType('io'); m.BytesIO = VBytesIO
    return m

def mk_binascii():
    import binascii as real
    m = types.ModuleType('binascii'); m.hexlify = binascii_hexlify; m.unhexlify = binascii_unhexlify
    m.b2a_hex = binascii_hexlify; m.a2b_hex = binascii_unhexlify
    m.Error = real.Error
    return m

def mk_base64():
    """of constants only"""
    import base64 as real
    m = types.ModuleType('base64'); m.__dict__.update(real.__dict__)
    def lift(f):
        def g(b, *a, **k):
            if isinstance(b, VBytes):
                if not b.is_const(): raise Unsupported('base64 of a symbolic value')
                b = b.const()
            r = f(b, *a, **k)
            return VBytes._lit(r) if isinstance(r, builtins.bytes) else r
        return g
    m.b64encode = lift(real.b64encode); m.b64decode = lift(real.b64decode)
    return m
def mk_uuid():
    import uuid as real
    m = types.ModuleType('uuid')
    class UUID:
        def __init__(self, s): self.bytes = VBytes._lit(real.UUID(s).bytes)
    m.UUID = UUID
    return m

class OrderedDict:
    """an insertion-ordered mapping, its keys compared by == (equal keys have equal hashes)"""
    def __init__(self, items=()):
        self.p = []
        for k, v in (items.items() if hasattr(items, 'items') else items): self[k] = v
    def _at(self, k):
        for j, (a, b) in enumerate(self.p):
            if a is k or truth(a == k): return j
        return None
    def __contains__(self, k): return self._at(k) is not None
    def __getitem__(self, k):
        j = self._at(k)
        if j is None: raise KeyError(k)
        return self.p[j][1]
    def __setitem__(self, k, v):
        j = self._at(k)
        if j is None: self.p.append([k, v])
        else: self.p[j][1] = v
    def __delitem__(self, k):
        j = self._at(k)
        if j is None: raise KeyError(k)
        del self.p[j]
    def get(self, k, d=None):
        j = self._at(k); return d if j is None else self.p[j][1]
    def setdefault(self, k, d=None):
        j = self._at(k)
        if j is None: self.p.append([k, d]); return d
        return self.p[j][1]
    def keys(self): return [a for a, b in self.p]
    def values(self): return [b for a, b in self.p]
    def items(self): return [(a, b) for a, b in self.p]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.p)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('OrderedDict.' + n)

def mk_collections():
    import collections as real
    m = types.ModuleType('collections'); m.__dict__.update(real.__dict__); m.OrderedDict = OrderedDict
    return m

def mk_functools():
    import functools as real
    m = types.ModuleType('functools'); m.__dict__.update(real.__dict__)
    def cmp(name, deriv):
        return deriv
    def total_ordering(cls):
        """functools.total_ordering, tolerant of symbolic booleans"""
        roots = {op for op in ('__lt__', '__le__', '__gt__', '__ge__') if getattr(cls, op, None) is not getattr(object, op, None)}
        if not roots: raise ValueError('must define at least one ordering operation: < > <= >=')
        root = max(roots)
        def neg(f):
            def g(s, o):
                r = f(s, o)
                return r if r is NotImplemented else not truth(r)
            return g
        def lt_or_eq(f, neg_first):
            def g(s, o):
                r = f(s, o)
                if r is NotImplemented: return r
                if neg_first: return (not truth(r)) and truth(s != o)
                return truth(r) or truth(s == o)
            return g
        def and_ne(f, neg_first):
            def g(s, o):
                r = f(s, o)
                if r is NotImplemented: return r
                r = truth(r)
                if neg_first: r = not r
                return (r or truth(s == o)) if neg_first else (r and truth(s != o))
            return g
        f = getattr(cls, root)
        tab = {'__lt__': {'__gt__': lt_or_eq(f, True), '__le__': lt_or_eq(f, False), '__ge__': neg(f)},
               '__le__': {'__ge__': and_ne(f, True), '__lt__': and_ne(f, False), '__gt__': neg(f)},
               '__gt__': {'__lt__': lt_or_eq(f, True), '__ge__': lt_or_eq(f, False), '__le__': neg(f)},
               '__ge__': {'__le__': and_ne(f, True), '__gt__': and_ne(f, False), '__lt__': neg(f)}}
        for op, g in tab[root].items():
            if op not in roots: setattr(cls, op, g)
        return cls
    m.total_ordering = total_ordering
    return m

def mk_socket():
    import socket as real
    m = types.ModuleType('socket'); m.__dict__.update({k: v for k, v in real.__dict__.items() if k.isupper() or k == 'error'})
    class Dotted(Txt):
        """the dotted text of four bytes"""
        def __eq__(self, o):
            if type(o) is Dotted: return self.b == o.b
            if isinstance(o, str):
                try: b = real.inet_aton(o)
                except OSError: return False
                return real.inet_ntoa(b) == o and self.b == VBytes._lit(b)
            return NotImplemented
        def __ne__(self, o):
            r = self.__eq__(o); return r if r is NotImplemented else mkbool(znot(r))
        def __hash__(self): raise Unsupported('hash of a symbolic address')
    def inet_ntoa(b):
        v = to_vbytes(b)
        if v is None: raise TypeError('a bytes-like object is required')
        if not truth(v.length() == 4): raise OSError('packed IP wrong length')
        if v.is_const(): return real.inet_ntoa(v.const())
        cur().assumptions.add('socket.inet_aton(socket.inet_ntoa(b)) == b, and different addresses have different texts')
        r = Dotted('<address>'); r.b = v
        return r
    def inet_aton(s):
        if type(s) is Dotted: return s.b
        if type(s) is VStr or type(s) is Txt: raise Unsupported('inet_aton')
        return VBytes._lit(real.inet_aton(s))
    m.inet_ntoa, m.inet_aton = inet_ntoa, inet_aton
    return m

def mk_time():
    import time as real
    m = types.ModuleType('time'); m.time = real.time; m.sleep = lambda s: None
    return m

def mk_random():
    import random as real
    m = types.ModuleType('random'); m.__dict__.update(real.__dict__)
    def getrandbits(n):
        if core.CUR is None: return real.getrandbits(n)
        t = cur().fresh_int('rand'); cur().add(z3.And(t >= 0, t < (1 << n)))
        return SInt(t, 0, (1 << n) - 1)
    m.getrandbits = getrandbits
    def randrange(a, b=None):
        if core.CUR is None: return real.randrange(a, b) if b is not None else real.randrange(a)
        lo, hi = (0, a - 1) if b is None else (a, b - 1)
        t = cur().fresh_int('rand'); cur().add(z3.And(t >= lo, t <= hi))
        return SInt(t, lo, hi)
    m.randrange = randrange
    m.randint = lambda a, b: randrange(a, b + 1)
    return m

def mk_key(world):
    """bitcoin.core.key reaches OpenSSL: an opaque signature predicate stands in"""
    m = types.ModuleType('bitcoin.core.key')
    class CPubKey(VBytes):
        def __new__(cls, buf=None, _cec_key=None):
            return VBytes.__new__(cls, buf)
        @property
        def is_valid(self): return self.length() > 0
        is_fullyvalid = True
        @property
        def is_compressed(self): return self.length() == 33
        def verify(self, hash, sig): return sig_pred(self, hash, sig)
    class CECKey:
        def set_pubkey(self, key): self.pubkey = key
        def verify(self, hash, sig): return sig_pred(self.pubkey, hash, sig)
    def sig_pred(pub, h, sig):
        """one arbitrary but fixed boolean function of (key, hash, signature)"""
        p = cur()
        tab = p.aux.setdefault('sigs', [])
        for (a, b, c, r) in tab:
            if same_rope(a, pub) and same_rope(b, h) and same_rope(c, sig): return r
        r = SBool(z3.Bool(p.fresh('sigok')))
        for (a, b, c, r2) in tab:
            if truth(mkbool(zand(zb(rope_eq(a, pub)), zb(rope_eq(b, h)), zb(rope_eq(c, sig))))):
                p.add(r.e == r2.e); break
        tab.append((pub, h, sig, r))
        p.assumptions.add('OpenSSL signature verification is some fixed predicate of (key, hash, signature)')
        return r
    m.CPubKey = CPubKey; m.CECKey = CECKey; m.__all__ = ('CECKey', 'CPubKey')
    m.sig_pred = sig_pred
    return m

# ------------------------------------------------------------ world
class World:
    def __init__(self):
        self.modules = {}
        self.sources = {}
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, len=v_len, min=v_minmax(True), max=v_minmax(False), sum=v_sum, any=v_any,
                 all=v_all, sorted=v_sorted, hash=v_hash, ord=v_ord, chr=v_chr, divmod=v_divmod, bytes=VBytes, print=v_print)
        for k, v in globals().items():
            if k.startswith('vf_'): b[k] = v
        b['vf_loop'] = loops.Loop
        self.builtins = b
        self.shims = {'struct': mk_struct(), 'hashlib': mk_hashlib(), 'io': mk_io(), 'binascii': mk_binascii(),
                      'uuid': mk_uuid(), 'collections': mk_collections(), 'base64': mk_base64(), 'functools': mk_functools(), 'socket': mk_socket(), 'random': mk_random()}
        self.patches = []
    def _find(self, modname):
        rel = modname.replace('.', '/')
        for r in ([VERIF] if rel.split('/')[0] == 'contracts' else ROOTS):
            for cand in (rel + '/__init__.py', rel + '.py'):
                f = os.path.join(r, cand)
                if os.path.exists(f): return os.path.realpath(f)
        return None
    def is_local(self, modname):
        top = modname.split('.')[0]
        return top in ('bitcoin', 'proofmarshal', 'proofchains', 'contracts')
    def _import(self, modname, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            modname = '.'.join(base + ([modname] if modname else []))
        if modname in self.shims and not level: 
            return self.shims[modname]
        if not self.is_local(modname):
            return builtins.__import__(modname, None, None, fromlist or (), 0)
        m = self.load(modname)
        if fromlist:
            for f in fromlist:
                if f == '*': continue
                if not hasattr(m, f) and self._find(modname + '.' + f): self.load(modname + '.' + f)
            return m
        return self.load(modname.split('.')[0])
    def load(self, modname, real=False):
        if modname in self.modules: return self.modules[modname]
        if '.' in modname: parent = self.load(modname.rsplit('.', 1)[0])
        else: parent = None
        if modname in self.modules: return self.modules[modname]
        if modname == 'bitcoin.core.key' and not real:
            m = mk_key(self); self.modules[modname] = m
            setattr(parent, 'key', m)
            return m
        f = self._find(modname)
        if f is None: raise ImportError('No module named %r' % modname)
        src = open(f, encoding='utf8').read()
        self.sources[modname] = f
        m = types.ModuleType(modname)
        m.__file__ = f
        m.__package__ = modname if f.endswith('__init__.py') else modname.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[modname] = m
        code = instrument(src, f, modname)
        # modules are initialised outside the path and its loop contracts
        saved = core.CUR, dict(loops.SPECS)
        core.CUR = None; loops.SPECS.clear()
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[modname]; raise
        finally:
            core.CUR = saved[0]; loops.SPECS.update(saved[1])
        if parent is not None: setattr(parent, modname.rsplit('.', 1)[1], m)
        return m
    def load_file(self, modname, path):
        """instrument a contract file"""
        m = types.ModuleType(modname)
        m.__file__ = path; m.__package__ = 'contracts'
        m.__dict__['__builtins__'] = self.builtins
        exec(instrument(open(path, encoding='utf8').read(), path), m.__dict__)
        return m
    def patch(self, obj, attr, val):
        had = attr in obj.__dict__
        self.patches.append((obj, attr, obj.__dict__.get(attr), had))
        type.__setattr__(obj, attr, val) if isinstance(obj, type) else setattr(obj, attr, val)
    def unpatch(self):
        for obj, attr, old, had in reversed(self.patches):
            if had:
                type.__setattr__(obj, attr, old) if isinstance(obj, type) else setattr(obj, attr, old)
            else:
                type.__delattr__(obj, attr) if isinstance(obj, type) else delattr(obj, attr)
        self.patches = []
