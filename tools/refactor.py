"""Behaviour-preserving rewrites of the whole source tree, to see that the
checks stay quiet on them (tools/tryrefactor.sh).

usage: refactor.py TREE TRANSFORM|mix:SEED  rewrites the files under TREE in place
       refactor.py --list
"""
import ast
import copy
import os
import sys

FILES = [
 'sus-tool.py',
 'proofchains/core/bitcoin.py',
 'proofchains/core/uniquebits/gumap.py',
 'proofchains/core/uniquebits/singleuseseal.py',
] + ['lib/python-bitcoinlib/bitcoin/' + f for f in (
    'wallet.py', 'messages.py', 'bloom.py', 'base58.py', 'net.py', 'rpc.py',
    'core/serialize.py', 'core/__init__.py', 'core/_bignum.py',
    'core/scripteval.py', 'core/script.py', 'core/key.py')
] + ['lib/python-proofmarshal/proofmarshal/' + f for f in (
    'proof.py', 'serialize.py', 'merbinnertree.py', 'bits.py', 'mmr.py')]

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def stmts(body, f):
    """apply f (statement -> list of statements) to every statement, inside out"""
    out = []
    for s in body:
        for field in ('body', 'orelse', 'finalbody'):
            if getattr(s, field, None) and not isinstance(s, ast.IfExp):
                setattr(s, field, stmts(getattr(s, field), f))
        for h in getattr(s, 'handlers', []):
            h.body = stmts(h.body, f)
        out += f(s)
    return out


def in_functions(tree, f):
    """apply f to the statements of every function"""
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.body = [n.body[0]] * (0) + each(n.body, f)
    return tree


def each(body, f):
    out = []
    for s in body:
        if isinstance(s, FUNCS):
            out.append(s)
            continue
        for field in ('body', 'orelse', 'finalbody'):
            if getattr(s, field, None):
                setattr(s, field, each(getattr(s, field), f))
        for h in getattr(s, 'handlers', []):
            h.body = each(h.body, f)
        out += f(s)
    return out


def own(fn):
    """the nodes of a function, without those of nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS):
            todo += list(ast.iter_child_nodes(n))


def rename_locals(tree):
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        nodes = list(own(fn))
        if any(isinstance(n, FUNCS + (ast.Global, ast.Nonlocal)) for n in nodes):
            continue
        if any(isinstance(n, ast.Name) and n.id in ('locals', 'vars', 'eval') for n in nodes):
            continue
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        if fn.args.vararg: args.add(fn.args.vararg.arg)
        if fn.args.kwarg: args.add(fn.args.kwarg.arg)
        names = {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        for n in nodes:
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + '_v'
            if isinstance(n, ast.ExceptHandler) and n.name in names:
                n.name += '_v'
    return tree


def invert_if(tree):
    def f(s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]
    return in_functions(tree, f)


def return_temp(tree):
    def f(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name('result_', ast.Store())], s.value), ast.Return(ast.Name('result_', ast.Load()))]
        return [s]
    return in_functions(tree, f)


def assert_raise(tree):
    def f(s):
        if isinstance(s, ast.Assert):
            exc = ast.Name('AssertionError', ast.Load())
            if s.msg: exc = ast.Call(exc, [s.msg], [])
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(exc)], [])]
        return [s]
    return in_functions(tree, f)


def while_true(tree):
    def f(s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])]
        return [s]
    return in_functions(tree, f)


def range_while(tree):
    count = [0]

    def f(s):
        if (isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name)
                and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range'
                and len(s.iter.args) <= 2
                and not any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b))):
            count[0] += 1
            i, e = 'i%d_' % count[0], 'end%d_' % count[0]
            lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
            return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], s.iter.args[-1]),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                              [ast.Assign([s.target], ast.Name(i, ast.Load()))] + s.body +
                              [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]
    return in_functions(tree, f)


def enumerate_for(tree):
    count = [0]

    def f(s):
        if isinstance(s, ast.For) and not s.orelse:
            count[0] += 1
            return [ast.For(ast.Tuple([ast.Name('n%d_' % count[0], ast.Store()), s.target], ast.Store()),
                            ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], []), s.body, [])]
        return [s]
    return in_functions(tree, f)


def expand_aug(tree):
    def f(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.RShift, ast.FloorDiv)) \
                and not isinstance(s.value, (ast.List, ast.ListComp)):
            return [ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))]
        return [s]
    return in_functions(tree, f)


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Chain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Call)) for x in n.comparators[:-1]):
            parts, left = [], n.left
            for o, r in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left, [o], [copy.deepcopy(r)]))
                left = copy.deepcopy(r)
            return ast.BoolOp(ast.And(), parts)
        return n


class DeMorgan(ast.NodeTransformer):
    """in tests only (the value of and/or differs otherwise)"""
    def test(self, e):
        if isinstance(e, ast.BoolOp):
            o = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in e.values]))
        return e

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n

    visit_While = visit_If


def else_return(tree):
    """if c: ...return / rest   ->  if c: ...return / else: rest"""
    def body(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                s.orelse = body(b[i + 1:])
                return b[:i + 1]
        return b
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.body = body(n.body)
    return tree


def simple(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.Tuple, ast.List)) and not
               (isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod))) for x in ast.walk(e))


def swap_assigns(tree):
    def body(b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (p, q)) \
                    and simple(p.value) and simple(q.value):
                np_ = {x.id for x in ast.walk(p) if isinstance(x, ast.Name)}
                nq = {x.id for x in ast.walk(q) if isinstance(x, ast.Name)}
                if p.targets[0].id not in nq and q.targets[0].id not in np_:
                    b[i], b[i + 1] = q, p
                    i += 2
                    continue
            i += 1
        return b
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.If, ast.While, ast.For)):
            n.body = body(n.body)
    return tree


def extract(tree):
    """def f(a): body  ->  def f(a): return _f_body(a);  def _f_body(a): body"""
    def simple_args(a):
        return not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs)

    def is_gen(fn):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))

    def conv(body, cls):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.ClassDef):
                s.body = conv(s.body, s)
            elif isinstance(s, ast.FunctionDef) and simple_args(s.args) and not is_gen(s) and len(s.body) >= 3 \
                    and not any(isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in own(s)):
                deco = [d.id if isinstance(d, ast.Name) else None for d in s.decorator_list]
                if deco not in ([], ['classmethod'], ['staticmethod']) or s.name in ('__new__',) or (cls is None and deco):
                    continue
                name = '_' + s.name.strip('_') + '_body'
                args = [a.arg for a in s.args.args]
                h = copy.deepcopy(s)
                h.name = name
                h.args.defaults = []
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                if cls is None:
                    call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
                elif deco == ['staticmethod']:
                    continue
                else:
                    call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), name, ast.Load()),
                                    [ast.Name(a, ast.Load()) for a in args[1:]], [])
                if any(isinstance(n, ast.Name) and n.id.startswith('__') for n in own(s)):
                    continue
                s.body = doc + [ast.Return(call)]
                out.append(h)
        return out
    tree.body = conv(tree.body, None)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.body = [conv([x], x)[0] if isinstance(x, ast.ClassDef) else x for x in n.body]
    return tree


def early_continue(tree):
    """for ..: if c: body  ->  for ..: if not c: continue; body"""
    def f(s):
        if isinstance(s, (ast.For, ast.While)) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            i = s.body[0]
            s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return [s]
    return in_functions(tree, f)


def comp_loop(tree):
    """x = [e for t in it]  ->  x = []; for t in it: x.append(e)"""
    def f(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) \
                and len(s.value.generators) == 1:
            g = s.value.generators[0]
            name = s.targets[0].id
            if name in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}:
                return [s]
            b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            return [ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, b, [])]
        return [s]
    return in_functions(tree, f)


def arg_temps(tree):
    """f(e1, e2) as a statement's value -> t1 = e1; t2 = e2; f(t1, t2)"""
    count = [0]

    def f(s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and v.args and isinstance(v.func, ast.Name) and v.func.id != 'super' \
                and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in v.args):
            pre, args = [], []
            for a in v.args:
                if isinstance(a, (ast.Name, ast.Constant)):
                    args.append(a)
                    continue
                count[0] += 1
                pre.append(ast.Assign([ast.Name('arg%d_' % count[0], ast.Store())], a))
                args.append(ast.Name('arg%d_' % count[0], ast.Load()))
            v.args = args
            return pre + [s]
        return [s]
    return in_functions(tree, f)


def noop(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(k, ast.Expr(ast.Constant(None)))
    return tree


T = dict(rename_locals=rename_locals, invert_if=invert_if, return_temp=return_temp, assert_raise=assert_raise,
         while_true=while_true, range_while=range_while, enumerate_for=enumerate_for, expand_aug=expand_aug,
         flip=lambda t: Flip().visit(t), chain=lambda t: Chain().visit(t), demorgan=lambda t: DeMorgan().visit(t),
         else_return=else_return, swap_assigns=swap_assigns, extract=extract, early_continue=early_continue,
         comp_loop=comp_loop, arg_temps=arg_temps, noop=noop)


def mixed(tree, seed):
    """every transformation, each on a random quarter of the functions"""
    import random
    r = random.Random(seed)
    names = sorted(T)
    r.shuffle(names)
    for name in names:
        hidden = []

        def hide(body, out=None):
            out = []
            for s in body:
                if isinstance(s, ast.ClassDef):
                    s.body = hide(s.body)
                elif isinstance(s, ast.FunctionDef) and r.random() > .25:
                    hidden.append(s)
                    s = ast.Expr(ast.Constant('hidden function %d' % (len(hidden) - 1)))
                out.append(s)
            return out

        def show(body):
            for i, s in enumerate(body):
                if isinstance(s, ast.ClassDef):
                    show(s.body)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and str(s.value.value).startswith('hidden function '):
                    body[i] = hidden[int(s.value.value.split()[-1])]
        tree.body = hide(tree.body)
        tree = T[name](tree)
        show(tree.body)
    return tree


def main():
    if sys.argv[1:] == ['--list']:
        print(' '.join(T))
        return
    root, name = sys.argv[1:3]
    for f in FILES:
        p = os.path.join(root, f)
        src = open(p).read()
        tree = ast.parse(src)
        before = ast.dump(tree)
        tree = mixed(tree, name[4:] + f) if name.startswith('mix:') else T[name](tree)
        ast.fix_missing_locations(tree)
        if ast.dump(tree) != before:
            with open(p, 'w') as out:
                out.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
