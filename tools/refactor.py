"""Behaviour-preserving edits of the whole source at once, to see that the checks stay quiet.

python3 tools/refactor.py OUT [NAME…]: writes OUT/NAME/laplax for each transformation; with RUN=1 runs every check against it.
A development tool: no check runs it.
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
from pathlib import Path

ROOT = Path(os.environ.get('LAPLAX_ROOT', '/repo'))
FNS = (ast.FunctionDef, ast.AsyncFunctionDef)
T = {}


def t(f):
    T[f.__name__] = f
    return f


def own_nodes(fn):
    """Nodes of a function without nested functions, classes, lambdas, comprehensions."""
    todo = list(ast.iter_child_nodes(fn)) if not isinstance(fn, FNS) else list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (*FNS, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def blocks(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def parse1(src):
    return ast.parse(src).body


COUNT = [0]


def new(p='_t'):
    COUNT[0] += 1
    return f'{p}{COUNT[0]}'


@t
def rename(tree):
    """Rename local variables."""
    class R(ast.NodeTransformer):
        def __init__(self):
            self.env = [{}]

        def visit_FunctionDef(self, n):
            n.decorator_list = [self.visit(d) for d in n.decorator_list]
            n.args.defaults = [self.visit(d) for d in n.args.defaults]
            n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
            params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            stores, banned = set(), set()
            for m in own_nodes(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                    stores.add(m.id)
                if isinstance(m, FNS):
                    stores.add(m.name)
                if isinstance(m, (ast.Global, ast.Nonlocal)):
                    banned.update(m.names)
                if isinstance(m, (ast.Import, ast.ImportFrom)):
                    banned.update(a.asname or a.name for a in m.names)
                if isinstance(m, (ast.MatchAs, ast.MatchStar)) and m.name:
                    banned.add(m.name)
                if isinstance(m, ast.ClassDef):
                    banned.add(m.name)
            for m in ast.walk(n):
                if isinstance(m, (ast.Global, ast.Nonlocal)):
                    banned.update(m.names)
                if isinstance(m, ast.ExceptHandler) and m.name:
                    banned.add(m.name)
            local = {s: s + '_r' for s in stores - params - banned}
            if len(self.env) > 1:
                n.name = self.env[-1].get(n.name, n.name)
            self.env.append({**{k: v for k, v in self.env[-1].items() if k not in params | banned | stores}, **local})
            n.body = [self.visit(b) for b in n.body]
            self.env.pop()
            return n

        def visit_Lambda(self, n):
            n.args.defaults = [self.visit(d) for d in n.args.defaults]
            params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            self.env.append({k: v for k, v in self.env[-1].items() if k not in params})
            n.body = self.visit(n.body)
            self.env.pop()
            return n

        def comp(self, n):
            params = {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            first = n.generators[0].iter
            n.generators[0].iter = ast.Constant(0)
            first = self.visit(first)
            self.env.append({k: v for k, v in self.env[-1].items() if k not in params})
            self.generic_visit(n)
            self.env.pop()
            n.generators[0].iter = first
            return n
        visit_ListComp = visit_DictComp = visit_SetComp = visit_GeneratorExp = comp

        def visit_ClassDef(self, n):
            self.env.append({})
            self.generic_visit(n)
            self.env.pop()
            return n

        def visit_Name(self, n):
            n.id = self.env[-1].get(n.id, n.id)
            return n
    return R().visit(tree)


@t
def return_temp(tree):
    """return e -> r = e; return r"""
    for _, _, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = new('_ret')
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
                i += 1
            i += 1
    return tree


@t
def hoist_args(tree):
    """x = f(g(a), h(b)) -> t1 = g(a); t2 = h(b); x = f(t1, t2)"""
    def simple(e):
        return isinstance(e, (ast.Name, ast.Constant, ast.Attribute, ast.Lambda))
    for _, _, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and all(isinstance(x, ast.Name) for x in getattr(s, 'targets', [])):
                call, pre, ok = s.value, [], True
                if isinstance(call.func, ast.Attribute) and not isinstance(call.func.value, (ast.Name, ast.Attribute)):
                    ok = False
                for n in ast.walk(call):
                    if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.Starred)):
                        ok = False
                if ok:
                    for j, a in enumerate(call.args):
                        if not simple(a):
                            v = new('_arg')
                            pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
                            call.args[j] = ast.Name(v, ast.Load())
                    for k in call.keywords:
                        if k.arg and not simple(k.value):
                            v = new('_arg')
                            pre.append(ast.Assign([ast.Name(v, ast.Store())], k.value))
                            k.value = ast.Name(v, ast.Load())
                    b[i:i] = pre
                    i += len(pre)
            i += 1
    return tree


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


@t
def if_invert(tree):
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            return n
    return R().visit(tree)


@t
def early_else(tree):
    """if c: return X; rest -> if c: return X else: rest"""
    def go(b):
        for i, s in enumerate(b):
            for f in ('body', 'orelse', 'finalbody'):
                c = getattr(s, f, None)
                if isinstance(c, list) and c and isinstance(c[0], ast.stmt):
                    go(c)
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                go(s.orelse)
                return
    for n in ast.walk(tree):
        if isinstance(n, FNS):
            go(n.body)
    return tree


@t
def ifexp_stmt(tree):
    """x = a if c else b -> if statement; return likewise"""
    for _, _, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                b[i] = ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [ast.Assign(s.targets, s.value.orelse)])
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                b[i:i + 1] = [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
    return tree


@t
def commute(tree):
    def numeric(e):
        return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) or any(isinstance(x, ast.Name) and x.id == 'jnp' for x in ast.walk(e)) or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Pow, ast.MatMult))

    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) or isinstance(n.op, ast.Add) and (numeric(n.left) or numeric(n.right)):
                n.left, n.right = n.right, n.left
            return n

        def visit_Compare(self, n):
            self.generic_visit(n)
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [sw[type(n.ops[0])]()]
            return n
    return R().visit(tree)


@t
def arith(tree):
    """a - b -> a + -b; x ** 2 -> x * x for names; a / b -> a * (1 / b)"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            if isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Set) and isinstance(n.left, (ast.Name, ast.BinOp, ast.Call, ast.Constant)) and isinstance(n.right, (ast.BinOp, ast.Name)):
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
            if isinstance(n.op, ast.Div) and not isinstance(n.left, ast.Constant):
                return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), n.right))
            return n
    return R().visit(tree)


@t
def demorgan(tree):
    class R(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
            return n
    return R().visit(tree)


@t
def comp_loop(tree):
    """x = [f(i) for i in y] -> loop"""
    for _, _, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
                c, g = s.value, s.value.generators[0]
                v = new('_acc')
                m = {x.id: x.id + '_c' for x in ast.walk(g.target) if isinstance(x, ast.Name)}

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        n.id = m.get(n.id, n.id)
                        return n
                if isinstance(c, ast.ListComp):
                    add = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [R().visit(c.elt)], []))
                    init = ast.List([], ast.Load())
                else:
                    add = ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), R().visit(c.key), ast.Store())], R().visit(c.value))
                    init = ast.Dict([], [])
                body = [add]
                for cond in reversed(g.ifs):
                    body = [ast.If(R().visit(cond), body, [])]
                s.value = ast.Name(v, ast.Load())
                if any(isinstance(x, ast.Lambda) for x in ast.walk(c)):
                    s.value = c
                    i += 1
                    continue
                b[i:i] = [ast.Assign([ast.Name(v, ast.Store())], init), ast.For(R().visit(g.target), g.iter, body, [])]
                i += 2
            i += 1
    return tree


@t
def lambda_def(tree):
    """return lambda x: e / y = lambda x: e / f(lambda …) -> nested def"""
    class L(ast.NodeTransformer):
        def __init__(self):
            self.pre = []

        def visit_Lambda(self, n):
            v = new('_fn')
            self.pre.append(ast.FunctionDef(v, n.args, [ast.Return(n.body)], [], lineno=0, type_params=[]))
            return ast.Name(v, ast.Load())

        def skip(self, n):
            return n
        visit_ListComp = visit_DictComp = visit_SetComp = visit_GeneratorExp = visit_IfExp = visit_BoolOp = visit_FunctionDef = skip
    for o, f, b in list(blocks(tree)):
        if isinstance(o, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                l = L()
                b[i] = l.visit(s)
                b[i:i] = l.pre
                i += len(l.pre)
            i += 1
    return tree


def is_gen(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(n))


def doc_split(n):
    if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
        return n.body[:1], n.body[1:]
    return [], n.body


@t
def helper(tree):
    """Body of each module-level function moves into a private helper."""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not is_gen(n) and n.name != '_':
            doc, body = doc_split(n)
            if body:
                h = ast.FunctionDef('_impl_' + n.name, copy.deepcopy(n.args), body, [], lineno=0, type_params=[])
                h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
                a = n.args
                call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                n.body = doc + [ast.Return(call)]
                out.append(h)
        out.append(n)
    tree.body = out
    return tree


@t
def inner(tree):
    """Body of every function moves into a nested function which is called at once."""
    for n in list(ast.walk(tree)):
        if isinstance(n, ast.FunctionDef) and not is_gen(n):
            doc, body = doc_split(n)
            if not body or any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in own_nodes(n)):
                continue
            params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            stored = params & {x.id for x in own_nodes(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(n)):
                continue
            v = new('_body')
            pre = [ast.Nonlocal(sorted(stored))] if stored else []
            n.body = doc + [ast.FunctionDef(v, ast.arguments([], [], None, [], [], None, []), pre + body, [], lineno=0, type_params=[]), ast.Return(ast.Call(ast.Name(v, ast.Load()), [], []))]
    return tree


@t
def dead(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            doc, body = doc_split(n)
            n.body = doc + parse1('_unused = None\nif _unused is not None:\n    raise AssertionError("unreachable")\ndel _unused') + body
    return tree


@t
def nullcontext(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            doc, body = doc_split(n)
            if body:
                n.body = doc + [ast.With([ast.withitem(ast.Call(ast.Attribute(ast.Name('contextlib', ast.Load()), 'nullcontext', ast.Load()), [], []))], body)]
    add_import(tree, 'import contextlib')
    return tree


def add_import(tree, src):
    i = 0
    for i, n in enumerate(tree.body):
        if isinstance(n, (ast.Import, ast.ImportFrom)) and getattr(n, 'module', '') != '__future__':
            break
    tree.body[i:i] = parse1(src)


@t
def tryfinally(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            doc, body = doc_split(n)
            if body:
                n.body = doc + [ast.Try(body, [ast.ExceptHandler(ast.Name('KeyboardInterrupt', ast.Load()), None, [ast.Raise()])], [], [ast.Pass()])]
    return tree


@t
def for_while(tree):
    """for x in it -> while with next"""
    class R(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse:
                return n
            v, w = new('_it'), new('_end')
            src = f'{v} = iter(0)\nwhile True:\n    {w} = next({v}, _STOP)\n    if {w} is _STOP:\n        break\n    0'
            b = parse1(src)
            b[0].value.args = [n.iter]
            b[1].body[2:] = [ast.Assign([n.target], ast.Name(w, ast.Load()))] + n.body
            return b
    tree = R().visit(tree)
    i = 1 if isinstance(tree.body[0], ast.Expr) else 0
    while i < len(tree.body) and isinstance(tree.body[i], (ast.Import, ast.ImportFrom)):
        i += 1
    tree.body[i:i] = parse1('_STOP = object()')
    return tree


@t
def swap(tree):
    """Swap adjacent independent assignments."""
    def info(s):
        w = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        r = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        return w, r
    for o, _, b in blocks(tree):
        if isinstance(o, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(u, ast.Assign) and all(isinstance(x, (ast.Name, ast.Tuple)) for x in s.targets + u.targets) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next' or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'update', 'append') for q in (s, u) for x in ast.walk(q)):
                (w1, r1), (w2, r2) = info(s), info(u)
                if not (w1 & (w2 | r2) or w2 & r1):
                    b[i], b[i + 1] = u, s
                    i += 1
            i += 1
    return tree


@t
def inline(tree):
    """v = e; <stmt using v once> -> inlined, where v is used nowhere else."""
    for fn in [n for n in ast.walk(tree) if isinstance(n, FNS)]:
        uses = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                uses.setdefault(x.id, []).append(x)
        for o, _, b in blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, u = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, (ast.Assign, ast.Return)) and not isinstance(s.value, (ast.Yield, ast.NamedExpr)):
                    v = s.targets[0].id
                    us = [x for x in uses.get(v, []) if isinstance(x.ctx, ast.Load)]
                    st = [x for x in uses.get(v, []) if isinstance(x.ctx, ast.Store)]
                    direct = [x for x in own_nodes_stmt(u) if x in us]
                    if len(us) == 1 and len(st) == 1 and direct:
                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return s.value if n is us[0] else n
                        b[i + 1] = R().visit(u)
                        del b[i]
                        continue
                i += 1
    return tree


def own_nodes_stmt(u):
    todo = [u]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (*FNS, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


@t
def kw_reverse(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and all(k.arg for k in n.keywords):
            n.keywords.reverse()
    return tree


@t
def partial_lambda(tree):
    """partial(f, a, k=b) -> closure evaluated at once"""
    used = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if nm == 'partial' and n.args:
                used[0] = True
                n.func = ast.Name('_bind', ast.Load())
            return n
    tree = R().visit(tree)
    if used[0]:
        add_import(tree, 'def _bind(_f, *_a, **_k):\n    def bound(*args, **kwargs):\n        return _f(*_a, *args, **{**_k, **kwargs})\n    return bound')
    return tree


@t
def jnp_ops(tree):
    """a @ b -> jnp.matmul; x.T -> jnp.transpose; x ** 2 -> jnp.square; jnp.sqrt -> jnp.power"""
    src = ast.unparse(tree)
    if 'import jax.numpy as jnp' not in src:
        return tree

    def j(f, *a):
        return ast.Call(ast.Attribute(ast.Name('jnp', ast.Load()), f, ast.Load()), list(a), [])

    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.MatMult):
                return j('matmul', n.left, n.right)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return j('square', n.left)
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == 'T':
                return j('transpose', n.value)
            return n

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'jnp':
                if n.func.attr == 'sqrt':
                    return j('power', n.args[0], ast.Constant(0.5))
                if n.func.attr == 'exp':
                    return ast.Call(ast.Attribute(ast.Attribute(ast.Name('jax', ast.Load()), 'lax', ast.Load()), 'exp', ast.Load()), n.args, []) if False else n
                if n.func.attr in ('sum', 'mean', 'max') and n.args and isinstance(n.args[0], (ast.Call, ast.BinOp)):
                    return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), n.args[1:], n.keywords)
            return n
    return R().visit(tree)


@t
def tree_map(tree):
    """jax.tree.map(f, x) -> flatten, list comprehension, unflatten"""
    used = [False]

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if ast.unparse(n.func) in ('jax.tree.map', 'jax.tree_util.tree_map') and not n.keywords:
                used[0] = True
                n.func = ast.Name('_tmap', ast.Load())
            return n
    tree = R().visit(tree)
    if used[0]:
        i = max(k for k, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))) + 1
        tree.body[i:i] = parse1('def _tmap(f, first, *rest):\n    leaves, treedef = jax.tree.flatten(first)\n    others = [treedef.flatten_up_to(r) for r in rest]\n    return treedef.unflatten([f(*ls) for ls in zip(leaves, *others, strict=True)])')
    return tree


@t
def alias(tree):
    """jax.numpy and jax reached by other names"""
    class R(ast.NodeTransformer):
        def visit_Import(self, n):
            for a in n.names:
                if a.name == 'jax.numpy':
                    a.asname = '_np'
                elif a.name == 'jax' and not a.asname:
                    a.asname = '_jx'
            return n

        def visit_Name(self, n):
            n.id = {'jnp': '_np', 'jax': '_jx'}.get(n.id, n.id)
            return n
    names = {a.asname or a.name for n in tree.body if isinstance(n, ast.Import) for a in n.names}
    if 'jax' not in names and 'jnp' not in names:
        return tree
    return R().visit(tree)


@t
def to_keywords(tree):
    """Positional arguments of laplax functions become keywords."""
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in SIGS and not any(isinstance(a, ast.Starred) for a in n.args):
                names = SIGS[n.func.id]
                if names and len(n.args) <= len(names) and all(k.arg for k in n.keywords):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(names, n.args)] + n.keywords
                    n.args = []
            return n
    local = {x.name for n in ast.walk(tree) if isinstance(n, FNS) for x in own_nodes(n) if isinstance(x, FNS)}
    params = {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)}
    saved = {k: SIGS.pop(k) for k in list(SIGS) if k in local | params}
    tree = R().visit(tree)
    SIGS.update(saved)
    return tree


SIGS = {}


def collect():
    seen = {}
    for p in (ROOT / 'laplax').rglob('*.py'):
        for n in ast.parse(p.read_text()).body:
            if isinstance(n, FNS):
                a = n.args
                ok = not a.posonlyargs and not a.vararg and not any(ast.unparse(d).split('(')[0] not in ('jax.jit',) for d in n.decorator_list)
                seen.setdefault(n.name, []).append([x.arg for x in a.args] if ok else None)
    SIGS.update({k: v[0] for k, v in seen.items() if len(v) == 1 and v[0]})


@t
def isinstance_dispatch(tree):
    """match statements -> if chains (literal and value patterns); elif -> nested else"""
    class R(ast.NodeTransformer):
        def visit_Match(self, n):
            self.generic_visit(n)
            v = new('_subj')
            chain = None
            for c in reversed(n.cases):
                if isinstance(c.pattern, ast.MatchValue) and not c.guard:
                    test = ast.Compare(ast.Name(v, ast.Load()), [ast.Eq()], [c.pattern.value])
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name is None and not c.guard:
                    chain = c.body
                    continue
                else:
                    return n
                chain = [ast.If(test, c.body, chain or [])]
            return [ast.Assign([ast.Name(v, ast.Store())], n.subject)] + chain
    return R().visit(tree)


def write(name, out):
    dst = Path(out) / name
    if dst.exists():
        shutil.rmtree(dst)
    shutil.copytree(ROOT / 'laplax', dst / 'laplax', ignore=shutil.ignore_patterns('__pycache__'))
    for f in ('pyproject.toml', 'README.md'):
        if (ROOT / f).exists():
            shutil.copy(ROOT / f, dst / f)
    changed = 0
    for p in (dst / 'laplax').rglob('*.py'):
        src = p.read_text()
        before = ast.unparse(ast.parse(src))
        tree = T[name](ast.parse(src))
        ast.fix_missing_locations(tree)
        after = ast.unparse(tree)
        if after != before:
            changed += 1
            p.write_text(after + '\n')
            compile(after, str(p), 'exec')
    return dst, changed


def main():
    out, names = sys.argv[1], sys.argv[2:] or list(T)
    collect()
    here = Path(__file__).resolve().parent.parent
    for name in names:
        dst, changed = write(name, out)
        print(f'{name}: {changed} files', flush=True)
        if os.environ.get('RUN'):
            import json
            ids = [c['property'] if 'property' in c else c['id'] for c in json.loads((here / 'MANIFEST.json').read_text())['checks']]
            for i in ids:
                r = subprocess.run([sys.executable, str(here / 'check.py'), i], capture_output=True, text=True, env={**os.environ, 'LAPLAX_ROOT': str(dst), 'VERIF_EV': str(dst / 'ev')})
                und = sum('UNDECIDED' in ln for ln in r.stdout.splitlines())
                if r.returncode or und > 0:
                    print(f'  {i} rc={r.returncode} undecided={und}', flush=True)
                    for ln in r.stdout.splitlines():
                        if 'VIOLATED' in ln or 'UNDECIDED' in ln:
                            print('     ', ln[:200])


if __name__ == '__main__':
    main()
