"""Abstract interpreter for the Python source of the analysed package.

Nothing of the package is imported or executed: every construct is given its
meaning by this interpreter over the abstract values of `arr`/`terms`, and every
library call by the transfer functions of `lib`.
"""
import ast
import os
import sys
import threading
import hashlib
from .arr import *
from .arr import AbsRaise


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    """The current partition contradicts itself; drop it."""


class Env:
    __slots__ = ('vars', 'parent', 'func', 'locals', 'globs', 'decl')

    def __init__(self, parent, globs, local_names=None, func=None):
        self.vars, self.parent, self.globs, self.locals, self.func = {}, parent, globs, local_names, func
        self.decl = {}

    def lookup(self, name):
        d = self.decl.get(name)
        if d == 'global':
            if name in self.globs:
                return self.globs[name]
            return KeyError
        e = self
        if d == 'nonlocal':
            e = self.parent
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals and name not in e.decl:
                raise AbsRaise(UnboundLocalError, f"local variable '{name}' referenced before assignment")
            e = e.parent
        if name in self.globs:
            return self.globs[name]
        return KeyError

    def assign(self, name, v):
        d = self.decl.get(name)
        if d == 'global':
            self.globs[name] = v
            return
        if d == 'nonlocal':
            e = self.parent
            while e is not None:
                if name in e.vars or (e.locals is not None and name in e.locals):
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


class Func:
    def __init__(self, node, env, module, name, defaults, kwdefaults):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}
        self.qual = name

    def __repr__(self):
        return f'<function {self.module.name}.{self.qual}>'


class ArgList(list):
    """Positional arguments of a library model; remembers which ones were looked at."""
    __slots__ = ('seen',)

    def __init__(self, x):
        list.__init__(self, x)
        self.seen = 0

    def all(self):
        self.seen = 1 << 30

    def __getitem__(self, i):
        if isinstance(i, int):
            self.seen = max(self.seen, (i if i >= 0 else len(self) + i) + 1)
        else:
            self.all()
        return list.__getitem__(self, i)

    def __iter__(self):
        self.all()
        return list.__iter__(self)

    def __add__(self, o):
        self.all()
        return list(self) + list(o)

    def __radd__(self, o):
        self.all()
        return list(o) + list(self)

    def pop(self, *i):
        self.all()
        return list.pop(self, *i)

    def copy(self):
        return list(self)


class ArgDict(dict):
    """Keyword arguments of a library model; remembers which ones were looked at."""
    __slots__ = ('seen',)

    def __init__(self, x):
        dict.__init__(self, x)
        self.seen = set()

    def __getitem__(self, n):
        self.seen.add(n)
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        self.seen.add(n)
        return dict.get(self, n, d)

    def pop(self, n, *d):
        self.seen.add(n)
        return dict.pop(self, n, *d)

    def __contains__(self, n):
        self.seen.add(n)
        return dict.__contains__(self, n)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.seen.update(dict.keys(self))
        return dict.values(self)

    def copy(self):
        return dict(self)


# options that do not change the value
HARMLESS = {'precision', 'preferred_element_type', 'unroll', 'inline', 'indices_are_sorted', 'unique_indices',
            'check_finite', 'device', 'donate_argnums', 'donate_argnames', 'prevent_cse', 'stacklevel'}


# models that look at an argument only if they need it, or whose arguments have no effect on values
LAZY = {'logger', 'version', 'itemgetter', 'dict.get', 'dict.pop', 'dict.setdefault', 'tqdm', 'jax.lax.dot', 'getattr',
        'next', 'print', 'debug.print', 'warn', 'warnings.warn', 'named_call', 'wraps', 'timeit', 'perf_counter', 'hasattr',
        'mappingproxy.get'}


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.attrs = {}

    def __repr__(self):
        return f'<{self.name}>'


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs

    def __repr__(self):
        return f'partial({self.func!r})'


class BoundM:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class ClassV:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.fields = []
        self.kind = 'class'
        self.members = {}
        self.frozen = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return KeyError

    def pybase(self):
        """Builtin exception base, if any."""
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.pybase()
                if r:
                    return r
            elif isinstance(b, TypeTok) and b.exc:
                return b.exc
        return None

    def __repr__(self):
        return f'<class {self.name}>'


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f'<{self.cls.name} object>'


class EnumMember(str):
    def __new__(cls, value, name, owner):
        o = str.__new__(cls, value)
        o.mname, o.owner, o.mvalue = name, owner, value
        return o


class ModuleV:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.state = 'new'

    def __repr__(self):
        return f'<module {self.name}>'


class ExtV:
    """A name of a library outside the package."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'<ext {self.path}>'

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class TypeTok:
    def __init__(self, name, test, exc=None, call=None):
        self.name, self.test, self.exc, self.call = name, test, exc, call

    def __repr__(self):
        return f'<type {self.name}>'


class UnionV:
    def __init__(self, parts):
        self.parts = parts


class AnnV:
    """A typing annotation value with no run-time meaning."""

    def __init__(self, name='ann'):
        self.name = name


class DT:
    """A dtype."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name or isinstance(o, str) and o == self.name

    def __hash__(self):
        return hash(('DT', self.name))

    def __repr__(self):
        return f'dtype({self.name})'


class GenericV:
    """functools.singledispatch function."""

    def __init__(self, default):
        self.default, self.table = default, []

    def __repr__(self):
        return f'<singledispatch {self.default!r}>'


class IterV:
    """An iterator with consumption state."""

    def __init__(self, nxt, name='iterator'):
        self.nxt = nxt
        self.name = name


class Stop(Exception):
    pass


class ExcV:
    """An exception instance."""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args
        self.attrs = {}


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Oracle:
    def __init__(self, prefix=()):
        self.prefix, self.pos, self.log = list(prefix), 0, []

    def choose(self, n, label):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.log.append((c, n, label))
        return c


_LOCALS = {}


def local_names(node):
    r = _LOCALS.get(node)
    if r is not None:
        return r
    names, decl = set(), {}

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                targets(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
        elif isinstance(n, ast.Global):
            for x in n.names:
                decl[x] = 'global'
        elif isinstance(n, ast.Nonlocal):
            for x in n.names:
                decl[x] = 'nonlocal'
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.Delete):
            pass
        for c in ast.iter_child_nodes(n):
            walk(c)

    is_gen = False
    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
        is_gen = _has_yield(node.body)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    for d in decl:
        names.discard(d)
    r = (names, decl, is_gen)
    _LOCALS[node] = r
    return r


def _has_yield(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_PARSE = {}


class Interp:
    def __init__(self, root, package='laplax', overrides=None):
        from . import lib
        self.lib = lib
        self.root, self.package = root, package
        self.modules = {}
        self.frames = []
        self.oracle = Oracle()
        self.facts = {}
        self.fact_polys = {}
        self.effects = []
        self.watch = {}
        self._keep = []
        self.analysed = {}       # function qualname -> number of abstract calls
        self.libcalls = {}
        self.depth = 0
        self.steps = 0
        self.step_limit = 3_000_000
        self.tlevel = 0
        self.order = None        # order oracle for comparisons of symbols
        self.pytrees = {}
        self.config = {}
        self.hooks = {}
        self.stubs = {}          # functions replaced by a summary of their contract
        self.in_jit = 0
        self.rng = 0

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path = self.module_path(name)
        if not os.path.exists(path):
            raise AbsRaise(ModuleNotFoundError, f'no module {name}')
        m = ModuleV(name, path)
        self.modules[name] = m
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.state = 'loading'
        src = open(path, encoding='utf8').read()
        key = (path, hashlib.sha1(src.encode()).hexdigest())
        tree = _PARSE.get(key)
        if tree is None:
            tree = _PARSE[key] = ast.parse(src, path)
        env = Env(None, m.ns)
        env.vars = m.ns
        self.frames.append([m, '<module>', 0])
        try:
            self.exec_block(tree.body, env)
        finally:
            self.frames.pop()
        m.state = 'ready'
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            self.modules[parent].ns.setdefault(leaf, m)
        return m

    def get(self, dotted):
        """Look up module.attr (public anchor)."""
        mod, attr = dotted.rsplit('.', 1)
        m = self.load(mod)
        if attr not in m.ns:
            raise AnchorMissing(dotted)
        return m.ns[attr]

    # ------------------------------------------------------------ diagnostics
    def where(self):
        if not self.frames:
            return '?'
        m, f, line = self.frames[-1]
        return f'{os.path.relpath(m.path, self.root)}:{line} in {f}'

    def trace(self):
        return ' <- '.join(f'{os.path.relpath(m.path, self.root)}:{l} {f}' for m, f, l in reversed(self.frames[-6:]))

    def effect(self, kind, **kw):
        kw['kind'] = kind
        kw['where'] = self.where()
        kw['trace'] = self.trace()
        self.effects.append(kw)

    def watch_obj(self, obj, label):
        self.watch[id(obj)] = label
        self._keep.append(obj)

    def mutated(self, obj, how):
        lab = self.watch.get(id(obj))
        if lab is not None:
            self.effect('mutate', label=lab, how=how)

    # ------------------------------------------------------------ decisions
    def decide(self, p, what=''):
        c = const_val(p)
        if c is not None:
            return c != 0
        if p.id in self.facts:
            return self.facts[p.id]
        q = ONE - p
        if q.id in self.facts:
            return not self.facts[q.id]
        r = None
        if self.order is not None:
            r = self.order(p)
        if r is None:
            h = self.hooks.get('decide')
            if h is not None:
                r = h(p)
        if r is None:
            r = self.oracle.choose(2, f'{show(p)[:120]} at {self.where()}') == 0
        self.facts[p.id] = r
        self.fact_polys[p.id] = p
        return r

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, Q, float, str, tuple, list, dict, set, frozenset, range)):
            return bool(v)
        if isinstance(v, Arr):
            if v.ndim and not all(a.dim is ONE for a in v.axes):
                raise AbsRaise(ValueError, 'The truth value of an array with more than one element is ambiguous')
            if v.tl > 0:
                raise AbsRaise(TypeError, 'TracerBoolConversionError: attempted boolean conversion of a traced array', where=self.where())
            if v.py in ('int',) and v.dtype == 'int':
                return self.decide(ONE - delta0(v.scalar()))
            if v.dtype != 'bool':
                p = v.scalar()
                c = const_val(p)
                if c is not None:
                    return c != 0
                return self.decide(ONE - delta_real(p))
            return self.decide(v.scalar())
        if isinstance(v, Inst):
            f = v.cls.find('__bool__')
            if f is not KeyError:
                return self.truth(self.call(BoundM(f, v), [], {}))
            f = v.cls.find('__len__')
            if f is not KeyError:
                return self.truth(self.call(BoundM(f, v), [], {}))
            return True
        return True

    # ------------------------------------------------------------ calling
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 180:
            self.depth -= 1
            raise Unmodelled('call depth')
        try:
            return self._call(f, list(args), dict(kwargs))
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            self.libcalls[f.name] = self.libcalls.get(f.name, 0) + 1
            h = self.hooks.get('libcall')
            if h is not None:
                h(self, f)
            if getattr(f.f, '__module__', '')[:7] == 'engine.' and f.name not in LAZY:
                args, kwargs = ArgList(args), ArgDict(kwargs)
            r = f.f(self, args, kwargs)
            if type(args) is ArgList:
                left = dict.keys(kwargs) - kwargs.seen - HARMLESS
                if left or args.seen < len(args):
                    msg = f'{f.name}: argument {", ".join(sorted(map(str, left))) or args.seen + 1} is not modelled'
                    if os.environ.get('VLOG'):
                        open(os.environ['VLOG'], 'a').write(msg + '\n')
                    else:
                        raise Unmodelled(msg)
            h = self.hooks.get('libresult')
            if h is not None:
                return h(self, f, r)
            return r
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + args, {**f.kwargs, **kwargs})
        if isinstance(f, BoundM):
            return self.call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, GenericV):
            impl = f.default
            if not args:
                raise AbsRaise(TypeError, f'{f!r} requires at least 1 positional argument')
            for t, g in reversed(f.table):
                if self.isinstance_(args[0], t):
                    impl = g
                    break
            return self.call(impl, args, kwargs)
        if isinstance(f, TypeTok):
            if f.exc:
                return ExcV(f.exc, args)
            if f.call:
                return f.call(self, args, kwargs)
            raise Unmodelled(f'call of type {f.name}')
        if isinstance(f, DT):
            a = asarr(args[0])
            return a.with_(dtype=f.name)
        if isinstance(f, ExtV):
            raise Unmodelled(f'library function {f.path}')
        if isinstance(f, Inst):
            g = f.cls.find('__call__')
            if g is KeyError:
                raise AbsRaise(TypeError, f"'{f.cls.name}' object is not callable")
            return self.call(BoundM(g, f), args, kwargs)
        if f is None or isinstance(f, (int, str, Q, list, dict, tuple, Arr)):
            raise AbsRaise(TypeError, f"'{tname(f)}' object is not callable")
        raise Unmodelled(f'call of {type(f).__name__}')

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        name = f.qual
        if len(args) > len(pos) and not a.vararg:
            raise AbsRaise(TypeError, f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        posonly = {x.arg for x in a.posonlyargs}
        for n in pos[len(args):]:
            if n in kwargs and n not in posonly:
                out[n] = kwargs.pop(n)
        for n in pos[:len(args)]:
            if n in kwargs and n not in posonly:
                raise AbsRaise(TypeError, f"{name}() got multiple values for argument '{n}'")
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n not in out:
                j = k - (len(pos) - nd)
                if j < 0:
                    raise AbsRaise(TypeError, f"{name}() missing required argument: '{n}'")
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
            else:
                raise AbsRaise(TypeError, f"{name}() missing required keyword-only argument: '{x.arg}'")
        if a.kwarg:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise AbsRaise(TypeError, f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        return out

    def call_func(self, f, args, kwargs):
        q = f.module.name + '.' + f.qual
        h = self.hooks.get('call')
        if h is not None:
            r = h(q, f, args, kwargs)
            if r is not None:
                return r[0]
        bound = self.bind(f, args, kwargs)
        self.analysed[q] = self.analysed.get(q, 0) + 1
        names, decl, is_gen = local_names(f.node)
        env = Env(f.env, f.module.ns, names, f)
        env.vars.update(bound)
        env.decl = decl
        if isinstance(f.node, ast.Lambda):
            self.frames.append([f.module, f.qual, f.node.lineno])
            try:
                return self.eval(f.node.body, env)
            finally:
                self.frames.pop()
        if is_gen:
            return self.make_generator(f, env)
        self.frames.append([f.module, f.qual, f.node.lineno])
        try:
            self.exec_block(f.node.body, env)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.frames.pop()

    # generators run in their own thread, strictly alternating with the consumer
    def make_generator(self, f, env):
        g = GenRun(self, f, env)
        return IterV(g.next, 'generator') if not hasattr(self, '_gens') else self._reg(g)

    def instantiate(self, c, args, kwargs):
        if c.kind == 'enum':
            if len(args) != 1:
                raise Unmodelled('enum functional api')
            for m in c.members.values():
                if self.eq(m, args[0]) is True:
                    return m
            raise AbsRaise(ValueError, f'{args[0]!r} is not a valid {c.name}')
        pb = c.pybase()
        if pb:
            e = ExcV(pb, args)
            e.attrs['__cls__'] = c
            return e
        o = Inst(c)
        if c.kind == 'dataclass' or any(k.kind == 'dataclass' for k in c.mro()):
            init = c.ns.get('__init__')
            if init is None:
                self.dataclass_init(c, o, args, kwargs)
                return o
        init = c.find('__init__')
        if init is not KeyError:
            self.call(BoundM(init, o), args, kwargs)
        elif c.kind == 'namedtuple':
            self.dataclass_init(c, o, args, kwargs)
        elif args or kwargs:
            raise AbsRaise(TypeError, f'{c.name}() takes no arguments')
        return o

    def all_fields(self, c):
        out = {}
        for k in reversed(c.mro()):
            for n, d in k.fields:
                out[n] = d
        return out

    def dataclass_init(self, c, o, args, kwargs):
        fields = self.all_fields(c)
        names = list(fields)
        if len(args) > len(names):
            raise AbsRaise(TypeError, f'{c.name}() takes too many positional arguments')
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in fields:
                raise AbsRaise(TypeError, f"{c.name}() got an unexpected keyword argument '{k}'")
            if k in vals:
                raise AbsRaise(TypeError, f"{c.name}() got multiple values for argument '{k}'")
            vals[k] = v
        for n in names:
            if n not in vals:
                d = fields[n]
                if d is KeyError:
                    raise AbsRaise(TypeError, f"{c.name}() missing required argument: '{n}'")
                vals[n] = self.call(d[1], [], {}) if isinstance(d, tuple) and d[0] == 'factory' else d
        o.attrs.update(vals)
        post = c.find('__post_init__')
        if post is not KeyError:
            self.call(BoundM(post, o), [], {})

    # ------------------------------------------------------------ types
    def isinstance_(self, v, t):
        if isinstance(t, (tuple, list)):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, UnionV):
            return any(self.isinstance_(v, x) for x in t.parts)
        if isinstance(t, ClassV):
            if isinstance(v, EnumMember):
                return t in v.owner.mro()
            if isinstance(v, Inst):
                return t in v.cls.mro()
            if isinstance(v, ExcV):
                c = v.attrs.get('__cls__')
                return bool(c) and t in c.mro()
            return False
        if isinstance(t, TypeTok):
            return t.test(v)
        if t is None:
            return v is None
        if isinstance(t, ExtV):
            raise Unmodelled(f'isinstance with {t.path}')
        raise Unmodelled(f'isinstance with {type(t).__name__}')

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python ==; returns bool or Arr."""
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (str, type(None), dict, Func, ClassV, DT)) or isinstance(b, (str, type(None), dict, Func, ClassV, DT)):
                return False
            return self.lib.compare('==', a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return all(self.truth(self.eq(a[k], b[k])) for k in a)
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            f = a.cls.find('__eq__')
            if f is not KeyError:
                return self.call(BoundM(f, a), [b], {})
            if a.cls.kind == 'dataclass':
                return all(self.truth(self.eq(a.attrs[n], b.attrs[n])) for n in self.all_fields(a.cls))
            return a is b
        if isinstance(a, PartialV) or isinstance(b, PartialV):
            return a is b
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a.func is b.func and a.obj is b.obj
        try:
            return bool(a == b)
        except Exception as e:  # noqa
            raise Unmodelled(f'== on {type(a).__name__}')

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unmodelled('step limit')
        if self.frames:
            self.frames[-1][2] = s.lineno
        getattr(self, 'x_' + type(s).__name__, self.x_unknown)(s, env)

    def x_unknown(self, s, env):
        raise Unmodelled(f'statement {type(s).__name__}')

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            cur = self.getattr(obj, t.attr)
        else:
            obj = self.eval(t.value, env)
            key = self.index_value(t.slice, env)
            cur = self.getitem(obj, key)
        rhs = self.eval(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.mutated(cur, '+=')
            cur.extend(self.iterate(rhs))
            new = cur
        elif isinstance(cur, dict) and isinstance(s.op, ast.BitOr):
            self.mutated(cur, '|=')
            cur.update(rhs)
            new = cur
        elif isinstance(cur, set) and isinstance(s.op, ast.BitOr):
            self.mutated(cur, '|=')
            cur.update(rhs)
            new = cur
        else:
            new = self.lib.binop(self, type(s.op).__name__, cur, rhs)
        if isinstance(t, ast.Name):
            env.assign(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new)
        else:
            self.setitem(obj, key, new)

    def x_Return(self, s, env):
        raise ReturnSig(None if s.value is None else self.eval(s.value, env))

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        broke = False
        for v in self.iterate(it):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        n = 0
        broke = False
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > self.hooks.get('while_limit', 2000):
                raise Unmodelled('while loop bound')
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur is None:
                raise AbsRaise(RuntimeError, 'No active exception to reraise')
            raise cur
        e = self.eval(s.exc, env)
        if isinstance(e, TypeTok) and e.exc:
            e = ExcV(e.exc, [])
        if isinstance(e, ClassV):
            e = self.instantiate(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        if isinstance(e, ExcV):
            raise AbsRaise(e.cls, ' '.join(str(a) for a in e.args), e, self.where())
        raise Unmodelled('raise of a non exception')

    def exc_match(self, e, t):
        if isinstance(t, (tuple, list)):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, TypeTok) and t.exc:
            return issubclass(e.cls, t.exc)
        if isinstance(t, ClassV):
            return isinstance(e.val, ExcV) and self.isinstance_(e.val, t)
        if isinstance(t, ExtV):
            raise Unmodelled(f'except {t.path}')
        return False

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except AbsRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, env)):
                        if h.name:
                            env.assign(h.name, e.val or ExcV(e.cls, [e.msg]))
                        prev = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (Unmodelled, Infeasible):
            raise
        except BaseException as e:
            if s.finalbody and not isinstance(e, (KeyboardInterrupt, GenKill)):
                self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    x_TryStar = x_Try

    def x_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        cm = self.eval(items[0].context_expr, env)
        enter = self.getattr(cm, '__enter__')
        exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except (Unmodelled, Infeasible, GenKill):
            raise
        except AbsRaise as e:
            ev = e.val or ExcV(e.cls, [e.msg])
            tok = self.lib.EXC.get(e.cls.__name__, None)
            prev = getattr(self, 'cur_exc', None)
            self.cur_exc = e
            try:
                r = self.call(exit_, [tok, ev, None], {})
            finally:
                self.cur_exc = prev
            if not self.truth(r):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AbsRaise(AssertionError, '')

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.index_value(t.slice, env)
                self.mutated(o, 'del')
                if isinstance(o, dict):
                    if k not in o:
                        raise AbsRaise(KeyError, repr(k))
                    del o[k]
                elif isinstance(o, list):
                    del o[k]
                else:
                    raise Unmodelled('del item')
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unmodelled('del attr')

    def x_Global(self, s, env):
        for n in s.names:
            env.decl[n] = 'global'

    def x_Nonlocal(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.package:
                m = self.load(a.name)
                if a.asname:
                    env.assign(a.asname, m)
                else:
                    env.assign(top, self.load(top))
            else:
                self.effect('import', module=a.name) if self.hooks.get('imports') else None
                env.assign(a.asname or top, self.lib.ext(a.name if a.asname else top))

    def x_ImportFrom(self, s, env):
        mod = s.module or ''
        if s.level:
            cur = self.frames[-1][0]
            base = cur.name.split('.')
            if not cur.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod.split('.')[0] == self.package:
            m = self.load(mod)
            for a in s.names:
                if a.name == '*':
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            env.assign(k, v)
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    try:
                        v = self.load(mod + '.' + a.name)
                    except AbsRaise:
                        raise AbsRaise(ImportError, f'cannot import name {a.name} from {mod}')
                env.assign(a.asname or a.name, v)
        else:
            for a in s.names:
                env.assign(a.asname or a.name, self.lib.ext(mod + '.' + a.name))

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            v = self.apply_decorator(dec, v, s, env)
        if self.stubs and len(self.frames) and self.frames[-1][1] == '<module>':
            v = self.stubs.get(f'{self.frames[-1][0].name}.{s.name}', v)
        env.assign(s.name, v)

    def apply_decorator(self, dec, v, s, env):
        if isinstance(dec, BoundM) and isinstance(dec.func, Builtin) and dec.func.name == 'singledispatch.register':
            t = None
            a = s.args.posonlyargs + s.args.args
            if a and a[0].annotation is not None:
                t = self.eval(a[0].annotation, env)
                if isinstance(t, str):
                    t = self.eval(ast.parse(t, mode='eval').body, env)
            if t is None:
                raise Unmodelled('singledispatch register without annotation')
            if isinstance(v, Func):
                v.qual = f'{dec.obj.default.qual}[{getattr(t, "name", t)}]'
            dec.obj.table.append((t, v))
            return v
        return self.call(dec, [v], {})

    def make_func(self, s, env, name):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        m = self.frames[-1][0]
        scope = env
        while scope is not None and getattr(scope, 'func', None) == 'class':
            scope = scope.parent
        if scope is not None and scope.vars is m.ns:
            scope = None
        f = Func(s, scope, m, name, defaults, kwd)
        par = env.func
        if isinstance(par, Func):
            f.qual = par.qual + '.' + name
        for x, d in list(zip((s.args.posonlyargs + s.args.args)[len(s.args.posonlyargs + s.args.args) - len(defaults):], defaults)):
            self.lib_default(f, x.arg, d)
        for k, d in kwd.items():
            self.lib_default(f, k, d)
        return f

    def lib_default(self, f, arg, d):
        if isinstance(d, (list, dict, set)):
            h = self.hooks.get('default')
            if h:
                h(f, arg, d)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        c = ClassV(s.name, [b for b in bases if isinstance(b, (ClassV, TypeTok))], {}, self.frames[-1][0])
        kinds = [b.name if isinstance(b, TypeTok) else getattr(b, 'kind', '') for b in bases]
        cenv = Env(env if env.vars is not env.globs else None, env.globs)
        cenv.func = 'class'
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                d = KeyError
                if st.value is not None:
                    d = self.eval(st.value, cenv)
                    cenv.vars[st.target.id] = d
                c.fields.append((st.target.id, d))
            else:
                self.exec(st, cenv)
        c.ns = cenv.vars
        for k, v in list(c.ns.items()):
            if isinstance(v, Func):
                v.qual = f'{s.name}.{v.name}'
        if any(k in ('StrEnum', 'Enum', 'IntEnum') for k in kinds) or 'enum' in kinds:
            c.kind = 'enum'
            for k, v in list(c.ns.items()):
                if k.startswith('_') or isinstance(v, (Func, Builtin)):
                    continue
                if isinstance(v, AnnV) and v.name == 'auto':
                    v = k.lower()
                if isinstance(v, str):
                    m = None
                    for o in c.members.values():
                        if str(o) == v:
                            m = o
                    m = m or EnumMember(v, k, c)
                    c.ns[k] = m
                    c.members[k] = m
                else:
                    raise Unmodelled('non-string enum')
        if 'NamedTuple' in kinds:
            c.kind = 'namedtuple'
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        env.assign(s.name, v)

    def x_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for case in s.cases:
            b = {}
            if self.match(case.pattern, subj, env, b):
                for k, v in b.items():
                    env.assign(k, v)
                if case.guard is None or self.truth(self.eval(case.guard, env)):
                    self.exec_block(case.body, env)
                    return

    def match(self, p, v, env, b):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, b) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinstance_(v, c):
                return False
            if p.patterns or p.kwd_patterns:
                for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                    if not self.match(q, self.getattr(v, n), env, b):
                        return False
                if p.patterns:
                    raise Unmodelled('positional class pattern')
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, env, b) for q, x in zip(p.patterns, v))
            k = star[0]
            n = len(p.patterns) - 1
            if len(v) < n:
                return False
            if p.patterns[k].name:
                b[p.patterns[k].name] = list(v[k:len(v) - (n - k)])
            return all(self.match(q, x, env, b) for q, x in zip(p.patterns[:k], v[:k])) and \
                all(self.match(q, x, env, b) for q, x in zip(p.patterns[k + 1:], v[len(v) - (n - k):]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, env)
                if kk not in v or not self.match(q, v[kk], env, b):
                    return False
            if p.rest:
                raise Unmodelled('mapping rest pattern')
            return True
        raise Unmodelled('match pattern')

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise AbsRaise(ValueError, 'not enough values to unpack')
                end = len(vals) - (n - k)
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, vals[k:end], env)
                for e, x in zip(t.elts[k + 1:], vals[end:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise AbsRaise(ValueError, f'cannot unpack {len(vals)} values into {len(t.elts)} targets')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.index_value(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unmodelled('assignment target')

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            self.mutated(o, f'[{k!r}] =')
            try:
                o[k] = v
            except TypeError:
                raise AbsRaise(TypeError, f'unhashable type: {tname(k)}')
        elif isinstance(o, list):
            self.mutated(o, f'[{k!r}] =')
            if isinstance(k, Arr):
                k = toint(k)
            if isinstance(k, int) and not -len(o) <= k < len(o):
                raise AbsRaise(IndexError, 'list assignment index out of range')
            o[k] = v
        elif isinstance(o, Arr):
            if o.tag == 'numpy':
                raise Unmodelled('numpy item assignment')
            raise AbsRaise(TypeError, 'JAX arrays are immutable')
        elif isinstance(o, Inst):
            f = o.cls.find('__setitem__')
            if f is KeyError:
                raise AbsRaise(TypeError, 'object does not support item assignment')
            self.call(BoundM(f, o), [k, v], {})
        elif isinstance(o, (tuple, str)):
            raise AbsRaise(TypeError, f"'{tname(o)}' object does not support item assignment")
        else:
            raise Unmodelled(f'item assignment on {type(o).__name__}')

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            if o.cls.frozen:
                raise AbsRaise(AttributeError, f'cannot assign to field {n!r}')
            self.mutated(o, f'.{n} =')
            o.attrs[n] = v
        elif isinstance(o, ClassV):
            o.ns[n] = v
        elif isinstance(o, ModuleV):
            self.effect('module_attr', module=o.name, attr=n)
            o.ns[n] = v
        elif isinstance(o, (Func, Builtin)):
            o.attrs[n] = v
        elif isinstance(o, Arr):
            raise AbsRaise(AttributeError, 'cannot set attribute of an array')
        elif isinstance(o, ExtV):
            self.effect('ext_attr', target=o.path, attr=n)
        elif isinstance(o, ExcV):
            o.attrs[n] = v
        else:
            raise Unmodelled(f'attribute assignment on {type(o).__name__}')

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unmodelled(f'expression {type(e).__name__}')
        if self.frames and hasattr(e, 'lineno'):
            self.frames[-1][2] = e.lineno
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Q(repr(v)) if v == v and abs(v) != float('inf') else v
        if v is Ellipsis:
            return Ellipsis
        return v

    def name(self, n, env):
        v = env.lookup(n)
        if v is KeyError:
            v = self.lib.BUILTINS.get(n, KeyError)
            if v is KeyError:
                raise AbsRaise(NameError, f"name '{n}' is not defined")
        return v

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if isinstance(o, dict):
                    d.update(o)
                else:
                    raise AbsRaise(TypeError, f"'{tname(o)}' object is not a mapping")
            else:
                kk = self.eval(k, env)
                d[kk] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        return self.lib.unop(self, type(e.op).__name__, v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return r
            res = r
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, DView) or isinstance(b, DView):
            if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
                a, b = as_set(a), as_set(b)
        for x, y, tab in ((a, b, CMPD), (b, a, RCMPD)):
            if isinstance(x, Inst) and op in tab:
                f = x.cls.find(tab[op])
                if f is not KeyError:
                    return self.call(BoundM(f, x), [y], {})
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return not self.is_(a, b)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return not self.truth(self.contains(b, a))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            r = self.eq(a, b)
            if isinstance(r, Arr):
                return self.lib.unop(self, 'Not_', r)
            return not r
        return self.lib.compare({'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op], a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, Q)) and not isinstance(a, EnumMember) and type(a) is type(b):
            return a == b
        if isinstance(a, DT) and isinstance(b, DT):
            return a == b
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, dict):
            try:
                return x in c
            except TypeError:
                raise AbsRaise(TypeError, f'unhashable type: {tname(x)}')
        if isinstance(c, (set, frozenset)):
            return x in c
        if isinstance(c, str):
            if not isinstance(x, str):
                raise AbsRaise(TypeError, 'in <string> requires string')
            return x in c
        if isinstance(c, (list, tuple)):
            return any(x is y or self.truth(self.eq(x, y)) for y in c)
        if isinstance(c, range):
            return x in c
        if isinstance(c, ClassV) and c.kind == 'enum':
            return any(self.eq(m, x) is True for m in c.members.values())
        if isinstance(c, Inst):
            f = c.cls.find('__contains__')
            if f is not KeyError:
                return self.call(BoundM(f, c), [x], {})
        if c is None or isinstance(c, (int, Q)):
            raise AbsRaise(TypeError, f"argument of type '{tname(c)}' is not iterable")
        if isinstance(c, IterV):
            return any(self.truth(self.eq(x, y)) for y in self.iterate(c))
        raise Unmodelled(f'in {type(c).__name__}')

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Inst):
                    raise Unmodelled('** of object')
                if not isinstance(v, dict):
                    raise AbsRaise(TypeError, 'argument after ** must be a mapping')
                for kk in v:
                    if kk in kwargs:
                        raise AbsRaise(TypeError, f"got multiple values for keyword argument '{kk}'")
                kwargs.update(v)
            else:
                if k.arg in kwargs:
                    raise AbsRaise(TypeError, f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = v
        if self.frames:
            self.frames[-1][2] = e.lineno
        if isinstance(f, Builtin) and f.name == 'super' and not args:
            fn_ = env.func
            first = fn_.node.args.args[0].arg
            cname = fn_.qual.split('.')[0]
            return Super(fn_.module.ns[cname], env.vars[first])
        if isinstance(f, Builtin) and f.name in ('locals',):
            raise Unmodelled('locals()')
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.index_value(e.slice, env))

    def index_value(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.eval(x.value, env)))
                else:
                    out.append(self.index_value(x, env))
            return tuple(out)
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return self.index_value(e, env)

    def e_Starred(self, e, env):
        raise Unmodelled('starred expression')

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None and isinstance(x, Arr):
                    if x.tl > 0:
                        raise AbsRaise(TypeError, 'unsupported format string passed to a traced array')
                    if x.ndim:
                        raise AbsRaise(TypeError, 'unsupported format string passed to array')
                out.append(str(x) if isinstance(x, (str, int, Q)) and v.format_spec is None else f'<{tname(x)}>')
        return ''.join(out)

    def e_FormattedValue(self, e, env):
        return '<fmt>'

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        en = env
        while getattr(en, 'func', None) == 'comp':
            en = en.parent
        en.assign(e.target.id, v)
        return v

    def comp(self, gens, env, emit):
        cenv = Env(env, env.globs)
        cenv.func = 'comp'

        def go(k, en):
            if k == len(gens):
                emit(en)
                return
            g = gens[k]
            for v in self.iterate(self.eval(g.iter, en)):
                self.assign(g.target, v, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    go(k + 1, en)
        if env.vars is env.globs:
            cenv.parent = None
        # class bodies and modules look up through globals
        if cenv.parent is None and env.parent is None and env.vars is not env.globs:
            cenv.parent = env
        go(0, cenv)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, env, lambda en: out.add(self.eval(e.elt, en)))
        return out

    def e_DictComp(self, e, env):
        out = {}

        def em(en):
            k = self.eval(e.key, en)
            out[k] = self.eval(e.value, en)
        self.comp(e.generators, env, em)
        return out

    def e_GeneratorExp(self, e, env):
        if len(e.generators) == 1:
            g = e.generators[0]
            src = self.iter_of(self.eval(g.iter, env))
            cenv = Env(env if env.vars is not env.globs else None, env.globs)
            cenv.func = 'comp'
            frame = list(self.frames[-1])

            def nxt():
                while True:
                    v = src.nxt()
                    self.assign(g.target, v, cenv)
                    if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                        return self.eval(e.elt, cenv)
            return IterV(nxt, 'genexpr')
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return self.iter_of(out)

    def e_Yield(self, e, env):
        g = GenRun.current(self)
        v = None if e.value is None else self.eval(e.value, env)
        return g.yield_(v)

    def e_YieldFrom(self, e, env):
        g = GenRun.current(self)
        for v in self.iterate(self.eval(e.value, env)):
            g.yield_(v)
        return None

    # ------------------------------------------------------------ iteration
    def iter_of(self, v):
        if isinstance(v, IterV):
            return v
        if isinstance(v, (list, tuple, str, range, set, frozenset, dict)):
            it = iter(v) if not isinstance(v, (set, frozenset)) else iter(sorted(v, key=str))

            def nxt():
                try:
                    return next(it)
                except StopIteration:
                    raise Stop()
                except RuntimeError:
                    raise AbsRaise(RuntimeError, 'changed size during iteration')
            return IterV(nxt, tname(v) + '_iterator')
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise(TypeError, 'iteration over a 0-d array')
            if v.axes[0].kind == 'int' or const_val(v.axes[0].dim) is not None:
                n = int(const_val(v.axes[0].dim))
                return self.iter_of([take(v, 0, const(k)) for k in range(n)])
            raise Unmodelled('iteration over a symbolic axis')
        if isinstance(v, ClassV) and v.kind == 'enum':
            return self.iter_of(list(v.members.values()))
        if isinstance(v, Inst):
            f = v.cls.find('__iter__')
            if f is not KeyError:
                return self.iter_of(self.call(BoundM(f, v), [], {}))
            f = v.cls.find('__next__')
            if f is KeyError:
                if v.cls.kind == 'namedtuple':
                    return self.iter_of(list(v.attrs.values()))
                raise AbsRaise(TypeError, f"'{v.cls.name}' object is not iterable")

            def nxt():
                try:
                    return self.call(BoundM(f, v), [], {})
                except AbsRaise as e:
                    if issubclass(e.cls, StopIteration):
                        raise Stop()
                    raise
            return IterV(nxt)
        it = getattr(v, 'abs_iter', None)
        if it is not None:
            return it(self)
        if v is None or isinstance(v, (int, Q, Func, Builtin)):
            raise AbsRaise(TypeError, f"'{tname(v)}' object is not iterable")
        raise Unmodelled(f'iteration over {type(v).__name__}')

    def iterate(self, v):
        it = self.iter_of(v)
        n = 0
        while True:
            try:
                x = it.nxt()
            except Stop:
                return
            n += 1
            if n > 5000:
                raise Unmodelled('iteration bound')
            yield x

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, ModuleV):
            if n in o.ns:
                return o.ns[n]
            if n == '__name__':
                return o.name
            sub = o.name + '.' + n
            if os.path.exists(self.module_path(sub)) and sub in self.modules:
                return self.modules[sub]
            raise AbsRaise(AttributeError, f"module '{o.name}' has no attribute '{n}'")
        if isinstance(o, ExtV):
            return self.lib.ext(o.path + '.' + n)
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            f = o.cls.find(n)
            if f is not KeyError:
                if isinstance(f, (Func,)):
                    return BoundM(f, o)
                if isinstance(f, BoundM) and f.obj == 'property':
                    return self.call(f.func, [o], {})
                if isinstance(f, BoundM) and f.obj == 'static':
                    return f.func
                if isinstance(f, BoundM) and f.obj == 'classmethod':
                    return BoundM(f.func, o.cls)
                return f
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return o.attrs
            if n == '_asdict' and o.cls.kind == 'namedtuple':
                return Builtin('_asdict', lambda it, a, k: dict(o.attrs))
            if n in ('_replace',) and o.cls.kind == 'namedtuple':
                def rep(it, a, k):
                    r = Inst(o.cls)
                    r.attrs = {**o.attrs, **k}
                    return r
                return Builtin('_replace', rep)
            g = o.cls.find('__getattr__')
            if g is not KeyError:
                return self.call(BoundM(g, o), [n], {})
            raise AbsRaise(AttributeError, f"'{o.cls.name}' object has no attribute '{n}'")
        if isinstance(o, ClassV):
            f = o.find(n)
            if f is not KeyError:
                if isinstance(f, BoundM) and f.obj == 'classmethod':
                    return BoundM(f.func, o)
                if isinstance(f, BoundM) and f.obj == 'static':
                    return f.func
                return f
            if n == '__name__' or n == '__qualname__':
                return o.name
            if o.kind == 'enum':
                if n in ('__members__', '_member_map_'):
                    return dict(o.members)
                if n == '_value2member_map_':
                    return {str(m): m for m in o.members.values()}
                if n == '_member_names_':
                    return list(o.members)
            if n == '__mro__':
                return tuple(o.mro())
            if n == '__doc__':
                return None
            if n.startswith('__') and n.endswith('__') or o.kind == 'enum' and n.startswith('_'):
                raise Unmodelled(f'attribute {n} of a class')
            raise AbsRaise(AttributeError, f"type object '{o.name}' has no attribute '{n}'")
        if isinstance(o, Super):
            started = False
            for c in (o.obj.cls if isinstance(o.obj, Inst) else o.cls).mro():
                if started and n in c.ns:
                    return BoundM(c.ns[n], o.obj)
                if c is o.cls:
                    started = True
            if n == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            raise AbsRaise(AttributeError, n)
        return self.lib.getattr_(self, o, n)

    def getitem(self, o, k):
        if isinstance(o, dict):
            try:
                if k in o:
                    return o[k]
            except TypeError:
                raise AbsRaise(TypeError, f'unhashable type: {tname(k)}')
            f = getattr(o, 'default_factory', None)
            if f is not None:
                v = self.call(f, [], {})
                o[k] = v
                return v
            raise AbsRaise(KeyError, repr(k), where=self.where())
        if isinstance(o, DView):
            raise AbsRaise(TypeError, "'dict_keys' object is not subscriptable")
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                parts = []
                for x in (k.start, k.stop, k.step):
                    parts.append(None if x is None else toint(x))
                return o[slice(*parts)]
            if isinstance(k, Arr):
                if k.tl > 0 and const_val(k.scalar()) is None:
                    raise AbsRaise(TypeError, 'TracerIntegerConversionError: list index is traced')
                k = toint(k)
            if not isinstance(k, int):
                raise AbsRaise(TypeError, f'{tname(o)} indices must be integers or slices, not {tname(k)}')
            try:
                return o[k]
            except IndexError:
                raise AbsRaise(IndexError, f'{tname(o)} index out of range')
        if isinstance(o, Arr):
            return self.lib.arr_getitem(self, o, k)
        if isinstance(o, Inst):
            f = o.cls.find('__getitem__')
            if f is not KeyError:
                return self.call(BoundM(f, o), [k], {})
            if o.cls.kind == 'namedtuple':
                return list(o.attrs.values())[toint(k)]
            raise AbsRaise(TypeError, f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, ClassV) and o.kind == 'enum':
            if k in o.members:
                return o.members[k]
            raise AbsRaise(KeyError, repr(k))
        if isinstance(o, (TypeTok, AnnV, ExtV, ClassV, UnionV)):
            return o if isinstance(o, TypeTok) else AnnV()
        if o is None or isinstance(o, (int, Q, Func, Builtin)):
            raise AbsRaise(TypeError, f"'{tname(o)}' object is not subscriptable")
        g = getattr(o, 'abs_getitem', None)
        if g is not None:
            return g(self, k)
        raise Unmodelled(f'subscript of {type(o).__name__}')


class DView(list):
    """The keys or items of a dictionary: iterable like a list, compared and combined like a set."""


def as_set(v):
    if isinstance(v, DView):
        try:
            return set(v)
        except TypeError:
            raise Unmodelled('set of unhashable items')
    return v


CMPD = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
RCMPD = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}


class AnchorMissing(Exception):
    pass


class GenKill(BaseException):
    pass


class GenRun:
    """Generator body interpreted in a thread that alternates with its consumer."""
    stack = []

    def __init__(self, interp, f, env):
        self.i, self.f, self.env = interp, f, env
        self.state = 'new'
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.msg = None
        self.sent = None

    @staticmethod
    def current(interp):
        t = threading.current_thread()
        g = getattr(t, 'gen', None)
        if g is None:
            raise Unmodelled('yield outside generator')
        return g

    def run(self):
        self.go.acquire()
        i = self.i
        saved, sdepth = i.frames, i.depth
        i.frames = saved + [[self.f.module, self.f.qual, self.f.node.lineno]]
        self.outer = (saved, sdepth)
        try:
            if self.sent and self.sent[0] == 'throw':
                raise self.sent[1]
            i.exec_block(self.f.node.body, self.env)
            self.msg = ('stop', None)
        except ReturnSig as r:
            self.msg = ('stop', r.v)
        except GenKill:
            self.msg = ('stop', None)
        except BaseException as e:
            self.msg = ('raise', e)
        i.frames, i.depth = self.outer
        self.state = 'done'
        self.back.release()

    def yield_(self, v):
        i = self.i
        mine = (i.frames, i.depth)
        i.frames, i.depth = self.outer
        self.msg = ('yield', v)
        self.back.release()
        self.go.acquire()
        self.outer = (i.frames, i.depth)
        i.frames, i.depth = self.outer[0] + mine[0][-1:], mine[1]
        if self.sent and self.sent[0] == 'throw':
            e, self.sent = self.sent[1], None
            raise e
        return None

    def resume(self, sent=None):
        if self.state == 'done':
            raise Stop()
        self.sent = sent
        if self.state == 'new':
            self.state = 'run'
            t = threading.Thread(target=self.run, daemon=True)
            t.gen = self
            t.start()
        self.go.release()
        self.back.acquire()
        k, v = self.msg
        if k == 'yield':
            return v
        if k == 'raise':
            raise v
        raise Stop()

    def next(self):
        return self.resume()


def _mk_generator(self, f, env):
    g = GenRun(self, f, env)
    it = IterV(g.next, 'generator')
    it.gen = g
    return it


Interp.make_generator = _mk_generator


def delta_real(p):
    """[p == 0] for a real valued poly (opaque unless constant)."""
    c = const_val(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if pos_poly(p) or pos_poly(-p):
        return ZERO
    if is_int(p):
        return delta0(p)
    if p.t[0][1] < 0:
        p = -p
    lc = abs(p.t[0][1])
    return atom_poly(mk_atom('d', pscale(p, 1 / lc)))


def tname(v):
    if v is None:
        return 'NoneType'
    if isinstance(v, EnumMember):
        return v.owner.name
    if isinstance(v, Arr):
        return 'ArrayImpl' if not v.py else v.py
    if isinstance(v, Q):
        return 'float'
    if isinstance(v, Func):
        return 'function'
    if isinstance(v, Inst):
        return v.cls.name
    if isinstance(v, ClassV):
        return 'type'
    return type(v).__name__
