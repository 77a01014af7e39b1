"""Python builtins and standard-library transfer functions."""
from .lib import *
from . import lib as L
from .lib import BUILTINS, LIB, breg, reg, _t
from .interp import Super, Interp, GenRun
import math as _math


# ------------------------------------------------------------------ builtins
@breg('len')
def _len(it, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
        return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise AbsRaise(TypeError, 'len() of unsized object')
        return pyint(v.axes[0].dim)
    if isinstance(v, Inst):
        f = v.cls.find('__len__')
        if f is not KeyError:
            return it.call(BoundM(f, v), [], {})
        if v.cls.kind == 'namedtuple':
            return len(v.attrs)
    if isinstance(v, ClassV) and v.kind == 'enum':
        return len(v.members)
    h = getattr(v, 'abs_len', None)
    if h:
        return h(it)
    raise AbsRaise(TypeError, f"object of type '{tname(v)}' has no len()")


class SymRange:
    """range() of symbolic length; iterated through a loop summary."""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def abs_iter(self, it):
        h = it.hooks.get('symrange')
        if h is not None:
            return it.iter_of(h(self))
        raise Unmodelled('loop of symbolic length')

    def abs_len(self, it):
        return pyint(self.hi - self.lo)


@breg('range')
def _range(it, a, k):
    v = []
    for x in a:
        if isinstance(x, Arr):
            if x.tl > 0 and const_val(x.scalar()) is None:
                raise AbsRaise(TypeError, 'TracerIntegerConversionError: range() of a traced value')
            c = const_val(x.scalar())
            v.append(int(c) if c is not None else x.scalar())
        elif isinstance(x, int):
            v.append(int(x))
        else:
            raise AbsRaise(TypeError, f"'{tname(x)}' object cannot be interpreted as an integer")
    if any(isinstance(x, Poly) for x in v):
        if len(v) == 1:
            return SymRange(ZERO, P(v[0]))
        if len(v) == 2:
            return SymRange(P(v[0]), P(v[1]))
        raise Unmodelled('symbolic strided range')
    return range(*v)


@breg('zip')
def _zip(it, a, k):
    its = [it.iter_of(x) for x in a]
    strict = it.truth(k.get('strict', False))

    def nxt():
        out = []
        for n, i in enumerate(its):
            try:
                out.append(i.nxt())
            except Stop:
                if strict:
                    if n > 0:
                        raise AbsRaise(ValueError, f'zip() argument {n + 1} is shorter than argument {n}')
                    for m, j in enumerate(its[1:]):
                        try:
                            j.nxt()
                        except Stop:
                            continue
                        raise AbsRaise(ValueError, f'zip() argument {m + 2} is longer than argument 1')
                raise
        if not its:
            raise Stop()
        return tuple(out)
    return IterV(nxt, 'zip')


@breg('enumerate')
def _enum(it, a, k):
    i = it.iter_of(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    c = [st]

    def nxt():
        x = i.nxt()
        c[0] += 1
        return (c[0] - 1, x)
    return IterV(nxt, 'enumerate')


@breg('map')
def _map(it, a, k):
    its = [it.iter_of(x) for x in a[1:]]
    return IterV(lambda: it.call(a[0], [i.nxt() for i in its], {}), 'map')


@breg('filter')
def _filter(it, a, k):
    i = it.iter_of(a[1])

    def nxt():
        while True:
            x = i.nxt()
            if it.truth(x if a[0] is None else it.call(a[0], [x], {})):
                return x
    return IterV(nxt, 'filter')


@breg('iter')
def _iter(it, a, k):
    if len(a) == 2:
        def nxt():
            x = it.call(a[0], [], {})
            if it.truth(it.eq(x, a[1])):
                raise Stop()
            return x
        return IterV(nxt, 'callable_iterator')
    if isinstance(a[0], Inst):
        f = a[0].cls.find('__iter__')
        if f is not KeyError:
            return it.call(BoundM(f, a[0]), [], {})
        if a[0].cls.find('__next__') is KeyError and a[0].cls.kind != 'namedtuple':
            raise AbsRaise(TypeError, f"'{a[0].cls.name}' object is not iterable")
    return it.iter_of(a[0])


@breg('next')
def _next(it, a, k):
    v = a[0]
    if isinstance(v, Inst):
        f = v.cls.find('__next__')
        if f is KeyError:
            raise AbsRaise(TypeError, f"'{v.cls.name}' object is not an iterator")
        try:
            return it.call(BoundM(f, v), [], {})
        except AbsRaise as e:
            if issubclass(e.cls, StopIteration) and len(a) > 1:
                return a[1]
            raise
    if not isinstance(v, IterV):
        raise AbsRaise(TypeError, f"'{tname(v)}' object is not an iterator")
    try:
        return v.nxt()
    except Stop:
        if len(a) > 1:
            return a[1]
        raise AbsRaise(StopIteration, '')


@breg('sum')
def _sum(it, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it.iterate(a[0]):
        acc = L.binop(it, 'Add', acc, x)
    return acc


def _minmax(it, a, k, name):
    key, xs = k.get('key'), list(it.iterate(a[0])) if len(a) == 1 else list(a)
    if not xs:
        if 'default' in k:
            return k['default']
        raise AbsRaise(ValueError, f'{name}() arg is an empty sequence')
    kf = (lambda x: it.call(key, [x], {})) if key is not None else (lambda x: x)
    best, kb = xs[0], kf(xs[0])
    for x in xs[1:]:
        kx = kf(x)
        if it.truth(it.compare({'min': 'Lt', 'max': 'Gt'}[name], kx, kb)):
            best, kb = x, kx
    return best


BUILTINS['min'] = Builtin('min', lambda it, a, k: _minmax(it, a, k, 'min'))
BUILTINS['max'] = Builtin('max', lambda it, a, k: _minmax(it, a, k, 'max'))


@breg('abs')
def _abs(it, a, k):
    v = a[0]
    if is_num(v):
        return abs(v)
    r = elementwise(lambda x: fn('abs', x), v)
    return L.pyscalar(r.scalar(), v.py) if v.py and not v.tl else r


@breg('any')
def _any(it, a, k):
    return any(it.truth(x) for x in it.iterate(a[0]))


@breg('all')
def _all(it, a, k):
    return all(it.truth(x) for x in it.iterate(a[0]))


BUILTINS['isinstance'] = Builtin('isinstance', lambda it, a, k: it.isinstance_(a[0], a[1]))
BUILTINS['callable'] = Builtin('callable', lambda it, a, k: is_callable(a[0]))


@breg('issubclass')
def _issub(it, a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(a[0], ClassV):
        return any(t in a[0].mro() for t in ts) or any(getattr(t, 'name', '') == 'StrEnum' and a[0].kind == 'enum' for t in ts)
    if isinstance(a[0], TypeTok) and a[0].exc:
        return any(isinstance(t, TypeTok) and t.exc and issubclass(a[0].exc, t.exc) for t in ts)
    return any(a[0] is t for t in ts)


@breg('getattr')
def _getattr(it, a, k):
    try:
        return it.getattr(a[0], a[1])
    except AbsRaise as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError):
            return a[2]
        raise


@breg('hasattr')
def _hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except AbsRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


BUILTINS['setattr'] = Builtin('setattr', lambda it, a, k: it.setattr(a[0], a[1], a[2]))


@breg('sorted')
def _sorted(it, a, k):
    xs = list(it.iterate(a[0]))
    return _sort(it, xs, k)


def _sort(it, xs, k):
    import functools
    key = k.get('key')
    rev = it.truth(k.get('reverse', False))
    ks = [x if key is None else it.call(key, [x], {}) for x in xs]

    def cmp(i, j):
        if it.truth(it.compare('Lt', ks[i], ks[j])):
            return -1
        return 1 if it.truth(it.compare('Lt', ks[j], ks[i])) else 0
    order = sorted(range(len(xs)), key=functools.cmp_to_key(cmp), reverse=rev)
    return [xs[i] for i in order]


@breg('reversed')
def _reversed(it, a, k):
    return it.iter_of(list(it.iterate(a[0]))[::-1])


BUILTINS['print'] = Builtin('print', lambda it, a, k: None)
BUILTINS['repr'] = Builtin('repr', lambda it, a, k: repr(a[0]) if isinstance(a[0], (str, int, Q)) else f'<{tname(a[0])}>')
BUILTINS['id'] = Builtin('id', lambda it, a, k: id(a[0]))
BUILTINS['hash'] = Builtin('hash', lambda it, a, k: hash(a[0]))
BUILTINS['slice'] = Builtin('slice', lambda it, a, k: slice(*a))
BUILTINS['pow'] = Builtin('pow', lambda it, a, k: L.binop(it, 'Pow', a[0], a[1]))
BUILTINS['divmod'] = Builtin('divmod', lambda it, a, k: (L.binop(it, 'FloorDiv', a[0], a[1]), L.binop(it, 'Mod', a[0], a[1])))
BUILTINS['vars'] = Builtin('vars', lambda it, a, k: a[0].attrs)
BUILTINS['round'] = Builtin('round', lambda it, a, k: round(a[0], *a[1:]) if is_num(a[0]) else elementwise(lambda x: fn('round', x), a[0]))
BUILTINS['property'] = Builtin('property', lambda it, a, k: BoundM(a[0], 'property'))
BUILTINS['staticmethod'] = Builtin('staticmethod', lambda it, a, k: BoundM(a[0], 'static'))
BUILTINS['classmethod'] = Builtin('classmethod', lambda it, a, k: BoundM(a[0], 'classmethod'))
BUILTINS['NotImplemented'] = AnnV('NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__name__'] = '__abs__'


@breg('globals')
def _globals(it, a, k):
    return it.frames[-1][0].ns


# ------------------------------------------------------------------ functools / itertools / operator
@reg('functools.partial')
def _partial(it, a, k):
    if not is_callable(a[0]):
        raise AbsRaise(TypeError, 'the first argument must be callable')
    if isinstance(a[0], PartialV):
        return PartialV(a[0].func, tuple(a[0].args) + tuple(a[1:]), {**a[0].kwargs, **k})
    return PartialV(a[0], tuple(a[1:]), dict(k.items()))


LIB['functools.singledispatch'] = Builtin('singledispatch', lambda it, a, k: GenericV(a[0]))
LIB['functools.wraps'] = Builtin('wraps', lambda it, a, k: (list(a), dict(k.items()), Builtin('wraps', lambda it2, a2, k2: a2[0]))[2])
LIB['functools.update_wrapper'] = Builtin('update_wrapper', lambda it, a, k: a[0])


@reg('functools.reduce')
def _reduce(it, a, k):
    i = it.iter_of(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        try:
            acc = i.nxt()
        except Stop:
            raise AbsRaise(TypeError, 'reduce() of empty iterable with no initial value')
    for x in it.iterate(i):
        acc = it.call(a[0], [acc, x], {})
    return acc


def _memo(it, f):
    cache = []

    def g(it2, a, k):
        for ka, kk, r in cache:
            if ka == a and kk == k:
                return r
        r = it2.call(f, a, k)
        cache.append((list(a), dict(k), r))
        return r
    return Builtin('lru_cache', g)


@reg('functools.lru_cache')
def _lru(it, a, k):
    if a and is_callable(a[0]):
        return _memo(it, a[0])
    return Builtin('lru_cache', lambda it2, a2, k2: _memo(it2, a2[0]))


LIB['functools.cache'] = Builtin('cache', lambda it, a, k: _memo(it, a[0]))


@reg('itertools.starmap')
def _starmap(it, a, k):
    i = it.iter_of(a[1])
    return IterV(lambda: it.call(a[0], list(it.iterate(i.nxt())), {}), 'starmap')


def _chain(it, srcs):
    src = it.iter_of(srcs)
    cur = [None]

    def nxt():
        while True:
            if cur[0] is None:
                cur[0] = it.iter_of(src.nxt())
            try:
                return cur[0].nxt()
            except Stop:
                cur[0] = None
    return IterV(nxt, 'chain')


LIB['itertools.chain'] = Builtin('chain', lambda it, a, k: _chain(it, list(a)))
LIB['itertools.chain.from_iterable'] = Builtin('chain.from_iterable', lambda it, a, k: _chain(it, a[0]))


@reg('itertools.islice')
def _islice(it, a, k):
    i = it.iter_of(a[0])
    args = [None if x is None else toint(x) for x in a[1:]]
    idx = iter(itertools.islice(itertools.count(), *args))
    pos = [0]

    def nxt():
        try:
            t = next(idx)
        except StopIteration:
            raise Stop()
        while pos[0] < t:
            i.nxt()
            pos[0] += 1
        pos[0] += 1
        return i.nxt()
    return IterV(nxt, 'islice')


@reg('itertools.accumulate')
def _accumulate(it, a, k):
    out, acc, first = [], None, True
    f = a[1] if len(a) > 1 else k.get('func')
    if k.get('initial') is not None:
        acc, first = k['initial'], False
        out.append(acc)
    for x in it.iterate(a[0]):
        acc = x if first else (L.binop(it, 'Add', acc, x) if f is None else it.call(f, [acc, x], {}))
        first = False
        out.append(acc)
    return it.iter_of(out)


for _n in ('product', 'combinations', 'permutations', 'zip_longest', 'repeat', 'pairwise', 'combinations_with_replacement'):
    def _mk(n):
        def f(it, a, k):
            if n in ('combinations', 'permutations', 'combinations_with_replacement'):
                return it.iter_of(list(getattr(itertools, n)(list(it.iterate(a[0])), *a[1:])))
            if n == 'repeat':
                if len(a) == 1:
                    return IterV(lambda: a[0], 'repeat')
                return it.iter_of([a[0]] * toint(a[1]))
            return it.iter_of(list(getattr(itertools, n)(*[list(it.iterate(x)) for x in a], **k)))
        return f
    LIB['itertools.' + _n] = Builtin(_n, _mk(_n))


@reg('itertools.tee')
def _tee(it, a, k):
    n = a[1] if len(a) > 1 else 2
    src, buf, pos = it.iter_of(a[0]), [], [0] * n

    def mk(j):
        def nxt():
            if pos[j] == len(buf):
                buf.append(src.nxt())
            pos[j] += 1
            return buf[pos[j] - 1]
        return IterV(nxt, 'tee')
    return tuple(mk(j) for j in range(n))


@reg('itertools.count')
def _count(it, a, k):
    c = [(a[0] if a else 0) - 1]

    def nxt():
        c[0] += 1
        return c[0]
    return IterV(nxt, 'count')


for _n, _op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
                ('pow', 'Pow'), ('matmul', 'MatMult'), ('and_', 'BitAnd'), ('or_', 'BitOr')):
    LIB['operator.' + _n] = Builtin('operator.' + _n, (lambda o: lambda it, a, k: L.binop(it, o, a[0], a[1]))(_op))
LIB['operator.iadd'] = LIB['operator.add']
for _n, _op in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')):
    LIB['operator.' + _n] = Builtin('operator.' + _n, (lambda o: lambda it, a, k: it.compare(o, a[0], a[1]))(_op))
LIB['operator.neg'] = Builtin('operator.neg', lambda it, a, k: L.unop(it, 'USub', a[0]))
LIB['operator.not_'] = Builtin('operator.not_', lambda it, a, k: not it.truth(a[0]))
LIB['operator.getitem'] = Builtin('operator.getitem', lambda it, a, k: it.getitem(a[0], a[1]))
LIB['operator.itemgetter'] = Builtin('itemgetter', lambda it, a, k: Builtin(
    'itemgetter', lambda it2, a2, k2: it2.getitem(a2[0], a[0]) if len(a) == 1 else tuple(it2.getitem(a2[0], x) for x in a)))
LIB['operator.attrgetter'] = Builtin('attrgetter', lambda it, a, k: Builtin(
    'attrgetter', lambda it2, a2, k2: it2.getattr(a2[0], a[0])))


# ------------------------------------------------------------------ math
def mathfn(name, f):
    def g(it, a, k):
        p = []
        for x in a:
            if isinstance(x, Arr):
                if x.tl > 0:
                    raise AbsRaise(TypeError, f'ConcretizationTypeError: math.{name} of a traced array')
                p.append(x.scalar())
            elif is_num(x):
                if isinstance(x, float):
                    raise Unmodelled(f'math.{name} of {x}')
                p.append(P(x))
            else:
                raise AbsRaise(TypeError, f'must be real number, not {tname(x)}')
        return L.pyscalar(f(*p), 'float')
    LIB['math.' + name] = Builtin('math.' + name, g)


mathfn('sqrt', sqrt)
mathfn('exp', lambda x: fn('exp', x))
mathfn('log', lambda x, b=None: fn('log', x) if b is None else fn('log', x) / fn('log', b))
mathfn('log2', lambda x: fn('log', x) / fn('log', const(2)))
mathfn('log10', lambda x: fn('log', x) / fn('log', const(10)))
mathfn('pow', L.powf)
mathfn('fabs', lambda x: fn('abs', x))


def _intfn(name, f):
    def g(it, a, k):
        x = a[0]
        p = x.scalar() if isinstance(x, Arr) else P(x)
        return L.pyscalar(f(p), 'int')
    LIB['math.' + name] = Builtin('math.' + name, g)


_intfn('floor', lambda p: fn('floor', p))
_intfn('ceil', lambda p: -fn('floor', -p))
LIB['math.pi'] = LIB['np.pi'] = LIB['jnp.pi'] = scalar(PI, 'float', 0, 'float')
for _p in ('math', 'np', 'jnp'):
    LIB[_p + '.inf'] = float('inf')
    LIB[_p + '.nan'] = float('nan')
    LIB[_p + '.e'] = scalar(fn('exp', ONE), 'float', 0, 'float')


@reg('math.prod')
def _mprod(it, a, k):
    acc = k.get('start', 1)
    for x in it.iterate(a[0]):
        acc = L.binop(it, 'Mult', acc, x)
    return acc


LIB['math.isnan'] = Builtin('math.isnan', lambda it, a, k: a[0] != a[0] if is_num(a[0]) else scalar(fn('isnan', a[0].scalar()), 'bool', 0, 'bool'))
LIB['math.isinf'] = Builtin('math.isinf', lambda it, a, k: abs(a[0]) == float('inf') if is_num(a[0]) else scalar(fn('isinf', a[0].scalar()), 'bool', 0, 'bool'))
LIB['math.isfinite'] = Builtin('math.isfinite', lambda it, a, k: a[0] == a[0] and abs(a[0]) != float('inf') if is_num(a[0]) else scalar(ONE - fn('isnan', a[0].scalar()), 'bool', 0, 'bool'))


# ------------------------------------------------------------------ dataclasses / contextlib / misc
def _mkdc(it, c, k):
    c.kind = 'dataclass'
    c.frozen = it.truth(k.get('frozen', False))
    return c


@reg('dataclasses.dataclass')
def _dataclass(it, a, k):
    if a:
        return _mkdc(it, a[0], k)
    return Builtin('dataclass', lambda it2, a2, k2: _mkdc(it2, a2[0], k))


@reg('dataclasses.field')
def _field(it, a, k):
    if 'default_factory' in k:
        return ('factory', k['default_factory'])
    return k.get('default', KeyError)


@reg('dataclasses.replace')
def _dreplace(it, a, k):
    o = a[0]
    return it.instantiate(o.cls, [], {**{n: o.attrs[n] for n in it.all_fields(o.cls)}, **k})


LIB['dataclasses.asdict'] = Builtin('asdict', lambda it, a, k: {n: a[0].attrs[n] for n in it.all_fields(a[0].cls)})


@reg('dataclasses.fields')
def _fields(it, a, k):
    c = a[0].cls if isinstance(a[0], Inst) else a[0]

    class F:
        pass
    out = []
    for n in it.all_fields(c):
        f = F()
        f.name = n
        f.attrs = {'name': n}
        out.append(f)
    return tuple(out)


class CM:
    """Context manager built from a generator function."""
    def __init__(self, gen):
        self.gen = gen


@reg('contextlib.contextmanager')
def _cm(it, a, k):
    f = a[0]

    def make(it2, a2, k2):
        g = it2.call(f, a2, k2)
        if not isinstance(g, IterV) or not hasattr(g, 'gen'):
            raise Unmodelled('contextmanager of a non generator')
        return CM(g.gen)
    return Builtin('contextmanager', make)


def cm_enter(it, c):
    try:
        return c.gen.resume()
    except Stop:
        raise AbsRaise(RuntimeError, "generator didn't yield")


def cm_exit(it, c, cls, val):
    if cls is None:
        try:
            c.gen.resume()
        except Stop:
            return False
        raise AbsRaise(RuntimeError, "generator didn't stop")
    e = it.cur_exc
    try:
        c.gen.resume(('throw', e))
    except Stop:
        return True
    except AbsRaise as e2:
        if e2 is e:
            return False
        raise
    raise AbsRaise(RuntimeError, "generator didn't stop after throw()")


class SimpleCM:
    def __init__(self, enter=None, exit_=None):
        self.enter, self.exit_ = enter, exit_


LIB['contextlib.nullcontext'] = Builtin('nullcontext', lambda it, a, k: SimpleCM(lambda it2: a[0] if a else None, lambda it2, t: False))


@reg('contextlib.suppress')
def _suppress(it, a, k):
    return SimpleCM(lambda it2: None, lambda it2, t: t is not None and any(
        isinstance(x, TypeTok) and x.exc and t.exc and issubclass(t.exc, x.exc) for x in a))


@reg('warnings.warn')
def _warn(it, a, k):
    it.effect('warn', msg=a[0] if a and isinstance(a[0], str) else '')


LIB['warnings.catch_warnings'] = Builtin('catch_warnings', lambda it, a, k: SimpleCM(lambda it2: None, lambda it2, t: False))
LIB['warnings.simplefilter'] = LIB['warnings.filterwarnings'] = Builtin('simplefilter', lambda it, a, k: None)
_tick = itertools.count()
for _n in ('perf_counter', 'time', 'monotonic', 'process_time'):
    LIB['time.' + _n] = Builtin('time.' + _n, lambda it, a, k: scalar(sym(f'time{next(_tick)}'), 'float', 0, 'float'))
for _n in ('debug', 'info', 'warning', 'error', 'success', 'critical', 'trace', 'exception', 'log'):
    LIB['loguru.logger.' + _n] = Builtin('logger', lambda it, a, k: None)
for _n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'):
    LIB['logging.' + _n] = Builtin('logging', lambda it, a, k: None)


class LoggerV:
    pass


LIB['logging.getLogger'] = Builtin('getLogger', lambda it, a, k: LoggerV())


class TqdmV:
    def __init__(self, src):
        self.src = src

    def abs_iter(self, it):
        return it.iter_of(self.src)

    def abs_len(self, it):
        return L.BUILTINS['len'].f(it, [self.src], {})


LIB['tqdm.tqdm'] = LIB['tqdm.auto.tqdm'] = Builtin('tqdm', lambda it, a, k: TqdmV(a[0] if a else k.get('iterable')))
LIB['tqdm.trange'] = Builtin('trange', lambda it, a, k: TqdmV(L.BUILTINS['range'].f(it, a, {})))
LIB['importlib.metadata.version'] = Builtin('version', lambda it, a, k: '0')


def _copy(it, v, deep, memo):
    if isinstance(v, dict):
        return {kk: _copy(it, x, deep, memo) if deep else x for kk, x in v.items()}
    if isinstance(v, list):
        return [_copy(it, x, deep, memo) if deep else x for x in v]
    if isinstance(v, tuple) and deep:
        return tuple(_copy(it, x, deep, memo) for x in v)
    if isinstance(v, set):
        return set(v)
    if isinstance(v, Inst):
        r = Inst(v.cls)
        r.attrs = {kk: _copy(it, x, deep, memo) if deep else x for kk, x in v.attrs.items()}
        return r
    return v


LIB['copy.copy'] = Builtin('copy', lambda it, a, k: _copy(it, a[0], False, {}))
LIB['copy.deepcopy'] = Builtin('deepcopy', lambda it, a, k: _copy(it, a[0], True, {}))


class DefaultDict(dict):
    __hash__ = None


@reg('collections.defaultdict')
def _dd(it, a, k):
    d = DefaultDict()
    d.default_factory = a[0] if a else None
    d.update(L._dict(it, a[1:], k))
    return d


LIB['collections.OrderedDict'] = BUILTINS['dict']
LIB['collections.deque'] = Builtin('deque', lambda it, a, k: list(it.iterate(a[0])) if a else [])
