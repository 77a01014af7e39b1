"""Attribute access and methods of builtin values and arrays."""
from .lib import *
from . import lib as L
from . import lib2 as L2
from .lib import BUILTINS, LIB, EXC
import string as _string


def B(name, f):
    return Builtin(name, f)


def _ax_kw(a, k, pos=0, name='axis', default=None):
    return a[pos] if len(a) > pos else k.get(name, default)


def call_np(it, name, args, k):
    return LIB['jnp.' + name].f(it, args, k)


ARRAY_NAMES = set((
    'T addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval '
    'block_until_ready choose clip clone committed compress conj conjugate copy copy_to_host_async cumprod cumsum '
    'delete device diagonal devices dot dtype flat flatten global_shards imag is_deleted is_fully_addressable '
    'is_fully_replicated is_ready item itemsize layout mT max mean min nbytes ndim nonzero platform prod ptp ravel '
    'real repeat reshape round searchsorted shape sharding size sort squeeze std sum swapaxes take to_device tobytes '
    'tolist trace transpose unsafe_buffer_pointer var view weak_type').split())


def noattr(kind, names, n):
    """AttributeError if the real object has no such attribute, Unmodelled if it has."""
    if n in names or n.startswith('__') and n.endswith('__') and n not in ('__wrapped__',):
        return Unmodelled(f'attribute {n} of {kind}')
    return AbsRaise(AttributeError, f"'{kind}' object has no attribute '{n}'")


ARR_METHODS = ('sum mean max min prod std var argmax argmin any all reshape ravel transpose squeeze dot clip round '
               'cumsum repeat take diagonal trace swapaxes conj argsort sort').split()


def arr_attr(it, o, n):
    if o.py and not o.axes:
        if n in ('shape', 'at', 'T', 'reshape', 'ravel', 'astype', 'sum', 'mean', 'dtype', 'ndim', 'size'):
            raise AbsRaise(AttributeError, f"'{o.py}' object has no attribute '{n}'")
        if n == 'is_integer':
            raise Unmodelled('is_integer')
        if n in ('real',):
            return o
    if n == 'shape':
        return o.shape
    if n == 'ndim':
        return o.ndim
    if n == 'size':
        d = ONE
        for x in o.dims:
            d = d * x
        return pyint(d)
    if n == 'dtype':
        return DT(o.dtype)
    if n in ('T', 'mT'):
        return transpose(o) if n == 'T' or o.ndim == 2 else transpose(o, tuple(range(o.ndim - 2)) + (o.ndim - 1, o.ndim - 2))
    if n in ('real',):
        return o
    if n == 'at':
        return AtProxy(o)
    if n == 'astype':
        def astype(it2, a, k):
            d = dtype_of(a[0] if a else k['dtype'])
            return cast(o, d)
        return B('astype', astype)
    if n == 'item':
        def item(it2, a, k):
            if o.tl > 0:
                raise AbsRaise(TypeError, 'ConcretizationTypeError: item() of a traced array', where=it.where())
            return L.pyscalar(o.scalar(), 'int' if o.dtype == 'int' else 'float')
        return B('item', item)
    if n == 'tolist':
        def tolist(it2, a, k):
            if o.tl > 0:
                raise AbsRaise(TypeError, 'ConcretizationTypeError: tolist() of a traced array', where=it.where())

            def go(x):
                if not x.ndim:
                    return L.pyscalar(x.scalar(), 'int' if o.dtype == 'int' else 'float')
                return [go(y) for y in it.iterate(x)]
            return go(o)
        return B('tolist', tolist)
    if n in ('flatten',):
        return B('flatten', lambda it2, a, k: call_np(it2, 'ravel', [o, *a], dict(k.items())))
    if n in ('block_until_ready', 'copy', '__array__', 'view'):
        return B(n, lambda it2, a, k: o)
    if n == 'reshape':
        def rs(it2, a, k):
            sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a) or k.get('shape')
            return call_np(it2, 'reshape', [o, sh], {'order': k['order']} if 'order' in k else {})
        return B('reshape', rs)
    if n == 'transpose':
        def tr(it2, a, k):
            p = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (tuple(a) or None)
            return transpose(o, p)
        return B('transpose', tr)
    if n in ARR_METHODS:
        return B('Array.' + n, lambda it2, a, k: call_np(it2, n, [o] + a, k))
    if n in ('__add__', '__mul__', '__sub__', '__matmul__', '__truediv__', '__pow__'):
        op = {v: kk for kk, v in L.DUNDER.items()}[n]
        return B(n, lambda it2, a, k: L.binop(it2, op, o, a[0]))
    if n == '__len__' and o.ndim:
        return B(n, lambda it2, a, k: o.shape[0])
    if n == '__iter__' and o.ndim:
        return B(n, lambda it2, a, k: it2.iter_of(o))
    if n == '__getitem__':
        return B(n, lambda it2, a, k: L.arr_getitem(it2, o, a[0]))
    if n == '__class__':
        return LIB['jax.Array']
    if n in ('devices', 'device', 'sharding', 'nbytes', 'itemsize', 'weak_type', 'imag', 'is_fully_addressable'):
        raise Unmodelled(f'array attribute {n}')
    raise noattr('ArrayImpl', ARRAY_NAMES, n)


CFG = {}


def dtype_of(d):
    n = dtype_name(d)
    if n == 'float64' and CFG.get('jax_enable_x64') is False:
        return 'float32'         # jax truncates while x64 is disabled
    return n


def dtype_name(d):
    if isinstance(d, DT):
        return d.name
    if isinstance(d, str):
        return {'f4': 'float32', 'f8': 'float64'}.get(d, d) if not d.startswith('int') else 'int'
    if isinstance(d, TypeTok):
        return {'int': 'int', 'float': 'float', 'bool': 'bool'}.get(d.name) or _bad(d)
    if d is None:
        return 'float'
    raise Unmodelled(f'dtype {d!r}')


def _bad(d):
    raise AbsRaise(TypeError, f'Cannot interpret {d!r} as a data type')


def cast(o, d):
    if d in ('float16', 'bfloat16'):
        return Arr(o.axes, lambda idx: fn('HALF', o.at(*idx)), d, o.tl)      # a visible rounding
    if d == 'int' and o.dtype not in ('int', 'bool'):
        r = Arr(o.axes, lambda idx: fn('trunc', o.at(*idx)), 'int', o.tl)
        return r
    if d == 'bool' and o.dtype != 'bool':
        return Arr(o.axes, lambda idx: ONE - delta_real(o.at(*idx)), 'bool', o.tl)
    return Arr(o.axes, lambda idx: o.at(*idx), d, o.tl)


def at_method(it, o, n):
    if n in ('set', 'add', 'multiply', 'mul', 'min', 'max', 'subtract', 'divide', 'power'):
        def f(it2, a, k):
            v = a[0]
            if n == 'subtract':
                return scatter(it2, o.a, o.k, L.unop(it2, 'USub', v), 'add')
            if isinstance(v, Arr) and it.in_jit:
                pass
            return scatter(it2, o.a, o.k, v, n)
        return B('at.' + n, f)
    if n == 'get':
        return B('at.get', lambda it2, a, k: L.arr_getitem(it2, o.a, o.k))
    raise noattr('_IndexUpdateRef', {'apply', 'power', 'subtract', 'mul'}, n)


def dict_method(it, o, n):
    def mut(f):
        def g(it2, a, k):
            it2.mutated(o, n)
            return f(it2, a, k)
        return B('dict.' + n, g)

    if n == 'get':
        return B('dict.get', lambda it2, a, k: o[a[0]] if a[0] in o else (a[1] if len(a) > 1 else k.get('default')))
    if n == 'items':
        return B('dict.items', lambda it2, a, k: DView((x, y) for x, y in o.items()))
    if n == 'keys':
        return B('dict.keys', lambda it2, a, k: DView(o))
    if n == 'values':
        return B('dict.values', lambda it2, a, k: list(o.values()))
    if n == 'copy':
        return B('dict.copy', lambda it2, a, k: dict(o))
    if n == '__contains__':
        return B('dict.__contains__', lambda it2, a, k: a[0] in o)
    if n == '__getitem__':
        return B('dict.__getitem__', lambda it2, a, k: it2.getitem(o, a[0]))
    if n == 'update':
        return mut(lambda it2, a, k: o.update(L._dict(it2, a, k)))
    if n == 'setdefault':
        return mut(lambda it2, a, k: o.setdefault(a[0], a[1] if len(a) > 1 else None))
    if n == 'clear':
        return mut(lambda it2, a, k: o.clear())
    if n == 'pop':
        def pop(it2, a, k):
            if a[0] in o:
                return o.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise AbsRaise(KeyError, repr(a[0]), where=it.where())
        return mut(pop)
    if n == 'popitem':
        return mut(lambda it2, a, k: o.popitem())
    if n == '__setitem__':
        return mut(lambda it2, a, k: o.__setitem__(a[0], a[1]))
    if n == 'fromkeys':
        return B('fromkeys', lambda it2, a, k: dict.fromkeys(it2.iterate(a[0]), a[1] if len(a) > 1 else None))
    raise noattr('dict', dir(dict), n)


def list_method(it, o, n):
    def mut(f):
        def g(it2, a, k):
            it2.mutated(o, n)
            return f(it2, a, k)
        return B('list.' + n, g)
    if n == 'append':
        return mut(lambda it2, a, k: o.append(a[0]))
    if n == 'extend':
        return mut(lambda it2, a, k: o.extend(list(it2.iterate(a[0]))))
    if n == 'insert':
        return mut(lambda it2, a, k: o.insert(toint(a[0]), a[1]))
    if n == 'clear':
        return mut(lambda it2, a, k: o.clear())
    if n == 'reverse':
        return mut(lambda it2, a, k: o.reverse())
    if n == 'pop':
        def pop(it2, a, k):
            if not o:
                raise AbsRaise(IndexError, 'pop from empty list')
            return o.pop(*[toint(x) for x in a])
        return mut(pop)
    if n == 'remove':
        def rem(it2, a, k):
            for j, x in enumerate(o):
                if it2.truth(it2.eq(x, a[0])):
                    del o[j]
                    return None
            raise AbsRaise(ValueError, 'list.remove(x): x not in list')
        return mut(rem)
    if n == 'sort':
        def srt(it2, a, k):
            o[:] = L2._sort(it2, list(o), k)
        return mut(srt)
    if n == 'copy':
        return B('list.copy', lambda it2, a, k: list(o))
    return seq_method(it, o, n)


def seq_method(it, o, n):
    if n in getattr(o, 'names', ()):
        return o.names[n]
    if n == '_fields' and hasattr(o, 'names'):
        return tuple(o.names)
    if n == 'index':
        def index(it2, a, k):
            for j, x in enumerate(o):
                if it2.truth(it2.eq(x, a[0])):
                    return j
            raise AbsRaise(ValueError, 'is not in list')
        return B('index', index)
    if n == 'count':
        return B('count', lambda it2, a, k: sum(1 for x in o if it2.truth(it2.eq(x, a[0]))))
    if n == '__len__':
        return B('__len__', lambda it2, a, k: len(o))
    if n == '__iter__':
        return B('__iter__', lambda it2, a, k: it2.iter_of(o))
    if n == '__getitem__':
        return B('__getitem__', lambda it2, a, k: it2.getitem(o, a[0]))
    if n == '__contains__':
        return B('__contains__', lambda it2, a, k: it2.contains(o, a[0]))
    raise noattr(tname(o), dir(list if isinstance(o, list) else tuple), n)


def set_method(it, o, n):
    if n in ('add', 'discard', 'update', 'remove', 'clear', 'pop'):
        def g(it2, a, k):
            it2.mutated(o, n)
            if n == 'update':
                for x in a:
                    o.update(it2.iterate(x))
                return None
            if n == 'remove' and a[0] not in o:
                raise AbsRaise(KeyError, repr(a[0]))
            return getattr(o, n)(*a)
        return B('set.' + n, g)
    if n in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'symmetric_difference', 'isdisjoint'):
        return B('set.' + n, lambda it2, a, k: getattr(set(o), n)(*[list(it2.iterate(x)) for x in a]))
    if n == 'copy':
        return B('set.copy', lambda it2, a, k: set(o))
    raise noattr('set', dir(set), n)


def str_method(it, o, n):
    if isinstance(o, EnumMember):
        if n in ('value', '_value_'):
            return str.__str__(o) if isinstance(o, str) else o.value
        if n in ('name', '_name_'):
            return o.name
        if n == '__class__':
            return o.owner
    if n == 'join':
        return B('join', lambda it2, a, k: str.join(str.__str__(o), [str(x) for x in it2.iterate(a[0])]))
    if n == 'format':
        return B('format', lambda it2, a, k: str.__str__(o))
    if n == '__class__':
        return BUILTINS['str']
    if hasattr(str, n) and not n.startswith('__'):
        return B('str.' + n, lambda it2, a, k: getattr(str.__str__(o), n)(*a, **k))
    raise noattr('str', dir(str), n)


def iter_method(it, o, n):
    if n == '__next__':
        return B('__next__', lambda it2, a, k: L2._next(it2, [o], {}))
    if n == '__iter__':
        return B('__iter__', lambda it2, a, k: o)
    if n == 'close':
        return B('close', lambda it2, a, k: None)
    raise noattr(o.name, {'send', 'throw', 'close'}, n)


class Finfo:
    def __init__(self, d):
        self.d = d


def getattr_(it, o, n):
    if isinstance(o, Arr):
        return arr_attr(it, o, n)
    if isinstance(o, AtRef):
        return at_method(it, o, n)
    if isinstance(o, dict):
        return dict_method(it, o, n)
    if isinstance(o, DView):
        if n == 'mapping':
            raise Unmodelled('mapping of a view')
        if n == 'isdisjoint':
            return set_method(it, as_set(o), n)
        raise noattr('dict_keys', dir({}.keys()), n)
    if isinstance(o, list):
        return list_method(it, o, n)
    if isinstance(o, (tuple, range)):
        return seq_method(it, o, n)
    if isinstance(o, (set, frozenset)):
        return set_method(it, o, n)
    if isinstance(o, str):
        return str_method(it, o, n)
    if isinstance(o, IterV):
        return iter_method(it, o, n)
    if isinstance(o, Func):
        if n in o.attrs if hasattr(o, 'attrs') else False:
            return o.attrs[n]
        if n in ('__name__',):
            return o.name
        if n == '__qualname__':
            return o.qual
        if n == '__wrapped__':
            raise AbsRaise(AttributeError, '__wrapped__')
        if n == '__module__':
            return o.module.name
        if n in ('__doc__',):
            return None
        raise noattr('function', {'__closure__'}, n)
    if isinstance(o, Builtin):
        if n == '__name__':
            return o.name
        sub = ext(o.name + '.' + n) if o.name + '.' + n in LIB else None
        if sub is not None:
            return sub
        if o.name == 'chain' and n == 'from_iterable':
            return LIB['itertools.chain.from_iterable']
        if o.name == 'dict' and n == 'fromkeys':
            return dict_method(it, {}, n)
        if n in getattr(o, 'attrs', {}):
            return o.attrs[n]
        if n == 'outer' and o.name in ('jnp.add', 'jnp.subtract', 'jnp.multiply', 'jnp.logical_and', 'jnp.logical_or'):
            def outer(it2, a, k):
                x, y = L.asarr(a[0]), L.asarr(a[1])
                ix = call_np(it2, 'expand_dims', [x, tuple(range(x.ndim, x.ndim + y.ndim))], {}) if y.ndim else x
                return it2.call(o, [ix, y], {})
            return B(o.name + '.outer', outer)
        if n == '__wrapped__':
            raise AbsRaise(AttributeError, '__wrapped__')
        if LIB.get(o.name) is o or '.' in o.name:
            raise Unmodelled(f'attribute {n} of {o.name}')
        raise noattr(o.name, (), n)
    if isinstance(o, PartialV):
        if n == 'func':
            return o.func
        if n == 'args':
            return tuple(o.args)
        if n == 'keywords':
            return dict(o.kwargs)
        raise noattr('functools.partial', (), n)
    if isinstance(o, BoundM):
        if n == '__name__':
            return getattr(o.func, 'name', 'method')
        if n == '__func__':
            return o.func
        if n == '__self__':
            return o.obj
        raise AbsRaise(AttributeError, n)
    if isinstance(o, GenericV):
        if n == 'register':
            def register(it2, a, k):
                if len(a) == 3 or (len(a) == 2 and not isinstance(a[0], GenericV)):
                    o.table.append((a[-2], a[-1]))
                    return a[-1]
                t = a[-1]
                if isinstance(t, Func):
                    ann = t.node.args.posonlyargs + t.node.args.args
                    raise Unmodelled('singledispatch.register called indirectly')

                def dec(it3, a3, k3):
                    o.table.append((t, a3[0]))
                    return a3[0]
                return Builtin('register', dec)
            return BoundM(Builtin('singledispatch.register', register), o)
        if n == 'dispatch':
            def disp(it2, a, k):
                for t, g in reversed(o.table):
                    if t is a[0]:
                        return g
                return o.default
            return Builtin('dispatch', disp)
        if n == '__name__':
            return o.default.name
        raise AbsRaise(AttributeError, n)
    if isinstance(o, ExcV):
        if n == 'args':
            return tuple(o.args)
        if n in o.attrs:
            return o.attrs[n]
        if n == 'with_traceback':
            return B(n, lambda it2, a, k: o)
        if n == 'add_note':
            return B(n, lambda it2, a, k: None)
        if n in ('__cause__', '__context__', '__traceback__'):
            return None
        c = o.attrs.get('__cls__')
        if c is not None:
            f = c.find(n)
            if f is not KeyError:
                return BoundM(f, o) if isinstance(f, Func) else f
        raise AbsRaise(AttributeError, n)
    if isinstance(o, L2.CM):
        if n == '__enter__':
            return B(n, lambda it2, a, k: L2.cm_enter(it2, o))
        if n == '__exit__':
            return B(n, lambda it2, a, k: L2.cm_exit(it2, o, a[0], a[1]))
    if isinstance(o, L2.SimpleCM):
        if n == '__enter__':
            return B(n, lambda it2, a, k: o.enter(it2))
        if n == '__exit__':
            return B(n, lambda it2, a, k: o.exit_(it2, a[0]))
    if isinstance(o, L2.LoggerV):
        return B('logger', lambda it2, a, k: None)
    if isinstance(o, DT):
        if n in ('name',):
            return o.name
        if n in ('type', 'dtype'):
            return o
        if n == 'kind':
            return {'int': 'i', 'bool': 'b'}.get(o.name, 'f')
        if n == 'itemsize':
            return {'float64': 8, 'float32': 4}.get(o.name, 4)
        raise AbsRaise(AttributeError, n)
    if isinstance(o, Finfo):
        if n in ('eps', 'tiny', 'max', 'min', 'resolution', 'smallest_normal'):
            p = sym(f'finfo.{o.d}.{n}', 'pos') if n != 'min' else -sym(f'finfo.{o.d}.max', 'pos')
            return scalar(p, 'float')
        if n == 'dtype':
            return DT(o.d)
        if n == 'bits':
            return {'float64': 64, 'float32': 32}.get(o.d, 32)
    if isinstance(o, TypeTok):
        if n == '__name__':
            return o.name
        m = {'dict': {}, 'str': '', 'list': [], 'set': set()}.get(o.name)
        if m is not None:
            if o.name == 'dict' and n == 'fromkeys':
                return dict_method(it, {}, n)
            return B(o.name + '.' + n, lambda it2, a, k: it2.call(it2.getattr(a[0], n), a[1:], k))
        if n in ('mro',):
            raise Unmodelled('mro')
        return AnnV(n)
    if isinstance(o, AnnV):
        return AnnV(n)
    if isinstance(o, L.TreeDef):
        if n == 'num_leaves':
            return o.n()
        if n == 'unflatten':
            return B(n, lambda it2, a, k: L.tree_unflatten(it2, o, it2.iterate(a[0])))
        if n == 'flatten_up_to':
            return B(n, lambda it2, a, k: L.flatten_up_to(it2, o, a[0]))
    if isinstance(o, slice) and n in ('start', 'stop', 'step'):
        return getattr(o, n)
    if o is None or isinstance(o, (int, Q, float)):
        if n == '__class__':
            return L._type(it, [o], {})
        if isinstance(o, Q) and n == 'is_integer':
            return B(n, lambda it2, a, k: o.denominator == 1)
        if isinstance(o, (int, Q)) and n == 'real':
            return o
        raise noattr(tname(o), dir(o) if o is None or isinstance(o, int) else dir(float), n)
    at = getattr(o, 'abs_getattr', None)
    if at is not None:
        return at(it, n)
    at = getattr(o, 'attrs', None)
    if isinstance(at, dict) and n in at:
        return at[n]
    raise Unmodelled(f'attribute {n} of {type(o).__name__}')


L.getattr_ = getattr_
