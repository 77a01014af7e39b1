"""Transfer functions: the meaning of Python builtins and library operations."""
import itertools
from .arr import *
from .arr import AbsRaise
from . import interp as I
from .interp import (DView, as_set, Builtin, TypeTok, UnionV, AnnV, DT, ExtV, ClassV, Inst, Func, PartialV, BoundM,
                     GenericV, IterV, Stop, ExcV, EnumMember, ModuleV, delta_real, tname)

BUILTINS = {}
LIB = {}
EXC = {}

for _n in ('BaseException Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError '
           'NotImplementedError StopIteration ZeroDivisionError ArithmeticError LookupError NameError ImportError '
           'ModuleNotFoundError AssertionError OverflowError FloatingPointError OSError UnboundLocalError '
           'Warning UserWarning RuntimeWarning DeprecationWarning KeyboardInterrupt GeneratorExit SystemExit').split():
    _c = getattr(__builtins__, _n, None) if not isinstance(__builtins__, dict) else __builtins__[_n]
    EXC[_n] = TypeTok(_n, (lambda c: lambda v: isinstance(v, ExcV) and issubclass(v.cls, c))(_c), exc=_c)
    BUILTINS[_n] = EXC[_n]


def ext(path):
    p = canon(path)
    if p in LIB:
        return LIB[p]
    return ExtV(p)


def canon(path):
    for a, b in (('jax.numpy', 'jnp'), ('numpy', 'np'), ('jax.tree_util.tree_', 'jax.tree.'),
                 ('jax.Array', 'jax.Array')):
        if path == a:
            return b
        if path.startswith(a + '.') or (a.endswith('_') and path.startswith(a)):
            return b + path[len(a):]
    return path


def reg(*names):
    def d(f):
        for n in names:
            LIB[n] = Builtin(n, f)
        return f
    return d


def breg(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = Builtin(n, f)
        return f
    return d


def simple(*names):
    """Register a plain python function f(*args, **kwargs) (no interpreter access)."""
    def d(f):
        def g(it, a, k):
            try:
                return f(*a, **k)
            except TypeError as e:
                if 'argument' in str(e) and f.__name__ in str(e):
                    raise AbsRaise(TypeError, str(e))
                raise
        for n in names:
            LIB[n] = Builtin(n, g)
        return f
    return d


# ------------------------------------------------------------------ callability
def is_callable(v):
    if isinstance(v, (Func, Builtin, PartialV, BoundM, ClassV, GenericV, DT)):
        return True
    if isinstance(v, TypeTok):
        return True
    if isinstance(v, Inst):
        return v.cls.find('__call__') is not KeyError
    if isinstance(v, ExtV):
        raise Unmodelled(f'callable({v.path})')
    return False


def is_iterable(v):
    if isinstance(v, (list, tuple, dict, str, set, frozenset, range, IterV)):
        return True
    if isinstance(v, Arr):
        return not v.py
    if isinstance(v, Inst):
        return v.cls.find('__iter__') is not KeyError or v.cls.kind == 'namedtuple'
    return hasattr(v, 'abs_iter')


def is_float(v):
    return isinstance(v, (Q, float)) and not isinstance(v, bool) or isinstance(v, Arr) and v.py == 'float'


def is_pyint(v):
    return isinstance(v, int) or isinstance(v, Arr) and v.py in ('int', 'bool')


def _t(name, test, call=None):
    return TypeTok(name, test, None, call)


def _int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, Arr):
        if v.tl > 0:
            raise AbsRaise(TypeError, 'ConcretizationTypeError: int() of a traced array', where=it.where())
        p = v.scalar()
        c = const_val(p)
        if c is not None:
            return int(c)
        if v.dtype in ('int', 'bool'):
            return scalar(p, 'int', 0, 'int')
        return scalar(fn('trunc', p), 'int', 0, 'int')
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise AbsRaise(ValueError, str(e))
    if isinstance(v, (int, Q)):
        return int(v)
    raise AbsRaise(TypeError, f'int() argument must be a number, not {tname(v)}')


def _float(it, a, k):
    if not a:
        return Q(0)
    v = a[0]
    if isinstance(v, Arr):
        if v.tl > 0:
            raise AbsRaise(TypeError, 'ConcretizationTypeError: float() of a traced array', where=it.where())
        return scalar(v.scalar(), 'float', 0, 'float')
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError as e:
            raise AbsRaise(ValueError, str(e))
        return f if f != f or abs(f) == float('inf') else Q(v)
    if isinstance(v, float):
        return v
    if isinstance(v, (int, Q)):
        return Q(v)
    raise AbsRaise(TypeError, f'float() argument must be a number, not {tname(v)}')


def _bool(it, a, k):
    return it.truth(a[0]) if a else False


def _str(it, a, k):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, EnumMember):
        return str.__str__(v)
    return str(v) if isinstance(v, (str, int, Q)) else f'<{tname(v)}>'


def _list(it, a, k):
    return list(it.iterate(a[0])) if a else []


def _tuple(it, a, k):
    return tuple(it.iterate(a[0])) if a else ()


def _dict(it, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in it.iterate(a[0]):
                kk, vv = it.iterate(x)
                d[kk] = vv
    d.update(k)
    return d


def _set(it, a, k):
    return set(it.iterate(a[0])) if a else set()


def _type(it, a, k):
    v = a[0]
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, EnumMember):
        return v.owner
    for n in ('bool', 'int', 'str', 'list', 'tuple', 'dict', 'set'):
        t = BUILTINS[n]
        if t.test(v):
            return t
    if isinstance(v, (Q, float)):
        return BUILTINS['float']
    if isinstance(v, Arr):
        return LIB['jax.Array']
    return _t(tname(v), lambda x: False)


for _n, _f, _c in (
        ('int', lambda v: is_pyint(v), _int), ('float', is_float, _float),
        ('bool', lambda v: isinstance(v, bool) or isinstance(v, Arr) and v.py == 'bool', _bool),
        ('str', lambda v: isinstance(v, str), _str), ('list', lambda v: isinstance(v, list), _list),
        ('tuple', lambda v: isinstance(v, tuple) or isinstance(v, Inst) and v.cls.kind == 'namedtuple', _tuple),
        ('dict', lambda v: isinstance(v, dict), _dict), ('set', lambda v: isinstance(v, set), _set),
        ('frozenset', lambda v: isinstance(v, frozenset), lambda it, a, k: frozenset(it.iterate(a[0])) if a else frozenset()),
        ('type', lambda v: isinstance(v, (ClassV, TypeTok)), _type),
        ('object', lambda v: True, lambda it, a, k: object()),
        ('complex', lambda v: False, None), ('bytes', lambda v: isinstance(v, bytes), None)):
    BUILTINS[_n] = _t(_n, _f, _c)

T_CALLABLE = _t('Callable', is_callable)
T_ITERABLE = _t('Iterable', is_iterable)
T_MAPPING = _t('Mapping', lambda v: isinstance(v, dict))
for _m in ('collections.abc', 'typing'):
    LIB[_m + '.Callable'] = T_CALLABLE
    LIB[_m + '.Iterable'] = T_ITERABLE
    LIB[_m + '.Iterator'] = _t('Iterator', lambda v: isinstance(v, IterV) or isinstance(v, Inst) and v.cls.find('__next__') is not KeyError)
    LIB[_m + '.Generator'] = _t('Generator', lambda v: isinstance(v, IterV) and v.name in ('generator', 'genexpr'))
    LIB[_m + '.Mapping'] = T_MAPPING
    LIB[_m + '.MutableMapping'] = T_MAPPING
    LIB[_m + '.Sequence'] = _t('Sequence', lambda v: isinstance(v, (list, tuple, str, range)))
    LIB[_m + '.Sized'] = _t('Sized', lambda v: isinstance(v, (list, tuple, str, range, dict, set)))
    LIB[_m + '.Hashable'] = _t('Hashable', lambda v: not isinstance(v, (list, dict, set)))
    LIB[_m + '.Any'] = AnnV('Any')
for _n in ('Any Optional Union Literal TypeVar Generic Protocol NamedTuple TypeAlias ClassVar Final overload TYPE_CHECKING '
           'Annotated Self').split():
    LIB['typing.' + _n] = AnnV(_n)
LIB['typing.TYPE_CHECKING'] = False
LIB['typing.TypeVar'] = Builtin('TypeVar', lambda it, a, k: AnnV('TypeVar'))
LIB['typing.cast'] = Builtin('cast', lambda it, a, k: a[1])
LIB['typing.NamedTuple'] = _t('NamedTuple', lambda v: False)
LIB['typing.overload'] = Builtin('overload', lambda it, a, k: a[0])
for _n in ('Float', 'Int', 'Num', 'PRNGKeyArray', 'Shaped', 'Bool', 'Integer', 'Real', 'Inexact', 'Key'):
    LIB['jaxtyping.' + _n] = AnnV(_n)
T_ARRAY = _t('jax.Array', lambda v: isinstance(v, Arr) and not v.py and v.tag != 'numpy',
             )
T_NPARRAY = _t('np.ndarray', lambda v: isinstance(v, Arr) and v.tag == 'numpy')
LIB['jax.Array'] = LIB['jnp.ndarray'] = LIB['jaxtyping.Array'] = T_ARRAY
LIB['np.ndarray'] = T_NPARRAY
LIB['jax.core.Tracer'] = _t('Tracer', lambda v: isinstance(v, Arr) and v.tl > 0)
LIB['jaxtyping.PyTree'] = _t('PyTree', lambda v: True)
LIB['jax.typing.DTypeLike'] = AnnV('DTypeLike')
LIB['jax.typing.ArrayLike'] = AnnV('ArrayLike')
LIB['jax.tree_util.PyTreeDef'] = AnnV('PyTreeDef')
LIB['enum.StrEnum'] = _t('StrEnum', lambda v: isinstance(v, EnumMember))
LIB['enum.Enum'] = _t('Enum', lambda v: isinstance(v, EnumMember))
LIB['enum.auto'] = Builtin('auto', lambda it, a, k: AnnV('auto'))
LIB['numbers.Number'] = _t('Number', lambda v: is_pyint(v) or is_float(v))
LIB['numbers.Real'] = LIB['numbers.Number']
LIB['numbers.Integral'] = BUILTINS['int']
LIB['types.MappingProxyType'] = Builtin('MappingProxyType', lambda it, a, k: a[0])
LIB['types.FunctionType'] = _t('FunctionType', lambda v: isinstance(v, Func))


# ------------------------------------------------------------------ operators
def both_int(a, b):
    return all(isinstance(x, (bool, int)) or isinstance(x, Arr) and x.dtype in ('int', 'bool') for x in (a, b))


def num_check(it, op, a, b):
    for x in (a, b):
        if x is None or isinstance(x, (str, dict, set, Func, ClassV, DT, Inst)) or (isinstance(x, (list, tuple)) and not isinstance(a, Arr) and not isinstance(b, Arr)):
            raise AbsRaise(TypeError, f'unsupported operand type(s) for {op}: {tname(a)!r} and {tname(b)!r}')


def binop(it, op, a, b):
    h = it.hooks.get('opresult')
    r = binop0(it, op, a, b)
    return r if h is None else h(it, op, r)


def binop0(it, op, a, b):
    if isinstance(a, DView) or isinstance(b, DView):
        if op in ('BitOr', 'BitAnd', 'BitXor', 'Sub'):
            a, b = [set(it.iterate(x)) for x in (a, b)]
        else:
            raise AbsRaise(TypeError, f'unsupported operand type(s) for {op}: {tname(a)!r} and {tname(b)!r}')
    for x, y, nm in ((a, b, DUNDER.get(op)), (b, a, RDUNDER.get(op))):
        if isinstance(x, Inst) and nm:
            f = x.cls.find(nm)
            if f is not KeyError:
                return it.call(BoundM(f, x), [y], {})
    if op == 'BitOr':
        if isinstance(a, (TypeTok, ClassV, UnionV, AnnV, ExtV)) or isinstance(b, (TypeTok, ClassV, UnionV, AnnV)):
            ps = []
            for x in (a, b):
                ps.extend(x.parts if isinstance(x, UnionV) else [x])
            return UnionV([p for p in ps])
        if isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return a | b
    if op == 'BitAnd' and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a & b
    if op == 'Sub' and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a - b
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return str(a) + str(b)
        if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == 'Mult':
        if isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if isinstance(b, (list, tuple, str)) and isinstance(a, int):
            return a * b
        if isinstance(a, (list, tuple)) and isinstance(b, Arr) and b.py:
            raise Unmodelled('list repetition by a symbolic count')
    if op == 'Mod' and isinstance(a, str):
        return '<fmt>'
    num_check(it, op, a, b)
    if is_num(a) and is_num(b):
        return native_binop(op, a, b)
    if op == 'MatMult':
        return matmul(a, b)
    return arr_binop(op, a, b)


DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'MatMult': '__matmul__', 'Div': '__truediv__',
          'Pow': '__pow__', 'BitOr': '__or__', 'BitAnd': '__and__'}
RDUNDER = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__', 'MatMult': '__rmatmul__', 'Div': '__rtruediv__'}


def native_binop(op, a, b):
    try:
        if isinstance(a, float) or isinstance(b, float):
            fa, fb = float(a), float(b)
            r = {'Add': lambda: fa + fb, 'Sub': lambda: fa - fb, 'Mult': lambda: fa * fb, 'Div': lambda: fa / fb}[op]()
            return r if r != r or abs(r) == float('inf') else Q(repr(r))
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            return Q(a) / Q(b)
        if op == 'FloorDiv':
            r = a // b
            return Q(r) if isinstance(a, Q) or isinstance(b, Q) else r
        if op == 'Mod':
            return a % b
        if op == 'Pow':
            if isinstance(b, int) and (isinstance(a, int) and b >= 0):
                return a ** b
            if Q(b).denominator == 1:
                return Q(a) ** int(b)
            return pyscalar(ppow(P(a), Q(b)))
        if op == 'BitOr':
            return a | b
        if op == 'BitAnd':
            return a & b
        if op == 'BitXor':
            return a ^ b
        if op == 'LShift':
            return a << b
        if op == 'RShift':
            return a >> b
    except ZeroDivisionError:
        raise AbsRaise(ZeroDivisionError, 'division by zero')
    except TypeError as e:
        raise AbsRaise(TypeError, str(e))
    raise Unmodelled(f'operator {op}')


def pyscalar(p, kind='float'):
    c = const_val(p)
    if c is not None:
        return int(c) if kind == 'int' else c
    return scalar(p, kind, 0, kind)


def powf(x, y):
    c = const_val(y)
    if c is not None:
        return ppow(x, c)
    # symbolic exponent
    return fn('exp', y * fn('log', x))


def unbounded(p):
    """Is the term certainly infinite or nan (log 0, inf, nan as a factor of a summand)?"""
    return any(a.k == 'f' and e > 0 and (a.d[0] in ('inf', 'nan') or a.d[0].startswith('const_')
                                         or a.d[0] == 'log' and a.d[1][0] is ZERO)
               for t, _ in p.t if not t.b for a, e in t.f)


def mulf(x, y):
    """IEEE: zero times an infinite or undefined quantity is nan."""
    if x is ZERO and y.t and unbounded(y) or y is ZERO and x.t and unbounded(x):
        return fn('nan')
    return x * y


BIN = {
    'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': mulf, 'Div': lambda x, y: x / y,
    'Pow': powf, 'FloorDiv': lambda x, y: fn('fdiv', x, y), 'Mod': lambda x, y: fn('mod', x, y),
    'BitAnd': lambda x, y: x * y, 'BitOr': lambda x, y: x + y - x * y, 'BitXor': lambda x, y: x + y - x * y * 2,
}


def arr_binop(op, a, b):
    f = BIN.get(op)
    if f is None:
        raise Unmodelled(f'array operator {op}')
    if isinstance(a, Arr) and a.py or isinstance(b, Arr) and b.py:
        if (isinstance(a, Arr) and a.py or is_num(a)) and (isinstance(b, Arr) and b.py or is_num(b)):
            if op == 'Div':
                r = elementwise(f, a, b, dtype='float')
            else:
                r = elementwise(f, a, b)
            p = r.scalar()
            kind = 'int' if r.dtype == 'int' and both_int(a, b) and op != 'Div' else 'float'
            if max(getattr(a, 'tl', 0), getattr(b, 'tl', 0)) == 0:
                return pyscalar(p, kind)
            return r
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if not all(asarr(x).dtype == 'bool' for x in (a, b)):
            raise Unmodelled('bitwise operator on non-booleans')
        return elementwise(f, a, b, dtype='bool')
    aa, bb = asarr(a), asarr(b)
    dt = promote(*[x.dtype for x in (aa, bb)])
    # weak python scalars do not promote
    if is_num(a) and not is_num(b):
        dt = bb.dtype if not (isinstance(a, (Q, float)) and bb.dtype in ('int', 'bool')) else 'float'
    elif is_num(b) and not is_num(a):
        dt = aa.dtype if not (isinstance(b, (Q, float)) and aa.dtype in ('int', 'bool')) else 'float'
    if dt == 'bool' and op in ('Add', 'Sub', 'Mult', 'Pow'):
        if op == 'Sub':
            raise AbsRaise(TypeError, 'subtract does not accept dtype bool')
        dt = 'int' if is_num(a) or is_num(b) else 'bool'
        if op == 'Add' and dt == 'bool':
            f = BIN['BitOr']
    if op == 'Div' and dt in ('int', 'bool'):
        dt = 'float'
    if op == 'FloorDiv' and dt in ('int',) and isinstance(a, Arr) and isinstance(b, Arr):
        pass
    return elementwise(f, aa, bb, dtype=dt)


def unop(it, op, v):
    if op == 'Not':
        return not it.truth(v)
    if isinstance(v, Inst) and op == 'USub':
        f = v.cls.find('__neg__')
        if f is not KeyError:
            return it.call(BoundM(f, v), [], {})
    if op in ('USub', 'UAdd') and is_num(v):
        return (-v if not isinstance(v, bool) else -int(v)) if op == 'USub' else +v
    if isinstance(v, Arr):
        if op == 'USub':
            r = elementwise(lambda x: -x, v, dtype=v.dtype)
            return pyscalar(r.scalar(), v.py) if v.py and v.tl == 0 else r
        if op == 'UAdd':
            return v
        if op in ('Invert', 'Not_'):
            if op == 'Invert' and v.dtype != 'bool':
                if v.dtype == 'int':
                    return elementwise(lambda x: -x - 1, v, dtype='int')
                raise AbsRaise(TypeError, 'bitwise not on floating point array')
            return elementwise(lambda x: ONE - x, v, dtype='bool')
    if op == 'Invert' and isinstance(v, int):
        return ~v
    if op == 'Not_':
        return not v
    if v is None or isinstance(v, (str, list, tuple, dict)):
        raise AbsRaise(TypeError, f'bad operand type for unary: {tname(v)}')
    raise Unmodelled(f'unary {op} on {tname(v)}')


def cmp_poly(op, x, y):
    if op == '>':
        return iverson('>', x - y)
    if op == '>=':
        return iverson('>=', x - y)
    if op == '<':
        return iverson('>', y - x)
    if op == '<=':
        return iverson('>=', y - x)
    if op == '==':
        return delta_real(x - y)
    if op == '!=':
        return ONE - delta_real(x - y)


def compare(op, a, b):
    if is_num(a) and is_num(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and all(is_num(x) for x in list(a) + list(b)):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    for x in (a, b):
        if x is None or isinstance(x, (str, dict, Func, Inst, ClassV, set)):
            raise AbsRaise(TypeError, f"'{op}' not supported between instances of {tname(a)!r} and {tname(b)!r}")
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
        if isinstance(x, float) and isinstance(y, Arr):
            # comparison with +-inf / nan of a finite quantity
            if x != x:
                return False
            big = x > 0
            r = {'<': not big, '<=': not big, '>': big, '>=': big, '==': False, '!=': True}[o]
            return elementwise(lambda p: P(r), y, dtype='bool') if y.ndim or not y.py else r
    r = elementwise(lambda x, y: cmp_poly(op, x, y), a, b, dtype='bool')
    if r.py:
        r.py = 'bool'
        c = const_val(r.scalar())
        if c is not None and r.tl == 0:
            return c != 0
    return r


# ------------------------------------------------------------------ pytrees
class TreeDef:
    def __init__(self, kind, keys=None, subs=(), extra=None):
        self.kind, self.keys, self.subs, self.extra = kind, keys, list(subs), extra

    def n(self):
        if self.kind == 'leaf':
            return 1
        return sum(s.n() for s in self.subs)

    def same(self, o):
        return (self.kind == o.kind and self.keys == o.keys and len(self.subs) == len(o.subs)
                and all(a.same(b) for a, b in zip(self.subs, o.subs))
                and (self.kind != 'custom' or self.extra[0] is o.extra[0]))

    def __eq__(self, o):
        return isinstance(o, TreeDef) and self.same(o)

    __hash__ = None


def sort_keys(d):
    try:
        return sorted(d)
    except TypeError:
        return sorted(d, key=lambda k: (type(k).__name__, str(k)))


def children(it, t):
    """(kind, keys, list of children, extra) or None for a leaf."""
    if t is None:
        return ('none', None, [], None)
    if isinstance(t, dict):
        ks = sort_keys(t)
        return ('dict', list(ks), [t[k] for k in ks], None)
    if isinstance(t, list):
        return ('list', None, list(t), None)
    if isinstance(t, tuple):
        return ('tuple', None, list(t), None)
    if isinstance(t, Inst):
        r = it.pytrees.get(t.cls)
        if r is not None:
            ch, aux = it.iterate(it.call(r[0], [t], {}))
            return ('custom', None, list(it.iterate(ch)), (t.cls, aux))
        if t.cls.kind == 'namedtuple':
            return ('nt', None, list(t.attrs.values()), t.cls)
    return None


def tree_flatten(it, t, is_leaf=None):
    leaves = []

    def go(t):
        if is_leaf is not None and it.truth(it.call(is_leaf, [t], {})):
            leaves.append(t)
            return TreeDef('leaf')
        c = children(it, t)
        if c is None:
            leaves.append(t)
            return TreeDef('leaf')
        kind, keys, ch, extra = c
        return TreeDef(kind, keys, [go(x) for x in ch], extra)
    d = go(t)
    return leaves, d


def tree_unflatten(it, d, leaves):
    leaves = list(leaves)
    if len(leaves) != d.n():
        raise AbsRaise(ValueError, f'too many/few leaves for PyTreeDef: expected {d.n()}, got {len(leaves)}')
    src = iter(leaves)

    def go(d):
        if d.kind == 'leaf':
            return next(src)
        if d.kind == 'none':
            return None
        subs = [go(s) for s in d.subs]
        if d.kind == 'dict':
            return dict(zip(d.keys, subs))
        if d.kind == 'list':
            return subs
        if d.kind == 'tuple':
            return tuple(subs)
        if d.kind == 'nt':
            return it.call(d.extra, subs, {})
        cls, aux = d.extra
        return it.call(it.pytrees[cls][1], [aux, tuple(subs)], {})
    return go(d)


def flatten_up_to(it, d, t):
    out = []

    def go(d, t):
        if d.kind == 'leaf':
            out.append(t)
            return
        c = children(it, t)
        if c is None or c[0] != d.kind or len(c[2]) != len(d.subs) or c[1] != d.keys:
            raise AbsRaise(ValueError, 'pytree structures do not match')
        for s, x in zip(d.subs, c[2]):
            go(s, x)
    go(d, t)
    return out


def tree_map(it, f, t, *rest, is_leaf=None):
    leaves, d = tree_flatten(it, t, is_leaf)
    others = [flatten_up_to(it, d, r) for r in rest]
    return tree_unflatten(it, d, [f(*xs) for xs in zip(leaves, *others)])


@reg('jax.tree.map', 'jax.tree_map')
def _tm(it, a, k):
    il = k.pop('is_leaf', None)
    if len(a) > 2 and il is None and False:
        pass
    return tree_map(it, lambda *xs: it.call(a[0], list(xs), {}), a[1], *a[2:], is_leaf=il)


@reg('jax.tree.flatten')
def _tf(it, a, k):
    l, d = tree_flatten(it, a[0] if a else k.pop('tree'), k.get('is_leaf'))
    return (l, d)


@reg('jax.tree.leaves')
def _tl(it, a, k):
    return tree_flatten(it, a[0], k.get('is_leaf'))[0]


@reg('jax.tree.structure')
def _ts(it, a, k):
    return tree_flatten(it, a[0], k.get('is_leaf'))[1]


@reg('jax.tree.unflatten')
def _tu(it, a, k):
    return tree_unflatten(it, a[0], it.iterate(a[1]))


@reg('jax.tree.all')
def _ta(it, a, k):
    return all(it.truth(x) for x in tree_flatten(it, a[0])[0])


@reg('jax.tree.reduce')
def _tr(it, a, k):
    l = tree_flatten(it, a[1])[0]
    if len(a) > 2 or 'initializer' in k:
        acc = a[2] if len(a) > 2 else k['initializer']
    else:
        acc, l = l[0], l[1:]
    for x in l:
        acc = it.call(a[0], [acc, x], {})
    return acc


@reg('jax.tree.transpose')
def _tt(it, a, k):
    outer, inner, t = a[:3]
    l = tree_flatten(it, t)[0]
    n, m = outer.n(), inner.n()
    return tree_unflatten(it, inner, [tree_unflatten(it, outer, [l[i * m + j] for i in range(n)]) for j in range(m)])


def _regnode(it, a, k):
    names = ['nodetype', 'flatten_func', 'unflatten_func']
    v = dict(zip(names, a))
    v.update(k)
    it.pytrees[v['nodetype']] = (v['flatten_func'], v['unflatten_func'])


LIB['jax.tree_util.register_pytree_node'] = Builtin('register_pytree_node', _regnode)
LIB['jax.tree.register_pytree_node'] = LIB['jax.tree_util.register_pytree_node']


def _regdc(it, a, k):
    c = a[0]
    meta = k.get('meta_fields', a[2] if len(a) > 2 else [])
    data = k.get('data_fields', a[1] if len(a) > 1 else None)
    if data is None:
        data = [n for n in it.all_fields(c) if n not in meta]
    data, meta = list(it.iterate(data)), list(it.iterate(meta))

    def un(it2, a2, k2):
        return it2.call(c, [], {**dict(zip(data, it2.iterate(a2[1]))), **dict(zip(meta, it2.iterate(a2[0])))})
    it.pytrees[c] = (Builtin('dc.flatten', lambda it2, a2, k2: (tuple(a2[0].attrs[n] for n in data), tuple(a2[0].attrs[n] for n in meta))),
                     Builtin('dc.unflatten', un))
    return c


LIB['jax.tree_util.register_dataclass'] = LIB['jax.tree.register_dataclass'] = Builtin('register_dataclass', _regdc)


def _regclass(it, a, k):
    c = a[0]
    it.pytrees[c] = (Builtin('cls.flatten', lambda it2, a2, k2: it2.call(it2.getattr(a2[0], 'tree_flatten'), [], {})),
                     Builtin('cls.unflatten', lambda it2, a2, k2: it2.call(it2.getattr(c, 'tree_unflatten'), list(a2), {})))
    return c


LIB['jax.tree_util.register_pytree_node_class'] = Builtin('register_pytree_node_class', _regclass)
LIB['jax.tree_util.Partial'] = Builtin('Partial', lambda it, a, k: PartialV(a[0], tuple(a[1:]), k))


# ------------------------------------------------------------------ indexing
def norm_index(a, k):
    """Expand an index expression to one entry per source axis plus newaxes."""
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    n = sum(1 for x in k if x is not None and x is not Ellipsis)
    # arrays with bool dtype consume ndim axes
    if any(isinstance(x, Arr) and x.dtype == 'bool' or isinstance(x, bool) for x in k):
        raise Unmodelled('boolean mask indexing')
    if n > a.ndim:
        raise AbsRaise(IndexError, f'Too many indices: array is {a.ndim}-dimensional, but {n} were indexed')
    if any(x is Ellipsis for x in k):
        j = [i for i, x in enumerate(k) if x is Ellipsis]
        if len(j) > 1:
            raise AbsRaise(IndexError, 'multiple ellipses')
        k[j[0]:j[0] + 1] = [slice(None)] * (a.ndim - n)
    else:
        k += [slice(None)] * (a.ndim - n)
    return k


def slice_bounds(s, D):
    """(lo, hi, step) polys for a slice over an axis of size D."""
    step = 1 if s.step is None else toint(s.step)

    def norm(x, default):
        if x is None:
            return default
        p = x.scalar() if isinstance(x, Arr) else P(x)
        if isinstance(x, Arr) and x.tl > 0:
            raise AbsRaise(IndexError, 'Array slice indices must have static start/stop/step to be used with NumPy indexing syntax')
        c = const_val(p)
        if (c is not None and c < 0) or (c is None and nonneg(-p - 1)):
            p = D + p
        cd = const_val(D)
        c = const_val(p)
        if cd is not None and c is not None:
            return const(min(max(c, 0), cd))
        if nonneg(p) and nonneg(D - p):
            return p
        if nonneg(p - D):
            return D
        if nonneg(-p):
            return ZERO
        raise Unmodelled('slice bound of unknown position')
    if step == 1:
        lo, hi = norm(s.start, ZERO), norm(s.stop, D)
        if nonneg(lo - hi):
            hi = lo
        return lo, hi, 1
    if step == -1 and s.start is None and s.stop is None:
        return ZERO, D, -1
    cd = const_val(D)
    if cd is None:
        raise Unmodelled('strided slice of a symbolic axis')
    return None, list(range(int(cd)))[slice(None if s.start is None else toint(s.start), None if s.stop is None else toint(s.stop), step)], step


def idx_poly(x, D, it=None):
    p = x.scalar() if isinstance(x, Arr) else P(x)
    c = const_val(p)
    cd = const_val(D)
    if c is not None:
        if c < 0:
            p = D + p
        if cd is not None and not 0 <= const_val(p) < cd:
            if not isinstance(x, Arr):
                raise AbsRaise(IndexError, f'index {x} is out of bounds for axis of size {cd}')
            p = const(min(max(const_val(p), 0), cd - 1))
    elif is_int(p) and nonneg(-p - 1):
        p = D + p
    return p


def arr_getitem(it, a, k):
    if isinstance(k, Arr) and k.dtype == 'bool' and k.ndim == a.ndim and k.ndim:
        raise Unmodelled('boolean mask indexing')
    k = norm_index(a, k)
    plan, adv, pos = [], [], 0
    for x in k:
        if x is None:
            plan.append(('new',))
            continue
        D = a.axes[pos].dim
        if isinstance(x, slice):
            plan.append(('slice', pos) + slice_bounds(x, D))
        elif isinstance(x, (list, tuple)) or isinstance(x, Arr) and x.ndim > 0:
            xa = asarr(x)
            adv.append((len(plan), pos, xa))
            plan.append(('adv', pos, xa))
        elif isinstance(x, (int, Arr)) and not isinstance(x, bool):
            if isinstance(x, Arr) and x.dtype not in ('int', 'bool'):
                raise AbsRaise(TypeError, 'Indexer must have integer or boolean type')
            if a.tag == 'numpy' and isinstance(x, Arr) and x.tl > 0:
                raise AbsRaise(TypeError, 'TracerArrayConversionError: numpy array indexed with a traced value')
            plan.append(('int', pos, idx_poly(x, D)))
        else:
            raise AbsRaise(TypeError, f'invalid index of type {tname(x)}')
        pos += 1
    axes, slots = [], []
    badv = None
    if adv:
        badv = broadcast_axes(*[x.axes for _, _, x in adv])
        ps = [p for p, _, _ in adv]
        contiguous = ps == list(range(ps[0], ps[0] + len(ps)))
        # integer scalars mixed with arrays also count as advanced in numpy; ignored when contiguous
    placed = False
    if adv and not contiguous:
        for x in badv:
            slots.append('adv')
            axes.append(x)
        placed = True
    for p in plan:
        if p[0] == 'new':
            axes.append(ax(1))
            slots.append(None)
        elif p[0] == 'slice':
            _, ps_, lo, hi, step = p
            if lo is None:
                axes.append(ax(len(hi)))
            else:
                axes.append(sub_axis(a.axes[ps_], lo, hi))
            slots.append(ps_)
        elif p[0] == 'adv' and not placed:
            for x in badv:
                slots.append('adv')
                axes.append(x)
            placed = True
    nadv = len(badv) if badv else 0

    def body(idx):
        src = [None] * a.ndim
        ai = tuple(i for i, s in zip(idx, slots) if s == 'adv')
        m = {s: i for i, s in zip(idx, slots) if isinstance(s, int)}
        for p in plan:
            if p[0] == 'int':
                src[p[1]] = p[2]
            elif p[0] == 'slice':
                i = m[p[1]]
                if p[2] is None:
                    c = const_val(i)
                    if c is None:
                        raise Unmodelled('symbolic index into a strided slice')
                    src[p[1]] = const(p[3][int(c)])
                elif p[4] == -1:
                    src[p[1]] = a.axes[p[1]].dim - 1 - i
                else:
                    src[p[1]] = i + p[2]
            elif p[0] == 'adv':
                q = p[2].at(*bidx(p[2], ai))
                c = const_val(q)
                if c is not None and c < 0:
                    q = q + a.axes[p[1]].dim
                src[p[1]] = q
        return a.at(*src)
    tl = max([a.tl] + [x.tl for x in k if isinstance(x, Arr)])
    r = Arr(axes, body, a.dtype, tl)
    r.tag = a.tag
    return r


class AtProxy:
    def __init__(self, a, k=None):
        self.a, self.k = a, k

    def abs_getitem(self, it, k):
        return AtRef(self.a, k)


class AtRef:
    def __init__(self, a, k):
        self.a, self.k = a, k


def scatter(it, a, k, v, mode):
    k = norm_index(a, k)
    if any(x is None for x in k):
        raise Unmodelled('newaxis in scatter')
    v = asarr(v)
    plan, adv = [], []
    for pos, x in enumerate(k):
        D = a.axes[pos].dim
        if isinstance(x, slice):
            lo, hi, st = slice_bounds(x, D)
            if st != 1:
                raise Unmodelled('strided scatter')
            plan.append(('slice', lo, hi))
        elif isinstance(x, (list, tuple)) or isinstance(x, Arr) and x.ndim > 0:
            plan.append(('adv', asarr(x)))
            adv.append((pos, asarr(x)))
        elif isinstance(x, (int, Arr)):
            if isinstance(x, Arr) and x.dtype not in ('int', 'bool'):
                raise AbsRaise(TypeError, 'Indexer must have integer or boolean type')
            plan.append(('int', idx_poly(x, D)))
        else:
            raise AbsRaise(TypeError, 'invalid scatter index')
    baxes = broadcast_axes(*[x.axes for _, x in adv]) if adv else []
    firstadv = adv[0][0] if adv else None
    if adv and [p for p, _ in adv] != list(range(firstadv, firstadv + len(adv))):
        raise Unmodelled('non contiguous advanced scatter')
    vshape = []
    for pos, p in enumerate(plan):
        if p[0] == 'slice':
            vshape.append(sub_axis(a.axes[pos], p[1], p[2]))
        elif p[0] == 'adv' and pos == firstadv:
            vshape.extend(baxes)
    full = broadcast_axes(vshape, v.axes) if vshape or v.axes else []
    if len(full) > len(vshape) or any(x.dim is not y.dim for x, y in zip(full, vshape)):
        raise AbsRaise(ValueError, 'Incompatible shapes for broadcasting in scatter')

    def body(idx):
        guard = ONE
        for pos, p in enumerate(plan):
            if p[0] == 'int':
                guard = guard * delta0(idx[pos] - p[1])
            elif p[0] == 'slice':
                D = a.axes[pos].dim
                if p[1] is not ZERO:
                    guard = guard * iverson('>=', idx[pos] - p[1])
                if p[2] is not D:
                    guard = guard * iverson('>=', p[2] - 1 - idx[pos])
        if not guard.t:
            return a.at(*idx)

        def val(ai):
            vi = []
            for pos, p in enumerate(plan):
                if p[0] == 'slice':
                    vi.append(idx[pos] - p[1])
                elif p[0] == 'adv' and pos == firstadv:
                    vi.extend(ai)
            return v.at(*bidx(v, tuple(vi)))
        if not adv:
            match = guard
            mv = guard * val(())
        else:
            match, mv = [], []
            for combo in itertools.product(*[cells(x) for x in baxes]):
                ai = tuple(i for _, i in combo)
                g = guard
                for pos, x in adv:
                    g = g * delta_real(idx[pos] - x.at(*bidx(x, ai)))
                m1, m2 = g, g * val(ai)
                for vs, _ in combo:
                    for w in vs:
                        m1, m2 = sum_over(m1, w), sum_over(m2, w)
                match.append(m1)
                mv.append(m2)
            match, mv = psum(match), psum(mv)
        if mode == 'set':
            return a.at(*idx) * (ONE - match) + mv
        if mode == 'add':
            return a.at(*idx) + mv
        if mode in ('multiply', 'mul') and not adv:
            return a.at(*idx) * (ONE - match + mv)
        if mode in ('min', 'max') and not adv:
            return a.at(*idx) * (ONE - match) + match * T.fn(mode + '2', a.at(*idx), val(()))
        raise Unmodelled(f'scatter {mode}')
    dt = a.dtype
    if mode == 'add' and a.dtype == 'bool':
        raise AbsRaise(TypeError, 'scatter-add on boolean array')
    return Arr(a.axes, body, dt, max([a.tl, v.tl] + [x.tl for x in k if isinstance(x, Arr)]))


class NT(tuple):
    """A named tuple returned by the library."""
    def __new__(cls, name, **kw):
        r = tuple.__new__(cls, kw.values())
        r.tn, r.names = name, dict(kw)
        return r


def retup(r, vals):
    """A sequence of the type of r (a named tuple keeps its field names)."""
    if isinstance(r, NT):
        return NT(r.tn, **dict(zip(r.names, vals)))
    return type(r)(vals)
