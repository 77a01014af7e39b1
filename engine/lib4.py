"""jax.numpy / numpy transfer functions."""
from .lib import *
from . import lib as L
from . import lib2 as L2
from . import lib3 as L3
from .lib import BUILTINS, LIB
from .lib3 import dtype_of, cast

NP_OK = set()


def staged(it, r):
    """Inside a staged (jit/scan/map) region every jnp result is a tracer."""
    if it.in_jit:
        if isinstance(r, Arr):
            if not r.py and r.tl < it.in_jit:
                r = r.with_(tl=it.in_jit)
        elif isinstance(r, (tuple, list)):
            return retup(r, [staged(it, x) for x in r])
    return r


def jreg(*names, np_=True):
    """Register under jnp.* (and np.*: rejects traced arguments)."""
    def d(f):
        def g(it, a, k):
            if k.get('out') is not None:
                raise Unmodelled('out=')
            try:
                r = f(it, a, k)
            except IndexError:
                raise AbsRaise(TypeError, f'{names[0]}() missing a required argument')
            return staged(it, r)

        def h(it, a, k):
            for x in list(a) + list(k.values()):
                for y in (x if isinstance(x, (tuple, list)) else [x]):
                    if isinstance(y, Arr) and y.tl > 0 and not y.py:
                        raise AbsRaise(TypeError, f'TracerArrayConversionError: np.{names[0]} of a traced array', where=it.where())
            sv, it.in_jit = it.in_jit, 0
            _NP[0] += 1
            try:
                r = f(it, a, k)
            finally:
                it.in_jit = sv
                _NP[0] -= 1

            def tag(r):
                if isinstance(r, Arr):
                    return r.with_(tag='numpy')
                return retup(r, [tag(x) for x in r]) if isinstance(r, (tuple, list)) else r
            return tag(r)
        for n in names:
            LIB['jnp.' + n] = Builtin('jnp.' + n, g)
            if np_:
                LIB['np.' + n] = Builtin('np.' + n, h)
        return f
    return d


def A(it, x, what=''):
    if isinstance(x, (list, tuple)) and not isinstance(x, str):
        return asarr(x)
    return asarr(x)


def fl(d):
    return d if d not in ('int', 'bool') else 'float'


_NP = [0]


def strictarr(x, name):
    if isinstance(x, (list, tuple)) and not _NP[0]:
        raise AbsRaise(TypeError, f'{name} requires ndarray or scalar arguments, got {type(x).__name__}')
    if isinstance(x, (dict, Inst, ClassV, Func)) and not (isinstance(x, Inst) and any(
            x.cls.find(n) is not KeyError for n in ('__array__', '__jax_array__'))):
        raise AbsRaise(TypeError, f'{name} requires ndarray or scalar arguments, got {tname(x)}')
    return asarr(x)


def ew(name, f, keep=False, bool_out=False, strict=True):
    def g(it, a, k):
        xs = [strictarr(x, name) for x in a]
        if not xs:
            for kk in ('x', 'a'):
                if kk in k:
                    xs = [strictarr(k[kk], name)]
        dt = promote(*[x.dtype for x in xs])
        num = [x for x, y in zip(xs, a) if not is_num(y)]
        if num and any(is_num(y) for y in a):
            dt2 = promote(*[x.dtype for x in num])
            dt = dt2 if not (dt2 in ('int', 'bool') and any(isinstance(y, (Q, float)) for y in a)) else 'float'
        return elementwise(f, *xs, dtype='bool' if bool_out else (dt if keep else fl(dt)))
    jreg(name)(g)


def unary(f):
    return lambda x: f(x)


ew('exp', lambda x: fn('exp', x))
ew('log', lambda x: fn('log', x))
ew('log1p', lambda x: fn('log', ONE + x))
ew('expm1', lambda x: fn('exp', x) - 1)
ew('log2', lambda x: fn('log', x) / fn('log', const(2)))
ew('log10', lambda x: fn('log', x) / fn('log', const(10)))
ew('sqrt', sqrt)
ew('square', lambda x: x * x, keep=True)
ew('reciprocal', lambda x: ONE / x)
ew('negative', lambda x: -x, keep=True)
ew('positive', lambda x: x, keep=True)
ew('abs', lambda x: fn('abs', x), keep=True)
LIB['jnp.absolute'], LIB['np.absolute'] = LIB['jnp.abs'], LIB['np.abs']
ew('sign', lambda x: fn('sign', x), keep=True)
for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctanh', 'arctan2', 'cbrt'):
    ew(_n, (lambda n: lambda *x: fn(n, *x))(_n))
ew('sinh', lambda x: (fn('exp', x) - fn('exp', -x)) / 2)
ew('cosh', lambda x: (fn('exp', x) + fn('exp', -x)) / 2)
ew('exp2', lambda x: fn('exp', x * fn('log', const(2))))
ew('tanh', lambda x: fn('tanh', x))
ew('floor', lambda x: fn('floor', x))
ew('ceil', lambda x: -fn('floor', -x))
ew('round', lambda x, *d: fn('round', x))
ew('maximum', lambda x, y: fn('max2', x, y), keep=True)
ew('minimum', lambda x, y: fn('min2', x, y), keep=True)
ew('fmax', lambda x, y: fn('max2', x, y), keep=True)
ew('fmin', lambda x, y: fn('min2', x, y), keep=True)
ew('isnan', lambda x: fn('isnan', x) if const_val(x) is None else ZERO, bool_out=True)
ew('isinf', lambda x: fn('isinf', x) if const_val(x) is None else ZERO, bool_out=True)
ew('isfinite', lambda x: ONE - fn('isnan', x) if const_val(x) is None else ONE, bool_out=True)
ew('logaddexp', lambda x, y: fn('log', fn('exp', x) + fn('exp', y)))
ew('hypot', lambda x, y: sqrt(x * x + y * y))
ew('heaviside', lambda x, y: iverson('>', x) + delta_real(x) * y)
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
               ('float_power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod'), ('bitwise_and', 'BitAnd'),
               ('bitwise_or', 'BitOr')):
    jreg(_n)((lambda o, n: lambda it, a, k: asarr(L.binop(it, o, strictarr(a[0], n), strictarr(a[1], n) if not is_num(a[1]) else a[1])))(_o, _n))
for _n, _o in (('equal', '=='), ('not_equal', '!='), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>=')):
    jreg(_n)((lambda o: lambda it, a, k: asarr(L.compare(o, asarr(a[0]), asarr(a[1]))))(_o))


def tobool(x):
    x = asarr(x)
    return x if x.dtype == 'bool' else cast(x, 'bool')


ew_and = lambda it, a, k: elementwise(lambda x, y: x * y, tobool(a[0]), tobool(a[1]), dtype='bool')
jreg('logical_and')(ew_and)
jreg('logical_or')(lambda it, a, k: elementwise(lambda x, y: x + y - x * y, tobool(a[0]), tobool(a[1]), dtype='bool'))
jreg('logical_not')(lambda it, a, k: elementwise(lambda x: ONE - x, tobool(a[0]), dtype='bool'))
jreg('logical_xor')(lambda it, a, k: elementwise(lambda x, y: x + y - x * y * 2, tobool(a[0]), tobool(a[1]), dtype='bool'))
jreg('invert', 'bitwise_not', 'bitwise_invert')(lambda it, a, k: L.unop(it, 'Invert', asarr(a[0])))


# ------------------------------------------------------------------ reductions
def axarg(a, k, pos=1):
    v = a[pos] if len(a) > pos else k.get('axis')
    if isinstance(v, list):
        raise AbsRaise(TypeError, 'axis must be an int or tuple')
    return v


def redn(name):
    def d(f):
        def g(it, a, k):
            x = strictarr(a[0] if a else k.get('a', k.get('x')), name)
            if k.get('where') is not None or k.get('initial') is not None and name not in ('sum',):
                raise Unmodelled(f'{name} with where=/initial=')
            return f(it, x, axarg(a, k), it.truth(k.get('keepdims', False)), k)
        jreg(name)(g)
        return f
    return d


@redn('sum')
def _sum(it, x, axis, kd, k):
    r = reduce_sum(x, axis, kd)
    if k.get('dtype') is not None:
        r = cast(r, dtype_of(k['dtype']))
    return r


@redn('mean')
def _mean(it, x, axis, kd, k):
    n = count_of(x, axis)
    s = reduce_sum(x, axis, kd)
    return Arr(s.axes, lambda idx: s.at(*idx) / n, fl(s.dtype), s.tl)


def _variance(x, axis, kd, ddof):
    n = count_of(x, axis)
    s = reduce_sum(x, axis, True)
    dev = elementwise(lambda p, q: (p - q / n) * (p - q / n), x, s)
    t = reduce_sum(dev, axis, kd)
    den = n - ddof
    return Arr(t.axes, lambda idx: t.at(*idx) / den, fl(t.dtype), t.tl)


def _ddof(k):
    v = k.get('ddof', k.get('correction', 0))
    return P(v) if is_num(v) else v.scalar()


@redn('var')
def _var(it, x, axis, kd, k):
    return _variance(x, axis, kd, _ddof(k))


@redn('std')
def _std(it, x, axis, kd, k):
    v = _variance(x, axis, kd, _ddof(k))
    return Arr(v.axes, lambda idx: sqrt(v.at(*idx)), v.dtype, v.tl)


def reduce_opaque(name, x, axis, kd, dtype=None):
    """max/min/...: opaque function of the reduced sub-array (an unordered collection)."""
    if axis is None:
        axis = tuple(range(x.ndim))
    elif not isinstance(axis, (tuple, list)):
        axis = (axis,)
    axis = tuple(sorted(norm_axis(t, x.ndim) for t in axis))
    keep = [j for j in range(x.ndim) if j not in axis]

    def body(idx):
        full = {j: idx[j] for j in keep} if kd else dict(zip(keep, idx))
        if all(const_val(x.axes[j].dim) is not None for j in axis) and name in ('max2', 'min2'):
            acc = None
            for combo in itertools.product(*[range(int(const_val(x.axes[j].dim))) for j in axis]):
                m = dict(full)
                m.update({j: const(c) for j, c in zip(axis, combo)})
                p = x.at(*[m[j] for j in range(x.ndim)])
                acc = p if acc is None else fn(name, acc, p)
            if acc is None:
                raise AbsRaise(ValueError, 'zero-size array to reduction operation')
            return acc
        sub = Arr([x.axes[j] for j in axis], lambda ii: x.at(*[full[j] if j in full else ii[axis.index(j)] for j in range(x.ndim)]))
        return app({'max2': 'amax', 'min2': 'amin'}.get(name, name), (), [lam_of(sub)], ())
    axes = [ax(1) if j in axis else x.axes[j] for j in range(x.ndim)] if kd else [x.axes[j] for j in keep]
    return Arr(axes, body, dtype or x.dtype, x.tl)


for _n, _o in (('max', 'max2'), ('min', 'min2')):
    redn(_n)((lambda o: lambda it, x, axis, kd, k: reduce_opaque(o, x, axis, kd))(_o))
    LIB['jnp.a' + _n], LIB['np.a' + _n] = LIB['jnp.' + _n], LIB['np.' + _n]
for _n in ('median', 'nanmax', 'nanmin', 'nansum', 'nanmean', 'logsumexp_', 'ptp'):
    redn(_n)((lambda o: lambda it, x, axis, kd, k: reduce_opaque(o, x, axis, kd))(_n))


@redn('prod')
def _prod(it, x, axis, kd, k):
    if axis is None and all(const_val(d) is not None for d in x.dims):
        acc = ONE
        for combo in itertools.product(*[range(int(const_val(d))) for d in x.dims]):
            acc = acc * x.at(*[const(c) for c in combo])
        return scalar(acc, x.dtype, x.tl)
    return reduce_opaque('prod', x, axis, kd)


@redn('all')
def _all(it, x, axis, kd, k):
    x = tobool(x)
    r = reduce_opaque('min2', x, axis, kd, 'bool')
    return r


@redn('any')
def _any(it, x, axis, kd, k):
    return reduce_opaque('max2', tobool(x), axis, kd, 'bool')


def argred(name, sgn):
    def g(it, a, k):
        x = strictarr(a[0], name)
        axis = axarg(a, k)
        kd = it.truth(k.get('keepdims', False))
        if axis is None:
            x, axis = ravel(x), 0
        axis = norm_axis(axis, x.ndim)
        nm = name if sgn else name
        h = it.hooks.get(name)
        if h is not None:
            r = h(x, axis)
            if r is not None:
                return r
        return reduce_opaque(nm, x, axis, kd, 'int')
    jreg(name)(g)


for _n in ('argmax', 'argmin', 'nanargmin', 'nanargmax'):
    argred(_n, True)


@jreg('cumsum')
def _cumsum(it, a, k):
    x = asarr(a[0])
    axis = axarg(a, k)
    if axis is None:
        x, axis = ravel(x), 0
    axis = norm_axis(axis, x.ndim)

    def body(idx):
        c = const_val(idx[axis])
        if c is not None:
            return psum(x.at(*(idx[:axis] + (const(j),) + idx[axis + 1:])) for j in range(int(c) + 1))
        D = x.axes[axis]
        return sum_cells(D, lambda j: iverson('>=', idx[axis] - j) * x.at(*(idx[:axis] + (j,) + idx[axis + 1:])))
    return Arr(x.axes, body, x.dtype, x.tl)


@jreg('diff')
def _diff(it, a, k):
    x = asarr(a[0])
    ax_ = norm_axis(k.get('axis', -1), x.ndim)
    D = x.axes[ax_].dim
    hi, lo = slice_axis(x, ax_, ONE, D), slice_axis(x, ax_, ZERO, D - 1)
    return elementwise(lambda p, q: p - q, hi, lo, dtype=x.dtype)


# ------------------------------------------------------------------ creation
def shape_arg(s):
    if isinstance(s, (tuple, list)):
        return [todim(x) for x in s]
    if isinstance(s, Arr) and s.ndim == 1:
        return [s.at(const(j)) for j in range(toint(s.shape[0]))]
    return [todim(s)]


def dt_kw(a, k, pos, default='float'):
    d = a[pos] if len(a) > pos else k.get('dtype')
    return default if d is None else dtype_of(d)


def filled(c, sh, d):
    return Arr(sh, lambda idx: c, d)


jreg('zeros')(lambda it, a, k: filled(ZERO, shape_arg(a[0] if a else k['shape']), dt_kw(a, k, 1)))
jreg('ones')(lambda it, a, k: filled(ONE, shape_arg(a[0] if a else k['shape']), dt_kw(a, k, 1)))
jreg('empty')(lambda it, a, k: filled(ZERO, shape_arg(a[0] if a else k['shape']), dt_kw(a, k, 1)))


@jreg('full')
def _full(it, a, k):
    v = a[1] if len(a) > 1 else k['fill_value']
    if isinstance(v, float):
        v = scalar(special(v), 'float')
    v = asarr(v)
    sh = [ax(d) for d in shape_arg(a[0] if a else k['shape'])]
    d = dt_kw(a, k, 2, v.dtype)
    return Arr(sh, lambda idx: v.at(*bidx(v, idx)), d, v.tl)


def special(v):
    if v != v:
        return fn('nan')
    return fn('inf') if v > 0 else -fn('inf')


def like(c):
    def g(it, a, k):
        x = asarr(a[0])
        sh = x.axes if k.get('shape') is None else shape_arg(k['shape'])
        return Arr(sh, lambda idx: c, dt_kw(a, k, 1, x.dtype))
    return g


jreg('zeros_like')(like(ZERO))
jreg('ones_like')(like(ONE))
jreg('empty_like')(like(ZERO))
jreg('full_like')(lambda it, a, k: Arr(asarr(a[0]).axes, (lambda v: lambda idx: v.at(*bidx(v, idx)))(asarr(a[1])), asarr(a[0]).dtype))


@jreg('eye', 'identity')
def _eye(it, a, k):
    m = a[1] if len(a) > 1 else k.get('M')
    off = a[2] if len(a) > 2 else k.get('k', 0)
    r = eye(a[0] if a else k.get('N'), m, dt_kw(a, k, 3))
    return r if off == 0 else Arr(r.axes, lambda idx: delta0(idx[1] - idx[0] - todim(off)), r.dtype)


@jreg('arange')
def _arange(it, a, k):
    a = [k.pop('start')] + a if 'start' in k else a
    for x in a:
        if isinstance(x, Arr) and x.tl > 0:
            raise AbsRaise(TypeError, 'ConcretizationTypeError: arange of a traced value')
    v = [x.scalar() if isinstance(x, Arr) else P(x) for x in a]
    lo, hi = (ZERO, v[0]) if len(v) == 1 else (v[0], v[1])
    step = v[2] if len(v) > 2 else (asarr(k['step']).scalar() if 'step' in k else ONE)
    n = hi - lo
    if step is not ONE:
        cs = [const_val(x) for x in (n, step)]
        if None in cs:
            raise Unmodelled('arange with a symbolic step')
        n = const(max(0, -((-cs[0]) // cs[1])))
    allint = all(asarr(x).dtype == 'int' for x in a)
    d = dt_kw(a, k, 3, 'int' if allint else 'float')
    return Arr((n,), lambda idx: lo + idx[0] * step, d)


def num(it, a, k, pos, default=50):
    v = a[pos] if len(a) > pos else k.get('num', default)
    return todim(v)


@jreg('linspace')
def _linspace(it, a, k):
    lo = asarr(a[0] if a else k['start'])
    hi = asarr(a[1] if len(a) > 1 else k['stop'])
    n = num(it, a, k, 2)
    if k.get('axis', 0) not in (0,):
        raise Unmodelled('linspace axis')
    den = n - 1 if it.truth(k.get('endpoint', True)) else n
    sh = [ax(n)] + broadcast_axes(lo.axes, hi.axes) if lo.ndim or hi.ndim else [ax(n)]
    return Arr(sh, lambda idx: lo.at(*bidx(lo, idx[1:])) + (hi.at(*bidx(hi, idx[1:])) - lo.at(*bidx(lo, idx[1:]))) * idx[0] / den, 'float', max(lo.tl, hi.tl))


@jreg('logspace')
def _logspace(it, a, k):
    base = k.pop('base', 10)
    l = _linspace(it, a, k)
    bp = asarr(base).scalar()
    return Arr(l.axes, lambda idx: L.powf(bp, l.at(*idx)), 'float', l.tl)


@jreg('geomspace')
def _geomspace(it, a, k):
    n = num(it, a, k, 2)
    k2 = dict(k)
    lo = asarr(a[0] if a else k['start'])
    hi = asarr(a[1] if len(a) > 1 else k['stop'])
    l = [elementwise(lambda x: fn('log', x), v) for v in (lo, hi)]
    r = _linspace(it, l + [pyint(n)], {q: k2[q] for q in ('endpoint', 'axis') if q in k2})
    return Arr(r.axes, lambda idx: fn('exp', r.at(*idx)), 'float', r.tl)


@jreg('asarray', 'array', 'ascontiguousarray')
def _asarray(it, a, k):
    x = a[0] if a else k.get('a', k.get('object'))
    if isinstance(x, Arr) and x.tag == 'numpy' or isinstance(x, Arr) and x.py:
        x = x.with_(tag=None, py=None)
    if isinstance(x, float):
        x = scalar(special(x))
    if isinstance(x, Inst) or L.is_callable(x):
        raise AbsRaise(TypeError, f'Value of type {tname(x)} is not a valid JAX type')
    r = asarr(x)
    if r.py:
        r = r.with_(py=None)
    d = a[1] if len(a) > 1 else k.get('dtype')
    return cast(r, dtype_of(d)) if d is not None else Arr(r.axes, r.at_raw, r.dtype, r.tl)


# ------------------------------------------------------------------ shape ops
def shp(x, s):
    return reshape(x, s)


def _reshape(it, a, k):
    x = strictarr(a[0], 'reshape')
    sh = (a[1] if len(a) == 2 else tuple(a[1:])) if len(a) > 1 else k.get('shape', k.get('newshape'))
    if order_of(k):
        sh = list(sh) if isinstance(sh, (tuple, list)) else [sh]
        return transpose(reshape(transpose(x, None), tuple(reversed(sh))), None)
    return reshape(x, sh)


jreg('reshape')(_reshape)
def order_of(k, a=(), n=9):
    o = a[n] if len(a) > n else k.get('order', 'C')
    if o not in ('C', 'F', 'K', 'A'):
        raise AbsRaise(ValueError, f'order {o}')
    return o == 'F'


def ravel_order(x, f):
    return ravel(transpose(x, None) if f else x)


jreg('ravel')(lambda it, a, k: ravel_order(strictarr(a[0], 'ravel'), order_of(k, a, 1)))
jreg('transpose', 'permute_dims')(lambda it, a, k: transpose(strictarr(a[0], 'transpose'), a[1] if len(a) > 1 else k.get('axes')))
jreg('concatenate', 'concat')(lambda it, a, k: concatenate(list(it.iterate(a[0])) if not isinstance(a[0], Arr) else a[0], a[1] if len(a) > 1 else k.get('axis', 0)))
jreg('stack')(lambda it, a, k: stack([asarr(x) for x in it.iterate(a[0])], a[1] if len(a) > 1 else k.get('axis', 0)) if not isinstance(a[0], Arr) else (a[0] if k.get('axis', 0) == 0 else L.LIB['jnp.moveaxis'].f(it, [a[0], 0, k['axis']], {})))
jreg('flip')(lambda it, a, k: flip(a[0], axarg(a, k)))
jreg('fliplr')(lambda it, a, k: flip(a[0], 1))
jreg('flipud')(lambda it, a, k: flip(a[0], 0))
jreg('matmul')(lambda it, a, k: matmul(a[0], a[1]))
jreg('dot')(lambda it, a, k: dot(strictarr(a[0], 'dot'), strictarr(a[1], 'dot')))
jreg('vdot')(lambda it, a, k: dot(ravel(asarr(a[0])), ravel(asarr(a[1]))))
jreg('inner')(lambda it, a, k: einsum_core(['abc'[:asarr(a[0]).ndim - 1] + 'k', 'xyz'[:asarr(a[1]).ndim - 1] + 'k'], [asarr(a[0]), asarr(a[1])], 'abc'[:asarr(a[0]).ndim - 1] + 'xyz'[:asarr(a[1]).ndim - 1]) if asarr(a[0]).ndim and asarr(a[1]).ndim else elementwise(lambda x, y: x * y, a[0], a[1]))
jreg('outer')(lambda it, a, k: einsum_core(['a', 'b'], [ravel(asarr(a[0])), ravel(asarr(a[1]))], 'ab'))


@jreg('atleast_1d')
def _al1(it, a, k):
    x = asarr(a[0])
    return x if x.ndim else Arr((1,), lambda idx: x.at(), x.dtype, x.tl)


@jreg('atleast_2d')
def _al2(it, a, k):
    x = asarr(a[0])
    if x.ndim >= 2:
        return x
    return Arr((1,) + (x.axes or (ax(1),)), lambda idx: x.at(*idx[2 - x.ndim:]) if x.ndim else x.at(), x.dtype, x.tl)


@jreg('expand_dims')
def _expand(it, a, k):
    x = asarr(a[0])
    axs = axarg(a, k)
    axs = axs if isinstance(axs, (tuple, list)) else (axs,)
    nd = x.ndim + len(axs)
    axs = {norm_axis(t, nd) for t in axs}
    src = iter(x.axes)
    axes = [ax(1) if j in axs else next(src) for j in range(nd)]
    return Arr(axes, lambda idx: x.at(*[i for j, i in enumerate(idx) if j not in axs]), x.dtype, x.tl)


@jreg('squeeze')
def _squeeze(it, a, k):
    x = asarr(a[0])
    axs = axarg(a, k)
    if axs is None:
        axs = [j for j in range(x.ndim) if x.axes[j].dim is ONE]
    axs = axs if isinstance(axs, (tuple, list)) else (axs,)
    axs = {norm_axis(t, x.ndim) for t in axs}
    for j in axs:
        if x.axes[j].dim is not ONE:
            raise AbsRaise(ValueError, f'cannot select an axis to squeeze out which has size not equal to one: {list(x.axes)}')

    def body(idx):
        s = iter(idx)
        return x.at(*[ZERO if j in axs else next(s) for j in range(x.ndim)])
    return Arr([x.axes[j] for j in range(x.ndim) if j not in axs], body, x.dtype, x.tl)


@jreg('swapaxes')
def _swap(it, a, k):
    x = asarr(a[0])
    i, j = norm_axis(a[1], x.ndim), norm_axis(a[2], x.ndim)
    p = list(range(x.ndim))
    p[i], p[j] = p[j], p[i]
    return transpose(x, p)


@jreg('moveaxis')
def _move(it, a, k):
    x = asarr(a[0])
    s = a[1] if len(a) > 1 else k['source']
    d = a[2] if len(a) > 2 else k['destination']
    s = [norm_axis(t, x.ndim) for t in (s if isinstance(s, (tuple, list)) else [s])]
    d = [norm_axis(t, x.ndim) for t in (d if isinstance(d, (tuple, list)) else [d])]
    order = [n for n in range(x.ndim) if n not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return transpose(x, order)


@jreg('broadcast_to')
def _bto(it, a, k):
    x = asarr(a[0])
    sh = [ax(d) for d in shape_arg(a[1] if len(a) > 1 else k['shape'])]
    axes = broadcast_axes(sh, x.axes)
    if len(axes) != len(sh) or any(p.dim is not q.dim for p, q in zip(axes, sh)):
        raise AbsRaise(ValueError, 'Incompatible shapes for broadcasting')
    return Arr(axes, lambda idx: x.at(*bidx(x, idx)), x.dtype, x.tl)


@jreg('repeat')
def _repeat(it, a, k):
    x = asarr(a[0])
    r = todim(a[1] if len(a) > 1 else k['repeats'])
    axis = a[2] if len(a) > 2 else k.get('axis')
    if axis is None:
        x, axis = ravel(x), 0
    axis = norm_axis(axis, x.ndim)
    rd = ax(r)
    nx = prod_ax([x.axes[axis], rd]) if const_val(x.axes[axis].dim * r) is None else ax(x.axes[axis].dim * r)
    return Arr(x.axes[:axis] + (nx,) + x.axes[axis + 1:],
               lambda idx: x.at(*(idx[:axis] + (pdivmod(idx[axis], r)[0],) + idx[axis + 1:])), x.dtype, x.tl)


@jreg('tile')
def _tile(it, a, k):
    x = asarr(a[0])
    reps = a[1] if isinstance(a[1], (tuple, list)) else (a[1],)
    reps = [todim(r) for r in reps]
    nd = max(len(reps), x.ndim)
    reps = [ONE] * (nd - len(reps)) + reps
    xs = [ax(1)] * (nd - x.ndim) + list(x.axes)
    axes = []
    for r, d in zip(reps, xs):
        axes.append(d if r is ONE else (ax(r) if d.dim is ONE else (prod_ax([ax(r), d]) if const_val(r * d.dim) is None else ax(r * d.dim))))

    def body(idx):
        out = []
        for i, r, d in zip(idx, reps, xs):
            out.append(i if r is ONE else (ZERO if d.dim is ONE else pdivmod(i, d.dim)[1]))
        return x.at(*out[nd - x.ndim:])
    return Arr(axes, body, x.dtype, x.tl)


@jreg('diag')
def _diag(it, a, k):
    x = asarr(a[0])
    off = a[1] if len(a) > 1 else k.get('k', 0)
    if off != 0:
        if x.ndim == 1 and isinstance(off, int):
            d = x.axes[0].dim + abs(off)

            def b2(idx):
                i, j = (idx[0], idx[1]) if off > 0 else (idx[1], idx[0])
                g = delta0(j - i - abs(off))
                return g * x.at(i) if g.t else ZERO
            return Arr((d, d), b2, x.dtype, x.tl)
        return _diagonal(it, [x, off], {})
    if x.ndim == 1:
        def body(idx):
            g = delta0(idx[0] - idx[1])
            return g * x.at(idx[0]) if g.t else ZERO
        return Arr((x.axes[0], x.axes[0]), body, x.dtype, x.tl)
    if x.ndim == 2:
        return _diagonal(it, [x], {})
    raise AbsRaise(ValueError, 'diag input must be 1d or 2d')


@jreg('diagonal')
def _diagonal(it, a, k):
    x = asarr(a[0])
    off = a[1] if len(a) > 1 else k.get('offset', 0)
    if x.ndim < 2:
        raise AbsRaise(ValueError, 'diagonal requires an array of at least two dimensions.')
    i = norm_axis(k.get('axis1', a[2] if len(a) > 2 else 0), x.ndim)
    j = norm_axis(k.get('axis2', a[3] if len(a) > 3 else 1), x.ndim)
    if x.axes[i].dim is not x.axes[j].dim:
        raise Unmodelled('diagonal of a non square matrix')
    if off != 0:
        off = toint(off)
        x = slice_axis(x, j, P(off), x.axes[j].dim) if off > 0 else slice_axis(x, i, P(-off), x.axes[i].dim)
        j2, i2 = (i, j) if off > 0 else (j, i)
        x = slice_axis(x, j2, ZERO, x.axes[i2].dim)
    keep = [n for n in range(x.ndim) if n not in (i, j)]

    def body(idx):
        m = dict(zip(keep, idx))
        m[i] = m[j] = idx[-1]
        return x.at(*[m[n] for n in range(x.ndim)])
    ri = x.axes[i] if rank_struct(x.axes[i]) >= rank_struct(x.axes[j]) else x.axes[j]
    return Arr([x.axes[n] for n in keep] + [ri], body, x.dtype, x.tl)


@jreg('trace')
def _trace(it, a, k):
    d = _diagonal(it, a[:1], {n: v for n, v in k.items() if n.startswith('axis')})
    return reduce_sum(d, -1)


def tri(lower):
    def g(it, a, k):
        x = asarr(a[0])
        off = a[1] if len(a) > 1 else k.get('k', 0)

        def body(idx):
            i, j = idx[-2], idx[-1]
            return x.at(*idx) * (iverson('>=', i - j + off) if lower else iverson('>=', j - i - off))
        return Arr(x.axes, body, x.dtype, x.tl)
    return g


jreg('tril')(tri(True))
jreg('triu')(tri(False))


@jreg('where')
def _where(it, a, k):
    if len(a) == 1:
        raise Unmodelled('where with one argument')
    c = tobool(a[0])
    xs = [scalar(special(v)) if isinstance(v, float) else asarr(v) for v in a[1:3]]

    def f(g, x, y):
        if g is ONE:
            return x
        if g is ZERO:
            return y
        return g * x + (ONE - g) * y
    dt = promote(*[x.dtype for x, v in zip(xs, a[1:3]) if not is_num(v)] or [x.dtype for x in xs])
    return elementwise(f, c, *xs, dtype=dt)


@jreg('clip')
def _clip(it, a, k):
    names = ['arr', 'min', 'max']
    v = dict(zip(names, a))
    for o, n in (('a', 'arr'), ('x', 'arr'), ('a_min', 'min'), ('a_max', 'max'), ('min', 'min'), ('max', 'max'), ('arr', 'arr')):
        if o in k:
            v[n] = k[o]
    r = asarr(v['arr'])
    if v.get('min') is not None:
        r = elementwise(lambda x, y: fn('max2', x, y), r, v['min'], dtype=r.dtype)
    if v.get('max') is not None:
        r = elementwise(lambda x, y: fn('min2', x, y), r, v['max'], dtype=r.dtype)
    return r


@jreg('split')
def _split(it, a, k):
    s = a[1] if len(a) > 1 else k['indices_or_sections']
    if isinstance(s, Arr) and s.tl > 0 and any(const_val(s.at(*i)) is None for i in ([()] if not s.ndim else [(const(j),) for j in range(toint(s.shape[0]))])):
        raise AbsRaise(TypeError, 'ConcretizationTypeError: split indices are traced')
    return split(a[0], s, a[2] if len(a) > 2 else k.get('axis', 0))


@jreg('array_split')
def _array_split(it, a, k):
    x, s = asarr(a[0]), a[1] if len(a) > 1 else k['indices_or_sections']
    axis = norm_axis(a[2] if len(a) > 2 else k.get('axis', 0), x.ndim)
    if isinstance(s, (tuple, list)) or isinstance(s, Arr) and s.ndim:
        return _split(it, a, k)
    n, c = toint(s), const_val(x.axes[axis].dim)
    if c is None:
        raise Unmodelled('array_split of a symbolic axis')
    q, r = divmod(int(c), n)
    pts = [sum(q + (j < r) for j in range(m)) for m in range(n + 1)]
    return [slice_axis(x, axis, P(lo), P(hi)) for lo, hi in zip(pts, pts[1:])]


@jreg('take')
def _take(it, a, k):
    x, i = asarr(a[0]), asarr(a[1])
    axis = a[2] if len(a) > 2 else k.get('axis')
    if axis is None:
        x, axis = ravel(x), 0
    axis = norm_axis(axis, x.ndim)
    key = tuple([slice(None)] * axis + [i if i.ndim else i])
    return L.arr_getitem(it, x, key)


@jreg('take_along_axis')
def _taa(it, a, k):
    x, i = asarr(a[0]), asarr(a[1])
    axis = norm_axis(a[2] if len(a) > 2 else k.get('axis'), x.ndim)
    return Arr(i.axes, lambda idx: x.at(*[i.at(*idx) if j == axis else (idx[j] if x.axes[j].dim is not ONE else ZERO) for j in range(x.ndim)]), x.dtype, max(x.tl, i.tl))


@jreg('einsum')
def _einsum(it, a, k):
    s = a[0].replace(' ', '')
    if '...' in s:
        raise Unmodelled('einsum ellipsis')
    if '->' in s:
        i, o = s.split('->')
    else:
        i = s
        al = s.replace(',', '')
        o = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    return einsum_core(i.split(','), [asarr(x) for x in a[1:]], o)


@jreg('tensordot')
def _tensordot(it, a, k):
    x, y = asarr(a[0]), asarr(a[1])
    axes = a[2] if len(a) > 2 else k.get('axes', 2)
    if isinstance(axes, int):
        ia, ib = list(range(x.ndim - axes, x.ndim)), list(range(axes))
    else:
        ia, ib = [list(t) if isinstance(t, (tuple, list)) else [t] for t in axes]
    ia, ib = [norm_axis(t, x.ndim) for t in ia], [norm_axis(t, y.ndim) for t in ib]
    lx = list('abcdefgh'[:x.ndim])
    ly = list('ijklmnop'[:y.ndim])
    for p, q in zip(ia, ib):
        ly[q] = lx[p]
    out = [c for n, c in enumerate(lx) if n not in ia] + [c for n, c in enumerate(ly) if n not in ib]
    return einsum_core([''.join(lx), ''.join(ly)], [x, y], ''.join(out))


@jreg('kron')
def _kron(it, a, k):
    x, y = asarr(a[0]), asarr(a[1])
    n = max(x.ndim, y.ndim)
    x, y = [Arr((ax(1),) * (n - z.ndim) + tuple(z.axes), (lambda z: lambda idx: z.at(*idx[n - z.ndim:]))(z), z.dtype, z.tl) for z in (x, y)]
    u, v = 'abcdefgh'[:n], 'ijklmnop'[:n]
    z = einsum_core([u, v], [x, y], ''.join(p + q for p, q in zip(u, v)))
    return reshape(z, tuple(pyint(p * q) for p, q in zip(x.dims, y.dims)))


@jreg('searchsorted')
def _searchsorted(it, a, k):
    s, v = asarr(a[0]), asarr(a[1])
    side = a[2] if len(a) > 2 else k.get('side', 'left')
    op = '>' if side == 'left' else '>='

    def f(x):
        return sum_cells(s.axes[0], lambda i: iverson(op, x - s.at(i)))
    return Arr(v.axes, lambda idx: f(v.at(*idx)), 'int', max(s.tl, v.tl))


@jreg('digitize')
def _digitize(it, a, k):
    v, s = asarr(a[0]), asarr(a[1])
    right = it.truth(a[2] if len(a) > 2 else k.get('right', False))
    return _searchsorted(it, [s, v], {'side': 'left' if right else 'right'})


@jreg('cov')
def _cov(it, a, k):
    x = asarr(a[0])
    rowvar = it.truth(k.get('rowvar', a[2] if len(a) > 2 else True))
    if x.ndim > 2:
        raise AbsRaise(ValueError, 'm has more than 2 dimensions')
    if x.ndim == 1:
        x2 = Arr((ax(1), x.axes[0]), lambda idx: x.at(idx[1]), x.dtype, x.tl)
    else:
        x2 = x if rowvar else transpose(x)
    n = x2.axes[1].dim
    ddof = k.get('ddof')
    dd = P(1 if not it.truth(k.get('bias', False)) else 0) if ddof is None else P(ddof)
    mu = reduce_sum(x2, 1, True)
    dev = elementwise(lambda p, q: p - q / n, x2, mu)
    c = einsum_core(['ik', 'jk'], [dev, dev], 'ij')
    r = Arr(c.axes, lambda idx: c.at(*idx) / (n - dd), 'float', c.tl)
    # jnp.cov squeezes
    return _squeeze(it, [r], {})


@jreg('allclose')
def _allclose(it, a, k):
    x, y = asarr(a[0]), asarr(a[1])
    axes = broadcast_axes(x.axes, y.axes)
    d = lam_of(Arr(axes, lambda idx: x.at(*bidx(x, idx)) - y.at(*bidx(y, idx))))
    return scalar(app('allclose0', (), [d], ()), 'bool', max(x.tl, y.tl))


jreg('array_equal')(lambda it, a, k: scalar(app('alleq', (), [lam_of(asarr(a[0])), lam_of(asarr(a[1]))], ()), 'bool'))
jreg('shape')(lambda it, a, k: asarr(a[0]).shape)
jreg('ndim')(lambda it, a, k: asarr(a[0]).ndim)
jreg('size')(lambda it, a, k: L3.arr_attr(it, asarr(a[0]).with_(py=None), 'size'))
jreg('copy')(lambda it, a, k: asarr(a[0]))
jreg('real')(lambda it, a, k: asarr(a[0]))
jreg('isscalar')(lambda it, a, k: is_num(a[0]) or isinstance(a[0], Arr) and not a[0].ndim)
jreg('nan_to_num')(lambda it, a, k: elementwise(lambda x: (ONE - fn('isnan', x)) * x, a[0]))
jreg('result_type', 'promote_types')(lambda it, a, k: DT(promote(*[x.name if isinstance(x, DT) else asarr(x).dtype for x in a])))


@jreg('finfo')
def _finfo(it, a, k):
    d = a[0]
    return L3.Finfo(d.dtype if isinstance(d, Arr) else dtype_of(d))


LIB['jnp.newaxis'] = LIB['np.newaxis'] = None
for _n in ('float16', 'bfloat16', 'float32', 'float64'):
    LIB['jnp.' + _n] = LIB['np.' + _n] = DT(_n)
for _n in ('int32', 'int64', 'int8', 'int16', 'uint8', 'uint32', 'uint64', 'int_'):
    LIB['jnp.' + _n] = LIB['np.' + _n] = DT('int')
LIB['jnp.bool_'] = LIB['np.bool_'] = LIB['jnp.bool'] = DT('bool')
LIB['jnp.float_'] = DT('float')
LIB['jnp.dtype'] = LIB['np.dtype'] = Builtin('dtype', lambda it, a, k: DT(dtype_of(a[0])))


@jreg('vstack', 'row_stack')
def _vstack(it, a, k):
    xs = [_al2(it, [x], {}) for x in it.iterate(a[0])]
    return concatenate(xs, 0)


@jreg('hstack')
def _hstack(it, a, k):
    xs = [asarr(x) for x in it.iterate(a[0])]
    return concatenate(xs, 0 if xs[0].ndim <= 1 else 1)


@jreg('column_stack')
def _cstack(it, a, k):
    xs = [asarr(x) for x in it.iterate(a[0])]
    xs = [_expand(it, [x, 1], {}) if x.ndim == 1 else x for x in xs]
    return concatenate(xs, 1)


def ordered(name, it, a, k):
    """sort / argsort along one axis (stable): rank r of the ascending order is rank r of the descending order of -x."""
    x = asarr(a[0] if a else k['a'])
    axis = a[1] if len(a) > 1 else k.get('axis', -1)
    if axis is None:
        x, axis = call_ravel(x), 0
    axis = norm_axis(axis, x.ndim)
    k.get('kind')
    k.get('stable')
    down = it.truth(k.get('descending', False))
    sg = ONE if down else -ONE

    def body(idx):
        sub = Arr((x.axes[axis],), lambda ii: sg * x.at(*idx[:axis], *ii, *idx[axis + 1:]), x.dtype)
        z = const_val(idx[axis]) == 0
        if name == 'argsort':
            return app('argmax', (), [lam_of(sub)], ()) if z else app('topk_idx', (), [lam_of(sub)], (idx[axis],))
        return sg * (app('amax', (), [lam_of(sub)], ()) if z else app('topk', (), [lam_of(sub)], (idx[axis],)))
    return Arr(x.axes, body, x.dtype if name == 'sort' else 'int', x.tl)


def call_ravel(x):
    return LIB['jnp.ravel'].f(None, [x], {})


jreg('sort')(lambda it, a, k: ordered('sort', it, a, k))
jreg('argsort')(lambda it, a, k: ordered('argsort', it, a, k))
jreg('unique')(lambda it, a, k: (_ for _ in ()).throw(Unmodelled('unique')))
@jreg('meshgrid')
def _meshgrid(it, a, k):
    xs = [asarr(x) for x in a]
    n = len(xs)
    order = list(range(n))
    if k.get('indexing', 'xy') == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    axes = [xs[j].axes[0] for j in order]
    if it.truth(k.get('sparse', False)):
        raise Unmodelled('sparse meshgrid')
    return [Arr(axes, (lambda x, p: lambda idx: x.at(idx[p]))(x, order.index(j)), x.dtype, x.tl) for j, x in enumerate(xs)]

jreg('histogram')(lambda it, a, k: (_ for _ in ()).throw(Unmodelled('histogram')))


@jreg('average')
def _average(it, a, k):
    x = asarr(a[0])
    w = k.get('weights', a[2] if len(a) > 2 else None)
    axis = axarg(a, k)
    if w is None:
        return _mean(it, x, axis, False, {})
    w = asarr(w)
    if axis is not None and w.ndim == 1 and x.ndim > 1:
        pos, w1 = norm_axis(axis, x.ndim), w
        w = Arr([w1.axes[0] if j == pos else ax(1) for j in range(x.ndim)], lambda idx: w1.at(idx[pos]), w1.dtype, w1.tl)
    n = reduce_sum(elementwise(lambda p, q: p * q, x, w), axis)
    d = reduce_sum(w, axis)
    return elementwise(lambda p, q: p / q, n, d, dtype='float')


@reg('jax.ops.segment_sum')
def _segsum(it, a, k):
    v = dict(zip(('data', 'segment_ids', 'num_segments'), a), **{q: k[q] for q in ('data', 'segment_ids', 'num_segments') if q in k})
    x, s = asarr(v['data']), asarr(v['segment_ids'])
    k.get('indices_are_sorted'), k.get('unique_indices'), k.get('mode')
    if v.get('num_segments') is None:
        raise Unmodelled('segment_sum without num_segments')
    return Arr((todim(v['num_segments']),) + tuple(x.axes[1:]),
               lambda idx: sum_cells(x.axes[0], lambda i: delta_real(s.at(i) - idx[0]) * x.at(i, *idx[1:])), x.dtype, max(x.tl, s.tl))


@jreg('bincount')
def _bincount(it, a, k):
    x = asarr(a[0])
    n = k.get('length', k.get('minlength'))
    if n is None:
        raise Unmodelled('bincount')
    w = k.get('weights', a[1] if len(a) > 1 else None)
    w = None if w is None else asarr(w)
    return Arr((todim(n),), lambda idx: sum_cells(x.axes[0], lambda i: delta_real(x.at(i) - idx[0]) * (ONE if w is None else w.at(i))), 'float' if w is not None else 'int', x.tl)
