"""Further transfer functions: jax.lax spellings and less common jnp functions."""
from .lib import *
from . import lib as L
from . import lib4 as L4
from . import lib5 as L5
from .lib import LIB, reg
from .lib4 import jreg, ew, staged
from .lib5 import both
from . import terms as T


def call(it, n, a, k=None):
    return LIB[n].f(it, list(a), dict(k or {}))


def args(a, k, names, /, **defaults):
    """Bind positional and keyword arguments to names."""
    v = dict(defaults)
    if len(a) > len(names):
        raise AbsRaise(TypeError, 'too many positional arguments')
    v.update(zip(names, a))
    for n in k:
        if n not in names:
            raise Unmodelled(f'keyword {n}')
    v.update(k)
    for n in names:
        if n not in v:
            raise AbsRaise(TypeError, f'missing argument {n}')
    return [v[n] for n in names]


def alias(new, old, drop=()):
    """A lax spelling of a jnp function (looked up when called)."""
    def g(it, a, k):
        return LIB[old].f(it, list(a), {n: v for n, v in k.items() if n not in drop})
    if new not in LIB:
        LIB[new] = Builtin(new, g)


ACC = ('accuracy',)
for _n, _o in (('abs', 'abs'), ('max', 'maximum'), ('min', 'minimum'), ('sqrt', 'sqrt'), ('pow', 'power'), ('tanh', 'tanh'), ('sign', 'sign'),
               ('floor', 'floor'), ('ceil', 'ceil'), ('eq', 'equal'), ('ne', 'not_equal'), ('lt', 'less'), ('le', 'less_equal'),
               ('gt', 'greater'), ('ge', 'greater_equal'), ('reciprocal', 'reciprocal'), ('log1p', 'log1p'), ('expm1', 'expm1'),
               ('exp2', 'exp2'), ('rem', 'remainder'), ('is_finite', 'isfinite'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
               ('bitwise_and', 'logical_and'), ('bitwise_or', 'logical_or'), ('bitwise_not', 'logical_not'), ('full_like', 'full_like'),
               ('cbrt', 'cbrt'), ('round', 'round'), ('full', 'full'), ('squeeze', 'squeeze'), ('expand_dims', 'expand_dims')):
    alias('jax.lax.' + _n, 'jnp.' + _o, ACC)
for _n, _o in (('pow', 'power'), ('acos', 'arccos'), ('asin', 'arcsin'), ('atan', 'arctan'), ('atan2', 'arctan2'), ('atanh', 'arctanh'),
               ('rint', 'round'), ('fabs', 'abs'), ('matrix_transpose', 'linalg.matrix_transpose'), ('cumulative_sum', 'cumsum'),
               ('linalg.matmul', 'matmul'), ('linalg.outer', 'outer'), ('linalg.tensordot', 'tensordot')):
    alias('jnp.' + _n, 'jnp.' + _o)
    if 'np.' + _o in LIB:
        alias('np.' + _n, 'np.' + _o)
for _n in ('det', 'eigh', 'svd', 'qr'):
    alias('jax.scipy.linalg.' + _n, 'jnp.linalg.' + _n, ('overwrite_a', 'check_finite', 'lower'))
alias('jax.scipy.special.log_softmax', 'jax.nn.log_softmax')


@both('jnp.linalg.trace')
def _ltrace(it, a, k):
    return reduce_sum(call(it, 'jnp.linalg.diagonal', a, k), -1)


@both('jnp.linalg.diagonal')
def _ldiag(it, a, k):
    return call(it, 'jnp.diagonal', a[:1], {'axis1': -2, 'axis2': -1, **k})


@both('jnp.linalg.vecdot', 'jnp.vecdot')
def _vecdot(it, a, k):
    x, y = asarr(a[0]), asarr(a[1])
    axis = k.get('axis', -1)
    return reduce_sum(elementwise(lambda p, q: p * q, x, y), axis)


@both('jnp.linalg.vector_norm')
def _vnorm(it, a, k):
    x, axis, kd, o = args(a, k, ('x', 'axis', 'keepdims', 'ord'), axis=None, keepdims=False, ord=2)
    if axis is None and asarr(x).ndim != 1:
        x = ravel(asarr(x))
    return call(it, 'jnp.linalg.norm', [x], {'ord': None if o == 2 else o, 'axis': axis, 'keepdims': kd})


@both('jnp.linalg.matrix_norm')
def _mnorm(it, a, k):
    x, kd, o = args(a, k, ('x', 'keepdims', 'ord'), keepdims=False, ord='fro')
    if o != 'fro':
        raise Unmodelled('matrix norm order')
    return call(it, 'jnp.linalg.norm', [x], {'axis': (-2, -1), 'keepdims': kd})


@jreg('matvec', np_=False)
def _matvec(it, a, k):
    x, v = asarr(a[0]), asarr(a[1])
    r = matmul(x, call(it, 'jnp.expand_dims', [v, -1]))
    return take(r, r.ndim - 1, ZERO)


@jreg('vecmat', np_=False)
def _vecmat(it, a, k):
    v, x = asarr(a[0]), asarr(a[1])
    r = matmul(call(it, 'jnp.expand_dims', [v, -2]), x)
    return take(r, r.ndim - 2, ZERO)


# ------------------------------------------------------------------ slicing
def bounds(x, axis, lo, hi):
    D = x.axes[axis].dim
    return ZERO if lo is None else todim(lo), D if hi is None else todim(hi)


@both('jax.lax.slice_in_dim')
def _slice_in_dim(it, a, k):
    x, lo, hi, stride, axis = args(a, k, ('operand', 'start_index', 'limit_index', 'stride', 'axis'), stride=1, axis=0)
    x = asarr(x)
    axis = norm_axis(axis, x.ndim)
    key = [slice(None)] * axis + [slice(lo, hi, None if stride == 1 else stride)]
    return L.arr_getitem(it, x, tuple(key))


@both('jax.lax.slice')
def _slice(it, a, k):
    x, lo, hi, st = args(a, k, ('operand', 'start_indices', 'limit_indices', 'strides'), strides=None)
    x = asarr(x)
    st = st or [1] * x.ndim
    return L.arr_getitem(it, x, tuple(slice(p, q, None if s == 1 else s) for p, q, s in zip(lo, hi, st)))


def clamped(it, x, axis, start, size):
    """Start of a dynamic slice: a constant is clamped, a symbol is assumed within range."""
    s = asarr(start).scalar()
    D, n = x.axes[axis].dim, size.dim if isinstance(size, Ax) else todim(size)
    c = const_val(s)
    if c is not None and c < 0:
        s = s + D
    if nonneg(s - (D - n)):
        s = D - n
    return s, n


@both('jax.lax.dynamic_slice_in_dim')
def _dsid(it, a, k):
    x, s, n, axis = args(a, k, ('operand', 'start_index', 'slice_size', 'axis'), axis=0)
    x = asarr(x)
    axis = norm_axis(axis, x.ndim)
    s, n = clamped(it, x, axis, s, n)
    return slice_axis(x, axis, s, s + n)


@both('jax.lax.dynamic_slice')
def _ds(it, a, k):
    x, ss, ns = args(a, k, ('operand', 'start_indices', 'slice_sizes'))
    x = asarr(x)
    ss = [take(ss, 0, const(j)) for j in range(x.ndim)] if isinstance(ss, Arr) else list(ss)
    for axis, (s, n) in enumerate(zip(ss, ns)):
        s, n = clamped(it, x, axis, s, n)
        x = slice_axis(x, axis, s, s + n)
    return x


@both('jax.lax.index_in_dim')
def _iid(it, a, k):
    x, i, axis, kd = args(a, k, ('operand', 'index', 'axis', 'keepdims'), axis=0, keepdims=True)
    x = asarr(x)
    axis = norm_axis(axis, x.ndim)
    r = L.arr_getitem(it, x, tuple([slice(None)] * axis + [i]))
    return call(it, 'jnp.expand_dims', [r, axis]) if it.truth(kd) else r


def update(it, x, v, starts):
    key = []
    for axis, s in enumerate(starts):
        s, n = clamped(it, x, axis, s, v.axes[axis])
        key.append((s, n, v.axes[axis]))

    def body(idx):
        g, vi = ONE, []
        for i, (s, n, _) in zip(idx, key):
            if s is ZERO and n is x.axes[len(vi)].dim:
                vi.append(i)
                continue
            if n is ONE:
                g = g * delta_real(i - s)
                vi.append(ZERO)
            else:
                g = g * iverson('>=', i - s) * iverson('>', s + n - i)
                vi.append(i - s)
        if g is ZERO:
            return x.at(*idx)
        return v.at(*vi) if g is ONE else g * v.at(*vi) + (ONE - g) * x.at(*idx)
    return Arr(x.axes, body, x.dtype, max(x.tl, v.tl))


@both('jax.lax.dynamic_update_slice')
def _dus(it, a, k):
    x, v, ss = args(a, k, ('operand', 'update', 'start_indices'))
    x, v = asarr(x), asarr(v)
    ss = [take(ss, 0, const(j)) for j in range(x.ndim)] if isinstance(ss, Arr) else list(ss)
    return update(it, x, v, ss)


@both('jax.lax.dynamic_update_slice_in_dim')
def _dusid(it, a, k):
    x, v, s, axis = args(a, k, ('operand', 'update', 'start_index', 'axis'))
    x, v = asarr(x), asarr(v)
    axis = norm_axis(axis, x.ndim)
    return update(it, x, v, [s if j == axis else 0 for j in range(x.ndim)])


@both('jax.lax.dynamic_update_index_in_dim')
def _duiid(it, a, k):
    x, v, s, axis = args(a, k, ('operand', 'update', 'index', 'axis'))
    x, v = asarr(x), asarr(v)
    axis = norm_axis(axis, x.ndim)
    if v.ndim < x.ndim:
        v = call(it, 'jnp.expand_dims', [v, axis])
    return update(it, x, v, [s if j == axis else 0 for j in range(x.ndim)])


# ------------------------------------------------------------------ shapes
@both('jax.lax.reshape')
def _lreshape(it, a, k):
    x, sh, d, _ = args(a, k, ('operand', 'new_sizes', 'dimensions', 'out_sharding'), dimensions=None, out_sharding=None)
    x = asarr(x)
    if d is not None and [toint(i) for i in d] != list(range(x.ndim)):
        raise Unmodelled('reshape dimensions')
    return call(it, 'jnp.reshape', [x, sh])


@both('jax.lax.transpose')
def _ltranspose(it, a, k):
    x, p = args(a, k, ('operand', 'permutation'))
    return transpose(asarr(x), [toint(i) for i in p])


@both('jax.lax.broadcast')
def _lbroadcast(it, a, k):
    x, sh = args(a, k, ('operand', 'sizes'))
    x = asarr(x)
    n = len(sh)
    return Arr(tuple(ax(todim(s)) for s in sh) + tuple(x.axes), lambda idx: x.at(*idx[n:]), x.dtype, x.tl)


@both('jax.lax.broadcast_in_dim')
def _bid(it, a, k):
    x, sh, dims = args(a, k, ('operand', 'shape', 'broadcast_dimensions'))
    x = asarr(x)
    dims = [toint(d) for d in dims]
    axes = [ax(todim(s)) for s in sh]
    for j, d in enumerate(dims):
        if x.axes[j].dim is not ONE:
            if x.axes[j].dim is not axes[d].dim:
                raise AbsRaise(TypeError, 'broadcast_in_dim: incompatible shapes')
            axes[d] = x.axes[j]
    return Arr(axes, lambda idx: x.at(*[ZERO if x.axes[j].dim is ONE else idx[d] for j, d in enumerate(dims)]), x.dtype, x.tl)


@both('jax.lax.concatenate')
def _lconcat(it, a, k):
    xs, d = args(a, k, ('operands', 'dimension'))
    return concatenate([asarr(x) for x in it.iterate(xs)], toint(d))


@both('jax.lax.collapse')
def _lcollapse(it, a, k):
    x, lo, hi = args(a, k, ('operand', 'start_dimension', 'stop_dimension'), stop_dimension=None)
    x = asarr(x)
    lo, hi = toint(lo) % max(x.ndim, 1), x.ndim if hi is None else toint(hi)
    hi = hi + x.ndim if hi < 0 else hi
    return reshape(x, [pyint(y.dim) for y in list(x.axes[:lo]) + [prod_ax(x.axes[lo:hi])] + list(x.axes[hi:])])


@both('jax.lax.iota')
def _iota(it, a, k):
    d, n = args(a, k, ('dtype', 'size'))
    return L4.cast(call(it, 'jnp.arange', [n]), L4.dtype_of(d))


@both('jax.lax.broadcasted_iota')
def _biota(it, a, k):
    d, sh, dim = args(a, k, ('dtype', 'shape', 'dimension'))
    return Arr([ax(todim(s)) for s in sh], lambda idx: idx[toint(dim)], L4.dtype_of(d))


@both('jax.lax.clamp')
def _clamp(it, a, k):
    lo, x, hi = args(a, k, ('min', 'x', 'max'))
    x = asarr(x)
    return elementwise(lambda l, p, h: fn('min2', fn('max2', p, l), h), asarr(lo), x, asarr(hi), dtype=x.dtype)


@both('jax.lax.select_n')
def _select_n(it, a, k):
    c = asarr(a[0])
    if len(a) == 3 and c.dtype == 'bool':
        return call(it, 'jnp.where', [c, a[2], a[1]])
    raise Unmodelled('select_n')


@both('jax.lax.convert_element_type', 'jnp.astype')
def _convert(it, a, k):
    v = list(a) + [k[n] for n in ('new_dtype', 'dtype') if n in k]
    return L4.cast(asarr(v[0]), L4.dtype_of(v[1]))


@both('jax.lax.integer_pow')
def _ipow(it, a, k):
    x, n = args(a, k, ('x', 'y'))
    return asarr(L.binop(it, 'Pow', asarr(x), toint(n)))


@both('jax.lax.cumsum')
def _lcumsum(it, a, k):
    x, axis, rev = args(a, k, ('operand', 'axis', 'reverse'), axis=0, reverse=False)
    if it.truth(rev):
        return flip(call(it, 'jnp.cumsum', [flip(asarr(x), axis), axis]), axis)
    return call(it, 'jnp.cumsum', [x, axis])


@both('jax.lax.rev')
def _rev(it, a, k):
    x, d = args(a, k, ('operand', 'dimensions'))
    return flip(asarr(x), tuple(toint(i) for i in d))


def largarg(name):
    @both('jax.lax.' + name)
    def f(it, a, k):
        x, axis, d = args(a, k, ('operand', 'axis', 'index_dtype'))
        return call(it, 'jnp.' + name, [x, axis])


largarg('argmax')
largarg('argmin')
for _n, _o in (('sum', 'sum'), ('max', 'max'), ('min', 'min'), ('prod', 'prod'), ('and', 'all'), ('or', 'any')):
    both('jax.lax.reduce_' + _n)((lambda o: lambda it, a, k: call(it, 'jnp.' + o, [a[0], tuple(a[1] if len(a) > 1 else k['axes'])]))(_o))


@both('jax.lax.batch_matmul')
def _bmm(it, a, k):
    return matmul(asarr(a[0]), asarr(a[1]))


@both('jax.lax.dot_general')
def _dotg(it, a, k):
    x, y, dims = asarr(a[0]), asarr(a[1]), a[2] if len(a) > 2 else k['dimension_numbers']
    (cx, cy), (bx, by) = [[[toint(i) for i in s] for s in p] for p in dims]
    lx, ly = list('abcdefgh'[:x.ndim]), list('ijklmnop'[:y.ndim])
    for p, q in zip(list(cx) + list(bx), list(cy) + list(by)):
        ly[q] = lx[p]
    out = [lx[p] for p in bx] + [c for n, c in enumerate(lx) if n not in cx + bx] + [c for n, c in enumerate(ly) if n not in cy + by]
    return einsum_core([''.join(lx), ''.join(ly)], [x, y], ''.join(out))


# ------------------------------------------------------------------ jnp
@jreg('append')
def _append(it, a, k):
    x, v, axis = args(a, k, ('arr', 'values', 'axis'), axis=None)
    x, v = asarr(x), asarr(v)
    if axis is None:
        x, v, axis = ravel(x), ravel(v), 0
    return concatenate([x, v], norm_axis(axis, x.ndim))


@jreg('atleast_3d')
def _al3(it, a, k):
    x = asarr(a[0])
    if x.ndim >= 3:
        return x
    return call(it, 'jnp.expand_dims', [call(it, 'jnp.atleast_2d', [x]), 2]) if x.ndim == 2 or x.ndim == 0 else \
        call(it, 'jnp.expand_dims', [x, (0, 2)])


@jreg('broadcast_arrays')
def _barrs(it, a, k):
    xs = [asarr(x) for x in a]
    axes = broadcast_axes(*[x.axes for x in xs])
    return [Arr(axes, (lambda x: lambda idx: x.at(*bidx(x, idx)))(x), x.dtype, x.tl) for x in xs]


@jreg('broadcast_shapes')
def _bshapes(it, a, k):
    axes = broadcast_axes(*[[ax(todim(d)) for d in (s if isinstance(s, (tuple, list)) else [s])] for s in a])
    return tuple(pyint(x.dim) for x in axes)


LIB['jax.lax.broadcast_shapes'] = LIB['jnp.broadcast_shapes']


@jreg('count_nonzero')
def _cnz(it, a, k):
    x, axis, kd = args(a, k, ('a', 'axis', 'keepdims'), axis=None, keepdims=False)
    b = L4.tobool(x)
    return reduce_sum(b.with_(dtype='int'), axis, it.truth(kd))


@jreg('diagflat')
def _diagflat(it, a, k):
    return call(it, 'jnp.diag', [ravel(asarr(a[0]))] + list(a[1:]), k)


@jreg('diag_indices')
def _diagidx(it, a, k):
    n, nd = args(a, k, ('n', 'ndim'), ndim=2)
    return tuple(call(it, 'jnp.arange', [n]) for _ in range(toint(nd)))


@jreg('diag_indices_from')
def _diagidxf(it, a, k):
    x = asarr(a[0])
    return tuple(Arr((x.axes[0],), lambda idx: idx[0], 'int') for _ in range(x.ndim))


@jreg('tri')
def _tri(it, a, k):
    n, m, o, d = args(a, k, ('N', 'M', 'k', 'dtype'), M=None, k=0, dtype=None)
    n = todim(n)
    m = n if m is None else todim(m)
    return Arr((ax(n), ax(m)), lambda idx: iverson('>=', idx[0] - idx[1] + o), 'float' if d is None else L4.dtype_of(d))


def tri_indices(name, keep):
    @jreg(name)
    def f(it, a, k):
        n, o, m = args(a, k, ('n', 'k', 'm'), k=0, m=None)
        n, m = toint(n), toint(n if m is None else m)
        ij = [(i, j) for i in range(n) for j in range(m) if keep(i, j, toint(o))]
        return tuple(asarr([p[q] for p in ij]) for q in (0, 1))


tri_indices('tril_indices', lambda i, j, o: j <= i + o)
tri_indices('triu_indices', lambda i, j, o: j >= i + o)


@jreg('roll')
def _roll(it, a, k):
    x, s, axis = args(a, k, ('a', 'shift', 'axis'), axis=None)
    x = asarr(x)
    if axis is None:
        return reshape(_roll(it, [ravel(x), s, 0], {}), list(x.shape))
    if isinstance(axis, (tuple, list)):
        ss = s if isinstance(s, (tuple, list)) else [s] * len(axis)
        for p, q in zip(ss, axis):
            x = _roll(it, [x, p, q], {})
        return x
    axis = norm_axis(axis, x.ndim)
    D, s = x.axes[axis].dim, todim(s)
    c, d = const_val(s), const_val(D)
    if c is not None and d is not None:
        s = const(c % d) if d else ZERO
    elif c is not None and c < 0:
        s = s + D
    if s is ZERO:
        return x
    return concatenate([slice_axis(x, axis, D - s, D), slice_axis(x, axis, ZERO, D - s)], axis)


@jreg('rollaxis')
def _rollaxis(it, a, k):
    x, axis, start = args(a, k, ('a', 'axis', 'start'), start=0)
    x = asarr(x)
    axis, start = norm_axis(axis, x.ndim), toint(start)
    start = start + x.ndim if start < 0 else start
    return call(it, 'jnp.moveaxis', [x, axis, start - (axis < start)])


@jreg('unstack')
def _unstack(it, a, k):
    x, axis = args(a, k, ('x', 'axis'), axis=0)
    x = asarr(x)
    axis = norm_axis(axis, x.ndim)
    return tuple(take(x, axis, const(j)) for j in range(toint(x.shape[axis])))


@jreg('pad')
def _pad(it, a, k):
    x, w, mode, cv = args(a, k, ('array', 'pad_width', 'mode', 'constant_values'), mode='constant', constant_values=0)
    x = asarr(x)
    if mode != 'constant':
        raise Unmodelled('pad mode')
    if not isinstance(w, (tuple, list)):
        w = [(w, w)] * x.ndim
    elif not isinstance(w[0], (tuple, list)):
        w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * x.ndim
    elif len(w) == 1 < x.ndim:
        w = list(w) * x.ndim
    c = asarr(cv).scalar()
    for axis, (lo, hi) in enumerate(w):
        parts = []
        for n in (lo, None, hi):
            if n is None:
                parts.append(x)
            elif todim(n) is not ZERO:
                parts.append(Arr(x.axes[:axis] + (ax(todim(n)),) + x.axes[axis + 1:], lambda idx: c, x.dtype, x.tl))
        x = concatenate(parts, axis) if len(parts) > 1 else x
    return x


@jreg('select')
def _jselect(it, a, k):
    cs, xs, d = args(a, k, ('condlist', 'choicelist', 'default'), default=0)
    r = d
    for c, x in reversed(list(zip(cs, xs))):
        r = call(it, 'jnp.where', [c, x, r])
    return r


@jreg('divmod')
def _divmod(it, a, k):
    return (call(it, 'jnp.floor_divide', a), call(it, 'jnp.remainder', a))


@jreg('isclose')
def _isclose(it, a, k):
    x, y, rt, at, _ = args(a, k, ('a', 'b', 'rtol', 'atol', 'equal_nan'), rtol=Q(1, 100000), atol=Q(1, 10 ** 8), equal_nan=False)
    d = call(it, 'jnp.abs', [L.binop(it, 'Sub', asarr(x), asarr(y))])
    lim = L.binop(it, 'Add', asarr(at), L.binop(it, 'Mult', asarr(rt), call(it, 'jnp.abs', [asarr(y)])))
    return asarr(L.compare('<=', d, asarr(lim)))


ew('trunc', lambda x: fn('sign', x) * fn('floor', fn('abs', x)))
for _n in ('fix',):
    alias('jnp.' + _n, 'jnp.trunc')


@jreg('logaddexp2')
def _lae2(it, a, k):
    l2 = fn('log', const(2))
    s = [L.binop(it, 'Mult', asarr(x), scalar(l2)) for x in a]
    return L.binop(it, 'Div', call(it, 'jnp.logaddexp', s), scalar(l2))


@jreg('apply_along_axis', np_=False)
def _aaa(it, a, k):
    f, axis, x = a[0], a[1], asarr(a[2])
    axis = norm_axis(axis, x.ndim)
    x = call(it, 'jnp.moveaxis', [x, axis, -1])
    g = Builtin('apply_along_axis', lambda it2, a2, k2: asarr(it2.call(f, [a2[0]] + list(a[3:]), dict(k))))
    n = x.ndim - 1
    for _ in range(n):
        g = it.call(LIB['jax.vmap'], [g], {})
    r = asarr(it.call(g, [x], {}))
    for j in range(r.ndim - n):
        r = call(it, 'jnp.moveaxis', [r, n + j, axis + j])
    return r


@jreg('fromfunction', np_=False)
def _fromfunction(it, a, k):
    f, sh = a[0], [ax(todim(s)) for s in a[1]]
    grids = [Arr(sh, (lambda j: lambda idx: idx[j])(j), 'float' if 'dtype' not in k else L4.dtype_of(k['dtype'])) for j in range(len(sh))]
    return it.call(f, grids, {n: v for n, v in k.items() if n != 'dtype'})


@jreg('indices')
def _indices(it, a, k):
    sh = [ax(todim(s)) for s in a[0]]
    return stack([Arr(sh, (lambda j: lambda idx: idx[j])(j), 'int') for j in range(len(sh))], 0)


# ------------------------------------------------------------------ einsum with an ellipsis
_einsum0 = LIB['jnp.einsum'].f


def einsum(it, a, k):
    if not isinstance(a[0], str) or '...' not in a[0]:
        return _einsum0(it, a, k)
    s = a[0].replace(' ', '')
    i, _, o = s.partition('->')
    xs = [asarr(x) for x in a[1:]]
    free = [c for c in 'ZYXWVUTS' if c not in s]
    nd = max(x.ndim - len(p.replace('...', '')) for p, x in zip(i.split(','), xs) if '...' in p)
    batch = ''.join(free[:nd])
    ps = []
    for p, x in zip(i.split(','), xs):
        m = x.ndim - len(p.replace('...', ''))
        ps.append(p.replace('...', batch[nd - m:] if m else ''))
    if '->' not in s:
        al = ''.join(p for p in ps)
        o = '...' + ''.join(sorted(c for c in set(al) if al.count(c) == 1 and c not in batch))
    return _einsum0(it, [','.join(ps) + '->' + o.replace('...', batch)] + xs, k)


LIB['jnp.einsum'] = Builtin('jnp.einsum', einsum)


# ------------------------------------------------------------------ special functions and trees
L5.e1(['jax.scipy.special.erfc', 'jax.lax.erfc'], lambda x: (ONE - fn('ndtr', x * sqrt(const(2)))) * 2)
L5.e1(['jax.nn.silu', 'jax.nn.swish'], lambda x: x * L5.SIG(x))
L5.e1(['jax.nn.relu6'], lambda x: fn('min2', fn('max2', x, ZERO), const(6)))
LIB['jax.nn.identity'] = Builtin('identity', lambda it, a, k: asarr(a[0]))


@both('jax.scipy.special.xlog1py')
def _xlog1py(it, a, k):
    return call(it, 'jax.scipy.special.xlogy', [a[0], L.binop(it, 'Add', asarr(a[1]), 1)])


@both('jax.scipy.special.entr')
def _entr(it, a, k):
    return call(it, 'jnp.negative', [call(it, 'jax.scipy.special.xlogy', [a[0], a[0]])])


@both('jax.scipy.special.log_ndtr')
def _logndtr(it, a, k):
    return call(it, 'jnp.log', [call(it, 'jax.scipy.special.ndtr', a)])


class Scope:
    """with jax.named_scope(...)"""

    def abs_getattr(self, it, n):
        if n == '__enter__':
            return Builtin(n, lambda it2, a, k: None)
        if n == '__exit__':
            return Builtin(n, lambda it2, a, k: None)
        raise Unmodelled(f'named_scope.{n}')


LIB['jax.named_scope'] = Builtin('named_scope', lambda it, a, k: Scope())


class PathKey:
    """An entry of a key path."""

    def __init__(self, attr, val):
        self.attr, self.val = attr, val

    def abs_getattr(self, it, n):
        if n == self.attr:
            return self.val
        raise AbsRaise(AttributeError, n)


def with_paths(it, t, is_leaf):
    """(path, leaf) pairs and the definition."""
    out = []

    def go(t, path):
        if is_leaf is not None and it.truth(it.call(is_leaf, [t], {})):
            out.append((path, t))
            return
        c = L.children(it, t)
        if c is None:
            out.append((path, t))
            return
        kind, keys, ch, _ = c
        ks = [PathKey('key', x) for x in keys] if kind == 'dict' else [PathKey('name' if kind == 'nt' else 'idx', j) for j in range(len(ch))]
        if kind in ('custom', 'nt') and ch:
            raise Unmodelled('key path of a custom node')
        for q, x in zip(ks, ch):
            go(x, path + (q,))
    go(t, ())
    return out, L.tree_flatten(it, t, is_leaf)[1]


@reg('jax.tree.flatten_with_path')
def _fwp(it, a, k):
    return with_paths(it, a[0], a[1] if len(a) > 1 else k.get('is_leaf'))


@reg('jax.tree.leaves_with_path')
def _lwp(it, a, k):
    return with_paths(it, a[0], a[1] if len(a) > 1 else k.get('is_leaf'))[0]


@reg('jax.tree.map_with_path')
def _mwp(it, a, k):
    ls, d = with_paths(it, a[1], k.get('is_leaf'))
    others = [L.flatten_up_to(it, d, r) for r in a[2:]]
    return L.tree_unflatten(it, d, [it.call(a[0], [p, l, *xs], {}) for (p, l), *xs in zip(ls, *others)])
