"""Abstract arrays: an index-notation value (axes, body) over the term domain."""
from .terms import *
from . import terms as T
import itertools


class AbsRaise(Exception):
    """The analysed program raises."""

    def __init__(self, cls, msg='', val=None, where=None):
        self.cls, self.msg, self.val, self.where = cls, msg, val, where
        super().__init__(f'{cls.__name__ if hasattr(cls, "__name__") else cls}: {msg}')


class Ax:
    __slots__ = ('kind', 'dim', 'parts')

    def __init__(self, kind, dim, parts=()):
        self.kind, self.dim, self.parts = kind, dim, tuple(parts)

    def __repr__(self):
        if self.kind in ('prim', 'int'):
            return show(self.dim)
        return f'{self.kind}({", ".join(map(repr, self.parts))})'


STRUCT = {}


def ax(d):
    """Axis of the given size, with the structure registered for that size."""
    if isinstance(d, Ax):
        return d
    d = P(d)
    c = const_val(d)
    if c is not None:
        if c < 0:
            raise AbsRaise(ValueError, f'negative dimension {c}')
        if c <= (24 if T.SIZES is None else 200):
            return Ax('int', d)
        return Ax('prim', d)
    return STRUCT.get(d.id) or Ax('prim', d)


def register_struct(a):
    STRUCT[a.dim.id] = a
    return a


def prod_ax(parts):
    flat = []
    for p in parts:
        if p.dim is ONE:
            continue
        flat.extend(p.parts if p.kind == 'prod' else (p,))
    if not flat:
        return Ax('int', ONE)
    if len(flat) == 1:
        return flat[0]
    d = ONE
    for p in flat:
        d = d * p.dim
    c = const_val(d)
    if c is not None:
        return ax(d)
    return Ax('prod', d, flat)


def cat_ax(parts):
    flat = []
    for p in parts:
        if not p.dim.t:
            continue
        flat.extend(p.parts if p.kind == 'cat' else (p,))
    if not flat:
        return Ax('int', ZERO)
    if len(flat) == 1:
        return flat[0]
    d = ZERO
    for p in flat:
        d = d + p.dim
    if const_val(d) is not None:
        return ax(d)
    return Ax('cat', d, flat)


def rank_struct(a):
    return {'prim': 0, 'int': 1, 'prod': 2, 'cat': 3}[a.kind]


def cells(a):
    """Enumerate an axis: list of (vars, index poly)."""
    if a.kind == 'prim':
        v = fresh(a.dim)
        return [((only_atom(v),), v)]
    if a.kind == 'int':
        return [((), const(k)) for k in range(int(const_val(a.dim)))]
    if a.kind == 'cat':
        out, off = [], ZERO
        for p in a.parts:
            for vs, i in cells(p):
                out.append((vs, i + off))
            off = off + p.dim
        return out
    out = []
    for combo in itertools.product(*[cells(p) for p in a.parts]):
        vs, idx = (), ZERO
        for p, (v, i) in zip(a.parts, combo):
            vs += v
            idx = idx * p.dim + i
        out.append((vs, idx))
    return out


def locate(a, i):
    """Inverse of cells(a): yields [(guard poly, cell number, var values)]."""
    if a.kind == 'prim':
        return [(ONE, 0, (i,))]
    if a.kind == 'int':
        n = int(const_val(a.dim))
        c = const_val(i)
        if c is not None:
            return [(ONE, int(c), ())]
        return [(delta0(i - k), k, ()) for k in range(n)]
    if a.kind == 'cat':
        segs, off, base = [], ZERO, 0
        for p in a.parts:
            ncell = len(cells(p))
            lo, hi = i - off, off + p.dim - 1 - i
            if nonneg(lo) and nonneg(hi):
                return [(g, base + k, vv) for g, k, vv in locate(p, lo)]
            segs.append((p, lo, hi, base))
            off = off + p.dim
            base += ncell
        out = []
        for p, lo, hi, base in segs:
            g = iverson('>=', lo) * iverson('>=', hi)
            if not g.t:
                continue
            for g2, k, vv in locate(p, lo):
                out.append((g * g2, base + k, vv))
        return out
    # prod
    comp = unravel(i, [p.dim for p in a.parts])
    res = [(ONE, 0, ())]
    for p, ci in zip(a.parts, comp):
        n = len(cells(p))
        res = [(g * g2, k * n + k2, vv + vv2) for g, k, vv in res for g2, k2, vv2 in locate(p, ci)]
    return res


def unravel(i, dims):
    out = []
    for d in reversed(dims[1:]):
        q, r = pdivmod(i, d)
        out.append(r)
        i = q
    out.append(i)
    return out[::-1]


def ravel_index(idx, dims):
    r = ZERO
    for i, d in zip(idx, dims):
        r = r * d + i
    return r


ORDER = ['bool', 'int', 'float', 'float16', 'bfloat16', 'float32', 'float64', 'key']


def promote(*ds):
    return max(ds, key=lambda d: ORDER.index(d) if d in ORDER else 2) if ds else 'float'


class Arr:
    __slots__ = ('axes', 'body', 'dtype', 'tl', 'py', '_memo', 'tag', 'order')

    def __init__(self, axes, body, dtype='float', tl=0, py=None):
        self.axes = tuple(ax(a) for a in axes)
        self.body = body
        self.dtype = dtype
        self.tl = tl
        self.py = py          # 'int'/'float'/'bool' for python scalars that are symbolic
        self._memo = {}
        self.tag = None

    def at(self, *idx):
        key = tuple(p.id for p in idx)
        r = self._memo.get(key)
        if r is None:
            r = self.body(idx)
            self._memo[key] = r
        return r

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(pyint(a.dim) for a in self.axes)

    @property
    def dims(self):
        return tuple(a.dim for a in self.axes)

    def scalar(self):
        if self.axes:
            if all(a.dim is ONE for a in self.axes):
                return self.at(*[ZERO] * self.ndim)
            raise Unmodelled('array where a scalar is needed')
        return self.at()

    def with_(self, **kw):
        r = Arr(self.axes, self.at_raw, self.dtype, self.tl, self.py)
        r._memo = self._memo
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __eq__(self, o):
        # python-level numbers are values (they occur in shapes, keys and sets)
        if self is o:
            return True
        return isinstance(o, Arr) and self.py is not None and o.py is not None and not self.tl and not o.tl and self.at() is o.at()

    def __hash__(self):
        return hash(('py', self.at().id)) if self.py is not None and not self.tl else id(self)

    def at_raw(self, idx):
        return self.at(*idx)

    def __repr__(self):
        return show_arr(self)


def pyint(d):
    """A dimension poly as a python-level integer value."""
    c = const_val(d)
    if c is not None and c.denominator == 1:
        return int(c)
    return Arr((), lambda _: d, 'int', 0, 'int')


def scalar(p, dtype='float', tl=0, py=None):
    p = P(p)
    return Arr((), lambda _: p, dtype, tl, py)


def opaque(name, *dims, dtype='float', props=()):
    if props:
        PROPS.setdefault(name, set()).update(props)
    T.DIMS[name] = tuple(ax(d).dim for d in dims)
    return Arr(dims, lambda idx: elem(name, idx), dtype)


def is_num(x):
    return isinstance(x, (bool, int, Q, float))


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, bool):
        return scalar(P(x), 'bool')
    if isinstance(x, int):
        return scalar(P(x), 'int')
    if isinstance(x, (Q, float)):
        return scalar(P(x), 'float')
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, str) for e in x):
            raise AbsRaise(TypeError, 'string in array')
        return stack([asarr(e) for e in x], 0)
    if x is None:
        raise AbsRaise(TypeError, 'None is not an array')
    if isinstance(x, (dict, set, str)):
        raise AbsRaise(TypeError, f'{type(x).__name__} is not a valid JAX array type')
    raise Unmodelled(f'array from {type(x).__name__}')


def stack(arrs, axis=0):
    n = len(arrs)
    if n == 0:
        return Arr((0,), lambda idx: ZERO)
    arrs = list(arrs)
    a0 = arrs[0]
    for b in arrs[1:]:
        if b.ndim != a0.ndim or any(x.dim is not y.dim for x, y in zip(a0.axes, b.axes)):
            raise AbsRaise(ValueError, 'all arrays to stack must have the same shape')
    nd = a0.ndim + 1
    axis = norm_axis(axis, nd)

    def body(idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        c = const_val(i)
        if c is not None:
            if not (0 <= c < n):
                raise Unmodelled('index out of range')
            return arrs[int(c)].at(*rest)
        return psum(delta0(i - k) * arrs[k].at(*rest) for k in range(n))
    axes = list(a0.axes)
    axes.insert(axis, ax(n))
    return Arr(axes, body, promote(*[a.dtype for a in arrs]), max(a.tl for a in arrs))


def norm_axis(axis, nd):
    axis = toint(axis)
    if axis < -nd or axis >= nd:
        raise AbsRaise(ValueError, f'axis {axis} out of bounds for array of dimension {nd}')
    return axis % nd


def toint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Arr):
        c = const_val(x.scalar())
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unmodelled('symbolic integer where a concrete one is needed')
    raise AbsRaise(TypeError, f'{type(x).__name__} cannot be interpreted as an integer')


def todim(x):
    """A size argument (int / symbolic python int) as Poly."""
    if isinstance(x, (bool, int)):
        return P(x)
    if isinstance(x, Arr):
        if x.tl > 0 and const_val(x.scalar()) is None and x.py is None:
            raise AbsRaise(TypeError, 'Shapes must be 1D sequences of concrete values of integer type, got a tracer')
        return x.scalar()
    if isinstance(x, Q):
        raise AbsRaise(TypeError, 'float size')
    raise AbsRaise(TypeError, f'size from {type(x).__name__}')


def broadcast_axes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        best = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            a = s[j]
            if best is None or best.dim is ONE:
                if best is None or a.dim is not ONE:
                    best = a
            elif a.dim is ONE:
                continue
            elif a.dim is not best.dim:
                raise AbsRaise(TypeError, f'incompatible shapes for broadcasting: {[list(x) for x in shapes]}')
            elif rank_struct(a) > rank_struct(best):
                best = a
        out.append(best)
    return out


def bidx(a, idx):
    """Index `a` with an index tuple of a broadcast result."""
    off = len(idx) - a.ndim
    return tuple(ZERO if a.axes[k].dim is ONE else idx[off + k] for k in range(a.ndim))


def elementwise(f, *args, dtype=None):
    arrs = [asarr(a) for a in args]
    axes = broadcast_axes(*[a.axes for a in arrs])
    py = None
    if not axes and all(a.py or not isinstance(x, Arr) for a, x in zip(arrs, args)):
        py = 'x'
    r = Arr(axes, lambda idx: f(*[a.at(*bidx(a, idx)) for a in arrs]),
            dtype or promote(*[a.dtype for a in arrs]), max([a.tl for a in arrs]))
    if py:
        r.py = {'int': 'int', 'bool': 'bool'}.get(r.dtype, 'float')
    return r


def sum_cells(a, f):
    """Sum f(index) over axis a."""
    out = []
    for vs, i in cells(a):
        p = f(i)
        for v in vs:
            p = sum_over(p, v)
        out.append(p)
    return psum(out)


def reduce_sum(a, axis=None, keepdims=False):
    a = asarr(a)
    if axis is None:
        axis = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axis = tuple(norm_axis(x, a.ndim) for x in axis)
    else:
        axis = (norm_axis(axis, a.ndim),)
    keep = [k for k in range(a.ndim) if k not in axis]

    def body(idx):
        if keepdims:
            full = {k: idx[k] for k in keep}
        else:
            full = dict(zip(keep, idx))

        def go(k, acc):
            if k == a.ndim:
                return a.at(*acc)
            if k in axis:
                return sum_cells(a.axes[k], lambda i: go(k + 1, acc + (i,)))
            return go(k + 1, acc + (full[k],))
        return go(0, ())
    axes = [ax(1) if k in axis else a.axes[k] for k in range(a.ndim)] if keepdims else [a.axes[k] for k in keep]
    return Arr(axes, body, 'int' if a.dtype == 'bool' else a.dtype, a.tl)


def count_of(a, axis):
    if axis is None:
        axis = tuple(range(a.ndim))
    elif not isinstance(axis, (tuple, list)):
        axis = (axis,)
    n = ONE
    for x in axis:
        n = n * a.axes[norm_axis(x, a.ndim)].dim
    return n


def transpose(a, perm=None):
    a = asarr(a)
    if perm is None:
        perm = tuple(range(a.ndim))[::-1]
    perm = tuple(norm_axis(p, a.ndim) for p in perm)
    if sorted(perm) != list(range(a.ndim)):
        raise AbsRaise(ValueError, f'invalid permutation {perm}')

    def body(idx):
        out = [None] * a.ndim
        for k, p in enumerate(perm):
            out[p] = idx[k]
        return a.at(*out)
    return Arr([a.axes[p] for p in perm], body, a.dtype, a.tl)


def prims(a):
    if a.kind == 'prod':
        return list(a.parts)
    if a.dim is ONE:
        return []
    return [a]


def reshape(a, shape):
    a = asarr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims = [todim(s) for s in shape]
    total = ONE
    for d in a.dims:
        total = total * d
    if any(const_val(d) == -1 for d in dims):
        k = [i for i, d in enumerate(dims) if const_val(d) == -1]
        if len(k) > 1:
            raise AbsRaise(ValueError, 'can only specify one unknown dimension')
        rest = ONE
        for i, d in enumerate(dims):
            if i != k[0]:
                rest = rest * d
        q = total / rest
        if any(at.k == 'p' or e < 0 for t, _ in q.t for at, e in t.f):
            # try exact polynomial division over prims
            q = _exact_div(a, rest)
        dims[k[0]] = q
    tot2 = ONE
    for d in dims:
        tot2 = tot2 * d
    if tot2 is not total:
        raise AbsRaise(TypeError, f'cannot reshape array of shape {list(a.axes)} into shape {[show(d) for d in dims]}')
    # group the primitive axes
    pr = [p for x in a.axes for p in prims(x)]
    axes, pos = [], 0
    for d in dims:
        if d is ONE:
            axes.append(ax(1))
            continue
        acc, grp, p0 = ONE, [], pos
        while pos < len(pr) and acc is not d:
            acc = acc * pr[pos].dim
            grp.append(pr[pos])
            pos += 1
        if acc is d:
            axes.append(prod_ax(grp) if const_val(d) is None else ax(d))
        else:
            pos = p0
            axes = None
            break
    if axes is None:
        axes = [ax(d) for d in dims]
    src = a.dims

    def body(idx):
        # fast path: same dims
        if len(idx) == len(src) and all(x is y for x, y in zip(dims, src)):
            return a.at(*idx)
        return a.at(*unravel(ravel_index(idx, dims), src)) if src else a.at()
    return Arr(axes, body, a.dtype, a.tl)


def _exact_div(a, rest):
    pr = [p for x in a.axes for p in prims(x)]
    # rest must be a product of a subset of primitive dims
    for r in range(len(pr) + 1):
        for sub in itertools.combinations(range(len(pr)), r):
            m = ONE
            for k in sub:
                m = m * pr[k].dim
            if m is rest:
                q = ONE
                for k in range(len(pr)):
                    if k not in sub:
                        q = q * pr[k].dim
                return q
    raise AbsRaise(TypeError, 'cannot reshape: sizes do not divide')


def ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        return a
    r = reshape(a, (-1,))
    if r.axes[0].kind == 'prod' and r.axes[0].dim.id not in STRUCT:
        register_struct(r.axes[0])
    return r


def concatenate(arrs, axis=0):
    if isinstance(arrs, Arr):
        if arrs.axes[0].kind != 'int':
            raise Unmodelled('concatenate over symbolic leading axis')
        arrs = [take(arrs, 0, const(k)) for k in range(toint(arrs.shape[0]))]
    arrs = [asarr(a) for a in arrs]
    if not arrs:
        raise AbsRaise(ValueError, 'need at least one array to concatenate')
    nd = arrs[0].ndim
    if axis is None:
        arrs = [ravel(a) for a in arrs]
        nd, axis = 1, 0
    if nd == 0:
        raise AbsRaise(ValueError, 'zero-dimensional arrays cannot be concatenated')
    axis = norm_axis(axis, nd)
    for b in arrs[1:]:
        if b.ndim != nd or any(arrs[0].axes[k].dim is not b.axes[k].dim for k in range(nd) if k != axis):
            raise AbsRaise(TypeError, 'cannot concatenate arrays of different shapes')
    arrs = [a for a in arrs if a.axes[axis].dim.t] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0]
    cax = cat_ax([a.axes[axis] for a in arrs])

    def body(idx):
        i = idx[axis]
        off = ZERO
        alts = []
        for a in arrs:
            d = a.axes[axis].dim
            lo, hi = i - off, off + d - 1 - i
            if nonneg(lo) and nonneg(hi):
                return a.at(*(idx[:axis] + (lo,) + idx[axis + 1:]))
            alts.append((a, lo, hi))
            off = off + d
        out = ZERO
        for a, lo, hi in alts:
            g = iverson('>=', lo) * iverson('>=', hi)
            if g.t:
                out = out + g * a.at(*(idx[:axis] + (lo,) + idx[axis + 1:]))
        return out
    axes = list(arrs[0].axes)
    for k in range(nd):
        if k != axis:
            axes[k] = max((a.axes[k] for a in arrs), key=rank_struct)
    axes[axis] = cax
    return Arr(axes, body, promote(*[a.dtype for a in arrs]), max(a.tl for a in arrs))


def take(a, axis, i):
    """Select index i (Poly) along an axis."""
    return Arr(a.axes[:axis] + a.axes[axis + 1:],
               lambda idx: a.at(*(idx[:axis] + (i,) + idx[axis:])), a.dtype, a.tl)


def sub_axis(a, lo, hi):
    """Axis for the range [lo, hi) of axis a, keeping structure when aligned."""
    d = hi - lo
    if const_val(d) is not None:
        return ax(d)
    if lo is ZERO and d is a.dim:
        return a
    if a.kind == 'cat':
        off, got = ZERO, []
        started = False
        for p in a.parts:
            if off is lo:
                started = True
            if started:
                got.append(p)
            off = off + p.dim
            if started and off is hi:
                return cat_ax(got)
    return ax(d)


def slice_axis(a, axis, lo, hi):
    """Static slice [lo:hi] along axis with symbolic bounds (assumed within range)."""
    nax = sub_axis(a.axes[axis], lo, hi)
    return Arr(a.axes[:axis] + (nax,) + a.axes[axis + 1:],
               lambda idx: a.at(*(idx[:axis] + (idx[axis] + lo,) + idx[axis + 1:])), a.dtype, a.tl)


def split(a, sections, axis=0):
    a = asarr(a)
    axis = norm_axis(axis, a.ndim)
    D = a.axes[axis].dim
    if isinstance(sections, (list, tuple)):
        pts = [todim(s) for s in sections]
    elif isinstance(sections, Arr) and sections.ndim == 1:
        n = toint(sections.shape[0])
        pts = [sections.at(const(k)) for k in range(n)]
    else:
        n = toint(sections)
        c = const_val(D)
        if c is None or c % n:
            if c is not None:
                raise AbsRaise(ValueError, 'array split does not result in an equal division')
            raise Unmodelled('split into equal symbolic sections')
        pts = [const(c / n * k) for k in range(1, n)]
    bounds = [ZERO] + pts + [D]
    out = []
    for lo, hi in zip(bounds, bounds[1:]):
        if nonneg(lo - hi - 1) or nonneg(hi - D - 1):
            # out-of-order or overflowing split points: numpy clips
            lo2 = D if nonneg(lo - D) else lo
            hi2 = D if nonneg(hi - D) else hi
            if nonneg(lo2 - hi2):
                hi2 = lo2
            lo, hi = lo2, hi2
        out.append(slice_axis(a, axis, lo, hi))
    return out


def einsum_core(letters_in, arrs, letters_out, dtype=None):
    size = {}
    for ls, a in zip(letters_in, arrs):
        if len(ls) != a.ndim:
            raise AbsRaise(ValueError, 'einsum: wrong number of subscripts')
        for l, x in zip(ls, a.axes):
            if l in size:
                o = size[l]
                if o.dim is not x.dim:
                    if o.dim is ONE:
                        size[l] = x
                    elif x.dim is not ONE:
                        raise AbsRaise(TypeError, f'contraction dimensions do not match: {o} vs {x}')
                elif rank_struct(x) > rank_struct(o):
                    size[l] = x
            else:
                size[l] = x
    summed = [l for l in size if l not in letters_out]

    def body(idx):
        env = dict(zip(letters_out, idx))

        def go(k, env):
            if k == len(summed):
                r = ONE
                for ls, a in zip(letters_in, arrs):
                    r = r * a.at(*[ZERO if x.dim is ONE else env[l] for l, x in zip(ls, a.axes)])
                return r
            return sum_cells(size[summed[k]], lambda i: go(k + 1, {**env, summed[k]: i}))
        return go(0, env)
    return Arr([size[l] for l in letters_out], body, dtype or promote(*[a.dtype for a in arrs]), max(a.tl for a in arrs))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise AbsRaise(TypeError, 'matmul needs at least 1d arguments')
    L = 'abcdefgh'
    if a.ndim == 1 and b.ndim == 1:
        return einsum_core(['k', 'k'], [a, b], '')
    if a.ndim == 1:
        bl = L[:b.ndim - 2] + 'k' + 'y'
        return einsum_core(['k', bl], [a, b], L[:b.ndim - 2] + 'y')
    if b.ndim == 1:
        al = L[:a.ndim - 1] + 'k'
        return einsum_core([al, 'k'], [a, b], L[:a.ndim - 1])
    na, nb = a.ndim - 2, b.ndim - 2
    n = max(na, nb)
    lead = L[:n]
    return einsum_core([lead[n - na:] + 'xk', lead[n - nb:] + 'ky'], [a, b], lead + 'xy')


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: x * y, a, b)
    if b.ndim == 1:
        al = 'abcdef'[:a.ndim - 1]
        return einsum_core([al + 'k', 'k'], [a, b], al)
    al = 'abcdef'[:a.ndim - 1]
    bl = 'uvwxyz'[:b.ndim - 1]
    return einsum_core([al + 'k', bl[:-1] + 'k' + bl[-1]], [a, b], al + bl)


def flip(a, axis=None):
    a = asarr(a)
    if axis is None:
        axis = tuple(range(a.ndim))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    fl = {norm_axis(x, a.ndim) for x in axis}
    return Arr(a.axes, lambda idx: a.at(*[a.axes[k].dim - 1 - i if k in fl else i for k, i in enumerate(idx)]), a.dtype, a.tl)


def eye(n, m=None, dtype='float'):
    n = todim(n)
    m = n if m is None else todim(m)
    return Arr((n, m), lambda idx: delta0(idx[0] - idx[1]), dtype)


def lam_of(a):
    a = asarr(a)
    if not a.axes:
        return mk_lam((), [((), (), a.at())])
    cl = []
    for combo in itertools.product(*[cells(x) for x in a.axes]):
        vs, idx = (), ()
        for v, i in combo:
            vs += v
            idx += (i,)
        cl.append((vs, idx, a.at(*idx)))
    return mk_lam(a.dims, cl)


def app_arr(name, args, axes, par=(), dtype='float', tl=None):
    """Opaque array function of arrays."""
    args = [asarr(a) for a in args]
    lams = [lam_of(a) for a in args]
    return Arr(axes, lambda idx: app(name, par, lams, idx), dtype,
               max([a.tl for a in args] + [0]) if tl is None else tl)


def arr_equal(a, b):
    """Returns None if equal (proved) else (index, lhs, rhs)."""
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or any(x.dim is not y.dim for x, y in zip(a.axes, b.axes)):
        return ('shape', f'{list(a.axes)}', f'{list(b.axes)}')
    axes = [x if rank_struct(x) >= rank_struct(y) else y for x, y in zip(a.axes, b.axes)]
    for combo in itertools.product(*[cells(x) for x in axes]):
        idx = tuple(i for _, i in combo)
        p, q = a.at(*idx), b.at(*idx)
        if not equal(p, q):
            return (idx, p, q)
    return None


def show_arr(a):
    try:
        if not a.axes:
            return show(a.at())
        parts = []
        for combo in itertools.product(*[cells(x) for x in a.axes]):
            idx = tuple(i for _, i in combo)
            parts.append('[' + ','.join(show(i) for i in idx) + '] = ' + show(a.at(*idx)))
            if len(parts) > 4:
                break
        return f'array{list(a.axes)}: ' + ' ; '.join(parts)
    except Unmodelled as e:
        return f'array{list(a.axes)} <{e}>'
