"""jax transformations, control flow, randomness and configuration."""
from .lib import *
from . import lib as L
from . import lib2 as L2
from . import lib3 as L3
from . import lib4 as L4
from .lib import LIB, BUILTINS, reg, tree_flatten, tree_unflatten, tree_map
from .lib4 import staged
from . import terms as T


# ------------------------------------------------------------------ levels
def is_arraylike(x):
    return isinstance(x, (Arr, bool, int, Q)) or isinstance(x, float)


def lift_leaf(it, x, lvl, what):
    if isinstance(x, Arr):
        r = x.with_(tl=max(lvl, x.tl), tag=None)
        if x.py:
            r = r.with_(py=None)
        return r
    if isinstance(x, (bool, int, Q)) and not isinstance(x, str):
        d = 'bool' if isinstance(x, bool) else 'int' if isinstance(x, int) else 'float'
        c = P(x)
        return Arr((), lambda idx: c, d, lvl)
    if isinstance(x, float):
        c = P(x)
        return Arr((), lambda idx: c, 'float', lvl)
    if isinstance(x, L.TreeDef):
        return x
    raise AbsRaise(TypeError, f'{what}: argument of type {tname(x)} is not a valid JAX type', where=it.where())


def lift(it, t, lvl, what='jit'):
    return tree_map(it, lambda x: lift_leaf(it, x, lvl, what), t)


def lower_leaf(it, x, lvl, what):
    if isinstance(x, Arr):
        if x.tl >= lvl or x.py:
            return x.with_(tl=min(x.tl, lvl - 1), py=None)
        return x
    if isinstance(x, (bool, int, Q, float)):
        return asarr(x) if not isinstance(x, float) else scalar(P(x))
    raise AbsRaise(TypeError, f'{what}: output of type {tname(x)} is not a valid JAX type', where=it.where())


def lower(it, t, lvl, what='jit'):
    return tree_map(it, lambda x: lower_leaf(it, x, lvl, what), t)


def leaked(it, t, lvl, what):
    """An argument cannot belong to the region that is only just entered."""
    def f(x):
        if isinstance(x, Arr) and x.tl >= lvl:
            raise AbsRaise(TypeError, f'UnexpectedTracerError: {what} of a value kept from a trace that has ended', where=it.where())
        return x
    tree_map(it, f, t)


class Staged:
    """A traced region: every library result inside is a tracer."""
    def __init__(self, it, stage=True):
        self.it, self.stage = it, stage

    def __enter__(self):
        it = self.it
        it.tlevel += 1
        self.saved = it.in_jit
        if self.stage:
            it.in_jit = it.tlevel
        return it.tlevel

    def __exit__(self, *e):
        self.it.tlevel -= 1
        self.it.in_jit = self.saved


def fix_level(it, t, outer):
    """After leaving a region results are tracers only of the enclosing region."""
    def f(x):
        if isinstance(x, Arr):
            return x.with_(tl=min(x.tl, outer)) if x.tl > outer else x
        return x
    return tree_map(it, f, t)


def pos_names(f):
    s = getattr(getattr(f, 'node', None), 'args', None)
    return [x.arg for x in s.posonlyargs + s.args] if s is not None else []


def jitted(it, f, static_nums=(), static_names=(), name='jit'):
    def g(it2, a, k):
        h = it2.hooks.get('jit')
        if h is not None:
            h(it2, f)
        with Staged(it2) as lvl:
            names = pos_names(f) if static_names else []
            leaked(it2, [x for n, x in enumerate(a) if isinstance(x, (Arr, dict, list, tuple)) and n not in static_nums], lvl, 'jit')
            a2 = [x if n in static_nums or n < len(names) and names[n] in static_names else lift(it2, x, lvl) for n, x in enumerate(a)]
            k2 = {n: x if n in static_names else lift(it2, x, lvl) for n, x in k.items()}
            r = it2.call(f, a2, k2)
            r = lower(it2, r, lvl)
        return r
    b = Builtin('jitted', g)
    b.attrs = {'__wrapped__': f}
    b.wrapped = f
    return b


def ints(x):
    if x is None:
        return ()
    return tuple(x) if isinstance(x, (tuple, list)) else (x,)


@reg('jax.jit')
def _jit(it, a, k):
    sn = ints(k.get('static_argnums'))
    sm = k.get('static_argnames')
    sm = (sm,) if isinstance(sm, str) else ints(sm)
    if not a:
        return Builtin('jit', lambda it2, a2, k2: jitted(it2, a2[0], sn, sm))
    if not L.is_callable(a[0]):
        raise AbsRaise(TypeError, 'jit expects a callable')
    return jitted(it, a[0], sn, sm)


# ------------------------------------------------------------------ vmap / map
def axis_spec(it, spec, arg):
    """Per-leaf axis list for an in_axes entry."""
    leaves, d = tree_flatten(it, arg)
    if spec is None or isinstance(spec, int):
        return leaves, d, [spec] * len(leaves)
    # pytree prefix
    out = []

    def go(s, t):
        if s is None or isinstance(s, int):
            out.extend([s] * len(tree_flatten(it, t)[0]))
            return
        c = L.children(it, t)
        cs = L.children(it, s)
        if c is None or cs is None or len(c[2]) != len(cs[2]):
            raise AbsRaise(ValueError, 'vmap in_axes does not match the argument structure')
        for x, y in zip(cs[2], c[2]):
            go(x, y)
    go(spec, arg)
    return leaves, d, out


def merge_axis(axs, what):
    best = None
    for x in axs:
        if best is None:
            best = x
        elif best.dim is not x.dim:
            raise AbsRaise(ValueError, f'{what} got inconsistent sizes for array axes to be mapped: {best} vs {x}')
        elif rank_struct(x) > rank_struct(best):
            best = x
    return best


def map_cells(it, axis, call, what):
    """Call once per cell of `axis`; returns list of (vars, index, flattened leaves, treedef)."""
    out, d0 = [], None
    for vs, i in cells(axis):
        r = call(i)
        leaves, d = tree_flatten(it, r)
        if d0 is None:
            d0 = d
        elif not d0.same(d):
            raise Unmodelled('mapped function returns different structures')
        out.append((vs, i, leaves))
    if d0 is None:
        raise AbsRaise(ValueError, f'{what} over an empty axis')
    return out, d0


def batch_leaf(res, axis, n, lvl, pos=0):
    """Assemble leaf n of per-cell results along a new axis at position pos."""
    first = res[0][2][n]
    first = asarr(first)
    nd = first.ndim + 1
    pos = norm_axis(pos, nd)
    arrs = [asarr(r[2][n]) for r in res]
    for b in arrs[1:]:
        if b.ndim != first.ndim or any(x.dim is not y.dim for x, y in zip(first.axes, b.axes)):
            raise AbsRaise(TypeError, 'mapped function returned inconsistent shapes')

    def body(idx):
        i = idx[pos]
        rest = idx[:pos] + idx[pos + 1:]
        out = []
        for g, c, vals in locate(axis, i):
            vs = res[c][0]
            # avoid capture: evaluate at fresh rest indices when they mention vs
            p = arrs[c].at(*rest)
            if vs:
                p = subst(p, dict(zip(vs, vals)))
            out.append(g * p)
        return psum(out)
    axes = list(first.axes)
    axes.insert(pos, axis)
    return Arr(axes, body, promote(*[b.dtype for b in arrs]), max([b.tl for b in arrs]))


def vmapped(it, f, in_axes, out_axes):
    def g(it2, a, k):
        ia = in_axes
        if isinstance(ia, list):
            ia = tuple(ia)
        if not isinstance(ia, tuple):
            ia = (ia,) * len(a)
        if len(ia) != len(a):
            raise AbsRaise(ValueError, f'vmap in_axes must be an int, None, or a tuple of entries corresponding to the positional arguments; got {len(ia)} entries for {len(a)} arguments')
        specs = [axis_spec(it2, s, x) for s, x in zip(ia, a)]
        kspecs = {n: axis_spec(it2, 0, x) for n, x in k.items()}
        axs = []
        for leaves, d, ss in specs + list(kspecs.values()):
            for l, s in zip(leaves, ss):
                if s is not None:
                    if not is_arraylike(l):
                        raise AbsRaise(TypeError, f'vmap: {tname(l)} is not a valid JAX type')
                    l = asarr(l)
                    if not l.ndim:
                        raise AbsRaise(ValueError, 'vmap was requested to map its argument along axis 0, which implies that its rank should be at least 1, but is only 0')
                    axs.append(l.axes[norm_axis(s, l.ndim)])
        if not axs:
            raise AbsRaise(ValueError, 'vmap must have at least one non-None value in in_axes')
        axis = merge_axis(axs, 'vmap')
        with Staged(it2, False) as lvl:
            leaked(it2, [l for leaves, d, ss in specs + list(kspecs.values()) for l in leaves], lvl, 'vmap')

            def call(i):
                def sl(spec):
                    leaves, d, ss = spec
                    out = []
                    for l, s in zip(leaves, ss):
                        if s is None:
                            out.append(lift_leaf(it2, l, 0, 'vmap') if isinstance(l, Arr) else l)
                        else:
                            l = asarr(l)
                            p = norm_axis(s, l.ndim)
                            out.append(take(l, p, i).with_(tl=max(lvl, l.tl)))
                    return tree_unflatten(it2, d, out)
                return it2.call(f, [sl(s) for s in specs], {n: sl(s) for n, s in kspecs.items()})
            res, d = map_cells(it2, axis, call, 'vmap')
            n = len(res[0][2])
            oa = out_axes
            if oa is None or isinstance(oa, int):
                oas = [oa] * n
            else:
                dummy = tree_unflatten(it2, d, list(range(n)))
                _, _, oas = axis_spec(it2, oa, dummy)
            out = []
            for j in range(n):
                if not is_arraylike(res[0][2][j]):
                    raise AbsRaise(TypeError, f'vmap: output of type {tname(res[0][2][j])} is not a valid JAX type')
                if oas[j] is None:
                    out.append(res[0][2][j])
                else:
                    out.append(batch_leaf(res, axis, j, lvl, oas[j]))
            r = tree_unflatten(it2, d, out)
        return fix_level(it2, r, it2.tlevel if max([x.tl for s in specs for x in s[0] if isinstance(x, Arr)] + [it2.in_jit]) else 0)
    b = Builtin('vmapped', g)
    b.wrapped = f
    return b


@reg('jax.vmap')
def _vmap(it, a, k):
    ia = a[1] if len(a) > 1 else k.get('in_axes', 0)
    oa = a[2] if len(a) > 2 else k.get('out_axes', 0)
    if not a:
        return Builtin('vmap', lambda it2, a2, k2: vmapped(it2, a2[0], ia, oa))
    return vmapped(it, a[0], ia, oa)


@reg('jax.lax.map')
def _lmap(it, a, k):
    f, xs = (a + [k.get('xs')])[:2] if len(a) < 2 else a[:2]
    bs = k.get('batch_size')
    if isinstance(bs, Arr) and bs.tl > 0:
        raise AbsRaise(TypeError, 'lax.map batch_size must be static')
    if isinstance(bs, (Q, float)):
        raise AbsRaise(TypeError, 'lax.map batch_size must be an integer')
    if bs == 0 and isinstance(bs, int) and not isinstance(bs, bool):
        raise AbsRaise(ZeroDivisionError, 'lax.map batch_size=0')
    leaves, d = tree_flatten(it, xs)
    for l in leaves:
        if not is_arraylike(l):
            raise AbsRaise(TypeError, f'lax.map: {tname(l)} is not a valid JAX type')
    leaves = [asarr(l) for l in leaves]
    if not leaves or any(not l.ndim for l in leaves):
        raise AbsRaise(ValueError, 'lax.map needs arrays with a leading axis')
    axis = merge_axis([l.axes[0] for l in leaves], 'lax.map')
    outer = it.tlevel
    wastl = max([l.tl for l in leaves] + [it.in_jit])
    with Staged(it) as lvl:
        def call(i):
            return it.call(f, [tree_unflatten(it, d, [take(l, 0, i).with_(tl=lvl) for l in leaves])], {})
        res, dd = map_cells(it, axis, call, 'lax.map')
        for j, x in enumerate(res[0][2]):
            if not is_arraylike(x):
                raise AbsRaise(TypeError, f'lax.map: output of type {tname(x)} is not a valid JAX type')
        out = [batch_leaf(res, axis, j, lvl) for j in range(len(res[0][2]))]
        r = tree_unflatten(it, dd, out)
    return fix_level(it, r, outer if wastl else 0)


# ------------------------------------------------------------------ control flow
def same_types(it, x, y, what):
    lx, dx = tree_flatten(it, x)
    ly, dy = tree_flatten(it, y)
    if not dx.same(dy):
        raise AbsRaise(TypeError, f'{what}: outputs must have the same pytree structure')
    for p, q in zip(lx, ly):
        p, q = asarr(p), asarr(q)
        if p.ndim != q.ndim or any(a.dim is not b.dim for a, b in zip(p.axes, q.axes)):
            raise AbsRaise(TypeError, f'{what}: shapes differ: {list(p.axes)} vs {list(q.axes)}')
        if not compat(p.dtype, q.dtype):
            raise AbsRaise(TypeError, f'{what}: dtypes differ: {p.dtype} vs {q.dtype}')
    return lx, ly, dx


def compat(a, b):
    if a == b:
        return True
    g = lambda d: 'f' if d.startswith(('float', 'bfloat')) else d
    if 'float' in (a, b):
        return g(a) == g(b)
    return False


def select_tree(it, pred, x, y, what):
    lx, ly, d = same_types(it, x, y, what)
    out = [L4._where(it, [pred, p, q], {}) for p, q in zip(lx, ly)]
    return tree_unflatten(it, d, out)


@reg('jax.lax.cond')
def _cond(it, a, k):
    pred, tf, ff = a[:3]
    ops = a[3:]
    if 'operand' in k:
        ops = [k['operand']]
    pred = asarr(pred)
    if pred.ndim:
        raise AbsRaise(TypeError, 'Pred must be a scalar')
    outer, wastl = it.tlevel, max([pred.tl, it.in_jit])
    with Staged(it) as lvl:
        ops = [lift(it, o, lvl, 'cond') for o in ops]
        x = it.call(tf, ops, {})
        y = it.call(ff, ops, {})
        x, y = [tree_map(it, lambda v: lift_leaf(it, v, lvl, 'cond'), t) for t in (x, y)]
        r = select_tree(it, pred, x, y, 'cond')
    return fix_level(it, r, outer)


@reg('jax.lax.select')
def _select(it, a, k):
    return staged(it, L4._where(it, a[:3], {}))


@reg('jax.lax.switch')
def _switch(it, a, k):
    i, fs, ops = asarr(a[0]), list(it.iterate(a[1])), a[2:]
    outer = it.tlevel
    with Staged(it) as lvl:
        ops = [lift(it, o, lvl) for o in ops]
        rs = [it.call(f, ops, {}) for f in fs]
        acc = rs[-1]
        for n in range(len(fs) - 2, -1, -1):
            acc = select_tree(it, Arr((), (lambda n: lambda idx: delta_real(i.at() - n))(n), 'bool', lvl), rs[n], acc, 'switch')
    return fix_level(it, acc, outer)


@reg('jax.lax.scan')
def _scan(it, a, k):
    names = ['f', 'init', 'xs', 'length']
    v = dict(zip(names, a))
    v.update({n: x for n, x in k.items() if n in names})
    f, init, xs = v['f'], v['init'], v.get('xs')
    leaves, d = tree_flatten(it, xs)
    leaves = [asarr(l) for l in leaves]
    if leaves:
        axis = merge_axis([l.axes[0] for l in leaves], 'scan')
    else:
        axis = ax(todim(v['length']))
    rev = it.truth(k.get('reverse', False))
    n = const_val(axis.dim)
    outer = it.tlevel
    with Staged(it) as lvl:
        carry = lift(it, init, lvl, 'scan')
        if n is None:
            r = scan_summary(it, f, carry, leaves, d, axis, lvl)
        else:
            ys = []
            order = range(int(n))[::-1] if rev else range(int(n))
            for s in order:
                x = tree_unflatten(it, d, [take(l, 0, const(s)).with_(tl=lvl) for l in leaves]) if xs is not None else None
                out = it.call(f, [carry, x], {})
                if not isinstance(out, tuple) or len(out) != 2:
                    raise AbsRaise(TypeError, 'scan body must return a pair (carry, y)')
                c2 = lift(it, out[0], lvl, 'scan')
                same_types(it, carry, c2, 'scan carry')
                carry = c2
                ys.append(lift(it, out[1], lvl, 'scan'))
            if rev:
                ys = ys[::-1]
            if ys:
                fl = [tree_flatten(it, y) for y in ys]
                r = (carry, tree_unflatten(it, fl[0][1], [stack([asarr(q[0][j]) for q in fl], 0) for j in range(fl[0][1].n())]))
            else:
                r = (carry, None)
    return fix_level(it, r, outer)


def scan_summary(it, f, carry, leaves, d, axis, lvl):
    """Additive-accumulation summary: carry' = carry + g(x) with g independent of carry."""
    if axis.kind != 'prim':
        raise Unmodelled('scan over a structured symbolic axis')
    cl, cd = tree_flatten(it, carry)
    tok = [f'scan{next(T._fresh)}' for _ in cl]
    carr = [Arr(c.axes, (lambda t: lambda idx: elem(t, idx))(t), c.dtype, lvl) for c, t in zip(map(asarr, cl), tok)]
    v = fresh(axis.dim)
    x = tree_unflatten(it, d, [take(l, 0, v).with_(tl=lvl) for l in leaves])
    c2, y = it.call(f, [tree_unflatten(it, cd, carr), x], {})
    l2, d2 = tree_flatten(it, c2)
    yl, yd = tree_flatten(it, y)
    if not d2.same(cd):
        raise AbsRaise(TypeError, 'scan carry structure changes')
    for q in yl:
        q = asarr(q)
        p = q.at(*[fresh(z.dim) for z in q.axes])
        if not p.nm.isdisjoint(tok):
            raise Unmodelled('scan output depends on the carry')
    res = []
    va = only_atom(v)
    for c, q, t in zip(map(asarr, cl), map(asarr, l2), tok):
        def body(idx, c=c, q=q, t=t):
            p = q.at(*idx) - elem(t, idx)
            if not p.nm.isdisjoint(tok):
                raise Unmodelled('scan carry is not an accumulation')
            return c.at(*idx) + sum_over(p, va)
        res.append(Arr(c.axes, body, c.dtype, lvl))
    ys = [batch_leaf([((va,), v, yl)], axis, j, lvl) for j in range(len(yl))]
    return (tree_unflatten(it, cd, res), tree_unflatten(it, yd, ys))


@reg('jax.lax.fori_loop')
def _fori(it, a, k):
    lo, hi, f, init = a[:4]
    lo, hi = [x if isinstance(x, int) else toint(x) for x in (lo, hi)]
    outer = it.tlevel
    with Staged(it) as lvl:
        c = lift(it, init, lvl, 'fori_loop')
        for s in range(lo, hi):
            c2 = it.call(f, [Arr((), (lambda s: lambda idx: const(s))(s), 'int', lvl), c], {})
            c2 = lift(it, c2, lvl, 'fori_loop')
            same_types(it, c, c2, 'fori_loop carry')
            c = c2
    return fix_level(it, c, outer)


@reg('jax.lax.while_loop')
def _while(it, a, k):
    cf, bf, init = a[:3]
    outer = it.tlevel
    lim = it.hooks.get('while_limit', 8)
    with Staged(it) as lvl:
        c = lift(it, init, lvl, 'while_loop')
        h = it.hooks.get('while_loop')
        if h is not None:
            r = h(it, cf, bf, c, lvl)
            if r is not None:
                return fix_level(it, r[0], outer)
        n = 0
        while True:
            t = asarr(it.call(cf, [c], {}))
            b = const_val(t.scalar())
            if b is None:
                raise Unmodelled('while_loop with a symbolic condition')
            if b == 0:
                break
            c2 = lift(it, it.call(bf, [c], {}), lvl)
            same_types(it, c, c2, 'while_loop carry')
            c = c2
            n += 1
            if n > 64:
                raise Unmodelled('while_loop bound')
    return fix_level(it, c, outer)


@reg('jax.lax.stop_gradient')
def _stop_gradient(it, a, k):
    def leaf(x):
        if is_num(x) or isinstance(x, Arr) and not x.dtype.startswith('float'):
            return x
        return elementwise(lambda y: y if not y.nm else fn('sg', y), asarr(x))
    return tree_map(it, leaf, a[0] if a else k['x'])


@reg('jax.lax.top_k')
def _topk(it, a, k):
    x = asarr(a[0])
    n = todim(a[1] if len(a) > 1 else k['k'])
    out = x.axes[:-1] + (ax(n),)

    def row(name):
        # rank r of the descending order, whatever number of leading entries is requested
        def body(idx):
            sub = Arr((x.axes[-1],), lambda ii: x.at(*(tuple(idx[:-1]) + tuple(ii))), x.dtype)
            if const_val(idx[-1]) == 0:
                return T.app({'topk': 'amax', 'topk_idx': 'argmax'}[name], (), [lam_of(sub)], ())
            return T.app(name, (), [lam_of(sub)], (idx[-1],))
        return body
    return (Arr(out, row('topk'), x.dtype, x.tl), Arr(out, row('topk_idx'), 'int', x.tl))


@reg('jax.lax.dynamic_index_in_dim')
def _dyn(it, a, k):
    x = asarr(a[0])
    axis = a[2] if len(a) > 2 else k.get('axis', 0)
    r = take(x, norm_axis(axis, x.ndim), asarr(a[1]).scalar())
    return r if not it.truth(k.get('keepdims', True)) else L4._expand(it, [r, axis], {})


for _n in ('mul', 'add', 'sub', 'div', 'exp', 'log', 'neg'):
    LIB['jax.lax.' + _n] = LIB['jnp.' + {'mul': 'multiply', 'sub': 'subtract', 'div': 'divide', 'neg': 'negative'}.get(_n, _n)]


# ------------------------------------------------------------------ differentiation
def inexact(it, leaves, what):
    for l in leaves:
        if not is_arraylike(l):
            raise AbsRaise(TypeError, f'{what} requires array arguments, got {tname(l)}')
        if asarr(l).dtype in ('int', 'bool'):
            raise AbsRaise(TypeError, f'{what} requires real-valued inputs (input dtype that is a sub-dtype of float), got {asarr(l).dtype}')


def primal_syms(it, leaves, lvl):
    """Fresh opaque symbols standing for the primal leaves."""
    toks, arrs = [], []
    for l in leaves:
        l = asarr(l)
        t = f'D{next(T._fresh)}'
        if _positive_leaf(l):
            PROPS.setdefault(t, set()).add('pos')
        toks.append(t)
        arrs.append(Arr(l.axes, (lambda t: lambda idx: elem(t, idx))(t), l.dtype if l.dtype not in ('int', 'bool') else 'float', lvl))
    return toks, arrs


def _positive_leaf(l):
    try:
        p = l.at(*[fresh(x.dim) for x in l.axes])
        return T.pos_poly(p)
    except Unmodelled:
        return False


def close(x, toks, leaves):
    """Substitute the primal values for their symbols in an output array."""
    x = asarr(x)
    table = {t: (lambda l: lambda idx: l.at(*idx))(asarr(l)) for t, l in zip(toks, leaves)}
    return lambda p: T.map_elems(p, table)


def linearized(it, f, primals, what='jvp', has_aux=False):
    """Evaluate f at symbolic primals. Returns (out leaves (closed), outdef, tangent(fn), aux)."""
    leaves, d = tree_flatten(it, tuple(primals))
    inexact(it, leaves, what)
    leaves = [asarr(l) for l in leaves]
    outer = it.tlevel
    base = max([l.tl for l in leaves] + [it.in_jit, 0])
    with Staged(it, False) as lvl:
        toks, arrs = primal_syms(it, leaves, lvl)
        args = tree_unflatten(it, d, arrs)
        r = it.call(f, list(args), {})
        aux = None
        if has_aux:
            if not isinstance(r, tuple) or len(r) != 2:
                raise AbsRaise(TypeError, 'expected a pair with has_aux=True')
            r, aux = r
        ol, od = tree_flatten(it, r)
        for o in ol:
            if not is_arraylike(o):
                raise AbsRaise(TypeError, f'{what}: output of type {tname(o)} is not a valid JAX type')
        ol = [asarr(o) for o in ol]
    cl = close_table(toks, leaves)

    def closed(o):
        return Arr(o.axes, lambda idx: cl(o.at(*idx)), o.dtype, min(max(base, 0), outer) if o.tl >= outer + 1 or True else o.tl)
    out = [closed(o) for o in ol]
    auxc = None
    if has_aux:
        auxc = tree_map(it, lambda o: closed(asarr(o)) if isinstance(o, Arr) else o, aux)

    def tangent(tans):
        """tans: list of Arr (per primal leaf) or None."""
        seed = {t: (lambda x: lambda idx: x.at(*idx))(asarr(x)) for t, x in zip(toks, tans) if x is not None}
        tl = max([asarr(x).tl for x in tans if x is not None] + [base])
        return [Arr(o.axes, (lambda o: lambda idx: cl(T.deriv(o.at(*idx), seed)))(o), o.dtype, tl) for o in ol]
    return dict(leaves=leaves, d=d, toks=toks, out=out, od=od, tangent=tangent, aux=auxc, raw=ol, cl=cl, base=base)


def close_table(toks, leaves):
    table = {t: (lambda l: lambda idx: l.at(*idx))(l) for t, l in zip(toks, leaves)}
    return lambda p: T.map_elems(p, table)


def check_tangent(it, d, leaves, t, what):
    tl, td = tree_flatten(it, t)
    if not td.same(d):
        raise AbsRaise(TypeError, f'{what}: primal and tangent arguments must have the same tree structure')
    tl = [asarr(x) for x in tl]
    for p, q in zip(leaves, tl):
        if p.ndim != q.ndim or any(x.dim is not y.dim for x, y in zip(p.axes, q.axes)):
            raise AbsRaise(ValueError, f'{what} called with different primal and tangent shapes: {list(p.axes)} vs {list(q.axes)}')
        if q.dtype in ('int', 'bool'):
            raise AbsRaise(TypeError, f'{what}: primal and tangent dtypes must be equal')
    return tl


@reg('jax.jvp')
def _jvp(it, a, k):
    f, pr, tg = a[:3]
    if not isinstance(pr, (tuple, list)) or not isinstance(tg, (tuple, list)):
        raise AbsRaise(TypeError, 'primal and tangent arguments to jax.jvp must be tuples or lists')
    ha = it.truth(k.get('has_aux', False))
    lin = linearized(it, f, pr, 'jvp', ha)
    tl = check_tangent(it, lin['d'], lin['leaves'], tuple(tg), 'jvp')
    r = (tree_unflatten(it, lin['od'], lin['out']), tree_unflatten(it, lin['od'], lin['tangent'](tl)))
    return r + (lin['aux'],) if ha else r


@reg('jax.linearize')
def _linearize(it, a, k):
    ha = it.truth(k.get('has_aux', False))
    lin = linearized(it, a[0], a[1:], 'linearize', ha)

    def flin(it2, a2, k2):
        tl = check_tangent(it2, lin['d'], lin['leaves'], tuple(a2), 'linearized function')
        return tree_unflatten(it2, lin['od'], lin['tangent'](tl))
    b = Builtin('linearized', flin)
    b.lin = lin
    r = (tree_unflatten(it, lin['od'], lin['out']), b)
    return r + (lin['aux'],) if ha else r


def transpose_fn(it, tangent, shapes, d, od, outs, single):
    """VJP: ct -> gradient, by differentiating along basis directions."""
    def vjp(it2, a2, k2):
        ct = check_tangent(it2, od, outs, a2[0], 'vjp')
        res = []
        for n, s in enumerate(shapes):
            def body(idx, n=n, s=s):
                basis = Arr(s.axes, lambda ii: _delta_prod(ii, idx))
                tans = [basis if m == n else None for m in range(len(shapes))]
                outs_t = tangent(tans)
                acc = []
                for o, c in zip(outs_t, ct):
                    acc.append(reduce_sum(elementwise(lambda x, y: x * y, o, c)).at())
                return psum(acc)
            res.append(Arr(s.axes, body, s.dtype, max([c.tl for c in ct] + [s.tl])))
        r = tree_unflatten(it2, d, res)
        return r
    return Builtin('vjp_fn', vjp)


def _delta_prod(ii, idx):
    r = ONE
    for x, y in zip(ii, idx):
        r = r * delta0(x - y)
        if not r.t:
            break
    return r


@reg('jax.vjp')
def _vjp(it, a, k):
    ha = it.truth(k.get('has_aux', False))
    lin = linearized(it, a[0], a[1:], 'vjp', ha)
    f = transpose_fn(it, lin['tangent'], lin['leaves'], lin['d'], lin['od'], lin['out'], False)
    r = (tree_unflatten(it, lin['od'], lin['out']), f)
    return r + (lin['aux'],) if ha else r


@reg('jax.linear_transpose')
def _ltrans(it, a, k):
    f, ex = a[0], a[1:]
    leaves, d = tree_flatten(it, tuple(ex))
    leaves = [asarr(SDS.toarr(l)) for l in leaves]

    def tangent_probe():
        with Staged(it) as lvl:
            zs = [Arr(l.axes, lambda idx: ZERO, l.dtype, lvl) for l in leaves]
            return tree_flatten(it, it.call(f, list(tree_unflatten(it, d, zs)), {}))
    ol, od = tangent_probe()

    def tangent(tans):
        with Staged(it) as lvl:
            full = [Arr(l.axes, (lambda t: lambda idx: t.at(*idx) if t is not None else ZERO)(t), l.dtype, lvl) for l, t in zip(leaves, tans)]
            out, _ = tree_flatten(it, it.call(f, list(tree_unflatten(it, d, full)), {}))
        return [asarr(o) for o in out]
    # linearity: f(0) must vanish
    for o in ol:
        o = asarr(o)
        if arr_equal(o, Arr(o.axes, lambda idx: ZERO)) is not None:
            raise AbsRaise(NotImplementedError, 'linear_transpose of a function that is not linear')
    return transpose_fn(it, tangent, leaves, d, od, [asarr(o) for o in ol], False)


def grad_core(it, f, argnums, a, k, what, has_aux=False):
    nums = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
    nums = [toint(n) for n in nums]
    for n in nums:
        if n >= len(a) or n < -len(a):
            raise AbsRaise(TypeError, f'differentiating with respect to argnums={argnums} requires at least {max(nums) + 1} positional arguments')
    nums = [n % len(a) for n in nums]

    def g(it2, b, kk):
        full = list(a)
        for n, x in zip(nums, b):
            full[n] = x
        return it2.call(f, full, k)
    return linearized(it, Builtin(what, g), [a[n] for n in nums], what, has_aux), nums


def _gradf(it, f, argnums, ha, value):
    def g(it2, a, k):
        lin, nums = grad_core(it2, f, argnums, a, k, 'grad', ha)
        if len(lin['out']) != 1 or lin['od'].kind != 'leaf' or lin['out'][0].ndim:
            raise AbsRaise(TypeError, f"Gradient only defined for scalar-output functions. Output was {lin['od'].kind} {[list(o.axes) for o in lin['out']]}")
        if lin['out'][0].dtype in ('int', 'bool'):
            raise AbsRaise(TypeError, 'grad requires real-valued outputs')
        vjp = transpose_fn(it2, lin['tangent'], lin['leaves'], lin['d'], lin['od'], lin['out'], False)
        r = it2.call(vjp, [scalar(ONE)], {})
        if not isinstance(argnums, (tuple, list)):
            r = r[0]
        v = lin['out'][0]
        if value:
            return ((v, lin['aux']) if ha else v, r)
        return (r, lin['aux']) if ha else r
    b = Builtin('grad', g)
    b.wrapped = f
    return b


def _mk_grad(value):
    def g(it, a, k):
        an = a[1] if len(a) > 1 else k.get('argnums', 0)
        ha = it.truth(k.get('has_aux', False))
        if not a:
            return Builtin('grad', lambda it2, a2, k2: _gradf(it2, a2[0], an, ha, value))
        return _gradf(it, a[0], an, ha, value)
    return g


LIB['jax.grad'] = Builtin('jax.grad', _mk_grad(False))
LIB['jax.value_and_grad'] = Builtin('jax.value_and_grad', _mk_grad(True))


def jac_leaf(lin, o_n, l_n):
    o, l = lin['raw'][o_n], lin['leaves'][l_n]

    def body(idx):
        oi, li = idx[:o.ndim], idx[o.ndim:]
        seed = {lin['toks'][l_n]: lambda ii: _delta_prod(ii, li)}
        return lin['cl'](T.deriv(o.at(*oi), seed))
    return Arr(o.axes + l.axes, body, 'float', lin['base'])


def _jac(it, f, argnums, what, ha=False):
    def g(it2, a, k):
        lin, nums = grad_core(it2, f, argnums, a, k, what, ha)
        out = []
        for n in range(len(lin['raw'])):
            t = tree_unflatten(it2, lin['d'], [jac_leaf(lin, n, m) for m in range(len(lin['leaves']))])
            if not isinstance(argnums, (tuple, list)):
                t = t[0]
            out.append(t)
        r = tree_unflatten(it2, lin['od'], out)
        return (r, lin['aux']) if ha else r
    b = Builtin(what, g)
    b.wrapped = f
    return b


for _n in ('jacfwd', 'jacrev', 'jacobian'):
    LIB['jax.' + _n] = Builtin('jax.' + _n, (lambda n: lambda it, a, k: _jac(it, a[0], a[1] if len(a) > 1 else k.get('argnums', 0), n, it.truth(k.get('has_aux', False))))(_n))


@reg('jax.hessian')
def _hess(it, a, k):
    an = a[1] if len(a) > 1 else k.get('argnums', 0)
    return _jac(it, _jac(it, a[0], an, 'jacrev'), an, 'jacfwd')


@reg('jax._src.api._unravel_array_into_pytree')
def _unravel(it, a, k):
    pytree, axis, example, arr = a[:4]
    leaves, d = tree_flatten(it, pytree)
    arr = asarr(arr)
    axis = norm_axis(axis, arr.ndim)
    out, off = [], ZERO
    for l in leaves:
        l = asarr(l)
        n = ONE
        for x in l.dims:
            n = n * x
        part = slice_axis(arr, axis, off, off + n)
        off = off + n
        shp = [pyint(x.dim) for x in arr.axes[:axis]] + list(l.shape) + [pyint(x.dim) for x in arr.axes[axis + 1:]]
        out.append(reshape(part, shp))
    return tree_unflatten(it, d, out)


@reg('jax.flatten_util.ravel_pytree')
def _ravelp(it, a, k):
    leaves, d = tree_flatten(it, a[0])
    leaves = [asarr(l) for l in leaves]
    flat = concatenate([ravel(l) for l in leaves], 0)

    def un(it2, a2, k2):
        pts, off = [], ZERO
        x = asarr(a2[0])
        out = []
        for l in leaves:
            n = ONE
            for q in l.dims:
                n = n * q
            out.append(reshape(slice_axis(x, 0, off, off + n), l.shape))
            off = off + n
        return tree_unflatten(it2, d, out)
    return (flat, Builtin('unravel', un))


# ------------------------------------------------------------------ shapes
class SDS:
    def __init__(self, shape, dtype):
        self.attrs = {'shape': shape, 'dtype': dtype}
        self.shape, self.dt = shape, dtype

    @staticmethod
    def toarr(x):
        if isinstance(x, SDS):
            return Arr([todim(s) for s in x.shape], lambda idx: ZERO, L3.dtype_of(x.dt))
        return x


LIB['jax.ShapeDtypeStruct'] = Builtin('ShapeDtypeStruct', lambda it, a, k: SDS(a[0] if a else k['shape'], a[1] if len(a) > 1 else k['dtype']))


@reg('jax.eval_shape')
def _eval_shape(it, a, k):
    outer = it.tlevel
    with Staged(it) as lvl:
        args = [tree_map(it, lambda x: lift_leaf(it, SDS.toarr(x), lvl, 'eval_shape'), x) for x in a[1:]]
        r = it.call(a[0], args, k)
    return tree_map(it, lambda x: SDS(asarr(x).shape, DT(asarr(x).dtype)), r)


for _n in ('block_until_ready', 'device_put', 'device_get'):
    LIB['jax.' + _n] = Builtin(_n, lambda it, a, k: a[0])
LIB['jax.named_call'] = Builtin('named_call', lambda it, a, k: a[0])
LIB['jax.checkpoint'] = LIB['jax.remat'] = Builtin('checkpoint', lambda it, a, k: a[0])
LIB['jax.debug.print'] = Builtin('debug.print', lambda it, a, k: None)
LIB['jax.disable_jit'] = Builtin('disable_jit', lambda it, a, k: L2.SimpleCM(lambda i: None, lambda i, t: False))


# ------------------------------------------------------------------ randomness
def key_poly(it, k, what):
    if not isinstance(k, Arr):
        raise AbsRaise(TypeError, f'{what}: key must be a PRNG key, got {tname(k)}')
    if k.dtype != 'key':
        raise AbsRaise(TypeError, f'{what}: argument is not a PRNG key (dtype {k.dtype})')
    if k.ndim:
        raise AbsRaise(ValueError, f'{what} accepts a single key, but was given a key array of shape {list(k.axes)}')
    return k.scalar()


@reg('jax.random.key', 'jax.random.PRNGKey')
def _key(it, a, k):
    s = asarr(a[0] if a else k['seed'])
    p = s.scalar()
    it.effect('key', seed=show(p))
    return staged(it, Arr((), lambda idx: fn('key', p), 'key', s.tl))


@reg('jax.random.split')
def _rsplit(it, a, k):
    key = a[0] if a else k['key']
    p = key_poly(it, key, 'split')
    n = a[1] if len(a) > 1 else k.get('num', 2)
    it.effect('key_use', key=p, op='split')
    if isinstance(n, (tuple, list)):
        sh = [todim(x) for x in n]
    else:
        sh = [todim(n)]
    return staged(it, Arr(sh, lambda idx: fn('split', p, *idx), 'key', key.tl))


@reg('jax.random.fold_in')
def _fold(it, a, k):
    p = key_poly(it, a[0], 'fold_in')
    d = asarr(a[1]).scalar()
    return Arr((), lambda idx: fn('fold_in', p, d), 'key', max(a[0].tl, asarr(a[1]).tl))


def sampler(name, before=(), after=(), dtype='float'):
    """Draw of the given distribution; `before`/`after`: its parameters around the shape argument."""
    names = ('key',) + before + ('shape',) + (after if after[:1] != ('dtype',) else after)

    def g(it, a, k):
        v = dict(zip(names, list(a)))
        v.update(k.items())
        p = key_poly(it, v['key'], name)
        ps = [asarr(v[n]) for n in before + after if n != 'dtype' and v.get(n) is not None]
        sh = v.get('shape')
        if sh is None:
            sh = ps[0].axes if ps and before else ()
        elif not isinstance(sh, (tuple, list)):
            sh = it.iterate(sh)
        sh = [x if isinstance(x, Ax) else ax(todim(x)) for x in sh]
        d = v.get('dtype')
        it.effect('key_use', key=p, op=name)
        par = (name,) + tuple(n for n in before + after if v.get(n) is not None and n != 'dtype') + tuple(x.dim for x in sh)
        kl = [mk_lam((), [((), (), p)])] + [lam_of(x) for x in ps]
        return staged(it, Arr(sh, lambda idx: app('rng', par, kl, idx), dtype if d is None else L3.dtype_of(d),
                              max([v['key'].tl] + [x.tl for x in ps])))
    LIB['jax.random.' + name] = Builtin('jax.random.' + name, g)


for _n in ('normal', 'rademacher', 'gumbel', 'laplace', 'cauchy', 'exponential', 'logistic'):
    sampler(_n, after=('dtype',))
sampler('uniform', after=('dtype', 'minval', 'maxval'))
sampler('truncated_normal', before=('lower', 'upper'), after=('dtype',))
sampler('t', before=('df',), after=('dtype',))
sampler('gamma', before=('a',), after=('dtype',))
sampler('beta', before=('a', 'b'), after=('dtype',))
sampler('poisson', before=('lam',), after=('dtype',), dtype='int')
sampler('bernoulli', before=('p',), dtype='bool')
sampler('randint', after=('minval', 'maxval', 'dtype'), dtype='int')
for _n in ('permutation', 'choice', 'categorical', 'multivariate_normal', 'dirichlet', 'ball', 'orthogonal'):
    LIB['jax.random.' + _n] = Builtin(_n, (lambda n: lambda it, a, k: (_ for _ in ()).throw(Unmodelled('jax.random.' + n)))(_n))
LIB['jax.random.key_data'] = Builtin('key_data', lambda it, a, k: (_ for _ in ()).throw(Unmodelled('key_data')))


def np_random(path):
    def g(it, a, k):
        it.effect('impure_random', fn=path)
        return scalar(sym(f'{path}{next(T._fresh)}'))
    return Builtin(path, g)


for _n in ('normal', 'rand', 'randn', 'uniform', 'default_rng', 'seed', 'permutation', 'choice', 'randint'):
    LIB['np.random.' + _n] = np_random('np.random.' + _n)
for _n in ('random', 'randint', 'gauss', 'seed', 'choice', 'shuffle', 'uniform'):
    LIB['random.' + _n] = np_random('random.' + _n)


# ------------------------------------------------------------------ configuration
class ConfigV:
    def abs_getattr(self, it, n):
        if n in ('update', 'read'):
            return LIB['jax.config.' + n]
        if n.startswith('jax_'):
            return it.config.get(n, scalar(sym('cfg.' + n), 'bool', 0, 'bool'))
        raise AbsRaise(AttributeError, n)

    def abs_setattr(self, it, n, v):
        it.config[n] = v
        it.effect('config', name=n, value=v)


LIB['jax.config'] = ConfigV()


@reg('jax.config.update')
def _cupd(it, a, k):
    it.config[a[0]] = a[1]
    it.effect('config', name=a[0], value=a[1])


@reg('jax.config.read')
def _cread(it, a, k):
    return it.config.get(a[0], 'orig:' + a[0])


class X64CM:
    def __init__(self, val):
        self.val = val
        self.saved = None


def _x64(val0):
    def g(it, a, k):
        val = a[0] if a else val0
        st = {}

        def enter(it2):
            st['old'] = it2.config.get('jax_enable_x64', 'orig:jax_enable_x64')
            it2.config['jax_enable_x64'] = val

        def exit_(it2, t):
            it2.config['jax_enable_x64'] = st['old']
            return False
        return L2.SimpleCM(enter, exit_)
    return g


LIB['jax.experimental.enable_x64'] = Builtin('enable_x64', _x64(True))
LIB['jax.experimental.disable_x64'] = Builtin('disable_x64', _x64(False))
