"""C13 flatten/unflatten, C14 dense/diagonal orientation, C34 tree arithmetic."""
from .common import *

FL = 'laplax.util.flatten.'
TR = 'laplax.util.tree.'
MV = 'laplax.util.mv.'


def big_tree(tag='t'):
    """Nested tree: dict order is sorted by key, tuples in order; ranks 0..3."""
    q1, q2, q3, q4, q5, q6 = dims('Q1 Q2 Q3 Q4 Q5 Q6')
    t = {'b': (opaque(tag + 'b0', q1, q2), [opaque(tag + 'b1', q3)]),
         'a': {'z': opaque(tag + 'az'), 'y': opaque(tag + 'ay', q4, q5, q6)}}
    leaves = [t['a']['y'], t['a']['z'], t['b'][0], t['b'][1][0]]
    flat = cat_ax([prod_ax([ax(q4), ax(q5), ax(q6)]), ax(1), prod_ax([ax(q1), ax(q2)]), ax(q3)])
    register_struct(flat)
    return t, leaves, flat


def two_tree(tag=''):
    t = tree(tag)
    return t, [t['a'], t['b']], setup_tree()


def flat_ref(leaves, flat):
    """Concatenation of row-major raveled leaves, in tree order."""
    return concatenate([ravel(x) if x.ndim else reshape(x, (1,)) for x in leaves], 0)


@ob('C13', 'full-flatten-order', FL + 'full_flatten', 'flattening concatenates row-major leaves in jax.tree order')
def _(c):
    for t, leaves, flat in (big_tree(), two_tree()):
        c.eq(c.call(FL + 'full_flatten', t), flat_ref(leaves, flat), 'full_flatten')


@ob('C13', 'flattener-forward', FL + 'create_pytree_flattener', 'flatten agrees with full_flatten order')
def _(c):
    for t, leaves, flat in (big_tree(), two_tree()):
        fl, un = c.call(FL + 'create_pytree_flattener', t)
        c.eq(c.call(fl, t), flat_ref(leaves, flat), 'flatten')


@ob('C13', 'roundtrip-tree', FL + 'create_pytree_flattener', 'unflatten(flatten(t)) is t for every tree of that structure')
def _(c):
    for mk in (big_tree, two_tree):
        t, leaves, flat = mk()
        fl, un = c.call(FL + 'create_pytree_flattener', t)
        t2, _, _ = mk('u')
        c.eq(c.call(un, c.call(fl, t2)), t2, 'unflatten(flatten(t))')


@ob('C13', 'roundtrip-vector', FL + 'create_pytree_flattener', 'flatten(unflatten(v)) is v for every vector')
def _(c):
    for mk in (big_tree, two_tree):
        t, leaves, flat = mk()
        fl, un = c.call(FL + 'create_pytree_flattener', t)
        v = opaque('v', flat)
        c.eq(c.call(fl, c.call(un, v)), v, 'flatten(unflatten(v))')


@ob('C13', 'partial-roundtrip', FL + 'create_partial_pytree_flattener',
    'partial flattening stacks leaves with the last axis kept; unflatten inverts it')
def _(c):
    q1, q2, q3 = dims('Q1 Q2 Q3')

    def mk(tag):
        return {'a': opaque('pa' + tag, q1, q2, R), 'b': opaque('pb' + tag, q3, R)}
    flat = cat_ax([prod_ax([ax(q1), ax(q2)]), ax(q3)])
    register_struct(flat)
    t = mk('')
    fl, un = c.call(FL + 'create_partial_pytree_flattener', t)
    register_struct(prod_ax([ax(q1), ax(q2)]))
    want = concatenate([reshape(t['a'], (pyint(q1 * q2), pyint(R))), t['b']], 0)
    c.eq(c.call(fl, t), want, 'flatten')
    t2 = mk('2')
    c.eq(c.call(un, c.call(fl, t2)), t2, 'unflatten(flatten(t))')
    m = opaque('m', flat, R)
    c.eq(c.call(fl, c.call(un, m)), m, 'flatten(unflatten(m))')


@ob('C13', 'unravel-axis', FL + 'unravel_array_into_pytree', 'unravelling splits exactly the chosen axis in leaf order, other axes unchanged')
def _(c):
    t, leaves, flat = two_tree()
    for axis in (0, 1, -1, 2, -3):
        shape = [R, S_, dim('U')]
        shape[axis] = flat
        arr = opaque(f'arr{axis}', *shape)
        k = axis % 3
        got = c.call(FL + 'unravel_array_into_pytree', t, axis, arr)

        def body_a(idx, k=k, arr=arr):
            return arr.at(*idx[:k], idx[k] * A2 + idx[k + 1], *idx[k + 2:])

        def body_b(idx, k=k, arr=arr):
            return arr.at(*idx[:k], idx[k] + A1 * A2, *idx[k + 1:])
        sh = [ax(R), ax(S_), ax(dim('U'))]
        want = {'a': Arr(tuple(sh[:k] + [ax(A1), ax(A2)] + sh[k + 1:]), body_a),
                'b': Arr(tuple(sh[:k] + [ax(B)] + sh[k + 1:]), body_b)}
        c.eq(got, want, f'axis={axis}')


@ob('C13', 'wrap-function', FL + 'wrap_function', 'wrap_function applies input_fn to argument argnums only, output_fn to the result, passes the rest')
def _(c):
    log = []
    f = Builtin('f', lambda it, a, k: (log.append((a, k)), app_arr('f', [x for x in a] + [k[q] for q in sorted(k)], (ax(C),)))[1])
    g = Builtin('g', lambda it, a, k: app_arr('gi', [a[0]], (ax(B),)))
    h = Builtin('h', lambda it, a, k: app_arr('ho', [a[0]], (ax(C),)))
    x, y, z = opaque('x', B), opaque('y', B), opaque('z', B)
    for n in (0, 1):
        for inp, out in ((g, h), (None, h), (g, None), (None, None)):
            w = c.call(FL + 'wrap_function', f, input_fn=inp, output_fn=out, argnums=n)
            got = c.call(w, x, y, kw=z)
            args = [x, y]
            if inp is not None:
                args[n] = app_arr('gi', [args[n]], (ax(B),))
            r = app_arr('f', args + [z], (ax(C),))
            if out is not None:
                r = app_arr('ho', [r], (ax(C),))
            c.eq(got, r, f'argnums={n}')


@ob('C13', 'wrap-factory', FL + 'wrap_factory', 'wrap_factory passes factory arguments through and wraps the produced function')
def _(c):
    def made(it, a, k):
        c.ok(len(a) == 1 and set(k) == {'kw'}, f'the factory gets its arguments: {len(a)} positional, {sorted(k)}')
        return Builtin('prod', lambda it2, b, k2: app_arr('f', [a[0], k['kw'], b[0]], (ax(C),)))
    fac = Builtin('fac', made)
    g = Builtin('g', lambda it, a, k: app_arr('gi', [a[0]], (ax(B),)))
    h = Builtin('h', lambda it, a, k: app_arr('ho', [a[0]], (ax(C),)))
    s, t, v = opaque('s', B), opaque('t', B), opaque('v', B)
    w = c.call(FL + 'wrap_factory', fac, g, h)
    got = c.call(c.call(w, s, kw=t), v)
    c.eq(got, app_arr('ho', [app_arr('f', [s, t, app_arr('gi', [v], (ax(B),))], (ax(C),))], (ax(C),)), 'factory')


@ob('C13', 'flatten-function', FL + 'flatten_function', 'flatten_function(f)(v) = flatten(f(unflatten(v)))')
def _(c):
    t, leaves, flat = two_tree()
    f = Builtin('f', lambda it, a, k: {q: app_arr('f' + q, [a[0]['a'], a[0]['b']], t[q].axes) for q in t})
    w = c.call(FL + 'flatten_function', f, t)
    v = opaque('v', flat)
    un = {'a': Arr((A1, A2), lambda i: v.at(i[0] * A2 + i[1])), 'b': Arr((B,), lambda i: v.at(A1 * A2 + i[0]))}
    fo = {q: app_arr('f' + q, [un['a'], un['b']], t[q].axes) for q in t}
    c.eq(c.call(w, v), flat_ref([fo['a'], fo['b']], flat), 'flatten_function')


# ---------------------------------------------------------------- C14
def lin_map(flatdim, name='M', tl=0):
    """Opaque linear map on flat vectors: (Mv)_i = sum_j M[i,j] v_j (not symmetric)."""
    def f(it, a, k):
        v = a[0]
        w = fresh(flatdim)
        return Arr(v.axes, lambda idx: sum_over(elem(name, (idx[0], w)) * v.at(w), only_atom(w)), 'float', v.tl)
    T.DIMS[name] = (P(flatdim), P(flatdim))
    return Builtin('mv', f)


@ob('C14', 'to-dense-int', MV + 'to_dense', 'to_dense(mv, int)[i, j] = e_i . mv(e_j)')
def _(c):
    got = c.call(MV + 'to_dense', lin_map(Pn), layout=py(Pn))
    c.eq(got, opaque('M', Pn, Pn), 'to_dense')


@ob('C14', 'to-dense-int-batched', MV + 'to_dense', 'to_dense_batch_size does not change the matrix')
def _(c):
    got = c.call(MV + 'to_dense', lin_map(Pn), layout=py(Pn), to_dense_batch_size=2)
    c.eq(got, opaque('M', Pn, Pn), 'to_dense')


def tree_lin(name='M'):
    """Linear map on the two-leaf tree with coefficients M_kl[i.., j..]."""
    def f(it, a, k):
        v = a[0]
        out = {}
        for k1 in ('a', 'b'):
            def body(idx, k1=k1):
                r = ZERO
                for k2 in ('a', 'b'):
                    ii = fresh_idx(v[k2]) if k2 == 'b' else fresh_idx(v[k2])
                    r = r + esum(elem(f'{name}{k1}{k2}', tuple(idx) + ii) * v[k2].at(*ii), *ii)
                return r
            out[k1] = Arr((A1, A2) if k1 == 'a' else (B,), body, 'float', max(v['a'].tl, v['b'].tl))
        return out
    return Builtin('mv', f)


def coef(name, k1, i1, k2, i2):
    return elem(f'{name}{k1}{k2}', tuple(i1) + tuple(i2))


@ob('C14', 'to-dense-tree', MV + 'to_dense', 'to_dense over a tree: leaf transposed so that the last axis enumerates the basis in flatten order')
def _(c):
    t, leaves, flat = two_tree()
    got = c.call(MV + 'to_dense', tree_lin(), layout=t)

    def mk(k1, nd):
        def body(idx):
            out = tuple(reversed(idx[:nd]))
            j = idx[nd]
            # cell of the flat axis is resolved structurally
            r = ZERO
            e = {'a': Arr((flat, A1, A2), lambda q: delta0(q[0] - q[1] * A2 - q[2])),
                 'b': Arr((flat, B), lambda q: delta0(q[0] - A1 * A2 - q[1]))}
            for k2 in ('a', 'b'):
                ii = fresh_idx(t[k2])
                r = r + esum(coef('M', k1, out, k2, ii) * e[k2].at(j, *ii), *ii)
            return r
        return body
    want = {'a': Arr((A2, A1, flat), mk('a', 2)), 'b': Arr((B, flat), mk('b', 1))}
    c.eq(got, want, 'to_dense')


@ob('C14', 'to-dense-flattened', MV + 'to_dense', 'dense matrix of a flattened operator has row/column order of the flattener')
def _(c):
    t, leaves, flat = two_tree()
    f = c.call(FL + 'flatten_function', tree_lin(), t)
    n = pyint(flat.dim)
    got = c.call(MV + 'to_dense', f, layout=n)
    rows = {'a': (A1, A2), 'b': (B,)}
    i1, i2, j1, j2, k1, l1 = fresh(A1), fresh(A2), fresh(A1), fresh(A2), fresh(B), fresh(B)
    off = A1 * A2
    c.same(got.at(i1 * A2 + i2, j1 * A2 + j2), coef('M', 'a', (i1, i2), 'a', (j1, j2)), 'block aa')
    c.same(got.at(i1 * A2 + i2, off + k1), coef('M', 'a', (i1, i2), 'b', (k1,)), 'block ab')
    c.same(got.at(off + k1, j1 * A2 + j2), coef('M', 'b', (k1,), 'a', (j1, j2)), 'block ba')
    c.same(got.at(off + k1, off + l1), coef('M', 'b', (k1,), 'b', (l1,)), 'block bb')


def diag_ob(name, **kw):
    @ob('C14', f'diagonal-{name}', MV + 'diagonal', 'diagonal(mv)[i] = e_i . mv(e_i) in flatten order')
    def _(c):
        got = c.call(MV + 'diagonal', lin_map(Pn), layout=py(Pn), **kw)
        c.eq(got, Arr((Pn,), lambda i: elem('M', (i[0], i[0]))), 'diagonal (int layout)')
        t, leaves, flat = two_tree()
        got = c.call(MV + 'diagonal', tree_lin('Q'), layout=t, **kw)
        i1, i2, k1 = fresh(A1), fresh(A2), fresh(B)
        c.ok(got.ndim == 1 and T.equal(got.axes[0].dim, flat.dim), 'diagonal of a tree operator is a vector of the total size')
        c.same(got.at(i1 * A2 + i2), coef('Q', 'a', (i1, i2), 'a', (i1, i2)), 'diagonal (leaf a)')
        c.same(got.at(A1 * A2 + k1), coef('Q', 'b', (k1,), 'b', (k1,)), 'diagonal (leaf b)')


diag_ob('jitted')
diag_ob('non-jitted', mv_jittable=False)
diag_ob('batched', diagonal_batch_size=2)


@ob('C14', 'diagonal-matrix', MV + 'diagonal', 'diagonal of a dense matrix is its diagonal')
def _(c):
    c.eq(c.call(MV + 'diagonal', opaque('D', Pn, Pn)), Arr((Pn,), lambda i: elem('D', (i[0], i[0]))), 'diagonal')


@ob('C14', 'diagonal-no-layout', MV + 'diagonal', 'a callable without layout raises TypeError')
def _(c):
    c.raises(lambda: c.call(MV + 'diagonal', lin_map(Pn)), TypeError, what='diagonal(mv)')


# ---------------------------------------------------------------- C34
def leafwise(name, ref, nargs=1, extra=()):
    @ob('C34', f'tree-{name}', TR + name, f'{name} acts leafwise')
    def _(c):
        ts = [big_tree(f't{i}') for i in range(nargs)]
        trees, leaves = [x[0] for x in ts], [x[1] for x in ts]
        got = c.call(TR + name, *extra, *trees)
        out = [Arr(ls[0].axes, lambda i, ls=ls: ref(*[x.at(*i) for x in ls])) for ls in zip(*leaves)]
        want = {'a': {'y': out[0], 'z': out[1]}, 'b': (out[2], [out[3]])}
        c.eq(got, want, name)


leafwise('add', lambda x, y: x + y, 2)
leafwise('sub', lambda x, y: x - y, 2)
leafwise('neg', lambda x: -x)
leafwise('mul', lambda x: sym('s') * x, 1, (S('s'),))
leafwise('sqrt', lambda x: sqrt(x))
leafwise('ones_like', lambda x: ONE)
leafwise('zeros_like', lambda x: ZERO)


@ob('C34', 'get-size', TR + 'get_size', 'get_size is the total number of entries')
def _(c):
    for t, leaves, flat in (big_tree(), two_tree()):
        c.eq(c.call(TR + 'get_size', t), scalar(flat.dim, 'int'), 'get_size')


@ob('C34', 'eye-like', TR + 'eye_like', 'row k of eye_like is the k-th basis vector in flatten order')
def _(c):
    t, leaves, flat = two_tree()
    for fn_ in ('eye_like', 'eye_like_with_basis_vector'):
        got = c.call(TR + fn_, t)
        n1, n2, m1, k1, k2 = fresh(A1), fresh(A2), fresh(B), fresh(A1), fresh(A2)
        m2 = fresh(B)
        fa, fb = k1 * A2 + k2, A1 * A2 + m2
        c.same(got['a'].at(fa, n1, n2), delta0(n1 - k1) * delta0(n2 - k2), f'{fn_} aa')
        c.same(got['a'].at(fb, n1, n2), ZERO, f'{fn_} ab')
        c.same(got['b'].at(fa, m1), ZERO, f'{fn_} ba')
        c.same(got['b'].at(fb, m1), delta0(m1 - m2), f'{fn_} bb')


@ob('C34', 'basis-vector', TR + 'basis_vector_from_index', 'basis_vector_from_index(k) has a single one at flat position k')
def _(c):
    t, leaves, flat = two_tree()
    k1, k2, m2 = fresh(A1), fresh(A2), fresh(B)
    n1, n2, m1 = fresh(A1), fresh(A2), fresh(B)
    got = c.call(TR + 'basis_vector_from_index', scalar(k1 * A2 + k2, 'int'), t)
    c.same(got['a'].at(n1, n2), delta0(n1 - k1) * delta0(n2 - k2), 'leaf a')
    c.same(got['b'].at(m1), ZERO, 'leaf b')
    got = c.call(TR + 'basis_vector_from_index', scalar(A1 * A2 + m2, 'int'), t)
    c.same(got['a'].at(n1, n2), ZERO, 'leaf a')
    c.same(got['b'].at(m1), delta0(m1 - m2), 'leaf b')


@ob('C34', 'vec-get', TR + 'tree_vec_get', 'tree_vec_get(tree, k) is entry k of the flattened tree')
def _(c):
    t, leaves, flat = two_tree()
    k1, k2, m = fresh(A1), fresh(A2), fresh(B)
    c.same(asarr(c.call(TR + 'tree_vec_get', t, scalar(k1 * A2 + k2, 'int'))).at(), elem('a', (k1, k2)), 'leaf a')
    c.same(asarr(c.call(TR + 'tree_vec_get', t, scalar(A1 * A2 + m, 'int'))).at(), elem('b', (m,)), 'leaf b')
    x = opaque('x', A1, A2)
    c.same(asarr(c.call(TR + 'tree_vec_get', x, scalar(k1 * A2 + k2, 'int'))).at(), elem('x', (k1, k2)), 'array')


@ob('C34', 'slice', TR + 'tree_slice', 'tree_slice(t, a, b) takes leading entries a..b-1 of every leaf')
def _(c):
    t = {'a': opaque('sa', 6, A2), 'b': opaque('sb', 6)}
    got = c.call(TR + 'tree_slice', t, 1, 4)
    want = {'a': Arr((3, A2), lambda i: elem('sa', (i[0] + 1, i[1]))), 'b': Arr((3,), lambda i: elem('sb', (i[0] + 1,)))}
    c.eq(got, want, 'tree_slice')


@ob('C34', 'slice-forms', TR + 'tree_slice', 'tree_slice takes the bounds of a Python slice')
def _(c):
    t = {'a': opaque('sa', 6, A2), 'b': (opaque('sb', 6),)}
    for a, b in ((0, 6), (-2, None), (None, 3), (-4, -1), (2, 100), (None, None), (4, 2)):
        i0, i1, _ = slice(a, b).indices(6)
        got = c.call(TR + 'tree_slice', t, a, b)
        n = max(0, i1 - i0)
        c.eq(got, {'a': Arr((n, A2), lambda i: elem('sa', (i[0] + i0, i[1]))), 'b': (Arr((n,), lambda i: elem('sb', (i[0] + i0,))),)},
             f'tree_slice({a}, {b})')


@ob('C34', 'partialmatvec', TR + 'tree_partialmatvec', 'tree_partialmatvec contracts the last axis of every leaf with the vector')
def _(c):
    t = {'a': opaque('sa', A1, A2, R), 'b': opaque('sb', B, R)}
    v = opaque('v', R)
    w = fresh(R)
    want = {'a': Arr((A1, A2), lambda i: esum(elem('sa', (*i, w)) * v.at(w), w)), 'b': Arr((B,), lambda i: esum(elem('sb', (*i, w)) * v.at(w), w))}
    c.eq(c.call(TR + 'tree_partialmatvec', t, v), want, 'tree_partialmatvec')


@ob('C34', 'matvec', TR + 'tree_matvec', 'tree_matvec multiplies a tree of blocks (input leaf outside, output leaf inside) with a tree')
def _(c):
    v, leaves, flat = two_tree('v')
    sh = {'a': (A1, A2), 'b': (B,)}
    t = {i: {j: opaque(f'blk{i}{j}', *sh[j], *sh[i]) for j in sh} for i in sh}
    got = c.call(TR + 'tree_matvec', t, v)

    def entry(j, o):
        k1, k2, m = fresh(A1), fresh(A2), fresh(B)
        return (esum(elem(f'blka{j}', (*o, k1, k2)) * v['a'].at(k1, k2), k1, k2) + esum(elem(f'blkb{j}', (*o, m)) * v['b'].at(m), m))
    c.eq(got, {j: Arr(sh[j], lambda o, j=j: entry(j, o)) for j in sh}, 'product')


@ob('C34', 'cov', TR + 'cov', 'tree covariances act leafwise')
def _(c):
    t = {'a': opaque('ca', N, A2), 'b': [opaque('cb', N, B)]}

    def cov_(x, i, j, n):
        w, u = fresh(N), fresh(N)
        return esum((x.at(w, i) - esum(x.at(u, i), u) / N) * (x.at(w, j) - esum(x.at(u, j), u) / N), w) / n
    for kw, n in (({'rowvar': False}, N - 1), ({'rowvar': False, 'ddof': 0}, N)):
        c.eq(c.call(TR + 'cov', t, **kw), {'a': Arr((A2, A2), lambda i: cov_(t['a'], *i, n)), 'b': [Arr((B, B), lambda i: cov_(t['b'][0], *i, n))]}, 'cov')


@ob('C34', 'mean-var-std', TR + 'mean', 'tree statistics act leafwise along the requested axis (population variance)')
def _(c):
    t = {'a': opaque('sa', N, A2), 'b': opaque('sb', N)}
    w, u = fresh(N), fresh(N)

    def mean_(x, i):
        return esum(x.at(w, *i), w) / N

    def var_(x, i):
        m = mean_(x, i)
        return esum((x.at(u, *i) - m) ** 2, u) / N
    for name, f in (('mean', mean_), ('var', var_), ('std', lambda x, i: sqrt(var_(x, i)))):
        want = {k: Arr(x.axes[1:], lambda i, x=x: f(x, i)) for k, x in t.items()}
        c.eq(c.call(TR + name, t, axis=0), want, name)


# ---- leaves of every rank
def deep(tag=''):
    """Leaves of rank 3, 0, 4 and 1 in one tree; offsets of the leaves in the flat vector."""
    d3, d4 = dims('Q1 Q2 Q3'), dims('Q4 Q5 Q6 Q7')
    t = {'a': opaque('ta' + tag, *d3), 'b': opaque('tb' + tag), 'c': opaque('tc' + tag, *d4), 'd': opaque('td' + tag, B)}
    flat = cat_ax([prod_ax([ax(q) for q in d3]), ax(1), prod_ax([ax(q) for q in d4]), ax(B)])
    register_struct(flat)
    n3 = d3[0] * d3[1] * d3[2]
    n4 = d4[0] * d4[1] * d4[2] * d4[3]
    return t, flat, {'a': ZERO, 'b': n3, 'c': n3 + 1, 'd': n3 + 1 + n4}


def pos(x, idx):
    """Row-major position inside a leaf."""
    r = ZERO
    for q, i in zip(x.axes, idx):
        r = r * q.dim + i
    return r


@ob('C14', 'to-dense-deep', MV + 'to_dense', 'to_dense over leaves of rank 0 to 4: each leaf transposed, last axis enumerates the basis')
def _(c):
    t, flat, off = deep()
    s = {k: Arr(x.axes, lambda i, k=k, x=x: elem('w' + k, i)) for k, x in t.items()}
    f = Builtin('mv', lambda it, a, k: {q: elementwise(lambda p, r: p * r, s[q], a[0][q]) for q in t})
    got = c.call(MV + 'to_dense', f, layout=t)
    c.ok(set(got) == set(t), 'structure of the tree')
    for k, x in t.items():
        for k2, y in t.items():
            j = fresh_idx(y)
            i = fresh_idx(x)
            g = asarr(got[k])
            c.ok(g.ndim == x.ndim + 1, f'leaf {k!r} has rank {g.ndim}')
            for n, q in enumerate(reversed(x.axes)):
                c.ok(T.equal(g.axes[n].dim, q.dim), f'axis {n} of leaf {k!r} has size {show(g.axes[n].dim)}, expected {show(q.dim)}')
            want = ZERO
            if k == k2:
                want = elem('w' + k, i)
                for p, q in zip(i, j):
                    want = want * delta0(p - q)
            c.same(g.at(*reversed(i), off[k2] + pos(y, j)), want, f'block {k}{k2}')


@ob('C14', 'diagonal-deep', MV + 'diagonal', 'diagonal over leaves of rank 0 to 4 in flatten order')
def _(c):
    t, flat, off = deep()
    f = Builtin('mv', lambda it, a, k: {q: elementwise(lambda p, r: p * r, Arr(t[q].axes, lambda i, q=q: elem('w' + q, i)), a[0][q]) for q in t})
    got = c.call(MV + 'diagonal', f, layout=t)
    for k, x in t.items():
        i = fresh_idx(x)
        c.same(got.at(off[k] + pos(x, i)), elem('w' + k, i), f'leaf {k}')


@ob('C34', 'deep-basis', TR + 'eye_like', 'identity and basis trees over leaves of rank 0 to 4')
def _(c):
    t, flat, off = deep()
    got = c.call(TR + 'eye_like', t)
    for k, x in t.items():
        for k2, y in t.items():
            i, j = fresh_idx(x), fresh_idx(y)
            want = ZERO
            if k == k2:
                want = ONE
                for p, q in zip(i, j):
                    want = want * delta0(p - q)
            c.same(got[k].at(off[k2] + pos(y, j), *i), want, f'eye_like {k}{k2}')
    for k2, y in t.items():
        j = fresh_idx(y)
        e = c.call(TR + 'basis_vector_from_index', scalar(off[k2] + pos(y, j), 'int'), t)
        for k, x in t.items():
            i = fresh_idx(x)
            want = ZERO
            if k == k2:
                want = ONE
                for p, q in zip(i, j):
                    want = want * delta0(p - q)
            c.same(asarr(e[k]).at(*i), want, f'basis vector {k}{k2}')
        c.same(asarr(c.call(TR + 'tree_vec_get', t, scalar(off[k2] + pos(y, j), 'int'))).at(), y.at(*j), f'entry of {k2}')


@ob('C13', 'deep-roundtrip', FL + 'create_pytree_flattener', 'flattening and unflattening leaves of rank 0 to 4')
def _(c):
    t, flat, off = deep()
    fl, un = c.call(FL + 'create_pytree_flattener', t)
    t2 = deep('2')[0]
    for f in (fl, c.get(FL + 'full_flatten')):
        v = c.call(f, t2)
        for k, x in t2.items():
            i = fresh_idx(x)
            c.same(v.at(off[k] + pos(x, i)), x.at(*i), f'flat position of {k}')
    v = opaque('v', flat)
    u = c.call(un, v)
    for k, x in t.items():
        i = fresh_idx(x)
        c.ok(asarr(u[k]).ndim == x.ndim, f'rank of leaf {k}')
        c.same(asarr(u[k]).at(*i), v.at(off[k] + pos(x, i)), f'leaf {k}')
