"""Linear algebra, jax.nn, jax.scipy transfer functions and contraction rules."""
from .lib import *
from . import lib as L
from . import lib4 as L4
from .lib import LIB, reg
from .lib4 import jreg, staged
from . import terms as T


def both(*names):
    """Register under exact dotted names with jnp staging semantics."""
    def d(f):
        def g(it, a, k):
            return staged(it, f(it, a, k))
        for n in names:
            LIB[n] = Builtin(n, g)
        return f
    return d


# ------------------------------------------------------------------ contraction
MATS = {'chol', 'inv', 'eigvec', 'qrQ', 'svdU', 'svdVh'}


def mat_of(a):
    """(key, row index, col index, kind) when the atom is a matrix element."""
    if a.k == 'a' and a.d[0] in MATS and not a.d[4] and len(a.d[3]) == 2:
        return (a.d[0], a.d[2]), a.d[3], a.d[0]
    if a.k == 'e' and len(a.d[1]) == 2 and 'orth' in PROPS.get(a.d[0], ()):
        return (a.d[0],), a.d[1], 'orth'
    return None


def square_lam(l):
    return len(l.dims) == 2


def lam_fn(l):
    """Index function of a (matrix) Lam with a single prim x prim cell, or None."""
    cs = open_lam(l)
    if len(cs) != 1:
        return None
    vs, idx, body = cs[0]
    if len(vs) != len(idx):
        return None
    for v, i in zip(vs, idx):
        if only_atom(i) is not v:
            return None

    def f(*ii):
        return subst(body, dict(zip(vs, ii)))
    return f


def full_range(v, ip):
    """index poly ip runs over its whole axis when v does (v or dim-1-v)."""
    if only_atom(ip) is v:
        return True
    return (v.d[1] - 1 - ip) is P(atom_poly(v))


def contract(binders, fac, coef):
    for v in binders:
        hits = [(a, e) for a, e in fac.items() if v in a.fv]
        if any(v in b.d[1].fv for b in binders):
            continue
        if len(hits) == 1 and hits[0][1] == 2:
            pair = [hits[0][0], hits[0][0]]
        elif len(hits) == 2 and all(e == 1 for _, e in hits):
            pair = [hits[0][0], hits[1][0]]
        elif len(hits) in (2, 3):
            r = eig_rule(binders, fac, coef, v, hits)
            if r is not None:
                return r
            continue
        else:
            continue
        m = [mat_of(a) for a in pair]
        if None in m:
            continue
        r = pair_rule(v, pair, m)
        if r is None:
            continue
        rest = [(a, e) for a, e in fac.items() if v not in a.fv]
        return T.build(tuple(b for b in binders if b is not v), rest + [(r, Q(1))], coef)
    return None


def slot(v, ix):
    s = [k for k in (0, 1) if v in ix[k].fv]
    return s[0] if len(s) == 1 else None


def pair_rule(v, pair, m):
    (k1, i1, n1), (k2, i2, n2) = m
    s1, s2 = slot(v, i1), slot(v, i2)
    if s1 is None or s2 is None or i1[s1] is not i2[s2] or not full_range(v, i1[s1]):
        return None
    o1, o2 = i1[1 - s1], i2[1 - s2]
    if k1 == k2 and s1 == s2:
        if n1 in ('orth', 'svdU', 'qrQ') and s1 == 0:
            return delta0(o1 - o2)
        if n1 == 'svdVh' and s1 == 1:
            return delta0(o1 - o2)
        if n1 == 'eigvec':
            return delta0(o1 - o2)
        lam = k1[1][0] if n1 in ('chol', 'inv') else None
        if n1 == 'chol' and s1 == 1:
            f = lam_fn(lam)
            return f(o1, o2) if f else None
        if n1 == 'inv':
            f = lam_fn(lam)
            if f is None:
                return None
            d = lam.dims[0]
            w = fresh(d)
            wa = only_atom(w)
            if s1 == 1:     # S S^T = inv(M^T M)
                g = Arr((d, d), lambda idx: sum_over(f(w, idx[0]) * f(w, idx[1]), wa))
            else:           # S^T S = inv(M M^T)
                g = Arr((d, d), lambda idx: sum_over(f(idx[0], w) * f(idx[1], w), wa))
            return app('inv', (), [lam_of(g)], (o1, o2))
    # inv(M) M = I
    for (ka, sa, oa, kb, sb, ob, na, nb, ib) in ((k1, s1, o1, k2, s2, o2, n1, n2, i2), (k2, s2, o2, k1, s1, o1, n2, n1, i1)):
        if na == 'inv' and nb == 'chol':
            lam = ka[1][0]
            f = lam_fn(lam)
            if f is None:
                continue
            w, x = fresh(lam.dims[0]), fresh(lam.dims[0])
            p = f(w, x)
            at = only_atom(p)
            if at is not None and at.k == 'a' and (at.d[0], at.d[2]) == kb:
                if at.d[3] == (w, x):
                    if sa == 1 and sb == 0 or sa == 0 and sb == 1:
                        return delta0(oa - ob)
                if at.d[3] == (x, w):
                    if sa == 1 and sb == 1 or sa == 0 and sb == 0:
                        return delta0(oa - ob)
    return None


def eig_rule(binders, fac, coef, v, hits):
    """sum_k V[i,k] w[k] V[j,k] -> A[i,j]."""
    vec = [(a, e) for a, e in hits if mat_of(a) and mat_of(a)[2] == 'eigvec']
    val = [(a, e) for a, e in hits if a.k == 'a' and a.d[0] == 'eigval']
    if len(val) != 1 or val[0][1] != 1 or len(vec) + 1 != len(hits) or sum(e for _, e in vec) != 2:
        return None
    pair = [vec[0][0], vec[-1][0]]
    lam = val[0][0].d[2]
    ms = [mat_of(a) for a in pair]
    if any(m[0] != ('eigvec', lam) for m in ms) or any(slot(v, m[1]) != 1 for m in ms):
        return None
    if ms[0][1][1] is not ms[1][1][1] or val[0][0].d[3][0] is not ms[0][1][1]:
        return None
    f = lam_fn(lam[0])
    if f is None:
        return None
    rest = [(a, e) for a, e in fac.items() if v not in a.fv]
    return T.build(tuple(b for b in binders if b is not v), rest + [(f(ms[0][1][0], ms[1][1][0]), Q(1))], coef)


T.CONTRACT.append(contract)


# ------------------------------------------------------------------ matrix functions
def content(body, vs):
    """body = c * rest with c free of the index variables vs."""
    if not body.t:
        return ONE, body
    lead = T._content(body)[0]
    common = None
    for t, _ in body.t:
        d = {a: e for a, e in t.f if a.fv.isdisjoint(t.b) and a.fv.isdisjoint(vs) and a.k not in 'dv'}
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
        if not common:
            break
    c = T.build((), list((common or {}).items()), lead)
    inv = T.build((), [(a, -e) for a, e in (common or {}).items()], 1 / lead)
    return c, body * inv


def scale_matrix(body, vs):
    """Split off a scalar so that c*M and M share a normal form: content, then the
    coefficient of the identity if there is one."""
    return content(body, vs)


def diag_of(body, vs):
    """If body == delta(i-j) * g(i): return g as a poly in i, else None."""
    i, j = vs
    d = only_atom(delta0(atom_poly(i) - atom_poly(j)))
    if d is None:
        return None
    g = []
    for t, c in body.t:
        f = dict(t.f)
        if f.get(d) != 1:
            return None
        del f[d]
        g.append(T.build(*_open(t, f), c))
    return subst(psum(g), {j: atom_poly(i)})


def _open(t, f):
    b, ff = T.open_term(t)
    out = []
    dropped = False
    for a, e in ff:
        if not dropped and a.k == 'd' and not (a.fv & set(b)) and a not in f:
            dropped = True
            continue
        out.append((a, e))
    return b, out


def symmetric(f, d):
    w, x = fresh(d), fresh(d)
    return T.equal(f(w, x), f(x, w))


_symcache = {}


def is_sym(lam):
    r = _symcache.get(lam)
    if r is None:
        f = lam_fn(lam)
        r = _symcache[lam] = bool(f) and symmetric(f, lam.dims[0])
    return r


def relam(lam, f):
    return mk_lam(lam.dims, [(vs, idx, f(vs, body)) for vs, idx, body in open_lam(lam)])


def inv_rule(par, lams, idx, dv):
    if dv:
        return None
    lam = lams[0]
    cs = open_lam(lam)
    if len(cs) != 1 or len(cs[0][0]) != 2:
        return None
    vs, _, body = cs[0]
    g = diag_of(body, vs)
    if g is not None:
        gi = subst(g, {vs[0]: idx[0]})
        return delta0(idx[0] - idx[1]) * (ONE / gi)
    c, rest = content(body, set(vs))
    if c is not ONE:
        return app('inv', par, [mk_lam(lam.dims, [(vs, (atom_poly(vs[0]), atom_poly(vs[1])), rest)])], idx) / c
    at = only_atom(rest)
    if at is not None and at.k == 'a' and at.d[0] == 'inv' and at.d[3] == (atom_poly(vs[0]), atom_poly(vs[1])):
        f = lam_fn(at.d[2][0])
        if f:
            return f(*idx)
    if is_sym(lam) and idx[0].id > idx[1].id:
        return atom_poly(T.mk_atom('a', 'inv', par, lams, (idx[1], idx[0]), dv))
    # inv of a transpose: canonical orientation
    return None


T.APP_RULES['inv'] = inv_rule


def chol_rule(par, lams, idx, dv):
    if dv:
        return None
    if T._nonneg(idx[1] - idx[0] - 1, 0) if T.is_int(idx[1] - idx[0]) else False:
        return ZERO
    lam = lams[0]
    cs = open_lam(lam)
    if len(cs) != 1 or len(cs[0][0]) != 2:
        return None
    vs, _, body = cs[0]
    g = diag_of(body, vs)
    if g is not None:
        return delta0(idx[0] - idx[1]) * sqrt(subst(g, {vs[0]: idx[0]}))
    c, rest = content(body, set(vs))
    if c is not ONE and T.pos_poly(c):
        return sqrt(c) * app('chol', par, [mk_lam(lam.dims, [(vs, (atom_poly(vs[0]), atom_poly(vs[1])), rest)])], idx)
    return None


T.APP_RULES['chol'] = chol_rule


def logdet_rule(par, lams, idx, dv):
    lam = lams[0]
    cs = open_lam(lam)
    if dv or len(cs) != 1 or len(cs[0][0]) != 2:
        return None
    vs, _, body = cs[0]
    n = lam.dims[0]
    g = diag_of(body, vs)
    if g is not None:
        return sum_over(fn('log', fn('abs', g)), vs[0])
    c, rest = content(body, set(vs))
    if c is not ONE:
        return n * fn('log', fn('abs', c)) + app('logdet', par, [mk_lam(lam.dims, [(vs, (atom_poly(vs[0]), atom_poly(vs[1])), rest)])], idx)
    return None


T.APP_RULES['logdet'] = logdet_rule


def eig_scale(name, power):
    """eigenvalues scale with the matrix; eigenvectors are invariant (positive scalars)."""
    def r(par, lams, idx, dv):
        lam = lams[0]
        cs = open_lam(lam)
        if dv or len(cs) != 1 or len(cs[0][0]) != 2:
            return None
        vs, _, body = cs[0]
        c, rest = content(body, set(vs))
        if c is not ONE and T.pos_poly(c):
            m = mk_lam(lam.dims, [(vs, (atom_poly(vs[0]), atom_poly(vs[1])), rest)])
            return (c if power else ONE) * app(name, par, [m], idx)
        return None
    return r


T.APP_RULES['eigval'] = eig_scale('eigval', 1)
T.APP_RULES['eigvec'] = eig_scale('eigvec', 0)


def sq(x, name):
    if x.ndim < 2:
        raise AbsRaise(ValueError, f'{name}: argument must be at least two-dimensional')
    if x.ndim > 2:
        raise Unmodelled(f'batched {name}')
    if x.axes[-1].dim is not x.axes[-2].dim:
        raise AbsRaise(ValueError, f'{name}: argument must be square, got {list(x.axes)}')
    return x


def plain(x):
    return x


@both('jnp.linalg.cholesky', 'jax.lax.linalg.cholesky', 'np.linalg.cholesky')
def _chol(it, a, k):
    x = sq(asarr(a[0]), 'cholesky')
    up = k.get('upper', False)
    r = app_arr('chol', [x], x.axes, (), 'float', x.tl)
    return transpose(r) if up else r


@both('jax.scipy.linalg.cholesky')
def _schol(it, a, k):
    x = sq(asarr(a[0]), 'cholesky')
    r = app_arr('chol', [x], x.axes, (), 'float', x.tl)
    return r if it.truth(k.get('lower', a[1] if len(a) > 1 else False)) else transpose(r)


def is_tri(x, lower):
    """Prove that x is lower (upper) triangular from its body."""
    D = x.axes[0].dim
    i, j = fresh(D), fresh(D)
    p = x.at(i, j)
    for t, _ in p.t:
        ok = False
        for a, e in t.f:
            if a.k == 'a' and a.d[0] == 'chol':
                r, c = a.d[3]
                # zero iff c - r >= 1; need: for lower, implied by j - i >= 1
                q = (c - r) - ((j - i) if lower else (i - j))
                if T.is_int(q) and T.nonneg(q):
                    ok = True
            if a.k == 'd' and only_atom(delta0(i - j)) is a:
                ok = True
            if a.k == 'v' and a.d[1] is ((i - j) if lower else (j - i)):
                ok = True
        if not ok:
            return False
    return True


def inverse(x):
    return app_arr('inv', [x], x.axes, (), 'float', x.tl)


@both('jax.scipy.linalg.solve_triangular')
def _st(it, a, k):
    x, b = sq(asarr(a[0]), 'solve_triangular'), asarr(a[1])
    trans = a[2] if len(a) > 2 else k.get('trans', 0)
    lower = it.truth(a[3] if len(a) > 3 else k.get('lower', False))
    if not is_tri(x, lower):
        if is_tri(x, not lower):
            x = L4._diag(it, [L4._diagonal(it, [x], {})], {})
        else:
            x = L4.tri(lower)(it, [x], {})
    if trans in (1, 'T', 2, 'C'):
        x = transpose(x)
    return matmul(inverse(x), b)


@both('jnp.linalg.inv', 'np.linalg.inv', 'jax.scipy.linalg.inv')
def _inv(it, a, k):
    return inverse(sq(asarr(a[0]), 'inv'))


@both('jnp.linalg.pinv')
def _pinv(it, a, k):
    x = asarr(a[0])
    return app_arr('pinv', [x], x.axes[::-1], (), 'float', x.tl)


@both('jnp.linalg.solve', 'jax.scipy.linalg.solve', 'np.linalg.solve')
def _solve(it, a, k):
    return matmul(inverse(sq(asarr(a[0]), 'solve')), a[1])


@both('jax.scipy.linalg.cho_factor')
def _chof(it, a, k):
    lower = it.truth(k.get('lower', a[1] if len(a) > 1 else False))
    return (_schol(it, [a[0], lower], {}), lower)


@both('jax.scipy.linalg.cho_solve')
def _chos(it, a, k):
    c, lower = a[0]
    m = matmul(c, transpose(c)) if lower else matmul(transpose(c), c)
    return matmul(inverse(m), a[1])


@both('jnp.linalg.slogdet', 'np.linalg.slogdet')
def _slog(it, a, k):
    x = sq(asarr(a[0]), 'slogdet')
    return NT('SlogdetResult', sign=app_arr('signdet', [x], (), (), 'float', x.tl), logabsdet=app_arr('logdet', [x], (), (), 'float', x.tl))


@both('jnp.linalg.det')
def _det(it, a, k):
    x = sq(asarr(a[0]), 'det')
    s, l = _slog(it, [x], {})
    return Arr((), lambda idx: s.at() * fn('exp', l.at()), 'float', x.tl)


def veil(it, x):
    """Forget the entries of a matrix (hook 'veil': only types and shapes matter)."""
    if not it.hooks.get('veil'):
        return x
    n = f'veil{next(T._fresh)}'
    return Arr(x.axes, lambda idx: app(n, (), [], idx), x.dtype, x.tl)


@both('jnp.linalg.eigh', 'np.linalg.eigh')
def _eigh(it, a, k):
    x = veil(it, sq(asarr(a[0]), 'eigh'))
    return NT('EighResult', eigenvalues=app_arr('eigval', [x], (x.axes[0],), (), L4.fl(x.dtype), x.tl), eigenvectors=app_arr('eigvec', [x], x.axes, (), L4.fl(x.dtype), x.tl))


@both('jnp.linalg.eigvalsh')
def _eigvalsh(it, a, k):
    x = veil(it, sq(asarr(a[0]), 'eigvalsh'))
    return app_arr('eigval', [x], (x.axes[0],), (), L4.fl(x.dtype), x.tl)


@both('jnp.linalg.svd')
def _svd(it, a, k):
    x = veil(it, asarr(a[0]))
    fm = it.truth(k.get('full_matrices', a[1] if len(a) > 1 else True))
    n, m = x.axes
    if n.dim is m.dim:
        r = n
    elif T.nonneg(n.dim - m.dim):
        r = m
    elif T.nonneg(m.dim - n.dim):
        r = n
    else:
        r = it.hooks.get('svd_rank', lambda *_: None)(n, m)
        if r is None:
            raise Unmodelled('svd of unknown aspect')
    s = app_arr('svdS', [x], (r,), (), L4.fl(x.dtype), x.tl)
    if not it.truth(k.get('compute_uv', True)):
        return s
    u = app_arr('svdU', [x], (n, n if fm else r), (), L4.fl(x.dtype), x.tl)
    vh = app_arr('svdVh', [x], (m if fm else r, m), (), L4.fl(x.dtype), x.tl)
    return NT('SVDResult', U=u, S=s, Vh=vh)


@both('jnp.linalg.qr')
def _qr(it, a, k):
    x = veil(it, asarr(a[0]))
    n, m = x.axes
    q = app_arr('qrQ', [x], (n, m), (), L4.fl(x.dtype), x.tl)
    r = app_arr('qrR', [x], (m, m), (), L4.fl(x.dtype), x.tl)
    return NT('QRResult', Q=q, R=r)


@both('jnp.linalg.norm', 'np.linalg.norm')
def _norm(it, a, k):
    x = asarr(a[0])
    o = a[1] if len(a) > 1 else k.get('ord')
    axis = a[2] if len(a) > 2 else k.get('axis')
    kd = it.truth(k.get('keepdims', False))
    if o is not None and not (o == 2 and (x.ndim == 1 or isinstance(axis, int))) and o != 'fro':
        if o == 1 and (x.ndim == 1 or isinstance(axis, int)):
            return reduce_sum(elementwise(lambda p: fn('abs', p), x), axis, kd)
        if o == float('inf') and (x.ndim == 1 or isinstance(axis, int)):
            return L4.reduce_opaque('max2', elementwise(lambda p: fn('abs', p), x), axis, kd)
        raise Unmodelled('norm order')
    s = reduce_sum(elementwise(lambda p: p * p, x), axis, kd)
    return Arr(s.axes, lambda idx: sqrt(s.at(*idx)), L4.fl(s.dtype), s.tl)


@both('jnp.linalg.multi_dot')
def _mdot(it, a, k):
    xs = [asarr(x) for x in it.iterate(a[0])]
    r = xs[-1]
    for x in xs[-2::-1]:
        r = matmul(x, r)
    return r


@both('jnp.linalg.matrix_transpose')
def _mt(it, a, k):
    return transpose(a[0])


# ------------------------------------------------------------------ jax.nn / jax.scipy
def softmax(x, axis, log=False):
    axis = norm_axis(axis, x.ndim)
    s = reduce_sum(elementwise(lambda p: fn('exp', p), x), axis, True)
    if log:
        return elementwise(lambda p, q: p - fn('log', q), x, s)
    return elementwise(lambda p, q: fn('exp', p) / q, x, s)


@both('jax.nn.softmax', 'jax.scipy.special.softmax')
def _softmax(it, a, k):
    return softmax(asarr(a[0]), a[1] if len(a) > 1 else k.get('axis', -1))


@both('jax.nn.log_softmax')
def _lsoftmax(it, a, k):
    return softmax(asarr(a[0]), a[1] if len(a) > 1 else k.get('axis', -1), True)


@both('jax.nn.logsumexp', 'jax.scipy.special.logsumexp')
def _lse(it, a, k):
    s = reduce_sum(elementwise(lambda p: fn('exp', p), asarr(a[0])), a[1] if len(a) > 1 else k.get('axis'), it.truth(k.get('keepdims', False)))
    return Arr(s.axes, lambda idx: fn('log', s.at(*idx)), s.dtype, s.tl)


def e1(names, f):
    both(*names)(lambda it, a, k: elementwise(f, *[asarr(x) for x in a], dtype='float' if all(asarr(x).dtype in ('int', 'bool') for x in a) else None))


SIG = lambda x: ONE / (ONE + fn('exp', -x))
e1(['jax.nn.sigmoid', 'jax.scipy.special.expit', 'jax.lax.logistic'], SIG)
e1(['jax.nn.log_sigmoid'], lambda x: -fn('log', ONE + fn('exp', -x)))
e1(['jax.nn.softplus'], lambda x: fn('log', ONE + fn('exp', x)))
e1(['jax.nn.relu'], lambda x: fn('max2', x, ZERO))
e1(['jax.nn.tanh'], lambda x: fn('tanh', x))
e1(['jax.scipy.special.xlogy'], lambda x, y: x * fn('log', y))
e1(['jax.scipy.special.logit'], lambda x: fn('log', x) - fn('log', ONE - x))
e1(['jax.scipy.special.erf', 'jax.lax.erf'], lambda x: fn('ndtr', x * sqrt(const(2))) * 2 - 1)
e1(['jax.scipy.special.ndtr'], lambda x: fn('ndtr', x))
e1(['jax.lax.square', 'jnp.square_'], lambda x: x * x)
e1(['jax.lax.rsqrt'], lambda x: ONE / sqrt(x))


@both('jax.nn.one_hot')
def _onehot(it, a, k):
    x = asarr(a[0])
    n = todim(a[1] if len(a) > 1 else k['num_classes'])
    d = L4.dtype_of(k['dtype']) if 'dtype' in k else 'float'
    return Arr(x.axes + (ax(n),), lambda idx: delta_real(x.at(*idx[:-1]) - idx[-1]), d, x.tl)


def normstd(it, a, k):
    x = asarr(a[0])
    loc = asarr(a[1] if len(a) > 1 else k.get('loc', 0))
    sc = asarr(a[2] if len(a) > 2 else k.get('scale', 1))
    return x, loc, sc


LOG2PI = fn('log', const(2)) + fn('log', PI)


@both('jax.scipy.stats.norm.pdf')
def _npdf(it, a, k):
    return elementwise(lambda x, m, s: fn('exp', -((x - m) / s) ** 2 / 2) / sqrt(PI * 2) / s, *normstd(it, a, k), dtype='float')


@both('jax.scipy.stats.norm.logpdf')
def _nlpdf(it, a, k):
    return elementwise(lambda x, m, s: -((x - m) / s) ** 2 / 2 - LOG2PI / 2 - fn('log', s), *normstd(it, a, k), dtype='float')


@both('jax.scipy.stats.norm.cdf')
def _ncdf(it, a, k):
    return elementwise(lambda x, m, s: fn('ndtr', (x - m) / s), *normstd(it, a, k), dtype='float')


@both('jax.scipy.linalg.block_diag')
def _bd(it, a, k):
    raise Unmodelled('block_diag')


@reg('jax.lax.dot')
def _laxdot(it, a, k):
    return L4.matmul(asarr(a[0]), asarr(a[1])) if min(asarr(a[0]).ndim, asarr(a[1]).ndim) == 2 else L4.dot(asarr(a[0]), asarr(a[1]))
