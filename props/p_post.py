"""C01 posterior precision, C02 scale/covariance consistency."""
from .common import *
from .p_tree import lin_map, tree_lin, coef, two_tree

COV = 'laplax.curv.cov.'
TAU, S2, ELL = sym('tau', 'pos'), sym('s2', 'pos'), sym('ell', 'pos')


def pf(name):
    return scalar(sym(name, 'pos'), 'float', 0, 'float')


PRIOR = lambda: {'prior_prec': pf('tau'), 'sigma_squared': pf('s2')}
KINDS = ('full', 'diagonal', 'lanczos', 'lobpcg')


def kind(c, k):
    return c.it.getattr(c.get('laplax.enums.CurvApprox'), k.upper())


def estimate(c, k, n=Pn, r=R):
    """An arbitrary curvature estimate of the form produced by each approximation."""
    if k == 'full':
        return opaque('H', n, n, props=('sym',))
    if k == 'diagonal':
        return opaque('h', n, props=('pos',))
    U = opaque('U', n, r, props=('orth',))
    return c.call('laplax.curv.utils.LowRankTerms', U=U, S=opaque('S', r, props=('pos',)),
                  scalar=asarr(S('junk')))


def prec_entry(k, tau, s2, ell, n=Pn, r=R):
    """(s2 * curvature + tau * I) / ell as an index function."""
    if k == 'full':
        return lambda i, j: (s2 * elem('H', (i, j)) + tau * delta0(i - j)) / ell
    if k == 'diagonal':
        return lambda i, j: delta0(i - j) * (s2 * elem('h', (i,)) + tau) / ell

    def low(i, j):
        w = fresh(r)
        return (s2 * esum(elem('U', (i, w)) * elem('S', (w,)) * elem('U', (j, w)), w) + tau * delta0(i - j)) / ell
    return low


def precision(c, k, est, *a, **kw):
    """Dense entries of the precision returned by the registry."""
    f = c.get(COV + 'CURVATURE_PRECISION_METHODS')[kind(c, k)]
    p = c.call(f, est, *a, **kw)
    if k == 'full':
        return p, lambda i, j: p.at(i, j)
    if k == 'diagonal':
        return p, lambda i, j: delta0(i - j) * p.at(i)
    U, s, sc = (asarr(c.it.getattr(p, x)) for x in ('U', 'S', 'scalar'))
    c.ok(U.ndim == 2 and s.ndim == 1 and sc.ndim == 0, f'{k} precision has components of rank 2, 1, 0')

    def ent(i, j):
        w = fresh(s.axes[0].dim)
        return esum(U.at(i, w) * s.at(w) * U.at(j, w), w) + sc.at() * delta0(i - j)
    return p, ent


def prec_ob(k):
    @ob('C01', f'precision-{k}', COV + 'CURVATURE_PRECISION_METHODS', 'precision = (sigma_squared * curvature + prior_prec * I) / loss_scaling_factor')
    def _(c):
        i, j = fresh(Pn), fresh(Pn)
        _, ent = precision(c, k, estimate(c, k), PRIOR(), pf('ell'))
        c.same(ent(i, j), prec_entry(k, TAU, S2, ELL)(i, j), 'precision[i,j]')

    @ob('C01', f'precision-defaults-{k}', COV + 'CURVATURE_PRECISION_METHODS', 'sigma_squared and loss_scaling_factor default to one')
    def _(c):
        i, j = fresh(Pn), fresh(Pn)
        _, ent = precision(c, k, estimate(c, k), {'prior_prec': pf('tau')})
        c.same(ent(i, j), prec_entry(k, TAU, ONE, ONE)(i, j), 'precision[i,j]')

    @ob('C01', f'precision-missing-prior-{k}', COV + 'CURVATURE_PRECISION_METHODS', 'prior arguments without prior_prec are rejected')
    def _(c):
        c.raises(lambda: precision(c, k, estimate(c, k), {'sigma_squared': pf('s2')}), KeyError, what='precision without prior_prec')


for k_ in KINDS:
    prec_ob(k_)


def column(n, j):
    """The j-th basis vector."""
    return Arr((n,), lambda i: delta0(i[0] - j))


def mat_of(c, mv, n=Pn):
    """Entry function of a linear operator, by its action on basis vectors."""
    j = fresh(n)
    col = c.call(mv, column(n, j))
    c.ok(isinstance(col, Arr) and col.ndim == 1 and T.equal(col.axes[0].dim, P(n)), 'the operator returns a vector of the parameter size')
    ja = only_atom(j)
    return lambda a, b: subst(col.at(a), {ja: b})


def posterior(c, k, n=Pn, layout='int', ell=True, est=None):
    est = estimate(c, k, n) if est is None else est
    lay = py(n) if layout == 'int' else layout
    fn_ = c.call(COV + 'set_posterior_fn', kind(c, k), est, layout=lay)
    return c.call(fn_, PRIOR(), pf('ell')) if ell else c.call(fn_, PRIOR())


def post_ob(k):
    @ob('C01', f'posterior-cov-{k}', COV + 'set_posterior_fn', 'posterior covariance applied to the precision is the identity')
    def _(c):
        po = posterior(c, k)
        mv = c.call(c.it.getattr(po, 'cov_mv'), c.it.getattr(po, 'state'))
        pe = prec_entry(k, TAU, S2, ELL)
        i, j = fresh(Pn), fresh(Pn)
        got = c.call(mv, column(Pn, j)).at(i)
        if k == 'full':
            want = app('inv', (), [lam_of(Arr((Pn, Pn), lambda q: pe(*q)))], (i, j))
        elif k == 'diagonal':
            want = delta0(i - j) * ELL / (S2 * elem('h', (i,)) + TAU)
        else:       # Woodbury for orthonormal U
            w = fresh(R)
            s = elem('S', (w,))
            want = delta0(i - j) * ELL / TAU + esum(elem('U', (i, w)) * elem('U', (j, w)) * (ELL / (S2 * s + TAU) - ELL / TAU), w)
        c.same(got, want, 'covariance[i,j]')

    @ob('C02', f'scale-squares-to-cov-{k}', COV + 'set_posterior_fn', 'S S^T = covariance, entry by entry')
    def _(c):
        po = posterior(c, k)
        st = c.it.getattr(po, 'state')
        cm = mat_of(c, c.call(c.it.getattr(po, 'cov_mv'), st))
        sm = mat_of(c, c.call(c.it.getattr(po, 'scale_mv'), st))
        i, j, w = fresh(Pn), fresh(Pn), fresh(Pn)
        c.same(esum(sm(i, w) * sm(j, w), w), cm(i, j), '(S S^T)[i,j] = cov[i,j]')

    @ob('C02', f'operators-linear-{k}', COV + 'set_posterior_fn', 'scale and covariance act linearly: mv(v)[i] = sum_j M[i,j] v_j')
    def _(c):
        po = posterior(c, k)
        st = c.it.getattr(po, 'state')
        v = opaque('v', Pn)
        for what in ('cov_mv', 'scale_mv'):
            mv = c.call(c.it.getattr(po, what), st)
            m = mat_of(c, mv)
            i, w = fresh(Pn), fresh(Pn)
            c.same(c.call(mv, v).at(i), esum(m(i, w) * v.at(w), w), what)

    @ob('C02', f'state-free-{k}', COV + 'set_posterior_fn', 'operators are functions of the state passed to them, not of the state they were built with')
    def _(c):
        p1 = posterior(c, k)
        est2 = estimate(c, k)
        fn2 = c.call(COV + 'set_posterior_fn', kind(c, k), est2, layout=py(Pn))
        p2 = c.call(fn2, {'prior_prec': pf('tau2'), 'sigma_squared': pf('s3')})
        v = opaque('v', Pn)
        for what in ('cov_mv', 'scale_mv'):
            a = c.call(c.call(c.it.getattr(p1, what), c.it.getattr(p2, 'state')), v)
            b = c.call(c.call(c.it.getattr(p2, what), c.it.getattr(p2, 'state')), v)
            c.eq(a, b, what)

    @ob('C02', f'posterior-tree-{k}', COV + 'set_posterior_fn', 'with a tree layout the operators act on trees through the flattening order')
    def _(c):
        lay = {'a': opaque('la', Pn)}
        est = estimate(c, k)
        p1 = posterior(c, k, layout=lay, est=est)
        p2 = posterior(c, k, est=est)
        v = opaque('v', Pn)
        for what in ('cov_mv', 'scale_mv'):
            t = c.call(c.call(c.it.getattr(p1, what), c.it.getattr(p1, 'state')), {'a': v})
            f = c.call(c.call(c.it.getattr(p2, what), c.it.getattr(p2, 'state')), v)
            c.eq(t, {'a': f}, what)

    @ob('C02', f'posterior-no-layout-{k}', COV + 'set_posterior_fn', 'layout=None means flat vectors')
    def _(c):
        est = estimate(c, k)
        p1 = posterior(c, k, layout=None, est=est)
        p2 = posterior(c, k, est=est)
        v = opaque('v', Pn)
        for what in ('cov_mv', 'scale_mv'):
            c.eq(c.call(c.call(c.it.getattr(p1, what), c.it.getattr(p1, 'state')), v),
                 c.call(c.call(c.it.getattr(p2, what), c.it.getattr(p2, 'state')), v), what)

    @ob('C01', f'posterior-repeat-{k}', COV + 'set_posterior_fn', 'one posterior_fn evaluated for several prior arguments: each posterior uses its own arguments')
    def _(c):
        est = estimate(c, k)
        f = c.call(COV + 'set_posterior_fn', kind(c, k), est, layout=py(Pn))
        p1 = c.call(f, {'prior_prec': pf('tau'), 'sigma_squared': pf('s2')}, pf('ell'))
        c.call(f, {'prior_prec': pf('tau2')}, pf('ell2'))
        p3 = c.call(f, {'prior_prec': pf('tau'), 'sigma_squared': pf('s2')}, pf('ell'))
        v = opaque('v', Pn)
        a = c.call(c.call(c.it.getattr(p1, 'cov_mv'), c.it.getattr(p1, 'state')), v)
        b = c.call(c.call(c.it.getattr(p3, 'cov_mv'), c.it.getattr(p3, 'state')), v)
        c.eq(a, b, 'cov_mv')


for k_ in KINDS:
    post_ob(k_)


@ob('C02', 'posterior-tree-order', COV + 'set_posterior_fn', 'diagonal posterior over a multi-leaf tree: leaf entries use their own flat position')
def _(c):
    t, leaves, flat = two_tree()
    h = opaque('h', flat, props=('pos',))
    f = c.call(COV + 'set_posterior_fn', kind(c, 'diagonal'), h, layout=t)
    po = c.call(f, PRIOR(), pf('ell'))
    v = {'a': opaque('va', A1, A2), 'b': opaque('vb', B)}
    for what, e in (('cov_mv', ONE), ('scale_mv', None)):
        got = c.call(c.call(c.it.getattr(po, what), c.it.getattr(po, 'state')), v)
        def val(pos, x):
            r = ELL / (S2 * h.at(pos) + TAU)
            return (r if e is not None else sqrt(r)) * x
        c.eq(got, {'a': Arr((A1, A2), lambda i: val(i[0] * A2 + i[1], v['a'].at(*i))),
                   'b': Arr((B,), lambda i: val(A1 * A2 + i[0], v['b'].at(*i)))}, what)


@ob('C01', 'estimate-full-int', COV + 'estimate_curvature', 'the full estimate is the matrix of the operator')
def _(c):
    got = c.call(COV + 'estimate_curvature', kind(c, 'full'), lin_map(Pn), layout=py(Pn))
    c.eq(got, opaque('M', Pn, Pn), 'full curvature')


@ob('C01', 'estimate-full-tree', COV + 'estimate_curvature', 'the full estimate of a tree operator is its matrix in flattening order')
def _(c):
    t, leaves, flat = two_tree()
    got = c.call(COV + 'estimate_curvature', kind(c, 'full'), tree_lin(), layout=t)
    i1, i2, j1, j2, k1, l1 = fresh(A1), fresh(A2), fresh(A1), fresh(A2), fresh(B), fresh(B)
    off = A1 * A2
    c.ok(isinstance(got, Arr) and got.ndim == 2, 'the full curvature is a matrix')
    c.same(got.at(i1 * A2 + i2, j1 * A2 + j2), coef('M', 'a', (i1, i2), 'a', (j1, j2)), 'block aa')
    c.same(got.at(i1 * A2 + i2, off + k1), coef('M', 'a', (i1, i2), 'b', (k1,)), 'block ab')
    c.same(got.at(off + k1, j1 * A2 + j2), coef('M', 'b', (k1,), 'a', (j1, j2)), 'block ba')
    c.same(got.at(off + k1, off + l1), coef('M', 'b', (k1,), 'b', (l1,)), 'block bb')


@ob('C01', 'estimate-diagonal', COV + 'estimate_curvature', 'the diagonal estimate is the diagonal of the operator, flat or tree')
def _(c):
    got = c.call(COV + 'estimate_curvature', kind(c, 'diagonal'), lin_map(Pn), layout=py(Pn))
    c.eq(got, Arr((Pn,), lambda i: elem('M', (i[0], i[0]))), 'diagonal curvature')
    t, leaves, flat = two_tree()
    got = c.call(COV + 'estimate_curvature', kind(c, 'diagonal'), tree_lin('Q'), layout=t)
    i1, i2, k1 = fresh(A1), fresh(A2), fresh(B)
    c.same(got.at(i1 * A2 + i2), coef('Q', 'a', (i1, i2), 'a', (i1, i2)), 'leaf a')
    c.same(got.at(A1 * A2 + k1), coef('Q', 'b', (k1,), 'b', (k1,)), 'leaf b')


def create_ob(k):
    @ob('C01', f'create-posterior-{k}', COV + 'create_posterior_fn', 'estimating and setting the posterior in one call equals doing both in sequence')
    def _(c):
        f = c.call(COV + 'create_posterior_fn', kind(c, k), lin_map(Pn), layout=py(Pn))
        po = c.call(f, PRIOR(), pf('ell'))
        est = opaque('M', Pn, Pn) if k == 'full' else Arr((Pn,), lambda i: elem('M', (i[0], i[0])))
        f2 = c.call(COV + 'set_posterior_fn', kind(c, k), est, layout=py(Pn))
        p2 = c.call(f2, PRIOR(), pf('ell'))
        v = opaque('v', Pn)
        for what in ('cov_mv', 'scale_mv'):
            c.eq(c.call(c.call(c.it.getattr(po, what), c.it.getattr(po, 'state')), v),
                 c.call(c.call(c.it.getattr(p2, what), c.it.getattr(p2, 'state')), v), what)


create_ob('full')
create_ob('diagonal')


@ob('C02', 'prec-to-scale', 'laplax.curv.full.full_prec_to_scale', 'scale scale^T = precision^-1 for every positive definite precision')
def _(c):
    H = opaque('H', Pn, Pn, props=('sym',))
    s = c.call('laplax.curv.full.full_prec_to_scale', H)
    i, j, w = fresh(Pn), fresh(Pn), fresh(Pn)
    c.same(esum(s.at(i, w) * s.at(j, w), w), app('inv', (), [lam_of(H)], (i, j)), 'scale scale^T')


@ob('C02', 'low-rank-mv', 'laplax.curv.low_rank.create_low_rank_mv', 'low-rank terms act as U diag(S) U^T + scalar I')
def _(c):
    U, s, v = opaque('U', Pn, R), opaque('S', R), opaque('v', Pn)
    t = c.call('laplax.curv.utils.LowRankTerms', U=U, S=s, scalar=asarr(S('alpha')))
    i, r, w = fresh(Pn), fresh(R), fresh(Pn)
    got = c.call(c.call('laplax.curv.low_rank.create_low_rank_mv', t), v)
    c.same(got.at(i), sym('alpha') * v.at(i) + esum(U.at(i, r) * s.at(r) * esum(U.at(w, r) * v.at(w), w), r), 'low-rank product')


@ob('C02', 'low-rank-square', 'laplax.curv.low_rank.low_rank_square', 'the square of U diag(S) U^T + scalar I for orthonormal U')
def _(c):
    U = opaque('U', Pn, R, props=('orth',))
    s = opaque('S', R)
    t = c.call('laplax.curv.utils.LowRankTerms', U=U, S=s, scalar=asarr(S('alpha')))
    m = c.call('laplax.curv.low_rank.create_low_rank_mv', t)
    sq = c.call('laplax.curv.low_rank.create_low_rank_mv', c.call('laplax.curv.low_rank.low_rank_square', t))
    v = opaque('v', Pn)
    i = fresh(Pn)
    c.same(c.call(sq, v).at(i), c.call(m, c.call(m, v)).at(i), 'square')
