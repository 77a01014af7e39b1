"""C03 GGN, C04 loss-Hessian products, C05 Hessian, C06 sample scaling."""
from .common import *

GGN = 'laplax.curv.ggn.create_ggn_mv'
GGN0 = 'laplax.curv.ggn.create_ggn_mv_without_data'
HESS = 'laplax.curv.hessian.create_hessian_mv'
HESS0 = 'laplax.curv.hessian.create_hessian_mv_without_data'
LHM = 'laplax.curv.ggn.create_loss_hessian_mv'
LOSSES = ('mse', 'cross_entropy', 'binary_cross_entropy', 'none')


def lossfn(c, name):
    """The enum member (the string forms are covered by C10)."""
    return c.it.getattr(c.get('laplax.enums.LossFn'), name.upper())


# ---- reference loss Hessians as index functions H(pred)(c, c')
def softmax_at(f, c, n=C):
    w = fresh(n)
    return fn('exp', f(c)) / esum(fn('exp', f(w)), w)


def sig(z):
    return ONE / (ONE + fn('exp', -z))


def loss_hessian(loss, f, n=C, y=None, name='L'):
    if loss == 'mse':
        return lambda a, b: delta0(a - b) * 2
    if loss == 'cross_entropy':
        return lambda a, b: delta0(a - b) * softmax_at(f, a, n) - softmax_at(f, a, n) * softmax_at(f, b, n)
    if loss == 'binary_cross_entropy':
        return lambda a, b: delta0(a - b) * sig(f(a)) * (ONE - sig(f(a)))
    if loss == 'none':
        return lambda a, b: delta0(a - b)
    if loss == 'custom':
        fl = Arr((n,), lambda i: f(i[0]))
        yl = Arr((n,), lambda i: y(i[0]))
        return lambda a, b: app(name, (), [lam_of(fl), lam_of(yl)], (), ((0, (a,)), (0, (b,))))
    raise KeyError(loss)


def custom_loss(name='L'):
    PROPS[name] = {'smooth'}
    return Builtin(name, lambda it, a, k: app_arr(name, [a[0], a[1]], ()))


def ggn_reference(params, vec, d, loss, factor, nsamp=N):
    """factor * sum_n J^T H J v, per parameter leaf."""
    out = {}
    for key in params:
        def body(idx, key=key):
            n, a, b = fresh(nsamp), fresh(C), fresh(C)
            x = row(d['input'], n)
            y = row(d['target'], n)
            h = loss_hessian(loss, lambda q: fval(x, params, q), C, lambda q: y.at(q))
            t = jac(x, params, a, key, idx) * h(a, b) * jvp_at(x, params, vec, b)
            return factor * esum(t, a, b, n)
        out[key] = Arr(params[key].axes, body)
    return out


def ggn_ob(loss):
    @ob('C03', f'ggn-{loss}', GGN, 'GGN matvec normal form equals (num_total/num_curv) * sum_n J^T H J v')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        mv = c.call(GGN, make_model(), params, d, loss_fn=lossfn(c, loss),
                    num_total_samples=py(T_), num_curv_samples=py(K_))
        c.eq(c.call(mv, vec), ggn_reference(params, vec, d, loss, T_ / K_), 'GGN@v')


for l_ in LOSSES:
    ggn_ob(l_)


@ob('C03', 'ggn-custom', GGN, 'custom loss: H is the Hessian of the callable w.r.t. the prediction')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    mv = c.call(GGN, make_model(), params, d, loss_fn=custom_loss(), num_total_samples=py(T_), num_curv_samples=py(K_))
    c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'custom', T_ / K_), 'GGN@v')


@ob('C03', 'ggn-user-hessian', GGN, 'a user supplied loss_hessian_mv is used per sample with pred/target of that sample')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    H = Builtin('H', lambda it, a, k: H_user(it, a, k))

    def H_user(it, a, k):
        v = dict(zip(['jv', 'pred', 'target'], a))
        v.update(k)
        p, y, jv = v['pred'], v['target'], v['jv']
        m = lambda i, j: app('UH', (), [lam_of(p), lam_of(y)], (i, j))
        w = fresh(C)
        return Arr(jv.axes, lambda i: esum(m(i[0], w) * jv.at(w), w), 'float', jv.tl)
    mv = c.call(GGN, make_model(), params, d, loss_hessian_mv=H, num_total_samples=py(T_), num_curv_samples=py(K_))
    got = c.call(mv, vec)
    want = {}
    for key in params:
        def body(idx, key=key):
            n, a, b = fresh(N), fresh(C), fresh(C)
            x, y = row(d['input'], n), row(d['target'], n)
            f = Arr((C,), lambda i: fval(x, params, i[0]))
            t = jac(x, params, a, key, idx) * app('UH', (), [lam_of(f), lam_of(y)], (a, b)) * jvp_at(x, params, vec, b)
            return T_ / K_ * esum(t, a, b, n)
        want[key] = Arr(params[key].axes, body)
    c.eq(got, want, 'GGN@v')


def ggn_nodata_ob(loss, vmapped):
    @ob('C03', f'ggn-nodata-{loss}-{"batch" if vmapped else "single"}', GGN0,
        'data-free GGN matvec normal form equals factor * sum_n J^T H J v')
    def _(c):
        params, vec = tree(), tree('v')
        s = S('factor')
        if vmapped:
            d = data()
            mv = c.call(GGN0, make_model(), params, lossfn(c, loss), s, vmap_over_data=True)
            c.eq(c.call(mv, vec, d), ggn_reference(params, vec, d, loss, sym('factor')), 'GGN@v')
        else:
            d = {'input': opaque('x1', I_), 'target': opaque('y1', C)}
            mv = c.call(GGN0, make_model(), params, lossfn(c, loss), s, vmap_over_data=False)
            want = {}
            for key in params:
                def body(idx, key=key):
                    a, b = fresh(C), fresh(C)
                    h = loss_hessian(loss, lambda q: fval(d['input'], params, q))
                    return sym('factor') * esum(jac(d['input'], params, a, key, idx) * h(a, b) * jvp_at(d['input'], params, vec, b), a, b)
                want[key] = Arr(params[key].axes, body)
            c.eq(c.call(mv, vec, d), want, 'GGN@v')


for l_ in LOSSES:
    for vm_ in (True, False):
        ggn_nodata_ob(l_, vm_)


@ob('C03', 'ggn-loss-args', GGN, 'loss_fn and loss_hessian_mv: exactly one must be given, otherwise ValueError')
def _(c):
    params, d = tree(), data()
    h = Builtin('H', lambda it, a, k: a[0])
    c.raises(lambda: c.call(GGN, make_model(), params, d), ValueError, what='neither loss_fn nor loss_hessian_mv')
    c.raises(lambda: c.call(GGN, make_model(), params, d, loss_fn=lossfn(c, 'mse'), loss_hessian_mv=h), ValueError,
             what='both loss_fn and loss_hessian_mv')


@ob('C03', 'ggn-multiple-applications', GGN, 'the matvec is a pure function of its vector: a second application is unaffected by the first')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    w = tree('w')
    mv = c.call(GGN, make_model(), params, d, loss_fn=lossfn(c, 'cross_entropy'), num_total_samples=py(T_), num_curv_samples=py(K_))
    c.call(mv, w)
    c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'cross_entropy', T_ / K_), 'GGN@v')


# ---------------------------------------------------------------- C04
def lh_ob(loss):
    @ob('C04', f'loss-hessian-{loss}', LHM, 'loss-Hessian product equals H(pred) @ v for every prediction, target and vector')
    def _(c):
        f = c.call(LHM, custom_loss() if loss == 'custom' else lossfn(c, loss))
        p, y, v = opaque('p', C), opaque('y', C), opaque('jv', C)
        h = loss_hessian(loss, lambda q: p.at(q), C, lambda q: y.at(q))
        w = fresh(C)
        want = Arr((C,), lambda i: esum(h(i[0], w) * v.at(w), w))
        c.eq(c.call(f, v, pred=p, target=y), want, f'H@v ({loss})')


for l_ in LOSSES + ('custom',):
    lh_ob(l_)


@ob('C04', 'loss-hessian-string', LHM, 'the string value of each LossFn selects the same product as the member')
def _(c):
    for loss in LOSSES:
        f = c.call(LHM, loss)
        p, y, v = opaque('p', C), opaque('y', C), opaque('jv', C)
        h = loss_hessian(loss, lambda q: p.at(q), C, lambda q: y.at(q))
        w = fresh(C)
        c.eq(c.call(f, v, pred=p, target=y), Arr((C,), lambda i: esum(h(i[0], w) * v.at(w), w)), f'H@v ({loss})')


@ob('C04', 'loss-hessian-missing', LHM, 'loss_fn=None and unknown names raise ValueError instead of returning a product')
def _(c):
    c.raises(lambda: c.call(LHM, None), ValueError, what='create_loss_hessian_mv(None)')
    c.raises(lambda: c.call(LHM, 'no_such_loss'), ValueError, what="create_loss_hessian_mv('no_such_loss')")


@ob('C04', 'loss-hessian-integer-targets', LHM, 'cross-entropy / binary cross-entropy products do not depend on the targets')
def _(c):
    for loss in ('cross_entropy', 'binary_cross_entropy', 'mse'):
        f = c.call(LHM, lossfn(c, loss))
        p, v = opaque('p', C), opaque('jv', C)
        r1 = c.call(f, v, pred=p, target=opaque('yi', dtype='int'))
        h = loss_hessian(loss, lambda q: p.at(q))
        w = fresh(C)
        c.eq(r1, Arr((C,), lambda i: esum(h(i[0], w) * v.at(w), w)), f'H@v ({loss})')


# ---------------------------------------------------------------- C05
def loss_value(loss, f, y, n=C, name='L'):
    """Sum-reduced per-sample loss whose Hessian create_loss_hessian_mv reports."""
    w = fresh(n)
    if loss == 'mse':
        return esum((f(w) - y(w)) ** 2, w)
    if loss == 'custom':
        return app(name, (), [lam_of(Arr((n,), lambda i: f(i[0]))), lam_of(Arr((n,), lambda i: y(i[0])))], ())
    if loss == 'cross_entropy':
        r = fresh(n)
        z = fn('log', esum(fn('exp', f(r)), r))
        return esum(y(w) * (z - f(w)), w)
    if loss == 'binary_cross_entropy':
        ls = lambda x: fn('log', ONE + fn('exp', -x))     # -log sigmoid
        return esum(y(w) * ls(f(w)) + (ONE - y(w)) * ls(-f(w)), w)
    raise KeyError(loss)


def batch_loss(loss, p, d, factor):
    """Loss of a batch: summed over samples; a custom callable sees the batch."""
    if loss == 'custom':
        f = Arr((N, C), lambda i: fval(row(d['input'], i[0]), p, i[1]))
        return factor * app('L', (), [lam_of(f), lam_of(d['target'])], ())
    n = fresh(N)
    x, y = row(d['input'], n), row(d['target'], n)
    return factor * esum(loss_value(loss, lambda q: fval(x, p, q), lambda q: y.at(q)), n)


def second_derivative(params, vec, value):
    """value(params_tree) -> poly; returns tree of sum_j d2 value/dp_i dp_j v_j via perturbation."""
    t1 = {}
    for k in params:
        t1[k] = vec[k]
    names = {k: 'a' if k == 'a' else 'b' for k in params}
    p = value(params)
    d1 = deriv(p, {names[k]: (lambda idx, k=k: vec[k].at(*idx)) for k in params})
    out = {}
    for k in params:
        def body(idx, k=k):
            def seed(ii):
                r = ONE
                for u, v in zip(ii, idx):
                    r = r * delta0(u - v)
                return r
            return deriv(d1, {names[k]: seed})
        out[k] = Arr(params[k].axes, body)
    return out


def hess_ob(loss):
    @ob('C05', f'hessian-{loss}', HESS, 'Hessian matvec normal form equals (num_total/num_curv) * sum_n d2 loss / d params^2 @ v')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        lf = custom_loss() if loss == 'custom' else lossfn(c, loss)
        mv = c.call(HESS, make_model(), params, d, lf, num_total_samples=py(T_), num_curv_samples=py(K_))
        c.eq(c.call(mv, vec), second_derivative(params, vec, lambda p: batch_loss(loss, p, d, T_ / K_)), 'H@v')


for l_ in ('mse', 'custom', 'cross_entropy', 'binary_cross_entropy'):
    hess_ob(l_)


@ob('C05', 'hvp', 'laplax.curv.hessian.hvp', 'hvp(func, p, v) is the Hessian of func at p times v')
def _(c):
    params, vec = tree(), tree('v')
    PROPS['g'] = {'smooth'}
    g = Builtin('g', lambda it, a, k: app_arr('g', [a[0]['a'], a[0]['b']], ()))
    got = c.call('laplax.curv.hessian.hvp', g, params, vec)
    c.eq(got, second_derivative(params, vec, lambda p: app('g', (), [lam_of(p['a']), lam_of(p['b'])], ())), 'hvp')


def hess_single_ob(loss):
    @ob('C05', f'hessian-nodata-{loss}-single', HESS0, 'vmap_over_data=False: Hessian of the loss of the single sample')
    def _(c):
        params, vec = tree(), tree('v')
        lf = custom_loss() if loss == 'custom' else lossfn(c, loss)
        d = {'input': opaque('x1', I_), 'target': opaque('y1', C)}
        mv = c.call(HESS0, make_model(), params, lf, S('factor'), vmap_over_data=False)
        c.eq(c.call(mv, vec, d), second_derivative(
            params, vec, lambda p: sym('factor') * loss_value(loss, lambda q: fval(d['input'], p, q), lambda q: d['target'].at(q))), 'H@v')


for l_ in ('mse', 'custom', 'cross_entropy', 'binary_cross_entropy'):
    hess_single_ob(l_)


def hess_nodata_ob(loss):
    @ob('C05', f'hessian-nodata-{loss}', HESS0, 'data-free Hessian matvec = factor * sum over the batch')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        lf = custom_loss() if loss == 'custom' else lossfn(c, loss)
        mv = c.call(HESS0, make_model(), params, lf, S('factor'), vmap_over_data=True)
        c.eq(c.call(mv, vec, d), second_derivative(params, vec, lambda p: batch_loss(loss, p, d, sym('factor'))), 'H@v')


for l_ in ('mse', 'custom', 'cross_entropy', 'binary_cross_entropy'):
    hess_nodata_ob(l_)


@ob('C05', 'hessian-cross_entropy-labels', HESS, 'integer class labels are read as one-hot targets')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    d['target'] = opaque('labels', N, dtype='int')
    mv = c.call(HESS, make_model(), params, d, lossfn(c, 'cross_entropy'))
    n = fresh(N)
    x = row(d['input'], n)

    def value(p):
        return esum(loss_value('cross_entropy', lambda q: fval(x, p, q),
                               lambda q: delta_real(elem('labels', (n,)) - q)), n)
    c.eq(c.call(mv, vec), second_derivative(params, vec, value), 'H@v')


@ob('C05', 'hessian-unknown-loss', HESS, 'an unknown loss is rejected with ValueError')
def _(c):
    params, d = tree(), data()
    c.raises(lambda: c.call(HESS, make_model(), params, d, 'no_such_loss'), ValueError, what='create_hessian_mv')
