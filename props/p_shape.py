"""C03, C04, C05, C21 for model outputs of every rank (scalars, vectors, images)."""
from .common import *
from .p_curv import GGN, GGN0, HESS, HESS0, LHM, T_, K_, custom_loss, lossfn, second_derivative, sig

OUTS = {'scalar': (), 'matrix': (C, R)}


def batch_of(out):
    return {'input': opaque('X', N, I_), 'target': opaque('Y', N, *out)}


def pairs(out):
    return tuple(fresh(d) for d in out), tuple(fresh(d) for d in out)


def same_entry(a, b):
    r = ONE
    for u, v in zip(a, b):
        r = r * delta0(u - v)
    return r


def curvature(loss, f, y, out, a, b):
    """d2 loss / d pred_a d pred_b for one data point."""
    if loss == 'custom':
        fl, yl = (Arr(out, lambda i, g=g: g(tuple(i))) for g in (f, y))
        return app('L', (), [lam_of(fl), lam_of(yl)], (), ((0, tuple(a)), (0, tuple(b))))
    return same_entry(a, b) * {'mse': lambda: const(2), 'none': lambda: ONE, 'binary_cross_entropy': lambda: sig(f(a)) * (ONE - sig(f(a)))}[loss]()


def ggn_want(params, vec, d, loss, out, factor):
    res = {}
    for k in params:
        def body(idx, k=k):
            n = fresh(N)
            a, b = pairs(out)
            x, y = row(d['input'], n), row(d['target'], n)
            h = curvature(loss, lambda q: fval(x, params, q), lambda q: y.at(*q), out, a, b)
            return factor * esum(jac(x, params, a, k, idx) * h * jvp_at(x, params, vec, b), *a, *b, n)
        res[k] = Arr(params[k].axes, body)
    return res


def loss_want(loss, f, y, out):
    w = tuple(fresh(d) for d in out)
    if loss == 'mse':
        return esum((f(w) - y(w)) ** 2, *w)
    ls = lambda x: fn('log', ONE + fn('exp', -x))
    if loss == 'binary_cross_entropy':
        return esum(y(w) * ls(f(w)) + (ONE - y(w)) * ls(-f(w)), *w)
    r = fresh(out[-1])                                        # cross entropy over the last axis
    return esum(y(w) * (fn('log', esum(fn('exp', f(w[:-1] + (r,))), r)) - f(w)), *w)


def lf(c, loss):
    return custom_loss() if loss == 'custom' else lossfn(c, loss)


def ggn_rank(name, loss):
    out = OUTS[name]

    @ob('C03', f'ggn-{name}-output-{loss}', GGN, 'the GGN of a model whose prediction is a scalar or has several axes')
    def _(c):
        params, vec, d = tree(), tree('v'), batch_of(out)
        mv = c.call(GGN, make_model(out=out), params, d, lf(c, loss), num_total_samples=py(T_), num_curv_samples=py(K_))
        c.eq(c.call(mv, vec), ggn_want(params, vec, d, loss, out, T_ / K_), 'GGN@v')
        mv = c.call(GGN0, make_model(out=out), params, lf(c, loss), factor=S('q'))
        c.eq(c.call(mv, vec, d), ggn_want(params, vec, d, loss, out, sym('q')), 'GGN@v, data given later')

    @ob('C04', f'loss-hessian-{name}-{loss}', LHM, 'loss-Hessian products of predictions that are scalars or have several axes')
    def _(c):
        mk = lambda n: Arr(out, lambda i: elem(n, tuple(i))) if out else Arr((), lambda i: sym(n))
        pred, y, v = (mk(n) for n in ('F', 'Yt', 'V'))
        h = c.call(LHM, lf(c, loss))
        got = c.call(h, jv=v, pred=pred, target=y)

        def body(a):
            b = tuple(fresh(d) for d in out)
            return esum(curvature(loss, lambda q: pred.at(*q), lambda q: y.at(*q), out, a, b) * v.at(*b), *b)
        c.eq(got, Arr(out, lambda i: body(tuple(i))), 'H @ v')


for n_ in OUTS:
    for l_ in ('mse', 'binary_cross_entropy', 'none', 'custom'):
        ggn_rank(n_, l_)


def hess_rank(name, loss):
    out = OUTS[name]

    @ob('C05', f'hessian-{name}-output-{loss}', HESS, 'the Hessian product of a model whose prediction is a scalar or has several axes')
    def _(c):
        params, vec, d = tree(), tree('v'), batch_of(out)

        def value(p, factor):
            n = fresh(N)
            x, y = row(d['input'], n), row(d['target'], n)
            return factor * esum(loss_want(loss, lambda q: fval(x, p, q), lambda q: y.at(*q), out), n)
        mv = c.call(HESS, make_model(out=out), params, d, lossfn(c, loss), num_total_samples=py(T_), num_curv_samples=py(K_))
        c.eq(c.call(mv, vec), second_derivative(params, vec, lambda p: value(p, T_ / K_)), 'H@v')
        mv = c.call(HESS0, make_model(out=out), params, lossfn(c, loss), factor=S('q'))
        c.eq(c.call(mv, vec, d), second_derivative(params, vec, lambda p: value(p, sym('q'))), 'H@v, data given later')


for n_, l_ in (('scalar', 'mse'), ('scalar', 'binary_cross_entropy'), ('matrix', 'mse'), ('matrix', 'binary_cross_entropy'), ('matrix', 'cross_entropy')):
    hess_rank(n_, l_)


def joint_rank(name, loss):
    out = OUTS[name]

    @ob('C21', f'joint-{name}-output-{loss}', 'laplax.eval.likelihood.joint_log_likelihood', 'the loss of all data for predictions that are scalars or have several axes')
    def _(c):
        params, d = tree(), batch_of(out)
        f = c.get('laplax.curv.utils.concatenate_model_and_loss_fn')
        got = c.call(c.call(f, make_model(out=out), lossfn(c, loss), vmap_over_data=True), d['input'], d['target'], params)
        n = fresh(N)
        x, y = row(d['input'], n), row(d['target'], n)
        total = esum(loss_want(loss, lambda q: fval(x, params, q), lambda q: y.at(*q), out), n)
        c.eq(got, Arr((), lambda i: total), 'loss of all data')
        prior = {'prior_prec': S('tau', 'pos'), 'sigma': S('s', 'pos')}
        full = c.call(f, make_model(out=out), lossfn(c, loss), vmap_over_data=True)
        a = c.call('laplax.eval.likelihood.joint_log_likelihood', full, prior, params, d)
        zero = c.call('laplax.eval.likelihood.joint_log_likelihood', Builtin('no_loss', lambda it, a, k: Arr((), lambda i: ZERO)), prior, params, d)
        c.eq(Arr((), lambda i: asarr(a).scalar() - asarr(zero).scalar()), Arr((), lambda i: -total / (2 * sym('s'))), 'data term of the joint log-likelihood')


for n_, l_ in (('scalar', 'mse'), ('scalar', 'binary_cross_entropy'), ('matrix', 'mse'), ('matrix', 'cross_entropy')):
    joint_rank(n_, l_)
