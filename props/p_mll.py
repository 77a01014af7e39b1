"""C21 marginal log-likelihood."""
from .common import *
from .p_curv import lossfn, softmax_at, custom_loss
from .p_post import KINDS, kind, estimate, TAU, S2, ELL, pf, prec_entry
from .p_metric import pi

LIK = 'laplax.eval.likelihood.'
SG = sym('sg', 'pos')
NP = A1 * A2 + B


def loss_sum(loss, params, d, n_dim=N):
    """Sum of the loss over the data."""
    n, k = fresh(n_dim), fresh(C)
    x = row(d['input'], n)
    f = lambda q: fval(x, params, q)
    y = lambda q: d['target'].at(n, q)
    if loss == 'mse':
        return esum((f(k) - y(k)) ** 2, k, n)
    if loss == 'cross_entropy':
        return -esum(y(k) * fn('log', softmax_at(f, k)), k, n)
    sp = lambda z: fn('log', ONE + fn('exp', z))
    return esum(y(k) * sp(-f(k)) + (ONE - y(k)) * sp(f(k)), k, n)


def sqnorm(params):
    r = ZERO
    for k in params:
        i = fresh_idx(params[k])
        r = r + esum(params[k].at(*i) ** 2, *i)
    return r


def logdet(k, c, tau, s2, ell):
    """log det of (s2 H + tau I) / ell."""
    if k == 'full':
        return app('logdet', (), [lam_of(Arr((NP, NP), lambda i: prec_entry('full', tau, s2, ell, NP)(*i)))], ())
    if k == 'diagonal':
        w = fresh(NP)
        return esum(fn('log', (s2 * elem('h', (w,)) + tau) / ell), w)
    w = fresh(R)
    # det(U D U^T + t I) with orthonormal U: (P - R) directions keep t, the others t + d
    return (NP - R) * fn('log', tau / ell) + esum(fn('log', (s2 * elem('S', (w,)) + tau) / ell), w)


def mll(k, c, loss, params, d, tau, s2, ell, sg, total=None):
    t = total if total is not None else loss_sum(loss, params, d)
    return (-t / (sg * 2) - tau * sqnorm(params) / 2 + NP * fn('log', tau) / 2
            - logdet(k, c, tau, s2, ell) / 2)


def call_mll(c, k, prior, params, d, loss, **kw):
    return c.call(LIK + 'marginal_log_likelihood', estimate(c, k, NP, R), prior, d, make_model(), params, loss,
                  kind(c, k), vmap_over_data=True, **kw)


RULE = ('log p(D) = -loss(D) / (2 sigma) - tau/2 |theta|^2 + P/2 log tau - 1/2 log det(precision): the Gaussian normalisations cancel, '
        'the log-determinant is that of the posterior precision')


def mll_ob(k, loss):
    @ob('C21', f'{k}-{loss}', LIK + 'marginal_log_likelihood', RULE)
    def _(c):
        params, d = tree(), data()
        got = call_mll(c, k, {'prior_prec': pf('tau'), 'sigma': pf('sg'), 'sigma_squared': pf('s2')}, params, d, lossfn(c, loss), loss_scaling_factor=pf('ell'))
        c.eq(got, Arr((), lambda i: mll(k, c, loss, params, d, TAU, S2, ELL, SG)), 'marginal log-likelihood')


def default_ob(k):
    @ob('C21', f'{k}-defaults', LIK + 'marginal_log_likelihood', RULE + '; sigma, sigma_squared and the scaling factor default to one')
    def _(c):
        params, d = tree(), data()
        got = call_mll(c, k, {'prior_prec': pf('tau')}, params, d, lossfn(c, 'mse'))
        c.eq(got, Arr((), lambda i: mll(k, c, 'mse', params, d, TAU, ONE, ONE, ONE)), 'marginal log-likelihood')


for k_ in KINDS:
    for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy'):
        mll_ob(k_, l_)
    default_ob(k_)


@ob('C21', 'custom-loss', LIK + 'marginal_log_likelihood', 'a callable loss receives all predictions and targets')
def _(c):
    params, d = tree(), data()
    seen = []

    def L(it, a, k):
        seen.append((a[0], a[1]))
        return S('Lval')
    got = call_mll(c, 'diagonal', {'prior_prec': pf('tau')}, params, d, Builtin('L', L))
    c.ok(len(seen) == 1, 'the loss is evaluated once')
    pred = Arr((N, C), lambda i: fval(row(d['input'], i[0]), params, i[1]))
    c.eq(seen[0][0], pred, 'predictions given to the loss')
    c.eq(seen[0][1], d['target'], 'targets given to the loss')
    c.eq(got, Arr((), lambda i: mll('diagonal', c, None, params, d, TAU, ONE, ONE, ONE, sym('Lval'))), 'marginal log-likelihood')


@ob('C21', 'no-map', LIK + 'marginal_log_likelihood', 'without mapping over the data the model sees the whole batch')
def _(c):
    params, d = tree(), data()
    got = c.call(LIK + 'marginal_log_likelihood', estimate(c, 'diagonal', NP, R), {'prior_prec': pf('tau')}, d, make_model(strict=2), params,
                 lossfn(c, 'mse'), kind(c, 'diagonal'))
    c.eq(got, Arr((), lambda i: mll('diagonal', c, 'mse', params, d, TAU, ONE, ONE, ONE)), 'marginal log-likelihood')


@ob('C21', 'joint', LIK + 'joint_log_likelihood', 'log joint = -loss / (2 sigma) - tau/2 |theta|^2 - P/2 (log 2 pi - log tau)')
def _(c):
    params, d = tree(), data()

    def full(it, a, k):
        c.eq(list(a), [d['input'], d['target'], params], 'the loss is called as loss(input, target, params)')
        return S('Lval')
    got = c.call(LIK + 'joint_log_likelihood', full_fn=Builtin('full', full), prior_arguments={'prior_prec': pf('tau'), 'sigma': pf('sg')}, params=params, data=d)
    w = -sym('Lval') / (SG * 2) - TAU * sqnorm(params) / 2 - NP * (fn('log', pi() * 2) - fn('log', TAU)) / 2
    c.eq(got, Arr((), lambda i: w), 'joint log-likelihood')


@ob('C21', 'low-rank-full-agree', LIK + 'marginal_log_likelihood', 'the diagonal approximation of a diagonal curvature gives the value of the full one')
def _(c):
    params, d = tree(), data()
    setup_tree()
    h = opaque('h', NP, props=('pos',))
    H = Arr((NP, NP), lambda i: delta0(i[0] - i[1]) * h.at(i[0]))
    pr = {'prior_prec': pf('tau'), 'sigma': pf('sg')}
    vals = [c.call(LIK + 'marginal_log_likelihood', e, pr, d, make_model(), params, lossfn(c, 'mse'), kind(c, k), vmap_over_data=True)
            for k, e in (('full', H), ('diagonal', h))]
    c.eq(vals[0], vals[1], 'marginal log-likelihood')
