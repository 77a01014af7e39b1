"""C19 class predictives."""
from .common import *
from .p_push import PU, PR, push, x_in, cov_ref, key, NS, members, moments



def pi8():
    from engine.lib5 import PI as pi
    return pi / 8


def softmax_ref(f):
    def g(i):
        w = fresh(C)
        return fn('exp', f(i)) / esum(fn('exp', f(w)), w)
    return g


def mf0(m, v):
    l = pi8()
    return softmax_ref(lambda i: m(i) / sqrt(ONE + l * v(i)))


def mf1(m, v):
    return mf2(m, lambda i, j: delta0(i - j) * v(i), same=lambda i: v(i) + v(i))


def mf2(m, cov, same=None):
    l = pi8()

    def g(i):
        w = fresh(C)
        s = cov(i, i) + cov(w, w) - 2 * cov(i, w)
        return ONE / esum(fn('exp', (m(w) - m(i)) / sqrt(ONE + l * s)), w)
    return g


def mf1_ref(m, v):
    l = pi8()

    def g(i):
        w = fresh(C)
        return ONE / esum(fn('exp', (m(w) - m(i)) / sqrt(ONE + l * (v(i) + v(w)))), w)
    return g


def bridge(m, v, corr):
    w0 = fresh(C)
    if corr:
        k = esum(v(w0), w0) / sqrt(C / 2)
        m2, v2 = (lambda i: m(i) / sqrt(k)), (lambda i: v(i) / k)
    else:
        m2, v2 = m, v

    def alpha(i):
        w = fresh(C)
        return (ONE - ONE * 2 / C + fn('exp', m2(i)) * esum(fn('exp', -m2(w)), w) / C ** 2) / v2(i)

    def g(i):
        w = fresh(C)
        return alpha(i) / esum(alpha(w), w)
    return g


def arr(f):
    return Arr((C,), lambda i: f(i[0]))


MU, VAR = (lambda i: elem('mu', (i,))), (lambda i: elem('vr', (i,)))


def inputs():
    return opaque('mu', C), opaque('vr', C, props=('pos',)), opaque('cv', C, C, props=('sym',))


@ob('C19', 'mean-field-0', PR + 'mean_field_0_predictive', 'softmax(mean / sqrt(1 + pi/8 var))')
def _(c):
    mu, v, _ = inputs()
    c.eq(c.call(PR + 'mean_field_0_predictive', mu, v), arr(mf0(MU, VAR)), 'predictive')


@ob('C19', 'mean-field-1', PR + 'mean_field_1_predictive', '1 / sum_j exp(-(m_i - m_j) / sqrt(1 + pi/8 (v_i + v_j)))')
def _(c):
    mu, v, _ = inputs()
    c.eq(c.call(PR + 'mean_field_1_predictive', mu, v), arr(mf1_ref(MU, VAR)), 'predictive')


@ob('C19', 'mean-field-2', PR + 'mean_field_2_predictive', '1 / sum_j exp(-(m_i - m_j) / sqrt(1 + pi/8 (S_ii + S_jj - 2 S_ij)))')
def _(c):
    mu, _, cv = inputs()
    c.eq(c.call(PR + 'mean_field_2_predictive', mu, cv), arr(mf2(MU, lambda i, j: cv.at(i, j))), 'predictive')


@ob('C19', 'laplace-bridge', PR + 'laplace_bridge', 'normalised Dirichlet parameters (1 - 2/C + exp(m_i) sum_j exp(-m_j) / C^2) / v_i')
def _(c):
    mu, v, _ = inputs()
    c.eq(c.call(PR + 'laplace_bridge', mu, v, use_correction=False), arr(bridge(MU, VAR, False)), 'without correction')


@ob('C19', 'laplace-bridge-corrected', PR + 'laplace_bridge', 'with the correction, mean and variance are rescaled by c = sum(var) / sqrt(C/2) first')
def _(c):
    mu, v, _ = inputs()
    c.eq(c.call(PR + 'laplace_bridge', mu, v, use_correction=True), arr(bridge(MU, VAR, True)), 'with correction')


@ob('C19', 'dirichlet', PR + 'dirichlet_predictive', 'Dirichlet mean: parameters over their sum')
def _(c):
    a = opaque('al', C, props=('pos',))
    w = fresh(C)
    c.eq(c.call(PR + 'dirichlet_predictive', a), Arr((C,), lambda i: a.at(*i) / esum(a.at(w), w)), 'predictive')


def special_want(kind, m, cov, corr=True):
    v = lambda i: cov(i, i)
    return {'mean_field_0': lambda: mf0(m, v), 'mean_field_1': lambda: mf1_ref(m, v), 'mean_field_2': lambda: mf2(m, cov),
            'laplace_bridge': lambda: bridge(m, v, corr)}[kind]()


def special_ob(kind, fns, tag):
    @ob('C19', f'linear-{kind}-{tag}', PU + 'lin_special_pred_act', 'the named class predictive is computed from the linearised mean and (co)variance, whether or not they were computed before')
    def _(c):
        x, params = x_in(), tree()
        sp = partial_of(c, PU + 'lin_special_pred_act', special_pred_type=kind, use_correction=False)
        got = c.call(push(c, 'lin', ['lin_setup'] + fns + [sp]), x)
        ref = cov_ref(x, params)
        m = lambda i: fval(x, params, i)
        c.ok('special_pred_act' in got, 'special_pred_act is reported')
        c.eq(got['special_pred_act'], arr(special_want(kind, m, lambda i, j: ref.at(i, j), False)), kind)


def partial_of(c, name, **kw):
    from engine.interp import PartialV
    return PartialV(c.get(name), [], kw)


for kind_ in ('mean_field_0', 'mean_field_1', 'mean_field_2', 'laplace_bridge'):
    special_ob(kind_, [], 'alone')
    special_ob(kind_, ['lin_pred_mean', 'lin_pred_std'], 'with-std')
    special_ob(kind_, ['lin_pred_mean', 'lin_pred_cov'], 'with-cov')


def given(it, a, k):
    """A pushforward step that supplies the moments."""
    res, aux = (list(a) + [None, None])[:2]
    res = k.get('results', res)
    aux = k.get('aux', aux)
    mu, v, cv = inputs()
    res.update(pred_mean=mu, pred_var=v, pred_cov=cv)
    return res, aux


def moments_ob(kind, side, corr):
    @ob('C19', f'{side}-{kind}-given-moments' + {None: '', True: '-corrected', False: '-uncorrected'}[corr], PU + 'special_pred_act',
        'the class predictive uses the mean, variance and covariance already in the results; the correction of the Laplace bridge is on unless use_correction=False')
    def _(c):
        x = x_in()
        kw = {} if corr is None else {'use_correction': corr}
        sp = partial_of(c, PU + f'{side}_special_pred_act', special_pred_type=kind, **kw)
        more = {'key': key(), 'num_samples': 2} if side == 'nonlin' else {}
        got = c.call(push(c, side, [side + '_setup', Builtin('given', given), sp], **more), x)
        _, _, cv = inputs()
        cov = (lambda i, j: cv.at(i, j)) if kind == 'mean_field_2' else (lambda i, j: VAR(i))
        c.eq(got['special_pred_act'], arr(special_want(kind, MU, cov, corr is not False)), kind)


for side_ in ('lin', 'nonlin'):
    for kind_ in ('mean_field_0', 'mean_field_1', 'mean_field_2'):
        moments_ob(kind_, side_, None)
    for corr_ in (None, True, False):
        moments_ob('laplace_bridge', side_, corr_)


@ob('C19', 'linear-default-special', PU + 'lin_special_pred_act', 'the default class predictive is mean_field_0; an unknown name raises KeyError')
def _(c):
    x, params = x_in(), tree()
    got = c.call(push(c, 'lin', ['lin_setup', 'lin_special_pred_act']), x)
    ref = cov_ref(x, params)
    c.eq(got['special_pred_act'], arr(mf0(lambda i: fval(x, params, i), lambda i: ref.at(i, i))), 'default')
    sp = partial_of(c, PU + 'lin_special_pred_act', special_pred_type='no_such')
    c.raises(lambda: c.call(push(c, 'lin', ['lin_setup', sp]), x), KeyError, what='unknown class predictive')


for kind_ in ('mean_field_0', 'mean_field_1', 'mean_field_2', 'laplace_bridge'):
    def _mk(kind):
        @ob('C19', f'nonlinear-{kind}', PU + 'nonlin_special_pred_act', 'the named class predictive is computed from the ensemble mean and (co)variance', limit=240)
        def _(c):
            x, params = x_in(), tree()
            sp = partial_of(c, PU + 'nonlin_special_pred_act', special_pred_type=kind, use_correction=False)
            got = c.call(push(c, 'nonlin', ['nonlin_setup', sp], key=key(), num_samples=2), x)
            ms = members(c, x, params)[:2] if NS == 2 else two_members(c, x, params)
            mean, cov = moments(ms)
            c.eq(got['special_pred_act'], arr(special_want(kind, mean, cov, False)), kind)
    _mk(kind_)


def two_members(c, x, params):
    from .p_push import weight_samples
    g = weight_samples(c, params, key(), 2)
    return [Arr((C,), lambda i, w=w: fval(x, w, i[0])) for w in (c.call(g, n) for n in range(2))]


def mc_ob(kind, fns):
    @ob('C19', f'mc-{kind}-{len(fns)}', PU + f'{kind}_mc_pred_act', 'the Monte-Carlo predictive is the mean over the reported samples of their softmax over classes')
    def _(c):
        x = x_in()
        got = c.call(push(c, kind, fns, key=key(), num_samples=NS), x)
        s = got['samples']
        n = int(const_val(s.axes[0].dim))

        def body(i):
            r = ZERO
            for k in range(n):
                r = r + softmax_ref(lambda q: s.at(P(k), q))(i)
            return r / n
        c.eq(got['mc_pred_act'], arr(body), 'mc_pred_act')


mc_ob('lin', ['lin_setup', 'lin_mc_pred_act'])
mc_ob('lin', ['lin_setup', 'lin_pred_mean', 'lin_samples', 'lin_mc_pred_act'])
mc_ob('nonlin', ['nonlin_setup', 'nonlin_mc_pred_act'])
mc_ob('nonlin', ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_samples', 'nonlin_mc_pred_act'])
