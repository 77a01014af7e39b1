"""C38 an option that is left out has its documented default."""
from .common import *
from . import p_calib, p_plumb, p_post
from .p_api import entry, check_diag
from .p_cal import CAL
from .p_curv import lossfn
from .p_lanczos import LZ, LB, summary, SIG_LOBPCG, SIG_LANCZOS
from .p_loader import Loader
from .p_metric import ME, regr, val
from .p_post import KINDS, kind, pf
from .p_push import PU, posterior, key, x_in
from .p_tree import lin_map
from engine.lib import ext

API, CU, CV, EU = 'laplax.api.', 'laplax.curv.', 'laplax.curv.cov.', 'laplax.eval.utils.'
UL, UF, UT = 'laplax.util.loader.', 'laplax.util.flatten.', 'laplax.util.tree.'


def opt(key, construct, rule, **kw):
    return ob('C38', key, construct, rule, **kw)


@opt('curvature', CU + 'ggn.create_ggn_mv', 'products are mapped over the batch and unscaled unless asked otherwise')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    for mod, n in (('ggn', 'create_ggn_mv'), ('hessian', 'create_hessian_mv')):
        f = f'{CU}{mod}.{n}'
        for l in ('mse', 'cross_entropy') if mod == 'ggn' else ('mse',):
            want = c.call(c.call(f, make_model(strict=1), params, d, lossfn(c, l), num_curv_samples=py(N), num_total_samples=py(N), vmap_over_data=True), vec)
            c.eq(c.call(c.call(f, make_model(strict=1), params, d, lossfn(c, l)), vec), want, f'{n}, no options')
            want = c.call(c.call(f + '_without_data', make_model(strict=1), params, lossfn(c, l), factor=S('q'), vmap_over_data=True), vec, d)
            c.eq(c.call(c.call(f + '_without_data', make_model(strict=1), params, lossfn(c, l), factor=S('q')), vec, d), want, f'{n}_without_data')
    want = c.call(c.call(API + 'GGN', make_model(strict=1), params, d, lossfn(c, 'mse'), factor=1.0, vmap_over_data=True, transform=None), vec)
    c.eq(c.call(c.call(API + 'GGN', make_model(strict=1), params, d, lossfn(c, 'mse')), vec), want, 'GGN')
    one = {'input': opaque('xs', I_), 'target': opaque('ys', C)}
    f = lambda **kw: c.call(c.call('laplax.curv.utils.concatenate_model_and_loss_fn', make_model(strict=1), lossfn(c, 'mse'), **kw), one['input'], one['target'], params)
    c.eq(f(), f(vmap_over_data=False), 'loss of one data point')


@opt('laplace', API + 'laplace', 'num_curv_samples and num_total_samples are one, the model is mapped over the data')
def _(c):
    params, d = tree(), data()
    for ct in ('diagonal', 'full'):
        got = c.call(API + 'laplace', make_model(strict=1), params, d, loss_fn=lossfn(c, 'mse'), curv_type=ct)
        want = c.call(API + 'laplace', make_model(strict=1), params, d, loss_fn=lossfn(c, 'mse'), curv_type=ct,
                      num_curv_samples=1, num_total_samples=1, vmap_over_data=True, curv_mv_jit=False)
        c.eq(got[1], want[1], f'{ct} curvature')


@opt('posterior', CV + 'set_posterior_fn', 'the loss is not rescaled and the noise is one unless asked otherwise')
def _(c):
    for k in KINDS:
        f = c.call(CV + 'set_posterior_fn', kind(c, k), p_post.estimate(c, k), layout=py(Pn))
        x, get = opaque('x', Pn), c.it.getattr
        cov = lambda p: c.call(c.call(get(p, 'cov_mv'), get(p, 'state')), x)
        a = cov(c.call(f, {'prior_prec': pf('tau')}))
        c.eq(a, cov(c.call(f, {'prior_prec': pf('tau')}, loss_scaling_factor=1.0)), f'{k} covariance')
        c.eq(a, cov(c.call(f, {'prior_prec': pf('tau'), 'sigma_squared': 1.0}, 1.0)), f'{k} covariance')


@opt('predictive-scaling', PU + 'set_lin_pushforward', 'the posterior of a predictive or kernel is asked for the loss scaling factor one')
def _(c):
    for n, kw in (('set_lin_pushforward', {}), ('set_nonlin_pushforward', {'key': key(), 'num_samples': 2}), ('set_posterior_gp_kernel', {'dense': False})):
        log = []
        c.call(PU + n, make_model(), tree(), posterior_fn=posterior(c, log), prior_arguments={'prior_prec': pf('t1')}, **kw)
        c.ok(len(log) == 1, f'{n}: the posterior is created once')
        a, k = log[0]
        v = dict(zip(('prior_arguments', 'loss_scaling_factor'), a), **k)
        c.ok(number(v.get('loss_scaling_factor', 1)) == 1, f'{n}: loss scaling factor')


@opt('low-rank', CU + 'low_rank.create_low_rank_curvature', 'the method is Lanczos and the rank is 20')
def _(c):
    n = 200
    mv = Builtin('mv', lambda it, a, k: a[0])
    logl = summary(c, LZ + 'lanczos_iterations', SIG_LANCZOS,
                   lambda v: (opaque('al', const(20)), opaque('be', const(20)), opaque('v', const(21), const(n))))
    logb = summary(c, LB + 'lobpcg_standard', SIG_LOBPCG, lambda v: (opaque('ev', const(20)), opaque('vec', const(n), const(20)), const(3)))
    def low(what, f, log, other, **kw):
        del logl[:], logb[:]
        c.call(f, mv, key=key(), layout=n, **kw)
        c.ok(len(log) == 1 and not other, f'{what}: the method')
        return log[0]
    for what, f, kw in (('lanczos_lowrank', LZ + 'lanczos_lowrank', {}), ('create_low_rank_curvature', CU + 'low_rank.create_low_rank_curvature', {})):
        v = low(what, f, logl, logb, **kw)
        c.ok(intval(v['maxiter']) == 20, f'{what}: {brief(v["maxiter"])} iterations instead of 20')
    v = low('lobpcg_lowrank', LB + 'lobpcg_lowrank', logb, logl)
    c.ok(intval(asarr(v['X']).axes[1].dim) == 20, f'lobpcg_lowrank: start with {brief(v["X"])} instead of 20 columns')


def number(x):
    return x if isinstance(x, (int, float, Q)) else const_val(x if isinstance(x, T.Poly) else asarr(x).scalar())


def intval(x):
    v = number(x)
    return None if v is None else int(v)


@opt('grid', CAL + 'optimize_prior_prec', '300 grid points from 1e-5 to 1e6, without early stop')
def _(c):
    asked = []
    try:
        c.call(CAL + 'optimize_prior_prec', Builtin('objective', lambda it, a, k: asked.append(a[0]['prior_prec']) or float(len(asked))))
    except Unmodelled:                  # the choice among the 300 values is C22's subject
        if not asked:
            raise
    c.ok(len(asked) == 300, f'{len(asked)} instead of 300 evaluations of the objective')
    for k in (0, 1, 150, 299):
        want = fn('exp', fn('log', const(10)) * const(Q(-5) + Q(11 * k, 299)))
        c.same(asarr(asked[k]).scalar(), want, f'grid point {k}')


@opt('metrics', ME + 'nll_gaussian', 'Gaussian scores and chi^2 are averaged, cross entropy sums over the last axis, accuracy is top-1')
def _(c):
    m, s, y = regr(N, C)
    for n, k in (('nll_gaussian', 'scaled'), ('crps_gaussian', 'scaled'), ('chi_squared', 'averaged')):
        c.eq(c.call(ME + n, m, s, y), c.call(ME + n, m, s, y, **{k: True}), n)
    p, q = (opaque(v, N, C, props=('pos',)) for v in 'pq')
    c.eq(c.call(ME + 'cross_entropy', p, q), c.call(ME + 'cross_entropy', p, q, axis=-1), 'cross entropy')


@opt('bins', ME + 'calculate_bin_metrics', 'the confidences are divided into 15 bins')
def _(c):
    conf, corr = opaque('cf', const(3)), opaque('cr', const(3))
    got = c.call(ME + 'calculate_bin_metrics', conf, corr)
    for g in got:
        c.ok(intval(asarr(g).axes[0].dim) == 15, f'{brief(g)} instead of 15 bins')
    c.eq(got, c.call(ME + 'calculate_bin_metrics', conf, corr, num_bins=15), 'bin metrics')


@opt('reducers', UL + 'reduce_sum', 'sums keep the reduced axis, sums and concatenations act on axis 0, the state starts empty')
def _(c):
    t = {'u': opaque('u', N, A1), 'w': opaque('w', N, B)}
    s = {'u': opaque('u0', const(1), A1), 'w': opaque('w0', const(1), B)}
    c.eq(c.call(UL + 'reduce_sum', t), c.call(UL + 'reduce_sum', t, None, keepdims=True, axis=0), 'first sum')
    c.eq(c.call(UL + 'reduce_sum', t, s), c.call(UL + 'reduce_sum', t, s, keepdims=True, axis=0), 'sum')
    o = {'u': opaque('u1', dim('M0'), A1), 'w': opaque('w1', dim('M0'), B)}
    c.eq(c.call(UL + 'reduce_concat', t), c.call(UL + 'reduce_concat', t, None, axis=0), 'first concatenation')
    c.eq(c.call(UL + 'reduce_concat', t, o), c.call(UL + 'reduce_concat', t, o, axis=0), 'concatenation')
    c.eq(c.call(UL + 'concat', t, o), c.call(UL + 'concat', t, o, axis=0), 'concat')
    for r in ('reduce_online_mean', 'reduce_add'):
        c.eq(c.call(UL + r, t), c.call(UL + r, t, None), r)


@opt('loader', UL + 'execute_with_data_loader', 'batches are (input, target) pairs and results are averaged over all samples')
def _(c):
    bs = [(opaque(f'X{j}', dim(f'M{j}'), I_), opaque(f'Y{j}', dim(f'M{j}'), C)) for j in range(2)]
    split, mean = c.get(UL + 'input_target_split'), c.get(UL + 'reduce_online_mean')
    f = Builtin('f', lambda it, a, k: (k.get('data') or a[-1])['input'])
    got = c.call(UL + 'execute_with_data_loader', f, Loader(bs))
    c.eq(got, c.call(UL + 'execute_with_data_loader', f, Loader(bs), transform=split, reduce=mean, jit=False), 'execution')
    g = c.call(UL + 'wrap_function_with_data_loader', f, Loader(bs))
    c.eq(c.call(g), c.call(c.call(UL + 'wrap_function_with_data_loader', f, Loader(bs), transform=split, reduce=mean, jit=False)), 'wrapped function')
    mv = Builtin('mv', lambda it, a, k: (k.get('data') or a[1])['input'])
    v = opaque('v', I_)
    c.eq(c.call(c.call(UL + 'DataLoaderMV', mv, Loader(bs)), v), c.call(c.call(UL + 'DataLoaderMV', mv, Loader(bs), transform=split, reduce=mean), v), 'DataLoaderMV')


@opt('wrap', UF + 'wrap_function', 'input and output pass unchanged; the first argument is the one that is transformed')
def _(c):
    x, y = opaque('x', N), opaque('y', C)
    f = Builtin('f', lambda it, a, k: app_arr('f', [a[0], a[1]], (ax(N),)))
    up, down = (Builtin(n, lambda it, a, k, n=n: app_arr(n, [a[0]], asarr(a[0]).axes)) for n in ('up', 'down'))
    c.eq(c.call(c.call(UF + 'wrap_function', f), x, y), app_arr('f', [x, y], (ax(N),)), 'unchanged')
    c.eq(c.call(c.call(UF + 'wrap_function', f, input_fn=up), x, y), app_arr('f', [app_arr('up', [x], x.axes), y], (ax(N),)), 'input')
    c.eq(c.call(c.call(UF + 'wrap_function', f, output_fn=down), x, y), app_arr('down', [app_arr('f', [x, y], (ax(N),))], (ax(N),)), 'output')
    fac = Builtin('factory', lambda it, a, k: f)
    c.eq(c.call(c.call(c.call(UF + 'wrap_factory', fac)), x, y), app_arr('f', [x, y], (ax(N),)), 'factory')


@opt('entries', EU + 'apply_fns', 'values are stored in the results under the names of the functions; entries come from aux into results')
def _(c):
    def state():
        return {'pm': opaque('pm', C)}, {'q': opaque('q', C)}
    f = p_plumb.metric('f', None, ('pm',))
    for field in ({}, {'field': 'results'}):
        res, aux = state()
        r, a = c.call(c.call(EU + 'apply_fns', f, names=['F'], pm='pm', **field), res, aux)
        c.ok(set(r) == {'pm', 'F'} and set(a) == {'q'}, f'entries {sorted(r)} and {sorted(a)}')
    for kw in ({}, {'field': 'results'}, {'access_from': 'aux'}, {'field': 'results', 'access_from': 'aux'}):
        res, aux = state()
        r, a = c.call(c.call(EU + 'transfer_entry', ['q'], **kw), res, aux)
        c.ok(set(r) == {'pm', 'q'} and set(a) == {'q'}, f'entries {sorted(r)} and {sorted(a)}')


@opt('prior-metric', CAL + 'evaluate_for_given_prior_arguments', 'the metric is the distance of chi^2 from one')
def _(c):
    d = data()
    spp = Builtin('spp', lambda it, a, k: Builtin('pp', lambda it, a, k: {n: app_arr(n, [a[0]], (ax(C),)) for n in ('pred_mean', 'pred_std')}))
    PROPS['pred_std'] = {'pos'}
    f = lambda **kw: c.call(CAL + 'evaluate_for_given_prior_arguments', data=d, set_prob_predictive=spp, prior_arguments={'prior_prec': pf('t1')}, **kw)
    c.eq(f(), f(metric=c.get(ME + 'chi_squared_zero')), 'default metric')


@opt('calibration', API + 'calibration', 'negative log-likelihood, grid search, linear pushforward, no class predictive, the whole set of data mapped')
def _(c):
    d = data()
    doc = {'predictive_type': 'none', 'pushforward_type': 'linear', 'calibration_objective': 'nll', 'vmap_over_data': True, 'objective_jit': True}
    vals = []
    for kw in ({}, doc):
        args = dict(loss_fn=lossfn(c, 'mse'), curv_estimate=opaque('h', A1 * A2 + B, props=('pos',)), curv_type=kind(c, 'diagonal'), sample_key=key(), num_samples=2)
        got = []
        c.own_writes.add('calibration_options')
        c.call('laplax.register.register_calibration_method', 'mine', Builtin('mine', lambda it, a, k: got.append(k['objective']) or {'prior_prec': pf('best')}))
        prior, spp = c.call(API + 'calibration', posterior(c), make_model(), tree(), d, calibration_method='mine', **args, **kw)
        pp = c.call(spp, prior_arguments=prior)
        vals.append((c.call(got[0], {'prior_prec': pf('t1')}, d), c.call(pp, x_in())))
    c.eq(vals[0][0], vals[1][0], 'objective')
    c.ok(set(vals[0][1]) == set(vals[1][1]), f'reported entries {sorted(vals[0][1])}')
    c.eq(dict(vals[0][1]), dict(vals[1][1]), 'predictive')


@opt('evaluation', API + 'evaluation', 'regression metrics of the linear predictive without class probabilities, not reduced')
def _(c):
    from .p_default import given as moments_of
    d = data()
    args = lambda: (posterior(c), make_model(), tree(), {'prior_prec': pf('t1')}, d)
    res, _ = c.call(API + 'evaluation', *args(), pushforward_fns=[Builtin('given', moments_of)])
    want, _ = c.call(API + 'evaluation', *args(), pushforward_fns=[Builtin('given', moments_of)], metrics='regression',
                     reduce=c.get('laplax.util.utils.identity'), predictive_type='none', pushforward_type='linear', predictive_jit=True)
    c.eq(res, want, 'metrics')
    ap = c.call(EU + 'apply_fns', p_plumb.metric('f', None, ('pred_mean', 'pred_std')), names=['F'], pred_mean='pred_mean', pred_std='pred_std')
    x = x_in()
    _, p1 = c.call(API + 'evaluation', *args(), metrics=[ap])
    _, p2 = c.call(API + 'evaluation', *args(), metrics=[ap], predictive_type='none', pushforward_type='linear')
    g, w = c.call(p1, x), c.call(p2, x)
    c.ok(set(g) == set(w), f'reported entries {sorted(g)}')
    c.eq(dict(g), dict(w), 'predictive')


@opt('evaluation-samples', API + 'evaluation', 'ten samples from the key 0')
def _(c):
    seen = []

    def look(it, a, k):
        res, aux = k.get('results', a[0] if a else None), k.get('aux', a[1] if len(a) > 1 else None)
        seen.append(aux['pred_ensemble'])
        for n in ('pm', 'ps'):
            res[n] = app_arr(n, [k['input']], (ax(C),))
        return res, aux
    ap = c.call(EU + 'apply_fns', p_plumb.metric('f'), names=['F'], pm='pm', ps='ps', target='target')
    fns = [c.get(PU + 'nonlin_setup'), Builtin('look', look)]
    for kw in ({}, {'num_samples': 10, 'sample_key': c.it.call(ext('jax.random.key'), [0], {})}):
        n = len(seen)
        _, pp = c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('t1')}, data(), metrics=[ap], pushforward_type='nonlinear', pushforward_fns=list(fns), **kw)
        del seen[n:]
        c.call(pp, x_in())
    a, b_ = (asarr(x) for x in seen)
    c.ok(intval(a.axes[0].dim) == 10, f'ensemble {brief(a)} instead of ten members')
    c.eq(a, b_, 'ensemble')
