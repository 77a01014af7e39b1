"""C09 registries, C10 names of the options."""
from .common import *
from .p_api import API, COV, entry, check_dense, check_diag
from .p_curv import lossfn, ggn_reference
from .p_post import kind, KINDS, PRIOR, pf

REG = 'laplax.register.'
DICTS = [COV + 'CURVATURE_METHODS', COV + 'CURVATURE_PRECISION_METHODS', COV + 'CURVATURE_TO_POSTERIOR_STATE',
         COV + 'CURVATURE_STATE_TO_SCALE', COV + 'CURVATURE_STATE_TO_COV',
         'laplax.eval.likelihood.CURVATURE_MARGINAL_LOG_LIKELIHOOD']
ARGS = ['create_curvature_fn', 'curvature_to_precision_fn', 'prec_to_posterior_fn', 'posterior_state_to_scale_fn',
        'posterior_state_to_cov_fn', 'marginal_log_likelihood_fn']


def custom():
    return {a: Builtin(a, lambda it, x, k, a=a: (_ for _ in ()).throw(AssertionError)) for a in ARGS}


def snapshot(c):
    return [dict(c.get(d)) for d in DICTS]


def unchanged(c, before, what, but=()):
    for d, old in zip(DICTS, before):
        new = {k: v for k, v in c.get(d).items() if k not in but}
        c.ok(set(new) == set(old) and all(new[k] is old[k] for k in old), f'{what}: {d} keeps its other entries')


for dn_ in DICTS:
    def _mk(dn):
        @ob('C09', 'covers-' + dn.rsplit('.', 1)[1].lower(), dn, 'every curvature approximation has an entry in every registry')
        def _(c):
            reg = c.get(dn)
            for k in KINDS:
                c.ok(kind(c, k) in reg, f'{dn} has an entry for {k}')
                c.ok(k in reg, f'{dn} is found by the string {k!r}')
    _mk(dn_)


@ob('C09', 'register-all', REG + 'register_curvature_method', 'a fully specified method is found under its name in every registry; other entries stay')
def _(c):
    before, fns = snapshot(c), custom()
    c.call(REG + 'register_curvature_method', name='mine', **fns)
    for d, a in zip(DICTS, ARGS):
        c.ok(c.get(d).get('mine') is fns[a], f'{a} is stored in {d}')
    unchanged(c, before, 'registration', but=('mine',))


for n_, arg_ in enumerate(ARGS):
    def _mk(n, arg):
        @ob('C09', f'register-default-{arg}', REG + 'register_curvature_method', 'functions that are not given are inherited from the default, for every default')
        def _(c):
            for k in KINDS:
                fns = {arg: custom()[arg]}
                c.call(REG + 'register_curvature_method', name='mine_' + k, default=kind(c, k), **fns)
                for d, a in zip(DICTS, ARGS):
                    want = fns[a] if a == arg else c.get(d)[kind(c, k)]
                    c.ok(c.get(d)['mine_' + k] is want, f'{a} of a method with default {k}')

        @ob('C09', f'register-missing-{arg}', REG + 'register_curvature_method', 'without a default, a missing function raises ValueError and changes no registry')
        def _(c):
            before, fns = snapshot(c), custom()
            del fns[arg]
            c.raises(lambda: c.call(REG + 'register_curvature_method', name='mine', **fns), ValueError, what=f'registration without {arg}')
            unchanged(c, before, 'failed registration')
    _mk(n_, arg_)


@ob('C09', 'register-unknown-default', REG + 'register_curvature_method', 'an unknown default raises and changes no registry')
def _(c):
    before, fns = snapshot(c), custom()
    for given in ({}, {'create_curvature_fn': fns['create_curvature_fn']},
                  {a: fns[a] for a in ARGS if a != 'marginal_log_likelihood_fn'}):
        _, e = c.attempt(lambda: c.call(REG + 'register_curvature_method', name='mine', default='no such method', **given))
        c.ok(e is not None, 'an unknown default is rejected')
        unchanged(c, before, 'failed registration')


def flat_times(x, s):
    if not isinstance(x, Arr) or x.ndim != 1:
        raise AbsRaise(TypeError, f'operator of a registered method applied to {brief(x)} instead of a flat vector')
    return Arr(x.axes, lambda i: sym(s) * x.at(*i), x.dtype, x.tl)


@ob('C09', 'registered-end-to-end', COV + 'set_posterior_fn', 'a registered method is used for estimate, precision, state, scale and covariance')
def _(c):
    seen = []

    def f(name, ret):
        def g(it, a, k):
            seen.append((name, a, k))
            return ret(a, k)
        return Builtin(name, g)
    mark = {'est': S('e')}
    fns = {'create_curvature_fn': f('create', lambda a, k: mark),
           'curvature_to_precision_fn': f('prec', lambda a, k: k.get('curv_estimate', a[0] if a else None)),
           'prec_to_posterior_fn': f('state', lambda a, k: {'s': a[0] if a else next(iter(k.values()))}),
           'posterior_state_to_scale_fn': f('scale', lambda a, k: f('scale_mv', lambda x, y: flat_times(x[0], 'g'))),
           'posterior_state_to_cov_fn': f('cov', lambda a, k: f('cov_mv', lambda x, y: flat_times(x[0], 'h')))}
    c.call(REG + 'register_curvature_method', name='mine', default=kind(c, 'full'), **fns)
    mv = Builtin('mv', lambda it, a, k: a[0])
    t = tree()
    post = c.call(c.call(COV + 'create_posterior_fn', 'mine', mv, layout=t), PRIOR(), pf('ell'))
    c.ok([s[0] for s in seen] == ['create', 'prec', 'state'], f'functions used: {[s[0] for s in seen]}')
    c.ok(seen[0][1][0] is mv or seen[0][2].get('mv') is mv, 'the estimator receives the operator')
    pk = dict(zip(('curv_estimate', 'prior_arguments', 'loss_scaling_factor'), seen[1][1]), **seen[1][2])
    c.eq(pk['prior_arguments'], PRIOR(), 'prior arguments of the precision')
    c.eq(pk['loss_scaling_factor'], pf('ell'), 'loss scaling factor of the precision')
    st = c.it.getattr(post, 'state')
    v = tree('v')
    for nm, s in (('scale_mv', 'g'), ('cov_mv', 'h')):
        got, err = c.attempt(lambda: c.call(c.call(c.it.getattr(post, nm), st), v))
        c.ok(err is None, f'{nm} of the posterior applies to a tree of the given layout: {err!r}')
        c.eq(got, tmap(lambda x: Arr(x.axes, lambda i: sym(s) * x.at(*i)), v), nm)


@ob('C09', 'register-replaces', REG + 'register_curvature_method', 'registering a known name again replaces its functions in every registry')
def _(c):
    before, first, second = snapshot(c), custom(), custom()
    c.call(REG + 'register_curvature_method', name='mine', **first)
    c.call(REG + 'register_curvature_method', name='mine', **second)
    for d, a in zip(DICTS, ARGS):
        c.ok(c.get(d).get('mine') is second[a], f'{a} is replaced in {d}')
    unchanged(c, before, 'registration', but=('mine',))
    third = custom()['curvature_to_precision_fn']
    c.call(REG + 'register_curvature_method', name='mine', curvature_to_precision_fn=third, default=kind(c, 'diagonal'))
    for d, a in zip(DICTS, ARGS):
        want = third if a == 'curvature_to_precision_fn' else c.get(d)[kind(c, 'diagonal')]
        c.ok(c.get(d).get('mine') is want, f'{a} is replaced in {d} by the new default')


@ob('C09', 'register-calibration-replaces', REG + 'register_calibration_method', 'registering a calibration method again replaces it')
def _(c):
    fs = [Builtin(f'calibrate{n}', lambda it, a, k: None) for n in range(2)]
    for f in fs:
        c.call(REG + 'register_calibration_method', 'mine', f)
        c.ok(c.get('laplax.api.calibration_options').get('mine') is f, 'the last registered function is used')


@ob('C09', 'posterior-fn-options', COV + 'create_posterior_fn', 'operator, layout and all options reach the registered estimator, for every layout form')
def _(c):
    seen, fns = [], custom()
    fns['create_curvature_fn'] = Builtin('create', lambda it, a, k: seen.append((a, k)) or 'estimate')
    c.call(REG + 'register_curvature_method', name='mine', **fns)
    for layout in (None, py(Pn), tree()):
        for via in ('create_posterior_fn', 'estimate_curvature'):
            mv, mark = Builtin('mv', lambda it, a, k: a[0]), object()
            kw = {} if layout is None and via == 'create_posterior_fn' else {'layout': layout}
            seen.clear()
            c.call(COV + via, 'mine', mv, option=mark, rank=3, **kw)
            c.ok(len(seen) == 1, f'{via} estimates once')
            got = dict(zip(('mv', 'layout'), seen[0][0]), **seen[0][1])
            c.ok(got.get('mv') is mv, f'{via} passes the operator')
            c.ok('layout' in got, f'{via} passes the layout')
            c.eq(got['layout'], layout, f'layout passed by {via}') if layout is not None else c.ok(got['layout'] is None, f'{via} passes no layout')
            c.ok(got.get('option') is mark and got.get('rank') == 3, f'{via} passes the options on')


def low_ob(k):
    @ob('C09', f'low-rank-{k}', 'laplax.curv.low_rank.create_low_rank_curvature', 'the low-rank approximation calls the algorithm of its name with all options, operator and layout')
    def _(c):
        seen = []
        for nm in ('lanczos', 'lobpcg'):
            c.stub(f'laplax.curv.{nm}.{nm}_lowrank', lambda it, a, kk, nm=nm: seen.append((nm, a, kk)) or 'result')
        mv = Builtin('mv', lambda it, a, kk: a[0])
        opts = {'rank': 7, 'key': 'KEY', 'mv_dtype': 'dt', 'calc_dtype': 'ct', 'return_dtype': 'rt', 'mv_jit': False, 'tol': S('tol')}
        if k == 'lanczos':
            opts.update(b='B', full_reorthogonalize=False)
        got, err = c.attempt(lambda: c.call(c.get(COV + 'CURVATURE_METHODS')[kind(c, k)], mv, layout=py(Pn), **opts))
        if not seen:
            c.undecided(f'no call to an algorithm seen {err or ""}')
        c.ok(err is None, f'no exception: {err}')
        c.ok(got == 'result', 'the result of the algorithm is returned')
        c.ok([s[0] for s in seen] == [k], f'algorithms called: {[s[0] for s in seen]}')
        _, a, kk = seen[0]
        names = dict(zip(('A',), a))
        names.update(kk)
        c.ok(names.pop('A') is mv, 'operator')
        c.ok(set(names) == set(opts) | {'layout'}, f'options passed: {sorted(names)}')
        for o in opts:
            c.ok(names[o] is opts[o], f'option {o} is passed unchanged')


low_ob('lanczos')
low_ob('lobpcg')


@ob('C09', 'calibration-registry', REG + 'register_calibration_method', 'a registered calibration method is found under its name; existing methods stay')
def _(c):
    opts = c.get(API + 'calibration_options')
    before = dict(opts)
    f = Builtin('mine', lambda it, a, k: None)
    c.call(REG + 'register_calibration_method', 'mine', f)
    c.ok(c.get(API + 'calibration_options')['mine'] is f, 'method is stored')
    c.ok(all(c.get(API + 'calibration_options')[k] is before[k] for k in before), 'other methods stay')
    CM = c.get('laplax.enums.CalibrationMethod')
    for m in c.it.iterate(CM) if hasattr(c.it, 'iterate') else []:
        c.ok(m in before, f'{m} has an implementation')


# ---------------------------------------------------------------- C10
def spellings(c, enum, name):
    """The ways a user may write an option."""
    return [c.it.getattr(c.get('laplax.enums.' + enum), name.upper()), name, name.upper(), name.title()]


def curv_name_ob(k):
    @ob('C10', f'curv-type-{k}', API + 'laplace', 'curv_type is accepted as enum member or string in any case and selects the approximation of that name')
    def _(c):
        params, d = tree(), data()
        seen = []
        for nm in ('lanczos', 'lobpcg'):
            def alg(it, a, kk, nm=nm):
                seen.append(nm)
                n = A1 * A2 + B
                return c.call('laplax.curv.utils.LowRankTerms', U=opaque('U' + nm, n, R), S=opaque('S' + nm, R), scalar=asarr(S('s' + nm)))
            c.stub(f'laplax.curv.{nm}.{nm}_lowrank', alg)
        for sp in spellings(c, 'CurvApprox', k):
            post, est = c.call(API + 'laplace', make_model(), params, d, loss_fn=lossfn(c, 'mse'), curv_type=sp)
            if k == 'full':
                check_dense(c, est, entry(params, d, 'mse', ONE))
            elif k == 'diagonal':
                check_diag(c, est, entry(params, d, 'mse', ONE))
            else:
                c.eq(c.it.getattr(est, 'S'), opaque('S' + k, R), 'eigenvalues')
            if k in ('lanczos', 'lobpcg'):
                st = c.it.getattr(c.call(post, {'prior_prec': pf('tau')}), 'state')
                c.eq(c.it.getattr(st['scale'], 'U'), opaque('U' + k, A1 * A2 + B, R), 'eigenvectors')


for k_ in KINDS:
    curv_name_ob(k_)


@ob('C10', 'curv-type-unknown', API + 'laplace', 'an unknown curv_type raises ValueError')
def _(c):
    params, d = tree(), data()
    for bad in ('fulll', '', 'low_rank'):
        c.raises(lambda: c.call(API + 'laplace', make_model(), params, d, loss_fn=lossfn(c, 'mse'), curv_type=bad), ValueError, what=f'curv_type={bad!r}')


def loss_name_ob(loss):
    @ob('C10', f'loss-{loss}', 'laplax.curv.ggn.create_loss_hessian_mv', 'loss functions are accepted as enum member or by their string value')
    def _(c):
        jv, p, y = opaque('jv', C), opaque('p', C), opaque('y', C)
        a, b = (c.call(c.call('laplax.curv.ggn.create_loss_hessian_mv', l), jv, pred=p, target=y) for l in (lossfn(c, loss), loss))
        c.eq(b, a, 'loss-Hessian product')
        if loss != 'none':
            f, g = (c.call('laplax.curv.utils.concatenate_model_and_loss_fn', make_model(), l) for l in (lossfn(c, loss), loss))
            params, x = tree(), opaque('x', I_)
            c.eq(c.call(g, x, y, params), c.call(f, x, y, params), 'loss')


for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy', 'none'):
    loss_name_ob(l_)


@ob('C10', 'loss-unknown', 'laplax.curv.ggn.create_loss_hessian_mv', 'an unknown loss raises ValueError')
def _(c):
    for bad in ('huber', '', None):
        c.raises(lambda: c.call('laplax.curv.ggn.create_loss_hessian_mv', bad), ValueError, what=f'loss {bad!r}')
    for bad in ('huber', ''):
        c.raises(lambda: c.call('laplax.curv.utils.concatenate_model_and_loss_fn', make_model(), bad), ValueError, what=f'loss {bad!r}')


PREDS = ('laplace_bridge', 'mean_field_0', 'mean_field_1', 'mean_field_2')


def probe(seen):
    def f(it, a, k):
        aux = k['aux'] if 'aux' in k else a[1]
        res = k['results'] if 'results' in k else a[0]
        seen.append(dict(aux))
        res['probe'] = aux['pred_mean']
        return res, aux
    return Builtin('probe', f)


def stub_predictives(c, calls):
    for p in PREDS:
        fn_ = p if p == 'laplace_bridge' else p + '_predictive'

        def g(it, a, k, p=p):
            calls.append((p, list(a), dict(k)))
            return opaque('act_' + p, C)
        c.stub('laplax.eval.predictives.' + fn_, g)


def evaluate(c, seen, **kw):
    from .p_push import posterior, key
    return c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('tau')}, data(),
                  metrics=probe(seen), sample_key=key(), num_samples=2, **kw)


def special_name_ob(p):
    @ob('C10', f'evaluation-linear-{p}', API + 'evaluation', 'pushforward and predictive types are accepted in any spelling; pred_act is the class predictive of that name')
    def _(c):
        calls = []
        stub_predictives(c, calls)
        for sp, pt in zip(spellings(c, 'Predictive', p), spellings(c, 'Pushforward', 'linear')):
            del calls[:]
            seen = []
            evaluate(c, seen, predictive_type=sp, pushforward_type=pt)
            c.ok(seen and 'pred_act' in seen[0], 'pred_act reaches the metrics')
            if not calls:
                c.undecided('no call to a class predictive seen')
            c.ok({x[0] for x in calls} == {p}, f'class predictive used: {[x[0] for x in calls]}')
            a = seen[0]['pred_act']
            c.eq(Arr((C,), lambda i: a.at(*i)), opaque('act_' + p, C), 'pred_act')
            c.ok('pred_std' in seen[0] and 'pred_mean' in seen[0] and 'map' in seen[0], 'mean, deviation and map reach the metrics')


for p_ in PREDS:
    special_name_ob(p_)


def none_mc_ob(side, p):
    @ob('C10', f'evaluation-{side}-{p}', API + 'evaluation', 'pushforward and predictive types are accepted in any spelling; MC gives pred_act, NONE gives none')
    def _(c):
        for sp, pt in zip(spellings(c, 'Predictive', p), spellings(c, 'Pushforward', side)):
            seen = []
            evaluate(c, seen, predictive_type=sp, pushforward_type=pt)
            c.ok(len(seen) == 1, 'the metric is evaluated')
            aux = seen[0]
            c.ok(('pred_act' in aux) == (p == 'mc_bridge'), f'entries available to the metrics: {sorted(aux)}')
            c.ok({'pred_mean', 'pred_std', 'map', 'target'} <= set(aux), f'entries available to the metrics: {sorted(aux)}')
            if p == 'mc_bridge':
                c.eq(aux['pred_act'], aux['mc_pred_act'], 'pred_act')


for s_ in ('linear', 'nonlinear'):
    for p_ in ('none', 'mc_bridge'):
        none_mc_ob(s_, p_)


@ob('C10', 'evaluation-nonlinear-special', API + 'evaluation', 'a special class predictive with the nonlinear pushforward raises ValueError')
def _(c):
    for p in PREDS:
        c.raises(lambda: evaluate(c, [], predictive_type=p, pushforward_type='nonlinear'), ValueError, what=p)


@ob('C10', 'evaluation-unknown', API + 'evaluation', 'unknown pushforward, predictive or metric names raise ValueError')
def _(c):
    from .p_push import posterior
    for kw in ({'predictive_type': 'nope'}, {'pushforward_type': 'nope'}):
        c.raises(lambda: evaluate(c, [], **kw), ValueError, what=str(kw))
    for m in ('nope', [], 7):
        c.raises(lambda: c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('tau')}, data(), metrics=m),
                 ValueError, what=f'metrics={m!r}')


@ob('C10', 'evaluation-given-fns', API + 'evaluation', 'pushforward functions given by the user are used instead of the default ones')
def _(c):
    for side in ('linear', 'nonlinear'):
        pre = 'lin' if side == 'linear' else 'nonlin'
        fns = [c.get('laplax.eval.pushforward.' + n) for n in (f'{pre}_setup', f'{pre}_pred_mean')]
        seen = []
        evaluate(c, seen, pushforward_type=side, pushforward_fns=fns)
        c.ok(set(seen[0]) == {'map', 'pred_mean', 'target'}, f'entries available to the metrics: {sorted(seen[0])}')
        c.ok(len(fns) == 2, 'the list of the caller is unchanged')
