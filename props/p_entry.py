"""Entry points: data forms, options, model contract (C06, C09, C10, C23, C25, C28)."""
from .common import *
from .p_api import API, entry, check_dense, check_diag
from .p_curv import lossfn, ggn_reference, GGN, HESS
from .p_loader import Loader, one_shot
from .p_post import kind, pf
from .p_push import posterior, key
from .p_reg import evaluate, probe, spellings
from . import p_calib as PC

PU = 'laplax.eval.pushforward.'


# ---------------------------------------------------------------- malformed data at every entry point
def malformed(d):
    x, y = d['input'], d['target']
    return {'one array': (x,), 'three arrays': (x, y, x), 'list of three': [x, y, x], 'no target': {'input': x, 'label': y},
            'no input': {'x': x, 'target': y}, 'empty mapping': {}, 'empty tuple': ()}


def unsupported(d):
    return {'arrays': d['input'], 'numbers': 3, 'names': 'ab', 'None': None}


@ob('C23', 'data-malformed', API + 'calibration', 'data that are not (input, target) raise ValueError for every calibration method')
def _(c):
    for what, bad in malformed(data()).items():
        c.raises(lambda: PC.calibrate(c, 'nll', bad), ValueError, what=what)


@ob('C23', 'data-malformed-grid', API + 'calibration', 'data that are not (input, target) raise ValueError for grid search')
def _(c):
    c.stub(PC.CAL + 'optimize_prior_prec', lambda it, a, k: S('best'))
    for what, bad in malformed(data()).items():
        c.raises(lambda: PC.calibrate(c, 'nll', bad, calibration_method='grid_search'), ValueError, what=what)


@ob('C25', 'data-malformed', API + 'evaluation', 'data that are not (input, target) raise ValueError, in one batch and in a stream')
def _(c):
    from .p_plumb import run_eval
    for what, bad in malformed(data()).items():
        c.raises(lambda: run_eval(c, bad), ValueError, what=what)
        c.raises(lambda: run_eval(c, Loader([bad])), ValueError, what='stream of ' + what)
    for what, bad in unsupported(data()).items():
        c.raises(lambda: run_eval(c, Loader([bad])), ValueError, what='stream of ' + what)


@ob('C11', 'api-batch-malformed', API + 'GGN', 'batches that are not (input, target) raise ValueError, single and in a loader')
def _(c):
    for what, bad in malformed(data()).items():
        c.raises(lambda: c.call(API + 'GGN', make_model(), tree(), bad, lossfn(c, 'mse')), ValueError, what=what)
        c.raises(lambda: c.call(API + 'GGN', make_model(), tree(), Loader([bad]), lossfn(c, 'mse')), ValueError, what='loader of ' + what)
        c.raises(lambda: c.call(API + 'laplace', make_model(), tree(), bad, loss_fn=lossfn(c, 'mse'), curv_type='diagonal'), ValueError, what='laplace: ' + what)
    for what, bad in unsupported(data()).items():
        c.raises(lambda: c.call(API + 'GGN', make_model(), tree(), Loader([bad]), lossfn(c, 'mse')), ValueError, what='loader of ' + what)


# ---------------------------------------------------------------- names
NEAR = (' full', 'full ', 'ful', 'fulll', 'full_', 'diag', 'lanczos_', 'low_rank', '')


@ob('C10', 'curv-type-near', API + 'laplace', 'a name that is not one of the approximations raises ValueError')
def _(c):
    for bad in NEAR:
        c.raises(lambda: c.call(API + 'laplace', make_model(), tree(), data(), loss_fn=lossfn(c, 'mse'), curv_type=bad), ValueError, what=f'curv_type={bad!r}')


@ob('C10', 'evaluation-near', API + 'evaluation', 'a name that is not one of the predictives, pushforwards or metric sets raises ValueError')
def _(c):
    for k, bads in (('predictive_type', ('mean_field', 'mean_field_3', 'mc', ' none', 'bridge', '')),
                    ('pushforward_type', ('lin', 'non-linear', 'linear ', ''))):
        for b in bads:
            c.raises(lambda: evaluate(c, [], **{k: b}), ValueError, what=f'{k}={b!r}')
    for m in ('class', 'regression ', '', 'default'):
        c.raises(lambda: c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('tau')}, data(), metrics=m), ValueError, what=f'metrics={m!r}')


@ob('C10', 'calibration-near', API + 'calibration', 'a name that is not one of the predictives, pushforwards, objectives or methods raises ValueError')
def _(c):
    for k, bads in (('predictive_type', ('mean_field', ' none')), ('pushforward_type', ('lin', '')),
                    ('calibration_objective', ('nl', 'nll ', 'chi2', 'marginal')), ('calibration_method', ('grid', 'grid_search '))):
        for b in bads:
            kw = dict(calibration_objective='nll')
            kw[k] = b
            o = kw.pop('calibration_objective')
            c.raises(lambda: PC.calibrate(c, o, data(), **kw), ValueError, what=f'{k}={b!r}')


def given_ob(side, n):
    @ob('C10', f'given-fns-{side}-{n}', API + 'evaluation', 'exactly the pushforward functions given by the user are used, whatever their number')
    def _(c):
        pre = 'lin' if side == 'linear' else 'nonlin'
        names = ['setup', 'pred_mean', 'pred_std', 'pred_var'][:n]
        fns = [c.get(PU + f'{pre}_{q}') for q in names]
        seen = []
        evaluate(c, seen, pushforward_type=side, pushforward_fns=fns)
        want = {'map', 'target'} | {q for q in names if q != 'setup'}
        c.ok(bool(seen) and {x for x in seen[0] if x == 'map' or x == 'target' or x.startswith('pred')} == want, f'entries available to the metrics: {sorted(seen[0]) if seen else None}')


for s_ in ('linear', 'nonlinear'):
    given_ob(s_, 2)
    given_ob(s_, 4)


def given_typed_ob(side, p):
    @ob('C10', f'given-fns-{side}-{p}', API + 'evaluation', 'the pushforward functions given by the user are the only ones used, whatever predictive type is named as well')
    def _(c):
        pre = 'lin' if side == 'linear' else 'nonlin'
        fns = [c.get(PU + f'{pre}_{q}') for q in ('setup', 'pred_mean', 'pred_var')]
        seen = []
        evaluate(c, seen, pushforward_type=side, predictive_type=p, pushforward_fns=fns)
        c.ok(len(fns) == 3, 'the list of the caller is unchanged')
        c.ok(bool(seen) and {'map', 'target', 'pred_mean', 'pred_var'} <= set(seen[0]), f'entries available to the metrics: {sorted(seen[0]) if seen else None}')
        c.ok(not {'pred_std', 'pred_act', 'mc_pred_act', 'special_pred_act'} & set(seen[0]), f'entries available to the metrics: {sorted(seen[0])}')


for s_, p_ in (('linear', 'mc_bridge'), ('linear', 'mean_field_1'), ('linear', 'laplace_bridge'), ('nonlinear', 'mc_bridge')):
    given_typed_ob(s_, p_)


def given_empty_ob(side):
    @ob('C10', f'given-fns-empty-{side}', API + 'evaluation', 'an empty list of pushforward functions means the default ones; the list stays empty')
    def _(c):
        mine = []
        for p in ('none', 'mc_bridge', 'none'):
            seen = []
            evaluate(c, seen, pushforward_type=side, predictive_type=p, pushforward_fns=mine)
            c.ok(bool(seen) and {'map', 'target', 'pred_mean', 'pred_std'} <= set(seen[0]), f'entries available to the metrics: {sorted(seen[0]) if seen else None}')
            c.ok(('pred_act' in seen[0]) == (p == 'mc_bridge'), f'entries available to the metrics: {sorted(seen[0])}')
            c.ok(mine == [], 'the list of the caller is filled')
        (prior, spp), f, k = PC.calibrate(c, 'nll', data(), pushforward_type=side, pushforward_fns=mine)
        c.ok(mine == [], 'the list of the caller is filled by calibration')


for s_ in ('linear', 'nonlinear'):
    given_empty_ob(s_)


@ob('C10', 'given-fns-single', API + 'evaluation', 'a single pushforward function given by the user is the only one used')
def _(c):
    for side in ('linear', 'nonlinear'):
        ran, seen = [], []

        def own(it, a, k):
            res = k['results'] if 'results' in k else a[0]
            ran.append(1)
            res['mine'] = app_arr('mine', [k['input']], (ax(C),))
            return res, k['aux'] if 'aux' in k else a[1]

        def metric(it, a, k):
            aux = k['aux'] if 'aux' in k else a[1]
            res = k['results'] if 'results' in k else a[0]
            seen.append(sorted(aux))
            res['probe'] = aux.get('mine', aux['map'])
            return res, aux
        c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('tau')}, data(), metrics=Builtin('m', metric),
               sample_key=key(), num_samples=2, pushforward_type=side, pushforward_fns=[Builtin('own', own)])
        c.ok(bool(ran) and bool(seen) and 'mine' in seen[0], 'the function and the metric are run')
        c.ok(not any(x.startswith('pred_') for x in seen[0]), f'entries available to the metrics: {seen[0]}')


# ---------------------------------------------------------------- options of calibration()
def calib_grid(tag, **opts):
    want = {'log_prior_prec_min': -3.0, 'log_prior_prec_max': 3.0, 'grid_size': 50, 'patience': None}
    want.update(opts)
    PC.grid_ob(tag, opts, want)


calib_grid('zero-min', log_prior_prec_min=0.0, log_prior_prec_max=2.0)
calib_grid('zero-max', log_prior_prec_min=-2.0, log_prior_prec_max=0.0)
calib_grid('negative', log_prior_prec_min=-6.0, log_prior_prec_max=-2.0, grid_size=2, patience=1)
calib_grid('int', log_prior_prec_min=1, log_prior_prec_max=4)
calib_grid('one-point', grid_size=1)


def calib_data_ob(form):
    @ob('C23', f'grid-data-{form}', API + 'calibration', 'grid search evaluates the objective on the data, whatever form they have')
    def _(c):
        d, seen = data(), []
        src = {'dict': d, 'tuple': (d['input'], d['target']), 'list': [d['input'], d['target']]}[form]
        c.stub(PC.CAL + 'optimize_prior_prec', lambda it, a, k: seen.append((a, k)) or S('best'))
        m, s = PC.moments(d)
        PC_args = dict(loss_fn=lossfn(c, 'mse'), curv_estimate=opaque('h', A1 * A2 + B), curv_type=kind(c, 'diagonal'),
                       pushforward_fns=[Builtin('given', PC.given)], sample_key=key())
        c.call(API + 'calibration', posterior(c), make_model(), tree(), src, **PC_args)
        if not seen:
            c.undecided('no call of optimize_prior_prec seen')
        f = seen[0][1].get('objective', seen[0][0][0] if seen[0][0] else None)
        for t in ('t1', 't2'):
            got = c.call(f, {'prior_prec': pf(t)})
            c.eq(got, Arr((), lambda i: PC.mean_all(PC.nll)(m, s, d['target'])), 'objective')


for f_ in ('tuple', 'list', 'dict'):
    calib_data_ob(f_)


def usable_ob(side, p):
    @ob('C23', f'predictive-{side}-{p}', API + 'calibration', 'the returned predictive is the pushforward of the model, posterior, key and number of samples given, with the class predictive asked for', limit=300)
    def _(c):
        pre = 'lin' if side == 'linear' else 'nonlin'
        d = data()
        (prior, spp), f, k = PC.calibrate(c, 'nll', d, predictive_type=p, pushforward_type=side, pushforward_fns=None, sample_key=key('mine'), num_samples=2)
        x = opaque('xq', I_)
        got = c.call(c.call(spp, prior_arguments={'prior_prec': pf('t1')}), x)
        fns = [c.get(PU + f'{pre}_{q}') for q in ('setup', 'pred_mean', 'pred_std')]
        if p == 'mc_bridge':
            fns.append(c.get(PU + f'{pre}_mc_pred_act'))
        elif p != 'none':
            fns.append(I.PartialV(c.get(PU + 'lin_special_pred_act'), [], {'special_pred_type': p}))
        ref = c.call(c.call(PU + f'set_{pre}_pushforward', model_fn=make_model(), mean_params=tree(), posterior_fn=posterior(c),
                            prior_arguments={'prior_prec': pf('t1')}, pushforward_fns=fns, key=key('mine'), num_samples=2), x)
        for n in ('map', 'pred_mean', 'pred_std'):
            c.eq(got[n], ref[n], n)
        if p == 'none':
            c.ok('pred_act' not in got, 'no class predictive')
        else:
            c.eq(got['pred_act'], ref['mc_pred_act' if p == 'mc_bridge' else 'special_pred_act'], 'pred_act')


for s_, p_ in (('linear', 'none'), ('linear', 'mc_bridge'), ('nonlinear', 'none'), ('nonlinear', 'mc_bridge'), ('linear', 'mean_field_1')):
    usable_ob(s_, p_)


# ---------------------------------------------------------------- options of laplace()
def laplace_opt_ob(k):
    @ob('C09', f'laplace-options-{k}', API + 'laplace', 'laplace() hands every option to the algorithm of the approximation, with the curvature operator and the parameters as layout')
    def _(c):
        seen, params, d = [], tree(), data()
        n = A1 * A2 + B
        for nm in ('lanczos', 'lobpcg'):
            def alg(it, a, kk, nm=nm):
                seen.append((nm, a, kk))
                return c.call('laplax.curv.utils.LowRankTerms', U=opaque('U' + nm, n, R), S=opaque('S' + nm, R), scalar=asarr(S('s' + nm)))
            c.stub(f'laplax.curv.{nm}.{nm}_lowrank', alg)
        opts = {'rank': 7, 'key': key('mine'), 'mv_dtype': 'dt', 'calc_dtype': 'ct', 'return_dtype': 'rt', 'mv_jit': False, 'tol': S('tol')}
        if k == 'lanczos':
            opts.update(b='B', full_reorthogonalize=False)
        for jit in (False, True):
            del seen[:]
            post, est = c.call(API + 'laplace', make_model(), params, d, loss_fn=lossfn(c, 'mse'), curv_type=k, curv_mv_jit=jit, **opts)
            if not seen:
                c.undecided('no call to an algorithm seen')
            c.ok([s[0] for s in seen] == [k], f'algorithms called: {[s[0] for s in seen]}')
            _, a, kk = seen[0]
            names = dict(zip(('A',), a))
            names.update(kk)
            c.ok(set(opts) <= set(names), f'options passed: {sorted(names)}')
            for o in opts:
                c.ok(names[o] is opts[o], f'option {o} is passed unchanged')
            vec = tree('v')
            want = ggn_reference(params, vec, d, 'mse', ONE)
            fl = c.call('laplax.util.flatten.create_pytree_flattener', params)
            A = names['A']
            got = c.call(A, vec) if isinstance(names.get('layout'), dict) else c.call(A, c.call(fl[0], vec))
            c.eq(got if isinstance(got, dict) else c.call(fl[1], got), want, 'operator')
            st = c.it.getattr(c.call(post, {'prior_prec': pf('tau')}), 'state')
            c.eq(c.it.getattr(st['scale'], 'U'), opaque('U' + k, n, R), 'eigenvectors')


laplace_opt_ob('lanczos')
laplace_opt_ob('lobpcg')


@ob('C06', 'laplace-nomap', API + 'laplace', 'laplace() without mapping over the data hands the whole batch to the model; the scaling is the same', limit=200)
def _(c):
    params, d = tree(), data()
    for src in (d, Loader([d])):
        _, est = c.call(API + 'laplace', make_model(strict=2), params, src, loss_fn=lossfn(c, 'mse'), curv_type='full', vmap_over_data=False,
                        num_curv_samples=py(K_), num_total_samples=py(T_))
        check_dense(c, est, entry(params, d, 'mse', T_ / K_))


@ob('C06', 'ggn-nomap', API + 'GGN', 'GGN() without mapping over the data hands the whole batch to the model; the factor is the same')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    for src in (d, Loader([d])):
        mv = c.call(API + 'GGN', make_model(strict=2), params, src, lossfn(c, 'mse'), factor=S('factor'), vmap_over_data=False)
        c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'mse', sym('factor')), 'GGN@v')
