"""C23 calibration objectives."""
from .common import *
from .p_api import API
from .p_curv import lossfn
from .p_post import kind, pf
from .p_push import posterior, key
from .p_metric import nll, chi2, bins

CAL = 'laplax.eval.calibrate.'
PM = lambda x, j: app('pm', (), [lam_of(x)], (j,))
PS = lambda x, j: app('ps', (), [lam_of(x)], (j,))


def given(it, a, k):
    """A pushforward step that reports opaque moments of its input."""
    res = k['results'] if 'results' in k else a[0]
    aux = k['aux'] if 'aux' in k else a[1]
    x = k['input']
    PROPS['ps'] = {'pos'}
    PROPS['pa'] = {'unit'}
    for name, fn_ in (('pred_mean', 'pm'), ('pred_std', 'ps'), ('pred_act', 'pa')):
        res[name] = app_arr(fn_, [x], (ax(C),))
    return res, aux


def moments(d):
    x = d['input']
    f = lambda n: Arr((N, C), lambda i: app(n, (), [lam_of(row(x, i[0]))], (i[1],)))
    return f('pm'), f('ps')


def calibrate(c, objective, d, seen=None, log=None, **kw):
    """Run calibration() with a registered method that records the objective; returns (result, objective, data)."""
    got = []

    def method(it, a, k):
        got.append((a, k))
        return {'prior_prec': 'chosen'}
    c.own_writes.add('calibration_options')      # registering is what changes it
    c.call('laplax.register.register_calibration_method', 'mine', Builtin('mine', method))
    args = dict(loss_fn=lossfn(c, 'mse'), curv_estimate=opaque('h', A1 * A2 + B, props=('pos',)), curv_type=kind(c, 'diagonal'),
                pushforward_fns=[Builtin('given', given)], sample_key=key(), num_samples=2,
                calibration_objective=objective, calibration_method='mine')
    args.update(kw)
    res = c.call(API + 'calibration', posterior(c, log), make_model(), tree(), d, **args)
    c.ok(len(got) == 1, 'the registered calibration method is called once')
    k = got[0][1]
    return res, k.get('objective', got[0][0][0] if got[0][0] else None), k


def spell(name):
    return [name, name.upper()]


def obj_ob(name, want, forms=('dict', 'tuple')):
    @ob('C23', f'objective-{name}', API + 'calibration', 'the objective is the metric of that name over the predictions for all data and their targets, with the given prior arguments')
    def _(c):
        d = data()
        m, s = moments(d)
        s0 = Arr(m.axes, lambda i: s.at(*i))
        for form, sp in zip(forms, spell(name)):
            log = []
            src = d if form == 'dict' else (d['input'], d['target'])
            res, f, k = calibrate(c, sp, src, log=log)
            val = c.call(f, {'prior_prec': pf('t1')}, k['data'])
            c.eq(val, Arr((), lambda i: want(m, s0, d['target'])), f'objective, data as {form}')
            pa = log[-1][0][0] if log[-1][0] else log[-1][1].get('prior_arguments')
            c.ok(set(pa) == {'prior_prec'}, 'prior arguments of the posterior')
            c.eq(pa['prior_prec'], pf('t1'), 'prior precision of the posterior')


def mean_all(f):
    def g(m, s, y):
        i, j = fresh(N), fresh(C)
        return esum(f(m, s, y)(i, j), i, j) / (N * C)
    return g


obj_ob('nll', mean_all(nll))
obj_ob('chi_squared', lambda m, s, y: fn('abs', mean_all(chi2)(m, s, y) - 1))


@ob('C23', 'objective-nll-classification', API + 'calibration', 'for classification the likelihood is that of the one-hot target')
def _(c):
    d = data()
    d['target'] = opaque('lab', N, dtype='int', props=('int',))
    m, s = moments(d)
    for pt in ('mc_bridge', 'mean_field_0'):
        _, f, k = calibrate(c, 'nll', d, predictive_type=pt)
        val = c.call(f, {'prior_prec': pf('t1')}, k['data'])
        oh = Arr((N, C), lambda i: delta0(i[1] - d['target'].at(i[0])))
        c.eq(val, Arr((), lambda i: mean_all(nll)(m, s, oh)), 'objective')


@ob('C23', 'objective-mll', API + 'calibration', 'the marginal-likelihood objective is its negative, of the given estimate, model, parameters, loss and type')
def _(c):
    d, seen = data(), []
    c.stub('laplax.eval.likelihood.marginal_log_likelihood', lambda it, a, k: seen.append((a, k)) or S('mllv'))
    for vm in (True, False):
        del seen[:]
        _, f, k = calibrate(c, 'marginal_log_likelihood', d, vmap_over_data=vm)
        val = c.call(f, {'prior_prec': pf('t1')}, k['data'])
        if not seen:
            c.undecided('no call of marginal_log_likelihood seen')
        c.eq(val, Arr((), lambda i: -sym('mllv')), 'objective')
        names = ('curv_estimate', 'prior_arguments', 'data', 'model_fn', 'params', 'loss_fn', 'curv_type')
        v = dict(zip(names, seen[-1][0]), **seen[-1][1])
        c.eq(v['prior_arguments'], {'prior_prec': pf('t1')}, 'prior arguments')
        c.eq(v['curv_estimate'], opaque('h', A1 * A2 + B), 'curvature estimate')
        c.eq(v['data'], d, 'data')
        c.eq(v['params'], tree(), 'parameters')
        x = opaque('xm', I_)
        c.eq(c.call(v['model_fn'], x, tree()), Arr((C,), lambda i: fval(x, tree(), i[0])), 'model')
        c.ok(v['loss_fn'] == lossfn(c, 'mse') and v['curv_type'] == kind(c, 'diagonal'), 'loss and curvature type')
        c.ok(v.get('vmap_over_data') is vm, 'vmap_over_data is passed on')


@ob('C23', 'objective-ece', API + 'calibration', 'the calibration-error objective compares the largest class probability with the correctness of the MAP prediction, in 15 bins')
def _(c):
    d, seen = data(), []
    d['target'] = opaque('lab', N, dtype='int', props=('int',))
    c.stub('laplax.eval.metrics.expected_calibration_error', lambda it, a, k: seen.append((a, k)) or S('ecev'))
    _, f, k = calibrate(c, 'ece', d, predictive_type='mc_bridge', objective_jit=False)
    val = c.call(f, {'prior_prec': pf('t1')}, k['data'])
    if not seen:
        c.undecided('no call of expected_calibration_error seen')
    v = dict(zip(('confidence', 'correctness', 'num_bins'), seen[-1][0]), **seen[-1][1])
    c.eq(val, Arr((), lambda i: sym('ecev')), 'objective')
    c.ok(v['num_bins'] == 15, 'number of bins')
    x, params = d['input'], tree()
    pa = lambda n: lam_of(Arr((C,), lambda i: app('pa', (), [lam_of(row(x, n))], (i[0],))))
    mp = lambda n: lam_of(Arr((C,), lambda i: fval(row(x, n), params, i[0])))
    c.eq(v['confidence'], Arr((N,), lambda i: app('amax', (), [pa(i[0])], ())), 'confidence')
    c.eq(v['correctness'], Arr((N,), lambda i: delta0(app('argmax', (), [mp(i[0])], ()) - d['target'].at(i[0]))), 'correctness')


@ob('C23', 'objective-invalid', API + 'calibration', 'chi^2 for classification, ECE for regression, unknown objectives, methods and malformed data raise ValueError')
def _(c):
    d = data()
    for o, kw in (('chi_squared', {'predictive_type': 'mc_bridge'}), ('ece', {}), ('nope', {}), ('nll', {'calibration_method': 'nope'}),
                  ('marginal_log_likelihood', {'curv_estimate': None})):
        c.raises(lambda: calibrate(c, o, d, **kw), ValueError, what=f'{o} {kw}')
    c.raises(lambda: calibrate(c, 'nll', (d['input'],)), ValueError, what='malformed data')


@ob('C23', 'method-arguments', API + 'calibration', 'a registered method receives objective, data as {input, target} and all further options; its result is returned with a usable predictive')
def _(c):
    d = data()
    (prior, spp), f, k = calibrate(c, 'nll', (d['input'], d['target']), steps=3, lr='x')
    c.ok(prior == {'prior_prec': 'chosen'}, f'prior arguments returned: {brief(prior)}')
    c.ok(set(k) == {'objective', 'data', 'steps', 'lr'} and k['steps'] == 3 and k['lr'] == 'x', f'options of the method: {sorted(k)}')
    c.eq(k['data'], d, 'data')
    x = opaque('xq', I_)
    got = c.call(c.call(spp, prior_arguments={'prior_prec': pf('t1')}), x)
    c.eq(got['pred_mean'], app_arr('pm', [x], (ax(C),)), 'predictive for chosen prior arguments')
    c.eq(got['map'], Arr((C,), lambda i: fval(x, tree(), i[0])), 'map')


def grid_ob(tag, opts, want):
    @ob('C23', f'grid-{tag}', API + 'calibration', 'grid search receives the objective in the prior arguments, the grid options (default 50 points from 1e-3 to 1e3) and returns its choice as prior_prec')
    def _(c):
        d, seen = data(), []
        c.stub(CAL + 'optimize_prior_prec', lambda it, a, k: seen.append((a, k)) or S('best'))
        m, s = moments(d)
        for jit in (True, False):
            del seen[:]
            prior, _ = c.call(API + 'calibration', posterior(c), make_model(), tree(), d, loss_fn=lossfn(c, 'mse'),
                              curv_estimate=opaque('h', A1 * A2 + B), curv_type=kind(c, 'diagonal'), pushforward_fns=[Builtin('given', given)],
                              sample_key=key(), objective_jit=jit, **opts)
            if not seen:
                c.undecided('no call of optimize_prior_prec seen')
            c.ok(set(prior) == {'prior_prec'}, 'prior arguments')
            c.eq(prior['prior_prec'], S('best'), 'chosen prior precision')
            v = dict(zip(('objective', 'log_prior_prec_min', 'log_prior_prec_max', 'grid_size'), seen[0][0]), **seen[0][1])
            for k, w in want.items():
                c.ok(v.get(k) == w, f'{k}: {brief(v.get(k))} instead of {w}')
            got = c.call(v['objective'], {'prior_prec': pf('t1')})
            c.eq(got, Arr((), lambda i: mean_all(nll)(m, s, d['target'])), 'objective')


grid_ob('default', {}, {'log_prior_prec_min': -3.0, 'log_prior_prec_max': 3.0, 'grid_size': 50, 'patience': None})
grid_ob('options', {'log_prior_prec_min': -1.0, 'log_prior_prec_max': 2.0, 'grid_size': 7, 'patience': 4, 'calibration_method': 'GRID_SEARCH'},
        {'log_prior_prec_min': -1.0, 'log_prior_prec_max': 2.0, 'grid_size': 7, 'patience': 4})


@ob('C23', 'evaluate-prior', CAL + 'evaluate_for_given_prior_arguments', 'the metric receives the stacked predictions of every data point with its target; the options reach the predictive')
def _(c):
    d, seen, asked = data(), [], []

    def spp(it, a, k):
        asked.append(k)
        return Builtin('pp', lambda it, a, k: {'q': app_arr('q', [a[0]], (ax(C),))})
    got = c.call(CAL + 'evaluate_for_given_prior_arguments', data=d, set_prob_predictive=Builtin('spp', spp),
                 metric=Builtin('metric', lambda it, a, k: seen.append((a, k)) or S('val')), prior_arguments={'prior_prec': pf('t1')})
    c.eq(got, S('val'), 'result')
    c.ok(len(asked) == 1 and set(asked[0]) == {'prior_arguments'}, f'options of the predictive: {[sorted(a) for a in asked]}')
    c.ok(len(seen) == 1 and not seen[0][0] and set(seen[0][1]) == {'q', 'target'}, 'entries given to the metric')
    c.eq(seen[0][1]['q'], Arr((N, C), lambda i: app('q', (), [lam_of(row(d['input'], i[0]))], (i[1],))), 'predictions')
    c.eq(seen[0][1]['target'], d['target'], 'targets')
