"""C28: how the model is called, with which inputs and parameter trees."""
from .common import *
from .p_api import API, entry, check_dense, check_diag
from .p_curv import lossfn, ggn_reference, GGN, HESS
from .p_loader import Loader
from .p_post import kind, pf
from .p_push import posterior, key
from . import p_calib as PC

PU = 'laplax.eval.pushforward.'
LIK = 'laplax.eval.likelihood.'
GGN0 = 'laplax.curv.ggn.create_ggn_mv_without_data'
HESS0 = 'laplax.curv.hessian.create_hessian_mv_without_data'
RULE = 'the model is called as model_fn(input, params), with one data point, or with the whole batch where vmap_over_data is false'
H1, H2 = dims('H1 H2')
SHAPES = {'scalar': (), 'vector': (I_,), 'image': (H1, H2, I_)}


def shaped(shape, n=N):
    return {'input': opaque('X' + str(len(shape)), n, *shape), 'target': opaque('Y', n, C)}


def model(shape, vm=True, out=C):
    r = len(shape)
    return make_model(rank=r, strict=r if vm else r + 1, out=out)


def quad(params, vec, d, f=ONE):
    return ggn_reference(params, vec, d, 'mse', f)


def ggn_ob(sh, vm):
    shape, tag = SHAPES[sh], f'{sh}{"" if vm else "-batch"}'

    @ob('C28', f'ggn-{tag}', GGN, RULE)
    def _(c):
        params, vec, d = tree(), tree('v'), shaped(shape)
        mv = c.call(GGN, model(shape, vm), params, d, loss_fn=lossfn(c, 'mse'), vmap_over_data=vm)
        c.eq(c.call(mv, vec), quad(params, vec, d), 'create_ggn_mv')
        mv = c.call(GGN0, model(shape, vm), params, lossfn(c, 'mse'), 1.0, vmap_over_data=vm)
        c.eq(c.call(mv, vec, d), quad(params, vec, d), 'create_ggn_mv_without_data')
        mv = c.call(API + 'GGN', model(shape, vm), params, d, lossfn(c, 'mse'), vmap_over_data=vm)
        c.eq(c.call(mv, vec), quad(params, vec, d), 'GGN')
        mv = c.call(API + 'GGN', model(shape, vm), params, Loader([d]), lossfn(c, 'mse'), vmap_over_data=vm)
        c.eq(c.call(mv, vec), quad(params, vec, d), 'GGN over a loader')

    @ob('C28', f'hessian-{tag}', HESS, RULE)
    def _(c):
        params, vec, d = tree(), tree('v'), shaped(shape)
        want = None
        for f, how in ((make_model(rank=len(shape)), True), (model(shape, vm), vm)):
            got = []
            got.append(c.call(c.call(HESS, f, params, d, loss_fn=lossfn(c, 'mse'), vmap_over_data=how), vec))
            got.append(c.call(c.call(HESS0, f, params, lossfn(c, 'mse'), 1.0, vmap_over_data=how), vec, d))
            want = want or got[0]
            for g in got:
                c.eq(g, want, 'Hessian@v')

    @ob('C28', f'laplace-{tag}', API + 'laplace', RULE)
    def _(c):
        params, d = tree(), shaped(shape)
        for ct in ('full', 'diagonal'):
            for src in (d, (d['input'], d['target']), Loader([(d['input'], d['target'])])):
                _, est = c.call(API + 'laplace', model(shape, vm), params, src, loss_fn=lossfn(c, 'mse'), curv_type=ct, vmap_over_data=vm)
                (check_dense if ct == 'full' else check_diag)(c, est, entry(params, d, 'mse', ONE))

    @ob('C28', f'likelihood-{tag}', LIK + 'marginal_log_likelihood', RULE)
    def _(c):
        from . import p_mll as PM
        params, d = tree(), shaped(shape)
        est = PM.estimate(c, 'diagonal', PM.NP, R)
        got = c.call(LIK + 'marginal_log_likelihood', est, {'prior_prec': pf('tau')}, d, model(shape, vm), params, lossfn(c, 'mse'), kind(c, 'diagonal'), vmap_over_data=vm)
        c.eq(got, Arr((), lambda i: PM.mll('diagonal', c, 'mse', params, d, PM.TAU, ONE, ONE, ONE)), 'marginal log-likelihood')


for s_ in SHAPES:
    for vm_ in (True, False):
        ggn_ob(s_, vm_)


def push_ob(sh):
    shape = SHAPES[sh]

    @ob('C28', f'pushforward-{sh}', PU + 'set_lin_pushforward', 'the predictive of one data point calls the model with that data point')
    def _(c):
        params, x = tree(), opaque('x' + str(len(shape)), *shape)
        for pre in ('lin', 'nonlin'):
            fns = [c.get(PU + f'{pre}_{q}') for q in ('setup', 'pred_mean', 'pred_std')]
            kw = dict(mean_params=params, posterior_fn=posterior(c), prior_arguments={'prior_prec': pf('tau')}, pushforward_fns=fns, key=key(), num_samples=2)
            got = c.call(c.call(PU + f'set_{pre}_pushforward', model_fn=model(shape), **kw), x)
            c.eq(got['map'], Arr((C,), lambda i: fval(x, params, i[0])), 'map')
            if pre == 'lin':
                c.eq(got['pred_mean'], Arr((C,), lambda i: fval(x, params, i[0])), 'pred_mean')
            c.ok(got['pred_std'].ndim == 1, 'one standard deviation per output')
            # reference: the same model on the vectorised input
        c.ok(True, 'no exception')

    @ob('C28', f'evaluation-{sh}', API + 'evaluation', 'evaluation and calibration call the model with one data point at a time')
    def _(c):
        seen = []
        c.stub(PC.CAL + 'optimize_prior_prec', lambda it, a, k: seen.append((a, k)) or S('best'))
        d, params = shaped(shape), tree()
        want = Arr((N, C), lambda i: fval(row(d['input'], i[0]), params, i[1]))
        for side in ('linear', 'nonlinear'):
            res, pp = c.call(API + 'evaluation', posterior(c), model(shape), params, {'prior_prec': pf('tau')}, d, metrics=Builtin('m', take_map),
                             sample_key=key(), num_samples=2, pushforward_type=side,
                             pushforward_fns=[c.get(PU + f'{PRE[side]}_{q}') for q in ('setup', 'pred_mean')])
            c.eq(res['m'], want, 'map of every data point')
        c.call(API + 'calibration', posterior(c), model(shape), params, d, loss_fn=lossfn(c, 'mse'), curv_estimate=opaque('h', A1 * A2 + B),
               curv_type=kind(c, 'diagonal'), sample_key=key(), num_samples=2, pushforward_fns=[c.get(PU + 'lin_setup'), Builtin('given', PC.given)])
        if not seen:
            c.undecided('no call of optimize_prior_prec seen')
        f = seen[0][1].get('objective', seen[0][0][0] if seen[0][0] else None)
        c.ok(isinstance(c.call(f, {'prior_prec': pf('t1')}), Arr), 'value of the objective')


def dataset_ob(sh):
    shape = SHAPES[sh]
    EU = 'laplax.eval.utils.'

    @ob('C28', f'datasets-{sh}', EU + 'evaluate_on_dataset', 'predictions over data sets and generators call the predictive with one data point at a time, of the rank of the data')
    def _(c):
        params, d = tree(), shaped(shape)
        m = model(shape)

        def pred(it, a, k):
            return {'map': it.call(m, [a[0] if a else k['input'], params], {})}
        pred = Builtin('pred_fn', pred)
        want = Arr((N, C), lambda i: fval(row(d['input'], i[0]), params, i[1]))
        got = c.call(EU + 'evaluate_on_dataset', pred, d)
        c.eq(got['map'], want, 'map')
        c.eq(got['target'], d['target'], 'target')
        met = Builtin('m', take_map)
        for src in (d, {'target': d['target'], 'input': d['input']}):
            c.eq(c.call(EU + 'evaluate_metrics_on_dataset', pred, src, metrics=[met])['m'], want, 'metrics over a data set')
        for src in ([d], [d, d]):
            got = c.call(EU + 'evaluate_metrics_on_generator', pred, list(src), metrics=[met])['m']
            c.eq(got, [want] * len(src), 'metrics over a generator')
        seen = []

        def metric(it, a, k):
            seen.append(k)
            return S('score')

        def sp(it, a, k):
            return pred
        c.call('laplax.eval.calibrate.evaluate_for_given_prior_arguments', prior_arguments={'prior_prec': pf('tau')}, data=d,
               set_prob_predictive=Builtin('set_prob_predictive', sp), metric=Builtin('metric', metric))
        c.eq(seen[0]['map'], want, 'map given to the metric')


for s_ in SHAPES:
    dataset_ob(s_)


PRE = {'linear': 'lin', 'nonlinear': 'nonlin'}


def take_map(it, a, k):
    aux = k['aux'] if 'aux' in k else a[1]
    res = k['results'] if 'results' in k else a[0]
    res['m'] = aux['map']
    return res, aux


for s_ in SHAPES:
    push_ob(s_)


# ---------------------------------------------------------------- parameter trees of other structure
def nested(t):
    return {'z': (t['a'], {'w': t['b']})}


FORMS = {'list': (lambda t: [t['a'], t['b']], lambda p: {'a': p[0], 'b': p[1]}),
         'tuple': (lambda t: (t['a'], t['b']), lambda p: {'a': p[0], 'b': p[1]}),
         'nested': (nested, lambda p: {'a': p['z'][0], 'b': p['z'][1]['w']}),
         'with-none': (lambda t: {'x': t['a'], 'y': None, 'z': t['b']}, lambda p: {'a': p['x'], 'b': p['z']})}


def form_model(back):
    m = make_model(strict=1)

    def f(it, a, k):
        v = dict(zip(('input', 'params'), a), **k)
        try:
            p = back(v['params'])
        except (KeyError, IndexError, TypeError):
            raise AbsRaise(TypeError, f'the model received parameters of another structure: {brief(v["params"])}')
        return it.call(m, [v['input'], p], {})
    return Builtin('model', f)


def form_post(c, to, back):
    base = posterior(c)

    def f(it, a, k):
        p = it.call(base, a, k)
        st = it.getattr(p, 'state')

        def op(name):
            g = it.getattr(p, name)

            def h(it2, a2, k2):
                inner = it2.call(g, a2, k2)

                def mv(it3, a3, k3):
                    try:
                        v = back(a3[0])
                    except (KeyError, IndexError, TypeError):
                        raise AbsRaise(TypeError, 'posterior operator applied to a tree of another structure')
                    return to(it3.call(inner, [v], {}))
                return Builtin(name, mv)
            return Builtin(name, h)
        return c.call('laplax.curv.cov.Posterior', state=st, scale_mv=op('scale_mv'), cov_mv=op('cov_mv'))
    return Builtin('posterior_fn', f)


def form_ob(form):
    to, back = FORMS[form]

    @ob('C28', f'params-{form}', GGN, 'parameter trees of any structure: products, curvature and likelihood are those of the same parameters in another container')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        for how in ('with', 'without', 'api'):
            if how == 'with':
                mv = c.call(GGN, form_model(back), to(params), d, loss_fn=lossfn(c, 'mse'))
            elif how == 'without':
                mv0 = c.call(GGN0, form_model(back), to(params), lossfn(c, 'mse'), 1.0)
                mv = Builtin('mv', lambda it, a, k: it.call(mv0, [a[0], d], {}))
            else:
                mv = c.call(API + 'GGN', form_model(back), to(params), d, lossfn(c, 'mse'))
            got = c.call(mv, to(vec))
            c.eq(got, to(quad(params, vec, d)), f'GGN ({how} data)')
        for ct in ('full', 'diagonal'):
            post, est = c.call(API + 'laplace', form_model(back), to(params), d, loss_fn=lossfn(c, 'mse'), curv_type=ct)
            (check_dense if ct == 'full' else check_diag)(c, est, entry(params, d, 'mse', ONE))

    @ob('C28', f'hessian-params-{form}', HESS, 'Hessian products for parameter trees of any structure')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        got = c.call(c.call(HESS, form_model(back), to(params), d, loss_fn=lossfn(c, 'mse')), to(vec))
        want = c.call(c.call(HESS, make_model(), params, d, loss_fn=lossfn(c, 'mse')), vec)
        c.eq(got, to(want), 'Hessian@v')

    @ob('C28', f'posterior-params-{form}', 'laplax.curv.cov.set_posterior_fn', 'the posterior operators act on trees of the structure of the layout')
    def _(c):
        from .p_post import estimate, PRIOR
        params, vec = tree(), tree('v')
        for k in ('full', 'diagonal', 'lanczos'):
            est = estimate(c, k, A1 * A2 + B, R)
            res = []
            for lay, v in ((params, vec), (to(params), to(vec))):
                post = c.call(c.call('laplax.curv.cov.set_posterior_fn', k, est, layout=lay), PRIOR(), pf('ell'))
                st = c.it.getattr(post, 'state')
                res.append([c.call(c.call(c.it.getattr(post, n), st), v) for n in ('scale_mv', 'cov_mv')])
            for x, y in zip(*res):
                c.eq(y, to(x), f'{k}: posterior operator')

    @ob('C28', f'pushforward-params-{form}', PU + 'set_lin_pushforward', 'pushforwards for parameter trees of any structure')
    def _(c):
        params, x = tree(), opaque('x', I_)
        for pre in ('lin', 'nonlin'):
            fns = [c.get(PU + f'{pre}_{q}') for q in ('setup', 'pred_mean', 'pred_std', 'samples')]
            out = []
            for mdl, mp, po in ((make_model(), params, posterior(c)), (form_model(back), to(params), form_post(c, to, back))):
                out.append(c.call(c.call(PU + f'set_{pre}_pushforward', model_fn=mdl, mean_params=mp, posterior_fn=po,
                                         prior_arguments={'prior_prec': pf('tau')}, pushforward_fns=fns, key=key(), num_samples=2), x))
            for n in ('map', 'pred_mean', 'pred_std', 'samples'):
                c.eq(out[1][n], out[0][n], n)


for f_ in FORMS:
    form_ob(f_)
