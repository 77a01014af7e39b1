"""C25 the default metric sets of evaluation()."""
from .common import *
from .p_api import API
from .p_curv import softmax_at
from .p_loader import Loader
from .p_metric import nll, chi2, crps, REGR
from .p_plumb import run_eval, batches
from engine.arr import concatenate

F = {'map': 'mp', 'pred_mean': 'pm', 'pred_std': 'ps', 'pred_act': 'pa'}


def given(it, a, k):
    res = k['results'] if 'results' in k else a[0]
    aux = k['aux'] if 'aux' in k else a[1]
    PROPS['ps'] = {'pos'}
    for n, f in F.items():
        res[n] = app_arr(f, [k['input']], (ax(C),))
    return res, aux


def at(d, n):
    """The reported entries of data point n."""
    x = row(d['input'], n)
    return {q: Arr((C,), lambda i, f=f: app(f, (), [lam_of(x)], (i[0],))) for q, f in F.items()}


def avg(f):
    i = fresh_idx(Arr((C,), lambda i: f(i[0])))
    return esum(f(*i), *i) / C


def regression(d, n):
    v = at(d, n)
    m, s, y = v['pred_mean'], v['pred_std'], row(d['target'], n)
    se = avg(lambda i: (m.at(i) - y.at(i)) ** 2)
    return {'rmse': sqrt(se), 'chi^2': avg(chi2(m, s, y)), 'nll': avg(nll(m, s, y)), 'crps': avg(crps(m, s, y))}


def amax(x):
    return app('amax', (), [lam_of(x)], ())


def argmax(x):
    return app('argmax', (), [lam_of(x)], ())


def classification(d, n):
    v = at(d, n)
    m, s, lab = v['pred_mean'], v['pred_std'], d['target'].at(n)
    hot = Arr((C,), lambda i: delta0(i[0] - lab))
    return {'confidences_map': amax(Arr((C,), lambda i: softmax_at(v['map'].at, i[0]))), 'confidences_pred': amax(v['pred_act']),
            'correctness_map': delta0(argmax(v['map']) - lab), 'correctness_pred': delta0(argmax(m) - lab),
            'nll_gaussian': avg(nll(m, s, hot))}


REF = {'regression': regression, 'classification': classification}


def labelled(d, tag=''):
    return {'input': d['input'], 'target': opaque('lab' + tag, d['target'].axes[0].dim, dtype='int', props=('int',))}


def default_ob(name, form, src):
    @ob('C25', f'evaluation-default-{name}-{form}-{src}', API + 'evaluation', 'the default metric sets report their documented metrics for every data point, requested by name, by enum member or by default')
    def _(c):
        met = {'string': name, 'upper': name.upper(), 'enum': c.it.getattr(c.get('laplax.enums.DefaultMetrics'), name.upper())}.get(form)
        kw = {'pushforward_fns': [Builtin('given', given)]}
        fun, cls = REF[name], name == 'classification'
        if form == 'default':
            kw['metrics'] = None
        else:
            kw['metrics'] = met
        if src == 'data':
            d = labelled(data()) if cls else data()
            res, _ = ev(c, d, **kw)
            want = {k: Arr((N,), lambda i, k=k: fun(d, i[0])[k]) for k in fun(d, const(0))}
        else:
            bs = [labelled(b, str(j)) if cls else b for j, b in enumerate(batches(2))]
            res, _ = ev(c, Loader([(b['input'], b['target']) for b in bs]), **kw)
            want = {k: concatenate([Arr((dim(f'M{j}'),), lambda i, k=k, b=b: fun(b, i[0])[k]) for j, b in enumerate(bs)])
                    for k in fun(bs[0], const(0))}
        c.ok(set(res) == set(want), f'metrics: {sorted(res)}')
        for k in want:
            c.eq(res[k], want[k], k)


def ev(c, src, metrics=None, **kw):
    from .p_push import posterior, key
    from .p_post import pf
    args = dict(sample_key=key(), num_samples=2, **kw)
    if metrics is not None:
        args['metrics'] = metrics
    return c.call(API + 'evaluation', posterior(c), make_model(), tree(), {'prior_prec': pf('t1')}, src, **args)


for n_ in ('regression', 'classification'):
    for f_ in ('string', 'enum'):
        default_ob(n_, f_, 'data')
    default_ob(n_, 'upper', 'stream')
default_ob('regression', 'default', 'data')


@ob('C25', 'metrics-spec', API + 'evaluation', 'one callable is a list of one; a tuple is a list; an empty list, a number and an unknown name raise ValueError; the list of the caller is not changed')
def _(c):
    from .p_plumb import metric, met_value, EU
    d = data()
    ap = c.call(EU + 'apply_fns', metric('f'), names=['F'], pm='pm', ps='ps', target='target')
    for what, m in (('callable', ap), ('tuple', (ap,)), ('list', [ap])):
        n = len(m) if isinstance(m, list) else None
        res, _ = run_eval(c, d, metrics=m)
        c.eq(res, {'F': met_value(d, 'f')}, what)
        c.ok(n is None or len(m) == n, 'the list of the caller grew')
    for what, bad in (('empty list', []), ('empty tuple', ()), ('number', 3), ('unknown name', 'precision'), ('None', None)):
        c.raises(lambda: run_eval(c, d, metrics=bad), ValueError, what=what)
