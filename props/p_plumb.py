"""C25 evaluation plumbing."""
from .common import *
from .p_api import API
from engine.arr import concatenate
from .p_loader import Loader, one_shot
from .p_post import pf
from .p_push import posterior, key

EU = 'laplax.eval.utils.'


def pred(log=None):
    """An opaque predictive {'pm': (C,), 'ps': (C,)}."""
    def f(it, a, k):
        x = a[0] if a else k['input']
        if log is not None:
            log.append(x)
        return {'pm': app_arr('pm', [x], (ax(C),)), 'ps': app_arr('ps', [x], (ax(C),))}
    return Builtin('pred_fn', f)


def pm(d, name='pm', n=N):
    return Arr((n, C), lambda i: app(name, (), [lam_of(row(d['input'], i[0]))], (i[1],)))


def metric(name, log=None, names=('pm', 'ps', 'target')):
    """An opaque scalar metric of prediction and target."""
    def f(it, a, k):
        if log is not None:
            log.append((a, k))
        return app_arr('met_' + name, [k[n] for n in names], ())
    b = Builtin(name, f)
    b.attrs['__name__'] = name
    return b


def met_value(d, name, n=N, names=('pm', 'ps', 'target')):
    def body(i):
        vs = {'pm': row(pm(d, 'pm', n), i[0]), 'ps': row(pm(d, 'ps', n), i[0]), 'target': row(d['target'], i[0])}
        return app('met_' + name, (), [lam_of(vs[q]) for q in names], ())
    return Arr((n,), body)


# ---- finalize_fns, apply_fns, transfer_entry
@ob('C25', 'finalize', EU + 'finalize_fns', 'functions are applied in order, each receives the results and auxiliary entries of the previous one and all options')
def _(c):
    trace = []

    def step(n):
        def f(it, a, k):
            v = dict(zip(('results', 'aux'), a), **k)
            trace.append((n, dict(v['results']), dict(v['aux']), v.get('opt')))
            # a step may return new mappings instead of the ones it was given
            return {**v['results'], f'r{n}': n}, {**v['aux'], f'a{n}': n}
        return Builtin(f'f{n}', f)
    got = c.call(EU + 'finalize_fns', [step(1), step(2), step(3)], {'r0': 0}, {'a0': 0}, opt='o')
    c.ok(dict(got) == {'r0': 0, 'r1': 1, 'r2': 2, 'r3': 3}, f'result {brief(got)}')
    c.ok([t[0] for t in trace] == [1, 2, 3], f'order of application {[t[0] for t in trace]}')
    for n, (q, r, a, o) in enumerate(trace):
        c.ok(r == {f'r{j}': j for j in range(n + 1)} and a == {f'a{j}': j for j in range(n + 1)} and o == 'o', f'step {q} receives {r}, {a}, {o}')


def apply_ob(name, field, use_names):
    @ob('C25', f'apply-{name}', EU + 'apply_fns', 'every function receives the selected entries under the chosen names and stores its value under its name; results take precedence over aux')
    def _(c):
        log = []
        f, g = metric('f', log, ('u', 'v')), metric('g', log, ('u', 'v'))
        kw = {'names': ['F', 'G']} if use_names else {}
        if field is not None:
            kw['field'] = field
        ap = c.call(EU + 'apply_fns', f, g, **kw, u='in_res', v='in_aux')
        a, b, w = opaque('a', C), opaque('b', C), opaque('w', C)
        res, aux = {'in_res': a, 'keep': 1}, {'in_aux': b, 'in_res': w, 'kept': 2}
        r, x = c.call(ap, results=res, aux=aux, opt='o')
        nm = ('F', 'G') if use_names else ('f', 'g')
        t, o = (x, r) if field == 'aux' else (r, x)
        c.ok(set(t) - {'in_res', 'in_aux', 'keep', 'kept'} == set(nm), f'entries written: {sorted(t)}')
        c.ok(not set(o) & set(nm), 'the other mapping is left alone')
        for n, q in zip(nm, ('f', 'g')):
            c.eq(t[n], app_arr('met_' + q, [a, b], ()), f'value of {n}')
        c.ok(all(set(k) == {'u', 'v', 'opt'} and not p for p, k in log), f'arguments of the functions: {[sorted(k) for _, k in log]}')
        c.ok(r['in_res'] is a and r['keep'] == 1 and x['in_aux'] is b and x['in_res'] is w and x['kept'] == 2, 'other entries stay')


apply_ob('default', None, True)
apply_ob('results', 'results', True)
apply_ob('aux', 'aux', True)
apply_ob('function-names', None, False)


@ob('C25', 'apply-all-aux', EU + 'apply_fns', 'without a selection every function receives all auxiliary entries')
def _(c):
    log = []
    ap = c.call(EU + 'apply_fns', metric('f', log), names=['F'])
    aux = {'pm': opaque('a', C), 'ps': opaque('b', C), 'target': opaque('t', C)}
    r, _ = c.call(ap, results={}, aux=aux)
    c.ok(set(log[0][1]) == set(aux), f'arguments {sorted(log[0][1])}')
    c.eq(r['F'], app_arr('met_f', [aux['pm'], aux['ps'], aux['target']], ()), 'value')


@ob('C25', 'apply-errors', EU + 'apply_fns', 'non-callables raise TypeError; missing entries, wrong fields and a wrong number of names raise ValueError')
def _(c):
    f = metric('f', None, ())
    c.raises(lambda: c.call(EU + 'apply_fns', f, 3, names=['a', 'b']), TypeError, what='apply_fns of a number')
    for kw, res in (({'u': 'no'}, {}), ({'field': 'nope'}, {}), ({'names': ['a', 'b']}, {}), ({'names': []}, {})):
        c.raises(lambda: c.call(c.call(EU + 'apply_fns', f, **kw), results=res, aux={}), ValueError, what=f'apply_fns {kw}')


def transfer_ob(field, src, form):
    @ob('C25', f'transfer-{src}-{field}-{form}', EU + 'transfer_entry', 'entries are copied from one mapping to the other under the new names; everything else stays')
    def _(c):
        a, b, z = opaque('a', C), opaque('b', C), opaque('z', C)
        data_ = {'results': {'x': a, 'y': b}, 'aux': {'x': b, 'y': z}}
        mp = {'p': 'x', 'q': 'y'} if form == 'mapping' else ['x', 'y']
        args = () if (field, src) == ('results', 'aux') and form == 'list' else (field, src)
        r, x = c.call(c.call(EU + 'transfer_entry', mp, *args), results=dict(data_['results']), aux=dict(data_['aux']), opt='o')
        out = {'results': r, 'aux': x}
        want = {n: dict(v) for n, v in data_.items()}
        for k, v in (mp.items() if form == 'mapping' else [(q, q) for q in mp]):
            want[field][k] = data_[src][v]
        for n in want:
            c.ok(set(out[n]) == set(want[n]) and all(out[n][q] is want[n][q] for q in want[n]), f'{n} after the transfer: {sorted(out[n])}')


for f_, s_ in (('results', 'aux'), ('aux', 'results'), ('results', 'results'), ('aux', 'aux')):
    for g_ in ('mapping', 'list'):
        transfer_ob(f_, s_, g_)


@ob('C25', 'transfer-errors', EU + 'transfer_entry', 'unknown fields raise ValueError')
def _(c):
    c.raises(lambda: c.call(EU + 'transfer_entry', ['a'], 'nope'), ValueError, what='field')
    c.raises(lambda: c.call(EU + 'transfer_entry', ['a'], 'results', 'nope'), ValueError, what='access_from')


# ---- evaluation on data
@ob('C25', 'dataset', EU + 'evaluate_on_dataset', 'predictions of every data point, stacked in order, with the targets')
def _(c):
    d = data()
    for kw in ({}, {'data_batch_size': 2}, {'evaluate_on_dataset_batch_size': 3}):
        got = c.call(EU + 'evaluate_on_dataset', pred(), d, **kw)
        c.eq(got, {'pm': pm(d), 'ps': pm(d, 'ps'), 'target': d['target']}, 'predictions')


def forms(c):
    ap = c.call(EU + 'apply_fns', metric('f'), metric('g'), names=['F', 'G'], pm='pm', ps='ps', target='target')
    ap2 = c.call(EU + 'apply_fns', metric('h'), names=['H'], pm='pm', ps='ps', target='target')
    return {'list': ({'metrics': [ap, ap2]}, {'F': 'f', 'G': 'g', 'H': 'h'}),
            'dict': ({'metrics_dict': {'D': metric('f'), 'E': metric('g')}}, {'D': 'f', 'E': 'g'}),
            'both': ({'metrics': [ap2], 'metrics_dict': {'D': metric('f')}}, {'H': 'h', 'D': 'f'})}


def ds_ob(form, red):
    @ob('C25', f'metrics-{form}-{red}', EU + 'evaluate_metrics_on_dataset', 'every metric is computed per data point from prediction and target, then reduced over the data')
    def _(c):
        d = data()
        kw, want = forms(c)[form]
        kw = dict(kw)
        lst = kw.get('metrics')
        n0 = len(lst) if lst is not None else 0
        if red == 'sum':
            kw['reduce'] = c.get('laplax.util.ops.jax').resolve('numpy.sum') if False else Builtin('red', lambda it, a, k: app_arr('red', [a[0]], ()))
        got = c.call(EU + 'evaluate_metrics_on_dataset', pred(), d, **kw)
        exp = {k: met_value(d, v) for k, v in want.items()}
        if red == 'sum':
            exp = {k: app_arr('red', [v], ()) for k, v in exp.items()}
        c.eq(got, exp, 'metrics')
        c.ok(lst is None or len(lst) == n0, 'the metrics list of the caller is unchanged')


for f_ in ('list', 'dict', 'both'):
    for r_ in ('none', 'sum'):
        ds_ob(f_, r_)


def batches(k, listed=False):
    out = [{'input': opaque(f'X{j}', dim(f'M{j}'), I_), 'target': opaque(f'Y{j}', dim(f'M{j}'), C)} for j in range(k)]
    return out


def gen_ob(form, k):
    @ob('C25', f'stream-{form}-{k}', EU + 'evaluate_metrics_on_generator', 'every batch is transformed and evaluated once, per data point; the reducer receives the batch values in order')
    def _(c):
        bs = batches(k)
        kw, want = forms(c)[form]
        red, tr = [], []

        def reduce(it, a, kk):
            red.append(a[0])
            return a[0]
        got = c.call(EU + 'evaluate_metrics_on_generator', pred(), Loader([(b['input'], b['target']) for b in bs]),
                     transform=Builtin('tr', lambda it, a, kk: tr.append(a[0]) or {'input': a[0][0], 'target': a[0][1]}),
                     reduce=Builtin('reduce', reduce), **kw)
        c.ok(len(tr) == k, f'{len(tr)} batches transformed instead of {k}')
        c.ok(set(got) == set(want), f'metrics returned: {sorted(got)}')
        for n, v in want.items():
            c.eq(got[n], [met_value(b, v, dim(f'M{j}')) for j, b in enumerate(bs)], n)


for f_ in ('list', 'dict', 'both'):
    gen_ob(f_, 2)
gen_ob('list', 1)
gen_ob('list', 3)


@ob('C25', 'stream-nomap', EU + 'evaluate_metrics_on_generator', 'without mapping the predictive sees whole batches')
def _(c):
    bs, log = batches(2), []
    kw, _w = forms(c)['dict']
    c.call(EU + 'evaluate_metrics_on_generator', pred(log), Loader(bs), vmap_over_data=False, **kw)
    c.ok([x.ndim for x in log] == [2, 2], f'ranks of the inputs: {[x.ndim for x in log]}')
    for x, b in zip(log, bs):
        c.eq(x, b['input'], 'input')


@ob('C25', 'no-metrics', EU + 'evaluate_metrics_on_dataset', 'neither metrics nor metrics_dict raises ValueError')
def _(c):
    c.raises(lambda: c.call(EU + 'evaluate_metrics_on_dataset', pred(), data()), ValueError, what='dataset')
    c.raises(lambda: c.call(EU + 'evaluate_metrics_on_generator', pred(), Loader(batches(1))), ValueError, what='generator')


# ---- evaluation()
def given(it, a, k):
    res = k['results'] if 'results' in k else a[0]
    aux = k['aux'] if 'aux' in k else a[1]
    for n in ('pm', 'ps'):
        res[n] = app_arr(n, [k['input']], (ax(C),))
    return res, aux


def run_eval(c, src, log=None, **kw):
    ap = c.call(EU + 'apply_fns', metric('f'), names=['F'], pm='pm', ps='ps', target='target')
    args = dict(metrics=[ap], pushforward_fns=[Builtin('given', given)], sample_key=key(), num_samples=2)
    args.update(kw)
    return c.call(API + 'evaluation', posterior(c, log), make_model(), tree(), {'prior_prec': pf('t1')}, src, **args)


def ev_ob(form, jit):
    @ob('C25', f'evaluation-{form}-{"jit" if jit else "nojit"}', API + 'evaluation', 'evaluation() applies the metrics to every data point of the data, whatever their form, and returns the predictive for the given prior arguments')
    def _(c):
        d, log = data(), []
        src = {'dict': d, 'tuple': (d['input'], d['target']), 'list': [d['input'], d['target']]}[form]
        res, pp = run_eval(c, src, log, predictive_jit=jit)
        c.eq(res, {'F': met_value(d, 'f')}, 'metrics')
        pa = log[-1][0][0] if log[-1][0] else log[-1][1].get('prior_arguments')
        c.eq(pa, {'prior_prec': pf('t1')}, 'prior arguments of the posterior')
        x = opaque('xq', I_)
        got = c.call(pp, x)
        c.eq(got['pm'], app_arr('pm', [x], (ax(C),)), 'predictive')
        res, _ = run_eval(c, src, None, predictive_jit=jit, reduce=Builtin('red', lambda it, a, k: app_arr('red', [a[0]], ())))
        c.eq(res, {'F': app_arr('red', [met_value(d, 'f')], ())}, 'reduced metrics')


for f_ in ('dict', 'tuple', 'list'):
    ev_ob(f_, True)
ev_ob('dict', False)


def ev_stream_ob(k, form, once):
    @ob('C25', f'evaluation-stream-{form}-{k}{"-iterator" if once else ""}', API + 'evaluation', 'for a loader or iterator, the metrics are those of the concatenated batches, reduced once; no batch is lost')
    def _(c):
        bs = batches(k)
        items = bs if form == 'dict' else [(b['input'], b['target']) for b in bs]

        def src():
            return one_shot(items) if once else Loader(items)
        joined = concatenate([met_value(b, 'f', dim(f'M{j}')) for j, b in enumerate(bs)])
        res, _ = run_eval(c, src())
        c.ok(set(res) == {'F'}, 'metrics')
        c.eq(res['F'], joined, 'metric over all batches')
        red = []
        res, _ = run_eval(c, src(), reduce=Builtin('red', lambda it, a, kk: red.append(a[0]) or app_arr('red', [a[0]], ())))
        c.ok(len(red) == 1, f'reduce is called {len(red)} times for one metric')
        c.eq(red[0], joined, 'argument of reduce')
        c.eq(res, {'F': app_arr('red', [joined], ())}, 'reduced metric')


for k_ in (1, 2, 3):
    ev_stream_ob(k_, 'tuple', False)
ev_stream_ob(2, 'dict', False)
for k_ in (1, 2, 3):
    ev_stream_ob(k_, 'tuple', True)
ev_stream_ob(2, 'dict', True)
