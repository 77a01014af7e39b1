"""C06 sample scaling, C09 registry, C10 names, C26 arguments, C28 model contract, C11 at the API."""
from .common import *
from .p_curv import ggn_reference, loss_hessian, GGN, HESS, lossfn, custom_loss
from .p_post import kind
from .p_loader import Loader

API = 'laplax.api.'
COV = 'laplax.curv.cov.'


def entry(params, d, loss, factor, nsamp=N):
    """Dense GGN entry ((k1, i), (k2, j))."""
    def f(k1, i, k2, j):
        n, a, b = fresh(nsamp), fresh(C), fresh(C)
        x, y = row(d['input'], n), row(d['target'], n)
        h = loss_hessian(loss, lambda q: fval(x, params, q), C, lambda q: y.at(q))
        return factor * esum(jac(x, params, a, k1, i) * h(a, b) * jac(x, params, b, k2, j), a, b, n)
    return f


def check_dense(c, F, ent, what='curvature'):
    i1, i2, j1, j2, k1, l1 = fresh(A1), fresh(A2), fresh(A1), fresh(A2), fresh(B), fresh(B)
    off = A1 * A2
    p, q = i1 * A2 + i2, j1 * A2 + j2
    c.ok(F.ndim == 2, f'{what} is a matrix')
    c.same(F.at(p, q), ent('a', (i1, i2), 'a', (j1, j2)), what + ', block aa')
    c.same(F.at(p, off + k1), ent('a', (i1, i2), 'b', (k1,)), what + ', block ab')
    c.same(F.at(off + k1, q), ent('b', (k1,), 'a', (j1, j2)), what + ', block ba')
    c.same(F.at(off + k1, off + l1), ent('b', (k1,), 'b', (l1,)), what + ', block bb')


def check_diag(c, D, ent, what='curvature'):
    i1, i2, k1 = fresh(A1), fresh(A2), fresh(B)
    c.ok(D.ndim == 1, f'{what} is a vector')
    c.same(D.at(i1 * A2 + i2), ent('a', (i1, i2), 'a', (i1, i2)), what + ', leaf a')
    c.same(D.at(A1 * A2 + k1), ent('b', (k1,), 'b', (k1,)), what + ', leaf b')


# ---------------------------------------------------------------- C06
SCALES_ = {'default': ({}, ONE), 'total': ({'num_total_samples': T_}, T_ / N),
           'curv': ({'num_curv_samples': K_}, ONE), 'both': ({'num_total_samples': T_, 'num_curv_samples': K_}, T_ / K_)}


def scale_ob(name, vm):
    kw, f = SCALES_[name]
    kw = {k: py(v) for k, v in kw.items()}
    tag = name + ('' if vm else '-nomap')

    @ob('C06', f'ggn-{tag}', GGN, 'GGN = num_total_samples / num_curv_samples * sum over data; num_curv defaults to the number of data, num_total to num_curv')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        mv = c.call(GGN, make_model(), params, d, loss_fn=lossfn(c, 'mse'), vmap_over_data=vm, **kw)
        c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'mse', f), 'GGN@v')

    @ob('C06', f'hessian-{tag}', HESS, 'Hessian = num_total_samples / num_curv_samples * sum over data; num_curv defaults to the number of data, num_total to num_curv')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        mv1 = c.call(HESS, make_model(), params, d, loss_fn=lossfn(c, 'mse'), vmap_over_data=vm, **kw)
        mv0 = c.call('laplax.curv.hessian.create_hessian_mv_without_data', make_model(), params, lossfn(c, 'mse'), 1.0, vmap_over_data=vm)
        base = c.call(mv0, vec, d)
        c.eq(c.call(mv1, vec), tmap(lambda b: Arr(b.axes, lambda i: f * b.at(*i)), base), 'Hessian@v')


for n_ in SCALES_:
    scale_ob(n_, True)
    if n_ in ('default', 'both'):
        scale_ob(n_, False)


@ob('C06', 'ggn-factor', API + 'GGN', 'the factor multiplies the operator; it defaults to one')
def _(c):
    params, vec, d = tree(), tree('v'), data()
    mv = c.call(API + 'GGN', make_model(), params, d, lossfn(c, 'mse'), factor=S('factor'))
    c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'mse', sym('factor')), 'GGN@v')
    mv = c.call(API + 'GGN', make_model(), params, d, lossfn(c, 'mse'))
    c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'mse', ONE), 'GGN@v with the default factor')


def laplace_ob(ct, how):
    @ob('C06', f'laplace-{ct}-{how}', API + 'laplace', 'laplace() scales the curvature by num_total_samples / num_curv_samples (default one)', limit=200)
    def _(c):
        params, d = tree(), data()
        kw = {'num_curv_samples': py(K_), 'num_total_samples': py(T_)} if how != 'default' else {}
        f = T_ / K_ if how != 'default' else ONE
        src = Loader([(d['input'], d['target'])]) if how == 'stream' else d
        _, est = c.call(API + 'laplace', make_model(), params, src, loss_fn=lossfn(c, 'mse'), curv_type=kind(c, ct), **kw)
        ent = entry(params, d, 'mse', f)
        (check_dense if ct == 'full' else check_diag)(c, est, ent)


for ct_ in ('full', 'diagonal'):
    for h_ in ('default', 'scaled', 'stream'):
        laplace_ob(ct_, h_)


# ---------------------------------------------------------------- C11 at the API
def batches2():
    return [(opaque('X0', dim('M0'), I_), opaque('Y0', dim('M0'), C)), (opaque('X1', dim('M1'), I_), opaque('Y1', dim('M1'), C))]


def as_dict(b):
    return {'input': b[0], 'target': b[1]}


def sum_ent(es):
    return lambda *a: sum((e(*a) for e in es), ZERO)


def stream_ob(form):
    @ob('C11', f'api-ggn-{form}', API + 'GGN', 'GGN over a loader = sum over its batches, for tuple, list and dict batches and a user transform')
    def _(c):
        params, vec = tree(), tree('v')
        bs = batches2()
        kw = {}
        if form == 'tuple':
            items = bs
        elif form == 'list':
            items = [list(b) for b in bs]
        elif form == 'dict':
            items = [as_dict(b) for b in bs]
        else:
            items = [{'x': b[0], 'y': b[1]} for b in bs]
            kw = {'transform': Builtin('tr', lambda it, a, k: {'input': a[0]['x'], 'target': a[0]['y']})}
        mv = c.call(API + 'GGN', make_model(), params, Loader(items), lossfn(c, 'mse'), factor=S('factor'), **kw)
        r = [ggn_reference(params, vec, as_dict(b), 'mse', sym('factor'), m) for b, m in zip(bs, (dim('M0'), dim('M1')))]
        want = tmap(lambda a, b: Arr(a.axes, lambda i: a.at(*i) + b.at(*i)), *r)
        c.eq(c.call(mv, vec), want, 'GGN@v')
        c.eq(c.call(mv, vec), want, 'GGN@v, second application')


for f_ in ('tuple', 'list', 'dict', 'transform'):
    stream_ob(f_)


def single_ob(form):
    @ob('C11', f'api-ggn-single-{form}', API + 'GGN', 'a tuple, list or mapping of arrays is one batch')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        src = {'tuple': (d['input'], d['target']), 'list': [d['input'], d['target']], 'dict': d,
               'transform': {'x': d['input'], 'y': d['target']}}[form]
        kw = {'transform': Builtin('tr', lambda it, a, k: {'input': a[0]['x'], 'target': a[0]['y']})} if form == 'transform' else {}
        mv = c.call(API + 'GGN', make_model(), params, src, lossfn(c, 'mse'), factor=S('factor'), **kw)
        c.eq(c.call(mv, vec), ggn_reference(params, vec, d, 'mse', sym('factor')), 'GGN@v')


for f_ in ('tuple', 'list', 'dict', 'transform'):
    single_ob(f_)


@ob('C11', 'api-batch-format', API + '_validate_and_get_transform', 'batches of another format raise ValueError')
def _(c):
    params, d = tree(), data()
    for bad in ((d['input'],), (d['input'], d['target'], d['input']), {'input': d['input']}, {'target': d['target']}):
        c.raises(lambda: c.call(API + 'GGN', make_model(), params, bad, lossfn(c, 'mse')), ValueError, what=f'batch with {len(bad)} entries')


def laplace_stream_ob(ct):
    @ob('C11', f'api-laplace-{ct}', API + 'laplace', 'laplace() over a loader builds the curvature of the concatenated data')
    def _(c):
        params = tree()
        bs = batches2()
        kw = {'num_curv_samples': py(K_), 'num_total_samples': py(T_)}
        _, est = c.call(API + 'laplace', make_model(), params, Loader(bs), loss_fn=lossfn(c, 'mse'), curv_type=kind(c, ct), **kw)
        ent = sum_ent([entry(params, as_dict(b), 'mse', T_ / K_, m) for b, m in zip(bs, (dim('M0'), dim('M1')))])
        (check_dense if ct == 'full' else check_diag)(c, est, ent)


laplace_stream_ob('full')
laplace_stream_ob('diagonal')
