"""C27: what laplax returns can be traced (jit, vmap, grad) and gives the same values."""
from .common import *
from engine.lib import ext
from .p_api import API, COV, kind
from .p_curv import GGN, GGN0, HESS, HESS0, lossfn, ggn_reference
from .p_post import KINDS, estimate, pf
from .p_mll import call_mll, mll, LIK, NP, TAU, S2, SG
from .p_metric import ME, regr
from .p_push import PU, push, x_in, key, cov_ref
from .p_pred import partial_of

Q, = dims('Q')


def jx(n):
    return ext('jax.' + n)


def stacked(v, name):
    """A batch of arguments with a new leading axis."""
    if isinstance(v, dict):
        return {k: stacked(x, f'{name}_{k}') for k, x in v.items()}
    v = asarr(v)
    pos = T.pos_poly(v.at(*fresh_idx(v)))
    a = opaque(name, Q, *v.axes, props=('pos',) if pos else ())
    a.dtype = v.dtype
    return a


def member(v, n):
    if isinstance(v, dict):
        return {k: member(x, n) for k, x in v.items()}
    v = asarr(v)
    return Arr(v.axes[1:], lambda i: v.at(n, *i), v.dtype, v.tl)


def level(v):
    if isinstance(v, dict):
        return max([level(x) for x in v.values()] + [0])
    if isinstance(v, (list, tuple)):
        return max([level(x) for x in v] + [0])
    return v.tl if isinstance(v, Arr) else 0


def traces(c, f, *args, what='result', jit=True, vmap=True, name='q'):
    first = None
    if jit:
        first, e = c.attempt(lambda: c.call(c.call(jx('jit'), f), *args))
        c.ok(e is None, f'{what}: fails under jit: {e!r}')
    want, e = c.attempt(lambda: c.call(f, *args))
    c.ok(e is None, f'{what}: eager call{" after tracing" if jit else ""} fails: {e!r}')
    c.ok(level(want) == 0, f'{what}: an eager call{" after tracing" if jit else ""} returns a tracer')
    if jit:
        c.eq(first, want, f'{what} under jit')
        got, e = c.attempt(lambda: c.call(c.call(jx('jit'), f), *args))
        c.ok(e is None, f'{what}: fails under jit after an eager call: {e!r}')
        c.eq(got, want, f'{what} under jit after an eager call')
    if vmap:
        many = [stacked(a, f'{name}{k}') for k, a in enumerate(args)]
        got, e = c.attempt(lambda: c.call(c.call(jx('vmap'), f), *many))
        c.ok(e is None, f'{what}: fails under vmap: {e!r}')
        n = fresh(Q)
        c.eq(member(got, n), c.call(f, *[member(a, n) for a in many]), f'{what} under vmap')
    late, e = c.attempt(lambda: c.call(f, *args))
    c.ok(e is None, f'{what}: eager call after tracing fails: {e!r}')
    c.ok(level(late) == 0, f'{what}: an eager call after tracing returns a tracer')
    c.eq(late, want, f'{what} after tracing')


def fun(f):
    return Builtin('f', lambda it, a, k: f(*a))


def tr_mv_ob(name, loss):
    @ob('C27', f'{name}-{loss}', {'ggn': GGN, 'hessian': HESS}[name], 'the product is the same under jit and vmap over vectors')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        lf = lossfn(c, loss)
        if name == 'ggn':
            mv = c.call(GGN, make_model(), params, d, loss_fn=lf)
        else:
            mv = c.call(HESS, make_model(), params, d, lf)
        traces(c, mv, vec, what='matrix-vector product')

    @ob('C27', f'{name}-nodata-{loss}', {'ggn': GGN0, 'hessian': HESS0}[name], 'the product of vector and data is the same under jit and vmap over vectors')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        lf = lossfn(c, loss)
        mv = c.call({'ggn': GGN0, 'hessian': HESS0}[name], make_model(), params, lf, S('factor'), vmap_over_data=True)
        traces(c, mv, vec, d, what='matrix-vector product', vmap=False)
        traces(c, fun(lambda v: c.call(mv, v, d)), vec, what='matrix-vector product', jit=False)


for n_ in ('ggn', 'hessian'):
    for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy'):
        tr_mv_ob(n_, l_)


def tr_factory_ob(name, loss):
    @ob('C27', f'{name}-params-{loss}', {'ggn': GGN, 'hessian': HESS}[name], 'parameters and data may be traced when the product is created')
    def _(c):
        params, vec, d = tree(), tree('v'), data()
        lf = lossfn(c, loss)

        def f(p, v, x, y):
            dd = {'input': x, 'target': y}
            if name == 'ggn':
                mv = c.call(GGN, make_model(), p, dd, loss_fn=lf)
            else:
                mv = c.call(HESS, make_model(), p, dd, lf)
            return c.call(mv, v)
        traces(c, fun(f), params, vec, d['input'], d['target'], what='matrix-vector product', vmap=False)


for n_ in ('ggn', 'hessian'):
    for l_ in ('mse', 'cross_entropy'):
        tr_factory_ob(n_, l_)


def tr_post_ob(k, what):
    @ob('C27', f'posterior-{what}-{k}', COV + 'set_posterior_fn', 'the operator of a posterior for traced prior arguments and scaling factor is the same under jit and vmap')
    def _(c):
        full = k == 'full'
        n = Pn if full else NP
        fn_ = c.call(COV + 'set_posterior_fn', kind(c, k), estimate(c, k, n, R), layout=py(n) if full else tree())

        def f(tau, s2, ell, v):
            po = c.call(fn_, {'prior_prec': tau, 'sigma_squared': s2}, ell)
            return c.call(c.call(c.it.getattr(po, what), c.it.getattr(po, 'state')), v)
        traces(c, fun(f), pf('tau'), pf('s2'), pf('ell'), opaque('v', Pn) if full else tree('v'), what=what)


for k_ in KINDS:
    tr_post_ob(k_, 'cov_mv')
    tr_post_ob(k_, 'scale_mv')


def tr_mll_ob(k):
    @ob('C27', f'mll-{k}', LIK + 'marginal_log_likelihood', 'the marginal likelihood is the same under jit and vmap over prior arguments, and its gradient is the derivative of the eager value')
    def _(c):
        params, d = tree(), data()
        lf = lossfn(c, 'mse')
        f = fun(lambda tau, sg, s2: call_mll(c, k, {'prior_prec': tau, 'sigma': sg, 'sigma_squared': s2}, params, d, lf))
        traces(c, f, pf('tau'), pf('sg'), pf('s2'), what='marginal log-likelihood')
        g, e = c.attempt(lambda: c.call(c.call(jx('grad'), f), pf('tau'), pf('sg'), pf('s2')))
        c.ok(e is None, f'marginal log-likelihood: fails under grad: {e!r}')
        want = mll(k, c, 'mse', params, d, TAU, S2, ONE, SG)
        c.same(asarr(g).at(), deriv(want, {'tau': lambda i: ONE}), 'derivative with respect to the prior precision')


for k_ in KINDS:
    tr_mll_ob(k_)


LIN = ['lin_pred_mean', 'lin_pred_var', 'lin_pred_std', 'lin_pred_cov', 'lin_samples', 'lin_special_pred_act', 'lin_mc_pred_act']
NONLIN = ['nonlin_pred_mean', 'nonlin_pred_var', 'nonlin_pred_std', 'nonlin_pred_cov', 'nonlin_samples', 'nonlin_special_pred_act', 'nonlin_mc_pred_act']


def tr_push_ob(side, f):
    @ob('C27', f'push-{f}', PU + f'set_{side}_pushforward', 'the predictive is the same under jit and vmap over inputs')
    def _(c):
        kw = {'key': key(), 'num_samples': 2} if side == 'nonlin' or 'samples' in f or 'mc' in f else {}
        fns = [side + '_setup']
        if f != 'nonlin_samples' and 'mc' in f:
            fns.append(side + '_samples')
        if 'special' in f:
            fns += [side + '_pred_mean', side + '_pred_var']
        pp = push(c, side, fns + [f], **kw)
        traces(c, pp, x_in(), what='predictive')


def tr_special_ob(name, **kw):
    @ob('C27', f'special-{name}', f'laplax.eval.predictives.{name}', 'the class predictive of given moments is the same under jit and vmap')
    def _(c):
        m, v = opaque('mq', C), opaque('vq', C, C) if '2' in name else opaque('vq', C, props=('pos',))
        traces(c, fun(lambda *a: c.call(f'laplax.eval.predictives.{name}', *a, **kw)), *([m, v] if name != 'dirichlet_predictive' else [v]), what=name)


tr_special_ob('laplace_bridge', use_correction=True)
tr_special_ob('dirichlet_predictive')
tr_special_ob('mean_field_0_predictive')
tr_special_ob('mean_field_1_predictive')
tr_special_ob('mean_field_2_predictive')
for f_ in LIN:
    tr_push_ob('lin', f_)
for f_ in NONLIN:
    tr_push_ob('nonlin', f_)


# ---- kernels
@ob('C27', 'kernel', PU + 'set_posterior_gp_kernel', 'kernel products and dense kernels are the same under jit and vmap over the inputs')
def _(c):
    from .p_push import gp
    kmv, ds = gp(c)
    traces(c, fun(lambda u, a, b: c.call(kmv, u, a, b, ds)), opaque('u', C), x_in('1'), x_in('2'), what='kernel product')
    k, ds = gp(c, dense=True, output_layout=py(C))
    traces(c, k, x_in('1'), x_in('2'), what='dense kernel', name='k')


# ---- gradients with respect to the input
def grad_ob(name, fns, ref):
    @ob('C27', f'grad-{name}', PU + 'set_lin_pushforward', 'predictive moments can be differentiated with respect to the input')
    def _(c):
        PROPS.setdefault('model', set())
        x, params = x_in(), tree()
        pp = push(c, 'lin', ['lin_setup'] + fns)

        def f(x):
            r = asarr(c.call(pp, x)['pred_' + name])
            i = fresh_idx(r)
            return Arr((), lambda _: esum(r.at(*i), *i), r.dtype, r.tl)
        g, e = c.attempt(lambda: c.call(c.call(jx('grad'), fun(f)), x))
        c.ok(e is None, f'fails under grad: {e!r}')
        i = fresh(I_)
        w = fresh(C)
        c.same(g.at(i), deriv(esum(ref(x, params).at(w), w), {'x': lambda j: delta0(j[0] - i)}), 'gradient')


grad_ob('mean', ['lin_pred_mean'], lambda x, params: Arr((C,), lambda i: fval(x, params, i[0])))
grad_ob('var', ['lin_pred_var'], lambda x, params: Arr((C,), lambda i: cov_ref(x, params).at(i[0], i[0])))


# ---- metrics
def tr_metric_ob(name, args, vm=True, **kw):
    @ob('C27', f'metric-{name}', ME + name, 'the metric is the same under jit and vmap')
    def _(c):
        vals = args()
        names = list(vals)
        f = fun(lambda *a: asarrays(c.call(ME + name, **dict(zip(names, a)), **{k: v(c) if callable(v) else v for k, v in kw.items()})))
        traces(c, f, *vals.values(), what=name, vmap=vm)


def asarrays(r):
    return {n: asarr(x) for n, x in enumerate(r)} if isinstance(r, (list, tuple)) else r


def regression():
    return dict(zip(('pred_mean', 'pred_std', 'target'), regr(C)))


def classes():
    return {'pred': opaque('p', N, C), 'target': opaque('oh', N, C)}


def probs():
    return {'prob_p': opaque('pp', N, C, props=('pos',)), 'prob_q': opaque('pq', N, C, props=('pos',))}


def binned():
    from .p_metric import conf_corr
    return dict(zip(('confidence', 'correctness'), conf_corr()))


for m_ in ('crps_gaussian', 'nll_gaussian', 'chi_squared'):
    tr_metric_ob(m_, regression)
tr_metric_ob('estimate_rmse', lambda: {k: v for k, v in regression().items() if k != 'pred_std'})
tr_metric_ob('chi_squared_zero', regression)
tr_metric_ob('correctness', classes)
tr_metric_ob('accuracy', classes, top_k=(1, 2))
tr_metric_ob('cross_entropy', probs)
tr_metric_ob('calculate_bin_metrics', binned, vm=False, num_bins=3)
tr_metric_ob('expected_calibration_error', binned, vm=False, num_bins=3)
tr_metric_ob('maximum_calibration_error', binned, vm=False, num_bins=3)


# ---- utilities
UF, UT, UM = 'laplax.util.flatten.', 'laplax.util.tree.', 'laplax.util.mv.'


@ob('C27', 'flatten', UF + 'create_pytree_flattener', 'flatten and unflatten are the same under jit and vmap')
def _(c):
    fl, un = c.call(UF + 'create_pytree_flattener', tree())
    traces(c, fl, tree('t'), what='flatten')
    traces(c, un, opaque('flat', NP), what='unflatten', name='u')
    traces(c, fun(lambda t: c.call(c.call(UF + 'create_pytree_flattener', t)[0], t)), tree('t'), what='flattener of a traced tree', name='w')


@ob('C27', 'dense-diagonal', UM + 'to_dense', 'dense matrix and diagonal of an operator with traced coefficients')
def _(c):
    from .p_tree import lin_map
    a = opaque('Mq', const(3), const(3))
    f = lambda m: Builtin('mv', lambda it, x, k: matmul_(m, asarr(x[0])))
    traces(c, fun(lambda m: c.call(UM + 'to_dense', f(m), layout=3)), a, what='to_dense')
    traces(c, fun(lambda m: c.call(UM + 'diagonal', f(m), layout=3)), a, what='diagonal of an operator', name='d')
    traces(c, fun(lambda m: c.call(UM + 'diagonal', m)), a, what='diagonal of a matrix', name='e')


def matmul_(m, x):
    j = fresh(m.dims[1])
    return Arr((m.axes[0],), lambda i: esum(m.at(i[0], j) * x.at(j), j), 'float', max(m.tl, x.tl))


for f_ in ('add', 'sub', 'neg', 'mul', 'sqrt', 'mean', 'var', 'std', 'ones_like', 'zeros_like'):
    def _mk(f):
        @ob('C27', f'tree-{f}', UT + f, 'the tree operation is the same under jit and vmap')
        def _(c):
            args = {'add': 2, 'sub': 2}.get(f, 1)
            ts = [tree(f't{n}') for n in range(args)]
            if f == 'sqrt':
                ts = [tmap(lambda x: opaque(f'sq{x.ndim}', *x.axes, props=('pos',)), tree('t'))]
            if f == 'mul':
                ts = [S('s')] + ts
            traces(c, fun(lambda *a: c.call(UT + f, *a)), *ts, what=f)
    _mk(f_)


@ob('C27', 'randn', UT + 'randn_like', 'random trees are the same under jit, and for every traced key under vmap')
def _(c):
    traces(c, fun(lambda k: c.call(UT + 'randn_like', k, tree())), key(), what='randn_like', vmap=False)
    traces(c, fun(lambda m: c.call(UT + 'normal_like', key(), m, lambda_id(c))), tree('m'), what='normal_like', vmap=False)


def lambda_id(c):
    return Builtin('scale', lambda it, a, k: a[0])


@ob('C27', 'basis', UT + 'basis_vector_from_index', 'basis vectors for a traced index')
def _(c):
    i = Arr((), lambda _: fresh(NP), 'int')
    traces(c, fun(lambda i: c.call(UT + 'basis_vector_from_index', i, tree())), i, what='basis vector', vmap=False)


# ---- objective of the calibration
def tr_eval_ob(met):
    @ob('C27', f'objective-{met}', 'laplax.eval.calibrate.evaluate_for_given_prior_arguments', 'the calibration objective is the same under jit')
    def _(c):
        from .p_push import posterior
        d = data()

        def sp(pa):
            return push(c, 'lin', ['lin_setup', 'lin_pred_mean', 'lin_pred_std'], prior_arguments=pa, posterior_fn=scaled_posterior(c))
        f = fun(lambda tau: c.call('laplax.eval.calibrate.evaluate_for_given_prior_arguments',
                                   data=d, set_prob_predictive=Builtin('sp', lambda it, a, k: sp(k.get('prior_arguments', a[0] if a else None))),
                                   metric=c.get(ME + met), prior_arguments={'prior_prec': tau}))
        traces(c, f, pf('tau'), what='objective', vmap=False)


def scaled_posterior(c):
    """Posterior whose operators depend on the prior precision."""
    from .p_push import cov_map, scale_map

    def op(f):
        def g(it, a, k):
            st = asarr(a[0])
            return Builtin('op', lambda it2, v, k2: tmap(lambda x: Arr(x.axes, lambda i: x.at(*i) / st.at(), x.dtype, max(x.tl, st.tl)), c.it.call(f, list(v), k2)))
        return Builtin('op', g)
    return Builtin('posterior_fn', lambda it, a, k: c.call('laplax.curv.cov.Posterior', state=dict(zip(('prior_arguments',), a), **k)['prior_arguments']['prior_prec'],
                                                           cov_mv=op(cov_map()), scale_mv=op(scale_map())))


for m_ in ('nll_gaussian', 'chi_squared_zero'):
    tr_eval_ob(m_)
