"""C36 documented misuse raises the documented exception."""
from .common import *
from . import base, p_api, p_calib, p_curv, p_default, p_entry, p_loader, p_metric, p_plumb, p_post, p_pred, p_push, p_reg, p_tree
from .p_curv import lossfn
from .p_lanczos import LZ, LB, summary, SIG_LOBPCG, SIG_LANCZOS
from .p_post import KINDS, kind, pf
from .p_push import PU, posterior, key, x_in
from .p_reg import snapshot, unchanged
from .p_tree import lin_map

CU, CV = 'laplax.curv.utils.', 'laplax.curv.cov.'

# obligations of other properties about a rejected call, also part of this one
SHARED = {'C03': ['ggn-loss-args'], 'C04': ['loss-hessian-missing'], 'C05': ['hessian-unknown-loss'],
          'C09': ['register-missing-'], 'C10': ['curv-type-unknown', 'curv-type-near', 'loss-unknown', 'evaluation-unknown', 'evaluation-near',
                                                'calibration-near', 'evaluation-nonlinear-special'],
          'C11': ['api-batch-format', 'api-batch-malformed', 'process-empty-'], 'C14': ['diagonal-no-layout'], 'C19': ['linear-default-special'],
          'C20': ['kernel-dense-layout'], 'C23': ['objective-invalid', 'data-malformed'], 'C24': ['shapes'],
          'C25': ['metrics-spec', 'data-malformed', 'apply-errors', 'transfer-errors', 'no-metrics']}
for o_ in list(OBS):
    for k_ in SHARED.get(o_.pid, []):
        if o_.again is None and (o_.key == k_ or k_.endswith('-') and o_.key.startswith(k_)):
            OBS.append(base.Ob('C36', f'{o_.pid}-{o_.key}', o_.construct, o_.rule, o_.body, o_.tier, o_.limit, o_.paths))
            break


def callable_mv(log=None):
    def f(it, a, k):
        if log is not None:
            log.append(a[0])
        return a[0]
    return Builtin('mv', f)


@ob('C36', 'get-matvec', CU + 'get_matvec', 'a callable without layout raises TypeError, with and without jit; an array needs no layout')
def _(c):
    for jit in (True, False):
        log = []
        c.raises(lambda: c.call(CU + 'get_matvec', callable_mv(log), jit=jit), TypeError, what='get_matvec of a callable')
        c.raises(lambda: c.call(CU + 'get_matvec', callable_mv(log), layout=None, jit=jit), TypeError, what='get_matvec of a callable, layout None')
        c.ok(not log, 'the operator is not applied')
        a = opaque('A', Pn, Pn)
        f, size = c.call(CU + 'get_matvec', a, jit=jit)
        c.eq(c.call(f, opaque('x', Pn)), matmul(a, opaque('x', Pn)), 'product')


def solver_ob(fun, mod):
    @ob('C36', f'{fun}-layout', mod + fun, 'a callable without layout raises TypeError before it is applied')
    def _(c):
        log = []
        c.raises(lambda: c.call(mod + fun, callable_mv(log), key=key(), rank=1), TypeError, what=f'{fun} of a callable')
        c.raises(lambda: c.call(mod + fun, callable_mv(log), key=key(), rank=1, layout=None), TypeError, what=f'{fun} of a callable, layout None')
        c.ok(not log, 'the operator is not applied')


solver_ob('lanczos_lowrank', LZ)
solver_ob('lobpcg_lowrank', LB)


@ob('C36', 'lanczos-start', LZ + 'lanczos_lowrank', 'neither key nor start vector raises ValueError; either of them is enough')
def _(c):
    n = 12
    log = summary(c, LZ + 'lanczos_iterations', SIG_LANCZOS,
                  lambda v: (opaque('al', const(2)), opaque('be', const(2)), opaque('v', const(3), const(n))))
    for op, lay in ((opaque('A', const(n), const(n)), None), (callable_mv(), n)):
        for kw in ({}, {'key': None}, {'b': None}, {'key': None, 'b': None}):
            c.raises(lambda: c.call(LZ + 'lanczos_lowrank', op, layout=lay, rank=2, **kw), ValueError, what=f'lanczos_lowrank {kw}')
        for kw in ({'key': key()}, {'b': opaque('b0', const(n))}, {'key': key(), 'b': None}, {'b': opaque('b0', const(n)), 'key': None}):
            c.call(LZ + 'lanczos_lowrank', op, layout=lay, rank=2, **kw)
    for name in ('lanczos',):
        c.raises(lambda: c.call(CV + 'estimate_curvature', kind(c, 'lanczos'), mv=callable_mv(), layout=n, rank=2), ValueError, what='estimate_curvature lanczos without key')


@ob('C36', 'lin-setup', PU + 'lin_setup', 'a posterior state, JVP or VJP of the wrong type raises TypeError')
def _(c):
    post = c.call(posterior(c), {'prior_prec': pf('tau')}, ONE)
    fn_ = lambda n: Builtin(n, lambda it, a, k: a[-1])
    good = {'posterior_state': post, 'jvp': fn_('jvp'), 'vjp': fn_('vjp')}
    args = lambda ds: dict(results={}, aux={}, input=x_in(), dist_state=ds)
    c.call(PU + 'lin_setup', **args(dict(good)))
    for k, bad in (('posterior_state', {'state': opaque('state', Pn)}), ('posterior_state', None), ('posterior_state', opaque('st', Pn)),
                   ('jvp', opaque('J', Pn)), ('jvp', None), ('vjp', None), ('vjp', {'a': 1}), ('vjp', opaque('J', Pn))):
        c.raises(lambda: c.call(PU + 'lin_setup', **args({**good, k: bad})), TypeError, what=f'lin_setup with {k} = {brief(bad)}')


@ob('C36', 'unknown-curvature', CV + 'estimate_curvature', 'an unknown curvature type raises KeyError instead of falling back to another approximation')
def _(c):
    mv, h = lin_map(Pn), opaque('h', Pn, props=('pos',))
    for bad in ('no_such_type', 'FULL ', ''):
        c.raises(lambda: c.call(CV + 'estimate_curvature', bad, mv=mv, layout=py(Pn)), KeyError, what=f'estimate_curvature({bad!r})')
        c.raises(lambda: c.call(CV + 'create_posterior_fn', bad, mv, layout=py(Pn)), KeyError, what=f'create_posterior_fn({bad!r})')
        c.raises(lambda: c.call(c.call(CV + 'set_posterior_fn', bad, h, layout=py(Pn)), {'prior_prec': pf('tau')}), KeyError, what=f'set_posterior_fn({bad!r})')
        c.raises(lambda: c.call('laplax.eval.likelihood.marginal_log_likelihood', h, {'prior_prec': pf('tau')}, data(), make_model(), tree(), lossfn(c, 'mse'), bad),
                 KeyError, what=f'marginal_log_likelihood({bad!r})')


@ob('C36', 'register-unknown-default', 'laplax.register.register_curvature_method', 'an unknown default method raises KeyError')
def _(c):
    fns = p_reg.custom()
    for given in ({}, {'create_curvature_fn': fns['create_curvature_fn']}, {a: fns[a] for a in p_reg.ARGS[:-1]}):
        for bad in ('no such method', ''):
            c.raises(lambda: c.call('laplax.register.register_curvature_method', name='mine', default=bad, **given), KeyError, what=f'default={bad!r}')


@ob('C36', 'missing-prior', CV + 'set_posterior_fn', 'prior arguments without prior_prec raise KeyError')
def _(c):
    for k in KINDS:
        f = c.call(CV + 'set_posterior_fn', kind(c, k), p_post.estimate(c, k), layout=py(Pn))
        c.raises(lambda: c.call(f, {}), KeyError, what=f'{k} posterior without prior precision')
        c.raises(lambda: c.call(f, {'sigma_squared': pf('s2')}), KeyError, what=f'{k} posterior without prior precision')


@ob('C36', 'diagonal', 'laplax.util.mv.diagonal', 'the diagonal of a callable without layout raises TypeError before it is applied')
def _(c):
    log = []
    for jit in (True, False):
        c.raises(lambda: c.call('laplax.util.mv.diagonal', callable_mv(log), mv_jittable=jit), TypeError, what='diagonal of a callable')
        c.raises(lambda: c.call('laplax.util.mv.diagonal', callable_mv(log), None, mv_jittable=jit), TypeError, what='diagonal of a callable, layout None')
    c.ok(not log, 'the operator is not applied')


@ob('C36', 'str-to-bool', 'laplax.util.ops.str_to_bool', "only 'True' and 'False' are accepted")
def _(c):
    f = 'laplax.util.ops.str_to_bool'
    c.ok(c.call(f, 'True') is True and c.call(f, 'False') is False, 'valid values')
    for bad in ('true', 'FALSE', '1', '0', '', 'yes', 'None'):
        c.raises(lambda: c.call(f, bad), ValueError, what=f'str_to_bool({bad!r})')
