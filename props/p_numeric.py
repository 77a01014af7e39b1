"""C37 losses, evidences, metrics and predictives are computed without avoidable overflow, underflow or cancellation."""
from engine import numeric
from .common import *
from .p_curv import lossfn, GGN, LHM
from .p_post import KINDS, kind, estimate, pf
from .p_push import PU, PR, push, x_in, key, NS
from .p_metric import ME, regr
from .p_mll import LIK, call_mll, NP
from .p_pred import partial_of
from .p_api import API

CONCAT = 'laplax.curv.utils.concatenate_model_and_loss_fn'
EXTREME = {'quick': None}


def clean(c, got, what):
    """No hazard in any entry of a result."""
    if isinstance(got, dict):
        for k, v in got.items():
            clean(c, v, f'{what}[{k!r}]')
        return
    if isinstance(got, (tuple, list)):
        for n, v in enumerate(got):
            clean(c, v, f'{what}[{n}]')
        return
    if not isinstance(got, Arr) or got.dtype in ('key', 'int', 'bool'):
        return
    for combo in itertools.product(*[cells(a) for a in got.axes]):
        p = got.at(*[i for _, i in combo])
        c.stats['checks'] += 1
        h = numeric.hazards(p)
        if h:
            c.fail(f'{what}: {h[0]}')


LOGITS = 'no exponential of an unbounded argument, no logarithm of a probability that can round to zero or one'


def loss_ob(loss, mapped, tgt):
    @ob('C37', f'loss-{loss}-{"batch" if mapped else "single"}{"-" + tgt if tgt else ""}', CONCAT,
        'the loss is finite for finite logits of any size: ' + LOGITS)
    def _(c):
        numeric.install()
        d = data()
        if not mapped:
            d = {k: row(v, fresh(N)) for k, v in d.items()}
        if tgt == 'labels':
            d['target'] = opaque('Yl', N, dtype='int') if mapped else opaque('yl', dtype='int')
        f = c.call(CONCAT, make_model(), lossfn(c, loss), vmap_over_data=mapped)
        clean(c, c.call(f, d['input'], d['target'], tree()), loss)


for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy'):
    for m_ in (True, False):
        loss_ob(l_, m_, '')
for m_ in (True, False):
    loss_ob('cross_entropy', m_, 'labels')


@ob('C37', 'log-sigmoid-cross-entropy', 'laplax.curv.utils.log_sigmoid_cross_entropy', 'finite for finite logits of any size: ' + LOGITS)
def _(c):
    numeric.install()
    clean(c, c.call('laplax.curv.utils.log_sigmoid_cross_entropy', opaque('lg', N), opaque('tg', N, props=('unit',))), 'loss')


def lh_num(loss):
    @ob('C37', f'loss-hessian-{loss}', LHM, 'the loss-Hessian product is finite for finite predictions of any size: ' + LOGITS)
    def _(c):
        numeric.install()
        f = c.call(LHM, lossfn(c, loss))
        clean(c, c.call(f, opaque('jv', C), pred=opaque('p', C), target=opaque('y', C)), 'H@v')


for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy'):
    lh_num(l_)


def ev_num(k, loss):
    @ob('C37', f'evidence-{k}-{loss}', LIK + 'marginal_log_likelihood',
        'the log-determinants are sums of logarithms (or slogdet): no logarithm of a determinant, of a product over the parameters or of a power by their number')
    def _(c):
        numeric.install()
        params, d = tree(), data()
        got = call_mll(c, k, {'prior_prec': pf('tau'), 'sigma': pf('sg'), 'sigma_squared': pf('s2')}, params, d, lossfn(c, loss), loss_scaling_factor=pf('ell'))
        clean(c, got, 'marginal log-likelihood')


for k_ in KINDS:
    for l_ in ('mse', 'cross_entropy', 'binary_cross_entropy'):
        ev_num(k_, l_)


@ob('C37', 'joint', LIK + 'joint_log_likelihood', 'the normalisation of the prior is a multiple of logarithms, not the logarithm of a power by the number of parameters')
def _(c):
    numeric.install()
    got = c.call(LIK + 'joint_log_likelihood', full_fn=Builtin('full', lambda it, a, k: S('Lval')),
                 prior_arguments={'prior_prec': pf('tau'), 'sigma': pf('sg')}, params=tree(), data=data())
    clean(c, got, 'joint log-likelihood')


def met_num(n, sh, opt):
    @ob('C37', f'{n}-{sh}', ME + n, 'finite for every residual and every number of predictions: no logarithm of a density')
    def _(c):
        numeric.install()
        m, s, y = regr(*{'vector': (C,), 'matrix': (N, C)}[sh])
        for o in (True, False):
            clean(c, c.call(ME + n, pred_mean=m, pred_std=s, target=y, **{opt: o}), n)


for n_, o_ in (('crps_gaussian', 'scaled'), ('nll_gaussian', 'scaled'), ('chi_squared', 'averaged')):
    for s_ in ('vector', 'matrix'):
        met_num(n_, s_, o_)


@ob('C37', 'mean-field-0', PR + 'mean_field_0_predictive', 'class probabilities are finite for every finite mean and variance: ' + LOGITS)
def _(c):
    numeric.install()
    clean(c, c.call(PR + 'mean_field_0_predictive', opaque('mu', C), opaque('vr', C, props=('pos',))), 'predictive')


def mc_num(k, fns, entry):
    @ob('C37', f'{k}-{entry}-{len(fns)}', PU + f'{k}_{entry}', 'class probabilities are finite for samples of any size: ' + LOGITS)
    def _(c):
        numeric.install()
        f = [partial_of(c, PU + g, special_pred_type='mean_field_0') if 'special' in g else g for g in fns]
        got = c.call(push(c, k, [g if not isinstance(g, str) else g for g in f], key=key(), num_samples=NS), x_in())
        clean(c, got[entry], entry)


mc_num('lin', ['lin_setup', 'lin_mc_pred_act'], 'mc_pred_act')
mc_num('nonlin', ['nonlin_setup', 'nonlin_mc_pred_act'], 'mc_pred_act')
mc_num('nonlin', ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_samples', 'nonlin_mc_pred_act'], 'mc_pred_act')
mc_num('lin', ['lin_setup', 'lin_special_pred_act'], 'special_pred_act')
mc_num('nonlin', ['nonlin_setup', 'nonlin_special_pred_act'], 'special_pred_act')

MOM = 'spread is computed from deviations or by the library, not as mean of squares minus square of the mean, so a common offset of the predictions does not destroy it'


def mom_num(k, fns, want):
    @ob('C37', f'{k}-moments-{len(fns)}-{want.split()[-1]}', PU + f'set_{k}_pushforward', MOM)
    def _(c):
        numeric.install(moments=True)
        got = c.call(push(c, k, fns, key=key(), num_samples=NS), x_in())
        for w in want.split():
            c.ok(w in got, f'{w} is reported')
            clean(c, got[w], w)


mom_num('nonlin', ['nonlin_setup', 'nonlin_pred_var'], 'pred_var')
mom_num('nonlin', ['nonlin_setup', 'nonlin_pred_cov'], 'pred_cov')
mom_num('nonlin', ['nonlin_setup', 'nonlin_pred_std'], 'pred_std')
mom_num('nonlin', ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_pred_cov', 'nonlin_pred_var', 'nonlin_pred_std'], 'pred_cov pred_var pred_std')
mom_num('nonlin', ['nonlin_setup', 'nonlin_samples', 'nonlin_pred_mean', 'nonlin_pred_var'], 'pred_var')


def tree_num(n):
    @ob('C37', f'tree-{n}', f'laplax.util.tree.{n}', MOM)
    def _(c):
        numeric.install(moments=True)
        t = {'a': opaque('ta', S_, B)} if n == 'cov' else {'a': opaque('ta', S_, A1), 'b': opaque('tb', S_, B)}
        clean(c, c.call(f'laplax.util.tree.{n}', t, **({} if n == 'cov' else {'axis': 0})), n)


for n_ in ('var', 'std', 'cov'):
    tree_num(n_)
