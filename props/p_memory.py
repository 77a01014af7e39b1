"""C31: sizes of the arrays built while the matrix-free methods run."""
from engine import arr as AR
from .common import *
from .base import replay
from .p_effects import group

WEIGHT = {'A1': 1, 'A2': 1, 'B': 2, 'P': 2, 'Q1': 1, 'Q2': 1, 'Q3': 1}      # a parameter count has weight two
RULE = 'no array with a size quadratic in the number of parameters is built: products, diagonal and low-rank posteriors, samples, ' \
       'predictives, kernels and evidences need memory linear in it'
# scenarios which ask for a dense matrix (or whose stand-ins are dense)
DENSE = ('full', 'dense', 'eye', 'jacobian', 'prec-to-scale', 'laplace-nomap', 'mv-own-reduce', 'mv-curvature')


def weight(d):
    r = 0
    for t, _ in d.t:
        r = max(r, sum(WEIGHT.get(a.d if isinstance(a.d, str) else a.d[0], 0) * e for a, e in t.f if a.k == 'n'))
    return r


class Sizes:
    """Watches array construction during calls of the program."""

    def __init__(self):
        self.depth, self.bad, self.seen = 0, [], 0
        self.it = None
        old = AR.Arr.__init__

        def init(arr, axes, *a, **k):
            old(arr, axes, *a, **k)
            if self.depth and len(arr.axes) > 1:
                self.seen += 1
                d = ONE
                for x in arr.axes:
                    d = d * x.dim
                if weight(d) > 3:
                    self.bad.append((show(d), self.it.where()))
        AR.Arr.__init__ = init

    def monitor(self, c, f, a, k):
        self.it = c.it
        self.depth += 1
        try:
            return c.it.call(f, a, k)
        finally:
            self.depth -= 1


def memory_ob(pid, pick=lambda k: True):
    @ob('C31', f'memory-{pid}', 'laplax', RULE, limit=600)
    def _(c):
        w = Sizes()
        n = 0
        for o in group(pid):
            if any(x in o.key for x in DENSE) or not pick(o.key):
                continue

            def finish(c2, o=o):
                for size, where in w.bad:
                    c.fail(f'an array of size {size} is built at {where} (scenario {o.pid} {o.key})')
            n += 1
            replay(o, c.stats, lambda c2: setattr(c2, 'monitor', w.monitor), finish)
        c.stats['checks'] += w.seen
        c.ok(n > 0 and w.seen > 0, f'no scenarios for {pid}')


PICK = {'C33': lambda k: not k.startswith('steps'), 'C05': lambda k: 'cross_entropy' not in k}
for p_ in ('C01', 'C02', 'C03', 'C05', 'C06', 'C11', 'C14', 'C16', 'C17', 'C18', 'C20', 'C21', 'C30', 'C33'):
    memory_ob(p_, PICK.get(p_, lambda k: True))


@ob('C31', 'memory-laplace-diagonal', 'laplax.api.laplace', RULE)
def _(c):
    from .p_api import API
    from .p_curv import lossfn
    from .p_post import pf
    from .p_push import key, PU
    w = Sizes()
    c.monitor = w.monitor
    params, d = tree(), data()
    for ct in ('diagonal',):
        post, est = c.call(API + 'laplace', make_model(), params, d, loss_fn=lossfn(c, 'mse'), curv_type=ct)
        for pre in ('lin', 'nonlin'):
            fns = [c.get(PU + f'{pre}_{q}') for q in ('setup', 'pred_mean', 'pred_cov', 'pred_var', 'pred_std', 'samples')]
            c.call(c.call(PU + f'set_{pre}_pushforward', model_fn=make_model(), mean_params=params, posterior_fn=post,
                          prior_arguments={'prior_prec': pf('tau')}, pushforward_fns=fns, key=key(), num_samples=2), opaque('x', I_))
    for size, where in w.bad:
        c.fail(f'an array of size {size} is built at {where}')
    c.ok(w.seen > 0, 'arrays were built')


@ob('C31', 'dense-is-seen', 'laplax.util.mv.to_dense', 'the watch sees the one array of that size in a dense conversion')
def _(c):
    w = Sizes()
    c.monitor = w.monitor
    v = opaque('v', Pn)
    c.call('laplax.util.mv.to_dense', Builtin('mv', lambda it, a, k: a[0]), layout=pyint(Pn))
    c.ok(bool(w.bad), 'the dense matrix is seen')
