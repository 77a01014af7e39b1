"""C24 metric formulas."""
from .common import *

ME = 'laplax.eval.metrics.'
PI_ = None


def pi():
    from engine.lib5 import PI as p
    return p


def regr(*sh):
    return opaque('m', *sh), opaque('s', *sh, props=('pos',)), opaque('y', *sh)


def total(x, f):
    i = fresh_idx(x)
    return esum(f(*i), *i)


def size(x):
    r = ONE
    for a in x.axes:
        r = r * a.dim
    return r


def val(p):
    return Arr((), lambda i: p, 'float')


def ndtr(z):
    return fn('ndtr', z)


def crps(m, s, y):
    def f(*i):
        z = (y.at(*i) - m.at(*i)) / s.at(*i)
        pdf = fn('exp', -z ** 2 / 2) / sqrt(pi() * 2)
        return s.at(*i) * (z * (ndtr(z) * 2 - 1) + pdf * 2 - ONE / sqrt(pi()))
    return f


def nll(m, s, y):
    return lambda *i: (((m.at(*i) - y.at(*i)) / s.at(*i)) ** 2 + fn('log', pi() * 2)) / 2 + fn('log', s.at(*i))


def chi2(m, s, y):
    return lambda *i: ((m.at(*i) - y.at(*i)) / s.at(*i)) ** 2


SHAPES = {'vector': (C,), 'matrix': (N, C)}


def form_ob(name, f, sh, opt):
    n = {'crps': 'crps_gaussian', 'nll': 'nll_gaussian', 'chi2': 'chi_squared'}[name]
    key = {'chi2': 'averaged'}.get(name, 'scaled')
    tag = '' if opt is None else '-mean' if opt else '-sum'

    @ob('C24', f'{name}-{sh}{tag}', ME + n, 'closed formula of the metric, averaged over all entries or summed')
    def _(c):
        m, s, y = regr(*SHAPES[sh])
        kw = {} if opt is None else {key: opt}
        got = c.call(ME + n, pred_mean=m, pred_std=s, target=y, **kw)
        t = total(m, f(m, s, y))
        c.eq(got, val(t if opt is False else t / size(m)), n)


for nm_, f_ in (('crps', crps), ('nll', nll), ('chi2', chi2)):
    for sh_ in SHAPES:
        for opt_ in (None, True, False):
            form_ob(nm_, f_, sh_, opt_)


@ob('C24', 'positional', ME + 'nll_gaussian', 'positional order: prediction, deviation, target')
def _(c):
    m, s, y = regr(C)
    for n in ('nll_gaussian', 'crps_gaussian', 'chi_squared'):
        c.eq(c.call(ME + n, m, s, y), c.call(ME + n, pred_mean=m, pred_std=s, target=y), n)


@ob('C24', 'extra-entries', ME + 'nll_gaussian', 'further entries of the predictions are ignored')
def _(c):
    m, s, y = regr(C)
    for n in ('nll_gaussian', 'crps_gaussian', 'chi_squared', 'chi_squared_zero', 'estimate_rmse'):
        want = c.call(ME + n, pred_mean=m, target=y, **({} if n == 'estimate_rmse' else {'pred_std': s}))
        c.eq(c.call(ME + n, pred_mean=m, pred_std=s, target=y, map=y, pred_act=s), want, n)


@ob('C24', 'chi2-zero', ME + 'chi_squared_zero', '|chi^2 - 1|')
def _(c):
    m, s, y = regr(N, C)
    t = total(m, chi2(m, s, y)) / size(m)
    c.eq(c.call(ME + 'chi_squared_zero', pred_mean=m, pred_std=s, target=y), val(fn('abs', t - 1)), 'chi^2 distance')


@ob('C24', 'rmse', ME + 'estimate_rmse', 'root of the mean squared error over all entries')
def _(c):
    for sh in SHAPES.values():
        m, _, y = regr(*sh)
        c.eq(c.call(ME + 'estimate_rmse', m, y), val(sqrt(total(m, lambda *i: (m.at(*i) - y.at(*i)) ** 2) / size(m))), 'rmse')


@ob('C24', 'shapes', ME + 'nll_gaussian', 'arrays of different shapes raise ValueError')
def _(c):
    m, s, y = regr(N, C)
    bad = opaque('bad', C, props=('pos',))
    sized = [opaque('z', *map(const, d), props=('pos',)) for d in ((2, 3), (3, 2), (6,), (1, 3), (2, 1), (2, 3, 1), ())]
    for n in ('nll_gaussian', 'crps_gaussian'):
        for a in ((bad, s, y), (m, bad, y), (m, s, bad)):
            c.raises(lambda: c.call(ME + n, *a), ValueError, what=n)
        g = sized[0]
        for z in sized[1:]:
            for a in ((z, g, g), (g, z, g), (g, g, z), (z, z, g), (z, g, z), (g, z, z)):
                c.raises(lambda: c.call(ME + n, *a), ValueError, what=f'{n}, shapes {[i.axes for i in a]}')


@ob('C24', 'cross-entropy', ME + 'cross_entropy', '-sum p log q along the axis')
def _(c):
    p, q = opaque('p', N, C, props=('pos',)), opaque('q', N, C, props=('pos',))
    w, v = fresh(C), fresh(N)
    c.eq(c.call(ME + 'cross_entropy', p, q), Arr((N,), lambda i: -esum(p.at(i[0], w) * fn('log', q.at(i[0], w)), w)), 'cross entropy')
    c.eq(c.call(ME + 'cross_entropy', p, q, axis=0), Arr((C,), lambda i: -esum(p.at(v, i[0]) * fn('log', q.at(v, i[0])), v)), 'cross entropy, axis 0')


@ob('C24', 'cross-entropy-zero', ME + 'cross_entropy', 'a class of probability zero contributes nothing, whatever the prediction for it')
def _(c):
    h = Q(1, 2)
    p, q = [0, h, 0, h], [0, Q(1, 4), Q(3, 4), Q(1, 8)]
    got = asarr(c.call(ME + 'cross_entropy', asarr(p), asarr(q))).scalar()
    c.ok('nan' not in show(got), f'0 log 0 counts as zero, got {cut(show(got))}')
    c.same(got, -(const(h) * fn('log', const(Q(1, 4))) + const(h) * fn('log', const(Q(1, 8)))), 'cross entropy')


REGR = {'rmse': 'estimate_rmse', 'chi^2': 'chi_squared', 'nll': 'nll_gaussian', 'crps': 'crps_gaussian'}


@ob('C24', 'default-metrics', 'laplax.eval.metrics.DEFAULT_REGRESSION_METRICS', 'the default regression metrics report every metric under its own name')
def _(c):
    m, s, y = regr(C)
    d = c.get(ME + 'DEFAULT_REGRESSION_METRICS_DICT')
    c.ok(isinstance(d, dict) and set(d) == set(REGR), f'names of the default metrics: {brief(d)}')
    want = {n: c.call(ME + f, pred_mean=m, **({} if f == 'estimate_rmse' else {'pred_std': s}), target=y) for n, f in REGR.items()}
    for n in REGR:
        c.eq(c.call(d[n], pred_mean=m, pred_std=s, target=y), want[n], f'metric {n!r} of the dictionary')
    l = c.get(ME + 'DEFAULT_REGRESSION_METRICS')
    res = {}
    for f in c.it.iterate(l):
        res, _ = c.call(f, res, {'pred_mean': m, 'pred_std': s, 'target': y})
    c.eq(res, want, 'default metrics')


def argmax_row(x, n):
    return app('argmax', (), [lam_of(Arr((C,), lambda i: x.at(n, i[0])))], ())


@ob('C24', 'correctness', ME + 'correctness', 'argmax of the prediction equals the label, for integer and one-hot targets')
def _(c):
    p, y, oh = opaque('p', N, C), opaque('lab', N, dtype='int', props=('int',)), opaque('oh', N, C)
    c.eq(c.call(ME + 'correctness', p, y), Arr((N,), lambda i: delta0(argmax_row(p, i[0]) - y.at(*i)), 'bool'), 'integer labels')
    c.eq(c.call(ME + 'correctness', p, oh), Arr((N,), lambda i: delta0(argmax_row(p, i[0]) - argmax_row(oh, i[0])), 'bool'), 'one-hot labels')


@ob('C24', 'brier', ME + 'multiclass_brier', 'mean squared difference between class probabilities and one-hot label over samples and classes (as a loss or, negated, as a score)')
def _(c):
    labels = (0, 2, 1, 2)
    p = opaque('p', 4, 3)
    y = Arr((4,), lambda i: psum(delta0(i[0] - n) * l for n, l in enumerate(labels)), 'int')
    oh = Arr((4, 3), lambda i: psum(delta0(i[0] - n) * delta0(i[1] - l) for n, l in enumerate(labels)))
    want = psum((p.at(const(n), const(j)) - int(j == l)) ** 2 for n, l in enumerate(labels) for j in range(3)) / 12
    for t, what in ((y, 'integer labels'), (oh, 'one-hot labels')):
        g = asarr(c.call(ME + 'multiclass_brier', p, t))
        c.same(g.scalar() ** 2, want ** 2, what)


def topk(x, n, r):
    if const_val(P(r)) == 0:
        return argmax_row(x, n)
    return app('topk_idx', (), [lam_of(Arr((C,), lambda i: x.at(n, i[0])))], (P(r),))


def acc_ob(ks, onehot, classes=None):
    @ob('C24', f'accuracy-{"-".join(map(str, ks))}-{"onehot" if onehot else "labels"}', ME + 'accuracy',
        'for every k: percentage of samples whose label is among the k largest predictions, k at most the number of classes')
    def _(c):
        k4 = const(4)
        p = opaque('p', N, k4)
        y = opaque('oh', N, k4) if onehot else opaque('lab', N, dtype='int', props=('int',))
        got = c.call(ME + 'accuracy', p, y, top_k=ks)
        c.ok(isinstance(got, (list, tuple)) and len(got) == len(ks), f'one accuracy per k: {brief(got)}')

        def lam4(x, n):
            return lam_of(Arr((k4,), lambda i: x.at(n, i[0])))
        for k, g in zip(ks, got):
            n = fresh(N)
            lab = app('argmax', (), [lam4(y, n)], ()) if onehot else y.at(n)
            r = ZERO
            for j in range(min(k, 4)):
                idx = app('argmax', (), [lam4(p, n)], ()) if j == 0 else app('topk_idx', (), [lam4(p, n)], (const(j),))
                r = r + delta0(idx - lab)
            c.same(asarr(g).scalar(), esum(r, n) * 100 / N, f'top-{k} accuracy')


acc_ob((1,), False)
acc_ob((1,), True)
acc_ob((1, 3), False)
acc_ob((3, 1, 2), True)
acc_ob((2, 9), False)


def bins(conf, corr, nb, n_dim=N):
    """(count, sum of confidences, sum of correctness) of bin b; bins are [b/nb, (b+1)/nb), the last one closed and everything outside clipped."""
    def member(x, b):
        lo = ONE if b == 0 else iverson('>=', x - const(Q(b, nb)))
        hi = ZERO if b == nb - 1 else iverson('>=', x - const(Q(b + 1, nb)))
        return lo * (ONE - hi) if b else ONE - hi

    def f(b):
        n = fresh(n_dim)
        mm = member(conf.at(n), b)
        return esum(mm, n), esum(mm * conf.at(n), n), esum(mm * corr.at(n), n)
    return f


def conf_corr(kind='float'):
    return opaque('conf', N, props=('unit',)), opaque('corr', N, dtype=kind, props=('zero_one',))


def nz(p):
    """[p > 0] for a count."""
    return iverson('>', p)


def bin_metrics(c, kind):
    conf, corr = conf_corr(kind)
    nb = 4
    got = c.call(ME + 'calculate_bin_metrics', conf, corr, nb)
    f = bins(conf, corr, nb)
    for b in range(nb):
        cnt, sc, sr = f(b)
        c.same(asarr(got[0]).at(const(b)), cnt / N, f'proportion of bin {b}')
        for pos, s, what in ((1, sc, 'confidence'), (2, sr, 'accuracy')):
            c.same(asarr(got[pos]).at(const(b)) * cnt, s, f'mean {what} of bin {b} times its count')
            c.same(asarr(got[pos]).at(const(b)) * (ONE - nz(cnt)), ZERO, f'mean {what} of bin {b} if it is empty')


for kind in ('float', 'bool', 'int'):
    ob('C24', 'bin-metrics' + (kind != 'float') * f'-{kind}', ME + 'calculate_bin_metrics',
       f'per bin: proportion of samples, mean confidence and accuracy (zero for an empty bin) for {kind} labels',
       limit=300)(lambda c, kind=kind: bin_metrics(c, kind))


def ce_ob(name, fun, kind, nb, **kw):
    @ob('C24', name, ME + fun, 'ECE = sum over bins of proportion * |accuracy - confidence|; MCE = maximum of the latter', limit=300)
    def _(c):
        conf, corr = conf_corr()
        cnt_, co_, ac_ = (opaque(n, const(nb), props=('pos',)) for n in ('bc', 'bf', 'ba'))
        seen = []
        c.stub(ME + 'calculate_bin_metrics', lambda it, a, k: seen.append((a, k)) or (cnt_, co_, ac_))
        got = c.call(ME + fun, confidence=conf, correctness=corr, num_bins=nb, **{k: v(c) for k, v in kw.items()})
        if not seen:
            c.undecided('no call of calculate_bin_metrics seen')
        v = dict(zip(('confidence', 'correctness', 'num_bins'), seen[0][0]), **seen[0][1])
        c.eq(v['confidence'], conf, 'confidence of the bins')
        c.eq(v['correctness'], corr, 'correctness of the bins')
        c.ok(v.get('num_bins') == nb, 'the number of bins is passed on')
        d = [fn('abs', ac_.at(const(b)) - co_.at(const(b))) for b in range(nb)]
        if kind == 'l1':
            w = psum(cnt_.at(const(b)) * d[b] for b in range(nb))
        else:
            w = d[0]
            for x in d[1:]:
                w = fn('max2', w, x)
        c.eq(got, val(w), fun)


ce_ob('ece', 'expected_calibration_error', 'l1', 3)
ce_ob('mce', 'maximum_calibration_error', 'inf', 3)
norm = lambda n: lambda c: c.it.getattr(c.get('laplax.enums.CalibrationErrorNorm'), n)
ce_ob('calibration-error-l1', 'calibration_error', 'l1', 3, norm=norm('L1'))
ce_ob('calibration-error-inf', 'calibration_error', 'inf', 3, norm=norm('INF'))
ce_ob('calibration-error-l1-name', 'calibration_error', 'l1', 3, norm=lambda c: 'l1')
