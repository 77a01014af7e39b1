"""C15 PRNG keys, C16 weight samples, C17 linear / C18 nonlinear pushforward, C19 class predictives, C20 GP kernel."""
from .common import *

PU = 'laplax.eval.pushforward.'
PR = 'laplax.eval.predictives.'
TRU = 'laplax.util.tree.'
NS = 3          # concrete number of weight samples; sample positions are symbolic inside the map


def key(name='k'):
    return Arr((), lambda i: sym('key_' + name), 'key')


def sigma(k1, i1, k2, i2):
    """Entry of the (symmetric) weight covariance."""
    if k1 > k2:
        k1, i1, k2, i2 = k2, i2, k1, i1
    if k1 == k2:
        PROPS['Sig' + k1 + k2] = {'sym'}
    return elem('Sig' + k1 + k2, tuple(i1) + tuple(i2))


def cov_map(shapes=None):
    """Covariance operator on the parameter tree: an arbitrary symmetric matrix."""
    shapes = shapes or {'a': (A1, A2), 'b': (B,)}

    def f(it, a, k):
        v = a[0]
        if not isinstance(v, dict) or set(v) != set(shapes):
            raise AbsRaise(TypeError, f'covariance applied to {brief(v)} instead of a parameter tree')
        for q, sh in shapes.items():
            if v[q].ndim != len(sh):
                raise AbsRaise(TypeError, f'covariance applied to a tree with leaf {q} of shape {list(v[q].axes)}')

        def leaf(k1):
            def body(idx):
                r = ZERO
                for k2 in shapes:
                    ii = fresh_idx(v[k2])
                    r = r + esum(sigma(k1, idx, k2, ii) * v[k2].at(*ii), *ii)
                return r
            return Arr(shapes[k1], body, 'float', max(v[q].tl for q in shapes))
        return {k1: leaf(k1) for k1 in shapes}
    return Builtin('cov_mv', f)


def scale_map():
    """Scale operator: an arbitrary function of the tree it is given, one opaque function per leaf."""
    def f(it, a, k):
        v = a[0]
        if not isinstance(v, dict) or set(v) != {'a', 'b'}:
            raise AbsRaise(TypeError, f'scale applied to {brief(v)} instead of a parameter tree')
        return {q: app_arr('scale' + q, [v['a'], v['b']], v[q].axes) for q in ('a', 'b')}
    return Builtin('scale_mv', f)


def posterior(c, log=None):
    """posterior_fn(prior_arguments, loss_scaling_factor) -> Posterior with opaque operators."""
    state = opaque('state', Pn)

    def op(name, f):
        def g(it, a, k):
            if not (len(a) == 1 and a[0] is state):
                raise AbsRaise(TypeError, f'{name} called with something else than the posterior state')
            return f
        return Builtin(name, g)

    def pf(it, a, k):
        if log is not None:
            log.append((a, k))
        return c.call('laplax.curv.cov.Posterior', state=state, cov_mv=op('cov_mv', cov_map()), scale_mv=op('scale_mv', scale_map()))
    return Builtin('posterior_fn', pf)


def x_in(tag=''):
    return opaque('x' + tag, I_)


def jsj(x1, c1, x2, c2, params):
    """J(x1)[c1,:] Sigma J(x2)[c2,:]^T."""
    r = ZERO
    for k1 in params:
        for k2 in params:
            i1, i2 = fresh_idx(params[k1]), fresh_idx(params[k2])
            r = r + esum(jac(x1, params, c1, k1, i1) * sigma(k1, i1, k2, i2) * jac(x2, params, c2, k2, i2), *i1, *i2)
    return r


def push(c, kind, fns, log=None, **kw):
    """prob_predictive for the named pushforward functions."""
    f = [c.get(PU + n) if isinstance(n, str) else n for n in fns] if fns is not None else None
    out = kw.pop('out', C)
    args = dict(model_fn=make_model(out=out), mean_params=tree(), posterior_fn=posterior(c, log), prior_arguments={'prior_prec': S('tau')})
    if f is not None:
        args['pushforward_fns'] = f
    args.update(kw)
    return c.call(PU + f'set_{kind}_pushforward', **args)


def cov_ref(x, params):
    return Arr((C, C), lambda i: jsj(x, i[0], x, i[1], params))


# ---------------------------------------------------------------- C17 linear
def lin_ob(name, fns, want, **kw):
    @ob('C17', f'lin-{name}', PU + 'set_lin_pushforward', 'linearised moments: mean f(x), covariance J Sigma J^T, variance its diagonal, deviation its root')
    def _(c):
        params, x = tree(), x_in()
        pp = push(c, 'lin', fns, **kw)
        got = c.call(pp, x)
        ref = cov_ref(x, params)
        mean = Arr((C,), lambda i: fval(x, params, i[0]))
        full = {'map': mean, 'pred_mean': mean, 'pred_cov': ref,
                'pred_var': Arr((C,), lambda i: ref.at(i[0], i[0])),
                'pred_std': Arr((C,), lambda i: sqrt(ref.at(i[0], i[0])))}
        c.ok(isinstance(got, dict), 'the predictive returns a mapping')
        for w in want.split() + ['map']:
            c.ok(w in got, f'{w} is reported')
            c.eq(got[w], full[w], w)


lin_ob('mean', ['lin_setup', 'lin_pred_mean'], 'pred_mean')
lin_ob('var', ['lin_setup', 'lin_pred_var'], 'pred_var')
lin_ob('std', ['lin_setup', 'lin_pred_std'], 'pred_std')
lin_ob('cov', ['lin_setup', 'lin_pred_cov'], 'pred_cov')
lin_ob('mean-var', ['lin_setup', 'lin_pred_mean', 'lin_pred_var'], 'pred_mean pred_var')
lin_ob('var-nonjit', ['lin_setup', 'lin_pred_var'], 'pred_var', mv_jittable=False)
lin_ob('var-std', ['lin_setup', 'lin_pred_mean', 'lin_pred_var', 'lin_pred_std'], 'pred_mean pred_var pred_std')
lin_ob('cov-var-std', ['lin_setup', 'lin_pred_mean', 'lin_pred_cov', 'lin_pred_var', 'lin_pred_std'], 'pred_mean pred_cov pred_var pred_std')
lin_ob('std-cov', ['lin_setup', 'lin_pred_std', 'lin_pred_cov'], 'pred_mean pred_cov pred_std')
lin_ob('default', None, 'pred_mean pred_cov pred_var pred_std', key=key(), num_samples=NS)


@ob('C17', 'lin-posterior-arguments', PU + 'set_lin_pushforward', 'the posterior is created once from the given prior arguments and loss scaling factor')
def _(c):
    for kind in ('lin', 'nonlin'):
        log = []
        pa = {'prior_prec': S('tau2'), 'sigma_squared': S('s2')}
        kw = {'key': key(), 'num_samples': NS} if kind == 'nonlin' else {}
        push(c, kind, [], log, prior_arguments=pa, loss_scaling_factor=S('ell'), **kw)
        c.ok(len(log) == 1, f'{kind}: posterior_fn called once')
        a, k = log[0]
        vals = list(a) + [k[q] for q in k]
        c.ok(len(vals) == 2, f'{kind}: posterior_fn(prior_arguments, loss_scaling_factor)')
        c.ok(vals[0] is pa or vals[0] == pa, f'{kind}: prior arguments passed')
        c.eq(vals[1], asarr(S('ell')), f'{kind}: loss scaling factor')
        log.clear()
        push(c, kind, [], log, **kw)
        a, k = log[0]
        vals = list(a) + [k[q] for q in k]
        if len(vals) > 1:
            c.eq(vals[1], asarr(1), f'{kind}: default loss scaling factor')


@ob('C17', 'lin-jvp-vjp', PU + 'get_dist_state', 'the linearised state exposes the Jacobian product and its transpose at the mean parameters')
def _(c):
    params, x, v, u = tree(), x_in(), tree('v'), opaque('u', C)
    po = c.call(posterior(c), {'prior_prec': S('tau')}, 1.0)
    ds = c.call(PU + 'get_dist_state', params, make_model(), po, linearized=True, num_samples=0)
    c.eq(c.call(ds['jvp'], x, v), Arr((C,), lambda i: jvp_at(x, params, v, i[0])), 'jvp')
    got = c.call(ds['vjp'], x, u)
    c.ok(isinstance(got, tuple) and len(got) == 1, 'vjp returns a one-tuple')

    def back(k):
        def body(idx):
            w = fresh(C)
            return esum(u.at(w) * jac(x, params, w, k, idx), w)
        return Arr(params[k].axes, body)
    c.eq(got[0], {k: back(k) for k in params}, 'vjp')


@ob('C17', 'lin-two-inputs', PU + 'set_lin_pushforward', 'one predictive evaluated at several inputs: every result belongs to its own input')
def _(c):
    params = tree()
    pp = push(c, 'lin', ['lin_setup', 'lin_pred_mean', 'lin_pred_cov', 'lin_pred_var'])
    for t in ('1', '2', '1'):
        x = x_in(t)
        got = c.call(pp, x)
        ref = cov_ref(x, params)
        c.eq(got['pred_mean'], Arr((C,), lambda i: fval(x, params, i[0])), 'pred_mean')
        c.eq(got['pred_cov'], ref, 'pred_cov')
        c.eq(got['pred_var'], Arr((C,), lambda i: ref.at(i[0], i[0])), 'pred_var')


def lin_rank(name, fns, want, **kw):
    @ob('C17', f'lin-matrix-output-{name}', PU + 'set_lin_pushforward', 'models whose output has several axes: variance and deviation have the shape of the prediction')
    def _(c):
        params, x = tree(), x_in()
        register_struct(prod_ax([ax(C), ax(R)]))
        got = c.call(push(c, 'lin', fns, out=(C, R), **kw), x)
        full = {'pred_mean': lambda i: fval(x, params, i), 'pred_var': lambda i: jsj(x, i, x, i, params),
                'pred_std': lambda i: sqrt(jsj(x, i, x, i, params)),
                'pred_cov': lambda i: jsj(x, i[:2], x, i[2:], params)}
        for w in want.split():
            c.ok(w in got, f'{w} is reported')
            c.eq(got[w], Arr((C, R) * (2 if w == 'pred_cov' else 1), full[w]), w)


lin_rank('var', ['lin_setup', 'lin_pred_var'], 'pred_mean pred_var')
lin_rank('std', ['lin_setup', 'lin_pred_mean', 'lin_pred_std'], 'pred_mean pred_std')
lin_rank('nonjit', ['lin_setup', 'lin_pred_var', 'lin_pred_std'], 'pred_var pred_std', mv_jittable=False)


# ---------------------------------------------------------------- samples
def eps_of(c, p, leaf):
    """(sampler name, key poly) of the noise inside one entry 'mean + scale(eps)': p = scale<leaf>(eps_a, eps_b)[..]."""
    a = only_atom(p)
    c.ok(a is not None and a.k == 'a' and a.d[0] == 'scale' + leaf and not a.d[4],
         f'weight sample - mean is the scale operator applied to noise, got {cut(show(p))}')
    keys = []
    for l, d in zip(a.d[2], ((A1, A2), (B,))):
        cs = open_lam(l)
        c.ok(len(cs) == 1, 'noise leaf is one array')
        vs, idx, body = cs[0]
        b = only_atom(body)
        c.ok(b is not None and b.k == 'a' and b.d[0] == 'rng' and b.d[1][0] == 'normal',
             f'noise is standard normal, got {cut(show(body))}')
        c.ok(len(l.dims) == len(d) and all(T.equal(P(x), P(y)) for x, y in zip(l.dims, d)), 'noise has the shape of the parameters')
        c.ok(tuple(b.d[3]) == tuple(idx), 'noise entry n is the n-th draw')
        kc = open_lam(b.d[2][0])
        keys.append(kc[0][2])
    return keys


def weight_samples(c, mean, k, n=NS, **kw):
    return c.call(PU + 'set_get_weight_sample', k, mean, scale_map(), n, **kw)


def ws_ob(name, **kw):
    @ob('C16', f'weight-sample-{name}', PU + 'set_get_weight_sample', 'sample i = mean + scale(eps_i), eps_i standard normal with the structure of the mean and keys distinct over samples and leaves')
    def _(c):
        mean = tree()
        get = weight_samples(c, mean, key(), **kw)
        keys = []
        for n in range(NS):
            w = c.call(get, n)
            c.ok(isinstance(w, dict) and set(w) == set(mean), 'a weight sample has the structure of the mean')
            ks = None
            for q in mean:
                idx = fresh_idx(mean[q])
                c.ok(w[q].ndim == mean[q].ndim, f'leaf {q} has the rank of the mean')
                kk = eps_of(c, w[q].at(*idx) - mean[q].at(*idx), q)
                c.ok(ks is None or all(x is y for x, y in zip(ks, kk)), 'all leaves of a sample share one noise tree')
                ks = kk
            keys += ks
        c.ok(len(set(keys)) == len(keys), f'noise keys are distinct over {NS} samples x 2 leaves')
        c.ok(all('key_k' in show(x) for x in keys), 'noise keys derive from the given key')


ws_ob('precomputed')
ws_ob('lazy', precompute=False)
ws_ob('option', set_get_weight_sample_precompute=False)
ws_ob('batched', precompute_list_batch_size=2)


@ob('C16', 'weight-sample-modes', PU + 'set_get_weight_sample', 'precomputed and lazily evaluated samples are identical')
def _(c):
    mean = tree()
    g1, g2, g3 = weight_samples(c, mean, key()), weight_samples(c, mean, key(), precompute=False), weight_samples(c, mean, key())
    g4 = weight_samples(c, mean, key('other'))
    for n in range(NS):
        w = c.call(g1, n)
        c.eq(c.call(g2, n), w, f'lazy sample {n}')
        c.eq(c.call(g3, n), w, f'repeated sample {n}')
        ks = [eps_of(c, c.call(g, n)['b'].at(*(i := fresh_idx(mean['b']))) - mean['b'].at(*i), 'b') for g in (g1, g4)]
        c.ok(not set(ks[0]) & set(ks[1]), 'another key gives other noise')


@ob('C16', 'normal-like', TRU + 'normal_like', 'normal_like(key, mean, scale) = mean + scale(standard normal tree)')
def _(c):
    mean = tree()
    w = c.call(TRU + 'normal_like', key(), mean, scale_map())
    ks = None
    for q in mean:
        idx = fresh_idx(mean[q])
        ks = eps_of(c, w[q].at(*idx) - mean[q].at(*idx), q)
    c.ok(ks[0] is not ks[1], 'leaves use different keys')


@ob('C16', 'randn-like', TRU + 'randn_like', 'leaves of a random tree are standard normal, of the shape of the leaf, with distinct keys')
def _(c):
    setup_tree()
    t = {'a': opaque('ra', A1, A2), 'b': (opaque('rb', B), [opaque('rc', B)])}
    got = c.call(TRU + 'randn_like', key(), t)
    c.ok(isinstance(got, dict) and set(got) == {'a', 'b'}, 'structure kept')
    keys = []
    for g, w in ((got['a'], t['a']), (got['b'][0], t['b'][0]), (got['b'][1][0], t['b'][1][0])):
        idx = fresh_idx(w)
        c.ok(g.ndim == w.ndim and all(T.equal(p_.dim, q_.dim) for p_, q_ in zip(g.axes, w.axes)), 'leaf shape kept')
        a = only_atom(g.at(*idx))
        c.ok(a is not None and a.k == 'a' and a.d[0] == 'rng' and a.d[1][0] == 'normal' and tuple(a.d[3]) == tuple(idx),
             'entries are standard normal draws')
        keys.append(open_lam(a.d[2][0])[0][2])
    c.ok(len(set(keys)) == 3, 'distinct keys')
    c.ok(all('key_k' in show(x) for x in keys), 'keys derive from the given key')


def used_once(c, what):
    """No PRNG key is consumed twice by the analysed run; no randomness besides the given key."""
    seen = {}
    for e in c.it.effects:
        if '<module>' in e['trace']:        # module constants
            continue
        c.ok(e['kind'] != 'impure_random', f'{what}: draws from a global random state ({e.get("fn")}, {e["where"]})')
        c.ok(e['kind'] != 'key', f'{what}: creates its own key although one is given ({e["where"]})')
        if e['kind'] == 'key_use':
            k = e['key']
            c.ok(k not in seen, f'{what}: the key {cut(show(k), 100)} is consumed twice ({seen.get(k)} and {e["where"]})')
            seen[k] = e['where']
    return len(seen)


@ob('C15', 'keys-randn-like', TRU + 'randn_like', 'every key is consumed at most once; nothing but the given key is a source of randomness')
def _(c):
    c.call(TRU + 'randn_like', key(), tree())
    c.ok(used_once(c, 'randn_like') >= 3, 'keys used')


def keys_ws(name, **kw):
    @ob('C15', f'keys-weight-samples-{name}', PU + 'set_get_weight_sample', 'every key is consumed at most once; nothing but the given key is a source of randomness')
    def _(c):
        get = weight_samples(c, tree(), key(), **kw)
        for n in range(NS):
            c.call(get, n)
        used_once(c, 'weight samples')


keys_ws('precomputed')
keys_ws('lazy', precompute=False)


@ob('C15', 'keys-nonlinear', PU + 'set_nonlin_pushforward', 'the nonlinear predictive draws only from the given key, each key once')
def _(c):
    pp = push(c, 'nonlin', None, key=key(), num_samples=NS)
    a = c.call(pp, x_in('1'))
    used_once(c, 'nonlinear predictive')
    b = c.call(pp, x_in('1'))
    c.eq(b['pred_mean'], a['pred_mean'], 'repeated evaluation')
    p2 = c.call(push(c, 'nonlin', None, key=key(), num_samples=NS), x_in('1'))
    c.eq(p2['pred_mean'], a['pred_mean'], 'same key, same result')


@ob('C15', 'keys-linear', PU + 'set_lin_pushforward', 'the linear predictive draws only from the given key, each key once')
def _(c):
    pp = push(c, 'lin', None, key=key(), num_samples=NS)
    a = c.call(pp, x_in('1'))
    used_once(c, 'linear predictive')
    p2 = c.call(push(c, 'lin', None, key=key(), num_samples=NS), x_in('1'))
    c.eq(p2['samples'], a['samples'], 'same key, same result')


def sample_tree(c, mean, n):
    """The n-th weight sample as produced by the sampler (decided by C16)."""
    return c.call(weight_samples(c, mean, key()), n)


@ob('C17', 'lin-samples', PU + 'lin_samples', 'sample s = f(x) + J (weight sample s of the zero-mean posterior), for every s')
def _(c):
    params, x = tree(), x_in()
    zero = {q: Arr(params[q].axes, lambda i: ZERO) for q in params}
    for fns in (['lin_setup', 'lin_samples'], ['lin_setup', 'lin_pred_mean', 'lin_pred_std', 'lin_samples'], None):
        got = c.call(push(c, 'lin', fns, key=key(), num_samples=NS), x)
        c.ok(got['samples'].ndim == 2 and T.equal(got['samples'].axes[0].dim, P(NS)), f'{NS} samples')
        for n in range(NS):
            w = sample_tree(c, zero, n)
            i = fresh(C)
            c.same(got['samples'].at(P(n), i), fval(x, params, i) + jvp_at(x, params, w, i), f'sample {n}')


@ob('C17', 'lin-samples-matrix-output', PU + 'lin_samples', 'samples of a model whose output has several axes')
def _(c):
    params, x = tree(), x_in()
    zero = {q: Arr(params[q].axes, lambda i: ZERO) for q in params}
    got = c.call(push(c, 'lin', ['lin_setup', 'lin_samples'], key=key(), num_samples=NS, out=(C, R)), x)['samples']
    c.ok(got.ndim == 3, 'samples have the shape of the prediction')
    i, j = fresh(C), fresh(R)
    for n in range(NS):
        c.same(got.at(P(n), i, j), fval(x, params, (i, j)) + jvp_at(x, params, sample_tree(c, zero, n), (i, j)), f'sample {n}')


def lin_sample_count(num):
    @ob('C17', f'lin-samples-count-{num}', PU + 'lin_samples', 'every sample is f(x) + J (its own zero-mean weight sample), with and without a key')
    def _(c):
        params, x = tree(), x_in()
        zero = {q: Arr(params[q].axes, lambda i: ZERO) for q in params}
        for k in (key(), None):
            got = c.call(push(c, 'lin', ['lin_setup', 'lin_samples'], key=k, num_samples=num), x)['samples']
            get = weight_samples(c, zero, k, num)
            c.ok(const_val(got.axes[0].dim) == num, f'{num} samples')
            i = fresh(C)
            for n in range(num):
                c.same(got.at(P(n), i), fval(x, params, i) + jvp_at(x, params, c.call(get, n), i), f'sample {n}')


lin_sample_count(1)
lin_sample_count(6)


# ---------------------------------------------------------------- C18 nonlinear
def members(c, x, params):
    return [Arr((C,), lambda i, w=w: fval(x, w, i[0])) for w in (sample_tree(c, params, n) for n in range(NS))]


def moments(ms):
    n = len(ms)

    def mean(i):
        r = ZERO
        for m in ms:
            r = r + m.at(i)
        return r / n

    def cov(i, j):
        r = ZERO
        for m in ms:
            r = r + m.at(i) * m.at(j)
        return r / n - mean(i) * mean(j)
    return mean, cov


def nl_ob(name, fns, want, **kw):
    @ob('C18', f'nonlin-{name}', PU + 'set_nonlin_pushforward', 'ensemble moments over f(x, w_s): mean, population variance, its root, population covariance with that diagonal')
    def _(c):
        params, x = tree(), x_in()
        got = c.call(push(c, 'nonlin', fns, key=key(), num_samples=NS, **kw), x)
        ms = members(c, x, params)
        mean, cov = moments(ms)
        for w in want.split() + ['map']:
            c.ok(w in got, f'{w} is reported')
            g = got[w]
            i, j = fresh(C), fresh(C)
            if w == 'map':
                c.eq(g, Arr((C,), lambda q: fval(x, params, q[0])), w)
            elif w == 'samples':
                c.ok(g.ndim == 2, 'samples have a sample axis')
                k = const_val(g.axes[0].dim)
                c.ok(k is not None and 1 <= k <= NS, 'samples are ensemble members')
                for n in range(int(k)):
                    c.same(g.at(P(n), i), ms[n].at(i), f'sample {n}')
            elif w == 'pred_cov':
                c.ok(g.ndim == 2, 'pred_cov is a matrix')
                c.same(g.at(i, j), cov(i, j), w)
            else:
                c.ok(g.ndim == 1 and T.equal(g.axes[0].dim, P(C)), f'{w} has the shape of the prediction')
                v = {'pred_mean': lambda: mean(i), 'pred_var': lambda: cov(i, i), 'pred_std': lambda: sqrt(cov(i, i))}[w]()
                c.same(g.at(i), v, w)


nl_ob('mean', ['nonlin_setup', 'nonlin_pred_mean'], 'pred_mean')
nl_ob('var', ['nonlin_setup', 'nonlin_pred_var'], 'pred_var')
nl_ob('std', ['nonlin_setup', 'nonlin_pred_std'], 'pred_std')
nl_ob('cov', ['nonlin_setup', 'nonlin_pred_cov'], 'pred_cov')
nl_ob('var-std', ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_pred_var', 'nonlin_pred_std'], 'pred_mean pred_var pred_std')
nl_ob('cov-var', ['nonlin_setup', 'nonlin_pred_cov', 'nonlin_pred_var', 'nonlin_pred_std'], 'pred_cov pred_var pred_std')
nl_ob('samples', ['nonlin_setup', 'nonlin_samples'], 'samples')
nl_ob('default', None, 'pred_mean pred_cov pred_var pred_std samples')
nl_ob('batched', None, 'pred_mean pred_var pred_std', weight_batch_size=2)


def nl_rank(name, out, fns, want, **kw):
    @ob('C18', f'nonlin-{name}', PU + 'set_nonlin_pushforward', 'ensemble moments for outputs of every rank: mean, variance and deviation keep the shape of the prediction')
    def _(c):
        params, x = tree(), x_in()
        got = c.call(push(c, 'nonlin', fns, key=key(), num_samples=NS, out=out, **kw), x)
        ms = [model_value(x, sample_tree(c, params, n), out=out) for n in range(NS)]
        mean, cov = moments_at(ms)
        for w in want.split():
            c.ok(w in got, f'{w} is reported')
            v = {'pred_mean': mean, 'pred_var': lambda i: cov(i, i), 'pred_std': lambda i: sqrt(cov(i, i))}[w]
            c.eq(got[w], Arr(out, v), w)


def moments_at(ms):
    class At:
        def __init__(self, a): self.a = a
        def at(self, i): return self.a.at(*i)
    return moments([At(a) for a in ms])


for nm, o in (('matrix-output', (C, R)), ('scalar-output', ()), ('one-output', (P(1),))):
    nl_rank(nm, o, ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_pred_var', 'nonlin_pred_std'], 'pred_mean pred_var pred_std')
    nl_rank(nm + '-cov-first', o, ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_pred_cov', 'nonlin_pred_var', 'nonlin_pred_std'], 'pred_mean pred_var pred_std')


def nl_samples(num, want, **kw):
    @ob('C18', f'nonlin-samples-{num}-of-{want}', PU + 'nonlin_samples', 'the reported samples are the first ensemble members: five by default, as many as asked for otherwise')
    def _(c):
        params, x = tree(), x_in()
        ens = Arr((P(num), ax(C)), lambda i: app('ens', (), [], i))
        aux = {'pred_ensemble': ens}
        r, a = c.call(PU + 'nonlin_samples', {}, aux, **kw)
        g = r['samples']
        c.ok(g.ndim == 2 and const_val(g.axes[0].dim) == min(num, want), f'{min(num, want)} samples')
        i = fresh(C)
        for n in range(min(num, want)):
            c.same(g.at(P(n), i), ens.at(P(n), i), f'sample {n}')
        c.ok(a['pred_ensemble'] is ens, 'the ensemble itself is kept')


nl_samples(9, 5)
nl_samples(9, 2, num_samples=2)
nl_samples(7, 7, num_samples=7)
nl_samples(4, 5)


def nl_count(num):
    @ob('C18', f'nonlin-count-{num}', PU + 'set_nonlin_pushforward', 'the ensemble has exactly num_samples members, member s computed from weight sample s, with and without a key')
    def _(c):
        params, x = tree(), x_in()
        for k in (key(), None):
            got = c.call(push(c, 'nonlin', ['nonlin_setup', 'nonlin_pred_mean', 'nonlin_samples'], key=k, num_samples=num), x)
            get = weight_samples(c, params, k, num)
            ms = [model_value(x, c.call(get, n)) for n in range(num)]
            i = fresh(C)
            r = ZERO
            for m in ms:
                r = r + m.at(i)
            c.same(got['pred_mean'].at(i), r / num, 'mean of the ensemble')
            for n in range(min(num, 5)):
                c.same(got['samples'].at(P(n), i), ms[n].at(i), f'sample {n}')


nl_count(1)
nl_count(8)


# ---------------------------------------------------------------- C20 kernel
def gp(c, **kw):
    out = kw.pop('out', C)
    return c.call(PU + 'set_posterior_gp_kernel', model_fn=make_model(out=out), mean=tree(), posterior_fn=posterior(c),
                  prior_arguments={'prior_prec': S('tau')}, **kw)


@ob('C20', 'kernel-mv', PU + 'set_posterior_gp_kernel', 'kernel product = J(x1) Sigma J(x2)^T v')
def _(c):
    params, x1, x2, u = tree(), x_in('1'), x_in('2'), opaque('u', C)
    kmv, ds = gp(c)

    def body(i):
        w = fresh(C)
        return esum(jsj(x1, i[0], x2, w, params) * u.at(w), w)
    c.eq(c.call(kmv, u, x1, x2, ds), Arr((C,), body), 'kernel product')
    i = fresh(C)
    w = fresh(C)
    c.same(c.call(kmv, u, x2, x1, ds).at(i), esum(jsj(x2, i, x1, w, params) * u.at(w), w), 'kernel product, inputs exchanged')


@ob('C20', 'kernel-dense', PU + 'set_posterior_gp_kernel', 'dense kernel: K(x1, x2)[i, j] = J_i(x1) Sigma J_j(x2)^T')
def _(c):
    params, x1, x2 = tree(), x_in('1'), x_in('2')
    k, ds = gp(c, dense=True, output_layout=py(C))
    c.eq(c.call(k, x1, x2), Arr((C, C), lambda i: jsj(x1, i[0], x2, i[1], params)), 'K(x1, x2)')
    c.eq(c.call(k, x2, x1), Arr((C, C), lambda i: jsj(x2, i[0], x1, i[1], params)), 'K(x2, x1)')
    c.eq(c.call(k, x1, x1), Arr((C, C), lambda i: jsj(x1, i[0], x1, i[1], params)), 'K(x1, x1)')


@ob('C20', 'kernel-dense-layout', PU + 'set_posterior_gp_kernel', 'an array layout gives the same dense kernel; no layout is rejected with ValueError')
def _(c):
    params, x1, x2 = tree(), x_in('1'), x_in('2')
    k, ds = gp(c, dense=True, output_layout=opaque('lay', C))
    c.eq(c.call(k, x1, x2), Arr((C, C), lambda i: jsj(x1, i[0], x2, i[1], params)), 'K(x1, x2)')
    c.raises(lambda: gp(c, dense=True), ValueError, what='dense kernel without layout')
    c.raises(lambda: gp(c, dense=True, output_layout=None), ValueError, what='dense kernel with layout None')


@ob('C20', 'kernel-variance', PU + 'set_posterior_gp_kernel', 'K(x, x) equals the linearised predictive covariance at x')
def _(c):
    x = x_in()
    k, ds = gp(c, dense=True, output_layout=py(C))
    got = c.call(push(c, 'lin', ['lin_setup', 'lin_pred_cov']), x)
    c.eq(c.call(k, x, x), got['pred_cov'], 'K(x, x)')


@ob('C20', 'kernel-arguments', PU + 'set_posterior_gp_kernel', 'the kernel posterior is created from the given prior arguments and loss scaling factor')
def _(c):
    log, pa = [], {'prior_prec': S('tau2')}
    c.call(PU + 'set_posterior_gp_kernel', make_model(), tree(), posterior(c, log), pa, S('ell'))
    c.ok(len(log) == 1, 'posterior_fn called once')
    a, k = log[0]
    vals = list(a) + list(k.values())
    c.ok(len(vals) == 2 and (vals[0] is pa or vals[0] == pa), 'prior arguments passed')
    c.eq(vals[1], asarr(S('ell')), 'loss scaling factor')


@ob('C20', 'kernel-matrix-output', PU + 'set_posterior_gp_kernel', 'outputs with several axes: the product maps prediction-shaped vectors, the flat dense kernel uses row-major order')
def _(c):
    params, x1, x2 = tree(), x_in('1'), x_in('2')
    flat = prod_ax([ax(C), ax(R)])
    register_struct(flat)
    kmv, ds = gp(c, out=(C, R))
    u = opaque('u', C, R)

    def body(i):
        w, r = fresh(C), fresh(R)
        return esum(jsj(x1, i, x2, (w, r), params) * u.at(w, r), w, r)
    c.eq(c.call(kmv, u, x1, x2, ds), Arr((C, R), body), 'kernel product')
