"""C11 streaming operators, C12 reducers."""
from .common import *
from .p_tree import FL

LO = 'laplax.util.loader.'
MV = 'laplax.util.mv.'
NB = [dim(f'N{i}') for i in range(1, 5)]


class Loader:
    """A re-iterable data loader; every iteration starts afresh and is counted."""

    def __init__(self, batches):
        self.batches, self.started, self.taken = batches, 0, 0

    def abs_iter(self, it):
        self.started += 1
        src = iter(list(self.batches))

        def nxt():
            try:
                v = next(src)
            except StopIteration:
                raise I.Stop()
            self.taken += 1
            return v
        return I.IterV(nxt)

    def __repr__(self):
        return '<loader>'


def one_shot(batches):
    src = iter(list(batches))

    def nxt():
        try:
            return next(src)
        except StopIteration:
            raise I.Stop()
    return I.IterV(nxt, 'generator')


# ---------------------------------------------------------------- C12 reducers
def parts(k, tag='z'):
    return [{'x': opaque(f'{tag}x{i}', NB[i], C), 'y': (opaque(f'{tag}y{i}', NB[i]),)} for i in range(k)]


def total(bs, keep, sel, idx):
    r = ZERO
    for b in bs:
        v = sel(b)
        w = fresh(v.axes[0].dim)
        r = r + esum(v.at(w, *idx), w)
    return r


def fold(c, name, bs, **kw):
    f = c.get(LO + name)
    st, outs = None, []
    for b in bs:
        r = c.call(f, b, st, **kw) if st is not None else c.call(f, b, **kw)
        c.ok(isinstance(r, tuple) and len(r) == 2, f'{name} returns (result, state)')
        outs.append(r[0])
        st = r[1]
    return outs


SX, SY = (lambda b: b['x']), (lambda b: b['y'][0])

for k_ in (1, 2, 3, 4):
    def _mk(k):
        @ob('C12', f'reduce-sum-{k}', LO + 'reduce_sum', 'after any sequence of batches the result is the sum over all samples (axis kept by default)')
        def _(c):
            bs = parts(k)
            for n, got in enumerate(fold(c, 'reduce_sum', bs)):
                c.eq(got, {'x': Arr((ONE, C), lambda i: total(bs[:n + 1], 0, SX, i[1:])),
                           'y': (Arr((ONE,), lambda i: total(bs[:n + 1], 0, SY, ())),)}, f'after batch {n + 1}')

        @ob('C12', f'reduce-sum-nokeep-{k}', LO + 'reduce_sum', 'keepdims=False removes the axis')
        def _(c):
            bs = parts(k)
            for n, got in enumerate(fold(c, 'reduce_sum', bs, keepdims=False)):
                c.eq(got, {'x': Arr((C,), lambda i: total(bs[:n + 1], 0, SX, i)),
                           'y': (Arr((), lambda i: total(bs[:n + 1], 0, SY, ())),)}, f'after batch {n + 1}')

        @ob('C12', f'reduce-add-{k}', LO + 'reduce_add', 'after any sequence of batches the result is the sum of the batch results')
        def _(c):
            bs = [{'p': opaque(f'p{i}', A1, A2), 'q': [opaque(f'q{i}', B)]} for i in range(k)]
            for n, got in enumerate(fold(c, 'reduce_add', bs)):
                def tot(sel, i):
                    r = ZERO
                    for b in bs[:n + 1]:
                        r = r + sel(b).at(*i)
                    return r
                c.eq(got, {'p': Arr((A1, A2), lambda i: tot(lambda b: b['p'], i)),
                           'q': [Arr((B,), lambda i: tot(lambda b: b['q'][0], i))]}, f'after batch {n + 1}')

        @ob('C12', f'online-mean-{k}', LO + 'reduce_online_mean', 'after any sequence of batches the result is the mean over all samples, whatever the batch sizes')
        def _(c):
            bs = parts(k)
            for n, got in enumerate(fold(c, 'reduce_online_mean', bs)):
                cnt = ZERO
                for d in NB[:n + 1]:
                    cnt = cnt + d
                c.eq(got, {'x': Arr((C,), lambda i: total(bs[:n + 1], 0, SX, i) / cnt),
                           'y': (Arr((), lambda i: total(bs[:n + 1], 0, SY, ()) / cnt),)}, f'after batch {n + 1}')

        @ob('C12', f'online-mean-scalar-{k}', LO + 'reduce_online_mean', 'scalar results count as one observation per batch')
        def _(c):
            bs = [{'v': Arr((), lambda q, i=i: sym(f'v{i}'))} for i in range(k)]
            for n, got in enumerate(fold(c, 'reduce_online_mean', bs)):
                r = ZERO
                for i in range(n + 1):
                    r = r + sym(f'v{i}')
                c.eq(got, {'v': Arr((), lambda i: r / (n + 1))}, f'after batch {n + 1}')

        @ob('C12', f'online-mean-mixed-{k}', LO + 'reduce_online_mean', 'every leaf is averaged over its own observations, per-sample arrays next to scalars')
        def _(c):
            bs = [{'x': opaque(f'mx{i}', NB[i], C), 'v': Arr((), lambda q, i=i: sym(f'mv{i}')),
                   'y': (opaque(f'my{i}', NB[3 - i]),)} for i in range(k)]
            for n, got in enumerate(fold(c, 'reduce_online_mean', bs)):
                cx = cy = r = ZERO
                for i in range(n + 1):
                    cx, cy, r = cx + NB[i], cy + NB[3 - i], r + sym(f'mv{i}')
                c.eq(got, {'x': Arr((C,), lambda i: total(bs[:n + 1], 0, SX, i) / cx), 'v': Arr((), lambda i: r / (n + 1)),
                           'y': (Arr((), lambda i: total(bs[:n + 1], 0, SY, ()) / cy),)}, f'after batch {n + 1}')

        @ob('C12', f'reduce-concat-{k}', LO + 'reduce_concat', 'after any sequence of batches the result is their concatenation in order')
        def _(c):
            bs = parts(k)
            for n, got in enumerate(fold(c, 'reduce_concat', bs)):
                if n == 0:
                    c.eq(got, bs[0], 'after batch 1')
                    continue
                off = ZERO
                for m in range(n + 1):
                    j, q = fresh(NB[m]), fresh(C)
                    c.ok(got['x'].ndim == 2 and got['y'][0].ndim == 1, 'concatenation keeps the rank')
                    c.same(got['x'].at(off + j, q), bs[m]['x'].at(j, q), f'x of batch {m + 1} after batch {n + 1}')
                    c.same(got['y'][0].at(off + j), bs[m]['y'][0].at(j), f'y of batch {m + 1} after batch {n + 1}')
                    off = off + NB[m]
                c.same(got['x'].axes[0].dim, off, 'total length')
    _mk(k_)


@ob('C12', 'reduce-sum-axis', LO + 'reduce_sum', 'the axis option selects the summed axis')
def _(c):
    bs = [opaque(f'w{i}', C, NB[i]) for i in range(2)]
    got = fold(c, 'reduce_sum', bs, axis=1, keepdims=False)[-1]

    def tot(i):
        r = ZERO
        for b in bs:
            w = fresh(b.axes[1].dim)
            r = r + esum(b.at(i[0], w), w)
        return r
    c.eq(got, Arr((C,), tot), 'sum over axis 1')


@ob('C12', 'reduce-concat-axis', LO + 'reduce_concat', 'the axis option selects the concatenated axis')
def _(c):
    bs = [opaque(f'w{i}', C, NB[i]) for i in range(2)]
    got = fold(c, 'reduce_concat', bs, axis=1)[-1]
    i, j, k = fresh(C), fresh(NB[0]), fresh(NB[1])
    c.ok(got.ndim == 2 and T.equal(got.axes[0].dim, P(C)), 'other axes unchanged')
    c.same(got.at(i, j), bs[0].at(i, j), 'first part')
    c.same(got.at(i, NB[0] + k), bs[1].at(i, k), 'second part')


@ob('C12', 'reduce-state-isolated', LO + 'reduce_online_mean', 'two interleaved accumulations do not influence each other')
def _(c):
    for name in ('reduce_sum', 'reduce_online_mean', 'reduce_add'):
        f = c.get(LO + name)
        a = [opaque(f'a{i}', N, C) for i in range(2)]
        b = [opaque(f'b{i}', N, C) for i in range(2)]
        _, sa = c.call(f, a[0])
        _, sb = c.call(f, b[0])
        ra, sa = c.call(f, a[1], sa)
        rb, sb = c.call(f, b[1], sb)
        c.eq(ra, fold(c, name, a)[-1], name)
        c.eq(rb, fold(c, name, b)[-1], name)


# ---------------------------------------------------------------- C11 streaming
def raw(k):
    """k batches (input, target) of different sizes."""
    return [(opaque(f'X{i}', NB[i], I_), opaque(f'Y{i}', NB[i], C)) for i in range(k)]


def opaque_fn(log, name='g'):
    """function(*args, data=..., **kwargs) recorded; result an opaque function of its data and first argument."""
    def f(it, a, k):
        log.append((a, k))
        d = k['data']
        parts_ = [d['input'], d['target']] + [x for x in a if isinstance(x, Arr)] + [k[q] for q in sorted(k) if isinstance(k[q], Arr)]
        return app_arr(name, parts_, (ax(Pn),))
    return Builtin(name, f)


def rec_reduce(log):
    def f(it, a, k):
        st = a[1] if len(a) > 1 else k.get('state')
        res = a[0]
        log.append((res, st))
        prev = [] if st is None else list(st)
        new = prev + [res]
        return (('result', len(new), res), tuple(new))
    return Builtin('reduce', f)


def source(kind, bs):
    return {'list': lambda: list(bs), 'tuple': lambda: tuple(bs), 'loader': lambda: Loader(bs), 'generator': lambda: one_shot(bs)}[kind]()


def process_ob(kind, k):
    @ob('C11', f'process-{kind}-{k}', LO + 'process_batches', 'the function sees every transformed batch exactly once, in order; the reducer sees every result once with the state of the previous call; its last result is returned')
    def _(c):
        bs, flog, rlog, tlog = raw(k), [], [], []
        tr = Builtin('transform', lambda it, a, kw: (tlog.append(a[0]), {'input': a[0][0], 'target': a[0][1]})[1])
        g = opaque_fn(flog)
        v, e = opaque('v', Pn), opaque('extra', Pn)
        got = c.call(LO + 'process_batches', g, source(kind, bs), tr, rec_reduce(rlog), v, extra=e)
        c.ok(len(flog) == k, f'{k} batches lead to {len(flog)} calls')
        c.ok(len(tlog) == k and all(x is y for x, y in zip(tlog, bs)), 'transform sees each batch once, in order')
        for n, (a, kw) in enumerate(flog):
            c.ok(len(a) == 1 and set(kw) == {'data', 'extra'}, 'positional and keyword arguments are passed on')
            c.eq(a[0], v, 'argument')
            c.eq(kw['extra'], e, 'keyword argument')
            c.eq(kw['data'], {'input': bs[n][0], 'target': bs[n][1]}, f'data of call {n + 1}')
        want = [app_arr('g', [b[0], b[1], v, e], (ax(Pn),)) for b in bs]
        c.ok(len(rlog) == k, f'{k} batches lead to {len(rlog)} reductions')
        for n, (res, st) in enumerate(rlog):
            c.eq(res, want[n], f'result given to the reducer in call {n + 1}')
            c.ok((st is None) if n == 0 else (isinstance(st, tuple) and len(st) == n), f'state given to the reducer in call {n + 1}')
        c.ok(isinstance(got, tuple) and got[:2] == ('result', k), 'the last result of the reducer is returned')
        c.eq(got[2], want[-1], 'returned result')


for kind_ in ('list', 'loader', 'generator'):
    for k_ in (1, 2, 3):
        process_ob(kind_, k_)


STATES = {'none': lambda n: None, 'dict': lambda n: {'n': n}, 'zero': lambda n: 0, 'empty': lambda n: (), 'list': lambda n: [n],
          'array': lambda n: opaque(f'st{n}', 2)}


def state_ob(name):
    @ob('C11', f'process-state-{name}', LO + 'process_batches', 'the reducer gets the very state it returned, whatever it is')
    def _(c):
        bs, seen, given = raw(3), [], []

        def red(it, a, k):
            st = a[1] if len(a) > 1 else k.get('state')
            seen.append(st)
            given.append(STATES[name](len(seen)))
            return (a[0], given[-1])
        tr = c.get(LO + 'input_target_split')
        got = c.call(LO + 'process_batches', opaque_fn([]), Loader(bs), tr, Builtin('red', red))
        c.ok(len(seen) == 3, f'{len(seen)} reductions of 3 batches')
        c.ok(seen[0] is None, 'the first state is None')
        c.ok(all(x is y for x, y in zip(seen[1:], given)), 'each reduction gets the state of the previous one')
        c.eq(got, app_arr('g', [bs[2][0], bs[2][1]], (ax(Pn),)), 'returned result')


for n_ in STATES:
    state_ob(n_)


def empty_ob(kind):
    @ob('C11', f'process-empty-{kind}', LO + 'process_batches', 'an empty loader raises ValueError')
    def _(c):
        tr = c.get(LO + 'input_target_split')
        c.raises(lambda: c.call(LO + 'process_batches', opaque_fn([]), source(kind, []), tr, rec_reduce([])),
                 ValueError, what='process_batches on an empty loader')
        for entry in ('execute_with_data_loader',):
            c.raises(lambda: c.call(LO + entry, opaque_fn([]), source(kind, [])), ValueError, what=entry)
        w = c.call(LO + 'wrap_function_with_data_loader', opaque_fn([]), source(kind, []))
        c.raises(lambda: c.call(w), ValueError, what='wrapped function on an empty loader')
        m = c.call(LO + 'DataLoaderMV', batch_mv(), source(kind, []))
        c.raises(lambda: c.call(m, opaque('v', Pn)), ValueError, what='DataLoaderMV on an empty loader')


for kind_ in ('list', 'loader', 'generator'):
    empty_ob(kind_)


@ob('C11', 'input-target-split', LO + 'input_target_split', 'an (input, target) batch becomes {input, target}')
def _(c):
    b = raw(1)[0]
    c.eq(c.call(LO + 'input_target_split', b), {'input': b[0], 'target': b[1]}, 'split')


def exec_ob(jit):
    @ob('C11', f'execute-jit-{jit}', LO + 'execute_with_data_loader', 'executing over a loader = reduction of the function over all batches (defaults: split and mean over all samples)')
    def _(c):
        bs = raw(3)
        f = Builtin('f', lambda it, a, k: {'r': elementwise(lambda x: x * x, k['data']['input']), 't': k['data']['target']})
        got = c.call(LO + 'execute_with_data_loader', f, Loader(bs), jit=jit)
        cnt = NB[0] + NB[1] + NB[2]

        def tot(s, sq, i):
            r = ZERO
            for b in bs:
                w = fresh(b[s].axes[0].dim)
                x = b[s].at(w, *i)
                r = r + esum(x * x if sq else x, w)
            return r / cnt
        c.eq(got, {'r': Arr((I_,), lambda i: tot(0, True, i)), 't': Arr((C,), lambda i: tot(1, False, i))}, 'execute')

    @ob('C11', f'wrap-jit-{jit}', LO + 'wrap_function_with_data_loader', 'the wrapped function passes its arguments and streams the whole loader on every call')
    def _(c):
        bs, log = raw(2), []
        ld = Loader(bs)
        w = c.call(LO + 'wrap_function_with_data_loader', opaque_fn(log), ld, reduce=c.get(LO + 'reduce_add'), jit=jit)
        v, u = opaque('v', Pn), opaque('u', Pn)
        for x in (v, u, v):
            got = c.call(w, x)
            c.eq(got, Arr((Pn,), lambda i: app_arr('g', [bs[0][0], bs[0][1], x], (ax(Pn),)).at(*i)
                          + app_arr('g', [bs[1][0], bs[1][1], x], (ax(Pn),)).at(*i)), 'wrapped')
        c.ok(ld.started == 3 and ld.taken == 6, 'each call iterates the loader once')
        got = c.call(w, vec=v)
        c.eq(got, Arr((Pn,), lambda i: app_arr('g', [bs[0][0], bs[0][1], v], (ax(Pn),)).at(*i)
                      + app_arr('g', [bs[1][0], bs[1][1], v], (ax(Pn),)).at(*i)), 'keyword call')


exec_ob(False)
exec_ob(True)


def batch_entry(b, i, j):
    return app('G', (), [lam_of(b[0]), lam_of(b[1])], (i, j))


def batch_mv(n=Pn):
    """mv(vec, data): linear in vec, coefficients an arbitrary function of the batch (not symmetric)."""
    def f(it, a, k):
        names = ['vec', 'data']
        v = dict(zip(names, a))
        if set(v) & set(k) or not set(k) <= set(names):
            raise AbsRaise(TypeError, 'mv(vec, data) called with other arguments')
        v.update(k)
        if set(v) != set(names):
            raise AbsRaise(TypeError, 'mv(vec, data) misses an argument')
        x, d = v['vec'], v['data']

        def body(idx):
            w = fresh(n)
            return esum(batch_entry((d['input'], d['target']), idx[0], w) * x.at(w), w)
        return Arr((ax(n),), body, 'float', x.tl)
    return Builtin('mv', f)


def total_entry(bs, i, j):
    r = ZERO
    for b in bs:
        r = r + batch_entry(b, i, j)
    return r


def dlmv(c, bs, kind='loader', **kw):
    kw.setdefault('reduce', c.get(LO + 'reduce_add'))
    return c.call(LO + 'DataLoaderMV', batch_mv(), source(kind, bs) if not isinstance(bs, Loader) else bs, **kw)


def apply_total(bs, v, n=Pn):
    def body(i):
        w = fresh(n)
        return esum(total_entry(bs, i[0], w) * v.at(w), w)
    return Arr((n,), body)


@ob('C11', 'mv-call', LO + 'DataLoaderMV', 'the streamed operator is the sum of the batch operators, on every application')
def _(c):
    bs = raw(3)
    ld = Loader(bs)
    m = dlmv(c, ld)
    v, u = opaque('v', Pn), opaque('u', Pn)
    c.eq(c.call(m, v), apply_total(bs, v), 'first application')
    c.eq(c.call(m, u), apply_total(bs, u), 'second application')
    c.ok(ld.taken == 6, 'each application uses each batch once')


@ob('C11', 'mv-call-mean', LO + 'DataLoaderMV', 'the reduction given to the streamed operator is the one applied')
def _(c):
    bs = raw(2)
    log = []
    m = dlmv(c, bs, reduce=rec_reduce(log))
    c.call(m, opaque('v', Pn))
    c.ok(len(log) == 2, 'reducer called once per batch')
    f = Builtin('f', lambda it, a, k: elementwise(lambda x: x + asarr(k['vec'] if 'vec' in k else a[0]).at(), (k['data'] if 'data' in k else a[-1])['input']))
    m = c.call(LO + 'DataLoaderMV', f, Loader(bs))
    cnt = NB[0] + NB[1]

    def tot(i):
        r = ZERO
        for b in bs:
            w = fresh(b[0].axes[0].dim)
            r = r + esum(b[0].at(w, *i) + sym('s'), w)
        return r / cnt
    c.eq(c.call(m, asarr(S('s'))), Arr((I_,), tot), 'default reduction: mean over all samples')


@ob('C11', 'mv-transform', LO + 'DataLoaderMV', 'the transform given to the streamed operator is applied to every batch')
def _(c):
    bs = [{'x': a, 'y': b} for a, b in raw(2)]
    tr = Builtin('tr', lambda it, a, k: {'input': a[0]['x'], 'target': a[0]['y']})
    m = c.call(LO + 'DataLoaderMV', batch_mv(), Loader(bs), transform=tr, reduce=c.get(LO + 'reduce_add'))
    v = opaque('v', Pn)
    c.eq(c.call(m, v), apply_total(raw(2), v), 'application')


@ob('C11', 'mv-dense', LO + 'DataLoaderMV', 'the dense form of a streamed operator is the sum of the dense batch operators')
def _(c):
    bs = raw(2)
    got = c.call(MV + 'to_dense', dlmv(c, bs), py(Pn))
    c.eq(got, Arr((Pn, Pn), lambda i: total_entry(bs, i[0], i[1])), 'dense')
    got = c.call(MV + 'to_dense', dlmv(c, bs), layout=py(Pn), to_dense_batch_size=2)
    c.eq(got, Arr((Pn, Pn), lambda i: total_entry(bs, i[0], i[1])), 'dense, batched')


def own_reduce():
    """Running 2 * old + new: neither a sum nor a mean, not symmetric in the batches."""
    def f(it, a, k):
        st = a[1] if len(a) > 1 else k.get('state')
        r = a[0] if st is None else Arr(a[0].axes, lambda i: st[0].at(*i) * 2 + a[0].at(*i), 'float', a[0].tl)
        return (r, (r,))
    return Builtin('own_reduce', f)


@ob('C11', 'mv-own-reduce', LO + 'DataLoaderMV', 'application, dense form, diagonal and wrapped versions of a streamed operator use the reduction and transform it was given')
def _(c):
    bs = raw(3)
    w = [4, 2, 1]
    ent = lambda i, j: sum((batch_entry(b, i, j) * q for b, q in zip(bs, w)), ZERO)
    rows = [{'q': (b[1], b[0])} for b in bs]
    tr = Builtin('tr', lambda it, a, k: {'input': a[0]['q'][1], 'target': a[0]['q'][0]})
    m = c.call(LO + 'DataLoaderMV', batch_mv(), Loader(rows), transform=tr, reduce=own_reduce())
    ident = Builtin('i', lambda it, a, k: a[0])
    v = opaque('v', Pn)
    for what, x in (('operator', m), ('wrapped operator', c.call(FL + 'wrap_function', m, input_fn=ident)),
                    ('twice wrapped operator', c.call(FL + 'wrap_function', c.call(FL + 'wrap_function', m), output_fn=ident))):
        z = fresh(Pn)
        c.eq(c.call(x, v), Arr((Pn,), lambda i: esum(ent(i[0], z) * v.at(z), z)), f'application of the {what}')
        c.eq(c.call(MV + 'to_dense', x, py(Pn)), Arr((Pn, Pn), lambda i: ent(i[0], i[1])), f'dense form of the {what}')
        c.eq(c.call(MV + 'diagonal', x, py(Pn)), Arr((Pn,), lambda i: ent(i[0], i[0])), f'diagonal of the {what}')


@ob('C11', 'mv-diagonal', LO + 'DataLoaderMV', 'the diagonal of a streamed operator is the sum of the diagonals')
def _(c):
    bs = raw(2)
    want = Arr((Pn,), lambda i: total_entry(bs, i[0], i[0]))
    c.eq(c.call(MV + 'diagonal', dlmv(c, bs), py(Pn)), want, 'diagonal')
    c.eq(c.call(MV + 'diagonal', dlmv(c, bs), layout=py(Pn), mv_jittable=False), want, 'diagonal, options')
    c.eq(c.call(MV + 'diagonal', dlmv(c, bs), layout=py(Pn), diagonal_batch_size=3), want, 'diagonal, batched')


@ob('C11', 'mv-wrap', LO + 'DataLoaderMV', 'wrapping a streamed operator composes input and output maps, nests, and leaves the original unchanged')
def _(c):
    bs = raw(2)
    m = dlmv(c, bs)
    wf = c.get(FL + 'wrap_function')
    two = Builtin('two', lambda it, a, k: elementwise(lambda x: x * 2, a[0]))
    sq = Builtin('sq', lambda it, a, k: elementwise(lambda x: x * x, a[0]))
    add1 = Builtin('add1', lambda it, a, k: elementwise(lambda x: x + 1, a[0]))
    cube = Builtin('cube', lambda it, a, k: elementwise(lambda x: x ** 3, a[0]))
    v = opaque('v', Pn)
    f1 = lambda x: elementwise(lambda p: p * p, x)
    w1 = c.call(wf, m, input_fn=add1, output_fn=sq)
    c.eq(c.call(w1, v), f1(apply_total(bs, Arr((Pn,), lambda i: v.at(*i) + 1))), 'wrapped')
    w2 = c.call(wf, w1, input_fn=cube, output_fn=two)
    want = Arr((Pn,), lambda i: f1(apply_total(bs, Arr((Pn,), lambda i: v.at(*i) ** 3 + 1))).at(*i) * 2)
    c.eq(c.call(w2, v), want, 'wrapped twice: innermost input map last, innermost output map first')
    c.eq(c.call(w1, v), f1(apply_total(bs, Arr((Pn,), lambda i: v.at(*i) + 1))), 'first wrapper unchanged')
    c.eq(c.call(m, v), apply_total(bs, v), 'original unchanged')
    c.eq(c.call(c.call(wf, m), v), apply_total(bs, v), 'wrapping without maps')
    c.eq(c.call(c.call(wf, m, input_fn=add1), v), apply_total(bs, Arr((Pn,), lambda i: v.at(*i) + 1)), 'input map only')
    c.eq(c.call(c.call(wf, m, output_fn=sq), v), f1(apply_total(bs, v)), 'output map only')
    c.eq(c.call(m, v), apply_total(bs, v), 'original unchanged by partial wraps')
    c.eq(c.call(w1, v), f1(apply_total(bs, Arr((Pn,), lambda i: v.at(*i) + 1))), 'wrapper unchanged by partial wraps')
    w3 = c.call(wf, w1, output_fn=two)
    c.eq(c.call(w3, v), Arr((Pn,), lambda i: f1(apply_total(bs, Arr((Pn,), lambda j: v.at(*j) + 1))).at(*i) * 2), 'a second output map is applied last')
    c.eq(c.call(w1, v), f1(apply_total(bs, Arr((Pn,), lambda i: v.at(*i) + 1))), 'wrapper unchanged by a second output map')


@ob('C11', 'mv-wrap-keeps', LO + 'DataLoaderMV', 'a wrapped streamed operator keeps transform and reduction')
def _(c):
    bs = [{'x': a, 'y': b} for a, b in raw(2)]
    log = []
    tr = Builtin('tr', lambda it, a, k: {'input': a[0]['x'], 'target': a[0]['y']})
    m = c.call(LO + 'DataLoaderMV', batch_mv(), Loader(bs), transform=tr, reduce=rec_reduce(log))
    w = c.call(FL + 'wrap_function', m, input_fn=Builtin('id', lambda it, a, k: a[0]))
    r = c.call(w, opaque('v', Pn))
    c.ok(len(log) == 2 and isinstance(r, tuple) and r[:2] == ('result', 2), 'reduction kept')


@ob('C11', 'mv-wrapped-dense', LO + 'DataLoaderMV', 'dense form and diagonal of a wrapped streamed operator agree with its action')
def _(c):
    bs = raw(2)
    wf = c.get(FL + 'wrap_function')
    two = Builtin('two', lambda it, a, k: elementwise(lambda x: x * 2, a[0]))
    five = Builtin('five', lambda it, a, k: elementwise(lambda x: x * 5, a[0]))
    w = c.call(wf, dlmv(c, bs), input_fn=two, output_fn=five)
    c.eq(c.call(MV + 'to_dense', w, py(Pn)), Arr((Pn, Pn), lambda i: total_entry(bs, i[0], i[1]) * 10), 'dense')
    c.eq(c.call(MV + 'diagonal', w, py(Pn)), Arr((Pn,), lambda i: total_entry(bs, i[0], i[0]) * 10), 'diagonal')


@ob('C11', 'mv-curvature', 'laplax.curv.cov.estimate_curvature', 'full and diagonal curvature of a streamed tree operator is the sum of the batch curvatures in flattening order')
def _(c):
    bs = raw(2)
    flat = setup_tree()

    def f(it, a, k):
        x, d = k.get('vec', a[0] if a else None), k['data'] if 'data' in k else a[-1]
        out = {}
        for k1 in ('a', 'b'):
            def body(idx, k1=k1):
                r = ZERO
                for k2 in ('a', 'b'):
                    ii = fresh_idx(x[k2])
                    r = r + esum(app('T' + k1 + k2, (), [lam_of(d['input']), lam_of(d['target'])], tuple(idx) + ii) * x[k2].at(*ii), *ii)
                return r
            out[k1] = Arr((A1, A2) if k1 == 'a' else (B,), body, 'float', max(x['a'].tl, x['b'].tl))
        return out
    m = c.call(LO + 'DataLoaderMV', Builtin('mv', f), Loader(bs), reduce=c.get(LO + 'reduce_add'))
    t = {'a': opaque('la', A1, A2), 'b': opaque('lb', B)}

    def ent(k1, i, k2, j):
        r = ZERO
        for b in bs:
            r = r + app('T' + k1 + k2, (), [lam_of(b[0]), lam_of(b[1])], tuple(i) + tuple(j))
        return r
    CT = c.get('laplax.enums.CurvApprox')
    D = c.call('laplax.curv.cov.estimate_curvature', c.it.getattr(CT, 'DIAGONAL'), m, layout=t)
    i1, i2, j1, j2, k1, l1 = fresh(A1), fresh(A2), fresh(A1), fresh(A2), fresh(B), fresh(B)
    off = A1 * A2
    c.same(D.at(i1 * A2 + i2), ent('a', (i1, i2), 'a', (i1, i2)), 'diagonal, leaf a')
    c.same(D.at(off + k1), ent('b', (k1,), 'b', (k1,)), 'diagonal, leaf b')
    F = c.call('laplax.curv.cov.estimate_curvature', c.it.getattr(CT, 'FULL'), m, layout=t)
    c.same(F.at(i1 * A2 + i2, j1 * A2 + j2), ent('a', (i1, i2), 'a', (j1, j2)), 'block aa')
    c.same(F.at(i1 * A2 + i2, off + k1), ent('a', (i1, i2), 'b', (k1,)), 'block ab')
    c.same(F.at(off + k1, j1 * A2 + j2), ent('b', (k1,), 'a', (j1, j2)), 'block ba')
    c.same(F.at(off + k1, off + l1), ent('b', (k1,), 'b', (l1,)), 'block bb')
