"""C07, C08, C30, C33: the low-rank eigensolvers."""
from .common import *
from engine.lib import ext
from engine.lib5 import veil
from engine.lib6 import lift

LZ, LB, LR = 'laplax.curv.lanczos.', 'laplax.curv.lobpcg.', 'laplax.curv.low_rank.'
DTS = ('float32', 'float64')
PROPS.setdefault('mv', set())


def DTv(c, name):
    return ext('jax.numpy.' + name)


def operator(log=None, n=None, fail_at=None):
    """An arbitrary operator; its result has the precision of its argument."""
    cnt = [0]

    def f(it, a, k):
        x = asarr(a[0])
        cnt[0] += 1
        if log is not None:
            log.append((x.dtype, dict(it.config)))
        if fail_at is not None and cnt[0] >= fail_at:
            raise AbsRaise(RuntimeError, 'operator failure')
        return app_arr('mv', [veil(it, x)], x.axes, (), x.dtype, x.tl)
    return Builtin('mv', f)


def once_round(it, cf, bf, c, lvl):
    """Loop summary: one round (only types matter)."""
    return (it.call(bf, [c], {}),)


def prec_ob(fun, mod, x64, jit):
    @ob('C08', f'{fun}-{"x64" if x64 else "x32"}-{"jit" if jit else "nojit"}', mod + fun,
        'the operator is applied in mv_dtype, the result has return_dtype (defaults: float64 iff x64 is enabled), for every calc_dtype', limit=300)
    def _(c):
        c.it.hooks['veil'] = True
        c.it.hooks['while_loop'] = once_round
        f = c.get(mod + fun)
        default = 'float64' if x64 else 'float32'
        for mv in (None,) + DTS:
            for calc in DTS:
                for ret in (None,) + DTS:
                    kw = {k: DTv(c, v) for k, v in (('mv_dtype', mv), ('calc_dtype', calc), ('return_dtype', ret)) if v}
                    c.it.config['jax_enable_x64'] = x64
                    log = []
                    r = c.call(f, operator(log), key=key(), layout=12, rank=1, mv_jit=jit, **kw)
                    what = f'mv_dtype={mv}, calc_dtype={calc}, return_dtype={ret}, x64 {x64}'
                    seen = {d for d, _ in log}
                    c.ok(seen == {mv or default}, f'{what}: the operator is applied to {sorted(seen)}')
                    for n in ('U', 'S', 'scalar'):
                        v = asarr(attr(r, n))
                        c.ok(v.dtype == (ret or default), f'{what}: {n} has type {v.dtype}')


def attr(o, n):
    return o.attrs[n]


def key():
    from .p_push import key as k
    return k()


for f_, m_ in (('lanczos_lowrank', LZ), ('lobpcg_lowrank', LB)):
    for x_ in (True, False):
        for j_ in (True, False):
            prec_ob(f_, m_, x_, j_)


# ---- C07: the configuration is restored on every exit
class Fault:
    """Raise at the n-th call of anything outside the source (library or user function)."""

    def __init__(self, n):
        self.n, self.hit = n, None

    def __call__(self, it, f):
        if 'config' in f.name or self.hit is not None:
            return
        if self.n == 0:
            self.hit = f.name
            raise AbsRaise(RuntimeError, f'failure of {f.name}')
        self.n -= 1


def exits_ob(fun, mod, x64, jit, calc):
    @ob('C07', f'{fun}-{"x64" if x64 else "x32"}-{"jit" if jit else "nojit"}-{calc}', mod + fun,
        'jax_enable_x64 has its initial value after normal return and after an exception at any call', limit=600)
    def _(c):
        f = c.get(mod + fun)
        c.it.hooks['veil'] = True
        c.it.hooks['while_loop'] = once_round
        n = 0
        while True:
            c.it.config['jax_enable_x64'] = x64
            fault = c.it.hooks['libcall'] = Fault(n)
            _v, e = c.attempt(lambda: c.call(f, operator(), key=key(), layout=12, rank=1, mv_jit=jit, calc_dtype=DTv(c, calc)))
            c.it.hooks.pop('libcall')
            how = f'after an exception in {fault.hit} (call {n})' if e is not None else 'after normal return'
            if fault.hit is None and e is not None:
                raise e
            c.ok(c.it.config['jax_enable_x64'] is x64, f'jax_enable_x64 is {brief(c.it.config["jax_enable_x64"])} instead of {x64} {how}')
            if fault.hit is None:
                break
            n += 1
        c.ok(n > 10, f'only {n} call sites reached')
        for kw in ({'layout': None, 'key': key()}, {'layout': 12}):
            c.it.config['jax_enable_x64'] = x64
            c.attempt(lambda: c.call(f, operator(), rank=1, mv_jit=jit, calc_dtype=DTv(c, calc), **kw))
            c.ok(c.it.config['jax_enable_x64'] is x64, f'jax_enable_x64 is changed after invalid arguments {sorted(kw)}')


for f_, m_ in (('lanczos_lowrank', LZ), ('lobpcg_lowrank', LB)):
    for x_ in (True, False):
        for j_ in (True, False):
            for d_ in DTS:
                exits_ob(f_, m_, x_, j_, d_)


# ---- C30: Lanczos
def symmetric(k=''):
    b = opaque('Bm' + k, Pn, Pn)
    return Arr((Pn, Pn), lambda i: b.at(*i) + b.at(i[1], i[0]))


def let(r):
    """Abbreviate a closed array: r is shared, not copied, in the terms built from it."""
    idx = fresh_idx(r)
    if set(r.at(*idx).fv) - {v for i in idx for v in i.fv}:
        return r
    key = lam_of(r)
    n = T.LETKEY.get(key)
    if n is None:
        n = T.LETKEY[key] = f'let{next(T._fresh)}'
        T.LETS[n] = r
    T.DIMS[n] = r.dims
    return Arr(r.axes, lambda i: elem(n, i), r.dtype, r.tl)


def share(it, f, r):
    return let(r) if isinstance(r, Arr) and f.name.split('.')[-1] in ('dot', 'vdot', 'inner', 'norm', 'matmul', 'einsum', 'sum') else r


def mat_op(a):
    return Builtin('matvec', lambda it, x, k: let(matmul(a, let(asarr(x[0])))))


def dot_(x, y):
    i = fresh(x.dims[0])
    return esum(x.at(i) * y.at(i), i)


def lz_ob(k, full, jit):
    @ob('C30', f'iterations-{k}-{"full" if full else "local"}-{"jit" if jit else "nojit"}', LZ + 'lanczos_iterations',
        'the Lanczos vectors are orthonormal and V A V^T is the tridiagonal matrix of alpha and beta', limit=200)
    def _(c):
        a, b = symmetric(), opaque('b', Pn)
        T.BIGDIM.add('P')
        c.it.hooks['libresult'] = share
        al, be, v = c.call(LZ + 'lanczos_iterations', mat_op(a), b, maxiter=k, full_reorthogonalize=full, mv_jit=jit, dtype=ext('jax.numpy.float64'))
        c.ok([asarr(x).ndim for x in (al, be, v)] == [1, 1, 2], 'ranks')
        vs = [Arr((Pn,), lambda i, j=j: v.at(const(j), i[0])) for j in range(k + 1)]
        for i in range(k + 1):
            for j in range(i):
                c.same(dot_(vs[i], vs[j]), ZERO, f'V[{i}] . V[{j}]')
            scale = be.at(const(i - 1)) if i else ONE       # a vanishing remainder gives a zero vector
            c.same(scale * dot_(vs[i], vs[i]), scale, f'|V[{i}]|^2')
        for i in range(k):
            w = matmul(a, vs[i])
            c.same(dot_(vs[i], w), al.at(const(i)), f'alpha[{i}]')
            c.same(dot_(vs[i + 1], w), be.at(const(i)), f'beta[{i}]')
            # nothing of the residual is lost: A V[i] = beta[i-1] V[i-1] + alpha[i] V[i] + beta[i] V[i+1]
            j = fresh(Pn)
            rec = al.at(const(i)) * vs[i].at(j) + be.at(const(i)) * vs[i + 1].at(j)
            if i:
                rec = rec + be.at(const(i - 1)) * vs[i - 1].at(j)
            c.same(rec, w.at(j), f'recurrence of A V[{i}]')


for k_ in (1, 2, 3):
    for f_ in (True, False):
        for j_ in (True, False):
            lz_ob(k_, f_, j_)


def reorth_ob(k, jit):
    @ob('C30', f'reorthogonalized-{k}-{"jit" if jit else "nojit"}', LZ + 'lanczos_iterations',
        'with full reorthogonalization the vectors are orthonormal whatever the operator returns (no three-term recurrence is needed)', limit=200)
    def _(c):
        a, b = opaque('Bq', Pn, Pn), opaque('b', Pn)
        T.BIGDIM.add('P')
        c.it.hooks['libresult'] = share
        al, be, v = c.call(LZ + 'lanczos_iterations', mat_op(a), b, maxiter=k, full_reorthogonalize=True, mv_jit=jit, dtype=ext('jax.numpy.float64'))
        vs = [Arr((Pn,), lambda i, j=j: v.at(const(j), i[0])) for j in range(k + 1)]
        for i in range(k + 1):
            for j in range(i):
                c.same(dot_(vs[i], vs[j]), ZERO, f'V[{i}] . V[{j}]')
            scale = be.at(const(i - 1)) if i else ONE
            c.same(scale * dot_(vs[i], vs[i]), scale, f'|V[{i}]|^2')


for k_ in (2, 3):
    for j_ in (True, False):
        reorth_ob(k_, j_)


@ob('C30', 'invariant-subspace', LZ + 'lanczos_iterations', 'once the Krylov space is exhausted, all further vectors and scalars vanish')
def _(c):
    for full in (True, False):
        for jit in (True, False):
            s, b = S('s'), opaque('b', Pn)
            op = Builtin('scaled', lambda it, x, k: elementwise(lambda p, q: p * q, s, asarr(x[0])))
            T.BIGDIM.add('P')
            c.it.hooks['libresult'] = share
            al, be, v = c.call(LZ + 'lanczos_iterations', op, b, maxiter=3, full_reorthogonalize=full, mv_jit=jit, dtype=ext('jax.numpy.float64'))
            c.same(al.at(const(0)), s.at(), 'alpha[0]')
            for i in range(3):
                c.same(be.at(const(i)), ZERO, f'beta[{i}]')
                p = fresh(v.dims[1])
                c.same(v.at(const(i + 1), p), ZERO, f'V[{i + 1}]')
            for i in (1, 2):
                c.same(al.at(const(i)), ZERO, f'alpha[{i}]')


@ob('C30', 'breakdown-threshold', LZ + 'lanczos_iterations', 'a residual of norm below tol counts as an exhausted Krylov space, one above it does not')
def _(c):
    for a0 in (0, 1, -3, 1000):
        for e, kept in ((Q(1, 10 ** 9), False), (Q(1, 1000), True)):
            for full, jit in ((True, False), (False, True)):
                m = asarr([[a0, e], [e, 2]])
                op = Builtin('m', lambda it, x, k: mv2(m, asarr(x[0])))
                al, be, v = c.call(LZ + 'lanczos_iterations', op, asarr([1, 0]), maxiter=1, tol=Q(1, 10 ** 6), full_reorthogonalize=full, mv_jit=jit,
                                   dtype=ext('jax.numpy.float64'))
                what = f'operator [[{a0}, {e}], [{e}, 2]], tol 1e-6'
                c.same(al.at(const(0)), const(a0), f'alpha for {what}')
                c.same(be.at(const(0)), const(e if kept else 0), f'beta for {what}')
                c.same(v.at(const(1), const(0)), ZERO, f'V[1, 0] for {what}')
                c.same(v.at(const(1), const(1)), ONE if kept else ZERO, f'V[1, 1] for {what}')


def mv2(m, x):
    return Arr((2,), lambda i: m.at(i[0], const(0)) * x.at(const(0)) + m.at(i[0], const(1)) * x.at(const(1)))


def tri(al, be, k):
    """The symmetric tridiagonal matrix, entry by entry."""
    return [[al(i) if i == j else be(min(i, j)) if abs(i - j) == 1 else ZERO for j in range(k)] for i in range(k)]


def tri_arr(al, be, k):
    rows = tri(lambda i: al.at(const(i)), lambda i: be.at(const(i)), k)

    def body(i):
        out = ZERO
        for a in range(k):
            for b in range(k):
                out = out + delta0(i[0] - const(a)) * delta0(i[1] - const(b)) * rows[a][b]
        return out
    return Arr((const(k), const(k)), body)


def tri_ob(k):
    @ob('C30', f'tridiagonal-{k}', LZ + 'construct_tridiagonal', 'alpha on the diagonal, the first k - 1 entries of beta beside it, zero elsewhere')
    def _(c):
        al, be = opaque('al', const(k)), opaque('be', const(k))
        t = c.call(LZ + 'construct_tridiagonal', al, be)
        c.ok([pyint(d) for d in asarr(t).dims] == [k, k], 'shape')
        want = tri(lambda i: al.at(const(i)), lambda i: be.at(const(i)), k)
        for i in range(k):
            for j in range(k):
                c.same(t.at(const(i), const(j)), want[i][j], f'T[{i},{j}]')

    @ob('C30', f'eigendecomposition-{k}', LZ + 'compute_eigendecomposition', 'eigenvalues of T; Ritz vectors V^T Q without the last Lanczos vector')
    def _(c):
        al, be, v = opaque('al', const(k)), opaque('be', const(k)), opaque('v', const(k + 1), Pn)
        t = tri_arr(al, be, k)
        w, q = app_arr('eigval', [t], (const(k),)), app_arr('eigvec', [t], (const(k), const(k)))
        c.eq(c.call(LZ + 'compute_eigendecomposition', al, be, v), w, 'eigenvalues')
        r = c.call(LZ + 'compute_eigendecomposition', al, be, v, compute_vectors=True)
        ritz = Arr((Pn, const(k)), lambda i: sum((v.at(const(j), i[0]) * q.at(const(j), i[1]) for j in range(k)), ZERO))
        c.eq(r, (w, ritz), 'eigenpairs')


for k_ in (1, 2, 3):
    tri_ob(k_)


# ---- C33: LOBPCG without jit against the JAX reference
def share_all(it, f, r):
    """Abbreviate every intermediate array, so that terms keep the sharing of the program."""
    return let(r) if isinstance(r, Arr) and r.ndim and r.dtype != 'key' else r


def follow(rounds, conds):
    """Run the reference loop for as many rounds as the code did; record its loop conditions."""
    def h(it, cf, bf, carry, lvl):
        for j in range(rounds + 1):
            conds.append(asarr(it.call(cf, [carry], {})).at())
            if j < rounds:
                carry = lift(it, it.call(bf, [carry], {}), lvl)
        return (carry,)
    return h


def ref_ob(n, k, m, tier='quick'):
    @ob('C33', f'steps-{n}-{k}-{m}', LB + 'lobpcg_standard',
        'without jit the algorithm takes the steps of the JAX reference and stops when it does: same eigenvalues, vectors and number of iterations',
        limit=800, tier=tier)
    def _(c):
        from engine.lib7 import ref_module
        a, x = opaque('A', const(n), const(n)), opaque('X0', const(n), const(k))
        x.dtype = 'float32'
        ref = ref_module(c.it).ns['_lobpcg_standard_callable']
        c.it.hooks['libresult'] = c.it.hooks['opresult'] = share_all
        tol = scalar(fn('exp', sym('u', 'unit') * const(-11)), 'float', 0, 'float')     # 1 .. 1e-5
        ax_ = Builtin('A', lambda it, v, kw: let(matmul(a, let(asarr(v[0]))).with_(dtype=asarr(v[0]).dtype)))
        f32 = ext('jax.numpy.float32')
        got = c.call(LB + 'lobpcg_standard', ax_, x, m=m, tol=tol, calc_dtype=f32, a_dtype=f32, A_jit=False)
        rounds, conds = py(asarr(got[2]).at()), []
        c.ok(0 <= rounds <= m, f'{rounds} iterations instead of at most {m}')
        c.it.hooks['while_loop'] = follow(rounds, conds)
        want = c.call(ref, ax_, x, m, tol)
        for j, p in enumerate(conds):
            c.same(p, const(int(j < rounds)), f'condition to continue after {j} iterations')
        c.eq(got[0], want[0], 'eigenvalues')
        c.eq(got[1], want[1], 'eigenvectors')


ref_ob(12, 2, 1)
ref_ob(7, 1, 2)
ref_ob(11, 2, 2)


def default_tol_ob(calc, mv):
    @ob('C33', f'default-tolerance-{calc}-{mv}', LB + 'lobpcg_standard', 'without a tolerance, the machine epsilon of the calculation precision is used')
    def _(c):
        a, x = opaque('A', const(7), const(7)), opaque('X0', const(7), const(1))
        x.dtype = 'float32'
        c.it.hooks['libresult'] = c.it.hooks['opresult'] = share_all
        ax_ = Builtin('A', lambda it, v, kw: let(matmul(a, let(asarr(v[0]))).with_(dtype=asarr(v[0]).dtype)))
        kw = {'m': 2, 'calc_dtype': ext('jax.numpy.' + calc), 'a_dtype': ext('jax.numpy.' + mv), 'A_jit': False}
        eps = c.it.getattr(c.call(ext('jax.numpy.finfo'), ext('jax.numpy.' + calc)), 'eps')
        c.eq(c.call(LB + 'lobpcg_standard', ax_, x, **kw), c.call(LB + 'lobpcg_standard', ax_, x, tol=eps, **kw), 'result')


for p_ in DTS:
    for q_ in DTS:
        default_tol_ob(p_, q_)


@ob('C33', 'jit-delegates', LB + 'lobpcg_standard', 'with jit the JAX routine is applied to the operator, start, iteration bound and tolerance')
def _(c):
    from engine.lib7 import ref_module
    a, x, tol = opaque('A', const(7), const(7)), opaque('X0', const(7), const(1)), S('tol', 'pos')
    ref = ref_module(c.it).ns['_lobpcg_standard_callable']
    c.it.hooks['libresult'] = c.it.hooks['opresult'] = share_all
    op = Builtin('A', lambda it, v, kw: let(matmul(a, let(asarr(v[0]))).with_(dtype=asarr(v[0]).dtype)))
    out = []
    for f, kw in ((LB + 'lobpcg_standard', {'A_jit': True}), (ref, {})):
        conds = []
        c.it.hooks['while_loop'] = follow(1, conds)
        r = c.call(f, op, x, 3, tol, **kw)
        out.append((conds, r[0], r[1]))
    for p, q in zip(out[0][0], out[1][0]):
        c.same(p, q, 'loop condition')
    c.eq(out[0][1:], out[1][1:], 'result')


SIG_LOBPCG = ['A', 'X', 'm', 'tol', 'calc_dtype', 'a_dtype', 'A_jit']
SIG_LANCZOS = ['matvec', 'b', 'maxiter', 'tol', 'full_reorthogonalize', 'dtype', 'mv_jit']


def summary(c, dotted, names, result):
    log = []

    def f(it, a, k):
        v = dict(zip(names, a))
        v.update(k)
        log.append(v)
        return result(v)
    c.stub(dotted, f)
    return log


def lowrank_ob(fun, mod, form, jit):
    @ob('C33' if fun == 'lobpcg_lowrank' else 'C30', f'lowrank-{form}-{"jit" if jit else "nojit"}', mod + fun,
        'the solver gets the given operator on flat vectors, a standard normal start from the key, rank and tolerance; its eigenpairs are returned with scalar 0')
    def _(c):
        a, n = opaque('A', const(12), const(12)), 12
        op = a if form == 'dense' else Builtin('mv', lambda it, x, k: matmul(a, asarr(x[0])))
        tol = S('tol', 'pos')
        dt = ext('jax.numpy.float32')
        if fun == 'lobpcg_lowrank':
            log = summary(c, LB + 'lobpcg_standard', SIG_LOBPCG, lambda v: (opaque('theta', const(2)), opaque('vecs', const(n), const(2)), 1))
        else:
            log = summary(c, LZ + 'lanczos_iterations', SIG_LANCZOS,
                          lambda v: (opaque('al', const(2)), opaque('be', const(2)), opaque('v', const(3), const(n))))
        kw = dict(layout=None if form == 'dense' else n, rank=2, tol=tol, mv_jit=jit, mv_dtype=dt, calc_dtype=dt, return_dtype=dt)
        r = c.call(mod + fun, op, key=key(), **kw)
        if len(log) != 1:
            c.undecided('the solver is not called by its public name')
        v = log[0]
        normal = ext('jax.random.normal')
        if fun == 'lobpcg_lowrank':
            c.eq(v['X'], c.call(normal, key(), (n, 2)), 'start')
            c.ok(py(v['m']) == 2, 'iteration bound')
            x = opaque('x', const(n), const(3))
            c.eq(c.call(v['A'], x), matmul(a, x), 'operator')
            c.eq(attr(r, 'S'), opaque('theta', const(2)), 'S')
            c.eq(attr(r, 'U'), opaque('vecs', const(n), const(2)), 'U')
            c.ok(c.it.truth(v['A_jit']) is jit, 'mv_jit reaches the solver')
        else:
            c.eq(v['b'], c.call(normal, key(), (n,)), 'start')
            c.ok(py(v['maxiter']) == 2, 'number of iterations')
            x = opaque('x', const(n))
            c.eq(c.call(v['matvec'], x), matmul(a, x), 'operator')
            w, q = c.call(LZ + 'compute_eigendecomposition', opaque('al', const(2)), opaque('be', const(2)), opaque('v', const(3), const(n)), compute_vectors=True)
            c.eq(attr(r, 'S'), w, 'S')
            c.eq(attr(r, 'U'), q, 'U')
            c.ok(c.it.truth(v['mv_jit']) is jit, 'mv_jit reaches the solver')
            c.ok(c.it.truth(v.get('full_reorthogonalize', True)) is True, 'full reorthogonalization by default')
            b0 = opaque('b0', const(n))
            c.call(mod + fun, op, b=b0, full_reorthogonalize=False, **kw)
            c.eq(log[1]['b'], b0, 'given start')
            c.ok(c.it.truth(log[1].get('full_reorthogonalize', True)) is False, 'full_reorthogonalize reaches the solver')
        c.ok('tol' in v, 'the tolerance reaches the solver')
        c.eq(v['tol'], tol, 'tolerance')
        c.eq(attr(r, 'scalar'), ZERO_ARR, 'scalar')


ZERO_ARR = scalar(ZERO, 'float', 0, 'float')
for f_, m_ in (('lanczos_lowrank', LZ), ('lobpcg_lowrank', LB)):
    for g_ in ('dense', 'flat'):
        for j_ in (True, False):
            lowrank_ob(f_, m_, g_, j_)


@ob('C33', 'rank', LB + 'lobpcg_lowrank', 'the rank r satisfies the precondition 5 r < size of the algorithm for every size above 5, and is the requested one whenever that satisfies it')
def _(c):
    log = summary(c, LB + 'lobpcg_standard', SIG_LOBPCG, lambda v: (opaque('theta', v['X'].axes[1]), v['X'], 1))
    for size in range(6, 64):
        for rank in (1, 2, 3, 5, 7, 20):
            log.clear()
            c.call(LB + 'lobpcg_lowrank', Builtin('mv', lambda it, x, k: asarr(x[0])), layout=size, rank=rank, key=key())
            if len(log) != 1:
                c.undecided('the solver is not called by its public name')
            k = pyint(log[0]['X'].axes[1].dim)
            c.ok(1 <= k <= rank and 5 * k < size, f'size {size}, rank {rank}: {k} vectors')
            c.ok(k == rank or 5 * rank >= size, f'size {size}, rank {rank}: reduced to {k} without need')
