"""C22 grid search, C23 calibration objectives."""
import itertools as _it
from .common import *

CAL = 'laplax.eval.calibrate.'
INF = Q(10 ** 9)


class Nan:
    pass


def evaluate(p, val):
    """Value of a term under an ordering of the objective values, or None."""
    def atom(a):
        s = show(T.atom_poly(a))
        if s in val:
            return val[s]
        if a.k == 'v':
            op, q = a.d[0], a.d[1]
            x = poly(q)
            if x is None:
                return None
            if x is Nan:
                return Q(0)
            return Q(1 if (x > 0 if op == '>' else x >= 0) else 0)
        if a.k == 'f':
            nm = a.d[0]
            if nm.startswith('const_'):
                return {'inf': INF, '-inf': -INF}.get(nm[6:], Nan)
            if nm in ('isnan', 'isinf', 'isfinite'):
                x = poly(a.d[1][0] if isinstance(a.d[1], tuple) else a.d[1])
                if x is None:
                    return None
                n, i = x is Nan, x is not Nan and abs(x) >= INF / 2
                return Q(int({'isnan': n, 'isinf': i, 'isfinite': not n and not i}[nm]))
        return None

    def poly(q):
        tot = Q(0)
        for t, cf in q.t:
            b, fs = T.open_term(t)
            if b:
                return None
            pr = Q(cf)
            for a, e in fs:
                if isinstance(a, T.Poly):
                    x = poly(a)
                else:
                    x = atom(a)
                if x is None:
                    return None
                if x is Nan:
                    return Nan
                if e.denominator != 1 or (x == 0 and e < 0):
                    return None
                pr *= x ** int(e)
            tot += pr
        return tot
    return poly(p)


def orderings(n, nan=True):
    """All weak orderings of n values (rank tuples), some of them failing."""
    seen = set()
    for r in _it.product(range(n), repeat=n):
        s = sorted(set(r))
        k = tuple(s.index(x) for x in r)
        seen.add(k)
    return sorted(seen)


def bad_patterns(n):
    """Which evaluations fail: none, one NaN, one ValueError, two failures."""
    out = [{}]
    for i in range(n):
        out += [{i: 'nan'}, {i: 'error'}]
    for i, j in _it.combinations(range(n), 2):
        out.append({i: 'nan', j: 'error'})
    return out


def run_grid(c, n, order, bad, **kw):
    it = c.it
    it.facts.clear()
    it.fact_polys.clear()
    val = {}
    calls = []
    grid = Arr((ax(const(n)),), lambda i: elem('pp', i))
    rank = {}
    for j in range(n):
        r = INF if j in bad else Q(order[j])
        rank[j] = r
        val[show(sym(f'r{j}'))] = Nan if bad.get(j) == 'nan' else Q(order[j])

    def objective(it_, a, k):
        pa = a[0] if a else next(iter(k.values()))
        if set(pa) != {'prior_prec'}:
            raise Violated(f'objective called with prior arguments {sorted(pa)}')
        p = asarr(pa['prior_prec']).scalar()
        j = [q for q in range(n) if T.equal(p, elem('pp', (const(q),)))]
        if len(j) != 1:
            raise Violated(f'objective evaluated at {show(p)}, which is not a grid point')
        calls.append(j[0])
        if bad.get(j[0]) == 'error':
            raise AbsRaise(ValueError, 'objective failed')
        if isinstance(bad.get(j[0]), type):
            raise AbsRaise(bad[j[0]], 'objective failed')
        return scalar(sym(f'r{j[0]}'), 'float', 0)

    def decide(p):
        x = evaluate(p, val)
        if x is None or x is Nan:
            return None
        return x != 0

    def arg(sgn, skip):
        def g(x, axis):
            m = int(const_val(x.axes[axis].dim))
            vs = [evaluate(x.at(const(q)), val) for q in range(m)]
            if any(v is None for v in vs):
                return None
            if any(v is Nan for v in vs):
                if not skip:
                    return scalar(const(next(q for q in range(m) if vs[q] is Nan)), 'int', 0)
                vs = [(-INF * 2 if sgn > 0 else INF * 2) if v is Nan else v for v in vs]
            b = (max if sgn > 0 else min)(vs)
            return scalar(const(vs.index(b)), 'int', 0)
        return g
    it.hooks.update(decide=decide, argmin=arg(-1, False), nanargmin=arg(-1, True), argmax=arg(1, False), nanargmax=arg(1, True))
    got = c.call(CAL + 'grid_search', grid, Builtin('objective', objective), **kw)
    p = asarr(got).scalar()
    j = [q for q in range(n) if T.equal(p, elem('pp', (const(q),)))]
    return (j[0] if len(j) == 1 else None), calls, rank


def expected_calls(n, rank, patience=None, max_iterations=None):
    inc, prev, out = 0, None, []
    for j in range(n):
        out.append(j)
        if patience is not None and prev is not None:
            inc = inc + 1 if rank[j] > prev else 0
            if inc >= patience:
                break
        prev = rank[j]
        if max_iterations is not None and j + 1 >= max_iterations:
            break
    return out


def grid_ob(tag, n, bads, tier='quick', limit=400, **kw):
    @ob('C22', f'grid-{tag}', CAL + 'grid_search', 'for every ordering of the objective values: grid points are evaluated in order, at most max_iterations of them, until '
        '`patience` consecutive increases; the result is a minimiser among the evaluated points; a NaN or ValueError counts as infinity', tier=tier, limit=limit)
    def _(c):
        for order in orderings(n):
            for bad in (bad_patterns(n) if bads else [{}]):
                j, calls, rank = run_grid(c, n, order, bad, **kw)
                what = f'objective values ordered as {order}, failures {bad}, {kw}'
                want = expected_calls(n, rank, **kw)
                c.ok(calls == want, f'{what}: grid points evaluated {calls}, expected {want}')
                c.ok(j is not None, f'{what}: the result is not a grid point')
                c.ok(j == min(calls, key=lambda q: (rank[q], q)), f'{what}: returns point {j}, not the first minimiser of the evaluated points {calls}')


grid_ob('plain', 3, True)
grid_ob('patience-1', 3, True, patience=1)
grid_ob('patience-2', 4, False, patience=2)
grid_ob('max', 3, True, max_iterations=2)
grid_ob('max-patience', 4, False, max_iterations=3, patience=1)
grid_ob('max-beyond', 3, False, max_iterations=9)
grid_ob('plain-deep', 5, False, tier='thorough')
grid_ob('patience-2-deep', 5, False, tier='thorough', patience=2)
grid_ob('patience-3-deep', 5, False, tier='thorough', patience=3)
grid_ob('patience-2-failures', 4, True, tier='thorough', patience=2)


def updown(n):
    """Every pattern of increases and decreases of n values."""
    for ups in _it.product((1, -1), repeat=n - 1):
        r, out = 0, [0]
        for u in ups:
            r += u
            out.append(r)
        lo = min(out)
        yield tuple(x - lo for x in out)


def long_ob(tag, n, bads, tier='quick', **kw):
    @ob('C22', f'grid-long-{tag}', CAL + 'grid_search', 'long runs: the count of consecutive increases restarts after every value that is not larger than its predecessor, failed evaluations included', tier=tier, limit=400)
    def _(c):
        for order in updown(n):
            for bad in [{}] + [{i: k} for i in range(n) for k in bads]:
                j, calls, rank = run_grid(c, n, order, bad, **kw)
                what = f'objective values ordered as {order}, failures {bad}, {kw}'
                want = expected_calls(n, rank, **kw)
                c.ok(calls == want, f'{what}: grid points evaluated {calls}, expected {want}')
                c.ok(j == min(calls, key=lambda q: (rank[q], q)), f'{what}: returns point {j}, not the first minimiser of the evaluated points {calls}')


long_ob('patience-2', 5, ['nan', 'error'], patience=2)
long_ob('patience-3', 7, [], patience=3)
long_ob('patience-2-max', 6, [], patience=2, max_iterations=5)
long_ob('patience-3-failures', 7, ['nan', 'error'], tier='thorough', patience=3)


@ob('C22', 'grid-other-errors', CAL + 'grid_search', 'errors of the objective other than ValueError are not swallowed')
def _(c):
    for e in (KeyError, TypeError, RuntimeError, ZeroDivisionError):
        c.raises(lambda: run_grid(c, 2, (0, 1), {0: e}), e, what=f'grid_search with an objective that raises {e.__name__}')
        c.raises(lambda: run_grid(c, 3, (0, 1, 2), {2: e}), e, what=f'grid_search with an objective that raises {e.__name__} late')


@ob('C22', 'grid-interval', CAL + 'optimize_prior_prec', 'the grid is logarithmic: point k of n is 10^(min + k (max - min) / (n - 1)), both ends included; options reach the search')
def _(c):
    seen = []
    c.stub(CAL + 'grid_search', lambda it, a, k: seen.append((a, k)) or 'best')
    o = Builtin('o', lambda it, a, k: None)
    n = 4
    got = c.call(CAL + 'optimize_prior_prec', o, log_prior_prec_min=S('lo'), log_prior_prec_max=S('hi'), grid_size=n, patience=3, max_iterations=2)
    if not seen:
        c.undecided('no call of grid_search seen')
    k = dict(zip(('prior_prec_interval', 'objective', 'patience', 'max_iterations'), seen[0][0]), **seen[0][1])
    c.ok(got == 'best', 'the result of the search is returned')
    c.ok(k['objective'] is o and k.get('patience') == 3 and k.get('max_iterations') == 2, 'objective and options')
    g = asarr(k['prior_prec_interval'])
    c.ok(g.ndim == 1 and const_val(g.axes[0].dim) == n, f'the grid has {n} points')
    lo, hi = sym('lo'), sym('hi')
    for j in range(n):
        c.same(g.at(const(j)), fn('exp', (lo + (hi - lo) * const(Q(j, n - 1))) * fn('log', const(10))), f'grid point {j}')
