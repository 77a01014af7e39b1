"""Floating-point reading of a program: overflow, underflow and cancellation.

The ordinary abstract semantics equates expressions that are equal over the reals.
Here the primitives whose result can leave the floating-point range (exp, softmax,
sigmoid, densities, products over an axis, determinants, powers with a symbolic
exponent) stay opaque, and so does the logarithm the program takes itself, while the
primitives that are computed safely (log_softmax, logsumexp, log_sigmoid, softplus,
logaddexp, norm.logpdf, slogdet) keep their closed forms.  `hazards` then looks in the
resulting term for
  * log of a quantity that under- or overflows although its logarithm is moderate,
  * a quotient of two quantities that both overflow,
  * a difference of a second moment and a product of first moments,
  * a conversion to half precision.
"""
from .api import *                      # noqa: F401,F403
from . import lib as L, lib4 as L4, lib5 as L5, terms as T
from .terms import fn, const_val, nonneg, Unmodelled, app
from .arr import *                      # noqa: F401,F403

LOW = {'EXP', 'SIGMOID', 'NPDF', 'NCDF', 'PROD', 'DET', 'POW', 'SOFTMAX', 'GAUSS'}
GUARD = {'amax', 'amin', 'max2', 'min2', 'abs', 'log', 'NLOG', 'floor', 'sign', 'tanh', 'sin', 'cos'}


SAVED = []


def reset():
    """Back to the ordinary semantics (before every abstract path)."""
    if SAVED:
        L.LIB.clear()
        L.LIB.update(SAVED[0])
        L.BIN['Pow'] = L.powf
        SAVED.clear()


def install(moments=False):
    """Replace the primitives for this path."""
    SAVED.append(dict(L.LIB))
    nl = lambda x: fn('NLOG', x)
    L4.ew('exp', lambda x: fn('EXP', x))
    L4.ew('expm1', lambda x: fn('EXP', x) - 1)
    L4.ew('exp2', lambda x: fn('EXP', x * fn('log', T.const(2))))
    L4.ew('log', nl)
    L4.ew('log1p', lambda x: nl(T.ONE + x))
    L4.ew('log2', lambda x: nl(x) / fn('log', T.const(2)))
    L4.ew('log10', lambda x: nl(x) / fn('log', T.const(10)))
    for n, m in (('jax.lax.exp', 'exp'), ('jax.lax.log', 'log'), ('jax.lax.log1p', 'log1p'), ('jax.lax.expm1', 'expm1')):
        if n in L.LIB:
            L.LIB[n] = L.LIB['jnp.' + m]
    L5.e1(['jax.nn.sigmoid', 'jax.scipy.special.expit', 'jax.lax.logistic'], lambda x: fn('SIGMOID', x))
    L5.e1(['jax.scipy.special.xlogy'], lambda x, y: x * nl(y))
    L5.e1(['jax.scipy.special.logit'], lambda x: nl(x) - nl(T.ONE - x))
    L5.e1(['jax.scipy.special.ndtr'], lambda x: fn('NCDF', x))

    def density(f):
        return lambda it, a, k: elementwise(lambda x, m, s: f((x - m) / s) / s, *L5.normstd(it, a, k), dtype='float')
    L5.both('jax.scipy.stats.norm.pdf')(density(lambda z: fn('NPDF', z)))
    L5.both('jax.scipy.stats.norm.cdf')(lambda it, a, k: elementwise(lambda x, m, s: fn('NCDF', (x - m) / s), *L5.normstd(it, a, k), dtype='float'))
    old = L5.softmax

    def softmax(x, axis):
        if axis is None and x.ndim == 1:
            axis = 0
        if axis is None or isinstance(axis, (tuple, list)):
            return old(x, axis)
        ax_ = norm_axis(axis, x.ndim)

        def body(idx):
            r = Arr((x.axes[ax_],), lambda j: x.at(*idx[:ax_], *j, *idx[ax_ + 1:]))
            return app('SOFTMAX', (), [lam_of(r)], (idx[ax_],))
        return Arr(x.axes, body, L4.fl(x.dtype), x.tl)
    L5.both('jax.nn.softmax', 'jax.scipy.special.softmax')(
        lambda it, a, k: softmax(asarr(a[0]), a[1] if len(a) > 1 else k.get('axis', -1)))
    prod = L4._prod
    L4.redn('prod')(lambda it, x, axis, kd, k: prod(it, x, axis, kd, k) if x.dtype in ('int', 'bool')
                    else L4.reduce_opaque('PROD', x, axis, kd))

    def det(it, a, k):
        x = L5.sq(asarr(a[0]), 'det')
        return L5.app_arr('DET', [x], (), (), 'float', x.tl)
    L5.both('jnp.linalg.det', 'np.linalg.det')(det)
    pw = L.powf

    def powf(x, y):
        return pw(x, y) if const_val(y) is not None else fn('POW', x, y)
    L.BIN['Pow'] = powf
    if moments:
        L4.redn('sum')(lambda it, x, axis, kd, k: L4.reduce_opaque('SUM', x, axis, kd))

        def mean(it, x, axis, kd, k):
            n = count_of(x, axis)
            s = L4.reduce_opaque('SUM', x, axis, kd)
            return Arr(s.axes, lambda idx: s.at(*idx) / n, L4.fl(s.dtype), s.tl)
        L4.redn('mean')(mean)


def name(a):
    return a.d[0] if a.k in ('f', 'a') else None


def parts(a):
    """The terms inside an atom."""
    if a.k == 'f':
        return list(a.d[1])
    if a.k == 'p':
        return [a.d[0]]
    if a.k == 'd':
        return [a.d[0]]
    if a.k == 'v':
        return [a.d[1]]
    if a.k == 'a':
        return [body for lam in a.d[2] for _, _, body in T.open_lam(lam)] + list(a.d[3])
    return []


def mentions(p, names, seen=None):
    """Does the term contain a function of that name?"""
    seen = set() if seen is None else seen
    if p.id in seen:
        return False
    seen.add(p.id)
    return any(name(a) in names or any(mentions(q, names, seen) for q in parts(a)) for t, _ in p.t for a, _ in t.f)


def grows(p):
    """Is the exponent certainly unbounded above over the inputs?  (False: bounded or not known)"""
    if const_val(p) is not None or not p.t:
        return False
    try:
        if nonneg(-p):
            return False
    except Unmodelled:
        return False
    # subtracting a minimum bounds nothing from above
    if any(c > 0 or not low(t) for t, c in p.t if any(mentions_atom(a, GUARD) for a, _ in t.f)):
        return False
    return any(a.k in ('e', 'a') and e > 0 and not low(t) for t, _ in p.t for a, e in t.f)


def mentions_atom(a, names):
    return name(a) in names or any(mentions(q, names) for q in parts(a))


def low(t):
    """Is the term exactly one minimum?"""
    return len(t.f) == 1 and not t.b and t.f[0][1] == 1 and name(t.f[0][0]) in ('amin', 'min2')


def over(p, seen=None):
    """Does the term contain, as a summand or factor, an exponential that overflows?"""
    for t, _ in p.t:
        for a, e in t.f:
            if e > 0 and name(a) == 'EXP' and grows(a.d[1][0]):
                return a
            if e > 0 and a.k == 'p' or name(a) == 'SUM':
                for q in parts(a):
                    r = over(q)
                    if r is not None:
                        return r
    return None


def bad_log(p):
    """Why log(p) loses a moderate value, or None."""
    r = over(p)
    if r is not None:
        return f'logarithm of a quantity that overflows: {T.show(p)}'
    if len(p.t) == 1:
        t, _ = p.t[0]
        for a, e in t.f:
            n = name(a)
            if n in LOW and n != 'EXP' and not t.b:
                return f'logarithm of {n.lower()}, which leaves the floating-point range: {T.show(p)}'
            if n == 'EXP' and not t.b and const_val(a.d[1][0]) is None and not mentions(a.d[1][0], GUARD):
                return f'logarithm of an exponential: {T.show(p)}'
    if len(p.t) == 2:
        const = [c for t, c in p.t if not t.f and not t.b]
        rest = [(t, c) for t, c in p.t if t.f or t.b]
        if const == [1] and len(rest) == 1 and rest[0][1] == -1:
            t = rest[0][0]
            if not t.b and len(t.f) == 1 and t.f[0][1] == 1 and name(t.f[0][0]) in ('SIGMOID', 'SOFTMAX', 'NCDF'):
                return f'logarithm of one minus a probability that rounds to one: {T.show(p)}'
        if len(const) == 1 and 0 < const[0] < 1e-3 and len(rest) == 1 and rest[0][1] == 1:
            t = rest[0][0]
            if not t.b and len(t.f) == 1 and t.f[0][1] == 1 and name(t.f[0][0]) in ('SIGMOID', 'SOFTMAX', 'NCDF', 'NPDF'):
                return f'logarithm of a probability floored by a constant: {T.show(p)}'
    return None


def cancels(p):
    """A second moment minus a product of first moments."""
    neg = []
    for t, c in p.t:
        k = sum(e for a, e in t.f if name(a) == 'SUM' and e > 0)
        if k >= 2 and c < 0:
            neg.append(t)
    if neg and any(c > 0 for _, c in p.t):
        return f'difference of raw moments: {T.show(p)}'
    return None


def hazards(p, out=None, seen=None):
    """All reasons found anywhere in the term."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if p.id in seen:
        return out
    seen.add(p.id)
    r = cancels(p)
    if r:
        out.append(r)
    for t, _ in p.t:
        num = any(e > 0 and name(a) == 'EXP' and grows(a.d[1][0]) for a, e in t.f)
        if num and any(e < 0 and (a.k == 'p' and over(a.d[0]) is not None
                                  or name(a) == 'SUM' and any(over(q) is not None for q in parts(a))) for a, e in t.f):
            out.append(f'quotient of two exponentials that overflow: {T.show_term(t)}')
        for a, _ in t.f:
            if name(a) == 'HALF':
                out.append(f'value rounded to half precision: {T.show(a.d[1][0])}')
            if name(a) == 'NLOG':
                r = bad_log(a.d[1][0])
                if r:
                    out.append(r)
            for q in parts(a):
                hazards(q, out, seen)
    return out
