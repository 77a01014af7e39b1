"""Random interpretation of normal forms.

Used only after two normal forms differ: the two *terms* (never the analysed
program) are interpreted under random assignments of dimensions, indices,
array elements and opaque functions.  Agreement means the normal form was too
weak to see the equality, and no alarm is raised; disagreement yields the
concrete witness that is printed with the violation.
"""
import hashlib
import math
from fractions import Fraction as Q

from . import terms as T


class Give(Exception):
    """This sample cannot be interpreted (domain error, too large)."""


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def rnd(x):
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return repr(x)
        return float(f'{x:.6g}') + 0.0
    return x


def _matinv(m):
    n = len(m)
    a = [list(r) + [float(i == j) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise Give('singular')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def _det(m):
    a, n, d = [list(r) for r in m], len(m), 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-12:
            return 0.0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            f = a[r][c] / a[c][c]
            a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return d


def _chol(m):
    n = len(m)
    l = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(l[i][k] * l[j][k] for k in range(j))
            if i == j:
                if s <= 1e-12:
                    raise Give('not positive definite')
                l[i][i] = math.sqrt(s)
            else:
                l[i][j] = s / l[j][j]
    return l


def _eigh(m):
    n = len(m)
    a = [list(r) for r in m]
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-22:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    order = sorted(range(n), key=lambda i: a[i][i])
    w = [a[i][i] for i in order]
    vec = [[v[k][i] for i in order] for k in range(n)]
    for j in range(n):      # sign convention
        k = max(range(n), key=lambda r: abs(vec[r][j]))
        if vec[k][j] < 0:
            for r in range(n):
                vec[r][j] = -vec[r][j]
    return w, vec


class Sample:
    def __init__(self, seed, small=False, scale=1.0, pool=None):
        self.seed = seed
        self.pool = pool
        self.crit = set()        # element values at which a comparison of the term switches
        self.scale = scale
        self.mag = 0.0
        self.small = small
        self.memo = {}
        self.lmemo = {}
        self.budget = 400000
        self.env = {}
        self.dims = {}
        self.orth = {}

    def dimval(self, name):
        if name not in self.dims:
            self.dims[name] = 1 + int(h01(self.seed, 'dim', name) * (2 if self.small else 3))
            if not self.small and self.dims[name] == 1:
                self.dims[name] = 2 if h01(self.seed, 'd1', name) < 0.8 else 1
            if name in T.BIGDIM and not self.small:
                self.dims[name] = 2 + int(h01(self.seed, 'big', name) * 4)
        return self.dims[name]

    def ev(self, p, env=None):
        env = env or {}
        s = 0
        for t, c in p.t:
            x = self.term(t, env) * (int(c) if c.denominator == 1 else float(c))
            if self.scale != 1.0 and abs(x) > self.mag:
                self.mag = abs(x)
            s = s + x
        return s

    def term(self, t, env):
        key = None
        if not t.fv:
            key = t
            if t in self.memo:
                return self.memo[t]
        if not t.b:
            r = self.prod(t.f, env)
        else:
            r = 0
            ranges = []
            for v in t.b:
                n = self.ev(v.d[1], env)
                ranges.append(int(n))
            idx = [0] * len(ranges)
            tot = 1
            for n in ranges:
                tot *= n
            if tot > self.budget:
                raise Give('too large')
            e2 = dict(env)
            # cheap factors first so that deltas cut the product early
            fs = sorted(t.f, key=lambda x: (x[0].k not in 'dv', x[0].h))
            for k in range(tot):
                q = k
                for v, n in zip(t.b, ranges):
                    e2[v] = q % n
                    q //= n
                r = r + self.prod(fs, e2)
        if key is not None:
            self.memo[key] = r
        return r

    def prod(self, fs, env):
        r = 1
        for a, e in sorted(fs, key=lambda x: x[0].k not in 'dv'):
            self.budget -= 1
            if self.budget < 0:
                raise Give('budget')
            v = self.atom(a, env)
            if e != 1:
                v = self.power(v, e)
            if v == 0 and a.k in 'dv':
                return 0
            r = r * v
        return r

    @staticmethod
    def power(v, e):
        try:
            if e.denominator == 1:
                if e < 0 and isinstance(v, int):
                    v = float(v)
                return v ** int(e)
            if v < 0:
                raise Give('negative base')
            return float(v) ** float(e)
        except (ZeroDivisionError, OverflowError):
            raise Give('power')

    def index(self, p, env):
        v = self.ev(p, env)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Give('fractional index')
            v = int(round(v))
        return v

    def atom(self, a, env):
        if a.fv:
            try:
                key = (a,) + tuple(sorted((v.id, env[v] if v in env else self.free(v)) for v in a.fv))
            except TypeError:
                key = None
        else:
            key = (a,)
        if key is not None and key in self.memo:
            return self.memo[key]
        r = self._atom(a, env)
        if key is not None:
            self.memo[key] = r
        return r

    def free(self, v):
        if v not in self.env:
            n = int(self.ev(v.d[1]))
            self.env[v] = int(h01(self.seed, 'iv', v.d[0]) * n)
        return self.env[v]

    def _atom(self, a, env):
        k = a.k
        if k == 'i':
            return env[a] if a in env else self.free(a)
        if k == 'n':
            return self.dimval(a.d[0])
        if k == 'p':
            return self.ev(a.d[0], env)
        if k == 'd':
            return 1 if abs(self.ev(a.d[0], env)) < 1e-9 else 0
        if k == 'v':
            v = self.ev(a.d[1], env)
            if isinstance(v, float):
                self.critical(a.d[1], v, env)
                if abs(v) < 1e-12:
                    v = 0
            return int(v > 0 if a.d[0] == '>' else v >= 0)
        if k == 'e':
            return self.element(a.d[0], tuple(self.index(p, env) for p in a.d[1]))
        if k == 'f':
            return self.func(a.d[0], [self.ev(p, env) for p in a.d[1]])
        if k == 'a':
            return self.appl(a, env)
        raise Give(k)

    def critical(self, p, v, env):
        if len(self.crit) > 60:
            return
        for t, c in p.t:
            if not t.b and len(t.f) == 1 and t.f[0][0].k == 'e' and t.f[0][1] == 1:
                self.crit.add(round(float(self.atom(t.f[0][0], env)) - v / float(c), 14))

    def element(self, name, idx):
        d = T.LETS.get(name)
        if d is not None:
            key = (name, idx)
            if key not in self.lmemo:
                self.lmemo[key] = self.ev(d.at(*[T.const(i) for i in idx]))
            return self.lmemo[key]
        pr = T.PROPS.get(name) or frozenset()
        if self.pool and not pr & {'sym', 'orth', 'int', 'zero_one'}:
            ok = [x for x in self.pool if x > 0 or 'pos' not in pr]
            if 'unit' in pr:
                ok = [x for x in ok if 0 <= x <= 1]
            if ok and h01(self.seed, 'pl', name, idx) < 0.7:
                return ok[int(h01(self.seed, 'pk', name, idx) * len(ok))]
        return self.element0(name, idx, pr)

    def element0(self, name, idx, pr):
        if 'sym' in pr and len(idx) % 2 == 0:
            h = len(idx) // 2
            if idx[:h] > idx[h:]:
                idx = idx[h:] + idx[:h]
        if 'orth' in pr and len(idx) == 2:
            return self.orthval(name, idx)
        u = h01(self.seed, 'el', name, idx)
        if 'int' in pr:
            return int(u * 5)
        if 'zero_one' in pr:
            return int(u * 2)
        if 'unit' in pr:
            return u
        if 'pos' in pr:
            if name[:6] == 'finfo.' and self.seed % 2:      # machine constants: over several magnitudes
                return 10.0 ** (-4 * u)
            return self.scale * (0.4 + 1.3 * u)
        if 'sym' in pr and len(idx) % 2 == 0:
            return self.scale * (2.0 + u if idx[:len(idx) // 2] == idx[len(idx) // 2:] else 0.6 * (u - 0.5))
        return self.scale * (2.4 * u - 1.2)

    def orthval(self, name, idx):
        dims = T.DIMS.get(name)
        if dims is None:
            raise Give('orth dims')
        if name not in self.orth:
            n, m = int(self.ev(dims[0])), int(self.ev(dims[1]))
            if m > n:
                raise Give('orth')
            cols = []
            for j in range(m):
                c = [h01(self.seed, 'or', name, i, j) - 0.5 for i in range(n)]
                for d in cols:
                    s = sum(x * y for x, y in zip(c, d))
                    c = [x - s * y for x, y in zip(c, d)]
                nn = math.sqrt(sum(x * x for x in c))
                if nn < 1e-6:
                    raise Give('orth')
                cols.append([x / nn for x in c])
            self.orth[name] = cols
        cols = self.orth[name]
        if not (0 <= idx[1] < len(cols) and 0 <= idx[0] < len(cols[0])):
            raise Give('range')
        return cols[idx[1]][idx[0]]

    def func(self, name, x):
        try:
            if name == 'exp':
                return math.exp(x[0])
            if name == 'log':
                return math.log(x[0])
            if name == 'log2':
                return math.log2(x[0])
            if name == 'log10':
                return math.log10(x[0])
            if name == 'abs' or name == 'fabs':
                return abs(x[0])
            if name == 'sign':
                return (x[0] > 0) - (x[0] < 0)
            if name == 'sg':
                return x[0]
            if name == 'pi':
                return math.pi
            if name == 'sqrtc':
                return float(x[0])
            if name == 'max2':
                return max(x)
            if name == 'min2':
                return min(x)
            if name == 'floor':
                return math.floor(x[0])
            if name == 'ceil':
                return math.ceil(x[0])
            if name == 'trunc':
                return math.trunc(x[0])
            if name == 'round':
                return round(x[0])
            if name == 'fdiv':
                return x[0] // x[1]
            if name == 'mod':
                return x[0] - x[1] * (x[0] // x[1])
            if name in ('sin', 'cos', 'tanh', 'sinh', 'cosh', 'erf', 'tan', 'log1p', 'expm1'):
                return getattr(math, name)(x[0])
            if name == 'ndtr':
                return 0.5 * (1 + math.erf(x[0] / math.sqrt(2)))
            if name == 'pow':
                if x[0] < 0:
                    raise Give('pow')
                return x[0] ** x[1]
            if name == 'isnan':
                return int(math.isnan(x[0]))
            if name == 'isinf':
                return int(math.isinf(x[0]))
            if name == 'isfinite':
                return int(math.isfinite(x[0]))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Give(name)
        if name.startswith('const_'):
            return float(name[6:])
        return 2.0 * h01(self.seed, 'fn', name, tuple(rnd(v) for v in x)) - 1.0

    def lam(self, l, env):
        """Interpret an array abstraction as a table; sorted tuple of (index, value)."""
        key = (l,) + tuple(sorted((v.id, env[v] if v in env else self.free(v)) for v in l.fv)) if l.fv else (l,)
        if key in self.lmemo:
            return self.lmemo[key]
        out = {}
        for vs, idx, body in l.cells:
            rs = [int(self.ev(v.d[1], env)) for v in vs]
            tot = 1
            for n in rs:
                tot *= n
            if tot > 4000:
                raise Give('large array')
            e2 = dict(env)
            for k in range(tot):
                q = k
                for v, n in zip(vs, rs):
                    e2[v] = q % n
                    q //= n
                out[tuple(self.index(p, e2) for p in idx)] = self.ev(body, e2)
        self.lmemo[key] = out
        return out

    def matrix(self, l, env):
        t = self.lam(l, env)
        n, m = int(self.ev(l.dims[0], env)), int(self.ev(l.dims[1], env))
        if n * m > 400:
            raise Give('large matrix')
        return [[float(t[(i, j)]) for j in range(m)] for i in range(n)]

    def appl(self, a, env):
        fname, par, lams, idx, dv = a.d
        ii = tuple(self.index(p, env) for p in idx)
        if not dv and fname in ('inv', 'chol', 'logdet', 'signdet', 'eigval', 'eigvec'):
            key = ('la', fname, lams[0]) + tuple(sorted((v.id, env[v] if v in env else self.free(v)) for v in lams[0].fv))
            r = self.lmemo.get(key)
            if r is None:
                m = self.matrix(lams[0], env)
                if fname == 'inv':
                    r = _matinv(m)
                elif fname == 'chol':
                    r = _chol([[(m[i][j] + m[j][i]) / 2 for j in range(len(m))] for i in range(len(m))])
                elif fname in ('logdet', 'signdet'):
                    d = _det(m)
                    if d == 0:
                        raise Give('det')
                    r = math.log(abs(d)) if fname == 'logdet' else math.copysign(1.0, d)
                else:
                    w, v = _eigh(m)
                    r = w if fname == 'eigval' else v
                self.lmemo[key] = r
            for i in ii:
                r = r[i]
            return r
        if not dv and fname in ORDERED and len(lams) == 1:
            tab = sorted(self.lam(lams[0], env).items())
            if not tab:
                raise Give('empty')
            xs = [float(v) for _, v in tab]
            if fname in ('amax', 'amin'):
                return (max if fname == 'amax' else min)(xs)
            if len(tab[0][0]) == 1:
                if fname in ('topk', 'topk_idx'):
                    o = sorted(range(len(xs)), key=lambda j: (-xs[j], j))
                    if not 0 <= ii[0] < len(o):
                        raise Give('range')
                    return xs[o[ii[0]]] if fname == 'topk' else o[ii[0]]
                return xs.index(max(xs) if fname in ('argmax', 'nanargmax') else min(xs))
        vals = tuple(tuple((k, rnd(float(v))) for k, v in sorted(self.lam(l, env).items())) for l in lams)
        d2 = tuple(sorted((n, tuple(self.index(p, env) for p in q)) for n, q in dv))
        pr = T.PROPS.get(fname, ())
        u = h01(self.seed, 'ap', fname, repr(par), vals, ii, d2)
        return self.scale * (0.4 + 1.3 * u if 'pos' in pr and not dv else 2.4 * u - 1.2)


def close(x, y):
    return abs(x - y) <= 1e-9 + 1e-8 * max(abs(x), abs(y))


ORDERED = {'amax', 'amin', 'argmax', 'argmin', 'nanargmax', 'nanargmin', 'topk', 'topk_idx'}
PIECEWISE = {'max2', 'min2', 'abs', 'fabs', 'sign', 'floor', 'ceil', 'trunc', 'round', 'mod', 'fdiv',
             'isnan', 'isinf', 'isfinite'}
SCALES = (8.0, 0.03, 30.0, 1e-3, 400.0, 1e-5, 1e4, 1e7)


def piecewise(p, seen=None):
    """Does the term contain an atom that is not analytic in its arguments?"""
    seen = set() if seen is None else seen

    def pp(q):
        if id(q) in seen:
            return False
        seen.add(id(q))
        return any(aa(a) for t, _ in q.t for a, _ in t.f)

    def aa(a):
        if a in seen:
            return False
        seen.add(a)
        if a.k == 'v':
            return True
        if a.k == 'f':
            return a.d[0] in PIECEWISE or any(pp(x) for x in a.d[1])
        if a.k == 'p':
            return pp(a.d[0])
        if a.k == 'd':
            return pp(a.d[0])
        if a.k == 'e':
            d = T.LETS.get(a.d[0])
            return any(pp(x) for x in a.d[1]) or d is not None and pp(d.at(*a.d[1]))
        if a.k == 'a':
            return (any(pp(b) or any(pp(x) for x in i) for l in a.d[2] for _, i, b in l.cells)
                    or any(pp(x) for x in a.d[3]))
        return False
    return pp(p)


def discrete(p, seen=None):
    """Does the value jump on conditions that single samples rarely distinguish (equality or order of computed values)?"""
    seen = set() if seen is None else seen

    def pp(q):
        if id(q) in seen:
            return False
        seen.add(id(q))
        return any(aa(a) for t, _ in q.t for a, _ in t.f)

    def aa(a):
        if a in seen:
            return False
        seen.add(a)
        if a.k == 'v':
            return True
        if a.k == 'd':
            return any(x.k in 'efap' for t, _ in a.d[0].t for x, _ in t.f) or pp(a.d[0])
        if a.k == 'f':
            return any(pp(x) for x in a.d[1])
        if a.k == 'p':
            return pp(a.d[0])
        if a.k == 'e':
            d = T.LETS.get(a.d[0])
            return any(pp(x) for x in a.d[1]) or d is not None and pp(d.at(*a.d[1]))
        if a.k == 'a':
            return (a.d[0] in ORDERED or any(pp(b) or any(pp(x) for x in i) for l in a.d[2] for _, i, b in l.cells)
                    or any(pp(x) for x in a.d[3]))
        return False
    return pp(p)


def compare(p, q, facts=(), tries=40, want=4):
    """'equal' | 'differ' | 'unknown' together with a witness string."""
    if discrete(p) or discrete(q):
        tries, want = 160, 60
    v, w = _compare(p, q, facts, [(s, s >= 12, 1.0) for s in range(tries)], want)
    if v == 'equal' and (piecewise(p) or piecewise(q)):
        for sc in SCALES:       # analytic pieces that the unit scale never enters
            v2, w2 = _compare(p, q, facts, [(s, s >= 6, sc) for s in range(10)], 2)
            if v2 == 'differ':
                return v2, w2 + f', values of magnitude {sc:g}'
        pool = []
        _compare(p, q, facts, [(s, True, 1.0) for s in range(4)], 4, crit=pool)
        if pool:                # values exactly on the boundary between two pieces
            v2, w2 = _compare(p, q, facts, [(s, s >= 12, 1.0) for s in range(24)], 12, pool=sorted(set(pool)))
            if v2 == 'differ':
                return v2, w2 + ', with values on the boundary of a comparison'
    return v, w


_CACHE = {}


def sample(seed, small, scale, pool):
    """A valuation; kept so that later comparisons reuse the values of shared subterms."""
    if pool or scale != 1.0 and not T.LETS:
        return Sample(seed, small, scale, pool)
    key = (seed, small, scale)
    sm = _CACHE.get(key)
    if sm is None or len(sm.memo) > 300000:
        sm = _CACHE[key] = Sample(seed, small, scale, pool)
    sm.budget = 400000
    sm.crit = set()
    return sm


def _compare(p, q, facts, samples, want, pool=None, crit=None):
    eq = 0
    diff = None
    nd = 0
    for s, small, scale in samples:
        sm = sample(s, small, scale, pool)
        try:
            if any(bool(sm.ev(f)) != v for f, v in facts):
                continue
            x, y = sm.ev(p), sm.ev(q)
            if crit is not None:
                crit.extend(sm.crit)
            if isinstance(x, complex) or isinstance(y, complex):
                continue
            fx, fy = float(x), float(y)
            if math.isnan(fx) or math.isnan(fy):
                continue
            if math.isinf(fx) or math.isinf(fy):
                if scale != 1.0:
                    continue
                if fx == fy:
                    eq += 1
                else:
                    nd += 1
                    diff = diff or (fx, fy, dict(sm.dims))
                continue
            if scale == 1.0:
                same = close(fx, fy)
            else:       # far from unit scale: demand a gross relative difference, beyond cancellation noise
                same = abs(fx - fy) <= 1e-3 * max(abs(fx), abs(fy)) + 1e-9 * sm.mag
            if same:
                eq += 1
            else:
                nd += 1
                diff = diff or (fx, fy, dict(sm.dims))
        except (Give, RecursionError, KeyError, IndexError, OverflowError):
            continue
        if eq + nd >= want:
            break
    if nd:
        return 'differ', f'{diff[0]:.6g} vs {diff[1]:.6g} at dims {diff[2]}'
    if eq:
        return 'equal', f'{eq} samples agree'
    return 'unknown', 'no sample could be interpreted'
