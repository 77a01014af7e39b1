"""Value-numbering domain: scalar terms in a canonical sum-of-products form.

A `Poly` is a finite sum of `Term`s with rational coefficients.  A `Term` is a
product of atoms with rational exponents under a (possibly empty) set of bound
summation indices.  Everything is hash-consed, so two values that have the same
normal form are the same object: this is the value number.

Atoms
  ('i', name, dim)                 index variable, 0 <= v <= dim-1
  ('n', name)                      symbolic dimension, integer >= 1
  ('e', name, idx)                 element of an opaque (input) array
  ('f', fname, args)               scalar function of polys
  ('p', poly)                      polynomial used as a base of a power
  ('d', poly)                      Iverson bracket [poly == 0] over integers
  ('v', op, poly)                  Iverson bracket [poly op 0], op in '>', '>='
  ('a', fname, par, lams, idx, dv) element idx of an opaque array function
                                   applied to arrays (lams), differentiated dv
"""
from fractions import Fraction as Q
import itertools
import math


class Unmodelled(Exception):
    """The construct is outside the abstract semantics: the obligation is undecided."""


_ATOMS, _TERMS, _POLYS = {}, {}, {}
_fresh = itertools.count()
EMPTY = frozenset()
# properties of opaque arrays: name -> set of {'sym','orth','pos','int','zero_one'}
PROPS = {}
# shapes of opaque arrays, for random interpretation
LETS = {}                # name -> array it abbreviates (shared subterm)
LETKEY = {}
BIGDIM = set()           # sizes sampled up to 5
DIMS = {}
# functions of arrays that take a matrix with algebraic meaning
POSITIVE_FN = {'exp', 'ndtr', 'abs_pos'}
# hooks for contraction rules
CONTRACT = []


class Atom:
    __slots__ = ('k', 'd', 'id', 'h', 'fv', 'nm')

    def __repr__(self):
        return show_atom(self)


class Term:
    __slots__ = ('b', 'f', 'id', 'h', 'fv', 'nm')


class Poly:
    __slots__ = ('t', 'id', 'h', 'fv', 'nm')

    def __add__(self, o):
        return padd(self, P(o))

    __radd__ = __add__

    def __neg__(self):
        return pscale(self, Q(-1))

    def __sub__(self, o):
        return padd(self, pscale(P(o), Q(-1)))

    def __rsub__(self, o):
        return padd(P(o), pscale(self, Q(-1)))

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return pmul(self, ppow(P(o), Q(-1)))

    def __rtruediv__(self, o):
        return pmul(P(o), ppow(self, Q(-1)))

    def __pow__(self, e):
        return ppow(self, Q(e))

    def __repr__(self):
        return show(self)


def mk_atom(k, *d):
    key = (k,) + d
    a = _ATOMS.get(key)
    if a is not None:
        return a
    a = Atom()
    a.k, a.d, a.id = k, d, len(_ATOMS)
    h, fv, nm = 0, EMPTY, EMPTY
    if k == 'i':
        fv = frozenset((a,))
    elif k == 'n':
        pass
    elif k == 'e':
        nm = frozenset((d[0],))
        for p in d[1]:
            h = max(h, p.h); fv |= p.fv; nm |= p.nm
    elif k == 'f':
        for p in d[1]:
            h = max(h, p.h); fv |= p.fv; nm |= p.nm
    elif k in ('p', 'd'):
        p = d[0]
        h, fv, nm = p.h, p.fv, p.nm
    elif k == 'v':
        p = d[1]
        h, fv, nm = p.h, p.fv, p.nm
    elif k == 'a':
        fname, par, lams, idx, dv = d
        nm = frozenset((fname,)) if isinstance(fname, str) else EMPTY
        for lam in lams:
            h = max(h, lam.h); fv |= lam.fv; nm |= lam.nm
        for p in idx:
            h = max(h, p.h); fv |= p.fv; nm |= p.nm
        for (_, ii) in dv:
            for p in ii:
                h = max(h, p.h); fv |= p.fv; nm |= p.nm
    else:
        raise AssertionError(k)
    a.h, a.fv, a.nm = h, fv, nm
    _ATOMS[key] = a
    return a


class Lam:
    """Canonical array abstraction: cells = tuple of (var atoms, offsets idx, body)."""
    __slots__ = ('dims', 'cells', 'id', 'h', 'fv', 'nm')

    def __repr__(self):
        return show_lam(self)


_LAMS = {}


def mk_lam(dims, cells):
    """dims: tuple of Poly (shape); cells: list of (vars tuple, idx tuple of Poly, body)."""
    out = []
    for vs, idx, body in cells:
        h = max([body.h] + [p.h for p in idx]) + 1
        if vs:
            new = [var(f'%{h}.{k}', dim_of(v)) for k, v in enumerate(vs)]
            m = dict(zip(vs, new))
            idx = tuple(subst(p, m) for p in idx)
            body = subst(body, m)
            vs = tuple(only_atom(n) for n in new)
        out.append((vs, idx, body))
    key = (tuple(dims), tuple(out))
    lam = _LAMS.get(key)
    if lam is not None:
        return lam
    lam = Lam()
    lam.dims, lam.cells, lam.id = tuple(dims), tuple(out), len(_LAMS)
    h, fv, nm = 0, EMPTY, EMPTY
    for vs, idx, body in out:
        h = max([h, body.h + (1 if vs else 0)] + [p.h for p in idx])
        fv |= body.fv.difference(vs)
        nm |= body.nm
    for p in dims:
        fv |= p.fv
    lam.h, lam.fv, lam.nm = h + (1 if any(c[0] for c in out) else 0), fv, nm
    _LAMS[key] = lam
    return lam


def _intern_term(b, f):
    key = (b, f)
    t = _TERMS.get(key)
    if t is not None:
        return t
    t = Term()
    t.b, t.f, t.id = b, f, len(_TERMS)
    h, fv, nm = 0, EMPTY, EMPTY
    for a, _ in f:
        h = max(h, a.h); fv |= a.fv; nm |= a.nm
    t.h = h + (1 if b else 0)
    t.fv = fv.difference(b)
    t.nm = nm
    for v in b:
        t.fv |= v.d[1].fv
    _TERMS[key] = t
    return t


def _intern_poly(d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda x: x[0].id))
    p = _POLYS.get(items)
    if p is not None:
        return p
    p = Poly()
    p.t, p.id = items, len(_POLYS)
    h, fv, nm = 0, EMPTY, EMPTY
    for t, _ in items:
        h = max(h, t.h); fv |= t.fv; nm |= t.nm
    p.h, p.fv, p.nm = h, fv, nm
    _POLYS[items] = p
    return p


ONE_T = _intern_term((), ())
ZERO = _intern_poly({})
ONE = _intern_poly({ONE_T: Q(1)})


def const(c):
    return _intern_poly({ONE_T: Q(c)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int) or isinstance(x, Q):
        return const(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return atom_poly(mk_atom('f', 'const_' + repr(x), ()))
        return const(Q(repr(x)))
    raise Unmodelled(f'not a scalar: {type(x).__name__}')


def atom_poly(a, e=Q(1)):
    return _intern_poly({_intern_term((), ((a, Q(e)),)): Q(1)})


def var(name, dim):
    return atom_poly(mk_atom('i', name, P(dim)))


def fresh(dim, tag='~'):
    return var(f'{tag}{next(_fresh)}', dim)


SIZES = None          # name -> integer: obligations posed for these sizes instead of symbolic ones


def dim(name):
    if SIZES is not None:
        return P(SIZES.get(name) or 2 + sum(map(ord, name)) % 2)
    return atom_poly(mk_atom('n', name))


def elem(name, idx=(), ):
    idx = tuple(P(i) for i in idx)
    pr = PROPS.get(name)
    if pr and 'sym' in pr and len(idx) % 2 == 0:      # symmetric in the two halves of the indices
        h = len(idx) // 2
        if tuple(i.id for i in idx[:h]) > tuple(i.id for i in idx[h:]):
            idx = idx[h:] + idx[:h]
    return atom_poly(mk_atom('e', name, idx))


def sym(name, *props):
    if props:
        PROPS.setdefault(name, set()).update(props)
    return elem(name)


def only_atom(p):
    """The atom of a single-atom poly, else None."""
    if len(p.t) != 1:
        return None
    (t, c), = p.t
    if len(t.f) != 1 or t.b:
        return None
    (a, e), = t.f
    return a if c == 1 and e == 1 else None


def dim_of(v):
    return v.d[1]


def is_const(p):
    return not p.t or (len(p.t) == 1 and p.t[0][0] is ONE_T)


def const_val(p):
    if not p.t:
        return Q(0)
    if len(p.t) == 1 and p.t[0][0] is ONE_T:
        return p.t[0][1]
    return None


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for t, c in b.t:
        d[t] = d.get(t, 0) + c
    return _intern_poly(d)


def psum(ps):
    d = {}
    for p in ps:
        for t, c in p.t:
            d[t] = d.get(t, 0) + c
    return _intern_poly(d)


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return _intern_poly({t: k * c for t, k in a.t})


_mulcache = {}


def pmul(a, b):
    ca = const_val(a)
    if ca is not None:
        return pscale(b, ca)
    cb = const_val(b)
    if cb is not None:
        return pscale(a, cb)
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > 20000:
        raise Unmodelled('term explosion')
    out = {}
    for t1, c1 in a.t:
        for t2, c2 in b.t:
            for t, c in tmul(t1, t2).t:
                out[t] = out.get(t, 0) + c * c1 * c2
    r = _intern_poly(out)
    _mulcache[key] = r
    return r


def open_term(t):
    """Rename the bound variables of a term apart; returns (vars, factors)."""
    if not t.b:
        return (), t.f
    m, vs = {}, []
    for v in t.b:
        n = fresh(v.d[1])
        m[v] = n
        vs.append(only_atom(n))
    fs = []
    for a, e in t.f:
        if a.fv.isdisjoint(m):
            fs.append((a, e))
        else:
            fs.append((subst_atom_raw(a, m), e))
    return tuple(vs), tuple(fs)


def subst_atom_raw(a, m):
    p = subst_atom(a, m)
    return p


def tmul(t1, t2):
    if t1 is ONE_T:
        return _intern_poly({t2: Q(1)})
    if t2 is ONE_T:
        return _intern_poly({t1: Q(1)})
    b1, f1 = open_term(t1)
    b2, f2 = open_term(t2) if t2.b else ((), t2.f)
    return build(b1 + b2, list(f1) + list(f2))


def build(binders, factors, coef=Q(1)):
    """Normalise coef * sum_{binders} prod factors; a factor is (Atom|Poly, exp)."""
    fac = {}
    todo = list(factors)
    pend = []          # polys to multiply (expanded)
    while todo:
        a, e = todo.pop()
        if isinstance(a, Poly):
            if len(a.t) == 1 and e == 1 and not a.t[0][0].b:
                t, c = a.t[0]
                coef *= c
                todo.extend(t.f)
            elif not a.t:
                if e > 0:
                    return ZERO
                pend.append((a, e))
            elif e == 1:
                pend.append((a, Q(1)))
            else:
                pend.append((ppow(a, e), Q(1)))
            continue
        ne = fac.get(a, Q(0)) + e
        if ne == 0:
            fac.pop(a, None)
        else:
            fac[a] = ne
    # post processing of exponents
    for a in list(fac):
        e = fac[a]
        if a.k in ('d', 'v'):
            if e > 0:
                fac[a] = Q(1)
        elif a.k == 'p' and e > 0 and e.denominator == 1:
            if e <= 4:
                del fac[a]
                pend.append((ppow(a.d[0], e), Q(1)))
        elif a.k == 'f' and a.d[0] == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
            del fac[a]
            pend.append((ppow(a.d[1][0], e), Q(1)))
        elif a.k == 'f' and a.d[0] == 'sign' and e.denominator == 1 and e.numerator % 2 == 0:
            del fac[a]
    if pend:
        # multiply out: distribute over the pending polys
        acc = {(): (Q(1), list(fac.items()))}
        partial = [(coef, tuple(binders), list(fac.items()))]
        for p, _ in pend:
            nxt = []
            for c, bs, fs in partial:
                for t, k in p.t:
                    b2, f2 = open_term(t)
                    nxt.append((c * k, bs + b2, fs + list(f2)))
            partial = nxt
            if len(partial) > 20000:
                raise Unmodelled('term explosion')
        return psum(build(bs, fs, c) for c, bs, fs in partial)
    # delta elimination
    for a in fac:
        if a.k == 'd' and fac[a] == 1:
            p = a.d[0]
            for v in binders:
                if v in p.fv:
                    sol = solve_linear(p, v)
                    if sol is None:
                        continue
                    rest = [(x, e) for x, e in fac.items() if x is not a]
                    return _elim(binders, rest, coef, v, sol)
    for a in list(fac):
        if a.k == 'd' and fac[a] == 1:
            p = a.d[0]
            cand = []
            for v in p.fv:
                if v in binders:
                    continue
                sol = solve_linear(p, v)
                if sol is not None:
                    cand.append((v.id, v, sol))
            if cand:
                _, v, sol = max(cand, key=lambda x: x[0])
                ch = False
                new = []
                for x, e in fac.items():
                    if x is not a and v in x.fv:
                        y = subst_atom(x, {v: sol})
                        ch = True
                        new.append((y, e))
                    else:
                        new.append((x, e))
                if ch:
                    return build(binders, new, coef)
    # unused binders
    if binders:
        used = set()
        for a in fac:
            used |= a.fv
        for v in binders:
            used |= v.d[1].fv
        ub = [v for v in binders if v not in used]
        if ub:
            rest = tuple(v for v in binders if v in used)
            r = build(rest, list(fac.items()), coef)
            for v in ub:
                r = r * v.d[1]
            return r
        for rule in CONTRACT:
            r = rule(binders, fac, coef)
            if r is not None:
                return r
    if not binders:
        f = tuple(sorted(fac.items(), key=lambda x: x[0].id))
        return _intern_poly({_intern_term((), f): coef})
    return _canon(binders, fac, coef)


def _elim(binders, rest, coef, v, sol):
    d = v.d[1]
    lo, hi = sol, d - 1 - sol
    if nonneg(-lo - 1) or nonneg(-hi - 1):
        return ZERO
    extra = []
    if not nonneg(lo):
        extra.append((mk_atom('v', '>=', lo), Q(1)))
    if not nonneg(hi):
        extra.append((mk_atom('v', '>=', hi), Q(1)))
    m = {v: sol}
    new = []
    for x, e in rest:
        new.append((subst_atom(x, m), e) if v in x.fv else (x, e))
    return build(tuple(b for b in binders if b is not v), new + extra, coef)


_canoncache = {}
_canondepth = [0]


def _canon(binders, fac, coef):
    _canondepth[0] += 1
    try:
        if _canondepth[0] > 40:
            raise Unmodelled('canonicalisation does not terminate')
        return _canon_(binders, fac, coef)
    finally:
        _canondepth[0] -= 1


def _canon_(binders, fac, coef):
    items = tuple(sorted(fac.items(), key=lambda x: x[0].id))
    key = (tuple(sorted(binders, key=lambda v: v.id)), items)
    r = _canoncache.get(key)
    if r is not None:
        return pscale(r, coef)
    h = max(a.h for a in fac) + 1
    # reflect binders that occur only as (dim-1-v)
    for v in binders:
        if _prefers_reflection(v, items):
            m = {v: v.d[1] - 1 - atom_poly(v)}
            items2 = [(subst_atom(a, m), e) if v in a.fv else (a, e) for a, e in items]
            r = build(binders, items2, Q(1))
            _canoncache[key] = r
            return pscale(r, coef)
    n = len(binders)
    sigs = {}
    if n > 1:
        for v in binders:
            m = {w: (var('☆', w.d[1]) if w is not v else var('★', w.d[1])) for w in binders}
            s = []
            for a, e in items:
                if v in a.fv:
                    s.append((_aid(subst_atom(a, m)), e))
            sigs[v] = (v.d[1].id, tuple(sorted(s)))
        classes = {}
        for v in binders:
            classes.setdefault(sigs[v], []).append(v)
        groups = [classes[k] for k in sorted(classes)]
    else:
        groups = [list(binders)]
    cnt = 1
    for g in groups:
        cnt *= math.factorial(len(g))
    if cnt > 5040:
        perms = [list(itertools.chain(*groups))]
    else:
        perms = [list(itertools.chain(*x)) for x in itertools.product(*[itertools.permutations(g) for g in groups])]
    best = None
    for perm in perms:
        m = {v: var(f'#{h}.{k}', v.d[1]) for k, v in enumerate(perm)}
        fs = []
        ok = True
        for a, e in items:
            if a.fv.isdisjoint(m):
                fs.append((a, e))
            else:
                na = subst_atom(a, m)
                if not isinstance(na, Atom):
                    ok = False
                    break
                fs.append((na, e))
        if not ok:
            # a rewrite fired after renaming: rebuild with fresh names
            m2 = {v: fresh(v.d[1]) for v in perm}
            r = build(tuple(only_atom(m2[v]) for v in perm),
                      [(subst_atom(a, m2), e) for a, e in items], Q(1))
            _canoncache[key] = r
            return pscale(r, coef)
        fs = tuple(sorted(fs, key=lambda x: x[0].id))
        k2 = tuple((a.id, e) for a, e in fs)
        if best is None or k2 < best[0]:
            best = (k2, tuple(only_atom(m[v]) for v in perm), fs)
    r = _intern_poly({_intern_term(best[1], best[2]): Q(1)})
    _canoncache[key] = r
    return pscale(r, coef)


def _aid(x):
    return ('A', x.id) if isinstance(x, Atom) else ('P', x.id)


def _prefers_reflection(v, items):
    """True if v occurs as an index only in the form (dim-1) - v."""
    want = v.d[1] - 1 - atom_poly(v)
    plain = atom_poly(v)
    seen = [0, 0]

    def look(p):
        if v not in p.fv:
            return
        if p is want:
            seen[0] += 1
        elif p is plain:
            seen[1] += 1
        else:
            seen[1] += 1

    for a, _ in items:
        if v not in a.fv:
            continue
        if a.k == 'e':
            for p in a.d[1]:
                look(p)
        elif a.k == 'a':
            for p in a.d[3]:
                look(p)
            for lam in a.d[2]:
                if v in lam.fv:
                    seen[1] += 1
        else:
            seen[1] += 1
    return seen[0] > 0 and seen[1] == 0


# ---------------------------------------------------------------- substitution

def subst(p, m):
    """Substitute index variables (Atom -> Poly) in a poly, capture avoiding."""
    if p.fv.isdisjoint(m):
        return p
    out = []
    for t, c in p.t:
        if t.fv.isdisjoint(m):
            out.append(_intern_poly({t: c}))
            continue
        b, f = open_term(t)
        b2 = []
        for v in b:
            if not v.d[1].fv.isdisjoint(m):
                raise Unmodelled('dependent dimension')
            b2.append(v)
        out.append(build(tuple(b2), [(subst_atom(a, m), e) if not a.fv.isdisjoint(m) else (a, e) for a, e in f], c))
    return psum(out)


def subst_atom(a, m):
    """Returns Atom or Poly."""
    if a.k == 'i':
        r = m.get(a)
        if r is None:
            return a
        return r
    return rebuild_atom(a, lambda p: subst(p, m), lambda l: subst_lam(l, m))


def rebuild_atom(a, fp, fl):
    k = a.k
    if k == 'e':
        r = elem(a.d[0], [fp(p) for p in a.d[1]])
        return _unwrap(r)
    if k == 'f':
        return _unwrap(fn(a.d[0], *[fp(p) for p in a.d[1]]))
    if k == 'p':
        q = fp(a.d[0])
        if q is a.d[0]:
            return a
        if len(q.t) > 1 or (len(q.t) == 1 and q.t[0][0].b):
            c, common = _content(q)
            if abs(c) == 1 and not common:
                return mk_atom('p', q)
        return q
    if k == 'd':
        return _unwrap(delta0(fp(a.d[0])))
    if k == 'v':
        return _unwrap(iverson(a.d[0], fp(a.d[1])))
    if k == 'a':
        fname, par, lams, idx, dv = a.d
        return _unwrap(app(fname, par, [fl(l) for l in lams], [fp(p) for p in idx],
                           [(n, tuple(fp(p) for p in ii)) for n, ii in dv]))
    return a


def _unwrap(p):
    if len(p.t) == 1 and p.t[0][1] == 1:
        t = p.t[0][0]
        if not t.b and len(t.f) == 1 and t.f[0][1] == 1:
            return t.f[0][0]
    return p


def subst_lam(l, m):
    if l.fv.isdisjoint(m):
        return l
    cells = []
    for vs, idx, body in l.cells:
        ren = {v: fresh(v.d[1]) for v in vs}
        mm = dict(m)
        mm.update(ren)
        cells.append((tuple(only_atom(ren[v]) for v in vs), tuple(subst(p, ren) for p in idx), subst(body, mm)))
    return mk_lam(tuple(subst(d, m) for d in l.dims), cells)


def open_lam(l):
    cells = []
    for vs, idx, body in l.cells:
        ren = {v: fresh(v.d[1]) for v in vs}
        cells.append((tuple(only_atom(ren[v]) for v in vs), tuple(subst(p, ren) for p in idx), subst(body, ren)))
    return cells


def map_elems(p, table, cache=None):
    """Replace elements of opaque arrays: table name -> fn(idx)->Poly."""
    names = table.keys()
    if p.nm.isdisjoint(names):
        return p
    out = []
    for t, c in p.t:
        if t.nm.isdisjoint(names):
            out.append(_intern_poly({t: c}))
            continue
        b, f = open_term(t)
        fs = []
        for a, e in f:
            if a.nm.isdisjoint(names):
                fs.append((a, e))
            else:
                fs.append((map_elems_atom(a, table), e))
        out.append(build(b, fs, c))
    return psum(out)


def map_elems_atom(a, table):
    if a.k == 'e' and a.d[0] in table:
        return _unwrap(table[a.d[0]](tuple(map_elems(p, table) for p in a.d[1])))
    return rebuild_atom(a, lambda p: map_elems(p, table), lambda l: map_elems_lam(l, table))


def map_elems_lam(l, table):
    if l.nm.isdisjoint(table.keys()):
        return l
    return mk_lam(l.dims, [(vs, idx, map_elems(body, table)) for vs, idx, body in open_lam(l)])


# ---------------------------------------------------------------- constructors

def sum_over(p, v):
    """Sum poly p over index variable atom v."""
    out = []
    for t, c in p.t:
        if v not in t.fv:
            out.append(_intern_poly({t: c}) * v.d[1])
            continue
        b, f = open_term(t)
        out.append(build(b + (v,), list(f), c))
    return psum(out)


def positive(a):
    """Atom known to be > 0 (real)."""
    if a.k == 'n':
        return True
    if a.k == 'e':
        return 'pos' in PROPS.get(a.d[0], ())
    if a.k == 'f':
        return a.d[0] in ('exp', 'pi', 'sqrtc')
    if a.k == 'p':
        return pos_poly(a.d[0])
    if a.k == 'a':
        return 'pos' in PROPS.get(a.d[0], ())
    return False


def pos_poly(p):
    if not p.t:
        return False
    return all(c > 0 and all(positive(a) for a, _ in t.f) for t, c in p.t)


def _rat_pow(c, e):
    """c**e for rational c>0; returns Poly."""
    if e.denominator == 1:
        return const(c ** e.numerator)
    if c < 0:
        return atom_poly(mk_atom('p', const(c)), e)
    num, den = c.numerator, c.denominator
    n = e.denominator

    def root(x):
        r = round(x ** (1.0 / n))
        return r if r ** n == x else None
    a, b = root(num), root(den)
    if a is not None and b is not None:
        return const(Q(a, b) ** e.numerator)
    # split prime factors so that sqrt(2)*sqrt(2) = 2 and sqrt(8) = 2 sqrt 2
    r = ONE
    for base, s in ((num, 1), (den, -1)):
        for pr, k in _factor(base).items():
            ex = e * k * s
            whole = ex.numerator // ex.denominator
            frac = ex - whole
            r = r * const(Q(pr) ** whole)
            if frac:
                r = r * atom_poly(mk_atom('f', 'sqrtc', (const(pr),)), frac)
    return r


def _factor(n):
    out, d = {}, 2
    while d * d <= n and d < 10000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def ppow(p, e):
    e = Q(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = const_val(p)
    if c is not None:
        if c == 0:
            if e > 0:
                return ZERO
            return atom_poly(mk_atom('p', ZERO), e)
        return _rat_pow(c, e)
    if len(p.t) == 1:
        t, c = p.t[0]
        if not t.b:
            integer = e.denominator == 1
            r = _rat_pow(c, e) if (integer or c > 0) else None
            if r is not None:
                fs = []
                neg = []
                for a, x in t.f:
                    if integer or positive(a) or x.denominator != 1:
                        fs.append((a, x * e))
                    elif x.numerator % 2 == 0:
                        fs.append((_unwrap(fn('abs', atom_poly(a))), x * e))
                    else:
                        neg.append((a, x))
                if len(neg) == 1:
                    fs.append((neg[0][0], neg[0][1] * e))
                elif neg:
                    base = build((), neg)
                    fs.append((mk_atom('p', base), e))
                return r * build((), fs)
    if e.denominator == 1 and e > 0 and e <= 4 and len(p.t) ** int(e) <= 20000:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    lead_c, common = _content(p, e.denominator == 1)
    out = _rat_pow(lead_c, e)
    q = pscale(p, 1 / lead_c)
    if common:
        mono = build((), list(common.items()))
        inv = build((), [(a, -x) for a, x in common.items()])
        q = q * inv
        if len(q.t) == 1:
            return out * ppow(mono, e) * ppow(q, e)
        return out * ppow(mono, e) * atom_poly(mk_atom('p', q), e)
    return out * atom_poly(mk_atom('p', q), e)


def _content(p, integer=True):
    """Rational content (renaming invariant) and common monomial of a sum."""
    g = None
    for _, c in p.t:
        g = abs(c) if g is None else Q(math.gcd(g.numerator, c.numerator),
                                       g.denominator * c.denominator // math.gcd(g.denominator, c.denominator))
    if integer:
        pos = sorted(c for _, c in p.t if c > 0)
        neg = sorted(-c for _, c in p.t if c < 0)
        if (len(neg), neg) > (len(pos), pos) or ((len(neg), neg) == (len(pos), pos) and p.t[0][1] < 0):
            g = -g
    common = None
    for t, _ in p.t:
        # only atoms free of binders can be pulled out
        d = {a: x for a, x in t.f if a.fv.isdisjoint(t.b) and (integer or positive(a)) and a.k != 'd' and a.k != 'v'}
        if common is None:
            common = d
        else:
            common = {a: min(x, d[a]) if (x > 0) == (d[a] > 0) else None for a, x in common.items() if a in d}
            common = {a: x for a, x in common.items() if x is not None}
        if not common:
            break
    return g, common


def sqrt(p):
    return ppow(P(p), Q(1, 2))


PI = None


def fn(name, *args):
    args = tuple(P(a) for a in args)
    if name == 'exp':
        (x,) = args
        if not x.t:
            return ONE
        r = ONE
        for t, c in x.t:
            if not t.b and len(t.f) == 1 and t.f[0][1] == 1 and t.f[0][0].k == 'f' and t.f[0][0].d[0] == 'log':
                r = r * ppow(t.f[0][0].d[1][0], c)
                continue
            r = r * atom_poly(mk_atom('f', 'exp', (_intern_poly({t: Q(1)}),)), c)
        return r
    if name == 'log':
        (x,) = args
        if x is ONE:
            return ZERO
        if not x.t:
            return atom_poly(mk_atom('f', 'log', (ZERO,)))
        c = const_val(x)
        if c is not None and c > 0:
            out = ZERO
            for pr, k in _factor(c.numerator).items():
                out = out + atom_poly(mk_atom('f', 'log', (const(pr),))) * k
            for pr, k in _factor(c.denominator).items():
                out = out - atom_poly(mk_atom('f', 'log', (const(pr),))) * k
            return out
        if len(x.t) == 1 and not x.t[0][0].b:
            t, c = x.t[0]
            if c > 0:
                out = fn('log', const(c)) if c != 1 else ZERO
                npos = [a for a, _ in t.f if not positive(a)]
                if len(npos) <= 1 and (not npos or all(e.denominator != 1 or e.numerator % 2 for a, e in t.f if a in npos)):
                    if len(t.f) > 1 or c != 1 or t.f[0][1] != 1 or (t.f[0][0].k == 'f' and t.f[0][0].d[0] in ('exp', 'sqrtc')) or t.f[0][0].k == 'p':
                        for a, e in t.f:
                            out = out + _log_atom(a) * e
                        return out
        else:
            lc, common = _content(x, False)
            if lc != 1 or common:
                out = fn('log', const(lc)) if lc != 1 else ZERO
                q = pscale(x, 1 / lc)
                if common:
                    q = q * build((), [(a, -v) for a, v in common.items()])
                    for a, v in common.items():
                        out = out + _log_atom(a) * v
                return out + fn('log', q)
        return atom_poly(mk_atom('f', 'log', args))
    if name == 'abs':
        (x,) = args
        c = const_val(x)
        if c is not None:
            return const(abs(c))
        if pos_poly(x):
            return x
        if len(x.t) == 1 and not x.t[0][0].b:
            t, c = x.t[0]
            pos = [(a, e) for a, e in t.f if positive(a)]
            rest = [(a, e) for a, e in t.f if not positive(a)]
            if pos or c != 1:
                r = build((), rest)
                return build((), pos, abs(c)) * (fn('abs', r) if rest else ONE)
        if x.t[0][1] < 0:
            return fn('abs', -x)
        return atom_poly(mk_atom('f', 'abs', (x,)))
    if name == 'sign':
        (x,) = args
        c = const_val(x)
        if c is not None:
            return const((c > 0) - (c < 0))
        if pos_poly(x):
            return ONE
        return atom_poly(mk_atom('f', 'sign', (x,)))
    if name in ('max2', 'min2'):
        a, b = args
        if a is b:
            return a
        ca, cb = const_val(a), const_val(b)
        if ca is not None and cb is not None:
            return const(max(ca, cb) if name == 'max2' else min(ca, cb))
        if a.id > b.id:
            a, b = b, a
        d = b - a
        try:
            if nonneg(d):
                return b if name == 'max2' else a
            if nonneg(-d):
                return a if name == 'max2' else b
        except Unmodelled:
            pass
        return atom_poly(mk_atom('f', name, (a, b)))
    if name in ('floor', 'fdiv', 'mod'):
        cs = [const_val(a) for a in args]
        if all(c is not None for c in cs):
            if name == 'floor':
                return const(math.floor(cs[0]))
            if name == 'fdiv':
                return const(math.floor(cs[0] / cs[1]))
            return const(cs[0] - cs[1] * math.floor(cs[0] / cs[1]))
        if name in ('fdiv', 'mod'):
            try:
                q, r = pdivmod(args[0], args[1])
                return q if name == 'fdiv' else r
            except Unmodelled:
                pass
    if name in ('sin', 'tanh', 'erf', 'sinh') and args[0] is ZERO:
        return ZERO
    if name in ('sin', 'tanh', 'erf', 'sinh', 'cos', 'cosh'):
        x = args[0]
        if x.t and x.t[0][1] < 0:
            y = atom_poly(mk_atom('f', name, (-x,)))
            return y if name in ('cos', 'cosh') else -y
    return atom_poly(mk_atom('f', name, args))


def _log_atom(a):
    if a.k == 'f' and a.d[0] == 'exp':
        return a.d[1][0]
    if a.k == 'f' and a.d[0] == 'sqrtc':
        return fn('log', a.d[1][0])
    if a.k == 'p':
        return atom_poly(mk_atom('f', 'log', (a.d[0],)))
    return atom_poly(mk_atom('f', 'log', (atom_poly(a),)))


PI = atom_poly(mk_atom('f', 'pi', ()))


def app(fname, par, lams, idx, dv=()):
    """Element `idx` of the opaque array function `fname` applied to arrays."""
    dv = tuple(sorted(((n, tuple(P(i) for i in ii)) for n, ii in dv),
                      key=lambda x: (x[0], tuple(i.id for i in x[1]))))
    idx = tuple(P(i) for i in idx)
    r = APP_RULES.get(fname)
    if r is not None:
        v = r(par, tuple(lams), idx, dv)
        if v is not None:
            return v
    return atom_poly(mk_atom('a', fname, par, tuple(lams), idx, dv))


APP_RULES = {}


# ---------------------------------------------------------------- integers

def _int_atoms(p):
    for t, c in p.t:
        for a, e in t.f:
            yield a


def _coeff_of(p, v):
    """p = q*v + r with q, r free of v (linear); else None."""
    q, r = {}, {}
    for t, c in p.t:
        if v not in t.fv:
            r[t] = c
            continue
        if t.b:
            return None
        f = dict(t.f)
        if f.get(v) != 1:
            return None
        del f[v]
        if any(v in a.fv for a in f):
            return None
        tt = _intern_term((), tuple(sorted(f.items(), key=lambda x: x[0].id)))
        q[tt] = q.get(tt, 0) + c
    return _intern_poly(q), _intern_poly(r)


def solve_linear(p, v):
    cr = _coeff_of(p, v)
    if cr is None:
        return None
    q, r = cr
    c = const_val(q)
    if c == 1:
        return -r
    if c == -1:
        return r
    return None


_nncache = {}


def nonneg(p):
    """Prove p >= 0 for all index values and all dims >= 1 (sound, incomplete)."""
    r = _nncache.get(p.id)
    if r is None:
        r = _nonneg(p, 0)
        _nncache[p.id] = r
    return r


def _allpos(p):
    return all(c > 0 for _, c in p.t)


def _nonneg(p, depth):
    c = const_val(p)
    if c is not None:
        return c >= 0
    for t, _ in p.t:
        if t.b:
            return False
        for a, e in t.f:
            if a.k not in ('i', 'n') or e.denominator != 1 or e < 0:
                return False
    vs = {a for t, _ in p.t for a, _ in t.f if a.k == 'i'}
    if not vs:
        # dims d = d' + 1
        ds = {a for t, _ in p.t for a, _ in t.f if a.k == 'n'}
        m = {}
        q = p
        acc = ZERO
        for t, c in q.t:
            m1 = const(c)
            for a, e in t.f:
                m1 = m1 * ppow(atom_poly(a) + 1, e)
            acc = acc + m1
        return _allpos(acc)
    for v in sorted(vs, key=lambda a: a.id):
        cr = _coeff_of(p, v)
        if cr is None:
            return False
        q, r = cr
        if nonneg(q):
            return _nonneg(r, depth + 1)
        if nonneg(-q):
            return _nonneg(r + q * (v.d[1] - 1), depth + 1)
    return False


def delta0(p):
    """[p == 0] for an integer poly."""
    c = const_val(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_int(p):
        if nonneg(p - 1) or nonneg(-p - 1):
            return ZERO
        # mixed radix split
        for d in _radices(p):
            try:
                q, r = _split_by(p, d)
            except Unmodelled:
                continue
            if q.t and r.t and nonneg(r + d - 1) and nonneg(d - 1 - r):
                return delta0(q) * delta0(r)
    if p.t[0][1] < 0:
        p = -p
    return atom_poly(mk_atom('d', p))


def is_int(p):
    return all(c.denominator == 1 and not t.b and all(a.k in ('i', 'n') and e > 0 and e.denominator == 1 for a, e in t.f) for t, c in p.t)


def _radices(p):
    out = {}
    for t, c in p.t:
        for a, e in t.f:
            if a.k == 'n':
                out[a] = 1
    res = [atom_poly(a) for a in sorted(out, key=lambda a: a.id)]
    ints = {abs(c.numerator) for t, c in p.t if t is not ONE_T and abs(c) > 1}
    res += [const(k) for k in sorted(ints)]
    return res


def _split_by(p, d):
    """p = d*q + r, taking the monomials divisible by d (d a dim atom, int or sum)."""
    cd = const_val(d)
    if cd is not None:
        q, r = {}, {}
        for t, c in p.t:
            if t is ONE_T:
                k = math.floor(c / cd)
                q[t] = k
                r[t] = c - k * cd
            elif (c / cd).denominator == 1:
                q[t] = c / cd
            else:
                r[t] = c
        return _intern_poly(q), _intern_poly(r)
    lead_t, lead_c = max(d.t, key=lambda x: (sum(e for _, e in x[0].f), x[0].id))
    lf = dict(lead_t.f)
    q = {}
    for t, c in p.t:
        f = dict(t.f)
        ok = True
        for a, e in lf.items():
            if f.get(a, 0) < e:
                ok = False
                break
            f[a] -= e
            if f[a] == 0:
                del f[a]
        if ok:
            tt = _intern_term((), tuple(sorted(f.items(), key=lambda x: x[0].id)))
            q[tt] = q.get(tt, 0) + c / lead_c
    qp = _intern_poly(q)
    return qp, p - qp * d


def pdivmod(p, d):
    """Integer division with proof that 0 <= r < d."""
    if d is ONE:
        return p, ZERO
    if nonneg(p) and nonneg(d - 1 - p):
        return ZERO, p
    q, r = _split_by(p, d)
    if nonneg(r) and nonneg(d - 1 - r):
        return q, r
    # constant adjustment
    for k in (1, -1):
        q2, r2 = q + k, r - d * k
        if nonneg(r2) and nonneg(d - 1 - r2):
            return q2, r2
    raise Unmodelled('cannot delinearise index')


def iverson(op, p):
    """[p op 0] with op in '>' '>='."""
    c = const_val(p)
    if c is not None:
        return P((c > 0) if op == '>' else (c >= 0))
    if is_int(p):
        if op == '>':
            return iverson('>=', p - 1)
        if nonneg(p):
            return ONE
        if nonneg(-p - 1):
            return ZERO
    elif pos_poly(p):
        return ONE
    elif pos_poly(-p):
        return ZERO
    lc = abs(p.t[0][1])
    if not is_int(p) and lc != 1:
        p = pscale(p, 1 / lc)
    if not is_int(p) and p.t[0][1] < 0:
        # [p > 0] = 1 - [-p >= 0]
        return ONE - atom_poly(mk_atom('v', '>=' if op == '>' else '>', -p))
    return atom_poly(mk_atom('v', op, p))


# ---------------------------------------------------------------- derivative

def deriv(p, seed):
    """Directional derivative; seed: name -> fn(idx)->Poly (tangent)."""
    names = seed.keys()
    if p.nm.isdisjoint(names):
        return ZERO
    out = []
    for t, c in p.t:
        if t.nm.isdisjoint(names):
            continue
        b, f = open_term(t)
        f = list(f)
        for k, (a, e) in enumerate(f):
            if isinstance(a, Poly):
                da = deriv(a, seed)
                base = a
            else:
                if a.nm.isdisjoint(names):
                    continue
                da = deriv_atom(a, seed)
                base = a
            if not da.t:
                continue
            rest = f[:k] + f[k + 1:]
            fs = rest + ([(base, e - 1)] if e != 1 else []) + [(da, Q(1))]
            out.append(build(b, fs, c * e))
    return psum(out)


def deriv_atom(a, seed):
    k = a.k
    if k == 'e':
        if a.d[0] in seed:
            return seed[a.d[0]](a.d[1])
        return ZERO
    if k == 'p':
        return deriv(a.d[0], seed)
    if k in ('d', 'v', 'i', 'n'):
        return ZERO
    if k == 'f':
        name, args = a.d
        ds = [deriv(x, seed) for x in args]
        if not any(d.t for d in ds):
            return ZERO
        x = args[0]
        if name == 'exp':
            return atom_poly(a) * ds[0]
        if name == 'log':
            return ds[0] / x
        if name == 'abs':
            return fn('sign', x) * ds[0]
        if name in ('sign', 'sg', 'floor', 'ceil', 'round', 'trunc'):
            return ZERO
        if name in ('max2', 'min2') and len(args) == 2:
            d = args[0] - args[1] if name == 'max2' else args[1] - args[0]
            p, q = iverson('>', d), iverson('>', -d)
            return p * ds[0] + q * ds[1] + (ONE - p - q) * (ds[0] + ds[1]) / 2
        if name == 'sin':
            return fn('cos', x) * ds[0]
        if name == 'cos':
            return -fn('sin', x) * ds[0]
        if name == 'tanh':
            return (ONE - atom_poly(a) ** 2) * ds[0]
        if name == 'ndtr':
            return fn('exp', -(x * x) / 2) / sqrt(PI * 2) * ds[0]
        raise Unmodelled(f'derivative of {name}')
    if k == 'a':
        fname, par, lams, idx, dv = a.d
        if fname in ('logdet', 'inv') and not dv:
            return deriv_matrix(fname, par, lams, idx, seed)
        if 'smooth' not in PROPS.get(fname, ()):
            raise Unmodelled(f'derivative of {fname}')
        out = []
        for n, lam in enumerate(lams):
            if lam.nm.isdisjoint(seed.keys()):
                continue
            for vs, ii, body in open_lam(lam):
                db = deriv(body, seed)
                if not db.t:
                    continue
                r = app(fname, par, lams, idx, dv + ((n, ii),)) * db
                for v in vs:
                    r = sum_over(r, v)
                out.append(r)
        return psum(out)
    raise AssertionError(k)


def deriv_matrix(fname, par, lams, idx, seed):
    """d logdet M = tr(M^-1 dM), d M^-1 = -M^-1 dM M^-1."""
    out = []
    if not lams[0].nm.isdisjoint(seed.keys()):
        for vs, ii, body in open_lam(lams[0]):
            db = deriv(body, seed)
            if not db.t:
                continue
            if fname == 'logdet':
                r = app('inv', (), lams, (ii[1], ii[0])) * db
            else:
                r = -app('inv', par, lams, (idx[0], ii[0])) * db * app('inv', par, lams, (ii[1], idx[1]))
            for v in vs:
                r = sum_over(r, v)
            out.append(r)
    return psum(out)


# ---------------------------------------------------------------- zero test

def is_zero(p, depth=0):
    """Equality modulo field axioms: clears denominators group by group."""
    if not p.t:
        return True
    if depth > 6:
        return False
    # group by binder structure
    groups = {}
    for t, c in p.t:
        groups.setdefault(tuple(v.d[1].id for v in t.b), []).append((t, c))
    for g in groups.values():
        if not _group_zero(g, depth):
            return False
    return True


def _group_zero(items, depth):
    # put everything over the same bound variable names, treat them as free
    nb = len(items[0][0].b)
    if nb:
        news = [fresh(v.d[1]) for v in items[0][0].b]
        best = None
        # try to align bound variables (identity alignment first)
        polys = []
        for t, c in items:
            m = dict(zip(t.b, news))
            polys.append(build((), [(subst_atom(a, m), e) for a, e in t.f], c))
        body = psum(polys)
        if not body.t:
            return True
        if _clear(body, depth):
            return True
        if nb <= 3 and len(items) <= 4:
            opts = []
            for t, c in items[1:]:
                o = []
                for perm in itertools.permutations(range(nb)):
                    if any(t.b[k].d[1] is not items[0][0].b[perm[k]].d[1] for k in range(nb)):
                        continue
                    m = {t.b[k]: news[perm[k]] for k in range(nb)}
                    o.append(build((), [(subst_atom(a, m), e) for a, e in t.f], c))
                opts.append(o)
            for combo in itertools.product(*opts):
                if _clear(psum((polys[0],) + combo), depth):
                    return True
        return False
    return _clear(psum(_intern_poly({t: c}) for t, c in items), depth)


def _clear(p, depth):
    if not p.t:
        return True
    den = {}
    for t, _ in p.t:
        bs = set(t.b)
        for a, e in t.f:
            if a.k == 'p' and a.fv.isdisjoint(bs):
                if a not in den or e < den[a]:
                    den[a] = e
    den = {a: e for a, e in den.items() if e < 0 or e.denominator != 1}
    cands = []
    for t, _ in p.t:
        pass
    need = {a: -e for a, e in den.items() if e < 0}
    if not need:
        return False
    out = []
    for t, c in p.t:
        b, f = open_term(t)
        f = dict(f)
        extra = []
        for a, e in need.items():
            f[a] = f.get(a, Q(0)) + e
        out.append(build(b, [(a, e) for a, e in f.items() if e != 0], c))
    q = psum(out)
    if not q.t:
        return True
    if q is p:
        return False
    return is_zero(q, depth + 1)


def equal(a, b):
    if a is b:
        return True
    return is_zero(a - b)


# ---------------------------------------------------------------- display

def show(p, top=True):
    if not p.t:
        return '0'
    out = []
    for t, c in p.t:
        s = show_term(t)
        if s == '1':
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append(f'{c}*{s}')
    r = ' + '.join(out).replace('+ -', '- ')
    return r


def show_term(t):
    fs = []
    for a, e in t.f:
        s = show_atom(a)
        fs.append(s if e == 1 else f'{s}^{e}' if e.denominator == 1 and e > 0 else f'{s}^({e})')
    s = '*'.join(fs) or '1'
    if t.b:
        s = 'Σ_{' + ','.join(f'{v.d[0]}<{show(v.d[1])}' for v in t.b) + '}(' + s + ')'
    return s


def show_atom(a):
    k = a.k
    if k in ('i', 'n'):
        return a.d[0]
    if k == 'e':
        return a.d[0] + ('[' + ','.join(show(i) for i in a.d[1]) + ']' if a.d[1] else '')
    if k == 'f':
        return a.d[0] + ('(' + ','.join(show(i) for i in a.d[1]) + ')' if a.d[1] else '')
    if k == 'p':
        return '(' + show(a.d[0]) + ')'
    if k == 'd':
        return '[' + show(a.d[0]) + '==0]'
    if k == 'v':
        return '[' + show(a.d[1]) + a.d[0] + '0]'
    if k == 'a':
        fname, par, lams, idx, dv = a.d
        s = str(fname)
        if dv:
            s = 'd' + ''.join(f'/d{n}[{",".join(show(i) for i in ii)}]' for n, ii in dv) + ' ' + s
        par_s = '' if not par else f'<{par}>'
        return f'{s}{par_s}(' + ';'.join(show_lam(l) for l in lams) + ')' + ('[' + ','.join(show(i) for i in idx) + ']' if idx else '')
    return '?'


def show_lam(l):
    out = []
    for vs, idx, body in l.cells:
        if idx:
            out.append('λ' + ','.join(show(i) for i in idx) + '.' + show(body))
        else:
            out.append(show(body))
    return '{' + ' | '.join(out) + '}'
