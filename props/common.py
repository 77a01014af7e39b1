"""Shared symbolic inputs for the obligations."""
from .base import *


def dims(s):
    return [dim(x) for x in s.split()]


A1, A2, B, N, I_, C, Pn, R, S_, T_, K_ = dims('A1 A2 B N I C P R S T K')


def setup_tree():
    """Parameter tree {'a': (A1,A2), 'b': (B,)} and its flat axis."""
    flat = cat_ax([prod_ax([ax(A1), ax(A2)]), ax(B)])
    register_struct(flat)
    return flat


def tree(tag=''):
    setup_tree()
    return {'a': opaque('a' + tag, A1, A2), 'b': opaque('b' + tag, B)}


def tmap(f, *ts):
    return {k: f(*[t[k] for t in ts]) for k in ts[0]}


def esum(p, *axes_vars):
    for v in axes_vars:
        p = sum_over(p, only_atom(v))
    return p


PROPS['model'] = {'smooth'}


def tup(c):
    return tuple(c) if isinstance(c, (tuple, list)) else (c,)


def out_axes(out):
    return tuple(ax(o) for o in tup(out))


def model_value(x, p, name='model', out=C):
    return app_arr(name, [x] + [p[k] for k in sorted(p)], out_axes(out))


def make_model(name='model', out=C, log=None, rank=1, strict=None):
    """The user's model_fn: callable only as model_fn(input, params) / keywords."""
    PROPS[name] = {'smooth'}

    def f(it, a, k):
        names = ['input', 'params']
        if len(a) > 2 or any(n not in names[len(a):] for n in k) or len(a) + len(k) != 2:
            raise AbsRaise(TypeError, f'model_fn called with {len(a)} positional and {sorted(k)} keyword arguments; '
                                      'the contract is model_fn(input, params)')
        v = dict(zip(names, a))
        v.update(k)
        if log is not None:
            log.append(v)
        x = v['input']
        if not isinstance(v['params'], dict) or not isinstance(x, Arr):
            raise AbsRaise(TypeError, 'model_fn(input, params) received its arguments in the wrong order')
        if strict is not None and x.ndim != strict:
            raise AbsRaise(TypeError, f'model_fn received an input of rank {x.ndim}; it takes one of rank {strict}')
        ps = [v['params'][q] for q in sorted(v['params'])]
        if x.ndim > rank:       # the model broadcasts over leading batch axes
            lead = x.axes[:x.ndim - rank]
            pl = [lam_of(q) for q in ps]

            def body(idx):
                ix = idx[:len(lead)]
                r = Arr(x.axes[len(ix):], lambda j: x.at(*ix, *j), x.dtype)
                return app(name, (), [lam_of(r)] + pl, idx[len(lead):])
            return Arr(lead + out_axes(out), body, 'float', max([x.tl] + [q.tl for q in ps]))
        return app_arr(name, [x] + ps, out_axes(out))
    return Builtin(name, f)


def data(n=N, inp=I_, out=C, tag=''):
    return {'input': opaque('X' + tag, n, inp), 'target': opaque('Y' + tag, n, out)}


def sample_input(d, n):
    """Row n (index poly) of the inputs."""
    x = d['input']
    return Arr(x.axes[1:], lambda idx: x.at(n, *idx), x.dtype)


def row(x, n):
    return Arr(x.axes[1:], lambda idx: x.at(n, *idx), x.dtype)


def fval(x, params, c, name='model'):
    """f(x)_c as a poly."""
    return model_value(x, params, name, (C,) * len(tup(c))).at(*tup(c))


def jac(x, params, c, key, idx, name='model'):
    """d f(x)_c / d params[key][idx]."""
    ks = sorted(params)
    pos = 1 + ks.index(key)
    return app(name, (), [lam_of(x)] + [lam_of(params[q]) for q in ks], tup(c), ((pos, tuple(idx)),))


def hess(x, params, c, k1, i1, k2, i2, name='model'):
    ks = sorted(params)
    return app(name, (), [lam_of(x)] + [lam_of(params[q]) for q in ks], tup(c),
               ((1 + ks.index(k1), tuple(i1)), (1 + ks.index(k2), tuple(i2))))


def fresh_idx(x):
    return tuple(fresh(a.dim) for a in x.axes)


def jvp_at(x, params, vec, c, name='model'):
    """sum_j J[c,j] v_j as a poly."""
    out = ZERO
    for k in params:
        ii = fresh_idx(params[k])
        out = out + esum(jac(x, params, c, k, ii, name) * vec[k].at(*ii), *ii)
    return out


def py(x):
    return pyint(x) if isinstance(x, Poly) else x


def S(name, *props):
    """A scalar symbol as a Python float value."""
    return scalar(sym(name, *props), 'float', 0, 'float')


def scalar_sym(name, *props):
    return sym(name, *props)
