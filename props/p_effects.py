"""C26 (no effect on arguments and shared state) and the entry points of C07: the abstract
executions of all other obligations, watched for effects."""
from .common import *
from .base import replay

ACCUMULATORS = {'results', 'aux', 'state', 'self'}      # updated in place by contract
SKIP = {'C07', 'C08', 'C26'}
COSTLY = ('iterations-2', 'iterations-3', 'reorthogonalized', 'invariant', 'steps-')     # same code as their smaller siblings


def shape_of(v, depth=0, seen=None):
    """Nested containers as an immutable description; leaves by identity."""
    seen = seen or ()
    if id(v) in seen or depth > 8:
        return '…'
    s = seen + (id(v),)
    if isinstance(v, dict):
        return ('dict', tuple((k if isinstance(k, (str, int)) else id(k), shape_of(x, depth + 1, s)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(shape_of(x, depth + 1, s) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(id(x) for x in v)))
    if isinstance(v, I.Inst):
        return ('object', id(v), tuple((k, shape_of(x, depth + 1, s)) for k, x in v.attrs.items()))
    if isinstance(v, I.PartialV):
        return ('partial', shape_of(list(v.args), depth + 1, s), shape_of(v.kwargs, depth + 1, s))
    return id(v)


def params_of(f):
    while isinstance(f, I.PartialV):
        f = f.func
    if isinstance(f, Func):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    return []


def watching(log):
    def monitor(c, f, a, k):
        names = params_of(f)
        inputs = {(names[n] if n < len(names) else n): x for n, x in enumerate(a)}
        inputs.update(k)
        inputs = {n: x for n, x in inputs.items() if n not in ACCUMULATORS}
        before = {n: shape_of(x) for n, x in inputs.items()}
        try:
            return c.it.call(f, a, k)
        finally:
            log['calls'] += 1
            for n, x in inputs.items():
                if shape_of(x) != before[n]:
                    log['bad'].append(f'{brief(f)} changes its argument {n!r}: now {brief(x)}')
    return monitor


def describe(v, depth=0):
    """Comparable description of a value across two loads of the program."""
    if isinstance(v, dict):
        return ('dict', tuple((str(k), describe(x, depth + 1)) for k, x in v.items())) if depth < 6 else '…'
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(describe(x, depth + 1) for x in v)) if depth < 6 else '…'
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(map(str, v))))
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return type(v).__name__ + ':' + str(getattr(v, 'qual', getattr(v, 'name', '')))


def shared(it):
    """Module-level containers and mutable defaults of the program."""
    out = {}
    for m, mod in it.modules.items():
        if not m.startswith('laplax'):
            continue
        for n, v in mod.ns.items():
            if isinstance(v, (dict, list, set)) and not n.startswith('__'):
                out[f'{m}.{n}'] = describe(v)
            if isinstance(v, Func) and v.module is mod:
                d = [x for x in list(v.defaults or ()) + list((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or ())
                     if isinstance(x, (dict, list, set))]
                if d:
                    out[f'{m}.{n} (defaults)'] = describe(d)
    return out


def pristine(mods):
    it = Interp(os.environ.get('LAPLAX_ROOT', '/repo'))
    for m in mods:
        it.load(m)
    return shared(it)


def group(pid):
    from . import base
    return [o for o in base.OBS if o.pid == pid and o.tier == 'quick' and o.again is None and not (pid in ('C30', 'C33') and o.key.startswith(COSTLY))]


def calls_ob(pid):
    @ob('C26', f'calls-{pid}', 'laplax', 'no call changes its arguments (accumulators excepted), default values, module-level state or library attributes, or draws from a hidden random state', limit=600)
    def _(c):
        log = {'calls': 0, 'bad': []}
        n = 0
        for o in group(pid):
            def finish(c2, o=o):
                it = c2.it
                for b in log['bad']:
                    c.fail(f'{b} (scenario {o.pid} {o.key})')
                for e in it.effects:
                    if e['kind'] in ('impure_random', 'ext_attr', 'module_attr'):
                        c.fail(f'{e["kind"]} {e.get("fn") or e.get("attr")} at {e["where"]} (scenario {o.pid} {o.key})')
                if pid not in ('C09', 'C36') and not it.stubs:
                    fresh_ = pristine([m for m in it.modules if m.startswith('laplax')])
                    for k, v in shared(it).items():
                        c.ok(k.split('.')[-1] in c2.own_writes or fresh_.get(k) == v, f'{k} is changed to {cut(str(v), 200)} by a call (scenario {o.pid} {o.key})')
            n += 1
            replay(o, c.stats, lambda c2: setattr(c2, 'monitor', watching(log)), finish)
        c.stats['checks'] += log['calls']
        c.ok(n > 0, f'no scenarios for {pid}')


def config_ob(pid):
    @ob('C07', f'entry-{pid}', 'laplax', 'no entry point leaves a changed JAX configuration behind', limit=600)
    def _(c):
        for x64 in (True, False):
            for o in group(pid):
                def setup(c2):
                    c2.it.config['jax_enable_x64'] = x64

                def finish(c2, o=o):
                    cfg = c2.it.config
                    bad = sorted(k for k, v in cfg.items() if k != 'jax_enable_x64' or v is not x64)
                    c.ok(not bad, f'{bad} changed by scenario {o.pid} {o.key} '
                                  f'({"; ".join(e["where"] for e in c2.it.effects if e["kind"] == "config")})')
                replay(o, c.stats, setup, finish)


for n_ in range(1, 38):
    if f'C{n_:02d}' not in SKIP and n_ not in (27, 28, 29, 31, 32, 35):
        calls_ob(f'C{n_:02d}')
        config_ob(f'C{n_:02d}')
