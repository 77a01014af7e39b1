"""Obligation framework: path exploration, verdicts, forked execution."""
import ast
import linecache
import os
import resource
import signal
import sys
import time
import traceback

from engine.api import *                       # noqa: F401,F403
from engine import terms as T, interp as I, lib3, numeric
from engine.randeval import compare
from engine.interp import AnchorMissing

ROOT = os.environ.get('LAPLAX_ROOT', '/repo')
OBS = []          # registered obligations


class Ob:
    def __init__(self, pid, key, construct, rule, body, tier, limit, paths, again=None):
        self.again = again           # the obligation this one repeats after other calls
        self.pid, self.key, self.construct, self.rule = pid, key, construct, rule
        self.body, self.tier, self.limit, self.paths = body, tier, limit, paths


def ob(pid, key, construct, rule, tier='quick', limit=120, paths=64):
    def d(f):
        assert not any(o.key == key and o.pid == pid for o in OBS), key
        OBS.append(Ob(pid, key, construct, rule, f, tier, limit, paths))
        return f
    return d


class Violated(Exception):
    pass


class Undecided(Exception):
    pass


class Timeout(BaseException):
    pass


class Ctx:
    """One abstract execution path of one obligation."""

    def __init__(self, it, stats):
        self.it, self.stats = it, stats
        self.monitor = None
        self.own_writes = set()      # shared objects the obligation itself changes
        self.returned = []           # mappings the analysed code returned to the obligation

    # -- program access
    def get(self, dotted):
        return self.it.get(dotted)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.get(f)
        if self.monitor is not None:
            r = self.monitor(self, f, list(a), k)
        else:
            r = self.it.call(f, list(a), k)
        self.returned += [x for x in (r if isinstance(r, tuple) else (r,)) if isinstance(x, dict)]
        return r

    def facts(self):
        out = []
        for pid_, v in self.it.facts.items():
            for p in (self.it.fact_polys.get(pid_),):
                if p is not None:
                    out.append((p, v))
        return out

    def path(self):
        return [f'{"" if c == 0 else "not "}{lab}' for c, n, lab in self.it.oracle.log]

    def stub(self, dotted, f):
        """Replace a function by a summary (before its module is loaded)."""
        b = Builtin(dotted.rsplit('.', 1)[1], f)
        self.it.stubs[dotted] = b
        return b

    def undecided(self, msg):
        raise Undecided(msg)

    # -- checks
    def fail(self, msg):
        raise Violated(msg)

    def ok(self, cond, msg):
        self.stats['checks'] += 1
        if not cond:
            raise Violated(msg)

    def eq(self, got, want, what='value'):
        """Structures of arrays must be equal for every size and every input."""
        if isinstance(want, dict):
            self.ok(isinstance(got, dict) and set(got) == set(want),
                    f'{what}: expected a mapping with keys {sorted(map(str, want))}, got {brief(got)}')
            for k in want:
                self.eq(got[k], want[k], f'{what}[{k!r}]')
            return
        if isinstance(want, (list, tuple)):
            self.ok(isinstance(got, (list, tuple)) and len(got) == len(want),
                    f'{what}: expected a sequence of length {len(want)}, got {brief(got)}')
            for n, (g, w) in enumerate(zip(got, want)):
                self.eq(g, w, f'{what}[{n}]')
            return
        if want is None or isinstance(want, (str, bool)):
            if not isinstance(got, Arr):
                self.ok(got is want or got == want, f'{what}: expected {want!r}, got {brief(got)}')
                return
        if isinstance(got, (dict, list, tuple, str)) or got is None:
            raise Violated(f'{what}: expected an array, got {brief(got)}')
        try:
            g, w = asarr(got), asarr(want)
        except (Unmodelled, AbsRaise):
            raise Undecided(f'{what}: not an array value: {brief(got)}')
        self.stats['checks'] += 1
        if g.ndim != w.ndim:
            raise Violated(f'{what}: expected rank {w.ndim} {list(w.axes)}, got rank {g.ndim} {list(g.axes)}')
        for n, (x, y) in enumerate(zip(g.axes, w.axes)):
            if x.dim is not y.dim and not T.equal(x.dim, y.dim):
                v, wit = compare(x.dim, y.dim, self.facts())
                if v == 'differ':
                    raise Violated(f'{what}: axis {n} has size {show(x.dim)}, expected {show(y.dim)}')
        axes = [x if rank_struct(x) >= rank_struct(y) else y for x, y in zip(g.axes, w.axes)]
        for combo in itertools.product(*[cells(x) for x in axes]):
            idx = tuple(i for _, i in combo)
            self.same(g.at(*idx), w.at(*idx), what + ('[' + ','.join(map(show, idx)) + ']' if idx else ''))

    def same(self, p, q, what):
        self.stats['equalities'] += 1
        if T.equal(p, q):
            self.stats['proved'] += 1
            return
        v, wit = compare(p, q, self.facts())
        if v == 'equal':
            self.stats['random'] += 1
            return
        if v == 'differ':
            raise Violated(f'{what}: normal form is {cut(show(p))} but the property requires {cut(show(q))} ({wit})')
        raise Undecided(f'{what}: normal forms differ, {wit}')

    def ne(self, got, want, what):
        g, w = asarr(got), asarr(want)
        if arr_equal(g, w) is None:
            raise Violated(what)

    def raises(self, thunk, *types, what='call'):
        """The abstract execution must raise one of the types."""
        self.stats['checks'] += 1
        try:
            r = thunk()
        except AbsRaise as e:
            if types and not any(isinstance_exc(e, t) for t in types):
                raise Violated(f'{what}: raises {exc_name(e)} instead of {"/".join(t.__name__ for t in types)}')
            return e
        raise Violated(f'{what}: does not raise (returns {brief(r)})')

    def attempt(self, thunk):
        """(value, None) or (None, AbsRaise)."""
        try:
            return thunk(), None
        except AbsRaise as e:
            return None, e


def cut(s, n=700):
    return s if len(s) <= n else s[:n] + '…'


def brief(v):
    try:
        if isinstance(v, Arr):
            return cut(show_arr(v), 300)
        return cut(repr(v), 200)
    except Exception:     # noqa: BLE001
        return f'<{type(v).__name__}>'


def exc_name(e):
    return str(e)[:300]


def isinstance_exc(e, t):
    x = getattr(e, 'cls', None)
    if isinstance(x, type):
        return issubclass(x, t)
    return any(isinstance(b, type) and issubclass(b, t) for b in getattr(x, 'mro', ()) or ())


class NoWarm(Exception):
    pass


WARM = [0]


def other(v, depth=0):
    """An argument of the same kind with different values."""
    if isinstance(v, Arr):
        if v.dtype == 'key':
            return v
        if v.dtype not in ('float', 'float32', 'float64'):
            return v
        WARM[0] += 1
        name = f'warm{WARM[0]}'
        try:
            pos = T.pos_poly(v.at(*[fresh(a.dim) for a in v.axes]))
        except Exception:     # noqa: BLE001
            pos = False
        o = opaque(name, *v.axes, props=('pos',) if pos else ())
        o.dtype = v.dtype
        return o
    if v is None or isinstance(v, (str, bool, int, I.DT, Builtin, Func, I.BoundM, I.ExtV, I.EnumMember, I.ClassV, I.TypeTok)):
        return v
    if isinstance(v, (float, Q)):
        return v * 2 if v else v
    if depth > 6:
        raise NoWarm()
    if type(v) in (dict,):
        return {k: other(x, depth + 1) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v)(other(x, depth + 1) for x in v)
    if isinstance(v, I.PartialV):
        return v
    if isinstance(v, I.Inst):
        o = I.Inst(v.cls)
        for k, x in v.attrs.items():
            o.attrs[k] = other(x, depth + 1)
        return o
    raise NoWarm()


def notes():
    """Contents of the lists and dictionaries the obligation keeps its observations in."""
    out, seen, fr = [], set(), sys._getframe(2)

    def walk(v, depth=0):
        if id(v) in seen or depth > 3:
            return
        if type(v) in (list, dict, set):
            seen.add(id(v))
            out.append((v, v.copy()))
        if type(v) in (list, tuple):
            for x in v[:20]:
                walk(x, depth + 1)
        elif type(v) is dict:
            for x in list(v.values())[:50]:
                walk(x, depth + 1)
        elif isinstance(v, Builtin):
            walk(v.f, depth)
        elif callable(v) and getattr(v, '__closure__', None):
            for cell in v.__closure__:
                try:
                    walk(cell.cell_contents, depth + 1)
                except ValueError:
                    pass
    while fr is not None and fr.f_code.co_name != 'explore_paths':
        if '/props/' in fr.f_code.co_filename:
            for v in list(fr.f_locals.values()):
                walk(v)
        fr = fr.f_back
    return out


def restore(saved):
    for v, old in saved:
        if type(v) is list:
            v[:] = old
        else:
            v.clear()
            v.update(old)


def warmed(c, f, a, k):
    """Call f with other values first, then as asked."""
    g = f
    while isinstance(g, I.PartialV):
        g = g.func
    if isinstance(g, (Func, I.BoundM)):
        saved = notes()
        effects = list(c.it.effects)
        try:
            a2, k2 = other(list(a)), other(dict(k))
            c.it.call(f, a2, k2)
            c.stats['checks'] += 1
        except (NoWarm, AbsRaise, Unmodelled, Violated, Undecided):
            pass
        c.it.effects[:] = effects
        restore(saved)
    return c.it.call(f, a, k)


def again():
    """For every obligation: the same obligation with every call preceded by one with other values."""
    for o in list(OBS):
        if o.again is None and o.tier == 'quick' and o.pid not in NO_AGAIN and (o.pid, o.key) not in NO_AGAIN:
            OBS.append(Ob(o.pid, o.key + '@again', o.construct, o.rule + ' (also after calls with other values)', o.body, o.tier, o.limit, o.paths, again=o))


NO_AGAIN = {"C07", "C08", "C26", "C31", "C33",
            ("C11", "wrap-jit-False"), ("C11", "wrap-jit-True")}      # loaders that count their iterations


def explore(ob_, stats):
    """Run the obligation on every abstract path.  Returns (status, messages)."""
    if ob_.again is not None:
        st, msgs, path, it = explore_paths(ob_, stats)
        if st == 'violated':
            st0, _, _, _ = explore_paths(ob_.again, new_stats())
            if st0 == 'holds':
                return st, ['after calls with other values: ' + m for m in msgs], path, it
            return 'holds', [], [], None         # reported by the obligation itself
        return st, msgs, path, it
    return explore_paths(ob_, stats)


def missing_entry(e, c):
    """Was the missing key looked up, by an obligation, in a mapping the analysed code returned?"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame
    if os.path.dirname(f.f_code.co_filename) != os.path.dirname(os.path.abspath(__file__)):
        return False
    line, end, a, z = list(f.f_code.co_positions())[tb.tb_lasti // 2]
    if line is None or line != end:
        return False
    text = linecache.getline(f.f_code.co_filename, line).encode()[a:z].decode()
    try:
        n = ast.parse(text.strip(), mode='eval').body
    except SyntaxError:
        return False
    if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)):
        return False
    d = f.f_locals.get(n.value.id)
    return any(d is x for x in c.returned)


def explore_paths(ob_, stats):
    stack, n = [[]], 0
    und = []
    while stack:
        prefix = stack.pop()
        n += 1
        if n > ob_.paths:
            und.append(f'more than {ob_.paths} paths')
            break
        numeric.reset()
        it = Interp(ROOT)
        lib3.CFG = it.config
        it.oracle = I.Oracle(prefix)
        c = Ctx(it, stats)
        if ob_.again is not None:
            c.monitor = warmed
        stats['paths'] += 1
        try:
            ob_.body(c)
        except Violated as e:
            return 'violated', [str(e)], c.path(), it
        except AbsRaise as e:
            return 'violated', [f'abstract execution raises {exc_name(e)} at {getattr(e, "where", None) or it.where()}'], c.path(), it
        except (Unmodelled, Undecided) as e:
            und.append(f'{type(e).__name__}: {e} at {it.where()}')
        except AnchorMissing as e:
            und.append(f'anchor missing: {e}')
        except RecursionError:
            und.append('recursion limit of the analyser')
        except KeyError as e:
            if not missing_entry(e, c):
                raise
            return 'violated', [f'the result has no entry {e}'], c.path(), it
        finally:
            for k, v in it.analysed.items():
                stats['functions'][k] = stats['functions'].get(k, 0) + v
        log = it.oracle.log
        for i in range(len(prefix), len(log)):
            ch, m, _ = log[i]
            for alt in range(ch + 1, m):
                stack.append([x[0] for x in log[:i]] + [alt])
    return ('undecided' if und else 'holds'), und, [], None


def replay(ob_, stats, setup, finish):
    """Abstract executions of another obligation, watched instead of judged: its own
    verdict is ignored here.  finish(c) runs at the end of every path."""
    stack, n = [[]], 0
    while stack and n < 8:
        prefix = stack.pop()
        n += 1
        numeric.reset()
        it = Interp(ROOT)
        lib3.CFG = it.config
        it.oracle = I.Oracle(prefix)
        c = Ctx(it, new_stats())
        setup(c)
        stats['paths'] += 1
        try:
            ob_.body(c)
        except (Violated, Undecided, AbsRaise, Unmodelled, AnchorMissing, RecursionError):
            pass
        for k, v in it.analysed.items():
            stats['functions'][k] = stats['functions'].get(k, 0) + v
        finish(c)
        log = it.oracle.log
        for i in range(len(prefix), len(log)):
            ch, m, _ = log[i]
            for alt in range(ch + 1, m):
                stack.append([x[0] for x in log[:i]] + [alt])


def new_stats():
    return {'checks': 0, 'equalities': 0, 'proved': 0, 'random': 0, 'paths': 0, 'functions': {}}


def run_here(ob_):
    stats = new_stats()
    t = time.time()

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, ob_.limit)      # processor time: a loaded machine decides the same
    try:
        st, msgs, path, it = explore(ob_, stats)
    except Timeout:
        st, msgs, path = 'undecided', [f'time limit {ob_.limit}s'], []
    except MemoryError:
        st, msgs, path = 'undecided', ['memory limit'], []
    except Exception as e:      # noqa: BLE001  analyser defect: never an alarm
        tb = traceback.extract_tb(e.__traceback__)[-1]
        st, msgs, path = 'undecided', [f'analyser error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})'], []
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {'key': ob_.key, 'pid': ob_.pid, 'construct': ob_.construct, 'rule': ob_.rule, 'status': st,
            'messages': msgs, 'path': path, 'stats': stats, 'seconds': round(time.time() - t, 2)}


def run_all(obs, jobs=8):
    """Each obligation in its own forked process (shares nothing with the others)."""
    import pickle
    sys.setrecursionlimit(20000)
    todo = list(enumerate(obs))
    out = [None] * len(obs)
    live = {}
    while todo or live:
        while todo and len(live) < jobs:
            n, o = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    res = run_here(o)
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, n, o, [], time.time())
        import select
        rd, _, _ = select.select(list(live), [], [], 5)
        for r in rd:
            pid, n, o, buf, t0 = live[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out[n] = pickle.loads(b''.join(buf))
            except Exception:      # noqa: BLE001
                out[n] = {'key': o.key, 'pid': o.pid, 'construct': o.construct, 'rule': o.rule, 'status': 'undecided',
                          'messages': ['analysis process died'], 'path': [], 'stats': new_stats(), 'seconds': 0}
        for r in list(live):
            pid, n, o, buf, t0 = live[r]
            if time.time() - t0 > 3 * o.limit + 30:
                os.kill(pid, signal.SIGKILL)
    return out
