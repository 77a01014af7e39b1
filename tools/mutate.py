#!/usr/bin/env python3
"""mutate.py OUT [FILE-SUBSTR...]: systematic one-node edits of /repo/laplax, each analysed (never run) with the obligations
whose abstract execution reaches the edited line.  Lists the edits no obligation reports: equivalent edits or gaps."""
import ast, os, pickle, shutil, signal, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import check
b = check.load()
from engine import interp as I

SRC = '/repo/laplax'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*', ast.FloorDiv: '*'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, z = span(n)
        return raw[a:z].decode()
    out, where = [], [0]         # where: body line of the function whose default values are edited

    def put(n, new, what):
        a, z = span(n)
        out.append((where[-1] or n.lineno, bool(where[-1]), what, (raw[:a] + new.encode() + raw[z:]).decode()))

    def boring(s):
        t = txt(s) if hasattr(s, 'lineno') else ''
        return t.startswith(('logger.', 'msg =', 'msg=', 'warnings.warn'))

    def walk(n, fn):
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'type_params', 'decorator_list'):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    where.append(n.body[-1].lineno if isinstance(c, ast.arguments) and isinstance(n, ast.FunctionDef)
                                 else 0 if isinstance(c, ast.stmt) else where[-1])
                    visit(c, fn, n)
                    where.pop()

    def visit(n, fn, parent):
        if isinstance(n, ast.stmt) and boring(n) or isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            fn = n
        t = None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f'({txt(n.left)} {CMP[type(n.ops[0])]} {txt(n.comparators[0])})', f'cmp {txt(n)}')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f'({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})', f'bin {txt(n)}')
            put(n, f'({txt(n.left)})', f'left of {txt(n)}')
            put(n, f'({txt(n.right)})', f'right of {txt(n)}')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            put(n, f'(({txt(n.right)}) @ ({txt(n.left)}))', f'swap {txt(n)}')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), f'const {n.value}')
            elif isinstance(n.value, (int, float)):
                put(n, f'({n.value} + 1)', f'const {n.value}')
            elif isinstance(n.value, str) and isinstance(parent, (ast.Call, ast.Subscript, ast.Compare, ast.Dict)):
                put(n, repr(n.value + '_'), f'const {n.value!r}')
        elif isinstance(n, ast.UnaryOp):
            put(n, f'({txt(n.operand)})', f'drop {txt(n)}')
        elif isinstance(n, ast.BoolOp):
            j = ' and ' if isinstance(n.op, ast.Or) else ' or '
            put(n, '(' + j.join(f'({txt(v)})' for v in n.values) + ')', f'bool {txt(n)}')
            for i, v in enumerate(n.values):
                put(n, f'({txt(v)})', f'only {i} of {txt(n)}')
        elif isinstance(n, ast.IfExp):
            put(n, f'({txt(n.body)})', f'then of {txt(n)}')
            put(n, f'({txt(n.orelse)})', f'else of {txt(n)}')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, f'(not ({txt(n.test)}))', f'not {txt(n.test)}')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                kt = ('**' + txt(k.value)) if k.arg is None else txt(k)
                rest = [txt(a) for a in n.args] + [('**' + txt(x.value)) if x.arg is None else txt(x) for x in n.keywords if x is not k]
                put(n, f'{txt(n.func)}({", ".join(rest)})', f'no {kt} in {txt(n)}')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a = [txt(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                a += [('**' + txt(x.value)) if x.arg is None else txt(x) for x in n.keywords]
                put(n, f'{txt(n.func)}({", ".join(a)})', f'swap {txt(n)}')
            if n.args and not isinstance(n.args[0], ast.Starred) and txt(n.func) not in ('isinstance', 'len', 'range'):
                put(n, f'({txt(n.args[0])})', f'first argument of {txt(n)}')
            if isinstance(n.func, ast.Attribute) and not n.args:
                put(n, f'({txt(n.func.value)})', f'receiver of {txt(n)}')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == 'T':
            put(n, f'({txt(n.value)})', f'no .T {txt(n)}')
        elif isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                put(n, ':', f'slice {txt(n)}')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            names = [a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg not in ('self', 'kwargs')]
            if n.id in names and len(names) > 1:
                put(n, names[(names.index(n.id) + 1) % len(names)], f'name {n.id} in {txt(parent)[:60] if hasattr(parent, "lineno") else ""}')
        elif isinstance(n, (ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call,)):
            put(n, 'pass', f'drop {txt(n)}')
        elif isinstance(n, ast.comprehension) and n.ifs:
            put(n.ifs[0], 'True', f'filter {txt(n.ifs[0])}')
        walk(n, fn)
    for s in tree.body:
        if not (isinstance(s, ast.If) and 'TYPE_CHECKING' in txt(s.test)):
            visit(s, None, tree)
    ok = []
    for line, default, what, new in out:
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                ok.append((line, default, ' '.join(what.split())[:130], new))
        except SyntaxError:
            pass
    return ok


def coverage(cache):
    """Lines reached by each obligation: {key: (seconds, {(module, line)})}."""
    if os.path.exists(cache):
        return pickle.load(open(cache, 'rb'))
    seen = set()
    cls = I.Interp
    oe, ov = cls.exec, cls.eval

    def ex(self, s, env):
        if self.frames:
            seen.add((str(getattr(self.frames[-1][0], 'name', self.frames[-1][0])), s.lineno))
        return oe(self, s, env)

    def ev(self, e, env):
        if self.frames and hasattr(e, 'lineno'):
            seen.add((str(getattr(self.frames[-1][0], 'name', self.frames[-1][0])), e.lineno))
        return ov(self, e, env)
    cls.exec, cls.eval = ex, ev
    orig = b.run_here

    def rh(o):
        seen.clear()
        r = orig(o)
        r['seen'] = set(seen)
        return r
    b.run_here = rh
    res = b.run_all([o for o in b.OBS if o.again is None], jobs=6)
    cls.exec, cls.eval = oe, ov
    b.run_here = orig
    cov = {r['pid'] + ' ' + r['key']: (r['seconds'], r.get('seen', set())) for r in res if r['status'] == 'holds'}
    pickle.dump(cov, open(cache, 'wb'))
    return cov


def judge(rel, new, obs, budget, root):
    os.makedirs(root, exist_ok=True)
    shutil.rmtree(root + '/laplax', ignore_errors=True)
    shutil.copytree(SRC, root + '/laplax', ignore=shutil.ignore_patterns('__pycache__'))
    open(f'{root}/laplax/{rel}', 'w').write(new)
    b.ROOT = root
    t, und = time.time(), 0
    for o in obs:
        if time.time() - t > budget:
            return 'SURVIVED (time)', und
        o.limit = 20
        r = b.run_here(o)
        if r['status'] == 'violated':
            return f'killed by {o.pid} {o.key}', und
        und += r['status'] == 'undecided'
    return 'SURVIVED', und


def main():
    out, pats = sys.argv[1], sys.argv[2:]
    cov = coverage('/tmp/mu/cov.pkl')
    obs = {o.pid + ' ' + o.key: o for o in b.OBS}
    jobs = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if f.endswith('.py') and (not pats or any(q in rel for q in pats)):
                mod = ('laplax.' + rel[:-3].replace('/', '.')).replace('.__init__', '')
                jobs += [(rel, mod) + m for m in mutants(p)]
    print(len(jobs), 'mutants', flush=True)
    n = int(os.environ.get('JOBS', '6'))
    live = {}
    log = open(out, 'a')
    done = {l.split(' | ')[0] for l in open(out)}
    for i, (rel, mod, line, default, what, new) in enumerate(jobs):
        tag = f'{rel}:{line} {what}'
        if os.environ.get('DEFAULTS') and not default:
            continue
        if tag in done:
            continue
        keys = sorted((s, k) for k, (s, seen) in cov.items() if (mod, line) in seen and k in obs)
        if not keys:                                     # class bodies, module level, defaults
            keys = sorted((s, k) for k, (s, seen) in cov.items() if any(m == mod for m, _ in seen) and k in obs)
        if len(keys) > 80:                               # the fastest and a spread over the rest
            keys = keys[:40] + keys[40::max(1, (len(keys) - 40) // 40)]
        while len(live) >= n:
            pid, st = os.wait()
            live.pop(pid, None)
        pid = os.fork()
        if pid == 0:
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
                root = f'/dev/shm/mu{os.getpid()}'
                r, und = judge(rel, new, [obs[k] for _, k in keys], 90, root)
                shutil.rmtree(root, ignore_errors=True)
                with open(out, 'a') as f:
                    f.write(f'{tag} | {r} | {len(keys)} obligations, {und} undecided\n')
            finally:
                os._exit(0)
        live[pid] = 1
    while live:
        pid, st = os.wait()
        live.pop(pid, None)


if __name__ == '__main__':
    main()
