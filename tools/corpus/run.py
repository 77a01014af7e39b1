#!/usr/bin/env python3
"""run.py FILE.py... [NAME-SUBSTR]: apply each edit of a corpus file to a scratch copy of /repo/laplax and run checks on it.

A corpus file calls bug(name, 'PID ...', [(file, old, new)...]) and ref(name, 'PID ...'|'*', edits).
An edit (file, '@function', source) replaces a whole function.
Reports bugs that no listed check reports, and behaviour-preserving edits that raise an alarm or lose an obligation."""
import ast, json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
ITEMS = []
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def bug(name, pids, edits): ITEMS.append(('bug', name, pids, edits))
def ref(name, pids, edits): ITEMS.append(('ref', name, pids, edits))


def run(item):
    kind, name, pids, edits = item
    d = tempfile.mkdtemp(prefix='corp')
    try:
        shutil.copytree('/repo/laplax', d + '/laplax', ignore=shutil.ignore_patterns('__pycache__'))
        for f, o, n, *nth in edits:
            p = f'{d}/laplax/{f}'
            s = open(p).read()
            if o.startswith('@'):                               # the (nth) function of this name
                defs = [x for x in ast.walk(ast.parse(s)) if isinstance(x, ast.FunctionDef) and x.name == o[1:]]
                if not defs:
                    return f'BADEDIT {name}: no function {o[1:]}'
                x = sorted(defs, key=lambda x: x.lineno)[nth[0] if nth else 0]
                L = s.splitlines(keepends=True)
                at = min([x.lineno] + [q.lineno for q in x.decorator_list]) - 1
                new = textwrap.indent(textwrap.dedent(n).strip('\n') + '\n', ' ' * x.col_offset)
                open(p, 'w').write(''.join(L[:at]) + new + ''.join(L[x.end_lineno:]))
                continue
            if nth and len(ps := s.split(o)) > nth[0] + 1:      # the nth occurrence only
                open(p, 'w').write(o.join(ps[:nth[0] + 1]) + n + o.join(ps[nth[0] + 1:]))
                continue
            if s.count(o) != 1:
                return f'BADEDIT {name}: {s.count(o)} matches of {o!r}'
            open(p, 'w').write(s.replace(o, n))
        for f, *_ in edits:
            try:
                compile(open(f'{d}/laplax/{f}').read(), f, 'exec')
            except SyntaxError as e:
                return f'BADEDIT {name}: {e}'
        out, rcs = [], {}
        for pid in (ALL if pids == '*' else pids.split()):
            r = subprocess.run(['python3', V + '/check.py', pid], capture_output=True, text=True,
                               env=dict(os.environ, LAPLAX_ROOT=d, VERIF_EV=d + '/ev'))
            rcs[pid] = r.returncode
            ls = r.stdout.splitlines()
            for i, l in enumerate(ls):
                if l.startswith(('VIOLATED', 'UNDECIDED')):
                    out.append(f'    {pid} {l[:100]} :: ' + ' '.join(ls[i + 1:i + 2])[:200])
            if r.returncode not in (0, 1):
                out.append('   CRASH ' + (r.stderr + r.stdout)[-300:])
        und = sum(' UNDECIDED ' in o for o in out)
        if kind == 'bug':
            ok = 1 in rcs.values()
            head = f'bug {name} [{pids}] ' + ('caught ' + ' '.join(p for p, c in rcs.items() if c == 1) if ok else '*** MISSED ***')
        else:
            ok = not any(rcs.values())
            head = f'ref {name} [{pids}] ' + ('quiet' if ok else '*** ALARM ***') + (f' ({und} undecided)' if und else '')
        return head + ('' if ok and not und and kind == 'ref' else '\n' + '\n'.join(out[:(1 if kind == 'bug' and ok else 8)]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


pats = [a for a in sys.argv[1:] if not a.endswith('.py')]
for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
    exec(compile(open(f).read(), f, 'exec'))
with ThreadPoolExecutor(int(os.environ.get("JOBS", "5"))) as ex:
    for r in ex.map(run, [i for i in ITEMS if not pats or any(p in i[1] for p in pats)]):
        print(r, flush=True)
