"""Run the obligations of one property, print the verdicts, write the evidence."""
import argparse
import json
import os
import sys
import time

from props import sizes

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'the abstract semantics of Python and of the JAX/NumPy primitives in /verif/engine (lib*.py)',
    'real arithmetic: floating-point rounding, overflow and hardware reduction order are abstracted away',
    'user callables (model_fn, custom losses) are deterministic pure functions, differentiable where they are differentiated',
]


def known_findings():
    """{property: [(key, text)]} of the recorded (not repaired) findings."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('KNOWN-FINDING:'):
                continue
            f = dict(x.split('=', 1) for x in line.split()[1:3])
            out.setdefault(f['property'], []).append((f['key'], line.split(None, 3)[3]))
    return out


def main(base, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args(argv)
    thorough = a.thorough or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    pid = a.property
    obs = [o for o in base.OBS if o.pid == pid and (thorough or o.tier == 'quick')]
    if not obs:
        print(f'ERROR no obligations registered for {pid}')
        sys.exit(2)
    if thorough:
        for o in obs:
            o.limit, o.paths = o.limit * 4, o.paths * 8
    res = base.run_all(obs, jobs=os.cpu_count() or 4)
    by_key = {o.key: o for o in obs}
    posed = [r['key'] for r in res if by_key[r['key']].again is None and not sizes.exempt(by_key[r['key']])
             and (thorough or r['status'] == 'undecided')]
    if posed:
        bad = sizes.pose(pid, posed, 900 if thorough else 200)
        for r in res:
            x = bad.get(r['key'])
            if x is not None and r['status'] != 'violated':
                r['status'], r['path'] = 'violated', x['path']
                r['messages'] = [f'for sizes {sizes.SIZES[x["sizes"]]}: ' + m for m in x['messages']]
    known = dict(known_findings().get(pid, []))
    viol, found = [], []
    for r in res:
        st = r['status']
        if st == 'violated' and r['key'] in known:
            found.append(r)
            st = 'known finding'
        elif st == 'violated':
            viol.append(r)
        s = r['stats']
        print(f"{st.upper():10} {r['key']}  [{r['construct']}]  paths={s['paths']} checks={s['checks']} "
              f"equalities={s['equalities']} {r['seconds']}s")
        if r['status'] != 'holds':
            for m in r['messages']:
                print('     ', m)
            for p in r['path']:
                print('      path:', p)
    tot = {k: sum(r['stats'][k] for r in res) for k in ('checks', 'equalities', 'proved', 'random', 'paths')}
    funcs = {}
    for r in res:
        for k, v in r['stats']['functions'].items():
            funcs[k] = funcs.get(k, 0) + v
    n = {s: sum(r['status'] == s for r in res) for s in ('holds', 'violated', 'undecided')}
    print(f"{pid}: {len(res)} obligations, {n['holds']} hold, {n['violated']} violated, {n['undecided']} undecided; "
          f"{tot['paths']} abstract paths through {len(funcs)} functions of /repo, {tot['equalities']} equalities "
          f"({tot['proved']} by normal form, {tot['random']} by random interpretation)")
    wall = round(time.time() - t0, 2)
    ev = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'wall_s': wall, 'violations': len(viol), 'assumptions': TRUSTED,
        'coverage': {
            'explanation': 'Abstract interpretation of /repo\'s current source over a value-numbering term domain; each '
                           'obligation is one rule about one construct, decided on every abstract path.',
            'obligations': len(res), 'discharged': n['holds'], 'undecided': n['undecided'],
            'abstract_paths': tot['paths'], 'rule_checks': tot['checks'],
            'equalities': tot['equalities'], 'equal_by_normal_form': tot['proved'],
            'posed_again_for_concrete_sizes': len(posed),
            'equal_by_random_interpretation': tot['random'],
            'functions_analysed': dict(sorted(funcs.items())),
            'instances': [{'key': r['key'], 'construct': r['construct'], 'rule': r['rule'], 'status': r['status'],
                           'paths': r['stats']['paths'], 'checks': r['stats']['checks'],
                           'messages': r['messages'][:4]} for r in res],
        },
    }
    d = os.environ.get('VERIF_EV') or os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in found:
        print(f"KNOWN-FINDING: property={pid} {r['key']}: {known[r['key']]}")
    if viol:
        rp = os.path.join(d, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for r in viol:
                f.write(f"obligation {r['key']}\nconstruct  {r['construct']}\nrule       {r['rule']}\n")
                for m in r['messages']:
                    f.write(f'finding    {m}\n')
                for p in r['path']:
                    f.write(f'path       {p}\n')
                f.write('\n')
        print(f'VIOLATION property={pid} replay={rp}')
        sys.exit(1)
    if n['holds'] + len(found) == 0:
        print(f'ERROR no obligation of {pid} could be decided')
        sys.exit(2)
    sys.exit(0)
