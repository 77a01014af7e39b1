"""Concrete sizes: an obligation which symbolic sizes leave undecided is posed again for
these sizes.  A difference there is a counterexample; agreement leaves it undecided."""

SIZES = [
    dict(A1=2, A2=3, B=2, N=3, I=2, C=3, P=3, R=2, S=3, T=5, K=2, U=2, H1=2, H2=3, Q=2,
         Q1=2, Q2=2, Q3=3, Q4=2, Q5=2, Q6=2, Q7=2),
    dict(A1=3, A2=2, B=4, N=2, I=3, C=2, P=4, R=3, S=2, T=3, K=4, U=2, H1=3, H2=2, Q=3,
         Q1=3, Q2=2, Q3=2, Q4=2, Q5=3, Q6=2, Q7=2, N1=2, N2=3, N3=2, N4=2, M0=3, M1=2),
]

# posed for symbolic sizes only (their wording is about symbolic shapes, or the
# expansion over concrete sizes is too large)
EXEMPT_PROPERTIES = {'C07', 'C08', 'C26', 'C30', 'C31', 'C33'}
EXEMPT = {('C16', k) for k in ('weight-sample-precomputed', 'weight-sample-lazy', 'weight-sample-option',
                               'weight-sample-batched', 'weight-sample-modes', 'normal-like')}
EXEMPT |= {('C10', f'evaluation-{s}-{p}') for s in ('linear', 'nonlinear') for p in ('none', 'mc_bridge')}


def exempt(o):
    return o.pid in EXEMPT_PROPERTIES or (o.pid, o.key) in EXEMPT


def pose(pid, keys, limit=200):
    """{key: result} for the obligations violated at one of the size assignments."""
    import json
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = {}
    for n in range(len(SIZES)):
        try:
            r = subprocess.run([sys.executable, os.path.join(here, 'check.py'), '--sizes', str(n), pid, *keys],
                               capture_output=True, text=True, timeout=limit)
            res = json.loads(r.stdout.splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            continue
        for x in res:
            x['sizes'] = n
            if x['status'] == 'violated':
                out.setdefault(x['key'], x)
    return out
