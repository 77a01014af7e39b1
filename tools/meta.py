#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/table*.py."""
import glob
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = {}, {}


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                     why_tests_cant=why,
                     anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})
    if technique:
        PROPS[id]['_t'] = technique
    if note:
        PROPS[id]['_n'] = note


def na(id, reason):
    NA[id] = reason


for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'table*.py'))):
    exec(compile(open(f).read(), f, 'exec'))

TECH = ('abstract interpretation of the source over a value-numbering term domain (normal forms of tensor '
        'expressions with symbolic sizes), all paths')
NOTE = ('Sound for the modelled semantics: every obligation is decided on all abstract paths, for all sizes and values, '
        'over real arithmetic. Trusts the primitive models in engine/. A construct the analysis cannot model is '
        'printed as UNDECIDED and counted in the evidence, never reported as a violation.')
ids = sorted(PROPS)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
    for i in ids:
        o.write(json.dumps({k: v for k, v in PROPS[i].items() if k[0] != '_'}) + '\n')
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}',
                   'thorough_cmd': f'python3 check.py {i} --thorough',
                   'technique': PROPS[i].get('_t', TECH), 'level': 'other', 'level_note': PROPS[i].get('_n', NOTE)})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA[i]} for i in sorted(NA)],
     'notes': 'Pure-Python static analysis; nothing is built or imported from /repo, its source is parsed on every run.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
