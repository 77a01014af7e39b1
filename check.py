#!/usr/bin/env python3
"""check.py <ID> [--thorough] : decide the obligations of one property."""
import sys
sys.dont_write_bytecode = True
import importlib, glob, json, os, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'props', 'p_*.py'))):
        importlib.import_module('props.' + os.path.basename(f)[:-3])
    from props import base
    base.again()
    return base


def at_sizes():
    """check.py --sizes N ID KEY... : the same obligations posed for one assignment of
    sizes (the fallback for obligations the symbolic sizes leave undecided)."""
    from engine import terms as T
    from props import sizes
    T.SIZES = sizes.SIZES[int(sys.argv[2])]
    b = load()
    keys = set(sys.argv[4:])
    obs = [o for o in b.OBS if o.again is None and (sys.argv[3] in ('all', o.pid)) and (not keys or o.key in keys)
           and not sizes.exempt(o)]
    for o in obs:
        o.limit = min(o.limit, 60)
    out = b.run_all(obs, jobs=os.cpu_count() or 4)
    print(json.dumps([{k: r[k] for k in ('pid', 'key', 'status', 'messages', 'path', 'seconds')} for r in out]))


def main():
    if sys.argv[1:2] == ['--sizes']:
        return at_sizes()
    b = load()
    if sys.argv[1:] == ['--selftest']:
        print(len(b.OBS), 'obligations for', len({o.pid for o in b.OBS}), 'properties')
        return
    from props import report
    report.main(b, sys.argv[1:])


if __name__ == '__main__':
    main()
