#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current sources."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True
import lib
from interp import dump_items

MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'rules'))) if f.startswith('r_') and f.endswith('.py')]


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['known']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for m in MODULES:
        importlib.import_module(m)
    fn, meta = lib.REGISTRY[pid]
    c = lib.Check(pid, tier, seed)
    try:
        c.load(*meta['files'])
        fn(c)
    except lib.Anchor as x:
        print('CANNOT DECIDE property=%s: %s' % (pid, x))
        if not c.viol:
            return 2
    if not c.obs:
        print('CANNOT DECIDE property=%s: no obligation was generated' % pid)
        return 2
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = [k for k in known_findings() if k['property'] == pid]
    unknown = []
    for (key, rule, where, why, path) in c.viol:
        k = next((k for k in known if k['rule'] == rule and k['at'] in where and k.get('why', '') in why), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            unknown.append((rule, where, why, path))
    replay = os.path.join(ev, pid + '.violations.txt')
    if os.path.exists(replay):
        os.remove(replay)
    if unknown:
        with open(replay, 'w') as f:
            out = sys.stdout
            sys.stdout = f
            try:
                for rule, where, why, path in unknown:
                    print('property: %s\nrule: %s\nat: %s\nwhat: %s' % (pid, rule, where, why))
                    if path is not None:
                        print('path:')
                        path.dump()
                    print('-' * 70)
            finally:
                sys.stdout = out
        for rule, where, why, path in unknown[:20]:
            print('%s: %s: %s' % (where, rule, why))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    rep = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the resolved syntax tree of the current sources: every path of the listed functions '
                           '(loops summarised over a generic element) is abstractly interpreted and each obligation below is decided on it.',
            'translation_units': c.tus,
            'functions_analysed': sorted(x.split('(')[0] for x in c.functions)[:400],
            'functions': len(c.functions), 'paths': c.paths,
            'obligations': c.obs, 'discharged': c.ok,
            'rules': c.rules, 'samples': c.samples,
        },
        'assumptions': meta.get('assumptions', []),
        'violations': len(unknown),
        'wall_s': round(time.time() - c.t0, 2),
    }
    json.dump(rep, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d paths, %.1fs' % (pid, c.obs, c.ok, len(c.functions), c.paths, time.time() - c.t0))
    return 1 if unknown else 0


if __name__ == '__main__':
    try:
        r = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        r = 3
    sys.exit(r)
