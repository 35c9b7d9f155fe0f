#!/usr/bin/env python3
"""sweep.py [-n N] [-s SEED] [PROP..]: deletes statements and bends conditions
(tools/qgen with QMUT) in the functions the checks analyse and shows what no
check of the functions concerned notices."""
import collections
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
os.environ['QMUT'] = '1'
import quiet
from quiet import V, REPO, bare, sites, apply, facts


def one(s, props, tus):
    d = tempfile.mkdtemp(prefix='sweep')
    try:
        shutil.copytree(REPO + '/src', d + '/src')
        os.symlink(REPO + '/3rdparty', d + '/3rdparty')
        apply(d, [s])
        fl = [x.replace(REPO, d) for x in facts.flags()]
        k = subprocess.run(['clang++', '-fsyntax-only'] + fl + [d + '/src/' + s['tu']], capture_output=True, text=True)
        if k.returncode:
            return 'nocompile', None
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d, VERIF_CACHE=d + '/c')
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p], capture_output=True, text=True, env=env)
            if r.returncode == 1:
                return 'caught', p
        return 'missed', ' '.join(props)
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    n, seed, sel = 100, 1, []
    while a:
        x = a.pop(0)
        if x == '-n':
            n = int(a.pop(0))
        elif x == '-s':
            seed = int(a.pop(0))
        else:
            sel.append(x)
    evd = os.environ.get('VERIF_EVIDENCE', V + '/evidence')
    allp = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    ev = {p: json.load(open('%s/%s.json' % (evd, p)))['coverage'] for p in allp}
    by = collections.defaultdict(list)
    for p in allp:
        if p in ('X01', 'X02', 'X03'):
            continue
        for f in ev[p]['functions_analysed']:
            by[bare(f)].append(p)
    tus = sorted({t for p in sel or allp for t in ev[p]['translation_units']})
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sites, tus))
    pool = {}
    for t in tus:
        for s in sites(t):
            if s['kind'].startswith('m_') and bare(s['fn']) in by and (not sel or set(sel) & set(by[bare(s['fn'])])):
                pool.setdefault((s['file'], s['kind'], json.dumps(s['edits'])), dict(s, tu=t))
    pool = [pool[k] for k in sorted(pool)]
    random.Random(seed).shuffle(pool)
    print('%d sites' % len(pool), flush=True)
    stat = collections.Counter()

    def job(s):
        ps = by[bare(s['fn'])]
        ps = sorted(ps, key=lambda p: (s['tu'] not in ev[p]['translation_units'], len(ev[p]['translation_units'])))
        return s, one(s, ps, tus)
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        for f in cf.as_completed([ex.submit(job, s) for s in pool[:n]]):
            s, (r, w) = f.result()
            stat[r] += 1
            if r == 'missed':
                e = s['edits'][0]
                b = open(e['file'], 'rb').read()
                print('MISSED %s %s:%d %s [%s]\n    %s' % (s['kind'], os.path.relpath(s['file'], REPO + '/src'), s['line'], s['fn'], w,
                      b[e['off']:e['off'] + max(e['len'], 1)].decode(errors='replace').replace('\n', ' ')[:160]), flush=True)
    print(dict(stat))


if __name__ == '__main__':
    main()
