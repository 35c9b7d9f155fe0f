#!/usr/bin/env python3
"""quiet.py [-n TRIALS] [-b BATCH] [-s SEED] [-k KINDS] [PROP..]: applies random
behaviour-preserving rewritings (tools/qgen) to the functions a check analyses
and shows every single rewriting after which it is not quiet."""
import collections
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import facts
REPO = facts.REPO
GEN = os.environ.get('QGEN', '/tmp/qgen')


def bare(q):
    q = q.replace('(anonymous namespace)::', '')
    q = q.split('@')[0] if '<' not in q.split('@')[0] or q.split('@')[0].count('<') == q.split('@')[0].count('>') else q
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return r
        q = r


_sites = {}


def sites(tu):
    if tu not in _sites:
        r = subprocess.run([GEN, REPO + '/src', REPO + '/src/' + tu, '--'] + facts.flags(), capture_output=True, text=True)
        _sites[tu] = [json.loads(l) for l in r.stdout.splitlines()]
    return _sites[tu]


def apply(d, ss):
    by = collections.defaultdict(list)
    for s in ss:
        for e in s['edits']:
            by[e['file']].append(e)
    for f, es in by.items():
        p = d + f[len(REPO):]
        b = open(f, 'rb').read()
        last = None
        for e in sorted(es, key=lambda e: (e['off'], e['len'] > 0), reverse=True):
            if last is not None and e['off'] + e['len'] > last:
                return False
            b = b[:e['off']] + e['text'].encode() + b[e['off'] + e['len']:]
            last = e['off']
        open(p, 'wb').write(b)
    return True


def run(prop, ss, tus):
    d = tempfile.mkdtemp(prefix='quiet')
    try:
        shutil.copytree(REPO + '/src', d + '/src')
        os.symlink(REPO + '/3rdparty', d + '/3rdparty')
        if not apply(d, ss):
            return 'overlap', ''
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
        env.pop('VERIF_CACHE', None)
        if len(tus) > 8:
            env['VERIF_CACHE'] = '/tmp/qcache'
        try:
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), prop], capture_output=True, text=True, env=env, timeout=900)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        if r.returncode == 0:
            return 'ok', ''
        fl = [x.replace(REPO, d) for x in facts.flags()]
        for tu in tus:
            if len(tus) > 8 and not any(s['file'].endswith(('.hpp', tu)) for s in ss):
                continue
            k = subprocess.run(['clang++', '-fsyntax-only'] + fl + [d + '/src/' + tu], capture_output=True, text=True)
            if k.returncode:
                return 'nocompile', k.stderr[-400:]
        return 'rc%d' % r.returncode, (r.stdout + r.stderr)[-700:]
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    n, b, seed = 30, 3, 1
    sel, kinds = [], None
    while a:
        x = a.pop(0)
        if x == '-n':
            n = int(a.pop(0))
        elif x == '-b':
            b = int(a.pop(0))
        elif x == '-s':
            seed = int(a.pop(0))
        elif x == '-k':
            kinds = set(a.pop(0).split(','))
        else:
            sel.append(x)
    props = sel or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    evd = os.environ.get('VERIF_EVIDENCE', V + '/evidence')
    jobs = []
    want = {tu for p in props for tu in json.load(open('%s/%s.json' % (evd, p)))['coverage']['translation_units']}
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sites, sorted(want)))
    for p in props:
        ev = json.load(open('%s/%s.json' % (evd, p)))['coverage']
        fns = {bare(f) for f in ev['functions_analysed']}
        tus = ev['translation_units']
        pool = {}
        for tu in tus:
            for s in sites(tu):
                if bare(s['fn']) in fns and (not kinds or s['kind'] in kinds):
                    pool.setdefault((s['file'], s['kind'], json.dumps(s['edits'])), s)
        pool = list(pool.values())
        rnd = random.Random('%s%s' % (p, seed))
        rnd.shuffle(pool)
        # every kind of rewriting gets its turn
        bykind = collections.defaultdict(list)
        for s in pool:
            bykind[s['kind']].append(s)
        order = []
        while any(bykind.values()):
            for k in sorted(bykind):
                if bykind[k]:
                    order.append(bykind[k].pop())
        order = order[:n * b]
        rnd.shuffle(order)
        print('%s: %d sites, %d tried' % (p, len(pool), len(order)), flush=True)
        for i in range(0, len(order), b):
            jobs.append((p, order[i:i + b], tus))

    def job(j):
        p, ss, tus = j
        r, out = run(p, ss, tus)
        res = []
        if r != 'ok':
            for s in ss:
                x, o = run(p, [s], tus)
                res.append((s, x, o))
            if not any(x.startswith('rc') or x == 'timeout' for _, x, _ in res) and r.startswith('rc'):
                res.append((dict(ss[0], kind='+'.join(s['kind'] + '@%s:%d' % (os.path.basename(s['file']), s['line']) for s in ss)), r, out))
        return p, res
    random.Random(seed).shuffle(jobs)
    stat = collections.Counter()
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        for p, res in (f.result() for f in cf.as_completed([ex.submit(job, j) for j in jobs])):
            for s, x, o in res:
                stat[x] += 1
                if x.startswith('rc') or x == 'timeout':
                    print('%s %s %s %s:%d %s\n    %s' % (p, x, s['kind'], os.path.relpath(s['file'], REPO + '/src'), s['line'], s['fn'], o.strip().replace('\n', '\n    ')[:900]), flush=True)
    print(dict(stat))


if __name__ == '__main__':
    main()
