#!/usr/bin/env python3
"""mutate.py [PROP..]: applies each listed edit to a scratch copy and shows
whether the property's check reacts as expected (B: break, Q: quiet)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')


def edits():
    import mutants
    return mutants.ALL


def run1(m):
    kind, prop, edlist = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run(['cp', '-r', REPO + '/src', REPO + '/3rdparty', d] if os.path.isdir(REPO + '/3rdparty') else ['cp', '-r', REPO + '/src', d], check=True)
        for f, old, new in edlist:
            p = os.path.join(d, 'src', f)
            s = open(p).read()
            if old not in s:
                return m, 'stale', f + ': ' + old
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
        env.setdefault('VERIF_CACHE', '/tmp/mutcache')
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), prop], capture_output=True, text=True, env=env)
        ok = r.returncode == (1 if kind == 'B' else 0)
        return m, 'ok' if ok else 'BAD rc=%d' % r.returncode, (r.stdout + r.stderr)[-1500 if not ok else -400:]
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    ms = [m for m in edits() if not sel or m[1] in sel]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for m, res, out in ex.map(run1, ms):
            if res != 'ok' or '-v' in sys.argv:
                bad += res != 'ok'
                print('%s %s %s: %r -> %r\n   %s' % (res, m[0], m[1], m[2][0][1][:150], m[2][0][2][:150], out.strip().replace('\n', '\n   ')))
    print('%d edits, %d unexpected' % (len(ms), bad))


if __name__ == '__main__':
    main()
