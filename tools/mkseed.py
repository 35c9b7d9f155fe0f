#!/usr/bin/env python3
"""mkseed.py SPEC.py..: writes seeded/<id>/ from a spec (id, property, needs,
breaks, edits=[(file, old, new)], demo = C++ source, libs), confirming that it
builds, passes the stable tests, and that the demonstration tells it apart."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=$PWD/_build
g++ -std=c++20 -g -w -D_NO_EXCEPTION -fno-rtti -fno-exceptions %(flags)s -I"$PWD/src" -I"$PWD/src/parsec" -I"$PWD/3rdparty" -I"$PWD/3rdparty/bech32/." -I"$PWD/3rdparty/bech32/./util" -isystem /usr/include/lua5.4 -isystem /usr/include/jsoncpp \\
    "$D/demo.cpp" %(srcs)s -o "$T/demo" -Wl,--start-group $(find "$B/src" "$B/3rdparty" -name '*.a') -Wl,--end-group %(libs)s -lpthread > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
cd "$T"
timeout 120 "$T/demo"
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = g['id']
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(g['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % {'srcs': ' '.join('"$PWD/%s"' % x for x in g.get('srcs', [])), 'libs': g.get('libs', '-lsecp256k1 -lleveldb'), 'flags': g.get('flags', '')})
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = '/repo'
    ok = True
    try:
        assert not sh('git status --porcelain', r).stdout.strip(), 'repo not clean'
        x = sh('bash /opt/vp/build.sh', r)
        assert x.returncode == 0, x.stdout[-2000:]
        a = sh('bash %s/demo.sh' % d, r)
        print('unchanged: rc', a.returncode, a.stdout[-600:], a.stderr[-300:])
        for f, old, new in g['edits']:
            s = open(r + '/' + f).read()
            assert s.count(old) >= 1, (f, old)
            open(r + '/' + f, 'w').write(s.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        x = sh('bash /opt/vp/build.sh', r)
        assert x.returncode == 0, (x.stdout + x.stderr)[-3000:]
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json', r)
        res = open('/tmp/seedtest.json').read()
        b = sh('bash %s/demo.sh' % d, r)
        print('patched: rc', b.returncode, b.stdout[-600:], b.stderr[-300:])
        st = json.load(open('/opt/vp/BASELINE.json'))
        got = json.loads(res)
        failing = [k for k in stable(st) if not passed(got, k)]
        print('stable tests failing:', failing)
        c = sh('VERIF_EVIDENCE=/tmp/seedev python3 %s/check.py %s' % (V, g['property']), V)
        print('check: rc', c.returncode, c.stdout[-700:])
        ok = a.returncode == 0 and b.returncode != 0 and not failing
        print('%s: %s, %s' % (sid, 'VALID' if ok else 'INVALID', 'caught' if c.returncode == 1 else 'MISSED'))
    finally:
        sh('git checkout -- .', r)
        sh('bash /opt/vp/build.sh', r)
        if not ok:
            print('not kept as it is: fix', d)


def stable(b):
    for k in ('stable', 'pass', 'passed', 'tests'):
        if k in b:
            v = b[k]
            return list(v)
    raise KeyError(list(b))


def passed(got, k):
    for key in ('passed', 'pass'):
        if key in got:
            return k in got[key]
    v = got.get('tests', got)
    return v.get(k) in (True, 'pass', 'passed', 'ok')


for s in sys.argv[1:]:
    main(s)
