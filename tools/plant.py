#!/usr/bin/env python3
"""plant.py ID...   validates /verif/seeded/ID in /repo (applied and undone), then runs its check.
plant.py --new ID PROPERTY FILE OLD NEW [nth]  writes patch.diff from a replacement"""
import json, os, subprocess, sys
R = '/repo'
S = '/verif/seeded'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean():
    sh('git -C /repo checkout -- .')
def suite():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return 'build failed ' + b.stdout.decode()[-1500:]
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    j = json.load(open('/tmp/plant.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base['stable'])
    miss = stable - set(j['passed'])
    return 'ok' if not miss else 'tests fail: %s' % sorted(miss)[:5]
def demo(i):
    r = sh('timeout 300 bash %s/%s/demo.sh' % (S, i), cwd=R)
    return r.returncode, r.stdout.decode(errors='replace')[-600:]
def validate(i, checks=True):
    d = S + '/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    sh('bash /opt/vp/build.sh')
    a, o = demo(i)
    if a != 0:
        print(i, 'DEMO FAILS UNCHANGED', a, o); return
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'APPLY', r.stdout); return
        t = suite()
        b, o = demo(i)
        c = ''
        if checks:
            k = sh('python3 /verif/run_check.py ' + prop, cwd='/verif')
            c = 'check %s rc=%d %s' % (prop, k.returncode, [l for l in k.stdout.decode(errors='replace').split('\n') if 'VIOLATION' in l or 'rejected' in l or 'driver ended' in l or 'ERROR' in l][:2])
        print(i, 'suite:', t, '| demo patched rc', b, o.strip().split('\n')[-1][:200], '|', c, flush=True)
    finally:
        clean()
if sys.argv[1] == '--new':
    i, prop, f, old, new = sys.argv[2:7]
    nth = int(sys.argv[7]) if len(sys.argv) > 7 else 0
    p = R + '/' + f
    s = open(p).read()
    parts = s.split(old)
    assert len(parts) > nth + 1, (f, old)
    os.makedirs(S + '/' + i, exist_ok=True)
    try:
        open(p, 'w').write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        open(S + '/' + i + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
    finally:
        clean()
    d = S + '/' + i + '/demo.sh'
    if not os.path.exists(d):
        open(d, 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
unset RC_PARAMS
g++ -std=c++14 -w -g -Iinclude -Isrc "$D/demo.cpp" _build/librapidcheck.a -o "$T/demo" -pthread || exit 3
cd "$T" && timeout 120 ./demo
''')
    if not os.path.exists(S + '/' + i + '/meta.json'):
        json.dump(dict(property=prop, needs='', what_it_breaks=''), open(S + '/' + i + '/meta.json', 'w'), indent=1)
else:
    for i in sys.argv[1:]:
        validate(i, True)
