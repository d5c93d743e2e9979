#!/usr/bin/env python3
"""plant(id, property, header, edits=[(old,new[,nth])], demo=cpp, needs=, breaks=): makes and validates /verif/seeded/<id> (development aid)"""
import os, subprocess, shutil, tempfile, json
SEED = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
SH = '''#!/bin/bash
# demonstration: exits 0 when the property holds on the demonstrated history
d=$(dirname "$(realpath "$0")"); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -fno-access-control -I src -o "$t/demo" "$d/demo.cpp" || exit 2
timeout 60 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, header, edits, demo, needs, breaks):
    w = tempfile.mkdtemp(prefix='plant')
    r = w + '/repo'
    sh(f'cp -a /repo {r}')
    p = f'{r}/src/{header}'
    s = open(p).read()
    for e in edits:
        n = e[2] if len(e) > 2 else 0
        parts = s.split(e[0])
        if len(parts) < n + 2: print(id, 'PATTERN', e[0]); shutil.rmtree(w); return
        s = e[0].join(parts[:n+1]) + e[1] + e[0].join(parts[n+1:])
    open(p, 'w').write(s)
    d = f'{SEED}/{id}'
    os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {r} diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'bash {d}/demo.sh', cwd='/repo'); b = sh(f'bash {d}/demo.sh', cwd=r)
    # tests: build the test program of the changed copy
    t = sh('ls tests/*.cpp | head -0; mkdir -p /tmp/x; sed "s#/repo#%s#g" /opt/vp/test.sh > %s/test.sh; sed "s#/repo#%s#g" /opt/vp/build.sh > %s/build.sh; bash %s/build.sh && bash %s/test.sh %s/out.json' % (r, w, r, w, w, w, w), cwd=r)
    try:
        o = json.load(open(w + '/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base.get('passed') or base.get('stable') or base.get('tests') or [])
        got = set(o['passed']); miss = want - got
    except Exception as ex: miss = {str(ex), t.stderr[-500:]}
    ok = a.returncode == 0 and b.returncode != 0 and b.returncode != 2 and not miss
    print('OK ' if ok else 'BAD', id, 'clean', a.returncode, 'patched', b.returncode, b.stdout.strip()[-150:], 'missing tests', list(miss)[:3], '' if a.returncode == 0 else (a.stdout + a.stderr)[-400:])
    if not ok: shutil.rmtree(d)
    shutil.rmtree(w)
    return ok
