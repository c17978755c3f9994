#!/usr/bin/env python3
"""Makes and tries planted bugs (a development tool; no check uses it).
   mkseed.py new <id> <property>  <file with the recipe>   recipe: python dict literal: edits [(file, old, new)], demo (sh), files {name: text}, needs, breaks
   mkseed.py try <id> [checks...]   apply to /repo, build, test, demo, run checks, undo, demo again"""
import ast, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = r'''#!/bin/bash
# exits 0 when the behaviour is right; run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
'''
CPP = DEMO + r'''INC=""
for d in common common/plugins framework maxent utf8 utf8case tiniconv uchardet sundown server/server server/mpfd-parser %(inc)s; do INC="$INC -I$R/$d -I$R/build/$d"; done
g++ -std=gnu++14 -O1 -w -pthread -include iostream -include algorithm -DBOOST_TIMER_ENABLE_DEPRECATED -I"$R" $INC "$D/demo.cpp" %(src)s -o "$T/demo" -Wl,--no-as-needed -Wl,--allow-shlib-undefined \
  $(for l in %(libs)s; do f=$(find "$R/build" -name "$l" | head -1); echo "$f -Wl,-rpath,$(dirname "$f")"; done) \
  -Wl,-rpath-link,"$(find "$R/build" -name '*.so' -printf '%%h\n' | sort -u | tr '\n' ':')" -lboost_filesystem -lboost_system -lboost_program_options -lboost_regex -lboost_serialization -lboost_thread -llog4cpp -lpcre -lpcrecpp -lcmph -lmagic -lpthread || exit 98
cd %(cwd)s
LD_LIBRARY_PATH="$(find "$R/build" -name '*.so' -printf '%%h\n' | sort -u | tr '\n' ':')" timeout 120 "$T/demo"
'''
def new(i, recipe):
    r = ast.literal_eval(open(recipe).read())
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain -uno').stdout, 'dirty /repo'
    try:
        for f, old, nw in r['edits']:
            p = '/repo/' + f; s = open(p, 'rb').read()
            assert s.count(old.encode()) == 1, (f, s.count(old.encode()), old)
            open(p, 'wb').write(s.replace(old.encode(), nw.encode()))
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE, text=True, errors='surrogateescape').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    if 'cpp' in r:
        open(d + '/demo.cpp', 'w').write(r['cpp'])
        open(d + '/demo.sh', 'w').write(CPP % {'inc': r.get('inc', ''), 'src': r.get('src', ''), 'libs': r.get('libs', 'libpsitoolkit_common.so'), 'cwd': r.get('cwd', '"$T"')})
    else:
        open(d + '/demo.sh', 'w').write(DEMO + r['demo'])
    for n, t in r.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': r['property'], 'needs': r['needs'], 'what_it_breaks': r['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    o = json.load(open('/tmp/seed_o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    return [t for t in b['stable'] if t not in set(o['passed'])]
def trial(i, checks):
    d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
    ok = True
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'does not apply', a.stdout); return 1
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(i, 'BUILD FAILS', b.stdout[-1500:]); return 1
        m = tests(); print(i, 'stable tests missing:', m)
        x = sh('bash %s/demo.sh' % d, cwd='/repo'); print(i, 'demo with patch: %d %s' % (x.returncode, x.stdout[-300:]))
        if x.returncode == 0 or m: ok = False
        for c in checks or [prop]:
            e = os.path.join(V, 'evidence', c + '.json'); keep = open(e).read() if os.path.exists(e) else None
            q = sh('bin/check %s quick' % c, cwd=V)
            v = [l for l in q.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, c, 'exit', q.returncode, 'CAUGHT' if q.returncode == 1 and v else 'MISSED', v[:3], '' if v else q.stdout[-600:])
            if keep is not None: open(e, 'w').write(keep)
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    x = sh('bash %s/demo.sh' % d, cwd='/repo'); print(i, 'demo unpatched: %d %s' % (x.returncode, x.stdout[-300:]))
    if x.returncode: ok = False
    print(i, 'VALID' if ok else 'NOT VALID', flush=True)
if sys.argv[1] == 'new': new(sys.argv[2], sys.argv[3])
else: trial(sys.argv[2], sys.argv[3:])
