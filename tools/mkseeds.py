#!/usr/bin/env python3
"""development: writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and validates them in a private mount of /repo.
 mkseeds.py [id ...]"""
import sys, os, subprocess, shutil, json, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
PYHEAD = '''import sys, os, math
sys.path.insert(0, '/repo/_build/lib')
import numpy as np, mrob
for n in dir(mrob.geometry): setattr(mrob, n, getattr(mrob.geometry, n))
out = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
def check(ok, what=''):
    if not ok:
        os.write(2, ('FAILED: %s\\n' % what).encode()); os._exit(1)
'''
CPPHEAD = '''#include <Eigen/Dense>
#include <iostream>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <memory>
static void check(bool ok, const char *what) { if (!ok) { std::cerr << "FAILED: " << what << std::endl; std::exit(1); } }
'''
SHPY = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /usr/bin/python3 "$d/demo.py" > /dev/null
'''
SHCPP = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
r=/repo
g++ -std=gnu++14 -O1 -w -DNDEBUG -I"$r/src/common" -I"$r/src/geometry" -I"$r/src/FGraph" -I"$r/src/PCRegistration" -I/usr/include/eigen3 "$d/demo.cpp" \\
  -L"$r/_build/lib" -lPCRegistration -lFGraph -lSE3 -lcommon -Wl,-rpath,"$r/_build/lib" -o "$w/demo"
rc=$?
[ $rc = 0 ] && { timeout 200 "$w/demo" > /dev/null; rc=$?; }
rm -rf "$w"
exit $rc
'''
def seed(id, prop, file, edits, needs, breaks, py=None, cpp=None):
    SEEDS[id] = dict(prop=prop, files={file: edits} if isinstance(file, str) else dict(zip(file, edits)), needs=needs, breaks=breaks, py=py, cpp=cpp)
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, s, work):
    d = os.path.join(V, 'seeded', id); shutil.rmtree(d, True); os.makedirs(d)
    sh('git', '-C', work, 'checkout', '-q', '--', '.')
    for f, edits in s['files'].items():
        p = os.path.join(work, f); t = open(p).read()
        for a, b in edits:
            if t.count(a) != 1: return '%s: %d occurrences of %r' % (f, t.count(a), a)
            t = t.replace(a, b)
        open(p, 'w').write(t)
    open(d + '/patch.diff', 'w').write(sh('git', '-C', work, 'diff').stdout)
    if s['py']: open(d + '/demo.py', 'w').write(PYHEAD + s['py']); open(d + '/demo.sh', 'w').write(SHPY)
    else: open(d + '/demo.cpp', 'w').write(CPPHEAD + s['cpp']); open(d + '/demo.sh', 'w').write(SHCPP)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sh('git', '-C', work, 'checkout', '-q', '--', '.')
    script = '''mount --bind %s /repo && cd /repo && git checkout -q -- . && { bash /opt/vp/build.sh > /tmp/sw/b.log 2>&1 || { echo NOBUILD0; exit 9; }; }
bash %s/demo.sh 2>/tmp/sw/d0.log; echo clean=$?
git apply %s/patch.diff || { echo NOAPPLY; exit 9; }
bash /opt/vp/build.sh > /tmp/sw/b.log 2>&1 || { echo NOBUILD; tail -30 /tmp/sw/b.log; exit 9; }
bash %s/demo.sh 2>/tmp/sw/d1.log; echo patched=$?
bash /opt/vp/test.sh /tmp/sw/out.json 2>&1 | tail -1
git checkout -q -- .; bash /opt/vp/build.sh > /tmp/sw/b.log 2>&1''' % (work, d, d, d)
    x = sh('unshare', '-Urm', 'bash', '-c', script)
    o = x.stdout
    ok = 'clean=0' in o and 'patched=0' not in o and 'patched=' in o and '35 passed, 0 failed' in o
    return ('ok ' if ok else 'BAD ') + ' '.join(o.split('\n')[-4:]) + ('' if ok else '\n' + o[-1500:] + open('/tmp/sw/d0.log').read()[-600:]) + ' | ' + (open('/tmp/sw/d1.log').read().strip()[-150:] if os.path.exists('/tmp/sw/d1.log') else '')
def main():
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(seed=seed, SEEDS_=SEEDS))
    work = '/tmp/sw/repo'
    if not os.path.exists(work): os.makedirs('/tmp/sw', exist_ok=True); sh('cp', '-a', '/repo', work)
    sh('git', '-C', work, 'checkout', '-q', '--', '.')
    for i in (sys.argv[1:] or sorted(SEEDS)):
        print(i, make(i, SEEDS[i], work), flush=True)
if __name__ == '__main__': main()
