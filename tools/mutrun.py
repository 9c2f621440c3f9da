#!/usr/bin/env python3
"""development: runs the check of a property against small textual mutations of the code under test.
 mutrun.py [-j N] [id-prefix ...]      definitions in tools/mutants/*.py: mut(id, property, file, [(old, new), ...])
The copies live in /tmp and are removed."""
import sys, os, subprocess, shutil, tempfile, glob, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
def mut(id, prop, file, edits, note=''):
    assert id not in M, id
    M[id] = (prop, file, edits, note)
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(id):
    prop, file, edits, note = M[id]
    d = tempfile.mkdtemp(prefix='mut_')
    t0 = time.time()
    try:
        r = os.path.join(d, 'repo'); v = os.path.join(d, 'verif')
        os.makedirs(r)
        sh('bash', '-c', 'git -C /repo archive HEAD | tar x -C %s; ln -s /repo/.git %s/.git' % (r, r))
        sh('git', 'clone', '-q', V, v)
        p = os.path.join(r, file); t = open(p).read()
        for a, b in edits:
            if t.count(a) != 1: return id, prop, 'EDIT %d occurrences of %r' % (t.count(a), a)
            t = t.replace(a, b)
        open(p, 'w').write(t)
        x = sh('timeout', '900', sys.executable, 'check.py', prop, 'quick', cwd=v, env=dict(os.environ, MROB_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        L = x.stdout.splitlines()
        first = next((l for l in L if 'MISMATCH' in l or 'ERROR' in l or 'error:' in l), L[-1] if L else '')
        n = sum('MISMATCH' in l for l in L)
        return id, prop, '%s %3ds %s' % ({0: 'MISSED', 1: 'caught'}.get(x.returncode, 'RC%d' % x.returncode), time.time() - t0, '' if x.returncode == 0 else first[:220])
    finally:
        shutil.rmtree(d)
def main():
    a = sys.argv[1:]; j = 2
    if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'mutants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(mut=mut))
    ids = [i for i in M if not a or any(i.startswith(x) for x in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ids): print(*r, flush=True)
if __name__ == '__main__': main()
