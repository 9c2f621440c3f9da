#!/usr/bin/env python3
"""development: run checks against a modified copy of /repo.
 tryrepo.py patch <file.diff> P01 P02 ...      HEAD + patch
 tryrepo.py revert <commit> P01 ...            HEAD with a commit reverted (or its parent when that conflicts)
The copy lives in /tmp and is removed; /verif is copied too so that evidence files stay."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    mode, what, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
    d = tempfile.mkdtemp(prefix='try_')
    try:
        r = os.path.join(d, 'repo'); v = os.path.join(d, 'verif')
        sh('cp', '-a', '/repo', r)
        sh('git', 'clone', '-q', '/verif', v)
        if mode == 'patch':
            x = sh('git', '-C', r, 'apply', os.path.abspath(what))
            if x.returncode: print('does not apply', x.stdout); return
        else:
            if sh('git', '-C', r, 'revert', '-n', what).returncode:
                print(what, 'conflict: using its parent'); sh('git', '-C', r, 'revert', '--abort'); sh('git', '-C', r, 'reset', '-q', '--hard', what + '^')
        for i in ids:
            x = sh(sys.executable, 'check.py', i, 'quick', cwd=v, env=dict(os.environ, MROB_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            lines = x.stdout.splitlines()
            print(what, i, 'rc=%d' % x.returncode, next((l for l in lines if 'VIOLATION' in l), '').split(' replay')[0], '|', next((l for l in lines if 'MISMATCH' in l or 'ERROR' in l), '')[:300], flush=True)
            if x.returncode not in (0, 1): print('\n'.join(lines[-15:]))
    finally:
        shutil.rmtree(d)
main()
