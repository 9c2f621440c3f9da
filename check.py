#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: decide one property against /repo's working tree"""
import importlib, os, sys, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
import run, build, tlc

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    ctx = run.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(pid)
        mod.check(ctx)
        sys.exit(ctx.finish())
    except build.BuildError as e:
        print('ERROR: the code under test does not build:', e); sys.exit(3)
    except tlc.SpecError as e:
        print('ERROR of the check:', e); sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
main()
