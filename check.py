#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--stream=NAME] [--seed=N] [--quick|--thorough] [-v]"""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'lib')]
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    os.chdir(ROOT)
    import build
    from engine import main
    try:
        rc = main(sys.argv[1], sys.argv[2:])
    except build.BuildError as e:
        print('ERROR: ' + str(e), file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
