#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current source by static analysis."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

def main():
    prop = sys.argv[1]
    from report import Report
    import build
    R = Report(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        d = build.dump()
    except build.BuildError as e:
        print('build failed: ' + str(e)[-2000:])
        R.undecided('build', 'the tree does not compile')
        return R.finish()
    import checks
    try:
        checks.run(prop, R, d)
    except Exception as e:
        traceback.print_exc()
        R.undecided('analysis', '%s: %s' % (type(e).__name__, str(e)[:300]))
    return R.finish()

rc = [0]
def go(): rc[0] = main()
t = threading.Thread(target=go); t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0])
