#!/usr/bin/env python3
"""Applies planted bugs to /repo one by one, runs the checks, undoes them. usage: runseeds.py [--props P01,P02] [id...]"""
import sys, os, json, subprocess as sp, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; props = None
if args[:1] == ['--props']: props = args[1].split(','); args = args[2:]
ids = args or sorted(os.listdir(V + '/seeded'))
def sh(*c): return sp.run(c, stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout
for i in ids:
    d = '%s/seeded/%s' % (V, i); p = json.load(open(d + '/meta.json'))['property']
    r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
    if r.returncode: print(i, 'APPLY', r.stdout); continue
    try:
        for q in props or [p]:
            t = time.time(); r = sh('python3', V + '/check.py', q)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-34s %s rc=%d viol=%d %.0fs %s' % (i, q, r.returncode, len(v), time.time() - t, r.stdout.strip().splitlines()[-1][:110] if r.returncode > 1 else ''), flush=True)
    finally: sh('git', '-C', '/repo', 'checkout', '--', '.')
