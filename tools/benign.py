#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet on them (undecided obligations are shown).
usage: benign.py table.py [--props P01,P02] [id...]     (works on scratch copies under /tmp/bn, removed afterwards)"""
import sys, os, json, subprocess as sp, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tab = {}
exec(open(sys.argv[1]).read(), tab)
args = sys.argv[2:]; props = None
if args[:1] == ['--props']: props = args[1].split(','); args = args[2:]
props = props or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
B = '/tmp/bn'; shutil.rmtree(B, ignore_errors=True); os.makedirs(B)
import queue
free = queue.Queue()
N = int(os.environ.get('BN', '4'))
for k in range(N):
    d = '%s/%d' % (B, k); os.makedirs(d)
    sh('mkdir %s/verif && cd %s && cp -a check.py engine driver known_findings.json MANIFEST.json properties.jsonl .cache %s/verif/ && cp -a /repo %s/repo && rm -rf %s/repo/target && git -C %s/repo checkout -q -- .' % (d, V, d, d, d, d))
    free.put(d)
def one(b):
    d = free.get(); out = []
    try:
        sh('git -C %s/repo checkout -q -- .' % d)
        for f, o, n in b['edits']:
            p = os.path.join(d, 'repo', f); t = open(p).read()
            if t.count(o) != 1: return '%s EDIT COUNT %s %d' % (b['id'], f, t.count(o))
            open(p, 'w').write(t.replace(o, n, 1))
        for q in b.get('props') or props:
            if args and False: pass
            try: r = sp.run(['python3', d + '/verif/check.py', q], env=dict(os.environ, APIFORMES_REPO=d + '/repo'), stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=900)
            except sp.TimeoutExpired: out.append('%s TIMEOUT' % q); continue
            last = (r.stdout.strip().splitlines() or [''])[-1]
            if r.returncode or ' 0 undecided' not in last:
                out.append('%s rc=%d %s' % (q, r.returncode, last[:100]))
                out += ['      ' + l[:230] for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'undecided')) or r.returncode and 'rror' in l][:4]
                if r.returncode == 1: out += ['      ' + l.strip()[:230] for l in r.stdout.splitlines() if l.startswith('    ')][:3]
    finally: free.put(d)
    return '%s: %s' % (b['id'], 'quiet' if not out else '\n   ' + '\n   '.join(out))
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, [b for b in tab['BENIGN'] if not args or b['id'] in args]): print(r, flush=True)
shutil.rmtree(B, ignore_errors=True)
