#!/usr/bin/env python3
"""Plants the bugs of a table in a scratch copy, confirms each and writes /verif/seeded/<id>/.
usage: mkseeds.py table.py [id...]"""
import sys, os, json, subprocess as sp, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = '/tmp/seedwt'
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
tab = {}
exec(open(sys.argv[1]).read(), tab)
only = sys.argv[2:]
if os.path.isdir(W): shutil.rmtree(W)
sh('cp -a /repo %s' % W)
env = 'cd %s && . /opt/vp/env.sh; unset CARGO_TARGET_DIR; ' % W
def tests():
    r = sh(env + 'cargo build --workspace --locked --offline 2>&1 && cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1')
    return r.returncode == 0, r.stdout
def demo(d): return sh('cd %s && bash %s/demo.sh' % (W, d))
for s in tab['SEEDS']:
    i = s['id']
    if only and i not in only: continue
    sh('cd %s && git checkout -q -- .' % W)
    d = '/tmp/seeds/' + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    kit = os.path.join(V, 'tools/seedkit')
    shutil.copy(os.path.join(kit, s.get('kit', 'demo_packet.sh')), d + '/demo.sh')
    for f, t in s.get('files', {}).items(): open(os.path.join(d, f), 'w').write(t)
    open(d + '/demo.rs', 'w').write(s['demo'])
    a = demo(d)
    if a.returncode: print(i, 'DEMO FAILS ON CLEAN', a.returncode, a.stdout[-1500:]); continue
    bad = 0
    for f, o, n in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(o) < 1 or (t.count(o) > 1 and not s.get('first')): print(i, 'EDIT COUNT', f, t.count(o)); bad = 1; break
        open(p, 'w').write(t.replace(o, n, 1))
    if bad: continue
    ok, out = tests()
    if not ok: print(i, 'TESTS/BUILD FAIL', ' '.join(l.strip() for l in out.splitlines() if l.startswith('    ') and '::test' in l or l.startswith('error'))[:400]); continue
    b = demo(d)
    if b.returncode == 0: print(i, 'DEMO PASSES WITH PATCH'); continue
    if b.returncode in (98, 99): print(i, 'DEMO DOES NOT BUILD', b.stdout[-800:]); continue
    open(d + '/patch.diff', 'w').write(sh('cd %s && git diff' % W).stdout)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    t = os.path.join(V, 'seeded', i); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    print(i, 'kept; demo exit', b.returncode)
sh('rm -rf ' + W)
