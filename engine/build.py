"""Builds the MIR dump of /repo's current working tree (never runs its code)."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('APIFORMES_CACHE') or os.path.join(VERIF, '.cache')
REPO = os.environ.get('APIFORMES_REPO', '/repo')
NEEDED = ('packet', 'server_lib', 'bm')


class BuildError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'fuzz'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock', '.yaml', '.yml')):
                out.append(os.path.join(root, f))
    return out


def digest():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(VERIF, 'driver', 'mirdump.rs')]:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def dump(verbose=False):
    """-> directory with one JSON MIR dump per workspace crate."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(verbose)


def _dump(verbose):
    out = os.path.join(CACHE, 'dump')
    stamp = os.path.join(out, 'stamp')
    d = digest()
    if os.path.exists(stamp) and open(stamp).read() == d:
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sysroot = _run(['rustc', '+nightly', '--print', 'sysroot']).strip()
    drv_src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    drv = os.path.join(CACHE, 'mirdump')
    dh = hashlib.sha256(open(drv_src, 'rb').read()).hexdigest()
    dstamp = os.path.join(CACHE, 'mirdump.stamp')
    if not (os.path.exists(drv) and os.path.exists(dstamp) and open(dstamp).read() == dh):
        _run(['rustc', '+nightly', '--edition', '2021', '-O', drv_src, '-o', drv,
              '-C', 'link-arg=-Wl,-rpath,%s/lib' % sysroot])
        open(dstamp, 'w').write(dh)
    target = os.path.join(CACHE, 'target')
    for q in ('debug/.fingerprint/apiformes*', 'debug/build/apiformes*', 'debug/incremental/apiformes*'):
        for p in glob.glob(os.path.join(target, q)): shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), MIRDUMP_OUT=out,
               RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    for again in (False, True):
        _run(['cargo', '+nightly', 'check', '--offline', '--locked', '--workspace'], env=env, cwd=REPO)
        if all(os.path.exists(os.path.join(out, 'apiformes_%s.json' % c)) for c in NEEDED): break
        if again: raise BuildError('no MIR dump was produced')
        shutil.rmtree(target, ignore_errors=True)
    open(stamp, 'w').write(d)
    return out


if __name__ == '__main__':
    t = time.time()
    print(dump(True), '%.1fs' % (time.time() - t))
