"""Compile /repo's current working tree with the MIR-dumping driver (nothing is executed) and
return the directory of the dump.  Cached by content hash under /verif/build (git-ignored)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SMD_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SKIP = {'target', '.git', 'node_modules', '.direnv', 'dist', 'build'}


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.ts', '.json', '.js')):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    h.update(open(os.path.join(VERIF, 'driver', 'mirdump.rs'), 'rb').read())
    return h.hexdigest()[:20]


def tool_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, 'analysis', '*.py'))):
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:12]


def sh(cmd, env=None, cwd=None, what=''):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit('ERROR: %s failed' % what)
    return p.stdout


def driver():
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'mirdump-' + tag)
    if not os.path.exists(out):
        sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'], what='driver build')
        os.rename(out + '.tmp', out)
    return out


def ensure():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = repo_hash()
        out = os.path.join(BUILD, 'dump-' + h)
        if os.path.exists(os.path.join(out, 'DONE')):
            os.utime(out)
            return out, h
        drv = driver()
        for d in sorted(glob.glob(os.path.join(BUILD, 'dump-*')), key=os.path.getmtime)[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, 'target')
        # forget what cargo knows of the workspace members: the driver has to see every one of them
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', '*')) + glob.glob(os.path.join(tgt, 'debug', 'build', '*')):
            b = os.path.basename(d)
            if b in ('gfm', 'smd', 'smd-core') or b.rsplit('-', 1)[0] in ('gfm', 'smd', 'smd-core'):
                shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], what='sysroot').strip()
        env.update(LD_LIBRARY_PATH=sysroot + '/lib', MIRDUMP_OUT=out, RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=tgt,
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        lockf = os.path.join(REPO, 'Cargo.lock')
        before = open(lockf, 'rb').read() if os.path.exists(lockf) else None
        sh(['cargo', 'check', '--offline', '--workspace'], env=env, cwd=REPO, what='cargo check of /repo')
        if before is not None and open(lockf, 'rb').read() != before:
            open(lockf, 'wb').write(before)
        need = {'gfm.json', 'smd.json', 'smd.bin.json', 'smd_core.json'}
        have = set(os.listdir(out))
        if not need <= have:
            raise SystemExit('ERROR: dump incomplete: %s' % sorted(have))
        open(os.path.join(out, 'DONE'), 'w').write('ok')
        return out, h


if __name__ == '__main__':
    t = time.time()
    print(ensure(), '%.1fs' % (time.time() - t))
