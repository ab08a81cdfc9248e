#!/usr/bin/env python3
"""Confirm a planted bug: python3 tools/seed.py <id> <property> <spec.py>
spec.py defines EDITS=[(file, old, new)], DEMO (rust main for a crate depending on gfm) or DEMO_SH, NEEDS, BREAKS."""
import sys, os, subprocess, json, runpy
REPO = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build failed\n' + r.stdout[-1500:]
    sh('bash /opt/vp/test.sh /tmp/seed.o.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open('/tmp/seed.o.json'))
    p = set(o.get('passed') or o.get('pass') or [])
    bad = [t for t in b if t not in p]
    return 'tests fail: %s' % bad[:5] if bad else None
GFM = '''#!/bin/bash
# builds a small program on the crate in /repo and checks what it renders
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cat > "$t/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
gfm = { path = "/repo/gfm" }
X
cp /repo/Cargo.lock "$t/Cargo.lock"
cp "$here/main.rs" "$t/src/main.rs"
cd "$t" && RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true timeout 120 cargo run -q --offline 2> err.log
rc=$?
[ $rc -ne 0 ] && grep -v '^warning' err.log | tail -3
exit $rc
'''
def main():
    sid, prop, spec = sys.argv[1:4]
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + sid
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(REPO, f); t = open(p).read()
            assert t.count(old) == 1, ('edit does not match once', f, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        if 'DEMO' in s:
            open(d + '/main.rs', 'w').write(s['DEMO']); open(d + '/demo.sh', 'w').write(GFM)
        else:
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s['DEMO_SH'])
            here = os.path.dirname(os.path.abspath(__file__))
            for f in ('lib.sh',) + (('fakechrome.py',) if 'chrome' in s['DEMO_SH'] else ()):
                open(d + '/' + f, 'w').write(open(here + '/demo/' + f).read())
        json.dump({'property': prop, 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        e = tests()
        print('with patch: tests', e or 'pass')
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        print('with patch: demo exit', r.returncode, r.stdout[-300:])
        bad = e or r.returncode == 0
    finally:
        sh('git -C /repo checkout -- .')
    tests()
    r2 = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('clean: demo exit', r2.returncode, r2.stdout[-300:] if r2.returncode else '')
    if bad or r2.returncode:
        print('NOT KEPT'); sh('rm -rf /verif/seeded/' + sid); sys.exit(1)
    print('KEPT', sid)
main()
