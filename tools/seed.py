#!/usr/bin/env python3
"""Plant bugs: tools/seed.py make NAME... writes seeded/<id>/; tools/seed.py confirm NAME... checks them in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from seeds import SEEDS

DEMO = '''#!/bin/sh
# run in the repository: exit 0 if the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
blake2b_simd = { path = "$repo/blake2b" }
blake2s_simd = { path = "$repo/blake2s" }
[profile.release]
debug-assertions = %s
overflow-checks = %s
X
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
%sexec_() { cargo build --release --offline -q --manifest-path "$d/Cargo.toml" || exit 2; "$d/target/release/demo"; }
exec_
'''
CLI = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
(cd "$repo/blake2_bin" && cargo build --offline -q 2>/dev/null) || exit 2
bin="$d/target/debug/blake2"
'''


def patched(text, s):
    for old, new in s['edits']:
        assert text.count(old) >= 1, (s['id'], old, text.count(old))
        n = s.get('count', 1)
        assert text.count(old) == n, (s['id'], old, text.count(old))
        text = text.replace(old, new)
    return text


def make(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for f, edits in s['files'].items():
        p = os.path.join(t, 'r', f)
        txt = patched(open(p).read(), dict(id=s['id'], edits=edits))
        open(p, 'w').write(txt)
    diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if 'sh' in s:
        open(d + '/demo.sh', 'w').write(CLI + s['sh'])
    else:
        dbg = 'true' if s.get('debug') else 'false'
        open(d + '/demo.sh', 'w').write(DEMO % (dbg, dbg, 'export RUSTFLAGS="--cfg blake2_verify"\n' if s.get('hooks') else ''))
        open(d + '/main.rs', 'w').write(s['main'])
    os.chmod(d + '/demo.sh', 0o755)


def confirm(names):
    sc = '/tmp/seedscratch'
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs(sc)
    subprocess.run(['cp', '-a', '/repo', sc + '/repo'], check=True)
    for k in ('build', 'test'):
        open('%s/%s.sh' % (sc, k), 'w').write(open('/opt/vp/%s.sh' % k).read().replace('/repo', sc + '/repo'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'] if isinstance(base, dict) and 'stable' in base else base.get('passed', base) if isinstance(base, dict) else base)
    for n in names:
        d = os.path.join(ROOT, 'seeded', n)
        r0 = subprocess.run(['sh', d + '/demo.sh'], cwd=sc + '/repo', capture_output=True, text=True)
        a = subprocess.run(['git', '-C', sc + '/repo', 'apply', d + '/patch.diff'], capture_output=True, text=True)
        b = subprocess.run(['bash', sc + '/build.sh'], capture_output=True, text=True)
        subprocess.run(['bash', sc + '/test.sh', sc + '/out.json'], capture_output=True, text=True)
        out = json.load(open(sc + '/out.json'))
        passed = set(out.get('passed', []))
        missing = sorted(want - passed)
        r1 = subprocess.run(['sh', d + '/demo.sh'], cwd=sc + '/repo', capture_output=True, text=True)
        print('%-28s clean demo %d | applies %d builds %d | tests lost %d %s | demo with patch %d %s' % (
            n, r0.returncode, a.returncode, b.returncode, len(missing), missing[:2], r1.returncode, (r1.stdout + r1.stderr)[-160:].replace('\n', ' ')), flush=True)
        subprocess.run(['git', '-C', sc + '/repo', 'checkout', '-q', '--', '.'])
    shutil.rmtree(sc, ignore_errors=True)


if __name__ == '__main__':
    names = sys.argv[2:] or [s['id'] for s in SEEDS]
    if sys.argv[1] == 'make':
        for s in SEEDS:
            if s['id'] in names:
                make(s)
    else:
        confirm(names)
