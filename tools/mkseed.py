#!/usr/bin/env python3
"""Make planted bugs from the specs in seedspecs.py and confirm each in a scratch copy of /repo.
usage: mkseed.py [--force] [id-substring ...]
A spec: id, property, edits [(file, old, new)], deps (crate list), main (Rust), needs, what; optional: features, flags, release, run (shell)."""
import sys, os, subprocess, json, shutil, re
sys.path.insert(0, os.path.dirname(__file__))
from seedspecs import SPECS
OUT = '/verif/seeded'
W = '/tmp/seedwork'
REPO = W + '/repo'

DEMO = '''#!/bin/bash
# run in the repository; exit 0: behaves as specified
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=%(tool)s
export PATH="/root/.cargo/bin:$PATH"
unset CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$H"/*.rs "$W/src/"
cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
%(deps)s
[profile.dev]
opt-level = %(opt)s
debug = false
[workspace]
T
cd "$W" || exit 9
export RUSTFLAGS='-A warnings %(flags)s'
%(run)s
'''

def dep(name, feats):
    if name == 'cipher':
        return 'cipher = { version = "0.5", features = ["stream-wrapper"] }'
    if name in ('chacha20', 'salsa20', 'hc-256', 'rabbit', 'rc4'):
        f = ''
        if name == 'chacha20':
            f = ', features = [%s]' % ', '.join('"%s"' % x for x in feats)
        elif 'zeroize' in feats:
            f = ', features = ["zeroize"]'
        return '%s = { path = "$R/%s"%s }' % (name, name, f)
    return name

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def fresh():
    if not os.path.isdir(REPO):
        os.makedirs(W, exist_ok=True)
        sh(f'cp -a /repo {REPO}')
    sh('git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq', REPO)

def scripts():
    for n in ('build', 'test'):
        s = open(f'/opt/vp/{n}.sh').read().replace('/repo', REPO)
        open(f'{W}/{n}.sh', 'w').write(s)

def stable_ok():
    b = sh(f'bash {W}/build.sh', timeout=1500)
    if b.returncode: return False, 'build: ' + b.stdout[-800:]
    sh(f'bash {W}/test.sh {W}/out.json', timeout=1500)
    base = json.load(open('/opt/vp/BASELINE.json'))
    st = base.get('passed') or base.get('stable') or base
    got = set(json.load(open(f'{W}/out.json'))['passed'])
    missing = [t for t in st if t not in got]
    return not missing, 'tests failed: %s' % missing[:6]

def make(s):
    fresh()
    d = f'{OUT}/{s["id"]}'
    tmp = f'{W}/{s["id"]}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for f, a, b in s['edits']:
        p = f'{REPO}/{f}'
        t = open(p).read()
        n = t.count(a)
        idx = s.get('occurrence', 0) if n > 1 else 0
        if n == 0 or (n > 1 and 'occurrence' not in s):
            return f'{f}: pattern found {n} times'
        pos = -1
        for _ in range(idx + 1): pos = t.index(a, pos + 1)
        open(p, 'w').write(t[:pos] + b + t[pos + len(a):])
    diff = sh('git diff', REPO).stdout
    open(f'{tmp}/patch.diff', 'w').write(diff)
    # removed/changed lines must be the original repository's
    base = sh('git rev-list --max-parents=0 HEAD', REPO).stdout.strip()
    for h in re.finditer(r'^--- a/(\S+)|^@@ -(\d+)(?:,(\d+))?', diff, re.M):
        pass
    feats = s.get('features', ['cipher', 'legacy', 'rng', 'xchacha'])
    deps = '\n'.join(dep(x, feats) for x in s.get('deps', ['chacha20', 'cipher']))
    run = s.get('run') or 'cargo run -q --offline%s' % (' --release' if s.get('release') else '')
    open(f'{tmp}/demo.sh', 'w').write(DEMO % dict(deps=deps, opt=s.get('opt', 1), flags=s.get('flags', ''), run=run, tool=s.get('tool', 'stable-x86_64-unknown-linux-gnu')))
    if 'main' in s:
        open(f'{tmp}/main.rs', 'w').write(s['main'].strip() + '\n')
        if 'mod refs;' in s['main']:
            shutil.copy('/verif/mc/src/refs.rs', f'{tmp}/refs.rs')
    for n, c in s.get('files', {}).items():
        open(f'{tmp}/{n}', 'w').write(c)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(f'{tmp}/meta.json', 'w'), indent=1)
    r = sh(f'timeout 300 bash {tmp}/demo.sh', REPO)
    if r.returncode == 0: return 'demo passes with the patch: ' + r.stdout[-500:]
    bad = r.stdout[-300:]
    if 'could not compile' in r.stdout and not s.get('compile_fail'): return 'demo does not compile: ' + r.stdout[-1500:]
    ok, why = stable_ok()
    if not ok: return why
    sh('git checkout -q -f .', REPO)
    r = sh(f'timeout 300 bash {tmp}/demo.sh', REPO)
    if r.returncode != 0: return f'demo fails without the patch ({r.returncode}): ' + r.stdout[-1500:]
    os.makedirs(OUT, exist_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    return None

if __name__ == '__main__':
    force = '--force' in sys.argv
    sel = [a for a in sys.argv[1:] if not a.startswith('--')]
    os.makedirs(W, exist_ok=True)
    scripts()
    for s in SPECS:
        if sel and not any(x in s['id'] for x in sel): continue
        if os.path.isdir(f'{OUT}/{s["id"]}') and not force: continue
        e = make(s)
        print(s['id'], 'KEPT' if e is None else 'REJECTED: ' + e, flush=True)
