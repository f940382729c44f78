#!/usr/bin/env python3
"""Turns a bug description (tools/bugs/*.py) into seeded/<id>/ after confirming it in a scratch copy.

usage: mkbug.py [--force] ID...      confirms: applies, builds, existing tests pass, demo 0/nonzero
"""
import json, os, re, subprocess, sys, glob, shutil
W = '/tmp/bugs'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', DEMO_TARGET=f'{W}/demo-target')
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=ENV, **k)
def repo():
    if not os.path.exists(f'{W}/repo'):
        subprocess.run(f'mkdir -p {W} && git clone -q /repo {W}/repo && cp /repo/Cargo.lock {W}/repo/ 2>/dev/null; cp -a /repo/target {W}/repo/target', shell=True, check=True)
    sh('git fetch -q origin && git reset -q --hard origin/HEAD', f'{W}/repo')
    return f'{W}/repo'
def tests(r):
    log, out = f'{W}/cargo-test.log', f'{W}/tests.json'
    subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {r}; export CARGO_TARGET_DIR={W}/repo/target; '
        f'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1; '
        f'python3 /opt/vp/results.py {out} cargo:{log}'], timeout=900)
    j = json.load(open(out))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable' if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else 'passed'])
    return base, base - set(j['passed'])
BASE = 'bc94e8a'
def original(r, diff):
    """every removed line must come from the repository as it was handed over"""
    bad = []
    f = None
    for line in diff.split('\n'):
        if line.startswith('--- a/'): f = line[6:]
        m = re.match(r'@@ -(\d+)', line)
        if m: n = int(m[1]); continue
        if line.startswith('---') or line.startswith('+++') or f is None: continue
        if line.startswith('-'):
            b = sh(f'git blame -s -l -L {n},{n} HEAD -- {f}', r).stdout
            c = b.split(' ')[0].lstrip('^')
            if sh(f'git merge-base --is-ancestor {c} {BASE}', r).returncode != 0: bad.append((f, n))
            n += 1
        elif line.startswith(' '): n += 1
    return bad
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not. cwd: the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; fi
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
validators = { path = "$repo/validators", features = [@FEATURES@] }
@DEPS@
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work"
cargo build --offline --quiet
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
def make(b, force):
    d = f'/verif/seeded/{b["id"]}'
    r = repo()
    for e in b['edits']:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        p = f'{r}/{f}'
        s = open(p).read()
        c = s.count(old)
        if n == 'first' and c >= 1:
            open(p, 'w').write(s.replace(old, new, 1))
            continue
        if n == 'any' and c >= 1:
            n = c
        if c != n:
            return f'edit matches {c} times, not {n}: {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', r).stdout
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.rs', 'w').write(b['demo'])
    feats = ', '.join(f'"{x}"' for x in b.get('features', []))
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('@FEATURES@', feats).replace('@DEPS@', b.get('deps', '')))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/meta.json', 'a').write('\n')
    notmine = original(r, diff)
    if notmine:
        shutil.rmtree(d)
        return f'changes lines of fix commits: {notmine}'
    o = sh(f'bash {d}/demo.sh', r, timeout=400)
    if o.returncode == 0:
        shutil.rmtree(d)
        return 'demo passes with the patch'
    pan = (o.stderr + o.stdout)[-400:]
    if 'error: could not compile' in o.stderr or 'error[' in o.stderr:
        shutil.rmtree(d)
        return 'demo or patch does not compile: ' + o.stderr[-1500:]
    ok, bad = tests(r)
    if bad:
        shutil.rmtree(d)
        return f'tests: of {len(ok)} failed {sorted(bad)[:6]}'
    sh('git reset -q --hard', r)
    o = sh(f'bash {d}/demo.sh', r, timeout=400)
    if o.returncode != 0:
        shutil.rmtree(d)
        return 'demo fails on the unchanged tree: ' + (o.stderr + o.stdout)[-1500:]
    return 'OK  (patched: ' + pan.strip().replace('\n', ' ')[-160:] + ')'
def main():
    bugs = {}
    for f in sorted(glob.glob('/verif/tools/bugs/*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for b in ns['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    a = sys.argv[1:]
    force = '--force' in a
    a = [x for x in a if x != '--force'] or [i for i in bugs if not os.path.exists(f'/verif/seeded/{i}/meta.json')]
    for i in a:
        print(i, make(bugs[i], force), flush=True)
main()
