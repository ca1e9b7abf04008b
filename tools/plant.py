#!/usr/bin/env python3
"""plant.py BUGS.py [ids]: validates planted bugs and writes them to /verif/seeded.

BUGS.py defines B, a list of dicts: id, property, needs, breaks, edits [(file, old, new)],
main (a Rust program that exits nonzero, e.g. by panicking, when the bug shows)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
static-xml = { path = "$repo/static-xml" }
static-xml-derive = { path = "$repo/static-xml-derive" }
xml-rs = "0.8"
[profile.dev]
debug = 0
opt-level = %d
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/log" || { %s; }
timeout 120 "$d/target/debug/demo"
'''
BUILD_FAILS = {False: 'cat "$d/log"; exit 2', True: 'cat "$d/log"; exit 1'}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(b):
    w = '/tmp/plant/' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    sh('mkdir -p %s/repo %s/clean && git -C /repo archive HEAD | tee >(tar x -C %s/repo) | tar x -C %s/clean' % (w, w, w, w), executable='/bin/bash')
    for f, old, new in b['edits']:
        p = w + '/repo/' + f
        t = open(p).read()
        if t.count(old) < 1:
            return 'no match: ' + old[:70]
        open(p, 'w').write(t.replace(old, new, 1))
    d = w + '/seed'
    os.makedirs(d)
    r = sh("diff -u -r a b" if False else 'cd %s && git diff --no-index --src-prefix=a/ --dst-prefix=b/ clean repo' % w)
    patch = r.stdout.replace('a/clean/', 'a/').replace('b/repo/', 'b/').replace('a/repo/', 'a/').replace('b/clean/', 'b/')
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/main.rs', 'w').write(b['main'])
    open(d + '/demo.sh', 'w').write(b.get('demo') or DEMO % (b.get('opt', 0), BUILD_FAILS[bool(b.get('build_fails'))]))
    for n, t in b.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if sh('git -C /repo apply --check %s/patch.diff' % d).returncode:
        return 'patch does not apply'
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.83.0', CARGO_NET_OFFLINE='true')
    a = sh('cd %s/repo && bash %s/demo.sh' % (w, d))
    c = sh('cd %s/clean && bash %s/demo.sh' % (w, d))
    # compiles and passes the tests
    base = json.load(open('/opt/vp/BASELINE.json'))
    t = sh('cd %s/repo && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4' % w, env=env)
    failed = [l for l in t.stdout.split('\n') if l.startswith('test ') and 'FAILED' in l]
    msg = []
    if a.returncode == 0:
        msg.append('demo passes with the patch')
    if c.returncode != 0:
        msg.append('demo fails on the clean tree: ' + (c.stdout + c.stderr)[-1500:])
    if t.returncode:
        msg.append('tests: %s %s' % (failed, '' if failed else t.stderr[-1500:]))
    detail = (a.stdout + a.stderr)[-300:]
    if not msg:
        dst = V + '/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        os.chmod(dst + '/demo.sh', 0o755)
    shutil.rmtree(w, ignore_errors=True)
    return ('; '.join(msg) or 'ok') + ' | ' + detail.strip().replace('\n', ' / ')


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bs = [b for b in g['B'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bs, ex.map(one, bs)):
            print(b['id'], r, flush=True)
