#!/usr/bin/env python3
"""mkbug.py SPEC.py: plants the bugs of SPEC (list BUGS) in scratch copies of /repo, confirms each (applies, builds, stable tests
pass, demo 0 on the clean tree and non-zero with the bug) and stores the confirmed ones under /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys

W = '/tmp/mkbug'
DEMO = '''#!/bin/bash
# exit 0: the property holds for the inputs below; non-zero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%(dep)s
[profile.dev]
debug = false
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=nightly
cd "$w" && cargo build --offline --quiet 2>"$w/err" || { cat "$w/err"; exit 9; }
mkdir "$w/scratch" && cd "$w/scratch" && timeout 20 "$w/target/debug/demo"
'''


IODEMO = '''#!/bin/bash
# exit 0: the property holds for the history below; non-zero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/target/debug" "$w/scratch"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
[ -d "$repo/target/debug/build" ] && cp -a "$repo/target/debug/build" "$w/target/debug/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gfm = { path = "$repo/gfm" }
smd-core = { path = "$repo/smd-core" }
smd = { path = "$repo/smd" }
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_PANIC=unwind
cd "$w" && cargo build --offline --quiet --bin demo 2>"$w/err" || { cat "$w/err"; exit 9; }
cd "$repo" && cargo build --offline --quiet -p smd --bin smd 2>"$w/err" || { cat "$w/err"; exit 9; }
export HOME="$w/scratch" XDG_CONFIG_HOME="$w/scratch/cfg" CHROME="$here/chrome.py" SMD="$w/target/debug/smd"
cd "$w/scratch" && timeout 60 "$w/target/debug/demo"
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build_test(repo):
    """same commands as /opt/vp, in a copy"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_TEST_DEBUG='line-tables-only')
    p = sh('cargo test --workspace --no-run --offline', repo, env=env)
    if p.returncode:
        return 'build: ' + p.stdout[-1500:]
    log = W + '/log'
    sh('timeout -k 10 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s 2>&1' % log, repo, env=env)
    sh('python3 /opt/vp/results.py %s/out.json cargo:%s' % (W, log), repo)
    o = json.load(open(W + '/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    miss = set(base['stable']) - set(o.get('passed', o.get('pass', [])))
    return 'tests: %s' % sorted(miss) if miss else None


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        shutil.rmtree(W + '/repo', ignore_errors=True)
        sh('cp -a /repo %s/repo' % W)
        r = W + '/repo'
        bad = None
        for f, old, new in b['edits']:
            s = open(os.path.join(r, f)).read()
            if s.count(old) != 1:
                bad = 'edit: %d matches of %r' % (s.count(old), old)
                break
            open(os.path.join(r, f), 'w').write(s.replace(old, new))
        d = W + '/bug'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        if 'script' in b:
            open(d + '/demo.sh', 'w').write(b['script'])
        elif b.get('dep') == 'io':
            open(d + '/demo.sh', 'w').write(IODEMO)
            open(d + '/demo.rs', 'w').write(b['demo'])
            if 'chrome' in b:
                shutil.copy('/verif/vc/fakechrome.py', d + '/chrome.py')
        else:
            dep = {'gfm': 'gfm = { path = "$repo/gfm" }\nlog = "0.4"', 'core': 'smd-core = { path = "$repo/smd-core" }\ndirs = "5.0.1"'}[b.get('dep', 'gfm')]
            open(d + '/demo.sh', 'w').write(DEMO % {'dep': dep})
            open(d + '/demo.rs', 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if not bad:
            p = sh('bash %s/demo.sh' % d, '/repo')
            if p.returncode != 0:
                bad = 'demo fails on the clean tree: ' + p.stdout[-600:]
        if not bad:
            bad = build_test(r)
        if not bad:
            p = sh('bash %s/demo.sh' % d, r)
            if p.returncode == 0:
                bad = 'demo passes with the bug'
            else:
                print('  demo with bug: rc %d %s' % (p.returncode, p.stdout[-200:].strip()))
        if bad:
            print('REJECTED', b['id'], bad)
            continue
        dst = '/verif/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print('KEPT', b['id'])
    shutil.rmtree(W, ignore_errors=True)


main()
