#!/usr/bin/env python3
"""Plant the bugs described in a spec file and confirm each of them.

usage: plant.py SPEC.py [ID...]

SPEC.py defines `bugs`: a list of dicts id, property, needs, breaks, edits [(file, old, new)], demo (Rust text).
For every bug: makes a scratch copy of /repo under /tmp, applies the edits, and keeps it under /verif/seeded/<id> only if
it changes original lines only, builds, passes the repository's tests, and its demonstration passes without it and fails
with it.
"""
import json, os, shutil, subprocess, sys, re

ORIGINAL = 'e2db561'
SCRATCH = '/tmp/plant'
REPO = '/repo'
OUT = '/verif/seeded'

DEMO = r'''#!/bin/bash
# Runs the demonstration in demo.rs inside a scratch copy of the crate in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d /tmp/vp_demo.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$d"' EXIT
cp Cargo.toml "$d/" && cp -r src "$d/src" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$d/"
cp "$here/demo.rs" "$d/src/vp_demo.rs"
printf '\n#[cfg(test)] #[allow(dead_code, unused_variables)] mod vp_demo;\n' >> "$d/src/lib.rs"
cd "$d" || exit 2
RUST_BACKTRACE=0 CARGO_TARGET_DIR="${VP_DEMO_TARGET:-$d/target}" CARGO_PROFILE_TEST_OPT_LEVEL=2 timeout 280 cargo test --offline --lib vp_demo -- --test-threads=1 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def blame(path):
    out = subprocess.run(['git', 'blame', '-s', '-l', path], cwd=REPO, stdout=subprocess.PIPE, universal_newlines=True).stdout
    return [l.split()[0].lstrip('^') for l in out.splitlines()]

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    mine = set(subprocess.run(['git', 'log', '--format=%H', ORIGINAL + '..HEAD'], cwd=REPO, stdout=subprocess.PIPE, universal_newlines=True).stdout.split())
    env = dict(os.environ, VP_DEMO_TARGET=SCRATCH + '/target')
    os.makedirs(SCRATCH, exist_ok=True)
    for b in spec['bugs']:
        if only and b['id'] not in only:
            continue
        copy = SCRATCH + '/repo'
        subprocess.run(['rm', '-rf', '/tmp/plant/repo'])
        subprocess.run(['git', 'clone', '-q', REPO, copy], check=True)
        bad = []
        for f, old, new in b['edits']:
            p = copy + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                bad.append('%d matches in %s: %r' % (t.count(old), f, old))
                continue
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(b['id'], 'EDIT', bad); continue
        diff = sh('git diff', copy).stdout
        zero = sh('git diff -U0', copy).stdout
        touched, own, f = 0, 0, None
        for l in zero.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: f = m.group(1); who = blame(f)
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                for i in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                    if who[i - 1] in mine: own += 1
                    else: touched += 1
        if own or not touched:
            print(b['id'], 'LINES touched', touched, 'own', own); continue
        d = OUT + '/' + b['id']
        tmp = SCRATCH + '/seed'
        subprocess.run(['rm', '-rf', '/tmp/plant/seed'])
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        r = sh('. /opt/vp/env.sh; CARGO_TARGET_DIR=%s/target cargo build --offline 2>&1 && CARGO_TARGET_DIR=%s/target cargo test --offline --lib 2>&1' % (SCRATCH, SCRATCH), copy)
        if r.returncode or '10 passed' not in r.stdout:
            print(b['id'], 'TESTS', r.stdout[-1500:]); continue
        withp = sh('bash %s/demo.sh' % tmp, copy, env=env)
        sh('git checkout -q -- .', copy)
        without = sh('bash %s/demo.sh' % tmp, copy, env=env)
        ok = without.returncode == 0 and '1 passed' in without.stdout and withp.returncode == 101 and 'FAILED' in withp.stdout
        if not ok:
            print(b['id'], 'DEMO without', without.returncode, without.stdout[-1800:], 'with', withp.returncode, withp.stdout[-1500:]); continue
        m = re.search(r"panicked at.*\n.*", withp.stdout)
        subprocess.run(['rm', '-rf', d] if d.startswith('/verif/seeded/') else ['true'])
        shutil.copytree(tmp, d)
        print(b['id'], 'kept:', m.group(0).replace('\n', ' ')[:150] if m else '?')

main()
