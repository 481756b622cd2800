#!/usr/bin/env python3
"""seed.py NAME...: (re)create /verif/seeded/NAME from tools/seedlist.py and confirm it on /repo (applied and undone)."""
import sys, os, subprocess, json, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seedlist import SEEDS
H = '/verif/seeded'
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it: exit 0 iff the property holds on it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/demo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOT
[package]
name = "replay"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
llm-samplers = { path = "$R" }
rand = "0.8"
anyhow = "1"
EOT
cd "$T"
CARGO_TARGET_DIR="$T/t" cargo build --offline --quiet
timeout 60 "$T/t/debug/replay"
'''
PRE = '#![allow(unused)]\nuse llm_samplers::prelude::*;\nuse llm_samplers::{configure::*, samplers::*, types::*};\n'
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
def main():
    names = sys.argv[1:] or list(SEEDS)
    for n in names:
        s = SEEDS[n]
        d = '%s/%s' % (H, n)
        os.makedirs(d, exist_ok=True)
        assert run('git -C /repo status --porcelain').stdout == ''
        try:
            for f, old, new in s['edits']:
                p = '/repo/src/' + f
                t = open(p).read()
                assert t.count(old) == 1, (n, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = run('git -C /repo diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.rs', 'w').write(PRE + s['demo'])
            open(d + '/demo.sh', 'w').write(DEMO)
            shutil.copy('/verif/harness/Cargo.lock', d + '/demo.lock')
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r = run('bash /opt/vp/build.sh')
            if r.returncode: print(n, 'BUILD FAILS', r.stderr[-1500:]); continue
            run('bash /opt/vp/test.sh /tmp/sd/out.json')
            o = json.load(open('/tmp/sd/out.json'))
            r1 = run('bash %s/demo.sh' % d, cwd='/repo')
        finally: subprocess.run('git -C /repo checkout -q -- .', shell=True)
        r0 = run('bash %s/demo.sh' % d, cwd='/repo')
        fails = [k for k in o.get('failed', [])] if isinstance(o.get('failed'), list) else o
        print(n, 'demo unchanged rc', r0.returncode, 'with patch rc', r1.returncode, 'failed tests', fails)
        if r0.returncode: print(r0.stdout[-1000:], r0.stderr[-2500:])
main()
