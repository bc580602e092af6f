#!/usr/bin/env python3
"""Makes a planted bug: mkseed.py FILE.py [ID..]
FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<body of main.rs>, needs, breaks)].
Keeps it in /verif/seeded/<id> only if it builds, passes the stable tests, and the demonstration
passes on the unchanged tree and fails on the changed one."""
import sys, os, subprocess, json, shutil, runpy
S = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# Builds the program beside this file against the library in the current directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 2
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
piston_meta = { path = "$repo" }
%s[workspace]
EOF
export REPO="$repo" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 2
cargo build -q --offline > build.log 2>&1 || { cat build.log; exit 3; }
timeout 60 "$work/target/debug/demo"
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
for s in seeds:
    if want and s['id'] not in want: continue
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    run(f'cp -a /repo {S}/repo', '/')
    R = S + '/repo'
    d = S + '/seed'
    os.makedirs(d)
    open(d + '/main.rs', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % ('piston_meta_search = { path = "$repo/src/search" }\n' if 'piston_meta_search' in s['demo'] else 'read_token = "1"\n' if 'read_token' in s['demo'] else ''))
    os.chmod(d + '/demo.sh', 0o755)
    clean = run(f'bash {d}/demo.sh', R)
    if clean.returncode != 0:
        print(s['id'], 'DEMO FAILS CLEAN', clean.stdout[-1500:]); continue
    bad = False
    for f, old, new in s['edits']:
        t = open(f'{R}/{f}').read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT MATCHES', t.count(old), repr(old)); bad = True; break
        open(f'{R}/{f}', 'w').write(t.replace(old, new))
    if bad: continue
    diff = subprocess.run('git diff', cwd=R, shell=True, stdout=subprocess.PIPE, text=True).stdout
    # Changed lines must be lines of the original repository.
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    base = subprocess.run('git diff -U0 ff4a212 HEAD -- src assets', cwd=R, shell=True, stdout=subprocess.PIPE, text=True).stdout
    added = {l[1:] for l in base.splitlines() if l.startswith('+')}
    own = [l for l in removed if l in added and l.strip()]
    if removed and len(own) == len([l for l in removed if l.strip()]): print(s['id'], 'WARNING: only changes own lines', own)
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    b = run('cargo test --offline 2>&1', R, env=env)
    ok = [l for l in b.stdout.splitlines() if l.startswith('test result')]
    failed = [l for l in b.stdout.splitlines() if l.endswith('... FAILED')]
    if b.returncode != 0:
        print(s['id'], 'TESTS FAIL', failed or b.stdout[-1500:]); continue
    p = run(f'bash {d}/demo.sh', R)
    if p.returncode in (0, 3):
        print(s['id'], 'DEMO', p.returncode, 'ON CHANGE', p.stdout[-1500:]); continue
    out = '/verif/seeded/' + s['id']
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(s['id'], 'kept')
shutil.rmtree(S, ignore_errors=True)
