#!/usr/bin/env python3
"""plant.py DEFS.py: writes /verif/seeded/<id>/ for each definition, from edits to a scratch copy of /repo."""
import sys, os, subprocess, json, runpy, stat
DEMO = r'''#!/bin/bash
# run with cwd = the repository; builds main.rs against it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=/tmp/vp-demo-@ID@
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs" || exit 3
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sudoku = { path = "$repo"@FEAT@ }
rand = "0.8"
@DEPS@
@PROFILE@
E
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline --release > build.log 2>&1 || { tail -20 build.log; rm -rf "/tmp/vp-demo-@ID@"; exit 3; }
@RUN@
rc=$?
rm -rf "/tmp/vp-demo-@ID@"
exit $rc
'''
defs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
for b in defs:
    if only and b['id'] not in only: continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mut/plant'
    subprocess.run(['rm', '-rf', '/tmp/mut/plant'], check=True)
    os.makedirs(w)
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, check=True)
    for f, old, new in b['edits']:
        p = f'{w}/src/{f}'
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (b['id'], f, old, n)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(b['main'])
    demo = DEMO.replace('@ID@', b['id']).replace('@FEAT@', b.get('feat', '')).replace('@DEPS@', b.get('deps', '')).replace('@PROFILE@', b.get('profile', '')).replace('@RUN@', b.get('run', 'timeout 200 "$w/target/release/demo"'))
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('planted', b['id'])
