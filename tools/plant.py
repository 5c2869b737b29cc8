#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy of /repo and stores them under /verif/seeded/<id>/.

Usage: plant.py SPEC.py [id ...]   (SPEC.py defines BUGS: id -> dict(property, needs, breaks, edits, main))
"""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = '/tmp/plant_scratch'
REPO = SCRATCH + '/repo'

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = 'export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; '

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:] or list(bugs)
    if not os.path.isdir(REPO):
        os.makedirs(SCRATCH)
        sh(f'cp -a /repo {REPO}')
    sh('git checkout -q -- . ', REPO)
    for bid in ids:
        b = bugs[bid]
        out = f'/verif/seeded/{bid}'
        tmp = f'{SCRATCH}/{bid}'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copy(HERE + '/demo.sh', tmp)
        shutil.copy(HERE + '/pre.rs', tmp)
        open(tmp + '/main.rs', 'w').write(b['main'])
        r = sh(f'bash {tmp}/demo.sh', REPO)
        if r.returncode != 0:
            print(bid, 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-3000:]); continue
        ok = True
        for f, old, new in b['edits']:
            s = open(f'{REPO}/{f}').read()
            if s.count(old) != 1:
                print(bid, f'{f}: {s.count(old)} matches for', old[:60]); ok = False; break
            open(f'{REPO}/{f}', 'w').write(s.replace(old, new))
        if ok:
            diff = sh('git diff', REPO).stdout
            r = sh(ENV + 'cargo build --workspace --offline', REPO)
            if r.returncode:
                print(bid, 'DOES NOT BUILD', r.stdout[-3000:]); ok = False
        if ok:
            fails = 0
            for _ in range(4):
                r = sh(ENV + 'timeout 60 cargo test --workspace --no-fail-fast --offline', REPO)
                fails += r.returncode != 0
            if fails:
                lines = [l for l in r.stdout.splitlines() if 'FAILED' in l or 'panicked' in l]
                print(bid, f'TESTS FAIL {fails}/4', lines[:6]); ok = False
        if ok:
            rc = [sh(f'bash {tmp}/demo.sh', REPO).returncode for _ in range(2)]
            if 0 in rc:
                print(bid, 'DEMO DOES NOT FAIL WITH THE CHANGE', rc); ok = False
        sh('git checkout -q -- .', REPO)
        if ok:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            print(bid, 'kept')
        sys.stdout.flush()

main()
