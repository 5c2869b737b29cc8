#!/usr/bin/env python3
"""Applies each planted change to /repo, runs the quick check of its property (or those given after --), undoes it.
Usage: runseeded.py [id ...] [-- C01 C02 ...]"""
import json, os, subprocess, sys, time
args = sys.argv[1:]
props = None
if '--' in args:
    i = args.index('--'); props = args[i+1:]; args = args[:i]
root = '/verif/seeded'
ids = args or sorted(os.listdir(root))
assert subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout == ''
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
for b in ids:
    meta = json.load(open(f'{root}/{b}/meta.json'))
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', f'{root}/{b}/patch.diff'], check=True)
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['bash', '/verif/check.sh', p], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(b, p, 'rc', r.returncode, 'caught' if r.returncode == 1 and v else 'MISSED', f'{time.time()-t:.0f}s', v[0] if v else r.stdout[-300:] if r.returncode not in (0, 1) else '')
            sys.stdout.flush()
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
