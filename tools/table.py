#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md. Usage: table.py LOG... (logs of runseeded.py)"""
import json, os, sys
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 4:
            got[w[0]] = (w[1], w[4], w[-1].rsplit('-', 1)[-1].replace('.json', '').replace('run', 'run ') if 'replay=' in l else '')
p = '/verif/DESIGN.md'
s = open(p).read()
head = s[:s.index('## Seeded changes')]
t = '''## Seeded changes

Each was written from a property's text, confirmed in a scratch copy (builds, existing tests pass, `demo.sh`
fails with it and passes without), and run against the quick check of its own property with seed 1 (`run`:
index of the first failing run). `tools/plant.py` confirms them, `tools/runseeded.py` runs the checks on them.

| id | needs | own check |
|---|---|---|
'''
for b in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{b}/meta.json'))
    prop, verdict, run = got.get(b, (m['property'], 'not run', ''))
    t += f"| {b} | {m['needs']} | {prop} {verdict}{', ' + run if run else ''} |\n"
open(p, 'w').write(head + t)
