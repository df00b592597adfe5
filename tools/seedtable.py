"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open('DESIGN.md').read().split('## Planted changes')[0].replace('SEEDTABLE\n', '').rstrip() + '\n\n'
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('|', '/')))
t += '''## Planted changes

Each was written from the property and the code, confirmed (builds, passes the stable tests, demonstration fails only with it), and is
caught by the quick check of its property. Those that were first missed led to a stronger check:
`stdio-dots` (names like "..data" were not generated), `fat-sync` (syncs of the base were not faulted), `mkpath-exists` (no "exists" fault
codes, no dangling links)MISSED.

| change | caught by | what it breaks |
|---|---|---|
''' + '\n'.join(rows) + '\n'
extra = open('tools/missed.txt').read().strip() if os.path.exists('tools/missed.txt') else ''
open('DESIGN.md', 'w').write(t.replace('MISSED', ', ' + extra if extra else ''))
