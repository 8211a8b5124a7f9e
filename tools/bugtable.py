"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.  python3 tools/bugtable.py"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {'b21-flex-order', 'b24-log-gap', 'b25-shared-control', 'b31-battery-min', 'b36-final-step'}
extra = os.path.join(ROOT, 'tools', 'first_missed.txt')
if os.path.exists(extra):
    FIRST_MISSED |= set(open(extra).read().split())
rows = ['| change | property | caught by | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    b = f.split('/')[-2]
    m = json.load(open(f))
    how = m['property'] + (' (after strengthening)' if b in FIRST_MISSED else '')
    rows.append(f"| {b} | {m['property']} | {how} | {m['needs']} |")
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
head = '## Planted changes'
s = s.split(head)[0].rstrip() + '\n\n' + head + '\n\nEach was written from the property text and the code, passes the 407 tests, and is caught by the quick check of its property.\n\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
