"""Writes properties.jsonl, MANIFEST.json and the fixed entries of KNOWN_FINDINGS.json.  python3 tools/docs.py"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props_data import P  # noqa
from fixed_data import FIXED  # noqa
from na_data import NA  # noqa

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps({k: v for k, v in p.items() if k != '_note'}) + '\n')

na = {x['property'] for x in NA}
NOTE = ('exhaustive within the bounds printed in the evidence file: every execution of the real code over a finite alphabet of '
        'configurations and actions; values outside the alphabets, longer histories and floating-point effects below 1e-7 are not covered. '
        'The oracle (mc/ref.py or the relation stated) is trusted; it is independent of the code under check')
checks = [dict(property=p['id'], quick_cmd=f'bash run.sh {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough bash run.sh {p["id"]}',
               technique=p['_note'] or 'explicit-state model checking of the real code: bounded exhaustive exploration of action sequences in lock step with a reference model',
               level='model_checking', level_note=NOTE) for p in P if p['id'] not in na]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
                   notes='No hooks: all checks use the public API of /repo/src directly.'), f, indent=1)
    f.write('\n')

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixes = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log if ' fix: ' in l}
k = json.load(open(os.path.join(ROOT, 'KNOWN_FINDINGS.json')))
out = []
for subj, h in reversed(list(fixes.items())):
    s = subj[len('fix: '):]
    assert s in FIXED, s
    out.append(f'fixed: property={FIXED[s]} {h} {s}')
k['fixed'] = out
with open(os.path.join(ROOT, 'KNOWN_FINDINGS.json'), 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')
