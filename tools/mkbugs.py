"""Regenerates /verif/seeded/<id>/ from tools/bugs.py, and confirms each.   mkbugs.py [--make] [--verify] [--check] [ids]
--make: patch.diff, demo.sh, demo.py, meta.json   --verify: build, tests, demo   --check: run the property's quick check
Applies patches in /repo and always undoes them."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from bugs import BUGS  # noqa

REPO = '/repo'
HEAD = '''import warnings
warnings.simplefilter('ignore')
import logging
import numpy as np
import pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    r = sh('git -C /repo status --porcelain')
    assert not r.stdout.strip(), r.stdout


def make(b):
    clean()
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(REPO, 'src/pymgrid', f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + b['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(b):
    return sh(f'bash {ROOT}/seeded/{b["id"]}/demo.sh', cwd=REPO, timeout=300)


def apply(b):
    r = sh(f'git -C /repo apply {ROOT}/seeded/{b["id"]}/patch.diff')
    assert r.returncode == 0, (b['id'], r.stderr)


def main():
    args = sys.argv[1:]
    opts = {a for a in args if a.startswith('--')} or {'--make', '--verify', '--check'}
    ids = [a for a in args if not a.startswith('--')]
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        line = [b['id'], b['prop']]
        if '--make' in opts:
            make(b)
        clean()
        if '--verify' in opts:
            r = demo(b)
            line.append('clean-demo=' + ('ok' if r.returncode == 0 else 'FAIL ' + r.stderr[-300:] + r.stdout[-200:]))
        try:
            apply(b)
            if '--verify' in opts:
                r = demo(b)
                line.append('bug-demo=' + ('detected' if r.returncode else 'MISSED'))
                if r.returncode and 'Assertion' not in r.stderr:
                    line.append('(' + r.stderr.strip().splitlines()[-1][:150] + ')')
                t = sh('bash /opt/vp/test.sh /tmp/w/bug.json')
                res = json.load(open('/tmp/w/bug.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                bad = t.stdout.strip().splitlines()[-1]
                line.append('tests: ' + bad)
            if '--check' in opts:
                r = sh(f'bash {ROOT}/run.sh {b["prop"]}')
                hit = [x for x in r.stdout.splitlines() if x.startswith(f'VIOLATION property={b["prop"]}')]
                line.append('CAUGHT' if r.returncode == 1 and hit else f'NOT CAUGHT rc={r.returncode}')
        finally:
            sh('git -C /repo checkout -- .')
        print(' | '.join(line), flush=True)


main()
