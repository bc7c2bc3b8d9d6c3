"""planted bugs: writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from the descriptions in tools/seeds/*.py
usage: seeds.py [id ...]   (checks old text is present once, patch applies)"""
import difflib
import glob
import json
import os
import runpy
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
LIB = 'src/lib/pytornado/'
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
PYTHONPATH="$PWD/src/lib" MPLBACKEND=Agg MPLCONFIGDIR="$S" HOME="$S" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 SCRATCH="$S" /opt/venv/bin/python "$D/demo.py"
'''
HEAD = open(V + '/tools/seed_head.py').read()
seeds = {}
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    d = runpy.run_path(f)
    seeds[os.path.basename(f)[:-3]] = d
for k in sys.argv[1:] or seeds:
    d = seeds[k]
    out = V + '/seeded/' + k
    os.makedirs(out, exist_ok=True)
    diff = ''
    byfile = {}
    for fn, old, new in d['EDITS']:
        byfile.setdefault(fn, []).append((old, new))
    for fn, ed in byfile.items():
        src = open(REPO + '/' + LIB + fn).read()
        txt = src
        for old, new in ed:
            assert txt.count(old) == 1, (k, fn, txt.count(old), old)
            txt = txt.replace(old, new)
        diff += ''.join(difflib.unified_diff(src.splitlines(True), txt.splitlines(True), 'a/' + LIB + fn, 'b/' + LIB + fn))
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(HEAD + d['DEMO'])
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    print(k, 'written')
