"""Confirm planted bugs and write them to seeded/ (development tool).

usage: plant.py SPECS.py [ID ...]   SPECS.py defines SEEDS, a list of dicts:
id, property, edits [(file, old, new)], demo (python source that exits
non-zero or raises when the property is broken), needs, breaks.
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'fbede4c'
W = '/tmp/w/plant'
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
DIR="$(cd "$(dirname "$0")" && pwd)"
SCRATCH=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'case "$SCRATCH" in /tmp/demo.*) rm -rf -- "$SCRATCH";; esac' EXIT
export SCRATCH HOME="$SCRATCH" MPLCONFIGDIR="$SCRATCH" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$SCRATCH"
/opt/venv/bin/python -W ignore "$DIR/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True,
                          text=True, timeout=timeout, shell=True)


def norm(s):
    return re.sub(r'\s+', ' ', s).strip()


def one(s):
    name = s['id']
    w = f'{W}/{name}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        sh('git checkout -q -- .', w)
        for f, old, new in s['edits']:
            p = f'{w}/spaudiopy/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return name, f'EDIT matches {t.count(old)} times: {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        removed = [q[1:] for q in diff.splitlines()
                   if q.startswith('-') and not q.startswith('---')]
        base = ''.join(sh(f'git show {BASE}:spaudiopy/{f}', w).stdout
                       for f in {e[0] for e in s['edits']})
        basel = {norm(q) for q in base.splitlines()}
        new = [q for q in removed if norm(q) and norm(q) not in basel]
        if new:
            return name, f'not original lines: {new}'
        d = f'{ROOT}/seeded/{name}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(f'{d}/meta.json', 'w'), indent=1)

        def bad(msg):
            shutil.rmtree(d, ignore_errors=True)
            return name, msg
        r = sh(f'bash {d}/demo.sh', '/repo', timeout=300)
        if r.returncode != 0:
            return bad(f'demo fails on /repo: {r.stderr[-400:]}{r.stdout[-200:]}')
        r = sh(f'bash {d}/demo.sh', w, timeout=300)
        if r.returncode == 0:
            return bad('demo passes on the bug')
        dmsg = (r.stderr.strip().splitlines() or ['?'])[-1][:100]
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
               '--timeout=300 -x 2>&1 | tail -3', w,
               dict(PYTHONPATH=w, MPLCONFIGDIR='/tmp/w/mpl'))
        if ' failed' in r.stdout or 'passed' not in r.stdout:
            return bad(f'tests: {r.stdout[-300:]}')
        v = f'{W}/{name}_verif'
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(
            '.git', 'seeded'))
        r = sh(f'bash {v}/check.sh {s["property"]} quick', '/tmp',
               dict(VERIF_REPO=w, VERIF_JOBS='3', VERIF_SEED='1'), 900)
        shutil.rmtree(v, ignore_errors=True)
        got = [q for q in r.stdout.splitlines() if q.startswith('VIOLATION')]
        if r.returncode == 1 and got:
            subs = [re.search(r'C\d\d_(\w+)\.json', q).group(1) for q in got]
            return name, f'caught {s["property"]} {subs} | demo: {dmsg}'
        return name, f'MISSED (exit {r.returncode}) {r.stderr[-200:]} | ' \
            f'demo: {dmsg}'
    finally:
        shutil.rmtree(w, ignore_errors=True)


ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
os.makedirs(W, exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '3'))) as ex:
    for n, m in ex.map(one, todo):
        print(n, ':', m, flush=True)
shutil.rmtree(W, ignore_errors=True)
