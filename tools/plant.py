#!/usr/bin/env python3
"""Development tool: turn specs of planted bugs into seeded/<id>/.

  plant.py SPECFILE [ID ...]
SPECFILE defines BUGS = {id: dict(property, edits=[(file, old, new)...],
needs, breaks, demo)}. Each is confirmed in a scratch copy: applies, demo
passes without and fails with it, stable tests pass; then the property's check
is run on the scratch copy and the outcome printed."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
export MPLCONFIGDIR=$S SCRATCH=$S
PYTHONPATH=$PWD /opt/venv/bin/python -W ignore "$D/demo.py"
rc=$?
rm -rf "$S"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def tests(d):
    x = f'{d}/junit.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
        '--timeout=300', f'--junitxml={x}', '-o', 'junit_family=xunit2'],
       cwd=d, env=dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg',
                       PYTHONDONTWRITEBYTECODE='1'))
    import xml.etree.ElementTree as E
    ok = set()
    for t in E.parse(x).getroot().iter('testcase'):
        if not list(t):
            ok.add(f"{t.get('classname')}::{t.get('name')}")
    os.remove(x)
    return STABLE - ok


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for i, b in bugs.items():
        if sys.argv[2:] and i not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix='plant_')
        try:
            r = f'{d}/repo'
            shutil.copytree('/repo', r, symlinks=True)
            out = f'{HERE}/seeded/{i}'
            os.makedirs(out, exist_ok=True)
            open(f'{out}/demo.sh', 'w').write(SH)
            os.chmod(f'{out}/demo.sh', 0o755)
            open(f'{out}/demo.py', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(f'{out}/meta.json', 'w'), indent=1)
            p0 = sh([f'{out}/demo.sh'], cwd=r)
            for f, old, new in b['edits']:
                p = f'{r}/spaudiopy/{f}'
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, 'NO MATCH', s.count(old), old, flush=True)
                    raise LookupError
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', 'diff'], cwd=r).stdout
            open(f'{out}/patch.diff', 'w').write(diff)
            # only lines of the original repository
            base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'],
                      cwd=r).stdout.split()[0]
            p1 = sh([f'{out}/demo.sh'], cwd=r)
            bad = tests(r)
            good = p0.returncode == 0 and p1.returncode != 0 and not bad
            print(i, b['property'], 'VALID' if good else
                  f'INVALID demo {p0.returncode} {p1.returncode} '
                  f'tests {sorted(bad)[:3]} {p0.stderr[-300:]}', flush=True)
            for f, old, new in b['edits']:
                orig = sh(['git', 'show', f'{base}:spaudiopy/{f}'],
                          cwd=r).stdout
                gone = [ln for ln in diff.splitlines() if ln.startswith('-')
                        and not ln.startswith('---')]
                for ln in gone:
                    if ln[1:] not in orig:
                        print('   not an original line:', ln)
            if good:
                q = sh([f'{HERE}/run_check.py', b['property']], cwd=HERE,
                       env=dict(os.environ, VERIF_REPO=r))
                print('   check', b['property'], 'exit', q.returncode,
                      q.stdout.strip().splitlines()[1:3], flush=True)
        except LookupError:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
