#!/usr/bin/env python3
"""Development tool: quick look at candidate bugs (or harmless edits).

  probe.py SPECFILE [ID ...]
SPECFILE appends to P entries (id, property, [(file, old, new), ...]).
Every entry is applied to a scratch copy and the property's check run."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    seen = set()
    for i, props, edits in runpy.run_path(sys.argv[1])['P']:
        if sys.argv[2:] and i not in sys.argv[2:]:
            continue
        assert i not in seen, i
        seen.add(i)
        d = tempfile.mkdtemp(prefix='probe_')
        try:
            shutil.copytree('/repo', f'{d}/r', symlinks=True)
            bad = False
            for f, old, new in edits:
                p = f'{d}/r/spaudiopy/{f}'
                s = open(p).read()
                if s.count(old) < 1:
                    print(i, 'NO MATCH', repr(old)[:80], flush=True)
                    bad = True
                    break
                s = s.replace(old, new, 1)
                open(p, 'w').write(s)
            if bad:
                continue
            for prop in props.split():
                t = time.time()
                c = subprocess.run(
                    [f'{HERE}/run_check.py', prop, '--no-evidence'],
                    capture_output=True, text=True,
                    env=dict(os.environ, VERIF_REPO=f'{d}/r'))
                v = [x for x in c.stdout.splitlines() if x[:2] == '  ']
                print(f'{i:28s} {prop} '
                      f'{ {0: "MISSED", 1: "caught"}.get(c.returncode)} '
                      f'{time.time() - t:.0f}s {(v or [""])[0][:110]}',
                      flush=True)
        finally:
            shutil.rmtree(d)


main()
