#!/opt/venv/bin/python
"""Run the check of one property.

  run_check.py CXX [--tier quick|thorough] [--shards N]
  run_check.py CXX --replay FILE        re-run the violating iteration
  run_check.py CXX --case NAME -i K     run one iteration of one case

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no verdict.
"""
import argparse
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
HANG_S = 150      # one iteration takes seconds; longer: it does not terminate


def worker_main(a):
    # a call that never stops collecting fails early and alone
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    os.chdir(a.scratch)
    from vmon import core
    with core.quiet():
        import spaudiopy
    real = os.path.realpath(os.path.dirname(spaudiopy.__file__))
    assert real == os.path.realpath(os.path.join(REPO, 'spaudiopy')), real
    mod = importlib.import_module('checks.' + a.pid.lower())
    only = (a.case, a.iteration) if a.case else None
    core.run_worker(a.pid, mod, a.worker, a.shards, a.seed, a.tier,
                    a.scratch, a.out, a.hb, only)


def known_findings(pid):
    """Lines 'KNOWN property=<id> key=<key> :: <what fails>'."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN property=%s key=' % pid):
                head, what = line.split('::', 1)
                out[head.split('key=', 1)[1].strip()] = what.strip()
    return out


def descendants(pids):
    """Parent map from /proc; children of the processes we started."""
    ppid = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open(f'/proc/{d}/stat') as f:
                    s = f.read()
                ppid[int(d)] = int(s.rsplit(')', 1)[1].split()[1])
            except (OSError, IndexError, ValueError):
                pass
    out, todo = [], list(pids)
    while todo:
        x = todo.pop()
        for c, p in ppid.items():
            if p == x:
                out.append(c)
                todo.append(c)
    return out


def stop(procs):
    alive = [p for p in procs if p.poll() is None]
    kids = descendants([p.pid for p in alive])
    for p in alive:
        p.kill()
    for k in kids:
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass
    for p in procs:
        p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shards', type=int)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--hb')
    ap.add_argument('--scratch')
    ap.add_argument('--case')
    ap.add_argument('-i', '--iteration', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.worker is not None:
        return worker_main(a)
    a.pid = a.pid.upper()
    t0 = time.time()
    meta = json.load(open(os.path.join(HERE, 'checks', 'meta.json')))[a.pid]
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.tier = rep['seed'], rep['tier']
        if meta.get('replay') != 'history':
            a.case, a.iteration = rep['case'], rep['iteration']
    nsh = a.shards or meta.get('shards', 8)
    if a.case:
        nsh = 1
    scratch = tempfile.mkdtemp(prefix='vmon_%s_' % a.pid)
    rc = 2
    procs = []
    try:
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   NUMBA_NUM_THREADS='1', PYTHONHASHSEED='0',
                   PYTHONWARNINGS='ignore', HOME=scratch, TMPDIR=scratch,
                   NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
                   VERIF_REPO=REPO)
        env.pop('PYTHONPATH', None)
        for i in range(nsh):
            d = os.path.join(scratch, 'w%d' % i)
            os.makedirs(os.path.join(d, 'mpl'))
            if os.path.isdir('/opt/vp/mplconfig'):
                shutil.copytree('/opt/vp/mplconfig', os.path.join(d, 'mpl'),
                                dirs_exist_ok=True)
            e = dict(env, MPLCONFIGDIR=os.path.join(d, 'mpl'))
            cmd = [PY, '-B', os.path.join(HERE, 'run_check.py'), a.pid,
                   '--tier', a.tier, '--seed', str(a.seed), '--shards',
                   str(nsh), '--worker', str(i), '--scratch', d,
                   '--out', os.path.join(d, 'res.json'),
                   '--hb', os.path.join(d, 'hb')]
            if a.case:
                cmd += ['--case', a.case, '-i', str(a.iteration)]
            log = open(os.path.join(d, 'log'), 'w')
            procs.append(subprocess.Popen(cmd, env=e, stdout=log,
                                          stderr=log, cwd=d))
        budget = 800 if a.tier == 'quick' else 6 * 3600
        hung = {}
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            for i, p in enumerate(procs):
                hb = os.path.join(scratch, 'w%d' % i, 'hb')
                if p.poll() is None and i not in hung and os.path.exists(hb):
                    if now - os.path.getmtime(hb) > meta.get('hang_s',
                                                             HANG_S):
                        hung[i] = open(hb).read().split()
                        stop([p])
            if now - t0 > budget:
                break
        timeout = any(p.poll() is None for p in procs)
        stop(procs)
        rc = report(a, meta, nsh, scratch, procs, hung, timeout, t0)
    finally:
        stop(procs)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(a, meta, nsh, scratch, procs, hung, timeout, t0):
    results, dead = [], []
    for i in range(nsh):
        f = os.path.join(scratch, 'w%d' % i, 'res.json')
        if os.path.exists(f):
            results.append(json.load(open(f)))
        elif i not in hung:
            log = open(os.path.join(scratch, 'w%d' % i, 'log')).read()
            hb = os.path.join(scratch, 'w%d' % i, 'hb')
            dead.append((i, procs[i].returncode, log[-3000:],
                         open(hb).read().split() if os.path.exists(hb)
                         else None))
    known = known_findings(a.pid)
    viol, seen_known, errors = [], {}, []
    for r in results:
        for v in r['violations']:
            if v['key'] is not None and v['key'] in known:
                seen_known[v['key']] = known[v['key']]
            else:
                viol.append(dict(v, shard=r['shard']))
        for e in r['errors']:
            kind = e['msg'].split(':')[0]
            if kind in ('MemoryError', 'OSError', 'FileNotFoundError',
                        'PermissionError', 'ImportError',
                        'ModuleNotFoundError', 'BlockingIOError',
                        'BrokenProcessPool'):
                errors.append(e)
            else:
                viol.append({'case': e['case'], 'iteration': e['iteration'],
                             'key': None, 'shard': r['shard'],
                             'msg': 'result could not be evaluated by the '
                                    'oracle: ' + e['msg'], 'data': e})
    for i, h in hung.items():
        viol.append({'case': h[0], 'iteration': int(h[1]), 'key': None,
                     'shard': i, 'msg': 'did not terminate', 'data': {}})
    if a.replay and not viol and not errors:
        print('not reproduced in isolation; rerun the whole check with '
              'VERIF_SEED=%d VERIF_TIER=%s (history dependent)'
              % (a.seed, a.tier))
    counts, cover, fnc, lines, maxdev = {}, {}, {}, {}, {}
    dig = set()
    samples = []
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in r['cover'].items():
            cover[k] = cover.get(k, 0) + n
        for k, n in r['fn_calls'].items():
            fnc[k] = fnc.get(k, 0) + n
        for k, ln in r['lines'].items():
            lines.setdefault(k, set()).update(ln)
        for k, d in r['maxdev'].items():
            maxdev[k] = max(d, maxdev.get(k, 0))
        dig.update(r['digests'])
        samples += r['samples']
    missing = [f for f in meta.get('must_reach', []) if not fnc.get(f)]
    evals = sum(counts.values())
    decisions = sum(r['decisions'] for r in results)
    status = 0
    if viol:
        status = 1
    elif dead or errors or timeout or not evals or not decisions:
        status = 2
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(dig),
            'rule': 'One evaluation is one randomised case iteration that '
                    'drives the real code. It counts as distinct and '
                    'non-trivial when the digest of all observed calls '
                    '(function and arguments) is new and at least one oracle '
                    'decision was taken on their results. ' +
                    meta.get('rule', ''),
            'samples': sorted(samples, key=lambda s: (s['case'],
                                                      s['iteration']))[:10],
            'cases': counts,
            'oracle_decisions': decisions,
            'observed_calls': sum(r['calls'] for r in results),
            'neighbouring_calls': sum(r['probes'] for r in results),
            'repeated_calls': sum(r['repeats'] for r in results),
            'later_replays': sum(r['replays'] for r in results),
            'states': len(cover),
            'states_seen': dict(sorted(cover.items(), key=lambda t: -t[1])
                                [:60]),
            'monitored_function_entries': dict(sorted(
                fnc.items(), key=lambda t: -t[1])[:60]),
            'lines_executed': {k: len(v) for k, v in sorted(lines.items())},
            'largest_deviation_over_tolerance': {
                k: float('%.3g' % d) for k, d in sorted(maxdev.items())},
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    ev['coverage'].pop('states')
    ev['coverage']['distinct_states'] = len(cover)
    if missing:
        ev['coverage']['not_reached'] = missing
    if not a.no_evidence and not a.case and 'VERIF_REPO' not in os.environ:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', a.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
    for k, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
    print('%s %s: %d cases, %d distinct, %d oracle decisions, %d repeats, '
          '%d states, %.1f s' % (a.pid, a.tier, evals, len(dig), decisions,
                                 ev['coverage']['repeated_calls'],
                                 len(cover), time.time() - t0))
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        shown = set()
        for v in viol:
            if v['case'] in shown:
                continue
            shown.add(v['case'])
            p = os.path.join(HERE, 'replay', '%s_%s_%s.json' %
                             (a.pid, v['case'], v['iteration']))
            with open(p, 'w') as f:
                json.dump(dict(v, property=a.pid, seed=a.seed, tier=a.tier,
                               shards=nsh), f, indent=1)
            print('  %s[%s]: %s' % (v['case'], v['iteration'],
                                    v['msg'][:300]))
            print('VIOLATION property=%s replay=%s' % (a.pid, p))
    for i, code, log, hb in dead:
        print('worker %d ended with %s at %s:\n%s' % (i, code, hb, log))
    for e in errors:
        print('oracle error', e['case'], e['iteration'], e['msg'])
    if timeout:
        print('time budget exceeded')
    return status


if __name__ == '__main__':
    sys.exit(main() or 0)
