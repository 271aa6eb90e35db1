#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not a check).

  mutate.py --n 200 --seed 1 --jobs 4 --out FILE [--modules sph,sig]
Plants random small changes in scratch copies of /repo and runs the checks
that enter the changed function; writes one JSON line per mutant."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/spaudiopy'
MODS = ['decoder', 'grids', 'io', 'parsa', 'plot', 'process', 'sig', 'sph',
        'utils']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div,
       ast.MatMult: ast.Mult}
NAMES = {'cos': 'sin', 'sin': 'cos', 'min': 'max', 'max': 'min',
         'floor': 'ceil', 'ceil': 'floor', 'real': 'imag', 'conj': 'real',
         'hstack': 'vstack', 'argmin': 'argmax', 'argmax': 'argmin',
         'rfft': 'fft', 'azi': 'zen', 'zen': 'azi', 'left': 'right',
         'right': 'left', 'abs': 'real', 'sum': 'mean', 'mean': 'sum',
         'zeros': 'ones', 'ones': 'zeros', 'copy': 'view', 'sqrt': 'abs',
         'arctan2': 'hypot', 'round': 'floor', 'any': 'all', 'all': 'any'}


def points(fn):
    """(description, mutator) for a function definition."""
    out = []

    def add(desc, f):
        out.append((desc, f))

    for k, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add('cmp', (k, 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add('bin', (k, 'bin'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add('const', (k, 'const'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add('bool', (k, 'bool'))
        elif isinstance(n, (ast.If, ast.While)):
            add('cond', (k, 'not'))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            add('attr', (k, 'attr'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,
                                                              ast.Not)):
            add('unary', (k, 'unary'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            add('swap', (k, 'swap'))
        elif isinstance(n, ast.BoolOp):
            add('boolop', (k, 'boolop'))
        if hasattr(n, 'body') and isinstance(n.body, list) and \
                not isinstance(n, ast.ClassDef):
            for j, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or (
                        isinstance(s, ast.Expr) and
                        isinstance(s.value, ast.Call)):
                    add('del', (k, 'del', j))
    return out


def apply(fn, p, rng):
    k, what = p[0], p[1]
    n = list(ast.walk(fn))[k]
    old = ast.unparse(n)[:90]
    if what == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif what == 'bin':
        n.op = BIN[type(n.op)]()
    elif what == 'const':
        n.value = rng.choice([n.value + 1, n.value - 1, n.value * 2]) \
            if type(n.value) is int else n.value * rng.choice([1.1, .9, -1])
    elif what == 'bool':
        n.value = not n.value
    elif what == 'not':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif what == 'attr':
        n.attr = NAMES[n.attr]
    elif what == 'unary':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.UAdd()
    elif what == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif what == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif what == 'del':
        old = ast.unparse(n.body[p[2]])[:90]
        n.body[p[2]] = ast.Pass()
        return f'del: {old}'
    return f'{what}: {old} -> {ast.unparse(n)[:90]}'


def funcs(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield f'{n.name}.{m.name}', m


def strip_doc(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and ast.get_docstring(n):
            n.body[0].value.value = ''


def mapping():
    out = {}
    for f in sorted(os.listdir(f'{HERE}/evidence')):
        d = json.load(open(f'{HERE}/evidence/{f}'))
        for k, v in d['coverage']['monitored_function_entries'].items():
            out.setdefault(k.split('/')[-1], []).append((f[:-5], v))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--shards', type=int, default=2)
    ap.add_argument('--out', default='/tmp/w/mut.jsonl')
    ap.add_argument('--modules', default=','.join(MODS))
    a = ap.parse_args()
    rng = random.Random(a.seed)
    mp = mapping()
    pool = []
    trees = {}
    for m in a.modules.split(','):
        trees[m] = ast.parse(open(f'{SRC}/{m}.py').read())
        for name, fn in funcs(trees[m]):
            strip_doc(fn)
            for d, p in points(fn):
                pool.append((m, name, p))
    print(len(pool), 'points')
    rng.shuffle(pool)
    pool = pool[:a.n]
    lock = threading.Lock()
    out = open(a.out, 'a')
    it = iter(pool)
    stat = dict(caught=0, survived=0)

    def worker(w):
        d = f'/tmp/mutw/{a.seed}_{w}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
        while True:
            with lock:
                try:
                    m, name, p = next(it)
                except StopIteration:
                    break
                r = random.Random(f'{m}{name}{p}{a.seed}')
            t = copy.deepcopy(trees[m])
            fn = dict(funcs(t))[name]
            try:
                desc = apply(fn, p, r)
                code = ast.unparse(ast.fix_missing_locations(t))
                compile(code, m, 'exec')
            except Exception as e:
                continue
            with open(f'{d}/spaudiopy/{m}.py', 'w') as f:
                f.write(code)
            ch = [(c, v) for c, v in mp.get(f'{m}.{name}', [])
                  if c not in ('C29', 'C32')]
            ch.sort(key=lambda t: -t[1])
            ch = [c for c, _ in ch][:12]
            if len(ch) < 2:
                ch += ['C32']
            res = None
            t0 = time.time()
            for c in ch:
                q = subprocess.run(
                    [f'{HERE}/run_check.py', c, '--shards', str(a.shards)],
                    env=dict(os.environ, VERIF_REPO=d), cwd=HERE,
                    capture_output=True, text=True)
                if q.returncode == 1:
                    res = c
                    break
                if q.returncode != 0:
                    res = c + ' inconclusive ' + q.stdout[-300:]
                    break
            shutil.copy(f'{SRC}/{m}.py', f'{d}/spaudiopy/{m}.py')
            with lock:
                stat['caught' if res else 'survived'] += 1
                out.write(json.dumps(dict(
                    fn=f'{m}.{name}', mut=desc, by=res, tried=ch,
                    t=round(time.time() - t0))) + '\n')
                out.flush()
        shutil.rmtree(d, ignore_errors=True)

    th = [threading.Thread(target=worker, args=(i,)) for i in range(a.jobs)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    print(stat)


main()
