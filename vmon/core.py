"""Core of the runtime monitors: workload driver, event recording, verdicts.

A check module (checks/cXX.py) registers *cases* with the decorator `case`.
A case is one randomised workload step; it calls the real code through
`ctx.call` (every call is an observed event: arguments are fingerprinted before
and after, results may be replayed later to expose hidden state) and decides
with `ctx.ok` / `ctx.close` (oracle decisions).
"""
import copy
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import types
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, data=None, key=None):
        super().__init__(msg)
        self.msg = msg
        self.data = data or {}
        self.key = key


class TargetError(Violation):
    """The code under test raised on an input for which it has to work."""


# ------------------------------------------------------------------ cases
class Case:
    def __init__(self, fn, quick, thorough):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough


def registry(scale=1):
    """scale: factor for the cases whose number of runs is a free choice."""
    cases = []

    def case(quick, thorough=None):
        def deco(fn):
            cases.append(Case(fn, 2 * quick * scale, quick * scale * 12)
                         if thorough is None else
                         Case(fn, quick, thorough))
            return fn
        return deco
    return cases, case


# ----------------------------------------------------------- fingerprints
_OBJ_ATTRS = {
    'HRIRs': ('left', 'right', 'azi', 'zen', 'fs'),
    'MonoSignal': ('signal', 'fs'),
    'MultiSignal': ('channels', 'fs'),
    'AmbiBSignal': ('channels', 'fs'),
    'LoudspeakerSetup': ('x', 'y', 'z', 'd', 'a', 'points', 'simplices',
                         'valid_simplices', 'centroids', 'face_areas',
                         'face_normals', 'vertex_normals', 'barycenter',
                         'ls_gains', 'listener_position'),
}


def fingerprint(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('obj', o.shape)
        return ('nd', str(o.dtype), o.shape,
                hashlib.blake2b(np.ascontiguousarray(o).tobytes(),
                                digest_size=12).hexdigest())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fingerprint(x, depth + 1)
                                           for x in o)
    if isinstance(o, dict):
        return ('d',) + tuple((k, fingerprint(v, depth + 1))
                              for k, v in sorted(o.items(), key=lambda t:
                                                 str(t[0])))
    if isinstance(o, (int, float, complex, str, bytes, bool, type(None),
                      np.generic)):
        return repr(o)
    attrs = _OBJ_ATTRS.get(type(o).__name__)
    if attrs is not None and depth < 6:
        return (type(o).__name__,) + tuple(
            (a, fingerprint(getattr(o, a, None), depth + 1)) for a in attrs)
    return type(o).__name__


def plain(o):
    """Only arrays, numbers, strings and lists of them?"""
    if isinstance(o, np.ndarray):
        return o.dtype != object
    if isinstance(o, (list, tuple)):
        return all(plain(x) for x in o)
    return isinstance(o, (int, float, complex, str, bool, type(None),
                          np.generic))


def nbytes(o):
    if isinstance(o, np.ndarray):
        return o.nbytes
    if isinstance(o, (list, tuple)):
        return sum(nbytes(x) for x in o)
    return 8


def arrays_in(o, out):
    if isinstance(o, np.ndarray):
        out.append(o)
    elif isinstance(o, (list, tuple)):
        for x in o:
            arrays_in(x, out)
    return out


def same(a, b, rtol=1e-6):
    """Equality of results up to round off, NaN equal to NaN."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in 'fciub' or b.dtype.kind not in 'fciub':
            return bool(np.array_equal(a, b))
        if a.size == 0:
            return True
        with np.errstate(all='ignore'):
            fin = np.abs(a[np.isfinite(a)])
            scale = fin.max() if fin.size else 0.
            return bool(np.allclose(a, b, rtol=rtol, atol=rtol * scale + 5e-8,
                                    equal_nan=True))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, (float, complex, int, np.generic)) and \
            not isinstance(a, (bool, str, np.str_)):
        try:
            return same(np.asarray(a), np.asarray(b), rtol)
        except Exception:
            return False
    return a == b


def describe(o, n=8):
    if isinstance(o, np.ndarray):
        flat = o.ravel()
        return {'shape': list(o.shape), 'dtype': str(o.dtype),
                'head': [describe(x) for x in flat[:n]]}
    if isinstance(o, (list, tuple)):
        if len(o) > 12:
            return [describe(x, 3) for x in o[:6]] + [f'... {len(o)} items']
        return [describe(x, n) for x in o]
    if isinstance(o, dict):
        return {str(k): describe(v, n) for k, v in list(o.items())[:20]}
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o) if math.isfinite(o) else repr(float(o))
    if isinstance(o, (complex, np.complexfloating)):
        return repr(complex(o))
    if o is None or isinstance(o, str):
        return o
    return repr(o)[:120]


# ---------------------------------------------------------------- tracing
class Tracer:
    """Records function entries and executed lines of the code under test."""

    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), '')
        self.calls = {}
        self.lines = {}
        self.names = {}
        self.on = False

    def start(self):
        mon = sys.monitoring
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, 'vmon')
        except ValueError:
            return
        ev = mon.events
        DIS = mon.DISABLE
        root = self.root
        names = self.names

        def rel(code):
            r = names.get(code)
            if r is None:
                fn = code.co_filename
                if fn.startswith(root):
                    r = fn[len(root):]
                else:
                    r = False
                names[code] = r
            return r

        def py_start(code, off):
            r = rel(code)
            if not r:
                return DIS
            k = r[:-3] + '.' + code.co_qualname
            self.calls[k] = self.calls.get(k, 0) + 1

        def line(code, no):
            r = rel(code)
            if r:
                self.lines.setdefault(r, set()).add(no)
            return DIS

        mon.register_callback(self.tool, ev.PY_START, py_start)
        mon.register_callback(self.tool, ev.LINE, line)
        mon.set_events(self.tool, ev.PY_START | ev.LINE)
        self.on = True


# -------------------------------------------------------------------- ctx
class Ctx:
    def __init__(self, pid, seed, tier, scratch):
        self.pid = pid
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        self.n_calls = 0
        self.n_decisions = 0
        self.n_replays = 0
        self.n_repeats = 0
        self.n_probes = 0
        self.slow = {}
        self.cover_keys = {}
        self.digests = set()
        self.reservoir = []
        self.samples = []
        self.maxdev = {}
        self._case = None

    # -- life cycle of one case iteration
    def begin(self, case, i):
        ss = f'{self.seed}/{self.pid}/{case}/{i}'
        h = int.from_bytes(hashlib.blake2b(ss.encode(), digest_size=8)
                           .digest(), 'big')
        self.rng = np.random.default_rng(h)
        self.prng = np.random.default_rng(h + 1)
        np.random.seed(h % 2**32)
        random.seed(h)
        self._case = case
        self._i = i
        self._dig = hashlib.blake2b(case.encode(), digest_size=8)
        self._dec0 = self.n_decisions
        self._trivial = False
        self._calls = []

    def end(self):
        if self.n_decisions > self._dec0 and not self._trivial:
            self.digests.add(self._dig.hexdigest())
            if len(self.samples) < 40 and self._i < 3:
                self.samples.append({'case': self._case, 'iteration': self._i,
                                     'calls': self._calls[:3]})
        # replay an older call: the result must not depend on what ran since
        if self.reservoir and self.rng.random() < 0.25:
            k = int(self.rng.integers(len(self.reservoir)))
            name, fn, args, kw, res = self.reservoir[k]
            self.n_replays += 1
            self.n_decisions += 1
            a2, k2 = copy.deepcopy((args, kw))
            with quiet():
                r2 = fn(*a2, **k2)
            if not same(r2, res):
                raise Violation(f'{name}: the same call gave another result '
                                'later in the same process',
                                {'args': describe(list(args)),
                                 'kwargs': describe(kw),
                                 'first': describe(res),
                                 'later': describe(r2)})

    def trivial(self):
        self._trivial = True

    def cover(self, key, n=1):
        key = str(key)
        self.cover_keys[key] = self.cover_keys.get(key, 0) + n

    # -- observed call of the code under test
    def call(self, fn, *args, **kw):
        """Call the code under test; an exception is a violation."""
        pure = kw.pop('_pure', True)
        mut = kw.pop('_mut', True)     # watch arguments for changes
        name = getattr(fn, '__qualname__', str(fn))
        mod = getattr(fn, '__module__', '') or ''
        name = mod.split('.')[-1] + '.' + name
        self.n_calls += 1
        before = fingerprint([args, kw]) if mut else None
        self._dig.update(repr((name, before)).encode())
        if len(self._calls) < 3:
            self._calls.append({'fn': name, 'args': describe(list(args), 3),
                                'kwargs': describe(kw, 3)})
        if pure and self.prng.random() < .15 and \
                self.slow.get(name, 0.) < .25:
            self._neighbour(fn, args, kw)
        t0 = time.perf_counter()
        keep = None
        if pure and plain(list(args)) and plain(list(kw.values())) and \
                nbytes(list(args)) < 2e6:
            if self.rng.random() < 0.2:
                keep = copy.deepcopy((args, kw))
        try:
            with quiet():
                res = fn(*args, **kw)
        except Exception as e:
            raise TargetError(f'{name} raised {type(e).__name__}: {e}',
                              {'args': describe(list(args)),
                               'kwargs': describe(kw),
                               'traceback': short_tb()}) from e
        self.slow[name] = time.perf_counter() - t0
        if mut and fingerprint([args, kw]) != before:
            raise Violation(f'{name} altered its arguments',
                            {'args_after': describe(list(args)),
                             'kwargs': describe(kw)})
        if keep is not None and nbytes_res(res) < 4e6:
            self.n_repeats += 1
            self.n_decisions += 1
            r1 = copy.deepcopy(res)
            a2, k2 = copy.deepcopy(keep)
            a3, k3 = copy.deepcopy(keep)
            with quiet():
                r2 = fn(*a2, **k2)
                # scribble on a returned array: it must not be shared
                inputs = arrays_in([a2, list(k2.values())], [])
                for arr in arrays_in(r2 if isinstance(r2, (list, tuple))
                                     else [r2], []):
                    if arr.flags.writeable and not any(
                            np.shares_memory(arr, x) for x in inputs) and \
                            arr.dtype.kind in 'fc':
                        arr[...] = np.nan
                r3 = fn(*a3, **k3)
            if not same(r3, r1):
                raise Violation(f'{name}: repeating the call gave another '
                                'result', {'args': describe(list(args)),
                                           'kwargs': describe(kw),
                                           'first': describe(r1),
                                           'second': describe(r3)})
            if len(self.reservoir) < 25:
                self.reservoir.append((name, fn, *keep, r1))
            else:
                self.reservoir[int(self.rng.integers(25))] = \
                    (name, fn, *keep, r1)
        return res

    # -- a neighbouring call in front of the observed one
    def _neighbour(self, fn, args, kw):
        """Call with slightly different arguments first.

        Results remembered under a key that does not cover all of the
        arguments are then wrong in the observed call, which the oracle of
        the case judges.  The outcome of this call itself is not judged.
        """
        own = getattr(fn, '__self__', None)
        if own is not None and not isinstance(own, (type, types.ModuleType)):
            return                      # a method may change its object
        if any(callable(v) for v in [*args, *kw.values()]):
            return                      # ... and so may a callback
        if nbytes([list(args), list(kw.values())]) > 2e6:
            return
        r = self.prng
        try:
            a2, k2 = copy.deepcopy((list(args), kw))
        except Exception:
            return
        vals = a2 + list(k2.values())
        how = int(r.integers(5))
        changed = False
        try:
            new = [perturb(r, v, how) for v in vals]
            order = r.permutation(len(vals))
            take = len(vals) if r.random() < .3 else 1
            done = 0
            for j in order:
                if done < take and new[j] is not None:
                    vals[j] = new[j]
                    done += 1
                    changed = True
        except Exception:
            return
        if not changed:
            return
        self.n_probes += 1
        state = np.random.get_state()
        pst = random.getstate()
        try:
            with quiet(), limited(3.):
                fn(*vals[:len(a2)], **dict(zip(k2, vals[len(a2):])))
        except Exception:
            pass
        finally:
            np.random.set_state(state)
            random.setstate(pst)

    def raises(self, fn, *args, **kw):
        """The call has to be rejected (any exception)."""
        what = kw.pop('_what', '')
        self.n_calls += 1
        self.n_decisions += 1
        name = getattr(fn, '__qualname__', str(fn))
        self._dig.update(repr((name, fingerprint([args, kw]))).encode())
        if len(self._calls) < 3:
            self._calls.append({'fn': name, 'args': describe(list(args), 3),
                                'kwargs': describe(kw, 3)})
        try:
            with quiet():
                res = fn(*args, **kw)
        except Exception:
            return
        raise Violation(f'{name} accepted {what}',
                        {'args': describe(list(args)),
                         'kwargs': describe(kw), 'result': describe(res)})

    # -- oracle decisions
    def ok(self, cond, msg, key=None, **data):
        self.n_decisions += 1
        if not bool(np.all(cond)):
            raise Violation(msg, {k: describe(v) for k, v in data.items()},
                            key=key)

    def close(self, actual, expected, tol=1e-9, msg='', rel=True, key=None,
              **data):
        """|actual - expected| <= tol * scale, with matching shapes."""
        self.n_decisions += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.shape != e.shape:
            raise Violation(f'{msg}: shape {a.shape}, expected {e.shape}',
                            {k: describe(v) for k, v in data.items()},
                            key=key)
        if a.size == 0:
            return
        if not np.all(np.isfinite(a)):
            raise Violation(f'{msg}: not finite',
                            {'actual': describe(a), **{
                                k: describe(v) for k, v in data.items()}},
                            key=key)
        dev = np.abs(a - e)
        scale = max(1., float(np.max(np.abs(e)))) if rel else 1.
        m = float(np.max(dev))
        d = m / scale / tol if tol > 0 else (0. if m == 0 else np.inf)
        k = msg.split(':')[0][:60]
        if d > self.maxdev.get(k, 0.) and d <= 1.:
            self.maxdev[k] = d
        if not m <= tol * scale:
            idx = np.unravel_index(int(np.argmax(dev)), dev.shape)
            raise Violation(f'{msg}: deviates by {m:.3g} '
                            f'(tolerance {tol * scale:.3g})',
                            {'index': [int(x) for x in idx],
                             'actual': describe(a[idx]),
                             'expected': describe(e[idx]),
                             **{k: describe(v) for k, v in data.items()}},
                            key=key)


def perturb(r, v, how):
    """A value close to v (None: leave alone)."""
    if isinstance(v, list) and v and all(
            isinstance(x, (int, float)) and not isinstance(x, bool)
            for x in v):
        w = perturb(r, np.array(v), how)
        return None if w is None else w.tolist()
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fci':
        if v.size < 2:
            return v + 1 if v.dtype.kind in 'fc' else None
        w = v.copy()
        flat = w.reshape(-1)
        if how == 0 and v.size > 3:        # inner elements in other order
            flat[1:-1] = flat[1:-1][::-1]
        elif how == 1:                     # two elements exchanged
            i, j = r.choice(v.size, 2, replace=False)
            flat[[i, j]] = flat[[j, i]]
        elif how == 2:                     # one element changed
            i = int(r.integers(v.size))
            flat[i] = flat[i] + 1
        elif how == 3:
            flat[:] = -flat
        else:
            flat[:] = flat[::-1].copy()
        return flat.reshape(v.shape)
    if isinstance(v, (bool, np.bool_)):
        return (not v) if how == 1 else None
    if isinstance(v, (int, np.integer)):
        if not 0 < v < 100000:
            return None
        return int(v) + (1 if how % 2 or v == 1 else -1)
    if isinstance(v, (float, np.floating)):
        return float(v) * (.9 if how == 3 else 1.01)
    if isinstance(v, str):
        return {'real': 'complex', 'complex': 'real'}.get(v)
    k = type(v).__name__
    if k == 'LoudspeakerSetup':
        w = type(v)(v.y.copy(), v.x.copy(), v.z.copy(),
                    v.listener_position)
        if getattr(v, 'ambisonics_hull', None) is not None:
            w.ambisonics_setup(N_kernel=v.kernel_order
                               if hasattr(v, 'kernel_order') else 10)
        return w
    return None


def nbytes_res(r):
    return nbytes(r) if plain(r) else 1e18


def short_tb():
    return traceback.format_exc().strip().splitlines()[-12:]


class limited:
    """Stop a call whose arguments need not make sense after some seconds."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def late(sig, frame):
            while frame is not None:       # leave no half done imports or
                f = frame.f_code.co_filename       # just-in-time compilation
                if 'numba' in f or 'llvmlite' in f or 'importlib' in f:
                    signal.setitimer(signal.ITIMER_REAL, .2)
                    return
                frame = frame.f_back
            raise TimeoutError
        self.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class quiet:
    """Silence warnings and stdout chatter of the code under test."""

    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        self.o = sys.stdout
        sys.stdout = _NULL
        self.e = np.seterr(all='ignore')

    def __exit__(self, *a):
        np.seterr(**self.e)
        sys.stdout = self.o
        self.w.__exit__(*a)
        return False


_NULL = open(os.devnull, 'w')


# ------------------------------------------------------------ shard worker
def run_worker(pid, mod, shard, nshards, seed, tier, scratch, out, hb,
               only=None):
    """Run all iterations of this shard, write the result file `out`."""
    t0 = time.time()
    ctx = Ctx(pid, seed, tier, scratch)
    tr = Tracer(REPO)
    tr.start()
    violations = []
    errors = []
    counts = {}
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    work = []
    for c in mod.CASES:
        n = c.quick if tier == 'quick' else c.thorough
        for i in range(n):
            work.append((c, i))
    if only is not None:
        work = [(c, i) for c in mod.CASES for i in [only[1]]
                if c.name == only[0]]
    else:
        # interleave the cases (histories of different calls), same order for
        # every run with this seed
        r = random.Random(f'{seed}/{pid}/order')
        r.shuffle(work)
        work = work[shard::nshards]
    failed = {}
    for c, i in work:
        if failed.get(c.name, 0) >= 2:
            continue
        if tier == 'quick' and len(violations) >= 6:
            break
        with open(hb, 'w') as f:
            f.write(f'{c.name} {i} {time.time()}')
        ctx.begin(c.name, i)
        counts[c.name] = counts.get(c.name, 0) + 1
        try:
            c.fn(ctx)
            ctx.end()
        except Violation as v:
            failed[c.name] = failed.get(c.name, 0) + 1
            violations.append({'case': c.name, 'iteration': i, 'msg': v.msg,
                               'key': v.key, 'data': describe(v.data)})
        except Exception as e:
            # an exception in oracle code: inconclusive unless the code under
            # test returned something malformed (then the oracle trips too)
            failed[c.name] = failed.get(c.name, 0) + 1
            errors.append({'case': c.name, 'iteration': i,
                           'msg': f'{type(e).__name__}: {e}',
                           'calls': ctx._calls,
                           'traceback': short_tb()})
    res = dict(shard=shard, violations=violations, errors=errors,
               counts=counts, calls=ctx.n_calls, decisions=ctx.n_decisions,
               replays=ctx.n_replays, repeats=ctx.n_repeats,
               probes=ctx.n_probes,
               cover=ctx.cover_keys, digests=sorted(ctx.digests),
               samples=ctx.samples[:12], maxdev=ctx.maxdev,
               fn_calls=tr.calls,
               lines={k: sorted(v) for k, v in tr.lines.items()},
               wall=time.time() - t0)
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.replace(tmp, out)
