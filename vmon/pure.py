"""Purity monitor: runs the workloads of all checks, judges no result.

Watched at every call: arguments (deep), process wide state (defaults of
functions, module data, numpy error state and print options, working
directory, environment, warning filters, plot settings), and the result, which
has to be the one that a process without history returns (a zygote forked
before the first call evaluates the same request), also when several threads
ask at the same time.
"""
import copy
import io
import os
import pickle
import random
import struct
import sys
import threading
import types
import warnings

import numpy as np

from . import core


class Impure(core.Violation):
    pass


class Aborted(Exception):
    """The workload cannot go on (not judged here)."""


# ------------------------------------------------------ process wide state
def functions_of(mod):
    out = []
    for n, o in sorted(vars(mod).items()):
        if isinstance(o, types.FunctionType) and \
                o.__module__.startswith('spaudiopy'):
            out.append((mod.__name__ + '.' + n, o))
        elif isinstance(o, type) and o.__module__.startswith('spaudiopy'):
            for k, f in sorted(vars(o).items()):
                f = getattr(f, '__func__', f)
                if isinstance(f, types.FunctionType):
                    out.append((f'{mod.__name__}.{n}.{k}', f))
    return out


class World:
    def __init__(self):
        self.fns = []
        self.mods = [m for k, m in sorted(sys.modules.items())
                     if k.startswith('spaudiopy') and m is not None]
        for m in self.mods:
            self.fns += functions_of(m)
        self.fns = [(n, f) for n, f in self.fns
                    if f.__defaults__ or f.__kwdefaults__]

    def state(self):
        s = {}
        for n, f in self.fns:
            s['defaults of ' + n] = core.fingerprint(
                [f.__defaults__, f.__kwdefaults__ or {}])
        for m in self.mods:
            for n, o in vars(m).items():
                if not n.startswith('__') and isinstance(
                        o, (np.ndarray, list, tuple, dict, set, int, float,
                            str, bool)):
                    if isinstance(o, (dict, set, list)) and \
                            n.startswith('_'):
                        continue      # a cache: judged by its effect
                    s[f'{m.__name__}.{n}'] = core.fingerprint(o)
        s['numpy error state'] = repr(np.geterr())
        s['print options'] = repr(np.get_printoptions())
        s['working directory'] = os.getcwd()
        s['environment'] = hash(tuple(sorted(os.environ.items())))
        s['warning filters'] = len(warnings.filters)
        s['recursion limit'] = sys.getrecursionlimit()
        s['python path'] = tuple(sys.path)
        mpl = sys.modules.get('matplotlib')
        if mpl is not None:
            s['plot settings'] = hash(tuple(
                repr(v) for v in dict.values(mpl.rcParams)))
        return s


# ------------------------------------------------------------------ zygote
def _send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    while b:
        k = os.write(fd, b[:1 << 20])
        b = b[k:]


def _recv(fd):
    def get(n):
        out = io.BytesIO()
        while n:
            x = os.read(fd, min(n, 1 << 20))
            if not x:
                raise EOFError
            out.write(x)
            n -= len(x)
        return out.getvalue()
    return get(struct.unpack('<Q', get(8))[0])


def evaluate(blob, shift=0):
    np_state, py_state, fn, args, kw = pickle.loads(blob)
    if 0 < shift < 8:       # other memory alignment
        args = realigned(args, shift)
    np.random.set_state(np_state)
    random.setstate(py_state)
    if shift >= 8:          # other random numbers
        np.random.seed(shift)
        random.seed(shift)
    with core.quiet():
        res = fn(*args, **kw)
    if shift >= 8:
        return random_state()
    return res


def random_state():
    return (hash(np.random.get_state()[1].tobytes()),
            int(np.random.get_state()[2])), hash(random.getstate())


def realigned(o, k):
    if isinstance(o, np.ndarray) and o.dtype.kind in 'fc' and o.size and \
            o.flags.c_contiguous and o.ndim:
        b = np.empty(o.nbytes + 64, np.uint8)
        v = b[8 * k:8 * k + o.nbytes].view(o.dtype).reshape(o.shape)
        v[...] = o
        v.flags.writeable = o.flags.writeable
        return v
    if isinstance(o, tuple):
        return tuple(realigned(x, k) for x in o)
    return o


class Zygote:
    """A process that imported the package and never called it."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        if os.fork() == 0:
            try:
                os.close(b)
                os.close(c)
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def serve(r, w):
        while True:
            try:
                req = _recv(r)
            except EOFError:
                return
            x, y = os.pipe()
            if os.fork() == 0:
                os.close(x)
                try:
                    out = b'ok' + pickle.dumps(evaluate(req[1:], req[0]))
                except BaseException as e:
                    out = b'no' + repr(e).encode()[:500]
                try:
                    _send(y, out)
                finally:
                    os._exit(0)
            os.close(y)
            try:
                out = _recv(x)
            except EOFError:
                out = b'nodied'
            os.close(x)
            os.wait()
            _send(w, out)

    def ask(self, blob, shift=0):
        _send(self.w, bytes([shift]) + blob)
        out = _recv(self.r)
        return out[:2] == b'ok', out[2:]


# -------------------------------------------------------------------- ctx
VIEWS = {'utils.asarray_1d'}           # conversions may hand back the input


def arrays(o, out, depth=0):
    if isinstance(o, np.ndarray):
        if o.size:
            out.append(o)
    elif isinstance(o, (list, tuple)) and depth < 3:
        for x in o:
            arrays(x, out, depth + 1)
    elif isinstance(o, dict):
        for x in o.values():
            arrays(x, out, depth + 1)
    return out


def shared(given, result):
    """Is a returned array memory of a given one?"""
    a = arrays(given, [])
    for y in arrays(result, []):
        for x in a:
            if np.may_share_memory(x, y):
                try:
                    if np.shares_memory(x, y, max_work=10 ** 5):
                        return True
                except np.exceptions.TooHardError:
                    pass
    return False


def comparable(o):
    """Result as nested plain data, None if that is not possible."""
    if core.plain(o):
        return o
    if isinstance(o, dict):
        return ['dict', [str(k) for k in o], [comparable(v) for v in
                                              o.values()]]
    if isinstance(o, (list, tuple)):
        return [comparable(x) for x in o]
    attrs = core._OBJ_ATTRS.get(type(o).__name__)
    if attrs:
        return [type(o).__name__] + [comparable(getattr(o, a, None))
                                     for a in attrs]
    return type(o).__name__


class Watch(core.Ctx):
    def __init__(self, pid, seed, tier, scratch):
        super().__init__(pid, seed, tier, scratch)
        self.process_state = World()
        self.zygote = Zygote()
        self.log = []          # requests with their results
        self.fresh = 0
        self.threads = 0
        self.kinds = {}
        self.side = random.Random(f'{seed}/side')

    # the workloads' own decisions do not count here
    def ok(self, cond, msg, **kw):
        pass

    def close(self, *a, **kw):
        pass

    def seen(self, name):
        self.kinds[name] = self.kinds.get(name, 0) + 1
        return self.kinds[name]

    def raises(self, fn, *args, **kw):
        kw.pop('_what', None)
        try:
            self.observe(fn, args, kw, True, False, True)
        except Aborted:
            pass

    def call(self, fn, *args, **kw):
        pure = kw.pop('_pure', True)
        mut = kw.pop('_mut', True)
        return self.observe(fn, args, kw, mut, pure, False)

    def observe(self, fn, args, kw, mut, pure, rejected):
        name = getattr(fn, '__qualname__', str(fn))
        mod = getattr(fn, '__module__', '') or ''
        name = mod.split('.')[-1] + '.' + name
        self.n_calls += 1
        k = self.seen(name)
        before = core.fingerprint([args, kw])
        self._dig.update(repr((name, before)).encode())
        if len(self._calls) < 3:
            self._calls.append({'fn': name, 'kwargs': core.describe(kw, 3),
                                'args': core.describe(list(args), 3)})
        blob = None
        sample = k <= 3 or self.side.random() < (
            .02 if 'resample' in name else .25)
        plot = name.startswith('plot.')
        if sample and not rejected and not plot:
            try:
                blob = pickle.dumps((np.random.get_state(),
                                     random.getstate(), fn, args, kw))
                if len(blob) > 4e6:
                    blob = None
            except Exception:
                pass
        err = None
        with core.quiet():
            w0 = self.process_state.state()
            r0 = random_state()
            try:
                res = fn(*args, **kw)
            except Exception as e:
                err = e
            w1 = self.process_state.state()
            r1 = random_state()
        self.n_decisions += 1
        if w0 != w1:
            ch = [x for x in w1 if w0.get(x) != w1[x]]
            raise Impure(f'{name} changed process wide state: '
                         f'{", ".join(ch[:3])}',
                         {'args': core.describe(list(args)),
                          'kwargs': core.describe(kw)})
        if mut:
            self.n_decisions += 1
            if core.fingerprint([args, kw]) != before:
                raise Impure(f'{name} altered its arguments'
                             + (' although it rejected them' if err else ''),
                             {'args_after': core.describe(list(args)),
                              'kwargs': core.describe(kw)})
        if err is not None:
            raise Aborted(f'{name}: {err!r}')
        if isinstance(fn, types.FunctionType) and name not in VIEWS and \
                mod.startswith('spaudiopy.'):
            self.n_decisions += 1
            if shared([args, kw], res):
                raise Impure(f'{name}: the result is a view of an argument',
                             {'args': core.describe(list(args)),
                              'kwargs': core.describe(kw)})
        if blob is not None:
            if r0 != r1:
                self.reseeded(name, blob, r0, r1)
            self.compare(name, fn, blob, res, args, kw)
        return res

    def reseeded(self, name, blob, r0, r1):
        """Drawing random numbers is fine, fixing their seed is not."""
        got = [self.zygote.ask(blob, s) for s in (8, 9)]
        if all(g[0] for g in got):
            a, b = (pickle.loads(g[1]) for g in got)
            self.n_decisions += 1
            for i in (0, 1):
                if r0[i] != r1[i] and a[i] == b[i]:
                    raise Impure(f'{name} seeds the random numbers of the '
                                 'process')

    def compare(self, name, fn, blob, res, args, kw):
        mine = comparable(res)
        tries = 0
        for shift in (0, 1, 3):
            good, out = self.zygote.ask(blob, shift)
            if not good:
                return         # not possible elsewhere (open files ...)
            other = comparable(pickle.loads(out))
            tries += 1
            if core.same(mine, other):
                break
        else:
            raise Impure(f'{name}: a fresh process gives another result for '
                         'the same request',
                         {'args': core.describe(list(args)),
                          'kwargs': core.describe(kw),
                          'here': core.describe(mine),
                          'fresh': core.describe(other)})
        self.n_decisions += 1
        self.fresh += 1
        if self.kinds[name] <= 5 or self.side.random() < .5:
            self.overwritten(name, blob, mine, args, kw)
        if tries == 1 and self.side.random() < .5 and \
                isinstance(fn, types.FunctionType) and \
                core.plain(list(args)) and core.plain(list(kw.values())):
            self.keep(name, blob, mine)

    def overwritten(self, name, blob, mine, args, kw):
        """Results belong to the caller, who may write into them."""
        state = np.random.get_state(), random.getstate()
        mine = copy.deepcopy(mine)
        try:
            for v in arrays(evaluate(blob), []):
                if v.flags.writeable and v.dtype.kind in 'fciu':
                    v[...] = 7
            for shift in (0, 1, 3):
                other = comparable(evaluate(blob, shift))
                if core.same(mine, other):
                    break
            else:
                raise Impure(f'{name}: another result after the first one was '
                             'overwritten',
                             {'args': core.describe(list(args)),
                              'kwargs': core.describe(kw)})
        finally:
            np.random.set_state(state[0])
            random.setstate(state[1])
        self.n_decisions += 1

    def keep(self, name, blob, mine):
        if len(blob) > 3e5 or name.startswith('io.'):
            return
        if len(self.log) < 60:
            self.log.append((name, blob, copy.deepcopy(mine)))
        else:
            self.log[self.side.randrange(60)] = (name, blob,
                                                 copy.deepcopy(mine))


def concurrently(jobs, n=4):
    """Every thread evaluates all jobs, in its own order."""
    out = [[None] * len(jobs) for _ in range(n)]
    go = threading.Barrier(n)

    def run(t):
        order = list(range(len(jobs)))
        random.Random(t).shuffle(order)
        go.wait()
        for j in order:
            fn, args, kw = jobs[j][t]
            try:
                out[t][j] = (True, fn(*args, **kw))
            except Exception as e:
                out[t][j] = (False, repr(e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with core.quiet():
            th = [threading.Thread(target=run, args=(t,)) for t in range(n)]
            for t in th:
                t.start()
            for t in th:
                t.join()
    finally:
        sys.setswitchinterval(old)
    return out
