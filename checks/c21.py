"""C21 signal containers behave like the samples they hold."""
import copy
import numpy as np
import resampy
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(5)
S = spa.sig


class Model:
    """Expected content of a container."""

    def __init__(self, ch, fs, kind):
        self.ch = [np.array(c, complex if np.iscomplexobj(c) else float)
                   for c in ch]
        self.fs = fs
        self.kind = kind

    def copy(self):
        return Model(self.ch, self.fs, self.kind)

    @property
    def n(self):
        return len(self.ch[0])


def do(ctx, f, *args, **kw):
    return ctx.call(f, *args, _pure=False, **kw)


def check(ctx, o, m, what):
    ctx.ok(o.fs == m.fs, f'sampling rate after {what}', fs=o.fs)
    ctx.ok(len(o) == m.n, f'length after {what}', n=len(o), expected=m.n)
    if m.kind == 'mono':
        ctx.close(o.signal, m.ch[0], 1e-9, f'signal after {what}')
        return
    e = np.array(m.ch)
    ctx.ok(o.num_channels == len(m.ch) == o.channel_count,
           f'channels after {what}')
    ctx.close(o.get_signals(), e, 1e-9, f'signals after {what}')
    ctx.close(o.signals, e, 1e-9, f'signals after {what}')
    for k, c in enumerate(o.channels):
        ctx.ok(c.fs == m.fs and len(c) == m.n, f'channel after {what}')
        ctx.close(c.signal, m.ch[k], 1e-9, f'channel after {what}')
    if m.kind == 'ambi':
        for k, x in enumerate((o.W, o.X, o.Y, o.Z)):
            ctx.close(x, m.ch[k], 1e-9, f'W, X, Y, Z after {what}')


def new(ctx, kind=None):
    r = ctx.rng
    kind = kind or gen.pick(r, ['mono', 'multi', 'ambi', 'ambi'])
    n = int(r.integers(25, 400))
    fs = gen.pick(r, [8000, 16000, 44100, 48000])
    k = {'mono': 1, 'ambi': 4, 'multi': gen.pick(r, [1, 2, 3, 4, 7])}[kind]
    ch = [r.standard_normal(n) for _ in range(k)]
    if gen.chance(r, .2):                # integer samples
        ch = [r.integers(-9, 10, n) for _ in range(k)]
    m = Model(ch, fs, kind)
    args = [gen.vec_variant(r, c) for c in ch]
    if kind == 'mono':
        o = ctx.call(S.MonoSignal, args[0], fs)
    elif kind == 'ambi' and gen.chance(r, .3):
        F = r.standard_normal((4, n))
        ms = S.MultiSignal([*F], fs=fs)
        o = ctx.call(S.AmbiBSignal.sh_to_b, ms)
        w = np.sqrt(4 * np.pi)
        # W at unit gain, direction cosines
        m.ch = [F[0] * w, F[3] * w / np.sqrt(3), F[1] * w / np.sqrt(3),
                F[2] * w / np.sqrt(3)]
    else:
        f = S.MultiSignal if kind == 'multi' else S.AmbiBSignal
        o = ctx.call(f, tuple(args) if gen.chance(r, .2) else args, fs=fs)
    return o, m


def step(ctx, objs):
    r = ctx.rng
    o, m = gen.pick(r, objs)
    ops = ['trim', 'conv', 'copy', 'read', 'resample', 'set', 'reject',
           'trim_copy', 'deepcopy', 'item']
    op = gen.pick(r, ops)
    n = m.n
    if op == 'trim':
        a = int(r.integers(0, max(1, n // 2)))
        b = int(r.integers(a + 20, n + 60)) if n > 20 else n + 3
        # times inside of a sample interval
        t0 = (a + .25) / m.fs if a else 0
        t1 = (b + .25) / m.fs
        if b < n + 1 and b - a < 20:
            return None
        if gen.chance(r, .4):
            stop = gen.pick(r, [None, 0, t1 * 3])
            do(ctx, o.trim, t0, stop, dur=(b + .25) / m.fs - t0)
        else:
            do(ctx, o.trim, t0, t1)
        m.ch = [c[a:b] for c in m.ch]
    elif op == 'conv':
        if n > 3000:
            return None
        k = gen.pick(r, [1, 2, 5, 16, 40])
        kw = {}
        mode = gen.pick(r, ['full', 'full', 'same', 'valid'])
        if mode == 'valid' and n - k + 1 < 25:
            mode = 'full'
        if mode != 'full' or gen.chance(r, .3):
            kw['mode'] = mode
        if gen.chance(r, .3):
            kw['method'] = gen.pick(r, ['direct', 'fft'])
        h = [gen.signal(r, k, silent=.03) for _ in m.ch]
        e = [ref.conv(c, q) for c, q in zip(m.ch, h)]
        if mode == 'same' and k <= n:
            e = [x[(k - 1) // 2:(k - 1) // 2 + n] for x in e]
        elif mode == 'same':
            return None
        elif mode == 'valid':
            e = [x[k - 1:n] for x in e]
        if m.kind == 'mono':
            res = do(ctx, o.conv, gen.vec_variant(r, h[0]), **kw)
        else:
            res = do(ctx, o.conv, h if gen.chance(r, .5) else np.array(h),
                           **kw)
        ctx.ok(res is o, 'convolution can be chained')
        m.ch = e
    elif op == 'resample':
        f2 = gen.pick(r, [8000, 16000, 44100, 48000, m.fs])
        if n > 1500 or n * f2 / m.fs < 25:
            return None
        if any(c.signal.dtype.kind == 'i' for c in
               ([o] if m.kind == 'mono' else o.channels)):
            return None                  # only in single precision
        do(ctx, o.resample, f2)
        if f2 != m.fs:
            m.ch = [resampy.resample(c, m.fs, f2) for c in m.ch]
            m.fs = f2
    elif op in ('copy', 'deepcopy'):
        if len(objs) < 5:
            c = do(ctx, o.copy) if op == 'copy' else copy.deepcopy(o)
            ctx.ok(type(c) is type(o), 'copy is of the same type')
            objs.append((c, m.copy()))
    elif op == 'trim_copy':
        if m.kind == 'mono':
            return None
        a = int(r.integers(0, max(1, n // 2)))
        b = int(r.integers(a + 20, n + 60))
        if b < n + 1 and b - a < 20:
            return None
        c = ctx.call(S.trim_audio, o, (a + .25) / m.fs if a else 0,
                     (b + .25) / m.fs)
        mc = m.copy()
        mc.ch = [x[a:b] for x in mc.ch]
        check(ctx, c, mc, 'trimming a copy')
        if len(objs) < 5 and mc.n > 24:
            objs.append((c, mc))
    elif op == 'set':
        k = int(r.integers(len(m.ch)))
        x = r.standard_normal(n)
        if gen.chance(r, .3) and m.kind == 'mono':
            x = r.standard_normal(n + 5)
        if gen.chance(r, .2):
            x = r.integers(-9, 10, len(x))
        v = gen.vec_variant(r, x)
        if m.kind == 'mono':
            o.signal = v
        elif m.kind == 'multi' or gen.chance(r, .5):
            o[k].signal = v
        else:
            setattr(o, 'WXYZ'[k], v)
        m.ch[k] = x
    elif op == 'item':
        if m.kind == 'mono':
            a = int(r.integers(n))
            ctx.close(o[a], m.ch[0][a], 1e-9, 'sample')
            ctx.close(o[a:a + 9:2], m.ch[0][a:a + 9:2], 1e-9, 'samples')
            ctx.close(o[-1], m.ch[0][-1], 1e-9, 'last sample')
        else:
            k = int(r.integers(len(m.ch)))
            ctx.close(o[k].signal, m.ch[k], 1e-9, 'channel')
            ctx.close(o[k - len(m.ch)].signal, m.ch[k], 1e-9, 'channel')
            some = slice(int(r.integers(-3, 3)), None, int(r.integers(1, 3)))
            ctx.ok(len(o[some]) == len(m.ch[some]) and all(
                np.array_equal(c.signal, np.ravel(d.signal)) for c, d in
                zip(o[some], o.channels[some])), 'channels by slice')
            ctx.ok(isinstance(o[k], S.MonoSignal), 'channel is a signal')
    elif op == 'reject':
        ctx.raises(o.trim, (n + 1) / m.fs, (n + 9) / m.fs,
                   _what='a start behind the end')
        if m.kind != 'mono':
            ctx.raises(S.trim_audio, o, (n + 1) / m.fs, (n + 9) / m.fs,
                       _what='a start behind the end')
    return f'{m.kind} {op}'


@case(160)
def histories(ctx):
    """Random operations on several containers and copies of them."""
    r = ctx.rng
    objs = [new(ctx) for _ in range(int(r.integers(1, 4)))]
    for o, m in objs:
        check(ctx, o, m, 'construction')
    prev = 'new'
    for _ in range(int(r.integers(4, 16))):
        w = step(ctx, objs)
        if w is None:
            continue
        for o, m in objs:
            check(ctx, o, m, w.split()[1])
        ctx.cover(f'{prev}>{w.split()[1]}')
        ctx.cover(w)
        prev = w.split()[1]


@case(60)
def constructors(ctx):
    r = ctx.rng
    n = int(r.integers(2, 40))
    x = r.standard_normal((4, n))
    ctx.raises(S.MultiSignal, [*x], _what='no sampling rate')
    ctx.raises(S.AmbiBSignal, [*x], _what='no sampling rate')
    ctx.raises(S.MultiSignal, x, fs=48000, _what='a bare array')
    k = gen.pick(r, [1, 2, 3])
    ctx.raises(S.AmbiBSignal, [*x[:k]], fs=48000, _what='too few channels')
    ctx.raises(S.AmbiBSignal, [*x, x[0]], fs=48000,
               _what='too many channels')
    ctx.raises(S.AmbiBSignal.sh_to_b, x, _what='a bare array')
    ctx.raises(S.MonoSignal, x, 48000, _what='a matrix as mono signal')
    # one row / column is fine
    for v in (x[:1], x[:1].T, list(x[0])):
        s = ctx.call(S.MonoSignal, v, 48000)
        ctx.close(s.signal, x[0], 0, 'one row or column')
    ctx.cover('constructors')


@case(40)
def trim_edges(ctx):
    """Empty ranges, ranges of one sample, whole and integer times."""
    r = ctx.rng
    o, m = new(ctx)
    n, fs = m.n, m.fs
    a = gen.pick(r, [0, 0, n - 1, int(r.integers(n))])
    L = gen.pick(r, [0, 0, 1, 2, n - a, n])
    t0 = (a + .25) / fs if a else gen.pick(r, [0, 0.])
    if gen.chance(r, .6) or L == 0:
        dur = (L + (.25 if a == 0 else 0.) + .125) / fs if L else \
            gen.pick(r, [0, 0.])
        stop = gen.pick(r, [None, t0, n / fs, 0, 1])
        if gen.chance(r, .3):
            do(ctx, o.trim, t0, stop, dur)
        else:
            do(ctx, o.trim, start=t0, stop=stop, dur=dur)
    else:
        do(ctx, o.trim, t0, (a + L + .4) / fs)
    ctx.ok(o.fs == fs, 'sampling rate')
    e = [c[a:a + L] for c in m.ch]
    chans = [o] if m.kind == 'mono' else o.channels
    ctx.ok(len(chans) == len(e), 'channels')
    for c, x in zip(chans, e):
        ctx.ok(len(c.signal) == len(x), 'samples of the range',
               got=len(c.signal), expected=len(x))
        ctx.close(c.signal, x, 1e-12, 'samples of the range')
    ctx.cover(f'trim edge {m.kind} L={min(L, 3)} first={a == 0}')


@case(60)
def independent_channels(ctx):
    """Sources of copies are never touched by operations on the container."""
    r = ctx.rng
    n = int(r.integers(30, 200))
    x = r.standard_normal((4, n))
    keep = x.copy()
    o = S.AmbiBSignal([*x], fs=48000)
    c = o.copy()
    objs = [(o, Model(x, 48000, 'ambi')), (c, Model(x, 48000, 'ambi'))]
    for _ in range(6):
        step(ctx, objs)
    ctx.close(x, keep, 0, 'samples passed to the constructor')
    s = o.get_signals()
    s[...] = 7
    check(ctx, o, objs[0][1], 'writing to the returned samples')


@case(60)
def hrir_sets(ctx):
    """Sets of HRIRs: selection, replacement, independent copies."""
    r = ctx.rng
    g, taps = int(r.integers(1, 30)), gen.pick(r, [1, 2, 16, 33, 64])
    azi, zen = gen.hrir_grid(r, g)
    x = r.standard_normal((2, g, taps))
    fs = gen.pick(r, [44100, 48000, 96000])
    h = ctx.call(S.HRIRs, gen.variant(r, x[0]), gen.variant(r, x[1]),
                 gen.vec_variant(r, azi), gen.vec_variant(r, zen), fs)
    sets = [(h, x.copy(), azi.copy(), zen.copy())]

    def check_all(what):
        for o, y, a, z in sets:
            ctx.ok(len(o) == o.num_samples == y.shape[2],
                   f'taps after {what}', n=len(o), attr=o.num_samples)
            ctx.ok(o.num_grid_points == g and o.fs == fs,
                   f'attributes after {what}')
            ctx.close(np.stack([o.left, o.right]), y, 0,
                      f'responses after {what}')
            ctx.close(np.c_[o.azi, o.zen], np.c_[a, z], 0,
                      f'directions after {what}')
            k = int(r.integers(g))
            l, q = o[k]
            ctx.close(np.stack([l, q]), y[:, k], 0, f'item after {what}')
            d = ref.nearest(a, z, a[k], z[k])
            ctx.ok(d[int(o.nearest_idx(a[k], z[k]))] < 1e-6,
                   f'nearest response after {what}')
    check_all('construction')
    for _ in range(int(r.integers(2, 7))):
        i = int(r.integers(len(sets)))
        o, y, a, z = sets[i]
        op = gen.pick(r, ['copy', 'deepcopy', 'update', 'write', 'aim',
                          'eq', 'reject'])
        if op in ('copy', 'deepcopy'):
            c = do(ctx, o.copy) if op == 'copy' else copy.deepcopy(o)
            ctx.ok(type(c) is type(o), 'copy is of the same type')
            sets.append((c, y.copy(), a.copy(), z.copy()))
        elif op == 'update':
            n = gen.pick(r, [y.shape[2], 1, 5, 40])
            v = r.standard_normal((2, g, n))
            do(ctx, o.update_hrirs, gen.variant(r, v[0]), v[1].copy())
            sets[i] = (o, v, a, z)
        elif op == 'write':
            if o.left.flags.writeable and o.right.flags.writeable and \
                    i and not any(np.may_share_memory(p, q[0].left)
                                  for p in (o.left, o.right)
                                  for j, q in enumerate(sets) if j != i):
                v = r.standard_normal(y.shape[2])
                k = int(r.integers(g))
                o.left[k], o.right[k] = v, -v
                y[0, k], y[1, k] = v, -v
        elif op == 'aim':
            if i and o.azi.flags.writeable and o.zen.flags.writeable:
                o.azi[...] = -a
                o.zen[...] = np.pi - z
                sets[i] = (o, y, -a, np.pi - z)
        elif op == 'eq':
            q = r.standard_normal(gen.pick(r, [1, 3]))
            do(ctx, o.apply_ctf_eq, q)
            v = np.array([[ref.conv(u, q) for u in e] for e in y])
            ctx.close(np.stack([o.left, o.right]), v, 1e-9, 'equalised set')
            sets[i] = (o, np.stack([o.left, o.right]).copy(), a, z)
        else:
            ctx.raises(o.update_hrirs, r.standard_normal((g + 1, 4)),
                       r.standard_normal((g + 1, 4)),
                       _what='another number of directions')
        check_all(op)
        ctx.cover(f'hrirs {op} {i > 0}')
