"""C33 post equalization of SDM."""
import warnings
import numpy as np
import scipy.signal as sp
import spaudiopy as spa
from vmon import gen
from vmon.core import registry, quiet

CASES, case = registry(2)
PA, PC = spa.parsa, spa.process
RATES = [4000, 8000, 8000, 11025, 12000, 16000]


def layout(r):
    v = gen.layout(r, gen.pick(r, ['regular', 'random']), nmax=9) \
        if gen.chance(r, .8) else gen.spread(r, int(r.integers(4, 6)))
    d = r.uniform(.5, 3, len(v)) if gen.chance(r, .7) else np.ones(len(v))
    s = spa.decoder.LoudspeakerSetup(*(v * d[:, None]).T)
    if gen.chance(r, .5):
        s.a = gen.pick(r, [0, 1, 2, .5])
    return s


def signals(r, L, n):
    """Sparse like SDM: every sample belongs to one loudspeaker."""
    p = gen.signal(r, n, gen.pick(r, ['noise', 'sine', 'impulse', 'sparse']))
    if gen.chance(r, .5):
        p = p * np.exp(-np.arange(n) / r.uniform(30, 3000))
    if gen.chance(r, .7):
        k = r.integers(L, size=n)
        x = np.zeros((L, n))
        x[k, np.arange(n)] = p
    else:
        x = r.standard_normal((L, n)) * 10. ** r.uniform(-1, 1)
    if gen.chance(r, .3):
        x[:, n // 3:n // 2] = 0
    if gen.chance(r, .2):
        p = p.copy()
        p[n // 3:n // 2] = 0
    if gen.chance(r, .3):          # most of it at one end
        e = np.exp(-np.arange(n) / (n / 50 + 1))
        e = e if gen.chance(r, .5) else e[::-1]
        x, p = x * e * 30, p * e * 30
    return x, p


def bank(fs, N, mode):
    with quiet():
        return PC.frac_octave_filterbank(n=1, N_out=N, fs=fs, f_low=62.5,
                                         f_high=16000, mode=mode)


def soft(g):
    return np.where(g > 1, 1 + np.tanh(np.maximum(g, 1) - 1), g)


def mix(k, coh, inc):
    w = (1., .5, .25)[k] if k < 3 else 0.
    return w * coh + (1 - w) * inc


def ref1(x, p, fs, att, clip):
    """Zero phase magnitude correction, blocks of seven periods."""
    g, ff = bank(fs, 2 ** 16, 'amplitude')
    B = np.r_[7 / ff[0, 1], 7 / ff[1:, 0]] * fs
    B = (2 * np.ceil(np.round(B) / 2)).astype(int)
    pad = B.max()
    nt = pad // 2 - 1
    nt += 1 - nt % 2
    L, n = x.shape
    X = np.hstack([np.zeros((L, pad)), x, np.zeros((L, pad))])
    P = np.r_[np.zeros(pad), p, np.zeros(pad)]
    out = np.zeros((L, n + 4 * pad))
    lim = 1e-9
    for k in range(len(g)):
        b = B[k]
        y = np.zeros_like(out)
        w = .5 - .5 * np.cos(2 * np.pi * np.arange(b) / b)
        m = 2 * b - 1
        for s in range(0, X.shape[1] - b + 1, b // 2):
            xb = X[:, s:s + b] * w
            if not np.any(xb):
                continue
            H = np.fft.fft(xb, m, axis=1)
            A = np.abs(H) * att[:, None]
            coh = np.maximum(A.sum(0), lim)
            inc = np.maximum(np.sqrt((A ** 2).sum(0)), lim)
            q = np.abs(np.fft.fft(P[s:s + b] * w, m)) / mix(k, coh, inc)
            if clip:
                q = soft(q)
            v = np.real(np.fft.ifft(H * q, axis=1))
            v = np.hstack([v[:, b:], v[:, :b]])       # acausal part first
            y[:, pad + s - (b - 1):pad + s - (b - 1) + m] += v
        h = sp.firwin2(nt, np.linspace(0, 1, g.shape[1]), g[k])
        f = sp.fftconvolve(y, h[None], axes=1)
        out += f[:, nt // 2:nt // 2 + out.shape[1]]
    return out, pad


def ref2(x, p, fs, att, b, order):
    g, ff = bank(fs, b // 2 + 1, 'energy')
    h = np.array([sp.firwin2(b + 1, np.linspace(0, 1, g.shape[1]), q)
                  for q in g])
    hh = np.array([np.convolve(q, q[::-1]) for q in h])   # zero phase
    L, n = x.shape
    X = np.hstack([np.zeros((L, b)), x, np.zeros((L, b))])
    P = np.r_[np.zeros(b), p, np.zeros(b)]
    w = .5 - .5 * np.cos(2 * np.pi * np.arange(b) / b)
    out = np.zeros((L, n + 4 * b))
    gains = []
    for s in range(0, X.shape[1] - b + 1, b // 2):
        xb = X[:, s:s + b] * w
        A = np.abs(np.fft.rfft(xb, axis=1)) * att[:, None]
        lev = [np.sqrt(np.sum((g * q) ** 2, axis=1)) for q in
               (np.abs(np.fft.rfft(P[s:s + b] * w)), A.sum(0),
                np.sqrt((A ** 2).sum(0)))]
        with np.errstate(all='ignore'):
            q = [np.minimum(np.where(np.isnan(lev[0] / v), 1, lev[0] / v), 1)
                 for v in lev[1:]]
        e = np.array([mix(k, q[0][k], q[1][k]) for k in range(len(g))])
        o = min(order, len(gains))
        if o:
            t = .5 + .5 * np.cos(np.pi * np.arange(0, o) / o)
            old = [e] + [gains[-j] for j in range(1, o)]
            e = sum(a * c for a, c in zip(t, old)) / t.sum()
        gains.append(e)
        y = sp.fftconvolve(xb, (e @ hh)[None], axes=1)
        out[:, s:s + b + 2 * b] += y
    return out, gains[2:-2]


def observed(ctx, f, *a, **kw):
    """Result and whether a truncation was reported."""
    got = []

    def run(*a, **kw):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            y = f(*a, **kw)
        got.append(any('runcat' in str(v.message) for v in w))
        return y
    run.__qualname__, run.__module__ = f.__qualname__, f.__module__
    return ctx.call(run, *a, _pure=False, **kw), got[-1]


@case(16, 80)
def band_blocks(ctx):
    r = ctx.rng
    fs = gen.pick(r, RATES)
    if ctx.tier == 'thorough' and gen.chance(r, .15):
        fs = gen.pick(r, [22050, 44100, 48000, 96000])
    if ctx._i == 0:
        fs = 22050
    s = layout(r)
    L = len(s.x)
    n = gen.pick(r, [50, 400, 3000])
    x, p = signals(r, L, n)
    if ctx._i in (1, 2):       # nothing reaches the other end
        n = 3000
        p = np.exp(-np.arange(n) / 30.) * r.standard_normal(n)
        p = 30 * (p if ctx._i == 1 else p[::-1])
        x = p * (np.arange(L) == r.integers(L, size=(n, 1))).T
    kw = {}
    clip = True
    if gen.chance(r, .5):
        clip = kw['soft_clip'] = bool(gen.chance(r, .4))
    y, warned = observed(ctx, PA.sdm_post_equalization, gen.variant(r, x), p,
                         fs, s, **kw)
    e, pad = ref1(x, p, fs, np.asarray(s.d, float) ** -s.a, clip)
    m = max(np.max(np.abs(e)), 1e-12)
    ctx.close(y / m, e[:, 2 * pad:-2 * pad] / m, 1e-5, 'equalized signals')
    lost = max(np.max(np.abs(e[:, :2 * pad])),
               np.max(np.abs(e[:, -2 * pad:])))
    if lost > 1.1e-4:
        ctx.ok(warned, 'truncated signals are reported', lost=lost)
    elif lost < .9e-4:
        ctx.ok(not warned, 'nothing was truncated', lost=lost)
    ctx.cover(f'eq1 fs={fs} n={n} clip={clip} a={s.a} warned={warned}')


@case(6, 40)
def band_blocks_laws(ctx):
    """Nothing to compensate leaves the signal, gains follow the levels."""
    r = ctx.rng
    fs = gen.pick(r, [4000, 8000])
    s = layout(r)
    L = len(s.x)
    n = 2 * fs
    kind = ctx._i % 3
    x = np.zeros((L, n))
    att = np.asarray(s.d, float) ** -s.a
    mid = slice(n // 4, -n // 4)
    if kind == 0:        # one loudspeaker holds the whole pressure signal
        p = gen.signal(r, n, 'noise')
        k = int(r.integers(L))
        x[k] = p / att[k]
        y, _ = observed(ctx, PA.sdm_post_equalization, x, p, fs, s)
        ctx.close(y[k] / np.std(x[k]), x[k] / np.std(x[k]), 1e-5,
                  'unchanged')
        ctx.close(np.delete(y, k, 0), np.zeros((L - 1, n)), 0, 'silent')
    elif kind == 1:      # coherent sum in the lows
        p = np.sin(2 * np.pi * 20 * np.arange(n) / fs)
        x[:] = p / att[:, None]
        y, _ = observed(ctx, PA.sdm_post_equalization, x, p, fs, s)
        ctx.close(np.sum(y * att[:, None], axis=0)[mid], p[mid], .02,
                  'lows add in amplitude')
    else:                # energy in the highs
        p = np.sin(2 * np.pi * .3 * np.arange(n))
        x[:] = p / att[:, None]
        y, _ = observed(ctx, PA.sdm_post_equalization, x, p, fs, s)
        e = np.sqrt(np.sum((y * att[:, None]) ** 2, axis=0))
        ctx.close(e[mid], np.abs(p[mid]), .02, 'highs add in energy')
    ctx.cover(f'eq1 law {kind}')


@case(64)
def fixed_blocks(ctx):
    r = ctx.rng
    fs = gen.pick(r, [8000, 16000, 44100, 48000])
    s = layout(r)
    L = len(s.x)
    b = gen.pick(r, [64, 256, 1024, 4096, 500, 1026])
    n = gen.pick(r, [100, 1000, 7000])
    if b < 256 and fs > 20000:
        b = 512
    x, p = signals(r, L, n)
    kw = {'blocksize': b}
    if b == 4096 and gen.chance(r, .5):
        kw = {}
    o = 5
    if gen.chance(r, .6):
        o = kw['smoothing_order'] = gen.pick(r, [1, 2, 3, 8])
    (y, g), warned = observed(ctx, PA.sdm_post_equalization2,
                              gen.variant(r, x), p, fs, s, **kw)
    e, eg = ref2(x, p, fs, np.asarray(s.d, float) ** -s.a, b, o)
    m = max(np.max(np.abs(e)), 1e-12)
    ctx.close(y / m, e[:, 2 * b:-2 * b] / m, 1e-6, 'equalized signals')
    ctx.ok(len(g) == len(eg), 'gains of every block', n=len(g))
    if len(g):
        ctx.close(np.array(g), np.array(eg), 1e-6, 'band gains')
        ctx.ok(np.all(np.array(g) <= 1 + 1e-12), 'no boost')
    lost = np.sum(np.abs(e[:, :2 * b])) + np.sum(np.abs(e[:, -2 * b:]))
    if lost > 1.1e-2:
        ctx.ok(warned, 'truncated signals are reported', lost=lost)
    elif lost < .9e-2:
        ctx.ok(not warned, 'nothing was truncated', lost=lost)
    ctx.cover(f'eq2 b={b} o={o} n={n} warned={warned}')


@case(8)
def mismatch_rejected(ctx):
    r = ctx.rng
    s = layout(r)
    L = len(s.x)
    x, p = signals(r, L, 100)
    ctx.raises(PA.sdm_post_equalization2, x, p[:-3], 8000, s, blocksize=256,
               _what='pressure of another length')
    ctx.raises(PA.sdm_post_equalization2, x[:-1], p, 8000, s, blocksize=256,
               _what='signals of another layout')
    if ctx._i < 2:
        ctx.raises(PA.sdm_post_equalization, x, p[:-3], 4000, s,
                   _what='pressure of another length')
        ctx.raises(PA.sdm_post_equalization, x[:-1], p, 4000, s,
                   _what='signals of another layout')
    ctx.cover('rejected')
