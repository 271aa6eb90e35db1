"""C27 resampling, delays, levels and test signals."""
import contextlib
import io
import numpy as np
import resampy
import spaudiopy as spa
from vmon import gen
from vmon.core import registry, Violation

CASES, case = registry(3)
P, U = spa.process, spa.utils
RATES = [8000, 16000, 44100, 48000, 96000, 22050]


def rates(r, ratio=4):
    while True:
        a, b = gen.pick(r, RATES), gen.pick(r, RATES)
        if a != b and max(a, b) <= ratio * min(a, b):
            return a, b


@case(150)
def resample_signal(ctx):
    """Every channel by itself, along the given axis."""
    r = ctx.rng
    a, b = rates(r)
    c, n = gen.pick(r, [1, 2, 5]), gen.pick(r, [16, 33, 100, 257, 1000])
    x = r.standard_normal((c, n))
    axis = gen.pick(r, [None, -1, 1, 0])
    d = x
    kw = {} if axis is None else {'axis': axis}
    if axis == 0:
        d = x.T.copy()
    if c == 1 and axis != 0 and gen.chance(r, .5):
        d = x[0]
    y = ctx.call(P.resample_signal, gen.variant(r, d), a, b, **kw)
    e = np.array([resampy.resample(v.copy(), a, b) for v in x])
    if axis == 0:
        e = e.T
    ctx.close(y, np.squeeze(e), 1e-9, 'resampled signal')
    ctx.cover(f'resample {a}>{b} axis={axis} c={c}')


@case(60)
def resample_tones(ctx):
    """A tone stays the same tone."""
    r = ctx.rng
    a, b = rates(r, 3)
    n = 3000
    f = r.uniform(.01, .35) * min(a, b)
    p = r.uniform(0, 6)
    x = np.cos(2 * np.pi * f / a * np.arange(n) + p)
    m = gen.pick(r, ['signal', 'spectrum', 'hrirs', 'mono'])
    if m == 'signal':
        y = ctx.call(P.resample_signal, x, a, b)
    elif m == 'spectrum':
        Y = ctx.call(P.resample_spectrum, np.fft.rfft(x), a, b)
        k = int(n * b / a)
        ctx.ok(Y.shape == (k // 2 + 1,), 'number of bins')
        y = np.fft.irfft(Y, n=k)
    elif m == 'hrirs':
        y, z, fs = ctx.call(P.resample_hrirs, np.array([x, x]),
                            -np.array([x, 0 * x]), a, b)
        ctx.ok(fs == b, 'returns the new sampling rate')
        ctx.close(z, np.array([-y[0], 0 * y[0]]), 1e-12, 'right ear')
        ctx.close(y[0], y[1], 1e-12, 'every direction')
        y = y[1]
    else:
        s = spa.sig.MonoSignal(x, fs=a)
        ctx.call(s.resample, b, _pure=False)
        ctx.ok(s.fs == b, 'sampling rate')
        y = np.asarray(s.signal)
    ctx.ok(abs(len(y) - n * b / a) <= 1, 'number of samples')
    t = np.arange(len(y)) / b
    mid = slice(len(y) // 5, -(len(y) // 5))
    ctx.close(y[mid], np.cos(2 * np.pi * f * t + p)[mid], 5e-3,
              'tone at the new rate')
    ctx.cover(f'tone {m}')


@case(100)
def resample_spectra(ctx):
    r = ctx.rng
    a, b = rates(r)
    c, n = gen.pick(r, [1, 2, 4]), gen.pick(r, [32, 64, 100, 256])
    x = r.standard_normal((c, n))
    X = np.fft.rfft(x, axis=1)
    axis = gen.pick(r, [None, -1, 1, 0])
    kw = {} if axis is None else {'axis': axis}
    d = X.T.copy() if axis == 0 else X
    if c == 1 and axis != 0 and gen.chance(r, .5):
        d = X[0]
    Y = ctx.call(P.resample_spectrum, gen.variant(r, d), a, b, **kw)
    e = np.fft.rfft(resampy.resample(x, a, b, axis=1), axis=1)
    ctx.close(Y, np.squeeze(e.T if axis == 0 else e), 1e-9,
              'resampled spectrum')
    ctx.cover(f'spectrum axis={axis} c={c}')


@case(60)
def resample_hrirs(ctx):
    r = ctx.rng
    a, b = rates(r)
    g, n = gen.pick(r, [1, 2, 7]), gen.pick(r, [32, 65, 128, 255])
    x = r.standard_normal((2, g, n))
    kw = {} if gen.chance(r, .5) else {'jobs_count': gen.pick(r, [1, 2])}
    y = ctx.call(P.resample_hrirs, x[0], x[1], a, b, **kw)
    ctx.ok(y[2] == b, 'new sampling rate')
    for q in range(2):
        ctx.close(y[q], resampy.resample(x[q], a, b, axis=1), 1e-9,
                  'resampled HRIRs')
    ctx.cover(f'hrirs g={g} {kw}')


@case(250)
def fractional_delay(ctx):
    """Delays every polynomial of the filter's order exactly."""
    r = ctx.rng
    N = int(r.integers(0, 14))
    d = float(r.uniform(0, N)) if gen.chance(r, .6) else \
        N / 2 + float(r.uniform(-1, 1))
    if gen.chance(r, .3):
        d = int(r.integers(0, N + 1))
    h = ctx.call(P.lagrange_delay, N, d)
    ctx.ok(h.shape == (N + 1,), 'order of the filter')
    n = np.arange(N + 1)
    c = N / 2
    s = max(c, 1)
    for k in range(N + 1):
        ctx.close(np.dot(h, ((n - c) / s) ** k), ((d - c) / s) ** k,
                  1e-7 * max(1, np.max(np.abs(h))),
                  'moments of a delayed impulse')
    if d == int(d):
        e = np.zeros(N + 1)
        e[int(d)] = 1
        ctx.close(h, e, 1e-12, 'integer delay')
    ctx.cover(f'delay N={N} int={d == int(d)}')


@case(200)
def decibel(ctx):
    r = ctx.rng
    sh = gen.pick(r, [(), (1,), (5,), (3, 4)])
    x = 10. ** r.uniform(-8, 8, sh) * np.sign(r.uniform(-1, 1, sh))
    if gen.chance(r, .3):
        x = x * np.exp(1j * r.uniform(0, 6, sh))
    if gen.chance(r, .3) and sh:
        x.ravel()[0] = 0
    p = bool(gen.chance(r, .5))
    kw = {'power': p} if p or gen.chance(r, .5) else {}
    y = np.asarray(ctx.call(U.db, gen.variant(r, x), **kw))
    nz = np.abs(x) > 0
    with np.errstate(divide='ignore'):
        e = np.log(np.abs(x)) / np.log(10) * (10 if p else 20)
    ctx.ok(y.shape == np.shape(x), 'shape')
    ctx.close(y[nz], e[nz], 1e-12, 'level in dB')
    ctx.ok(np.all(np.isneginf(y[~nz])), 'zero is minus infinity')
    z = np.asarray(ctx.call(U.from_db, y, **kw))
    ctx.close(z / np.maximum(np.abs(x), 1e-300) * nz, nz * 1.,
              1e-9, 'ratio of a level')
    if sh:
        l = np.abs(x).ravel().tolist()
        ctx.close(ctx.call(U.db, [v + 1 for v in l], **kw),
                  np.log10(np.array(l) + 1) * (10 if p else 20), 1e-12,
                  'level of a list')
    ctx.cover(f'db {sh} {p} {x.dtype.kind}')


@case(150)
def rms(ctx):
    r = ctx.rng
    sh = gen.pick(r, [(1,), (9,), (3, 5), (2, 3, 4)])
    x = r.standard_normal(sh) * 10. ** r.uniform(-3, 3)
    if gen.chance(r, .4):
        x = x + 1j * r.standard_normal(sh)
    ax = gen.pick(r, [None, *range(-len(sh), len(sh))])
    kw = {} if ax is None else {'axis': ax}
    y = ctx.call(U.rms, gen.variant(r, x), **kw)
    e = np.sqrt(np.mean(np.abs(x) ** 2, axis=-1 if ax is None else ax))
    ctx.close(y, e, 1e-12 * max(1, np.max(e)), 'root mean square')
    ctx.cover(f'rms {sh} {ax} {x.dtype.kind}')


@case(150)
def stacking(ctx):
    r = ctx.rng
    a, n = int(r.integers(1, 5)), int(r.integers(6, 10))
    if gen.chance(r, .2):
        n = int(r.integers(50, 300))
    x, y = r.standard_normal((2, a, n))
    e = np.concatenate([x, y])
    if gen.chance(r, .5):
        m = ctx.call(U.stack, gen.variant(r, x), gen.variant(r, y))
        ctx.close(m, e, 0, 'rows of both, in order')
    else:
        m = ctx.call(U.stack, gen.variant(r, x.T), gen.variant(r, y.T))
        ctx.close(m, e.T, 0, 'columns of both, in order')
    u, v = r.standard_normal((2, n))
    ctx.close(ctx.call(U.stack, u, v), np.array([u, v]), 0, 'two vectors')
    ctx.raises(U.stack, r.standard_normal((a, n)),
               r.standard_normal((a + 1, n + 1)),
               _what='no common dimension')
    # interleaved channels
    c = gen.pick(r, [1, 2, 7, 360])
    l, q = r.standard_normal((2, c, 6))
    kw = {}
    if c == 360:
        kw = {'style': 'SSR'}
    m = ctx.call(U.interleave_channels, gen.variant(r, l),
                 gen.variant(r, q), **kw)
    ctx.ok(m.shape == (2 * c, 6), 'shape')
    ctx.close(m[::2], l, 0, 'left channels are even')
    ctx.close(m[1::2], q, 0, 'right channels are odd')
    ctx.raises(U.interleave_channels, l, q[:, :5],
               _what='ears of different length')
    if c != 360:
        ctx.raises(U.interleave_channels, l, q, style='SSR',
                   _what='a wrong channel count')
    ctx.cover(f'stack {a} {c}')


@case(100)
def comparing(ctx):
    r = ctx.rng
    sh = gen.pick(r, [(3,), (4, 5)])
    a = r.standard_normal(sh)
    d = r.standard_normal(sh) * 10. ** r.uniform(-9, 0)
    if gen.chance(r, .2):
        a, d = r.integers(-4, 5, sh), r.integers(-4, 5, sh)
    s = float(np.sum(np.abs(a - (a + d))))
    lim = gen.pick(r, [1e-6, 1e-3, s * 1.01, s * .99])
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        y = U.test_diff(a, (a + d).tolist(), msg='A and B', test_lim=lim)
    ctx.n_calls += 1
    ctx.close(y, s, 1e-12, 'sum of the differences')
    ctx.ok(('Close enough' in f.getvalue()) == (s <= lim),
           'verdict', said=f.getvalue(), diff=s, limit=lim)
    ctx.close(ctx.call(U.asarray_1d, a.reshape(-1, 1)), a.ravel(), 0,
              'column to vector')
    ctx.close(ctx.call(U.asarray_1d, 3.), np.array([3.]), 0, 'scalar')
    ctx.raises(U.asarray_1d, np.ones((2, 3)), _what='a matrix')
    ctx.cover(f'diff {s <= lim}')


@case(150)
def subbands(ctx):
    r = ctx.rng
    b, n = int(r.integers(1, 6)), gen.size(r, 100)
    x = gen.cmat(r, b, n, gen.chance(r, .5))
    fs = gen.pick(r, RATES)
    w = r.uniform(10, 3000, b)
    if gen.chance(r, .3):
        w = float(w[0])
    L = ctx.call(P.subband_levels, gen.variant(r, x), w, fs)
    p2 = np.sum(np.abs(x) ** 2, axis=1)
    ctx.close(L, np.sqrt(p2 * fs / 2 / w), 1e-9, 'level of each band')
    p = ctx.call(P.subband_levels, gen.variant(r, x), w, fs, power=True)
    ctx.close(p, p2 / n * fs / 2 / w, 1e-9, 'power of each band')
    ctx.cover(f'levels {b} {x.dtype.kind}')


@case(150)
def decay(ctx):
    r = ctx.rng
    n = gen.size(r, 3000)
    p = gen.signal(r, n, gen.pick(r, ['noise', 'impulse', 'dc', 'offset']))
    if gen.chance(r, .4):
        p = p * np.exp(-np.arange(n) * r.uniform(0, .01))
    if gen.chance(r, .2):                # down to nothing
        p = r.standard_normal(n) * 10. ** -np.linspace(
            0, r.uniform(5, 40), n)
    if p[-1] == 0 and gen.chance(r, .5):
        p[-1] = 1e-3
    y = np.asarray(ctx.call(P.energy_decay, gen.variant(r, p)))
    e = np.array([np.sum(p[k:] ** 2) for k in range(n)])
    pos = e > 0
    ctx.ok(y.shape == (n,), 'length')
    ctx.close(y[pos], 10 * np.log10(e[pos] / e[0]), 1e-6,
              'remaining energy in dB')
    ctx.ok(abs(y[0]) < 1e-9 and np.all(np.diff(y[pos]) <= 1e-9),
           'decays from 0 dB')
    ctx.ok(np.all(np.isneginf(y[~pos])), 'no energy left')
    ctx.cover(f'decay n={n > 100}')


@case(150)
def loudness(ctx):
    r = ctx.rng
    c, n = gen.pick(r, [1, 2, 5]), gen.size(r, 500)
    m = gen.size(r, 500)
    a = r.standard_normal((n, c)) * 10. ** r.uniform(-3, 1, c)
    b = r.standard_normal((m, gen.pick(r, [1, 2, 3]))) * \
        10. ** r.uniform(-3, 0.3)
    if gen.chance(r, .4):
        b = b[:, 0]
    if c == 1 and gen.chance(r, .5):
        a = a[:, 0]

    def level(x):
        x = x.reshape(len(x), -1)
        return max(np.sqrt(np.mean(v ** 2)) for v in x.T)
    if gen.chance(r, .25):               # peaks around full scale
        b = b / level(b) * level(a) / np.max(np.abs(a)) * \
            (1 + gen.pick(r, [-1, 1]) * 10. ** r.uniform(-6, -1))
    y = ctx.call(P.match_loudness, gen.variant(r, a), gen.variant(r, b))
    e = a / level(a) * level(b)
    pk = np.max(np.abs(e))
    if pk > 1:
        e = e / pk
    ctx.close(y, e, 1e-9 * min(1, np.max(np.abs(e))), 'same loudness as the '
              'target, but without clipping', rel=False)
    ctx.cover(f'loudness clip={pk > 1} c={c}')


@case(60)
def noise_pulses(ctx):
    r = ctx.rng
    fs = gen.pick(r, [1000, 8000, 48000])
    tn = gen.pick(r, [.05, .1, .0731, .2])
    tp = gen.pick(r, [0, .02, .1, .0333])
    tf = gen.pick(r, [None, 0, .01, .002, .02])
    reps = gen.pick(r, [None, 1, 2, 5])
    pink = bool(gen.chance(r, .5))
    norm = bool(gen.chance(r, .6))
    kw = {}
    if tf is not None:
        kw['t_fade'] = tf
    if reps is not None:
        kw['reps'] = reps
    if not pink or gen.chance(r, .5):
        kw['pink_noise'] = pink
    if not norm or gen.chance(r, .5):
        kw['normalize'] = norm
    y = ctx.call(P.pulsed_noise, tn, tp, fs, _pure=False, **kw)
    R = 10 if reps is None else reps
    a, b = int(fs * tn), int(fs * tp)
    k = int(fs * (.02 if tf is None else tf))
    ctx.ok(len(y) == R * (a + b), 'pulses and pauses', length=len(y),
           expected=R * (a + b))
    y = y.reshape(R, a + b)
    ctx.ok(np.all(y[:, a:] == 0), 'pauses are silent')
    p = y[:, :a]
    ctx.ok(np.all(np.abs(p[:, k:a - k]) > 0), 'pulses are not')
    if k > 1:
        ctx.close(p[:, [0, -1]], np.zeros((R, 2)), 1e-12, 'faded in and out')
    else:
        ctx.ok(np.all(p[:, [0, -1]] != 0), 'not faded')
    if norm:
        ctx.close(np.max(np.abs(y)), 1., 1e-12, 'normalised')
    for i in range(1, R):
        ctx.ok(np.max(np.abs(p[i] - p[0])) > 1e-3 * np.max(np.abs(p)),
               'pulses are independent')
        if a >= 300:                     # at any shift
            q = np.fft.irfft(np.fft.rfft(p[i - 1]) *
                             np.fft.rfft(p[i]).conj())
            ctx.ok(np.max(np.abs(q)) < .8 * np.linalg.norm(p[i]) *
                   np.linalg.norm(p[i - 1]), 'pulses are independent')
    # another call is another noise
    with contextlib.redirect_stdout(io.StringIO()):
        z = P.pulsed_noise(tn, tp, fs, **kw)
    ctx.ok(not np.array_equal(z, y.ravel()), 'calls are independent')
    ctx.cover(f'pulses pink={pink} fade={k > 0} pause={b > 0}')


@case(16)
def noise_statistics(ctx):
    """Spectrum and envelope over many pulses."""
    r = ctx.rng
    fs, a, k = 8000, 400, gen.pick(r, [0, 100])
    pink = bool(gen.chance(r, .5))
    R = 600
    y = ctx.call(P.pulsed_noise, a / fs, 0, fs, reps=R, t_fade=k / fs,
                 pink_noise=pink, normalize=False, _pure=False)
    y = y.reshape(R, a)
    env = np.sqrt(np.mean(y ** 2, axis=0))
    mid = np.sqrt(np.mean(env[k:a - k] ** 2))
    e = np.ones(a)
    if k:
        t = np.linspace(0, np.pi / 2, k)
        e[:k] = np.sin(t) ** 2
        e[-k:] = np.cos(t) ** 2
    # relative deviation of 600 samples: 3 %
    ctx.close(env / mid, e, .2, 'raised cosine fades')
    if not pink:
        ctx.close(mid, 1., .05, 'unit variance of white noise')
    X = np.mean(np.abs(np.fft.rfft(y[:, k:a - k])) ** 2, axis=0)
    n = len(X)
    lo, hi = np.mean(X[8:16]), np.mean(X[32:64])
    want = 6.02 if pink else 0.
    ctx.close(10 * np.log10(lo / hi), want, 1.2, 'colour of the noise',
              rel=False)
    ctx.cover(f'statistics pink={pink} k={k} {n}')
