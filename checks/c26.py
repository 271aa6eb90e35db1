"""C26 fractional octave bands, smoothing, tapers and soft clipping."""
import numpy as np
import spaudiopy as spa
from vmon import gen
from vmon.core import registry

CASES, case = registry(6)
P = spa.process


@case(250)
def smoothing(ctx):
    r = ctx.rng
    n = gen.size(r, 700)
    cplx = gen.chance(r, .3)
    a = gen.cmat(r, 1, n, cplx)[0]
    if gen.chance(r, .3):
        a = np.abs(a)
    if gen.chance(r, .2):
        a, cplx = r.integers(-50, 50, n), False
    cplx = np.iscomplexobj(a)
    s = gen.pick(r, [1, 2, 3, 6, 12, 24, 48, .5, 1.5])
    kw = {}
    W = True
    if gen.chance(r, .5):
        W = kw['WEIGHTED'] = bool(gen.chance(r, .5))
    y = ctx.call(P.frac_octave_smoothing, gen.vec_variant(r, a), s, **kw)
    f = 2. ** (1 / (2 * s))
    e = np.zeros(n, complex)
    for k in range(n):
        lo = int(np.floor(k / f))
        hi = min(max(int(np.ceil(k * f)), 1), n)
        w = np.hamming(hi - lo) if W else np.ones(hi - lo)
        e[k] = np.dot(w, a[lo:hi]) / np.sum(w)
    ctx.ok(np.iscomplexobj(y) or not cplx, 'complex spectra stay complex')
    ctx.close(y, e, 1e-12, 'mean over the band around each bin')
    # a mean: constants stay, values within the band's range
    if not cplx:
        ctx.ok(np.min(y) >= np.min(a) - 1e-9 and
               np.max(y) <= np.max(a) + 1e-9, 'within the range')
    c = ctx.call(P.frac_octave_smoothing, np.full(n, 3.), s, **kw)
    ctx.close(c, np.full(n, 3.), 1e-12, 'constant spectrum')
    ctx.cover(f'smooth n={s} {W} {cplx}')


def design(n, N, fs, f_low, f_high, overlap, l):
    """Gains and frequencies: power complementary crossovers."""
    top = fs // 2 if f_high is None else min(f_high, fs // 2)
    fc = [float(f_low)]
    while fc[-1] * 2 ** (.5 / n) < top:
        fc.append(fc[-1] * 2 ** (1 / n))
    fc = np.array(fc)
    lo = fc * 2 ** (-.5 / n)
    hi = fc * 2 ** (.5 / n)
    df = fs / (2 * (N - 1))
    lows = np.zeros((len(fc), N))          # high pass part of each crossover
    for b in range(len(fc)):
        k0 = int(np.floor(lo[b] / df + 1e-12))
        Pn = int(np.round(overlap * (fc[b] - lo[b]) / df))
        p = np.arange(N) - k0
        if Pn == 0:
            t = np.where(p >= 0, 1., -1.)
        else:
            t = np.clip(p / Pn, -1, 1)
        for _ in range(l):
            t = np.sin(np.pi / 2 * t)
        lows[b] = np.sin(np.pi / 4 * (t + 1))
        if Pn == 0:
            lows[b] = p >= 0
    g = np.ones((len(fc) + 1, N))
    for b in range(len(fc)):
        g[b] *= np.sqrt(np.clip(1 - lows[b] ** 2, 0, 1))
        g[b + 1] *= lows[b]
    hi = hi.copy()
    hi[-1] = fs / 2
    fc2 = fc.copy()
    fc2[-1] = np.sqrt(lo[-1] * hi[-1])
    ff = np.vstack([[0, np.sqrt(lo[0]), lo[0]], np.c_[lo, fc2, hi]])
    return g, ff, lo, fc, df


@case(500)
def bands(ctx):
    r = ctx.rng
    n = gen.pick(r, [1, 2, 3, 6, 12])
    fs = gen.pick(r, [8000, 16000, 44100, 48000, 96000])
    N = max(3, gen.size(r, 3000))
    f_low = float(np.exp(r.uniform(np.log(10), np.log(fs / 2.5))))
    if gen.chance(r, .5):
        f_low = gen.pick(r, [25, 63, 100, 125, 200, 1000])
    f_high = gen.pick(r, [None, fs / 2, fs, float(
        np.exp(r.uniform(np.log(f_low), np.log(fs)))), 8000])
    kw = {}
    ov, l, mode = .5, 3, 'energy'
    if f_high is not None or gen.chance(r, .3):
        kw['f_high'] = f_high
    if gen.chance(r, .5):
        ov = kw['overlap'] = gen.pick(r, [0, .1, .25, .5, .33])
    if gen.chance(r, .4):
        l = kw['slope_l'] = gen.pick(r, [0, 1, 2, 3, 5])
    if gen.chance(r, .6):
        mode = kw['mode'] = gen.pick(r, ['energy', 'amplitude', 'pressure'])
    g, ff = ctx.call(P.frac_octave_filterbank, n, N, fs, f_low, **kw)
    e, eff, lo, fc, df = design(n, N, fs, f_low, f_high, ov, l)
    ctx.ok(g.shape == e.shape, 'number of bands and bins',
           shape=g.shape, expected=e.shape)
    ctx.ok(np.min(g) >= 0 and np.max(g) <= 1 + 1e-12, 'gains in [0, 1]')
    q = g ** 2 if mode == 'energy' else g
    ctx.close(np.sum(q, axis=0), np.ones(N), 1e-9,
              'the bands sum to unity in every bin')
    ctx.close(ff, eff, 1e-9, 'edge and centre frequencies')
    x = lo / df
    if np.min(np.abs(x - np.round(x))) > 1e-6:
        z = ov * (fc - lo) / df
        if np.min(np.abs(z % 1 - .5)) > 1e-6:
            ctx.close(np.sqrt(q), e, 1e-7, 'gains of the bands')
    f = np.arange(N) * df
    for b in range(len(ff)):         # nothing far outside of the band
        far = (f < ff[b, 0] / 2 ** (.5 / n) - 2 * df) | \
            (f > ff[b, 2] * 2 ** (.5 / n) + 2 * df)
        ctx.ok(np.max(g[b, far], initial=0) == 0, 'band limits')
    ctx.cover(f'bank 1/{n} {mode} ov={ov} l={l} high={f_high is not None}')


@case(30)
def invalid_rejected(ctx):
    r = ctx.rng
    n, N, fs = gen.pick(r, [1, 3]), 257, 48000
    ctx.raises(P.frac_octave_filterbank, n, N, fs, 100,
               mode=gen.pick(r, ['power', '', 'Energy', None]),
               _what='an unknown mode')
    ctx.raises(P.frac_octave_filterbank, n, N, fs, 100,
               overlap=gen.pick(r, [.51, 1, 3]), _what='too much overlap')
    ctx.raises(P.half_sided_Hann, int(r.integers(-3, 3)),
               _what='a too short window')
    ctx.raises(P.frac_octave_smoothing, r.standard_normal((3, 4)), 3,
               _what='two spectra')


@case(150)
def taper(ctx):
    r = ctx.rng
    N = gen.loguniform_int(r, 3, 3000) if gen.chance(r, .5) else \
        int(r.integers(3, 40))
    w = ctx.call(P.half_sided_Hann, N)
    m = (N + 1) // 2
    k = (N - 1) // 2
    e = np.ones(N + 1)
    # falling flank of a Hann window, without its first and last point
    e[N + 1 - k:] = .5 * (1 + np.cos(np.pi * np.arange(m - k, m) / m))
    ctx.close(w, e, 1e-12, 'half sided Hann window')
    ctx.ok(np.all(np.diff(w) <= 1e-15) and w[0] == 1 and w[-1] > 0,
           'falls from one, stays positive')
    ctx.cover(f'taper odd={N % 2}')


@case(150)
def clipping(ctx):
    r = ctx.rng
    t = 10. ** r.uniform(-2, 2)
    sh = gen.pick(r, [(1,), (7,), (300,), (5, 6), (2, 3, 4)])
    g = t * 10. ** r.uniform(-2, 2, sh)
    if gen.chance(r, .3):
        g = r.integers(0, 20, sh)
    if gen.chance(r, .2):
        g = np.where(r.random(sh) < .3, t, g)
    y = ctx.call(P.gain_clipping, gen.variant(r, g), t)
    e = np.where(g <= t, g, t * (1 + np.tanh(g / t - 1)))
    ctx.close(y / t, e / t, 1e-12, 'soft clipping beyond the threshold')
    ctx.ok(np.max(y) <= 2 * t * (1 + 1e-12), 'at most 6 dB beyond')
    o = np.argsort(g, axis=None)
    ctx.ok(np.all(np.diff(y.ravel()[o]) >= -1e-12 * t), 'monotonic')
    ctx.cover(f'clip {g.dtype.kind} {len(sh)}')
