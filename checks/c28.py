"""C28 interaural differences and diffuse field equalisation."""
import numpy as np
import resampy
import scipy.signal as ss
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(2)
P = spa.process


def smooth(a):
    n = len(a)
    y = np.zeros(n)
    f = 2 ** .5
    for k in range(n):
        lo, hi = int(k / f), min(max(int(np.ceil(k * f)), 1), n)
        w = np.hamming(hi - lo)
        y[k] = w @ a[lo:hi] / w.sum()
    return y


def make(r, g, taps, fs, kind):
    """Noise with decay, or almost an impulse."""
    if g < 40:
        azi, zen = gen.hrir_grid(r, g)
    else:               # suits a quadrature
        azi, zen = ref.dirs(gen.spread(r, g, 40))
    if kind == 'noise':
        x = r.standard_normal((2, g, taps)) * \
            np.exp(-np.arange(taps) / r.uniform(3, taps))
    else:
        x = r.standard_normal((2, g, taps)) * .05
        x[:, :, 0] += 1
    return spa.sig.HRIRs(x[0], x[1], azi, zen, fs), azi, zen, x


def bandpass(x, f, fs):
    return ss.sosfiltfilt(ss.butter(2, f, 'bandpass', fs=fs, output='sos'),
                          x, axis=-1)


@case(150)
def level_difference(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000, 96000])
    g, taps = gen.pick(r, [1, 2, 20]), gen.pick(r, [32, 64, 65, 256])
    h, azi, zen, x = make(r, g, taps, fs, 'noise')
    x *= 10. ** r.uniform(-1, 1, (2, g, 1))
    same = gen.chance(r, .3)
    if same:
        c = 10. ** r.uniform(-2, 2, g)
        x[0] = x[1] * c[:, None] * r.choice([-1, 1], g)[:, None]
    h.left[...], h.right[...] = x
    kw = {}
    f = (1e3, 20e3)
    if gen.chance(r, .5):
        f = kw['f_cut'] = gen.pick(r, [(200, 5000), (3000., 9e3),
                                       (1e3, 8e3)])
    db = True
    if gen.chance(r, .5):
        db = kw['TODB'] = bool(gen.chance(r, .5))
    y = ctx.call(P.ilds_from_hrirs, h, **kw)
    e = np.sqrt(np.mean(bandpass(x, f, fs) ** 2, axis=-1))
    e = 20 * np.log10(e[0] / e[1]) if db else e[0] - e[1]
    ctx.close(y, e, 1e-8, 'level difference in the band')
    if same and db:
        ctx.close(y, 20 * np.log10(c), 1e-8, 'scaled ears')
    ctx.cover(f'ild {db} {f} g={g}')


@case(100)
def time_difference(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000])
    g, taps = gen.pick(r, [1, 2, 7]), gen.pick(r, [64, 65, 128, 255])
    h, azi, zen, x = make(r, g, taps, fs, 'noise')
    tau = np.zeros(g)
    delayed = gen.chance(r, .6)
    if delayed:
        t = np.arange(taps)
        x = np.zeros((2, g, taps))
        for k in range(g):
            a, b = r.uniform(-.12, .12, 2) * taps + taps / 2
            w = r.uniform(3, 5)
            x[0, k] = np.exp(-((t - a) / w) ** 2) * r.uniform(.2, 3)
            x[1, k] = np.exp(-((t - b) / w) ** 2) * r.uniform(.2, 3)
            tau[k] = (b - a) / fs
        h.left[...], h.right[...] = x
    kw = {}
    up, f = 4, (100, 1500.)
    if gen.chance(r, .4):
        up = kw['upsample'] = gen.pick(r, [2, 3, 8])
    if gen.chance(r, .4):
        f = kw['f_cut'] = gen.pick(r, [(100, 3000.), (300, 1500)])
    y = ctx.call(P.itds_from_hrirs, h, **kw)
    ctx.ok(np.shape(y) == (g,), 'one per direction')
    fr = fs * up
    u = bandpass(resampy.resample(x, fs, fr, axis=-1), f, fr) ** 2
    n = u.shape[-1]
    for k in range(g):
        c = np.correlate(u[0, k], u[1, k], 'full')
        lag = np.arange(-(n - 1), n)
        ok = (lag >= -(n // 2)) & (lag < n - n // 2)
        i = int(round(-y[k] * fr)) + n - 1
        ctx.close(y[k] * fr, -(i - n + 1.), 1e-6, 'whole samples')
        ctx.ok(ok[i], 'within the range')
        ctx.ok(c[i] >= np.max(c[ok]) * (1 - 1e-9), 'largest correlation',
               itd=y[k], best=-lag[ok][np.argmax(c[ok])] / fr)
        if delayed and f == (100, 3000.):
            ctx.close(y[k] * fs, tau[k] * fs, 1.5, 'delay between the ears',
                      rel=False)
    ctx.cover(f'itd up={up} g={g} {delayed}')


def equalizer(azi, zen, x, fs, lims, w, minp):
    taps = x.shape[2]
    nf = 16 * taps
    H = np.abs(np.fft.rfft(x, nf, axis=-1)) ** 2
    A = [smooth(np.sqrt(np.einsum('g,gf->f', w, H[e]))) for e in range(2)]
    A = A[0] + A[1]
    f = np.arange(nf // 2 + 1) * fs / nf
    lo, hi = np.argmin(np.abs(f - lims[0])), np.argmin(np.abs(f - lims[1]))
    k = np.argmin(np.abs(f - 1000))
    A = A / np.mean(A[k - 5:k + 5])
    W = np.ones(len(f))
    W[:lo] = .5 * (1 - np.cos(np.pi * np.arange(lo) / max(lo, 1)))
    m = len(f) - hi
    W[hi:] = .5 * (1 + np.cos(np.pi * np.arange(1, m + 1) / m))
    T = W / A + 1 - W
    if minp:
        return ss.minimum_phase(np.fft.fftshift(np.fft.irfft(T ** 2)))[
            :taps], T, W, f
    h = np.fft.irfft(T)
    h = np.roll(h, taps // 2 + 1)[:taps]
    return h * np.hanning(taps), T, W, f


@case(80)
def common_transfer_function(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000, 96000])
    g, taps = gen.pick(r, [70, 100, 140]), gen.pick(r, [32, 64, 65, 128])
    kind = gen.pick(r, ['noise', 'delta'])
    h, azi, zen, x = make(r, g, taps, fs, kind)
    kw = {}
    w, lims, minp = None, (125, 10e3), True
    if gen.chance(r, .5):
        w = r.uniform(.5, 1.5, g) * 4 * np.pi / g
        if gen.chance(r, .3):            # as of some quadratures
            w[r.random(g) < .1] *= -.2
        kw['grid_weights'] = w
    if gen.chance(r, .4):
        lims = kw['freq_lims'] = gen.pick(r, [(200, 8e3), (0, 10e3),
                                              (500., 16e3)])
    if gen.chance(r, .5):
        minp = kw['MIN_PHASE'] = bool(gen.chance(r, .4))
    given = w is not None
    if not given:
        # order 5 quadrature of the directions
        w = ctx.call(spa.grids.calculate_grid_weights, azi, zen, 5)
    H = np.abs(np.fft.rfft(x, 16 * taps, axis=-1)) ** 2
    if np.min(np.einsum('g,egf->ef', w, H)) <= 0:
        return ctx.trivial()          # negative weights: no energy
    y = ctx.call(P.hrirs_ctf, h, **kw)
    e, T, W, f = equalizer(azi, zen, x, fs, lims, w, minp)
    ctx.ok(len(y) == taps, 'as long as the HRIRs')
    ctx.close(y, e, 1e-7, 'equaliser of the average spectrum')
    if kind == 'delta' and minp:
        Y = np.abs(np.fft.rfft(y, 16 * taps))
        ctx.close(Y, T, .35, 'inverse of the average spectrum')
    # level of the set is irrelevant
    c = 10. ** r.uniform(-2, 2)
    h2 = spa.sig.HRIRs(c * x[1], c * x[0], azi, zen, fs)
    ctx.close(ctx.call(P.hrirs_ctf, h2, **kw), e, 1e-7,
              'scaled set with swapped ears')
    ctx.cover(f'ctf {kind} min={minp} {lims} w={given}')


@case(80)
def equalised_set(ctx):
    r = ctx.rng
    g, taps = gen.pick(r, [70, 100]), gen.pick(r, [16, 32, 65])
    h, azi, zen, x = make(r, g, taps, 48000, 'delta')
    kw = {}
    mode = 'full'
    if gen.chance(r, .5):
        mode = kw['mode'] = gen.pick(r, ['full', 'same', 'valid'])
    if gen.chance(r, .6):
        q = r.standard_normal(gen.pick(r, [1, 2, 5, taps]))
        ctx.call(h.apply_ctf_eq, q, _pure=False, **kw)
    else:
        q = ctx.call(P.hrirs_ctf, h)
        ctx.call(h.apply_ctf_eq, _pure=False, **kw)
    n = taps + len(q) - 1
    s = 0
    if mode == 'same':
        s = (n - taps) // 2
        n = taps
    if mode == 'valid':
        s, n = min(taps, len(q)) - 1, abs(taps - len(q)) + 1
    for e, y in enumerate((h.left, h.right)):
        ctx.ok(y.shape == (g, n), 'size', shape=y.shape)
        k = int(r.integers(g))
        ctx.close(y[k], ref.conv(x[e, k], q)[s:s + n], 1e-9,
                  'equalised responses')
    ctx.ok(len(h) == n and h.num_samples == n, 'length')
    ctx.close(h.azi, azi, 0, 'directions stay')
    ctx.cover(f'eq {mode} {len(q)}')


@case(20)
def invalid_rejected(ctx):
    r = ctx.rng
    h, azi, zen, x = make(r, 40, 32, 48000, 'noise')
    ctx.raises(P.hrirs_ctf, h, grid_weights=np.ones(39),
               _what='too few weights')
    ctx.raises(P.ilds_from_hrirs, (x[0], x[1]), _what='arrays')
    ctx.raises(P.itds_from_hrirs, (x[0], x[1]), _what='arrays')
