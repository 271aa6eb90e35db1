"""C19 magnitude least squares binaural filters."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(4)
M = spa.decoder.magls_bin


def head(r, fs, taps, azi, zen):
    """Rigid-sphere-like responses: smooth delays, shadowing, some colour."""
    v = ref.unit(azi, zen)
    out = []
    R = r.uniform(.07, .1)
    ax = r.standard_normal(3) * .1
    base = taps * r.uniform(.2, .35)
    t = np.arange(taps)
    n = r.standard_normal((2, 12)) * .2
    for e, s in enumerate((1, -1)):
        ear = np.array([0, s, 0]) + ax
        ear = ear / np.linalg.norm(ear)
        c = v @ ear
        d = np.clip(base - R / 343 * fs * c, 2, taps - 3)
        g = 1 + .6 * c
        h = g[:, None] * np.sinc(t - d[:, None]) * \
            np.exp(-((t - d[:, None]) / (.15 * taps)) ** 2)
        k = np.r_[1, n[e] * np.exp(-np.arange(12) / 3)]
        h = np.apply_along_axis(lambda x: np.convolve(x, k)[:taps], 1, h)
        out.append(h)
    return np.array(out)


def make(r, N, extra=True):
    fs = gen.pick(r, [44100, 48000, 48000, 32000, 96000])
    taps = gen.pick(r, [64, 65, 100, 128, 129, 255, 256, 384] +
                    ([1024, 1025, 1100] if extra and gen.chance(r, .3)
                     else []))
    if gen.chance(r, .5):
        v = spa.grids.load_t_design(2 * N + 2)
        azi, zen = ref.dirs(v)
    else:
        g = (N + 2) ** 2 + int(r.integers(0, 30))
        azi, zen = ref.dirs(gen.spread(r, g, 30))
    x = head(r, fs, taps, azi, zen)
    return spa.sig.HRIRs(x[0], x[1], azi, zen, fs), x, azi, zen, fs, taps


def model(x, azi, zen, fs, N, ft, cont, hfd):
    """The documented procedure, one ear at a time."""
    taps = x.shape[2]
    F = max(1024, taps)
    f = np.arange(F // 2 + 1) * fs / F
    kc = int(np.argmin(np.abs(f - ft)))
    Y = ref.sh(N, azi, zen)
    P = np.linalg.pinv(Y)
    out = []
    for e in range(2):
        H = np.fft.rfft(x[e], F)
        S = np.zeros(((N + 1) ** 2, len(f)), complex)
        S[:, :kc] = P @ H[:, :kc]
        if cont == 'avg':
            ph = np.unwrap(np.angle(S[0, :kc]))
            dp = np.mean(np.diff(ph[kc - 6:kc - 1]))
        elif cont == 'angle':
            ph = np.unwrap(np.angle(Y @ S[:, :kc]))
            dp = np.mean(np.diff(ph[:, kc - 6:kc - 1], axis=1), axis=1)
        else:
            dp = 0.
        dp = dp - 2 * np.pi * f[1] * hfd[e] / fs
        for k in range(kc, len(f)):
            z = Y @ S[:, k - 1]
            S[:, k] = P @ (np.abs(H[:, k]) *
                           np.exp(1j * (np.angle(z) + dp)))
        h = np.fft.irfft(S, F)[:, :taps]
        w = np.ones(taps)
        w[-32:] = np.hanning(64)[32:]
        w[:4] *= np.hanning(8)[:4]
        out.append(h * w)
    return np.array(out)


def options(r, N, fs):
    cont = gen.pick(r, ['avg', 'avg', 'angle', 'delay'])
    ft = float(r.uniform(600, 4000)) if gen.chance(r, .5) else \
        gen.pick(r, [500. * N + 200, 1500, 2000., int(600 * N + 100)])
    ft = max(ft, 8 * fs / 1024)
    hfd = (0, 0)
    if gen.chance(r, .4):
        hfd = gen.pick(r, [(3., 3.), (10, -4), (0, 5.5), [20, 20]])
    return cont, ft, hfd


def call(ctx, h, N, ft, cont, hfd):
    kw = {'f_trans': ft}
    r = ctx.rng
    if cont != 'avg' or gen.chance(r, .5):
        kw['hf_cont'] = cont
    if any(hfd) or gen.chance(r, .3):
        kw['hf_delay'] = hfd
    return ctx.call(M, h, N, **kw)


@case(90)
def procedure(ctx):
    r = ctx.rng
    N = int(r.integers(1, 6))
    h, x, azi, zen, fs, taps = make(r, N)
    cont, ft, hfd = options(r, N, fs)
    y = call(ctx, h, N, ft, cont, hfd)
    e = model(x, azi, zen, fs, N, ft, cont, hfd)
    # stable problem? (the phase of a vanishing response is undefined)
    e2 = model(x * (1 + 1e-11 * r.standard_normal(x.shape)), azi, zen, fs,
               N, ft, cont, hfd)
    sens = np.max(np.abs(e - e2)) / np.max(np.abs(e))
    if sens > 1e-8:
        return ctx.trivial()
    ctx.close(y / np.max(np.abs(e)), e / np.max(np.abs(e)), 1e-6,
              'magLS filters')
    ctx.cover(f'magls N={N} {cont} taps={taps} delay={any(hfd)}')


@case(60)
def what_it_is_for(ctx):
    """Least squares below, magnitudes above the transition."""
    r = ctx.rng
    N = int(r.integers(2, 6))
    h, x, azi, zen, fs, taps = make(r, N)
    if taps < 200:
        return ctx.trivial()
    ft = float(600 * N)
    y = call(ctx, h, N, ft, gen.pick(r, ['avg', 'angle']), (0, 0))
    ctx.ok(y.shape == (2, (N + 1) ** 2, taps) and np.isrealobj(y),
           'real filters, one per channel and ear', shape=y.shape)
    Y = ref.sh(N, azi, zen)
    P = np.linalg.pinv(Y)
    F = 4096
    f = np.fft.rfftfreq(F, 1 / fs)
    hi = (f > 1.3 * ft) & (f < min(18e3, .45 * fs))
    for e in range(2):
        H = np.fft.rfft(x[e], F)
        G = Y @ np.fft.rfft(y[e], F)
        L = Y @ (P @ H)
        err = np.sqrt(np.mean((np.abs(G) - np.abs(H))[:, hi] ** 2))
        lse = np.sqrt(np.mean((np.abs(L) - np.abs(H))[:, hi] ** 2))
        ctx.ok(err < lse * 1.02 + 1e-9, 'magnitudes above the transition '
               'are closer than the least squares solution', err=err,
               lse=lse)
    ctx.cover(f'use N={N}')


@case(60)
def symmetries(ctx):
    r = ctx.rng
    N = int(r.integers(1, 5))
    h, x, azi, zen, fs, taps = make(r, N, False)
    cont, ft, hfd = options(r, N, fs)
    y = call(ctx, h, N, ft, cont, hfd)
    s = spa.sig.HRIRs(x[1], x[0], azi, zen, fs)
    z = call(ctx, s, N, ft, cont, hfd[::-1])
    ctx.close(z, y[::-1], 1e-7, 'swapped ears')
    g = float(2. ** r.integers(-6, 7))
    s = spa.sig.HRIRs(g * x[0], g * x[1], azi, zen, fs)
    z = call(ctx, s, N, ft, cont, hfd)
    ctx.close(z / g, y, 1e-9, 'louder responses')
    k = r.permutation(len(azi))
    s = spa.sig.HRIRs(x[0][k], x[1][k], azi[k], zen[k], fs)
    z = call(ctx, s, N, ft, cont, hfd)
    m = np.max(np.abs(y))
    ctx.ok(np.sqrt(np.mean((z - y) ** 2)) < .2 * m, 'order of the grid')
    ctx.ok(np.all(np.isfinite(y)), 'finite')
    ctx.cover(f'sym {cont}')


@case(40)
def default_transition(ctx):
    """Default parameters are usable, higher than first order at least."""
    r = ctx.rng
    N = int(r.integers(2, 5))
    h, x, azi, zen, fs, taps = make(r, N, False)
    y = ctx.call(M, h, N)
    ok = [np.allclose(y, ctx.call(M, h, N, f_trans=f * N, hf_cont='avg',
                                  hf_delay=(0, 0)), atol=1e-9)
          for f in (500, 600)]
    ctx.ok(any(ok), 'default transition scales with the order')


@case(40)
def invalid_rejected(ctx):
    r = ctx.rng
    h, x, azi, zen, fs, taps = make(r, 1, False)
    ctx.raises(M, h, 1, hf_cont=gen.pick(r, ['none', 'phase', '', 'Avg']),
               _what='an unknown phase continuation')
    ctx.raises(M, (x[0], x[1]), 1, _what='bare arrays')
