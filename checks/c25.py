"""C25 room responses for head tracked rendering (SSR files)."""
import os
import numpy as np
import soundfile as sf
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(4)
TOL = {'FLOAT': 1e-6, 'DOUBLE': 1e-12, 'PCM_16': 4e-5, 'PCM_24': 2e-7}


def data(r, grid, taps, fs):
    azi, zen = gen.hrir_grid(r, grid)
    x = r.standard_normal((2, grid, taps))
    return spa.sig.HRIRs(x[0], x[1], azi, zen, fs), azi, zen, x


def nearest(azi, zen, a, z):
    """(n,) unique nearest points of the grid, or None."""
    c = ref.unit(a, z) @ ref.unit(azi, zen).T
    d = np.arccos(np.clip(c, -1, 1))
    s = np.sort(d, axis=1)
    if s.shape[1] > 1 and np.min(s[:, 1] - s[:, 0]) < 1e-6:
        return None
    return np.argmin(d, axis=1)


def target(ctx):
    r = ctx.rng
    n = f'brir {ctx._case}{ctx._i}.v1'
    p = os.path.join(ctx.scratch, n)
    if gen.chance(r, .3):
        p = n
    if gen.chance(r, .2):
        p += gen.pick(r, ['.wave', '.wav.old', '.WAV_', 'wav'])
    return (p + '.wav', p + '.wav') if gen.chance(r, .5) else \
        (p, p + '.wav')


def compare(ctx, f, e, fs, st):
    ctx.ok(os.path.exists(f), 'the file is written', file=f)
    y, g = sf.read(f, always_2d=True)
    i = sf.info(f)
    os.remove(f)
    ctx.ok(g == fs, 'sampling rate of the file')
    ctx.ok(i.subtype == st, 'subtype of the file')
    ctx.ok(y.shape == (e.shape[1], 720), 'channels and length of the file',
           shape=y.shape)
    m = np.max(np.abs(e))
    if m > 1:
        e = e / m
    ctx.close(y.T, e, TOL[st], 'room responses per degree, left and right')
    return m > 1


def scale(r, e):
    """Some sets are too loud, some barely, some are not."""
    m = np.max(np.abs(e))
    return gen.pick(r, [.5, .99, 1.01, 7., .05]) / m if m > 0 else 1.


@case(24)
def loudspeakers(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000, 96000])
    h, azi, zen, x = data(r, gen.pick(r, [1, 2, 5, 30]),
                          gen.pick(r, [1, 2, 5, 16]), fs)
    p = gen.setup_args(r, gen.layout(r, nmax=9))
    # SSR turns the head; nothing else changes
    n = gen.pick(r, [1, 2, 3, 10, 40])
    ls = r.standard_normal((len(p), n))
    ls[r.random(len(p)) < .3] = 0
    ls[int(r.integers(len(p))), -1] = 1
    s = spa.decoder.LoudspeakerSetup(*p.T)
    if gen.chance(r, .4):
        s.a = gen.pick(r, [0, 2])
    a = s.a
    e = np.zeros((720, n + x.shape[2] - 1))
    la, lz = ref.dirs(p)
    deg = np.radians(np.arange(360))
    for c in range(len(p)):
        if not np.any(ls[c]):
            continue
        k = nearest(azi, zen, la[c] - deg, np.full(360, lz[c]))
        if k is None:
            ctx.trivial()
            return
        d = np.linalg.norm(p[c])
        for q in range(2):
            u = {i: ref.conv(ls[c] / d ** a, x[q, i]) for i in set(k)}
            e[q::2] += np.array([u[i] for i in k])
    m = scale(r, e)
    f, full = target(ctx)
    kw = {}
    st = 'FLOAT'
    if gen.chance(r, .5):
        st = kw['subtype'] = gen.pick(r, list(TOL))
    jobs = 1
    if gen.chance(r, .3):
        jobs = kw['jobs_count'] = gen.pick(r, [1, 2, 3, 7, None])
    # inaudible channels (below 1e-5) are not rendered
    tiny = np.abs(ls * m).max(axis=1)
    if np.any((tiny > 0) & (tiny < 2e-4)):
        ctx.trivial()
        return
    ctx.call(spa.io.write_ssr_brirs_loudspeaker, f, ls * m, s, fs, hrirs=h,
             _pure=False, **kw)
    loud = compare(ctx, full, e * m, fs, st)
    ctx.cover(f'ls {st} jobs={jobs} loud={loud}')


@case(24)
def pressure_and_directions(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000])
    h, azi, zen, x = data(r, gen.pick(r, [1, 2, 5, 30]),
                          gen.pick(r, [1, 2, 5, 16]), fs)
    n = gen.pick(r, [1, 2, 3, 8])
    p = r.standard_normal(n)
    phi, the = gen.path(r, n)
    if gen.chance(r, .3) and n > 1:
        p[int(r.integers(n))] = 0
    deg = np.radians(np.arange(360))
    T = x.shape[2]
    e = np.zeros((720, n + T - 1))
    for i in range(n):
        k = nearest(azi, zen, phi[i] - deg, np.full(360, the[i]))
        if k is None:
            ctx.trivial()
            return
        for q in range(2):
            e[q::2, i:i + T] += p[i] * x[q, k]
    m = scale(r, e)
    f, full = target(ctx)
    kw = {}
    st = 'FLOAT'
    if gen.chance(r, .5):
        st = kw['subtype'] = gen.pick(r, list(TOL))
    ctx.call(spa.io.write_ssr_brirs_sdm, f, p * m, phi, the, fs, hrirs=h,
             _pure=False, **kw)
    loud = compare(ctx, full, e * m, fs, st)
    ctx.cover(f'sdm {st} n={n} loud={loud}')


@case(16)
def other_rate_rejected(ctx):
    r = ctx.rng
    h, azi, zen, x = data(r, 5, 4, 48000)
    p = gen.setup_args(r, gen.layout(r, 'regular'))
    s = spa.decoder.LoudspeakerSetup(*p.T)
    f, full = target(ctx)
    fs = gen.pick(r, [44100, 96000, 16000])
    if gen.chance(r, .5):
        ctx.raises(spa.io.write_ssr_brirs_loudspeaker, f,
                   r.standard_normal((len(p), 4)), s, fs, hrirs=h,
                   _what='HRIRs of another sampling rate')
    else:
        ctx.raises(spa.io.write_ssr_brirs_sdm, f, np.ones(3), np.zeros(3),
                   np.ones(3), fs, hrirs=h,
                   _what='HRIRs of another sampling rate')
    ctx.ok(not os.path.exists(full), 'no file is left')
