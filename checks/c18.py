"""C18 binaural rendering."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(6)
D = spa.decoder


def hrirs(r, g=None, taps=None, fs=48000, kind=None):
    g = g or gen.pick(r, [1, 2, 5, 20, 60, 200])
    azi, zen = gen.hrir_grid(r, g)
    if gen.chance(r, .3):
        azi = azi % (2 * np.pi)
    taps = taps or gen.pick(r, [1, 2, 3, 8, 33, 64])
    x = r.standard_normal((2, g, taps))
    return spa.sig.HRIRs(x[0], x[1], gen.vec_variant(r, azi) if g > 1 else
                         azi, gen.vec_variant(r, zen) if g > 1 else zen,
                         fs), azi, zen, x


def near(azi, zen, a, z):
    """Index of the nearest grid point, None if not unique."""
    d = ref.nearest(azi, zen, a, z)
    k = np.argsort(d, kind='stable')
    if len(k) > 1 and d[k[1]] - d[k[0]] < 1e-6:
        return None
    return int(k[0])


@case(250)
def nearest_response(ctx):
    r = ctx.rng
    h, azi, zen, x = hrirs(r)
    g = len(azi)
    n = gen.size(r, 40)
    a, z = gen.azimuths(r, n), gen.zeniths(r, n)
    if gen.chance(r, .3):
        k = r.integers(0, g, n)
        a = azi[k] + 2 * np.pi * r.integers(-2, 3, n)
        z = zen[k]
    if gen.chance(r, .2):           # looking over the pole
        z = gen.pick(r, [1, -1]) * z
    i = ctx.call(h.nearest_idx, gen.vec_variant(r, a), gen.vec_variant(r, z))
    i = np.asarray(i)
    ctx.ok(i.size == n, 'one index per direction')
    i = np.ravel(i)
    for q in range(n):
        d = ref.nearest(azi, zen, a[q], z[q])
        ctx.ok(d[i[q]] <= d.min() + 1e-6, 'no grid point is closer',
               azi=a[q], zen=z[q], found=d[i[q]], best=d.min())
    q = int(r.integers(n))
    l, rr = ctx.call(h.nearest_hrirs, float(a[q]), float(z[q]))
    k = near(azi, zen, a[q], z[q])
    if k is not None:
        ctx.close(l, x[0, k], 0, 'left response of the nearest direction')
        ctx.close(rr, x[1, k], 0, 'right response of the nearest direction')
    ctx.cover(f'near g={g} taps={x.shape[2]}')


@case(150)
def container(ctx):
    """HRIR sets: access, independent copies, replacement in place."""
    r = ctx.rng
    h, azi, zen, x = hrirs(r)
    g, taps = x.shape[1:]
    for step in range(int(r.integers(1, 6))):
        m = r.integers(4)
        ctx.ok(len(h) == taps and h.num_samples == taps and
               h.num_grid_points == g and h.fs == 48000, 'sizes')
        ctx.close(h.left, x[0], 0, 'left')
        ctx.close(h.right, x[1], 0, 'right')
        ctx.close(h.azi, azi, 1e-15, 'azimuth')
        ctx.close(h.zen, zen, 1e-15, 'zenith')
        if m == 0:
            k = int(r.integers(g))
            a, b = h[k]
            ctx.close(a, x[0, k], 0, 'left response')
            ctx.close(b, x[1, k], 0, 'right response')
        elif m == 1:
            c = ctx.call(h.copy)
            c.left[...] = np.nan
            c.azi[...] = 9
            y = x + 1
            c.update_hrirs(y[0][:, :1], y[1][:, :1])
        elif m == 2:
            taps = gen.pick(r, [1, 4, 17])
            y = r.standard_normal((2, g, taps))
            ctx.call(h.update_hrirs, y[0], y[1])
            x = y
        else:
            y = r.standard_normal((2, g + 1, 4))
            ctx.raises(h.update_hrirs, y[0], y[1],
                       _what='responses for another grid')
            ctx.raises(h.update_hrirs, y[0, :g], y[1],
                       _what='ears of different size')
        ctx.cover(f'container {m}')


def expected(ls, pos, a, azi, zen, x, ori=(0, 0)):
    """(2, n) sum of nearest responses, None if one is not unique."""
    n = ls.shape[1] + x.shape[2] - 1
    out = np.zeros((2, n))
    for c in range(len(ls)):
        if np.max(np.abs(ls[c])) == 0:
            continue
        la, lz = ref.dirs(pos[c])
        k = near(azi, zen, la[0] - ori[0], lz[0] - ori[1])
        if k is None:
            return None
        d = np.linalg.norm(pos[c])
        for e in range(2):
            out[e] += ref.conv(ls[c] / d ** a, x[e, k])
    return out


@case(250)
def loudspeakers(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=20))
    off = r.uniform(-.1, .1, 3) if gen.chance(r, .3) else np.zeros(3)
    s = D.LoudspeakerSetup(*p.T, listener_position=off) \
        if np.any(off) else D.LoudspeakerSetup(*p.T)
    pos = p - off
    a = 1
    if gen.chance(r, .5):
        a = s.a = gen.pick(r, [0, 1, 2, .5])
    fs = gen.pick(r, [44100, 48000, 96000])
    h, azi, zen, x = hrirs(r, fs=fs)
    n = gen.size(r, 200)
    ls = r.standard_normal((len(p), n)) * 10. ** r.uniform(-3, 1)
    ls[:, 0] = .1 * r.choice([-1, 1], len(p))    # audible
    quiet_ch = r.random(len(p)) < .3
    ls[quiet_ch] = 0
    if gen.chance(r, .3):            # a single audible sample
        k = int(r.integers(len(p)))
        ls[k] = 0
        ls[k, int(r.integers(n))] = gen.pick(r, [1., -1.])
    ori = (0, 0)
    kw = {}
    if gen.chance(r, .6):
        ori = (float(r.uniform(-7, 7)),
               float(r.uniform(-1, 1)) if gen.chance(r, .3) else 0)
        kw['orientation'] = ori
    y = ctx.call(s.binauralize, gen.variant(r, ls), fs, hrirs=h, **kw)
    e = expected(ls, pos, a, azi, zen, x, ori)
    if e is None:
        return ctx.trivial()
    ctx.close(np.asarray(y), e, 1e-9, 'sum of the loudspeakers, each through '
              'the nearest response')
    ctx.cover(f'bin a={a} n>1={n > 1} taps={x.shape[2]} ori={bool(kw)} '
              f'offset={bool(np.any(off))}')


@case(120)
def superposition(ctx):
    """Very quiet signals, single channels, rotated layouts."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=14))
    s = D.LoudspeakerSetup(*p.T)
    h, azi, zen, x = hrirs(r, g=60)
    n = gen.size(r, 60)
    ls = r.standard_normal((len(p), n)) * \
        10. ** r.uniform(-8, 1, (len(p), 1))
    y = np.asarray(ctx.call(s.binauralize, ls, 48000, hrirs=h))
    e = expected(ls, p, 1, azi, zen, x)
    if e is not None:
        # -100 dB are not audible
        bound = len(p) * 1e-5 * n * np.max(np.abs(x))
        ctx.close(y, e, bound + 1e-9, 'quiet channels', rel=False)
        loud = ls * (np.max(np.abs(ls), axis=1) >
                     2e-5 * np.linalg.norm(p, axis=1))[:, None]
        e2 = expected(loud, p, 1, azi, zen, x)
        y2 = np.asarray(ctx.call(s.binauralize, loud, 48000, hrirs=h))
        ctx.close(y2, e2, 1e-12, 'audible channels are all rendered')
    # turning the listener is turning the loudspeakers the other way
    t = float(r.uniform(-4, 4))
    q = p @ ref.Rz(-t).T
    s2 = D.LoudspeakerSetup(*q.T)
    ls = r.standard_normal((len(p), n))
    if expected(ls, q, 1, azi, zen, x) is not None:
        ctx.close(np.asarray(ctx.call(s2.binauralize, ls, 48000, hrirs=h)),
                  np.asarray(ctx.call(s.binauralize, ls, 48000, hrirs=h,
                                      orientation=(t, 0))), 1e-9,
                  'turned listener')
    ctx.cover('quiet')


@case(250)
def ambisonic_binaural(ctx):
    r = ctx.rng
    N = int(r.integers(0, 6))
    K = (N + 1) ** 2
    n, taps = gen.size(r, 600), gen.size(r, 300)
    x = r.standard_normal((K, n))
    h = r.standard_normal((2, K, taps))
    if gen.chance(r, .3):
        x = gen.cmat(r, K, n, False) * (r.random((K, 1)) < .5)
    y = ctx.call(spa.decoder.sh2bin, gen.variant(r, x), gen.variant(r, h))
    L = n + taps - 1
    F = 1 << (L - 1).bit_length() if L > 1 else 2
    e = np.fft.irfft(np.sum(np.fft.rfft(h, F) * np.fft.rfft(x, F)[None],
                            axis=1), F)[:, :L]
    ctx.close(y, e, 1e-8, 'sum of the filtered channels')
    ctx.cover(f'sh2bin N={N} n>taps={n > taps}')


@case(40)
def mismatches_rejected(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=10))
    s = D.LoudspeakerSetup(*p.T)
    h, azi, zen, x = hrirs(r)
    ls = r.standard_normal((len(p), 5))
    ctx.raises(s.binauralize, ls, 44100, hrirs=h,
               _what='HRIRs of another sampling rate')
    ctx.raises(s.binauralize, ls[:-1], 48000, hrirs=h,
               _what='too few loudspeaker signals')
    ctx.raises(s.binauralize, np.vstack([ls, ls[:1]]), 48000, hrirs=h,
               _what='too many loudspeaker signals')
    ctx.raises(D.sh2bin, ls[:4], x[:, :1].repeat(9, 1),
               _what='filters of another order')
    ctx.raises(D.sh2bin, ls[0], x, _what='a 1-D signal')
    ctx.raises(D.sh2bin, ls[:4], x[0], _what='2-D filters')
    g = len(azi)
    ctx.raises(spa.sig.HRIRs, x[0], x[1], np.r_[azi, 0], zen, 48000,
               _what='another number of azimuths')
    ctx.raises(spa.sig.HRIRs, x[0], x[1], np.r_[azi, 0], np.r_[zen, 0],
               48000, _what='another number of directions')
    ctx.raises(spa.sig.HRIRs, x[0], np.vstack([x[1], x[1]]), azi, zen,
               48000, _what='ears of different size')
    ctx.raises(spa.sig.HRIRs, x[0, 0], x[1, 0], azi, zen, 48000,
               _what='1-D responses')
