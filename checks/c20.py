"""C20 pseudo-intensity and SDM rendering."""
import numpy as np
import scipy.signal as ss
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(6)
A = spa.parsa


def ambi(r, n, kind):
    """(4, n) B-format, and the direction if it is one plane wave."""
    s = r.standard_normal(n) * 10. ** r.uniform(-2, 1)
    if kind == 'plane':
        v = gen.vectors(r, 1)[0]
        return np.vstack([s, v[:, None] * s]), v
    if kind == 'switch':
        v = gen.vectors(r, 2)
        k = int(r.integers(n + 1))
        d = np.where((np.arange(n) < k)[:, None], v[0], v[1])
        return np.vstack([s, d.T * s]), None
    if kind == 'gaps':
        v = gen.vectors(r, 1)[0]
        s = s * (np.arange(n) % 50 < 10)
        return np.vstack([s, v[:, None] * s]), None
    if kind == 'mixed':             # offsets, silence, one sign only ...
        x = np.array([gen.signal(r, n) for _ in range(4)])
        if gen.chance(r, .3):
            x[int(r.integers(4))] = 0.
        return x, None
    return r.standard_normal((4, n)), None


def direction(b, win, bp, order, fs, absolute=False):
    """(n, 3) smoothed intensity vectors from sliding windows."""
    if bp is not None:
        bb, aa = ss.butter(2, (bp[0] / (fs / 2), bp[1] / (fs / 2)),
                           btype='bandpass')
        b = ss.filtfilt(bb, aa, b)
    if absolute:
        b = np.abs(b)
    n = b.shape[1]
    # Hann window, trapezoidal rule
    w = np.hanning(win)
    if win == 1:
        w = np.zeros(1)
    else:
        w = w.copy()
        w[0] *= .5
        w[-1] *= .5
    I = np.zeros((n, 3))
    q = win // 2
    for c in range(3):
        y = b[0] * b[1 + c]
        for i in range(n - win):
            I[i + q, c] = np.sum(w * y[i:i + win])
    if order > 0:
        k = np.hanning(order)
        J = np.zeros_like(I)
        o = order // 2
        for i in range(n):
            for j in range(order):
                m = i + o - j
                if 0 <= m < n:
                    J[i] += k[j] * I[m]
        I = J
    return I


@case(120)
def intensity(ctx):
    r = ctx.rng
    win = gen.pick(r, [33, 33, 1, 3, 5, 9, 17, 65])
    n = win + 1 + gen.pick(r, [0, 1, 2, 5, 20, 60, 150])
    if gen.chance(r, .1):           # shorter than a window
        n = int(r.integers(1, win + 1))
    order = gen.pick(r, [5, 5, 0, 1, 3, 7])
    if order > n:
        order = 1
    fs = gen.pick(r, [44100, 48000, 96000])
    kind = gen.pick(r, ['plane', 'switch', 'gaps', 'noise', 'mixed',
                        'mixed'])
    x, v = ambi(r, n, kind)
    kw = {}
    if win != 33 or gen.chance(r, .5):
        kw['win_len'] = win
    if order != 5 or gen.chance(r, .5):
        kw['smoothing_order'] = order
    bp = None
    if n > 40 and gen.chance(r, .4):
        bp = kw['f_bp'] = gen.pick(r, [(500., 8e3), [200, 1e4],
                                       (1000, 2000)])
    b = spa.sig.AmbiBSignal([*x], fs=fs)
    azi, zen, rad = ctx.call(A.pseudo_intensity, b, **kw)
    ctx.ok(len(azi) == len(zen) == len(rad) == n, 'one value per sample')
    I = direction(x, win, bp, order, fs)
    # the very last window may be evaluated or not
    ok = np.ones(n, bool)
    q = n - win + win // 2
    if n >= win:
        ok[max(0, q - order // 2 - 1):q + order // 2 + 2] = False
        if order == 0:
            ok[:] = True
            ok[q] = False
    s = np.max(np.abs(I)) + 1e-300
    # the filter or cancellation may leave nothing but round off
    s = max(s, .01 * np.max(np.abs(x[0])) * np.max(np.abs(x[1:])) * win)
    y = (ref.unit(azi, zen) * np.asarray(rad)[:, None])
    # angles resolve 1e-8 next to the poles, and vectors shorter than 1e-14
    # are taken for the origin
    ctx.close(y[ok] / s, I[ok] / s, 1e-7 + 3e-14 / s,
              'intensity vector')
    ctx.ok(np.asarray(rad) >= 0, 'magnitude')
    quiet_ = direction(x, win, bp, order, fs, True)
    silent = (np.linalg.norm(quiet_, axis=1) == 0) & ok
    ctx.close(np.asarray(zen)[silent], np.full(silent.sum(), np.pi / 2),
              1e-12, 'silence stays on the horizon')
    if v is not None:
        d = np.linalg.norm(I, axis=1) > 1e-9 * s
        if np.any(d & ok):
            ctx.close(ref.unit(azi, zen)[d & ok],
                      np.tile(v, ((d & ok).sum(), 1)), 1e-6,
                      'points to the source of a plane wave')
    ctx.cover(f'intensity {kind} win={win} order={order} bp={bp is not None}')


@case(100)
def stereo(ctx):
    r = ctx.rng
    n = gen.size(r, 200)
    p = gen.signal(r, n, silent=.03)
    phi, theta = gen.path(r, n)
    l, rr = ctx.call(A.render_stereo_sdm, gen.variant(r, p),
                     gen.variant(r, phi), gen.variant(r, theta))
    ctx.close(l, p * (1 + np.sin(phi)) / 2, 1e-12, 'left')
    ctx.close(rr, p * (1 - np.sin(phi)) / 2, 1e-12, 'right')
    ctx.close(l + rr, p, 1e-12, 'sum of both is the pressure')
    ctx.cover(f'stereo n={n}')


def hr(r, g=None):
    g = g or gen.pick(r, [1, 4, 30, 100])
    azi, zen = gen.hrir_grid(r, g)
    taps = gen.pick(r, [1, 2, 7, 32, 64])
    x = r.standard_normal((2, g, taps))
    return spa.sig.HRIRs(x[0], x[1], azi, zen, 48000), azi, zen, x


def near(azi, zen, a, z):
    d = ref.nearest(azi, zen, a, z)
    k = np.argsort(d, kind='stable')
    if len(k) > 1 and d[k[1]] - d[k[0]] < 1e-6:
        return None
    return int(k[0])


@case(150)
def binaural(ctx):
    r = ctx.rng
    h, azi, zen, x = hr(r)
    n = gen.size(r, 60)
    p = gen.signal(r, n, silent=.03)
    phi, theta = gen.path(r, n)
    taps = x.shape[2]
    e = np.zeros((2, n + taps - 1))
    for i in range(n):
        k = near(azi, zen, phi[i], theta[i])
        if k is None:
            return ctx.trivial()
        for c in range(2):
            e[c, i:i + taps] += p[i] * x[c, k]
    kw = {'jobs_count': 1} if gen.chance(r, .3) else {}
    y = ctx.call(A.render_bsdm, gen.variant(r, p), gen.variant(r, phi),
                 gen.variant(r, theta), h, **kw)
    ctx.close(np.asarray(y), e, 1e-11, 'every sample arrives with the '
              'response of its direction')
    ctx.cover(f'bsdm n={n} taps={taps}')


class Setup(spa.decoder.LoudspeakerSetup):
    """A setup whose listener has known responses."""
    my_hrirs = None

    def binauralize(self, ls_signals, fs, orientation=(0, 0), hrirs=None):
        return super().binauralize(ls_signals, fs, orientation=orientation,
                                   hrirs=hrirs or self.my_hrirs)


@case(80)
def loudspeakers(ctx):
    """Gains per sample, optional equalizer, binaural loudspeakers."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=14))
    s = Setup(*p.T)
    a = s.a = gen.pick(r, [1, 1, 0, 2])
    h, azi, zen, x = hr(r, 60)
    s.my_hrirs = h
    n = gen.size(r, 80)
    u = gen.signal(r, n)
    u[0] = .5
    phi, theta = gen.path(r, n)
    f = gen.pick(r, [spa.decoder.vbap, spa.decoder.nearest_loudspeaker])
    with quiet():
        g = f(ref.unit(phi, theta), s)
    seen = []
    kw = {}
    if gen.chance(r, .5):
        q, t = float(r.uniform(.5, 2)), int(r.integers(1, 4))

        def eq(ls_sigs, sdm_p, fs, ls_setup, gain=1., times=1):
            seen.append((np.array(ls_sigs), np.array(sdm_p), fs, ls_setup))
            return gain * times * ls_sigs
        kw = dict(gain=q, times=t)
        scale = q * t
    else:
        eq = None
        scale = 1.
    y = ctx.call(A.render_binaural_loudspeaker_sdm, gen.variant(r, u), g, s,
                 48000, post_eq_func=eq, **kw)
    ls = (g * u[:, None]).T
    if eq is not None:
        ctx.ok(len(seen) == 1, 'equalizer applied once')
        ctx.close(seen[0][0], ls, 1e-12, 'loudspeaker signals to equalize')
        ctx.close(seen[0][1], u, 1e-12, 'reference pressure')
        ctx.ok(seen[0][2] == 48000 and seen[0][3] is s, 'fs and setup')
    ls = ls * scale
    e = np.zeros((2, n + x.shape[2] - 1))
    for c in range(len(p)):
        d = np.linalg.norm(p[c])
        m = np.max(np.abs(ls[c])) / d ** a
        if m < .9e-5:
            continue
        k = near(azi, zen, *[float(q_[0]) for q_ in ref.dirs(p[c])])
        if k is None or m < 1.1e-5:
            return ctx.trivial()
        for q in range(2):
            e[q] += ref.conv(ls[c] / d ** a, x[q, k])
    ctx.close(np.asarray(y), e, 1e-5 * len(p) * np.max(np.abs(x)) * 2,
              'loudspeakers rendered binaurally')
    ctx.cover(f'ls n={n} eq={eq is not None} a={a}')


@case(30)
def invalid_rejected(ctx):
    r = ctx.rng
    b = spa.sig.AmbiBSignal([*r.standard_normal((4, 100))], fs=48000)
    ctx.raises(A.pseudo_intensity, b, win_len=2 * int(r.integers(1, 20)),
               _what='an even window length')
    ctx.raises(A.pseudo_intensity, b,
               smoothing_order=2 * int(r.integers(1, 10)),
               _what='an even smoothing order')
    p = gen.setup_args(r, gen.layout(r, nmax=10))
    s = Setup(*p.T)
    s.my_hrirs = hr(r, 20)[0]
    g = r.standard_normal((7, len(p)))
    ctx.raises(A.render_binaural_loudspeaker_sdm, r.standard_normal(8), g,
               s, 48000, post_eq_func=None, _what='gains of another length')
    if len(p) != 8:
        g = r.standard_normal((len(p), 8))
        ctx.raises(A.render_binaural_loudspeaker_sdm, r.standard_normal(8),
                   g, s, 48000, post_eq_func=None,
                   _what='gains of another layout')
