"""C08 modal weights and axisymmetric beam patterns."""
import math
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(8)
P = spa.sph


def order(r, hi=20):
    return int(r.integers(0, 7)) if gen.chance(r, .6) else \
        int(r.integers(0, hi + 1))


def pattern(c, d):
    """Axisymmetric pattern of modal weights at angle d."""
    return sum((2 * n + 1) / (4 * np.pi) * c[n] * ref.legendre(n, np.cos(d))
               for n in range(len(c)))


@case(300)
def bandlimited_pulse(ctx):
    r = ctx.rng
    N = order(r, 30)
    Q = gen.size(r, 60)
    d = r.uniform(-2 * np.pi, 2 * np.pi, Q)
    d[r.random(Q) < .2] = 0
    w = None
    if gen.chance(r, .6):
        w = gen.pick(r, [r.standard_normal(N + 1), r.random(N + 1),
                         np.eye(N + 1)[int(r.integers(N + 1))]])
    arg = gen.vec_variant(r, d)
    p = ctx.call(P.bandlimited_dirac, N, arg) if w is None else \
        ctx.call(P.bandlimited_dirac, N, arg, w if gen.chance(r, .5)
                 else w.tolist())
    ctx.close(p, pattern(np.ones(N + 1) if w is None else w, d), 1e-9,
              'bandlimited pulse')
    # it is the function with coefficients w_n * Y(dir)
    if gen.chance(r, .2):
        d = gen.pick(r, [int(r.integers(-3, 4)), float(r.uniform(-4, 4))])
        ctx.close(ctx.call(P.bandlimited_dirac, N, d), pattern(
            np.ones(N + 1), np.array([d])), 1e-9, 'bandlimited pulse')
    a1, z1 = gen.azimuths(r, 1), gen.zeniths(r, 1)
    a2, z2 = gen.azimuths(r, Q), gen.zeniths(r, Q)
    ww = (np.ones(N + 1) if w is None else w)[ref.orders(N)]
    f = (ref.sh(N, a2, z2) * ww) @ ref.sh(N, a1, z1)[0]
    ang = ref.angle(ref.unit(a2, z2), ref.unit(a1, z1)[0])
    ctx.close(ctx.call(P.bandlimited_dirac, N, ang, w), f, 1e-9,
              'steered pulse')
    ctx.cover(f'dirac N={N} w={w is not None}')


@case(200)
def hypercardioid(ctx):
    """Flat weights, unit gain on axis, maximum directivity."""
    r = ctx.rng
    N = order(r)
    c = ctx.call(P.hypercardioid_modal_weights, N)
    ctx.close(c, np.full(N + 1, 4 * np.pi / (N + 1) ** 2), 1e-10,
              'hypercardioid weights')
    ctx.close(pattern(c, 0.), 1., 1e-10, 'unit gain on axis')


@case(200)
def cardioid(ctx):
    """The pattern is ((1 + cos) / 2)^N."""
    r = ctx.rng
    N = order(r, 25)
    c = ctx.call(P.cardioid_modal_weights, N)
    d = np.r_[0, np.pi, r.uniform(0, np.pi, 9)]
    ctx.ok(c.shape == (N + 1,), 'one weight per order')
    ctx.close(pattern(c, d), ((1 + np.cos(d)) / 2) ** N, 1e-8,
              'cardioid pattern')
    ctx.cover(f'cardioid N={N}')


@case(200)
def max_re(ctx):
    r = ctx.rng
    N = order(r)
    a = ctx.call(P.max_rE_weights, N)
    e = [ref.legendre(n, math.cos(math.radians(137.9) / (N + 1.51)))
         for n in range(N + 1)]
    ctx.close(a, np.array(e, float), 1e-9, 'max-rE weights')
    w = ctx.call(P.maxre_modal_weights, N) if gen.chance(r, .5) else \
        ctx.call(P.maxre_modal_weights, N, UNITAMP=True)
    ctx.close(pattern(w, 0.), 1., 1e-9, 'unit gain on axis')
    ctx.close(w * a[0], a * w[0], 1e-9, 'same taper')
    ctx.close(ctx.call(P.maxre_modal_weights, N, UNITAMP=False), a, 1e-9,
              'raw weights')
    if N:
        # the energy vector is (nearly) the longest achievable: the largest
        # Legendre root of order N + 1
        x, wq = np.polynomial.legendre.leggauss(2 * N + 4)
        g2 = pattern(a, np.arccos(x)) ** 2
        rE = np.sum(wq * g2 * x) / np.sum(wq * g2)
        best = np.polynomial.legendre.leggauss(N + 1)[0].max()
        ctx.ok(best - 1e-3 <= rE <= best + 1e-9,
               'energy concentration is maximal', rE=rE, best=best)


@case(200)
def butterworth(ctx):
    r = ctx.rng
    N = order(r)
    k = gen.pick(r, [1, 2, 3, 5, 10, float(r.uniform(.5, 8)),
                     int(r.integers(10, 60))])
    nc = gen.pick(r, [1, 2, 3, 5, float(r.uniform(.3, 12))])
    e = 1 / np.sqrt(1 + (np.arange(N + 1) / nc) ** (2 * k))
    c = ctx.call(P.butterworth_modal_weights, N, k, nc, UNITAMP=False)
    ctx.close(c, e, 1e-9, 'Butterworth weights')
    w = ctx.call(P.butterworth_modal_weights, N, k, nc)
    ctx.close(pattern(w, 0.), 1., 1e-9, 'unit gain on axis')
    ctx.close(w * e[0], e * w[0], 1e-9, 'same taper')


@case(200)
def unity(ctx):
    r = ctx.rng
    N = order(r)
    c = r.random(N + 1) + .01
    if gen.chance(r, .3):
        c = -c
    if gen.chance(r, .15):
        c = np.arange(1, N + 2)
    if gen.chance(r, .2):
        c = c * 10. ** r.uniform(-8, 8)
    u = ctx.call(P.unity_gain, gen.vec_variant(r, c))
    ctx.close(pattern(u, 0.), 1., 1e-9, 'unit gain on axis')
    ctx.close(u * c[0], c * u[0], 1e-9, 'same taper')
    c = gen.cmat(r, 1, N + 1, gen.chance(r, .4))[0]
    ctx.close(ctx.call(P.repeat_per_order, gen.vec_variant(r, c)),
              c[ref.orders(N)], 0, 'weights repeated per order')
    ctx.cover(f'unity N={N}')


@case(400)
def energy_vector(ctx):
    r = ctx.rng
    L = int(r.integers(1, 30))
    S = gen.size(r, 20)
    p = gen.vectors(r, L) * (r.uniform(.5, 2, (L, 1))
                             if gen.chance(r, .3) else 1)
    g = r.standard_normal((S, L)) * (r.random((S, L)) < r.uniform(.1, 1))
    if gen.chance(r, .4):
        g = g * 10. ** r.uniform(-9, 9, (S, 1))
    if gen.chance(r, .2):
        p = gen.cap(r, L, .4)
        p = ref.unit(*p)
    zero = np.sum(g ** 2, 1) == 0
    arg = g[0] if S == 1 and gen.chance(r, .5) else gen.variant(r, g)
    v, m = ctx.call(P.r_E, gen.variant(r, p), arg)
    ctx.ok(np.shape(m) == (S,) and np.shape(v) == (S, 3), 'shapes')
    E = np.sum(g ** 2, axis=1)
    if np.any(zero):
        ctx.ok(np.all(m[zero] == 0), 'zero magnitude without gains', m=m)
    if S == 1 and zero[0]:
        return
    e = (g[~zero] ** 2 @ p) / E[~zero][:, None]
    ctx.close(v[~zero], e, 1e-9, 'energy vector')
    ctx.close(m[~zero], np.linalg.norm(e, axis=1), 1e-9,
              'its magnitude')
    ctx.cover(f'rE S={S} zero={bool(np.any(zero))}')


@case(400)
def beamformers(ctx):
    """Steered patterns."""
    r = ctx.rng
    N = order(r, 8)
    J = int(r.integers(1, 7))
    azi, zen = gen.azimuths(r, J), gen.zeniths(r, J)
    name = gen.pick(r, ['hypercardioid', 'max_di', 'cardioid', 'inphase',
                        'max_re', 'maxre', 'HyperCardioid', 'Cardioid',
                        'MaxRE', None])
    if name is None:
        pat = c = r.standard_normal(N + 1)
        if gen.chance(r, .4):
            pat = c.tolist()
    else:
        pat = name
        k = name.lower()
        c = np.full(N + 1, 4 * np.pi / (N + 1) ** 2)
        if k in ('cardioid', 'inphase'):
            x, wq = np.polynomial.legendre.leggauss(N + 2)
            c = np.array([2 * np.pi * np.sum(
                wq * ((1 + x) / 2) ** N * ref.legendre(n, x))
                for n in range(N + 1)])
        elif k in ('max_re', 'maxre'):
            c = np.array([float(ref.legendre(n, math.cos(math.radians(
                137.9) / (N + 1.51)))) for n in range(N + 1)])
            c = c / pattern(c, 0.)
    w = ctx.call(spa.parsa.sh_beamformer_from_pattern, pat, N,
                 gen.vec_variant(r, azi), gen.vec_variant(r, zen))
    ctx.ok(w.shape == (J, (N + 1) ** 2), 'one row per direction',
           shape=w.shape)
    # response to plane waves
    a2, z2 = gen.azimuths(r, 9), gen.zeniths(r, 9)
    s = np.eye(9)
    F = ref.sh(N, a2, z2).T @ s
    y = ctx.call(spa.parsa.sh_beamform, w if J > 1 or gen.chance(r, .5)
                 else w[0], F)
    ang = ref.angle(ref.unit(azi, zen)[:, None], ref.unit(a2, z2)[None])
    ctx.close(y, pattern(c, ang), 1e-8, 'beam pattern')
    one = ctx.call(spa.parsa.sh_beamform, w, F[:, 0])
    ctx.close(np.asarray(one).reshape(J), y[:, 0], 1e-9,
              'single time frame')
    ctx.ok(np.shape(one) == (J, 1), 'one sample of each beamformer',
           shape=np.shape(one))
    # any weights (e.g. of another design) on any signals
    cx = gen.chance(r, .5)
    A = gen.cmat(r, int(r.integers(1, 4)), (N + 1) ** 2, cx)
    X = gen.cmat(r, (N + 1) ** 2, int(r.integers(1, 6)), gen.chance(r, .3))
    ctx.close(ctx.call(spa.parsa.sh_beamform, gen.variant(r, A), X), A @ X,
              1e-9, 'weighted sum of the channels')
    ctx.cover(f'beam {name} N={N} J={J}')


@case(40)
def mismatches_rejected(ctx):
    r = ctx.rng
    N = int(r.integers(1, 6))
    f = spa.parsa.sh_beamformer_from_pattern
    ctx.raises(f, gen.pick(r, ['foo', '', 'cardio', 'max']), N, .1, .2,
               _what='an unknown pattern')
    for k in (N, N + 2, (N + 1) ** 2):
        if k != N + 1:
            ctx.raises(f, r.standard_normal(k), N, .1, .2,
                       _what='a wrong number of weights')
            ctx.raises(P.bandlimited_dirac, N, .1, r.standard_normal(k),
                       _what='a wrong number of weights')
    ctx.raises(P.r_E, gen.vectors(r, 4), r.standard_normal((2, 5)),
               _what='gains for another number of loudspeakers')
