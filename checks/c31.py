"""C31 waves on spheres."""
import numpy as np
from scipy import special as sp
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(8)
S = spa.sph


def h2(n, z):
    """Spherical Hankel function of the second kind."""
    return np.sqrt(np.pi / (2 * z)) * sp.hankel2(n + .5, z)


def dh2(n, z):
    return n / z * h2(n, z) - h2(n + 1, z)


def strength(n, kr, typ):
    if typ == 'open':
        return 4 * np.pi * 1j ** n * np.sqrt(np.pi / (2 * kr)) * \
            sp.jv(n + .5, kr)
    # Wronskian form of the rigid sphere
    return 4 * np.pi * 1j ** n * -1j / (kr ** 2 * dh2(n, kr))


def some_kr(r, lo=.05, hi=40):
    if lo == .05 and hi == 40 and gen.chance(r, .15):
        lo, hi = 1e-5, .1
    n = gen.pick(r, [1, 2, 5, 60])
    kr = np.exp(r.uniform(np.log(lo), np.log(hi), n))
    if gen.chance(r, .3):
        kr = np.maximum(1, np.round(kr))
    return kr


def given(r, kr):
    m = r.integers(4)
    if m == 0 and np.all(kr == np.round(kr)):
        return kr.astype(int)
    if m == 1 and len(kr) == 1:
        return float(kr[0])
    return gen.variant(r, kr)


@case(60)
def hankel(ctx):
    r = ctx.rng
    z = some_kr(r)
    n = int(r.integers(0, 12))
    lo = z > n / 6          # else huge
    z = z[lo]
    if not len(z):
        return ctx.trivial()
    if gen.chance(r, .3):
        z = z + 1j * r.uniform(-1, 1, len(z))
    d = bool(gen.chance(r, .5))
    nn = n
    if gen.chance(r, .3):
        nn = np.full(len(z), n)
    kw = {'derivative': d} if d or gen.chance(r, .3) else {}
    v = ctx.call(S.spherical_hn2, nn, gen.variant(r, z), **kw)
    e = dh2(n, z) if d else h2(n, z)
    ctx.close(np.asarray(v) / np.abs(e), e / np.abs(e), 1e-8, 'values')
    if not np.iscomplexobj(z):
        j, dj = sp.spherical_jn(n, z), sp.spherical_jn(n, z, True)
        w = ctx.call(S.spherical_hn2, n, z)
        dw = ctx.call(S.spherical_hn2, n, z, derivative=True)
        ctx.close((j * dw - dj * w) * z ** 2 /
                  (1 + np.abs(w * dj) * z ** 2),
                  -1j / (1 + np.abs(w * dj) * z ** 2), 1e-9, 'Wronskian')
    ctx.cover(f'hankel {n} {z.dtype.kind} {d}')


@case(80)
def modes(ctx):
    r = ctx.rng
    kr = some_kr(r)
    n = int(r.integers(0, 14))
    typ = gen.pick(r, ['rigid', 'open'])
    kw = {'sphere_type': typ}
    if typ == 'rigid' and gen.chance(r, .5):
        kw = {}
    v = np.asarray(ctx.call(S.mode_strength, n, given(r, kr), **kw)).ravel()
    e = strength(n, kr, typ)
    ctx.close(v, e, 1e-8, 'mode strength')
    ctx.close(v[kr > n / 3] / np.abs(e[kr > n / 3]),
              (e / np.abs(e))[kr > n / 3], 1e-6, 'relative')
    if gen.chance(r, .3):
        ctx.raises(S.mode_strength, n, kr, gen.pick(
            r, ['', 'Rigid', 'cardioid', None]), _what='unknown sphere')
    ctx.cover(f'mode {typ} {n}')


@case(40)
def plane_wave(ctx):
    """Superposition of all modes of an incident plane wave."""
    r = ctx.rng
    kr = some_kr(r, .05, 20)
    N = int(np.ceil(1.5 * kr.max())) + 12
    x = r.uniform(-1, 1, 5)
    p = np.zeros((len(kr), 5), complex)
    q = np.zeros((len(kr), 5), complex)
    for n in range(N + 1):
        b = ctx.call(S.mode_strength, n, kr, sphere_type='open')
        p += np.outer(b, (2 * n + 1) / (4 * np.pi) * ref.legendre(n, x))
    ctx.close(p, np.exp(1j * np.outer(kr, x)), 1e-7, 'free plane wave')
    # rigid: pressure doubles in the highs on the lit side
    k = np.array([gen.pick(r, [30., 50.])])
    q = sum(ctx.call(S.mode_strength, n, k) * (2 * n + 1) / (4 * np.pi)
            for n in range(int(k[0]) + 30))
    ctx.close(np.abs(q), np.array([2.]), .06, 'pressure at the lit pole')
    # below: as without a sphere
    k = np.array([1e-3])
    ctx.close(ctx.call(S.mode_strength, 0, k), np.array([4 * np.pi]), 1e-4,
              'omnidirectional')
    ctx.cover(f'wave {N}')


@case(60)
def diffuse_pressure(ctx):
    r = ctx.rng
    kr = some_kr(r)
    N = int(r.integers(0, 10))
    w = np.ones(N + 1)
    kw = {}
    if gen.chance(r, .6):
        w = r.uniform(0, 1, N + 1)
        if gen.chance(r, .3):
            w = r.integers(0, 2, N + 1)
        kw['weights'] = gen.vec_variant(r, w) if N and gen.chance(
            r, .5) else w
        if np.ndim(kw['weights']) == 2:
            kw['weights'] = w
    p = ctx.call(S.pressure_on_sphere, N, given(r, kr), **kw)
    e = np.sqrt(sum(w[n] * (2 * n + 1) *
                    np.abs(strength(n, kr, 'rigid')) ** 2
                    for n in range(N + 1))) / (4 * np.pi)
    ctx.close(np.asarray(p).ravel(), e, 1e-8, 'diffuse pressure')
    q = ctx.call(S.pressure_on_sphere, N + 1, kr)
    e = ctx.call(S.pressure_on_sphere, N, kr)
    ctx.ok(np.all(q >= e - 1e-12), 'more orders, more pressure')
    ctx.close(ctx.call(S.pressure_on_sphere, N, np.array([1e-2])),
              np.ones(1), 1e-3, 'unity in the lows')
    ctx.cover(f'pressure {N} {sorted(kw)}')


@case(60)
def compensation(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000, 16000])
    n = gen.pick(r, [3, 33, 257])
    f = np.linspace(0, fs / 2, n)
    if gen.chance(r, .3):
        f = f[1:]
    elif gen.chance(r, .4):         # any ascending frequencies
        f = np.sort(np.exp(r.uniform(np.log(1e-4), np.log(fs / 2),
                                     gen.pick(r, [1, 2, 9, 40]))))
    if gen.chance(r, .3):
        f = np.round(f).astype(int)
    N = int(r.integers(0, 9))
    kw = {}
    r0 = .0875
    if gen.chance(r, .4):
        r0 = kw['r_0'] = r.uniform(.03, .12)
    w = np.ones(N + 1)
    if gen.chance(r, .6):
        w = gen.pick(r, [r.uniform(.2, 1, N + 1)])
        if gen.chance(r, .5):
            with quiet():
                w = spa.sph.max_rE_weights(N)
        kw['w_taper'] = w
    g = ctx.call(S.binaural_coloration_compensation, N, gen.variant(r, f),
                 **kw)
    kr = 2 * np.pi * f / 343 * r0
    M = int(np.ceil(kr[-1]))
    ok = kr > 0

    def p(N, w):
        return np.sqrt(sum(w[n] * (2 * n + 1) * np.abs(
            strength(n, kr[ok], 'rigid')) ** 2 for n in range(N + 1)))
    e = np.ones(len(f))
    with np.errstate(all='ignore'):
        e[ok] = p(M, np.ones(M + 1)) / p(N, w)
    # highest modes of low frequencies overflow
    good = np.isfinite(e)
    ctx.ok(np.all(np.isfinite(g)), 'finite')
    ctx.close(g[good], e[good], 1e-7, 'gain')
    if 'w_taper' not in kw and N <= M:
        ctx.ok(np.all(g >= 1 - 1e-9), 'restores what is missing')
    ctx.cover(f'compensation N={N} {n} {sorted(kw)}')
