"""C07 Ambisonic format conversions."""
import os
import pickle
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(10)
S4 = np.sqrt(4 * np.pi)
TETRA = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / 3 ** .5


def b_of(F, w=1.):
    """W, X, Y, Z from ACN ordered orthonormal coefficients."""
    F = np.asarray(F)
    return np.stack([w * S4 * F[0], S4 / 3 ** .5 * F[3],
                     S4 / 3 ** .5 * F[1], S4 / 3 ** .5 * F[2]])


def weight(r):
    return gen.pick(r, [None, None, 1, 1., 2 ** -.5, 2, .5, 0, 0., -1,
                        float(r.uniform(.1, 3))])


def kw_of(w):
    return {} if w is None else {'W_weight': w}


@case(500)
def sh_b_conversion(ctx):
    r = ctx.rng
    S = gen.size(r, 200)
    F = gen.cmat(r, 4, S, gen.chance(r, .3))
    if gen.chance(r, .1):
        F = r.integers(-5, 6, F.shape)
    w = weight(r)
    B = ctx.call(spa.sph.sh_to_b, gen.variant(r, F), **kw_of(w))
    ctx.close(B, b_of(F, 1 if w is None else w), 1e-9, 'B-format of SH signals')
    if w == 0:                           # nothing comes back
        return
    ctx.close(ctx.call(spa.sph.b_to_sh, gen.variant(r, B), **kw_of(w)), F,
              1e-9, 'back to SH signals')
    G = gen.cmat(r, 4, S, gen.chance(r, .3))
    ctx.close(ctx.call(spa.sph.sh_to_b, ctx.call(
        spa.sph.b_to_sh, G, **kw_of(w)), **kw_of(w)), G, 1e-9,
        'B-format round trip')
    ctx.cover(f'w={w is None} S={S}')


@case(300)
def source_encoding(ctx):
    """B-format of a source: unit W, direction cosines X, Y, Z."""
    r = ctx.rng
    sig = gen.signal(r, gen.size(r, 300), silent=.05)
    if gen.chance(r, .25):
        # one signal from several directions: four channels for each
        J = int(r.integers(2, 7))
        azi, zen = gen.azimuths(r, J), gen.zeniths(r, J)
        B = ctx.call(spa.sph.src_to_b, sig, gen.vec_variant(r, azi),
                     gen.vec_variant(r, zen))
        g = np.c_[np.ones(J), ref.unit(azi, zen)]
        ctx.close(B, g.reshape(-1, 1) * sig, 1e-9, 'B-format of directions')
        ctx.cover(f'B-format J={J}')
        return
    azi, zen = gen.azimuths(r, 1), gen.zeniths(r, 1)
    B = ctx.call(spa.sph.src_to_b, sig, gen.vec_variant(r, azi),
                 gen.vec_variant(r, zen))
    g = np.r_[1., ref.unit(azi, zen)[0]]
    ctx.close(B, g[:, None] * sig, 1e-9, 'B-format of a source')
    F = ctx.call(spa.sph.src_to_sh, sig, azi, zen, 1)
    ctx.close(ctx.call(spa.sph.sh_to_b, F), B, 1e-9,
              'both encoders agree')


@case(400)
def normalisation(ctx):
    r = ctx.rng
    N = int(r.integers(0, 12 if gen.chance(r, .8) else 32))
    K = (N + 1) ** 2
    S = gen.pick(r, [1, 2, 3, K, 7, 50])
    ax = gen.pick(r, [0, 1])
    F = gen.cmat(r, K, S, gen.chance(r, .3))
    if gen.chance(r, .1):
        F = r.integers(-5, 6, F.shape)
    if ax == 1:
        F = F.T.copy()
    kw = {} if ax == 0 and gen.chance(r, .5) else {'axis': ax}
    f = np.sqrt(2 * ref.orders(N) + 1)
    f = f[:, None] if ax == 0 else f[None]
    A = ctx.call(spa.sph.n3d_to_sn3d, gen.variant(r, F), **kw)
    ctx.close(A, F / f, 1e-10, 'SN3D coefficients')
    B = ctx.call(spa.sph.sn3d_to_n3d, gen.variant(r, F), **kw)
    ctx.close(B, F * f, 1e-10, 'N3D coefficients')
    ctx.close(ctx.call(spa.sph.sn3d_to_n3d, A, **kw), F, 1e-10,
              'normalisation round trip')
    ctx.cover(f'N={N} axis={ax} kw={bool(kw)}')


@case(250)
def tetrahedral_microphone(ctx):
    """A first order sound field sampled by the tetrahedron is recovered."""
    r = ctx.rng
    S = gen.size(r, 100)
    F = r.standard_normal((4, S))
    sig = ref.sh(1, *ref.dirs(TETRA)) @ F
    w = weight(r)
    B = ctx.call(spa.sph.soundfield_to_b, gen.variant(r, sig), **kw_of(w))
    ctx.close(B, b_of(F, 1 if w is None else w), 1e-9, 'B-format of capsule signals')
    fs = gen.pick(r, [44100, 48000, 16000])
    A = spa.sig.MultiSignal([*sig], fs=fs)
    path = None
    if gen.chance(r, .5):
        co = [r.standard_normal(2), np.r_[1, r.uniform(-.5, .5)],
              r.standard_normal(3), np.r_[1, r.uniform(-.5, .5)]]
        path = os.path.join(ctx.scratch, 'coeffs.pkl')
        with open(path, 'wb') as f:
            pickle.dump(co, f)
    X = ctx.call(spa.process.ambeo_a2b, A, path) if path else \
        ctx.call(spa.process.ambeo_a2b, A)
    e = b_of(F)
    if path:
        def iir(b, a, x):
            y = np.zeros(len(x))
            for n in range(len(x)):
                y[n] = sum(b[k] * x[n - k] for k in range(len(b)) if n >= k)
                if n:
                    y[n] -= a[1] * y[n - 1]
            return y
        e = np.stack([iir(*co[:2], e[0])] +
                     [iir(*co[2:], c) for c in e[1:]])
    ctx.ok(isinstance(X, spa.sig.AmbiBSignal) and X.fs == fs,
           'B-format signal with the same rate')
    ctx.close(X.get_signals(), e, 1e-9, 'converted A-format')
    ctx.close(np.stack([X.W, X.X, X.Y, X.Z]), e, 1e-9, 'named channels')
    ctx.cover(f'a2b filtered={bool(path)}')
    L, R = ctx.call(spa.process.b_to_stereo, X)
    ctx.close(L, e[0] + (e[1] + e[2]) / 2 ** .5, 1e-9, 'left of the downmix')
    ctx.close(R, e[0] + (e[1] - e[2]) / 2 ** .5, 1e-9, 'right of the downmix')


@case(150)
def container_conversion(ctx):
    r = ctx.rng
    S = gen.size(r, 100)
    F = r.standard_normal((4, S))
    if gen.chance(r, .2):
        F = r.integers(-9, 10, (4, S))
    fs = int(r.integers(8000, 96001))
    M = spa.sig.MultiSignal([*F], fs=fs)
    B = ctx.call(spa.sig.AmbiBSignal.sh_to_b, M)
    ctx.ok(isinstance(B, spa.sig.AmbiBSignal) and B.fs == fs,
           'B-format signal with the same rate')
    e = b_of(F)
    ctx.close(B.get_signals(), e, 1e-9, 'converted channels')
    ctx.close(np.stack([B.W, B.X, B.Y, B.Z]), e, 1e-9, 'named channels')
    ctx.close(M.get_signals(), F, 0, 'source signal unchanged')


@case(150)
def stereo_of_plane_wave(ctx):
    """The downmix is a pair of virtual microphones at +-45 degree."""
    r = ctx.rng
    azi, zen = gen.azimuths(r, 1), gen.zeniths(r, 1)
    sig = gen.signal(r, 20)
    B = spa.sig.AmbiBSignal([*spa.sph.src_to_b(sig, azi, zen)], fs=48000)
    L, R = ctx.call(spa.process.b_to_stereo, B)
    u = ref.unit(azi, zen)[0]
    ctx.close(L, (1 + u @ ref.unit(np.pi / 4, np.pi / 2)) * sig, 1e-9,
              'left virtual microphone')
    ctx.close(R, (1 + u @ ref.unit(-np.pi / 4, np.pi / 2)) * sig, 1e-9,
              'right virtual microphone')
