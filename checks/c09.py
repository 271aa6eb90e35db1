"""C09 spherical filter bank."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(8)


def sectors(r, N, extra=2):
    """Uniform sector directions (designs of degree >= 2N), rotated."""
    deg = max(1, 2 * N) + int(r.integers(0, extra + 1))
    v = spa.grids.load_n_design(deg) if gen.chance(r, .6) or deg > 14 else \
        spa.grids.load_t_design(deg)
    if gen.chance(r, .7):
        v = v @ np.linalg.qr(r.standard_normal((3, 3)))[0]
    return ref.dirs(v)


def weights(r, N):
    m = r.integers(7)
    if m == 0:
        return np.full(N + 1, 4 * np.pi / (N + 1) ** 2)
    if m == 1:
        return spa.sph.cardioid_modal_weights(N)
    if m == 2:
        return spa.sph.maxre_modal_weights(N, UNITAMP=gen.chance(r, .5))
    if m == 3:
        return spa.sph.butterworth_modal_weights(N, 3, 2)
    if m == 4:
        return np.ones(N + 1) * float(r.uniform(.1, 3))
    c = r.uniform(.2, 2, N + 1)
    if gen.chance(r, .3):
        c = c * 10. ** r.uniform(-3, 3)
    if m == 5:
        c[1:] *= gen.pick(r, [-1, 1])
        c *= gen.pick(r, [-1, 1])
    return c


def mode_name(r, name):
    return gen.pick(r, [name, name, name.upper(), name.capitalize()])


@case(220)
def perfect(ctx):
    r = ctx.rng
    N = int(r.integers(0, 8))
    st = gen.pick(r, ['real', 'complex'])
    azi, zen = sectors(r, N)
    c = weights(r, N)
    J = len(azi)
    args = [N, gen.vec_variant(r, azi), gen.vec_variant(r, zen),
            gen.vec_variant(r, c), mode_name(r, 'perfect')]
    A, B = ctx.call(spa.sph.design_sph_filterbank, *args) if st == 'real' \
        and gen.chance(r, .5) else \
        ctx.call(spa.sph.design_sph_filterbank, *args, sh_type=st)
    K = (N + 1) ** 2
    ctx.cover(f'perfect {st} N={N} J={J}')
    ctx.ok(A.shape == (J, K) and B.shape == (K, J), 'shapes',
           A=A.shape, B=B.shape)
    x = gen.cmat(r, K, 5, gen.chance(r, .4))
    ctx.close(B @ (A @ x), x, 1e-5, 'perfect reconstruction')
    ctx.close(A, c[ref.orders(N)] * ref.sh(N, azi, zen, st), 1e-8,
              'sector patterns')


@case(220)
def pseudo_inverse(ctx):
    r = ctx.rng
    N = int(r.integers(0, 6))
    st = gen.pick(r, ['real', 'complex'])
    K = (N + 1) ** 2
    J = max(1, int(K * r.uniform(.5, 2.5)))
    azi, zen = ref.dirs(gen.spread(r, J, 30))
    c = weights(r, N)
    A, B = ctx.call(spa.sph.design_sph_filterbank, N, azi, zen, c,
                    mode_name(r, 'pinv'), sh_type=st)
    e = c[ref.orders(N)] * ref.sh(N, azi, zen, st)
    ctx.close(A, e, 1e-8, 'sector patterns')
    s = np.linalg.svd(e, compute_uv=False)
    if s[-1] < 1e-4 * s[0]:
        return ctx.trivial()
    ctx.close(A @ B @ A, A, 1e-7, 'generalized inverse')
    ctx.close(B @ A @ B, B, 1e-6, 'generalized inverse of the inverse')
    ctx.close((A @ B).conj().T, A @ B, 1e-7, 'Hermitian projection')
    if J >= K:
        ctx.close(B @ A, np.eye(K), 1e-7, 'exact resynthesis')
    ctx.cover(f'pinv {st} N={N} {J >= K}')


@case(200)
def preserving_factors(ctx):
    """The factors keep amplitude / energy of a plane wave from anywhere."""
    r = ctx.rng
    N = int(r.integers(0, 7))
    st = gen.pick(r, ['real', 'complex'])
    azi, zen = sectors(r, N)
    J = len(azi)
    c = weights(r, N)
    Y = c[ref.orders(N)] * ref.sh(N, azi, zen, st)
    k = int(r.integers(J))
    a2, z2 = gen.azimuths(r, 12), gen.zeniths(r, 12)
    s = Y @ ref.sh(N, a2, z2, st).conj().T
    w = Y[k] if gen.chance(r, .5) else Y[k:k + 1]
    mode = gen.pick(r, ['amplitude', 'amp', 'Amplitude'])
    b = ctx.call(spa.sph.sph_filterbank_reconstruction_factor, w, J, mode)
    ctx.close(b * np.sum(s, axis=0), np.ones(12), 1e-5,
              'amplitude of a plane wave preserved')
    mode = gen.pick(r, ['energy', 'en', 'ENERGY'])
    b = ctx.call(spa.sph.sph_filterbank_reconstruction_factor, w, J,
                 mode=mode)
    ctx.close(b * np.sum(np.abs(s) ** 2, axis=0), np.ones(12), 1e-5,
              'energy of a plane wave preserved')
    ctx.cover(f'factor {st} N={N}')


@case(150)
def energy_mode(ctx):
    r = ctx.rng
    N = int(r.integers(0, 7))
    st = gen.pick(r, ['real', 'complex'])
    azi, zen = sectors(r, N)
    J, c = len(azi), weights(r, N)
    A, B = ctx.call(spa.sph.design_sph_filterbank, N, azi, zen, c,
                    mode_name(r, 'energy'), sh_type=st)
    ctx.close(A, c[ref.orders(N)] * ref.sh(N, azi, zen, st), 1e-8,
              'sector patterns')
    # reconstruction up to the energy preserving gain
    n = np.arange(N + 1)
    E = np.sum((2 * n + 1) * c ** 2) / (4 * np.pi)
    g = np.sqrt(4 * np.pi / (E * J)) * c[0] * J / (4 * np.pi)
    x = gen.cmat(r, (N + 1) ** 2, 3, True)
    ctx.close(B @ (A @ x) / g, x, 1e-5,
              'signal reconstructed up to the energy gain')


@case(40)
def invalid_rejected(ctx):
    r = ctx.rng
    N = int(r.integers(1, 5))
    azi, zen = sectors(r, N)
    c = weights(r, N)
    for m in ('', 'foo', 'pseudo', 'perfekt'):
        ctx.raises(spa.sph.design_sph_filterbank, N, azi, zen, c, m,
                   _what=f'mode {m!r}')
    w = r.standard_normal((N + 1) ** 2)
    ctx.raises(spa.sph.sph_filterbank_reconstruction_factor, w, 5,
               _what='no mode')
    ctx.raises(spa.sph.sph_filterbank_reconstruction_factor, w, 5, 'foo',
               _what='an unknown mode')
    if N >= 2:
        ctx.raises(spa.sph.design_sph_filterbank, N, azi, zen, c[:-1],
                   'perfect', _what='too few weights')
    ctx.raises(spa.sph.design_sph_filterbank, N, azi, zen, c, 'perfect',
               'foo', _what='an unknown basis')
