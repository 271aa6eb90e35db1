"""C01 spherical harmonics basis."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(5)


def dirs(ctx, n):
    if gen.chance(ctx.rng, .06):        # whole numbers are angles, too
        return ctx.rng.integers(-3, 4, n), ctx.rng.integers(0, 4, n)
    azi, zen = gen.azimuths(ctx.rng, n), gen.zeniths(ctx.rng, n)
    near = ctx.rng.random(n) < .06         # next to a pole
    e = 10. ** ctx.rng.uniform(-5, -2, near.sum())
    zen[near] = np.where(ctx.rng.random(near.sum()) < .5, e, np.pi - e)
    return azi, zen


def tol(N, zen, base=1e-8):
    """Close to a pole, sin(zen) has few digits left (1 - cos(zen)**2)."""
    s = np.abs(np.sin(np.asarray(zen, float)))
    s = s[s > 1e-9]
    return base + 2 * N ** 2 * 1e-15 / max(np.min(s, initial=1.), 1e-8)


def order(ctx, hi=20):
    r = ctx.rng
    return int(r.integers(0, 8)) if r.random() < .6 else \
        int(r.integers(0, hi + 1))


@case(900)
def values(ctx):
    r = ctx.rng
    st = gen.pick(r, ['real', 'complex'])
    N = order(ctx, 45)
    Q = gen.size(r, 60)
    azi, zen = dirs(ctx, Q)
    Y = ctx.call(spa.sph.sh_matrix, N, gen.vec_variant(r, azi),
                 gen.vec_variant(r, zen), st)
    ctx.cover(f'{st} N={N} Q={Q}')
    ctx.close(Y, ref.sh(N, azi, zen, st), tol(N, zen), 'harmonics up to the order')
    ctx.ok(np.iscomplexobj(Y) == (st == 'complex'), 'type of the result')


@case(200)
def histories(ctx):
    """Directions asked for one after the other, each answered on its own."""
    r = ctx.rng
    N = order(ctx, 10)
    Q = int(r.integers(3, 12))
    azi, zen = dirs(ctx, Q)
    for _ in range(5):
        st = gen.pick(r, ['real', 'complex'])
        Y = ctx.call(spa.sph.sh_matrix, N, azi, zen, st, _pure=False)
        ctx.close(Y, ref.sh(N, azi, zen, st), tol(N, zen), 'harmonics in sequence')
        Y[...] = 0                       # ours now
        m = r.integers(7)
        if m == 0:
            p = np.r_[0, 1 + r.permutation(Q - 1)]
            azi, zen = azi[p], zen[p]
        elif m == 1:
            p = np.r_[r.permutation(Q - 1), Q - 1]
            azi, zen = azi[p], zen[p]
        elif m == 2:
            azi = azi + 1e-3
        elif m == 3:
            zen = np.pi - zen
        elif m == 4:
            azi, zen = azi.copy(), zen.copy()
            azi[Q // 2] += 1
        elif m == 5:
            N = max(0, N + int(r.integers(-1, 2)))
        else:
            azi, zen = azi[1:-1], zen[1:-1]
            azi, zen = dirs(ctx, Q)
    ctx.cover('history')


@case(300)
def default_type_is_real(ctx):
    r = ctx.rng
    N = order(ctx)
    azi, zen = dirs(ctx, 5)
    ctx.close(ctx.call(spa.sph.sh_matrix, N, azi, zen),
              ref.sh(N, azi, zen), tol(N, zen), 'default basis')


@case(16, 60)
def many_directions(ctx):
    r = ctx.rng
    Q = gen.pick(r, [1000, 1023, 1024, 1025, 4096, 4097, 16385, 70001])
    N = int(r.integers(0, 5))
    st = gen.pick(r, ['real', 'complex'])
    azi, zen = dirs(ctx, Q)
    Y = ctx.call(spa.sph.sh_matrix, N, azi, zen, st)
    ctx.cover(f'Q={Q}')
    ctx.close(Y, ref.sh(N, azi, zen, st), tol(N, zen), 'harmonics, many directions')


@case(150)
def orthonormal(ctx):
    r = ctx.rng
    N = order(ctx, 14)
    st = gen.pick(r, ['real', 'complex'])
    azi, zen, w = ref.quadrature(2 * N)
    Y = ctx.call(spa.sph.sh_matrix, N, azi, zen, st)
    ctx.close(Y.conj().T @ (w[:, None] * Y), np.eye((N + 1) ** 2), 1e-9,
              'orthonormality over the sphere')


@case(200)
def addition_theorem(ctx):
    r = ctx.rng
    N = order(ctx, 30)
    st = gen.pick(r, ['real', 'complex'])
    a1, z1 = dirs(ctx, 1)
    a2, z2 = dirs(ctx, 7)
    Y1 = ctx.call(spa.sph.sh_matrix, N, a1, z1, st)
    Y2 = ctx.call(spa.sph.sh_matrix, N, a2, z2, st)
    cosg = ref.unit(a2, z2) @ ref.unit(a1, z1)[0]
    n = ref.orders(N)
    for k in range(N + 1):
        s = np.sum(Y1[:, n == k].conj() * Y2[:, n == k], axis=1)
        ctx.close(s, (2 * k + 1) / (4 * np.pi) *
                  ref.legendre(k, np.clip(cosg, -1, 1)),
                  tol(N, np.r_[z1, z2], 1e-9),
                  'addition theorem')


@case(200)
def order_prefix_and_rows(ctx):
    r = ctx.rng
    N = order(ctx, 16)
    st = gen.pick(r, ['real', 'complex'])
    azi, zen = dirs(ctx, 9)
    Y = ctx.call(spa.sph.sh_matrix, N, azi, zen, st)
    M = int(r.integers(0, N + 1))
    sel = r.permutation(9)[:int(r.integers(1, 10))]
    Y2 = ctx.call(spa.sph.sh_matrix, M, azi[sel], zen[sel] + 0, st)
    ctx.close(Y2, Y[sel][:, :(M + 1) ** 2], 1e-10,
              'each entry depends on its direction only')
    k = int(r.integers(-3, 4))
    Y3 = ctx.call(spa.sph.sh_matrix, N, azi + 2 * np.pi * k, zen, st)
    ctx.close(Y3, Y, 1e-8, 'azimuth is periodic')


@case(250)
def plane_wave_encoding(ctx):
    r = ctx.rng
    st = gen.pick(r, ['real', 'complex'])
    N = order(ctx, 10)
    J = int(r.integers(1, 7))
    S = gen.size(r, 300)
    azi, zen = dirs(ctx, J)
    sig = gen.cmat(r, J, S, gen.chance(r, .2))
    arg = sig[0] if J == 1 and gen.chance(r, .5) else gen.variant(r, sig)
    if st == 'real' and gen.chance(r, .3):
        F = ctx.call(spa.sph.src_to_sh, arg, gen.vec_variant(r, azi),
                     gen.vec_variant(r, zen), N)
    else:
        F = ctx.call(spa.sph.src_to_sh, arg, gen.vec_variant(r, azi),
                     gen.vec_variant(r, zen), N, sh_type=st)
    e = np.einsum('jk,js->ks', ref.sh(N, azi, zen, st).conj(), sig)
    ctx.close(F, e, 1e-8, 'plane wave encoding')
    ctx.cover(f'enc {st} N={N} J={J}')


@case(60)
def unknown_type_rejected(ctx):
    r = ctx.rng
    azi, zen = dirs(ctx, 3)
    st = gen.pick(r, ['Real', 'cmplx', '', 'n3d', 'REAL', None, 'sn3d'])
    ctx.raises(spa.sph.sh_matrix, order(ctx, 4), azi, zen, st,
               _what=f'unknown basis type {st!r}')
