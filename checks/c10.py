"""C10 products of spherical functions."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(4)


def tol(N):
    # the underlying designs of degree 15-18 and 21 are coarse
    return 1e-6 if 2 * N <= 14 else 3e-4


def co(r, N, cplx):
    a = gen.cmat(r, 1, (N + 1) ** 2, cplx)[0]
    m = r.integers(6)
    if m == 0:
        e = np.zeros_like(a)
        e[int(r.integers(len(e)))] = 1
        return e
    if m == 2:
        return a * 10. ** r.uniform(-3, 3)
    if m == 1 and not cplx:
        return r.integers(-3, 4, len(a))
    return a


@case(500)
def product(ctx):
    r = ctx.rng
    while True:
        N1, N2 = int(r.integers(0, 8)), int(r.integers(0, 8))
        if N1 + N2 <= 10:
            break
    st = gen.pick(r, ['real', 'complex'])
    ca, cb = gen.chance(r, .4), gen.chance(r, .4)
    a, b = co(r, N1, ca), co(r, N2, cb)
    c = ctx.call(spa.sph.sh_mult, gen.vec_variant(r, a) if len(a) > 1 else a,
                 gen.vec_variant(r, b) if len(b) > 1 else b, st)
    N = N1 + N2
    ctx.ok(np.shape(c) == ((N + 1) ** 2,), 'order of the product is the sum',
           shape=np.shape(c))
    azi, zen = gen.azimuths(r, 13), gen.zeniths(r, 13)
    f = ref.sh(N1, azi, zen, st) @ a
    g = ref.sh(N2, azi, zen, st) @ b
    ctx.close(ref.sh(N, azi, zen, st) @ c, f * g, tol(N),
              'product at every direction')
    d = ctx.call(spa.sph.sh_mult, b, a, st)
    ctx.close(d, c, 1e-9, 'commutative')
    ctx.cover(f'{st} {N1}*{N2} {ca}{cb}')


@case(200)
def bilinear(ctx):
    r = ctx.rng
    N1, N2 = int(r.integers(0, 5)), int(r.integers(0, 5))
    st = gen.pick(r, ['real', 'complex'])
    cx = gen.chance(r, .5)
    a, a2 = (gen.cmat(r, 1, (N1 + 1) ** 2, cx)[0] for _ in range(2))
    b = gen.cmat(r, 1, (N2 + 1) ** 2, cx)[0]
    s = float(r.uniform(-3, 3))
    f = spa.sph.sh_mult
    ctx.close(ctx.call(f, s * a + a2, b, st),
              s * ctx.call(f, a, b, st) + ctx.call(f, a2, b, st), 1e-9,
              'linear in the factors')
    one = np.array([np.sqrt(4 * np.pi)])
    ctx.close(ctx.call(f, one, b, st), b, 1e-5, 'times one')


@case(200)
def sector_patterns(ctx):
    """Pressure and velocity beams of each sector."""
    r = ctx.rng
    N = int(r.integers(0, 7))
    J = int(r.integers(1, 6)) if gen.chance(r, .93) else \
        int(r.integers(6, 61))
    azi, zen = gen.azimuths(r, J), gen.zeniths(r, J)
    m = r.integers(3)
    A = r.standard_normal((J, (N + 1) ** 2))
    if m == 0:
        A = spa.sph.maxre_modal_weights(N)[ref.orders(N)] * \
            ref.sh(N, azi, zen)
    elif m == 1:
        A = A * 10. ** r.uniform(-4, 3)
    W = ctx.call(spa.parsa.sh_sector_beamformer, gen.variant(r, A))
    ctx.ok(W.shape == (4 * J, (N + 2) ** 2), 'four beams per sector',
           shape=W.shape)
    a2, z2 = gen.azimuths(r, 11), gen.zeniths(r, 11)
    f = A @ ref.sh(N, a2, z2).T
    u = ref.unit(a2, z2)
    y = W @ ref.sh(N + 1, a2, z2).T
    for j in range(J):
        sc = np.max(np.abs(f[j])) + 1e-12
        ctx.close(y[4 * j] / sc, f[j] / sc, tol(N + 1),
                  'sector pressure pattern')
        ctx.close(y[4 * j + 1:4 * j + 4] / sc, u.T * f[j] / sc, tol(N + 1),
                  'sector velocity patterns')
    ctx.cover(f'sector N={N} J={J}')


@case(30)
def too_high_order_rejected(ctx):
    r = ctx.rng
    N1 = int(r.integers(5, 9))
    N2 = 11 - N1 + int(r.integers(0, 3))
    ctx.raises(spa.sph.sh_mult, r.standard_normal((N1 + 1) ** 2),
               r.standard_normal((N2 + 1) ** 2), 'real',
               _what='a product of too high order')
    ctx.raises(spa.sph.sh_mult, r.standard_normal(4), r.standard_normal(9),
               'foo', _what='an unknown basis')
