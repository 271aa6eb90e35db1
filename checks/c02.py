"""C02 spherical harmonics transforms."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(6)


def setup(ctx):
    ctx.tdes = {}


def tdesign(ctx, deg):
    if deg not in ctx.tdes:
        ctx.tdes[deg] = spa.grids.load_t_design(deg)
    return ref.dirs(ctx.tdes[deg])


def coeffs(r, N, S, cplx):
    F = gen.cmat(r, (N + 1) ** 2, S, cplx)
    m = r.integers(5)
    if m == 0:
        F = F * (r.random(F.shape) < .3)
    elif m == 1 and not cplx:
        F = r.integers(-5, 6, F.shape)
    elif m == 2 and not cplx:
        F = F.astype(np.float32).astype(float)
    return F


def setup_case(ctx, hi=8):
    r = ctx.rng
    N = int(r.integers(0, hi + 1))
    S = gen.pick(r, [1, 1, 2, 3, 5, 17])
    st = gen.pick(r, ['real', 'complex'])
    cplx = gen.chance(r, .5)
    return r, N, S, st, cplx, coeffs(r, N, S, cplx)


@case(500)
def evaluate(ctx):
    """The inverse transform evaluates the series."""
    r, N, S, st, cplx, F = setup_case(ctx, 12)
    Q = gen.size(r, 100)
    azi, zen = gen.azimuths(r, Q), gen.zeniths(r, Q)
    M = int(r.integers(0, N + 1)) if gen.chance(r, .4) else None
    kw = {} if M is None else {'N_sph': M}
    K = N if M is None else M
    Yr = ref.sh(K, azi, zen, st)
    if gen.chance(r, .3):
        kw['Y_nm'] = Yr
    one = S == 1 and gen.chance(r, .5)
    f = ctx.call(spa.sph.inverse_sht, F[:, 0] if one else gen.variant(r, F),
                 gen.vec_variant(r, azi), gen.vec_variant(r, zen), st, **kw)
    ctx.cover(f'{st} N={N} K={K} S={S} cplx={cplx} Y={"Y_nm" in kw} 1d={one}')
    ctx.close(f, Yr @ F[:(K + 1) ** 2], 1e-8, 'series evaluated')


@case(400)
def quadrature_round_trip(ctx):
    """sht with quadrature weights inverts the evaluation."""
    r, N, S, st, cplx, F = setup_case(ctx)
    m = r.integers(4)
    tol = 1e-7
    M = N + int(r.integers(0, 3))        # order the grid supports
    if m == 0:
        azi, zen, w = ref.quadrature(2 * M)
    elif m == 1:
        azi, zen, w = spa.grids.gauss(M)
    elif m == 2:
        azi, zen, w = spa.grids.equal_angle(M)
    else:
        # designs above degree 14 are only accurate to 1e-5
        azi, zen = tdesign(ctx, max(1, 2 * N))
        tol = 3e-6 if N <= 7 else 1e-4
        w = None if gen.chance(r, .7) else \
            np.full(len(azi), 4 * np.pi / len(azi))
    Y = ref.sh(N, azi, zen, st)
    f = Y @ F
    p = r.permutation(len(azi))
    azi, zen, f, Y = azi[p], zen[p], f[p], Y[p]
    kw = {}
    if w is not None:
        kw['weights'] = gen.vec_variant(r, w[p]) if w.ndim else w
        if np.ndim(kw['weights']) != 1:
            kw['weights'] = w[p]
    if gen.chance(r, .3):
        kw['Y_nm'] = Y
    one = S == 1 and gen.chance(r, .5)
    G = ctx.call(spa.sph.sht, f[:, 0] if one else gen.variant(r, f), N,
                 gen.vec_variant(r, azi), gen.vec_variant(r, zen), st, **kw)
    ctx.cover(f'grid{m} {st} N={N} S={S} cplx={cplx} w={"weights" in kw} '
              f'Y={"Y_nm" in kw}')
    ctx.close(G, F, tol, 'coefficients recovered from samples')


@case(400)
def least_squares_round_trip(ctx):
    r, N, S, st, cplx, F = setup_case(ctx, 7)
    K = (N + 1) ** 2
    Q = int(K * r.uniform(1.5, 4)) + 2
    m = r.integers(4)
    if m < 2:
        v = gen.spread(r, Q, 25)
        azi, zen = ref.dirs(v)
    elif m == 2:
        Q = int(K * r.uniform(1., 2)) + 1
        azi, zen = gen.azimuths(r, Q), gen.zeniths(r, Q)
    else:                               # part of the sphere: poor condition
        azi, zen = gen.cap(r, Q)
    Y = ref.sh(N, azi, zen, st)
    cond = np.linalg.cond(Y)
    if cond > 1e8:
        return ctx.trivial()
    ctx.cover('cond 1e%d' % np.floor(np.log10(cond)))
    f = Y @ F
    kw = {'Y_nm': Y} if gen.chance(r, .3) else {}
    one = S == 1 and gen.chance(r, .5)
    G = ctx.call(spa.sph.sht_lstsq, f[:, 0] if one else gen.variant(r, f), N,
                 gen.vec_variant(r, azi), gen.vec_variant(r, zen), st, **kw)
    ctx.cover(f'ls {st} N={N} S={S} cplx={cplx}')
    ctx.close(G, F, 1e-6 if cond < 1e6 else 1e-4,
              'coefficients recovered by least squares')


@case(200)
def least_squares_optimal(ctx):
    """For any samples the residual is orthogonal to the basis."""
    r, N, S, st, cplx, _ = setup_case(ctx, 5)
    Q = (N + 1) ** 2 * 2 + int(r.integers(0, 20))
    if gen.chance(r, .3):
        Q = int(r.integers(1, Q))
    azi, zen = ref.dirs(gen.spread(r, Q, 10))
    Y = ref.sh(N, azi, zen, st)
    f = gen.cmat(r, Q, S, cplx)
    G = ctx.call(spa.sph.sht_lstsq, f, N, azi, zen, st)
    ctx.close(Y.conj().T @ (f - Y @ G), np.zeros(((N + 1) ** 2, S)), 1e-8,
              'residual orthogonal to the harmonics')
    if np.linalg.cond(Y) < 1e8:
        ctx.close(G, np.linalg.pinv(Y) @ f, 1e-6,
                  'least squares coefficients of least norm')


@case(200)
def transform_definition(ctx):
    """For any samples: F = sum_q w_q conj(Y(q)) f(q), column by column."""
    r, N, S, st, cplx, _ = setup_case(ctx, 6)
    Q = gen.size(r, 80)
    azi, zen = gen.azimuths(r, Q), gen.zeniths(r, Q)
    f = gen.cmat(r, Q, S, cplx)
    w = r.random(Q) if gen.chance(r, .5) else None
    if w is not None and gen.chance(r, .3):
        w = w * (r.random(Q) < .5) - w * (r.random(Q) < .2)
    if gen.chance(r, .15):
        f = f.real.copy() if gen.chance(r, .5) else \
            r.integers(-9, 10, f.shape)
    G = ctx.call(spa.sph.sht, f, N, azi, zen, st, weights=w)
    ww = np.full(Q, 4 * np.pi / Q) if w is None else w
    ctx.close(G, ref.sh(N, azi, zen, st).conj().T @ (ww[:, None] * f), 1e-8,
              'weighted transform')


@case(150)
def energy_preserved(ctx):
    r, N, S, st, cplx, F = setup_case(ctx, 6)
    azi, zen, w = spa.grids.gauss(N)
    f = ctx.call(spa.sph.inverse_sht, F, azi, zen, st)
    ctx.close(w @ np.abs(f) ** 2, np.sum(np.abs(F) ** 2, 0), 1e-9,
              'energy on the sphere equals energy of the coefficients')


@case(150)
def condition_number(ctx):
    r = ctx.rng
    N = int(r.integers(1, 6))
    st = gen.pick(r, ['real', 'complex'])
    Q = int((N + 1) ** 2 * r.uniform(1.3, 3)) + 1
    azi, zen = ref.dirs(gen.spread(r, Q, 10)) if gen.chance(r, .6) else \
        gen.cap(r, Q)
    Y = ref.sh(N, azi, zen, st)
    e = np.linalg.cond(Y) ** 2
    if e > 1e9:
        return ctx.trivial()
    lim = gen.pick(r, [None, np.inf, 1., 10.])
    ctx.close(ctx.call(spa.sph.check_cond_sht, N, azi, zen, st, lim) / e, 1.,
              1e-6 if e < 1e6 else 1e-3, 'condition number')
