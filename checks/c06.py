"""C06 sampling grids and quadratures."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry()
G = spa.grids


def setup(ctx):
    ctx.Ycache = {}


def moments(v, w, L):
    """Largest error integrating the harmonics of degree <= L."""
    Y = ref.sh(L, *ref.dirs(v))
    m = w @ Y
    m[0] -= np.sqrt(4 * np.pi)
    return np.max(np.abs(m))


def common(ctx, v, w=None):
    ctx.ok(v.ndim == 2 and v.shape[1] == 3, 'points are (M, 3)',
           shape=v.shape)
    ctx.close(np.linalg.norm(v, axis=1), np.ones(len(v)), 1e-8,
              'points lie on the unit sphere')
    d = v[None, :600] - v[:600, None]
    d = np.sum(d ** 2, -1) + 9 * np.eye(min(len(v), 600))
    ctx.ok(d.min() > 1e-8, 'points are distinct')
    if w is not None:
        ctx.ok(w.shape == (len(v),), 'one weight per point')
        ctx.close(np.sum(w), 4 * np.pi, 1e-7, 'weights sum to 4 pi')


T_SIZE = [2, 4, 6, 12, 12, 24, 24, 36, 48, 60, 70, 84, 94, 108, 120, 144,
          156, 180, 204, 216, 240]


@case(63, 63)
def t_design(ctx):
    d = ctx._i % 21 + 1
    v = ctx.call(G.load_t_design, int(d))
    common(ctx, v)
    ctx.cover(f't{d}')
    e = moments(v, np.full(len(v), 4 * np.pi / len(v)), d)
    ctx.ok(e < 5e-5, f't-design integrates up to degree {d}', error=e)
    ctx.ok(len(v) == T_SIZE[d - 1], 'minimal design', n=len(v))


@case(124, 124)
def n_design(ctx):
    d = ctx._i + 1
    if ctx.tier == 'quick' and d > 60 and d % 8:
        d = int(ctx.rng.integers(1, 61))
    v = ctx.call(G.load_n_design, int(d), _pure=d < 40)
    common(ctx, v)
    ctx.cover(f'n{d}')
    e = moments(v, np.full(len(v), 4 * np.pi / len(v)), d)
    ctx.ok(e < 1e-7, f'N-design integrates up to degree {d}', error=e)
    ctx.ok(len(v) < (d + 3) ** 2 * .65 + 60, 'size of the design', n=len(v))


@case(129, 129)
def lebedev(ctx):
    d = ctx._i + 3
    if ctx.tier == 'quick' and d > 60 and d % 8:
        d = int(ctx.rng.integers(3, 61))
    v, w = ctx.call(G.load_lebedev, int(d), _pure=d < 40)
    common(ctx, v, w)
    ctx.cover(f'l{d}')
    e = moments(v, w, d)
    ctx.ok(e < 1e-7, f'Lebedev grid is exact up to degree {d}', error=e)


@case(58, 58)
def fliege_maier(ctx):
    n = ctx._i % 29 + 2
    v, w = ctx.call(G.load_Fliege_Maier_nodes, int(n))
    common(ctx, v, w)
    ctx.cover(f'fm{n}')
    ctx.ok(len(v) == n * n, 'number of nodes', n=len(v))
    e = moments(v, w, n - 1)
    ctx.ok(e < 1e-6, f'Fliege-Maier nodes are exact up to degree {n - 1}',
           error=e)


@case(90, 300)
def product_grids(ctx):
    r = ctx.rng
    n = int(r.integers(0, 6)) if gen.chance(r, .4) else \
        int(r.integers(0, 21))
    which = gen.pick(r, ['gauss', 'equal_angle'])
    if gen.chance(r, .12):
        n = int(r.integers(21, 70))
    azi, zen, w = ctx.call(getattr(G, which), n)
    ctx.cover(f'{which}{n}')
    common(ctx, ref.unit(azi, zen), w)
    ctx.ok(np.all((zen >= 0) & (zen <= np.pi)), 'zenith within [0, pi]')
    ctx.ok(np.all(w > 0), 'positive weights')
    L = 2 * n if which == 'equal_angle' else 2 * n + 1
    if which == 'equal_angle':
        L = 2 * n + 1
        ctx.ok(len(azi) == (2 * n + 2) ** 2, 'number of points')
        ctx.close(np.sort(np.unique(np.round(np.diff(np.unique(np.round(
            azi, 9))), 6))), [np.round(np.pi / (n + 1), 6)], 1e-5,
            'equal azimuth steps')
        u = np.unique(np.round(zen, 9))
        ctx.close(np.diff(u), np.full(len(u) - 1, np.pi / (2 * n + 2)),
                  1e-7, 'equal zenith steps')
    else:
        ctx.ok(len(azi) == (2 * n + 2) * (n + 1), 'number of points')
    if n > 20:                           # a few of the harmonics
        z, c = np.cos(zen), np.cos(azi)
        for q in {0, 1, 2, n, 2 * n - 1, 2 * n, *r.integers(0, L, 9)}:
            q = int(q)
            ctx.close(w @ ref.legendre(q, z), 4 * np.pi * (q == 0), 1e-9,
                      f'{which} grid integrates polynomials in height')
            ctx.close(w @ np.exp(1j * int(q) * azi), 4 * np.pi * (q == 0),
                      1e-9, f'{which} grid integrates azimuthal functions')
        return
    e = moments(ref.unit(azi, zen), w, L)
    ctx.ok(e < 1e-9, f'{which} grid is exact up to degree {L}', error=e)


@case(40)
def circle(ctx):
    r = ctx.rng
    n = int(r.integers(0, 60)) if gen.chance(r, .7) else \
        int(r.integers(60, 200))
    pol, w = ctx.call(G.equal_polar_angle, n)
    ctx.ok(len(pol) == len(w) == 2 * n + 1, 'number of points')
    ms = range(-2 * n, 2 * n + 1)
    if n > 60:
        ms = [0, 1, -2, n, -n, 2 * n, -2 * n, *r.integers(-2 * n, 2 * n, 9)]
    for m in ms:
        ctx.close(np.sum(w * np.exp(1j * m * pol)), float(m == 0), 1e-9,
                  'circular harmonics integrate to zero')
    ctx.cover(f'circle{n}')


@case(60)
def pseudo_inverse_weights(ctx):
    """Weights computed for any points integrate the harmonics."""
    r = ctx.rng
    N = int(r.integers(1, 7))
    Q = int((N + 1) ** 2 * r.uniform(1.2, 3)) + 1
    v = gen.spread(r, Q, 40)
    if gen.chance(r, .4):                # uneven, some weights negative
        v = gen.spread(r, Q, int(r.integers(0, 6)))
    azi, zen = ref.dirs(v)
    Y = ref.sh(N, azi, zen)
    if np.linalg.cond(Y) > 1e3:
        return ctx.trivial()
    p = r.permutation(Q)
    w = ctx.call(G.calculate_grid_weights, gen.vec_variant(r, azi[p]),
                 gen.vec_variant(r, zen[p]), N)
    m = w @ Y[p]
    m[0] -= np.sqrt(4 * np.pi)
    ctx.ok(np.max(np.abs(m)) < 1e-8, 'weights are exact up to the order',
           error=np.max(np.abs(m)))
    # least norm solution
    e = np.linalg.lstsq(Y[p].T, np.eye((N + 1) ** 2)[0] *
                        np.sqrt(4 * np.pi), rcond=None)[0]
    ctx.close(w, e, 1e-8, 'minimum norm weights')
    ctx.cover(f'pinv N={N} negative={bool(np.any(w < 0))}')


@case(24, 120)
def searched_order_weights(ctx):
    """Without an order a supported one is found."""
    r = ctx.rng
    d = int(r.integers(4, 17))
    v = G.load_t_design(d)
    v = v @ np.linalg.qr(r.standard_normal((3, 3)))[0]
    azi, zen = ref.dirs(v)
    w = ctx.call(G.calculate_grid_weights, azi, zen)
    ctx.ok(w.shape == (len(v),), 'one weight per point')
    ctx.close(np.sum(w), 4 * np.pi, 1e-4, 'weights sum to 4 pi')
    e = moments(v, w, d // 2)
    ctx.ok(e < 1e-3, 'weights integrate the supported order', error=e)
    ctx.ok(np.all(np.abs(w * len(v) / 4 / np.pi - 1) < .35),
           'weights of a uniform grid are nearly equal', w=w)
    found_order(ctx, w, azi, zen)


def found_order(ctx, w, azi, zen):
    """Weights of the highest order below the first ill-conditioned one."""
    for N in range(1, 60):
        Y = ref.sh(N, azi, zen)
        s = np.linalg.svd(Y, compute_uv=False)
        c = (s[0] / max(s[-1], 1e-30)) ** 2 if len(Y) >= (N + 1) ** 2 \
            else np.inf
        if abs(c / (2 * N + 2) - 1) < 1e-3:
            return                       # touches the limit
        if c > 2 * (N + 1):
            break
    Y = ref.sh(N - 1, azi, zen)
    e = np.sqrt(4 * np.pi) * np.linalg.pinv(Y)[0]
    ctx.close(w, e, 1e-7, 'weights of the order the points support')
    ctx.cover(f'found order {N - 1}')


@case(24, 120)
def searched_order_any_points(ctx):
    r = ctx.rng
    Q = int(r.integers(8, 80))
    azi, zen = ref.dirs(gen.spread(r, Q, int(r.integers(10, 50))))
    Y = ref.sh(1, azi, zen)
    if np.linalg.cond(Y) ** 2 > 3.9:
        return ctx.trivial()             # not even first order
    w = ctx.call(G.calculate_grid_weights, azi, zen)
    found_order(ctx, w, azi, zen)


@case(30)
def out_of_range_rejected(ctx):
    r = ctx.rng
    for f, lo, hi in ((G.load_t_design, 1, 21), (G.load_n_design, 1, 124),
                      (G.load_lebedev, 3, 131),
                      (G.load_Fliege_Maier_nodes, 2, 30)):
        for x in (lo - 1, hi + 1, lo - int(r.integers(2, 50)),
                  hi + int(r.integers(2, 50))):
            ctx.raises(f, int(x), _what=f'degree {x}')
