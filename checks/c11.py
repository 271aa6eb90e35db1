"""C11 covariance based methods."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(8)
P = spa.parsa


def herm(r, L, cplx=None, cond=300.):
    return gen.spd(r, L, gen.chance(r, .4) if cplx is None else cplx, cond)


def order(r):
    return int(r.integers(0, 5))


@case(400)
def mvdr(ctx):
    r = ctx.rng
    N = order(r)
    L = (N + 1) ** 2
    R = herm(r, L, cond=10. ** r.uniform(0, 7))
    if gen.chance(r, .3):
        R = R * 10. ** r.uniform(-8, 8)
    J = int(r.integers(1, 8))
    azi, zen = gen.azimuths(r, J), gen.zeniths(r, J)
    W = ctx.call(P.sh_mvdr, gen.variant(r, R), gen.vec_variant(r, azi),
                 gen.vec_variant(r, zen))
    ctx.ok(W.shape == (J, L), 'one row per direction', shape=W.shape)
    Y = ref.sh(N, azi, zen)
    ctx.close(np.sum(W * Y, axis=1), np.ones(J), 1e-8, 'distortionless')
    # minimum output power among all distortionless beams
    pw = np.real(np.einsum('jk,kl,jl->j', W, R, W.conj()))
    e = 1 / np.real(np.einsum('jk,kl,jl->j', Y, np.linalg.inv(R), Y))
    ctx.close(pw / e, np.ones(J), 1e-6, 'minimal output power')
    s = 10. ** r.uniform(-3, 3)
    ctx.close(ctx.call(P.sh_mvdr, s * R, azi, zen), W, 1e-6,
              'does not depend on the signal level')
    ctx.cover(f'mvdr N={N} J={J} {np.iscomplexobj(R)}')


@case(400)
def lcmv(ctx):
    r = ctx.rng
    N = order(r)
    L = (N + 1) ** 2
    R = herm(r, L, cond=10. ** r.uniform(0, 6))
    if gen.chance(r, .3):
        R = R * 10. ** r.uniform(-8, 8)
    g = int(r.integers(1, max(2, min(L, 6))))
    azi, zen = ref.dirs(gen.spread(r, g, 20)) if gen.chance(r, .6) else \
        (gen.azimuths(r, g), gen.zeniths(r, g))
    V = ref.sh(N, azi, zen)
    if np.linalg.cond(V) > 50:
        return ctx.trivial()
    c = r.standard_normal(g)
    if gen.chance(r, .4):
        c = np.r_[1., np.zeros(g - 1)]
    w = ctx.call(P.sh_lcmv, gen.variant(r, R), gen.vec_variant(r, azi),
                 gen.vec_variant(r, zen), gen.vec_variant(r, c))
    ctx.ok(np.shape(w) == (L,), 'shape', shape=np.shape(w))
    ctx.close(V @ w, c, 1e-7, 'constraints met')
    # stationary: the power gradient lies in the span of the constraints
    grad = w @ R
    res = grad - V.T @ np.linalg.lstsq(V.T, grad, rcond=None)[0]
    Ri = np.linalg.inv(R)
    e = V @ Ri.T @ V.conj().T
    least = np.real(c @ np.linalg.solve(e, c))
    ctx.ok(np.real(w @ R @ w.conj()) <= least * (1 + 1e-5) + 1e-300,
           'output power is the least under the constraints',
           power=np.real(w @ R @ w.conj()), least=least)
    ctx.ok(np.max(np.abs(res)) <= 1e-6 * max(np.max(np.abs(grad)),
                                             1e-12 + np.max(np.abs(w)) *
                                             np.max(np.abs(R))),
           'minimal output power under the constraints')
    ctx.cover(f'lcmv N={N} g={g} {np.iscomplexobj(R)}')


@case(300)
def separation(ctx):
    r = ctx.rng
    L = int(r.integers(1, 17))
    R = herm(r, L, cond=10. ** r.uniform(0, 8))
    if gen.chance(r, .2):               # fewer snapshots than channels
        X = gen.cmat(r, L, int(r.integers(1, L + 1)), gen.chance(r, .5))
        R = X @ X.conj().T
        R = (R + R.conj().T) / 2
    elif gen.chance(r, .2):             # repeated eigenvalues
        q, _ = np.linalg.qr(gen.cmat(r, L, L, gen.chance(r, .5)))
        R = (q * r.integers(1, 4, L)) @ q.conj().T
        R = (R + R.conj().T) / 2
    elif gen.chance(r, .1):             # a difference of covariances
        R = R - herm(r, L)
    k = int(r.integers(0, L)) if L > 1 else 0
    S, Nn = ctx.call(P.separate_cov, gen.variant(r, R), k)
    sc = np.max(np.abs(R))
    ctx.close((S + Nn) / sc, R / sc, 1e-9, 'parts add up to the covariance')
    for X in (S, Nn):
        ctx.close(X / sc, X.conj().T / sc, 1e-9, 'Hermitian parts')
    w = np.linalg.eigvalsh(R)
    ws = np.linalg.eigvalsh(S)
    wn = np.linalg.eigvalsh(Nn)
    ref_level = w[L - k - 1]
    e = np.r_[np.zeros(L - k), w[L - k:] - ref_level]
    ctx.close(ws / sc, np.sort(e) / sc, 1e-8,
              'signal part holds the excess of the largest eigenvalues')
    e = np.r_[w[:L - k], np.full(k, ref_level)]
    ctx.close(wn / sc, np.sort(e) / sc, 1e-8,
              'noise part is clipped at the noise level')
    ctx.cover(f'sep L={L} k={k} {np.iscomplexobj(R)}')


@case(250)
def separation_estimated(ctx):
    """Default split: the estimated number of sources."""
    r = ctx.rng
    L = gen.pick(r, [4, 9, 16])
    k = int(r.integers(0, L - 1))
    cx = gen.chance(r, .4)
    q, _ = np.linalg.qr(gen.cmat(r, L, L, cx))
    w = np.r_[1 + 1e-3 * np.sort(r.random(L - k)),
              np.sort(r.uniform(40, 60, k))]
    R = (q * w) @ q.conj().T
    R = (R + R.conj().T) / 2
    n = ctx.call(P.estimate_num_sources, R)
    ctx.ok(n == k, 'number of sources well above the noise', n=n, k=k)
    n = ctx.call(P.estimate_num_sources, [], w=gen.vec_variant(r, w))
    ctx.ok(n == k, 'number of sources from eigenvalues', n=n, k=k)
    a = float(r.uniform(1.01, 30.))
    n = ctx.call(P.estimate_num_sources, R, a=a)
    if np.var(w) > a + .1:
        ctx.ok(n == k, 'number of sources with a threshold', n=n, k=k)
    S, Nn = ctx.call(P.separate_cov, R)
    S2, N2 = ctx.call(P.separate_cov, R, k)
    ctx.close(S, S2, 1e-9, 'default split is the estimated count')
    ctx.close(Nn, N2, 1e-9, 'default split is the estimated count (noise)')
    ctx.cover(f'est L={L} k={k}')


@case(250)
def sources_by_ratio(ctx):
    """Eigenvalues above the lowest step larger than the threshold."""
    r = ctx.rng
    L = int(r.integers(2, 20))
    q = np.where(r.random(L - 1) < .3, r.uniform(1.5, 9, L - 1),
                 r.uniform(1, 1.2, L - 1))
    w = 10. ** r.uniform(-1, 3) * np.r_[1., np.cumprod(q)]
    kw, a = {}, 1 + 2 / L
    if gen.chance(r, .5):
        a = kw['a'] = float(r.uniform(1.2, 6))
    if np.min(np.abs(q / a - 1)) < .01 or abs(np.var(w) / a - 1) < .05:
        return ctx.trivial()
    e = 0
    if np.var(w) > a:
        up = np.flatnonzero(q > a)
        e = L - 1 - up[0] if len(up) else 0
    n = ctx.call(P.estimate_num_sources, [], w=gen.vec_variant(r, w), **kw)
    ctx.ok(n == e, 'number of sources', n=n, expected=e, w=w)
    u, _ = np.linalg.qr(gen.cmat(r, L, L, gen.chance(r, .5)))
    R = (u * w) @ u.conj().T
    R = (R + R.conj().T) / 2
    if w[-1] < 1e7 * w[0]:
        n = ctx.call(P.estimate_num_sources, gen.variant(r, R), **kw)
        ctx.ok(n == e, 'number of sources of a covariance', n=n, expected=e)
    ctx.cover(f'ratio {e > 0} {sorted(kw)}')


@case(250)
def music(ctx):
    """Peaks at the source directions, follows the subspace definition."""
    r = ctx.rng
    N = int(r.integers(1, 5))
    L = (N + 1) ** 2
    k = int(r.integers(1, min(N + 1, 4) + 1))
    v = gen.spread(r, k, 30)
    azi, zen = ref.dirs(v)
    Y = ref.sh(N, azi, zen).T
    cx = gen.chance(r, .4)
    X = gen.cmat(r, k, 4 * L, cx)
    floor = 1e-3
    if gen.chance(r, .5):           # sources of different levels
        X *= 10. ** r.uniform(-2, 0, (k, 1))
        floor = 1e-7
    R = Y @ (X @ X.conj().T / (4 * L)) @ Y.T
    R = (R + R.conj().T) / 2 + floor * np.eye(L)
    R = R * 10. ** r.uniform(-5, 5)
    G = 40
    ga, gz = gen.azimuths(r, G), gen.zeniths(r, G)
    da, dz = np.r_[azi, ga], np.r_[zen, gz]
    p = ctx.call(P.sh_music, gen.variant(r, R), k, gen.vec_variant(r, da),
                 gen.vec_variant(r, dz))
    ctx.ok(p.shape == (G + k,) and not np.iscomplexobj(p), 'real spectrum')
    w, U = np.linalg.eigh(R)
    D = np.abs(U[:, :L - k].conj().T @ ref.sh(N, da, dz).T) ** 2
    q = 1 / np.sum(D, axis=0)
    ctx.ok(np.all(p > 0), 'positive spectrum')
    far = ref.angle(ref.unit(ga, gz)[:, None], v[None]).min(1) > .1
    ctx.close(p[k:][far] / q[k:][far], np.ones(far.sum()), 1e-5,
              'distance to the noise subspace')
    if np.any(far):
        ctx.ok(p[:k].min() > 100 * p[k:][far].max(), 'peaks at the sources',
               at=p[:k], off=p[k:][far].max())
    ctx.cover(f'music N={N} k={k} {cx}')


@case(80)
def music_degenerate(ctx):
    r = ctx.rng
    N = int(r.integers(0, 4))
    L = (N + 1) ** 2
    R = herm(r, L)
    azi, zen = gen.azimuths(r, 7), gen.zeniths(r, 7)
    p = ctx.call(P.sh_music, R, 0, azi, zen)
    ctx.close(p, np.full(7, 4 * np.pi / L), 1e-8,
              'flat spectrum without sources')


@case(60)
def mismatches_rejected(ctx):
    r = ctx.rng
    N = int(r.integers(1, 4))
    L = (N + 1) ** 2
    R = r.standard_normal((L, L + 1))
    azi, zen = gen.azimuths(r, 3), gen.zeniths(r, 3)
    ctx.raises(P.sh_mvdr, R, azi, zen, _what='a non-square covariance')
    ctx.raises(P.sh_music, R, 1, azi, zen, _what='a non-square covariance')
    ctx.raises(P.separate_cov, R, 1, _what='a non-square covariance')
    ctx.raises(P.sh_lcmv, R, azi, zen, [1, 0, 0],
               _what='a non-square covariance')
    S = herm(r, L)
    ctx.raises(P.sh_lcmv, S, azi, zen, [1, 0],
               _what='too few constraints')
    ctx.raises(P.sh_lcmv, S, azi, zen[:2], [1, 0, 0],
               _what='directions of different length')
