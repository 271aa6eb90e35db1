"""C16 sampling, mode-matching and energy-preserving decoders."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(4)
D = spa.decoder
PI4 = 4 * np.pi


def make(ctx, nmax=40):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=nmax))
    if gen.chance(r, .25):
        # loudspeakers on one side only: badly conditioned
        v = ref.unit(*gen.cap(r, int(r.integers(6, nmax))))
        p = gen.setup_args(r, v, dist=int(r.integers(2)))
    return p, D.LoudspeakerSetup(*p.T)


def field(r, N, extra=True):
    """Coefficients, possibly of a higher order than decoded."""
    M = N + (int(r.integers(0, 3)) if extra and gen.chance(r, .5) else 0)
    n = gen.size(r, 40)
    if gen.chance(r, .3):
        v = gen.vectors(r, n)
        return ref.sh(M, *ref.dirs(v)).T
    return gen.cmat(r, (M + 1) ** 2, n, gen.chance(r, .25))


def run(ctx, f, F, h, N):
    """Order explicit, prepared in the setup, or the characteristic one."""
    r = ctx.rng
    x = gen.variant(r, F)
    if h.characteristic_order == N and gen.chance(r, .6):
        return ctx.call(f, x, h)
    return ctx.call(f, x, h, N_sph=N)


def order(ctx, h, hi=6):
    r = ctx.rng
    m = r.integers(4)
    if m == 0:
        try:
            with quiet():
                return h.get_characteristic_order(), True
        except Exception:
            return 1, False
    N = int(r.integers(0, hi))
    if m == 1 and N:
        with quiet():
            h.ambisonics_setup(characteristic_order=N, N_kernel=1)
    return N, False


def decode(ctx, f):
    r = ctx.rng
    p, h = make(ctx)
    N, char = order(ctx, h)
    F = field(r, N)
    if char and gen.chance(r, .7):
        y = ctx.call(f, gen.variant(r, F), h)
    else:
        y = run(ctx, f, F, h, N)
    K = (N + 1) ** 2
    Y = ref.sh(N, *ref.dirs(p))
    ctx.ok(y.shape == (len(p), F.shape[1]), 'one signal per loudspeaker')
    ctx.cover(f'{f.__name__} N={N} char={char} L>=K={len(p) >= K} '
              f'trunc={len(F) > K}')
    return p, Y, F[:K], y, K


@case(250)
def sampling(ctx):
    p, Y, F, y, K = decode(ctx, D.sad)
    ctx.close(y, Y @ F * PI4 / np.sqrt(K * len(p)), 1e-9,
              'sampling decoder evaluates the sound field')


@case(250)
def mode_matching(ctx):
    p, Y, F, y, K = decode(ctx, D.mad)
    s = np.linalg.svd(Y, compute_uv=False)
    ctx.cover('mad cond 1e%d' % np.clip(np.log10(s.max() / max(
        s.min(), 1e-30)), 0, 9))
    if s.min() < 1e-6 * s.max() and s.min() > 1e-16 * s.max():
        return ctx.trivial()
    L = len(p)
    if s.min() > 1e-6 * s.max() and L >= K:
        ctx.close(Y.T @ y, np.sqrt(L / K) * F, 1e-7,
                  'the layout reproduces the harmonics')
        # of all solutions the one of least energy
        q, _ = np.linalg.qr(Y)
        ctx.close(y - q @ (q.T @ y), 0 * y, 1e-7 * max(1, 1 / s.min()),
                  'with the least energy')
    e = np.linalg.pinv(Y).T @ F * np.sqrt(L / K)
    if s.min() > 1e-6 * s.max():
        ctx.close(y, e, 1e-7, 'mode matching signals')


@case(250)
def energy_preserving(ctx):
    p, Y, F, y, K = decode(ctx, D.epad)
    L = len(p)
    s = np.linalg.svd(Y, compute_uv=False)
    if L >= K:
        ctx.close(np.sum(np.abs(y) ** 2, axis=0),
                  np.sum(np.abs(F) ** 2, axis=0) * PI4 / K, 1e-9,
                  'energy preserved for any sound field')
        if s.min() > 1e-3 * s.max():
            # unitary polar factor
            w, v = np.linalg.eigh(Y.T @ Y)
            e = Y @ (v / np.sqrt(w)) @ v.T @ F * np.sqrt(PI4 / K)
            ctx.close(y, e, 1e-7, 'closest energy preserving decoder')
    else:
        ctx.ok(np.all(np.sum(np.abs(y) ** 2, axis=0) <=
                      np.sum(np.abs(F) ** 2, axis=0) * PI4 / K *
                      (1 + 1e-9)), 'energy never grows')
        if s.min() > 1e-3 * s.max():
            w, v = np.linalg.eigh(Y @ Y.T)
            e = (v / np.sqrt(w)) @ v.T @ Y @ F * np.sqrt(PI4 / K)
            ctx.close(y, e, 1e-7, 'closest partial isometry')


@case(100)
def regular_layouts(ctx):
    """On a t-design the three decoders agree."""
    r = ctx.rng
    N = int(r.integers(1, 6))
    v = spa.grids.load_t_design(2 * N + int(r.integers(0, 3)))
    e = r.uniform(-3, 3, 3)
    v = v @ (ref.Rz(e[0]) @ ref.Ry(e[1]) @ ref.Rx(e[2])) * r.uniform(.5, 3)
    h = D.LoudspeakerSetup(*v.T)
    s = gen.vectors(r, 8)
    F = ref.sh(N, *ref.dirs(s)).T
    a = ctx.call(D.sad, F, h, N_sph=N)
    b = ctx.call(D.mad, F, h, N_sph=N)
    c = ctx.call(D.epad, F, h, N_sph=N)
    ctx.close(a, c, 1e-6, 'sampling and energy preserving decoder')
    ctx.close(b / np.linalg.norm(b, axis=0), a / np.linalg.norm(a, axis=0),
              1e-6, 'sampling and mode matching decoder')
    ctx.close(np.sum(c ** 2, axis=0), np.ones(8), 1e-9,
              'unit energy of a plane wave')
    ctx.cover(f'regular N={N}')


@case(60)
def too_few_channels_rejected(ctx):
    r = ctx.rng
    p, h = make(ctx, 12)
    N = int(r.integers(1, 5))
    F = r.standard_normal((N * N, 3))
    for f in (D.sad, D.mad, D.epad):
        ctx.raises(f, F, h, N_sph=N, _what='a sound field of lower order')
    h.ambisonics_setup(characteristic_order=N, N_kernel=1)
    for f in (D.sad, D.mad, D.epad):
        ctx.raises(f, F, h, _what='a sound field of lower order')
