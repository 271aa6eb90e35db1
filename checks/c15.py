"""C15 all-round Ambisonic panning and decoding."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(3)
D = spa.decoder
PI4 = 4 * np.pi
# max-rE weights of orders up to 5: Legendre polynomials at the largest root


def maxre(N):
    x = np.cos(np.radians(137.9 / (N + 1.51)))
    a = np.array([ref.legendre(n, x) for n in range(N + 1)], float)
    n = np.arange(N + 1)
    return a / np.sum((2 * n + 1) / PI4 * a)


def pulse(N, ang):
    """Axisymmetric max-rE pattern, 1 in its direction."""
    a = maxre(N)
    c = np.cos(ang)
    return sum((2 * n + 1) / PI4 * a[n] * ref.legendre(n, c)
               for n in range(N + 1))


def make(ctx, open_p=.4):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=24))
    if gen.chance(r, open_p):
        p = gen.setup_args(r, gen.layout(r, 'dome'),
                           dist=int(r.integers(2)))
    h = D.LoudspeakerSetup(*p.T)
    if gen.chance(r, .5):
        h.pop_triangles(normal_limit=85, aperture_limit=90,
                        opening_limit=150)
    kw = {}
    m = r.integers(3)
    if m == 1:
        im = -np.mean(p, axis=0)
        im = (im / np.linalg.norm(im) if np.linalg.norm(im) > .1
              else gen.vectors(r, 1)[0]) * np.mean(h.d)
        if np.min(ref.angle(im, p)) < .2:
            im = None
        elif gen.chance(r, .3):
            im = np.vstack([im, gen.vectors(r, 1)[0] * np.mean(h.d)])
            if np.min(ref.angle(im[1], p)) < .2 or \
                    ref.angle(im[0], im[1]) < .2:
                im = im[:1]
        if im is not None:
            kw = dict(update_hull=True, imaginary_ls=im)
    elif m == 2:
        try:
            with quiet():
                D.find_imaginary_loudspeaker(h)
            kw = dict(update_hull=True)
        except Exception:
            pass
    if gen.chance(r, .25):            # prepared in another way before
        with quiet():
            h.ambisonics_setup(
                N_kernel=int(r.integers(1, 9)),
                characteristic_order=int(r.integers(1, 6)),
                **gen.pick(r, [{}, kw]))
    K = int(r.integers(1, 9))
    order = int(r.integers(0, 6))
    ctx.call(h.ambisonics_setup, N_kernel=K, characteristic_order=order,
             **kw)
    x = h.kernel_hull.points
    m = ref.sh(2 * K, *ref.dirs(x)).mean(axis=0) * np.sqrt(PI4)
    ctx.close(m, np.eye((2 * K + 1) ** 2)[0], 1e-7, 'kernel of the order '
              'the setup was prepared for')
    return p, h, K, order, bool(kw)


def kernel(ctx, h):
    k = h.kernel_hull.points
    with quiet():
        G = D.vbap(k, h.ambisonics_hull)
    im = h.ambisonics_hull.imaginary_ls_idx
    if im is not None:
        G = np.delete(G, im, axis=1)
    return k, G


@case(150)
def panning(ctx):
    r = ctx.rng
    p, h, K, order, im = make(ctx)
    n = gen.size(r, 30)
    s = gen.vectors(r, n)
    scale = 10. ** r.uniform(-3, 3, (n, 1)) if gen.chance(r, .5) else 1.
    N = gen.pick(r, [None, 0, 1, 2, 3, 4, 5, 7, 10])
    kw = {} if N is None else {'N_sph': N}
    N = order if N is None else N
    k, G = kernel(ctx, h)
    B = pulse(N, ref.angle(s[:, None], k[None]))
    J = len(k)
    arg = (s * scale)
    arg = arg[0] if n == 1 and gen.chance(r, .5) else gen.variant(r, arg)
    g = ctx.call(D.allrap, arg, h, **kw)
    ctx.close(g, PI4 / J * B @ G, 1e-9, 'AllRAP samples the max-rE source')
    g2 = ctx.call(D.allrap2, arg, h, **kw)
    a = maxre(N)
    aw = np.sum((2 * np.arange(N + 1) + 1) / PI4 * a ** 2)
    ctx.close(g2, np.sqrt(PI4 / J * (B ** 2 / aw) @ G ** 2), 1e-9,
              'AllRAP2 sums the energies')
    ctx.ok(g.shape == (n, len(p)), 'imaginary loudspeakers have no output')
    ctx.cover(f'N={N} K={K} im={im}')


@case(80)
def energy(ctx):
    """On closed layouts AllRAP2 keeps the energy of every source."""
    r = ctx.rng
    v = gen.layout(r, gen.pick(r, ['random', 'regular', 'rings']), nmax=24)
    h = D.LoudspeakerSetup(*v.T)
    if len(h.valid_simplices) != len(h.simplices):
        return ctx.trivial()
    K = int(r.integers(1, 9))
    N = int(r.integers(1, K + 1))
    ctx.call(h.ambisonics_setup, N_kernel=K, characteristic_order=N)
    s = gen.vectors(r, gen.size(r, 20))
    g = ctx.call(D.allrap2, s, h)
    ctx.close(np.sum(g ** 2, axis=1), np.ones(len(s)), 1e-6,
              'AllRAP2 energy of a source from any direction')
    # energy of the kernel's vbap is 1 as well: AllRAP amplitude bound
    ctx.ok(np.all(g >= 0), 'AllRAP2 gains are not negative')
    ctx.cover(f'N={N} K={K}')


@case(130)
def decoding(ctx):
    r = ctx.rng
    p, h, K, order, im = make(ctx)
    N = gen.pick(r, [None, 0, 1, 2, 3, 4, 5, 6])
    kw = {} if N is None else {'N_sph': N}
    N = order if N is None else N
    n = gen.size(r, 50)
    k, G = kernel(ctx, h)
    J = len(k)
    Yk = ref.sh(N, *ref.dirs(k))
    s = gen.vectors(r, n)
    if gen.chance(r, .6):
        F = ref.sh(N, *ref.dirs(s)).T
        src = True
    else:
        F = gen.cmat(r, (N + 1) ** 2, n, gen.chance(r, .3))
        src = False
    y = ctx.call(D.allrad, gen.variant(r, F), h, **kw)
    an = maxre(N)[ref.orders(N)]
    ctx.close(y, PI4 / J * G.T @ (Yk * an) @ F, 1e-9, 'AllRAD decoding')
    y2 = ctx.call(D.allrad2, gen.variant(r, F), h, **kw)
    with quiet():
        Gk = D.allrap2(k, h, N_sph=N)
    ctx.close(y2, PI4 / J * Gk.T @ Yk @ F, 1e-9, 'AllRAD2 decoding')
    if src:
        with quiet():
            g = D.allrap(s, h, N_sph=N)
        ctx.close(y, g.T, 1e-9, 'decoding an encoded source is panning it')
    ctx.ok(y.shape == (len(p), n) and y2.shape == (len(p), n),
           'imaginary loudspeakers have no output')
    ctx.cover(f'rad N={N} K={K} im={im} src={src}')


@case(40)
def impossible_rejected(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=20))
    h = D.LoudspeakerSetup(*p.T)
    s = gen.vectors(r, 2)
    N = int(r.integers(1, 4))
    F = r.standard_normal(((N + 1) ** 2, 2))
    for f, x in ((D.allrap, s), (D.allrap2, s), (D.allrad, F),
                 (D.allrad2, F)):
        ctx.raises(f, x, h, N_sph=N, _what='a setup that is not prepared')
    h.ambisonics_setup(N_kernel=2, characteristic_order=N + 1)
    for f in (D.allrad, D.allrad2):
        ctx.raises(f, F, h, _what='another order than the setup')
        ctx.raises(f, F, h, N_sph=N + 1, _what='too few channels')
        ctx.raises(f, r.standard_normal(((N + 2) ** 2, 2)), h, N_sph=N,
                   _what='too many channels')
    for f in (D.allrap, D.allrap2):
        ctx.raises(f, s[:, :2], h, _what='2-D source vectors')
