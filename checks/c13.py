"""C13 amplitude panning laws."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(2)
D = spa.decoder


def make(ctx, closed=False):
    """A layout, possibly refined, with a distance exponent."""
    r = ctx.rng
    for _ in range(50):
        p = gen.setup_args(r, gen.layout(r))
        if gen.chance(r, .2):
            lp = r.uniform(-.3, .3, 3)
            h = D.LoudspeakerSetup(*(p + lp).T, listener_position=lp)
            p = np.array(h.points)
        else:
            h = D.LoudspeakerSetup(*p.T)
        if len(h.valid_simplices) == 0:
            continue
        if not closed and gen.chance(r, .5):
            h.pop_triangles(normal_limit=85, aperture_limit=90,
                            opening_limit=150)
        a = 1
        if gen.chance(r, .35):
            a = h.a = gen.pick(r, [0, 1, 2, .5])
        v = np.asarray(h.valid_simplices)
        if len(v) and np.max(np.linalg.cond(p[v])) < 200:
            return p, h, a
    raise AssertionError('no layout')


def sources(r, p, n):
    s = gen.vectors(r, n)
    m = r.integers(6)
    if m == 0:                                  # at loudspeakers
        k = r.integers(0, len(p), n)
        s = p[k] / np.linalg.norm(p[k], axis=1)[:, None]
    elif m == 1:
        s = s * 10. ** r.uniform(-8, 8, (n, 1))
    elif m == 2 and n > 1:                      # pairs
        k = r.integers(0, len(p), (n, 2))
        s = p[k[:, 0]] + r.random((n, 1)) * p[k[:, 1]]
        s[np.linalg.norm(s, axis=1) < 1e-2] = [1, 0, 0]
    return s


def pnorm(g, norm):
    g = np.abs(g)
    if np.isinf(norm):
        return g.max(axis=-1)
    return np.sum(g ** norm, axis=-1) ** (1. / norm)


@case(400)
def vector_base(ctx):
    r = ctx.rng
    p, h, a = make(ctx)
    n = gen.size(r, 24)
    s = sources(r, p, n)
    norm = gen.pick(r, [2, 2, 2, 1, np.inf, 3, 1.5])
    kw = {} if norm == 2 and gen.chance(r, .7) else {'norm': norm}
    V = np.asarray(h.valid_simplices)
    if gen.chance(r, .25) and len(V) > 2:
        V = V[r.permutation(len(V))[:int(r.integers(1, len(V)))]]
        kw['valid_simplices'] = V.copy()
    arg = s[0] if n == 1 and gen.chance(r, .5) else gen.variant(r, s)
    g = ctx.call(D.vbap, arg, h, **kw)
    ctx.ok(g.shape == (n, len(p)), 'one gain per source and loudspeaker',
           shape=g.shape)
    ctx.ok(np.all(np.isfinite(g)), 'finite gains')
    d = np.linalg.norm(p, axis=1)
    raw = g / d ** a
    ctx.ok(np.all(raw > -2e-5), 'gains are not negative', low=raw.min())
    ctx.ok(np.all(np.sum(np.abs(g) > 1e-12, axis=1) <= 3),
           'at most three loudspeakers play')
    e, margin, low = ref.PanRef(p, V).gains(s, norm)
    hit = margin > -5e-6
    miss = margin < -2e-5
    su = s / np.linalg.norm(s, axis=1)[:, None]
    on = np.max(np.abs(g), axis=1) > 0
    ctx.ok(np.all(on[hit]), 'sources inside the layout are rendered')
    ctx.ok(not np.any(on[miss]), 'sources outside are silent')
    if np.any(hit):
        ctx.close(pnorm(raw[hit], norm), np.ones(hit.sum()), 1e-9,
                  'gain norm')
        x = raw[hit] @ p
        x = x / np.linalg.norm(x, axis=1)[:, None]
        ctx.close(x, su[hit], 1e-4, 'gains point to the source')
    inside = margin > 2e-5
    if np.any(inside):
        x = raw[inside] @ p
        x = x / np.linalg.norm(x, axis=1)[:, None]
        ctx.close(x, su[inside], 1e-8, 'gains point exactly to the source')
    # uniquely determined gains
    uniq = inside & (np.sum(low > -2e-5, axis=1) == 1)
    ctx.close(raw[uniq], e[uniq], 1e-8, 'panning gains')
    ctx.cover(f'vbap norm={norm} a={a} hit={hit.sum() > 0} '
              f'miss={miss.sum() > 0} V={"valid_simplices" in kw}')


@case(300)
def vector_base_intensity(ctx):
    r = ctx.rng
    p, h, a = make(ctx)
    n = gen.size(r, 20)
    s = sources(r, p, n)
    norm = gen.pick(r, [2, 2, 2, 1, np.inf, 3])
    kw = {} if norm == 2 and gen.chance(r, .7) else {'norm': norm}
    V = np.asarray(h.valid_simplices)
    if gen.chance(r, .25) and len(V) > 2:
        V = V[r.permutation(len(V))[:int(r.integers(1, len(V)))]]
        kw['valid_simplices'] = V.copy()
    g = ctx.call(D.vbip, s[0] if n == 1 and gen.chance(r, .5) else s, h,
                 **kw)
    ctx.ok(g.shape == (n, len(p)), 'one gain per source and loudspeaker')
    ctx.ok(np.all(g >= 0) and np.all(np.isfinite(g)), 'non-negative gains')
    e, margin, low = ref.PanRef(p, V).gains(s, 2)
    on = np.max(g, axis=1) > 0
    hit, miss = margin > -5e-6, margin < -2e-5
    ctx.ok(np.all(on[hit]), 'sources inside the layout are rendered')
    ctx.ok(not np.any(on[miss]), 'sources outside are silent')
    if np.any(hit):
        ctx.close(pnorm(g[hit], norm), np.ones(hit.sum()), 1e-9,
                  'gain norm')
    inside = margin > 2e-5
    if np.any(inside):
        d = np.linalg.norm(p, axis=1)
        x = (g[inside] ** 2 / d ** a) @ p
        x = x / np.linalg.norm(x, axis=1)[:, None]
        su = s / np.linalg.norm(s, axis=1)[:, None]
        ctx.close(x, su[inside], 1e-8, 'intensity points to the source')
    uniq = inside & (np.sum(low > -2e-5, axis=1) == 1)
    d = np.linalg.norm(p, axis=1)
    q = np.sqrt(np.clip(e * d ** a, 0, None))
    if np.any(uniq):
        q = q / pnorm(q, norm)[:, None]
        ctx.close(g[uniq], q[uniq], 1e-7, 'intensity panning gains')
    ctx.cover(f'vbip norm={norm} a={a} miss={miss.sum() > 0}')


@case(200)
def fade_outside(ctx):
    """With an imaginary loudspeaker, gains fade out or are redistributed."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, 'dome'), dist=int(r.integers(3)))
    h = D.LoudspeakerSetup(*p.T)
    h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    im = np.array([[0, 0, -1.]]) * np.mean(h.d)
    if gen.chance(r, .3):
        im = np.vstack([im, [[.3, 0, -.9]]])
    h.ambisonics_setup(update_hull=True, imaginary_ls=im, N_kernel=2,
                       characteristic_order=1)
    n = gen.size(r, 20)
    s = sources(r, p, n)
    q = np.vstack([p, im])
    hull = D.LoudspeakerSetup(*q.T)
    e, margin, low = ref.PanRef(q, hull.valid_simplices).gains(s, 2)
    d = np.linalg.norm(p, axis=1)
    g = ctx.call(D.vbap, s, h, retain_outside=True)
    ctx.ok(g.shape == (n, len(p)), 'imaginary loudspeaker has no output',
           shape=g.shape)
    uniq = (margin > 2e-5) & (np.sum(low > -2e-5, axis=1) == 1)
    x = e[:, :len(p)]
    ctx.close((g / d)[uniq], x[uniq], 1e-8, 'gains fade towards the '
              'imaginary loudspeaker')
    ctx.ok(np.all(np.linalg.norm(g / d, axis=1) <= 1 + 1e-9),
           'never louder than inside')
    k = ctx.call(D.vbip, s, h, retain_outside=True)
    ctx.ok(k.shape == (n, len(p)), 'imaginary loudspeaker has no output')
    on = np.linalg.norm(k, axis=1) > 0
    ctx.close(np.linalg.norm(k[on], axis=1), np.ones(on.sum()), 1e-9,
              'energy kept while redistributing')
    y = np.sqrt(np.clip(x * d, 0, None))
    ny = np.linalg.norm(y, axis=1)
    ok = uniq & (ny > 1e-3)
    ctx.close(k[ok], y[ok] / ny[ok][:, None], 1e-6,
              'redistributed intensity gains')
    ctx.cover(f'retain im={len(im)}')


@case(250)
def nearest(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r))
    h = D.LoudspeakerSetup(*p.T)
    a = 1
    if gen.chance(r, .4):
        a = h.a = gen.pick(r, [0, 2, .5])
    n = gen.size(r, 40)
    s = sources(r, p, n)
    g = ctx.call(D.nearest_loudspeaker, s[0] if n == 1 and
                 gen.chance(r, .5) else gen.variant(r, s), h)
    d = np.linalg.norm(p, axis=1)
    ang = ref.angle(s[:, None], p[None])
    ctx.ok(g.shape == (n, len(p)), 'one gain per source and loudspeaker')
    ctx.ok(np.all(np.sum(g != 0, axis=1) == 1), 'one loudspeaker plays')
    idx = np.argmax(g, axis=1)
    k = np.arange(n)
    ctx.ok(np.all(ang[k, idx] <= ang.min(axis=1) + 1e-6),
           'it is the closest direction')
    ctx.close(g[k, idx], d[idx] ** a, 1e-9, 'its distance is compensated')
    ctx.cover(f'nls a={a}')


@case(200)
def signals(ctx):
    """Loudspeaker signals are the gains times the input, per sample."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r))
    h = D.LoudspeakerSetup(*p.T)
    n = gen.size(r, 300)
    g = r.standard_normal((n, len(p))) * (r.random((n, len(p))) < .3)
    x = gen.signal(r, n, silent=.08)
    if gen.chance(r, .2):            # samples as integers of a sound card
        x = r.integers(-2 ** 31, 2 ** 31 - 1, n)
    arg = g[0] if n == 1 and gen.chance(r, .5) else gen.variant(r, g)
    if gen.chance(r, .3):
        y = ctx.call(h.loudspeaker_signals, arg)
        x = np.ones(n)
    else:
        y = ctx.call(h.loudspeaker_signals, arg, gen.vec_variant(r, x))
    ctx.close(y, (g * x[:, None]).T, 1e-12, 'loudspeaker signals')


@case(30)
def nothing_valid(ctx):
    """Without a valid triangle there is nothing to pan with."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r))
    h = D.LoudspeakerSetup(*p.T)
    s = sources(r, p, gen.size(r, 15))
    kw = {}
    if gen.chance(r, .5):
        h.valid_simplices = np.zeros((0, 3), int)
    else:
        kw['valid_simplices'] = gen.pick(r, [np.zeros((0, 3), int), []])
    for f in (D.vbap, D.vbip):
        g = ctx.call(f, s, h, **kw)
        ctx.ok(g.shape == (len(s), len(p)) and not np.any(g),
               'no gains without triangles')
    ctx.cover(f'nothing valid {sorted(kw)}')


@case(150)
def many_sources(ctx):
    """Batch size must not matter."""
    r = ctx.rng
    p, h, a = make(ctx)
    n = gen.pick(r, [9, 10, 11, 64, 100, 257, 500])
    s = gen.vectors(r, n)
    g = ctx.call(D.vbap, s, h)
    k = r.permutation(n)[:4]
    for i in k:
        ctx.close(ctx.call(D.vbap, s[i], h)[0], g[i], 1e-9,
                  'gains do not depend on the other sources')
    q = r.permutation(n)
    ctx.close(ctx.call(D.vbap, s[q], h), g[q], 1e-9, 'order of the sources')
    ctx.cover(f'n={n}')


@case(40)
def impossible_rejected(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r))
    h = D.LoudspeakerSetup(*p.T)
    s = gen.vectors(r, 4)
    for f in (D.vbap, D.vbip):
        ctx.raises(f, s[:, :2], h, _what='2-D source vectors')
        ctx.raises(f, s, h, retain_outside=True,
                   _what='no imaginary loudspeaker')
    h.ambisonics_setup(characteristic_order=1, N_kernel=1)
    for f in (D.vbap, D.vbip):
        ctx.raises(f, s, h, retain_outside=True,
                   _what='no imaginary loudspeaker')
        ctx.raises(f, s, h, valid_simplices=h.valid_simplices,
                   retain_outside=True, _what='contradicting options')
    ctx.raises(h.loudspeaker_signals, r.standard_normal((5, len(p) + 1)),
               _what='gains for another number of loudspeakers')
    k, q = gen.pick(r, [(2, 3), (3, 2), (5, 9), (9, 5), (2, 40)])
    ctx.raises(h.loudspeaker_signals, r.standard_normal((k, len(p))),
               r.standard_normal(q),
               _what='gains for another number of samples')
