"""C04 coordinate conversions."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(10)
U = spa.utils


def points(r, shape, radius=True, least=-100):
    n = int(np.prod(shape))
    v = gen.vectors(r, max(n, 1))[:n]
    if gen.chance(r, .15):               # next to a half plane or an axis
        k = r.random(n) < .5
        v[k, int(r.integers(3))] *= 10. ** r.uniform(-12, -3)
        v = v / np.linalg.norm(v, axis=1)[:, None]
    if radius:
        m = r.integers(4)
        v = v * 10. ** r.uniform(-5, 5, (n, 1)) if m == 0 else \
            v * 10. ** r.uniform(least, -least, (n, 1)) if m == 1 else \
            v * r.uniform(.1, 5, (n, 1))
    if gen.chance(r, .15):
        v = r.integers(-4, 5, (n, 3))
        v[np.all(v == 0, axis=1)] = [0, 0, 2]
    return v.reshape(tuple(shape) + (3,))


def shape(r):
    m = r.integers(6)
    return [(), (1,), (gen.size(r, 40),), (3, 2), (2, 1, 4), (5,)][m]


def as_args(r, v):
    """components as arrays / scalars / lists"""
    c = [v[..., i] for i in range(3)]
    if v.ndim == 1 and gen.chance(r, .7):
        return [float(x) for x in c]
    if v.ndim == 2 and gen.chance(r, .2):
        return [x.tolist() for x in c]
    return [gen.variant(r, x) for x in c]


@case(900)
def to_spherical(ctx):
    r = ctx.rng
    sh = shape(r)
    kw = {}
    if gen.chance(r, .5):
        kw['positive_azi'] = gen.chance(r, .6)
    if gen.chance(r, .5):
        kw['steady_zen'] = gen.chance(r, .6)
    # with steady zenith, radii below 1e-14 count as the origin
    v = points(r, sh, least=-13 if kw.get('steady_zen') else -100)
    azi, zen, rad = ctx.call(U.cart2sph, *as_args(r, v), **kw)
    ctx.cover(f'{sh} {sorted(kw.items())}')
    vf = v.astype(float)
    ctx.ok(np.shape(azi) == sh and np.shape(zen) == sh and
           np.shape(rad) == sh, 'shapes of the spherical coordinates',
           shapes=[np.shape(azi), np.shape(zen), np.shape(rad)])
    nrm = np.sqrt(np.sum(vf ** 2, -1))
    ctx.close(rad / nrm, np.ones(sh), 1e-10, 'radius')
    ctx.ok(np.all((zen >= 0) & (zen <= np.pi)), 'zenith within [0, pi]',
           zen=zen)
    if kw.get('positive_azi'):
        ctx.ok(np.all((azi >= 0) & (azi <= 2 * np.pi)),
               'azimuth within [0, 2 pi)', azi=azi)
    else:
        ctx.ok(np.all((azi >= -np.pi) & (azi <= np.pi)),
               'azimuth within [-pi, pi]', azi=azi)
    ctx.close(ref.unit(azi, zen), vf / nrm[..., None], 2e-7,
              'direction of the point')


@case(300)
def origin_is_steady(ctx):
    r = ctx.rng
    n = int(r.integers(1, 9))
    v = points(r, (n,), least=-13) + 0.
    v[r.random(n) < .5] = 0
    azi, zen, rad = ctx.call(U.cart2sph, *v.T, steady_zen=True)
    ctx.ok(np.all(np.isfinite(zen)) and np.all(np.isfinite(azi)),
           'finite angles when steady zenith is requested', zen=zen)
    at = np.any(v != 0, 1)
    if np.any(at):
        ctx.close(ref.unit(azi, zen)[at], v[at] / np.sqrt(
            np.sum(v[at] ** 2, 1))[:, None], 2e-7,
            'directions of the other points')
    ctx.ok(rad[np.all(v == 0, 1)] == 0, 'radius of the origin')


@case(900)
def to_cartesian(ctx):
    r = ctx.rng
    sh = shape(r)
    n = int(np.prod(sh))
    azi = gen.azimuths(r, n).reshape(sh)
    zen = gen.zeniths(r, n).reshape(sh)
    m = r.integers(3)
    rad = 1. if m == 0 else float(r.uniform(.1, 9)) if m == 1 else \
        r.uniform(0, 20, sh)
    if gen.chance(r, .1):                # through the origin
        rad = -rad if m else -1.
        m = 1
    a = [float(azi), float(zen)] if sh == () else \
        [azi.tolist(), zen.tolist()] if gen.chance(r, .2) else \
        [gen.variant(r, azi), gen.variant(r, zen)]
    xyz = ctx.call(U.sph2cart, *a) if m == 0 and gen.chance(r, .7) else \
        ctx.call(U.sph2cart, *a, rad)
    e = ref.unit(azi, zen) * np.asarray(rad)[..., None]
    ctx.close(np.stack(xyz, -1), e, 1e-10, 'Cartesian coordinates')
    xyz = ctx.call(U.dir2cart, *a)
    ctx.close(np.stack(xyz, -1), ref.unit(azi, zen), 1e-10,
              'unit vector of a direction')
    # elevation convention
    ele = np.pi / 2 - zen
    b = [float(azi), float(ele)] if sh == () else [azi, ele]
    xyz = ctx.call(U.matlab_sph2cart, *b, rad)
    ctx.close(np.stack(xyz, -1), e, 1e-10, 'elevation convention')
    ctx.cover(f'cart {sh} {m}')


@case(500)
def round_trip(ctx):
    r = ctx.rng
    n = gen.size(r, 5000) if gen.chance(r, .05) else gen.size(r, 50)
    v = points(r, (n,)).astype(float)
    a, z, d = ctx.call(U.cart2sph, *v.T, positive_azi=gen.chance(r, .5))
    w = np.stack(ctx.call(U.sph2cart, a, z, d), -1)
    nrm = np.linalg.norm(v, axis=1)[:, None]
    ctx.close(w / nrm, v / nrm, 2e-7, 'Cartesian round trip')
    azi = r.uniform(-np.pi + 1e-6, np.pi, n)
    zen = r.uniform(1e-3, np.pi - 1e-3, n)
    rad = r.uniform(.1, 10, n)
    a, z, d = ctx.call(U.cart2sph, *ctx.call(U.sph2cart, azi, zen, rad))
    ctx.close(np.c_[a, z, d], np.c_[azi, zen, rad], 1e-9,
              'spherical round trip')


@case(500)
def directions_of_vectors(ctx):
    r = ctx.rng
    sh = shape(r)
    v = points(r, sh)
    d = ctx.call(U.vec2dir, gen.variant(r, v))
    ctx.ok(d.shape == sh + (2,), 'shape of the directions', shape=d.shape)
    vf = v.astype(float)
    e = vf / np.sqrt(np.sum(vf ** 2, -1))[..., None]
    ctx.close(ref.unit(d[..., 0], d[..., 1]), e, 2e-7,
              'direction of a vector')
    c = ctx.call(U.cart2dir, *as_args(r, v))
    ctx.close(ref.unit(*c), e, 2e-7, 'direction of Cartesian components')
    ctx.ok(np.all((d[..., 1] >= 0) & (d[..., 1] <= np.pi)) and
           np.all(np.abs(d[..., 0]) <= np.pi), 'ranges of the angles')
    p = ctx.call(spa.sph.project_on_sphere, *[vf[..., i] for i in range(3)])
    ctx.close(np.stack(p, -1), e, 2e-7, 'projection on the unit sphere')
    ctx.cover(f'vec2dir {sh}')


@case(500)
def degrees(ctx):
    r = ctx.rng
    n = gen.size(r, 30)
    deg = r.uniform(-1000, 1000, n)
    sel = r.random(n) < .3
    deg[sel] = r.choice([0, 90, 180, 270, 360, -90, -360, 720, 359.999, 45],
                        sel.sum())
    arg = float(deg[0]) if gen.chance(r, .3) else gen.variant(r, deg)
    rad = ctx.call(U.deg2rad, arg)
    ctx.ok(np.shape(rad) == np.shape(arg), 'shape of the radians')
    ctx.ok(np.all((rad >= 0) & (rad < 2 * np.pi + 1e-12)),
           'radians within [0, 2 pi)', rad=rad)
    ctx.close(np.exp(1j * np.asarray(rad)),
              np.exp(1j * np.asarray(arg) * np.pi / 180), 1e-9,
              'same angle in radians')
    x = r.uniform(-20, 20, n)
    xa = float(x[0]) if gen.chance(r, .3) else gen.variant(r, x)
    g = ctx.call(U.rad2deg, xa)
    ctx.ok(np.all((g >= 0) & (g < 360 + 1e-9)), 'degrees within [0, 360)',
           deg=g)
    ctx.close(np.exp(1j * np.asarray(g) * np.pi / 180),
              np.exp(1j * np.asarray(xa)), 1e-9, 'same angle in degrees')
    if gen.chance(r, .5):
        k = r.integers(0, 360, n)
        ctx.close(ctx.call(U.rad2deg, ctx.call(U.deg2rad, k)) -
                  k + 360 * (np.abs(ctx.call(U.rad2deg, ctx.call(
                      U.deg2rad, k)) - k) > 180), np.zeros(n), 1e-9,
                  'integer degrees survive')
