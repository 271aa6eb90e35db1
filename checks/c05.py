"""C05 rotations in space, spherical distances, triangle areas."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(10)
U = spa.utils


def angle(r):
    m = r.integers(5)
    if m == 0:
        return float(gen.pick(r, gen.SPECIAL))
    if m == 1:
        return float(10. ** r.uniform(-8.5, 0) * gen.pick(r, [-1, 1]))
    return float(r.uniform(-4 * np.pi, 4 * np.pi))


@case(500)
def euler(ctx):
    r = ctx.rng
    y, p, q = (angle(r), angle(r), angle(r)) if gen.chance(r, .5) else \
        gen.angles3(r)
    m = r.integers(4)
    if m == 0:
        R = ctx.call(U.rotation_euler, y)
        p = q = 0
    elif m == 1:
        R = ctx.call(U.rotation_euler, yaw=y, roll=q)
        p = 0
    elif m == 2:
        R = ctx.call(U.rotation_euler, pitch=p)
        y = q = 0
    else:
        R = ctx.call(U.rotation_euler, y, p, q)
    ctx.close(R, ref.Rz(-y) @ ref.Ry(-p) @ ref.Rx(-q), 1e-10,
              'Euler rotation matrix')
    ctx.close(R @ R.T, np.eye(3), 1e-10, 'orthogonality')
    ctx.close(np.linalg.det(R), 1., 1e-10, 'proper rotation')
    ctx.cover(f'euler {m}')


@case(600)
def axis_angle(ctx):
    r = ctx.rng
    k = gen.vectors(r, 1)[0]
    t = angle(r)
    R = ctx.call(U.rotation_rodrigues, gen.variant(r, k), t)
    v = r.standard_normal(3)
    # Rodrigues' formula on a vector
    e = v * np.cos(t) + np.cross(k, v) * np.sin(t) + \
        k * (k @ v) * (1 - np.cos(t))
    ctx.close(R @ v, e, 3e-9, 'rotation about an axis')
    ctx.close(R @ k, k, 1e-9, 'the axis does not move')
    s = ctx.call(U.rotation_rodrigues, k, -t)
    ctx.close(R @ s, np.eye(3), 3e-9, 'opposite angle is the inverse')
    ctx.cover(f'sign {np.sign(t)} small {abs(t) < 1e-3}')


@case(600)
def vector_to_vector(ctx):
    r = ctx.rng
    f = gen.vectors(r, 1)[0] * r.uniform(.1, 10)
    m = r.integers(5)
    t = gen.vectors(r, 1)[0]
    if m == 0:
        t = f + 10. ** r.uniform(-7, -1) * r.standard_normal(3)
    elif m == 1:
        t = -f + 10. ** r.uniform(-7, -1) * r.standard_normal(3)
    t = t * r.uniform(.1, 10)
    fu, tu = f / np.linalg.norm(f), t / np.linalg.norm(t)
    if np.linalg.norm(np.cross(fu, tu)) < 1e-8:
        return ctx.trivial()
    R = ctx.call(U.rotation_vecvec, gen.variant(r, f), gen.variant(r, t))
    ctx.close(R @ fu, tu, 1e-6, 'first vector is rotated onto the second')
    ctx.close(R @ R.T, np.eye(3), 1e-8, 'orthogonality')
    ctx.close(np.linalg.det(R), 1., 1e-8, 'proper rotation')
    ax = np.cross(fu, tu)
    ax /= np.linalg.norm(ax)
    ctx.close(R @ ax, ax, 1e-6, 'shortest rotation keeps the normal')
    ctx.cover(f'vecvec {m}')


@case(800)
def distance(ctx):
    r = ctx.rng
    n = gen.size(r, 200)
    a1, z1 = gen.azimuths(r, n), gen.zeniths(r, n)
    a2, z2 = gen.azimuths(r, n), gen.zeniths(r, n)
    m = r.integers(4)
    if m == 0:
        a2 = a1 + 10. ** r.uniform(-9, -1) * r.standard_normal(n)
        z2 = np.clip(z1 + 10. ** r.uniform(-9, -1) *
                     r.standard_normal(n), 0, np.pi)
    elif m == 1:
        a2 = a1 + np.pi + 1e-3 * r.standard_normal(n)
        z2 = np.clip(np.pi - z1 + 1e-3 * r.standard_normal(n), 0, np.pi)
    elif m == 2:
        a1, z1 = float(a1[0]), float(z1[0])
    rad = float(r.uniform(.1, 10)) if gen.chance(r, .4) else 1.
    args = [a1, z1, a2, z2]
    if gen.chance(r, .2):
        args = [x.tolist() if isinstance(x, np.ndarray) else x for x in args]
    d = ctx.call(U.haversine, *args) if rad == 1. else \
        ctx.call(U.haversine, *args, rad)
    e = ref.angle(ref.unit(a1, z1), ref.unit(a2, z2)) * rad
    ctx.close(d, e, 1e-6 if m == 1 else 1e-7, 'great circle distance')
    if m == 0:
        ctx.close(d, e, 1e-11, 'distance of close points', rel=False)
    ctx.cover(f'haversine {m} {n > 1} r={rad != 1}')


@case(500)
def angle_between(ctx):
    r = ctx.rng
    n = gen.size(r, 20)
    v1 = r.standard_normal(3) * 10. ** r.uniform(-3, 3)
    v2 = r.standard_normal((n, 3)) * 10. ** r.uniform(-3, 3, (n, 1))
    k = int(r.integers(n))
    m = r.integers(6)
    if m == 0:
        v2[k] = v1 * r.uniform(.1, 9)
    elif m == 5:                         # close together or nearly opposite
        v2[k] = gen.pick(r, [-2., 3.]) * (
            v1 + np.linalg.norm(v1) * 10. ** r.uniform(-8, -2) *
            r.standard_normal(3))
    elif m == 1:
        v2[k] = -v1 * r.uniform(.1, 9)
    elif m == 2:
        v2[k] = np.cross(v1, r.standard_normal(3))
    arg = v2[0] if n == 1 and gen.chance(r, .5) else gen.variant(r, v2)
    if gen.chance(r, .4):
        vi = r.standard_normal(3) * 10. ** r.uniform(-2, 4)
        a = ctx.call(U.angle_between, v1 + vi, arg + vi, vi=vi)
    else:
        a = ctx.call(U.angle_between, v1, arg)
        vi = np.zeros(3)
    # round off of the vertex limits how well the edges are known
    amp = np.max(np.abs(vi)) / min(np.linalg.norm(v1), np.min(
        np.linalg.norm(np.atleast_2d(arg), axis=1)))
    ctx.close(a, ref.angle(v1, arg), 2e-7 + 1e-14 * amp,
              'angle between vectors')
    ctx.cover(f'angle {m} {np.ndim(arg)}')


@case(300)
def triangle_area(ctx):
    r = ctx.rng
    p = r.standard_normal((3, 3)) * r.uniform(.1, 5)
    if gen.chance(r, .2):
        p = p + r.uniform(-50, 50, 3)
    if gen.chance(r, .2):
        p = r.integers(-4, 5, (3, 3))
    a, b, c = [np.linalg.norm(x) for x in
               (p[1] - p[0], p[2] - p[1], p[0] - p[2])]
    s = sorted([a, b, c], reverse=True)      # Heron, Kahan's stable form
    h = (s[0] + (s[1] + s[2])) * (s[2] - (s[0] - s[1])) * \
        (s[2] + (s[0] - s[1])) * (s[0] + (s[1] - s[2]))
    A = ctx.call(U.area_triangle, *p)
    ctx.close(A ** 2, max(h, 0) / 16, 1e-9, 'area from the side lengths')
    q = r.permutation(3)
    ctx.close(ctx.call(U.area_triangle, *p[q]), A, 1e-10,
              'area does not depend on the corner order')


@case(200)
def slivers(ctx):
    """Thin triangles, base times height."""
    r = ctx.rng
    Q = np.linalg.qr(r.standard_normal((3, 3)))[0]
    b, h = r.uniform(.5, 3), 10. ** r.uniform(-9, 0)
    t = r.uniform(-.5, 1.5)
    p = np.array([[0, 0, 0], [b, 0, 0], [t * b, h, 0]]) @ Q.T
    p = p[r.permutation(3)]
    if gen.chance(r, .5):
        p = p + Q[0] * r.uniform(-2, 2)
    ctx.close(ctx.call(U.area_triangle, *p), b * h / 2, 1e-13,
              'half of base times height')
    ctx.cover(f'sliver {int(np.log10(h))}')


@case(100)
def no_axis_rejected(ctx):
    r = ctx.rng
    f = gen.pick(r, [np.array(x, float) for x in
                     ([1, 0, 0], [0, 1, 0], [0, 0, -1], [0, -2, 0])])
    ctx.raises(U.rotation_vecvec, f, -f, _what='opposite vectors')
    ctx.raises(U.rotation_vecvec, f[:2], f, _what='a 2-D vector')
    ctx.raises(U.rotation_rodrigues, f[:2], .4, _what='a 2-D axis')
