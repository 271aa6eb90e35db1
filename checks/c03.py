"""C03 rotation of spherical harmonics."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry

CASES, case = registry(2)


def angles(r):
    return gen.angles3(r, 2 * np.pi if gen.chance(r, .9) else 50)


def euler(yaw, pitch, roll):
    """Documented convention (coordinate frame matrices of MathWorld)."""
    return ref.Rz(-yaw) @ ref.Ry(-pitch) @ ref.Rx(-roll)


def order(r, big=16):
    return int(r.integers(0, 6)) if r.random() < .8 else \
        int(r.integers(0, big + 1))


@case(700)
def rotated_direction(ctx):
    """Rotating the coefficients of a plane wave moves its direction."""
    r = ctx.rng
    N = order(r)
    J = int(r.integers(1, 5))
    azi, zen = gen.azimuths(r, J), gen.zeniths(r, J)
    y, p, q = angles(r)
    F = ref.sh(N, azi, zen)
    G = ctx.call(spa.sph.rotate_sh, gen.variant(r, F), y, p, q)
    v = ref.unit(azi, zen) @ euler(y, p, q).T
    ctx.cover(f'N={N} J={J}')
    ctx.close(G, ref.sh(N, *ref.dirs(v)), 1e-6,
              'coefficients of the rotated directions')


@case(600)
def rotated_function(ctx):
    """Any spherical function, real or complex coefficients."""
    r = ctx.rng
    N = order(r, 10)
    S = int(r.integers(1, 4))
    F = gen.cmat(r, S, (N + 1) ** 2, gen.chance(r, .4))
    if gen.chance(r, .15):
        F = r.integers(-4, 5, F.shape)
    y, p, q = angles(r)
    nd = r.integers(3)
    arg = F[0] if nd == 0 else F if nd == 1 else np.stack([F, 2 * F])
    G = ctx.call(spa.sph.rotate_sh, arg, y, p, q)
    azi, zen = gen.azimuths(r, 11), gen.zeniths(r, 11)
    v = ref.unit(azi, zen) @ euler(y, p, q)         # back rotated
    e = ref.sh(N, *ref.dirs(v)) @ np.atleast_2d(arg).reshape(
        -1, (N + 1) ** 2).T
    G = np.asarray(G)
    ctx.ok(G.size == arg.size, 'size of the result')
    ctx.close(ref.sh(N, azi, zen) @ G.reshape(-1, (N + 1) ** 2).T, e, 1e-6,
              'rotated function has the value of the original at the '
              'back-rotated direction')
    if nd == 2:
        ctx.ok(G.shape == arg.shape, 'leading dimensions kept')


@case(400)
def matrix_structure(ctx):
    r = ctx.rng
    N = order(r)
    y, p, q = angles(r)
    R = ctx.call(spa.sph.sh_rotation_matrix, N, y, p, q)
    K = (N + 1) ** 2
    ctx.ok(R.shape == (K, K), 'shape of the rotation matrix', shape=R.shape)
    ctx.close(R @ R.T, np.eye(K), 1e-8, 'orthogonality')
    n = ref.orders(N)
    ctx.ok(np.all(np.abs(R[n[:, None] != n[None, :]]) < 1e-12),
           'orders do not mix')
    blocks = ctx.call(spa.sph.sh_rotation_matrix, N, y, p, q,
                      return_as_blocks=True)
    ctx.ok(len(blocks) == N + 1, 'one block per order')
    for k, b in enumerate(blocks):
        ctx.close(b, R[k * k:(k + 1) ** 2, k * k:(k + 1) ** 2], 1e-12,
                  'blocks of the full matrix')
    M = int(r.integers(0, N + 1))
    ctx.close(ctx.call(spa.sph.sh_rotation_matrix, M, y, p, q),
              R[:(M + 1) ** 2, :(M + 1) ** 2], 1e-10,
              'lower order is a sub matrix')
    ctx.cover(f'matrix N={N}')


@case(400)
def composition(ctx):
    r = ctx.rng
    N = order(r, 9)
    a, b = angles(r), angles(r)
    Ra = ctx.call(spa.sph.sh_rotation_matrix, N, *a)
    Rb = ctx.call(spa.sph.sh_rotation_matrix, N, *b)
    F = r.standard_normal((2, (N + 1) ** 2))
    G = ctx.call(spa.sph.rotate_sh, F, *a)
    G = ctx.call(spa.sph.rotate_sh, G, *b)
    ctx.close(G, F @ (Rb @ Ra).T, 1e-7, 'rotations compose')
    Rc = spa.utils.rotation_euler(*b) @ spa.utils.rotation_euler(*a)
    azi, zen = gen.azimuths(r, 3), gen.zeniths(r, 3)
    ctx.close(ref.sh(N, azi, zen) @ (Rb @ Ra).T,
              ref.sh(N, *ref.dirs(ref.unit(azi, zen) @ Rc.T)), 1e-6,
              'composition agrees with the product of Cartesian matrices')
    z = ctx.call(spa.sph.sh_rotation_matrix, N, 0, 0, 0)
    ctx.close(z, np.eye((N + 1) ** 2), 1e-12, 'no rotation')
    y = float(r.uniform(-7, 7))
    ctx.close(ctx.call(spa.sph.sh_rotation_matrix, N, y, 0, 0) @
              ctx.call(spa.sph.sh_rotation_matrix, N, -y, 0, 0),
              np.eye((N + 1) ** 2), 1e-8, 'inverse yaw')


@case(60)
def unsupported_rejected(ctx):
    r = ctx.rng
    N = order(r, 4)
    for st in ('complex', 'Real', 'foo', ''):
        ctx.raises(spa.sph.sh_rotation_matrix, N, .1, .2, .3, sh_type=st,
                   _what=f'basis type {st!r}')
        ctx.raises(spa.sph.rotate_sh, r.standard_normal((2, (N + 1) ** 2)),
                   .1, .2, .3, sh_type=st, _what=f'basis type {st!r}')
    k = int(r.choice([2, 3, 5, 6, 7, 8, 10, 15, 17, 24, 26]))
    ctx.raises(spa.sph.rotate_sh, r.standard_normal((2, k)), .1, .2, .3,
               _what=f'{k} coefficients')
