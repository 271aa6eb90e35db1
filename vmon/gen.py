"""Workload generators (all driven by a numpy Generator)."""
import numpy as np

PI = np.pi
SPECIAL = [0., PI / 2, PI, -PI / 2, 3 * PI / 2, 2 * PI, PI / 4, PI / 3,
           2 * PI / 3, -PI, PI / 6]


def chance(rng, p):
    return rng.random() < p


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def loguniform_int(rng, lo, hi):
    return int(np.clip(np.floor(np.exp(rng.uniform(np.log(lo),
                                                   np.log(hi + 1)))),
                       lo, hi))


def size(rng, hi=4096):
    """Sample counts: thresholds and their neighbours, else log-uniform."""
    marks = [m for m in (1, 2, 3, 4, 7, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65,
                         100, 127, 128, 129, 255, 256, 257, 500, 511, 512,
                         513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048,
                         2049, 4095, 4096, 4097, 8192, 8193, 16384, 65536,
                         65537) if m <= hi]
    if rng.random() < 0.4:
        return pick(rng, marks)
    return loguniform_int(rng, 1, hi)


def azimuths(rng, n):
    a = rng.uniform(-PI, PI, n)
    mode = rng.integers(10)
    if mode == 2:                       # a slow drift, or standing still
        return a[0] + np.arange(n) * rng.choice([0., 1, -1]) * \
            10. ** rng.uniform(-4, -1)
    if mode == 3:                       # a whole group around one azimuth
        return rng.choice(SPECIAL) + rng.standard_normal(n) * \
            10. ** rng.uniform(-6, -1)
    if mode == 4:                       # several turns
        return a + 2 * PI * rng.integers(-3, 4, n)
    if mode == 0:
        a = rng.uniform(0, 2 * PI, n)
    elif mode == 1:
        a = rng.uniform(-3 * PI, 3 * PI, n)
    sel = rng.random(n) < 0.25
    a[sel] = rng.choice(SPECIAL, sel.sum())
    return a


def zeniths(rng, n):
    z = np.arccos(rng.uniform(-1, 1, n))
    mode = rng.integers(10)
    if mode == 0:                       # a slow drift, or standing still
        z = z[0] + np.arange(n) * rng.choice([0., 1, -1]) * \
            10. ** rng.uniform(-4, -1)
        return np.abs((z + PI) % (2 * PI) - PI)
    if mode == 1:                       # around the poles or the horizon
        z = rng.standard_normal(n) * 10. ** rng.uniform(-3, -1)
        z += rng.choice([0., PI / 2, PI]) + np.copysign(1e-5, z)
        return np.abs((z + PI) % (2 * PI) - PI)
    sel = rng.random(n) < 0.25
    z[sel] = rng.choice([0., PI / 2, PI, PI / 4, 3 * PI / 4, 1e-3, PI - 1e-3],
                        sel.sum())
    return z


def path(rng, n):
    """Directions of a sequence: free, or of a slowly moving source."""
    if rng.random() < .65:
        return azimuths(rng, n), zeniths(rng, n)
    k = np.arange(n)
    if rng.random() < .3:               # with jumps
        k = k + 1000 * np.cumsum(rng.random(n) < .1)
    s = 10. ** rng.uniform(-4, -1.5)
    z = rng.uniform(0, PI) + s * k * rng.choice([0, .3, 1., -1.])
    return rng.uniform(-PI, PI) + s * k * rng.choice([1., -1.]), \
        np.abs((z + PI) % (2 * PI) - PI)


def vectors(rng, n):
    """Unit vectors, sometimes on axes / diagonals."""
    v = rng.standard_normal((n, 3))
    sel = rng.random(n) < 0.2
    v[sel] = rng.integers(-1, 2, (sel.sum(), 3))
    z = np.linalg.norm(v, axis=1) < 1e-6
    v[z] = [0, 0, 1]
    return v / np.linalg.norm(v, axis=1)[:, None]


def variant(rng, a, ints=False):
    """Same values, other container: layout, stride, read-only, dtype."""
    a = np.asarray(a)
    m = rng.integers(6)
    if a.ndim == 0:
        return a.copy()
    if m == 0:
        return np.asfortranarray(a)
    if m == 1:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if m == 2:
        b = a.copy()
        b.flags.writeable = False
        return b
    if m == 3 and a.ndim:
        return a[::-1].copy()[::-1]
    return a.copy()


def vec_variant(rng, a):
    """1-D argument as documented array_like: also list / tuple / scalar."""
    a = np.asarray(a)
    m = rng.integers(8)
    if m == 0:
        return a.tolist()
    if m == 1:
        return tuple(a.tolist())
    if m == 2 and len(a) == 1:
        return a[0].item()
    if m == 3:
        return a[:, None].copy()
    return variant(rng, a)


def signal(rng, n, kind=None, silent=0.):
    if silent and rng.random() < silent:
        return np.zeros(n)
    kind = kind or pick(rng, ['noise', 'noise', 'noise', 'sine', 'impulse',
                              'dc', 'sparse', 'offset', 'positive',
                              'negative', 'late', 'early', 'alternating',
                              'constant-runs'])
    if kind == 'noise':
        s = rng.standard_normal(n)
    elif kind == 'sine':
        s = np.sin(2 * PI * rng.uniform(0.001, 0.49) * np.arange(n) +
                   rng.uniform(0, 6))
    elif kind == 'impulse':
        s = np.zeros(n)
        s[int(rng.integers(n))] = 1.
    elif kind == 'dc':
        s = np.ones(n)
    elif kind == 'sparse':
        s = rng.standard_normal(n) * (rng.random(n) < 0.2)
        s[int(rng.integers(n))] = 1.
    elif kind == 'offset':
        s = rng.standard_normal(n) + 3.
    elif kind == 'positive':
        s = rng.random(n)
    elif kind == 'negative':
        s = -rng.random(n)
    elif kind == 'late':                # silence, then something
        s = rng.standard_normal(n)
        s[:n // 2] = 0.
    elif kind == 'early':
        s = rng.standard_normal(n)
        s[(n + 1) // 2:] = 0.
    elif kind == 'alternating':
        s = (-1.) ** np.arange(n)
    else:
        s = np.repeat(rng.standard_normal(n // 5 + 1), 5)[:n]
    return s * 10. ** rng.uniform(-2, 1)


def signals(rng, c, n):
    """Several channels as they occur: of one or of very different levels,
    some of them silent, equal to another one, or silent for a while."""
    x = rng.standard_normal((c, n))
    m = rng.integers(8)
    if m == 0:
        x = np.array([signal(rng, n) for _ in range(c)]).reshape(c, n)
    elif m == 1:
        x *= 10. ** rng.uniform(-3, 0, (c, 1))
    elif m == 2:
        x[rng.random(c) < .4] = 0
    elif m == 3 and c > 1:
        i = rng.integers(c, size=2)
        x[i[0]] = x[i[1]] * pick(rng, [1, -1, .5])
    elif m == 4:
        a, b = np.sort(rng.integers(0, n + 1, 2))
        x[:, a:b] = 0
    elif m == 5:
        x *= 10. ** (-rng.uniform(0, 4) * np.arange(n) / n)
    return x


def angles3(rng, hi=2 * PI):
    """Yaw, pitch, roll: free, special, tied to each other or cancelling."""
    a = rng.uniform(-hi, hi, 3)
    m = rng.integers(8)
    if rng.random() < .03:
        return np.zeros(3)
    if m == 0:
        a = rng.choice(SPECIAL, 3)
    elif m == 1:
        sel = rng.random(3) < .5
        a[sel] = rng.choice(SPECIAL + [1e-9, -1e-6, 1e-3], sel.sum())
    elif m == 2:                        # sum is zero
        a[int(rng.integers(3))] = 0.
        i = int(rng.integers(3))
        a[i] = 0.
        a[i] = -np.sum(a)
    elif m == 3:                        # equal up to the sign
        a = a[0] * rng.choice([-1., 0., 1.], 3)
    elif m == 4:
        a = a * 10. ** rng.uniform(-10, -1)
    elif m == 5:
        a = PI / 2 * rng.integers(-4, 5, 3)
    elif m == 6:
        a = rng.integers(-3, 4, 3).astype(float)
    return [float(x) for x in a]


def cap(rng, n, half=None):
    """Directions clustered in a cap around some direction (azi, zen)."""
    half = half or rng.uniform(.3, 1.6)
    q, _ = np.linalg.qr(rng.standard_normal((3, 3)))
    c = rng.uniform(np.cos(half), 1, n)
    p = rng.uniform(-PI, PI, n)
    v = np.c_[np.sqrt(1 - c ** 2) * np.cos(p), np.sqrt(1 - c ** 2) *
              np.sin(p), c] @ q.T
    turns = rng.integers(-2, 3, n) if rng.random() < .15 else 0
    return np.arctan2(v[:, 1], v[:, 0]) + 2 * PI * turns, \
        np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])


def cmat(rng, r, c, cplx):
    m = rng.standard_normal((r, c))
    if cplx:
        m = m + 1j * rng.standard_normal((r, c))
    return m


def spd(rng, n, cplx=True, cond=1e3):
    """Hermitian positive definite matrix."""
    q, _ = np.linalg.qr(cmat(rng, n, n, cplx))
    ev = np.exp(rng.uniform(0, np.log(cond), n))
    m = (q * ev) @ q.conj().T
    return (m + m.conj().T) / 2 * 10. ** rng.uniform(-2, 2)


# ---------------------------------------------------- loudspeaker layouts
def ring(n, zen, off=0.):
    a = off + 2 * PI * np.arange(n) / n
    return np.c_[np.sin(zen) * np.cos(a), np.sin(zen) * np.sin(a),
                 np.full(n, np.cos(zen))]


def layout(rng, kind=None, closed=True, nmax=40):
    """(L, 3) loudspeaker positions on the unit sphere (name, dirs)."""
    kinds = ['random', 'rings', 'dome', 'regular']
    if kind is None and nmax >= 24 and chance(rng, .12):
        kind = 'cluster'
    if kind is None and nmax == 40 and chance(rng, .03):
        kind = 'large'
    kind = kind or pick(rng, kinds)
    if kind == 'cluster':           # some of them close together
        v = spread(rng, int(rng.integers(6, 16)))
        k = v[int(rng.integers(len(v)))]
        for _ in range(int(rng.integers(2, 4))):
            w = k + rng.uniform(.05, .2) * vectors_plain(rng, 1)[0]
            w = w / np.linalg.norm(w)
            if np.max(v @ w) < np.cos(.04):
                v = np.vstack([v, w])
    elif kind == 'large':
        v = spread(rng, int(rng.integers(90, 140)), 20)
    elif kind == 'random':
        n = int(rng.integers(6, nmax))
        v = spread(rng, n)
    elif kind == 'rings':
        parts = [ring(int(rng.integers(5, 13)), PI / 2 + 0.02 *
                      rng.standard_normal(), rng.uniform(0, 2)),
                 ring(int(rng.integers(3, 7)), rng.uniform(0.5, 1.0),
                      rng.uniform(0, 2)),
                 ring(int(rng.integers(3, 7)), PI - rng.uniform(0.5, 1.0),
                      rng.uniform(0, 2))]
        if chance(rng, 0.5):
            parts.append(np.array([[0, 0, 1.]]))
        v = np.vstack(parts)
    elif kind == 'dome':
        parts = [ring(int(rng.integers(6, 13)), PI / 2, rng.uniform(0, 2)),
                 ring(int(rng.integers(4, 8)), rng.uniform(0.7, 1.1),
                      rng.uniform(0, 2)), np.array([[0, 0, 1.]])]
        v = np.vstack(parts)
    else:
        g = (1 + 5 ** .5) / 2
        k = rng.integers(3)
        if k == 0:
            v = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0],
                          [0, 0, 1], [0, 0, -1.]])
        elif k == 1:
            v = np.array([[0, s, t * g] for s in (1, -1) for t in (1, -1)])
            v = np.vstack([v, v[:, [1, 2, 0]], v[:, [2, 0, 1]]])
        else:
            v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.]])
            v = np.vstack([v, -v, ]) + 0.
            v += 0.05 * rng.standard_normal(v.shape)
        v = v / np.linalg.norm(v, axis=1)[:, None]
    return v


def spread(rng, n, it=60):
    """Random but reasonably spread points (repulsion), origin inside."""
    v = vectors_plain(rng, n)
    for _ in range(it):
        d = v[:, None] - v[None]
        r = np.sum(d ** 2, -1) + np.eye(n)
        f = np.sum(d / r[..., None] ** 1.5, axis=1)
        v = v + 0.2 / n * f
        v /= np.linalg.norm(v, axis=1)[:, None]
    return v


def vectors_plain(rng, n):
    v = rng.standard_normal((n, 3))
    return v / np.linalg.norm(v, axis=1)[:, None]


def setup_args(rng, v, dist=None):
    """Loudspeaker coordinates with equal / different distances."""
    m = rng.integers(4) if dist is None else dist
    if m == 0:
        d = np.ones(len(v))
    elif m == 1:
        d = np.full(len(v), np.exp(rng.uniform(np.log(.4), np.log(40))))
    else:
        d = rng.uniform(.95, 1.05, len(v)) * np.exp(
            rng.uniform(np.log(.4), np.log(40)))
    if dist is None and chance(rng, .08):     # one that is not on the hull
        d[int(rng.integers(len(v)))] *= .3
    return v * d[:, None]


def hrir_grid(rng, n):
    m = rng.integers(3)
    if m == 0:
        v = spread(rng, n, 20)
    else:
        v = vectors(rng, n)
    turns = rng.integers(-2, 3, n) if rng.random() < .15 else 0
    return np.arctan2(v[:, 1], v[:, 0]) + 2 * PI * turns, \
        np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])
