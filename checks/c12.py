"""C12 loudspeaker hull geometry and its refinement."""
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(2)
D = spa.decoder


def build(ctx, p, **kw):
    r = ctx.rng
    return ctx.call(D.LoudspeakerSetup, gen.vec_variant(r, p[:, 0]),
                    gen.vec_variant(r, p[:, 1]),
                    gen.vec_variant(r, p[:, 2]), **kw)


def faces_of(s):
    return {tuple(sorted(int(i) for i in f)) for f in np.asarray(s)}


def pts(r, **kw):
    return gen.setup_args(r, gen.layout(r, **kw))


@case(150)
def convex_hull(ctx):
    r = ctx.rng
    p = pts(r)
    m = r.integers(3)
    lp = None
    kw = {}
    if m == 1:
        lp = r.uniform(-.15, .15, 3)
        kw = {'listener_position': gen.pick(r, [lp, lp.tolist()])}
    h = build(ctx, p, **kw)
    q = p if lp is None else p - lp
    ctx.cover(f'L={len(p)} listener={m == 1}')
    ctx.close(h.points, q, 1e-10, 'positions relative to the listener')
    ctx.close(np.c_[h.x, h.y, h.z], q, 1e-10, 'coordinates')
    ctx.close(h.d, np.linalg.norm(q, axis=1), 1e-10, 'distances')
    ctx.close(h.listener_position, np.zeros(3), 0, 'listener at the origin')
    ctx.ok(h.npoints == len(p), 'number of loudspeakers')
    S = np.asarray(h.simplices)
    ctx.ok(S.ndim == 2 and S.shape[1] == 3 and h.nsimplex == len(S),
           'triangles')
    ctx.ok(np.all(S[:, 0] == S.min(axis=1)), 'smallest vertex first')
    # closed surface: each edge belongs to two triangles
    edges = {}
    for f in S:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e = tuple(sorted((int(f[a]), int(f[b]))))
            edges[e] = edges.get(e, 0) + 1
    ctx.ok(all(n == 2 for n in edges.values()), 'closed triangulation')
    ctx.ok(len({*S.ravel()}) - len(edges) + len(S) == 2, 'Euler number')
    ctx.ok(set(h.vertices.tolist()) == set(S.ravel().tolist()), 'vertices')
    c = q.mean(axis=0)
    ctx.close(h.barycenter, c, 1e-10, 'barycenter')
    A = np.zeros(len(S))
    for i, f in enumerate(S):
        v = q[f]
        n = np.cross(v[1] - v[0], v[2] - v[0])
        if n @ (v.mean(0) - c) < 0:
            n = -n
        ctx.ok(np.max((q - v[0]) @ n) < 1e-9, 'all points behind each face')
        A[i] = np.linalg.norm(n) / 2
        ctx.close(h.centroids[i], v.mean(0), 1e-10, 'centroid')
        ctx.close(h.face_areas[i], A[i], 1e-10, 'face area')
        ctx.close(h.face_normals[i], n, 1e-9, 'outward face normal')
    for k in range(len(q)):
        on = np.any(S == k, axis=1)
        e = np.sum(A[on, None] * np.asarray(h.face_normals)[on], axis=0)
        ctx.close(h.vertex_normals[k], e, 1e-9, 'vertex normal')
    # the triangles seen from inside the hull cover all directions once
    inside = faces_of(h.valid_simplices)
    for i, f in enumerate(S):
        x = h.centroids[i] @ (h.centroids[i] - c)
        if abs(x) > 1e-9:
            ctx.ok((tuple(sorted(f.tolist())) in inside) == (x > 0),
                   'faces that hide the listener are not valid')


@case(120)
def spherical_constructor(ctx):
    r = ctx.rng
    p = pts(r)
    azi, zen = ref.dirs(p)
    rad = np.linalg.norm(p, axis=1)
    k = int(r.integers(-1, 2))
    kw = {}
    lp = np.zeros(3)
    if gen.chance(r, .4):
        la, lz, lr = [float(x) for x in (r.uniform(-3, 3), r.uniform(0, 3),
                                         r.uniform(0, .2))]
        kw = {'listener_position': gen.pick(r, [(la, lz, lr),
                                                [la, lz, lr]])}
        lp = lr * ref.unit(la, lz)
    if np.ptp(rad) < 1e-12 and gen.chance(r, .5):
        h = ctx.call(D.LoudspeakerSetup.from_sph, azi + 2 * np.pi * k, zen,
                     float(rad[0]), **kw)
    else:
        h = ctx.call(D.LoudspeakerSetup.from_sph, azi + 2 * np.pi * k, zen,
                     rad, **kw)
    ctx.close(h.points, p - lp, 1e-9, 'positions from angles')
    ctx.close(h.d, np.linalg.norm(p - lp, axis=1), 1e-9, 'distances')


@case(150)
def other_positions(ctx):
    """The tests of single limits, for a listener anywhere."""
    r = ctx.rng
    p = pts(r)
    h = build(ctx, p)
    lp = r.uniform(-.6, .6, 3) if gen.chance(r, .8) else np.zeros(3)
    c = p.mean(0)
    S = np.asarray(h.simplices)

    def compare(got, e, what):
        if e is not None:
            ctx.ok(faces_of(got) == e, what, listener=lp,
                   missing=sorted(e - faces_of(got))[:3],
                   extra=sorted(faces_of(got) - e)[:3])

    arg = gen.pick(r, [lp, lp.tolist()])
    e = set()
    near = False
    for f in S:
        m = p[f].mean(0)
        x = (lp - m) @ (c - m)
        near |= abs(x) < 1e-9
        if x >= 0:
            e.add(tuple(sorted(f.tolist())))
    compare(ctx.call(D.check_listener_inside, h, listener_position=arg),
            None if near else e, 'faces that do not hide the listener')
    lim = float(r.uniform(20, 120))
    e, near = set(), False
    for f in faces_of(h.valid_simplices):
        v = p[list(f)]
        n = np.cross(v[1] - v[0], v[2] - v[0])
        n = n if n @ (v.mean(0) - c) > 0 else -n
        x = ref.angle(v.mean(0) - lp, n - lp) - np.deg2rad(lim)
        near |= bool(abs(x) < 1e-6)
        if x < 0:
            e.add(f)
    compare(ctx.call(D.check_normals, h, lim, lp), None if near else e,
            'faces within the normal limit')
    e, near = set(), False
    for f in faces_of(h.valid_simplices):
        v = p[list(f)] - lp
        x = max(ref.angle(v[a], v[b]) for a, b in ((0, 1), (1, 2), (0, 2))) \
            - np.deg2rad(lim)
        near |= bool(abs(x) < 1e-6)
        if x < 0:
            e.add(f)
    compare(ctx.call(D.check_aperture, h, lim, lp), None if near else e,
            'faces within the aperture limit')
    # normalised normals
    n = np.array([np.cross(*(p[f[1:]] - p[f[0]])) for f in S])
    n = n * np.sign(np.sum(n * (p[S].mean(1) - c), 1))[:, None]
    n = n / np.linalg.norm(n, axis=1)[:, None]
    ctx.close(ctx.call(D.calculate_face_normals, h, normalize=True), n, 1e-9,
              'unit face normals')
    vn = np.asarray(h.vertex_normals)
    l = np.linalg.norm(vn, axis=1)[:, None]
    vn = np.where(l > 0, vn / np.where(l > 0, l, 1), 0)
    ctx.close(ctx.call(D.calculate_vertex_normals, h, normalize=True), vn,
              1e-9, 'unit vertex normals')
    ctx.cover(f'listener at {np.round(np.linalg.norm(lp), 1)}')


def model_pop(h, valid, kw):
    """Set of faces that survive, or None if a limit is nearly touched."""
    q = h.points
    c = q.mean(0)
    lims = dict({'normal_limit': 85}, **kw)
    nl, al = lims.get('normal_limit'), lims.get('aperture_limit')
    ol, bl = lims.get('opening_limit'), lims.get('blacklist')
    out = set()
    for f in valid:
        v = q[list(f)]
        n = np.cross(v[1] - v[0], v[2] - v[0])
        if n @ (v.mean(0) - c) < 0:
            n = -n
        keep = True

        def test(angles, lim):
            x = np.max(angles) - np.deg2rad(lim)
            if abs(x) < 1e-6:
                raise ArithmeticError
            return x < 0
        if nl is not None:
            keep &= test([ref.angle(v.mean(0), n)], nl)
        if keep and al is not None:
            keep &= test([ref.angle(v[a], v[b]) for a, b in
                          ((0, 1), (1, 2), (0, 2))], al)
        if keep and ol is not None:
            keep &= test([ref.angle(v[b] - v[a], v[c_] - v[a])
                          for a, b, c_ in ((0, 1, 2), (1, 0, 2),
                                           (2, 0, 1))], ol)
        if keep and bl is not None:
            keep &= not set(bl) <= set(f)
        if keep:
            out.add(f)
    return out


def limits(r, h):
    kw = {}
    for name, lo, hi in (('normal_limit', 5, 100), ('aperture_limit', 20,
                                                    150),
                         ('opening_limit', 60, 170)):
        if gen.chance(r, .5):
            kw[name] = gen.pick(r, [None, float(r.uniform(lo, hi)),
                                    int(r.integers(lo, hi))])
    if gen.chance(r, .4):
        f = h.simplices[int(r.integers(len(h.simplices)))]
        k = int(r.integers(1, 4))
        kw['blacklist'] = [int(x) for x in r.permutation(f)[:k]]
        if gen.chance(r, .2):
            kw['blacklist'] = [int(x) for x in r.integers(
                0, h.npoints, int(r.integers(1, 4)))]
    return kw


@case(250)
def refinement_history(ctx):
    """Any sequence of refinements removes exactly the faces it should."""
    r = ctx.rng
    p = pts(r)
    h = build(ctx, p)
    S0 = faces_of(h.simplices)
    valid = faces_of(h.valid_simplices)
    for step in range(int(r.integers(1, 5))):
        kw = limits(r, h)
        try:
            new = model_pop(h, valid, kw)
        except ArithmeticError:
            continue
        if not new:
            continue
        if not kw and gen.chance(r, .5):
            ctx.call(h.pop_triangles)
        else:
            ctx.call(h.pop_triangles, **kw)
        got = faces_of(h.valid_simplices)
        ctx.ok(len(got) == len(h.valid_simplices), 'no face twice')
        ctx.ok(got == new, 'remaining faces', kwargs=kw,
               missing=sorted(new - got)[:3], extra=sorted(got - new)[:3])
        ctx.cover(f'{sorted(k for k in kw if kw[k] is not None)} '
                  f'{len(valid) - len(new) > 0} step{step}')
        valid = new
        for _ in range(6):
            f = r.permutation(h.npoints)[:3]
            t = tuple(sorted(int(x) for x in f))
            ctx.ok(bool(h.is_simplex_valid(np.array(f))) == (t in valid),
                   'validity of any triangle', f=t)
        g = r.permutation(np.array(gen.pick(r, sorted(S0))))
        ctx.ok(bool(h.is_simplex_valid(g)) ==
               (tuple(sorted(int(x) for x in g)) in valid),
               'validity does not depend on orientation')
    ctx.ok(faces_of(h.simplices) == S0, 'triangulation itself is kept')
    ctx.close(h.points, p, 1e-10, 'positions are kept')


@case(120)
def imaginary_loudspeaker(ctx):
    """Open layouts: added opposite to the remaining faces."""
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, 'dome'), dist=int(r.integers(3)))
    h = build(ctx, p)
    rho = np.mean(h.d)
    keep = [f for f in faces_of(h.valid_simplices)
            if not np.all(p[list(f), 2] < .05 * rho)]
    if gen.chance(r, .7):
        ctx.call(h.pop_triangles, normal_limit=85, aperture_limit=90,
                 opening_limit=150)
    else:
        h.valid_simplices = np.array(sorted(keep))
    V = faces_of(h.valid_simplices)
    edges = {}
    for f in V:
        for a, b in ((0, 1), (1, 2), (0, 2)):
            e = (f[a], f[b])
            edges[e] = edges.get(e, 0) + 1
    rim = [e for e, n in edges.items() if n == 1]
    cnt = {}
    for e in rim:
        for x in e:
            cnt[x] = cnt.get(x, 0) + 1
    if not rim or any(n != 2 for n in cnt.values()):
        return ctx.trivial()
    x = ctx.call(D.find_imaginary_loudspeaker, h)
    x = np.asarray(x).reshape(-1)
    e = np.zeros(3)
    dist = []
    c = p.mean(0)
    for f in V:
        v = p[list(f)]
        n = np.cross(v[1] - v[0], v[2] - v[0])
        n = n if n @ (v.mean(0) - c) > 0 else -n
        e += np.linalg.norm(n) / 2 * n
        dist.append(np.mean(np.linalg.norm(v, axis=1)))
    e = -e / np.mean(dist) ** 3
    ctx.close(x, e, 1e-9, 'imaginary loudspeaker')
    N = int(r.integers(1, 5))
    ctx.call(h.ambisonics_setup, update_hull=True, characteristic_order=2,
             N_kernel=N)
    a = h.ambisonics_hull
    ctx.close(a.points, np.vstack([p, e]), 1e-9,
              'Ambisonics layout is the layout plus the imaginary one')
    ctx.ok(np.ravel(a.imaginary_ls_idx).tolist() == [len(p)],
           'index of the imaginary loudspeaker')
    ctx.ok(h.characteristic_order == 2 and
           h.kernel_hull.N_kernel == N, 'orders of the setup')
    ctx.cover(f'imaginary L={len(p)}')


@case(100)
def ambisonics_setup_options(ctx):
    r = ctx.rng
    p = pts(r)
    h = build(ctx, p)
    nim = int(r.integers(0, 4))
    N = int(r.integers(1, 6))
    order = int(r.integers(0, 6))
    if gen.chance(r, .4):             # prepared before
        k = int(r.integers(0, 3))
        ctx.call(h.ambisonics_setup, update_hull=k > 0,
                 imaginary_ls=gen.vectors(r, k) * 1.3 * np.max(h.d)
                 if k else None, N_kernel=int(r.integers(1, 6)),
                 characteristic_order=int(r.integers(1, 6)))
        ctx.cover('prepared again')
    V0 = faces_of(h.valid_simplices)
    if nim:
        im = gen.vectors(r, nim) * 1.3 * np.max(h.d)
        arg = im[0] if nim == 1 and gen.chance(r, .5) else im
        ctx.call(h.ambisonics_setup, update_hull=True, imaginary_ls=arg,
                 characteristic_order=order, N_kernel=N)
        e = np.vstack([p, im])
        idx = list(range(len(p), len(e)))
    else:
        ctx.call(h.ambisonics_setup, characteristic_order=order, N_kernel=N)
        e, idx = p, None
    a = h.ambisonics_hull
    ctx.close(a.points, e, 1e-10, 'Ambisonics layout')
    ctx.ok((a.imaginary_ls_idx is None) if idx is None else
           np.ravel(a.imaginary_ls_idx).tolist() == idx,
           'imaginary loudspeaker indices')
    ctx.close(h.points, p, 1e-10, 'own positions untouched')
    ctx.ok(faces_of(h.valid_simplices) == V0, 'own faces untouched')
    ctx.ok(h.kernel_hull.N_kernel == N, 'order of the kernel')
    k = h.kernel_hull.points
    m = ref.sh(2 * N, *ref.dirs(k)).mean(axis=0) * np.sqrt(4 * np.pi)
    ctx.close(m, np.eye((2 * N + 1) ** 2)[0], 1e-7,
              'kernel samples the sphere for twice its order')
    ctx.ok(h.get_characteristic_order() == order, 'order as requested')
    ctx.cover(f'setup im={nim} N={N}')


@case(120)
def closed_hull_has_no_rim(ctx):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, gen.pick(r, ['random', 'regular',
                                                     'rings'])),
                       dist=int(r.integers(2)))
    h = build(ctx, p)
    if len(h.valid_simplices) != len(h.simplices):
        return ctx.trivial()
    ctx.raises(D.find_imaginary_loudspeaker, h, _what='a closed layout')


@case(120)
def characteristic_order(ctx):
    """Order from the average spread of panned sources."""
    r = ctx.rng
    kind = gen.pick(r, ['random', 'rings', 'regular'])
    p = gen.setup_args(r, gen.layout(r, kind), dist=int(r.integers(2)))
    h = build(ctx, p)
    if len(h.valid_simplices) != len(h.simplices):
        return ctx.trivial()
    u = p / np.linalg.norm(p, axis=1)[:, None]
    spread = []
    for f in faces_of(h.simplices):
        v = u[list(f)]
        s = p[list(f)].mean(0)
        g = np.linalg.solve(v.T, s)
        E = (g ** 2) @ v / np.sum(g ** 2)
        spread.append(2 * np.degrees(np.arccos(min(1, np.linalg.norm(E)))))
    x = 2 * 137.9 / np.mean(spread) - 1.51
    if abs(x - round(x)) < 1e-6:
        return ctx.trivial()
    e = int(np.ceil(x))
    if gen.chance(r, .4):             # it does not depend on refinements
        h.pop_triangles(**limits(r, h))
        ctx.cover('order after refinement')
    ctx.ok(ctx.call(D.characteristic_ambisonic_order, h) == e,
           'characteristic order', expected=e)
    if e >= 1:
        ctx.ok(ctx.call(h.get_characteristic_order) == e,
               'characteristic order of the setup', expected=e)
        ctx.call(h.ambisonics_setup, N_kernel=3)
        ctx.ok(h.characteristic_order == e, 'order used for rendering')
    ctx.close(h.points, p, 1e-10, 'positions untouched')
    ctx.cover(f'order {e}')
