"""C14 rendering does not depend on what was rendered before."""
import warnings
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(4)
D = spa.decoder


class Model:
    """A long-lived setup and the configuration a fresh one has to get."""

    def __init__(self, ctx):
        r = ctx.rng
        self.p = gen.setup_args(r, gen.layout(r, gen.pick(
            r, ['random', 'dome', 'rings', 'regular']), nmax=20))
        self.ops = []
        self.h = D.LoudspeakerSetup(*self.p.T)
        self.order = None

    def fresh(self):
        with quiet():
            h = D.LoudspeakerSetup(*self.p.T)
            for name, kw in self.ops:
                if name == 'a':
                    h.a = kw
                else:
                    getattr(h, name)(**kw)
        return h

    def configure(self, ctx):
        """A change of the configuration, applied to the living object."""
        r = ctx.rng
        h = self.h
        k = r.integers(6)
        if k == 0:
            kw = {}
            if gen.chance(r, .6):
                kw['normal_limit'] = float(r.uniform(60, 90))
            if gen.chance(r, .6):
                kw['aperture_limit'] = float(r.uniform(80, 130))
            if gen.chance(r, .4):
                kw['opening_limit'] = float(r.uniform(110, 170))
            with quiet():
                t = self.fresh()
                t.pop_triangles(**kw)
            if len(t.valid_simplices) < 3:
                return None
            ctx.call(h.pop_triangles, **kw)
            self.ops.append(('pop_triangles', kw))
            return 'pop'
        if k == 1:
            h.a = gen.pick(r, [0, 1, 2, .5, 3, 6])
            self.ops.append(('a', h.a))
            return 'exponent'
        kw = {'N_kernel': int(r.integers(1, 5))}
        auto = self.order is None and gen.chance(r, .4)
        if auto:                # the order that a fresh setup would get
            try:
                with quiet():
                    kw['characteristic_order'] = \
                        self.fresh().get_characteristic_order()
            except ValueError:
                return None
        elif gen.chance(r, .8) or self.order is None:
            kw['characteristic_order'] = int(r.integers(1, 5))
        else:
            # keeps the order chosen before
            kw['characteristic_order'] = self.order
        m = r.integers(3)
        if m == 1:
            im = gen.vectors(r, int(r.integers(1, 3))) * \
                np.mean(h.d) * 1.2
            # away from the loudspeakers
            if np.min(ref.angle(im[:, None], self.p[None])) < .2:
                return None
            kw.update(update_hull=True, imaginary_ls=im)
        elif m == 2:
            try:
                with quiet():
                    self.fresh().ambisonics_setup(update_hull=True, **kw)
            except Exception:
                return None
            kw.update(update_hull=True)
        call = dict(kw)
        self.order = kw['characteristic_order']
        if auto:
            del call['characteristic_order']
        elif kw['characteristic_order'] == self.order and \
                h.characteristic_order == self.order and gen.chance(r, .4):
            del call['characteristic_order']
        ctx.call(h.ambisonics_setup, **call)
        self.ops = [o for o in self.ops if o[0] != 'ambisonics_setup']
        # the updated hull depends on the faces that were valid by then
        self.ops.append(('ambisonics_setup', kw))
        return f'setup{m}'


def query(ctx, m, world):
    """(name, function of a setup) for one randomly chosen rendering."""
    r = ctx.rng
    n = int(r.integers(1, 7))
    s = gen.vectors(r, n)
    h = m.h
    ready = m.order is not None
    names = ['vbap', 'vbap_norm', 'vbip', 'vbap_simplices', 'nls',
             'sad', 'mad', 'epad', 'binauralize', 'signals', 'valid',
             'geometry', 'order']
    if ready:
        names += ['allrap', 'allrap2', 'allrad', 'allrad2', 'default_order',
                  'allrap', 'allrad', 'sad_default']
        if h.ambisonics_hull.imaginary_ls_idx is not None:
            names += ['retain', 'retain_vbip', 'retain']
    q = gen.pick(r, names)
    N = int(r.integers(1, 5))
    F = r.standard_normal(((N + 1) ** 2, n))
    if q == 'vbap':
        return q, lambda x: D.vbap(s, x)
    if q == 'vbap_norm':
        k = gen.pick(r, [1, 2, np.inf, 3])
        return q, lambda x: D.vbap(s, x, norm=k)
    if q == 'vbip':
        return q, lambda x: D.vbip(s, x)
    if q == 'vbap_simplices':
        V = np.asarray(h.simplices if gen.chance(r, .4)
                       else h.valid_simplices)
        k = int(r.integers(1, len(V) + 1))
        if getattr(m, 'taken', 99) <= len(V) and gen.chance(r, .6):
            k = m.taken                  # another choice of the same size
        m.taken = k
        V = V[r.permutation(len(V))[:k]]
        f = gen.pick(r, [D.vbap, D.vbip])
        return q, lambda x: f(s, x, valid_simplices=V.copy())
    if q == 'nls':
        return q, lambda x: D.nearest_loudspeaker(s, x)
    if q in ('sad', 'mad', 'epad'):
        f = getattr(D, q)
        return q, lambda x: f(F, x, N_sph=N)
    if q == 'sad_default':
        G = r.standard_normal(((m.order + 1) ** 2, n))
        f = gen.pick(r, [D.sad, D.mad, D.epad])
        return q, lambda x: f(G, x)
    if q == 'binauralize':
        hr = world['hrirs']
        sg = r.standard_normal((len(m.p), 4))
        return q, lambda x: x.binauralize(sg, 48000, hrirs=hr)
    if q == 'signals':
        g = r.standard_normal((n, len(m.p)))
        return q, lambda x: x.loudspeaker_signals(g)
    if q == 'valid':
        f = r.permutation(len(m.p))[:3]
        return q, lambda x: (np.asarray(x.valid_simplices),
                             int(x.is_simplex_valid(f)))
    if q == 'order':
        def f(x):
            try:
                return x.get_characteristic_order()
            except ValueError:
                return -1
        return q, f
    if q == 'geometry':
        return q, lambda x: (x.points, x.d, x.centroids, x.face_areas,
                             x.face_normals, x.vertex_normals,
                             x.barycenter, x.simplices, x.ls_gains)
    if q in ('allrap', 'allrap2'):
        f = getattr(D, q)
        return q, lambda x: f(s, x, N_sph=N)
    if q in ('allrad', 'allrad2'):
        f = getattr(D, q)
        return q, lambda x: f(F, x, N_sph=N)
    if q == 'default_order':
        f = gen.pick(r, [D.allrap, D.allrap2])
        return q, lambda x: f(s, x)
    f = D.vbap if q == 'retain' else D.vbip
    return q, lambda x: f(s, x, retain_outside=True)


def setup(ctx):
    with quiet():
        ctx.world = {'hrirs': spa.io.load_hrirs(48000, filename='dummy')}


@case(110)
def long_lived_setups(ctx):
    """Interleaved configuration and rendering of one to three setups."""
    r = ctx.rng
    models = [Model(ctx) for _ in range(int(r.integers(1, 4)))]
    prev = None
    for step in range(int(r.integers(6, 22))):
        if prev is None or gen.chance(r, .6):
            m = gen.pick(r, models)
        if gen.chance(r, .25):
            c = m.configure(ctx)
            if c:
                prev = c
            continue
        name, f = query(ctx, m, ctx.world)
        got = ctx.call(f, m.h, _pure=False, _mut=False)
        with quiet():
            exp = f(m.fresh())
        got = got if isinstance(got, tuple) else (got,)
        exp = exp if isinstance(exp, tuple) else (exp,)
        for g, e in zip(got, exp):
            ctx.close(g, e, 1e-9, f'{name}: same as with a new setup of the '
                      'same configuration', history=m.ops, after=prev)
        ctx.cover(f'{prev}>{name}')
        prev = name


@case(120)
def order_before_preparation(ctx):
    """Asking for the characteristic order settles nothing."""
    r = ctx.rng
    v = gen.layout(r, gen.pick(r, ['random', 'dome', 'rings', 'regular']),
                   nmax=20)
    p = v * r.uniform(.4, 2.5, (len(v), 1))
    h, f = D.LoudspeakerSetup(*p.T), D.LoudspeakerSetup(*p.T)

    def order(x):
        try:
            with quiet():
                return x.get_characteristic_order()
        except ValueError:
            return -1
    a = order(h)
    for x in (h, f):
        x.a = gen.pick(r, [3, 4, 6]) if x is h else h.a
    n = order(h)
    e = order(f)
    ctx.ok(n == e, 'characteristic order as with a new setup', n=n, new=e)
    ctx.ok(h.characteristic_order is None, 'not prepared by a query')
    if 0 < n <= 10:             # one loudspeaker may outweigh all others
        for x in (h, f):
            ctx.call(x.ambisonics_setup, N_kernel=2)
        ctx.ok(h.characteristic_order == f.characteristic_order,
               'order of the prepared setup')
        s = gen.vectors(r, 5)
        ctx.close(ctx.call(D.allrap2, s, h), ctx.call(D.allrap2, s, f),
                  1e-9, 'rendered with this order')
    ctx.cover(f'changed={a != n} order={min(n, 6)}')


@case(60)
def batches(ctx):
    """Rendering in one batch, in pieces and one by one is the same."""
    r = ctx.rng
    m = Model(ctx)
    for _ in range(3):
        m.configure(ctx)
    if m.order is None:
        return ctx.trivial()
    n = gen.pick(r, [2, 3, 9, 10, 11, 17])
    s = gen.vectors(r, n)
    N = int(r.integers(1, 4))
    F = r.standard_normal(((N + 1) ** 2, n))
    cut = int(r.integers(1, n))
    for f in (D.vbap, D.vbip, D.nearest_loudspeaker):
        g = ctx.call(f, s, m.h)
        p = np.vstack([ctx.call(f, s[:cut], m.h),
                       ctx.call(f, s[cut:], m.h)])
        ctx.close(p, g, 1e-9, f'{f.__name__} in two batches')
    for f in (D.allrap, D.allrap2):
        g = ctx.call(f, s, m.h, N_sph=N)
        p = np.vstack([ctx.call(f, s[:cut], m.h, N_sph=N),
                       ctx.call(f, s[cut:], m.h, N_sph=N)])
        ctx.close(p, g, 1e-9, f'{f.__name__} in two batches')
    for f in (D.allrad, D.allrad2, D.sad, D.mad, D.epad):
        g = ctx.call(f, F, m.h, N_sph=N)
        p = np.hstack([ctx.call(f, F[:, :cut], m.h, N_sph=N),
                       ctx.call(f, F[:, cut:], m.h, N_sph=N)])
        ctx.close(p, g, 1e-9, f'{f.__name__} in two blocks')
        a, b = r.uniform(-2, 2, 2)
        F2 = r.standard_normal(F.shape)
        ctx.close(ctx.call(f, a * F + b * F2, m.h, N_sph=N),
                  a * g + b * ctx.call(f, F2, m.h, N_sph=N), 1e-9,
                  f'{f.__name__} is linear')
    ctx.cover(f'n={n} im={m.h.ambisonics_hull.imaginary_ls_idx is not None}')
