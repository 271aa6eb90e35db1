"""C30 plots show the data."""
import inspect
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import spaudiopy as spa
from vmon import gen, ref, drawn
from vmon.core import registry, quiet

CASES, case = registry(3)
D, PL = spa.decoder, spa.plot


def texts():
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        out += [f.get_suptitle()] + [a.get_title() for a in f.axes]
    return out


def show(ctx, f, *a, **kw):
    can = f is PL.spectrum or 'title' in inspect.signature(f).parameters
    t = None
    if can and 'title' not in kw and gen.chance(ctx.rng, .3):
        t = kw['title'] = gen.pick(ctx.rng, ['A title', 'x_1', '100 %'])
    y = ctx.call(f, *a, _pure=False, **kw)
    if t:
        k = plt.gcf().number
        ctx.ok(any(t in x for x in texts()), 'title', titles=texts())
        plt.figure(k)
    return y


def lines(ax):
    """Curves with data, without legend helpers."""
    return [l for l in ax.lines if len(l.get_xdata()) > 2]


def db(x):
    return 20 * np.log10(np.maximum(np.abs(x), 1e-14))


def smoothed(a, s):
    f = 2. ** (1 / (2 * s))
    y = np.zeros(len(a))
    for k in range(len(a)):
        lo, hi = int(np.floor(k / f)), min(max(int(np.ceil(k * f)), 1),
                                           len(a))
        w = np.hamming(hi - lo)
        y[k] = w @ a[lo:hi] / w.sum()
    return y


def an_ax(r, proj=None, p=.4):
    if gen.chance(r, p):
        f, ax = plt.subplots(1, 2, subplot_kw=dict(projection=proj)
                             if proj else None)
        return {'ax': ax[int(r.integers(2))]}
    return {}


def axes_of(kw, k=0):
    return kw['ax'] if 'ax' in kw else plt.gcf().axes[k]


@case(40)
def spectra(ctx):
    r = ctx.rng
    n = gen.pick(r, [8, 16, 33, 100, 255])
    c = gen.pick(r, [1, 1, 2, 4])
    fs = gen.pick(r, [44100, 48000])
    x = [gen.signal(r, n, 'noise') for _ in range(c)]
    with drawn.record():
        kw = an_ax(r)
        time = gen.chance(r, .5)
        if time:
            scale = bool(gen.chance(r, .5))
            if scale:
                kw['scale_mag'] = True
            e = [np.abs(np.fft.rfft(s)) * (1. if scale else 2 / n)
                 for s in x]
            for v in e:
                v[0] /= 2
            f = np.fft.rfftfreq(n, 1 / fs)
        else:
            f = np.linspace(0, fs / 2, n)
            x = [v * np.exp(1j * r.uniform(0, 6, n)) if gen.chance(r, .5)
                 else v for v in x]
            if gen.chance(r, .2):
                x[0][0] = 0
            e = [np.abs(v) for v in x]
        todb = True
        if gen.chance(r, .4):
            todb = kw['TODB'] = bool(gen.chance(r, .4))
        if not todb and not time:
            x = e
        if todb:
            e = [db(v) for v in e]
        s = None
        if gen.chance(r, .4):
            s = kw['smoothing_n'] = gen.pick(r, [1, 3, 6])
            e = [smoothed(v, s) for v in e]
        lab = None
        if gen.chance(r, .5):
            lab = kw['labels'] = [f'L{i}' for i in range(c)]
        if c == 1 and lab and gen.chance(r, .5):
            kw['labels'] = lab[0]
        if gen.chance(r, .3):
            kw['ylim'] = gen.pick(r, [50, (-7., 3.), (-60, 0)])
        if gen.chance(r, .3):
            kw['xlim'] = (100, 9000)
        data = x[0] if c == 1 and gen.chance(r, .5) else x
        if not time and gen.chance(r, .3) and isinstance(data, list):
            data = tuple(data)
        if time:
            show(ctx, PL.spectrum, data, fs, **kw)
        else:
            show(ctx, PL.freq_resp, f, data, **kw)
        ax = axes_of(kw)
        L = lines(ax)
        ctx.ok(len(L) == c, 'one curve each', found=len(L))
        for l, v in zip(L, e):
            ctx.close(np.asarray(l.get_xdata()), f, 1e-9, 'frequencies')
            ctx.close(np.asarray(l.get_ydata()), v, 1e-9, 'magnitudes')
        ctx.ok(ax.get_xscale() == 'log', 'logarithmic frequency')
        yl = kw.get('ylim', 30)
        if isinstance(yl, int):
            top = max(np.max(v) for v in e)
            yl = (top - yl, top)
        ctx.close(np.array(ax.get_ylim()), np.array(yl, float), 1e-9,
                  'range of magnitudes')
        ctx.close(np.array(ax.get_xlim(), float),
                  np.array(kw.get('xlim', (20, 24000)), float), 1e-9,
                  'range of frequencies')
        if lab:
            t = [q.get_text() for q in ax.get_legend().get_texts()]
            ctx.ok(t[:c] == lab, 'labels', labels=t)
    ctx.cover(f'spectrum time={time} db={todb} smooth={s} c={c}')


@case(20)
def transfer(ctx):
    r = ctx.rng
    n = gen.pick(r, [3, 20, 129])
    f = np.linspace(1, 20000, n)
    H = gen.cmat(r, 1, n, True)[0] * 10. ** r.uniform(-3, 3)
    with drawn.record():
        show(ctx, PL.transfer_function, f, H)
        a = plt.gcf().axes
        ctx.ok(len(a) == 2, 'magnitude and phase axes')
        m, p = lines(a[0])[0], lines(a[1])[0]
        ctx.close(np.asarray(m.get_ydata()), db(H), 1e-9, 'magnitude in dB')
        y = np.asarray(p.get_ydata())
        ctx.close(np.exp(1j * y), H / np.abs(H), 1e-9, 'phase')
        ctx.ok(np.all(np.abs(np.diff(y)) <= np.pi + 1e-9), 'continuous')
        for l in (m, p):
            ctx.close(np.asarray(l.get_xdata()), f, 0, 'frequencies')
    # zeros and poles of a filter
    z = gen.cmat(r, 1, int(r.integers(1, 5)), True)[0]
    q = gen.cmat(r, 1, int(r.integers(1, 5)), True)[0]
    with drawn.record():
        b, a = np.poly(z), np.poly(q)
        show(ctx, PL.zeropole, b, a, zPlane=bool(gen.chance(r, .5)))
        ax = plt.gcf().axes[0]
        s = [c for c in ax.collections if len(c.get_offsets())]
        lab = [c.get_label() for c in s]
        ctx.ok(sorted(lab) == ['Poles', 'Zeros'], 'zeros and poles')
        for c in s:
            o = np.asarray(c.get_offsets()) @ np.array([1, 1j])
            e = z if c.get_label() == 'Zeros' else q
            ctx.ok(len(o) == len(e), 'all of them')
            for v in e:
                ctx.close(np.min(np.abs(o - v)), 0., 1e-5, 'roots')
    ctx.cover(f'transfer {n}')


@case(10)
def ambisonic_formats(ctx):
    r = ctx.rng
    n, fs = gen.pick(r, [5, 100]), gen.pick(r, [44100, 48000])
    x, y = r.standard_normal((2, 4, n))
    A = spa.sig.MultiSignal([*x], fs=fs)
    B = spa.sig.AmbiBSignal([*y], fs=fs)
    with drawn.record():
        show(ctx, PL.compare_ambi, A, B)
        for ax, d in zip(plt.gcf().axes, (x, y)):
            L = lines(ax)
            ctx.ok(len(L) == 4, 'four channels')
            for l, v in zip(L, d):
                ctx.close(np.asarray(l.get_ydata()), v, 0, 'channel')
                ctx.close(np.asarray(l.get_xdata()), np.arange(n) / fs,
                          1e-12, 'time')


@case(24)
def balloon(ctx):
    """A sampled function as points at radius |f|."""
    r = ctx.rng
    v = gen.spread(r, int(r.integers(8, 60)), 20)
    azi, zen = ref.dirs(v)
    if gen.chance(r, .3):
        azi = azi % (2 * np.pi)
    f = r.uniform(.2, 2, len(v)) * r.choice([-1, 1], len(v))
    g = f.astype(complex) if gen.chance(r, .3) else f
    with drawn.record() as rec:
        kw = an_ax(r, '3d')
        show(ctx, PL.spherical_function, gen.vec_variant(r, g)
             if g is f else g, gen.vec_variant(r, azi),
             gen.vec_variant(r, zen), **kw)
        ax = axes_of(kw)
        s = [c for c in rec.of('scatter') if c['ax'] is ax]
        ctx.ok(len(s) == 1, 'one set of points')
        s = s[0]['result']
        ctx.close(drawn.points3(s), v * np.abs(f)[:, None], 1e-9,
                  'points at radius |f|')
        ctx.close(np.asarray(s.get_array(), float), f, 1e-9,
                  'coloured by f')
        lo, hi = s.get_clim()
        ctx.ok(lo <= f.min() + 1e-9 and hi >= f.max() - 1e-9,
               'colour range holds all values')
    ctx.cover(f'balloon {g.dtype.kind}')


def surface(ctx, c, F, typ):
    """The surface of a function of coefficients F."""
    X = [np.asarray(v, float) for v in c['args'][:3]]
    p = np.stack([v.ravel() for v in X], -1)
    m = np.linalg.norm(p, axis=1)
    sel = m > 1e-6 * max(1, m.max())
    azi, zen = ref.dirs(p[sel])
    N = int(np.sqrt(len(F))) - 1
    f = ref.sh(N, azi, zen, typ) @ F
    ctx.close(m[sel], np.abs(f), 1e-6, 'radius is the magnitude')
    # no part of the sphere is missing
    u = p[sel] / m[sel][:, None]
    for e in np.r_[np.eye(3), -np.eye(3)]:
        k = ref.sh(N, *ref.dirs(e), typ) @ F
        if abs(k[0]) > .2 * m.max():
            ctx.ok(np.max(u @ e) > .9, 'whole sphere')
    return f, sel


@case(24)
def functions_of_coefficients(ctx):
    r = ctx.rng
    n = gen.pick(r, [1, 2, 3])
    step = {'azi_steps': 20, 'el_steps': 15}
    Fs, ty = [], []
    kind = gen.pick(r, ['single', 'subplot', 'overlay'])
    typ = gen.pick(r, [None, None, 'real', 'complex'])
    for _ in range(1 if kind == 'single' else n):
        N = int(r.integers(0, 5))
        cplx = gen.chance(r, .4)
        Fs.append(gen.cmat(r, 1, (N + 1) ** 2, cplx)[0])
        ty.append(typ or ('complex' if cplx else 'real'))
    with drawn.record() as rec:
        kw = dict(step)
        if typ:
            kw['sh_type'] = typ
        if kind == 'single':
            kw.update(an_ax(r, '3d'))
            F = Fs[0]
            show(ctx, PL.sh_coeffs, gen.vec_variant(r, F)
                 if len(F) > 1 else F, **kw)
        elif kind == 'subplot':
            names = None
            if gen.chance(r, .5):
                names = kw['titles'] = [f'no {i}' for i in range(n)]
            if gen.chance(r, .3):
                kw['title'] = 'all of them'
            if gen.chance(r, .2):
                kw['cbar'] = False
            show(ctx, PL.sh_coeffs_subplot, [*Fs], **kw)
            if 'title' in kw:
                ctx.ok('all of them' in texts(), 'title')
        else:
            show(ctx, PL.sh_coeffs_overlay, [*Fs], **kw)
        s = rec.of('plot_surface')
        ctx.ok(len(s) == len(Fs), 'one surface each', found=len(s))
        if kind == 'subplot':
            ctx.ok(len({id(c['ax']) for c in s}) == len(Fs),
                   'each in its own axes')
            x0 = [c['ax'].get_position().x0 for c in s]
            ctx.ok(np.all(np.diff(x0) > 0), 'from left to right', x0=x0)
            if names:
                ctx.ok([c['ax'].get_title() for c in s] == names,
                       'names of the functions')
        if kind == 'single' and 'ax' in kw:
            ctx.ok(s[0]['ax'] is kw['ax'], 'in the given axes')
        for c, F, t in zip(s, Fs, ty):
            f, sel = surface(ctx, c, F, t)
            if kind != 'overlay':
                col = np.asarray(c['kw']['facecolors']).reshape(-1, 4)[sel]
                far = np.abs(f) > .02 * np.max(np.abs(f))
                e = matplotlib.colormaps['hsv'](
                    (np.angle(f) + np.pi) / (2 * np.pi))
                ctx.close(col[far, :3], e[far, :3], .06,
                          'colour is the phase')
    ctx.cover(f'coeffs {kind} n={n} {sorted(set(ty))}')


@case(20)
def beamformer_map(ctx):
    r = ctx.rng
    N = int(r.integers(0, 4))
    K = (N + 1) ** 2
    cplx = gen.chance(r, .3)
    n = gen.pick(r, [1, 2, 50, 1000])
    if ctx._i % 5 == 0:
        n = gen.pick(r, [65535, 65536, 65537, 70000, 131072, 131073])
        K, N = 4, 1
    F = gen.cmat(r, K, n, cplx)
    if n > 60000:                 # energy anywhere in the signal
        F *= 1e-3
        F[:, -1] += 30 * r.standard_normal(K)
        F[:, int(r.integers(n))] += 30 * r.standard_normal(K)
    kw = {}
    typ = 'complex' if cplx else 'real'
    if gen.chance(r, .3):
        typ = kw['sh_type'] = gen.pick(r, ['real', 'complex'])
    w = np.ones(N + 1)
    with quiet():
        w = spa.sph.hypercardioid_modal_weights(N)
    if gen.chance(r, .5):
        w = kw['w_n'] = r.uniform(.1, 1, N + 1)
    todb = bool(gen.chance(r, .4))
    if todb:
        kw['TODB'] = True
    kw['n_plot'] = gen.pick(r, [5, 9, 20])
    if gen.chance(r, .3):
        u = ref.dirs(gen.spread(r, 40, 5))
        m = ref.sh(N, *u, typ) * np.repeat(w, 2 * np.arange(N + 1) + 1)
        m = np.sqrt(sum(np.sum(np.abs(m @ F[:, q:q + 4096]) ** 2, axis=1)
                        for q in range(0, n, 4096)) / n)
        m = np.median(20 * np.log10(m) if todb else m)
        kw['clim'] = gen.pick(r, [(m - .1, m + .1), [None, m + 1.],
                                  (m - 1., None)])
    with drawn.record() as rec:
        kw.update(an_ax(r))
        show(ctx, PL.sh_rms_map, F, **kw)
        c = rec.of('tricontourf')
        ctx.ok(len(c) == 1, 'one map')
        ctx.ok(c[0]['ax'] is axes_of(kw), 'in the given axes')
        a, z, v = (np.asarray(q, float) for q in c[0]['args'][:3])
        ctx.ok(len(a) >= 6, 'samples of the map')
        Y = ref.sh(N, a, z, typ) * np.repeat(w, 2 * np.arange(N + 1) + 1)
        e = np.zeros(len(a))
        for s in range(0, n, 4096):
            e += np.sum(np.abs(Y @ F[:, s:s + 4096]) ** 2, axis=1)
        e = np.sqrt(e / n)
        if todb:
            e = 20 * np.log10(e)
        ctx.close(v, e, 1e-7, 'RMS of the beamformers')
        if 'clim' in kw or not todb:
            lo, hi = c[0]['result'].get_clim()
            q = kw.get('clim', (None, None))
            if q[0] is not None:
                ctx.close(lo, q[0], 1e-9, 'lower limit')
            elif not todb:
                ctx.close(lo, 0., 1e-9, 'lower limit')
            if q[1] is not None:
                ctx.close(hi, q[1], 1e-9, 'upper limit')
    ctx.cover(f'map N={N} n={n > 65536} db={todb} {typ}')


@case(20)
def function_map(ctx):
    r = ctx.rng
    v = gen.spread(r, int(r.integers(8, 60)), 10)
    azi, zen = ref.dirs(v)
    wrap = gen.chance(r, .5)
    a = azi % (2 * np.pi) if wrap else azi
    f = r.uniform(.01, 3, len(v))
    kw = {}
    if gen.chance(r, .5):
        kw['TODB'] = True
    if gen.chance(r, .3):
        kw['clim'] = (-1., 2.)
    e = 20 * np.log10(f) if 'TODB' in kw else f
    with drawn.record() as rec:
        kw.update(an_ax(r))
        show(ctx, PL.spherical_function_map, gen.vec_variant(r, f),
             gen.vec_variant(r, a), gen.vec_variant(r, zen), **kw)
        s = rec.of('scatter')
        ctx.ok(len(s) == 1 and s[0]['ax'] is axes_of(kw), 'one set')
        s = s[0]['result']
        ctx.close(np.asarray(s.get_offsets()), np.c_[azi, zen], 1e-9,
                  'directions')
        ctx.close(np.asarray(s.get_array(), float), e, 1e-9, 'values')
        if 'clim' in kw:
            ctx.close(np.array(s.get_clim()), np.array(kw['clim']), 1e-9,
                      'limits')
        t = rec.of('tricontourf')[0]['args']
        ctx.close(np.array([np.asarray(q, float) for q in t[:3]]),
                  np.array([azi, zen, e]), 1e-9, 'contours')
    ctx.cover(f'fmap {wrap} {sorted(kw)}')


@case(16)
def bars(ctx):
    r = ctx.rng
    N, G = int(r.integers(0, 4)), gen.pick(r, [1, 1, 2, 3])
    L = (N + 1) ** 2
    C = G * int(r.integers(1, 4))
    x = 10. ** r.uniform(-3, 2, (C, L)) * r.choice([-1, 1], (C, L))
    if x.size == 1:
        x = np.hstack([x, 2 * x])
        L = 2
    kw = {}
    todb = True
    if gen.chance(r, .5):
        todb = kw['TODB'] = bool(gen.chance(r, .4))
    if G > 1:
        kw['num_groups'] = G
    clim = None
    e = 20 * np.log10(np.abs(x)) if todb else x
    if gen.chance(r, .4):
        clim = kw['clim'] = (-20., 35.)
    cen = gen.chance(r, .2)
    if cen:
        m = np.max(np.abs(e))
        kw.update(centered=True, clim=(-m, m))
        clim = (-m, m)
    if gen.chance(r, .3):
        kw['title'] = 'some bars'
    d = x.tolist() if gen.chance(r, .3) else x
    if C == 1 and gen.chance(r, .5):
        d = x[0]
    with drawn.record():
        kw.update(an_ax(r))
        show(ctx, PL.sh_bar, d, **kw)
        ax = axes_of(kw)
        o = np.vstack([np.asarray(c.get_offsets()) for c in ax.collections])
        k = np.vstack([c.get_facecolor() for c in ax.collections])
        ctx.ok(len(o) == C * L, 'one mark per value', found=len(o))
        lo, hi = clim or (e.min(), e.max())
        q = matplotlib.colormaps['RdYlBu_r'](
            np.clip((e - lo) / (hi - lo), 0, 1))
        order = np.lexsort((o[:, 1], o[:, 0]))
        o, k = o[order], k[order]
        ctx.close(o[:, 1], np.tile(np.arange(L), C), 1e-9, 'channels')
        x0 = o[::L, 0]
        ctx.ok(np.all(np.diff(x0) > 0) and np.all(
            np.floor(x0 + .5) == np.repeat(np.arange(C // G), G)),
            'groups in order')
        ctx.close(k[:, :3], q.reshape(-1, 4)[:, :3], .03, 'colours')
        if 'title' in kw:
            ctx.ok(ax.get_title() == 'some bars', 'title')
    ctx.cover(f'bars G={G} {sorted(kw)}')


def tris(t):
    return sorted(tuple(sorted(int(v) for v in q)) for q in t)


def setup(ctx):
    ctx.none = None


def a_setup(r):
    s = D.LoudspeakerSetup(*gen.setup_args(r, gen.layout(r, nmax=18)).T)
    with quiet():
        if gen.chance(r, .6):
            s.pop_triangles(normal_limit=gen.pick(r, [85, 60]),
                            aperture_limit=gen.pick(r, [90, 60]),
                            opening_limit=gen.pick(r, [135, 100]))
    return s


@case(24)
def hulls(ctx):
    r = ctx.rng
    s = a_setup(r)
    S = np.asarray(s.simplices)
    V = set(tris(s.valid_simplices))
    if not V:
        return ctx.trivial()
    kw = {}
    mark = True
    if gen.chance(r, .4):
        mark = kw['mark_invalid'] = bool(gen.chance(r, .5))
    sel = np.array([t in V or not mark for t in
                    (tuple(sorted(int(v) for v in q)) for q in S)])
    col = None
    if gen.chance(r, .6):
        col = kw['color'] = r.uniform(0, 5, len(S))
        if gen.chance(r, .5):
            kw['clim'] = (-1., 7.)
        if gen.chance(r, .3):
            kw['color'] = col.tolist()
    if gen.chance(r, .3):
        kw['draw_ls'] = False
    with drawn.record() as rec:
        kw.update(an_ax(r, '3d'))
        if 'color' not in kw and gen.chance(r, .3):
            show(ctx, s.show, **kw)
        else:
            show(ctx, PL.hull, s, **kw)
        c = rec.of('plot_trisurf')
        ctx.ok(c[0]['ax'] is axes_of(kw), 'in the given axes')
        for q in c:
            ctx.close(np.array([np.asarray(v, float) for v in
                                q['args'][:3]]).T, np.asarray(s.points), 0,
                      'positions')
        T = [np.asarray(q['kw']['triangles']) for q in c]
        ctx.ok(tris(T[0]) == tris(S[sel]), 'valid triangles')
        ctx.ok(len(T) == (1 if np.all(sel) else 2), 'invalid ones are marked')
        if len(T) == 2:
            ctx.ok(tris(T[1]) == tris(S[~sel]), 'invalid triangles')
        if col is not None:
            fc = np.asarray(c[0]['result']._facecolor3d)
            lo, hi = kw.get('clim', (col.min(), col.max()))
            cm = matplotlib.colormaps['Spectral']
            byt = {t: v for t, v in zip(map(tuple, np.sort(S, axis=1)),
                                        col)}
            e = cm([(byt[tuple(sorted(t))] - lo) / (hi - lo)
                    for t in T[0]])
            ctx.close(fc[:, :3], e[:, :3], .03, 'colours of the triangles')
        t = rec.of('text')
        if 'draw_ls' in kw:
            ctx.ok(not t, 'no loudspeakers')
        else:
            p = np.array([q['args'][:3] for q in t], float)
            ctx.close(p, np.asarray(s.points), 1e-12, 'loudspeakers')
            ctx.ok([int(q['args'][3]) for q in t] == list(range(len(p))),
                   'numbers')
    ctx.cover(f'hull {sorted(kw)} invalid={not np.all(sel)}')


@case(10)
def normals(ctx):
    r = ctx.rng
    s = a_setup(r)
    f, v = bool(gen.chance(r, .7)), bool(gen.chance(r, .7))
    with drawn.record() as rec:
        show(ctx, PL.hull_normals, s, plot_face_normals=f,
             plot_vertex_normals=v)
        q = rec.of('quiver')
        e = ([np.c_[s.points, s.vertex_normals]] if v else []) + \
            ([np.c_[s.centroids, s.face_normals]] if f else [])
        ctx.ok(len(q) == len(e), 'the arrows asked for')
        got = [np.array([np.asarray(a, float) for a in c['args'][:6]]).T
               for c in q]
        for x in e:
            ctx.ok(any(g.shape == x.shape and np.allclose(g, x)
                       for g in got), 'normals at their places')
        p = np.vstack([drawn.points3(c['result'])
                       for c in rec.of('scatter')])
        for x in (s.listener_position, s.barycenter):
            ctx.close(np.min(np.linalg.norm(p - x, axis=1)), 0., 1e-9,
                      'listener and barycentre')
    ctx.cover(f'normals {f} {v}')


@case(24)
def polar(ctx):
    r = ctx.rng
    n = gen.pick(r, [3, 50, 101])
    t = np.sort(r.uniform(0, 2 * np.pi, n))
    x = r.uniform(-1, 1, n)
    if gen.chance(r, .3):
        x[r.random(n) < .2] = 0
    ints = gen.chance(r, .2)
    if ints:
        x = r.integers(-4, 4, n)
    todb = True
    kw = {}
    if gen.chance(r, .5):
        todb = kw['TODB'] = bool(gen.chance(r, .4))
    lim = None
    if gen.chance(r, .4):
        lim = kw['rlim'] = (-60, 6) if todb else (0, 2.)
    with drawn.record():
        kw.update(an_ax(r, 'polar'))
        show(ctx, PL.polar, gen.variant(r, t), gen.variant(r, x), **kw)
        ax = axes_of(kw)
        L = lines(ax)
        ctx.ok(len(L) == 2, 'positive and negative')
        for l, sgn in zip(L, (1, -1)):
            y = np.asarray(l.get_ydata(), float)
            on = (x >= 0 if not todb else x > 0) if sgn > 0 else x < 0
            ctx.close(np.asarray(l.get_xdata()), t, 1e-12, 'angles')
            e = np.abs(x[on]).astype(float)
            ctx.close(y[on], 20 * np.log10(e) if todb else e, 1e-9,
                      'values of this sign')
            ctx.ok(np.all(~np.isfinite(y[x * sgn < 0])),
                   'gaps for the other sign')
        ctx.close(ax.get_rmin(), float((lim or ((-40, 0) if todb
                                                else (0, 1)))[0]), 1e-9,
                  'inner limit')
        top = (lim or ((-40, 0) if todb else (0, 1)))[1]
        ctx.ok(top <= ax.get_rmax() <= top + 1, 'outer limit')
    ctx.cover(f'polar {todb} {ints} {lim}')


@case(24)
def performance(ctx):
    """Measures of a renderer over all directions."""
    r = ctx.rng
    s = D.LoudspeakerSetup(*gen.setup_args(r, gen.layout(
        r, gen.pick(r, ['rings', 'regular', 'random']), nmax=18)).T)
    kind = gen.pick(r, ['VBAP', 'VBIP', 'ALLRAP', 'ALLRAP2', 'NLS', 'ALLRAD',
                        'ALLRAD2', 'EPAD', 'MAD', 'SAD'])
    kw = {}
    N = None
    with quiet():
        s.ambisonics_setup(N_kernel=15, update_hull=False)
        if s.characteristic_order < 1 and not kind.startswith(('V', 'NL')):
            return ctx.trivial()
        if kind.startswith(('ALL', 'E', 'M', 'S')):
            N = s.characteristic_order
            if gen.chance(r, .5):
                N = kw['N_sph'] = int(r.integers(1, N + 1))
    if kind == 'VBAP' and gen.chance(r, .5):
        kw['norm'] = 1
    if gen.chance(r, .4):
        s.a = gen.pick(r, [0, 2])
    st = gen.pick(r, [(30, 20), (20, 15), (45, 30)])
    name = kind if gen.chance(r, .7) else kind.lower()
    with drawn.record() as rec:
        if gen.chance(r, .3):
            kw['show_ls'] = False
        show(ctx, PL.decoder_performance, s, name, azi_steps=st[0],
             ele_steps=st[1], **kw)
        kw.pop('show_ls', None)
        m = rec.of('pcolormesh')
        ctx.ok(len(m) == 4, 'amplitude, energy, spread, error')
        a, z = (np.asarray(v, float) for v in m[0]['args'][:2])
        ctx.ok(a.min() <= -np.pi + 1e-9 and a.max() >= np.pi - 1e-9 and
               z.min() <= 1e-9 and z.max() >= np.pi - 1e-9, 'all directions')
        ctx.close(np.diff(a[0]), np.full(a.shape[1] - 1,
                                         np.radians(st[0])), 1e-9, 'steps')
        sel = (z <= np.pi + 1e-9).ravel()
        x = ref.unit(a.ravel(), z.ravel())
        v = [np.asarray(q['args'][2], float).ravel() for q in m]
        with quiet():
            f = {'vbap': D.vbap, 'vbip': D.vbip, 'allrap': D.allrap,
                 'allrap2': D.allrap2, 'nls': D.nearest_loudspeaker,
                 'allrad': D.allrad, 'allrad2': D.allrad2, 'epad': D.epad,
                 'mad': D.mad, 'sad': D.sad}[kind.lower()]
            if kind in ('ALLRAD', 'ALLRAD2', 'EPAD', 'MAD', 'SAD'):
                Y = ref.sh(N, a.ravel(), z.ravel()).T
                G = f(Y, s, N_sph=N).T
            else:
                G = f(x, s, **kw)
        ctx.close(v[0][sel], np.sum(G, axis=1)[sel], 1e-7, 'amplitude')
        ctx.close(v[1][sel], np.sum(G ** 2, axis=1)[sel], 1e-7, 'energy')
        u = np.asarray(s.points) / np.linalg.norm(s.points, axis=1)[:, None]
        q = (G / np.asarray(s.d) ** s.a) ** 2
        with np.errstate(all='ignore'):
            e = (q @ u) / np.sum(q, axis=1)[:, None]
        n = np.linalg.norm(e, axis=1)
        ok = sel & (n > 1e-3) & np.isfinite(n)
        ctx.close(v[2][ok], np.degrees(2 * np.arccos(
            np.clip(n[ok], 0, 1))), 1e-3, 'spread')
        err = np.degrees([ref.angle(p, t) for p, t in zip(e[ok], x[ok])])
        ctx.close(v[3][ok], np.ravel(err), 1e-3, 'angular error')
    ctx.cover(f'performance {kind} {sorted(kw)} a={s.a}')


@case(10)
def unknown_renderer_rejected(ctx):
    r = ctx.rng
    s = D.LoudspeakerSetup(*gen.layout(r, 'regular').T)
    with drawn.record():
        ctx.raises(PL.decoder_performance, s, gen.pick(
            r, ['', 'vbp', 'all', 'ALLRAD3']), _what='an unknown renderer')
        ctx.raises(PL.freq_resp, np.arange(5.), np.ones(6),
                   _what='more values than frequencies')
        ctx.raises(PL.hull, s, color=np.ones(2), _what='too few colours')


@case(30)
def arrivals(ctx):
    r = ctx.rng
    n = gen.pick(r, [1, 2, 10, 200])
    azi = r.uniform(-np.pi + 1e-3, np.pi, n)
    a = azi + 2 * np.pi * r.integers(0, 3, n) if gen.chance(r, .4) else azi
    if gen.chance(r, .3):
        a = azi % (2 * np.pi)
    zen = np.arccos(r.uniform(-1, 1, n))
    kw = {}
    size = 250
    if gen.chance(r, .4):
        size = kw['size'] = gen.pick(r, [1, 10, 500.])
    sz = np.full(n, float(size))
    if gen.chance(r, .6):
        p = kw['p'] = r.uniform(-.2, 3, n)
        p[int(r.integers(n))] = 3
        sz = np.clip(p / p.max(), 1e-14, None) * size
    c = None
    if gen.chance(r, .3):
        c = kw['c'] = r.uniform(0, 1, n)
    elif gen.chance(r, .5):
        fs = kw['fs'] = gen.pick(r, [44100, 1000])
        c = 1000 * np.arange(n) / fs
    if gen.chance(r, .3):
        kw['alpha'] = r.uniform(.1, 1, n)
    if gen.chance(r, .2):
        kw['ltitle'] = 'p'
    with drawn.record() as rec:
        kw.update(an_ax(r))
        show(ctx, PL.doa, a, zen, **kw)
        s = [q for q in rec.of('scatter') if q['ax'] is axes_of(kw)]
        s = s[0]['result']
        o = np.asarray(s.get_offsets())
        ctx.ok(len(o) == n, 'every direction')
        k = np.argsort(o[:, 1])          # zeniths are unique
        j = np.argsort(zen)
        ctx.close(o[k], np.c_[azi, zen][j], 1e-9, 'directions')
        g = np.asarray(s.get_sizes())
        ctx.close(np.broadcast_to(g, n)[k], sz[j], 1e-9 * size, 'sizes')
        if c is not None:
            ctx.close(np.asarray(s.get_array(), float)[k], c[j], 1e-9,
                      'colours')
        if 'alpha' in kw:
            ctx.close(np.asarray(s.get_alpha())[k], kw['alpha'][j], 1e-12,
                      'transparency')
        if n > 1 and c is not None and 'fs' in kw:
            ctx.ok(np.argmin(np.asarray(s.get_array())) == n - 1,
                   'early arrivals are on top')
    ctx.cover(f'doa n={n} {sorted(kw)}')


@case(10)
def interaural(ctx):
    r = ctx.rng
    g = gen.pick(r, [12, 40])
    v = gen.spread(r, g, 10)
    azi, zen = ref.dirs(v)
    x = r.standard_normal((2, g, 64)) * np.exp(-np.arange(64) / 9)
    h = spa.sig.HRIRs(x[0], x[1], azi % (2 * np.pi), zen, 48000)
    kw = {}
    if gen.chance(r, .5):
        kw['pclims'] = (20, .75)
    with quiet():
        e = [spa.process.ilds_from_hrirs(h),
             1e3 * spa.process.itds_from_hrirs(h)]
    with drawn.record() as rec:
        show(ctx, PL.hrirs_ild_itd, h, **kw)
        c = rec.of('tricontourf')
        ctx.ok(len(c) == 2, 'two maps')
        for q, w, l in zip(c, e, kw.get('pclims', (None, None))):
            ctx.close(np.array([np.asarray(d, float)
                                for d in q['args'][:3]]),
                      np.array([azi, zen, w]), 1e-9, 'map')
            m = l or np.max(np.abs(w))
            ctx.close(np.array(q['result'].get_clim()),
                      np.array([-m, m], float), 1e-9, 'symmetric limits')
    with drawn.record():
        ax = plt.figure().add_subplot(projection='3d')
        lim = None
        ax.set_xlim3d(-2, 1)
        ax.set_ylim3d(0, 5)
        ax.set_zlim3d(-1, 1)
        if gen.chance(r, .5):
            lim = (-3., 4.)
        show(ctx, PL.set_aspect_equal3d, gen.pick(r, [ax, None]),
             XYZlim=lim)
        e = np.array(lim or (-2., 5.))
        for q in (ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()):
            ctx.close(np.array(q), e, 1e-9, 'equal limits')
    ctx.cover(f'interaural {sorted(kw)}')
