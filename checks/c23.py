"""C23 loudspeaker layout files."""
import json
import warnings
import os
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(2)
D = spa.decoder
DATA = os.path.join(os.path.dirname(spa.__file__), '..', 'data',
                    'ls_layouts')


def usable(p):
    """Layouts for which an order can be found."""
    try:
        with quiet():
            h = D.LoudspeakerSetup(*p.T)
            h.get_characteristic_order()
        return True
    except Exception:
        return False


def layout(r):
    for _ in range(50):
        v = gen.layout(r, nmax=20)
        v = v * (r.uniform(.98, 1.02, (len(v), 1)) *
                 r.uniform(.8, 4) if gen.chance(r, .7) else 1.)
        if usable(v):
            return v
    raise AssertionError('no layout')


def imaginary(r, p):
    k = int(r.integers(0, 3))
    out = []
    for _ in range(20 * k):
        v = gen.vectors(r, 1)[0] * np.mean(np.linalg.norm(p, axis=1)) * 1.1
        q = np.vstack([p] + out)
        if np.min(ref.angle(v, q)) > .2 and len(out) < k:
            out.append(v[None])
    return np.vstack(out) if out else np.zeros((0, 3))


def fname(ctx):
    return os.path.join(ctx.scratch, f'{ctx._case}_{ctx._i}.json')


def given(r, path):
    """The same place as absolute, relative or home path."""
    home = os.environ['HOME']
    return gen.pick(r, [path, os.path.relpath(path), '~/' +
                        os.path.relpath(path, home)])


def entry(v, im, gain, ch, r):
    azi, zen = ref.dirs(v)
    d = {'Azimuth': float(np.degrees(azi[0])) + 360. *
         int(r.integers(-1, 2)),
         'Elevation': float(90 - np.degrees(zen[0])),
         'Radius': float(np.linalg.norm(v)), 'Channel': ch}
    if im is not None:
        d['IsImaginary'] = bool(im)
    if gain is not None:
        d['Gain'] = gain
    return d


@case(200)
def loading(ctx):
    r = ctx.rng
    p = layout(r)
    im = imaginary(r, p)
    gains = [float(x) for x in r.uniform(.2, 2, len(p)) *
             r.choice([1, 1, 1, -1], len(p))]
    if gen.chance(r, .2):
        gains = [int(x) for x in r.integers(0, 3, len(p))]
    has_im = len(im) > 0 or gen.chance(r, .7)
    has_gain = gen.chance(r, .7)
    ent = [(v, False, g) for v, g in zip(p, gains)]
    for v in im:                      # anywhere in the file
        ent.insert(int(r.integers(len(ent) + 1)), (v, True, 0.))
    doc = {'Name': 'x', 'Description': 'y', 'LoudspeakerLayout': {
        'Name': 'x', 'Loudspeakers': [
            entry(v, i if has_im else None, g if has_gain else None, k + 1,
                  r) for k, (v, i, g) in enumerate(ent)]}}
    path = fname(ctx)
    with open(path, 'w') as f:
        json.dump(doc, f)
    kw = {}
    off = np.zeros(3)
    if gen.chance(r, .3):
        o = r.uniform(-.1, .1, 3)
        if usable(p - o):
            off = o
            kw['listener_position'] = gen.pick(r, [o, o.tolist()])
    if gen.chance(r, .9):
        kw['N_kernel'] = int(r.integers(1, 6))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        h = spa.io.load_layout(given(r, path), **kw)
    ctx.n_calls += 1
    w = [str(x.message) for x in w]
    ctx.ok(not any('levation' in x for x in w), 'elevations are fine', w=w)
    ctx.ok(has_gain or any('ain' in x for x in w), 'gains are missing', w=w)
    im = np.array([v for v, i, g in ent if i]).reshape(-1, 3)
    ctx.close(h.points, p - off, 1e-9, 'real loudspeakers in file order')
    ctx.close(h.ambisonics_hull.points, np.vstack([p, im]) - off, 1e-9,
              'imaginary loudspeakers only in the Ambisonics layout')
    ctx.ok(np.ravel(h.ambisonics_hull.imaginary_ls_idx).tolist() ==
           list(range(len(p), len(p) + len(im))), 'imaginary indices')
    ctx.close(h.ls_gains, gains if has_gain else np.ones(len(p)), 1e-12,
              'gains of the real loudspeakers')
    ctx.ok(h.kernel_hull.N_kernel == kw.get('N_kernel', 50), 'kernel order')
    # ready to render
    with quiet():
        g = D.allrap(gen.vectors(r, 2), h)
    ctx.ok(g.shape == (2, len(p)) and np.all(np.isfinite(g)),
           'ready to render')
    os.remove(path)
    ctx.cover(f'load im={len(im)} gain={has_gain} flag={has_im} '
              f'listener={bool(np.any(off))}')


def spherical(p):
    azi, zen = ref.dirs(p)
    return azi, zen, np.linalg.norm(p, axis=1)


@case(200)
def round_trip(ctx):
    r = ctx.rng
    p = layout(r)
    h = D.LoudspeakerSetup(*p.T)
    im = imaginary(r, p)
    kw = dict(N_kernel=2, characteristic_order=2)
    if len(im):
        h.ambisonics_setup(update_hull=True, imaginary_ls=im, **kw)
    else:
        h.ambisonics_setup(**kw)
    gains = r.uniform(.1, 2, len(p)) * r.choice([1, 1, 1, -1], len(p))
    if gen.chance(r, .7):
        h.ls_gains = gains
    else:
        gains = np.ones(len(p))
    path = fname(ctx)
    ctx.call(spa.io.save_layout, given(r, path), h, name='a name',
             description='some text', _pure=False)
    with open(path) as f:
        doc = json.load(f)
    ctx.ok(doc['Name'] == 'a name' and doc['LoudspeakerLayout'][
        'Description'] == 'some text', 'name and description')
    ls = doc['LoudspeakerLayout']['Loudspeakers']
    q = np.vstack([p, im])
    ctx.ok(len(ls) == len(q), 'one entry per loudspeaker')
    azi, zen, rad = spherical(q)
    for k, e in enumerate(ls):
        u = ref.unit(np.radians(e['Azimuth']),
                     np.radians(90 - e['Elevation']))
        ctx.ok(ref.angle(u, q[k]) < 1.3e-4, 'direction', entry=e)
        ctx.ok(abs(e['Elevation'] - (90 - np.degrees(zen[k]))) < .0051 and
               abs(e['Radius'] - rad[k]) < .0051, 'elevation and radius')
        ctx.ok(bool(e['IsImaginary']) == (k >= len(p)), 'imaginary flag')
        ctx.ok(e['Channel'] == k + 1, 'channel')
        ctx.ok(abs(e['Gain'] - (gains[k] if k < len(p) else 0)) < 1e-12,
               'gain', entry=e)
    if not usable(np.round(p, 3)):
        return ctx.trivial()
    g = ctx.call(spa.io.load_layout, path, N_kernel=2, _pure=False)
    tol = .0051 + 1.3e-4 * np.max(rad)
    ctx.close(g.points, p, tol, 'positions after saving and loading',
              rel=False)
    ctx.close(g.ambisonics_hull.points, q, tol,
              'imaginary positions after saving and loading', rel=False)
    ctx.close(g.ls_gains, gains, 1e-12, 'gains after saving and loading')
    ctx.call(spa.io.save_layout, path, g, _pure=False)
    k = ctx.call(spa.io.load_layout, path, N_kernel=2, _pure=False)
    ctx.close(k.ambisonics_hull.points, g.ambisonics_hull.points, 1e-9,
              'saving again changes nothing')
    ctx.close(k.points, g.points, 1e-9, 'saving again changes nothing')
    ctx.close(k.ls_gains, g.ls_gains, 0, 'saving again changes nothing')
    os.remove(path)
    ctx.cover(f'round trip im={len(im)} L={len(p)}')


@case(8, 24)
def shipped_layouts(ctx):
    r = ctx.rng
    files = sorted(f for f in os.listdir(DATA) if f.endswith('.json'))
    f = os.path.join(DATA, files[ctx._i % len(files)])
    with open(f) as fh:
        ls = json.load(fh)['LoudspeakerLayout']['Loudspeakers']
    h = ctx.call(spa.io.load_layout, f, N_kernel=3, _pure=False)
    real = [e for e in ls if not e.get('IsImaginary')]
    im = [e for e in ls if e.get('IsImaginary')]

    def pos(x):
        return np.array([e['Radius'] * ref.unit(
            np.radians(e['Azimuth']), np.radians(90 - e['Elevation']))
            for e in x]).reshape(-1, 3)
    ctx.close(h.points, pos(real), 1e-9, 'loudspeakers of the file')
    ctx.close(h.ambisonics_hull.points, np.vstack([pos(real), pos(im)]),
              1e-9, 'imaginary loudspeakers of the file')
    s = gen.vectors(r, 3)
    with quiet():
        g = D.allrap2(s, h)
    ctx.ok(np.all(np.isfinite(g)) and g.shape == (3, len(real)),
           'renders')
    ctx.cover(os.path.basename(f))


@case(40)
def rejected(ctx):
    r = ctx.rng
    p = layout(r)
    h = D.LoudspeakerSetup(*p.T)
    path = fname(ctx)
    ctx.raises(spa.io.save_layout, path, h, _what='a setup that was not '
               'prepared')
    ctx.ok(not os.path.exists(path), 'nothing written')
    ctx.raises(spa.io.load_layout, path, _what='a missing file')
