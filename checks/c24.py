"""C24 measured data files: HRIRs, SOFA, SDM, the default HRIR set."""
import os
import shutil
import subprocess
import sys
import h5py
import numpy as np
from scipy.io import savemat
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet, REPO, Violation

CASES, case = registry()


def f32(r, x):
    """Some files hold other number formats."""
    return x.astype(np.float32) if gen.chance(r, .2) else x


def path(ctx, ext):
    return os.path.join(ctx.scratch, f'{ctx._case}_{ctx._i}.{ext}')


def arrange(r, p):
    """Absolute, relative or home directory."""
    m = r.integers(3)
    if m == 0:
        return p
    if m == 1:
        return os.path.relpath(p)
    q = os.path.join(os.environ['HOME'], os.path.basename(p))
    if q != p:
        shutil.move(p, q)
    return '~/' + os.path.basename(p)


def done(*ps):
    for p in ps:
        p = os.path.expanduser(p)
        if os.path.exists(p):
            os.remove(p)


@case(150)
def hrir_files(ctx):
    r = ctx.rng
    g = gen.pick(r, [2, 3, 20, 100])
    taps = gen.pick(r, [2, 5, 64, 128])
    azi, zen = gen.hrir_grid(r, g)
    x = r.standard_normal((2, g, taps))
    fs = gen.pick(r, [44100, 48000, 96000, 16000])
    p = path(ctx, 'mat')
    d = {'hrir_l': f32(r, x[0]), 'hrir_r': f32(r, x[1])}
    d['fs' if gen.chance(r, .6) else 'SamplingRate'] = \
        float(fs) if gen.chance(r, .3) else fs
    d['azi'] = azi if gen.chance(r, .5) else azi[:, None]
    d['zen'] = zen if gen.chance(r, .5) else zen[:, None]
    savemat(p, d)
    q = arrange(r, p)
    h = ctx.call(spa.io.load_hrirs, fs, filename=q, _pure=False)
    ctx.ok(h.fs == fs and len(h) == taps and h.num_grid_points == g,
           'sizes of the set')
    ctx.close(h.left, d['hrir_l'].astype(float), 0, 'left responses')
    ctx.close(h.right, d['hrir_r'].astype(float), 0, 'right responses')
    ctx.ok(h.left.dtype == float, 'double precision')
    ctx.close(h.azi, azi, 1e-15, 'azimuth')
    ctx.close(h.zen, zen, 1e-15, 'zenith')
    ctx.raises(spa.io.load_hrirs, fs + 1000, filename=q,
               _what='another sampling rate')
    done(p, q)
    ctx.raises(spa.io.load_hrirs, fs, filename=q, _what='a missing file')
    ctx.cover(f'hrirs g={g} {sorted(d)[1]}')


@case(40)
def dummy_set(ctx):
    r = ctx.rng
    fs = gen.pick(r, [44100, 48000, 96000])
    h = ctx.call(spa.io.load_hrirs, fs, filename='dummy', _pure=False)
    ctx.ok(h.fs == fs and h.left.shape == h.right.shape ==
           (len(h.azi), len(h)), 'sizes')
    # sound from the left is louder and earlier in the left ear
    y = np.sin(h.azi) * np.sin(h.zen)
    side = np.abs(y) > .4
    el = np.sum(h.left ** 2, axis=1)
    er = np.sum(h.right ** 2, axis=1)
    ctx.ok(np.all((el > er)[side] == (y > 0)[side]), 'nearer ear is louder')
    tl = np.argmax(np.abs(h.left), axis=1)
    tr = np.argmax(np.abs(h.right), axis=1)
    ctx.ok(np.all((tl < tr)[side] == (y > 0)[side]), 'nearer ear is first')
    ctx.raises(spa.io.load_hrirs, 22050, _what='no default set of this fs')
    for a in (h.left, h.azi):
        a[...] = 0
    k = ctx.call(spa.io.load_hrirs, fs, filename='dummy', _pure=False)
    ctx.ok(np.any(k.left != 0) and np.any(k.azi != 0),
           'each call makes a new set')


def sofa(r, p, g, taps, fs, deg, dist):
    x = r.standard_normal((g, 2, taps))
    with h5py.File(p, 'w') as f:
        f['Data.IR'] = f32(r, x)
        x = np.array(f['Data.IR'], float)
        f['Data.SamplingRate'] = np.array([float(fs)])
        f['SourcePosition'] = np.c_[deg, dist]
        f['ReceiverPosition'] = np.array([[[0.], [.09], [0]],
                                          [[0], [-.09], [0]]])
    return x


@case(150)
def sofa_files(ctx):
    r = ctx.rng
    g = gen.pick(r, [2, 5, 30, 90])
    taps = gen.pick(r, [2, 5, 64])
    azi, zen = gen.hrir_grid(r, g)
    deg = np.c_[np.degrees(azi) + 360 * int(r.integers(0, 2)),
                90 - np.degrees(zen)]
    fs = gen.pick(r, [44100, 48000, 96000])
    p = path(ctx, 'sofa')
    dist = np.full(g, r.uniform(.5, 3)) + .01 * r.standard_normal(g)
    x = sofa(r, p, g, taps, fs, deg, dist)
    q = arrange(r, p)
    d = ctx.call(spa.io.load_sofa_data, q, _pure=False)
    ctx.close(np.asarray(d['Data.IR']), x, 1e-15, 'data of the file')
    ctx.ok(float(d['Data.SamplingRate']) == fs, 'fs of the file')
    ctx.close(np.asarray(d['SourcePosition']), np.c_[deg, dist], 1e-15,
              'positions of the file')
    ctx.ok({'Data.IR', 'Data.SamplingRate', 'SourcePosition',
            'ReceiverPosition'} == set(d), 'all data of the file')
    h = ctx.call(spa.io.load_sofa_hrirs, q, _pure=False)
    ctx.close(h.left, x[:, 0], 1e-15, 'left responses')
    ctx.close(h.right, x[:, 1], 1e-15, 'right responses')
    ctx.close(ref.unit(h.azi, h.zen), ref.unit(azi, zen), 1e-9,
              'directions')
    ctx.ok(np.all((np.asarray(h.zen) > -1e-5) &
                  (np.asarray(h.zen) < np.pi + 1e-5)), 'zenith in range')
    ctx.ok(h.fs == fs, 'sampling rate')
    done(p, q)
    # positions at clearly different distances are not a HRIR grid
    sofa(r, p, g, taps, fs, deg, np.linspace(1, 3, g))
    ctx.raises(spa.io.load_sofa_hrirs, p, _what='different distances')
    sofa(r, p, g, taps, fs, deg, 2 + gen.pick(r, [-1, 1]) * np.r_[
        0, (-1.) ** np.arange(g - 1) if g % 2 else np.r_[
            (-1.) ** np.arange(g - 2), .5]])
    ctx.raises(spa.io.load_sofa_hrirs, p, _what='different distances')
    # elevation above the zenith: not spherical coordinates in degree
    deg[0, 1] = 120
    sofa(r, p, g, taps, fs, deg, dist)
    ctx.raises(spa.io.load_sofa_hrirs, p, _what='elevations above 90')
    done(p)
    ctx.cover(f'sofa g={g} taps={taps}')


@case(100)
def sofa_transform(ctx):
    """Responses of limited order are recovered from their samples."""
    r = ctx.rng
    N = int(r.integers(0, 5))
    K = (N + 1) ** 2
    v = gen.spread(r, int(K * 2 + r.integers(2, 20)), 30)
    tol = 1e-7
    if gen.chance(r, .4):           # measured on a part of the sphere
        v[:, 2] = np.abs(v[:, 2])
        v[:, 0] += gen.pick(r, [0, 1.])
        v /= np.linalg.norm(v, axis=1)[:, None]
        tol = 1e-5
    azi, zen = ref.dirs(v)
    typ = gen.pick(r, ['real', 'real', 'complex'])
    fs = gen.pick(r, [44100, 48000])
    taps = gen.pick(r, [2, 8, 40])
    Y = ref.sh(N, azi, zen, 'real')
    F = r.standard_normal((2, K, taps))
    x = np.einsum('gk,ekt->get', Y, F)
    p = path(ctx, 'sofa')
    with h5py.File(p, 'w') as f:
        f['Data.IR'] = x
        f['Data.SamplingRate'] = np.array([float(fs)])
        f['SourcePosition'] = np.c_[np.degrees(azi), 90 - np.degrees(zen),
                                    np.full(len(v), 1.2)]
    kw = {} if typ == 'real' and gen.chance(r, .6) else {'sh_type': typ}
    y, f = ctx.call(spa.io.sofa_to_sh, p, N, _pure=False, **kw)
    ctx.ok(f == fs, 'sampling rate')
    ctx.ok(y.shape == (2, K, taps), 'shape of the coefficients')
    Z = ref.sh(N, azi, zen, typ)
    ctx.close(np.einsum('gk,ekt->get', Z, y), x, tol,
              'coefficients describe the responses')
    if typ == 'real':
        ctx.close(y, F, 10 * tol * max(1, np.linalg.cond(Y) / 10),
                  'coefficients')
    done(p)
    ctx.cover(f'sofa sh N={N} {typ}')


@case(150)
def sdm_files(ctx):
    r = ctx.rng
    n = int(r.integers(2, 400))
    p = r.standard_normal(n)
    azi, zen = gen.path(r, n)
    nan = r.random(n) < (.3 if gen.chance(r, .6) else 0)
    a, z = azi.copy(), zen.copy()
    a[nan] = np.nan
    z[nan if gen.chance(r, .6) else np.roll(nan, 1)] = np.nan
    fs = gen.pick(r, [44100, 48000, 192000])
    f = path(ctx, 'mat')
    col = gen.chance(r, .5)
    d = {'h_ref' if gen.chance(r, .5) else 'p': p,
         'sdm_azi' if gen.chance(r, .5) else 'sdm_phi': a,
         'sdm_zen' if gen.chance(r, .5) else 'sdm_theta': z}
    if col:
        d = {k: v[:, None] for k, v in d.items()}
    savemat(f, dict(d, fs=fs))
    q = arrange(r, f)
    kw = {}
    init = True
    if gen.chance(r, .5):
        init = kw['init_nan'] = bool(gen.chance(r, .5))
    h, x, y, g = ctx.call(spa.io.load_sdm, q, _pure=False, **kw)
    ctx.close(h, p, 0, 'pressure')
    ctx.ok(g == fs, 'sampling rate')
    if init:
        ctx.close(x, np.where(np.isnan(a), 0, a), 0, 'azimuth')
        ctx.close(y, np.where(np.isnan(z), np.pi / 2, z), 0, 'zenith')
    else:
        ctx.ok(np.array_equal(x, a, equal_nan=True) and
               np.array_equal(y, z, equal_nan=True), 'unknown directions '
               'are kept')
    done(f, q)
    ctx.cover(f'sdm {sorted(d)} nan={init}')


CHILD = r'''
import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
import numpy as np
import spaudiopy as spa
assert spa.__file__.startswith(sys.argv[1]), spa.__file__
jobs = eval(sys.argv[2])
out = {}
for fs in eval(sys.argv[3]):
    h = spa.io.load_hrirs(fs, jobs_count=jobs)
    for k in ('left', 'right', 'azi', 'zen'):
        out[k + str(fs)] = getattr(h, k)
    out['fs' + str(fs)] = h.fs
np.savez(sys.argv[4], **out)
'''


@case(2, 16)
def default_set(ctx):
    """The default HRIRs are made from spherical harmonics coefficients.

    Runs on a copy of the package, as it saves files next to it.
    """
    import resampy
    r = ctx.rng
    root = os.path.join(ctx.scratch, 'copy%d' % ctx._i)
    shutil.copytree(os.path.join(REPO, 'spaudiopy'),
                    os.path.join(root, 'spaudiopy'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree(os.path.join(REPO, 'data', 'Grids'),
                    os.path.join(root, 'data', 'Grids'))  \
        if os.path.isdir(os.path.join(REPO, 'data', 'Grids')) else None
    sd = os.path.join(root, 'data', 'HRIRs', 'FABIAN',
                      'SphericalHarmonics')
    os.makedirs(sd)
    N, nf = int(r.integers(1, 4)), 33
    C = r.standard_normal((2, (N + 1) ** 2, nf)) + \
        1j * r.standard_normal((2, (N + 1) ** 2, nf))
    dt = [(k, 'O') for k in ('coeffLeft', 'coeffRight', 'a', 'b', 'c',
                             'f')]
    SH = np.zeros((1, 1), dtype=dt)
    SH[0, 0] = (C[0], C[1], 0, 0, 0, np.linspace(0, 22050, nf))
    savemat(os.path.join(sd, 'FABIAN_DIR_measured_HATO_0.mat'),
            {'SH': SH, 'SamplingRate': 44100})
    other = [48000, 96000] if ctx.tier != 'quick' else \
        [48000 if ctx._i == 0 else 96000]
    order = [int(x) for x in r.permutation([44100] + other)]
    out = os.path.join(root, 'out.npz')
    c = subprocess.run([sys.executable, '-c', CHILD, root,
                        repr(gen.pick(r, [1, 2])), repr(order), out],
                       capture_output=True, text=True, cwd=root)
    ctx.n_calls += 3
    ctx._dig.update(C.tobytes())
    ctx.ok(c.returncode == 0, 'default HRIRs can be made',
           error=c.stderr[-600:])
    d = np.load(out)
    azi, zen = d['azi44100'], d['zen44100']
    ctx.ok(len(azi) == 2 * 36 ** 2, 'number of directions', n=len(azi))
    far = ref.unit(gen.azimuths(r, 300), gen.zeniths(r, 300))
    ctx.ok(np.max(np.arccos(np.clip(np.max(
        far @ ref.unit(azi, zen).T, axis=1), -1, 1))) < np.deg2rad(6),
        'measured directions all around')
    Y = ref.sh(N, azi, zen, 'complex')
    for e, k in enumerate(('left', 'right')):
        x = np.fft.irfft(Y @ C[e], axis=1)
        ctx.close(d[k + '44100'], x, 1e-9, 'responses at 44.1 kHz')
        sel = r.integers(0, len(azi), 40)
        for fs in other:
            ctx.close(d[k + str(fs)][sel],
                      resampy.resample(x[sel], 44100, fs, axis=1), 1e-9,
                      'resampled responses')
            ctx.close(d['azi' + str(fs)], azi, 0, 'same grid')
            ctx.ok(int(d['fs' + str(fs)]) == fs, 'sampling rate')
    shutil.rmtree(root)
    ctx.cover(f'default {order[0]}')
