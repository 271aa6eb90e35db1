"""C22 audio files."""
import os
import warnings
import numpy as np
import soundfile as sf
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(8)
S = spa.sig
TOL = {'FLOAT': 1e-7, 'DOUBLE': 1e-15, 'PCM_16': 3.1e-5, 'PCM_24': 1.3e-7,
       'PCM_32': 1e-9}


def sig(r, k, peak=.99):
    n = gen.size(r, 3000)
    x = np.array([gen.signal(r, n, silent=.05) for _ in range(k)])
    return x / (np.max(np.abs(x)) or 1.) * peak * r.uniform(.01, 1)


def name(ctx, ext='wav'):
    """A new file: absolute, relative or in the home directory."""
    r = ctx.rng
    ctx.nfile = getattr(ctx, 'nfile', 0) + 1
    f = f'{ctx._case}_{ctx._i}_{ctx.nfile}.{ext}'
    m = r.integers(3)
    if m == 0:
        return os.path.join(ctx.scratch, f), os.path.join(ctx.scratch, f)
    if m == 1:
        return f, os.path.join(os.getcwd(), f)
    return '~/' + f, os.path.join(os.environ['HOME'], f)


def rm(*paths):
    for p in paths:
        try:
            os.remove(p)
        except OSError:
            pass


def sub(r):
    return gen.pick(r, ['FLOAT', 'FLOAT', None, 'DOUBLE', 'PCM_16',
                        'PCM_24', 'PCM_32'])


def write(ctx, obj, path, st, fs=None):
    kw = {} if st is None else {'subtype': st}
    r = ctx.rng
    if fs is None and gen.chance(r, .4):
        ctx.call(obj.save, path, **kw, _pure=False)
    else:
        if fs is not None:
            kw['fs'] = fs
        ctx.call(spa.io.save_audio, obj, path, **kw, _pure=False)


@case(250)
def round_trip(ctx):
    r = ctx.rng
    k = gen.pick(r, [1, 1, 2, 3, 4, 4, 7, 16, 25, 36, 64, 72, 121])
    x = sig(r, k)
    if gen.chance(r, .2):            # a few frames only
        x = x[:, :gen.pick(r, [1, 2, 3, 10])]
        x[0, 0] = .1
    fs = gen.pick(r, [8000, 16000, 44100, 48000, 96000, 22050])
    path, full = name(ctx)
    st = sub(r)
    kind = 'mono' if k == 1 else 'multi'
    if k == 1:
        o = S.MonoSignal(x[0], fs)
        if gen.chance(r, .3):
            o, kind = S.MultiSignal([x[0]], fs=fs), 'multi1'
    elif k == 4 and gen.chance(r, .6):
        o, kind = S.AmbiBSignal([*x], fs=fs), 'ambi'
    else:
        o = S.MultiSignal([*x], fs=fs)
    if gen.chance(r, .15):           # an older, longer file is replaced
        sf.write(full, np.zeros((5000, 2)), 32000)
    m = r.integers(3)
    if m == 0:
        write(ctx, o, path, st)
    elif m == 1:
        write(ctx, o, path, st, fs=fs)
    else:
        write(ctx, x[0] if k == 1 else x.T, path, st, fs=fs)
    ctx.ok(os.path.exists(full), 'file at the given place', path=path)
    y, f = sf.read(full, always_2d=True)
    tol = TOL[st or 'FLOAT']
    ctx.ok(f == fs, 'sampling rate of the file')
    ctx.close(y, x.T, tol, 'samples of the file', rel=False)
    ctx.ok(sf.info(full).subtype == (st or 'FLOAT'), 'sample format')
    fkw = {'fs': fs} if gen.chance(r, .4) else {}
    g = ctx.call(spa.io.load_audio, path if gen.chance(r, .6) else [path],
                 _pure=False, **fkw)
    ctx.ok(g.fs == fs and len(g) == x.shape[1], 'loaded fs and length')
    if k == 1:
        ctx.ok(type(g) is S.MonoSignal, 'mono file, mono signal')
        ctx.close(g.signal, y[:, 0], 0, 'loaded samples')
        g = ctx.call(S.MonoSignal.from_file, path, _pure=False, **fkw)
        ctx.close(g.signal, y[:, 0], 0, 'loaded samples')
        ctx.raises(S.MultiSignal.from_file, path, _what='a mono file')
    else:
        ctx.ok(isinstance(g, S.MultiSignal), 'multichannel signal')
        ctx.close(g.get_signals(), y.T, 0, 'loaded samples')
        g = ctx.call(S.MultiSignal.from_file, path, _pure=False, **fkw)
        ctx.close(g.get_signals(), y.T, 0, 'loaded samples')
        ctx.ok(g.fs == fs, 'loaded fs')
        ctx.raises(S.MonoSignal.from_file, path,
                   _what='a multichannel file')
        if k == 4:
            g = ctx.call(S.AmbiBSignal.from_file, path, _pure=False, **fkw)
            ctx.ok(type(g) is S.AmbiBSignal, 'type of the signal')
            ctx.close(g.get_signals(), y.T, 0, 'loaded samples')
            ctx.close(g.Z, y[:, 3], 0, 'Z channel')
        else:
            ctx.raises(S.AmbiBSignal.from_file, path,
                       _what='not four channels')
    bad = gen.pick(r, [f for f in (8000, 44100, 48000) if f != fs])
    for f in (spa.io.load_audio, S.MonoSignal.from_file if k == 1 else
              S.MultiSignal.from_file):
        ctx.raises(f, path, fs=bad, _what='another sampling rate')
    rm(full)
    ctx.cover(f'file {kind} {st} via={m} k={k}')


@case(120)
def several_files(ctx):
    r = ctx.rng
    n = gen.size(r, 500)
    fs = gen.pick(r, [44100, 48000])
    paths, fulls, x = [], [], []
    twice = gen.chance(r, .3)
    for _ in range(int(r.integers(2, 5))):
        k = int(r.integers(1, 4))
        s = r.uniform(-.9, .9, (k, n))
        p, f = name(ctx)
        with quiet():
            sf.write(f, s.T, fs, subtype='DOUBLE')
        paths.append(p)
        fulls.append(f)
        x += [*s]
        if twice and gen.chance(r, .5):
            paths.append(p)
            x += [*s]
    g = ctx.call(spa.io.load_audio, tuple(paths) if gen.chance(r, .4) else
                 paths, _pure=False, **({'fs': fs} if gen.chance(r, .4)
                                        else {}))
    ctx.ok(g.fs == fs and g.num_channels == len(x), 'all channels')
    ctx.close(g.get_signals(), np.array(x), 1e-15, 'channels in the order '
              'of the files')
    # one of them at another rate
    j = int(r.integers(len(fulls)))
    sf.write(fulls[j], np.zeros(10), fs + 100)
    if len(fulls) == 1:
        rm(*fulls)
        return
    ctx.raises(spa.io.load_audio, paths, _what='different sampling rates')
    for f in (fs, fs + 100):
        ctx.raises(spa.io.load_audio, paths, fs=f,
                   _what='different sampling rates')
    rm(*fulls)
    ctx.cover(f'files={len(paths)} channels={len(x)}')


@case(80)
def clipping(ctx):
    """Too loud signals are announced, and kept by floating point files."""
    r = ctx.rng
    k = gen.pick(r, [1, 2, 4])
    x = sig(r, k, 1.)
    loud = gen.chance(r, .5) and np.any(x)
    peak = r.uniform(1.01, 5) if loud else r.uniform(.1, .999)
    x *= peak / (np.max(np.abs(x)) or 1.)
    path, full = name(ctx)
    o = S.MonoSignal(x[0], 48000) if k == 1 else \
        S.MultiSignal([*x], fs=48000)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        spa.io.save_audio(o, path)
    msg = [str(i.message).lower() for i in w]
    ctx.n_calls += 1
    ctx.ok(any('clip' in i for i in msg) == loud, 'clipping is announced',
           peak=peak, messages=msg)
    ctx.close(sf.read(full, always_2d=True)[0], x.T, 1e-6, 'samples')
    # fixed point: all others are kept
    st = gen.pick(r, ['PCM_16', 'PCM_24', 'PCM_32'])
    with quiet():
        spa.io.save_audio(o if gen.chance(r, .5) else x.T, path, fs=48000,
                          subtype=st)
    ctx.close(sf.read(full, always_2d=True)[0], np.clip(x.T, -1, 1),
              TOL[st], 'samples within the range', rel=False)
    rm(full)


@case(60)
def inconsistent_rejected(ctx):
    r = ctx.rng
    k = gen.pick(r, [1, 2, 4])
    x = sig(r, k)
    path, full = name(ctx)
    fs = 48000
    o = S.MonoSignal(x[0], fs) if k == 1 else (
        S.AmbiBSignal([*x], fs=fs) if k == 4 else S.MultiSignal([*x], fs=fs))
    ctx.raises(spa.io.save_audio, o, path, fs=44100,
               _what='another sampling rate')
    ctx.raises(spa.io.save_audio, x.T, path, _what='no sampling rate')
    ctx.raises(spa.io.save_audio, x.tolist(), path, fs=fs, _what='a list')
    ctx.raises(spa.io.save_audio, np.zeros((5, 2, 2)), path, fs=fs,
               _what='three dimensions')
    ctx.ok(not os.path.exists(full), 'nothing written when rejected')
    ctx.raises(spa.io.load_audio, path, _what='a missing file')
    rm(full)
