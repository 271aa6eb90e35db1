"""C17 parallel processing gives the serial result."""
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import numpy as np
import spaudiopy as spa
from vmon import gen, ref
from vmon.core import registry, quiet

CASES, case = registry(2)
D = spa.decoder
HERE = os.path.dirname(os.path.abspath(__file__))


class Slow(np.ndarray):
    """Array whose in-place updates are slow (read, wait, write)."""

    def __iadd__(self, o):
        t = np.array(self) + np.asarray(o)
        time.sleep(SlowBuffers.pause * (.5 + os.getpid() % 7 / 7.))
        self[...] = t
        return self


class SlowBuffers:
    """Shared buffers opened by forked children get slow updates."""
    pause = .002

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.orig = np.frombuffer
        pid = os.getpid()
        orig = self.orig

        def frombuffer(*a, **k):
            x = orig(*a, **k)
            if os.getpid() != pid and x.flags.writeable:
                return x.view(Slow)
            return x
        if self.on:
            np.frombuffer = frombuffer

    def __exit__(self, *a):
        np.frombuffer = self.orig
        return False


class Perturbed:
    """Stop / continue the children at random while the block runs."""

    def __init__(self, ctx, on):
        self.ctx, self.on = ctx, on

    def __enter__(self):
        self.p = None
        if self.on:
            r = self.ctx.rng
            self.p = subprocess.Popen(
                [sys.executable, '-S', os.path.join(HERE, '..', 'vmon',
                                                    'jitter.py'),
                 str(os.getpid()), str(int(r.integers(1 << 30))),
                 str(float(r.uniform(1, 12)))], stdout=subprocess.PIPE)
            self.aff = os.sched_getaffinity(0)
            if gen.chance(r, .4):
                # everything on few cores
                k = int(r.integers(1, 3))
                os.sched_setaffinity(0, sorted(self.aff)[:k])
            time.sleep(.02)
        return self

    def __exit__(self, *a):
        if self.p is not None:
            os.sched_setaffinity(0, self.aff)
            self.p.send_signal(signal.SIGTERM)
            out = self.p.communicate()[0].split()
            n = int(out[0]) if out else 0
            self.ctx.cover('process stops injected', n)
        return False


def run(ctx, method, f, *args, jitter=None, slow=False, **kw):
    """Call with the start method, perturb the schedule of the workers."""
    r = ctx.rng
    old = mp.get_start_method()
    jitter = gen.chance(r, .5) if jitter is None else jitter
    mp.set_start_method(method, force=True)
    try:
        with Perturbed(ctx, jitter and method == 'fork'):
            with SlowBuffers(slow):
                return ctx.call(f, *args, _pure=False, **kw)
    finally:
        mp.set_start_method(old, force=True)


def jobs(r):
    return gen.pick(r, [2, 2, 3, 4, 5, 8, 13, None])


def layout(ctx, im=True):
    r = ctx.rng
    p = gen.setup_args(r, gen.layout(r, nmax=20))
    h = D.LoudspeakerSetup(*p.T)
    if gen.chance(r, .5):
        h.pop_triangles(normal_limit=85, aperture_limit=90,
                        opening_limit=150)
    kw = {}
    if im and gen.chance(r, .5):
        x = -p.mean(0)
        if np.linalg.norm(x) > .1:
            x = x / np.linalg.norm(x) * np.mean(h.d)
            if np.min(ref.angle(x, p)) > .2:
                kw = dict(update_hull=True, imaginary_ls=x)
    h.ambisonics_setup(N_kernel=int(r.integers(2, 5)),
                       characteristic_order=2, **kw)
    h.a = gen.pick(r, [1, 1, 0, 2])
    return p, h, bool(kw)


def panning_body(ctx, method):
    r = ctx.rng
    p, h, im = layout(ctx)
    n = gen.pick(r, [1, 2, 9, 10, 11, 12, 31, 64, 150])
    s = gen.vectors(r, n)
    j = jobs(r) if method == 'fork' else 2
    f = gen.pick(r, [D.vbap, D.vbap, D.vbip, D.allrap, D.allrap2, D.allrad,
                     D.allrad2])
    kw = {}
    if f in (D.vbap, D.vbip):
        x = s
        kw['norm'] = gen.pick(r, [2, 2, 1, np.inf])
        m = r.integers(4)
        if m == 0 and im:
            kw['retain_outside'] = True
        elif m == 1 and len(h.valid_simplices):
            V = np.asarray(h.valid_simplices)
            kw['valid_simplices'] = V[r.permutation(len(V))
                                      [:int(r.integers(1, len(V) + 1))]]
    else:
        N = int(r.integers(1, 4))
        kw['N_sph'] = N
        x = s if f in (D.allrap, D.allrap2) else \
            gen.signals(r, (N + 1) ** 2, n)
    with quiet():
        e = f(x, h, jobs_count=1, **kw)
    g = run(ctx, method, f, x, h, jobs_count=j, **kw)
    ctx.close(g, e, 1e-12, f'{f.__name__}: gains of parallel jobs')
    # another call in the same process must not see the old buffers
    if gen.chance(r, .4):
        x2 = x[::-1] if f in (D.vbap, D.vbip, D.allrap, D.allrap2) \
            else -x
        with quiet():
            e2 = f(x2, h, jobs_count=1, **kw)
        g2 = run(ctx, method, f, x2, h, jobs_count=j, **kw)
        ctx.close(g2, e2, 1e-12, f'{f.__name__}: gains of parallel jobs')
        ctx.close(g, e, 1e-12, 'earlier result is not overwritten')
    ctx.cover(f'{method} {f.__name__} jobs={j} n={n} '
              f'{sorted(k for k in kw)}')


@case(60)
def panning(ctx):
    panning_body(ctx, 'fork')


def sdm_data(ctx, nmax):
    r = ctx.rng
    g = int(r.integers(4, 60))
    azi, zen = gen.hrir_grid(r, g)
    taps = gen.pick(r, [1, 2, 3, 7, 16, 40])
    L, R = r.standard_normal((2, g, taps))
    fs = 48000
    h = spa.sig.HRIRs(L, R, azi, zen, fs)
    n = gen.pick(r, [1, 2, 3, 5, 20, 33, nmax])
    p = gen.signals(r, 1, n)[0]
    phi, theta = gen.path(r, n)
    return h, L, R, p, phi, theta


def sdm_ref(ctx, h, L, R, p, phi, theta):
    """Direct superposition; None where two grid points are equally near."""
    taps = L.shape[1]
    el = np.zeros(len(p) + taps - 1)
    er = np.zeros_like(el)
    for i in range(len(p)):
        d = ref.nearest(h.azi, h.zen, phi[i], theta[i])
        k = np.argsort(d)
        if len(k) > 1 and d[k[1]] - d[k[0]] < 1e-6:
            return None
        el[i:i + taps] += p[i] * L[k[0]]
        er[i:i + taps] += p[i] * R[k[0]]
    return el, er


def bsdm_body(ctx, method):
    r = ctx.rng
    h, L, R, p, phi, theta = sdm_data(ctx, 80 if method == 'fork' else 60)
    slow = method == 'fork' and gen.chance(r, .6)
    j = jobs(r) if method == 'fork' else gen.pick(r, [2, 3, 4])
    if slow and len(p) > 40:
        p, phi, theta = p[:40], phi[:40], theta[:40]
    with quiet():
        e = spa.parsa.render_bsdm(p, phi, theta, h, jobs_count=1)
    g = run(ctx, method, spa.parsa.render_bsdm, p, phi, theta, h,
            jobs_count=j, slow=slow)
    e2 = sdm_ref(ctx, h, L, R, p, phi, theta)
    for k in range(2):
        ctx.close(g[k], e[k], 1e-12, 'binaural SDM of parallel jobs')
        if e2 is not None:
            ctx.close(g[k], e2[k], 1e-12, 'binaural SDM')
    ctx.cover(f'{method} bsdm jobs={j} n={len(p)} taps={L.shape[1]} '
              f'slow={slow}')


@case(64)
def binaural_sdm(ctx):
    bsdm_body(ctx, 'fork')


def intensity_body(ctx, method):
    r = ctx.rng
    win = gen.pick(r, [1, 3, 5, 9, 33])
    n = win + gen.pick(r, [0, 1, 2, 10, 50, 150])
    x = gen.signals(r, 4, n)
    b = spa.sig.AmbiBSignal([*x], fs=48000)
    kw = dict(win_len=win, smoothing_order=gen.pick(r, [0, 1, 3, 5]))
    if n > 60 and gen.chance(r, .4):
        kw['f_bp'] = gen.pick(r, [(100., 5e3), (1e3, 1e4)])
    j = jobs(r) if method == 'fork' else 2
    with quiet():
        e = spa.parsa.pseudo_intensity(b, jobs_count=1, **kw)
    g = run(ctx, method, spa.parsa.pseudo_intensity, b, jobs_count=j, **kw)
    for k in range(3):
        ctx.close(g[k], e[k], 1e-12, 'intensity of parallel jobs')
    ctx.cover(f'{method} intensity jobs={j} n={n} win={win}')


@case(32)
def intensity(ctx):
    intensity_body(ctx, 'fork')


def resample_body(ctx, method):
    r = ctx.rng
    g = gen.pick(r, [1, 2, 3, 7, 20])
    n = int(r.integers(20, 200))
    l, rr = gen.signals(r, g, n), gen.signals(r, g, n)
    a, b = gen.pick(r, [(44100, 48000), (48000, 44100), (48000, 96000),
                        (48000, 16000), (48000, 48000), (44100, 96000)])
    j = jobs(r) if method == 'fork' else 2
    with quiet():
        e = spa.process.resample_hrirs(l, rr, a, b, jobs_count=1)
    q = run(ctx, method, spa.process.resample_hrirs, l, rr, a, b,
            jobs_count=j)
    ctx.close(q[0], e[0], 1e-12, 'left HRIRs of parallel jobs')
    ctx.close(q[1], e[1], 1e-12, 'right HRIRs of parallel jobs')
    ctx.ok(q[2] == e[2] == b, 'sampling rate')
    ctx.cover(f'{method} resample jobs={j} g={g} {a}>{b}')


@case(24)
def resample(ctx):
    resample_body(ctx, 'fork')


@case(4, 24)
def room_responses(ctx):
    import soundfile as sf
    r = ctx.rng
    p, h, im = layout(ctx, False)
    azi, zen = gen.hrir_grid(r, 40)
    hr = spa.sig.HRIRs(*r.standard_normal((2, 40, 9)), azi, zen, 48000)
    x = r.standard_normal((len(p), 5)) * .02
    a = os.path.join(ctx.scratch, 'serial.wav')
    b = os.path.join(ctx.scratch, 'parallel.wav')
    with quiet():
        spa.io.write_ssr_brirs_loudspeaker(a, x, h, 48000, hrirs=hr,
                                           subtype='DOUBLE', jobs_count=1)
    j = gen.pick(r, [2, 4, None])
    run(ctx, 'fork', spa.io.write_ssr_brirs_loudspeaker, b, x, h, 48000,
        hrirs=hr, subtype='DOUBLE', jobs_count=j)
    ctx.close(sf.read(b)[0], sf.read(a)[0], 1e-12, 'BRIRs of parallel jobs')
    ctx.cover(f'brirs jobs={j}')


@case(8, 80)
def other_start_methods(ctx):
    """Children that are spawned do not inherit the parent's memory."""
    r = ctx.rng
    f = [bsdm_body, panning_body, intensity_body, resample_body][
        ctx._i % 4]
    f(ctx, gen.pick(r, ['spawn', 'spawn', 'forkserver']))
