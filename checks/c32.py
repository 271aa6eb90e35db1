"""C32 requests that cannot be served are rejected."""
import importlib
import inspect
import os
import numpy as np
import spaudiopy as spa
from vmon import core, gen
from vmon.core import registry, quiet

CASES, case = registry(1)
W = {}


class Stop(Exception):
    pass


class Reject(core.Ctx):
    """Only rejections count."""

    def ok(self, *a, **k):
        pass

    def close(self, *a, **k):
        pass

    def call(self, fn, *a, **k):
        k.pop('_pure', None), k.pop('_mut', None)
        try:
            with quiet():
                return fn(*a, **k)
        except Exception as e:
            raise Stop from e

    def raises(self, fn, *args, **kw):
        me = getattr(fn, '__self__', None)
        before = core.fingerprint([args, {k: v for k, v in kw.items()
                                          if k != '_what'}, me])
        files = sorted(os.listdir('.'))
        super().raises(fn, *args, **kw)
        kw.pop('_what', None)
        if core.fingerprint([args, kw, me]) != before:
            raise core.Violation(f'{fn.__qualname__}: a rejected request '
                                 'changed its object or arguments')
        if sorted(os.listdir('.')) != files:
            raise core.Violation(f'{fn.__qualname__}: a rejected request '
                                 'left files behind')
        self.cover(f'{fn.__qualname__} {kw and sorted(kw)}'[:80])


def setup(ctx):
    w = Reject(ctx.pid, ctx.seed, ctx.tier, ctx.scratch)
    sel = []
    for i in range(1, 34):
        if i in (32, 29, 17):
            continue
        m = importlib.import_module('checks.c%02d' % i)
        src = [c for c in m.CASES if 'ctx.raises' in inspect.getsource(c.fn)
               and ('C%02d' % i, c.name) != ('C24', 'default_set')]
        if src and hasattr(m, 'setup'):
            m.setup(w)
        sel += [('C%02d' % i, c) for c in src]
    W['w'], W['cases'] = w, sel


@case(700, 8000)
def collected(ctx):
    """The rejections that the other workloads ask for."""
    w, cases = W['w'], W['cases']
    k = ctx._i % len(cases)
    pid, c = cases[k]
    if pid == 'C33' and ctx._i > len(cases):
        return ctx.trivial()
    w.cover_keys = ctx.cover_keys
    n0, d0 = w.n_calls, w.n_decisions
    w.begin(f'{pid}.{c.name}', int(ctx.rng.integers(10 ** 6)))
    try:
        c.fn(w)
    except Stop:
        pass
    ctx.n_calls += w.n_calls - n0
    ctx.n_decisions += w.n_decisions - d0
    ctx._dig.update(w._dig.digest() + repr((pid, c.name)).encode())
    ctx._calls += w._calls[:1]
    if w.n_decisions == d0:
        ctx.trivial()


def word(r, good):
    """Not one of the names."""
    b = gen.pick(r, ['', 'foo', ' ', good + 'x', good[1:], good[::-1]])
    return b


@case(160)
def options(ctx):
    r = ctx.rng
    N = int(r.integers(1, 4))
    K = (N + 1) ** 2
    azi, zen = gen.azimuths(r, 5), gen.zeniths(r, 5)
    S, P, A, D = spa.sph, spa.process, spa.parsa, spa.decoder
    bad = word(r, gen.pick(r, ['real', 'complex']))
    x = r.standard_normal((K, 9))
    h = D.LoudspeakerSetup(*gen.layout(r, 'regular').T)
    f = [(S.sh_matrix, (N, azi, zen, bad)),
         (S.src_to_sh, (r.standard_normal((5, 9)), azi, zen, N, bad)),
         (S.inverse_sht, (r.standard_normal(K), azi, zen, bad)),
         (S.sht, (r.standard_normal(5), N, azi, zen, bad)),
         (S.sht_lstsq, (r.standard_normal(5), 1, azi, zen, bad)),
         (S.check_cond_sht, (N, azi, zen, bad)),
         (S.sh_rotation_matrix, (N, .1, .2, .3, bad)),
         (S.rotate_sh, (x.T, .1, .2, .3, bad)),
         (S.mode_strength, (N, r.uniform(1, 2, 3), word(r, 'rigid'))),
         (A.sh_beamformer_from_pattern, (word(r, 'hypercardioid'), N, azi,
                                         zen)),
         (P.frac_octave_filterbank, (1, 513, 48000, 100), {
             'mode': word(r, 'energy')}),
         (spa.plot.decoder_performance, (h, word(r, 'VBAP'))),
         (spa.io.load_hrirs, (gen.pick(r, [8000, 22050, 88200, 0]),))]
    t = f[int(r.integers(len(f)))]
    kw = t[2] if len(t) > 2 else {}
    ctx.raises(t[0], *t[1], **kw, _what='an unknown option')
    ctx.cover(t[0].__name__)


@case(240)
def counts(ctx):
    """Numbers of things that have to agree."""
    r = ctx.rng
    N = int(r.integers(1, 4))
    K = (N + 1) ** 2
    q = int(r.integers(6, 30))
    azi, zen = gen.azimuths(r, q), gen.zeniths(r, q)
    S, P, A, D = spa.sph, spa.process, spa.parsa, spa.decoder
    more = q + int(r.integers(1, 4))
    x = r.standard_normal((2, q, 8))
    hr = spa.sig.HRIRs(x[0], x[1], azi, zen, 48000)
    h = D.LoudspeakerSetup(*gen.layout(r, 'random').T)
    L = len(h.x)
    with quiet():
        h.ambisonics_setup(update_hull=False, N_kernel=5,
                           characteristic_order=2)
    f = [(S.sht, (r.standard_normal(more), N, azi, zen)),
         (S.sht_lstsq, (r.standard_normal(more), 1, azi, zen)),
         (S.sht, (r.standard_normal(q), N, azi, zen), {
             'Y_nm': S.sh_matrix(N, azi[1:], zen[1:])}),
         (S.src_to_sh, (r.standard_normal((more, 4)), azi, zen, N)),
         (S.inverse_sht, (r.standard_normal(K - 1), azi, zen, 'real', N)),
         (S.rotate_sh, (r.standard_normal((3, K + 1)), .1, .2, .3)),
         (S.r_E, (gen.vectors(r, q), r.standard_normal((3, more)))),
         (S.r_E, (gen.vectors(r, more), r.standard_normal((3, q)))),
         (S.sph_filterbank_reconstruction_factor,
          (r.standard_normal(K), 5)),
         (A.sh_beamformer_from_pattern, (r.standard_normal(N + 2), N,
                                         azi, zen)),
         (A.sh_lcmv, (np.eye(K), azi, zen, np.ones(more))),
         (A.sh_mvdr, (np.eye(K)[:, 1:], azi, zen)),
         (A.separate_cov, (np.eye(K)[:, 1:],)),
         (A.render_binaural_loudspeaker_sdm,
          (r.standard_normal(more), r.standard_normal((q, L)), h, 48000), {
              'post_eq_func': None, 'hrirs': hr}),
         (spa.sig.HRIRs, (x[0], x[1], azi[1:], zen, 48000)),
         (spa.sig.HRIRs, (x[0], x[1], azi, zen[1:], 48000)),
         (spa.sig.HRIRs, (x[0], x[1], azi[1:], zen[1:], 48000)),
         (D.sh2bin, (r.standard_normal((K + 1, 9)),
                     r.standard_normal((2, K, 5)))),
         (h.binauralize, (r.standard_normal((L + 1, 9)), 48000), {
             'hrirs': hr}),
         (h.binauralize, (r.standard_normal((L, 9)), 44100), {
             'hrirs': hr}),
         (h.loudspeaker_signals, (r.standard_normal((3, L + 1)),)),
         (h.loudspeaker_signals, (r.standard_normal((3, L)),
                                  r.standard_normal(more))),
         (h.loudspeaker_signals, (r.standard_normal((more, L)),
                                  r.standard_normal(2))),
         (D.sad, (r.standard_normal((K, 4)), h, N + 1)),
         (D.mad, (r.standard_normal((K, 4)), h, N + 1)),
         (D.epad, (r.standard_normal((K, 4)), h, N + 1)),
         (D.vbap, (r.standard_normal((4, 2)), h)),
         (D.vbip, (r.standard_normal((4, 2)), h)),
         (D.allrap, (r.standard_normal((4, 2)), h)),
         (D.allrap2, (r.standard_normal((4, 4)), h)),
         (P.hrirs_ctf, (hr,), {'grid_weights': np.ones(more)}),
         (hr.update_hrirs, (x[0, 1:], x[1, 1:])),
         (hr.update_hrirs, (x[0], x[1, 1:])),
         (D.LoudspeakerSetup, (np.ones(4), np.ones(5), np.ones(4)))]
    t = f[int(r.integers(len(f)))]
    kw = t[2] if len(t) > 2 else {}
    ctx.raises(t[0], *t[1], **kw, _what='numbers that do not match')
    ctx.cover(t[0].__name__)


@case(80)
def ranges(ctx):
    r = ctx.rng
    G = spa.grids
    lim = {G.load_t_design: (1, 21), G.load_n_design: (1, 124),
           G.load_lebedev: (3, 131), G.load_Fliege_Maier_nodes: (2, 30),
           G.load_maxDet: (1, 200)}
    f = gen.pick(r, [*lim])
    lo, hi = lim[f]
    d = gen.pick(r, [lo - 1, lo - int(r.integers(1, 9)), hi + 1,
                     hi + int(r.integers(1, 300)), -1])
    ctx.raises(f, d, _what=f'degree {d}')
    n = int(r.integers(5, 60))
    fs = 48000
    m = spa.sig.MonoSignal(r.standard_normal(n), fs)
    c = spa.sig.MultiSignal([*r.standard_normal((2, n))], fs=fs)
    for o in (m, c):
        before = core.fingerprint(o)
        ctx.raises(o.trim, (n + 1) / fs, (n + 4) / fs, _what='a late start')
        ctx.ok(core.fingerprint(o) == before, 'unchanged')
    ctx.raises(spa.sig.AmbiBSignal,
               [*r.standard_normal((int(r.integers(5, 8)), n))], fs=fs,
               _what='too many channels')
    ctx.cover(f'{f.__name__} {d < lo}')
