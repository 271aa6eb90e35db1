"""C29 no side effects, no memory."""
import copy
import importlib
import pickle
import numpy as np
import spaudiopy as spa
from vmon import core, gen, pure
from vmon.core import registry, quiet

CASES, case = registry()
W = {}
SKIP = {17, 29, 33}
SLOW = {('C24', 'default_set'), ('C30', 'performance')}
# results that depend on random numbers drawn inside
RANDOM = {'process.pulsed_noise', 'sig.MonoSignal', 'sph.platonic'}


def setup(ctx):
    w = pure.Watch(ctx.pid, ctx.seed, ctx.tier, ctx.scratch)
    mods = []
    for i in range(1, 34):
        if i in SKIP:
            continue
        try:
            m = importlib.import_module('checks.c%02d' % i)
        except ModuleNotFoundError:
            continue
        if hasattr(m, 'setup'):
            m.setup(w)
        for c in m.CASES:
            if ('C%02d' % i, c.name) not in SLOW:
                mods.append(('C%02d' % i, c))
    W['w'], W['cases'] = w, mods


@case(4200, 40000)
def mixed(ctx):
    """Any workload of any other check, one after the other."""
    w, cases = W['w'], W['cases']
    pid, c = cases[(ctx._i * 7919 + int(ctx.rng.integers(3))) % len(cases)]
    n0, d0, f0 = w.n_calls, w.n_decisions, w.fresh
    w.begin(f'{pid}.{c.name}', int(ctx.rng.integers(10 ** 6)))
    w.seed = ctx.seed
    try:
        c.fn(w)
    except pure.Impure:
        raise
    except pure.Aborted:
        ctx.cover('stopped early')
    except Exception as e:
        import traceback
        ctx.cover('workload failed: ' + traceback.format_exc()[-300:])
    ctx.n_calls += w.n_calls - n0
    ctx.n_decisions += w.n_decisions - d0
    ctx.n_repeats += w.fresh - f0
    ctx._dig.update(w._dig.digest() + repr((pid, c.name)).encode())
    ctx._calls += w._calls[:1]
    ctx.cover(f'{pid}.{c.name}')
    if w.n_calls == n0:
        ctx.trivial()


def nothing_to_do(r):
    """Requests that leave the values as they are."""
    from spaudiopy import sph, process, utils, parsa, decoder, sig
    K = (int(r.integers(0, 4)) + 1) ** 2
    x = r.standard_normal((K, int(r.integers(40, 80))))
    one = r.standard_normal(60)
    y4 = r.standard_normal((4, 30))
    fs = int(gen.pick(r, [8000, 44100, 48000]))
    b = sig.AmbiBSignal([*y4], fs)
    h = gen.pick(r, [1, 1., True])
    F = x.T if gen.chance(r, .5) else np.ascontiguousarray(x.T)
    return gen.pick(r, [
        (sph.rotate_sh, (F, 0, 0, 0)), (sph.rotate_sh, (F[0], 0., 0., 0.)),
        (sph.rotate_sh, (F, 2 * np.pi, 0, -2 * np.pi)),
        (sph.n3d_to_sn3d, (x[:1],)), (sph.sn3d_to_n3d, (x[:1],)),
        (sph.n3d_to_sn3d, (x[:1].T, 1)),
        (sph.sn3d_to_n3d, (x[:1].T, 1)),
        (sph.sh_to_b, (y4, 1)), (sph.b_to_sh, (y4, 1)),
        (sph.src_to_sh, (one, 0., 0., 0)),
        (sph.sht, (x, 0, np.zeros(K), np.zeros(K), 'real', None,
                   np.eye(K))),
        (sph.inverse_sht, (x, None, None, 'real', None, np.eye(K))),
        (sph.unity_gain, (np.array([4 * np.pi]),)),
        (sph.repeat_per_order, (one[:1],)),
        (sph.repeat_per_order, (one[:1].copy(),)),
        (sph.sh_mult, (np.array([np.sqrt(4 * np.pi)]), x[:, 0], 'real')),
        (sph.r_E, (gen.vectors(r, 1), np.ones((1, 1)))),
        (sph.project_on_sphere, (one[:3], one[3:6], one[6:9])),
        (sph.project_on_sphere, tuple(gen.vectors(r, 5).T.copy())),
        (process.gain_clipping, (np.abs(one), 100.)),
        (process.gain_clipping, (np.abs(one) * .1, 1)),
        (process.frac_octave_smoothing, (one[:1],)+(int(r.integers(1, 7)),)),
        (process.frac_octave_smoothing, (one, 1000)),
        (process.match_loudness, (one[:, None] * .01, one[:, None] * .01)),
        (process.match_loudness, (x.T * .01, x.T * .01)),
        (process.resample_signal, (one, fs, fs)),
        (process.resample_signal, (x, fs, fs)),
        (process.resample_hrirs, (x, x + 1, fs, fs)),
        (process.b_to_stereo, (b,)),
        (process.ambeo_a2b, (sig.MultiSignal([*y4], fs=fs),)),
        (process.energy_decay, (one,)),
        (process.lagrange_delay, (0, 0)),
        (parsa.sh_beamform, (np.eye(K), x)),
        (parsa.sh_beamform, (np.ones((1, 1)), x[:1])),
        (parsa.separate_cov, (np.eye(4), 0)),
        (parsa.sh_mvdr, (np.eye(K), .1, .2)),
        (parsa.render_stereo_sdm, (one, np.full(60, np.pi / 2),
                                   np.full(60, np.pi / 2))),
        (utils.rms, (x[:, :1],)), (utils.db, (one,)), (utils.from_db, (one,)),
        (utils.rms, (np.abs(x[0]),)),
        (utils.deg2rad, (np.abs(one),)), (utils.rad2deg, (np.abs(one),)),
        (utils.cart2sph, (one[:20], one[20:40], one[40:])),
        (utils.sph2cart, (one[:20], one[20:40], h)),
        (utils.cart2dir, (one[:20], one[20:40], one[40:])),
        (utils.dir2cart, (one[:20], one[20:40])),
        (utils.vec2dir, (x[:1, :3],)),
        (utils.rotation_vecvec, (one[:3], one[:3] + [1e-3, 0, 0])),
        (utils.rotation_rodrigues, (one[:3], 0)),
        (utils.stack, (x, x)) if K > 1 else (utils.stack, (one, one)),
        (utils.interleave_channels, (x, x)),
        (utils.haversine, (one[:20], one[20:40], one[:20], one[20:40])),
    ])


@case(900, 9000)
def independent_results(ctx):
    """Writing into a result changes neither the input nor later results."""
    f, args = nothing_to_do(ctx.rng)
    args = tuple(a.copy() if isinstance(a, np.ndarray) and
                 a.flags.c_contiguous else a for a in args)
    name = f'{f.__module__.split(".")[-1]}.{f.__name__}'
    with quiet():
        before = core.fingerprint([args])
        a = f(*args)
        kept = copy.deepcopy(a)
        ctx.n_calls += 2
        ctx._dig.update(repr((name, before)).encode())
        ctx.ok(not pure.shared(args, a), f'{name}: the result is a view of '
               'an argument', args=core.describe(list(args)))
        for v in pure.arrays(a, []):
            if v.flags.writeable:
                v[...] = 7
        ctx.ok(core.fingerprint([args]) == before,
               f'{name}: writing into the result altered the input',
               args=core.describe(list(args)))
        b = f(*args)
    ctx.ok(core.same(pure.comparable(b), pure.comparable(kept)),
           f'{name}: another result after the first one was overwritten',
           args=core.describe(list(args)))
    ctx.cover(f'no-op {name}')


@case(80, 1200)
def threads(ctx):
    """Several threads at the same time."""
    w = W['w']
    if len(w.log) < 4:
        return ctx.trivial()
    k = [int(v) for v in ctx.rng.choice(len(w.log), min(8, len(w.log)),
                                        replace=False)]
    sel = [w.log[i] for i in k if w.log[i][0] not in RANDOM]
    jobs = []
    for name, blob, _ in sel:
        # threads share the arguments of a request
        j = pickle.loads(blob)[2:]
        jobs.append([j] * 4)
    out = pure.concurrently(jobs)
    for t in out:
        for (name, blob, mine), (good, res) in zip(sel, t):
            ctx.ok(good, f'{name} fails in a thread', error=res)
            ctx.ok(core.same(pure.comparable(res), mine),
                   f'{name}: another result in a thread',
                   args=core.describe(list(pickle.loads(blob)[3])))
            ctx.cover(f'thread {name}')
