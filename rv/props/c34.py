"""Memory is proportional to the data, and given back."""
import gc
import multiprocessing
import os
import threading
import tracemalloc
import weakref

import numpy as np

from .. import api, core, gen, ops

ID = 'C34'
LEVEL = 'exploration'
QUICK, THOROUGH = 400, 3000
REQUIRED = ['released', 'handles', 'growth', 'signal-growth',
            'signal-released', 'peak-length', 'peak-realisations']
RULE = ('random operations repeated on fresh inputs; non-trivial: weak '
        'references to all arrays going in and out, bytes traced by '
        'tracemalloc between rounds, and peaks at lengths and numbers of '
        'realisations in ratio 4 compared')
ASSUMPTIONS = ['Cholesky synthesis and the direct skewness convolution are '
               'quadratic by definition and not held to proportionality']


def arrays(obj):
    return [v for _, v in core.flatten(obj) if isinstance(v, np.ndarray)]


def fresh(args):
    return tuple(np.array(a) if isinstance(a, np.ndarray) else a
                 for a in args)


def handles():
    fds = len(os.listdir('/proc/self/fd'))
    return dict(files=fds, threads=threading.active_count(),
                children=len(multiprocessing.active_children()))


def released(ctx, rng):
    if rng.random() < .2:
        name = gen.pick(rng, list(ops.SIMULATORS))
        fn, args, kw = ops.SIMULATORS[name](rng)
    else:
        name, fn, args, kw = ops.make(rng)
    ctx.params.update(op=name)
    ctx.call(fn, *args, **kw)
    before = handles()
    args = fresh(args)
    refs = [weakref.ref(a) for a in arrays(list(args))]
    n_in = len(refs)
    out = ctx.call(fn, *args, **kw)
    refs += [weakref.ref(a) for a in arrays(out) if a.base is None]
    ctx.values += sum(a.size for a in arrays(out)) + 1
    del out, args
    gc.collect()
    kept = [('input' if k < n_in else 'result', r().shape)
            for k, r in enumerate(refs) if r() is not None]
    ctx.true('released', not kept, f'{name}: still referenced after the '
             f'inputs and results are gone: {kept}')
    ctx.true('handles', handles() == before, f'{name}: {before} -> '
             f'{handles()}')


def big(rng, kind):
    """One operation of a kind, on data of a few tens of kB."""
    n = int(rng.integers(3000, 9000))
    x = np.cumsum(rng.standard_normal((n, 2)), axis=0)
    p = gen.p_exp(rng)
    if kind == 'wavelet':
        return api.wavelet_analysis, (x, p), dict(gamint=gen.gamint(rng)), x
    if kind == 'full':
        return api.mf_analysis_full, (x, 1, 6), dict(
            p_exp=p, q=gen.q_grid(rng), n_cumul=3), x
    if kind == 'bivariate':
        return api.bivariate_analysis_full, (x[:, 0], x[:, 1], 1, 6), dict(
            p_exp=p), x
    if kind == 'welch':
        return api.welch_estimation, (x[:, 0], 2.), dict(
            n_fft=int(rng.integers(500, 4000))), x
    if kind == 'wpsd':
        return api.wavelet_estimation, (x, 2., int(rng.integers(1, 4))), {}, x
    if kind == 'fractal':
        return api.fractal_analysis, (x, 2.), dict(freq_band=(.01, 1)), x
    if kind == 'fbm':
        return api.fbm, ((n, 2), .6), {}, x
    if kind == 'mrw':
        return api.mrw, ((n, 2), .6, .1, n // 2), {}, x
    if kind == 'skewed_mrw':
        return api.skewed_mrw, ((n, 2), .6, .1, n // 2), {}, x
    if kind == 'mrw2D':
        return api.mrw2D, ((40 + n // 300, 2), .6, .1, 16), {}, x
    m = api.wavelet_analysis(x, p).wt_coefs
    fit = dict(j1=1, j2=6, weighted=True)
    if kind == 'structure':
        return api.StructureFunction, (), dict(
            mrq=m, q=gen.q_grid(rng), **fit), x
    if kind == 'cumulants':
        return api.Cumulants, (), dict(mrq=m, n_cumul=3, **fit), x
    if kind == 'spectrum':
        return api.MultifractalSpectrum, (), dict(
            mrq=m, q=gen.q_grid(rng), **fit), x
    raise ValueError(kind)


BIG = ['wavelet', 'full', 'bivariate', 'welch', 'wpsd', 'fractal', 'fbm',
       'mrw', 'skewed_mrw', 'mrw2D', 'structure', 'cumulants', 'spectrum']


def traced():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def growth(ctx, rng):
    kinds = [gen.pick(rng, BIG) for _ in range(int(rng.integers(1, 3)))]
    ctx.params.update(op=kinds)
    sizes, data = [], []
    tracemalloc.start()
    try:
        for _ in range(4):
            total = 0
            for _ in range(4):
                for k in kinds:
                    fn, a, kw, x = big(rng, k)
                    total += x.nbytes
                    ctx.call(fn, *a, **kw)
                    ctx.last_warnings = None
                    ctx.values += 1
                    del a, x, kw
            sizes.append(traced())
            data.append(total)
    finally:
        tracemalloc.stop()
    # warmed up by the first round
    step = min(np.diff(sizes[1:]))
    ctx.worst['growth'] = max(0., step / (.08 * min(data)))
    ctx.true('growth', step < .08 * min(data), f'{kinds}: every round on '
             f'{min(data)} bytes of signal leaves {step} bytes behind')


def signal_growth(ctx, rng):
    n = int(rng.integers(3000, 9000))
    x = np.cumsum(rng.standard_normal(n))
    s = api.Signal(x, 1.)
    sizes = []
    tracemalloc.start()
    try:
        for _ in range(4):
            for _ in range(6):
                p = gen.p_exp(rng)
                g = float(rng.uniform(0, 1))
                ctx.call(s.mf_analysis_full, 1, int(rng.integers(3, 7)),
                         1, g, True, 'db2', p, gen.q_grid(rng), 2)
                ctx.call(s.estimate_welch_psd, int(rng.integers(400, 2000)))
                ctx.call(s.estimate_wavelet_psd, int(rng.integers(1, 5)))
                ctx.call(s.fractal_analysis, int(rng.integers(1, 5)),
                         (.01, .5))
                ctx.last_warnings = None
                ctx.values += 4
            sizes.append(traced())
    finally:
        tracemalloc.stop()
    # transforms weigh about 2 x the signal, 24 of them were made
    step = min(np.diff(sizes[1:]))
    ctx.true('signal-growth', step < 3 * x.nbytes, 'the results of earlier '
             f'parameters stay in the Signal: {sizes}, signal {x.nbytes}')
    refs = [weakref.ref(x), weakref.ref(s)] + [weakref.ref(a) for a in arrays(
        [s.wt_transform, s.multi_fractal, s.wt_psd, s.fractal])
        if a.base is None]
    del s, x
    gc.collect()
    ctx.true('signal-released', all(r() is None for r in refs),
             'still referenced after the Signal is gone: '
             f'{[type(r()) for r in refs if r() is not None]}')


def peak(fn, *a, **k):
    gc.collect()
    tracemalloc.start()
    try:
        fn(*a, **k)
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def scaling(ctx, rng, kind, n, r):
    """A thunk on n samples x r realisations."""
    g = np.random.default_rng(7)
    x = np.cumsum(g.standard_normal((n, r)), axis=0)
    if kind == 'wavelet':
        p, w = ctx.params['p'], ctx.params['wt']
        return lambda: api.wavelet_analysis(x, p, w)
    if kind == 'full':
        p, w = ctx.params['p'], ctx.params['wt']
        q = [-1, 0, 1, 2, 3.5]
        return lambda: api.mf_analysis_full(x, 1, 6, p_exp=p, wt_name=w, q=q,
                                            n_cumul=4)
    if kind == 'wpsd':
        return lambda: api.wavelet_estimation(x, 1., 2)
    if kind == 'fractal':
        return lambda: api.fractal_analysis(x, 1., freq_band=(.001, 1))
    if kind == 'welch':
        return lambda: api.welch_estimation(x[:, 0], 1.)
    if kind == 'bivariate':
        p = ctx.params['p']
        return lambda: api.bivariate_analysis_full(x[:, 0], x[::-1, 0], 1, 6,
                                                   p_exp=p)
    if kind == 'fbm':
        return lambda: api.fbm((n, r), .6)
    if kind == 'mrw':
        return lambda: api.mrw((n, r), .6, .1, n // 4)
    if kind == 'skewed_mrw':
        return lambda: api.skewed_mrw((n, r), .6, .1, n // 4)
    if kind == 'fract_int_2d':
        m = int(np.sqrt(n))
        y = g.standard_normal((m, m, r))
        return lambda: api.fract_int_2d(y, .4)
    if kind == 'mrw2D':
        m = int(np.sqrt(n))
        return lambda: api.mrw2D((m, r), .6, .1, m // 2)
    raise ValueError(kind)


SCALING = ['wavelet', 'wavelet', 'full', 'full', 'wpsd', 'fractal', 'welch',
           'bivariate', 'fbm', 'mrw', 'skewed_mrw', 'fract_int_2d', 'mrw2D']


def peaks(ctx, rng):
    kind = gen.pick(rng, SCALING)
    n = 4 ** 6 * int(rng.integers(1, 5))
    r = int(rng.integers(1, 4))
    ctx.params.update(op=kind, n=n, r=r, p=gen.p_exp(rng),
                      wt=gen.pick(rng, gen.SHORT))
    by = 'realisations' if rng.random() < .4 and kind not in (
        'welch', 'bivariate') else 'length'
    fs = [scaling(ctx, rng, kind, n, r),
          scaling(ctx, rng, kind, n, 4 * r) if by == 'realisations'
          else scaling(ctx, rng, kind, 4 * n, r)]
    for f in fs:
        f()                     # whatever is only needed once
    a, b = (peak(f) for f in fs)
    ctx.values += 2
    ctx.params.update(by=by, peaks=[a, b])
    limit = 7 * a + 2 ** 19
    name = f'peak-{by}'
    ctx.worst[name] = max(ctx.worst.get(name, 0.), b / limit)
    ctx.true(name, b <= limit, f'{kind}: 4 times the data, {a} -> {b} bytes')


def case(ctx, rng, i):
    kind = i % 8
    if kind == 0 and i % 16 == 0:
        growth(ctx, rng)
    elif kind in (0, 1):
        peaks(ctx, rng)
    elif kind == 2 and i % 16 == 2:
        signal_growth(ctx, rng)
    elif kind == 2:
        peaks(ctx, rng)
    else:
        released(ctx, rng)
    ctx.state(kind, ctx.params.get('op'), ctx.params.get('by'))
