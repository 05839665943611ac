"""Slope of the spectral density."""
import numpy as np

from .. import api, gen, ref

ID = 'C25'
LEVEL = 'exploration'
QUICK, THOROUGH = 8000, 80000
REQUIRED = ['beta', 'log_C', 'freq', 'composition', 'defaults', 'power-law',
            'zero-freq', 'shape', 'log-base', 'inclusive', 'out-of-band',
            'many', 'missing-power']
RULE = ('random densities, bands and signals; non-trivial: slopes compared '
        'with ordinary least squares on the frequencies of the band')


def check(ctx, got, f, p, band, log, what):
    a, b, x = ref.beta(f, p, band, log)
    mag = 1 + np.abs(b).max() + np.abs(x).max() + np.abs(a).max()
    span = np.ptp(x)
    t = 1e-9 * mag * (1 + (np.abs(x).max() + 1) / span) ** 2
    ctx.close('beta', got.beta, a, 1e-8, t, what + ' beta')
    ctx.close('log_C', got.log_C, b, 1e-8, t, what + ' log_C')
    ctx.close('freq', got.freq, x[:, None], 1e-9, 1e-12, what + ' freq')
    ctx.true('shape', np.shape(got.beta) == np.shape(p)[1:]
             and isinstance(got, api.FractalValues),
             f'{what}: beta of shape {np.shape(got.beta)} for a density of '
             f'shape {np.shape(p)}')


def case(ctx, rng, i):
    log = gen.pick(rng, ['log2', 'log'])
    if i % 4 == 3:
        # whole chain
        n = gen.length(rng, 100, 1500)
        x = np.stack([gen.column(rng, n, gen.pick(rng, [
            'gauss', 'walk', 'frac', 'cascade', 'heavy', 'real']))
            for _ in range(int(rng.integers(1, 4)))], axis=1)
        if x.shape[1] == 1 and rng.random() < .6:
            x = x[:, 0]
        nm = int(rng.integers(1, 4))
        fs = float(gen.pick(rng, [1., 10., 250.]))
        f, p = ref.wavelet_psd(x, fs, nm)
        if len(f) < 3:
            return
        lo = int(rng.integers(0, len(f) - 2))
        hi = int(rng.integers(lo + 1, len(f)))
        band = (float(f[hi]) * .9, float(f[lo]) * 1.1)
        ctx.params.update(n=n, fs=fs, n_moments=nm, band=band, log=log)
        out = ctx.call(api.fractal_analysis, x, fs, n_moments=nm,
                       freq_band=band, log=log)
        check(ctx, out, f, p, band, log, 'chain')
        psd = ctx.call(api.wavelet_estimation, x, fs, nm)
        two = ctx.call(api.estimate_beta, psd.freq, psd.psd, band, log)
        ctx.same('composition', out, two)
        f, p = ref.wavelet_psd(x, 2., 2)
        if (f >= .01).sum() >= 2:
            out = ctx.call(api.fractal_analysis, x, 2.)
            check(ctx, out, f, p, (.01, 2), 'log2', 'defaults')
            ctx.oracles['defaults'] += 1
        return
    m = int(rng.integers(4, 60))
    if i % 40 == 1:
        m = int(2 ** rng.uniform(6, 14.5))
    f = np.sort(np.exp(rng.uniform(np.log(.01), np.log(200), m)))
    if rng.random() < .3:
        f = np.arange(m) * float(rng.uniform(.05, 3))       # f = 0 included
    if rng.random() < .15:
        f = f[::-1].copy()
    many = rng.random() < .4
    r = int(rng.integers(1, 5)) if many else 1
    slope, c = rng.uniform(-3, 2, r), np.exp(rng.uniform(-20, 20, r))
    exact = rng.random() < .3
    with np.errstate(all='ignore'):
        base = np.where(f > 0, f, 1.)
    p = c * base[:, None] ** slope * (1. if exact else np.exp(
        rng.standard_normal((m, r)) * rng.uniform(0, 2)))
    if not many:
        p = p[:, 0]
    s = np.sort(f[f > 0])
    lo = int(rng.integers(0, len(s) - 1))
    hi = int(rng.integers(lo + 1, len(s)))
    edge = rng.random() < .5
    band = ((float(s[lo]), float(s[hi])) if edge else
            (float(s[lo]) * .999, float(s[hi]) * 1.001))
    if (f == 0).any() and rng.random() < .6:
        band = (0., band[1])
        ctx.true('zero-freq', True)
    if edge:
        ctx.true('inclusive', True)
    if many:
        ctx.true('many', True)
    ctx.params.update(m=m, many=many, r=r, band=band, edge=edge, log=log)
    if band[0] == 0 and (s <= band[1]).sum() < 2:
        return
    f0, p0 = f.copy(), p.copy()
    out = ctx.call(api.estimate_beta, f, p, band, log)
    check(ctx, out, f, p, band, log, 'estimate')
    ctx.true('input-kept', np.array_equal(f, f0) and np.array_equal(p, p0),
             'inputs modified')
    if exact:
        k = slope if many else slope[0]
        span = np.log(s[hi] / s[lo])
        ctx.close('power-law', out.beta, k, 1e-6, 1e-8 * (1 + 30 / span),
                  'exact power law')
    other = 'log' if log == 'log2' else 'log2'
    o = ctx.call(api.estimate_beta, f, p, band, other)
    mag = 1 + np.abs(np.log(p0)).max()
    span = np.log(s[hi] / s[lo])
    ctx.close('log-base', o.beta, out.beta, 1e-7, 1e-9 * mag * (
        1 + 10 / span) ** 2, 'slope in another base')
    # densities out of the band are irrelevant
    q = p.copy()
    out_band = ~((band[0] <= f) & (f <= band[1]))
    q[out_band] *= 1e3
    ctx.same('out-of-band', ctx.call(api.estimate_beta, f, q, band, log),
             out, what='density out of the band ')
    # a missing, null or negative power of the band is no point of a line,
    # and no frequency of the band is left out
    z = p.copy()
    k = gen.pick(rng, list(np.nonzero(~out_band & (f > 0))[0]))
    bad = gen.pick(rng, [0., np.nan, -1., np.inf])
    col = int(rng.integers(r))
    z[k if not many else (k, col)] = bad
    try:
        with np.errstate(all='ignore'):
            got = np.asarray(api.estimate_beta(f, z, band, log).beta)
    except Exception:
        ctx.oracles['missing-power'] += 1
    else:
        v = got[col] if many else got
        ctx.true('missing-power', not np.isfinite(v).any(),
                 f'slope {v} of a band with the power {bad}')
    # default band and base
    inside = (f >= .01) & (f <= 2) & (f > 0)
    if inside.sum() >= 2:
        d = ctx.call(api.estimate_beta, f, p)
        check(ctx, d, f, p, (.01, 2), 'log2', 'defaults')
        ctx.oracles['defaults'] += 1
    ctx.state(many, edge, log, band[0] == 0)
