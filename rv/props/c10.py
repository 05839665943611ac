"""Minimum regularity hmin and the Hurst exponent of the wavelet structure."""
import numpy as np

from .. import api, gen, ref

ID = 'C10'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['hmin', 'intercept', 'return_y', 'in-analysis', 'warning']
RULE = ('hand-made and wavelet-produced multiresolution quantities x scale '
        'ranges x weighting; non-trivial: slopes compared with least squares '
        'on the logarithms of the suprema')


def case(ctx, rng, i):
    m = gen.any_mrq(ctx, rng) if rng.random() < .8 else gen.mrq(
        ctx, rng, levels=(1e-140, 1e-80, 1e-40, 1e40, 1e80, 1e140))
    while gen.has_zero(m):
        m = gen.mrq(ctx, rng)
    if rng.random() < .06:
        m = gen.mrq(ctx, rng, zeros='scales')
    j1, j2, w = gen.fit_range(ctx, rng, m)
    y = ref.log2d(ref.sup(m.values))
    want, b = ref.fit(y, ref.count(m.values), j1, j2, w)
    mag = max(np.abs(v[np.isfinite(v)]).max(initial=0)
              for v in y.values()) + 1
    ok = np.isfinite([y[j] for j in range(j1, j2 + 1)]).all(axis=0)
    got, inter = ctx.call(api.estimate_hmin, m, j1, j2, w)
    warned = any('h_min' in str(v.message) for v in ctx.last_warnings)
    ctx.close('hmin', got[ok], want[ok], 1e-7, 1e-8 * mag, 'hmin')
    ctx.true('hmin', not np.isfinite(got[~ok]).any(),
             f'hmin of null coefficients: {got}')
    ctx.close('intercept', inter[ok], b[ok], 1e-7, 1e-7 * mag, 'intercept of hmin')
    if ok.all() and (np.abs(want) > 1e-9).all():
        if (want > 0).all():
            ctx.true('warning', not warned, f'warning for hmin = {want}')
        else:
            ctx.true('warning', warned, f'no warning for hmin = {want}',
                     mechanism='hmin-negative-no-warning')
    got, inter, yy = ctx.call(api.estimate_hmin, m, j1, j2, w, warn=False,
                              return_y=True)
    ctx.true('quiet', not any('h_min' in str(v.message)
                              for v in ctx.last_warnings),
             'warning although warn=False')
    ctx.close('hmin', got[ok], want[ok], 1e-7, 1e-8 * mag, 'hmin (return_y)')
    ctx.close('return_y', yy, np.stack([y[j] for j in range(j1, j2 + 1)]),
              1e-9, 1e-9, 'logarithms of the suprema')
    coef = m.formalism == 'wavelet coef'
    mf = ctx.call(api.mf_analysis, m, None if coef else m, j2, j1, w, 2,
                  [2])
    ctx.close('in-analysis', mf.dwt.hmin[ok], want[ok], 1e-7, 1e-8 * mag,
              'hmin in the analysis')
    if not coef:
        ctx.close('in-analysis', mf.lwt.hmin[ok], want[ok], 1e-7, 1e-8 * mag,
                  'hmin of the leaders in the analysis')
    ctx.state(m.formalism, w, m.nrep)
