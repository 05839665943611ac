"""Wavelet spectral density."""
import warnings

import numpy as np

from .. import api, gen, ref

ID = 'C24'
LEVEL = 'exploration'
QUICK, THOROUGH = 5000, 30000
REQUIRED = ['freq', 'psd', 'scaling', 'independent', 'nan', 'j2-warns',
            'j2-ignored', 'trend']
RULE = ('random signals, with gaps and several realisations, 1 to 38 '
        'vanishing moments; non-trivial: energies compared with a direct '
        'filter bank')


def run(ctx, *a, **k):
    out = ctx.call(api.wavelet_estimation, *a, **k)
    ctx.true('psd-type', isinstance(out, api.PSD), type(out).__name__)
    return out


def case(ctx, rng, i):
    x = gen.signal(ctx, rng, lo=60, hi=3000)
    n = len(x)
    nm = int(rng.integers(1, 11)) if rng.random() < .85 \
        else int(rng.integers(11, 39))
    while gen.deepest(n, f'db{nm}') < 2:
        nm = max(1, nm - 1)
    if rng.random() < .35:
        y = gen.with_gaps(ctx, rng, x)
        if len(ref.coefs(y, f'db{nm}')) >= 2:
            x = y
            if np.isnan(x).any():
                ctx.true('nan', True)
    fs = float(gen.pick(rng, [1., 10., 250., 1000., rng.uniform(.1, 500)]))
    ctx.params.update(n_moments=nm, fs=fs)
    out = run(ctx, x, fs, nm)
    f, p = ref.wavelet_psd(x, fs, nm)
    ctx.close('freq', out.freq, f, 1e-12, 0, 'frequencies')
    mag = np.nanmax(np.abs(np.asarray(x, float)))
    tol = (1e-11 * mag * 4. ** np.arange(1, len(p) + 1)[:, None]) ** 2
    if ctx.params['dtype'] == 'f4':
        # filtering precision of single precision input is not specified
        ctx.close('psd-f4', out.psd, p, 1e-3, 1e10 * tol, 'single precision')
        return
    ctx.close('psd', out.psd, p, 1e-6, tol, 'energies')
    xf = np.array(x, float)
    a = float(gen.pick(rng, [2., -3., .01, 1e4]))
    ctx.close('scaling', run(ctx, a * xf, fs, nm).psd, a ** 2 * out.psd,
              1e-6, a ** 2 * tol, 'amplitude scaling')
    if xf.ndim == 2 and xf.shape[1] > 1 and not np.isnan(xf).any():
        r = int(rng.integers(xf.shape[1]))
        ctx.close('independent', run(ctx, xf[:, r], fs, nm).psd[:, 0],
                  out.psd[:, r], 1e-6, tol[:, 0], 'one realisation alone')
    # blind to polynomial trends
    t = np.linspace(-1, 1, n)[:, None]
    tr = np.polyval(rng.uniform(-1, 1, min(nm, 10)), t) * np.nanmax(np.abs(xf))
    y = (xf if xf.ndim == 2 else xf[:, None]) + tr
    big = (3e-9 * mag * 4. ** np.arange(1, len(p) + 1)[:, None]) ** 2
    ctx.close('trend', run(ctx, y, fs, nm).psd, out.psd, 1e-3,
              big + 1e-4 * np.sqrt(big * p), 'plus a polynomial')
    # j2 does not change the estimate, only warns when out of reach
    top = ref.max_level(n, 2 * nm)
    j2 = int(rng.integers(1, top + 4))
    lim = run(ctx, x, fs, nm, j2)
    warned = any(issubclass(w.category, UserWarning) and 'j2' in str(
        w.message) for w in ctx.last_warnings)
    ctx.true('j2-warns', warned == (j2 > top), f'j2 = {j2}, max level {top},'
             f' warned {warned}')
    ctx.same('j2-ignored', lim, out, what=f'j2 = {j2} ')
    ctx.state(nm, len(p), j2 > top)
