"""Wavelet coefficients are the decimated filter bank of the signal."""
import numpy as np
import pywt

from .. import api, gen, ref

ID = 'C01'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['coefs', 'coef-scales', 'decomposition-level',
            'inner-product']
RULE = ('random signals (kind, length, layout, dtype, realisations, missing '
        'samples) x wavelets x gamint x normalisation; non-trivial: at least '
        'one coefficient compared with the direct filter-bank sums')
ASSUMPTIONS = ['pywt filter taps are the wavelet filters']


def tolerance(x, j, wt, gamint, normalization):
    m = np.nanmax(np.abs(np.asarray(x, float)))
    return (2e-12 * m * 2. ** (j / 2.)
            * 2. ** (j * (gamint + .5 - 1. / normalization)))


def check_coefs(ctx, x, wc, want, gamint, normalization, wt):
    ctx.true('coef-scales', list(wc.values) == list(want),
             lambda: f'scales {list(wc.values)}, expected {list(want)}')
    for j in want:
        ctx.close('coefs', wc.values[j], want[j], 1e-8,
                  tolerance(x, j, wt, gamint, normalization),
                  f'coefficients at scale {j}')


def case(ctx, rng, i):
    x, par = gen.setup(ctx, rng, gaps=True)
    if rng.random() < .15 and (par['p_exp'] is None
                               or np.isinf(par['p_exp'])):
        x = gen.rescaled(ctx, rng, x)
    wt = ctx.call(api.wavelet_analysis, x, **par)
    want = ref.coefs(x, par['wt_name'], par['gamint'], par['normalization'])
    g, nrm = par['gamint'], par['normalization']
    if par['p_exp'] is None:
        check_coefs(ctx, x, wt.wt_coefs, want, g, nrm, par['wt_name'])
    else:
        # the coarsest scale may be dropped when leaders run out
        got = list(wt.wt_coefs.values)
        ctx.true('coef-scales', got == list(want)[:len(got)],
                 f'scales {got}, expected {list(want)}')
        check_coefs(ctx, x, wt.wt_coefs, {j: want[j] for j in got}, g, nrm,
                    par['wt_name'])
    ctx.true('metadata', wt.wt_coefs.formalism == 'wavelet coef'
             and wt.wt_coefs.gamint == g, 'formalism or gamint of the coefs')

    lvl = ctx.call(api.decomposition_level, len(x), par['wt_name'])
    L = len(pywt.Wavelet(par['wt_name']).dec_hi)
    ctx.true('decomposition-level', lvl == ref.max_level(len(x), L),
             f'decomposition_level {lvl}')

    # second oracle: each coefficient is one inner product of the samples
    # with the equivalent filter of its scale, obtained by cascading the
    # upsampled filters, at the position given by the window recursion
    y = np.asarray(x, float)
    y = y[:, None] if y.ndim == 1 else y
    wav = pywt.Wavelet(par['wt_name'])
    hi, low = np.array(wav.dec_hi), np.ones(1)
    win = ref.windows(len(y), par['wt_name'], len(want))
    for j in list(want)[:6]:
        up = np.zeros((L - 1) * 2 ** (j - 1) + 1)
        up[::2 ** (j - 1)] = hi
        full = np.convolve(low, up)
        up[::2 ** (j - 1)] = wav.dec_lo
        low = np.convolve(low, up)
        c = wt.wt_coefs.values.get(j)
        if c is None:
            break
        known = [k for k, s in enumerate(win[j]) if s is not None]
        for k in rng.choice(known, min(4, len(known)), replace=False):
            first, last = win[j][k]
            ctx.true('window', last - first + 1 == len(full), 'window width')
            v = -(full[:, None] * y[first:last + 1][::-1]).sum(axis=0)
            ctx.close('inner-product', c[k],
                      v * 2. ** (j * (g + .5 - 1. / nrm)), 1e-8,
                      tolerance(x, j, None, g, nrm),
                      f'coefficient {k} of scale {j}')
    ctx.state(par['wt_name'], len(want), x.ndim)
