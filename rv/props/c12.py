"""Equivariances of the analysis: amplitude, sign, trend, fractional
integration, normalisation, superposition."""
import numpy as np
import pywt

from .. import api, gen, ref
from .c01 import tolerance

ID = 'C12'
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 15000
MODES = ['amplitude', 'trend', 'gamint', 'normalization', 'superposition']
REQUIRED = MODES + ['amplitude-estimates', 'gamint-estimates',
                    'normalization-estimates', 'trend-estimates',
                    'amplitude-units']
RULE = ('pairs of analyses of one signal and of a transformed one (or with '
        'other parameters); non-trivial: coefficients and exponents of both '
        'compared')

Q = np.array([-1., 0., .5, 1., 2., 3.])


def estimates(ctx, wt, j1, j2, w, Q=Q):
    return ctx.call(api.mf_analysis, wt.wt_coefs, wt.wt_leaders, j2, j1, w, 4,
                    Q)


def compare(ctx, oracle, a, b, dz, dlogs, dc1, dC1, dh, dH, loose=1., Q=Q):
    """b is a with zeta shifted by q dz, log2 S by q dlogs(j), ..."""
    t = 1e-6 * loose
    js = a.structure.j
    n = a.structure.nrep
    for x, y, what in (
            (b.structure.zeta, a.structure.zeta + Q[:, None] * dz, 'zeta'),
            (b.structure.logvalues, a.structure.logvalues
             + Q[:, None, None] * dlogs(js)[None, :, None], 'log2 S'),
            (b.structure.H, a.structure.H + dH, 'H'),
            (b.cumulants.log_cumulants[0], a.cumulants.log_cumulants[0]
             + dc1, 'c1'),
            (b.cumulants.log_cumulants[1], a.cumulants.log_cumulants[1],
             'c2'),
            (b.cumulants.log_cumulants[2], a.cumulants.log_cumulants[2],
             'c3'),
            (b.cumulants.values[0], a.cumulants.values[0]
             + dC1(js)[:, None], 'C1'),
            (b.cumulants.values[1], a.cumulants.values[1], 'C2'),
            (b.spectrum.Dq, a.spectrum.Dq, 'D(q)'),
            (b.spectrum.hq, a.spectrum.hq + dh, 'h(q)'),
            (b.hmin, a.hmin + dh, 'hmin')):
        mag = 1 + np.max(np.abs(np.asarray(y)[np.isfinite(y)]), initial=0)
        k = {'c3': 1e3, 'c2': 20}.get(what, 1)
        ctx.close(oracle, x, y, 0, t * mag * k, f'{what} ({n} realisations)')


def case(ctx, rng, i):
    mode = MODES[i % len(MODES)]
    kinds = ['gauss', 'walk', 'heavy', 'frac', 'modulated', 'cascade', 'real']
    x = gen.signal(ctx, rng, ints=False, kinds=kinds, hi=1500)
    x = np.array(x)
    w = gen.wt_name(ctx, rng, len(x), pool=gen.WAVELETS if mode ==
                    'superposition' else gen.SHORT)
    p = gen.p_exp(rng)
    if rng.random() < .3:
        y = gen.with_gaps(ctx, rng, x)
        if gen.usable(y, w) >= 2:
            x = y
    deep = gen.usable(x, w)
    j1 = int(rng.integers(1, deep))
    j2 = int(rng.integers(j1 + 1, deep + 1))
    wgt = bool(rng.random() < .6)
    g, nrm = gen.gamint(rng), gen.normalization(rng)
    par = dict(p_exp=p, wt_name=w, j1=j1, j2=j2, gamint=g,
               normalization=nrm, weighted=wgt)
    ctx.params.update(par, mode=mode)
    a = ctx.call(api.wavelet_analysis, x, **par)
    if gen.has_zero(a.wt_coefs):
        ctx.oracles['skipped-zero-coefficients'] += 1
        return
    ma = estimates(ctx, a, j1, j2, wgt)
    same = lambda js: 0. * js    # noqa: E731

    if mode == 'amplitude':
        k = float(gen.pick(rng, [-1., 2., -.125, 1e3, 1e-4, -3.7,
                                    2. ** -45, -2. ** -70, 2. ** 60, 1e-12,
                                    1e13]))
        q = Q
        if (p is None or np.isinf(p)) and rng.random() < .3:
            # physical units (squares remain representable)
            k = float(gen.pick(rng, [1e105, -1e-105, 2. ** 380, 2. ** -370]))
            q = Q[:5]
            ma = estimates(ctx, a, j1, j2, wgt, q)
            ctx.oracles['amplitude-units'] += 1
        ctx.params['factor'] = k
        b = ctx.call(api.wavelet_analysis, x * k, **par)
        for j, v in a.wt_coefs.values.items():
            ctx.close(mode, b.wt_coefs.values[j], v * k, 1e-8,
                      tolerance(x * k, j, w, g, nrm), f'coefs, scale {j}')
        if p is not None:
            clear = np.ones(x.shape[1] if x.ndim > 1 else 1, bool)
            if a.eta_p is not None:
                clear = np.abs(a.eta_p) > 1e-5
                ctx.close(mode, b.eta_p, a.eta_p, 1e-6, 1e-7, 'eta_p')
            for j, v in a.wt_leaders.values.items():
                ctx.close(mode, b.wt_leaders.values[j][:, clear],
                          v[:, clear] * abs(k), 1e-6, 0,
                          f'leaders, scale {j}')
        mb = estimates(ctx, b, j1, j2, wgt, q)
        for side in ('dwt', 'lwt'):
            if getattr(ma, side) is not None:
                if a.eta_p is not None and not clear.all():
                    continue
                compare(ctx, 'amplitude-estimates', getattr(ma, side),
                        getattr(mb, side), 0.,
                        lambda js: np.full(len(js), np.log2(abs(k))), 0.,
                        lambda js: np.full(len(js), np.log(abs(k))), 0., 0.,
                        1. if q is Q else 20., q)

    elif mode == 'trend':
        wav = pywt.Wavelet(w)
        deg = wav.vanishing_moments_psi - 1
        t = np.linspace(-1, 1, len(x))
        trend = np.polynomial.polynomial.polyval(
            t, rng.standard_normal(deg + 1)) * np.nanmax(np.abs(x)) * 3
        y = x + (trend[:, None] if x.ndim > 1 else trend)
        ctx.params['degree'] = deg
        b = ctx.call(api.wavelet_analysis, y, **par)
        for j, v in a.wt_coefs.values.items():
            ctx.close(mode, b.wt_coefs.values[j], v, 1e-6,
                      3e5 * tolerance(y, j, w, g, nrm), f'scale {j}')
        mb = estimates(ctx, b, j1, j2, wgt)
        # the filters annihilate polynomials up to ~1e-10 (pywt tables)
        ok = [v[~np.isnan(v)] for v in a.wt_coefs.values.values()]
        if min(np.abs(v).min() / np.abs(v).max() for v in ok) > 1e-3 and \
                np.nanmax(np.abs(x)) < 1e3 * min(np.abs(v).max()
                                                 for v in ok):
            ctx.close('trend-estimates', mb.dwt.structure.H,
                      ma.dwt.structure.H, 1e-3, 1e-3, 'H')
            ctx.close('trend-estimates', mb.dwt.cumulants.log_cumulants[:2],
                      ma.dwt.cumulants.log_cumulants[:2], 1e-3, 1e-3, 'c1')

    elif mode in ('gamint', 'normalization'):
        if mode == 'gamint':
            g2 = g + float(gen.pick(rng, [.5, 1., -.25, 2., -1.]))
            par2, d = {**par, 'gamint': g2}, g2 - g
        else:
            n2 = gen.pick(rng, [1, 2, .5, 4, np.inf, 1.5])
            par2, d = {**par, 'normalization': n2}, 1. / nrm - 1. / n2
        ctx.params['delta'] = d
        b = ctx.call(api.wavelet_analysis, x, **par2)
        for j, v in a.wt_coefs.values.items():
            ctx.close(mode, b.wt_coefs.values[j], v * 2. ** (j * d), 1e-9, 0,
                      f'coefs, scale {j}')
        if p is None or np.isinf(p) or not np.isinf(p):
            mb = estimates(ctx, b, j1, j2, wgt)
            compare(ctx, f'{mode}-estimates', ma.dwt, mb.dwt, d,
                    lambda js: js * d, d, lambda js: js * d * np.log(2), d,
                    0. if mode == 'gamint' else d)
        if p is not None and np.isfinite(p):
            ctx.close(mode, b.eta_p, a.eta_p + p * d, 1e-6, 1e-7, 'eta_p')
        if p is not None and np.isinf(p):
            want = ref.leaders({j: v * 2. ** (j * d)
                                for j, v in a.wt_coefs.values.items()})
            for j in want:
                ctx.close(mode, b.wt_leaders.values[j], want[j], 1e-9, 0,
                          f'leaders, scale {j}')

    else:
        y = np.stack([gen.column(rng, len(x), gen.pick(rng, kinds))] *
                     (x.shape[1] if x.ndim > 1 else 1), axis=1)
        y = y if x.ndim > 1 else y[:, 0]
        u, v = rng.uniform(-3, 3, 2)
        par['p_exp'] = None
        b = ctx.call(api.wavelet_analysis, y, **par)
        c = ctx.call(api.wavelet_analysis, u * x + v * y, **par)
        for j in c.wt_coefs.values:
            ctx.close(mode, c.wt_coefs.values[j],
                      u * a.wt_coefs.values[j] + v * b.wt_coefs.values[j],
                      1e-8, tolerance(np.nan_to_num(np.abs(u * x))
                                      + np.abs(v * y), j, w, g, nrm) * 3,
                      f'scale {j}')
    ctx.state(mode, w, p, wgt)
