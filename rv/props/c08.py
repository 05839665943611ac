"""Cumulants of the logarithms and log-cumulants."""
import numpy as np

from .. import api, gen, ref

ID = 'C08'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['C(j,m)', 'c(m)', 'accessors', 'M']
RULE = ('hand-made and wavelet-produced multiresolution quantities x number '
        'of cumulants x scale ranges x weighting; non-trivial: cumulants '
        'compared with the sum over set partitions of the centred moments')


# logarithms have no units: amplitudes down to the smallest numbers
LEVELS = (1e-316, 1e-310, 1e-290, 1e-150, 1e-80, 1e-40, 1e40, 1e90, 1e160, 1e290)


def tol(logs, m):
    """rounding of an order-m cumulant from raw moments"""
    return 1e-11 * (1 + np.nanmax(np.abs(logs))) ** m * 2 ** m


def case(ctx, rng, i):
    m = gen.any_mrq(ctx, rng) if rng.random() < .8 else gen.mrq(
        ctx, rng, levels=LEVELS)
    while gen.has_zero(m):
        m = gen.mrq(ctx, rng)
    n = int(rng.integers(1, 7))
    ctx.params['n_cumul'] = n
    j1, j2, w = gen.fit_range(ctx, rng, m)
    c = ctx.call(api.Cumulants, mrq=m, n_cumul=n, j1=j1, j2=j2, weighted=w)
    js = list(m.values)
    nrep = m.nrep
    ctx.true('shapes', c.values.shape == (n, len(js), nrep)
             and c.log_cumulants.shape == (n, nrep), 'shapes')
    ctx.close('grid', c.m, np.arange(1, n + 1), 0, 0, 'm')
    ctx.close('grid', c.j, js, 0, 0, 'j')
    ctx.true('metadata', c.formalism == m.formalism and c.nrep == nrep
             and c.j1 == j1 and c.j2 == j2 and c.weighted == w
             and c.n_cumul == n, 'metadata')
    nj = ref.count(m.values)
    logs = max(np.nanmax(np.abs(np.log(np.abs(v)))) for v in
               m.values.values())
    for k in range(1, n + 1):
        C = ref.cumulants(m.values, k)
        t = tol(logs, k)
        ctx.close('C(j,m)', c.values[k - 1], np.stack([C[j] for j in js]),
                  1e-7, t, f'C_{k}(j)')
        s, _ = ref.fit(C, nj, j1, j2, w)
        ctx.close('c(m)', c.log_cumulants[k - 1], s * np.log2(np.e), 1e-6,
                  20 * t, f'c_{k}')
        ctx.close('accessors', getattr(c, f'c{k}')[0], c.log_cumulants[k - 1],
                  0, 0, f'c{k}')
        ctx.close('accessors', getattr(c, f'C{k}')[0], c.values[k - 1], 0, 0,
                  f'C{k}')
    if n >= 2:
        ctx.close('M', c.M[0], -c.log_cumulants[1], 0, 0, 'M = -c2')
        # a variance cannot be negative
        ctx.dominated('variance', 0 * c.values[1], c.values[1],
                      atol=tol(logs, 2), what='C_2(j) >= 0')
    for bad in ('c', 'cx', 'D1', 'foo', 'c10'):
        ctx.raises('no-attribute', AttributeError, getattr, c, bad)
    ctx.state(m.formalism, n, w, nrep)
