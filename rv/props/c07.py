"""Structure functions, scaling function, H."""
import numpy as np

from .. import api, gen, ref

ID = 'C07'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['S(j,q)', 'log2 S', 'zeta', 'intercept', 'H', 'no H', 'hurst']
RULE = ('hand-made and wavelet-produced multiresolution quantities x q grids '
        'x scale ranges x weighting; non-trivial: moments and slopes '
        'compared with direct averages and least squares')


def check(ctx, sf, m, q, j1, j2, weighted):
    js = list(m.values)
    nj = ref.count(m.values)
    for k, e in enumerate(q):
        S = ref.structure(m.values, float(e))
        want = np.stack([S[j] for j in js])
        ctx.close('S(j,q)', sf.values[k], want, 1e-9, 0, f'S(j, {e})')
        L = ref.log2d(S)
        wl = np.stack([L[j] for j in js])
        fin = np.max(np.abs(wl[np.isfinite(wl)]), initial=1)
        ctx.close('log2 S', sf.logvalues[k], wl, 1e-9, 1e-9 * fin,
                  f'log2 S(j, {e})')
        z, b = ref.fit(L, nj, j1, j2, weighted)
        ok = np.isfinite(wl[j1 - 1:j2]).all(axis=0)
        ctx.close('zeta', sf.zeta[k][ok], z[ok], 1e-7, 1e-8 * fin,
                  f'zeta({e})')
        # no line goes through log2(0)
        ctx.true('zeta', not np.isfinite(sf.zeta[k][~ok]).any(),
                 f'zeta({e}) of null structure functions: {sf.zeta[k]}')
        ctx.close('intercept', sf.intercept[k][ok], b[ok], 1e-7, 1e-7 * fin,
                  f'intercept({e})')
        if e == 2:
            ctx.close('H', sf.H[ok], (z / 2 - m.gamint)[ok], 1e-7,
                      1e-8 * fin, 'H')
            ctx.close('H', sf.get_intercept()[ok], b[ok], 1e-7, 1e-7 * fin,
                      'get_intercept')
    if 2 not in list(q):
        ctx.true('no H', sf.H is None and sf.get_intercept() is None,
                 'H reported without q = 2')


def case(ctx, rng, i):
    zeros = rng.random() < .1
    m = gen.any_mrq(ctx, rng) if not zeros else gen.mrq(
        ctx, rng, zeros=gen.pick(rng, [True, 'scales']))
    q = gen.q_grid(rng, negative=not gen.has_zero(m), twice=True)
    ctx.params['q'] = list(q)
    j1, j2, w = gen.fit_range(ctx, rng, m)
    sf = ctx.call(api.StructureFunction, mrq=m, q=q, j1=j1, j2=j2, weighted=w)
    nrep = m.nrep
    shape = (len(q), len(m.values), nrep)
    ctx.true('shapes', sf.values.shape == sf.logvalues.shape == shape
             and sf.zeta.shape == sf.intercept.shape == (len(q), nrep),
             'shapes')
    ctx.close('grid', sf.q, q, 0, 0, 'q')
    ctx.close('grid', sf.j, list(m.values), 0, 0, 'j')
    ctx.true('metadata', sf.formalism == m.formalism and sf.j1 == j1
             and sf.j2 == j2 and sf.weighted == w and sf.nrep == nrep
             and sf.gamint == m.gamint, 'metadata')
    check(ctx, sf, m, q, j1, j2, w)

    if zeros and gen.has_zero(m):
        ctx.params['zeros'] = True
    hurst, st, hs = ctx.call(api.compute_hurst, m, j1, j2, w)
    nj = ref.count(m.values)
    L = ref.log2d(ref.structure(m.values, 2.))
    z, _ = ref.fit(L, nj, j1, j2, w)
    ok = np.isfinite(z)
    ctx.close('hurst', hurst[ok], (z / 2 - m.gamint)[ok], 1e-7, 1e-7,
              'compute_hurst')
    ctx.close('hurst', hs, np.stack([L[j] for j in m.values]), 1e-8, 1e-8,
              'structure of compute_hurst')
    check(ctx, st, m, [2.], j1, j2, w)
    ctx.state(m.formalism, len(q), w, nrep)
