"""Multifractal spectrum."""
import numpy as np

from .. import api, gen, ref

ID = 'C09'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 15000
REQUIRED = ['U(j,q)', 'V(j,q)', 'D(q)', 'h(q)', 'legendre', 'D(0)=1',
            'entropy', 'h(0)=c1', 'monotone']
RULE = ('hand-made and wavelet-produced multiresolution quantities x q grids '
        'x scale ranges x weighting; non-trivial: U, V, D and h compared '
        'with weighted averages, least squares and Legendre identities')


def case(ctx, rng, i):
    zeros = rng.random() < .1
    m = gen.mrq(ctx, rng, zeros=True) if zeros else gen.any_mrq(ctx, rng)
    while gen.has_zero(m) and not zeros:
        m = gen.mrq(ctx, rng)
    zeros = gen.has_zero(m)
    q = np.array(gen.q_grid(rng, negative=not zeros, twice=True), float)
    if rng.random() < .5:
        q = np.unique(np.append(q, [0., 1., 2.]))
    given = q if rng.random() < .5 else [
        int(v) if float(v).is_integer() else float(v) for v in q]
    ctx.params['q'] = list(q)
    j1, j2, w = gen.fit_range(ctx, rng, m)
    sp = ctx.call(api.MultifractalSpectrum, mrq=m, q=given, j1=j1, j2=j2,
                  weighted=w)
    sf = ctx.call(api.StructureFunction, mrq=m, q=given, j1=j1, j2=j2,
                  weighted=w)
    cm = ctx.call(api.Cumulants, mrq=m, n_cumul=1, j1=j1, j2=j2, weighted=w)
    js, nrep = list(m.values), m.nrep
    ctx.true('shapes', sp.U.shape == sp.V.shape == (len(js), len(q), nrep)
             and sp.Dq.shape == sp.hq.shape == (len(q), nrep), 'shapes')
    ctx.true('metadata', sp.formalism == m.formalism and sp.nrep == nrep
             and sp.j1 == j1 and sp.j2 == j2 and sp.weighted == w
             and list(sp.j) == js and np.array_equal(np.asarray(sp.q, float),
                                                     q), 'metadata')
    nj = ref.count(m.values)
    mag = max(np.nanmax(np.abs(np.log2(np.abs(v[v != 0])))) for v in
              m.values.values() if np.nansum(v ** 2)) + 15
    for k, e in enumerate(q):
        U, V = ref.spectrum_uv(m.values, e)
        t = 1e-10 * mag * (1 + abs(e))
        ctx.close('U(j,q)', sp.U[:, k], np.stack([U[j] for j in js]), 1e-10,
                  t, f'U(j, {e})')
        ctx.close('V(j,q)', sp.V[:, k], np.stack([V[j] for j in js]), 1e-10,
                  t, f'V(j, {e})')
        su, _ = ref.fit(U, nj, j1, j2, w)
        sv, _ = ref.fit(V, nj, j1, j2, w)
        ctx.close('D(q)', sp.Dq[k], 1 + su, 1e-7, 10 * t, f'D({e})')
        ok = np.isfinite([V[j] for j in range(j1, j2 + 1)]).all(axis=0)
        ctx.close('h(q)', sp.hq[k][ok], sv[ok], 1e-7, 10 * t, f'h({e})')
        ctx.true('h(q)', not np.isfinite(sp.hq[k][~ok]).any(),
                 f'h({e}) of null values: {sp.hq[k]}')
        # identities between the estimates themselves
        ctx.close('legendre', sp.Dq[k][ok],
                  (1 + e * sp.hq[k] - sf.zeta[k])[ok], 1e-7,
                  20 * t, f'D = 1 + q h - zeta, q = {e}')
        # an entropy is at most that of the uniform weights
        ctx.dominated('entropy', 0., sp.U[:, k], atol=10 * t,
                      what=f'U(j, {e}) >= 0')
        if e == 0:
            ctx.close('D(0)=1', sp.Dq[k], np.ones(nrep), 0, 1e-7, 'D(0)')
            ctx.close('h(0)=c1', sp.hq[k][ok], cm.c1[0][ok], 1e-7, 10 * t,
                      'h(0)')
    # V is the derivative of a log-moment in q, hence non-decreasing
    order = np.argsort(q)
    lower = sp.V[:, order[:-1]]
    lower = np.where(np.isneginf(lower), np.finfo(float).min, lower)
    ctx.dominated('monotone', lower, sp.V[:, order[1:]],
                  atol=1e-7 * mag * (1 + np.abs(q).max()),
                  what='V(j, q) non-decreasing in q')
    ctx.state(m.formalism, len(q), w, nrep)
