"""Bivariate moments, cumulants and their slopes."""
import numpy as np

from .. import api, gen, ref

ID = 'C16'
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 9000
REQUIRED = ['C(j,m1,m2)', 'c(m1,m2)', 'S(j,q1,q2)', 'zeta(q1,q2)',
            'coherence', 'rho', 'accessors', 'no-coherence']
RULE = ('pairs of hand-made or wavelet-produced multiresolution quantities, '
        'with different missing values, x q grids x number of cumulants; '
        'non-trivial: joint moments and cumulants compared with set '
        'partitions over the jointly available values')


def joint(m1, m2, j):
    a, b = m1.values[j][:, 0], m2.values[j][:, 0]
    ok = ~np.isnan(a) & ~np.isnan(b)
    return a[ok], b[ok]


def check_cumulants(ctx, bc, m1, m2, n, j1, j2, w):
    js = list(m1.values)
    nj = ref.count(m1.values)
    logs = max(np.nanmax(np.abs(np.log(np.abs(v)))) for m in (m1, m2)
               for v in m.values.values())
    ctx.true('shapes', bc.values.shape == (n + 1, n + 1, len(js)) and
             bc.log_cumulants.shape == (n + 1, n + 1), 'shapes')
    ctx.close('grid', bc.m, np.arange(n + 1), 0, 0, 'm')
    ctx.close('grid', bc.j, js, 0, 0, 'j')
    for a in range(n + 1):
        for b in range(n + 1):
            if a + b > 6:
                continue
            want = {}
            for j in js:
                u, v = joint(m1, m2, j)
                want[j] = np.array([ref.joint_cumulant(
                    np.log(np.abs(u)), np.log(np.abs(v)), a, b)
                    if a + b else 0.])
            t = 1e-10 * (1 + logs) ** (a + b) * 2 ** (a + b)
            ctx.close('C(j,m1,m2)', bc.values[a, b],
                      [want[j][0] for j in js], 1e-6, t, f'C_{a}{b}(j)')
            s, inter = ref.fit(want, nj, j1, j2, w)
            ctx.close('c(m1,m2)', bc.log_cumulants[a, b],
                      s[0] * np.log2(np.e), 1e-6, 30 * t, f'c_{a}{b}')
            ctx.close('c(m1,m2)', bc.slope[a, b], s[0], 1e-6, 30 * t,
                      f'slope {a}{b}')
            ctx.close('c(m1,m2)', bc.intercept[a, b], inter[0], 1e-6, 99 * t,
                      f'intercept {a}{b}')
            ctx.close('accessors', getattr(bc, f'c{a}{b}'),
                      bc.log_cumulants[a, b][None], 0, 0, f'c{a}{b}')
            ctx.close('accessors', getattr(bc, f'C{a}{b}'),
                      bc.values[a, b][None], 0, 0, f'C{a}{b}')
    if n < 2 or m1.formalism == 'wavelet coef':
        ctx.true('rho', bc.RHO_MF is None and bc.rho_mf is None,
                 'rho without leaders')
    else:
        C, c = bc.values, bc.log_cumulants
        ctx.close('rho', bc.RHO_MF, C[1, 1] / np.sqrt(C[0, 2] * C[2, 0]),
                  1e-9, 0, 'RHO_MF(j)')
        with np.errstate(all='ignore'):
            ctx.close('rho', np.ravel(bc.rho_mf), [-c[1, 1] / np.abs(np.sqrt(
                c[0, 2] * c[2, 0]))], 1e-9, 0, 'rho_mf')


def check_moments(ctx, bs, m1, m2, q1, q2, j1, j2, w):
    js = list(m1.values)
    nj = ref.count(m1.values)
    ctx.true('shapes', bs.logvalues.shape == (len(q1), len(q2), len(js))
             and bs.zeta.shape == bs.intercept.shape == (len(q1), len(q2)),
             'shapes')
    for a, e1 in enumerate(q1):
        for b, e2 in enumerate(q2):
            S = {}
            for j in js:
                u, v = joint(m1, m2, j)
                S[j] = np.array([np.mean(np.abs(u) ** float(e1)
                                         * np.abs(v) ** float(e2))])
            L = ref.log2d(S)
            row = np.array([L[j][0] for j in js])
            mag = 1 + np.abs(row).max()
            ctx.close('S(j,q1,q2)', bs.logvalues[a, b], row, 1e-8,
                      1e-9 * mag, f'log2 S(j, {e1}, {e2})')
            z, inter = ref.fit(L, nj, j1, j2, w)
            ctx.close('zeta(q1,q2)', bs.zeta[a, b], z[0], 1e-7, 1e-8 * mag,
                      f'zeta({e1}, {e2})')
            ctx.close('zeta(q1,q2)', bs.intercept[a, b], inter[0], 1e-7,
                      1e-7 * mag, f'intercept({e1}, {e2})')
    need = {0., 1., 2.}
    if need <= set(map(float, q1)) and need <= set(map(float, q2)):
        want = []
        for j in js:
            u, v = joint(m1, m2, j)
            want.append(np.mean(u * v) / np.sqrt(np.mean(u * u)
                                                 * np.mean(v * v)))
        ctx.close('coherence', bs.coherence, want, 1e-8, 1e-10, 'coherence')
    else:
        ctx.true('no-coherence', bs.coherence is None,
                 'coherence without the exponents 0, 1, 2')


def pair(ctx, rng):
    """Two compatible quantities with equal counts at every scale"""
    if rng.random() < .6:
        m1 = gen.mrq(ctx, rng, nrep=1)
        m2 = gen.mrq(ctx, rng, nrep=1, like=m1)
        kind = gen.pick(rng, ['same', 'shifted', 'correlated'])
        ctx.params['pair'] = kind
        for j in m2.values:
            v = m2.values[j]
            if kind == 'shifted':
                v = np.roll(v, int(rng.integers(0, len(v))), axis=0)
            elif kind == 'correlated':
                v = v * np.abs(m1.values[j]) ** .7
                if m1.formalism == 'wavelet coef':
                    v = v + m1.values[j]
            if ((~np.isnan(v) & ~np.isnan(m1.values[j])).sum() < 3
                    or np.abs(v).min(initial=1, where=~np.isnan(v)) == 0):
                v = m2.values[j]
            m2.add_values(v, j)
        return m1, m2
    n = gen.length(rng, 80, 1200)
    kinds = ['gauss', 'walk', 'frac', 'modulated', 'cascade', 'real']
    x = gen.signal(ctx, rng, n=n, nrep=1, ints=False, kinds=kinds)
    y = gen.signal(ctx, rng, n=n, nrep=1, ints=False, kinds=kinds)
    w = gen.wt_name(ctx, rng, n, pool=gen.SHORT)
    p = gen.p_exp(rng)
    ctx.params['p_exp'] = p
    g = gen.gamint(rng)
    a = ctx.call(api.wavelet_analysis, x, p_exp=p, wt_name=w, gamint=g)
    b = ctx.call(api.wavelet_analysis, y, p_exp=p, wt_name=w, gamint=g)
    if p is None or rng.random() < .3:
        return a.wt_coefs, b.wt_coefs
    return a.wt_leaders, b.wt_leaders


def case(ctx, rng, i):
    m1, m2 = pair(ctx, rng)
    while gen.has_zero(m1) or gen.has_zero(m2):
        m1, m2 = pair(ctx, rng)
    j1, j2, w = gen.fit_range(ctx, rng, m1)
    n = int(rng.integers(1, 5))
    grids = [[0, 1, 2], [0., 1., 2., 3.], [1, 2], [2], [-1, 0, 1, 2],
             [.5, 1.5, -.5], [2, 0, 1], [1., 3., 0., 2.], [2, 1, 1, 0]]
    q1, q2 = gen.pick(rng, grids), gen.pick(rng, grids)
    if rng.random() < .3:
        q2 = q1
    if rng.random() < .4:
        q1, q2 = np.array(q1), np.array(q2)
    ctx.params.update(n_cumul=n, q1=list(q1), q2=list(q2))
    bc = ctx.call(api.BiCumulants, mrq1=m1, mrq2=m2, n_cumul=n, j1=j1, j2=j2,
                  weighted=w)
    check_cumulants(ctx, bc, m1, m2, n, j1, j2, w)
    bs = ctx.call(api.BiStructureFunction, mrq1=m1, mrq2=m2, j1=j1, j2=j2,
                  q1=q1, q2=q2, weighted=w)
    check_moments(ctx, bs, m1, m2, q1, q2, j1, j2, w)
    ctx.true('metadata', bc.formalism == bs.formalism == m1.formalism and
             bs.gamint == m1.gamint and bc.j1 == bs.j1 == j1 and
             bc.j2 == bs.j2 == j2, 'metadata')
    ctx.state(m1.formalism, n, len(q1), len(q2), w)
