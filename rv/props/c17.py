"""Consistency of the bivariate analysis."""
import numpy as np

from .. import api, gen
from .c16 import pair

ID = 'C17'
LEVEL = 'exploration'
QUICK, THOROUGH = 700, 7000
REQUIRED = ['swap', 'diagonal', 'marginal', 'bounds', 'legendre', 'sign',
            'pipeline', 'lwt', 'q-default', 'peak']
RULE = ('pairs of signals and of multiresolution quantities; non-trivial: '
        'swapped, degenerate, sign-flipped and one-call analyses compared')


def bc(ctx, a, b, n, j1, j2, w):
    return ctx.call(api.BiCumulants, mrq1=a, mrq2=b, n_cumul=n, j1=j1, j2=j2,
                    weighted=w)


def bs(ctx, a, b, q1, q2, j1, j2, w):
    return ctx.call(api.BiStructureFunction, mrq1=a, mrq2=b, j1=j1, j2=j2,
                    q1=q1, q2=q2, weighted=w)


def legendre(ctx, rng, c):
    lo = float(rng.uniform(-1, .5))
    hi = lo + float(rng.uniform(.3, 2))
    n = int(rng.integers(3, 25))
    if rng.random() < .5:
        # other spectra of the same object before this one
        for other in (((lo, hi + .7), n), ((lo - .4, hi), n),
                      ((lo, hi), n + 2)):
            h, L = ctx.call(c.compute_legendre, *other)
            ctx.close('legendre-grid', h, np.linspace(*other[0], other[1]),
                      1e-12, 1e-12, 'h')
            h += 1.
            L *= 2.
    h, L = ctx.call(c.compute_legendre, (lo, hi), n)
    ctx.close('legendre-grid', h, np.linspace(lo, hi, n), 1e-12, 1e-12, 'h')
    k = c.log_cumulants
    C = np.array([[k[2, 0], k[1, 1]], [k[1, 1], k[0, 2]]])
    det = np.linalg.det(C)
    if abs(det) < 1e-9 * np.abs(C).max() ** 2:
        return
    d = np.stack(np.broadcast_arrays((h - k[1, 0])[:, None],
                                     (h - k[0, 1])[None, :]), axis=-1)
    want = 1 + .5 * np.einsum('ija,ab,ijb->ij', d, np.linalg.inv(C), d)
    ctx.close('legendre', L, want, 1e-6, 1e-6 * (1 + np.abs(want).max()),
              'L(h1, h2)')



def case(ctx, rng, i):
    if i % 2 == 0:
        m1, m2 = pair(ctx, rng)
        while gen.has_zero(m1) or gen.has_zero(m2):
            m1, m2 = pair(ctx, rng)
        j1, j2, w = gen.fit_range(ctx, rng, m1)
        n = int(rng.integers(2, 5))
        q1, q2 = [0, 1, 2, 3], [0, 1, 2]
        a, b = bc(ctx, m1, m2, n, j1, j2, w), bc(ctx, m2, m1, n, j1, j2, w)
        logs = 1 + max(np.nanmax(np.abs(np.log(np.abs(v))))
                       for m in (m1, m2) for v in m.values.values())
        order = np.add.outer(np.arange(n + 1), np.arange(n + 1))
        t = 1e-10 * (2 * logs) ** order
        ctx.close('swap', b.values, a.values.transpose(1, 0, 2), 1e-6,
                  t[:, :, None],
                  'swapped cumulants')
        ctx.close('swap', b.log_cumulants, a.log_cumulants.T, 1e-6, 30 * t,
                  'swapped log-cumulants')
        s, r = (bs(ctx, m1, m2, q1, q2, j1, j2, w),
                bs(ctx, m2, m1, q2, q1, j1, j2, w))
        mag = 1 + np.abs(s.logvalues).max()
        ctx.close('swap', r.zeta, s.zeta.T, 1e-7, 1e-8 * mag, 'swapped zeta')
        ctx.close('swap', r.coherence, s.coherence, 1e-8, 1e-9,
                  'swapped coherence')
        if a.RHO_MF is not None:
            ctx.close('swap', b.RHO_MF, a.RHO_MF, 1e-6, 1e-6, 'swapped RHO')
            ok = np.minimum(a.values[2, 0], a.values[0, 2]) > 1e-3
            ctx.dominated('bounds', np.abs(a.RHO_MF[ok]), 1., 1e-6,
                          what='|RHO_MF| <= 1')
        ctx.dominated('bounds', np.abs(s.coherence), 1., 1e-9,
                      what='|coherence| <= 1')

        # two identical components: the univariate analysis
        d = bc(ctx, m1, m1, n, j1, j2, w)
        top = min(2 * n, 6)
        c = ctx.call(api.Cumulants, mrq=m1, n_cumul=top, j1=j1, j2=j2,
                     weighted=w)
        for k1 in range(n + 1):
            for k2 in range(n + 1):
                k = k1 + k2
                if not 1 <= k <= top:
                    continue
                t = 1e-10 * logs ** k * 2 ** k
                ctx.close('diagonal', d.values[k1, k2], c.values[k - 1, :, 0],
                          1e-6, t, f'C_{k1}{k2} of (X, X)')
                ctx.close('diagonal', d.log_cumulants[k1, k2],
                          c.log_cumulants[k - 1, 0], 1e-6, 30 * t,
                          f'c_{k1}{k2} of (X, X)')
        e = bs(ctx, m1, m1, q1, q2, j1, j2, w)
        u = ctx.call(api.StructureFunction, mrq=m1, q=[0, 1, 2, 3, 4, 5],
                     j1=j1, j2=j2, weighted=w)
        for x, a1 in enumerate(q1):
            for y, a2 in enumerate(q2):
                mg = 1 + np.abs(u.logvalues[a1 + a2]).max()
                ctx.close('diagonal', e.zeta[x, y], u.zeta[a1 + a2, 0], 1e-7,
                          1e-8 * mg, f'zeta({a1},{a2}) of (X, X)')
        ctx.close('diagonal', e.coherence, np.ones(len(m1.values)), 1e-9, 0,
                  'coherence of (X, X)')
        # marginals: exponents (q, 0) are univariate when values are
        # available jointly
        same = all(np.array_equal(np.isnan(m1.values[j]),
                                  np.isnan(m2.values[j])) for j in m1.values)
        if same:
            for x, a1 in enumerate(q1):
                ctx.close('marginal', s.zeta[x, 0], u.zeta[a1, 0], 1e-7,
                          1e-8 * mag, f'zeta({a1}, 0)')
            for k in range(1, min(n, top) + 1):
                ctx.close('marginal', a.log_cumulants[k, 0],
                          c.log_cumulants[k - 1, 0], 1e-6,
                          3e-9 * logs ** k * 2 ** k, f'c_{k}0')
        if m1.formalism == 'wavelet coef':
            neg = api.MultiResolutionQuantity(m1.formalism, m1.gamint)
            for j, v in m2.values.items():
                neg.add_values(-3.5 * v, j)
            f = bs(ctx, m1, neg, q1, q2, j1, j2, w)
            ctx.close('sign', f.coherence, -s.coherence, 1e-9, 1e-12,
                      'coherence with -Y')
            ctx.close('sign', f.zeta, s.zeta, 1e-7, 1e-8 * mag,
                      'zeta with -3.5 Y')
            ctx.close('sign', bc(ctx, m1, neg, n, j1, j2, w).log_cumulants,
                      a.log_cumulants, 1e-6, 100 * t,
                      'log-cumulants with -3.5 Y')
        legendre(ctx, rng, a)

        # prescribed log-cumulants: the maximum of the spectrum is 1, at
        # (c10, c01), and it decreases away from it
        r11 = float(rng.uniform(-.9, .9))
        v1, v2 = rng.uniform(.02, .2, 2)
        p1, p2 = rng.uniform(.3, 1.2, 2)
        k = a.log_cumulants
        k[1, 0], k[0, 1], k[2, 0], k[0, 2] = p1, p2, -v1, -v2
        k[1, 1] = r11 * np.sqrt(v1 * v2)
        legendre(ctx, rng, a)
        h, L = ctx.call(a.compute_legendre, (p1 - .4, p1 + .4), 9)
        ctx.true('peak', np.nanmax(L) <= 1 + 1e-9, 'L above 1')
        if abs(p1 - p2) < .4:
            row = np.interp(p2, h, L[4])
            ctx.true('peak', row <= 1 + 1e-6 and row > 1 - .5 * .1 ** 2 / (
                v2 * (1 - r11 ** 2)) - 1e-6, 'maximum not at (c10, c01)')
        return

    # one call = stepwise
    n = gen.length(rng, 80, 1000)
    kinds = ['gauss', 'walk', 'frac', 'modulated', 'cascade', 'real']
    x = gen.signal(ctx, rng, n=n, nrep=1, ints=False, kinds=kinds)
    y = gen.signal(ctx, rng, n=n, nrep=1, ints=False, kinds=kinds)
    w = gen.wt_name(ctx, rng, n, pool=gen.SHORT)
    deep = gen.deepest(n, w)
    if deep < 2:
        return
    deep = gen.usable(x, w)
    j1, j2 = gen.scales(ctx, rng, deep)
    p = gen.p_exp(rng)
    g, nrm, wg = gen.gamint(rng), gen.normalization(rng), bool(
        rng.random() < .5)
    par = dict(p_exp=p, wt_name=w, j1=j1, j2=j2, gamint=g, normalization=nrm,
               weighted=wg)
    nc = int(rng.integers(1, 4))
    q1 = gen.pick(rng, [None, [0, 1, 2], [1., 2.]])
    q2 = gen.pick(rng, [None, [0, 1, 2], [2, 3]])
    ctx.params.update(par, q1=q1, q2=q2, n_cumul=nc)
    full = ctx.call(api.bivariate_analysis_full, x, y, q1=q1, q2=q2,
                    n_cumul=nc, **par)
    a = ctx.call(api.wavelet_analysis, x, **par)
    b = ctx.call(api.wavelet_analysis, y, **par)
    step = ctx.call(api.bivariate_analysis, a, b, j1, wg, nc, q1, q2)
    ctx.same('pipeline', full, step, what='bivariate one call vs two ')
    ctx.true('lwt', (full.lwt is None) == (p is None), f'lwt with p = {p}')
    jm = min(a.j2_eff, b.j2_eff)
    r1 = [0, 1, 2] if q1 is None else q1
    r2 = [0, 1, 2] if q2 is None else q2
    for side, m1, m2 in (('dwt', a.wt_coefs, b.wt_coefs),
                         ('lwt', a.wt_leaders, b.wt_leaders)):
        if m1 is None:
            continue
        ctx.same('pipeline', getattr(full, side).cumulants,
                 bc(ctx, m1, m2, nc, j1, jm, wg), what=side)
        ctx.same('pipeline' if q1 is not None and q2 is not None
                 else 'q-default', getattr(full, side).structure,
                 bs(ctx, m1, m2, np.array(r1), np.array(r2), j1, jm, wg),
                 what=side)
