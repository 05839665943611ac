"""Realisations are analysed independently of each other."""
import numpy as np

from .. import api, gen, ref

ID = 'C06'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 7000
REQUIRED = ['values', 'estimates', 'permutation', 'psd', 'units']
RULE = ('batches of 2 to 5 heterogeneous realisations (different missing '
        'samples, amplitudes, kinds) against each realisation alone and '
        'against a permuted batch; non-trivial: estimates compared')

Q = [-1.5, -1, 0, 1, 2, 3]
WIDE = [-6, -3, 1, 2, 5.5, 9]


def analyse(ctx, x, par, j1, j2, q=Q):
    wt = ctx.call(api.wavelet_analysis, x, **par)
    out = {'eta': wt.eta_p, 'wt': wt}
    mf = None
    if j2 is not None:
        mf = ctx.call(api.mf_analysis, wt.wt_coefs, wt.wt_leaders, j2, j1,
                      par['weighted'], 4, q)
    out['mf'] = mf
    return out


def column(mf, r):
    """Estimates of realisation r, as {name: array}"""
    out = {}
    for side in ('dwt', 'lwt'):
        v = getattr(mf, side)
        if v is None:
            continue
        s, c, p = v.structure, v.cumulants, v.spectrum
        out.update({
            side + '.logvalues': s.logvalues[:, :, r],
            side + '.values': s.values[:, :, r],
            side + '.zeta': s.zeta[:, r], side + '.H': s.H[r],
            side + '.intercept': s.intercept[:, r],
            side + '.C': c.values[:, :, r],
            side + '.c': c.log_cumulants[:, r],
            side + '.U': p.U[:, :, r], side + '.V': p.V[:, :, r],
            side + '.D': p.Dq[:, r], side + '.h': p.hq[:, r],
            side + '.hmin': v.hmin[r]})
    return out


def rounding(k, v, wt):
    """Absolute tolerance for the estimates v of one realisation: cumulants
    come from the raw moments of logarithms which can be large."""
    mx = np.max(np.abs(v[np.isfinite(v)]), initial=0)
    tol = 1e-7 * (1 + mx)
    if k[4:] in ('C', 'c'):
        m = wt.wt_coefs if k[:3] == 'dwt' else wt.wt_leaders
        logs = max(np.nanmax(np.abs(np.log(np.abs(a))))
                   for a in m.values.values())
        order = np.arange(1, len(v) + 1.).reshape((-1,) + (1,) * (v.ndim - 1))
        tol = tol + 1e-12 * (2 * (1 + logs)) ** order
    return tol


def many(ctx, rng):
    """Large batches: the block sizes of an implementation are no matter."""
    nrep = int(gen.pick(rng, [33, 65, 100, 129, 257, 513, 1025]))
    n = int(rng.integers(80, 200))
    x = np.cumsum(rng.standard_normal((n, nrep)), axis=0)
    ctx.params.update(many=nrep, n=n)
    p = gen.pick(rng, [None, np.inf, 2])
    par = dict(p_exp=p, wt_name='db1', j1=1, j2=3, weighted=True)
    batch = analyse(ctx, x, par, 1, 3)
    for r in {0, nrep - 1, *rng.integers(nrep, size=3)}:
        one = analyse(ctx, x[:, r], par, 1, 3)
        for j, v in one['wt'].wt_coefs.values.items():
            ctx.close('values', batch['wt'].wt_coefs.values[j][:, r],
                      v[:, 0], 1e-8, 1e-11, f'realisation {r} of {nrep}')
        a, b = column(batch['mf'], r), column(one['mf'], 0)
        for k in a:
            v = np.asarray(b[k])
            ctx.close('estimates', a[k], v, 1e-6, rounding(k, v, one['wt']),
                      f'realisation {r} of {nrep}: {k}')
    f, ps = ctx.call(api.wavelet_estimation, x, 10., 1)
    _, one = ctx.call(api.wavelet_estimation, x[:, -1], 10., 1)
    ctx.close('psd', ps[:, -1], one[:, 0], 1e-8, 1e-12, 'wavelet psd')
    ctx.state(nrep)


def apart(ctx, rng):
    """Units at both ends of the floating-point range: the coefficients and
    the suprema of one realisation are as precise as alone."""
    nrep = int(rng.integers(2, 5))
    n = int(rng.integers(100, 700))
    x = rng.standard_normal((n, nrep))
    if rng.random() < .5:
        x = np.cumsum(x, axis=0)
    unit = 2. ** rng.integers(-960, 960, nrep)
    unit[:2] = 2. ** rng.integers(-960, -700), 2. ** rng.integers(700, 960)
    unit = rng.permutation(unit)
    w = gen.pick(rng, ['haar', 'db2', 'db3', 'db5', 'sym4'])
    par = dict(p_exp=gen.pick(rng, [None, np.inf]), wt_name=w, j1=1, j2=None,
               weighted=False)
    ctx.params.update(units=unit, **par)
    plain = ctx.call(api.wavelet_analysis, x, **par)
    batch = ctx.call(api.wavelet_analysis, x * unit, **par)
    for name in ('wt_coefs', 'wt_leaders'):
        a, b = getattr(plain, name), getattr(batch, name)
        if a is None:
            continue
        ctx.true('values', list(a.values) == list(b.values), 'scales')
        for j, v in a.values.items():
            ctx.close('units', b.values[j] / unit, v, 1e-12,
                      1e-13 * np.nanmax(np.abs(v), axis=0),
                      f'{name} of scale {j}, realisations of other units')
    for r in range(nrep):
        one = ctx.call(api.wavelet_analysis, x[:, r] * unit[r], **par)
        for name in ('wt_coefs', 'wt_leaders'):
            a, b = getattr(one, name), getattr(batch, name)
            if a is None:
                continue
            for j, v in b.values.items():
                ctx.close('units', v[:, r] / unit[r],
                          a.values[j][:, 0] / unit[r], 1e-12, 1e-13 *
                          np.nanmax(np.abs(v[:, r])) / unit[r],
                          f'{name} of scale {j}, realisation {r} alone')
    ctx.state(nrep, 'apart')


def case(ctx, rng, i):
    if i % 40 == 7:
        return many(ctx, rng)
    if i % 20 == 13:
        return apart(ctx, rng)
    nrep = int(rng.integers(2, 6))
    kinds = ['gauss', 'walk', 'frac', 'walk_trend', 'heavy', 'offset',
             'modulated', 'cascade', 'real']
    x = gen.signal(ctx, rng, nrep=nrep, ints=False, kinds=kinds, hi=1500)
    scale = 10. ** rng.integers(-3, 4, nrep)
    q = Q
    if rng.random() < .25:
        # units which have nothing in common
        scale = 2. ** rng.choice(gen.EXTREME[3:-1] + [0, 0], nrep)
        q = WIDE
        ctx.params['units'] = scale
    x = np.array(x) * scale
    w = gen.wt_name(ctx, rng, len(x), pool=gen.SHORT)
    if rng.random() < .5:
        y = gen.with_gaps(ctx, rng, x)
        if gen.usable(y, w) >= 2:
            x = y
    p = gen.p_exp(rng)
    par = dict(p_exp=p, wt_name=w, j1=1, j2=None, gamint=gen.gamint(rng),
               normalization=gen.normalization(rng),
               weighted=bool(rng.random() < .6))
    if p is not None and np.isfinite(p):
        # same regression range for the batch and for the single columns
        par['j2'] = gen.usable(x, w)
    ctx.params.update(par)
    deep = gen.usable(x, w)
    j1 = int(rng.integers(1, deep))
    j2 = int(rng.integers(j1 + 1, deep + 1))
    if any((v == 0).any() for v in ref.coefs(x, w).values()):
        j2 = None
    batch = analyse(ctx, x, par, j1, j2, q)

    for r in range(nrep):
        one = analyse(ctx, x[:, [r]] if rng.random() < .5 else x[:, r], par,
                      j1, j2, q)
        for m, s in ((batch['wt'].wt_coefs, one['wt'].wt_coefs),
                     (batch['wt'].wt_leaders, one['wt'].wt_leaders)):
            if m is None:
                continue
            ctx.true('values', list(s.values)[:len(m.values)]
                     == list(m.values), 'a realisation alone has fewer '
                     'scales')
            for j in m.values:
                mx = np.nanmax(np.abs(s.values[j]))
                ctx.close('values', m.values[j][:, r], s.values[j][:, 0],
                          1e-8, 1e-11 * mx, f'realisation {r}, scale {j}')
                ctx.close('values', m.nj[j][r], s.nj[j][0], 0, 0, 'nj')
        if batch['eta'] is not None:
            ctx.close('estimates', batch['eta'][r], one['eta'][0], 1e-8,
                      1e-9, 'eta_p')
        if j2 is None:
            continue
        a, b = column(batch['mf'], r), column(one['mf'], 0)
        for k in a:
            n = min(np.shape(a[k])[:1] + np.shape(b[k])[:1], default=0)
            u, v = np.asarray(a[k]), np.asarray(b[k])
            if u.shape != v.shape:
                # the batch may have fewer scales, never more
                n = tuple(slice(0, min(s, t)) for s, t in
                          zip(u.shape, v.shape))
                u, v = u[n], v[n]
            ctx.close('estimates', u, v, 1e-6, rounding(k, v, one['wt']),
                      f'realisation {r}: {k}')

    perm = rng.permutation(nrep)
    moved = analyse(ctx, x[:, perm], par, j1, j2, q)
    for m, s in ((batch['wt'].wt_coefs, moved['wt'].wt_coefs),
                 (batch['wt'].wt_leaders, moved['wt'].wt_leaders)):
        if m is not None:
            ctx.true('permutation', list(m.values) == list(s.values),
                     'scales')
            for j in m.values:
                ctx.close('permutation', s.values[j], m.values[j][:, perm],
                          1e-8, 1e-11 * np.nanmax(np.abs(m.values[j])),
                          f'permuted batch, scale {j}')
    if j2 is not None:
        for r in range(nrep):
            a, b = column(batch['mf'], perm[r]), column(moved['mf'], r)
            for k in a:
                v = np.asarray(b[k])
                ctx.close('permutation', a[k], v, 1e-6,
                          rounding(k, v, batch['wt']),
                          f'permuted batch: {k}')

    if not np.isnan(x).any():
        nm = int(rng.integers(1, 5))
        if gen.deepest(len(x), f'db{nm}') >= 1:
            f, ps = ctx.call(api.wavelet_estimation, x, 10., nm)
            for r in range(nrep):
                f1, p1 = ctx.call(api.wavelet_estimation, x[:, r], 10., nm)
                ctx.close('psd', f, f1, 1e-12, 0, 'frequencies')
                ctx.close('psd', ps[:, r], p1[:, 0], 1e-8,
                          1e-18 * np.max(x[:, r] ** 2), 'wavelet psd')
            if len(f) > 1:
                band = (f.min() / 2, f.max() * 2)
                fr = ctx.call(api.estimate_beta, f, ps, band)
                for r in range(nrep):
                    s = ctx.call(api.estimate_beta, f, ps[:, r], band)
                    ctx.close('psd', fr.beta[r], s.beta, 1e-8, 1e-9, 'beta')
    ctx.state(nrep, deep, p)
