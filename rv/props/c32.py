"""Requests that cannot be answered are refused, not answered wrongly."""
import numpy as np

from .. import api, core, gen

ID = 'C32'
LEVEL = 'exploration'
QUICK, THOROUGH = 4000, 30000
KINDS = ['formalism', 'wavelet', 'pair-formalism', 'pair-counts',
         'pair-gamint', 'scale-out', 'one-scale', 'too-short', 'all-missing',
         'weights', 'base', 'band', 'single-q']
REQUIRED = KINDS + ['accepted']
RULE = ('random invalid requests next to their valid neighbours; '
        'non-trivial: the invalid one raised (or gave only NaN where the '
        'kind says so) and the valid one returned numbers')


def finite(obj):
    for path, leaf in core.flatten(obj):
        if any(path.endswith(s) for s in ('.zeta', '.log_cumulants', '.Dq',
                                          '.hq', '.hmin', '.H')):
            if leaf is not None and np.isfinite(leaf).any():
                return path
    return None


def refused(ctx, oracle, exc, fn, *a, **k):
    ctx.values += 1
    ctx.raises(oracle, exc, fn, *a, **k)


def unanswered(ctx, oracle, fn, *a, **k):
    """Raises, or returns no finite exponent."""
    ctx.values += 1
    try:
        out = ctx.call(fn, *a, **k)
    except Exception:
        ctx.oracles[oracle] += 1
        return
    path = finite(out)
    ctx.true(oracle, path is None, f'{path} is a number')


def estimators(m, j1, j2, w):
    yield api.StructureFunction, dict(mrq=m, q=[1, 2], j1=j1, j2=j2,
                                      weighted=w)
    yield api.Cumulants, dict(mrq=m, n_cumul=2, j1=j1, j2=j2, weighted=w)
    yield api.MultifractalSpectrum, dict(mrq=m, q=[0, 1, 2], j1=j1, j2=j2,
                                         weighted=w)


def pair(m, n, j1, j2, w):
    yield api.BiCumulants, dict(mrq1=m, mrq2=n, n_cumul=2, j1=j1, j2=j2,
                                weighted=w)
    yield api.BiStructureFunction, dict(mrq1=m, mrq2=n, q1=[0, 1, 2],
                                        q2=[0, 1, 2], j1=j1, j2=j2,
                                        weighted=w)


def clone(m, formalism=None, gamint=None, drop=None):
    out = api.MultiResolutionQuantity(
        m.formalism if formalism is None else formalism,
        m.gamint if gamint is None else gamint)
    for j, v in m.values.items():
        v = v.copy()
        if j == drop:
            v[np.flatnonzero(~np.isnan(v[:, 0]))[-1]] = np.nan
        out.add_values(v, j)
    return out


def case(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    ctx.params['kind'] = kind
    forms = ['wavelet coef', 'wavelet leader', 'wavelet p-leader']
    if kind == 'formalism':
        bad = gen.pick(rng, ['wavelet coefs', 'leader', '', None, 'p-leader',
                             'Wavelet coef', 'wavelet', 3])
        refused(ctx, kind, ValueError, api.MultiResolutionQuantity, bad, 0.)
        for f in forms:
            m = ctx.call(api.MultiResolutionQuantity, f, 0.)
            ctx.true('accepted', m.formalism == f, f)
    elif kind == 'wavelet':
        x = gen.signal(ctx, rng, hi=400)
        bad = gen.pick(rng, ['db0', 'db99', 'nope', 'sym1', ''])
        refused(ctx, kind, Exception, api.wavelet_analysis, x, wt_name=bad)
        refused(ctx, kind, Exception, api.mf_analysis_full, x, 1, 3,
                wt_name=bad)
        refused(ctx, kind, Exception, api.decomposition_level, 512, bad)
        ctx.true('accepted', len(ctx.call(
            api.wavelet_analysis, x, wt_name='db1').wt_coefs.values) > 0, '')
    elif kind.startswith('pair'):
        m = gen.mrq(ctx, rng, nrep=1, positive=True)
        j1, j2, w = gen.fit_range(ctx, rng, m)
        if kind == 'pair-formalism':
            n = clone(m, formalism=gen.pick(
                rng, [f for f in forms if f != m.formalism]))
        elif kind == 'pair-counts':
            n = clone(m, drop=int(rng.integers(1, len(m.values) + 1)))
        else:
            n = clone(m, gamint=m.gamint + .5)
        for cls, kw in pair(m, n, j1, j2, w):
            if kind == 'pair-gamint' and cls is api.BiCumulants:
                continue        # no estimate of it depends on gamint
            refused(ctx, kind, Exception, cls, **kw)
        for cls, kw in pair(m, clone(m), j1, j2, w):
            ctx.true('accepted', finite(ctx.call(cls, **kw)) is not None,
                     cls.__name__)
        if kind == 'pair-counts':
            n1, n2 = (int(v) for v in rng.choice(
                np.arange(200, 500), 2, replace=False))
            refused(ctx, kind, Exception, api.bivariate_analysis_full,
                    rng.standard_normal(n1), rng.standard_normal(n2 + 300),
                    1, 4, wt_name='db2')
    elif kind in ('scale-out', 'one-scale'):
        m = gen.mrq(ctx, rng, positive=True)
        J = len(m.values)
        w = bool(rng.random() < .5)
        if kind == 'one-scale':
            j1 = j2 = int(rng.integers(1, J + 1))
        else:
            j1, j2 = int(rng.integers(1, J + 2)), J + int(rng.integers(1, 4))
        ctx.params.update(j1=j1, j2=j2, J=J, w=w)
        for cls, kw in estimators(m, j1, j2, w):
            if kind == 'one-scale':
                unanswered(ctx, kind, cls, **kw)
            else:
                refused(ctx, kind, Exception, cls, **kw)
        if kind == 'scale-out':
            refused(ctx, kind, Exception, api.estimate_hmin, m, j1, j2, w)
            a = gen.mrq(ctx, rng, nrep=1, positive=True)
            J = len(a.values)
            for cls, kw in pair(a, clone(a), J, J + 1, w):
                refused(ctx, kind, Exception, cls, **kw)
        J = len(m.values)
        for cls, kw in estimators(m, 1, J, w):
            ctx.true('accepted', finite(ctx.call(cls, **kw)) is not None,
                     cls.__name__)
    elif kind == 'too-short':
        w = gen.pick(rng, ['db1', 'db2', 'db3', 'db6', 'sym5', 'bior2.2'])
        p = gen.p_exp(rng)
        n = int(rng.integers(1, 60))
        j1 = 1
        while gen.deepest(n, w) > 1:
            n = max(1, n // 2)
        if rng.random() < .5:
            n = int(rng.integers(60, 400))
            j1 = gen.deepest(n, w) + int(rng.integers(0, 4))
            if j1 < 1:
                j1 = 1
        x = rng.standard_normal((n, int(rng.integers(1, 3))))
        ctx.params.update(n=n, w=w, p=p, j1=j1)
        unanswered(ctx, kind, api.mf_analysis_full, x, j1, 10, wt_name=w,
                   p_exp=p)
    elif kind == 'all-missing':
        x = rng.standard_normal((300, int(rng.integers(1, 4))))
        x[:, int(rng.integers(x.shape[1]))] = np.nan
        p = gen.p_exp(rng)
        unanswered(ctx, kind, api.mf_analysis_full, x, 1, 5, p_exp=p,
                   wt_name='db2')
    elif kind == 'weights':
        n = int(rng.integers(3, 9))
        x = np.tile(np.arange(1., n + 1)[:, None], (1, 2))
        y, nj = rng.standard_normal((n, 2)), rng.integers(1, 50, (n, 2))
        refused(ctx, kind, Exception, api.linear_regression, x, y,
                nj.tolist())
        refused(ctx, kind, Exception, api.linear_regression, x, y, nj[1:])
        refused(ctx, kind, Exception, api.linear_regression, x, y, nj[:1])
        refused(ctx, kind, Exception, api.linear_regression, x, y[1:], nj)
        refused(ctx, kind, Exception, api.linear_regression, x, y[:1], nj)
        ctx.true('accepted', np.isfinite(ctx.call(
            api.linear_regression, x, y, nj)).all(), 'regression')
    elif kind in ('base', 'band'):
        f = np.sort(rng.uniform(.1, 1.9, 12))
        p = f ** -1.2
        if kind == 'base':
            bad = gen.pick(rng, ['log10', 'ln', '', None, 'exp'])
            refused(ctx, kind, Exception, api.estimate_beta, f, p, log=bad)
            refused(ctx, kind, Exception, api.log_plot, [f], [p], log=bad)
        else:
            refused(ctx, kind, Exception, api.estimate_beta, f, p,
                    freq_band=(2.5, 9.))
            refused(ctx, kind, Exception, api.estimate_beta, f, p,
                    freq_band=(1.5, .5))
        ctx.true('accepted', np.isfinite(ctx.call(
            api.estimate_beta, f, p).beta), 'beta')
    else:
        m = gen.mrq(ctx, rng, nrep=1, positive=True)
        s = ctx.call(api.StructureFunction, m, [2], 1, 2, True)
        refused(ctx, kind, Exception, s.plot_scaling)
    ctx.state(kind, str(ctx.params)[:60])
