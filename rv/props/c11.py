"""Weighted linear regression."""
import numpy as np

from .. import api, gen, ref

ID = 'C11'
LEVEL = 'exploration'
QUICK, THOROUGH = 20000, 120000
REQUIRED = ['least-squares', 'normal-equations', 'exact-line', 'weight-scale',
            'optimal', 'missing-ordinate']
RULE = ('random abscissae (regular or not), ordinates, weights (equal, '
        'integer counts, spread over decades, per realisation); non-trivial: '
        'slope and intercept compared with an independent solver')


def case(ctx, rng, i):
    n = int(rng.integers(2, 16))
    r = int(rng.integers(1, 5))
    if i % 40 == 7:     # many realisations
        r = int(2 ** rng.uniform(3, 10))
    if i % 40 == 17:
        n = int(2 ** rng.uniform(4, 8))
    one_d = rng.random() < .25
    kind = gen.pick(rng, ['scales', 'scales', 'irregular', 'negative'])
    x0 = int(rng.integers(1, 9))
    x = np.arange(x0, x0 + n).astype(int if rng.random() < .5 else float)
    if kind == 'irregular':
        x = np.sort(rng.uniform(0, 12, n)) + np.arange(n) * .3
    elif kind == 'negative':
        x = x - 6
    if kind != 'negative' and rng.random() < .25:
        x = x.astype(gen.pick(rng, ['f4', 'i4', 'i2', 'u1', 'u2', '>f8'])
                     if kind == 'scales' else 'f4')
    elif rng.random() < .05:
        x = x * 2 ** int(rng.integers(1, 40))
    wk = gen.pick(rng, ['ones', 'counts', 'spread', 'uneven', 'big',
                        'small int'])
    w = np.ones((n, r))
    if wk == 'counts':
        w = np.floor(2. ** (12 - np.arange(n)) + 3)[:, None] * np.ones(r)
        w = w.astype(int)
    elif wk == 'spread':
        w = 10. ** rng.uniform(-2, 4, (n, r))
    elif wk == 'uneven':
        w = rng.integers(3, 5000, (n, r))
    elif wk == 'big':
        w = rng.integers(3, 5000, (n, r)) * 10 ** int(rng.integers(4, 14))
    elif wk == 'small int':
        w = rng.integers(3, 250, (n, r)).astype(gen.pick(rng, [
            'u1', 'i2', 'i4', 'u8', 'f4', '>i4']))
    y = rng.standard_normal((n, r)) * 10. ** rng.integers(-4, 5) \
        + rng.uniform(-20, 20)
    ctx.params.update(n=n, r=r, abscissae=kind, weights=wk, one_d=one_d)
    x2 = np.tile(np.asarray(x)[:, None], (1, r))
    ctx.params.update(dtypes=f'{x.dtype} {w.dtype}')
    if one_d:
        a, b = ctx.call(api.linear_regression, x, y[:, 0], w[:, 0])
        a, b, y, w = np.array([a]), np.array([b]), y[:, :1], w[:, :1]
    else:
        broadcast = rng.random() < .3
        a, b = ctx.call(api.linear_regression, x2 if not broadcast else
                        x2[:, :1], y, w)
    r = y.shape[1]
    W = w.astype(float)
    xx = np.asarray(x, float)[:, None]
    ybar = np.abs(y).max()
    xm = (W * xx).sum(0) / W.sum(0)
    var = (W * (xx - xm) ** 2).sum(0) / W.sum(0)
    m2 = (W * xx ** 2).sum(0) / W.sum(0)
    cond = 1 + (np.abs(xx).max() + 1) ** 2 * m2 / var ** 2 + m2 / var
    ta = 1e-12 * cond * ybar
    res = [ref.wls(xx[:, 0], y[:, k], W[:, k]) for k in range(r)]
    # the reference itself loses accuracy with badly spread weights
    ctx.close('least-squares', a, [v[0] for v in res], 1e-7, 1e3 * ta + 1e-9,
              'slope')
    ctx.close('least-squares', b, [v[1] for v in res], 1e-7,
              1e3 * ta * (1 + np.abs(xx).max()) + 1e-9, 'intercept')
    # first order conditions of the weighted sum of squares
    e = y - a * xx - b
    scale = (W * (np.abs(y) + np.abs(a * xx) + np.abs(b))).sum(0)
    ctx.close('normal-equations', (W * e).sum(0) / scale, np.zeros(r), 0,
              1e-9 * (1 + cond * 1e-3), 'weighted residuals sum to 0')
    ctx.close('normal-equations', (W * e * xx).sum(0)
              / (scale * (1 + np.abs(xx).max())), np.zeros(r), 0,
              1e-9 * (1 + cond * 1e-3), 'residuals orthogonal to x')
    cost = (W * e ** 2).sum(0)
    for da, db in rng.standard_normal((3, 2)) * 1e-2 * ybar:
        other = (W * (y - (a + da) * xx - (b + db)) ** 2).sum(0)
        ctx.dominated('optimal', cost, other, 1e-9,
                      1e-12 * (W * y ** 2).sum(0).max(),
                      'a perturbed line fits better')
    # exact lines whatever the weights
    s, t = rng.uniform(-3, 3, 2)
    a, b = ctx.call(api.linear_regression, x2[:, :r],
                    s * x2[:, :r].astype(float) + t, w)
    tol = 1e-11 * cond * (abs(s) * np.abs(xx).max() + abs(t) + 1)
    ctx.close('exact-line', a, np.full(r, s), 1e-9, tol, 'slope of a line')
    ctx.close('exact-line', b, np.full(r, t), 1e-9,
              tol * (1 + np.abs(xx).max()), 'intercept of a line')
    # only the ratios of the weights matter
    a1, b1 = ctx.call(api.linear_regression, x2[:, :r], y, w)
    a2, b2 = ctx.call(api.linear_regression, x2[:, :r], y, W * 7.5)
    ctx.close('weight-scale', a2, a1, 1e-8, ta * 10, 'slope')
    ctx.close('weight-scale', b2, b1, 1e-8,
              ta * 10 * (1 + np.abs(xx).max()), 'intercept')
    # a missing ordinate concerns its own line only
    hole = y.copy()
    col = int(rng.integers(r))
    hole[int(rng.integers(n)), col] = np.nan
    a4, b4 = ctx.call(api.linear_regression, x2[:, :r], hole, w)
    for got, full in ((a4, a1), (b4, b1)):
        want = np.array(full, float)
        want[col] = np.nan
        ctx.close('missing-ordinate', got, want, 1e-12, 0,
                  f'ordinate of line {col} missing')
    a3, b3, _ = ctx.call(api.linear_regression, x2[:, :r], y, w,
                         return_variance=True)
    ctx.close('same-fit', [a3, b3], [a1, b1], 1e-12, 0, 'return_variance')
