"""Fractional Gaussian noise and fractional Brownian motion."""
import numpy as np

from .. import api, gen, ref

ID = 'C18'
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 9000
REQUIRED = ['cme-covariance', 'chol-covariance', 'sampled-covariance',
            'fbm-cumsum', 'fbm-covariance', 'linear', 'long-covariance',
            'long-variance']
RULE = ('random length, H, sigma, sampling step and method; the exact '
        'covariance is read off the response to every unit noise input, and '
        'the default noise is checked on sampled covariances; non-trivial: '
        'whole covariance matrices compared')


def exact(ctx, fn, N, H, sigma, dt, method):
    """Covariance of the output for standard (complex) Gaussian noise"""
    if method == 'chol':
        x = ctx.call(fn, (N, N), H, sigma, dt, method='chol', z0=np.eye(N))
        return x @ x.T
    m = 2 * N - 2
    a = ctx.call(fn, (N, m), H, sigma, dt, z0=np.eye(m))
    b = ctx.call(fn, (N, m), H, sigma, dt, z0=1j * np.eye(m))
    return a @ a.T + b @ b.T


def rows(ctx, N, H, sigma, dt, pick, chunk=256):
    """The same, between a few instants of long signals"""
    m = 2 * N - 2
    C = np.zeros((len(pick), len(pick)))
    for s in range(0, m, chunk):
        z = np.zeros((m, min(chunk, m - s)), complex)
        for unit in (1, 1j):
            z[np.arange(s, s + z.shape[1]), np.arange(z.shape[1])] = unit
            a = ctx.call(api.fgn, (N, z.shape[1]), H, sigma, dt,
                         z0=z)[pick]
            C += a @ a.T
    return C


def long_signal(ctx, rng):
    N = int(rng.integers(4100, 6500))
    H = float(rng.uniform(.7, .97))
    pick = np.unique(np.concatenate([
        [0, 1, 2, 5, N - 1], rng.integers(0, N, 12),
        N - 1 - 2 ** np.arange(3, 12)]))
    ctx.params.update(N=N, H=H)
    r = ref.fgn_cov(N, H, 1.)
    ctx.close('long-covariance', rows(ctx, N, H, 1., None, pick) / r[0],
              r[np.abs(pick[:, None] - pick)] / r[0], 1e-6, 1e-7,
              'covariance of a long fgn')


def very_long(ctx, rng, N, R=48):
    """Aggregated variance, over realisations"""
    H = float(rng.uniform(.3, .8))
    ctx.params.update(N=N, H=H)
    p = {}
    for _ in range(3):
        x = ctx.call(api.fbm, (N, R), H, 1., 1)
        ctx.true('long-shape', x.shape == (N, R) and np.isfinite(x).all(),
                 'shape or content')
        for n in 2 ** np.arange(0, int(np.log2(N)) - 1):
            d = x[n::max(1, n // 4)] - x[:-n:max(1, n // 4)]
            p.setdefault(int(n), []).append(
                (d ** 2).mean(axis=0) / n ** (2 * H))
    for n, v in p.items():
        v = np.concatenate(v)
        ctx.close('long-variance', v.mean(), 1., 0,
                  7 * max(v.std(), .02) / np.sqrt(v.size),
                  f'variance of the increments of a long fbm over {n}')


def case(ctx, rng, i):
    if i % 750 == 40:
        return long_signal(ctx, rng)
    if i % 250 == 60:
        return very_long(ctx, rng, int(2 ** rng.uniform(13, 16)))
    N = int(rng.integers(2, 70)) if rng.random() < .7 else 2 ** int(
        rng.integers(1, 7))
    if i % 100 == 50:
        N = int(rng.integers(257, 1300))
    H = float(gen.pick(rng, [.5, .1, .9, 1., .25, .75,
                             float(rng.uniform(.02, .99))]))
    sigma = float(gen.pick(rng, [1., 1., .1, 3.]))
    dt = gen.pick(rng, [None, None, 1, .5, .01, 2.])
    ctx.params.update(N=N, H=H, sigma=sigma, dt=dt)
    r = ref.fgn_cov(N, H, sigma, dt)
    C = ref.toeplitz(r)
    ctx.close('cme-covariance', exact(ctx, api.fgn, N, H, sigma, dt, 'cme'),
              C, 1e-7, 1e-7 * r[0], 'covariance of fgn (cme)')
    if H < 1:
        ctx.close('chol-covariance', exact(ctx, api.fgn, N, H, sigma, dt,
                                           'chol'), C, 1e-7, 1e-9 * r[0],
                  'covariance of fgn (chol)')
    t = np.arange(1, N + 1.)
    h = 2 * H
    step = 1. / N if dt is None else dt
    B = sigma ** 2 / 2 * step ** h * (
        t[:, None] ** h + t[None, :] ** h
        - np.abs(t[:, None] - t[None, :]) ** h)
    ctx.close('fbm-covariance', exact(ctx, api.fbm, N, H, sigma, dt, gen.pick(
        rng, ['cme', 'chol']) if H < 1 else 'cme'), B, 1e-6,
        1e-7 * B.max(), 'covariance of fbm')

    # default noise
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    x = ctx.call(api.fgn, (N, 3), H, sigma, dt)
    np.random.seed(seed)
    y = ctx.call(api.fbm, (N, 3), H, sigma, dt)
    ctx.close('fbm-cumsum', y, np.cumsum(x, axis=0), 1e-10, 1e-12 * np.abs(
        x).max(), 'fbm is the cumulated fgn')
    np.random.seed(seed)
    z = ctx.call(api.fgn, (N, 3), H, 2.5 * sigma, dt)
    # (square roots of vanishing eigenvalues when H = 1)
    ctx.close('linear', z, 2.5 * x, 1e-6, 1e-6 * np.abs(x).max(),
              'fgn is proportional to sigma')

    if i % 4 == 0:
        n, R = int(rng.integers(2, 13)), 20000
        method = gen.pick(rng, ['cme', 'chol'])
        Hs = min(H, .95)
        ctx.params.update(sampled=(n, method))
        x = ctx.call(api.fgn, (n, R), Hs, sigma, dt, method=method)
        r = ref.fgn_cov(n, Hs, sigma, dt)
        C = ref.toeplitz(r)
        sd = np.sqrt((r[0] ** 2 + C ** 2) / R)
        ctx.close('sampled-covariance', x @ x.T / R, C, 0, 6.5 * sd,
                  'sampled covariance')
        ctx.close('sampled-mean', x.mean(axis=1), np.zeros(n), 0,
                  6.5 * np.sqrt(r[0] / R), 'sampled mean')
        k = (x ** 4).mean(axis=1) / (x ** 2).mean(axis=1) ** 2
        ctx.close('sampled-kurtosis', k, np.full(n, 3.), 0,
                  8 * np.sqrt(24. / R) + .02, 'kurtosis')
        # realisations are independent
        c = np.mean(x[:, :R // 2] * x[:, R // 2:], axis=1)
        ctx.close('sampled-independence', c, np.zeros(n), 0,
                  6.5 * r[0] / np.sqrt(R / 2), 'two realisations')
    ctx.state(N, round(H, 2))
