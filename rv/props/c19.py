"""Multifractal random walk."""
import numpy as np

from .. import api, gen, ref

ID = 'C19'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 4800
REQUIRED = ['log-amplitude', 'mean', 'gaussian-part', 'lam0', 'cumul',
            'sigma', 'sampled-power', 'sampled-log-covariance', 'chol',
            'long-covariance', 'long-structure']
RULE = ('random length, H, lambda, integral scale and method; the amplitude '
        'is read off the ratio to the same noise without intermittency, its '
        'covariance off the response to every unit noise input; non-trivial: '
        'whole covariance matrices compared')


def circulant_ok(c):
    full = np.concatenate((c, c[1:-1][::-1]))
    return np.fft.fft(full).real.min() > -1e-10 * max(abs(full).sum(), 1e-30)


def w_of(ctx, N, H, lam, L, method, ze, zw):
    """log-amplitude of every increment"""
    R = zw.shape[1]
    x = ctx.call(api.mrw, (N, R), H, lam, L, method=method, z0=(ze, zw))
    e = ctx.call(api.fgn, (N, R), H, 1, None, method, ze)
    inc = np.diff(x, axis=0, prepend=0)
    ctx.true('gaussian-part', (np.sign(inc) == np.sign(e)).all(),
             'signs of the increments are not those of the Gaussian noise')
    return np.log(inc / e)


def pick_scale(rng, N, lam):
    for L in (gen.pick(rng, [N, N // 2, N / 1.7, N // 3]), N, N // 2, 3):
        if circulant_ok(ref.mrw_cov(N, L, lam)):
            return L
    return 2


def long_walk(ctx, rng, N):
    """Covariance of the log-amplitudes at a few instants, from the response
    to every unit input"""
    H, lam = float(rng.uniform(.3, .9)), float(rng.uniform(.1, .5))
    L = pick_scale(rng, N, lam)
    m = 2 * N - 2
    ctx.params.update(N=N, H=H, lam=lam, L=L)
    pick = np.unique(np.concatenate([
        [0, 1, 2, 5, N - 1], rng.integers(0, N, 12),
        N - 1 - 2 ** np.arange(3, int(np.log2(N)) - 1)]))
    e1 = rng.standard_normal((m, 1)) + 1j * rng.standard_normal((m, 1))
    mean = -lam ** 2 / 2 * np.log(L)
    cov = np.zeros((len(pick), len(pick)))
    for s in range(0, m, 128):
        k = min(128, m - s)
        z = np.zeros((m, k), complex)
        ze = np.tile(e1, (1, k))
        for unit in (1, 1j):
            z[np.arange(s, s + k), np.arange(k)] = unit
            w = w_of(ctx, N, H, lam, L, 'cme', ze, z)
            a = w[pick] - mean
            cov += a @ a.T
    c = ref.mrw_cov(N, L, lam)
    cum = np.concatenate([[0], np.cumsum(c)])
    avg = (cum[pick + 1] + cum[N - pick] - c[0]) / N
    tot = (N * c[0] + 2 * np.sum((N - np.arange(1, N)) * c[1:])) / N ** 2
    want = c[np.abs(pick[:, None] - pick)] - avg[:, None] - avg + tot
    ctx.close('long-covariance', cov / c[0], want / c[0], 1e-6, 1e-6,
              'covariance of the log-amplitude of a long walk')


def very_long(ctx, rng, N, R=32):
    """Structure function of the log-amplitude, over realisations"""
    H, lam = float(rng.uniform(.2, .8)), .4
    L = pick_scale(rng, N, lam)
    m = 2 * N - 2
    ctx.params.update(N=N, H=H, L=L)
    ze = rng.standard_normal((m, R)) + 1j * rng.standard_normal((m, R))
    zw = rng.standard_normal((m, R)) + 1j * rng.standard_normal((m, R))
    w = w_of(ctx, N, H, lam, L, 'cme', ze, zw)
    ctx.close('long-mean', w.mean(axis=0), np.full(
        R, -lam ** 2 / 2 * np.log(L)), 1e-8, 1e-8, 'mean of a long walk')
    c = ref.mrw_cov(N, L, lam)
    for h in 2 ** np.arange(0, int(np.log2(N)) - 1):
        d = ((w[h:] - w[:-h]) ** 2).mean(axis=0)
        want = 2 * (c[0] - c[h])
        ctx.close('long-structure', d.mean(), want, 0,
                  7 * max(d.std(), .02 * want) / np.sqrt(R),
                  f'log-amplitude of a long walk at lag {h}')


def case(ctx, rng, i):
    if i % 400 == 40:
        return long_walk(ctx, rng, int(rng.integers(1100, 2600))
                         if i % 800 else int(rng.integers(4100, 5000)))
    if i % 200 == 60:
        return very_long(ctx, rng, int(2 ** rng.uniform(12, 15.5)))
    N = int(rng.integers(6, 48)) if i % 100 != 50 else int(
        rng.integers(129, 520))
    H = float(rng.uniform(.15, .95))
    lam = float(gen.pick(rng, [.05, .2, .4, float(rng.uniform(.02, .6))]))
    L = gen.pick(rng, [N, N // 2, max(2, N // 3), N / 1.7])
    sigma = float(gen.pick(rng, [1., 2., .3]))
    method = gen.pick(rng, ['cme', 'cme', 'chol'])
    c = ref.mrw_cov(N, L, lam)
    C = ref.toeplitz(c)
    if method == 'chol' and np.linalg.eigvalsh(C).min() < 1e-8 * c[0]:
        method = 'cme'
    if method == 'cme' and not circulant_ok(c):
        # no exact embedding: fall back on an integral scale that has one
        for L in (N, N // 2, 3):
            c = ref.mrw_cov(N, L, lam)
            if circulant_ok(c):
                break
        C = ref.toeplitz(c)
    ctx.params.update(N=N, H=H, lam=lam, L=L, method=method, sigma=sigma)
    if method == 'cme' and not circulant_ok(c):
        ctx.oracles['skipped-no-embedding'] += 1
        return
    P = np.eye(N) - 1. / N
    m = 2 * N - 2 if method == 'cme' else N

    def noise(R):
        if method == 'chol':
            return rng.standard_normal((N, R))
        return rng.standard_normal((m, R)) + 1j * rng.standard_normal((m, R))

    ze = np.tile(noise(1), (1, m))
    w0 = w_of(ctx, N, H, lam, L, method, ze, np.zeros((m, m)))
    mean = -lam ** 2 / 2 * np.log(L)
    ctx.close('mean', w0, np.full((N, m), mean), 1e-8, 1e-8,
              'log-amplitude without noise')
    a = w_of(ctx, N, H, lam, L, method, ze, np.eye(m)) - mean
    cov = a @ a.T
    if method == 'cme':
        b = w_of(ctx, N, H, lam, L, method, ze, 1j * np.eye(m)) - mean
        cov = cov + b @ b.T
    else:
        ctx.oracles['chol'] += 1
    ctx.close('log-amplitude', cov, P @ C @ P, 1e-6, 2e-6 * (c[0] + 1e-3),
              'covariance of the log-amplitude')

    zw = noise(m)
    w = w_of(ctx, N, H, lam, L, method, ze, zw)
    ctx.close('mean', w.mean(axis=0), np.full(m, mean), 1e-8, 1e-8,
              'time average of the log-amplitude')
    kw = dict(method=method, z0=(ze, zw))
    if method == 'cme':     # a null covariance has no Cholesky factor
        flat = ctx.call(api.mrw, (N, m), H, 0., L, sigma, **kw)
        ctx.close('lam0', flat, ctx.call(api.fbm, (N, m), H, sigma, z0=ze),
                  1e-9, 1e-10 * np.abs(flat).max(),
                  'mrw with lambda = 0 is fbm')
    x1 = ctx.call(api.mrw, (N, m), H, lam, L, **kw)
    xs = ctx.call(api.mrw, (N, m), H, lam, L, sigma=sigma, **kw)
    ctx.close('sigma', xs, sigma * x1, 1e-9, 1e-12 * np.abs(x1).max(),
              'mrw is proportional to sigma')
    c2 = -lam ** 2
    xc = ctx.call(api.mrw_cumul, (N, m), H - c2, c2, L, sigma=sigma, **kw)
    ctx.close('cumul', xc, xs, 1e-7, 1e-9 * np.abs(xs).max(),
              'mrw_cumul(c1, c2) = mrw(c1 + c2, sqrt(-c2))')

    if i % 4 == 0:
        n, R = int(rng.integers(5, 12)), 20000
        c = ref.mrw_cov(n, n, .3)
        how = gen.pick(rng, ['cme', 'chol'])
        if not circulant_ok(c):
            how = 'chol'
        ctx.params.update(sampled=(n, how))
        V = np.eye(n) - 1. / n
        V = V @ ref.toeplitz(c) @ V
        x = ctx.call(api.mrw, (n, R), .5, .3, n, method=how)
        inc = np.diff(x, axis=0, prepend=0)
        p = inc ** 2
        want = (1. / n) * np.exp(-.09 * np.log(n) + 2 * np.diag(V))
        ctx.close('sampled-power', p.mean(axis=1), want, 0,
                  6.5 * p.std(axis=1) / np.sqrt(R), 'mean square increment')
        lg = np.log(np.abs(inc))
        lg = lg - lg.mean(axis=1, keepdims=True)
        S = lg @ lg.T / R
        var = np.pi ** 2 / 8        # of log|g|, g standard Gaussian
        want = V + var * np.eye(n)
        sd = np.sqrt((np.outer(np.diag(want), np.diag(want))
                      + want ** 2) / R) + 4 * var / np.sqrt(R) * np.eye(n)
        ctx.close('sampled-log-covariance', S, want, 0, 6.5 * sd,
                  'covariance of log |increments|')
    ctx.state(N, method, round(lam, 2))
