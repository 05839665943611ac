"""Skewed multifractal random walk."""
import numpy as np

from .. import api, gen, ref

ID = 'C20'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 4800
REQUIRED = ['past-sum', 'causal', 'direct', 'mirror', 'proportional', 'mean',
            'sampled-kernel', 'no-mirror', 'long-kernel', 'single']
RULE = ('random noise, kernels, steps and sizes for the skewness term; '
        'skewed walks with their mirror images, whose products and ratios '
        'isolate amplitude and skewness; non-trivial: whole paths compared')


def walk(ctx, seed, **kw):
    np.random.seed(seed)
    return ctx.call(api.skewed_mrw, **kw)


def inc(x):
    return np.diff(x, axis=0, prepend=0)


def long_walk(ctx, rng):
    """Kernel seen by a long walk, by blocks of lags"""
    n, R = int(2 ** rng.uniform(8, 12)), 48
    alpha = float(gen.pick(rng, [.3, .5, 1.]))
    ctx.params.update(long=n, alpha=alpha)
    x, y = ctx.call(api.skewed_mrw, (n, R), .5, 0., n, K0=.1, alpha=alpha,
                    do_mirror=True)
    p, q = inc(x), inc(y)
    past = .5 * np.log(-p / q)
    noise = np.sign(p) * np.sqrt(-p * q)
    kernel = .1 / np.arange(1, n + 1.) ** alpha
    power = (past ** 2).mean(axis=0)
    ctx.close('long-kernel', power.mean(), np.sum(kernel ** 2), 0,
              7 * max(power.std(), .02 * power.mean()) / np.sqrt(R),
              'variance of the skewness term of a long walk')
    sums = np.concatenate([np.zeros((1, R)), np.cumsum(noise, axis=0)])
    b = 1
    while 2 * b <= n:
        # block of lags b .. 2b - 1
        k = np.arange(2 * b - 1, n)
        block = sums[k - b + 1] - sums[k - 2 * b + 1]
        v = (past[k] * block).mean(axis=0)
        ctx.close('long-kernel', v.mean(), -kernel[b - 1:2 * b - 1].sum(), 0,
                  7 * max(v.std(), 1e-3) / np.sqrt(R),
                  f'kernel of a long walk at lags {b} to {2 * b - 1}')
        b *= 2


def case(ctx, rng, i):
    if i % 100 == 30:
        return long_walk(ctx, rng)
    N, R = int(rng.integers(2, 80)), int(rng.integers(1, 4))
    if i % 100 == 50:
        N = int(2 ** rng.uniform(7, 13))
    K0 = float(rng.uniform(-1, 1))
    alpha = float(gen.pick(rng, [0., .3, 1., 1.5, 2.]))
    beta = float(gen.pick(rng, [0., .5, 1.]))
    dt = float(gen.pick(rng, [1., .5, 2.]))
    ctx.params.update(N=N, R=R, K0=K0, alpha=alpha, beta=beta, dt=dt)
    e = rng.standard_normal((2 * N, R))
    got = ctx.call(api.skewness_convolution, e, K0, alpha, beta, dt)
    want = ref.past_kernel(e, K0, alpha, beta, dt)
    scale = np.abs(want).max() + np.abs(e).max() * abs(K0) * N
    ctx.close('past-sum', got, want, 1e-9, 1e-12 * scale,
              'sum over the N past samples')
    # strictly causal: the present and the future do not matter
    k = int(rng.integers(N))
    f = e.copy()
    f[N + k:] += 5.
    other = ctx.call(api.skewness_convolution, f, K0, alpha, beta, dt)
    ctx.close('causal', other[:k + 1], got[:k + 1], 1e-9, 1e-11 * scale,
              f'samples from {k} on changed')
    # without past before the signal: the direct calculation
    z = np.concatenate([np.zeros((N, R)), e[N:]])
    if N < 600:
        ctx.close('direct', ctx.call(api.skewness_convolution, z, K0, alpha,
                                     beta, dt),
                  ctx.call(api.skewness_convolution_dumb, e[N:], K0, alpha,
                           beta, dt), 1e-9, 1e-11 * scale,
                  'direct calculation')

    # walks
    n = int(rng.integers(8, 64))
    if i % 50 == 25:
        n = int(2 ** rng.uniform(8, 14))
    L = gen.pick(rng, [n, n // 2, n / 3.])
    H = float(rng.uniform(.2, .9))
    lam = float(gen.pick(rng, [.1, .3]))
    kw = dict(shape=(n, 3), H=H, lam=lam, L=L * dt, K0=.2 * K0, alpha=alpha,
              sigma=float(gen.pick(rng, [1., .4])), dt=dt, beta=beta,
              do_mirror=True)
    if n > 64:      # keep the skewness term of order one
        kw.update(alpha=max(alpha, 1.), K0=.05 * K0)
    ctx.params.update(walk={k: v for k, v in kw.items()})
    seed = int(rng.integers(2**31))
    a, b = map(inc, walk(ctx, seed, **kw))
    # halving K0 halves the skewness term, and leaves the amplitude alone
    c, d = map(inc, walk(ctx, seed, **{**kw, 'K0': kw['K0'] / 2}))
    ctx.close('mirror', c * d, a * b, 1e-6, 1e-12 * np.abs(a * b).max(),
              'product of a walk and its mirror does not depend on K0')
    ctx.true('mirror', (np.sign(a) == -np.sign(b)).all(), 'mirrored signs')
    past, half = -.5 * np.log(-a / b), -.5 * np.log(-c / d)
    past, half = -past, -half
    t = 1e-6 * (1 + np.abs(past).max())
    ctx.close('proportional', past, 2 * half, 1e-6, t,
              'the skewness term is proportional to K0')
    # amplitude: a b = -e^2 exp(2 w), with w proportional to lambda up to
    # its mean
    a2, b2 = map(inc, walk(ctx, seed, **{**kw, 'lam': lam / 2}))
    dw = .5 * np.log((a * b) / (a2 * b2))
    ctx.close('mean', dw.mean(axis=0), np.full(
        3, -(lam ** 2 - lam ** 2 / 4) * np.log(L)), 1e-6, 1e-7,
        'time average of the log-amplitude')
    plain = walk(ctx, seed, **{**kw, 'do_mirror': False})
    ctx.close('no-mirror', inc(plain), a, 1e-9, 1e-12 * np.abs(a).max(),
              'without the mirror')
    one = walk(ctx, seed, **{**kw, 'shape': (n, 1)})
    single = walk(ctx, seed, **{**kw, 'shape': n})
    for s, o, what in zip(single, one, ('walk', 'mirror')):
        ctx.true('single', s.shape == (n,) and o.shape == (n, 1),
                 f'shapes of the {what}')
        ctx.close('single', s, o[:, 0], 1e-9, 1e-12 * np.abs(o).max(),
                  f'{what} of a scalar shape')
    if kw['sigma'] != 1:
        # the noise, hence the skewness term, is proportional to sigma
        s, u = map(inc, walk(ctx, seed, **{**kw, 'sigma': 1.}))
        ctx.close('sigma', s * u * kw['sigma'] ** 2, a * b, 1e-6,
                  1e-12 * np.abs(a * b).max(), 'sigma')
        ctx.close('sigma', .5 * np.log(-s / u) * kw['sigma'], past, 1e-6, t,
                  'skewness term and sigma')

    if i % 4 == 0:
        # kernel seen by the walk: regression of the skewness term on the
        # past noise, white for H = 1/2, without intermittency
        n, R = 8, 8000
        x, y = ctx.call(api.skewed_mrw, (n, R), .5, 0., n, K0=.1,
                        alpha=alpha, do_mirror=True)
        p, q = inc(x), inc(y)
        past = .5 * np.log(-p / q)     # = -(skewness term)
        noise = np.sign(p) * np.sqrt(-p * q)
        ctx.close('sampled-noise', (noise ** 2).mean(axis=1), np.ones(n), 0,
                  6.5 * np.sqrt(2. / R), 'variance of the noise')
        power = np.mean(past ** 2, axis=1)
        lag = np.arange(1, n + 1.)
        ctx.close('sampled-kernel', power, np.full(
            n, np.sum(.01 / lag ** (2 * alpha))), 0,
            6.5 * power * np.sqrt(2. / R) + 1e-12,
            'variance of the skewness term')
        for k in range(n):
            for m in range(n):
                want = -.1 / (k - m) ** alpha if m < k else 0.
                sd = np.sqrt(power[k] * 2 / R) + .1 / np.sqrt(R)
                ctx.close('sampled-kernel', np.mean(past[k] * noise[m]), want,
                          0, 6.5 * sd, f'skewness at {k} due to noise at {m}')
    ctx.state(N, R, alpha, beta, dt)
