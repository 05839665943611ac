"""Two-dimensional synthesis."""
import numpy as np

from .. import api, gen, ref  # noqa: F401

ID = 'C21'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 4800
REQUIRED = ['plane-wave', 'linear', 'compose', 'integrated', 'sigma',
            'log-amplitude', 'shape', 'white']
RULE = ('random even sizes, exponents, plane waves and fields; 2-D walks '
        'whose log-amplitude is read off the ratio of two intermittencies; '
        'non-trivial: whole fields compared')


def frac(ctx, x, a):
    return ctx.call(api.fract_int_2d, x, a)


def case(ctx, rng, i):
    N = 2 * int(rng.integers(2, 17))
    if i % 50 == 25:
        N = 2 * int(2 ** rng.uniform(4, 8))
    R = int(rng.integers(1, 4))
    al = float(gen.pick(rng, [0., .5, 1., 1.3, 2., -.5]))
    ctx.params.update(N=N, R=R, alpha=al)
    t = np.arange(N)
    kx, ky = (int(v) for v in rng.integers(-N // 2, N // 2 + 1, 2))
    ph = rng.uniform(0, 6, R)
    x = np.cos(2 * np.pi * (kx * t[:, None, None] + ky * t[None, :, None])
               / N + ph)
    d = np.hypot(kx, ky) or 1.
    ctx.params.update(wave=(kx, ky))
    ctx.close('plane-wave', frac(ctx, x, al), x / d ** al, 1e-9, 1e-9,
              f'plane wave ({kx}, {ky})')
    u, v = rng.standard_normal((2, N, N, R))
    fu, fv = frac(ctx, u, al), frac(ctx, v, al)
    mag = np.abs(fu).max() + np.abs(fv).max()
    ctx.close('linear', frac(ctx, 2 * u - v, al), 2 * fu - fv, 1e-9,
              1e-10 * mag, 'superposition')
    ctx.close('compose', frac(ctx, fu, .7), frac(ctx, u, al + .7), 1e-8,
              1e-9 * mag, 'orders add up')
    ctx.close('compose', frac(ctx, u, 0.), u, 1e-9, 1e-10, 'order 0')
    sh = int(rng.integers(N))
    ctx.close('shift', frac(ctx, np.roll(u, sh, axis=0), al),
              np.roll(fu, sh, axis=0), 1e-9, 1e-10 * mag, 'translation')
    ctx.close('isotropy', frac(ctx, u.transpose(1, 0, 2), al),
              fu.transpose(1, 0, 2), 1e-9, 1e-10 * mag, 'transposition')

    n = int(rng.integers(4, 24))
    H = float(rng.uniform(.1, .9))
    lam = float(gen.pick(rng, [.1, .3]))
    L = float(gen.pick(rng, [n, n / 2, n / 4 + 1]))
    sigma = float(gen.pick(rng, [1., 2.5]))
    seed = int(rng.integers(2**31))
    scalar = rng.random() < .2
    shape = n if scalar else (n, R)
    even = n + n % 2
    ctx.params.update(n=n, H=H, lam=lam, L=L, sigma=sigma, scalar=scalar)

    def run(lam, sigma=1):
        np.random.seed(seed)
        return ctx.call(api.mrw2D, shape, H, lam, L, sigma)

    b, a = run(lam)
    want = (even, even, 1 if scalar else R)
    ctx.true('shape', a.shape == b.shape == want and np.isrealobj(a)
             and np.isrealobj(b), f'shapes {a.shape} {b.shape}')
    ctx.close('integrated', b, frac(ctx, a, H + 1), 1e-9,
              1e-10 * np.abs(b).max(), 'the motion is the increments '
              'integrated to order H + 1')
    bs, as_ = run(lam, sigma)
    ctx.close('sigma', as_, sigma * a, 1e-9, 1e-12 * np.abs(a).max(),
              'increments proportional to sigma')
    ctx.close('sigma', bs, sigma * b, 1e-9, 1e-12 * np.abs(b).max(),
              'motion proportional to sigma')

    if i % 2 == 0:
        # log-amplitude field, from two intermittencies
        m, R2, Ls = 16, 400, float(gen.pick(rng, [3., 4., 5.]))
        if i % 50 in (4, 28):
            # large maps: as many samples in fewer realisations
            m = 2 * int(2 ** rng.uniform(4, 6.7))
            R2, Ls = 48, float(rng.uniform(3, m))
        out = []
        for l in (.4, .2):
            np.random.seed(seed)
            out.append(ctx.call(api.mrw2D, (m, R2), H, l, Ls)[1])
        ctx.true('signs', (np.sign(out[0]) == np.sign(out[1])).all(),
                 'signs of the increments depend on lambda')
        G = np.log(out[0] / out[1]) / .2
        t = np.arange(-m // 2, m // 2)
        r = np.log(np.maximum(Ls / (1 + np.hypot(t[:, None], t[None])), 1))
        spec = np.fft.fft2(np.fft.ifftshift(r)).real
        if spec.min() > -1e-2 * spec.max():
            c = np.fft.ifft2(np.abs(spec)).real
            lags = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 3), (5, 5)]
            lags += [(0, m // 2), (m // 3, 0), (m // 4, m // 5)] * (m > 16)
            for lx, ly in lags:
                v = (G * np.roll(G, (-lx, -ly), axis=(0, 1))).mean(
                    axis=(0, 1))
                ctx.close('log-amplitude', v.mean(), c[lx, ly], .02,
                          6.5 * v.std() / np.sqrt(R2) + (
                              1e-9 if m == 16 else .01 * c[0, 0]),
                          f'log-amplitude covariance at lag ({lx}, {ly})')
                d = ((G - np.roll(G, (-lx, -ly), axis=(0, 1))) ** 2).mean(
                    axis=(0, 1))
                ctx.close('log-amplitude', d.mean(),
                          2 * (c[0, 0] - c[lx, ly]), .03,
                          6.5 * d.std() / np.sqrt(R2) + 1e-9,
                          f'log-amplitude increments at lag ({lx}, {ly})')
        else:
            ctx.oracles['skipped-no-embedding'] += 1
        g = out[1] / np.exp(.2 * G)
        p = (g ** 2).mean(axis=(0, 1))
        ctx.close('white', p.mean(), 1., 0, 6.5 * p.std() / np.sqrt(R2),
                  'variance of the Gaussian part')
        p = (g * np.roll(g, 1, axis=0)).mean(axis=(0, 1))
        ctx.close('white', p.mean(), 0., 0, 6.5 * p.std() / np.sqrt(R2),
                  'correlation of the Gaussian part')
    ctx.state(N, even, R)
