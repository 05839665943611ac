"""Simulators: validation, shapes, reproducibility."""
import numpy as np

from .. import api, gen, ref

ID = 'C22'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['H-range', 'L-range', 'method', 'shape', 'seed', 'distinct',
            'scalar', 'boundary', 'independent', 'default-noise', 'given-noise']
RULE = ('random valid and invalid arguments of every simulator; non-trivial: '
        'a rejection observed, or outputs of several runs compared')


def sims(N, R, H):
    return {
        'fgn': lambda s: (api.fgn, (s, H), {}),
        'fgn-chol': lambda s: (api.fgn, (s, H), dict(method='chol')),
        'fbm': lambda s: (api.fbm, (s, H), {}),
        'mrw': lambda s: (api.mrw, (s, H, .2, N / 2), {}),
        'mrw_cumul': lambda s: (api.mrw_cumul, (s, H + .01, -.01, N / 2), {}),
        'skewed': lambda s: (api.skewed_mrw, (s, H, .1, N / 2),
                             dict(K0=.02)),
    }


def student(s, axis=0):
    """Self-normalised mean: about standard normal when the mean is 0."""
    n = s.shape[axis]
    sd = s.std(axis=axis, ddof=1)
    return np.sqrt(n) * s.mean(axis=axis) / np.where(sd > 0, sd, np.inf)


LIMIT = 8.


def independence(ctx, rng):
    """Realisations of one call, and of successive calls, are independent;
    the noise drawn by default is the documented standard Gaussian one."""
    N, R = int(rng.integers(8, 40)), 800
    H = float(gen.pick(rng, [.5, .3, float(rng.uniform(.15, .9))]))
    L = N / 2
    table = {
        'fgn': (lambda: api.fgn((N, R), H)),
        'fgn-chol': (lambda: api.fgn((N, R), H, method='chol')),
        'fbm': (lambda: np.diff(api.fbm((N, R), H), axis=0)),
        'mrw': (lambda: np.diff(api.mrw((N, R), max(H, .5), .4, L), axis=0)),
        'mrw_cumul': (lambda: np.diff(api.mrw_cumul((N, R), .7, -.1, L),
                                      axis=0)),
        'skewed': (lambda: np.diff(api.skewed_mrw((N, R), .5, .4, L,
                                                  K0=.02), axis=0)),
        'mrw2D': (lambda: np.asarray(api.mrw2D(
            (8, R), .6, .4, 4)[1]).reshape(-1, R)),
    }
    name = gen.pick(rng, list(table))
    ctx.params.update(simulator=name, N=N, R=R, H=H, statistics=True)
    x = ctx.call(table[name])
    y = ctx.call(table[name])
    for what, u in (('values', x), ('magnitudes', None)):
        if u is None:
            tiny = 1e-300
            u, v = np.log(np.abs(x) + tiny), np.log(np.abs(y) + tiny)
        else:
            v = y
        m = (u.mean(axis=1, keepdims=True) + v.mean(axis=1, keepdims=True)) / 2
        u, v = u - m, v - m
        for shift in (1, R // 2):
            a, b = u[:, :R - shift], u[:, shift:]
            if shift == 1:
                a, b = a[:, ::2], b[:, ::2]
            z = student((a * b).mean(axis=0))
            ctx.true('independent', abs(z) < LIMIT, f'{name}: {what} of '
                     f'realisations {shift} apart are correlated: {z:.1f} '
                     'standard errors')
            z = student(a.mean(axis=0) * b.mean(axis=0))
            ctx.true('independent', abs(z) < LIMIT, f'{name}: mean {what} of '
                     f'realisations {shift} apart are correlated: {z:.1f} '
                     'standard errors')
        z = student((u * v).mean(axis=0))
        ctx.true('independent', abs(z) < LIMIT, f'{name}: {what} of two '
                 f'successive calls are correlated: {z:.1f} standard errors')
        ctx.values += 5
    if name in ('fgn', 'fgn-chol', 'fbm'):
        want = ref.toeplitz(ref.fgn_cov(N, H))
        if name == 'fbm':
            want = want[1:, 1:]
        z = student(x[:, None] * x[None, :] - want[..., None], axis=-1)
        ctx.values += z.size
        ctx.true('default-noise', np.abs(z).max() < LIMIT,
                 f'{name}: covariance {np.abs(z).max():.1f} standard errors '
                 'away from the documented one')
        z = student(x, axis=-1)
        ctx.true('default-noise', np.abs(z).max() < LIMIT,
                 f'{name}: mean {np.abs(z).max():.1f} standard errors from 0')
        k = x / np.sqrt(np.diag(want))[:, None]
        z = student(k ** 4 - 3, axis=-1)
        ctx.true('default-noise', np.abs(z).max() < 2 * LIMIT,
                 f'{name}: values are not Gaussian')


def given_noise(ctx, rng, N, R, H):
    """The same noise gives the same output, column by column, whatever the
    random state, and is left as it was."""
    method = gen.pick(rng, ['cme', 'chol'])
    H = min(H, .95) if method == 'chol' else H
    m = 2 * N - 2 if method == 'cme' else N

    def noise():
        z = rng.standard_normal((m, R))
        if method == 'cme':
            z = z + 1j * rng.standard_normal((m, R))
        return z

    za, zb = noise(), noise()
    if rng.random() < .3:
        za, zb = np.asfortranarray(za), np.asfortranarray(zb)
    L = N / 2
    lam, sigma = float(rng.uniform(.05, .5)), float(rng.uniform(.3, 2))
    both = dict(z0=(za, zb), method=method, sigma=sigma)
    table = {
        'fgn': (api.fgn, (H,), dict(z0=za, method=method, sigma=sigma)),
        'fbm': (api.fbm, (H,), dict(z0=za, method=method, sigma=sigma)),
        'mrw': (api.mrw, (H, lam, L), both),
        'mrw_cumul': (api.mrw_cumul, (min(H, .9) + .05, -.05, L), both),
    }
    name = gen.pick(rng, list(table))
    fn, args, kw = table[name]
    ctx.params.update(noise=name, method=method)
    if method == 'chol' and np.linalg.eigvalsh(ref.toeplitz(
            ref.mrw_cov(N, L, lam))).min() < 1e-8:
        return
    keep = za.copy(), zb.copy()
    out = [ctx.call(fn, (N, R), *args, **kw) for _ in range(2)]
    ctx.true('given-noise', np.array_equal(za, keep[0])
             and np.array_equal(zb, keep[1]), f'{name} alters the noise')
    za[:], zb[:] = keep
    ctx.true('given-noise', out[0] is not out[1]
             and not np.shares_memory(out[0], out[1]), f'{name}: aliased')
    mag = np.abs(out[0]).max()
    ctx.close('given-noise', out[1], out[0], 1e-12, 1e-13 * mag,
              f'{name} twice on the same noise')
    r = int(rng.integers(R))

    def column(z):
        return z[:, r:r + 1] if rng.random() < .5 else z[:, r:r + 1].copy()

    z0 = column(za) if name[0] == 'f' else (column(za), column(zb))
    for shape in ((N, 1), N):
        one = ctx.call(fn, shape, *args, **dict(kw, z0=z0))
        ctx.close('given-noise', np.reshape(one, (N, 1)), out[0][:, r:r + 1],
                  1e-9, 1e-10 * mag, f'{name}: one column of the noise')
    if name[0] == 'f':
        return
    # noise given for one of the two processes only
    np.random.seed(int(rng.integers(2**31)))
    a = ctx.call(fn, (N, R), *args, **dict(kw, z0=(za, None)))
    b = ctx.call(fn, (N, R), *args, **dict(kw, z0=(za, None)))
    sign = np.sign(np.diff(out[0], axis=0))
    for x in (a, b):
        ctx.true('given-noise', (np.sign(np.diff(x, axis=0)) == sign).all(),
                 f'{name}: noise of the increments alone')
    ctx.true('given-noise', not np.allclose(a, b), f'{name}: two amplitudes')
    seed = int(rng.integers(2**31))
    wave = []
    for w in (zb, np.zeros_like(zb)):
        np.random.seed(seed)
        wave.append(np.diff(ctx.call(fn, (N, R), *args,
                                     **dict(kw, z0=(None, w))), axis=0))
    flat = ctx.call(fn, (N, R), *args, **dict(kw, z0=(za, 0 * zb)))
    ctx.close('given-noise', wave[0] / wave[1],
              np.diff(out[0], axis=0) / np.diff(flat, axis=0), 1e-6, 1e-9,
              f'{name}: noise of the amplitude alone')


def case(ctx, rng, i):
    if i % 10 == 9:
        independence(ctx, rng)
        return
    N, R = int(rng.integers(8, 90)), int(rng.integers(2, 5))
    H = float(gen.pick(rng, [.5, 1., .3, float(rng.uniform(.05, .99))]))
    table = sims(N, R, H)
    name = list(table)[i % len(table)]
    if name == 'fgn-chol' or name == 'mrw_cumul':
        H = min(H, .95)
        table = sims(N, R, H)
    ctx.params.update(simulator=name, N=N, R=R, H=H)
    fn, args, kw = table[name]((N, R))
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    x = ctx.call(fn, *args, **kw)
    y = ctx.call(fn, *args, **kw)
    np.random.seed(seed)
    z = ctx.call(fn, *args, **kw)
    ctx.true('shape', isinstance(x, np.ndarray) and x.shape == (N, R)
             and x.dtype == float and np.isfinite(x).all(),
             f'{name}: {x.shape} {x.dtype}')
    ctx.close('seed', z, x, 1e-12, 1e-13, f'{name}, same seed')
    ctx.true('distinct', not np.allclose(x, y), f'{name}: two runs alike')
    for r in range(1, R):
        ctx.true('distinct', not np.allclose(x[:, 0], x[:, r]),
                 f'{name}: realisations 0 and {r} alike')
    fn, args, kw = table[name](N)
    np.random.seed(seed)
    s = ctx.call(fn, *args, **kw)
    fn, args, kw = table[name]((N, 1))
    np.random.seed(seed)
    one = ctx.call(fn, *args, **kw)
    ctx.true('shape', s.shape == (N,) and one.shape == (N, 1),
             f'{name}: shapes {s.shape}, {one.shape}')
    ctx.close('scalar', s, one[:, 0], 1e-12, 1e-13,
              f'{name}: scalar shape vs one realisation')
    for form in (np.int64(N), [N, R], np.array([N, R])):
        fn, args, kw = table[name](form)
        np.random.seed(seed)
        o = ctx.call(fn, *args, **kw)
        ctx.true('shape', o.shape == ((N,) if np.ndim(form) == 0
                                      else (N, R)), f'{name}: {form!r}')

    given_noise(ctx, rng, N, R, H)

    bad = float(gen.pick(rng, [-.1, 1.0001, 1.5, -1e-9, 2., -3., np.nan]))
    ctx.params.update(bad=bad)
    shape = gen.pick(rng, [N, (N, R)])
    for f, a in ((api.fgn, (shape, bad)), (api.fbm, (shape, bad)),
                 (api.mrw, (shape, bad, .1, N / 2)),
                 (api.mrw_cumul, (shape, bad + .04, -.04, N / 2)),
                 (api.skewed_mrw, (shape, bad, .1, N / 2))):
        if f is api.mrw_cumul and abs(bad) < 1e-6:
            continue
        ctx.raises('H-range', ValueError, f, *a)
    far = N + float(gen.pick(rng, [1, .5, 100]))
    for f in (api.mrw, api.skewed_mrw):
        ctx.raises('L-range', ValueError, f, shape, H, .1, far)
    ctx.raises('L-range', ValueError, api.mrw_cumul, shape, .6, -.04, far)
    ctx.raises('L-range', ValueError, api.skewed_mrw, shape, H, .1,
               N * .75, dt=.5)
    for f, a in ((api.fgn, (shape, H)), (api.fbm, (shape, H)),
                 (api.mrw, (shape, H, .1, N / 2))):
        ctx.raises('method', ValueError, f, *a, method=gen.pick(
            rng, ['fft', 'CME', '', 'cholesky']))
    # the bounds themselves are valid
    for f, a in ((api.fgn, (shape, 1)), (api.mrw, (shape, 1, .1, N)),
                 (api.mrw, (shape, .5, .1, N)),
                 (api.skewed_mrw, (shape, .5, .1, N))):
        ctx.true('boundary', np.isfinite(ctx.call(f, *a)).all(), 'bounds')
    ctx.state(name, N, R)
