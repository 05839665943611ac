"""Border effects and missing samples never reach a reported coefficient."""
import numpy as np

from .. import api, gen, ref
from .c01 import tolerance

ID = 'C02'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['embedding', 'perturbation-outside', 'perturbation-inside',
            'missing', 'leader-locality']
RULE = ('pairs of analyses of signals differing by surrounding samples, by '
        'one perturbed sample, or by missing samples; non-trivial: '
        'coefficients compared between both runs')


def run(ctx, x, par):
    return ctx.call(api.wavelet_analysis, x, **par)


def near(ctx, oracle, x, a, b, j, par, what):
    ctx.close(oracle, a, b, 1e-8, tolerance(
        x, j, None, par['gamint'], par['normalization']), what)


def case(ctx, rng, i):
    if i % 6 == 4:
        # long recordings and long filters
        n = int(rng.integers(1500, 5000))
        w = gen.pick(rng, ['db6', 'db8', 'db10', 'db16', 'db20', 'sym12'])
        ctx.params.update(n=n, wt=w)
    else:
        n = gen.length(rng, 80, 1200, ctx)
        w = gen.wt_name(ctx, rng, n)
    x = gen.signal(ctx, rng, n=n, layouts=False, ints=False, one_d=False,
                   kinds=['gauss', 'walk', 'heavy', 'offset', 'frac'])
    par = dict(p_exp=gen.pick(rng, [None, np.inf]), wt_name=w, j1=1, j2=None,
               gamint=gen.gamint(rng), normalization=gen.normalization(rng))
    ctx.params.update(par)
    base = run(ctx, x, par)
    J = len(base.wt_coefs.values)
    win = ref.windows(n, w, J)
    mode = i % 3

    if mode == 0:
        # samples before (a multiple of 2^J, so that grids align) and after
        step = 2 ** J
        before = step * int(rng.integers(0, 4))
        after = int(rng.integers(0 if before else 1, 300))
        far = gen.pick(rng, [1., 1., 1e6, 1e15])
        big = np.concatenate([
            far * rng.standard_normal((before, x.shape[1])), x,
            far * rng.standard_normal((after, x.shape[1]))])
        ctx.params.update(before=before, after=after, far=far)
        more = run(ctx, big, par)
        for j, v in base.wt_coefs.values.items():
            ok = ~np.isnan(v)
            off = before // 2 ** j
            same = more.wt_coefs.values[j][off:off + len(v)]
            near(ctx, 'embedding', x, np.where(ok, same, 0)
                 if len(same) == len(v) else same,
                 np.where(ok, v, 0), j, par,
                 f'scale {j} after embedding in a longer signal')
        return

    if mode == 1:
        # one perturbed sample
        t = int(rng.integers(n))
        if rng.random() < .3:
            t = int(gen.pick(rng, [0, n - 1, 1, n - 2, n // 2]))
        y = x.copy()
        y[t, 0] += float(np.max(np.abs(x)) + 1) * gen.pick(
            rng, [3, 3, 1e6, 1e15])
        ctx.params['sample'] = t
        more = run(ctx, y, par)
        ctx.true('perturbation-scales', list(more.wt_coefs.values)
                 == list(base.wt_coefs.values), 'number of scales changed')
        touched = {}
        for j, v in base.wt_coefs.values.items():
            inside = np.array([s is not None and s[0] <= t <= s[1]
                               for s in win[j]])
            touched[j] = inside
            other = more.wt_coefs.values[j]
            near(ctx, 'perturbation-outside', x, other[~inside], v[~inside],
                 j, par, f'scale {j}, sample {t} outside the support')
            if v.shape[1] > 1:
                near(ctx, 'perturbation-outside', x, other[:, 1:], v[:, 1:],
                     j, par, 'other realisations')
        moved = any(np.abs(more.wt_coefs.values[j] - v)[touched[j]].max(
            initial=0) > tolerance(y, j, None, par['gamint'],
                                   par['normalization'])
            for j, v in base.wt_coefs.values.items())
        # (biorthogonal filters have zero taps)
        if (w.startswith(('db', 'haar', 'sym'))
                and any(m.any() for m in touched.values())):
            ctx.true('perturbation-inside', moved,
                     f'sample {t} is read by no coefficient')
        if par['p_exp'] is not None:
            # a leader only depends on the coefficients below it
            for j, v in base.wt_leaders.values.items():
                hit = np.zeros(len(v), bool)
                for k in range(len(v)):
                    for jp in range(1, j + 1):
                        f = 2 ** (j - jp)
                        hit[k] |= touched[jp][k * f:(k + 3) * f].any()
                o = more.wt_leaders.values[j]
                near(ctx, 'leader-locality', x, o[~hit], v[~hit], j, par,
                     f'leaders of scale {j} not covering sample {t}')
        return

    # missing samples
    y = x.copy()
    where = rng.random(y.shape) < gen.pick(rng, [.002, .01, .002, .03])
    if rng.random() < .4:
        where[:] = False
        s = int(rng.integers(n))
        where[s:s + int(rng.integers(1, 6)), 0] = True
    y[where] = np.nan
    ctx.params['missing'] = int(where.sum())
    more = run(ctx, y, par)
    for j in more.wt_coefs.values:
        v, o = base.wt_coefs.values[j], more.wt_coefs.values[j]
        bad = np.zeros(v.shape, bool)
        for k, s in enumerate(win[j]):
            if s is not None:
                bad[k] = where[s[0]:s[1] + 1].any(axis=0)
        want = np.where(bad, np.nan, v)
        near(ctx, 'missing', x, o, want, j, par,
             f'scale {j} with missing samples')
    # scales are only dropped when fewer than 3 coefficients are left
    got = len(more.wt_coefs.values)
    if par['p_exp'] is None and got < J:
        j = got + 1
        left = ~np.isnan(base.wt_coefs.values[j])
        for k, s in enumerate(win[j]):
            if s is not None:
                left[k] &= ~where[s[0]:s[1] + 1].any(axis=0)
        ctx.true('missing-scales', left.sum(axis=0).min() < 3,
                 f'scale {j} dropped although usable')
