"""Numeric helpers: exponents, powers, reductions of incomplete data."""
import math

import numpy as np

from .. import api, gen

ID = 'C29'
LEVEL = 'exploration'
QUICK, THOROUGH = 30000, 180000
REQUIRED = ['q-values', 'q-complete', 'q-symmetric', 'q-refused', 'power',
            'power-nan', 'power-input', 'sum', 'max', 'all-missing', 'quiet']
RULE = ('random exponents and arrays with missing values; non-trivial: '
        'every element compared with element-wise Python arithmetic')


def q_log(ctx, rng):
    lo, hi = np.sort(np.exp(rng.uniform(np.log(1e-3), np.log(30), 2)))
    if rng.random() < .3:
        lo, hi = gen.pick(rng, [(.01, 5.), (1, 2), (.5, 2.), (1., 8),
                                (.1, 10)])
    n = int(rng.integers(1, 25))
    if rng.random() < .05:
        n = int(2 ** rng.uniform(4, 9))
    ctx.params.update(q_min=lo, q_max=hi, n=n)
    q = ctx.call(api.build_q_log, lo, hi, n)
    t = [0.] if n == 1 else [k / (n - 1) for k in range(n)]
    pos = [lo * (hi / lo) ** v for v in t] + [1., 2.]
    want = np.array(sorted(pos + [-v for v in pos] + [0.]))
    ctx.true('q-complete', all(v in q for v in (-2, -1, 0, 1, 2)),
             f'{q} lacks one of -2..2')
    near = np.abs(np.asarray(q)[:, None] - want[None, :])
    tol = 1e-9 * (1e-3 + np.abs(want))
    ctx.true('q-values', (near <= tol).any(axis=0).all(),
             'a requested exponent is missing')
    ctx.true('q-values', (near <= tol).any(axis=1).all(),
             'an exponent was not requested')
    ctx.true('q-values', np.ndim(q) == 1 and (np.diff(q) > 0).all(),
             'exponents are not strictly increasing')
    ctx.close('q-symmetric', q, -np.asarray(q)[::-1], 0, 1e-12, 'symmetry')
    bad = gen.pick(rng, [(0, hi), (-lo, hi), (lo, 0), (lo, -hi), (0., 0.),
                         (-lo, -hi)])
    ctx.raises('q-refused', ValueError, api.build_q_log, *bad, n)


def one_power(v, e):
    if math.isnan(v):
        return math.nan
    if e == 0:
        return 1.
    if v == 0 and e < 0:
        return math.inf
    if v < 0 and float(e) != int(e):
        if math.isinf(v):
            # conventions differ for the power and the square root
            return math.nan if e == .5 else math.pow(v, e)
        return math.nan
    try:
        return math.pow(v, e)
    except OverflowError:
        return math.inf if v > 0 or int(e) % 2 == 0 else -math.inf


def power(ctx, rng, big=False):
    shape = gen.pick(rng, [(7,), (5, 3), (4, 1), (2, 3, 2)])
    if big:
        n = int(2 ** rng.uniform(9, 18))
        shape = gen.pick(rng, [(n,), (n // 3, 3), (3, n // 3), (n // 4, 2, 2)])
    a = rng.standard_normal(shape) * np.exp(rng.uniform(-8, 8))
    positive = rng.random() < .6
    if positive:
        a = np.abs(a)
    if rng.random() < .5:
        a[rng.random(shape) < .2] = np.nan
        ctx.oracles['power-nan'] += 1
    if rng.random() < .3:
        a[rng.random(shape) < .15] = 0.
    if rng.random() < .15:
        a[rng.random(shape) < .2] = np.inf
    if rng.random() < .1 and not positive:
        a[rng.random(shape) < .2] = -np.inf
    e = gen.pick(rng, [0, 0., 1, 1., 2, 2., .5, -1, -1., 3, 4, 7, 10, 11,
                       -2, -3, 1.5, -.5, 2.7, np.int64(3), np.float64(2),
                       np.int64(0), np.float64(0.), 6, 5, np.int64(1)])
    ctx.params.update(exponent=e, shape=shape)
    keep = a.copy()
    out = ctx.call(api.fast_power, a, e)
    want = np.vectorize(lambda v: one_power(v, e), otypes=[float])(keep)
    ctx.close('power', out, want, 1e-11, 0, f'power {e!r}')
    ctx.close('power-input', a, keep, 0, 0, 'input modified')


def reductions(ctx, rng, big=False):
    shape = gen.pick(rng, [(3, 8, 2), (3, 5, 1), (6, 4), (2, 3, 4, 2)])
    if big:
        n = int(2 ** rng.uniform(9, 18))
        shape = gen.pick(rng, [(3, n // 3, 1), (2, n // 8, 4), (n // 2, 2),
                               (2, 3, n // 6, 1), (n // 40, 40)])
    a = rng.standard_normal(shape) * np.exp(rng.uniform(-5, 5))
    frac = gen.pick(rng, [0., .2, .6, .9])
    a[rng.random(shape) < frac] = np.nan
    axis = int(rng.integers(len(shape)))
    if rng.random() < .3:
        # null, equal and opposite values
        a[rng.random(shape) < gen.pick(rng, [.2, .9, 1.])] *= 0.
    if rng.random() < .2:
        a = np.round(a / max(np.nanmax(np.abs(a), initial=0.), 1e-3) * 2)
    if rng.random() < .4:
        idx = [slice(None)] * len(shape)
        other = (axis + 1) % len(shape)
        idx[other] = int(rng.integers(shape[other]))
        a[tuple(idx)] = np.nan
    ctx.params.update(shape=shape, axis=axis, missing=frac)
    keep = a.copy()
    rows = np.moveaxis(keep, axis, -1)
    want_s = np.empty(rows.shape[:-1])
    want_m = np.empty(rows.shape[:-1])
    for k in np.ndindex(want_s.shape):
        v = [float(t) for t in rows[k] if not math.isnan(t)]
        want_s[k] = math.fsum(v) if v else math.nan
        want_m[k] = max(v) if v else math.nan
    if np.isnan(want_s).any():
        ctx.oracles['all-missing'] += 1
    tol = 1e-12 * max(np.nanmax(np.abs(keep), initial=0.), 1e-300) * 10
    ctx.close('sum', ctx.call(api.fixednansum, a, axis=axis), want_s, 1e-9,
              tol, 'sum')
    ctx.true('quiet', not ctx.last_warnings, 'sum warned')
    ctx.close('max', ctx.call(api.fixednanmax, a, axis=axis), want_m, 0, 0,
              'max')
    ctx.true('quiet', not ctx.last_warnings, 'max warned')
    ctx.close('power-input', a, keep, 0, 0, 'input modified')


def case(ctx, rng, i):
    if i % 300 in (10, 20):
        (reductions, power)[i % 3 - 1](ctx, rng, True)
    else:
        (q_log, power, reductions)[i % 3](ctx, rng)
    ctx.state(i % 3, len(ctx.params), str(ctx.params.get('exponent')))
