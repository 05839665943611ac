"""Accounting of scales and of available values."""
import numpy as np

from .. import api, gen, ref

ID = 'C05'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 20000
REQUIRED = ['scales', 'counts', 'j2-eff', 'lengths', 'warning', 'downstream']
RULE = ('random signals, including short ones and missing samples, x '
        'wavelets x p x scale ranges; non-trivial: at least one scale '
        'accounted for')


def check_mrq(ctx, m, n, nrep, less, what):
    js = list(m.values)
    ctx.true('scales', js == list(range(1, len(js) + 1)),
             f'{what}: scales {js} are not contiguous from 1')
    ctx.true('scales', list(m.nj) == js, f'{what}: nj has scales '
             f'{list(m.nj)}, values have {js}')
    for j in js:
        v = m.values[j]
        fin = np.isfinite(v).sum(axis=0)
        ctx.close('counts', m.nj[j], fin, 0, 0, f'{what}: nj[{j}]')
        ctx.true('counts', fin.min() >= 3,
                 f'{what}: {fin.min()} values at scale {j}')
        ctx.true('lengths', v.shape == (n // 2 ** j - less, nrep),
                 f'{what}: shape {v.shape} at scale {j}')
    if js:
        ctx.true('nrep', m.nrep == nrep, f'{what}: nrep {m.nrep}')
        got = m.get_nj()
        ctx.true('counts', len(got) == len(js) and all(
            np.array_equal(a, m.nj[j]) for a, j in zip(got, js)), 'get_nj')
        a = len(js) // 2 + 1
        ctx.close('counts', m.get_nj_interv(a, len(js)),
                  np.stack([m.nj[j] for j in range(a, len(js) + 1)]), 0, 0,
                  'get_nj_interv')


def case(ctx, rng, i):
    short = rng.random() < .3
    if short:
        n = int(rng.integers(4, 80))
        x = gen.signal(ctx, rng, n=n, kinds=['gauss', 'walk'])
        w = gen.pick(rng, gen.SHORT)
        par = dict(p_exp=gen.pick(rng, [None, np.inf]), wt_name=w, j1=1,
                   j2=gen.pick(rng, [None, 1, 3, 10]))
        ctx.params.update(par)
    else:
        x, par = gen.setup(ctx, rng, gaps=True)
    n = len(x)
    nrep = 1 if x.ndim == 1 else x.shape[1]
    wt = ctx.call(api.wavelet_analysis, x, **par)
    warned = [w for w in ctx.last_warnings
              if issubclass(w.category, UserWarning) and 'j2' in
              str(w.message)]

    check_mrq(ctx, wt.wt_coefs, n, nrep, 0, 'coefs')
    g = par.get('gamint', 0.)
    nrm = par.get('normalization', 1)
    d = ref.coefs(x, par['wt_name'], g, nrm)
    deep = len(d)
    if wt.wt_leaders is not None:
        check_mrq(ctx, wt.wt_leaders, n, nrep, 2, 'leaders')
        deep = len(ref.leaders(d))
        ctx.true('scales', len(wt.wt_leaders.values) == deep,
                 f'{len(wt.wt_leaders.values)} scales of leaders, {deep} '
                 'available')
        ctx.true('scales', len(wt.wt_coefs.values) >= deep, 'fewer scales of '
                 'coefficients than of leaders')
    else:
        ctx.true('scales', len(wt.wt_coefs.values) == deep,
                 f'{len(wt.wt_coefs.values)} scales of coefficients, {deep} '
                 'available')
    level = ctx.call(api.decomposition_level, n, par['wt_name'])
    ctx.true('scales', len(wt.wt_coefs.values) <= max(level, 0),
             f'more scales than the decomposition level {level}')
    j2 = par['j2']
    if deep:
        want = deep if j2 is None else min(j2, deep)
        ctx.true('j2-eff', wt.j2_eff == want and
                 isinstance(wt.j2_eff, (int, np.integer)),
                 f'j2_eff {wt.j2_eff}, expected {want}')
    else:
        ctx.true('j2-eff', wt.j2_eff <= 0, f'j2_eff {wt.j2_eff} without any '
                 'scale')
    ctx.true('warning', bool(warned) == (j2 is not None and j2 > level),
             f'j2={j2}, level={level}, warned={bool(warned)}')

    # the estimates account for the same scales
    if deep > 1 and par['j1'] < wt.j2_eff and not gen.has_zero(wt.wt_coefs):
        mf = ctx.call(api.mf_analysis, wt.wt_coefs, wt.wt_leaders, wt.j2_eff,
                      par['j1'], par.get('weighted', True), 2, [1, 2])
        for var, m in ((mf.dwt, wt.wt_coefs), (mf.lwt, wt.wt_leaders)):
            if m is None:
                continue
            for o in (var.structure, var.cumulants, var.spectrum):
                ctx.true('downstream', list(o.j) == list(m.values)
                         and list(o.nj) == list(m.nj) and all(
                             np.array_equal(o.nj[j], m.nj[j]) for j in m.nj)
                         and o.j1 == par['j1'] and o.j2 == wt.j2_eff
                         and o.nrep == nrep and o.formalism == m.formalism,
                         f'{type(o).__name__} accounts for other scales')
    ctx.state(deep, wt.j2_eff, j2 is None, short)
