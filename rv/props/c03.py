"""Wavelet leaders are local suprema."""
import numpy as np

from .. import api, gen, ref

ID = 'C03'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 18000
REQUIRED = ['leaders', 'leader-scales', 'leader-dominates', 'leader-attained']
RULE = ('random signals x wavelets x gamint x normalisation, with and '
        'without missing samples; non-trivial: leaders compared with the '
        'supremum taken over the coefficients the package itself reports')


def case(ctx, rng, i):
    x, par = gen.setup(ctx, rng, gaps=True, p_kinds=('inf',), hi=2000)
    if rng.random() < .2:
        par['p_exp'] = float('inf')
    if rng.random() < .15 and (par['p_exp'] is None
                               or np.isinf(par['p_exp'])):
        x = gen.rescaled(ctx, rng, x)
    wt = ctx.call(api.wavelet_analysis, x, **par)
    d, lead = wt.wt_coefs.values, wt.wt_leaders.values
    want = ref.leaders(d)
    ctx.true('leader-scales', list(lead) == list(want),
             lambda: f'scales {list(lead)}, expected {list(want)}')
    for j in want:
        ctx.close('leaders', lead[j], want[j], 1e-12, 0,
                  f'leaders of scale {j}')
        # elementary facts, independent of the reference
        a = np.abs(d[j])
        for k in range(3):
            ctx.dominated('leader-dominates', a[k:len(a) - 2 + k], lead[j],
                          what=f'coefficient vs leader, scale {j}')
        finite = lead[j][~np.isnan(lead[j])]
        pool = np.abs(np.concatenate([d[s].ravel() for s in range(1, j + 1)]))
        ctx.true('leader-attained', np.isin(finite, pool).all()
                 or np.allclose(finite, [pool[np.nanargmin(abs(pool - f))]
                                         for f in finite], rtol=1e-12),
                 f'a leader of scale {j} is no coefficient')
    ctx.true('metadata', wt.wt_leaders.formalism == 'wavelet leader'
             and wt.wt_leaders.gamint == par['gamint'] and wt.eta_p is None,
             'metadata of the leaders')
    # the whole chain against the reference, from the samples
    full = ref.leaders(ref.coefs(x, par['wt_name'], par['gamint'],
                                 par['normalization']))
    ctx.true('leader-scales', list(lead) == list(full),
             f'scales {list(lead)}, expected {list(full)}')
    ctx.state(par['wt_name'], len(full))
