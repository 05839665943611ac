"""p-leaders and their finite-resolution correction."""
import numpy as np

from .. import api, gen, ref

ID = 'C04'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 15000
REQUIRED = ['p-leaders', 'eta-p', 'leader-scales', 'no-eta',
            'eta-nonpositive']
RULE = ('random signals x wavelets x p x gamint x normalisation x scale '
        'ranges, weighted or not; non-trivial: corrected p-leaders compared '
        'with the l^p sums over the reported coefficients')


def case(ctx, rng, i):
    x, par = gen.setup(ctx, rng, gaps=True, p_kinds=('p',), hi=1600)
    if rng.random() < .3:
        # signals for which eta(p) <= 0 in some realisations only
        par['gamint'] = float(gen.pick(rng, [-1., -.75, -.5, 0.]))
        par['normalization'] = 1
        ctx.params.update(gamint=par['gamint'], normalization=1)
    p = par['p_exp']
    wt = ctx.call(api.wavelet_analysis, x, **par)
    d, lead = wt.wt_coefs.values, wt.wt_leaders.values
    raw = ref.pleaders(d, p)
    ctx.true('leader-scales', list(lead) == list(raw),
             lambda: f'scales {list(lead)}, expected {list(raw)}')
    eta = ref.eta_p(d, p, par['j1'], wt.j2_eff, par['weighted'])
    ctx.close('eta-p', wt.eta_p, eta, 1e-7, 1e-8, 'eta_p')
    # the correction is discontinuous at eta = 0: leave out the realisations
    # that rounding could move to the other side
    clear = np.abs(eta) > 1e-5
    for j in raw:
        want = raw[j] * ref.correction(eta, p, j)
        ctx.close('p-leaders', lead[j][:, clear], want[:, clear], 2e-6, 0,
                  f'p-leaders of scale {j}, eta={eta}')
    if (eta <= 0).any():
        ctx.oracles['eta-nonpositive'] += 1
        ctx.true('eta-warning', any('eta' in str(w.message)
                                    for w in ctx.last_warnings),
                 'no warning although eta(p) <= 0')
    ctx.true('metadata', wt.wt_leaders.formalism == 'wavelet p-leader'
             and wt.wt_leaders.gamint == par['gamint'],
             'metadata of the p-leaders')
    plain = ctx.call(api.wavelet_analysis, x, **{**par, 'p_exp': None})
    ctx.true('no-eta', plain.eta_p is None and plain.wt_leaders is None,
             'eta_p or leaders reported without p')
    ctx.state(par['wt_name'], p, len(raw), tuple(eta > 0))
