"""Known scaling exponents are recovered from synthetic processes.

The intervals were calibrated on 240 to 400 runs per quantity: centred on the
observed mean (the estimators have a small finite-size bias), half-width of
at least six standard deviations and twice the largest deviation seen."""
import numpy as np

from .. import api, gen

ID = 'C30'
LEVEL = 'exploration'
QUICK, THOROUGH = 96, 800
REQUIRED = ['H', 'c1', 'c2', 'c3', 'spectrum', 'zeta2', 'hmin', 'beta',
            'levels', 'discriminates', 'noise', 'bivariate', 'hurst']
RULE = ('averages over 8 realisations of 2^14 samples, random exponents, '
        'wavelets and formalisms; non-trivial: estimates within calibrated '
        'intervals of the true exponents')
R, N, J1, J2 = 8, 2 ** 14, 3, 9


def near(ctx, oracle, got, want, half, what, centre=0.):
    ctx.close(oracle, np.mean(got) - want - centre, 0., 0, half,
              f'{what} (true value {want:.4f})')


def side(d, p):
    return d.dwt if p is None else d.lwt


def fbm(ctx, rng, w):
    H = float(rng.uniform(.15, .95))
    x = ctx.call(api.fbm, (N, R), H)
    ctx.params.update(H=H)
    for p in (None, np.inf, 2):
        g = .5 if p == 2 and H < .3 else 0.
        d = ctx.call(api.mf_analysis_full, x, J1, J2, wt_name=w, p_exp=p,
                     q=[0, 1, 2], n_cumul=2, gamint=g)
        s = side(d, p)
        near(ctx, 'H', s.structure.H, H, .14, f'H of fBm, p={p}', -.025)
        near(ctx, 'c1', s.cumulants.c1, H + g, .14, f'c1 of fBm, p={p}',
             -.025)
        near(ctx, 'c2', s.cumulants.c2, 0., .14 if p is None else .04,
             f'c2 of fBm, p={p}')
        near(ctx, 'spectrum', s.spectrum.Dq[1], 1., .025, 'D(1) of fBm')
        near(ctx, 'spectrum', s.spectrum.Dq[0], 1., 1e-9, 'D(0)')
        if p is None:
            near(ctx, 'hmin', s.hmin, H, .16, 'hmin of fBm', -.105)
            wt = ctx.call(api.wavelet_analysis, x, wt_name=w)
            h = ctx.call(api.compute_hurst, wt.wt_coefs, J1, 8, True)[0]
            near(ctx, 'hurst', h, H, .13, 'Hurst exponent', -.01)
    b = ctx.call(api.fractal_analysis, x, 1., n_moments=2, freq_band=(
        .75 / 2 ** J2, .76 / 2 ** J1))
    near(ctx, 'beta', b.beta, -2 * H - 1, .2, 'PSD slope', .017)


def mrw(ctx, rng, w):
    c1, c2 = float(rng.uniform(.5, .85)), -float(rng.uniform(.01, .09))
    p = gen.pick(rng, [1, 2])
    y = ctx.call(api.mrw_cumul, (N, R), c1, c2, N)
    z = ctx.call(api.fbm, (N, R), c1)
    ctx.params.update(c1=c1, c2=c2)
    for p in (None, np.inf, p):
        d = ctx.call(api.mf_analysis_full, y, J1, J2, wt_name=w, p_exp=p,
                     q=[0, 1, 2], n_cumul=3)
        s = side(d, p)
        near(ctx, 'c1', s.cumulants.c1, c1, .09, f'c1 of MRW, p={p}', -.03)
        near(ctx, 'c2', s.cumulants.c2, c2, .13 if p is None else .045,
             f'c2 of MRW, p={p}', .004)
        near(ctx, 'zeta2', s.structure.zeta[2], 2 * c1 + 2 * c2, .15,
             f'zeta(2) of MRW, p={p}', -.05)
        near(ctx, 'spectrum', s.spectrum.hq[0], c1, .09, f'h(0), p={p}',
             -.03)
        if p is not None:
            near(ctx, 'c3', s.cumulants.c3, 0., .05, f'c3 of MRW, p={p}')
        if p == np.inf and c2 < -.045:
            f = ctx.call(api.mf_analysis_full, z, J1, J2, wt_name=w,
                         p_exp=p, q=[2], n_cumul=2).lwt
            ctx.dominated('discriminates', np.mean(s.cumulants.c2),
                          np.mean(f.cumulants.c2) - .005,
                          what='c2 of MRW and of fBm')


def noise(ctx, rng, w):
    H = float(rng.uniform(.15, .95))
    x = ctx.call(api.fgn, (N, R), H)
    ctx.params.update(H=H)
    s = ctx.call(api.mf_analysis_full, x, J1, J2, wt_name=w, p_exp=np.inf,
                 gamint=1., q=[2]).lwt
    near(ctx, 'noise', s.structure.H + 1, H, .08, 'H of fGn, integrated')
    near(ctx, 'noise', s.cumulants.c1, H, .08, 'c1 of fGn, integrated')
    y = rng.standard_normal(N)
    a = ctx.call(api.welch_estimation, y, 1., 512)
    b = ctx.call(api.wavelet_estimation, y, 1., 2)
    ctx.close('levels', np.mean(b.psd[1:5]) / np.mean(a.psd[20:-5]),
              np.pi / 4, .2, 0, 'wavelet over Fourier power of white noise')


def bivariate(ctx, rng, w):
    lam2, H = float(rng.uniform(.03, .09)), float(rng.uniform(.5, .8))
    r = int(rng.integers(-1, 2))
    ctx.params.update(lam2=lam2, H=H, r=r)
    u = ctx.call(api.gaussian_w, N, R, N, np.sqrt(lam2), 1)
    v = r * u if r else ctx.call(api.gaussian_w, N, R, N, np.sqrt(lam2), 1)
    y = [np.cumsum(ctx.call(api.fgn, (N, R), H) * np.exp(
        t - t.mean(axis=0)), axis=0) for t in (u, v)]
    k = np.mean([ctx.call(
        api.bivariate_analysis_full, y[0][:, m], y[1][:, m], J1, J2,
        p_exp=np.inf, n_cumul=2).lwt.cumulants.log_cumulants
        for m in range(R)], axis=0) / lam2
    near(ctx, 'bivariate', k[1, 1], -r * 1., .4, 'c11 / lambda^2',
         .1 * abs(r) * r)
    near(ctx, 'bivariate', k[2, 0], -1., .6, 'c20 / lambda^2', .17)
    near(ctx, 'bivariate', k[0, 2], -1., .6, 'c02 / lambda^2', .17)
    near(ctx, 'bivariate', k[1, 0] * lam2, H, .13, 'c10', .03)


def case(ctx, rng, i):
    w = gen.pick(rng, ['db2', 'db3', 'db4', 'sym4', 'coif1', 'db5'])
    ctx.params['wt_name'] = w
    (fbm, mrw, noise, bivariate)[i % 4](ctx, rng, w)
    ctx.state(i % 4, w)
