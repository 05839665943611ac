"""Random public operations, each as (name, fn, args, kwargs): the alphabet
of the purity, concurrency and history monitors."""
import numpy as np

from . import api, gen


class Quiet:
    """Stand-in context for generators that want to record parameters."""

    def __init__(self):
        self.params = {}

    def call(self, fn, *a, **k):
        return fn(*a, **k)


def make(rng, kinds=None, hi=700):
    """A ready-to-run analysis operation on fresh inputs."""
    q = Quiet()
    kind = gen.pick(rng, kinds or KINDS)
    name = kind
    if kind in ('wavelet', 'full', 'minimal'):
        x, par = gen.setup(q, rng, gaps=kind == 'wavelet', lo=60, hi=hi)
        if kind == 'wavelet':
            return name, api.wavelet_analysis, (x,), par
        return name, api.mf_analysis_full, (x,), dict(
            q=gen.q_grid(rng), n_cumul=int(rng.integers(1, 5)),
            minimal=kind == 'minimal', **par)
    if kind == 'bivariate':
        n = gen.length(rng, 80, hi)
        x = gen.column(rng, n, gen.pick(rng, ['gauss', 'walk', 'frac']))
        y = gen.column(rng, n, gen.pick(rng, ['gauss', 'walk', 'frac']))
        w = gen.wt_name(q, rng, n, pool=gen.SHORT)
        return name, api.bivariate_analysis_full, (x, y), dict(
            j1=1, j2=gen.deepest(n, w), wt_name=w, p_exp=gen.p_exp(rng),
            gamint=gen.gamint(rng), n_cumul=int(rng.integers(1, 4)),
            weighted=bool(rng.random() < .5))
    if kind in ('structure', 'cumulants', 'spectrum', 'hmin', 'hurst'):
        m = gen.mrq(q, rng)
        j1, j2, w = gen.fit_range(q, rng, m)
        if kind == 'structure':
            return name, api.StructureFunction, (m,), dict(
                q=gen.q_grid(rng), j1=j1, j2=j2, weighted=w)
        if kind == 'cumulants':
            return name, api.Cumulants, (m,), dict(
                n_cumul=int(rng.integers(1, 6)), j1=j1, j2=j2, weighted=w)
        if kind == 'spectrum':
            return name, api.MultifractalSpectrum, (m,), dict(
                q=gen.q_grid(rng), j1=j1, j2=j2, weighted=w)
        if kind == 'hmin':
            return name, api.estimate_hmin, (m, j1, j2, w), {}
        return name, api.compute_hurst, (m, j1, j2, w), {}
    if kind in ('welch', 'wpsd', 'fractal'):
        n = gen.length(rng, 100, hi)
        x = gen.column(rng, n, gen.pick(rng, ['gauss', 'walk', 'frac']))
        fs = float(gen.pick(rng, [1., 10., 250.]))
        if kind == 'welch':
            return name, api.welch_estimation, (x, fs), dict(
                n_fft=int(rng.integers(16, 300)))
        nm = int(rng.integers(1, 4))
        if kind == 'wpsd':
            return name, api.wavelet_estimation, (x, fs, nm), {}
        return name, api.fractal_analysis, (x, fs), dict(
            n_moments=nm, freq_band=(0, fs), log=gen.pick(rng, [
                'log', 'log2']))
    if kind == 'beta':
        f = np.sort(rng.uniform(.01, 5, 30))
        return name, api.estimate_beta, (f, f ** -1.3 * rng.uniform(
            .5, 2, 30)), dict(freq_band=(.02, 4.))
    if kind == 'regression':
        x = np.tile(np.arange(1, 8)[:, None], (1, 3))
        return name, api.linear_regression, (
            x, rng.standard_normal((7, 3)), rng.integers(1, 50, (7, 3))), {}
    if kind == 'frac-int':
        return name, api.fract_int_2d, (rng.standard_normal((16, 16, 2)),
                                        float(rng.uniform(0, 2))), {}
    if kind == 'skew':
        return name, api.skewness_convolution, (
            rng.standard_normal((64, 3)), .1, .7), {}
    if kind == 'fgn-z0':
        N = int(rng.integers(8, 80))
        z = rng.standard_normal((2 * N - 2, 2)) \
            + 1j * rng.standard_normal((2 * N - 2, 2))
        return name, api.fbm, ((N, 2), float(rng.uniform(.1, .9))), dict(
            z0=z)
    if kind == 'q-log':
        return name, api.build_q_log, (.1, 5., int(rng.integers(2, 9))), {}
    if kind == 'scale':
        return name, api.fband2scale, ((.1, 3.), 20.), {}
    raise ValueError(kind)


KINDS = ['wavelet', 'wavelet', 'full', 'full', 'minimal', 'bivariate',
         'structure', 'cumulants', 'spectrum', 'hmin', 'hurst', 'welch',
         'wpsd', 'fractal', 'beta', 'regression', 'frac-int', 'skew',
         'fgn-z0', 'q-log', 'scale']

SIMULATORS = {
    'fgn': lambda rng: (api.fgn, ((int(rng.integers(4, 60)), 2),
                                  float(rng.uniform(.1, .95))), {}),
    'fgn-chol': lambda rng: (api.fgn, ((int(rng.integers(4, 40)), 2),
                                       float(rng.uniform(.1, .9))),
                             dict(method='chol')),
    'fbm': lambda rng: (api.fbm, (int(rng.integers(4, 60)),
                                  float(rng.uniform(.1, .95))), {}),
    'mrw': lambda rng: (api.mrw, ((64, 2), .7, .2, 32), {}),
    'mrw_cumul': lambda rng: (api.mrw_cumul, (64, .7, -.04, 32), {}),
    'skewed_mrw': lambda rng: (api.skewed_mrw, ((32, 2), .6, .1, 16),
                               dict(K0=.05)),
    'mrw2D': lambda rng: (api.mrw2D, ((16, 2), .6, .1, 8), {}),
}
