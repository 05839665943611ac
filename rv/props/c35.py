"""Arguments mean the same by position, by keyword and by default."""
import numpy as np

from .. import api, core, gen

ID = 'C35'
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 10000
REQUIRED = ['positional', 'defaults', 'named-results', 'unknown-refused']
RULE = ('random calls of the documented entry points with the arguments '
        'given by keyword, by position in the documented order, and omitted '
        'when they have their documented default; non-trivial: the results '
        'of the three calls compared bit by bit')

REQ = object()


def walk(rng, n=None, nrep=None):
    n = n or int(rng.integers(200, 700))
    return np.cumsum(rng.standard_normal((n, nrep or int(rng.integers(1, 3)))),
                     axis=0)


def quantity(rng):
    return gen.mrq(core.Ctx('', '', 0), rng, gaps=False,
                   formalism='wavelet coef')


def common(rng):
    """(name, documented default, generator) of the analysis options"""
    return dict(
        normalization=(1, lambda: gen.normalization(rng)),
        gamint=(0., lambda: gen.gamint(rng)),
        weighted=(True, lambda: False),
        wt_name=('db3', lambda: gen.pick(rng, ['db1', 'db2', 'sym4'])),
        p_exp=(None, lambda: gen.pick(rng, [1., 2, 2.5, np.inf])))


def table(rng):
    """One documented call: (function, [(name, default, value)...])"""
    c = common(rng)
    kind = gen.pick(rng, KINDS)

    def opt(name):
        d, g = c[name]
        return name, d, g

    if kind == 'wavelet':
        # beyond the ten scales of the default j2
        x = walk(rng) if rng.random() < .8 else walk(
            rng, int(2 ** rng.uniform(13.9, 16)), 1)
        return kind, api.wavelet_analysis, [
            ('signal', REQ, x), opt('p_exp'), opt('wt_name'),
            ('j1', 1, lambda: 2), ('j2', 10, lambda: int(rng.integers(3, 5))),
            opt('gamint'), opt('normalization'), opt('weighted')]
    if kind == 'full':
        return kind, api.mf_analysis_full, [
            ('signal', REQ, walk(rng)), ('j1', REQ, 1),
            ('j2', REQ, int(rng.integers(3, 5))), opt('normalization'),
            opt('gamint'), opt('weighted'), opt('wt_name'), opt('p_exp'),
            ('q', None, lambda: gen.q_grid(rng)),
            ('n_cumul', 3, lambda: int(rng.integers(1, 5))),
            ('minimal', False, lambda: True)]
    if kind in ('steps', 'minimal'):
        wt = api.wavelet_analysis(walk(rng), c['p_exp'][1]())
        fn = api.mf_analysis if kind == 'steps' else api.minimal_mf_analysis
        return kind, fn, [
            ('wt_coefs', REQ, wt.wt_coefs), ('wt_leaders', REQ,
                                             wt.wt_leaders),
            ('j2_eff', REQ, wt.j2_eff), ('j1', REQ, 1),
            ('weighted', REQ, bool(rng.random() < .5)),
            ('n_cumul', REQ, int(rng.integers(1, 5))),
            ('q', REQ, gen.q_grid(rng))]
    if kind == 'bivariate':
        x = walk(rng, nrep=2)
        return kind, api.bivariate_analysis_full, [
            ('signal1', REQ, x[:, 0]), ('signal2', REQ, x[:, 1]),
            ('j1', REQ, 1), ('j2', REQ, 4), opt('normalization'),
            opt('gamint'), opt('weighted'), opt('wt_name'), opt('p_exp'),
            ('q1', None, lambda: np.array([0., 1, 3])),
            ('q2', None, lambda: np.array([1., 2])),
            ('n_cumul', 3, lambda: int(rng.integers(1, 3)))]
    if kind in ('structure', 'cumulants', 'spectrum', 'hmin', 'hurst'):
        m = quantity(rng)
        J = len(m.values)
        j1 = int(rng.integers(1, J))
        fit = [('j1', REQ, j1), ('j2', REQ, int(rng.integers(j1 + 1, J + 1))),
               ('weighted', REQ, bool(rng.random() < .5))]
        q = [('q', REQ, gen.q_grid(rng))]
        m = [('mrq', REQ, m)]
        if kind == 'structure':
            return kind, api.StructureFunction, m + q + fit
        if kind == 'cumulants':
            return kind, api.Cumulants, m + [
                ('n_cumul', REQ, int(rng.integers(1, 5)))] + fit
        if kind == 'spectrum':
            return kind, api.MultifractalSpectrum, m + fit + q
        m = [('wt_coefs', REQ, m[0][2])]
        if kind == 'hmin':
            fit[1] = ('j2_eff', REQ, fit[1][2])
            return kind, api.estimate_hmin, m + fit + [
                ('warn', True, lambda: False),
                ('return_y', False, lambda: True)]
        return kind, api.compute_hurst, m + fit
    fs = float(gen.pick(rng, [1., 10., 250.]))
    if kind == 'welch':
        n = int(rng.integers(300, 6000))
        return kind, api.welch_estimation, [
            ('signal', REQ, walk(rng, n, 1)[:, 0]), ('fs', REQ, fs),
            ('n_fft', 4096, lambda: int(rng.integers(64, 5000))),
            ('seg_size', None, lambda: int(rng.integers(32, 256)))]
    if kind == 'wpsd':
        return kind, api.wavelet_estimation, [
            ('signal', REQ, walk(rng)), ('fs', REQ, fs),
            ('n_moments', REQ, int(rng.integers(1, 4))),
            ('j2', None, lambda: 3)]
    if kind == 'beta':
        f = np.sort(rng.uniform(.005, 5, 40))
        return kind, api.estimate_beta, [
            ('freq', REQ, f), ('psd', REQ, np.exp(rng.standard_normal(40))),
            ('freq_band', (.01, 2), lambda: (.1, 3.)),
            ('log', 'log2', lambda: 'log')]
    if kind == 'fractal':
        return kind, api.fractal_analysis, [
            ('signal', REQ, walk(rng, 700)), ('s_freq', REQ, 10.),
            ('n_moments', 2, lambda: gen.pick(rng, [1, 3])),
            ('freq_band', (.01, 2), lambda: (.1, 5.)),
            ('log', 'log2', lambda: 'log')]
    if kind == 'fgn' or kind == 'fbm':
        return kind, getattr(api, kind), [
            ('shape', REQ, (int(rng.integers(8, 40)), 2)),
            ('H', REQ, float(rng.uniform(.2, .9))),
            ('sigma', 1, lambda: 2.5), ('dt', None, lambda: .5),
            ('method', 'cme', lambda: 'chol')]
    if kind == 'mrw':
        return kind, api.mrw, [
            ('shape', REQ, (64, 2)), ('H', REQ, float(rng.uniform(.4, .9))),
            ('lam', REQ, .15), ('L', REQ, 32), ('sigma', 1, lambda: 2.5),
            ('method', 'cme', lambda: 'chol')]
    if kind == 'skewed_mrw':
        return kind, api.skewed_mrw, [
            ('shape', REQ, (32, 2)), ('H', REQ, .5), ('lam', REQ, .1),
            ('L', REQ, 16), ('K0', 1, lambda: .05),
            ('alpha', 1, lambda: .7), ('sigma', 1, lambda: 2.),
            ('dt', 1, lambda: 2), ('beta', 1, lambda: .5),
            ('do_mirror', False, lambda: True)]
    if kind == 'mrw2D':
        return kind, api.mrw2D, [
            ('shape', REQ, (16, 2)), ('H', REQ, .6), ('lam', REQ, .1),
            ('L', REQ, 8), ('sigma', 1, lambda: 2.)]
    if kind == 'regression':
        x = np.tile(np.arange(1., 8)[:, None], (1, 3))
        return kind, api.linear_regression, [
            ('x', REQ, x), ('y', REQ, rng.standard_normal((7, 3))),
            ('nj', REQ, rng.integers(1, 50, (7, 3))),
            ('return_variance', False, lambda: True)]
    if kind == 'q-log':
        return kind, api.build_q_log, [
            ('q_min', REQ, float(rng.uniform(.1, 1))),
            ('q_max', REQ, float(rng.uniform(2, 9))),
            ('n', REQ, int(rng.integers(2, 9)))]
    if kind == 'level':
        return kind, api.decomposition_level, [
            ('length', REQ, int(rng.integers(20, 9000))),
            ('wt_name', REQ, gen.pick(rng, gen.WAVELETS))]
    raise ValueError(kind)


KINDS = ['wavelet', 'wavelet', 'full', 'full', 'steps', 'minimal',
         'bivariate', 'structure', 'cumulants', 'spectrum', 'hmin', 'hurst',
         'welch', 'wpsd', 'beta', 'fractal', 'fgn', 'fbm', 'mrw',
         'skewed_mrw', 'mrw2D', 'regression', 'q-log', 'level']

NAMED = dict(wavelet=('wt_coefs', 'wt_leaders', 'j2_eff', 'eta_p'),
             full=('dwt', 'lwt'), steps=('dwt', 'lwt'),
             minimal=('dwt', 'lwt'), bivariate=None,
             welch=('freq', 'psd'), wpsd=('freq', 'psd'),
             beta=('beta', 'log_C', 'freq'),
             fractal=('beta', 'log_C', 'freq'))


def case(ctx, rng, i):
    kind, fn, pars = table(rng)
    plain = rng.random() < .3       # everything by default
    values = []
    for name, default, v in pars:
        if default is REQ:
            values.append((name, v, False))
        elif plain or rng.random() < .5:
            values.append((name, default, True))
        else:
            values.append((name, v(), False))
    ctx.params.update(op=kind, values={n: core.describe(v, 60)
                                       for n, v, _ in values})

    def run(*a, **k):
        np.random.seed(5)
        return ctx.call(fn, *a, **k)

    full = run(**{n: v for n, v, _ in values})
    want = core.digest(full)
    ctx.values += sum(np.size(v) for _, v in core.flatten(full))
    k = int(rng.integers(len(values) + 1))
    got = run(*[v for _, v, _ in values[:k]],
              **{n: v for n, v, _ in values[k:]})
    ctx.true('positional', core.digest(got) == want, f'{kind}: the first {k} '
             f'arguments by position ({[n for n, _, _ in values[:k]]}) give '
             'another result than by keyword')
    ctx.true('positional', core.digest(run(*[v for _, v, _ in values]))
             == want, f'{kind}: all arguments by position')
    if any(d for _, _, d in values):
        got = run(**{n: v for n, v, d in values if not d})
        ctx.true('defaults', core.digest(got) == want, f'{kind}: '
                 f'{[(n, v) for n, v, d in values if d]} are not what is '
                 'used when they are omitted')
    names = NAMED.get(kind)
    if names:
        ctx.true('named-results', tuple(full._fields) == names and all(
            getattr(full, n) is full[j] for j, n in enumerate(names)),
            f'{kind}: fields {getattr(full, "_fields", None)}')
    if rng.random() < .2:
        ctx.raises('unknown-refused', TypeError, run, no_such_option=1,
                   **{n: v for n, v, _ in values})
    ctx.state(kind, k, sum(d for _, _, d in values))
