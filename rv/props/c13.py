"""One call is the composition of the documented steps."""
import numpy as np

from .. import api, gen

ID = 'C13'
LEVEL = 'exploration'
QUICK, THOROUGH = 800, 8000
REQUIRED = ['full', 'components', 'minimal', 'leaders-iff-p', 'q-default',
            'q-forms', 'defaults', 'defaults-wt']
RULE = ('random signals x every parameter of the one-call analysis; '
        'non-trivial: complete results compared field by field with the '
        'separate calls')


def case(ctx, rng, i):
    x, par = gen.setup(ctx, rng, gaps=True, hi=1200)
    q = None if rng.random() < .2 else gen.q_grid(rng)
    if q is not None:
        q = [float(v) if rng.random() < .5 else v for v in q]
    n_cumul = int(rng.integers(1, 6))
    ctx.params.update(q=q, n_cumul=n_cumul)
    f = dict(signal=x, q=q, n_cumul=n_cumul, **par)
    p, j1, w = par['p_exp'], par['j1'], par['weighted']
    full = ctx.call(api.mf_analysis_full, **f)
    mini = ctx.call(api.mf_analysis_full, minimal=True, **f)
    wt = ctx.call(api.wavelet_analysis, x, **par)
    step = ctx.call(api.mf_analysis, wt.wt_coefs, wt.wt_leaders, wt.j2_eff,
                    j1, w, n_cumul, q)
    ctx.same('full', full, step, what='one call vs two ')

    qq = np.array([2] if q is None else q)
    for side, m in (('dwt', wt.wt_coefs), ('lwt', wt.wt_leaders)):
        var = getattr(full, side)
        if m is None:
            continue
        c = dict(j1=j1, j2=wt.j2_eff, weighted=w)
        ctx.same('components', var.structure, ctx.call(
            api.StructureFunction, mrq=m, q=qq, **c), what=side)
        ctx.same('components', var.cumulants, ctx.call(
            api.Cumulants, mrq=m, n_cumul=n_cumul, **c), what=side)
        ctx.same('components', var.spectrum, ctx.call(
            api.MultifractalSpectrum, mrq=m, q=qq, **c), what=side)
        h, _ = ctx.call(api.estimate_hmin, m, j1, wt.j2_eff, w)
        ctx.same('components', var.hmin, h, what=side + '.hmin')
        ctx.true('formalism', var.structure.formalism == m.formalism,
                 'formalism')
    kind = (None if p is None else 'wavelet leader' if np.isinf(p)
            else 'wavelet p-leader')
    ctx.true('leaders-iff-p', (full.lwt is None) == (p is None) and
             (mini.lwt is None) == (p is None) and
             (p is None or full.lwt.structure.formalism == kind) and
             full.dwt.structure.formalism == 'wavelet coef',
             f'p = {p}, lwt is {type(full.lwt)}')

    # the minimal analysis holds exactly what it promises, unchanged
    ctx.same('minimal', mini.dwt.structure, full.dwt.structure)
    ctx.true('minimal', mini.dwt.cumulants is None and mini.dwt.spectrum is
             None and mini.dwt.hmin is None, 'minimal dwt')
    if p is not None:
        ctx.same('minimal', mini.lwt.cumulants, full.lwt.cumulants)
        ctx.true('minimal', mini.lwt.structure is None and mini.lwt.spectrum
                 is None and mini.lwt.hmin is None, 'minimal lwt')
    m2 = ctx.call(api.minimal_mf_analysis, wt.wt_coefs, wt.wt_leaders,
                  wt.j2_eff, j1, w, n_cumul, q)
    ctx.same('minimal', m2, mini, what='stepwise minimal ')

    # q: omitted means [2]; lists and arrays are the same thing
    if q is None:
        two = ctx.call(api.mf_analysis_full, **{**f, 'q': [2]})
        ctx.same('q-default', full, two, what='q=None vs q=[2] ')
    else:
        arr = ctx.call(api.mf_analysis_full, **{**f, 'q': np.array(q)})
        ctx.same('q-forms', full, arr, what='q list vs array ')

    # defaults
    if i % 4 == 0 and gen.usable(x, 'db3') >= 2:
        plain = ctx.call(api.mf_analysis_full, x, 1, 10)
        expl = ctx.call(api.mf_analysis_full, x, j1=1, j2=10,
                        normalization=1, gamint=0.0, weighted=True,
                        wt_name='db3', p_exp=None, q=[2], n_cumul=3,
                        minimal=False)
        ctx.same('defaults', plain, expl, what='defaults ')
        a = ctx.call(api.wavelet_analysis, x)
        b = ctx.call(api.wavelet_analysis, x, p_exp=None, wt_name='db3',
                     j1=1, j2=10, gamint=0., normalization=1, weighted=True)
        ctx.same('defaults-wt', a, b, what='wavelet defaults ')
        a = ctx.call(api.wavelet_analysis, x, p_exp=2)
        b = ctx.call(api.wavelet_analysis, x, p_exp=2., wt_name='db3',
                     j1=1, j2=10, gamint=0., normalization=1, weighted=True)
        ctx.same('defaults-wt', a, b, what='wavelet defaults ')
    ctx.state(p, q is None, n_cumul, w)
