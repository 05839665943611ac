"""Plots show the estimates."""
import os
import re
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402

from .. import api, gen, ref  # noqa: E402

ID = 'C28'
LEVEL = 'exploration'
QUICK, THOROUGH = 240, 4000
REQUIRED = ['structure', 'scaling', 'cumulants', 'spectrum', 'hmin', 'psd',
            'log-plot', 'fractal', 'signal', 'bicumulants', 'bistructure',
            'legendre', 'multiscale', 'labels', 'saved', 'unchanged']
RULE = ('random estimates drawn on an off-screen canvas; non-trivial: the '
        'coordinates of the drawn curves and the numbers of the legends '
        'compared with the estimates')


def lines(axes=None):
    """All curves of the given axes, or of every open figure."""
    if axes is None:
        axes = [a for n in plt.get_fignums() for a in plt.figure(n).axes]
    return [(a, ln) for a in axes for ln in a.lines]


def has(ctx, oracle, pool, x, y, what):
    """One of the curves goes through exactly these points."""
    ctx.oracles[oracle] += 1
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    ctx.values += len(x)
    tx = 1e-9 * (1 + np.abs(x).max())
    fin = np.isfinite(y)
    ty = 1e-8 * (1 + np.abs(y[fin]).max()) if fin.any() else 1
    for a, ln in pool:
        px, py = np.asarray(ln.get_xdata(), float).ravel(), np.ma.filled(
            np.ma.asarray(ln.get_ydata(), float), np.nan).ravel()
        if px.shape == x.shape and py.shape == y.shape and np.allclose(
                px, x, 0, tx) and np.array_equal(np.isfinite(py), fin) \
                and np.allclose(py[fin], y[fin], 0, ty):
            return a, ln
    return ctx.fail(oracle, f'{what}: no curve through the points '
                    f'{x[:4]}.. {y[:4]}.. among {len(pool)} curves') or \
        (None, None)


def fit_line(ctx, oracle, pool, j1, j2, slope, intercept, what):
    """A straight line of the fit over exactly [j1, j2]."""
    ctx.oracles[oracle] += 1
    ctx.values += 2
    t = 1e-7 * (1 + abs(slope) * j2 + abs(intercept))
    for a, ln in pool:
        x = np.asarray(ln.get_xdata(), float).ravel()
        y = np.asarray(ln.get_ydata(), float).ravel()
        if len(x) >= 2 and x.min() == j1 and x.max() == j2 and np.allclose(
                y, slope * x + intercept, 0, t):
            return a, ln
    return ctx.fail(oracle, f'{what}: no line of slope {slope} and intercept '
                    f'{intercept} over [{j1}, {j2}]') or (None, None)


def shows(ctx, text, value, what):
    """A number written in the text is the value, to the written precision."""
    ctx.oracles['labels'] += 1
    for t in re.findall(r'-?\d+\.\d+', text):
        if abs(float(t) - value) <= .51 * 10. ** -len(t.split('.')[1]):
            return
    ctx.fail('labels', f'{what}: {text!r} does not show {value}')


def legend_of(a):
    leg = a.get_legend()
    return '' if leg is None else ' '.join(
        t.get_text() for t in leg.get_texts())


def saved(ctx, path):
    ctx.true('saved', os.path.exists(path) and os.path.getsize(path) > 500,
             f'figure not saved to {path}')


def univariate(ctx, rng, i, tmp):
    m = gen.mrq(ctx, rng, nrep=1)
    j1, j2, w = gen.fit_range(ctx, rng, m)
    kind = i % 4
    path = os.path.join(tmp, 'f.png') if rng.random() < .3 else None
    kw = {} if path is None else dict(filename=path)
    if kind == 0:
        q = gen.q_grid(rng)
        if rng.random() < .4:
            q = np.unique([*np.asarray(q, float), 0., 7., -.3])
        s = ctx.call(api.StructureFunction, m, q, j1, j2, w)
        q = np.asarray(q, float)
        if (q == 0).all():
            return
        show0 = rng.random() < .3 and not (q == 0).sum() > 1
        keep = [k for k, v in enumerate(q) if v != 0 or show0]
        ctx.params.update(q=q)
        if rng.random() < .3:
            kw['nrow'] = int(rng.integers(1, 7))
        ctx.call(s.plot, **({**kw, 'ignore_q0': False} if show0 else kw))
        used = set()
        for k in keep:
            a, _ = has(ctx, 'structure', lines(), s.j, s.logvalues[k],
                       f'S(j, {q[k]})')
            if q[k]:
                a, _ = fit_line(ctx, 'structure', lines([a]), j1, j2,
                                s.zeta[k, 0], s.intercept[k, 0],
                                f'zeta({q[k]})')
                shows(ctx, legend_of(a), s.zeta[k, 0], 'slope')
                shows(ctx, a.get_ylabel(), q[k], 'exponent')
            used.add(a)
        n_axes = len(plt.gcf().axes)
        ctx.true('structure', len(used) == len(keep) == n_axes,
                 f'{len(used)} panels used of {n_axes}, {len(keep)} '
                 'exponents')
        if path:
            saved(ctx, path)
        plt.close('all')
        if len(q) > 1:
            kw.pop('nrow', None)
            ctx.call(s.plot_scaling, **kw)
            has(ctx, 'scaling', lines(), q, s.zeta[:, 0], 'zeta(q)')
    elif kind == 1:
        n = int(rng.integers(1, 6))
        while gen.has_zero(m):
            m = gen.mrq(ctx, rng, nrep=1)
            j1, j2, w = gen.fit_range(ctx, rng, m)
        c = ctx.call(api.Cumulants, m, n, j1, j2, w)
        if rng.random() < .4:
            kw['nrow'] = int(rng.integers(1, 6))
        ctx.call(c.plot, **kw)
        used = set()
        for k in range(n):
            a, _ = has(ctx, 'cumulants', lines(), c.j, c.values[k],
                       f'C_{k + 1}(j)')
            fit_line(ctx, 'cumulants', lines([a]), j1, j2, c.log_cumulants[
                k, 0] * np.log(2), c.intercept[k, 0], f'c_{k + 1}')
            shows(ctx, legend_of(a), c.log_cumulants[k, 0], f'c_{k + 1}')
            used.add(a)
        ctx.true('cumulants', len(used) == n == len(plt.gcf().axes),
                 f'{len(used)} panels used for {n} cumulants')
    elif kind == 2:
        m = gen.mrq(ctx, rng, nrep=int(rng.integers(1, 4)), positive=True)
        j1, j2, w = gen.fit_range(ctx, rng, m)
        q = np.sort(np.unique(gen.q_grid(rng)))
        s = ctx.call(api.MultifractalSpectrum, m, j1, j2, w, q)
        ax = None
        if rng.random() < .5:
            _, axs = plt.subplots(1, 2)
            ax = axs[0]
            kw['ax'] = ax
        ctx.call(s.plot, **kw)
        for r in range(m.nrep):
            has(ctx, 'spectrum', lines(None if ax is None else [ax]),
                s.hq[:, r], s.Dq[:, r], 'D(h)')
    else:
        m = gen.mrq(ctx, rng, nrep=int(rng.integers(1, 4)))
        j1, j2, w = gen.fit_range(ctx, rng, m)
        ctx.call(api.plot_hmin, m, j1, j2, w, False)
        h, b = ctx.call(api.estimate_hmin, m, j1, j2, w, False)
        lead = ref.log2d(ref.sup(m.values))
        for r in range(m.nrep):
            has(ctx, 'hmin', lines(), np.arange(j1, j2 + 1),
                [lead[j][r] for j in range(j1, j2 + 1)], 'sup')
            fit_line(ctx, 'hmin', lines(), j1, j2, h[r], b[r], 'hmin')
            shows(ctx, legend_of(plt.gca()), h[r], 'hmin')
        return
    if path:
        saved(ctx, path)


def logged(f, p, log, low=np.inf):
    lf = {'log2': np.log2, 'log': np.log}[log]
    keep = (f != 0) & (f < low)
    return lf(f[keep]), lf(p[keep])


def spectral(ctx, rng, i):
    n = gen.length(rng, 150, 1200)
    x = gen.column(rng, n, gen.pick(rng, ['walk', 'frac', 'gauss']))
    fs = float(gen.pick(rng, [1., 10., 250.]))
    log = gen.pick(rng, ['log2', 'log'])
    nm, n_fft = int(rng.integers(1, 4)), int(gen.pick(rng, [64, 100, 256]))
    seg = gen.pick(rng, [None, 50, 64])
    fw, pw = ref.welch(x, fs, n_fft, seg)
    fv, pv = ref.wavelet_psd(x, fs, nm)
    band = (0., fs / 3)
    ctx.params.update(n=n, fs=fs, log=log, n_moments=nm, n_fft=n_fft,
                      seg=seg)

    def slope_line(oracle, low=None):
        a, b, lf = ref.beta(fv, pv[:, 0], band, log)
        has(ctx, oracle, lines(), lf, a * lf + b, 'fitted slope')
        shows(ctx, legend_of(plt.gca()), float(a), 'beta')

    kind = i % 5
    if kind == 0:
        ctx.call(api.plot_psd, x, fs, n_fft, seg, nm, log)
        has(ctx, 'psd', lines(), *logged(fw, pw, log), 'Fourier')
        has(ctx, 'psd', lines(), *logged(fv, pv[:, 0], log), 'wavelet')
    elif kind == 1:
        low = float(fs * gen.pick(rng, [.2, .3, 10.]))
        if n_fft / 2 * low / fs < 1 or not (fv < low).any():
            return
        ctx.call(api.plot_fractal, x, fs, log, band, nm, n_fft, seg, low)
        has(ctx, 'fractal', lines(), *logged(fw, pw, log, low), 'Fourier')
        has(ctx, 'fractal', lines(), *logged(fv, pv[:, 0], log, low),
            'wavelet')
        slope_line('fractal')
    elif kind == 2:
        s = ctx.call(api.Signal, x, fs, log)
        ctx.call(s.plot_psd, n_fft, seg, nm)
        has(ctx, 'signal', lines(), *logged(fw, pw, log), 'Fourier')
        has(ctx, 'signal', lines(), *logged(fv, pv[:, 0], log), 'wavelet')
        plt.close('all')
        ctx.call(s.plot_fractal, nm, band, n_fft, seg)
        has(ctx, 'signal', lines(), *logged(fw, pw, log), 'Fourier')
        has(ctx, 'signal', lines(), *logged(fv, pv[:, 0], log), 'wavelet')
        slope_line('signal')
    elif kind == 3:
        k = int(rng.integers(1, 5))
        fl = [np.sort(rng.uniform(.1, 60, int(rng.integers(3, 20))))
              for _ in range(k)]
        if rng.random() < .4:
            fl[0][0] = 0.
        pl = [np.exp(rng.uniform(-3, 3, len(f))) for f in fl]
        low = float(gen.pick(rng, [np.inf, 50., 45.]))
        if any(((f > 0) & (f < low)).sum() < 1 for f in fl):
            return
        ctx.params.update(low=low, k=k)
        kw = {}
        if rng.random() < .4:
            kw['color'] = [gen.pick(rng, ['r', 'k', 'C3', 'y'])
                           for _ in range(k)]
        if rng.random() < .4:
            kw['linewidth'] = [1. + j for j in range(k)]
        if rng.random() < .5:
            kw['legend'] = [f'curve {j}' for j in range(k)]
        sl = []
        if rng.random() < .5:
            sl = [(np.arange(3.), rng.uniform(0, 1, 3)) for _ in range(k)]
            kw['slope'] = sl
        ax = None
        if rng.random() < .4:
            _, ax = plt.subplots()
            plt.figure()
            kw['ax'] = ax
        if rng.random() < .7 or log != 'log2':
            kw['log'] = log
        keep = [(f.copy(), p.copy()) for f, p in zip(fl, pl)]
        if rng.random() < .5:
            kw['plot_kwargs'] = {'alpha': .5} if rng.random() < .5 else {}
        own = dict(kw.get('plot_kwargs', {}))
        ctx.call(api.log_plot, fl, pl, lowpass_freq=low, **kw)
        pool = lines(None if ax is None else [ax])
        ctx.true('unchanged', own == kw.get('plot_kwargs', {}),
                 'plot_kwargs modified')
        for j, (f, p) in enumerate(zip(fl, pl)):
            _, ln = has(ctx, 'log-plot', pool, *logged(f, p, log, low),
                        f'curve {j}')
            if 'color' in kw:
                ctx.true('log-plot', ln.get_color() == kw['color'][j],
                         f'curve {j} in {ln.get_color()}')
            if 'linewidth' in kw:
                ctx.close('log-plot', ln.get_linewidth(), 1. + j, 0, 1e-9,
                          what='line width')
            ctx.true('unchanged', np.array_equal(f, keep[j][0]) and
                     np.array_equal(p, keep[j][1]), 'inputs modified')
        for s in sl:
            has(ctx, 'log-plot', pool, *s, 'slope')
        if 'legend' in kw:
            ctx.true('log-plot', all(t in legend_of(pool[0][0])
                                     for t in kw['legend']), 'legend')
    else:
        multiscale(ctx, rng)


def multiscale(ctx, rng):
    from pymultifracs.viz import plot_multiscale
    n_sub, segs = int(rng.integers(1, 4)), gen.pick(
        rng, [['rest'], ['rest', 'task']])
    base = np.array([.75 * 100 / 2. ** j for j in range(8, 0, -1)])
    rows, idx = [], []
    sub = {s: [] for s in segs}
    # the frequencies of a fit, in their log2
    limits = np.log2(base[int(rng.integers(0, 4)):int(rng.integers(5, 9))])
    for k in range(n_sub):
        for s in segs:
            lo, hi = int(rng.integers(0, 2)), int(rng.integers(6, 9))
            f, v = base[lo:hi], np.exp(rng.uniform(-2, 2, hi - lo))
            idx.append((f'S{k}', s))
            rows.append(dict(freq=f, mscale=v, slope=[limits, limits + 1.]))
            sub[s].append((f, v))
    df = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx))
    colors = {'rest': 'r', 'task': 'b', 'rest_avg': 'k', 'task_avg': 'g'}
    own = rng.random() < .5
    ax = plt.subplots()[1] if own else None
    ctx.params.update(multiscale=[n_sub, segs])
    ctx.call(plot_multiscale, df, colors, ax)
    pool = lines()
    for s in segs:
        for f, v in sub[s]:
            _, ln = has(ctx, 'multiscale', pool, *logged(f, v, 'log2', 50),
                        'subject')
            if n_sub > 1:
                ctx.true('multiscale', ln.get_color() == colors[s], 'colour')
        lo = max(f.min() for f, _ in sub[s])
        hi = min(f.max() for f, _ in sub[s])
        f = base[(base >= lo) & (base <= hi)]
        avg = np.mean([v[(g >= lo) & (g <= hi)] for g, v in sub[s]], axis=0)
        has(ctx, 'multiscale', pool, *logged(f, avg, 'log2', 50), 'average')
    # the limits of the fit are vertical lines
    ax = ax or plt.gca()
    paths = [np.asarray(p) for c in ax.collections if hasattr(
        c, 'get_segments') for p in c.get_segments()] + [
            ln.get_xydata() for ln in ax.lines]
    at = [float(p[0, 0]) for p in paths if len(p) == 2
          and p[0, 0] == p[1, 0]]
    for v in (limits[0], limits[-1]):
        ctx.true('multiscale', np.isclose(at, v, 1e-9, 1e-9).any(),
                 f'limit {v} of the fit among the vertical lines {at}')


def whitened(rng, n, corr):
    z = rng.standard_normal((n, 2))
    z -= z.mean(axis=0)
    z = z @ np.linalg.inv(np.linalg.cholesky(z.T @ z / n)).T
    return z[:, :1], corr * z[:, :1] + np.sqrt(1 - corr ** 2) * z[:, 1:]


def bivariate(ctx, rng, i):
    kind = i % 3
    if kind == 2:
        # leaders with an exactly known bivariate spectrum
        J = int(rng.integers(4, 8))
        a, b = (api.MultiResolutionQuantity('wavelet leader', 0.)
                for _ in range(2))
        h1, h2 = rng.uniform(.5, .9, 2)
        corr = float(rng.uniform(-.6, .6))
        for j in range(1, J + 1):
            u, v = whitened(rng, 40 + 2 ** (J - j), corr)
            s = np.sqrt(1.5 - .1 * j)
            a.add_values(np.exp(h1 * np.log(2) * j + s * u), j)
            b.add_values(np.exp(h2 * np.log(2) * j + s * v), j)
        c = ctx.call(api.BiCumulants, mrq1=a, mrq2=b, n_cumul=2, j1=1, j2=J,
                     weighted=True)
        seen = []
        real = Axes3D.plot_surface

        def spy(self, X, Y, Z, *args, **kw):
            seen.append((np.array(X), np.array(Y), np.array(Z)))
            return real(self, X, Y, Z, *args, **kw)

        Axes3D.plot_surface = spy
        try:
            ctx.call(c.plot_legendre)
        finally:
            Axes3D.plot_surface = real
        ctx.true('legendre', len(seen) == 1, f'{len(seen)} surfaces')
        X, Y, Z = seen[0]
        k = c.log_cumulants
        C = np.array([[k[2, 0], k[1, 1]], [k[1, 1], k[0, 2]]])
        d = np.stack([Y - k[1, 0], X - k[0, 1]], axis=-1)
        want = 1 + .5 * np.einsum('ija,ab,ijb->ij', d, np.linalg.inv(C), d)
        ctx.close('legendre', Z, want, 1e-6, 1e-6, 'spectrum surface')
        ctx.true('legendre', (Z.max(axis=0) >= 0).all() and
                 (Z.max(axis=1) >= 0).all(), 'support of the surface')
        return
    m1 = gen.mrq(ctx, rng, nrep=1, positive=True)
    m2 = gen.mrq(ctx, rng, nrep=1, positive=True, like=m1)
    j1, j2, w = gen.fit_range(ctx, rng, m1)
    js = np.arange(j1, j2 + 1)
    if kind == 0:
        n = int(rng.integers(1, 6))
        c = ctx.call(api.BiCumulants, mrq1=m1, mrq2=m2, n_cumul=n, j1=j1,
                     j2=j2, weighted=w)
        ctx.call(c.plot)
        for a in range(1, n + 1):
            for u, v in ((a, 0), (0, a)) + (((1, 1),) if a == 1 else ()):
                ax, _ = has(ctx, 'bicumulants', lines(), c.j, c.values[u, v],
                            f'C{u}{v}(j)')
                has(ctx, 'bicumulants', lines([ax]), js, js * c.slope[u, v]
                    + c.intercept[u, v], f'c{u}{v} fit')
                shows(ctx, legend_of(ax), c.log_cumulants[u, v], f'c{u}{v}')
                ctx.true('labels', f'{u}{v}' in ax.get_ylabel(),
                         f'C{u}{v} in a panel labelled {ax.get_ylabel()}')
    else:
        q1 = gen.pick(rng, [[0, 1, 2], [2], [1, 2]])
        q2 = gen.pick(rng, [[0, 1, 2], [1], [.5, 3]])
        s = ctx.call(api.BiStructureFunction, mrq1=m1, mrq2=m2, j1=j1,
                     j2=j2, q1=q1, q2=q2, weighted=w)
        ctx.params.update(q1=q1, q2=q2)
        ctx.call(s.plot)
        for a in range(len(q1)):
            for b in range(len(q2)):
                ax, _ = has(ctx, 'bistructure', lines(), s.j,
                            s.logvalues[a, b], f'S{q1[a]},{q2[b]}')
                has(ctx, 'bistructure', lines(), js, js * s.zeta[a, b]
                    + s.intercept[a, b], 'fit')
                if (q1[a], q2[b]) != (0, 0):
                    shows(ctx, legend_of(ax), s.zeta[a, b], 'zeta')


def case(ctx, rng, i):
    plt.close('all')
    group = i % 3
    with tempfile.TemporaryDirectory() as tmp:
        if group == 0:
            univariate(ctx, rng, i // 3, tmp)
        elif group == 1:
            spectral(ctx, rng, i // 3)
        else:
            bivariate(ctx, rng, i // 3)
    ctx.state(group, i % 5, len(plt.get_fignums()))
    plt.close('all')
