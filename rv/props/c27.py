"""Signal: cached results are the results."""
import numpy as np

from .. import api, gen

ID = 'C27'
LEVEL = 'exploration'
QUICK, THOROUGH = 600, 5000
REQUIRED = ['wavelet-psd', 'welch', 'fractal', 'wavelet', 'mf', 'mf-full',
            'hurst', 'hmin', 'difference', 'stored', 'untouched', 'refused',
            'unsaved', 'failed-keeps', 'q-mutated', 'data-kept']
RULE = ('random histories of operations on two Signal objects, failing ones '
        'included; non-trivial: every returned and stored result compared '
        'with a stateless recomputation')

NONE = object()


class Model:
    """What a Signal must hold: the parameters of the last successful
    operation of each kind."""

    def __init__(self, data, fs, log):
        self.data, self.fs, self.log = data, fs, log
        self.wpsd = self.welch = self.fractal = self.wt = NONE
        self.mf = NONE
        self.memo = {}

    def _memo(self, key, fn, *a, **k):
        key = repr(key)
        if key not in self.memo:
            self.memo[key] = fn(*a, **k)
        return self.memo[key]

    def calc_wpsd(self, p):
        return self._memo(('wpsd', p), api.wavelet_estimation, self.data,
                          self.fs, p[0], p[1])

    def calc_welch(self, p):
        return self._memo(('welch', p), api.welch_estimation, self.data,
                          self.fs, p[0], p[1])

    def calc_fractal(self, p):
        return self._memo(('fractal', p), api.fractal_analysis, self.data,
                          self.fs, p[0], p[1], self.log)

    def calc_wt(self, p):
        return self._memo(('wt', sorted(p.items(), key=str)),
                          api.wavelet_analysis, self.data, **p)

    def calc_mf(self, wt, q, n):
        t = self.calc_wt(wt)
        q = None if q is None else tuple(q)
        return self._memo(('mf', sorted(wt.items(), key=str), q, n),
                          api.mf_analysis, t.wt_coefs, t.wt_leaders,
                          t.j2_eff, wt['j1'], wt['weighted'], n,
                          None if q is None else np.array(q))


class History:

    def __init__(self, ctx, rng, n_sig=2):
        self.ctx, self.rng = ctx, rng
        self.pairs = []
        self.two_d = rng.random() < .25
        fs = float(gen.pick(rng, [1., 10., 250.]))
        log = gen.pick(rng, ['log2', 'log'])
        n = gen.length(rng, 150, 900)
        for _ in range(n_sig):
            x = np.stack([gen.column(rng, n, gen.pick(rng, [
                'walk', 'frac', 'cascade', 'gauss', 'real'])) for _ in range(
                    2 if self.two_d else 1)], axis=1)
            if not self.two_d:
                x = x[:, 0]
            s = ctx.call(api.Signal, x, fs, log) if log == 'log' or \
                rng.random() < .5 else ctx.call(api.Signal, x, fs)
            if s.log != log:
                ctx.fail('default-log', f'log = {s.log}')
            self.pairs.append((s, Model(x.copy(), fs, log)))
        self.pool = {
            'wpsd': [(2, None), (1, None), (3, None), (2, 4), (1, 3)],
            'welch': [(64, None), (128, None), (64, 32), (100, 50), (512, None),
                      (1024, None), (2048, None), (1500, 300)],
            'fractal': [(nm, (0., fs)) for nm in (1, 2)]
            + [(2, (0., fs / 5)), (1, (.01 * fs, fs))],
            'wt': [], 'q': [None, [2], [1, 2, 3], [2, 1, 3],
                            np.array([-1., 0., 1., 2.]), [2.]],
            'n_cumul': [1, 2, 3]}
        for _ in range(4):
            w = gen.pick(rng, ['db1', 'db2', 'db3'])
            deep = gen.deepest(n, w)
            base = dict(j1=1, j2=deep, normalization=1, gamint=0.,
                        weighted=True, wt_name=w, p_exp=None)
            self.pool['wt'].append(base)
            for k, v in (('j1', 2), ('j2', deep - 1), ('normalization', 2),
                         ('gamint', .5), ('weighted', False), ('p_exp', 2),
                         ('p_exp', np.inf), ('j2', None)):
                if rng.random() < .4:
                    self.pool['wt'].append({**base, k: v})

    def get(self, what):
        return gen.pick(self.rng, self.pool[what])

    # -- consistency of the stored state -----------------------------------

    def stored(self, s, m):
        ctx = self.ctx
        for name, attr, par, calc in (
                ('wpsd', 'wt_psd', 'wt_psd_param', m.calc_wpsd),
                ('welch', 'welch_psd', 'welch_param', m.calc_welch),
                ('fractal', 'fractal', 'fractal_param', m.calc_fractal)):
            p = getattr(m, name)
            if p is NONE:
                ctx.true('untouched', getattr(s, attr) is None and
                         getattr(s, par) is None, f'{attr}, {par} set')
                continue
            ctx.same('stored', getattr(s, attr), calc(p),
                     what=f'{attr} {p}')
            ctx.true('stored', tuple(getattr(s, par)) == p,
                     f'{par} is {getattr(s, par)}, expected {p}')
        if m.wt is NONE:
            ctx.true('untouched', s.wt_transform is None and s.wt_param is
                     None and s.multi_fractal is None, 'transform set')
            return
        ctx.same('stored', s.wt_transform, m.calc_wt(m.wt),
                 what=f'wt_transform {m.wt}')
        ctx.true('stored', s.wt_param._asdict() == m.wt,
                 f'wt_param is {s.wt_param}, expected {m.wt}')
        if m.mf is NONE:
            ctx.true('stored', s.multi_fractal is None,
                     'multi_fractal does not belong to the transform')
        else:
            q, n = m.mf
            ctx.same('stored', s.multi_fractal, m.calc_mf(m.wt, q, n),
                     what=f'multi_fractal {m.mf}')
            ctx.true('stored', s.mf_param.n_cumul == n and (
                s.mf_param.q is None if q is None else
                np.array_equal(s.mf_param.q, q)),
                f'mf_param is {s.mf_param}, expected {m.mf}')

    def refused(self, oracle, fn, *a, **k):
        try:
            self.ctx.call(fn, *a, **k)
        except Exception:
            self.ctx.oracles[oracle] += 1
            return True
        return False

    # -- operations ---------------------------------------------------------

    def step(self):
        ctx, rng = self.ctx, self.rng
        k = int(rng.integers(len(self.pairs)))
        s, m = self.pairs[k]
        ops = ['wpsd', 'fractal', 'wt', 'wt', 'mf', 'mf', 'mf', 'mf-full',
               'hurst', 'hmin', 'difference', 'bad']
        if not self.two_d:
            ops += ['welch', 'plot-psd', 'plot-fractal']
        op = gen.pick(rng, ops)
        if op == 'wpsd':
            p = self.get('wpsd')
            got = ctx.call(s.estimate_wavelet_psd, *p) if p != (2, None) \
                else ctx.call(s.estimate_wavelet_psd)
            m.wpsd = p
            ctx.same('wavelet-psd', got, m.calc_wpsd(p))
        elif op == 'welch':
            p = self.get('welch')
            if p[1] is None and rng.random() < .5:
                got = ctx.call(s.estimate_welch_psd, n_fft=p[0])
            else:
                got = ctx.call(s.estimate_welch_psd, *p)
            m.welch = p
            ctx.same('welch', got, m.calc_welch(p))
        elif op == 'fractal':
            p = self.get('fractal')
            got = ctx.call(s.fractal_analysis, *p)
            m.wpsd, m.fractal = (p[0], None), p
            ctx.same('fractal', got, m.calc_fractal(p))
        elif op == 'wt':
            p = self.get('wt')
            got = ctx.call(s.wavelet_analysis, **p)
            ctx.same('wavelet', got, m.calc_wt(p))
            if m.wt is NONE or m.wt != p:
                m.mf = NONE
            m.wt = p
        elif op in ('mf', 'mf-full'):
            q, n = self.get('q'), self.get('n_cumul')
            save = bool(rng.random() < .75)
            arg = q
            if q is not None:
                arg = np.array(q) if rng.random() < .5 else list(q)
            if op == 'mf':
                if m.wt is NONE:
                    ctx.raises('refused', AttributeError, s.mf_analysis, arg,
                               n)
                    return op, k
                got = ctx.call(s.mf_analysis, arg, n, save)
            else:
                p = self.get('wt')
                got = ctx.call(s.mf_analysis_full, **p, q=arg, n_cumul=n,
                               save=save)
                if m.wt is NONE or m.wt != p:
                    m.mf = NONE
                m.wt = p
                q = [2] if q is None else q
            ctx.same('mf' if op == 'mf' else 'mf-full', got,
                     m.calc_mf(m.wt, q, n), what=f'q={q} n={n} ')
            if save:
                # an unsaved request leaves the stored result alone
                m.mf = (None if q is None else tuple(q), n)
            else:
                ctx.oracles['unsaved'] += 1
            if q is not None and arg is not None and rng.random() < .4:
                arg[0] = arg[0] + 1     # the caller reuses its own list
                ctx.oracles['q-mutated'] += 1
        elif op in ('hurst', 'hmin'):
            if m.wt is NONE:
                ctx.raises('refused', AttributeError, getattr(s, op))
                return op, k
            got = ctx.call(getattr(s, op))
            t = m.calc_wt(m.wt)
            fn = api.compute_hurst if op == 'hurst' else api.estimate_hmin
            ctx.same(op, got, fn(t.wt_coefs, m.wt['j1'], t.j2_eff,
                                 m.wt['weighted']))
        elif op == 'difference':
            o, mo = self.pairs[1 - k]
            if m.wpsd is NONE or mo.wpsd is NONE:
                return op, k
            a, b = m.calc_wpsd(m.wpsd), mo.calc_wpsd(mo.wpsd)
            common = [f for f in a.freq if f in list(b.freq)]
            ia = [list(a.freq).index(f) for f in sorted(common)]
            ib = [list(b.freq).index(f) for f in sorted(common)]
            if rng.random() < .5:
                got = ctx.call(s.psd_difference, o)
                want = a.psd[ia] - b.psd[ib]
            else:
                got = ctx.call(s.psd_difference, o, log=(np.log2, np.exp2))
                d = np.log2(a.psd[ia]) - np.log2(b.psd[ib])
                want = 2. ** (d - d.min() + .1)
            ctx.close('difference', got.wt_psd.freq, np.sort(common), 1e-12,
                      0, 'common frequencies')
            ctx.close('difference', got.wt_psd.psd, want, 1e-8, 1e-9 *
                      np.abs(want).max(), 'difference')
            ctx.true('difference', isinstance(got, api.Signal) and got.fs ==
                     m.fs and got.log == m.log and got is not s,
                     'difference metadata')
        elif op == 'plot-psd':
            p, w = self.get('wpsd'), self.get('welch')
            ctx.call(s.plot_psd, n_fft=w[0], seg_size=w[1], n_moments=p[0],
                     j2=p[1])
            m.wpsd, m.welch = p, w
        elif op == 'plot-fractal':
            p, w = self.get('fractal'), self.get('welch')
            ctx.call(s.plot_fractal, n_moments=p[0], freq_band=p[1],
                     n_fft=w[0], seg_size=w[1])
            m.wpsd, m.welch, m.fractal = (p[0], None), w, p
        elif op == 'bad':
            kind = gen.pick(rng, ['wt', 'wpsd', 'fractal', 'full'])
            if kind == 'wt':
                ok = self.refused('failed-keeps', s.wavelet_analysis,
                                  **{**self.get('wt'), 'wt_name': 'db999'})
            elif kind == 'full':
                ok = self.refused('failed-keeps', s.mf_analysis_full,
                                  **{**self.get('wt'), 'wt_name': 'nope'})
            elif kind == 'wpsd':
                ok = self.refused('failed-keeps', s.estimate_wavelet_psd,
                                  999)
            else:
                # no frequency in the band: the density alone is computed
                ok = self.refused('failed-keeps', s.fractal_analysis, 1,
                                  (m.fs * 10, m.fs * 20))
                m.wpsd = (1, None)
            ctx.true('failed-raises', ok, f'{kind} did not fail')
            op = 'bad-' + kind
        return op, k


def case(ctx, rng, i):
    h = History(ctx, rng)
    trail = []
    for _ in range(int(rng.integers(4, 26))):
        op, k = h.step()
        trail.append(f'{k}:{op}')
        ctx.params['trail'] = trail
        for s, m in h.pairs:
            h.stored(s, m)
            ctx.true('data-kept', np.array_equal(s.data, m.data),
                     'data modified')
        ctx.state(tuple(trail[-3:]), h.pairs[k][1].mf is NONE)
        if len(trail) % 7 == 0:
            import matplotlib.pyplot as plt
            plt.close('all')
