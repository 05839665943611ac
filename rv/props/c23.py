"""Welch spectral density."""
import numpy as np

from .. import api, gen, ref

ID = 'C23'
LEVEL = 'exploration'
QUICK, THOROUGH = 8000, 60000
REQUIRED = ['freq', 'psd', 'defaults', 'scaling', 'positive', 'tone',
            'short', 'zero-padded', 'list']
RULE = ('random signals, lengths, FFT sizes and segment sizes; non-trivial: '
        'whole spectra compared with directly computed periodograms')


def run(ctx, *a, **k):
    out = ctx.call(api.welch_estimation, *a, **k)
    ctx.true('psd-type', isinstance(out, api.PSD), type(out).__name__)
    return out


def case(ctx, rng, i):
    n = int(np.exp(rng.uniform(np.log(2), np.log(2500))))
    large = i % 60 == 31
    if large:     # long recordings, high resolutions
        n = int(2 ** rng.uniform(12, 18.2))
    kind = gen.pick(rng, gen.KINDS)
    x = gen.column(rng, n, kind)
    form = gen.pick(rng, ['array', 'array', 'list', 'int', 'strided'])
    if form == 'int':
        x = np.round(x / max(np.abs(x).max(), 1e-300) * 3000).astype('i4')
    arg = x
    if form == 'list':
        arg = x.tolist()
    elif form == 'strided':
        big = np.zeros(2 * n)
        big[::2] = x
        arg = big[::2]
    fs = float(gen.pick(rng, [1., 2 * np.pi, 10., 250., 1000., .5,
                              rng.uniform(.1, 500)]))
    n_fft = int(np.exp(rng.uniform(np.log(2), np.log(1200))))
    if rng.random() < .4:
        n_fft = 2 ** int(rng.integers(2, 11))
    seg = None if rng.random() < .5 else int(np.exp(
        rng.uniform(np.log(2), np.log(900))))
    if large and rng.random() < .6:
        n_fft = int(2 ** rng.uniform(10, 15.5))
        seg = None if rng.random() < .5 else int(2 ** rng.uniform(8, 15))
    elif large:
        n_fft, seg = max(n_fft, 32), seg and max(seg, 32)
    ctx.params.update(n=n, kind=kind, form=form, fs=fs, n_fft=n_fft, seg=seg)
    keep = np.array(x)
    if seg is None and rng.random() < .5:
        out = run(ctx, arg, fs, n_fft)
    elif rng.random() < .5:
        out = run(ctx, arg, fs, n_fft, seg)
    else:
        out = run(ctx, signal=arg, fs=fs, n_fft=n_fft, seg_size=seg)
    ctx.true('input-kept', np.array_equal(keep, np.asarray(arg)), 'input')
    f, p = ref.welch(x, fs, n_fft, seg)
    ctx.close('freq', out.freq, f, 1e-10, 0, 'frequencies')
    tol = 1e-10 * np.abs(p).max()
    ctx.close('psd', out.psd, p, 1e-7, tol, 'density')
    ctx.true('positive', (out.psd >= 0).all(), 'negative density')
    eff = n_fft if seg is None else seg
    if form == 'list':
        ctx.true('list', True)
    if n < eff:
        ctx.true('short', len(out.psd) == max(n_fft, eff) // 2 + 1,
                 'short signals keep the frequency resolution')
    if min(eff, n) < max(n_fft, eff):
        ctx.true('zero-padded', True)
    a = float(gen.pick(rng, [2., -3., .01, 1e4]))
    twice = run(ctx, a * np.asarray(x, float), fs, n_fft, seg)
    ctx.close('scaling', twice.psd, a ** 2 * out.psd, 1e-7, a ** 2 * tol,
              'amplitude scaling')
    if i % 40 == 0:
        y = rng.standard_normal(int(rng.integers(300, 9000)))
        d = run(ctx, y, fs)
        f, p = ref.welch(y, fs, 4096)
        ctx.close('defaults', d.freq, f, 1e-10, 0, 'default n_fft')
        ctx.close('defaults', d.psd, p, 1e-7, 1e-10 * p.max(), 'defaults')
    if i % 5 == 0:
        # a sine lands on its own bin
        m = 2 ** int(rng.integers(5, 9))
        k = int(rng.integers(3, m // 2 - 2))
        t = np.arange(m * 4)
        y = np.cos(2 * np.pi * k / m * t + rng.uniform(0, 6))
        d = run(ctx, y, fs, m)
        ctx.true('tone', int(np.argmax(d.psd)) == k,
                 f'tone at bin {k} of {m} found at {int(np.argmax(d.psd))}')
        ctx.close('tone', d.freq[np.argmax(d.psd)], k * fs / m, 1e-9, 0,
                  'tone frequency')
    ctx.state(n < eff, n_fft % 2, seg is None, form)
