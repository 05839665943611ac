"""Scales and frequencies."""
import numpy as np

from .. import api, gen

ID = 'C26'
LEVEL = 'exploration'
QUICK, THOROUGH = 10000, 100000
REQUIRED = ['scale2freq', 'freq2scale', 'inverse', 'octave', 'band',
            'band-exact', 'band-empty', 'psd-axis', 'integers']
RULE = ('random scales, frequencies, bands and sampling rates, scalars and '
        'arrays of integers and floats; non-trivial: values compared')


def case(ctx, rng, i):
    fs = float(gen.pick(rng, [1., 2., 250., 1000., 1024.,
                              np.exp(rng.uniform(-5, 9))]))
    ctx.params.update(fs=fs)
    j = gen.pick(rng, [np.arange(1, 15), rng.uniform(0, 14, 6),
                       int(rng.integers(1, 15)), float(rng.uniform(1, 14)),
                       np.int64(rng.integers(1, 15)),
                       np.arange(1, 9, dtype='i4')[:, None],
                       np.arange(1, 15, dtype=gen.pick(
                           rng, ['u1', 'i1', 'u2', 'i2', 'u8', 'f8'])),
                       np.uint8(rng.integers(1, 15)),
                       np.int8(rng.integers(-5, 15))])
    want = .75 * fs / 2. ** np.asarray(j, float)
    if rng.random() < .3:
        # sampling rates as they come from the headers of recordings
        t = gen.pick(rng, [np.uint8, np.int8, np.int16, np.uint16, np.int32,
                           np.uint64, int])
        r = t(rng.integers(1, 128 if t in (np.uint8, np.int8) else 30000))
        v = rng.integers(1, 100, 4).astype(gen.pick(
            rng, ['u1', 'i1', 'i2', 'u4', 'i8']))
        ctx.params.update(rate=repr(r), dtype=str(v.dtype))
        ctx.close('integers', ctx.call(api.freq2scale, v, r),
                  np.log2(.75 * float(r) / v.astype(float)), 1e-9, 1e-9,
                  f'freq2scale({v!r}, {r!r})')
        ctx.close('integers', ctx.call(api.scale2freq, v % 20, r),
                  .75 * float(r) / 2. ** (v % 20).astype(float), 1e-9, 0,
                  f'scale2freq({v % 20!r}, {r!r})')
    f = ctx.call(api.scale2freq, j, fs)
    ctx.close('scale2freq', f, want, 1e-12, 0, f'scale2freq({j!r})')
    if np.asarray(j).dtype.kind == 'i':
        ctx.true('integers', True)
    ctx.close('freq2scale', ctx.call(api.freq2scale, want, fs),
              np.asarray(j, float), 1e-10, 1e-10, 'freq2scale')
    g = np.exp(rng.uniform(-6, 8, 5))
    s = ctx.call(api.freq2scale, g, fs)
    ctx.close('inverse', ctx.call(api.scale2freq, s, fs), g, 1e-9, 0,
              'back and forth')
    ctx.close('octave', ctx.call(api.freq2scale, g / 2, fs), s + 1, 1e-9,
              1e-9, 'one octave is one scale')
    # bands: exactly the integer scales whose frequency lies in the band
    allj = np.arange(-20, 41)
    fj = .75 * fs / 2. ** allj
    lo, hi = np.sort(np.exp(rng.uniform(np.log(fs) - 12, np.log(fs), 2)))
    if np.abs(np.log(fj[:, None] / [[lo, hi]])).min() > 1e-9:
        b = ctx.call(api.fband2scale, (lo, hi), fs)
        inside = allj[(lo <= fj) & (fj <= hi)]
        ctx.true('band-int', all(isinstance(v, (int, np.integer))
                                 for v in b) and len(b) == 2,
                 f'fband2scale returned {b!r}')
        got = np.arange(b[0], b[1] + 1)
        if len(inside):
            ctx.close('band', got, inside, what=f'band {lo}..{hi} at {fs}')
        else:
            ctx.true('band-empty', len(got) == 0, f'band {lo}..{hi} at {fs}: '
                     f'{b} but no scale is inside')
    # edges included, where they are exact in floating point
    e = 2. ** int(rng.integers(-3, 11))
    a = int(rng.integers(1, 12))
    c = int(rng.integers(a, 14))
    b = ctx.call(api.fband2scale, (.75 * e / 2 ** c, .75 * e / 2 ** a), e)
    ctx.true('band-exact', tuple(b) == (a, c), f'edges of scales {a}, {c} '
             f'gave {b}')
    # the frequency axis of the wavelet density
    if i % 8 == 0:
        x = gen.column(rng, gen.length(rng, 100, 1000), 'walk')
        psd = ctx.call(api.wavelet_estimation, x, fs, 1)
        axis = ctx.call(api.scale2freq, np.arange(1, len(psd.psd) + 1), fs)
        ctx.close('psd-axis', psd.freq, axis, 1e-10, 0, 'wavelet PSD axis')
    ctx.state(fs == e, len(str(j)) > 4)
