"""Workload generators: realistic, hostile and stress inputs."""
import os

import numpy as np
import pywt

from . import core

WAVELETS = ([f'db{k}' for k in range(1, 11)]
            + ['haar', 'sym2', 'sym4', 'sym5', 'sym8', 'coif1', 'coif2',
               'bior1.3', 'bior2.2', 'bior3.1', 'bior4.4', 'rbio2.4',
               'rbio3.3', 'dmey', 'db12', 'db15', 'db20', 'db38', 'sym12',
               'sym20', 'coif5', 'bior6.8', 'bior3.9', 'rbio6.8'])
SHORT = ['db1', 'db2', 'db3', 'db4', 'sym4', 'coif1', 'bior2.2', 'haar']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


LONG = .012     # share of recordings of up to 2^16.5 samples
MANY = .02      # share of batches of up to 520 realisations


def giant(ctx):
    """One case in 211 is of the size of the longest recordings in use."""
    return getattr(ctx, 'index', 0) % 211 == 17


def giant_length(rng):
    if rng.random() < .3:
        return 2 ** int(rng.integers(17, 19)) + int(rng.integers(-1, 2))
    return int(2 ** rng.uniform(17.05, 18.6))


def length(rng, lo=60, hi=3000, ctx=None):
    if ctx is not None and hi >= 1000 and giant(ctx):
        return giant_length(rng)
    if hi >= 1000 and rng.random() < LONG:
        # ten scales and more, beyond the sizes of the test suite
        return int(2 ** rng.uniform(12.5, 16.5))
    kind = rng.integers(4)
    if kind == 0:
        n = 2 ** int(rng.integers(6, 12)) + int(rng.integers(-1, 2))
    elif kind == 1:
        n = int(rng.integers(lo, 400))
    else:
        n = int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    return int(np.clip(n, lo, hi))


KINDS = ['gauss', 'walk', 'real', 'frac', 'walk_trend', 'heavy', 'spikes', 'offset',
         'modulated', 'cascade', 'tiny', 'huge', 'chirp']


_REAL = []


def real(rng, n):
    """A segment of the recording which comes with the examples."""
    if not _REAL:
        path = os.path.join(core.REPO, 'examples', 'signal.npy')
        _REAL.append(np.load(path) if os.path.exists(path)
                     else np.cumsum(rng.standard_normal(2 ** 17)) * 1e-13)
    x = _REAL[0]
    k = int(rng.integers(len(x) - n + 1)) if n <= len(x) else 0
    return np.resize(x[k:k + n], n)


def column(rng, n, kind):
    if kind == 'real':
        return real(rng, n)
    g = rng.standard_normal(n)
    if kind == 'gauss':
        return g
    if kind == 'walk':
        return np.cumsum(g)
    if kind == 'frac':
        f = np.fft.rfft(g)
        k = np.arange(len(f))
        k[0] = 1
        return np.fft.irfft(f * k ** -rng.uniform(.2, 2.5), n) * 50
    if kind == 'walk_trend':
        t = np.linspace(-1, 1, n)
        return np.cumsum(g) + 30 * t ** 2 - 12 * t + 5
    if kind == 'heavy':
        return rng.standard_t(1.6, n)
    if kind == 'spikes':
        s = rng.random(n) < .02
        return g * .1 + s * rng.standard_normal(n) * 40
    if kind == 'offset':
        return g + 1000. * rng.choice([-1, 1])
    if kind == 'modulated':
        return g * np.exp(.8 * np.cumsum(rng.standard_normal(n))
                          / np.sqrt(n))
    if kind == 'cascade':
        w = np.ones(1)
        while len(w) < n:
            w = np.repeat(w, 2) * np.exp(.35 * rng.standard_normal(
                2 * len(w)))
        return np.cumsum(g * w[:n])
    if kind == 'tiny':
        return np.cumsum(g) * 1e-9
    if kind == 'huge':
        return np.cumsum(g) * 1e9
    if kind == 'chirp':
        t = np.linspace(0, 1, n)
        return np.sin(40 * t ** 2 + rng.uniform(0, 6)) + .05 * g
    raise ValueError(kind)


def realisations(rng, n=0, usual=(1, 1, 2, 3, 4)):
    if n < 1500 and rng.random() < MANY:
        return int(pick(rng, [6, 8, 12, 17, 33, 65, 70, 129, 260, 520]))
    return int(rng.choice(usual)) if n < 20000 else int(rng.integers(1, 3))


INTS = ['f4', 'f4', 'i4', 'i8', 'i2', 'u1', 'u2', 'u8', '>f8', '>i4', '>f4',
        'f2', 'bool']


def signal(ctx, rng, n=None, nrep=None, kinds=None, layouts=True, ints=True,
           one_d=True, lo=60, hi=3000):
    """A signal array of shape (n,) or (n, nrep), possibly strided, Fortran
    ordered, float32 or integer. Returns the array handed to the code."""
    n = length(rng, lo, hi, ctx) if n is None else n
    nrep = realisations(rng, n) if nrep is None else nrep
    names = [pick(rng, kinds or KINDS) for _ in range(nrep)]
    x = np.stack([column(rng, n, k) for k in names], axis=1)
    layout = 'C'
    if layouts:
        layout = pick(rng, ['C', 'C', 'C', 'F', 'strided', 'reversed', 'ro'])
    dtype = 'f8'
    if ints and rng.random() < .12:
        dtype = pick(rng, INTS)
        top = np.maximum(np.abs(x).max(axis=0), 1e-300)
        if dtype in ('f4', '>f4', '>f8'):
            # accumulation precision is the code's choice
            x = x.astype(dtype)
        elif dtype == 'f2':
            x = (x / top * 3e4).astype(dtype)
        elif dtype == 'bool':
            x = x > np.median(x, axis=0)
        elif dtype[0] == 'u':
            full = np.iinfo(dtype).max if dtype != 'u8' else 2 ** 53
            x = ((x - x.min(axis=0)) / np.maximum(np.ptp(x, axis=0), 1e-300)
                 * full * .999).astype(dtype)
        else:
            x = np.round(x / max(np.abs(x).max(), 1e-300) * 5000
                         + rng.standard_normal(x.shape) * 40)
            x = x.astype(dtype)
    if layout == 'F':
        x = np.asfortranarray(x)
    elif layout == 'strided':
        big = np.zeros((2 * n, nrep + 1), x.dtype)
        big[::2, :nrep] = x
        x = big[::2, :nrep]
    elif layout == 'reversed':
        x = np.ascontiguousarray(x[::-1])[::-1]
    if nrep == 1 and one_d and rng.random() < .6:
        x = x[:, 0]
    if layout == 'ro':
        x.flags.writeable = False
    ctx.params.update(n=n, nrep=nrep, kinds=names, layout=layout,
                      dtype=dtype, ndim=x.ndim)
    return x


EXTREME = [-900, -560, -520, -200, -100, -60, -40, 40, 60, 120, 250, 450]


def rescaled(ctx, rng, x, exponents=EXTREME):
    """The same signal in another unit: an exact power of two."""
    x = np.asarray(x)
    if x.dtype != float:
        return x
    k = int(pick(rng, list(exponents)))
    ctx.params['unit'] = f'2^{k}'
    return np.ldexp(x, k)


def with_gaps(ctx, rng, x, frac=None):
    """Missing samples: isolated, bursts, leading or trailing runs."""
    x = np.array(x, float)
    y = x[:, None] if x.ndim == 1 else x
    n = len(y)
    gaps = []
    for r in range(y.shape[1]):
        kind = pick(rng, ['none', 'one', 'few', 'burst', 'lead', 'trail'])
        gaps.append(kind)
        if kind == 'one':
            y[rng.integers(n), r] = np.nan
        elif kind == 'few':
            y[rng.integers(n, size=int(rng.integers(2, 5))), r] = np.nan
        elif kind == 'burst':
            s = int(rng.integers(n))
            y[s:s + int(rng.integers(2, max(3, n // 12))), r] = np.nan
        elif kind == 'lead':
            y[:int(rng.integers(1, max(2, n // 8))), r] = np.nan
        elif kind == 'trail':
            y[n - int(rng.integers(1, max(2, n // 8))):, r] = np.nan
    ctx.params['gaps'] = gaps
    return x


def deepest(n, wt_name, margin=3, leaders=True):
    """Deepest scale with at least `margin` usable values, by counting the
    coefficients a gap-free signal of n samples has."""
    L = len(pywt.Wavelet(wt_name).dec_hi)
    top = int(np.floor(np.log2(n / (L + 1))))
    c = (L - 1) // 2
    ok = np.ones(n, bool)
    best = 0
    for j in range(1, top + 1):
        m = len(ok)
        i = np.arange(1, m, 2)
        v = (i >= L - 1) & (i <= m - L)
        new = np.zeros(len(i), bool)
        if v.any():
            new[v] = ok[i[v][:, None] + c - np.arange(L)[None]].all(axis=1)
        ok = new
        if ok.sum() < margin:
            break
        best = j
    return best


def wt_name(ctx, rng, n, need=2, pool=None):
    """A wavelet which leaves at least `need` scales."""
    for _ in range(40):
        w = pick(rng, pool or WAVELETS)
        if deepest(n, w) >= need:
            break
    else:
        w = 'db1'
    ctx.params['wt_name'] = w
    return w


def gamint(rng):
    if rng.random() < .15:
        return float(rng.uniform(-.6, 2.2))
    return float(pick(rng, [0., 0., 0., .5, 1., 1, .25, -.25, -.5, 2., 1.7,
                            .125, 1 / 3]))


def normalization(rng):
    return pick(rng, [1, 1, 1, 2, .5, 1.5, 4, np.inf])


def flag(rng, p=.6):
    """A truth value, in the forms callers use."""
    v = bool(rng.random() < p)
    if rng.random() < .15:
        return pick(rng, [np.bool_(v), int(v), np.int64(v)])
    return v


def p_exp(rng, kinds=('none', 'inf', 'p')):
    kind = pick(rng, list(kinds))
    if kind == 'none':
        return None
    if kind == 'inf':
        return np.inf
    return pick(rng, [.5, 1, 1., 1.7, 2, 2., 2.5, 3, 4, 4., .3, 1.001, 1.999,
                      2.01, 5, 6., 8, 10, 12., .15, np.float64(2), np.int64(3)])


def scales(ctx, rng, deep, over=True):
    """j1, j2 with at least two scales in [j1, min(j2, deep)]; j2 may exceed
    the available scales or be None."""
    j1 = int(rng.integers(1, deep)) if rng.random() < .6 else 1
    j1 = min(j1, deep - 1)
    r = rng.random()
    if r < .55:
        j2 = int(rng.integers(j1 + 1, deep + 1))
    elif r < .75 and over:
        j2 = deep + int(rng.integers(1, 6))
    elif r < .85 and over:
        j2 = None
    else:
        j2 = deep
    if j2 is not None and rng.random() < .15:
        j2 = pick(rng, [float(j2), np.floor(j2 + .5), np.int64(j2)])
    if rng.random() < .05:
        j1 = np.int64(j1)
    ctx.params.update(j1=j1, j2=j2)
    return j1, j2


def setup(ctx, rng, gaps=False, p_kinds=('none', 'inf', 'p'), lo=60, hi=3000,
          **kw):
    """A signal and the keyword arguments of a wavelet analysis of it."""
    x = signal(ctx, rng, lo=lo, hi=hi, **kw)
    w = wt_name(ctx, rng, len(x))
    if gaps and rng.random() < .5:
        y = with_gaps(ctx, rng, x)
        if usable(y, w) >= 2:
            x = y
        else:
            ctx.params['gaps'] = 'none'
    deep = usable(x, w)
    j1, j2 = scales(ctx, rng, deep)
    par = dict(p_exp=p_exp(rng, p_kinds), wt_name=w, j1=j1, j2=j2,
               gamint=gamint(rng), normalization=normalization(rng),
               weighted=flag(rng))
    ctx.params.update({k: v for k, v in par.items()})
    return x, par


def usable(x, w):
    """Scales having >= 3 usable leaders in every realisation."""
    from . import ref
    return len(ref.leaders(ref.coefs(np.asarray(x, float), w)))


def q_grid(rng, negative=True, twice=False):
    kind = int(rng.integers(5))
    if kind == 0:
        q = [2]
    elif kind == 1:
        q = [1, 2, 3, 4]
    elif kind == 2:
        q = [-2, -1, 0, 1, 2]
    elif kind == 3:
        q = list(np.round(rng.uniform(-3, 4, int(rng.integers(1, 7))), 3))
        if rng.random() < .3:
            # next to the exponents that have a formula of their own
            q += [v + float(rng.choice([-1, 1])) * 10. ** -rng.uniform(2, 6)
                  for v in rng.choice([-1, 0, .5, 1, 2, 3], 2)]
    else:
        q = [.5, -.5, 2., 0., 5, -1]
    if not negative:
        q = [abs(v) for v in q]
    q = list(dict.fromkeys(q))
    if twice and rng.random() < .1:
        # an exponent asked for twice
        q.insert(int(rng.integers(len(q) + 1)), q[int(rng.integers(len(q)))])
    return np.array(q) if rng.random() < .5 else q


def mrq(ctx, rng, nrep=None, formalism=None, gaps=True, positive=False,
        zeros=False, like=None, levels=(1., 1., 1., 1e-6, 1e5, 1e-30, 1e30)):
    """A hand-made multi-resolution quantity, through the public constructor:
    arbitrary counts, magnitudes, signs and missing values."""
    from . import api
    J = int(rng.integers(2, 9)) if rng.random() > LONG \
        else int(rng.integers(9, 14))
    nrep = realisations(rng, 2 ** J, (1, 1, 2, 3, 5)) if nrep is None \
        else nrep
    formalism = formalism or pick(rng, ['wavelet coef', 'wavelet leader',
                                        'wavelet p-leader'])
    g = gamint(rng)
    if like is not None:
        J, formalism, g = len(like.values), like.formalism, like.gamint
    out = api.MultiResolutionQuantity(formalism, g)
    n = int(rng.integers(2 ** J + 3, 2 ** J + 600))
    if giant(ctx):
        n, nrep = giant_length(rng), min(nrep, 2)
    slope, spread = rng.uniform(-1, 1.5), rng.uniform(.05, 1.5)
    pattern = pick(rng, ['none', 'edges', 'random', 'uneven']) if gaps \
        else 'none'
    level = pick(rng, list(levels))
    for j in range(1, J + 1):
        nj = max(4, n // 2 ** j) if like is None else len(like.values[j])
        v = level * 2. ** (j * slope) * np.exp(
            spread * rng.standard_normal((nj, nrep)))
        if formalism == 'wavelet coef' and not positive:
            v *= rng.choice([-1, 1], v.shape)
        if zeros:
            v[rng.random(v.shape) < .05] = 0.
            if zeros == 'scales' and rng.random() < .4:
                # nothing but zeros at this scale
                v[:, rng.random(nrep) < .7] = 0.
        if like is not None:
            v[np.isnan(like.values[j])] = np.nan
        elif pattern == 'edges' and nj > 6:
            k = int(rng.integers(1, (nj - 2) // 2))
            v[:k], v[nj - int(rng.integers(0, k + 1)):] = np.nan, np.nan
        elif pattern == 'random':
            hole = rng.random(v.shape) < .3
            hole[:3] = False
            v[hole] = np.nan
        elif pattern == 'uneven':
            for r in range(nrep):
                v[int(rng.integers(3, nj + 1)):, r] = np.nan
        out.add_values(v, j)
    if like is None:
        ctx.params.update(mrq=dict(J=J, nrep=nrep, formalism=formalism,
                                   gamint=g, pattern=pattern, level=level,
                                   n=n))
    return out


def any_mrq(ctx, rng, **kw):
    """Hand-made, or produced by a wavelet analysis."""
    from . import api
    if rng.random() < .6:
        return mrq(ctx, rng, **kw)
    x = signal(ctx, rng, hi=1500, ints=False,
               kinds=[k for k in KINDS if k not in ('chirp',)],
               **({'nrep': kw['nrep']} if 'nrep' in kw else {}))
    w = wt_name(ctx, rng, len(x), pool=SHORT)
    p = p_exp(rng)
    ctx.params['p_exp'] = p
    wt = ctx.call(api.wavelet_analysis, x, p_exp=p, wt_name=w,
                  gamint=gamint(rng))
    out = wt.wt_coefs if p is None or rng.random() < .3 else wt.wt_leaders
    return out


def fit_range(ctx, rng, m):
    J = len(m.values)
    j1 = int(rng.integers(1, J))
    j2 = int(rng.integers(j1 + 1, J + 1))
    w = flag(rng)
    ctx.params.update(j1=j1, j2=j2, weighted=w)
    return j1, j2, w


def has_zero(m):
    return any((v == 0).any() for v in m.values.values())
