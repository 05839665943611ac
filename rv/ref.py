"""Independent reference models: straightforward transcriptions of the
definitions, sharing no code with the package under test."""
import itertools
import math

import numpy as np
import pywt


# --------------------------------------------------------------------------
# wavelet coefficients

def max_level(n, filter_len):
    return int(np.floor(np.log2(n / (filter_len + 1))))


def coefs(x, wt_name='db3', gamint=0., normalization=1, min_count=3,
          limit=True):
    """Decimated filter bank on the available samples only.

    {scale: (n_j, nrep)}, NaN where the support of the coefficient is not
    entirely made of available samples. Stops at the deepest scale having
    min_count coefficients in every realisation.
    """
    x = np.asarray(x, float)
    x = x[:, None] if x.ndim == 1 else x
    w = pywt.Wavelet(wt_name)
    hi, lo = np.array(w.dec_hi), np.array(w.dec_lo)
    L = len(hi)
    m = np.arange(L)
    c = (L - 1) // 2
    out = {}
    a = x
    for j in range(1, max_level(len(x), L) + 1):
        n = len(a)
        i = np.arange(1, n, 2)
        ok = (i >= L - 1) & (i <= n - L)
        d = np.full((len(i), x.shape[1]), np.nan)
        b = np.full((len(i), x.shape[1]), np.nan)
        if ok.any():
            win = a[i[ok][:, None] + c - m[None, :]]     # (., L, nrep)
            d[ok] = -np.einsum('klr,l->kr', win, hi)
            b[ok] = np.einsum('klr,l->kr', win, lo)
        scaled = d * 2. ** (j * (gamint + .5 - 1. / normalization))
        if limit and np.sum(~np.isnan(scaled), axis=0).min() < min_count:
            break
        out[j] = scaled
        a = b
    return out


def windows(n, wt_name, levels):
    """{j: [(first, last)]} samples of the signal the k-th coefficient of
    scale j reads; None where it is not computed because of the border."""
    L = len(pywt.Wavelet(wt_name).dec_hi)
    c = (L - 1) // 2
    prev = [(i, i) for i in range(n)]
    out = {}
    for j in range(1, levels + 1):
        nj = len(prev)
        cur = []
        for i in range(1, nj, 2):
            if not L - 1 <= i <= nj - L:
                cur.append(None)
                continue
            a, b = prev[i + c - (L - 1)], prev[i + c]
            cur.append(None if a is None or b is None else (a[0], b[1]))
        out[j] = prev = cur
    return out


# --------------------------------------------------------------------------
# leaders

def _cells(values, j):
    """For each scale jp <= j, the coefficients located in the dyadic
    intervals of scale j: (jp, array of shape (intervals, 2^(j-jp), nrep))."""
    n = len(values[j])
    for jp in range(1, j + 1):
        f = 2 ** (j - jp)
        v = values[jp]
        yield jp, v[:n * f].reshape(n, f, v.shape[1])


def leaders(values, min_count=3):
    """sup over 3 neighbouring dyadic intervals, by definition."""
    out = {}
    for j in values:
        n, r = values[j].shape
        if n < 3:
            break
        cell = np.full((n, r), np.nan)
        for _, d in _cells(values, j):
            cell = np.fmax(cell, np.fmax.reduce(np.abs(d), axis=1))
        lead = np.fmax(np.fmax(cell[:-2], cell[1:-1]), cell[2:])
        if np.sum(~np.isnan(lead), axis=0).min() < min_count:
            break
        out[j] = lead
    return out


def pleaders(values, p, min_count=3):
    """Uncorrected p-leaders, by definition."""
    out = {}
    for j in values:
        n, r = values[j].shape
        if n < 3:
            break
        tot = np.zeros((n, r))
        cnt = np.zeros((n, r), int)
        for jp, d in _cells(values, j):
            ok = ~np.isnan(d)
            tot += 2. ** (jp - j) * np.where(
                ok, np.abs(np.where(ok, d, 0.)) ** p, 0.).sum(axis=1)
            cnt += ok.sum(axis=1)
        t3 = tot[:-2] + tot[1:-1] + tot[2:]
        c3 = cnt[:-2] + cnt[1:-1] + cnt[2:]
        lead = np.where(c3 > 0, t3 ** (1. / p), np.nan)
        if np.sum(c3 > 0, axis=0).min() < min_count:
            break
        out[j] = lead
    return out


def correction(eta, p, j):
    """Factor applied to the p-leaders of scale j."""
    eta = np.asarray(eta, float)
    safe = np.where(eta > 0, eta, 1.)
    f = ((1 - 2. ** (-j * safe)) / (1 - 2. ** -safe)) ** (-1. / p)
    return np.where(eta > 0, f, 1.)


# --------------------------------------------------------------------------
# regressions and estimates

def count(values):
    return {j: np.sum(~np.isnan(v), axis=0) for j, v in values.items()}


def wls(x, y, w):
    """Weighted least squares through sqrt(w)-scaled lstsq, one column."""
    x, y, w = (np.asarray(v, float) for v in (x, y, w))
    if not (np.isfinite(y).all() and np.isfinite(w).all()):
        return np.nan, np.nan
    s = np.sqrt(w)
    A = np.stack([x, np.ones_like(x)], axis=1) * s[:, None]
    sol = np.linalg.lstsq(A, y * s, rcond=None)[0]
    return sol[0], sol[1]


def fit(by_scale, nj, j1, j2, weighted):
    """by_scale: {j: (nrep,)} -> slope, intercept (nrep,)"""
    js = np.arange(j1, j2 + 1)
    y = np.stack([np.atleast_1d(by_scale[j]) for j in js]).astype(float)
    n = np.stack([np.atleast_1d(nj[j]) for j in js]).astype(float)
    w = n if weighted else np.ones_like(y)
    res = [wls(js, y[:, r], w[:, r]) for r in range(y.shape[1])]
    return np.array([a for a, _ in res]), np.array([b for _, b in res])


def _per_column(values, f):
    """Applies f to the available values of each realisation."""
    return np.array([f(c[~np.isnan(c)]) for c in np.asarray(values).T])


def structure(values, q):
    """{j: S(j, q)}"""
    return {j: _per_column(v, lambda c: np.mean(np.abs(c) ** float(q)))
            for j, v in values.items()}


def partitions(items):
    if len(items) == 1:
        yield [items]
        return
    first = items[0]
    for smaller in partitions(items[1:]):
        for n, subset in enumerate(smaller):
            yield smaller[:n] + [[first] + subset] + smaller[n + 1:]
        yield [[first]] + smaller


_PART = {}


def _part(k1, k2):
    key = (k1, k2)
    if key not in _PART:
        terms = {}
        for p in partitions([0] * k1 + [1] * k2):
            blocks = tuple(sorted((b.count(0), b.count(1)) for b in p))
            s = (-1) ** (len(p) - 1) * math.factorial(len(p) - 1)
            terms[blocks] = terms.get(blocks, 0) + s
        _PART[key] = terms
    return _PART[key]


def joint_cumulant(x, y, m1, m2):
    """Joint cumulant of the empirical law of (x, y): sum over the set
    partitions, on centred extended-precision data."""
    x = np.asarray(x, np.longdouble)
    y = np.asarray(y, np.longdouble)
    if m1 + m2 == 1:
        return float(np.mean(x if m1 else y))
    x, y = x - x.mean(), y - y.mean()
    mom = {}
    tot = np.longdouble(0)
    for blocks, s in _part(m1, m2).items():
        prod = np.longdouble(s)
        for b in blocks:
            if b not in mom:
                mom[b] = np.mean(x ** b[0] * y ** b[1])
            prod = prod * mom[b]
        tot += prod
    return float(tot)


def cumulant(x, m):
    return joint_cumulant(x, x, m, 0)


def cumulants(values, m):
    """{j: C_m(j)} of log|values|"""
    return {j: _per_column(v, lambda c: cumulant(np.log(np.abs(c)), m))
            for j, v in values.items()}


def spectrum_uv(values, q):
    """{j: U(j, q)}, {j: V(j, q)} from normalised weights"""
    U, V = {}, {}

    def uv(c):
        c = np.abs(c)
        with np.errstate(divide='ignore', invalid='ignore'):
            lc = np.log2(c)
            # q >= 0 where there are null values: their weight is 0 ** q
            lw = q * lc if q else np.zeros(len(c))
        if np.isneginf(lw).all():
            # null values only: no weights
            return np.nan, np.nan
        lw = lw - lw.max()
        R = 2. ** lw
        R = R / R.sum()
        ent = np.where(R > 0, R * np.log2(np.where(R > 0, R, 1)), 0).sum()
        return np.log2(len(c)) + ent, np.where(
            R > 0, R * np.where(R > 0, lc, 0), 0).sum()

    for j, v in values.items():
        both = np.array([uv(c[~np.isnan(c)]) for c in v.T])
        U[j], V[j] = both[:, 0], both[:, 1]
    return U, V


def sup(values):
    return {j: _per_column(v, lambda c: np.max(np.abs(c)))
            for j, v in values.items()}


def log2d(by_scale):
    with np.errstate(all='ignore'):
        return {j: np.log2(v) for j, v in by_scale.items()}


def eta_p(values, p, j1, j2, weighted):
    return fit(log2d(structure(values, p)), count(values), j1, j2,
               weighted)[0]


def transform(x, p_exp, wt_name='db3', j1=1, j2=10, gamint=0.,
              normalization=1, weighted=True):
    """Reference of the whole wavelet analysis:
    (coefs, leaders or None, j2_eff, eta_p or None)"""
    d = coefs(x, wt_name, gamint, normalization)
    if p_exp is None:
        deep, lead = len(d), None
    else:
        lead = leaders(d) if np.isinf(p_exp) else pleaders(d, p_exp)
        deep = len(lead)
    j2_eff = deep if j2 is None else int(min(deep, j2))
    eta = None
    if p_exp is not None and not np.isinf(p_exp):
        eta = eta_p(d, p_exp, j1, j2_eff, weighted)
        lead = {j: v * correction(eta, p_exp, j) for j, v in lead.items()}
    return d, lead, j2_eff, eta


# --------------------------------------------------------------------------
# synthesis

def fgn_cov(N, H, sigma=1, dt=None):
    dt = 1. / N if not dt else dt
    k = np.arange(N, dtype=float)
    h = 2. * H
    return dt ** h * sigma ** 2 / 2 * ((k + 1) ** h + np.abs(k - 1) ** h
                                       - 2 * k ** h)


def toeplitz(c):
    i = np.arange(len(c))
    return np.asarray(c)[np.abs(i[:, None] - i[None, :])]


def mrw_cov(N, L, lam, dt=1):
    """lam^2 log(L / ((k + 1) dt)) over lags k below L / dt, else 0."""
    k = np.arange(N)
    kmax = int(L / dt)
    return np.where(k < kmax, lam ** 2 * np.log(L / ((k + 1.) * dt)), 0.)


def past_kernel(e, K0, alpha, beta, dt):
    """sum over the N strictly past noise samples, e of length 2N"""
    N = len(e) // 2
    lag = np.arange(1, N + 1)
    ker = K0 / lag ** float(alpha) / dt ** float(beta)
    return np.stack([(ker[:, None] * e[N + k - lag]).sum(axis=0)
                     for k in range(N)])


def product(*lists):
    return itertools.product(*lists)


# --------------------------------------------------------------------------
# power spectral densities

def welch(x, fs, n_fft, seg_size=None):
    """Averaged modified periodograms, from the definition."""
    x = np.asarray(x, float)
    seg = n_fft if seg_size is None else seg_size
    n_fft = max(n_fft, seg)
    L = min(seg, len(x))
    n = np.arange(L)
    w = .54 - .46 * np.cos(2 * np.pi * n / L) if L > 1 else np.ones(1)
    step = L - L // 2
    acc, cnt = 0., 0
    for s in range(0, len(x) - L + 1, step):
        acc = acc + np.abs(np.fft.fft(x[s:s + L] * w, n_fft)) ** 2
        cnt += 1
    p = acc / cnt / (2 * np.pi * np.sum(w ** 2))
    m = n_fft // 2 + 1
    p = p[:m].copy()
    p[1:m - (1 if n_fft % 2 == 0 else 0)] *= 2
    return np.arange(m) * fs / n_fft, 4 * p


def wavelet_psd(x, fs, n_moments):
    d = coefs(x, f'db{n_moments}', .5, 1)
    f = np.array([.75 * fs / 2. ** j for j in d])
    p = np.array([_per_column(v, lambda c: np.mean(c ** 2))
                  for v in d.values()])
    return f, p


def ols(x, y):
    A = np.stack([np.asarray(x, float), np.ones(len(x))], axis=1)
    return np.linalg.lstsq(A, np.asarray(y, float), rcond=None)[0]


def beta(freq, psd, band, log):
    """slope and intercept per realisation, log frequencies in the band"""
    lf = {'log2': np.log2, 'log': np.log}[log]
    keep = [i for i, f in enumerate(freq)
            if band[0] <= f <= band[1] and f != 0]
    x = np.array([lf(freq[i]) for i in keep])
    y = np.stack([lf(psd[i]) for i in keep])
    a, b = ols(x, y)
    return a, b, x
