#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note,
         technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=['pymultifracs/' + f for f in files],
            mechanism=[dict(name=n, where='pymultifracs/' + w)
                       for n, w in mech],
            hook_needed=None),
        _note=level_note, _tech=technique))


MON = 'runtime monitoring: '
TESTS = ('The tests analyse a few fBm and MRW sets (65536 samples, 50 '
         'realisations, db3, one scale range, weighted) and only look at '
         'averaged H and c2 with wide margins; ')
ONLINE = ('Exploration: every generated execution is judged online by an '
          'independent reference; no claim beyond the executions run. ')

prop('C01', 'Wavelet coefficients are the decimated filter bank of the signal',
     'At every reported scale j the wavelet coefficients are the inner '
     'products of the signal with the wavelet filter cascaded j times and '
     'decimated by 2^j, oriented, amplitude-normalised (1/L^norm exponent) and '
     'fractionally integrated (factor 2^(gamint j)) as documented, including '
     'for float32/integer, non-contiguous and multi-realisation signals. A '
     'coefficient is reported exactly at the dyadic positions which, at '
     'every step of the cascade, lie a filter length or more away from both ends, so '
     'that its support is inside the signal. The maximum decomposition level '
     'is the documented one.',
     ['inputs', 'configurations'],
     'all real signals (length, dtype, layout, realisations) x wavelets x '
     'normalisation x gamint',
     TESTS + 'a coefficient that is shifted, scaled or mis-normalised at some '
     'scales, wavelets or layouts is invisible to them.',
     ['wavelet.py'],
     [('filtering', 'wavelet.py:filtering'),
      ('coefficient analysis', 'wavelet.py:_wavelet_coef_analysis'),
      ('level', 'wavelet.py:decomposition_level')],
     'Oracle: direct sums with the explicitly cascaded filter.',
     'differential oracle (explicit cascaded filter bank) on random runs')

prop('C02', 'Borders and missing samples never contaminate a reported value',
     'A coefficient, leader or p-leader reported for a segment of signal has '
     'the same value when that segment is embedded in any longer recording, '
     'and does not depend on samples outside its support. A missing (NaN) '
     'sample makes exactly the coefficients whose support contains it '
     'missing and leaves all others unchanged.',
     ['inputs'],
     'all signals x embeddings x positions of perturbed or missing samples',
     TESTS + 'none has missing samples or looks at borders.',
     ['wavelet.py'],
     [('border NaNs', 'wavelet.py:filtering'),
      ('neighbourhoods', 'wavelet.py:_find_sans_voisin')],
     'Oracle: paired executions (embedded / perturbed / with gaps).',
     'metamorphic oracle on paired executions')

prop('C03', 'Wavelet leaders are local suprema of the coefficients',
     'At every scale, the leader of a dyadic interval is the supremum of the '
     'absolute values of the available wavelet coefficients located in the '
     'interval and its two neighbours at that scale and in the dyadic '
     'intervals they contain at all finer scales. It is missing exactly when '
     'none of them is available or the interval has no two neighbours.',
     ['inputs', 'configurations'],
     'all signals, with or without missing samples x wavelets x gamint x '
     'normalisation',
     TESTS + 'leaders enter them only through averaged slopes.',
     ['wavelet.py'],
     [('hierarchy of suprema', 'wavelet.py:_find_sans_voisin'),
      ('leaders', 'wavelet.py:_compute_leaders')],
     'Oracle: brute-force suprema over the coefficients reported by the same '
     'run.',
     'online oracle: brute-force suprema over the reported coefficients')

prop('C04', 'p-leaders are local l^p norms with finite-resolution correction',
     'For finite p the p-leader of a dyadic interval is the l^p sum, '
     'discounted by 2^(scale difference), of the available coefficients of '
     'the interval and its two neighbours at that and all finer scales, '
     'divided at scale j by the correction ((1-2^(-j eta))/(1-2^-eta))^(1/p). '
     'The wavelet scaling exponent eta(p) of every realisation is the slope '
     'of the l^p structure function of the coefficients over the fitted '
     'scales, is returned with the transform, and a realisation for which it '
     'is not positive is left uncorrected without affecting the others.',
     ['inputs', 'configurations'],
     'all signals x p x wavelets x scale ranges x weighting x gamint',
     TESTS + 'only p=2 on signals with eta(p)>0 is exercised.',
     ['wavelet.py'],
     [('p-leaders', 'wavelet.py:_compute_leaders'),
      ('correction', 'wavelet.py:_correct_leaders'),
      ('eta_p', 'wavelet.py:_estimate_eta_p')],
     'Oracle: brute-force l^p sums over the coefficients reported.',
     'online oracle: brute-force l^p sums and independent fit')

prop('C05', 'Scales and numbers of available values are accounted for',
     'The reported scales are contiguous from 1, all leaders-scales are '
     'coefficient-scales, and the count reported at each scale for each '
     'realisation is the number of non-missing values there, never fewer than '
     'three. The effective largest scale is the smaller of the requested one '
     'and the largest available, with a warning if the request exceeds what '
     'the signal and filter lengths permit, and every later estimate reports the same counts.',
     ['inputs', 'configurations'],
     'all signals, including very short ones and ones with gaps x scale '
     'ranges x wavelets x p',
     TESTS + 'no test uses short signals or looks at counts, which are the '
     'weights of all the fits.',
     ['wavelet.py', 'multiresquantity.py'],
     [('level', 'wavelet.py:_decomposition_level'),
      ('counts', 'multiresquantity.py:MultiResolutionQuantity'),
      ('loop over scales', 'wavelet.py:_wavelet_coef_analysis')],
     'Oracle: recounted values, closed-form bound of the level.',
     'online invariant monitor on returned structures')

prop('C06', 'Realisations are analysed independently of each other',
     'Every value and estimate of a realisation analysed in a batch equals '
     'what is obtained when it is analysed alone, and permuting the batch '
     'permutes the results.',
     ['inputs', 'configurations'],
     'all batches of heterogeneous realisations (gaps, amplitudes, kinds) x '
     'parameters',
     TESTS + 'realisations are identically distributed and averaged.',
     ['wavelet.py', 'structurefunction.py', 'cumulants.py', 'mfspectrum.py',
      'estimation.py', 'psd.py'],
     [('axis conventions', 'wavelet.py:_wavelet_coef_analysis'),
      ('regressions', 'utils.py:linear_regression')],
     'Oracle: batch against single and permuted executions. A scale counts '
     'as available only if it is for all realisations of the batch.',
     'metamorphic oracle on batch / single / permuted executions')

prop('C07', 'Structure functions, scaling function and H',
     'S(j,q) is the average over the available positions of the q-th power of '
     'the absolute value of the multiresolution quantity, its logarithm is in '
     'base 2, and zeta(q) and its intercept are the (weighted or plain, as '
     'requested) least-squares line of log2 S against j over the chosen '
     'scales, per realisation. H is zeta(2)/2 - gamint when q=2 was requested '
     'and absent otherwise.',
     ['inputs', 'configurations'],
     'all multiresolution quantities x q grids (negative, fractional, zero) x '
     'scale ranges x weighting',
     TESTS + 'only H with weighted fits is read.',
     ['structurefunction.py', 'utils.py'],
     [('moments', 'structurefunction.py:StructureFunction._compute'),
      ('zeta', 'structurefunction.py:StructureFunction._compute_zeta')],
     'Oracle: independent float arithmetic and least squares.',
     'differential oracle (independent moments and least squares)')

prop('C08', 'Cumulants of log-values and log-cumulants',
     'C_m(j) is the m-th cumulant of the natural logarithm of the absolute '
     'available values at scale j, for all requested orders, and c_m is '
     'log2(e) times its (weighted or plain) least-squares slope over the '
     'chosen scales, per realisation, also available as the c1, C1, '
     '... accessors.',
     ['inputs', 'configurations'],
     'all multiresolution quantities x orders x scale ranges x weighting',
     TESTS + 'only c1 and c2 are read; orders from 3 on never are.',
     ['cumulants.py'],
     [('recursion', 'cumulants.py:Cumulants._compute'),
      ('slopes', 'cumulants.py:Cumulants._compute_log_cumulants')],
     'Oracle: sum over set partitions of centred moments.',
     'differential oracle (set-partition cumulants)')

prop('C09', 'Multifractal spectrum D(q), h(q)',
     'With the weights R(j,q) proportional to the q-th powers of the available '
     'values, D(q) is 1 plus the slope of their information sum U(j,q), and '
     'h(q) is the slope of the weighted mean log2 value V(j,q), both fitted '
     'over the chosen scales as requested and per realisation. Hence '
     'D(0)=1, h(0)=c1, h decreases locally with q, and D, h are the Legendre '
     'transform of the scaling function.',
     ['inputs', 'configurations'],
     'all multiresolution quantities x q grids x scale ranges x weighting',
     TESTS + 'no test reads D or h.',
     ['mfspectrum.py'],
     [('spectrum', 'mfspectrum.py:MultifractalSpectrum._compute')],
     'Oracle: direct sums, plus exact Legendre identities.',
     'differential oracle plus analytic identities')

prop('C10', 'Minimum regularity hmin and Hurst exponent estimates',
     'hmin is the slope over the chosen scales, per realisation, of the log2 '
     'of the largest absolute wavelet coefficient of each scale, fitted as '
     'requested, and it is part of the complete analysis. The Hurst estimate '
     'is half the slope of the log2 of the mean squared coefficients, minus '
     'the fractional integration order, and a user is warned if hmin shows that leaders are not defined.',
     ['inputs', 'configurations'],
     'all multiresolution quantities x scale ranges x weighting',
     TESTS + 'hmin is computed and ignored; the Hurst estimate is not called.',
     ['estimation.py', 'mfa.py'],
     [('hmin', 'estimation.py:estimate_hmin'),
      ('hurst', 'estimation.py:compute_hurst')],
     'Oracle: independent suprema and least squares. One known finding: the '
     'warning only fires when hmin is exactly 0.',
     'differential oracle (independent suprema and least squares)')

prop('C11', 'The line fits are exact weighted least squares',
     'For any abscissae, ordinates and positive weights, slope and intercept '
     'minimise the weighted sum of squared residuals for each exponent and '
     'realisation. They are exact on exact lines and insensitive to the scale '
     'of the weights; a missing ordinate makes only its own line missing.',
     ['inputs'],
     'all abscissae, ordinates and weights, for every combination of shapes',
     TESTS + 'always the same 6 scales and weights.',
     ['utils.py'],
     [('regression', 'utils.py:linear_regression')],
     'Oracle: independent solver and the normal equations.',
     'differential oracle plus optimality conditions')

prop('C12', 'Equivariances of the analysis',
     'Multiplying the signal by a constant multiplies coefficients and leaders '
     'by its absolute value and changes no exponent; adding a polynomial of '
     'degree below the number of vanishing moments changes nothing; '
     'coefficients are additive. Increasing gamint by g multiplies scale-j '
     'coefficients by 2^(g j), shifting zeta(q) by q g and c1, h(q) and hmin by g '
     'but not H, D(q) or higher cumulants; a different normalisation changes '
     'coefficients by the documented power of 2 only.',
     ['inputs', 'configurations'],
     'all signals x transformations x wavelets x parameters',
     TESTS + 'no test compares two related analyses.',
     ['wavelet.py', 'mfa.py'],
     [('normalisation and integration', 'wavelet.py:_wavelet_coef_analysis')],
     'Oracle: paired executions with rounding-error bounds.',
     'metamorphic oracle on paired executions')

prop('C13', 'The one-call analysis is the composition of the documented steps',
     'The one-call analysis returns exactly what separate wavelet transform, '
     'structure functions, cumulants, spectrum and hmin steps return with the '
     'same parameters, with the documented defaults, and leaders results if and '
     'only if p was given. The minimal analysis returns the same coefficient '
     'structure functions and leader cumulants, and nothing else.',
     ['inputs', 'configurations'],
     'all signals x every parameter, given or left to its default, in every '
     'accepted form',
     TESTS + 'each test fixes all parameters and reads two numbers.',
     ['mfa.py'],
     [('one call', 'mfa.py:mf_analysis_full'),
      ('estimates', 'mfa.py:mf_analysis'),
      ('minimal', 'mfa.py:minimal_mf_analysis')],
     'Oracle: field-by-field comparison with the separate public steps.',
     'differential oracle (one call against separate steps)')

prop('C14', 'Analyses are pure, deterministic and free of process-wide effects',
     'No analysis alters its inputs, aliases them in its results, or changes '
     'process-wide state (warning filters, floating-point error handling, '
     'print options, locale, environment, global random generator outside '
     'simulations). Repeating an operation, whatever was run in between, '
     'gives bit-identical results.',
     ['inputs', 'histories'],
     'all public operations x inputs x histories of other operations',
     TESTS + 'each analysis runs once in a fresh fixture.',
     ['wavelet.py', 'mfa.py', 'psd.py', 'multiresquantity.py', 'utils.py'],
     [('copies of inputs', 'wavelet.py:wavelet_analysis'),
      ('result containers', 'multiresquantity.py:MultiResolutionQuantityBase')],
     'Monitor: bitwise digests of inputs and results and snapshots of '
     'process state around every operation.',
     'state monitor: digests and process-state snapshots around calls')

prop('C15', 'Concurrent analyses do not interfere',
     'Any number of analyses running at the same time in different threads, on '
     'distinct or shared inputs, each return bit for bit what they return '
     'alone, leave shared inputs untouched, and leave the process-wide warning '
     'and floating-point settings as they were.',
     ['schedules', 'inputs'],
     'all interleavings of 2 to 8 concurrent operations at Python line '
     'granularity',
     'Tests run one analysis at a time; hidden shared state only shows under '
     'particular interleavings.',
     ['wavelet.py', 'utils.py', 'mfa.py', 'multiresquantity.py'],
     [('no module-level mutable state', 'wavelet.py'),
      ('no process-wide filters', 'utils.py:fixednanmax')],
     'Monitor: per-thread result digests under delay injection at executed '
     'lines; interleavings counted. Warning filters altered by scikit-learn '
     'itself are outside the property.',
     'schedule stress with injected delays; sequential-equivalence oracle')

prop('C16', 'Bivariate moments, cumulants and their slopes',
     'Over the positions where both components are available, joint cumulants '
     'of the log-values at all requested order pairs and joint moments '
     'S(j,q1,q2) are the documented averages, and log-cumulants and zeta(q1,q2) '
     'are their fitted slopes over the chosen scales. Coherence and '
     'the multifractal correlation coefficient are the documented normalised '
     'ratios, per scale and of slopes.',
     ['inputs', 'configurations'],
     'all pairs of multiresolution quantities with different missing values x '
     'q grids x orders x scale ranges x weighting',
     'One test reads c20, c02 and the correlation of leaders of four data sets '
     'within wide margins.',
     ['bivariate/bivariate_cumulants.py',
      'bivariate/bivariate_structurefunction.py'],
     [('cumulants', 'bivariate/bivariate_cumulants.py:BiCumulants._compute'),
      ('moments', 'bivariate/bivariate_structurefunction.py:'
       'BiStructureFunction._compute')],
     'Oracle: set partitions over jointly available values. The rounding of '
     'high orders bounds the tolerance.',
     'differential oracle (set-partition joint cumulants, joint moments)')

prop('C17', 'Consistency of the bivariate analysis',
     'Swapping the two components transposes every result; a component paired '
     'with itself gives back the univariate results; zero orders give the '
     'marginal ones; coherence and correlation at a scale lie in [-1,1]. The '
     'bivariate spectrum is the documented parabola in the log-cumulants with '
     'its peak at (c10,c01), and the one-call analysis is the '
     'composition of the separate steps.',
     ['inputs', 'configurations'],
     'all pairs of signals or multiresolution quantities x parameters',
     'One test reads c20, c02 and the correlation of leaders of four data sets '
     'within wide margins.',
     ['bivariate/bimfa.py', 'bivariate/bivariate_cumulants.py',
      'bivariate/bivariate_structurefunction.py'],
     [('spectrum', 'bivariate/bivariate_cumulants.py:'
       'BiCumulants.compute_legendre'),
      ('one call', 'bivariate/bimfa.py:bivariate_analysis_full')],
     'Oracle: paired executions.',
     'metamorphic oracle on paired executions')

prop('C18', 'fGn and fBm have the exact covariance',
     'Simulated fractional Gaussian noise is a linear function of its '
     'standard Gaussian inputs with exactly the covariance of fGn for the '
     'requested H, amplitude and step, for both synthesis methods and at every '
     'length. Fractional Brownian motion is its cumulative sum from the same '
     'random inputs.',
     ['inputs', 'configurations'],
     'all lengths x H x amplitude x step x method x noise inputs',
     'The tests only use estimated exponents of long fBm and output shapes.',
     ['simul/fbm.py', 'simul/pzutils.py'],
     [('fgn', 'simul/fbm.py:fgn'),
      ('circulant embedding', 'simul/pzutils.py:gaussian_cme'),
      ('cholesky', 'simul/pzutils.py:gaussian_chol')],
     'Oracle: whole covariance matrix read off the responses to unit inputs; '
     'sampled covariances for the default noise.',
     'impulse-response oracle: exact covariance of real runs')

prop('C19', 'The multifractal random walk has the documented law',
     'Each increment is an fGn increment times exp(w), with w Gaussian '
     'of covariance lam^2 ln(L/(|k|+1)) below the integral scale L and 0 '
     'beyond, recentred to the time average -lam^2 ln(L)/2. lam=0 gives fBm, sigma scales the '
     'walk, both synthesis methods agree, and the (c1,c2) parametrisation maps '
     'to H = c1 + c2 and lam = sqrt(-c2).',
     ['inputs', 'configurations'],
     'all lengths x H x lam x L x sigma x method x noise inputs',
     'The tests only use exponents estimated from long walks, and shapes.',
     ['simul/mrw.py'],
     [('mrw', 'simul/mrw.py:mrw'), ('amplitude', 'simul/mrw.py:gaussian_w')],
     'Oracle: log-amplitude read off the ratio with the non-intermittent walk.',
     'ratio / impulse-response oracle on real runs')

prop('C20', 'The skewed multifractal random walk has the documented law',
     'The skewness term at i is the kernel-weighted sum K0/k^alpha/dt^beta of '
     'past noise only, and the fast and the direct implementations agree. The '
     'skewed walk is the cumulative sum of Gaussian increments times '
     'exp(w minus the skewness term of the same noise), where w has the time '
     'average -lam^2 ln(L/dt), so that K0=0 is an unskewed walk and the mirror '
     'walk uses the opposite noise and the same w.',
     ['inputs', 'configurations'],
     'all lengths x kernel parameters x steps x noise',
     'No test runs the skewed simulation.',
     ['simul/mrw.py'],
     [('skewed walk', 'simul/mrw.py:skewed_mrw'),
      ('kernel', 'simul/mrw.py:skewness_convolution')],
     'Oracle: direct sums, products and ratios of mirrored walks.',
     'differential and mirror-image oracles on real runs')

prop('C21', 'Two-dimensional synthesis',
     'Fractional integration in 2-D multiplies every Fourier mode by its '
     'isotropic frequency to the minus exponent, keeps the mean, is linear, '
     'additive in the exponent and commutes with transposition and shifts. A '
     '2-D walk is the fractionally integrated noise times exp of a '
     'log-correlated amplitude with covariance lam^2 ln(L/(r+1)) up to the '
     'integral scale, proportional to sigma.',
     ['inputs', 'configurations'],
     'all even sizes x exponents x lam x L x sigma x fields',
     'No test runs the 2-D synthesis.',
     ['simul/mrw.py'],
     [('walk', 'simul/mrw.py:mrw2D'),
      ('integration', 'simul/mrw.py:fract_int_2d')],
     'Oracle: plane waves, algebraic identities, ratios of walks and sampled '
     'covariances.',
     'plane-wave and identity oracles on real runs')

prop('C22', 'Simulators validate their arguments and control their randomness',
     'Every simulator returns real finite samples of exactly the requested '
     'shape, refuses exponents, integral scales and methods it does not '
     'support, and given the same random state or noise gives the same output '
     'without altering the noise. Distinct realisations, and successive calls, '
     'use distinct noise.',
     ['inputs', 'configurations', 'histories'],
     'all valid and invalid arguments of every simulator x random states',
     'The tests try three invalid H and a few shapes.',
     ['simul/fbm.py', 'simul/mrw.py', 'simul/pzutils.py'],
     [('validation', 'simul/fbm.py:fgn'), ('validation', 'simul/mrw.py:mrw')],
     'Monitor: rejections, shapes, digests of outputs and noise.',
     'online monitor of shapes, rejections and reproducibility')

prop('C23', 'Welch spectrum',
     'The Welch estimate is the average of the Hamming-windowed, undetrended '
     'periodograms of half-overlapping segments of the requested length (by '
     'default the FFT length, zero-padded up to it, and never longer than the '
     'signal), at the frequencies k fs/n_fft. Its level is four times the '
     'one-sided density per radian per sample, whatever the sampling rate. It '
     'accepts any length, parity and sampling rate, and scales with the square '
     'of the amplitude.',
     ['inputs', 'configurations'],
     'all signals x sampling rates x n_fft x segment sizes',
     'No test computes a spectrum.',
     ['psd.py'], [('welch', 'psd.py:welch_estimation')],
     'Oracle: explicit discrete Fourier sums of the segments.',
     'differential oracle (explicit segment periodograms)')

prop('C24', 'Wavelet spectrum',
     'The wavelet estimate of the spectrum at scale j is the mean square of '
     'the available L2-normalised coefficients of the Daubechies wavelet with the requested '
     'number of vanishing moments, at frequency (3/4) fs / 2^j, for every '
     'available scale, per realisation. It scales '
     'with the square of the amplitude and ignores polynomial trends.',
     ['inputs', 'configurations'],
     'all signals x sampling rates x vanishing moments',
     'No test computes a spectrum.',
     ['psd.py'], [('wavelet spectrum', 'psd.py:wavelet_estimation')],
     'Oracle: explicit filter bank energies.',
     'differential oracle (explicit filter bank energies)')

prop('C25', 'Spectral slope beta',
     'The estimated beta and intercept are the ordinary least-squares line of '
     'log PSD against log frequency over exactly the frequencies inside the '
     'band, per realisation, in either logarithm base; the one-call fractal '
     'analysis applies this to the wavelet spectrum.',
     ['inputs', 'configurations'],
     'all densities x bands x bases x signals',
     'No test estimates a spectral slope.',
     ['fractal_analysis.py', 'psd.py'],
     [('beta', 'fractal_analysis.py:estimate_beta'),
      ('one call', 'fractal_analysis.py:fractal_analysis')],
     'Oracle: independent least squares.',
     'differential oracle (independent least squares)')

prop('C26', 'Scales and frequencies convert consistently',
     'Scale j corresponds to frequency (3/4) fs / 2^j, the inverse conversion '
     'recovers it, and a frequency band maps to the integer scales whose '
     'frequencies are inside it, for scalars and arrays of any numeric type.',
     ['inputs'],
     'all scales, frequencies, bands, sampling rates and numeric types',
     'No test calls the conversions.',
     ['utils.py'],
     [('conversions', 'utils.py:scale2freq'),
      ('bands', 'utils.py:fband2scale')],
     'Oracle: closed forms.', 'closed-form oracle')

prop('C27', 'A signal object only serves results of its current parameters',
     'Whatever sequence of analyses, with whatever parameters, was run on a '
     'signal object before, including failed ones, each returned or stored '
     'result equals the stateless computation with the parameters of the '
     'latest request, and cached results are never attributed to parameters '
     'they were not computed with. Two signal objects never influence each '
     'other and the samples are never altered.',
     ['histories', 'configurations'],
     'all sequences of public operations on one or two signal objects, with '
     'repeated, changed, defaulted and invalid parameters',
     'No test builds a signal object; a stale cache needs a specific sequence '
     'of calls.',
     ['signal.py'],
     [('cache keys', 'signal.py:same_params'),
      ('wavelet cache', 'signal.py:Signal._wavelet_analysis')],
     'Model-based monitor: after every operation all visible results are '
     'compared with a stateless recomputation.',
     'model-based history monitor (stateless recomputation)')

prop('C28', 'Plots show the estimates they are given',
     'The curves, fit lines, axes and legend numbers drawn by every plotting '
     'function are the estimates of the object plotted, on the documented '
     'scales, and plotting neither alters the results nor depends on earlier '
     'figures. Requested files are written.',
     ['inputs', 'configurations', 'histories'],
     'all results x plotting functions x options',
     'No test plots anything.',
     ['structurefunction.py', 'cumulants.py', 'mfspectrum.py', 'estimation.py',
      'psd.py', 'fractal_analysis.py', 'viz.py',
      'bivariate/bivariate_cumulants.py',
      'bivariate/bivariate_structurefunction.py'],
     [('plots', 'structurefunction.py:StructureFunction.plot'),
      ('plots', 'cumulants.py:Cumulants.plot'),
      ('plots', 'psd.py:log_plot')],
     'Monitor: coordinates and texts read back from the off-screen canvas; '
     'colours and layout are not judged. The functions needing PyVista or an X '
     'server are not exercised.',
     'canvas read-back monitor')

prop('C29', 'Numeric helpers compute what their names say',
     'Exponent grids are sorted, symmetric, log-spaced between the bounds and '
     'contain 0, 1 and 2; powers, sums and maxima '
     'ignoring missing values equal element-wise arithmetic, with missing '
     'results exactly where all values are missing, for all exponents, axes '
     'and shapes, and inputs are untouched.',
     ['inputs'],
     'all grids, exponents, arrays, axes and patterns of missing values',
     'The tests only reach them through averaged exponents.',
     ['utils.py'],
     [('grid', 'utils.py:build_q_log'), ('power', 'utils.py:fast_power'),
      ('sums', 'utils.py:fixednansum'), ('maxima', 'utils.py:fixednanmax')],
     'Oracle: element-wise Python arithmetic.',
     'differential oracle (element-wise arithmetic)')

prop('C30', 'Known exponents are recovered from simulations',
     'Analysing simulated fBm, fGn and multifractal walks of any admissible '
     'exponents recovers them (H, c1, c2, hmin, spectral slope, spectrum '
     'support, bivariate correlation) within statistical accuracy, for '
     'coefficients, leaders and p-leaders, weighted or not, and for any '
     'fractional integration accounted for.',
     ['inputs', 'configurations'],
     'all exponents x formalisms x wavelets x weighting x seeds',
     TESTS + 'they cover H=0.8 fBm and one MRW only.',
     ['wavelet.py', 'mfa.py', 'simul/fbm.py', 'simul/mrw.py', 'psd.py'],
     [('whole chain', 'mfa.py:mf_analysis_full'),
      ('simulators', 'simul/mrw.py:mrw')],
     'Statistical oracle with intervals calibrated on the current tree '
     '(worst observed error below 0.6 of the interval).',
     'statistical end-to-end oracle with calibrated intervals')

prop('C31', 'Results are complete, self-describing data',
     'Every result can be pickled, deep-copied and rebuilt from its '
     'dictionary into an equal, independent object; named accessors for '
     'exponents and orders return the entries they name and unknown ones raise '
     'AttributeError. Scale counts over any range are the requested rows.',
     ['inputs', 'configurations'],
     'all result objects x copies x accessors x ranges',
     'No test copies a result or uses accessors.',
     ['multiresquantity.py', 'cumulants.py', 'structurefunction.py',
      'mfspectrum.py', 'bivariate/bivariate_cumulants.py'],
     [('dictionary', 'multiresquantity.py:MultiResolutionQuantityBase'
       '.from_dict'),
      ('accessors', 'cumulants.py:Cumulants.__getattr__')],
     'Oracle: deep comparison of contents.',
     'round-trip oracle')

prop('C32', 'Unanswerable requests are refused, not answered with wrong numbers',
     'A request that has no answer (unknown formalism, wavelet, or logarithm; '
     'mismatched pairs or counts; scales outside the available ones; empty '
     'bands; a single scale; too short or entirely missing signals; '
     'non-positive or mis-sized weights) raises an error or yields only missing '
     'values, while the neighbouring valid request is answered.',
     ['inputs', 'configurations'],
     'all invalid requests next to valid ones',
     'No test makes an invalid request.',
     ['wavelet.py', 'psd.py', 'fractal_analysis.py', 'utils.py',
      'bivariate/bivariate_cumulants.py'],
     [('formalism', 'wavelet.py:_check_formalism'),
      ('regression', 'utils.py:linear_regression')],
     'Monitor: raised errors and finiteness of results.',
     'online monitor of refusals')

prop('C33', 'An interrupted operation leaves nothing behind',
     'If an analysis or a simulation is stopped at any point of its '
     'computation (interrupt, lack of memory, floating-point or any other '
     'error), the exception reaches the caller, inputs, earlier results and '
     'process-wide settings are as before, repeating the operation gives '
     'exactly the usual result, and a signal object keeps serving only '
     'results which belong to the parameters recorded with them.',
     ['crash_points', 'histories', 'inputs'],
     'all operations x all executed lines of the computation x kinds of '
     'exception x later operations',
     'No test interrupts anything.',
     ['signal.py', 'wavelet.py', 'mfa.py', 'psd.py', 'simul/fbm.py',
      'simul/mrw.py'],
     [('caches', 'signal.py:Signal'),
      ('in-place work', 'wavelet.py:wavelet_analysis')],
     'Oracle: bit-exact results and process state before and after faults '
     'injected at executed lines; Signal histories against a stateless '
     'recomputation.',
     'fault injection at executed lines (sys.monitoring), state monitors')

prop('C34', 'Memory is proportional to the data, and given back',
     'Once its result is dropped, an analysis keeps nothing: neither inputs, '
     'results and intermediate arrays, nor open files, threads or processes, '
     'however often it is repeated; a signal object holds the results of the '
     'latest parameters only, and releases everything with itself. Peak '
     'memory of an analysis or FFT-based simulation grows no faster than in '
     'proportion to the number of samples and realisations.',
     ['histories', 'inputs', 'configurations'],
     'all operations x repetitions x lengths and numbers of realisations',
     'A test run is too short to notice what is left behind.',
     ['wavelet.py', 'mfa.py', 'signal.py', 'psd.py', 'simul/pzutils.py'],
     [('leaders', 'wavelet.py:_compute_leaders'),
      ('cached results', 'signal.py:Signal'),
      ('circulant synthesis', 'simul/pzutils.py:gaussian_cme')],
     'Monitor: weak references to everything going in and out, tracemalloc '
     'balances and peaks, open handles.',
     'leak monitor: weak references, tracemalloc balances and peaks')

prop('C35', 'Arguments mean the same by position, by keyword and by default',
     'Every documented function and constructor gives the same result when '
     'its arguments are passed by keyword, by position in the documented '
     'order, or left to their documented defaults, returns the documented '
     'named fields in order, and refuses arguments it does not know.',
     ['inputs', 'configurations'],
     'all entry points x subsets of arguments by position, keyword, default',
     'Tests call a few functions in one form each.',
     ['mfa.py', 'wavelet.py', 'psd.py', 'fractal_analysis.py',
      'bivariate/bimfa.py', 'simul/fbm.py', 'simul/mrw.py'],
     [('one-call analysis', 'mfa.py:mf_analysis_full'),
      ('from_dict', 'multiresquantity.py:MultiResolutionQuantityBase'
       '.from_dict')],
     'Oracle: bit-exact comparison of the three forms of a call.',
     'metamorphic oracle on call forms')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(q) + '\n')
    m = dict(version=1, setup_cmd='./check --self-test', checks=[
        dict(property=p['id'], quick_cmd=f'./check {p["id"]} --tier quick',
             thorough_cmd=f'./check {p["id"]} --tier thorough',
             technique=MON + p['_tech'], level='exploration',
             level_note=ONLINE + p['_note']) for p in P],
        not_applicable=[],
        notes='No hooks in /repo: the monitors observe the public boundary '
        '(and, in C15 and C33, executed lines through sys.monitoring). known_findings.'
        'txt lists repaired and recorded defects. Pure Python, so the '
        'compiled-code sanitizers have nothing to instrument here.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
