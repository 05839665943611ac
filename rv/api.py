"""Public entry points of the package under test, in one place.

Resolved when used, so that a name which is missing only concerns the checks
which need it."""
import importlib

_WHERE = {
    'wavelet': 'wavelet_analysis decomposition_level WaveletTransform',
    'multiresquantity': 'MultiResolutionQuantity',
    'structurefunction': 'StructureFunction',
    'cumulants': 'Cumulants',
    'mfspectrum': 'MultifractalSpectrum',
    'estimation': 'estimate_hmin compute_hurst plot_hmin',
    'mfa': 'mf_analysis minimal_mf_analysis mf_analysis_full MFractalData '
           'MFractalVar',
    'utils': 'linear_regression build_q_log fast_power scale2freq freq2scale '
             'fband2scale fixednansum fixednanmax',
    'psd': 'welch_estimation wavelet_estimation PSD log_plot plot_psd',
    'fractal_analysis': 'estimate_beta fractal_analysis plot_fractal '
                        'FractalValues',
    'signal': 'Signal',
    'bivariate.bimfa': 'bivariate_analysis bivariate_analysis_full',
    'bivariate.bivariate_cumulants': 'BiCumulants',
    'bivariate.bivariate_structurefunction': 'BiStructureFunction',
    'simul': 'fgn fbm mrw mrw_cumul',
    'simul.mrw': 'skewed_mrw skewness_convolution skewness_convolution_dumb '
                 'mrw2D fract_int_2d gaussian_w',
    'simul.pzutils': 'gaussian_cme gaussian_chol',
}
_FROM = {n: m for m, names in _WHERE.items() for n in names.split()}


def __getattr__(name):
    if name not in _FROM:
        raise AttributeError(name)
    mod = importlib.import_module('pymultifracs.' + _FROM[name])
    try:
        value = getattr(mod, name)
    except AttributeError:
        # still exported by the package itself?
        value = getattr(importlib.import_module('pymultifracs'), name)
    globals()[name] = value
    return value
