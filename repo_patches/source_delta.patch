From e8b9644110d8ecac5478c66f39f8c301ca935093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/25] fix: return eta_p and leave only the affected
 realisations uncorrected when eta(p) <= 0

_correct_leaders returned a bare MultiResolutionQuantity when any eta_p was
non-positive, which its caller unpacks into two values (TypeError), and one
such realisation disabled the correction of all the others.
---
 pymultifracs/wavelet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..142ea17 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,6 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
@@ -65,6 +64,9 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
                        / (1 - np.power(2., -eta_p[:, None])))
     ZPJCorr = np.power(2, (-1.0 / p_exp) * zqhqcorr)
 
+    # The correction only applies to realisations for which eta_p > 0
+    ZPJCorr[eta_p <= 0] = 1.
+
     # ZPJCorr shape (n_rep, n_level)
 
     for ind_j, j in enumerate(JJ):
-- 
2.43.0


From 62a0129dfda15dbb603d0688464407aab347517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 02/25] fix: StructureFunction fills values and nj, and leaves
 H to None without q = 2

H raised IndexError whenever 2 was not in q, which includes the eta_p estimate
of p-leaders for every p other than 2, and when q was a list; the documented
values and nj attributes were never set (compute_hurst relies on the former).
---
 pymultifracs/structurefunction.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..b80d6a9 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -67,6 +67,7 @@ class StructureFunction(MultiResolutionQuantityBase):
     j2: int
     weighted: bool
     j: np.array = field(init=False)
+    values: np.array = field(init=False)
     logvalues: np.array = field(init=False)
     zeta: np.array = field(init=False)
     H: np.array = field(init=False)
@@ -76,7 +77,9 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
+        self.q = np.asarray(self.q)
         self.j = np.array(list(mrq.values))
 
         self._compute(mrq)
@@ -97,6 +100,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
@@ -123,7 +127,12 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
-        return (self.zeta[self.q == 2][0] / 2) - self.gamint
+        zeta_2 = self.zeta[self.q == 2]
+
+        if len(zeta_2) == 0:
+            return None
+
+        return (zeta_2[0] / 2) - self.gamint
 
     def get_intercept(self):
         intercept = self.intercept[self.q == 2]
-- 
2.43.0


From 597d75e7f169c7d08de05baeb8e2474842472033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 03/25] fix: minimal_mf_analysis returns lwt=None when there
 are no leaders

---
 pymultifracs/mfa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..a58a20c 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -165,8 +165,14 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
-    lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
-    lwt = MFractalVar(None, lwt_cumul, None, None)
+    if wt_leaders is not None:
+
+        lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
+        lwt = MFractalVar(None, lwt_cumul, None, None)
+
+    else:
+
+        lwt = None
 
     return MFractalData(dwt, lwt)
 
-- 
2.43.0


From 2c46f2c88db609fe32d830c5300660db9fa982a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 04/25] fix: make compute_hurst and plot_hmin usable

compute_hurst now returns the fractional-integration-compensated H of the
structure function; plot_hmin asked estimate_hmin for two values and unpacked
three, and formatted arrays as scalars.
---
 pymultifracs/estimation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..e770f50 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,8 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +69,10 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = ('$h_\\mathrm{min}$ = '
+              + ', '.join(f'{h:.5f}' for h in hmin))
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
@@ -91,6 +93,6 @@ def compute_hurst(wt_coefs, j1, j2, weighted):
 
     log2_Sj_2 = np.log2(structure_dwt.values[0, :])  # log2(S(j, 2))
     hurst_structure = log2_Sj_2
-    hurst = structure_dwt.zeta[0]/2
+    hurst = structure_dwt.H
 
     return hurst, structure_dwt, hurst_structure
-- 
2.43.0


From a7f9a9be7f5fe75223d81a459b2dee41e966226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 05/25] fix: bivariate_analysis returns lwt=None when there are
 no leaders

---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 4ea49cbf94449677533eb851d683809a70d2feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 06/25] fix: bivariate structure functions accept q lists,
 q=None and any exponents

The default q1=q2=None raised TypeError, lists raised IndexError, and so did
any q1, q2 lacking one of the exponents the coherence needs (now None then).
---
 pymultifracs/bivariate/bimfa.py                      |  5 +++++
 .../bivariate/bivariate_structurefunction.py         | 12 ++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 0259264..533889f 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -12,6 +12,11 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
     j2 = min(WT1.j2_eff, WT2.j2_eff)
 
+    # In case no value of q is specified, we still include what is needed to
+    # estimate the coherence
+    q1 = [0, 1, 2] if q1 is None else q1
+    q2 = [0, 1, 2] if q2 is None else q2
+
     parameters = {
         'q1': q1,
         'q2': q2,
diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index e9b5169..3141e51 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -42,6 +42,8 @@ class BiStructureFunction(MultiResolutionQuantityBase):
 
         assert mrq1.nj == mrq2.nj
         self.nj = mrq1.nj
+        self.q1 = np.asarray(self.q1)
+        self.q2 = np.asarray(self.q2)
         self.j = np.array(list(mrq1.values))
 
         self._compute(mrq1, mrq2)
@@ -65,12 +67,18 @@ class BiStructureFunction(MultiResolutionQuantityBase):
                         np.nanmean(fast_power(np.abs(mrq1.values[j]), q1)
                                    * fast_power(np.abs(mrq2.values[j]), q2))
 
+        self.logvalues = np.log2(abs_values)
+
+        # Needed exponents: (1, 1), (2, 0), (0, 2)
+        if not (np.isin([0, 1, 2], self.q1).all()
+                and np.isin([0, 1, 2], self.q2).all()):
+            self.coherence = None
+            return
+
         self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
                           / np.sqrt((values[self.q1 == 2, self.q2 == 0])
                                     * (values[self.q1 == 0, self.q2 == 2])))[0]
 
-        self.logvalues = np.log2(abs_values)
-
     def _compute_zeta(self):
         """
         Compute the value of the scale function zeta(q_1, q_2) for all q_1, q_2
-- 
2.43.0


From 25b7af8ffe952cde98bf9e85a14e9b9864b29426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 07/25] fix: compute the mixed bivariate cumulants beyond C11

C_m1m2 with m1, m2 >= 1 other than (1, 1) were left at zero, and n_cumul=1
raised IndexError with leaders because rho needs C20 and C02.
---
 pymultifracs/bivariate/bivariate_cumulants.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..36426e8 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -101,6 +101,23 @@ class BiCumulants(MultiResolutionQuantityBase):
                         self.values[ind_m1, ind_m2, ind_j] = \
                             moments[ind_m1, ind_m2, ind_j] - aux
 
+                    elif m1 > 0 and m2 > 0:
+                        aux = 0
+
+                        for n1 in range(1, m1+1):
+                            for n2 in range(m2+1):
+
+                                if n1 == m1 and n2 == m2:
+                                    continue
+
+                                aux += (binomial_coefficient(m1-1, n1-1)
+                                        * binomial_coefficient(m2, n2)
+                                        * self.values[n1, n2, ind_j]
+                                        * moments[m1-n1, m2-n2, ind_j])
+
+                        self.values[ind_m1, ind_m2, ind_j] = \
+                            moments[ind_m1, ind_m2, ind_j] - aux
+
     def _compute_log_cumulants(self):
         """
         Compute the log-cumulants
@@ -133,7 +150,7 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def _compute_rho(self):
 
-        if self.formalism == 'wavelet coef':
+        if self.formalism == 'wavelet coef' or self.n_cumul < 2:
             self.RHO_MF = None
             self.rho_mf = None
         else:
-- 
2.43.0


From fe31e8e8ee8ca653b1a8135de2decdc70f38071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 08/25] fix: Signal.estimate_wavelet_psd stores its parameters
 in wt_psd_param

It overwrote wt_param, the parameters of the wavelet transform, and never
recognised a PSD that was already computed.
---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..485f056 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,7 +113,7 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
+            self.wt_psd_param = param
 
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
-- 
2.43.0


From 31d8cec534f498b2e449d08a562a9d1b5c34ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 09/25] fix: Signal.mf_analysis and its cache

It passed mf_analysis keywords that do not exist (TypeError on every call),
returned an unbound local on a cache hit, compared q arrays of different shapes
element-wise, recorded the parameters of results that were not saved, and kept
the result of a previous wavelet transform.
---
 pymultifracs/signal.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 485f056..34724a0 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -38,16 +38,7 @@ def same_params(old_params, new_params):
         old_param = getattr(old_params, param)
         new_param = getattr(new_params, param)
 
-        if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
-
-            same = (old_param == new_param).all()
-
-        else:
-
-            same = old_param == new_param
-
-        if not(same):
+        if not np.array_equal(old_param, new_param):
             return False
 
     return True
@@ -176,6 +167,7 @@ class Signal:
         if self.wt_param is None or self.wt_param != new_param:
 
             self.wt_param = new_param
+            self.multi_fractal = None
             self.wt_transform = wavelet_analysis(self.data,
                                                  **self.wt_param._asdict())
 
@@ -226,26 +218,29 @@ class Signal:
 
         self._check_wt_transform()
 
-        new_param = MFParameters(q, n_cumul)
+        # q is copied: the caller may modify it later on
+        new_param = MFParameters(None if q is None else np.array(q), n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                wt_coefs=self.wt_transform.wt_coefs,
+                wt_leaders=self.wt_transform.wt_leaders,
+                j2_eff=self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
-                q=q,
+                q=new_param.q,
                 n_cumul=n_cumul
             )
 
             if save:
+                self.mf_param = new_param
                 self.multi_fractal = multi_fractal
 
-        return multi_fractal
+            return multi_fractal
+
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From 6b1d8837ebdf4940490cb7305e4f0a28c8cd277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 10/25] fix: Signal records the parameters of a result only
 once it is computed

When an estimation raised, the failed parameters were kept next to the previous
result, which the next call with these parameters then returned.
---
 pymultifracs/signal.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 34724a0..3bdf3cf 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -104,11 +104,10 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_psd_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
+            self.wt_psd_param = param
 
         return self.wt_psd
 
@@ -118,11 +117,10 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
+            self.welch_param = param
 
         return self.welch_psd
 
@@ -166,10 +164,10 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
+            self.wt_transform = wavelet_analysis(self.data,
+                                                 **new_param._asdict())
             self.wt_param = new_param
             self.multi_fractal = None
-            self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
 
         return self.wt_transform
 
-- 
2.43.0


From 9743eea8978a2de0f80bd47cc548b8a76cf5b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 11/25] fix: fgn honours z0 with method='cme', and
 gaussian_chol has the right covariance

fgn dropped z0 for the circulant embedding; gaussian_chol used the upper
Cholesky factor U, whose U @ z has covariance U U^T instead of U^T U.
---
 pymultifracs/simul/fbm.py     | 2 +-
 pymultifracs/simul/pzutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 379c3a2917b8046d5a99a6907028e6a164b86ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 12/25] fix: skewed_mrw draws 2N noise samples; mrw rejects
 unknown methods

skewness_convolution expects 2N samples, so that skewed_mrw raised on every
call; an unknown method surfaced as UnboundLocalError instead of ValueError.
---
 pymultifracs/simul/mrw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..9454921 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
@@ -173,6 +173,8 @@ def gaussian_w(N, R, L, lam, dt=1, method='cme', z0=None):
         w = gaussian_cme(cov, N, R, z0)
     elif method == 'chol':
         w = gaussian_chol(cov, N, R, z0)
+    else:
+        raise ValueError('Unknown synthesis method')
 
     return w
 
-- 
2.43.0


From a9727edf69f8a5b43804195b20db0572a50a7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 13/25] fix: scale2freq accepts integer numpy scales

---
 pymultifracs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..3ba564d 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -11,7 +11,7 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2 ** -scale)
+    return (3/4) * sfreq * (2. ** -scale)
 
 
 def freq2scale(freq, sfreq):
-- 
2.43.0


From e9ac838f3eb60facbfec046672eb75e8c8ba8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 14/25] fix: Welch PSD of short signals and odd n_fft, slope
 fits down to f = 0

welch_estimation raised for signals shorter than n_fft (4096 by default) and
mislabelled the frequencies for odd n_fft; estimate_beta raised whenever its
band included the null frequency.
---
 pymultifracs/psd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..5807caa 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -86,7 +86,7 @@ def _log_psd(freq, psd, log):
 
     # Avoid computing log(0)
     if np.any(freq == 0):
-        support = [freq != 0.0][0]
+        support = np.ravel(freq != 0.0)
         freq, psd = freq[support], psd[support]
 
     # Compute the logged values of the frequency and psd
@@ -206,8 +206,11 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
     if n_fft < seg_size:
         n_fft = seg_size
 
+    # Segments can not be longer than the signal
+    seg_size = min(seg_size, len(signal))
+
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = np.fft.rfftfreq(n_fft, 1 / fs)
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0


From 87d00e8ec36af3348306d7552bb7dbddb573c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/25] fix: beta of every realisation, and plot_fractal's
 legend

estimate_beta returned the slope of the first realisation only, next to the
intercepts of all; plot_fractal formatted the slope array as a scalar.
---
 pymultifracs/fractal_analysis.py | 5 +++--
 pymultifracs/signal.py           | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..29a62f0 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,8 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    beta = ', '.join(f'{b:.2f}' for b in np.atleast_1d(slope.beta))
+    legend = ['Fourier', 'Wavelet', f'Slope: {beta}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
@@ -144,6 +145,6 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     regressor.fit(freq, psd)
 
-    return FractalValues(beta=regressor.coef_[0],
+    return FractalValues(beta=regressor.coef_[..., 0],
                          log_C=regressor.intercept_,
                          freq=freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 3bdf3cf..75e95a2 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -143,9 +143,11 @@ class Signal:
 
         psd_slope = self.fractal.beta * self.fractal.freq + self.fractal.log_C
 
+        beta = ', '.join(f'{b:.2f}' for b in np.atleast_1d(self.fractal.beta))
+
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet', f'Slope: {beta}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From 99cda3cbf9756691508e0698c248aef453537406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 16/25] fix: plots of structure functions with q = 0, of single
 bivariate exponents, and of the bivariate spectrum

Skipping q = 0 kept its place in the grid of axes (IndexError); 1 x 1 grids of
axes were squeezed; plot_legendre used arguments matplotlib does not accept.
---
 pymultifracs/bivariate/bivariate_cumulants.py         | 7 ++++---
 pymultifracs/bivariate/bivariate_structurefunction.py | 1 +
 pymultifracs/structurefunction.py                     | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 36426e8..c89a3f0 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -159,7 +159,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def plot(self):
 
-        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7))
+        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, squeeze=False,
+                                 figsize=(12, 7))
 
         j_support = np.arange(self.j1, self.j2 + 1)
 
@@ -262,7 +263,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
@@ -281,7 +282,7 @@ class BiCumulants(MultiResolutionQuantityBase):
                                vmin=0, vmax=1,
                                rstride=1, cstride=1,
                                facecolors=colors, shade=False, linestyle='-',
-                               edgecolors='black', zorder=1)
+                               edgecolor='black', zorder=1)
         ax.set_zlim(0, 1)
         ax.view_init(elev=45)
 
diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index 3141e51..b73924a 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -107,6 +107,7 @@ class BiStructureFunction(MultiResolutionQuantityBase):
     def plot(self):
 
         fig, ax = plt.subplots(len(self.q1), len(self.q2), sharex=True,
+                               squeeze=False,
                                figsize=(len(self.q1) * 5 + 2,
                                         len(self.q2) * 3 + 2))
 
diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index b80d6a9..71377ba 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -169,6 +169,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
+        ind_ax = 0
         for ind_q, q in enumerate(self.q):
 
             if q == 0.0 and ignore_q0:
@@ -176,7 +177,8 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_ax % nrow][ind_ax // nrow]
+            ind_ax += 1
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -195,7 +197,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(ind_ax, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From 50fb43f25b2fa9f2018a1ba70b2db998f6db40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 17/25] fix: label of the bivariate c11 slope shows c11 like
 its siblings

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index c89a3f0..946c992 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -205,7 +205,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         plt.plot(j_support, ((j_support * self.slope[1, 1])
                              + self.intercept[1, 1]),
                  **slope_param,
-                 label=f'c11: {self.slope[1, 1]:.2f}')
+                 label=f'c11: {self.log_cumulants[1, 1]:.2f}')
         plt.legend()
         plt.ylabel('$C11$(j)', size='large')
         plt.xlabel('j', size='large')
-- 
2.43.0


From 98c22f2374903dc4e42b8017e976c769a1f3fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 18/25] fix: mrw2D amplitude field has the requested variance,
 and sigma is used

The inverse FFT left the log-amplitudes N times too small, so that lam had next
to no effect; sigma was ignored.
---
 pymultifracs/simul/mrw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 9454921..d3f698d 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -262,10 +262,12 @@ def mrw2D(shape, H, lam, L,  sigma=1):
     L = np.fft.fft2(corr)
 
     z1 = np.random.randn(N, N, R) + 1j * np.random.randn(N, N, R)
-    w = np.exp(np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1))))
+    # ifft2 divides by N ** 2, the unitary transform by N
+    w = np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1)))
+    w = np.exp(N * w)
 
     # Increment process:
-    X = np.random.randn(N, N, R) * w
+    X = sigma * np.random.randn(N, N, R) * w
 
     # Fractional integration to produce motion:
     BX = fract_int_2d(X, H + 1)
-- 
2.43.0


From 7e9961ea571adc98fd95a203bd6031b99a7b720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 19/25] fix: wavelet leaders leave the warning filters of the
 process alone

np.nanmax wrapped in catch_warnings swaps the process-wide filter list, and
concurrent analyses could leave every warning silenced for good.
---
 pymultifracs/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 3ba564d..e415826 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -5,7 +5,6 @@ Authors: Omar D. Domingues <omar.darwiche-domingues@inria.fr>
 
 from __future__ import print_function
 from __future__ import unicode_literals
-import warnings
 
 import numpy as np
 
@@ -145,8 +144,7 @@ def fixednansum(a, **kwargs):
     return res
 
 
-def fixednanmax(a, **kwargs):
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        a = np.nanmax(a, **kwargs)
-    return a
+def fixednanmax(a, axis=None, **kwargs):
+    # Like np.nanmax, but without a warning on all-nan slices: silencing it
+    # would alter the warning filters of the other threads of the process
+    return np.fmax.reduce(a, axis=axis, **kwargs)
-- 
2.43.0


From 1ab00fe6be5f22b7a045d708c883d9f6b32e4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 20/25] fix: Signal records the fractal parameters only once
 beta is estimated

---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 75e95a2..3484a71 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -153,12 +153,12 @@ class Signal:
 
     def fractal_analysis(self, n_moments=2, freq_band=(0.01, 2)):
 
-        self.fractal_param = FractalParameters(n_moments, freq_band)
         self.estimate_wavelet_psd(n_moments, None)
         self.fractal = estimate_beta(self.wt_psd.freq,
                                      self.wt_psd.psd,
                                      log=self.log,
                                      freq_band=freq_band)
+        self.fractal_param = FractalParameters(n_moments, freq_band)
 
         return self.fractal
 
-- 
2.43.0


From 818aca2be29fb7416a19548f915346ff67f8af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 21/25] fix: Welch PSD of array_like signals

---
 pymultifracs/psd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 5807caa..8c18eea 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -200,6 +200,8 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
 
     # Input argument sanitizing
 
+    signal = np.asarray(signal)
+
     if seg_size is None:
         seg_size = n_fft
 
-- 
2.43.0


From 25929ab8f5eb2129c20b62106dd2f9db61501c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 22/25] fix: linear_regression refuses values of another length
 than the support

---
 pymultifracs/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index e415826..eacab37 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -88,6 +88,8 @@ def linear_regression(x, y, nj, return_variance=False):
     # bj = np.array(nj, dtype=np.float)
     assert isinstance(nj, np.ndarray)
     assert len(nj) == len(x)
+    # otherwise a single value would be broadcast to all of x
+    assert len(y) == len(x)
 
     V_0 = np.sum(nj, axis=0)
     V_1 = np.sum(nj * x, axis=0)
-- 
2.43.0


From 6a3bdda269698dc433513bb1f35599df7e5b1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 23/25] fix: linear_regression no longer overflows with integer
 weights or abscissae

---
 pymultifracs/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index eacab37..9dd3ee4 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -91,6 +91,10 @@ def linear_regression(x, y, nj, return_variance=False):
     # otherwise a single value would be broadcast to all of x
     assert len(y) == len(x)
 
+    # products of large integers would wrap around
+    x = np.asarray(x, dtype=float)
+    nj = nj.astype(float)
+
     V_0 = np.sum(nj, axis=0)
     V_1 = np.sum(nj * x, axis=0)
     V_2 = np.sum(nj * (x**2), axis=0)
-- 
2.43.0


From 8219112663f415c9ce98c8ec6be7dfb624892125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 24/25] fix: results share neither exponents nor counts with
 their inputs

---
 pymultifracs/bivariate/bivariate_cumulants.py         | 2 +-
 pymultifracs/bivariate/bivariate_structurefunction.py | 6 +++---
 pymultifracs/cumulants.py                             | 2 +-
 pymultifracs/mfspectrum.py                            | 3 ++-
 pymultifracs/multiresquantity.py                      | 6 ++++++
 pymultifracs/structurefunction.py                     | 4 ++--
 6 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 946c992..001d324 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -38,7 +38,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         self.formalism = mrq1.formalism
 
         assert mrq1.nj == mrq2.nj
-        self.nj = mrq1.nj
+        self.nj = mrq1.copy_nj()
         self.j = np.array(list(mrq1.values))
 
         self.m = np.arange(0, self.n_cumul+1)
diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index b73924a..aeacc31 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -41,9 +41,9 @@ class BiStructureFunction(MultiResolutionQuantityBase):
         self.gamint = mrq1.gamint
 
         assert mrq1.nj == mrq2.nj
-        self.nj = mrq1.nj
-        self.q1 = np.asarray(self.q1)
-        self.q2 = np.asarray(self.q2)
+        self.nj = mrq1.copy_nj()
+        self.q1 = np.array(self.q1)
+        self.q2 = np.array(self.q2)
         self.j = np.array(list(mrq1.values))
 
         self._compute(mrq1, mrq2)
diff --git a/pymultifracs/cumulants.py b/pymultifracs/cumulants.py
index e5adbee..ddc4828 100644
--- a/pymultifracs/cumulants.py
+++ b/pymultifracs/cumulants.py
@@ -82,7 +82,7 @@ class Cumulants(MultiResolutionQuantityBase):
     def __post_init__(self, mrq):
 
         self.formalism = mrq.formalism
-        self.nj = mrq.nj
+        self.nj = mrq.copy_nj()
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
diff --git a/pymultifracs/mfspectrum.py b/pymultifracs/mfspectrum.py
index 23c4d13..3262af7 100644
--- a/pymultifracs/mfspectrum.py
+++ b/pymultifracs/mfspectrum.py
@@ -85,8 +85,9 @@ class MultifractalSpectrum(MultiResolutionQuantityBase):
     def __post_init__(self, mrq):
 
         self.formalism = mrq.formalism
-        self.nj = mrq.nj
+        self.nj = mrq.copy_nj()
         self.nrep = mrq.nrep
+        self.q = np.array(self.q)
         self.j = np.array(list(mrq.values))
 
         self._compute(mrq)
diff --git a/pymultifracs/multiresquantity.py b/pymultifracs/multiresquantity.py
index 3c45421..d1446ec 100644
--- a/pymultifracs/multiresquantity.py
+++ b/pymultifracs/multiresquantity.py
@@ -16,6 +16,12 @@ class MultiResolutionQuantityBase:
     nj: dict = field(init=False, default_factory=dict)
     nrep: int = field(init=False)
 
+    def copy_nj(self):
+        """
+        Returns an independent copy of nj
+        """
+        return {j: np.array(nj) for j, nj in self.nj.items()}
+
     def get_nj(self):
         """
         Returns nj as a list
diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 71377ba..5886578 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -77,9 +77,9 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
-        self.nj = mrq.nj
+        self.nj = mrq.copy_nj()
         self.nrep = mrq.nrep
-        self.q = np.asarray(self.q)
+        self.q = np.array(self.q)
         self.j = np.array(list(mrq.values))
 
         self._compute(mrq)
-- 
2.43.0


From ac4dca1fb7132d5865ee06b01580bb17566e1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 25/25] fix: conversions between scales and frequencies no
 longer wrap around with small or unsigned integers

---
 pymultifracs/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 9dd3ee4..197b293 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -10,11 +10,13 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2. ** -scale)
+    # the opposite of an unsigned integer would wrap around
+    return (3/4) * sfreq / 2. ** scale
 
 
 def freq2scale(freq, sfreq):
-    return - 2 - np.log2(freq / (3 * sfreq))
+    # a product of small integers would too
+    return - 2 - np.log2(freq / (3. * sfreq))
 
 
 def fband2scale(fband, sfreq):
-- 
2.43.0

